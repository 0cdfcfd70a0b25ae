FR = "hdlc/frame.py"
CDT = "types/common_data_types.py"
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = {"property": prop, "edits": edits, "demo": demo, "needs": needs, "breaks": breaks}


seed("s01", "C12", [(FR, "return (self.__content[2] >> 1)*128 + (self.__content[3] >> 1)", 'return int.from_bytes(self.__content[2:], "big") >> 1')], """
A = mod("hdlc.frame").Address
for low in (1, 127, 128, 300, 16383):
    a = A(upper_address=1, lower_address=low, length=4)
    b = A.from_frame(bytearray(a.content))
    assert (b.upper, b.lower) == (1, low), (low, b.lower)
""", "a four-octet address whose lower part is above 127", "the lower address of a four-octet address field decodes to another address")

seed("s02", "C10", [(FR, "0xB9EB, 0xA862, 0x9AF9", "0xB9EB, 0xA826, 0x9AF9")], """
CRC = mod("hdlc.frame").CRC
def ref(m):
    v = 0xFFFF
    for o in m:
        v ^= o
        for _ in range(8):
            v = v >> 1 ^ (0x8408 if v & 1 else 0)
    return (v ^ 0xFFFF).to_bytes(2, "little")
for o in range(256):
    assert CRC(message=bytes([o])).content == ref(bytes([o])), o
""", "a message that indexes the one changed table entry", "the check sequence of messages that use table entry 125 is not the CRC")

seed("s03", "C14", [(FR, "return Control(((value & 0xFF) + 0x20 | 0x10 | value & 0xE) & 0xFF)", "return Control(((value & 0xE0) + 0x20 | 0x10 | value & 0xE) & 0xFF)")], """
C = mod("hdlc.frame").Control
for r in range(8):
    for s in range(8):
        assert C.next_receiver_sequence(C(r << 5 | 0x10 | s << 1)).value == ((r + 1) % 8) << 5 | 0x10 | s << 1
    assert C.next_receiver_sequence(C(r << 5 | 0x11)).is_receive_ready(), r
""", "advancing the receive number of a receive-ready octet", "the successor of a receive-ready control octet is an information octet")

seed("s04", "C17", [("hdlc/negotiation.py", "            i_rx = i_tx = MAX_INFO_DEFAULT\n", "            i_rx, i_tx = self.max_info_receive, self.max_info_transmit\n")], """
N = mod("hdlc.negotiation").Negotiation
n = N(max_info_transmit=500, max_info_receive=700)
n.set_from_UA(bytes.fromhex("818006 0702 0003 0801 01".replace(" ", "")) if False else bytes.fromhex("8180060701030801" + "01"))
assert (n.max_info_transmit, n.max_info_receive) == (128, 128), n
""", "a non-default proposal answered by a response that does not name the information lengths", "the proposed instead of the default information length is kept")

seed("s05", "C16", [(FR, "if next_frame.control.is_info() and next_frame.is_next_send(frame):", "if next_frame.control.is_info():")], """
from collections import deque
f = mod("hdlc.frame")
a = f.Address(upper_address=1)
def fr(s, info, seg):
    return f.Frame(DA=a, SA=a, control=f.Control(0x10 | s << 1), info=info, is_segmentation=seg)
assert bytes(f.Frame.join_info(deque([fr(6, b"a", True), fr(7, b"b", True), fr(0, b"c", False)]))) == b"abc"
assert bytes(f.Frame.join_info(deque([fr(6, b"a", True), fr(6, b"a", True), fr(7, b"b", False)]))) == b"ab"
""", "a segment that is repeated (retransmitted) in the received frames", "a repeated segment is joined twice")

seed("s06", "C15", [(FR, "if self.__format.length + 2 > len(content):", "if self.__format.length + 1 > len(content):")], """
f = mod("hdlc.frame")
a = f.Address(upper_address=1)
c = f.Frame(DA=a, SA=a, control=f.Control(0x10), info=b"abcdef", is_segmentation=False).content
for n in range(len(c)):
    assert f.Frame.try_from(bytearray(c[:n])) is None, n
assert f.Frame.try_from(bytearray(c)).info == b"abcdef"
""", "a frame received up to but not including its closing flag", "the incomplete frame ends in an IndexError instead of being reported as incomplete")

seed("s07", "C35", [(CDT, "if len(sequence) != len(self):", "if len(sequence) < len(self):")], """
c = mod("types.common_data_types")
class S(c.Structure):
    a: c.Unsigned
    b: c.Long
assert S((1, 2)).encoding.hex() == "0202110110" + "0002"
assert refused(lambda: S((1,)))
assert refused(lambda: S((1, 2, 3)))
""", "a structure built from a sequence with more values than elements", "surplus values are dropped silently")

seed("s08", "C02", [(CDT, "case self.TAG if self.__length <= len(pdu) * 8:", "case self.TAG if self.__length // 8 <= len(pdu):")], """
B = mod("types.common_data_types").BitString
assert B(bytes.fromhex("040cabc0")).encoding.hex() == "040cabc0"
assert refused(lambda: B(bytes.fromhex("0410ab")))
assert refused(lambda: B(bytes.fromhex("040cab")))
""", "a bit string whose size is not a multiple of eight, cut by its last octet", "the truncated bit string is decoded")

seed("s09", "C04", [(CDT, "    if bool(define_length & 0b10000000):\n        content_start += define_length - 0x80", "    if bool(define_length & 0b10000000):\n        content_start += define_length & 0b11")], """
c = mod("types.common_data_types")
for n in (0, 127, 128, 255, 256, 65535, 65536, 1 << 24, (1 << 32) - 1):
    assert c.get_length_and_pdu(c.encode_length(n) + b"xy") == (n, b"xy"), n
""", "a length of 65536 or more (four length octets)", "a length prefix with four length octets is read as zero")

seed("s10", "C03", [(CDT, "return int(value).to_bytes(self.LENGTH, 'big', signed=self.SIGNED)\n", "return int(value).to_bytes(self.LENGTH, 'big', signed=value < 0)\n")], """
c = mod("types.common_data_types")
for t, lo, hi in ((c.Unsigned, 0, 255), (c.Long, -32768, 32767), (c.Integer, -128, 127)):
    for v in (lo, hi, 0):
        assert int(t(v)) == v
    assert refused(lambda: t(lo - 1)), t
    assert refused(lambda: t(hi + 1)), t
""", "a negative number for an unsigned type or a number with the sign bit set for a signed one", "out-of-range integers are stored as other numbers")

seed("s11", "C06", [("types/byte_buffer.py", "        ret = self.read_pos(self.__pos, length)\n        self.__pos += length\n        return ret\n", "        self.__pos += length\n        return self.read_pos(self.__pos - length, length)\n")], """
B = mod("types.byte_buffer").ByteBuffer
b = B.wrap(b"abcdef")
assert bytes(b.read(4)) == b"abcd"
assert refused(lambda: b.read(3), BufferError)
assert b.get_pos() == 4
assert bytes(b.read(2)) == b"ef"
""", "a read that is refused for lack of data, followed by further use of the buffer", "a refused read moves the cursor past the end")

seed("s12", "C07", [("types/cosem_pdu.py", "    elif length < 0x1_00_00:\n        return 3\n", "    elif length <= 0x1_00_00:\n        return 3\n")], """
p = mod("types.cosem_pdu")
for n in (0, 127, 128, 255, 256, 65535, 65536, 65537):
    v = p.OctetString(memoryview(bytes(n)))
    b = p.create_buf(v)
    assert bytes(p.OctetString.get(b).contents) == bytes(n), n
""", "contents of exactly 65536 octets", "the size computed for an element of 65536 octets is too small and it cannot be written")

seed("s13", "C18", [("hdlc/sub_layer.py", "return pack('BBB', self.__destination_lsap, self.__source_lsap, self.__QUALITY) + self.__info", "return pack('BBB', self.__destination_lsap, self.__COMMAND, self.__QUALITY) + self.__info")], """
L = mod("hdlc.sub_layer").LLC
assert L(message=b"abc").content == b"\\xe6\\xe6\\x00abc"
assert L(content=bytearray(b"\\xe6\\xe7\\x00abc")).content == b"\\xe6\\xe7\\x00abc"
""", "writing out a header that was parsed from a response", "a response is written with the command selector")

seed("s14", "C29", [(CDT, "            tmp.insert(0, tmp.pop())\n", "            tmp.insert(1, tmp.pop())\n")], """
B = mod("types.common_data_types").BitString
b = B("10010")
b >> 1
assert str(b) == "01001", str(b)
b << 2
assert str(b) == "00101", str(b)
b = B("01100001")
b >> 3
assert str(b) == "00101100", str(b)
""", "rotating a bit string right", "the bit that leaves at the right end is put behind the first bit")

seed("s15", "C37", [(CDT, "        return self.__class__(self.encoding)\n", "        new = self.__class__.__new__(self.__class__)\n        new.__dict__.update(self.__dict__)\n        return new\n")], """
c = mod("types.common_data_types")
class S(c.Structure):
    a: c.Unsigned
    b: c.Long
u = c.Unsigned(4)
v = u.copy()
v.set(5)
assert int(u) == 4
s = S((1, 2))
t = s.copy()
t.a.set(9)
assert s.encoding.hex() == "02021101100002", s.encoding.hex()
""", "editing an element of the copy of a structure or array", "the copy of a composed value shares its elements with the original")

seed("s16", "C05", [(CDT, """        new_value = self._new_instance(value)
        if hasattr(self, 'cb_preset'):
            self.cb_preset(new_value)
        self.__dict__['contents'] = new_value.contents
        self.__length = len(new_value)
""", """        new_value = self._new_instance(value)
        self.__length = len(new_value)
        if hasattr(self, 'cb_preset'):
            self.cb_preset(new_value)
        self.__dict__['contents'] = new_value.contents
""")], """
B = mod("types.common_data_types").BitString
b = B("1100")
def no(v):
    raise ValueError("no")
b.register_cb_preset(no)
assert refused(lambda: b.set("111111111"))
assert b.encoding.hex() == "0404c0", b.encoding.hex()
""", "a pre-assignment callback that refuses a bit string of another size", "after the refused assignment the bit string encodes with the refused size")

seed("s17", "C11", [(FR, "                if self.type != 0xA:", "                if self.type & 0xA != 0xA:")], """
f = mod("hdlc.frame")
for t in range(16):
    ok = not refused(lambda: f.Format(bytes([t << 4, 9])), f.FormatDataError, ValueError)
    assert ok == (t == 0xA), t
""", "a format field of type 11, 14 or 15", "frames of another format type are accepted as type 3")

seed("s18", "C13", [(FR, "return self.value & 0b1111 == 0b0101", "return self.value & 0b0111 == 0b0101")], """
C = mod("hdlc.frame").Control
for v in range(256):
    try:
        c = C(v)
    except ValueError:
        continue
    n = [c.is_receive_ready(), c.is_receive_not_ready(), c.is_reject(), c.is_selective_reject()]
    assert sum(n) == (v & 3 == 1), (v, n)
""", "a selective-reject control octet", "selective reject is classified as receive not ready too")
