"""C10-C18: HDLC layer."""
import re

from framework import *
from absint import MISSING

FR = "hdlc.frame"


# ------------------------------------------------------------------ reference oracles
def ref_fcs_bits(octets):
    """CRC-16/X-25 over affine bits; octets: list of little-endian bit lists -> 16 affine bits (already complemented)."""
    reg = [(frozenset(), 1)] * 16
    for bits in octets:
        for b in bits:
            fb = (reg[0][0] ^ b[0], reg[0][1] ^ b[1])
            reg = reg[1:] + [(frozenset(), 0)]
            # polynomial 0x8408 = bits 3, 10, 15
            for p in (3, 10, 15):
                reg[p] = (reg[p][0] ^ fb[0], reg[p][1] ^ fb[1])
    return [(fs, k ^ 1) for fs, k in reg]


def octet_bits(I, v):
    v = I.facts.norm(v)
    b = bits_of(v if not isinstance(v, bool) else int(v))
    if b is None:
        raise Unsupported("octet without a bit view")
    return (b + [(frozenset(), 0)] * 8)[:8]


def ref_fcs(I, data):
    """two octets (low first) of the check sequence of data"""
    data = I.facts.norm(data)
    oct_ = []
    for x in bparts(data):
        if isinstance(x, Seg):
            raise Unsupported("check sequence over a string of unknown length")
        oct_.append(octet_bits(I, x))
    r = ref_fcs_bits(oct_)
    return byt([I.facts.norm(from_bits(r[:8])), I.facts.norm(from_bits(r[8:]))])


def octets(I, v):
    """byte view of an analysed bytes-like value"""
    r = I.byteslike(v)
    if r is None:
        raise Bad("not a byte string: %s" % I.show(v))
    return I.facts.norm(r)


def mkba(I, b):
    o = I.new(bytearray)
    o.p = b
    return o


def must_raise(I, fn, msg):
    st, v = I.attempt(fn)
    if st == "ok":
        raise Bad("%s accepted: %s" % (msg, I.show(v)))
    return v


# ------------------------------------------------------------------ C10
def check_C10(ck):
    CRC = ck.anchor(FR, "CRC")
    lens = list(range(0, 13)) + [64, 128, 255, 256, 257, 300]
    if ck.thorough:
        lens += list(range(13, 64)) + [512, 1024, 2030, 2047]
    for n in lens:
        def ob(I, n=n):
            m = I.in_fixed("m", n)
            got = octets(I, I.getattr(I.call(CRC, [], {"message": m}), "content"))
            I.need_eq(got, ref_fcs(I, m), "check sequence of a %d octet message" % n)
        ck.obligation("fcs-value", "message of %d octets" % n, ob, where=CRC)
    for n in ([0, 1, 2, 3, 9] if not ck.thorough else list(range(0, 24))):
        def ob2(I, n=n):
            m = I.in_fixed("m", n)
            f = I.in_fixed("f", 2)
            rest = I.in_bytes("rest", 0, 64)
            buf = mkba(I, byt([f, rest]))
            st, v = I.attempt(lambda: I.call(I.getattr(CRC, "from_frame"), [buf], {"message": m}))
            ok = I.eq(f, ref_fcs(I, m))
            if st == "ok":
                I.need(ok, "a wrong check sequence is accepted")
                I.need_eq(octets(I, I.getattr(v, "content")), f, "check sequence taken from the frame")
                I.need_eq(octets(I, buf), rest, "octets left after the check sequence")
            else:
                I.need(not ok, "the right check sequence is refused (%s)" % I.excname(v))
        ck.obligation("fcs-verify", "frame tail after %d octets" % n, ob2, where=CRC)
    for n in (0, 1, 3, 4):
        def ob3(I, n=n):
            m = I.in_fixed("c", n)
            must_raise(I, lambda: I.call(CRC, [], {"content": m}), "check sequence of %d octets" % n)
        ck.obligation("fcs-size", "content of %d octets" % n, ob3, where=CRC)


# ------------------------------------------------------------------ C11
def check_C11(ck):
    F = ck.anchor(FR, "Format")

    def build(I):
        ln = I.in_bits("length", 11)
        seg = I.in_bool("segmented")
        f = I.call(F, [], {"is_segmentation": seg, "length": ln})
        c = octets(I, I.getattr(f, "content"))
        b = bits_of(ln) if isinstance(ln, Lin) else bits_of(int(ln))
        b = (b + [(frozenset(), 0)] * 11)[:11]
        s = I.asint(seg)
        want = byt([add(0xA0, add(scale(s, 8), from_bits(b[8:11]))), from_bits(b[:8])])
        I.need_eq(c, want, "format field octets")
        for src, kind in ((f, "built"), (I.call(F, [c], {}), "decoded")):
            I.need_eq(I.getattr(src, "length"), ln, "length read from the %s field" % kind)
            I.need(I.truth(I.getattr(src, "is_segmentation")) == I.truth(seg), "segmentation bit read from the %s field" % kind)
            I.need_eq(I.getattr(src, "type"), 0xA, "type of the %s field" % kind)
    ck.obligation("format-build", "length 0..2047, both segmentation values", build, where=F)

    def over(I):
        ln = I.in_int("length", 2048, None)
        seg = I.in_choice("segmented", [False, True])
        must_raise(I, lambda: I.getattr(I.call(F, [], {"is_segmentation": seg, "length": ln}), "content"), "length above 11 bits")
    ck.obligation("format-range", "length > 2047", over, where=F)

    def neg(I):
        ln = I.in_int("length", None, -1)
        seg = I.in_choice("segmented", [False, True])
        must_raise(I, lambda: I.getattr(I.call(F, [], {"is_segmentation": seg, "length": ln}), "content"), "negative length")
    ck.obligation("format-range", "length < 0", neg, where=F)

    def dec(I):
        c = I.in_fixed("c", 2)
        hi, lo = bparts(c)
        st, v = I.attempt(lambda: I.call(F, [c], {}))
        hb = octet_bits(I, hi)
        typ = from_bits(hb[4:8])
        ok = I.eq(typ, 0xA)
        if st == "raise":
            I.need(not ok, "a type 3 field is refused (%s)" % I.excname(v))
            return
        I.need(ok, "a field of another type is accepted")
        hb = octet_bits(I, hi)
        I.need_eq(I.getattr(v, "length"), add(from_bits(octet_bits(I, lo)), scale(from_bits(hb[0:3]), 256)), "decoded length")
        I.need_eq(I.asint(I.getattr(v, "is_segmentation")), from_bits(hb[3:4]), "decoded segmentation bit")
        I.need_eq(octets(I, I.getattr(v, "content")), c, "content of a decoded field")
    ck.obligation("format-decode", "all 65536 fields", dec, where=F)
    for n in (0, 1, 3, 4):
        def size(I, n=n):
            must_raise(I, lambda: I.call(F, [I.in_fixed("c", n)], {}), "field of %d octets" % n)
        ck.obligation("format-size", "field of %d octets" % n, size, where=F)


# ------------------------------------------------------------------ C12
def check_C12(ck):
    A = ck.anchor(FR, "Address")
    AL = ck.anchor(FR, "AddressLength")

    def parts(n, up, lo):
        def hb(v, i):
            return from_bits((bits14(v) + [])[i:i + 7])
        def bits14(v):
            b = bits_of(v)
            return (b + [(frozenset(), 0)] * 14)[:14]
        if n == 1:
            return byt([add(scale(hb(up, 0), 2), 1)])
        if n == 2:
            return byt([scale(hb(up, 0), 2), add(scale(hb(lo, 0), 2), 1)])
        return byt([scale(hb(up, 7), 2), scale(hb(up, 0), 2), scale(hb(lo, 7), 2), add(scale(hb(lo, 0), 2), 1)])

    def readback(I, a, n, up, lo, tag):
        I.need_eq(I.getattr(a, "upper"), up, "upper address read back" + tag)
        got = I.getattr(a, "lower")
        if n == 1:
            I.need(got is None, "one-octet address has a lower address" + tag)
        else:
            I.need(got is not None, "lower address lost" + tag)
            I.need_eq(got, lo, "lower address read back" + tag)
        I.need_eq(I.length(a), n, "length of the address" + tag)

    def both(I):
        up, lo = I.in_bits("upper", 14), I.in_bits("lower", 14)
        a = I.call(A, [], {"upper_address": up, "lower_address": lo})
        up, lo = I.facts.norm(up), I.facts.norm(lo)
        small = not I.lt(127, up) and not I.lt(127, lo)
        zero = I.eq(lo, 0)
        up, lo = I.facts.norm(up), I.facts.norm(lo)
        n = (1 if small and zero else 2 if small else 4)
        if zero and not I.lt(127, up):
            n = 1
        up, lo = I.facts.norm(up), I.facts.norm(lo)
        c = octets(I, I.getattr(a, "content"))
        I.need_eq(blen(c), n, "octets of the address")
        I.need_eq(c, parts(n, up, lo), "address octets")
        readback(I, a, n, up, lo, "")
        buf = mkba(I, byt([c, I.in_bytes("rest", 3, 64)]))
        d = I.call(I.getattr(A, "from_frame"), [buf])
        I.need_eq(octets(I, I.getattr(d, "content")), c, "address decoded from a frame")
        readback(I, d, n, up, lo, " after decoding")
        I.need_eq(octets(I, buf), I.in_bytes("rest", 3, 64), "octets left after decoding an address")
    ck.obligation("address-build", "upper, lower in 0..16383, automatic length", both, where=A)

    def only_upper(I):
        up = I.in_bits("upper", 14)
        a = I.call(A, [], {"upper_address": up})
        n = 4 if I.lt(127, up) else 1
        up = I.facts.norm(up)
        c = octets(I, I.getattr(a, "content"))
        I.need_eq(c, parts(n, up, 0), "address octets")
        readback(I, a, n, up, 0, "")
    ck.obligation("address-build", "upper in 0..16383 without lower", only_upper, where=A)

    for n in (1, 2, 4):
        def forced(I, n=n):
            up, lo = I.in_bits("upper", 14), I.in_bits("lower", 14)
            ln = I.call(AL, [n])
            st, a = I.attempt(lambda: I.call(A, [], {"upper_address": up, "lower_address": lo, "length": ln}))
            usm = not I.lt(127, up)
            lsm = not I.lt(127, lo)
            lz = I.eq(lo, 0)
            fits = usm and lz if n == 1 else usm and lsm if n == 2 else True
            up, lo = I.facts.norm(up), I.facts.norm(lo)
            if st == "raise":
                I.need(not fits, "an address that fits %d octets is refused (%s)" % (n, I.excname(a)))
                return
            I.need(fits, "an address that does not fit %d octets is accepted" % n)
            I.need_eq(octets(I, I.getattr(a, "content")), parts(n, up, lo), "address octets")
            readback(I, a, n, up, lo, "")
        ck.obligation("address-forced-length", "%d octets" % n, forced, where=A)

    def badlen(I):
        v = I.in_int("length", None, None)
        st, a = I.attempt(lambda: I.call(AL, [v]))
        if st == "ok":
            I.need(any(I.eq(v, x) for x in (-1, 1, 2, 4)), "address length outside 1, 2, 4 accepted")
    ck.obligation("address-forced-length", "any other length refused", badlen, where=AL)

    for nm, lo_, hi_ in (("above 16383", 0x4000, None), ("negative", None, -1)):
        def over_u(I, lo_=lo_, hi_=hi_):
            up = I.in_int("upper", lo_, hi_)
            lo = I.in_choice("lower", [None, 0, 1, 0x80])
            must_raise(I, lambda: I.getattr(I.call(A, [], {"upper_address": up, "lower_address": lo}), "content"), "upper address out of range")
        ck.obligation("address-range", "upper " + nm, over_u, where=A)

        def over_l(I, lo_=lo_, hi_=hi_):
            lo = I.in_int("lower", lo_, hi_)
            up = I.in_choice("upper", [0, 1, 0x7f, 0x80, 0x3fff])
            must_raise(I, lambda: I.getattr(I.call(A, [], {"upper_address": up, "lower_address": lo}), "content"), "lower address out of range")
        ck.obligation("address-range", "lower " + nm, over_l, where=A)

    def decode(I):
        f = I.in_fixed("f", 4)
        rest = I.in_bytes("rest", 0, 40)
        o = bparts(f)
        buf = mkba(I, byt([f, rest]))
        st, v = I.attempt(lambda: I.call(I.getattr(A, "from_frame"), [buf]))
        n = None
        for i in range(4):
            if I.eq(from_bits(octet_bits(I, o[i])[:1]), 1):
                n = i + 1
                break
        if st == "raise":
            I.need(n in (3, None), "a well-formed %s octet address is refused (%s)" % (n, I.excname(v)))
            return
        I.need(n in (1, 2, 4), "a malformed address field is accepted")
        f = I.facts.norm(f)
        c = octets(I, I.getattr(v, "content"))
        I.need_eq(c, byt(bparts(f)[:n]), "octets of the decoded address")
        I.need_eq(octets(I, buf), byt(bparts(f)[n:] + bparts(rest)), "octets left after the address")
        h = [from_bits(octet_bits(I, x)[1:8]) for x in bparts(f)]
        if n == 1:
            readback(I, v, 1, h[0], None, "")
        elif n == 2:
            readback(I, v, 2, h[0], h[1], "")
        else:
            readback(I, v, 4, add(scale(h[0], 128), h[1]), add(scale(h[2], 128), h[3]), "")
    ck.obligation("address-decode", "any four octets and more", decode, where=A)
    for n in (0, 1, 2, 3):
        def short(I, n=n):
            f = I.in_fixed("f", n)
            o = bparts(f)
            buf = mkba(I, f)
            st, v = I.attempt(lambda: I.call(I.getattr(A, "from_frame"), [buf]))
            k = None
            for i in range(n):
                if I.eq(from_bits(octet_bits(I, o[i])[:1]), 1):
                    k = i + 1
                    break
            if st == "ok":
                I.need(k in (1, 2), "a truncated address field is accepted")
                I.need_eq(I.length(v), k, "length of the decoded address")
            else:
                I.need(k not in (1, 2), "a complete %s octet address is refused" % k)
        ck.obligation("address-decode", "%d octets" % n, short, where=A)

    def equal(I):
        n1, n2 = I.in_choice("n1", [1, 2, 4]), I.in_choice("n2", [1, 2, 4])
        def mkf(nm, n):
            f = bparts(I.in_fixed(nm, n))
            return byt([scale(from_bits(octet_bits(I, x)[1:8]), 2) for x in f[:-1]] + [add(scale(from_bits(octet_bits(I, f[-1])[1:8]), 2), 1)])
        c1, c2 = mkf("a", n1), mkf("b", n2)
        a1, a2 = I.call(A, [c1]), I.call(A, [c2])
        got = I.eq(a1, a2)
        want = n1 == n2 and I.eq(c1, c2)
        I.need(got == want, "address equality disagrees with the octets")
    ck.obligation("address-equal", "any two addresses", equal, where=A)


# ------------------------------------------------------------------ C13
KINDS = {"RR": 0b0001, "RNR": 0b0101, "REJ": 0b1001, "SREJ": 0b1101}
# HDLC unnumbered modifier bits M M M _ M M with P/F in bit 4 (ISO/IEC 13239 5.5.3)
UNUM = {"UI": 0x03, "XID": 0xAF, "TEST": 0xE3, "UIH": 0xEF, "SNRM": 0x83, "SARM": 0x0F, "SABM": 0x2F, "DISC": 0x43, "SNRME": 0xCF,
        "SARME": 0x4F, "SABME": 0x6F, "UP": 0x23, "SIM": 0x07, "SM": 0xC3, "RSET": 0x8F, "UA": 0x63, "FRMR": 0x87, "DM": 0x0F,
        "RD": 0x43, "RIM": 0x07}


def control_names(ck, C):
    """name -> number for every name declared in Control"""
    out = {}
    for n, v in C.d.items():
        if n.startswith("_") or n in ("mro",):
            continue
        if isinstance(v, Obj) and "_value_" in v.d:
            out[n] = v.d["_value_"]
    return out


def check_C13(ck):
    C = ck.anchor(FR, "Control")
    names = control_names(ck, C)
    for s in range(8):
        for r in range(8):
            for pf in (0, 1):
                n = "S%d_R%d%s" % (s, r, "_PF" if pf else "")
                w = r << 5 | pf << 4 | s << 1
                ck.fact("control-table", n, names.get(n) == w, "%s is %r, expected 0x%02x" % (n, names.get(n), w), C)
    for k, b in KINDS.items():
        for r in range(8):
            for pf in (0, 1):
                n = "%s_R%d%s" % (k, r, "_PF" if pf else "")
                w = r << 5 | pf << 4 | b
                ck.fact("control-table", n, names.get(n) == w, "%s is %r, expected 0x%02x" % (n, names.get(n), w), C)
    for k, b in UNUM.items():
        for suf, w in (("", b), ("_P", b | 0x10), ("_F", b | 0x10), ("_PF", b | 0x10)):
            n = k + suf
            if n in names:
                ck.fact("control-table", n, names[n] == w, "%s is %r, expected 0x%02x" % (n, names[n], w), C)
    for n in ("SNRM_P", "DISC_P", "UA_F", "DM_F", "FRMR_F", "UI_PF", "UI"):
        ck.fact("control-required", n, n in names, "control octet %s is not declared" % n, C)

    preds = {
        "is_info": lambda b: b[0] == 0,
        "is_supervisory": lambda b: b[0] == 1 and b[1] == 0,
        "is_unnumbered": lambda b: b[0] == 1 and b[1] == 1,
        "is_receive_ready": lambda b: b[0:4] == [1, 0, 0, 0],
        "is_receive_not_ready": lambda b: b[0:4] == [1, 0, 1, 0],
        "is_reject": lambda b: b[0:4] == [1, 0, 0, 1],
        "is_selective_reject": lambda b: b[0:4] == [1, 0, 1, 1],
        "is_information": lambda b: b[0] == 0 or (b[0:4] == [1, 1, 0, 0] and b[5:8] == [0, 0, 0]),
    }
    vals = sorted(set(names.values()))

    def members(I, only=None):
        return I.in_choice("octet", vals)
    for p, f in preds.items():
        ck.anchor(FR, "Control", p)

        def ob(I, p=p, f=f):
            v = members(I)
            c = I.call(C, [v])
            got = I.truth(I.meth(c, p))
            want = f([(v >> i) & 1 for i in range(8)])
            I.need(got == want, "%s of 0x%02x is %s" % (p, v, got))
        ck.obligation("control-kind", p, ob, where=ck.anchor(FR, "Control", p))

    def poll(I):
        v = members(I)
        if v & 3 == 3:
            return
        c = I.call(C, [v])
        got = I.truth(I.getattr(c, "is_poll"))
        I.need(got == bool(v & 0x10), "poll/final bit of 0x%02x is %s" % (v, got))
    ck.obligation("control-kind", "poll/final bit of numbered frames", poll, where=C)

    def one(I):
        v = members(I)
        c = I.call(C, [v])
        ks = [p for p in ("is_info", "is_supervisory", "is_unnumbered") if I.truth(I.meth(c, p))]
        I.need(len(ks) == 1, "0x%02x is classified as %s" % (v, ks or "nothing"))
    ck.obligation("control-kind", "exactly one frame class", one, where=C)

    def fromframe(I):
        v = members(I)
        rest = I.in_bytes("rest", 0, 40)
        buf = mkba(I, byt([v, rest]))
        c = I.call(I.getattr(C, "from_frame"), [buf])
        I.need_eq(I.getattr(c, "value"), v, "control octet read from a frame")
        I.need_eq(octets(I, buf), rest, "octets left after the control octet")
        I.need_eq(octets(I, I.getattr(c, "content")), bytes([v]), "content of the control octet")
    ck.obligation("control-codec", "every declared octet", fromframe, where=C)


# ------------------------------------------------------------------ C14
def check_C14(ck):
    C = ck.anchor(FR, "Control")

    def inp(I):
        return I.in_choice("s", list(range(8))), I.in_choice("r", list(range(8))), I.in_choice("pf", [0, 1])

    def send(I):
        s, r, pf = inp(I)
        c = I.call(C, [r << 5 | pf << 4 | s << 1])
        n = I.call(I.getattr(C, "next_send_sequence"), [c])
        want = r << 5 | pf << 4 | ((s + 1) % 8) << 1
        I.need_eq(I.getattr(n, "value"), want, "control after the I frame S%d R%d P/F %d" % (s, r, pf))
        I.need_eq(octets(I, I.getattr(n, "content")), bytes([want]), "octet of the next I frame")
    ck.obligation("sequence", "next send number", send, where=ck.anchor(FR, "Control", "next_send_sequence"))

    def recv(I):
        s, r, pf = inp(I)
        c = I.call(C, [r << 5 | pf << 4 | s << 1])
        n = I.call(I.getattr(C, "next_receiver_sequence"), [c])
        want = ((r + 1) % 8) << 5 | 0x10 | s << 1
        I.need_eq(I.getattr(n, "value"), want, "control after receiving, from S%d R%d P/F %d" % (s, r, pf))
    ck.obligation("sequence", "next receive number", recv, where=ck.anchor(FR, "Control", "next_receiver_sequence"))

    def rr(I):
        r, pf = I.in_choice("r", list(range(8))), I.in_choice("pf", [0, 1])
        c = I.call(C, [r << 5 | pf << 4 | 1])
        n = I.call(I.getattr(C, "next_receiver_sequence"), [c])
        v = I.getattr(n, "value")
        I.need_eq(I.binop("rshift", v, 5), (r + 1) % 8, "receive number after RR with R%d" % r)
        I.need_eq(I.binop("and", v, 0x10), 0x10, "P/F bit")
        I.need_eq(I.binop("and", v, 0xF), 1, "kind and send bits after RR with R%d" % r)
    ck.obligation("sequence", "next receive number after receive-ready", rr, where=ck.anchor(FR, "Control", "next_receiver_sequence"))

    Fm = ck.anchor(FR, "Frame")
    A = ck.anchor(FR, "Address")

    def frame(I, v):
        da, sa = I.call(A, [b"\x03"]), I.call(A, [b"\x21"])
        return I.call(Fm, [], {"DA": da, "SA": sa, "control": I.call(C, [v]), "info": b"\x01", "is_segmentation": False})

    def nxt(I):
        s, r, pf = inp(I)
        v2 = I.in_choice("other", [x << 1 for x in range(128)])
        f1, f2 = frame(I, r << 5 | pf << 4 | s << 1), frame(I, v2)
        got = I.truth(I.meth(f2, "is_next_send", f1))
        want = v2 == (r << 5 | pf << 4 | ((s + 1) % 8) << 1)
        I.need(got == want, "is_next_send is %s for 0x%02x after S%d R%d" % (got, v2, s, r))
    if ck.thorough:
        ck.obligation("sequence", "frame is the next to send", nxt, where=Fm, max_paths=40000)

    def nxt2(I):
        s, r = I.in_choice("s", list(range(8))), I.in_choice("r", list(range(8)))
        d1, d2 = I.in_choice("ds", list(range(8))), I.in_choice("dr", [0, 1, 2])
        v1 = r << 5 | 0x10 | s << 1
        v2 = ((r + d2) % 8) << 5 | 0x10 | ((s + d1) % 8) << 1
        f1, f2 = frame(I, v1), frame(I, v2)
        got = I.truth(I.meth(f2, "is_next", f1))
        I.need(got == (d1 == 1 and d2 == 1), "is_next is %s for S%+d R%+d" % (got, d1, d2))
        got = I.truth(I.meth(f2, "is_next_send", f1))
        I.need(got == (d1 == 1 and d2 == 0), "is_next_send is %s for S%+d R%+d" % (got, d1, d2))
    ck.obligation("sequence", "frame is the successor of another", nxt2, where=Fm)


# ------------------------------------------------------------------ C15
def addr_octets(I, nm, n):
    f = bparts(I.in_fixed(nm, n))
    return byt([scale(from_bits(octet_bits(I, x)[1:8]), 2) for x in f[:-1]] + [add(scale(from_bits(octet_bits(I, f[-1])[1:8]), 2), 1)])


def check_C15(ck):
    Fm = ck.anchor(FR, "Frame")
    A = ck.anchor(FR, "Address")
    C = ck.anchor(FR, "Control")

    combos = [(1, 1), (2, 1), (4, 1), (1, 4), (4, 4), (2, 2)]
    if ck.thorough:
        combos = [(a, b) for a in (1, 2, 4) for b in (1, 2, 4)]
    infos = [0, 1, 2, 3] if not ck.thorough else [0, 1, 2, 3, 4, 5, 8, 16, 33]

    def build(I, da, sa, ctl, info, seg):
        return I.call(Fm, [], {"DA": I.call(A, [da]), "SA": I.call(A, [sa]), "control": I.call(C, [ctl]), "info": info, "is_segmentation": seg})

    def layout(I, da, sa, ctl, info, seg):
        """reference frame octets"""
        il = len(bparts(info))
        n = 2 + len(bparts(da)) + len(bparts(sa)) + 1 + (il + 2 if il else 0) + 2
        hdr = byt([add(0xA0 | n >> 8, scale(I.asint(seg), 8)), n & 0xff, da, sa, ctl])
        if il:
            body = byt([hdr, ref_fcs(I, hdr), info])
        else:
            body = hdr
        return byt([0x7e, body, ref_fcs(I, body), 0x7e]), n

    for nd, ns in combos:
        for il in infos:
            if not ck.thorough and il > 1 and (nd, ns) not in ((1, 1), (4, 1)):
                continue

            def ob(I, nd=nd, ns=ns, il=il):
                da, sa = addr_octets(I, "da", nd), addr_octets(I, "sa", ns)
                ctl = I.in_choice("control", [0x10, 0x32, 0x93, 0x11, 0x03, 0x73])
                info = I.in_fixed("info", il)
                seg = I.in_choice("segmented", [False, True])
                f = build(I, da, sa, ctl, info, seg)
                want, n = layout(I, da, sa, ctl, info, seg)
                got = octets(I, I.getattr(f, "content"))
                I.need_eq(got, want, "octets of the frame")
                I.need_eq(I.length(f), n, "frame length")
                rest = I.in_bytes("rest", 0, 64)
                buf = mkba(I, byt([got, rest]))
                g = I.call(Fm, [buf])
                I.need_eq(octets(I, I.getattr(g, "info")), info, "information field received")
                I.need_eq(I.getattr(I.getattr(g, "control"), "value"), ctl, "control octet received")
                I.need(I.truth(I.getattr(g, "is_segmentation")) == seg, "segmentation bit received")
                hd = I.meth(g, "get_header")
                I.need_eq(octets(I, I.getattr(I.getitem(hd, 0), "content")), da, "destination address received")
                I.need_eq(octets(I, I.getattr(I.getitem(hd, 1), "content")), sa, "source address received")
                I.need_eq(octets(I, I.getattr(g, "content")), got, "octets of the received frame")
                left = octets(I, buf)
                # the closing flag may be shared with the next frame
                I.need(I.eq(left, rest) or I.eq(left, byt([0x7e, rest])), "octets left in the receive buffer: %s" % I.show(left))
            ck.obligation("frame-roundtrip", "addresses %d/%d octets, %d information octets" % (nd, ns, il), ob, where=Fm)

    # acceptance: whatever is accepted is a valid frame, octet for octet
    sizes = [9, 10, 11, 12, 13] if not ck.thorough else list(range(9, 20))
    for n in sizes:
        def acc(I, n=n):
            raw = I.in_fixed("x", n)
            buf = mkba(I, raw)
            st, g = I.attempt(lambda: I.call(Fm, [buf]))
            if st == "raise":
                return
            raw = I.facts.norm(raw)
            o = bparts(raw)
            I.need(I.eq(o[0], 0x7e), "a frame without opening flag is accepted")
            hb = octet_bits(I, o[1])
            I.need(I.eq(from_bits(hb[4:8]), 0xA), "a frame of another format type is accepted")
            ln = I.facts.norm(add(from_bits(octet_bits(I, o[2])), scale(from_bits(octet_bits(I, o[1])[0:3]), 256)))
            if not isinstance(ln, int):
                ln = I.small(ln, 64)
            I.need(ln + 2 <= n, "a frame longer than the octets received is accepted")
            raw = I.facts.norm(raw)
            o = [I.facts.norm(x) for x in bparts(raw)]
            I.need(I.eq(o[ln + 1], 0x7e), "a frame without closing flag is accepted")
            o = [I.facts.norm(x) for x in o]
            body, fcs = byt(o[1:ln - 1]), byt(o[ln - 1:ln + 1])
            I.need(I.eq(ref_fcs(I, body), fcs), "a frame with a wrong frame check sequence is accepted")
            o = [I.facts.norm(x) for x in o]
            # addresses and header
            p = 3
            for who in ("destination", "source"):
                k = None
                for i in range(4):
                    if I.eq(from_bits(octet_bits(I, o[p + i])[:1]), 1):
                        k = i + 1
                        break
                I.need(k in (1, 2, 4), "malformed %s address accepted" % who)
                p += k
            o = [I.facts.norm(x) for x in o]
            ctl = o[p]
            p += 1
            I.need_eq(I.getattr(I.getattr(g, "control"), "value"), ctl, "control octet of an accepted frame")
            o = [I.facts.norm(x) for x in o]
            left = ln - 1 - p
            if left == 0:
                info = b""
            else:
                I.need(left >= 2, "a frame with a truncated header check sequence is accepted")
                I.need(I.eq(ref_fcs(I, byt(o[1:p])), byt(o[p:p + 2])), "a frame with a wrong header check sequence is accepted")
                info = byt([I.facts.norm(x) for x in o[p + 2:ln - 1]])
            I.need_eq(octets(I, I.getattr(g, "info")), info, "information field of an accepted frame")
        ck.obligation("frame-accept", "any %d octets" % n, acc, where=Fm, max_paths=60000 if ck.thorough else 12000)

    T = ck.anchor(FR, "Frame", "try_from")

    def stream(I, g, what, il):
        da, sa = addr_octets(I, "da", 1), addr_octets(I, "sa", 1)
        info = I.in_fixed("info", il)
        want, n = layout(I, da, sa, 0x10, info, False)
        return da, sa, info, want, n

    for g in (0, 1, 3):
        def good(I, g=g):
            da, sa, info, want, n = stream(I, g, "good", 2)
            junk = I.in_fixed("junk", g)
            for x in bparts(junk):
                if I.eq(x, 0x7e):
                    return
            rest = I.in_bytes("rest", 0, 64)
            buf = mkba(I, byt([junk, want, rest]))
            f = I.call(T, [buf])
            I.need(f is not None, "an intact frame is not extracted")
            I.need_eq(octets(I, I.getattr(f, "content")), want, "octets of the extracted frame")
            left = octets(I, buf)
            I.need(I.eq(left, rest) or I.eq(left, byt([0x7e, rest])), "octets left after extraction: %s" % I.show(left))
        ck.obligation("stream", "intact frame after %d foreign octets" % g, good, where=T)

    def incomplete(I):
        da, sa, info, want, n = stream(I, 0, "", 4)
        o = bparts(want)
        cut = I.in_choice("kept", list(range(0, len(o))))
        part = byt(o[:cut])
        buf = mkba(I, part)
        f = I.call(T, [buf])
        I.need(f is None, "an incomplete frame is extracted")
        I.need_eq(octets(I, buf), part, "octets of an incomplete frame kept for later")
    ck.obligation("stream", "incomplete frame is kept", incomplete, where=T)

    def damaged(I):
        da, sa, info, want, n = stream(I, 0, "", 2)
        o = list(bparts(want))
        pos = I.in_choice("octet", [i for i in range(3, len(o) - 1)])
        b = I.in_choice("bit", list(range(8)))
        bits = octet_bits(I, o[pos])
        bits[b] = (bits[b][0], bits[b][1] ^ 1)
        o[pos] = I.facts.norm(from_bits(bits))
        rest = I.in_fixed("rest", 2)
        buf = mkba(I, byt(o + [rest]))
        f = I.call(T, [buf])
        I.need(f is None, "a damaged frame (octet %d bit %d) is extracted" % (pos, b))
        left = octets(I, buf)
        I.need(I.lt(blen(left), len(o) + 2), "a damaged frame is not consumed, the receiver cannot progress")
    ck.obligation("stream", "frame with one inverted bit is refused", damaged, where=T)

    def forme(I):
        d1, s1 = addr_octets(I, "da", 1), addr_octets(I, "sa", 2)
        d2, s2 = addr_octets(I, "db", 1), addr_octets(I, "sb", 2)
        f = build(I, d1, s1, 0x10, b"", False)
        got = I.truth(I.meth(f, "is_for_me", I.call(A, [s2]), I.call(A, [d2])))
        want = I.eq(s1, s2) and I.eq(d1, d2)
        I.need(got == want, "address match of a received frame is %s" % got)
    ck.obligation("addressed", "is_for_me", forme, where=ck.anchor(FR, "Frame", "is_for_me"))


# ------------------------------------------------------------------ C16
def check_C16(ck):
    Fm = ck.anchor(FR, "Frame")
    A = ck.anchor(FR, "Address")
    C = ck.anchor(FR, "Control")
    J = ck.anchor(FR, "Frame", "join_info")
    import collections
    maxk = 4 if not ck.thorough else 7

    def mkframe(I, s, r, info, seg):
        da, sa = I.call(A, [b"\x03"]), I.call(A, [b"\x21"])
        return I.call(Fm, [], {"DA": da, "SA": sa, "control": I.call(C, [r << 5 | 0x10 | s << 1]), "info": info, "is_segmentation": seg})

    def deque(I, items):
        o = I.new(collections.deque)
        o.p = list(items)
        return o

    for k in list(range(1, maxk + 1)) + [8, 9, 10, 17, 33, 130]:
        def ob(I, k=k):
            s0, r = (I.in_choice("s", [0, 5, 7]), I.in_choice("r", [0, 3])) if k < 9 else (6, 3)
            extra = I.in_choice("extra", [0, 1])
            infos = [I.in_fixed("i%d_" % i, 1 + i % 2) if k < 20 or i in (0, k - 1) else bytes([i]) for i in range(k)]
            frames = [mkframe(I, (s0 + i) % 8, r, infos[i], i < k - 1) for i in range(k)]
            more = [mkframe(I, (s0 + k) % 8, r, b"\xee", False) for _ in range(extra)]
            q = deque(I, frames + more)
            got = octets(I, I.call(J, [q]))
            I.need_eq(got, byt(infos), "joined information of %d segments" % k)
            I.need_eq(I.length(q), extra, "frames left in the queue")
            if extra:
                I.need(I.getitem(q, 0) is more[0], "the frame left is not the next one")
        ck.obligation("join", "%d segments" % k, ob, where=J)

    for k, n in ((3, 2030), (40, 120), (9, 1000)):
        def long(I, k=k, n=n):
            infos = [byt([I.in_byte("first %d" % i) if i in (0, k - 1) else i, bytes((i + j) & 255 for j in range(n - 1))]) for i in range(k)]
            q = deque(I, [mkframe(I, (5 + i) % 8, 1, infos[i], i < k - 1) for i in range(k)])
            I.need_eq(octets(I, I.call(J, [q])), byt(infos), "joined information of %d segments of %d octets" % (k, n))
        ck.obligation("join", "%d segments of %d octets" % (k, n), long, where=J)

    def none(I):
        must_raise(I, lambda: I.call(J, [deque(I, [])]), "empty queue")
    ck.obligation("join", "no frame", none, where=J)

    for k in (1, 2, 3):
        def lost(I, k=k):
            s0 = I.in_choice("s", list(range(8)))
            infos = [I.in_fixed("i%d_" % i, 1) for i in range(k)]
            q = deque(I, [mkframe(I, (s0 + i) % 8, 0, infos[i], True) for i in range(k)])
            must_raise(I, lambda: I.call(J, [q]), "a message whose last segment is missing")
        ck.obligation("join", "last of the segments missing (%d present)" % k, lost, where=J)

    def gap(I):
        s0 = I.in_choice("s", [0, 6, 7])
        d = I.in_choice("step", [0, 2, 3, 7])
        q = deque(I, [mkframe(I, s0, 0, I.in_fixed("a", 1), True), mkframe(I, (s0 + d) % 8, 0, I.in_fixed("b", 1), False)])
        must_raise(I, lambda: I.call(J, [q]), "a segment out of sequence")
    ck.obligation("join", "segment with a wrong send number is not joined", gap, where=J)

    def unnum(I):
        da, sa = I.call(A, [b"\x03"]), I.call(A, [b"\x21"])
        ctl = I.in_choice("control", [0x11, 0x73, 0x93])
        other = I.call(Fm, [], {"DA": da, "SA": sa, "control": I.call(C, [ctl]), "info": b"", "is_segmentation": False})
        info = I.in_fixed("i", 2)
        q = deque(I, [other, mkframe(I, 3, 0, info, False)])
        I.need_eq(octets(I, I.call(J, [q])), info, "information after a frame of another kind")
    ck.obligation("join", "other frames carry no information", unnum, where=J)


# ------------------------------------------------------------------ C17
def check_C17(ck):
    NG = "hdlc.negotiation"
    N = ck.anchor(NG, "Negotiation")
    attrs = ("max_info_transmit", "max_info_receive", "window_transmit", "window_receive")

    def be(I, v, n):
        return byt(bytes([0] * 0)) if n == 0 else octets(I, I.meth(v, "to_bytes", n, "big")) if not isinstance(v, int) else v.to_bytes(n, "big")

    def snrm(I):
        tx = I.in_bits("tx", 11)
        rx = I.in_bits("rx", 11)
        for v in (tx, rx):
            if I.lt(v, 32) or I.lt(2030, v):
                return
        wt, wr = I.in_choice("wtx", [1, 2, 5, 7]), I.in_choice("wrx", [1, 3, 4, 7])
        n = I.call(N, [], {"max_info_transmit": tx, "max_info_receive": rx, "window_transmit": wt, "window_receive": wr})
        c = octets(I, I.getattr(n, "content"))
        parts = []
        for ident, v in ((5, tx), (6, rx)):
            if I.eq(v, 128):
                continue
            v = I.facts.norm(v)
            if I.lt(v, 256):
                parts.append(byt([ident, 1, I.facts.norm(v)]))
            else:
                v = I.facts.norm(v)
                b = (bits_of(v) + [(frozenset(), 0)] * 16)[:16]
                parts.append(byt([ident, 2, from_bits(b[8:]), from_bits(b[:8])]))
        for ident, v in ((7, wt), (8, wr)):
            if v != 1:
                parts.append(bytes([ident, 4, 0, 0, 0, v]))
        body = byt(parts)
        ln = blen(body)
        want = byt([0x81, 0x80, ln, body]) if parts else b""
        I.need_eq(c, want, "parameter block")
        I.need_eq(octets(I, I.getattr(n, "info")), want, "information field of the proposal")
        I.need_eq(I.length(n), blen(want), "length of the proposal")
    ck.obligation("proposal", "all parameters in range", snrm, where=ck.anchor(NG, "Negotiation", "SNRM"))

    def defaults(I):
        n = I.call(N, [])
        for a, d in zip(attrs, (128, 128, 1, 1)):
            I.need_eq(I.getattr(n, a), d, "default %s" % a)
        I.need_eq(octets(I, I.getattr(n, "content")), b"", "proposal of the defaults")
    ck.obligation("proposal", "defaults", defaults, where=N)

    # UA parsing: parameter -> attribute that must receive it (the peer's transmit is our receive)
    target = {5: "max_info_receive", 6: "max_info_transmit", 7: "window_receive", 8: "window_transmit"}
    rng = {5: (32, 2030), 6: (32, 2030), 7: (1, 7), 8: (1, 7)}

    def state(I, n):
        return [I.getattr(n, a) for a in attrs]

    for ident in (5, 6, 7, 8):
        for ln in (1, 2, 4):
            def one(I, ident=ident, ln=ln):
                v = I.in_fixed("v", ln)
                o = bparts(v)
                val = 0
                for x in o:
                    val = add(scale(val, 256), x)
                n = I.call(N, [], dict(zip(attrs, (200, 300, 2, 3))))
                octets(I, I.getattr(n, "content"))
                block = byt([0x81, 0x80, 2 + ln, ident, ln, v])
                st, e = I.attempt(lambda: I.meth(n, "set_from_UA", block))
                lo, hi = rng[ident]
                val = I.facts.norm(val)
                inr = I.le(lo, val) and I.le(val, hi)
                for a, d in zip(attrs, (128, 128, 1, 1) if st == "ok" else (200, 300, 2, 3)):
                    got = I.getattr(n, a)
                    if st == "ok" and a == target[ident]:
                        I.need(inr, "parameter %d out of range accepted" % ident)
                        I.need_eq(got, val, "%s after parameter %d" % (a, ident))
                    else:
                        I.need_eq(got, d, "%s after parameter %d" % (a, ident))
                if st == "raise":
                    I.need(not inr, "parameter %d in range refused (%s)" % (ident, I.excname(e)))
            ck.obligation("response", "parameter %d with %d octets" % (ident, ln), one, where=ck.anchor(NG, "Negotiation", "set_from_UA"))

    def absent(I):
        n = I.call(N, [], dict(zip(attrs, (200, 300, 2, 3))))
        I.meth(n, "set_from_UA", b"")
        for a, d in zip(attrs, (128, 128, 1, 1)):
            I.need_eq(I.getattr(n, a), d, "%s after an empty response" % a)
    ck.obligation("response", "no parameters", absent, where=ck.anchor(NG, "Negotiation", "set_from_UA"))

    def full(I):
        order = I.in_choice("order", [(5, 6, 7, 8), (8, 7, 6, 5), (6, 5, 8, 7)])
        vals = {}
        parts = []
        for i in order:
            if i in (5, 6):
                v = I.in_bits("p%d" % i, 11)
                if I.lt(v, 32) or I.lt(2030, v):
                    return
                v = I.facts.norm(v)
                b = (bits_of(v) + [(frozenset(), 0)] * 16)[:16]
                parts.append(byt([i, 2, from_bits(b[8:]), from_bits(b[:8])]))
            else:
                v = I.in_choice("p%d" % i, [1, 2, 3, 4, 5, 6, 7])
                parts.append(bytes([i, 4, 0, 0, 0, v]))
            vals[i] = v
        body = byt(parts)
        n = I.call(N, [])
        I.meth(n, "set_from_UA", byt([0x81, 0x80, blen(body), body]))
        for i in order:
            I.need_eq(I.getattr(n, target[i]), vals[i], "%s from a full response" % target[i])
    ck.obligation("response", "all four parameters, three orders", full, where=ck.anchor(NG, "Negotiation", "set_from_UA"))

    def bad(I):
        k = I.in_choice("case", ["format", "group", "length", "tag", "truncated"])
        n = I.call(N, [], {"max_info_transmit": 200, "window_receive": 3})
        before = state(I, n)
        if k == "format":
            x = I.in_byte("x")
            if I.eq(x, 0x81):
                return
            b = byt([x, 0x80, 3, 5, 1, 0x40])
        elif k == "group":
            x = I.in_byte("x")
            if I.eq(x, 0x80):
                return
            b = byt([0x81, x, 3, 5, 1, 0x40])
        elif k == "length":
            x = I.in_byte("x")
            if I.eq(x, 3):
                return
            b = byt([0x81, 0x80, x, 5, 1, 0x40])
        elif k == "tag":
            x = I.in_byte("x")
            if any(I.eq(x, t) for t in (5, 6, 7, 8)):
                return
            b = byt([0x81, 0x80, 3, x, 1, 7])
        else:
            b = I.in_choice("short", [b"\x81", b"\x81\x80", b"\x81\x80\x01\x05", b"\x81\x80\x02\x05\x01", b"\x81\x80\x03\x05\x02\x40", b"\x81\x80\x03\x06\xff\x40", b"\x81\x80\x05\x07\x04\x00\x00\x03",
                                    b"\x81\x80\x03\x08\x04\x03", b"\x81\x80\x06\x05\x01\x40\x06\x02\x40", b"\x81\x80\x05\x05\x01\x40\x07\x01"])
        must_raise(I, lambda: I.meth(n, "set_from_UA", b), "response with a wrong %s" % k)
        for a, x, y in zip(attrs, before, state(I, n)):
            I.need_eq(y, x, "%s after a refused response" % a)
    ck.obligation("response", "malformed response is refused and changes nothing", bad, where=ck.anchor(NG, "Negotiation", "set_from_UA"))

    def partial(I):
        first = I.in_choice("first", [5, 6, 7, 8])
        second = I.in_choice("second", [5, 6, 7, 8])
        n = I.call(N, [], {"max_info_transmit": 200, "max_info_receive": 300, "window_transmit": 2, "window_receive": 3})
        before = state(I, n)
        b = bytes([0x81, 0x80, 8 if False else 6, first, 1, 64 if first < 7 else 4, second, 1, 0])
        must_raise(I, lambda: I.meth(n, "set_from_UA", b), "response with one parameter out of range")
        for a, x, y in zip(attrs, before, state(I, n)):
            I.need_eq(y, x, "%s after a refused response" % a)
    ck.obligation("response", "refused as a whole", partial, where=ck.anchor(NG, "Negotiation", "set_from_UA"))

    def stale(I):
        n = I.call(N, [])
        octets(I, I.getattr(n, "content"))
        I.meth(n, "set_from_UA", b"\x81\x80\x03\x05\x01\x40")
        I.need_eq(octets(I, I.getattr(n, "content")), b"\x81\x80\x03\x06\x01\x40", "proposal rebuilt after a response")
    ck.obligation("response", "later proposal carries the negotiated values", stale, where=N)


# ------------------------------------------------------------------ C18
def check_C18(ck):
    L = ck.anchor("hdlc.sub_layer", "LLC")

    def build(I):
        m = I.in_bytes("message", 0, 65535)
        l = I.call(L, [], {"message": m})
        c = octets(I, I.getattr(l, "content"))
        I.need_eq(c, byt([0xe6, 0xe6, 0, m]), "LLC header of a command")
        I.need_eq(octets(I, I.getattr(l, "info")), m, "payload")
        I.need_eq(I.length(l), add(3, blen(m)), "length")
    ck.obligation("llc-build", "any payload", build, where=L)

    def parse(I):
        h = I.in_fixed("h", 3)
        m = I.in_bytes("message", 0, 65535)
        o = bparts(h)
        buf = mkba(I, byt([h, m]))
        st, l = I.attempt(lambda: I.call(L, [], {"content": buf}))
        ok = (I.eq(o[0], 0xe6) or I.eq(o[0], 0xff)) and (I.eq(o[1], 0xe6) or I.eq(o[1], 0xe7)) and I.eq(o[2], 0)
        if st == "raise":
            I.need(not ok, "a valid header is refused (%s)" % I.excname(l))
            return
        I.need(ok, "an invalid header is accepted")
        I.need_eq(octets(I, I.getattr(l, "info")), m, "payload of a parsed unit")
        I.need_eq(octets(I, I.getattr(l, "content")), I.facts.norm(byt([I.facts.norm(x) for x in o] + bparts(m))), "octets of a parsed unit")
    ck.obligation("llc-parse", "any header and payload", parse, where=L)
    for n in (0, 1, 2):
        def short(I, n=n):
            buf = mkba(I, I.in_fixed("h", n))
            must_raise(I, lambda: I.call(L, [], {"content": buf}), "header of %d octets" % n)
        ck.obligation("llc-parse", "%d octets" % n, short, where=L)
