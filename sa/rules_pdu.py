"""C06 (byte buffer), C07 (buffer-backed protocol elements)."""
from framework import *
from rules_types import octet_bits_w, must_raise, mkba, octets
from framework import AnchorMissing
import absint

BB = "types.byte_buffer"
PDU = "types.cosem_pdu"
BIG = 1 << 32


def view(I, *parts):
    """a memoryview of a fresh bytearray with these octets"""
    return I.call(memoryview, [mkba(I, byt(list(parts)))], {})


def whole(I, b):
    return octets(I, I.call(bytes, [b], {}))


def unchanged(I, b, data, pos):
    I.need_eq(whole(I, b), data, "buffer after a refused request")
    I.need_eq(I.meth(b, "get_pos"), pos, "cursor after a refused request")


def check_C06(ck):
    for mod, name in ((BB, "ByteBuffer"), (PDU, "Buffer")):
        buffer_obligations(ck, ck.anchor(mod, name), name + ": ")


def buffer_obligations(ck, B, lab):
    def setup(I, pre, *rest):
        data = byt([pre] + list(rest))
        b = I.call(B, [view(I, data)], {})
        I.meth(b, "set_pos", blen(pre))
        return b, data

    def ob(rule, name, fn):
        ck.obligation(rule, lab + name, fn, where=B)

    def read(I):
        pre, mid, post = [I.in_bytes(x, 0, BIG) for x in ("pre", "mid", "post")]
        b, data = setup(I, pre, mid, post)
        I.need_eq(I.meth(b, "remaining"), blen(byt([mid, post])), "remaining()")
        I.need_eq(whole(I, I.meth(b, "read", blen(mid))), mid, "octets read")
        I.need_eq(I.meth(b, "get_pos"), blen(byt([pre, mid])), "cursor after read")
        I.need_eq(whole(I, I.meth(b, "read", blen(post))), post, "octets read next")
        I.need_eq(I.meth(b, "get_pos"), blen(data), "cursor after the second read")
        I.need_eq(whole(I, b), data, "buffer after reading")
    ob("read", "consecutive reads of any length", read)

    def read1(I):
        pre, post = I.in_bytes("pre", 0, BIG), I.in_bytes("post", 0, BIG)
        x = I.in_byte("x")
        for m, want in (("read", byt([x])), ("get", byt([x])), ("get_uint8", None)):
            b, data = setup(I, pre, byt([x]), post)
            r = I.meth(b, m)
            if want is None:
                I.need_eq(r, x, "octet read by %s" % m)
            else:
                I.need_eq(whole(I, r), want, "octet read by %s" % m)
            I.need_eq(I.meth(b, "get_pos"), add(blen(pre), 1), "cursor after %s" % m)
    ob("read", "single octets", read1)

    def read_over(I):
        pre, rest = I.in_bytes("pre", 0, BIG), I.in_bytes("rest", 0, BIG)
        n = I.in_int("n", 1, BIG)
        if I.le(n, blen(rest)):
            return
        b, data = setup(I, pre, rest)
        for m in ("read", "get_uint"):
            must_raise(I, lambda: I.meth(b, m, n), "%s of more than the remaining octets" % m)
            unchanged(I, b, data, blen(pre))
    ob("space", "reads past the end", read_over)

    def empty_read(I):
        pre = I.in_bytes("pre", 0, BIG)
        for m in ("read", "get", "get_uint8"):
            b, data = setup(I, pre)
            must_raise(I, lambda: I.meth(b, m), "%s at the end of the buffer" % m)
            unchanged(I, b, data, blen(pre))
    ob("space", "single reads at the end", empty_read)

    def read_pos(I):
        a, mid, post = [I.in_bytes(x, 0, BIG) for x in ("a", "mid", "post")]
        data = byt([a, mid, post])
        q = I.in_int("cursor", 0, 3 * BIG)
        if not I.le(q, blen(data)):
            return
        b = I.call(B, [view(I, data)], {})
        I.meth(b, "set_pos", q)
        I.need_eq(whole(I, I.meth(b, "read_pos", blen(a), blen(mid))), mid, "octets read at a position")
        I.need_eq(I.meth(b, "get_pos"), q, "cursor after read_pos")
    ob("read", "reads at any position with the cursor anywhere", read_pos)

    def read_pos_over(I):
        data = I.in_bytes("data", 0, BIG)
        q = I.in_int("cursor", 0, BIG)
        p = I.in_int("pos", None, BIG)
        n = I.in_int("n", 0, BIG)
        if not I.le(q, blen(data)):
            return
        if I.le(0, p) and I.le(add(p, n), blen(data)):
            return
        b = I.call(B, [view(I, data)], {})
        I.meth(b, "set_pos", q)
        for m in ("read_pos", "get_uint_pos"):
            must_raise(I, lambda: I.meth(b, m, p, n), "%s outside the buffer" % m)
            unchanged(I, b, data, q)
    ob("space", "reads at positions outside the buffer", read_pos_over)

    for k in (1, 2, 3, 4, 8):
        def uint(I, k=k):
            pre, post = I.in_bytes("pre", 0, BIG), I.in_bytes("post", 0, BIG)
            f = I.in_fixed("u", k)
            u = 0
            for x in bparts(f):
                u = add(scale(u, 256), x)
            b, data = setup(I, pre, f, post)
            I.need_eq(I.meth(b, "get_uint_pos", blen(pre), k), u, "number of %d octets at a position" % k)
            I.need_eq(I.meth(b, "get_pos"), blen(pre), "cursor after get_uint_pos")
            I.need_eq(I.meth(b, "get_uint", k), u, "number of %d octets" % k)
            I.need_eq(I.meth(b, "get_pos"), add(blen(pre), k), "cursor after get_uint")
        ob("read", "big-endian numbers of %d octets" % k, uint)

    def write(I):
        pre, mid, post, val, val2 = [I.in_bytes(x, 0, BIG) for x in ("pre", "mid", "post", "val", "val2")]
        if not (I.eq(blen(mid), blen(val)) and I.eq(blen(val2), blen(post))):
            return
        b, data = setup(I, pre, mid, post)
        I.need_eq(I.meth(b, "write", val), blen(val), "count of octets written")
        I.need_eq(whole(I, b), byt([pre, val, post]), "buffer after write")
        I.need_eq(I.meth(b, "get_pos"), blen(byt([pre, mid])), "cursor after write")
        I.need_eq(I.meth(b, "write", val2), blen(val2), "count of octets written next")
        I.need_eq(whole(I, b), byt([pre, val, val2]), "buffer after the second write")
        I.need_eq(I.meth(b, "get_pos"), blen(data), "cursor after the second write")
    ob("write", "consecutive writes of any length", write)

    def write_len(I):
        pre, mid, post, val = [I.in_bytes(x, 0, BIG) for x in ("pre", "mid", "post", "val")]
        if not I.eq(blen(mid), blen(val)):
            return
        b, data = setup(I, pre, mid, post)
        I.meth(b, "write", val, blen(val))
        I.need_eq(whole(I, b), byt([pre, val, post]), "buffer after write with an explicit length")
        I.need_eq(I.meth(b, "get_pos"), blen(byt([pre, mid])), "cursor after write with an explicit length")
    ob("write", "writes with explicit length", write_len)

    def write_mismatch(I):
        pre, rest, val = [I.in_bytes(x, 0, BIG) for x in ("pre", "rest", "val")]
        n = I.in_int("n", 1, BIG)
        if I.eq(n, blen(val)):
            return
        b, data = setup(I, pre, rest)
        must_raise(I, lambda: I.meth(b, "write", val, n), "a write whose stated length is not that of the value")
        unchanged(I, b, data, blen(pre))
    ob("space", "writes whose stated length differs from the value", write_mismatch)

    def write_over(I):
        pre, rest, val = [I.in_bytes(x, 0, BIG) for x in ("pre", "rest", "val")]
        if I.le(blen(val), blen(rest)):
            return
        b, data = setup(I, pre, rest)
        must_raise(I, lambda: I.meth(b, "write", val), "a write of more than the remaining octets")
        unchanged(I, b, data, blen(pre))
    ob("space", "writes past the end", write_over)

    def write_pos(I):
        a, mid, post, val = [I.in_bytes(x, 0, BIG) for x in ("a", "mid", "post", "val")]
        data = byt([a, mid, post])
        q = I.in_int("cursor", 0, 3 * BIG)
        if not (I.le(q, blen(data)) and I.eq(blen(mid), blen(val))):
            return
        b = I.call(B, [view(I, data)], {})
        I.meth(b, "set_pos", q)
        I.need_eq(I.meth(b, "write_pos", val, blen(a)), blen(val), "count of octets written")
        I.need_eq(whole(I, b), byt([a, val, post]), "buffer after write_pos")
        I.need_eq(I.meth(b, "get_pos"), q, "cursor after write_pos")
    ob("write", "writes at any position with the cursor anywhere", write_pos)

    def write_pos_over(I):
        data, val = I.in_bytes("data", 0, BIG), I.in_bytes("val", 0, BIG)
        q = I.in_int("cursor", 0, BIG)
        p = I.in_int("pos", None, BIG)
        if not I.le(q, blen(data)):
            return
        if I.le(0, p) and I.le(add(p, blen(val)), blen(data)):
            return
        b = I.call(B, [view(I, data)], {})
        I.meth(b, "set_pos", q)
        must_raise(I, lambda: I.meth(b, "write_pos", val, p), "a write outside the buffer")
        unchanged(I, b, data, q)
    ob("space", "writes at positions outside the buffer", write_pos_over)

    def put_int(I):
        pre, post = I.in_bytes("pre", 0, BIG), I.in_bytes("post", 0, BIG)
        old, x = I.in_byte("old"), I.in_byte("x")
        b, data = setup(I, pre, byt([old]), post)
        I.need_eq(I.meth(b, "put_int", x), 1, "count of octets written by put_int")
        I.need_eq(whole(I, b), byt([pre, x, post]), "buffer after put_int")
        I.need_eq(I.meth(b, "get_pos"), add(blen(pre), 1), "cursor after put_int")
    ob("write", "single octets", put_int)

    def put_full(I):
        pre = I.in_bytes("pre", 0, BIG)
        b, data = setup(I, pre)
        must_raise(I, lambda: I.meth(b, "put_int", I.in_byte("x")), "put_int at the end of the buffer")
        unchanged(I, b, data, blen(pre))
    ob("space", "single octets at the end", put_full)

    for nm, lo, hi in (("above 255", 256, None), ("below 0", None, -1)):
        def put_range(I, lo=lo, hi=hi):
            pre, post = I.in_bytes("pre", 0, BIG), I.in_bytes("post", 1, BIG)
            b, data = setup(I, pre, post)
            must_raise(I, lambda: I.meth(b, "put_int", I.in_int("x", lo, hi)), "an octet out of range")
            unchanged(I, b, data, blen(pre))
        ob("space", "put_int of numbers " + nm, put_range)

    def set_pos(I):
        data = I.in_bytes("data", 0, BIG)
        q = I.in_int("old", 0, BIG)
        p = I.in_int("pos", None, None)
        if not I.le(q, blen(data)):
            return
        b = I.call(B, [view(I, data)], {})
        I.meth(b, "set_pos", q)
        st, v = I.attempt(lambda: I.meth(b, "set_pos", p))
        if I.le(0, p) and I.le(p, blen(data)):
            I.need(st == "ok", "a cursor position inside the buffer is refused (%s)" % (I.excname(v) if st != "ok" else ""))
            I.need_eq(I.meth(b, "get_pos"), p, "cursor")
            I.need_eq(whole(I, b), data, "buffer after set_pos")
        else:
            I.need(st == "raise", "the cursor is set outside the buffer")
            unchanged(I, b, data, q)
    ob("cursor", "set_pos", set_pos)

    def remaining(I):
        pre, post = I.in_bytes("pre", 0, BIG), I.in_bytes("post", 0, BIG)
        b, data = setup(I, pre, post)
        I.need_eq(I.meth(b, "remaining"), blen(post), "remaining()")
        I.need_eq(I.length(b), blen(data), "len()")
        s = I.meth(b, "slice")
        I.need_eq(whole(I, s), post, "slice at the cursor")
        I.need_eq(I.meth(s, "get_pos"), 0, "cursor of the slice")
        f = I.meth(b, "frozen")
        I.need_eq(whole(I, f), data, "frozen buffer")
        if not I.eq(blen(data), 0):
            must_raise(I, lambda: I.meth(f, "put_int", 1), "writing into a frozen buffer")
            I.need_eq(whole(I, f), data, "frozen buffer after a refused write")
            I.need_eq(I.meth(f, "get_pos"), 0, "cursor of the frozen buffer after a refused write")
        I.need_eq(whole(I, b), data, "buffer after slice and frozen")
        I.need_eq(I.meth(b, "get_pos"), blen(pre), "cursor after slice and frozen")
    ob("cursor", "remaining, slice and frozen", remaining)

    def alloc(I):
        n = I.in_int("n", 0, 100000)
        b = I.call(I.getattr(B, "allocate"), [n], {})
        I.need_eq(I.length(b), n, "size of an allocated buffer")
        I.need_eq(I.meth(b, "get_pos"), 0, "cursor of a new buffer")
        d = I.in_bytes("d", 0, BIG)
        w = I.call(I.getattr(B, "wrap"), [d], {})
        I.need_eq(whole(I, w), d, "wrapped octets")
        I.need_eq(I.meth(w, "get_pos"), 0, "cursor of a wrapped buffer")
    ob("cursor", "allocate and wrap", alloc)


# ------------------------------------------------------------------ C07
INTS = [("Integer8", 1, True), ("Integer16", 2, True), ("Integer32", 4, True), ("Integer64", 8, True),
        ("Unsigned8", 1, False), ("Unsigned16", 2, False), ("Unsigned32", 4, False), ("Unsigned64", 8, False)]
FIXED = [("OctetString4", 4), ("OctetString5", 5), ("OctetString6", 6), ("OctetString8", 8), ("OctetString12", 12)]

# tag of each Data alternative and a sample of its octets ("n" free octets)
DATA = [("null-data", 0, 0), ("boolean", 3, 1), ("double-long", 5, 4), ("double-long-unsigned", 6, 4), ("bcd", 13, 1), ("integer", 15, 1),
        ("long", 16, 2), ("unsigned", 17, 1), ("long-unsigned", 18, 2), ("long64", 20, 8), ("long64-unsigned", 21, 8), ("enum", 22, 1),
        ("float32", 23, 4), ("float64", 24, 8), ("date-time", 25, 12), ("date", 26, 5), ("time", 27, 4), ("dont-care", 255, 0)]

WITNESS = '''
from DLMS_SPODES.types import cosem_pdu as pdu


class Three(pdu.Sequence):
    first: pdu.Unsigned16
    second: pdu.OctetString
    third: pdu.Integer8


class Ten(pdu.Sequence):
    f0: pdu.Unsigned8
    f1: pdu.Unsigned16
    f2: pdu.Unsigned8
    f3: pdu.Unsigned16
    f4: pdu.Unsigned8
    f5: pdu.Unsigned16
    f6: pdu.Unsigned8
    f7: pdu.Unsigned16
    f8: pdu.Unsigned8
    f9: pdu.Unsigned16


class Outer(pdu.Sequence):
    head: pdu.Unsigned8
    body: Three
    tail: pdu.OPTIONAL(pdu.Unsigned16)


Opt = pdu.OPTIONAL(pdu.OctetString)
Many = pdu.SEQUENCE_OF(pdu.Unsigned16)
Nested = pdu.SEQUENCE_OF(pdu.Data)


class Pick(pdu.Choice):
    ELEMENTS = (pdu.ChoiceElement("a", 0, pdu.Unsigned8), pdu.ChoiceElement("b", 3, pdu.OctetString), pdu.ChoiceElement("c", 129, pdu.Integer32))
'''


def prefix(I, n):
    """reference length prefix"""
    if I.lt(n, 0x80):
        return byt([n])
    for k, top in ((1, 1 << 8), (2, 1 << 16), (4, 1 << 32)):
        if I.lt(n, top):
            x = octets(I, I.meth(n, "to_bytes", k, "big"))
            return byt([0x80 + k, x])
    raise Unsupported("length above 2^32")


def check_C07(ck):
    Buf = ck.anchor(PDU, "Buffer")
    W = ck.program(WITNESS)

    def at(I, data, name=""):
        """a buffer with these octets somewhere in it, and the cursor on them"""
        pre, post = I.in_bytes("pre" + name, 0, BIG), I.in_bytes("post" + name, 0, BIG)
        b = I.call(Buf, [view(I, pre, data, post)], {})
        I.meth(b, "set_pos", blen(pre))
        return b, pre, post

    def hole(I, n, name=""):
        """a buffer with n octets to be overwritten at its cursor"""
        pre, post, old = I.in_bytes("pre" + name, 0, BIG), I.in_bytes("post" + name, 0, BIG), I.in_bytes("old" + name, 0, 2 * BIG)
        if not I.eq(blen(old), n):
            raise Infeasible()
        b = I.call(Buf, [view(I, pre, old, post)], {})
        I.meth(b, "set_pos", blen(pre))
        return b, pre, post

    def put_is(I, o, want, what):
        b, pre, post = hole(I, blen(want), "w")
        cnt = I.meth(o, "put", b)
        I.need_eq(whole(I, b), byt([pre, want, post]), "buffer after writing %s" % what)
        I.need_eq(cnt, blen(want), "count of octets written for %s" % what)
        I.need_eq(I.meth(b, "get_pos"), add(blen(pre), blen(want)), "cursor after writing %s" % what)

    def get_at(I, c, data, what):
        b, pre, post = at(I, data)
        o = I.meth(c, "get", b)
        I.need_eq(I.meth(b, "get_pos"), add(blen(pre), blen(data)), "cursor after reading %s" % what)
        return o

    def short(I, c, n, what):
        rest = I.in_bytes("rest", 0, n - 1)
        pre = I.in_bytes("pre", 0, BIG)
        b = I.call(Buf, [view(I, pre, rest)], {})
        I.meth(b, "set_pos", blen(pre))
        must_raise(I, lambda: I.meth(c, "get", b), "%s cut short" % what)

    # lengths
    for lo, hi, k in ((0, 127, 1), (128, 255, 2), (256, 65535, 3), (65536, (1 << 32) - 1, 5)):
        def plen(I, lo=lo, hi=hi, k=k):
            w = {127: 7, 255: 8, 65535: 16}.get(hi, 32)
            n = I.in_bits("n", w)
            if not (I.le(lo, n) and I.le(n, hi)):
                return
            b, pre, post = hole(I, k)
            r = I.meth(b, "put_len", n)
            bits = octet_bits_w(I, n, 32)
            want = byt([n]) if k == 1 else byt([0x80 + k - 1] + [from_bits(bits[8 * i:8 * i + 8]) for i in range(k - 2, -1, -1)])
            I.need_eq(whole(I, b), byt([pre, want, post]), "buffer after put_len")
            I.need_eq(r, k, "count of octets written by put_len")
            I.need_eq(I.meth(b, "get_pos"), add(blen(pre), k), "cursor after put_len")
            I.meth(b, "set_pos", blen(pre))
            I.need_eq(I.meth(b, "get_length"), n, "length read back")
            I.need_eq(I.meth(b, "get_pos"), add(blen(pre), k), "cursor after get_length")
        ck.obligation("length", "lengths %d..%d" % (lo, hi), plen, where=Buf)

        def full(I, lo=lo, hi=hi, k=k):
            n = I.in_int("n", lo, hi)
            pre, rest = I.in_bytes("pre", 0, BIG), I.in_bytes("rest", 0, k - 1)
            b = I.call(Buf, [view(I, pre, rest)], {})
            I.meth(b, "set_pos", blen(pre))
            must_raise(I, lambda: I.meth(b, "put_len", n), "a length prefix that does not fit")
        ck.obligation("length", "lengths %d..%d in too small a buffer" % (lo, hi), full, where=Buf)
    for k in (1, 2, 3, 4, 5, 8):
        def glen(I, k=k):
            f = I.in_fixed("l", k)
            u = 0
            for x in bparts(f):
                u = add(scale(u, 256), x)
            b, pre, post = at(I, byt([0x80 + k, f]))
            I.need_eq(I.meth(b, "get_length"), u, "length read from %d octets" % k)
            I.need_eq(I.meth(b, "get_pos"), add(blen(pre), 1 + k), "cursor after get_length")
        ck.obligation("length", "%d length octets" % k, glen, where=Buf)

        def gcut(I, k=k):
            have = I.in_bytes("have", 0, k - 1)
            pre = I.in_bytes("pre", 0, BIG)
            b = I.call(Buf, [view(I, pre, 0x80 + k, have)], {})
            I.meth(b, "set_pos", blen(pre))
            must_raise(I, lambda: I.meth(b, "get_length"), "missing length octets")
        ck.obligation("length", "%d length octets cut short" % k, gcut, where=Buf)

    # integers
    for name, n, sg in INTS:
        c = ck.anchor(PDU, name)

        def integer(I, c=c, n=n, sg=sg):
            f = I.in_fixed("v", n)
            u = 0
            for x in bparts(f):
                u = add(scale(u, 256), x)
            if sg:
                top = octet_bits_w(I, bparts(f)[0], 8)[7]
                u = add(u, scale(from_bits([top]), -(1 << 8 * n)))
            o = get_at(I, c, f, c.name)
            I.need_eq(I.call(int, [o], {}), u, "number read")
            I.need_eq(I.length(o), n, "size")
            put_is(I, o, f, c.name)
            o2 = I.meth(c, "from_int", I.facts.norm(u))
            put_is(I, o2, f, "a number")
            I.need(I.truth(I.cmp("eq", o, o2)), "equal numbers compare unequal")
        ck.obligation("integer", name, integer, where=c)
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if sg else (0, (1 << 8 * n) - 1)
        for nm, a, b_ in (("above", hi + 1, None), ("below", None, lo - 1)):
            def outside(I, c=c, a=a, b_=b_):
                x = I.in_int("x", a, b_)
                must_raise(I, lambda: I.meth(c, "from_int", x), "a number out of range")
            ck.obligation("integer", "%s, numbers %s the range" % (name, nm), outside, where=c)

        def cut(I, c=c, n=n):
            short(I, c, n, c.name)
        ck.obligation("truncated", name, cut, where=c)

        def gt(I, c=c, n=n, sg=sg, lo=lo, hi=hi):
            x = I.in_int("x", lo, hi)
            y = I.in_int("y", lo, hi)
            a, b_ = I.meth(c, "from_int", x), I.meth(c, "from_int", y)
            I.need(I.truth(I.cmp("gt", a, b_)) == (not I.le(x, y)), "comparison of %s and %s" % (I.show(x), I.show(y)))
        ck.obligation("integer", name + " order", gt, where=c)

        def text(I, c=c, lo=lo, hi=hi):
            x = I.in_choice("x", [lo, lo + 1, 0, 7, hi - 1, hi])
            I.need_eq(I.call(int, [I.meth(c, "from_str", str(x))], {}), x, "number from text")
            y = I.in_choice("y", [lo - 1, hi + 1])
            must_raise(I, lambda: I.meth(c, "from_str", str(y)), "text of a number out of range")
        ck.obligation("integer", name + " from text", text, where=c)

    # booleans and null
    B = ck.anchor(PDU, "BOOLEAN")

    def boolean(I):
        x = I.in_byte("x")
        o = get_at(I, B, byt([x]), "a boolean")
        I.need(I.truth(o) == (not I.eq(x, 0)), "truth of octet %s" % I.show(x))
        put_is(I, o, byt([x]), "a boolean")
    ck.obligation("boolean", "every octet", boolean, where=B)

    def boolint(I):
        x = I.in_int("x", -5, 300)
        o = I.meth(B, "from_int", x)
        want = not I.eq(x, 0)
        I.need(I.truth(o) == want, "truth of %s" % I.show(x))
        I.need(I.truth(I.getattr(I.mod(PDU), "TRUE")) and not I.truth(I.getattr(I.mod(PDU), "FALSE")), "TRUE and FALSE")
        put_is(I, o, b"\1" if want else b"\0", "a boolean")
    ck.obligation("boolean", "from numbers", boolint, where=B)

    def booltext(I):
        t, want = I.in_choice("text", [("0", False), ("False", False), ("1", True), ("True", True), ("2", None), ("", None), ("true?", None)])
        st, v = I.attempt(lambda: I.meth(B, "from_str", t))
        I.need((st == "ok") == (want is not None), "text %r: %s" % (t, st))
        if st == "ok":
            I.need(I.truth(v) == want, "truth of %r" % t)
    ck.obligation("boolean", "from text", booltext, where=B)

    def boolcut(I):
        short(I, B, 1, "a boolean")
    ck.obligation("truncated", "BOOLEAN", boolcut, where=B)

    N = ck.anchor(PDU, "NULL")

    def null(I):
        o = get_at(I, N, b"", "null")
        I.need_eq(I.length(o), 0, "size of null")
        put_is(I, o, b"", "null")
    ck.obligation("null", "NULL", null, where=N)

    # octet strings
    OS = ck.anchor(PDU, "OctetString")
    for lo, hi in ((0, 127), (128, 255), (256, 65535), (65536, 1 << 24)):
        def ostr(I, lo=lo, hi=hi):
            c = I.in_bytes("c", lo, hi)
            enc = byt([prefix(I, blen(c)), c])
            o = get_at(I, OS, enc, "an octet string")
            I.need_eq(octets(I, I.getattr(o, "contents")), c, "contents read")
            I.need_eq(I.length(o), blen(enc), "size")
            put_is(I, o, enc, "an octet string")
        ck.obligation("octet-string", "%d..%d octets" % (lo, hi), ostr, where=OS)

        def ocut(I, lo=lo, hi=hi):
            n = I.in_int("n", max(1, lo), hi)
            have = I.in_bytes("have", 0, hi)
            if not I.lt(blen(have), n):
                return
            pre = I.in_bytes("pre", 0, BIG)
            b = I.call(Buf, [view(I, pre, prefix(I, n), have)], {})
            I.meth(b, "set_pos", blen(pre))
            must_raise(I, lambda: I.meth(OS, "get", b), "an octet string cut short")
        ck.obligation("truncated", "octet string announcing %d..%d octets" % (max(1, lo), hi), ocut, where=OS)
    for name, n in FIXED:
        c = ck.anchor(PDU, name)

        def fixed(I, c=c, n=n):
            f = I.in_fixed("v", n)
            o = get_at(I, c, f, c.name)
            I.need_eq(octets(I, I.getattr(o, "contents")), f, "contents read")
            I.need_eq(I.length(o), n, "size")
            put_is(I, o, f, c.name)
        ck.obligation("octet-string", name, fixed, where=c)

        def fsize(I, c=c, n=n):
            v = I.in_bytes("v", 0, 300)
            st, o = I.attempt(lambda: I.call(c, [view(I, v)], {}))
            I.need((st == "ok") == I.eq(blen(v), n), "%s of %s octets: %s" % (c.name, I.show(blen(v)), "accepted" if st == "ok" else "refused"))
        ck.obligation("size", name, fsize, where=c)

        def cut(I, c=c, n=n):
            short(I, c, n, c.name)
        ck.obligation("truncated", name, cut, where=c)
    for name, n, sg in INTS + [("BOOLEAN", 1, False)]:
        c = ck.anchor(PDU, name)

        def isize(I, c=c, n=n):
            v = I.in_bytes("v", 0, 300)
            st, o = I.attempt(lambda: I.call(c, [view(I, v)], {}))
            I.need((st == "ok") == I.eq(blen(v), n), "%s of %s octets: %s" % (c.name, I.show(blen(v)), "accepted" if st == "ok" else "refused"))
        ck.obligation("size", name, isize, where=c)

    # sequences
    S = ck.anchor(PDU, "Sequence")
    w = W.d

    def three(I):
        a, d = I.in_fixed("a", 2), I.in_fixed("d", 1)
        s = I.in_bytes("s", 0, 70000)
        enc = byt([a, prefix(I, blen(s)), s, d])
        o = get_at(I, w["Three"], enc, "a sequence")
        for nm, want in (("first", a), ("second", s), ("third", d)):
            I.need_eq(octets(I, I.getattr(I.getattr(o, nm), "contents")), want, "field %s" % nm)
        I.need_eq(I.length(o), blen(enc), "size")
        put_is(I, o, enc, "a sequence")
    ck.obligation("sequence", "three fields", three, where=S)

    def ten(I):
        f = [I.in_fixed("f%d" % i, 1 + i % 2) for i in range(10)]
        o = get_at(I, w["Ten"], byt(f), "a sequence")
        for i in range(10):
            I.need_eq(octets(I, I.getattr(I.getattr(o, "f%d" % i), "contents")), f[i], "field %d" % i)
            I.need(I.getattr(o, "f%d" % i) is I.call(I.getattr(o, "__getitem__"), [i], {}), "field %d by its number" % i)
        put_is(I, o, byt(f), "a sequence")
    ck.obligation("sequence", "ten fields", ten, where=S)

    def cutseq(I):
        f = byt([I.in_fixed("f%d" % i, 1 + i % 2) for i in range(10)])
        k = I.in_choice("kept", list(range(15)))
        b = I.call(Buf, [view(I, I.bslice(f, 0, k))], {})
        must_raise(I, lambda: I.meth(w["Ten"], "get", b), "a sequence cut after %d octets" % k)
    ck.obligation("truncated", "sequence", cutseq, where=S)

    def outer(I):
        h, a, d, t = I.in_fixed("h", 1), I.in_fixed("a", 2), I.in_fixed("d", 1), I.in_fixed("t", 2)
        s = I.in_bytes("s", 0, 127)
        has = I.in_choice("tail", [0, 1])
        enc = byt([h, a, blen(s), s, d, has] + ([t] if has else []))
        o = get_at(I, w["Outer"], enc, "a nested sequence")
        I.need_eq(octets(I, I.getattr(I.getattr(I.getattr(o, "body"), "third"), "contents")), d, "inner field")
        I.need_eq(octets(I, I.getattr(I.getattr(o, "head"), "contents")), h, "outer field")
        put_is(I, o, enc, "a nested sequence")
    ck.obligation("sequence", "nested with optional tail", outer, where=S)

    # optional
    O = ck.anchor(PDU, "_Optional")

    def opt(I):
        s = I.in_bytes("s", 0, 70000)
        has = I.in_choice("present", [0, 1])
        enc = byt([1, prefix(I, blen(s)), s]) if has else b"\0"
        o = get_at(I, w["Opt"], enc, "an optional")
        v = I.getattr(o, "value")
        if has:
            I.need_eq(octets(I, I.getattr(v, "contents")), s, "optional value")
        else:
            I.need(v is I.getattr(I.mod(PDU), "NULL_"), "an absent optional has a value")
        I.need_eq(I.length(o), blen(enc), "size")
        put_is(I, o, enc, "an optional")
        put_is(I, I.meth(w["Opt"], "default"), b"\0", "an absent optional") if not has else None
    ck.obligation("optional", "OPTIONAL(OctetString)", opt, where=O)

    # sequence of
    SO = ck.anchor(PDU, "_SequenceOf")

    def many(I):
        n = I.in_choice("n", [0, 1, 2, 5, 127, 128, 300])
        f = [I.in_fixed("f%d" % i, 2) if i < 3 else bytes([i % 251, 7]) for i in range(n)]
        p = bytes([n]) if n < 128 else (bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255]))
        enc = byt([p] + f)
        o = get_at(I, w["Many"], enc, "a sequence-of")
        I.need_eq(I.length(o), blen(enc), "size")
        for i in (0, 1, n - 1):
            if 0 <= i < n:
                I.need_eq(octets(I, I.getattr(I.call(I.getattr(o, "__getitem__"), [i], {}), "contents")), f[i], "element %d" % i)
        put_is(I, o, enc, "a sequence-of")
        put_is(I, I.meth(w["Many"], "default"), b"\0", "an empty sequence-of")
    ck.obligation("sequence-of", "0..300 elements", many, where=SO)

    # choices
    D = ck.anchor(PDU, "Data")
    for name, tag, n in DATA:
        def choice(I, tag=tag, n=n, name=name):
            f = I.in_fixed("v", n)
            enc = byt([tag, f])
            o = get_at(I, D, enc, name)
            I.need_eq(octets(I, I.getattr(I.getattr(o, "value"), "contents")), f, "value of %s" % name)
            I.need_eq(I.length(o), blen(enc), "size of %s" % name)
            put_is(I, o, enc, name)
        ck.obligation("choice", "Data " + name, choice, where=D)

    def dstr(I):
        s = I.in_bytes("s", 0, 70000)
        enc = byt([9, prefix(I, blen(s)), s])
        o = get_at(I, D, enc, "octet-string")
        put_is(I, o, enc, "octet-string")
    ck.obligation("choice", "Data octet-string", dstr, where=D)

    def dnest(I):
        t, t2 = I.in_choice("outer", [1, 2]), I.in_choice("inner", [1, 2])
        a, s = I.in_fixed("a", 4), I.in_bytes("s", 0, 127)
        enc = byt([t, 3, 5, a, t2, 2, 17, I.in_fixed("b", 1), 0, 9, blen(s), s])
        o = get_at(I, D, enc, "nested data")
        I.need_eq(I.length(o), blen(enc), "size")
        put_is(I, o, enc, "nested data")
    ck.obligation("choice", "Data arrays and structures", dnest, where=D)

    def unknown(I):
        known = {t for _, t, _ in DATA} | {1, 2, 9}
        t = I.in_byte("tag")
        rest = I.in_bytes("rest", 20, 300)
        for k in sorted(known):
            if I.eq(t, k):
                return
        for k in (4, 10, 12, 19):       # alternatives of the standard that the package may add
            if I.eq(t, k):
                return
        b = I.call(Buf, [view(I, t, rest)], {})
        must_raise(I, lambda: I.meth(D, "get", b), "an unknown tag")
    ck.obligation("choice", "Data unknown tags", unknown, where=D)

    C = ck.anchor(PDU, "Choice")

    def pick(I):
        i = I.in_choice("alternative", [0, 1, 2])
        s = I.in_bytes("s", 0, 70000)
        enc = [byt([0, I.in_fixed("a", 1)]), byt([3, prefix(I, blen(s)), s]), byt([129, I.in_fixed("b", 4)])][i]
        o = get_at(I, w["Pick"], enc, "a choice")
        put_is(I, o, enc, "a choice")
        I.need_eq(octets(I, I.call(bytes, [o], {})), enc, "octets of a choice")
    ck.obligation("choice", "declared choice", pick, where=C)

    def pickbad(I):
        t = I.in_byte("tag")
        for k in (0, 3, 129):
            if I.eq(t, k):
                return
        b = I.call(Buf, [view(I, t, I.in_bytes("rest", 20, 300))], {})
        must_raise(I, lambda: I.meth(w["Pick"], "get", b), "an undeclared alternative")
        st, o = I.attempt(lambda: I.call(w["Pick"], [I.meth(ck.anchor(PDU, "Integer8"), "from_int", 1)], {}))
        if st == "ok":
            must_raise(I, lambda: I.meth(o, "put", b), "a value of no declared alternative")
    ck.obligation("choice", "declared choice, other tags", pickbad, where=C)

    # the helper that sizes a buffer
    cb = ck.anchor(PDU, "create_buf")

    def create(I):
        s = I.in_bytes("s", 0, 70000)
        o = I.call(OS, [view(I, s)], {})
        b = I.call(cb, [o], {})
        I.need_eq(whole(I, b), byt([prefix(I, blen(s)), s]), "created buffer")
        I.need_eq(I.meth(b, "get_pos"), 0, "cursor of the created buffer")
        b2 = I.call(cb, [I.getattr(I.mod(PDU), "NULL_")], {})
        I.need_eq(whole(I, b2), b"", "buffer of null")
    ck.obligation("length", "create_buf", create, where=cb)
