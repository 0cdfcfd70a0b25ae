"""C01-C05, C29, C35, C37: common data types."""
import os

from framework import *
from absint import MISSING, Nat
from rules_hdlc import octets, mkba, must_raise, octet_bits

CDT = "types.common_data_types"

# name, tag, content octets (None: variable), kind
TYPES = [
    ("NullData", 0x00, 0, "null"), ("Boolean", 0x03, 1, "bool"), ("BitString", 0x04, None, "bits"),
    ("DoubleLong", 0x05, 4, "int"), ("DoubleLongUnsigned", 0x06, 4, "uint"), ("OctetString", 0x09, None, "str"),
    ("VisibleString", 0x0A, None, "str"), ("Utf8String", 0x0C, None, "str"), ("Bcd", 0x0D, 1, "bcd"),
    ("Integer", 0x0F, 1, "int"), ("Long", 0x10, 2, "int"), ("Unsigned", 0x11, 1, "uint"), ("LongUnsigned", 0x12, 2, "uint"),
    ("Long64", 0x14, 8, "int"), ("Long64Unsigned", 0x15, 8, "uint"), ("Enum", 0x16, 1, "enum"),
    ("Float32", 0x17, 4, "float"), ("Float64", 0x18, 8, "float"),
    ("DateTime", 0x19, 12, "dt"), ("Date", 0x1A, 5, "date"), ("Time", 0x1B, 4, "time"),
]
COMPLEX = [("Array", 0x01), ("Structure", 0x02), ("CompactArray", 0x13)]
DIGITAL = [t for t in TYPES if t[3] in ("int", "uint")]
STRINGS = [t for t in TYPES if t[3] == "str"]

# valid contents of the date types, with the rest of the octets free of influence
DT = {"DateTime": bytes.fromhex("07e40515ff0c223800008000"), "Date": bytes.fromhex("07e40515ff"), "Time": bytes.fromhex("0c2238ff")}


def all_modules(ck):
    """load every module of the package that the analyser can load"""
    I = ck.I
    base = os.path.join(I.root, I.PKG)
    out = []
    for d, ds, fs in sorted(os.walk(base)):
        ds[:] = sorted(x for x in ds if not x.startswith("__pycache"))
        for f in sorted(fs):
            if f.endswith(".py"):
                n = os.path.relpath(os.path.join(d, f), I.root)[:-3].replace(os.sep, ".")
                if n.endswith(".__init__"):
                    n = n[:-9]
                out.append(n)
    for n in out:
        try:
            I.load(n)
        except (PyRaise, Cut, Unsupported):
            pass
    return out


def subclasses(ck, base):
    I = ck.I
    seen = []
    for c in I.classes:
        if c is not base and isinstance(c, ClassVal) and base in I.mro_of(c) and c not in seen:
            seen.append(c)
    return seen


def qual(I, c):
    m = getattr(c, "module", None)
    return "%s.%s" % ((m.name.replace(I.PKG + ".", "") if m is not None else "?"), c.name)


def cva(I, c, name, d=None):
    """class attribute as found in the mro"""
    v = I.lookup(c, name)
    if isinstance(v, tuple):
        v = v[0]
    return d if v is None or v is MISSING else v


def pyhash(I, o):
    return I.call(I.getattr(o, "__hash__"), [], {})


def tagof(I, c):
    t = I.getattr(c, "TAG")
    b = I.byteslike(t)
    return b


def length_prefix(I, n):
    """reference definite form as written by the package for a constant length"""
    if n < 0x80:
        return bytes([n])
    if n < 0x100:
        return bytes([0x81, n])
    if n < 0x10000:
        return bytes([0x82, n >> 8, n & 255])
    return bytes([0x84]) + n.to_bytes(4, "big")


def mktype(ck, name):
    return ck.anchor(CDT, name)


def enum_cls(ck):
    """a concrete enumeration of the package (Enum itself is abstract)"""
    return ck.anchor(CDT, "Unit")


def build(I, ck, name, kind, n, contents):
    c = ck.anchor(CDT, name) if kind != "enum" else enum_cls(ck)
    if kind == "null":
        return c, I.call(c, [], {})
    return c, I.call(c, [mkba(I, contents)], {})


# client_SAP is an integer in associated_partners_type; the package names its values with an enumeration
RETAGGED = {"ClientSAP": 0x0F}


# ------------------------------------------------------------------ C01
def check_C01(ck):
    I = ck.I
    seen = {}
    for name, tag in [(t[0], t[1]) for t in TYPES] + COMPLEX:
        c = ck.anchor(CDT, name)
        b = tagof(I, c)
        ok = isinstance(b, bytes) and b == bytes([tag])
        ck.fact("tag-value", name, ok, "tag is %s, the standard gives %02x" % (I.show(b), tag), where=c)
        if b in seen:
            ck.fact("tag-unique", name, False, "shares tag %s with %s" % (I.show(b), seen[b]), where=c)
        else:
            ck.fact("tag-unique", name, True)
        seen[b] = name

        def look(I, c=c, tag=tag):
            rest = I.in_bytes("rest", 0, 70000)
            got = I.call(ck.anchor(CDT, "get_common_data_type_from"), [byt([tag, rest])], {})
            I.need(got is c, "tag %02x is looked up as %s" % (tag, I.show(got)))
        ck.obligation("tag-lookup", name, look, where=ck.anchor(CDT, "get_common_data_type_from"))

    known = {t[1] for t in TYPES} | {t for _, t in COMPLEX}

    def unknown(I):
        t = I.in_byte("tag")
        rest = I.in_bytes("rest", 0, 100)
        for k in known:
            if I.eq(t, k):
                return
        must_raise(I, lambda: I.call(ck.anchor(CDT, "get_common_data_type_from"), [byt([t, rest])], {}), "an unassigned tag")
    ck.obligation("tag-lookup", "every unassigned tag", unknown, where=ck.anchor(CDT, "get_common_data_type_from"))

    # encodings
    for name, tag, n, kind in TYPES:
        if n is not None:
            def enc(I, name=name, tag=tag, n=n, kind=kind):
                if kind == "bool":
                    c = I.in_choice("c", [b"\0", b"\1"])
                elif name in DT:
                    c = DT[name]
                elif kind == "enum":
                    b = I.in_byte("c0")
                    I.need(True, "")
                    if I.eq(b, 0):
                        return
                    c = byt([b])
                else:
                    c = I.in_fixed("c", n)
                _, o = build(I, ck, name, kind, n, c)
                I.need_eq(octets(I, I.getattr(o, "encoding")), byt([tag, c]), "encoding of %s" % name)
            ck.obligation("encoding", name, enc, where=ck.anchor(CDT, name))
        elif kind == "str":
            for lo, hi, pre in ((0, 127, 0), (128, 255, 1), (256, 65535, 2), (65536, (1 << 32) - 1, 4)):
                def encs(I, name=name, tag=tag, lo=lo, hi=hi, pre=pre):
                    c = I.in_bytes("c", lo, hi)
                    _, o = build(I, ck, name, "str", None, c)
                    e = octets(I, I.getattr(o, "encoding"))
                    head = 1 + max(1, 1 + pre if pre else 1)
                    I.need_eq(I.bslice(e, 0, 1), bytes([tag]), "first octet of the encoding")
                    I.need_eq(I.bslice(e, head, blen(e)), c, "contents after a prefix of %d octets" % (head - 1))
                    p = octets(I, I.call(ck.anchor(CDT, "encode_length"), [blen(c)], {}))
                    I.need_eq(I.bslice(e, 1, head), p, "length prefix of the encoding")
                ck.obligation("encoding", "%s of %d..%d octets" % (name, lo, hi), encs, where=ck.anchor(CDT, name))
    # every subclass keeps the tag of the common type it derives from
    all_modules(ck)
    roots = {ck.anchor(CDT, n): t for n, t in [(t[0], t[1]) for t in TYPES] + COMPLEX}
    for root, tag in roots.items():
        for s in subclasses(ck, root):
            b = tagof(I, s)
            want = RETAGGED.get(s.name, tag)
            ck.fact("subclass-tag", qual(I, s), b == bytes([want]), "derives from %s but has tag %s" % (root.name, I.show(b)), where=s)


# ------------------------------------------------------------------ C02
def check_C02(ck):
    giap = ck.anchor(CDT, "get_instance_and_pdu")
    giapv = ck.anchor(CDT, "get_instance_and_pdu_from_value")
    for name, tag, n, kind in TYPES:
        c = ck.anchor(CDT, name) if kind != "enum" else ck.anchor("types.implementations.enums", "CommSpeed")
        if n is not None:
            def tagrule(I, c=c, tag=tag, n=n, name=name):
                t = I.in_byte("tag")
                rest = I.in_bytes("rest", 0, 300)
                st, v = I.attempt(lambda: I.call(c, [byt([t, rest])], {}))
                I.need(st == "raise" or I.eq(t, tag), "an encoding with a foreign tag is decoded as %s" % name)
            if name not in DT:
                ck.obligation("foreign-tag", name, tagrule, where=c)
            else:
                def tagrule2(I, c=c, tag=tag, name=name):
                    t = I.in_byte("tag")
                    rest = I.in_bytes("rest", 0, 300)
                    st, v = I.attempt(lambda: I.call(c, [byt([t, DT[name], rest])], {}))
                    I.need((st == "ok") == I.eq(t, tag), "tag octet %s: %s" % (I.show(t), st if st == "ok" else I.excname(v)))
                ck.obligation("foreign-tag", name, tagrule2, where=c)

            def trunc(I, c=c, tag=tag, n=n, name=name):
                rest = I.in_bytes("rest", 0, n - 1)
                must_raise(I, lambda: I.call(c, [byt([tag, rest])], {}), "a truncated %s" % name)
            if n:
                ck.obligation("truncated", name, trunc, where=c)

            def rest_(I, c=c, tag=tag, n=n, name=name, kind=kind):
                rest = I.in_bytes("rest", 0, 70000)
                if name in DT:
                    body = DT[name]
                elif kind == "enum":
                    b = I.in_byte("c0")
                    if not I.le(b, 9):
                        return
                    body = byt([b])
                else:
                    body = I.in_fixed("c", n)
                for g, a in ((giap, [c]), (giapv, [])):
                    if kind == "enum" and not a:
                        continue
                    v = byt([tag, body, rest])
                    o, r = I.seqitems(I.call(g, a + [v], {}))
                    I.need(I.typeof(o) is c, "decoded as %s" % I.show(o))
                    I.need_eq(octets(I, r), rest, "octets after the value")
                    want = body
                    if kind == "bool":
                        want = b"\0" if I.eq(I.bindex(body, 0), 0) else b"\1"
                    I.need_eq(octets(I, I.getattr(o, "contents")), want, "decoded contents")
            ck.obligation("rest", name, rest_, where=giap)
        else:
            bits = kind == "bits"

            def tagrule3(I, c=c, tag=tag, name=name):
                t = I.in_byte("tag")
                rest = I.in_bytes("rest", 0, 300)
                ln = I.in_bits("n", 7)
                st, v = I.attempt(lambda: I.call(c, [byt([t, ln, rest])], {}))
                I.need(st == "raise" or I.eq(t, tag), "an encoding with a foreign tag is decoded as %s" % name)
            if not bits:
                ck.obligation("foreign-tag", name, tagrule3, where=c)
            else:
                def tagrule4(I, c=c, tag=tag, name=name):
                    t = I.in_byte("tag")
                    body = I.in_fixed("c", 2)
                    ln = I.in_choice("n", list(range(17)))
                    st, v = I.attempt(lambda: I.call(c, [byt([t, ln, body])], {}))
                    I.need((st == "ok") == I.eq(t, tag), "tag octet %s: %s" % (I.show(t), st if st == "ok" else I.excname(v)))
                ck.obligation("foreign-tag", name, tagrule4, where=c)
            if not bits:
                for lo, hi, form in ((0, 127, "short"), (128, 255, "81"), (256, 65535, "82"), (65536, 1 << 24, "84")):
                    def str_rest(I, c=c, tag=tag, lo=lo, hi=hi, form=form):
                        body = I.in_bytes("c", lo, hi)
                        rest = I.in_bytes("rest", 0, 70000)
                        p = octets(I, I.call(ck.anchor(CDT, "encode_length"), [blen(body)], {}))
                        for g, a in ((giap, [c]), (giapv, [])):
                            o, r = I.seqitems(I.call(g, a + [byt([tag, p, body, rest])], {}))
                            I.need_eq(octets(I, r), rest, "octets after the value")
                            I.need_eq(octets(I, I.getattr(o, "contents")), body, "decoded contents")
                    ck.obligation("rest", "%s of %d..%d octets" % (name, lo, hi), str_rest, where=giap)

                    def str_trunc(I, c=c, tag=tag, lo=lo, hi=hi):
                        ln = I.in_int("n", max(lo, 1), hi)
                        short = I.in_bytes("c", 0, hi)
                        if not I.lt(blen(short), ln):
                            return
                        p = octets(I, I.call(ck.anchor(CDT, "encode_length"), [ln], {}))
                        must_raise(I, lambda: I.call(c, [byt([tag, p, short])], {}), "%s shorter than its length prefix" % c.name)
                    ck.obligation("truncated", "%s announcing %d..%d octets" % (name, max(lo, 1), hi), str_trunc, where=c)

                def long_form(I, c=c, tag=tag):
                    body = I.in_bytes("c", 0, 127)
                    rest = I.in_bytes("rest", 1, 100)
                    o, r = I.seqitems(I.call(giap, [c, byt([tag, 0x81, blen(body), body, rest])], {}))
                    I.need_eq(octets(I, r), rest, "octets after a value with a two-octet length prefix")
                ck.obligation("rest-long-prefix", name, long_form, where=giap)
            else:
                for nb in (0, 1, 7, 8, 9, 15, 16, 17, 24, 32) if not ck.thorough else range(0, 130):
                    def bs_rest(I, c=c, tag=tag, nb=nb):
                        body = I.in_fixed("c", (nb + 7) // 8)
                        rest = I.in_bytes("rest", 0, 300)
                        p = length_prefix(I, nb)
                        for g, a in ((giap, [c]), (giapv, [])):
                            o, r = I.seqitems(I.call(g, a + [byt([tag, p, body, rest])], {}))
                            I.need_eq(octets(I, r), rest, "octets after the value")
                            I.need_eq(octets(I, I.getattr(o, "contents")), body, "decoded contents")
                            I.need_eq(I.length(o), nb, "decoded bit count")
                        if nb:
                            short = I.in_bytes("s", 0, (nb + 7) // 8 - 1)
                            must_raise(I, lambda: I.call(c, [byt([tag, p, short])], {}), "a truncated bit string")
                    ck.obligation("rest", "%s of %d bits" % (name, nb), bs_rest, where=giap)

            def cutprefix(I, c=c, tag=tag):
                k = I.in_choice("octets", [1, 2, 3, 4])
                have = I.in_bytes("have", 0, k - 1)
                must_raise(I, lambda: I.call(c, [byt([tag, 0x80 + k, have])], {}), "a %s whose length prefix is cut off" % c.name)
            ck.obligation("truncated", "%s length prefix" % name, cutprefix, where=ck.anchor(CDT, "get_length_and_pdu"))

        def empty(I, c=c, name=name):
            must_raise(I, lambda: I.call(c, [b""], {}), "an empty encoding")
        ck.obligation("truncated", "%s from nothing" % name, empty, where=c)

    def emptyv(I):
        must_raise(I, lambda: I.call(giapv, [b""], {}), "an empty encoding")
    ck.obligation("truncated", "any type from nothing", emptyv, where=giapv)

    # arrays and structures
    S = ck.anchor(CDT, "Structure")
    A = ck.anchor(CDT, "Array")
    SU = ck.anchor(CDT, "ScalUnitType")
    for c, tag in ((A, 1), (S, 2), (SU, 2)):
        def ctag(I, c=c, tag=tag):
            t = I.in_byte("tag")
            st, v = I.attempt(lambda: I.call(c, [byt([t, 2, 0x0F, I.in_byte("a"), 0x16 if c is SU else 0x0F, 5])], {}))
            I.need((st == "ok") == I.eq(t, tag), "tag octet %s: %s" % (I.show(t), st if st == "ok" else I.excname(v)))
        ck.obligation("foreign-tag", c.name, ctag, where=c)

        def crest(I, c=c, tag=tag):
            rest = I.in_bytes("rest", 0, 300)
            v = byt([tag, 2, 0x0F, I.in_byte("a"), 0x16 if c is SU else 0x0F, 5, rest])
            for g, a in ((giap, [c]), (giapv, [])):
                o, r = I.seqitems(I.call(g, a + [v], {}))
                I.need_eq(octets(I, r), rest, "octets after the value")
                I.need_eq(octets(I, I.getattr(o, "encoding")), I.bslice(v, 0, 6), "decoded value")
        ck.obligation("rest", c.name, crest, where=giap)

        def ctr(I, c=c, tag=tag):
            v = bytes([tag, 2, 0x0F, 1, 0x16 if c is SU else 0x0F, 5])
            k = I.in_choice("kept", list(range(len(v))))
            must_raise(I, lambda: I.call(c, [v[:k]], {}), "%s cut after %d octets" % (c.name, k))
        ck.obligation("truncated", c.name, ctr, where=c)

        def nested(I, c=c, tag=tag):
            if c is SU:
                return
            b = I.in_bytes("b", 0, 100)
            rest = I.in_bytes("rest", 0, 300)
            inner = byt([2, 2, 0x09, blen(b), b, 0x12, I.in_fixed("w", 2)])
            v = byt([tag, 2, inner, inner, rest])
            o, r = I.seqitems(I.call(giapv, [v], {}))
            I.need_eq(octets(I, r), rest, "octets after a nested value")
            I.need_eq(octets(I, I.getattr(o, "encoding")), byt([tag, 2, inner, inner]), "nested value")
        ck.obligation("rest", "nested %s" % c.name, nested, where=giapv)

    # logical names and other cosem service types keep the rule of their base
    CST = "types.cosem_service_types"
    for n, size in (("LogicalName", 6), ("OctetStringDateTime", 12), ("OctetStringDate", 5), ("OctetStringTime", 4)):
        try:
            c = ck.anchor(CST, n)
        except AnchorMissing:
            continue

        def svc(I, c=c, size=size):
            t = I.in_byte("tag")
            ln = I.in_bits("n", 7)
            rest = I.in_bytes("rest", 0, 40)
            body = {6: b"", 12: DT["DateTime"], 5: DT["Date"], 4: DT["Time"]}[size]
            st, v = I.attempt(lambda: I.call(c, [byt([t, ln, body, rest])], {}))
            if st == "ok":
                I.need(I.eq(t, 9), "a foreign tag is decoded as %s" % c.name)
                I.need(I.eq(ln, size), "a value of %s octets is decoded as %s" % (I.show(ln), c.name))
                if body:
                    I.need_eq(octets(I, I.getattr(v, "contents")), body, "decoded contents")
            elif body:
                I.need(not (I.eq(t, 9) and I.eq(ln, size)), "a valid encoding is refused (%s)" % I.excname(v))
        ck.obligation("foreign-tag", "service type " + n, svc, where=c)


# ------------------------------------------------------------------ C03
def ranges_of(I, c):
    """declared sub-range of a Digital class"""
    g = lambda n: I.getattr(c, n)
    ln, sg = g("LENGTH"), g("SIGNED")
    lo, hi = (-(1 << 8 * ln - 1), (1 << 8 * ln - 1) - 1) if sg else (0, (1 << 8 * ln) - 1)
    v = g("VALUE")
    if isinstance(v, int):
        return ln, sg, v, v
    mn, mx = g("MIN"), g("MAX")
    if isinstance(mn, int):
        lo = max(lo, mn)
    if isinstance(mx, int):
        hi = min(hi, mx)
    return ln, sg, lo, hi


# sub-ranges the Blue Book declares for integer types of the package
DECLARED = {
    "types.implementations.integers.Only0": (0, 0),
    "types.implementations.long_unsigneds.ServerSAP": (0, 0x3FFF),
    "cosem_interface_classes.clock.DaylightSavingsDeviation": (-120, 120),
    "cosem_interface_classes.clock.ShiftTime": (-900, 900),
    "cosem_interface_classes.profile_generic.ver1.FromEntry": (1, (1 << 32) - 1),
    "cosem_interface_classes.schedule.Index": (1, 9999),
}


def signed_in(I, name, n):
    """a free n-octet two's complement number and its octets"""
    bs = [I.in_byte("%s%d" % (name, i)) for i in range(n)]
    u = 0
    for b in bs:
        u = add(scale(u, 256), b)
    return bs, u


def digital_obligations(ck, c, label, lo, hi, n, sg):
    full = (lo, hi) == ((-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if sg else (0, (1 << 8 * n) - 1))

    def inside(I):
        if full:
            bs, u = signed_in(I, "b", n)
            x = I.facts.norm(u)
            if sg:
                top = octet_bits(I, bs[0])[7]
                x = I.facts.norm(add(u, scale(from_bits([top]), -(1 << 8 * n))))
        else:
            x = I.in_int("x", lo, hi)
        o = I.call(c, [x], {})
        cont = octets(I, I.getattr(o, "contents"))
        I.need(I.eq(blen(cont), n), "stored in %s octets" % I.show(blen(cont)))
        if full:
            I.need_eq(cont, byt(bs), "content octets")
        I.need_eq(I.call(int, [o], {}), x, "number read back with int()")
        I.need_eq(I.meth(o, "decode"), x, "number read back with decode()")
        o2 = I.call(c, [byt([tagof(I, c), cont])], {})
        I.need_eq(I.call(int, [o2], {}), x, "number after encoding and decoding")
        o3 = I.call(c, [], {})
        st, v = I.attempt(lambda: I.meth(o3, "set", x))
        I.need(st == "ok", "set refuses a number of the range")
        I.need_eq(I.meth(o3, "decode"), x, "number read back after set()")
    ck.obligation("int-store", label, inside, where=c)

    for nm, a, b in (("above", hi + 1, None), ("below", None, lo - 1)):
        def outside(I, a=a, b=b):
            x = I.in_int("x", a, b)
            must_raise(I, lambda: I.call(c, [x], {}), "a number %s the range %d..%d" % (nm, lo, hi))
        ck.obligation("int-range", "%s, numbers %s the range" % (label, nm), outside, where=c)

        def outset(I, a=a, b=b):
            x = I.in_int("x", a, b)
            o = I.call(c, [], {})
            must_raise(I, lambda: I.meth(o, "set", x), "set to a number %s the range" % nm)
        ck.obligation("int-range", "%s.set, numbers %s the range" % (label, nm), outset, where=c)

    flo, fhi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if sg else (0, (1 << 8 * n) - 1)
    for nm, a, b in (("above", hi + 1, fhi), ("below", flo, lo - 1)):
        if a > b:
            continue

        def raw(I, a=a, b=b, nm=nm):
            x = I.in_int("x", a, b)
            cont = I.meth(x, "to_bytes", n, "big", signed=sg)
            must_raise(I, lambda: I.call(c, [byt([tagof(I, c), cont])], {}), "the octets of a number %s the range %d..%d" % (nm, lo, hi))
            must_raise(I, lambda: I.call(c, [mkba(I, cont)], {}), "the contents of a number %s the range %d..%d" % (nm, lo, hi))
        ck.obligation("int-range", "%s decoded from octets, numbers %s the range" % (label, nm), raw, where=c)

    def text(I):
        x = I.in_choice("text", sorted({lo, lo + 1, min(hi, 7), hi - 1, hi}))
        o = I.call(c, [str(x)], {})
        I.need_eq(I.meth(o, "decode"), x, "number read back after assigning the text %s" % x)
    ck.obligation("int-text", label, text, where=c)

    def textout(I):
        x = I.in_choice("text", [lo - 1, hi + 1])
        must_raise(I, lambda: I.call(c, [str(x)], {}), "the text %s outside the range" % x)
    ck.obligation("int-text", label + " outside the range", textout, where=c)

    def rawlen(I):
        b = I.in_bytes("c", 0, 40)
        if I.eq(blen(b), n):
            return
        must_raise(I, lambda: I.call(c, [mkba(I, b)], {}), "contents of a wrong size")
    ck.obligation("int-size", label + " from contents of another size", rawlen, where=c)


def check_C03(ck):
    I = ck.I
    for name, tag, n, kind in DIGITAL:
        c = ck.anchor(CDT, name)
        sg = kind == "int"
        ck.fact("int-width", name, I.getattr(c, "LENGTH") == n and I.getattr(c, "SIGNED") is sg,
                "declared %s octets, signed %s" % (I.getattr(c, "LENGTH"), I.getattr(c, "SIGNED")), where=c)
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if sg else (0, (1 << 8 * n) - 1)
        digital_obligations(ck, c, name, lo, hi, n, sg)
    all_modules(ck)
    D = ck.anchor(CDT, "Digital")
    base = [ck.anchor(CDT, t[0]) for t in DIGITAL]
    for s in subclasses(ck, D):
        if s in base:
            continue
        q = qual(I, s)
        root = [b for b in base if b in I.mro_of(s)]
        if not root:
            continue
        n, kind = [(t[2], t[3]) for t in DIGITAL if t[0] == root[0].name][0]
        ck.fact("int-width", q, I.getattr(s, "LENGTH") == n and I.getattr(s, "SIGNED") is (kind == "int"),
                "changes the width or sign of %s" % root[0].name, where=s)
        try:
            n, sg, lo, hi = ranges_of(I, s)
        except (PyRaise, TypeError):
            continue
        lo, hi = DECLARED.get(q, (lo, hi))
        full = (lo, hi) == ((-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if sg else (0, (1 << 8 * n) - 1))
        if full:
            continue
        digital_obligations(ck, s, q, lo, hi, n, sg)


# ------------------------------------------------------------------ C04
def check_C04(ck):
    for m in (CDT, "types.useful_types"):
        length_codec(ck, m)


def length_codec(ck, m):
    lab = m.rpartition(".")[2] + ": "
    E = ck.anchor(m, "encode_length")
    G = ck.anchor(m, "get_length_and_pdu")
    for lo, hi, k in ((0, 127, 0), (128, 255, 1), (256, 65535, 2), (65536, (1 << 32) - 1, None)):
        def enc(I, lo=lo, hi=hi, k=k):
            w = {127: 7, 255: 8, 65535: 16}.get(hi, 32)
            n = I.in_bits("n", w)
            if not (I.le(lo, n) and I.le(n, hi)):
                return
            p = octets(I, I.call(E, [n], {}))
            pl = blen(p)
            b = (octet_bits_w(I, n, 32))
            if k == 0:
                want = byt([n])
            elif k is not None:
                want = byt([0x80 + k] + [from_bits(b[8 * i:8 * i + 8]) for i in range(k - 1, -1, -1)])
            else:
                m = I.bindex(p, 0)
                I.need(I.eq(m, 0x84) or I.eq(m, 0x83), "first prefix octet %s" % I.show(m))
                cnt = 4 if I.eq(m, 0x84) else 3
                want = byt([0x80 + cnt] + [from_bits(b[8 * i:8 * i + 8]) for i in range(cnt - 1, -1, -1)])
                if cnt == 3:
                    I.need(I.lt(n, 1 << 24), "a length of 4 octets in 3")
            I.need_eq(p, want, "prefix of length %s" % I.show(n))
            rest = I.in_bytes("rest", 0, 70000)
            ln, r = I.seqitems(I.call(G, [byt([p, rest])], {}))
            I.need_eq(ln, n, "length read back")
            I.need_eq(octets(I, r), rest, "octets after the prefix")
        ck.obligation("prefix", lab + "lengths %d..%d" % (lo, hi), enc, where=E)
    for k in (1, 2, 3, 4, 5, 8):
        def long_(I, k=k):
            f = I.in_fixed("l", k)
            rest = I.in_bytes("rest", 0, 70000)
            ln, r = I.seqitems(I.call(G, [byt([0x80 + k, f, rest])], {}))
            u = 0
            for b in bparts(f):
                u = add(scale(u, 256), b)
            I.need_eq(ln, u, "length read from %d octets" % k)
            I.need_eq(octets(I, r), rest, "octets after the prefix")
        ck.obligation("prefix-read", lab + "%d length octets" % k, long_, where=G)

    def cut(I):
        k = I.in_choice("octets", list(range(1, 9)))
        have = I.in_bytes("have", 0, k - 1)
        must_raise(I, lambda: I.call(G, [byt([0x80 + k, have])], {}), "a prefix with missing length octets")
    ck.obligation("prefix-read", lab + "truncated prefix", cut, where=G)

    def empty(I):
        must_raise(I, lambda: I.call(G, [b""], {}), "no prefix at all")
    ck.obligation("prefix-read", lab + "no prefix", empty, where=G)

    def neg(I):
        n = I.in_int("n", None, -1)
        must_raise(I, lambda: I.call(E, [n], {}), "a negative length")
    ck.obligation("prefix", lab + "negative lengths", neg, where=E)


def octet_bits_w(I, v, w):
    v = I.facts.norm(v)
    b = bits_of(v if not isinstance(v, bool) else int(v))
    if b is None:
        raise Unsupported("number without a bit view")
    return (b + [(frozenset(), 0)] * w)[:w]


# ------------------------------------------------------------------ C05
def recorder(I, log, what, fail=None):
    def f(I2, args, kw):
        log.append((what, [a for a in args]))
        if fail is not None:
            I.throw(ValueError, fail)
        return None
    return Nat("cb", f)


def raising(I, msg):
    def f(I2, args, kw):
        I.throw(ValueError, msg)
    return Nat("cb", f)


def simple_samples(I, ck, name, kind, n):
    """(old object, assignable new value, expected contents, values that must be refused)"""
    if kind == "enum":
        c = enum_cls(ck)
        return I.call(c, [27], {}), 28, bytes([28]), [300, b"\x0f\x01", "no such unit"]
    c = ck.anchor(CDT, name)
    if kind == "bool":
        return I.call(c, [False], {}), True, b"\1", [b"\x0f\x01", b"\x03", "maybe"]
    if kind in ("int", "uint"):
        b = I.in_fixed("v", n)
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if kind == "int" else (0, (1 << 8 * n) - 1)
        tag = tagof(I, c)
        return I.call(c, [5], {}), byt([tag, b]), b, [hi + 1, lo - 1, b"\xff" + bytes(n), tag, "abc"]
    if kind == "str":
        b = I.in_bytes("v", 0, 127)
        tag = tagof(I, c)
        return I.call(c, [mkba(I, b"old")], {}), byt([tag, blen(b), b]), b, [tag + b"\x05abcd", b"\xff\x00"]
    if kind == "bits":
        b = I.in_fixed("v", 2)
        return I.call(c, ["1010"], {}), byt([4, 16, b]), b, [b"\x04\x10\x00", b"\x05\x00", "12"]
    if kind == "float":
        b = I.in_fixed("v", n)
        tag = tagof(I, c)
        return I.call(c, [mkba(I, bytes(n))], {}), byt([tag, b]), b, [tag + bytes(n - 1), b"\xff" + bytes(n)]
    if kind == "bcd":
        b = I.in_fixed("v", 1)
        return I.call(c, [5], {}), byt([13, b]), b, [b"\x0d", b"\x0c\x00", 256]
    if name in DT:
        tag = tagof(I, c)
        bad = {"DateTime": [tag + DT["Date"], tag + b"\x07\xe4\x0d\x15\xff\x0c\x22\x38\x00\x80\x00\x00", tag + b"\x07\xe4\x05\x15\xff\x18\x22\x38\x00\x80\x00\x00"],
               "Date": [tag + b"\x07\xe4", tag + b"\x07\xe4\x0d\x15\xff"], "Time": [tag + b"\x07", tag + b"\x18\0\0\0"]}[name]
        return I.call(c, [], {}), tag + DT[name], DT[name], bad
    raise Unsupported(name)


def check_C05(ck):
    for name, tag, n, kind in TYPES:
        if kind == "null":
            continue
        c = ck.anchor(CDT, name) if kind != "enum" else enum_cls(ck)

        def order(I, name=name, kind=kind, n=n):
            o, new, cont, _ = simple_samples(I, ck, name, kind, n)
            old = octets(I, I.getattr(o, "encoding"))
            log = []

            def pre(I2, a, k):
                log.append("pre")
                I.need(len(a) == 1, "the preset callback gets %d arguments" % len(a))
                I.need_eq(octets(I, I.getattr(a[0], "contents")), cont, "value offered to the preset callback")
                I.need_eq(octets(I, I.getattr(o, "encoding")), old, "object seen by the preset callback")

            def post(I2, a, k):
                log.append("post")
                I.need_eq(octets(I, I.getattr(o, "contents")), cont, "object seen by the post-set callback")
            I.meth(o, "register_cb_preset", Nat("pre", pre))
            I.meth(o, "register_cb_post_set", Nat("post", post))
            I.meth(o, "set", new)
            I.need(log == ["pre", "post"], "callbacks called: %s" % (log,))
            I.need_eq(octets(I, I.getattr(o, "contents")), cont, "contents after set")
            I.need_eq(I.typeof(o), c, "type after set")
        ck.obligation("order", name, order, where=c)

        def nocb(I, name=name, kind=kind, n=n):
            o, new, cont, _ = simple_samples(I, ck, name, kind, n)
            I.meth(o, "set", new)
            I.need_eq(octets(I, I.getattr(o, "contents")), cont, "contents after set")
        ck.obligation("order", name + " without callbacks", nocb, where=c)

        def preset_fails(I, name=name, kind=kind, n=n):
            o, new, cont, _ = simple_samples(I, ck, name, kind, n)
            old = octets(I, I.getattr(o, "encoding"))
            log = []
            I.meth(o, "register_cb_preset", raising(I, "refused"))
            I.meth(o, "register_cb_post_set", Nat("post", lambda I2, a, k: log.append("post")))
            e = must_raise(I, lambda: I.meth(o, "set", new), "assignment refused by the preset callback")
            I.need(I.exc_is(e, ValueError), "the refusal of the preset callback is lost")
            I.need(not log, "post-set callback called after a refused assignment")
            I.need_eq(octets(I, I.getattr(o, "encoding")), old, "object after a refused assignment")
        ck.obligation("preset-refusal", name, preset_fails, where=c)

        def invalid(I, name=name, kind=kind, n=n):
            o, new, cont, bad = simple_samples(I, ck, name, kind, n)
            v = I.in_choice("bad", bad)
            old = octets(I, I.getattr(o, "encoding"))
            log = []
            I.meth(o, "register_cb_preset", Nat("pre", lambda I2, a, k: log.append("pre")))
            I.meth(o, "register_cb_post_set", Nat("post", lambda I2, a, k: log.append("post")))
            must_raise(I, lambda: I.meth(o, "set", v), "assignment of an invalid value")
            I.need(not log, "callbacks called for an invalid value: %s" % (log,))
            I.need_eq(octets(I, I.getattr(o, "encoding")), old, "object after an invalid assignment")
        ck.obligation("invalid-value", name, invalid, where=c)

        def direct(I, name=name, kind=kind, n=n):
            o, new, cont, _ = simple_samples(I, ck, name, kind, n)
            for attr in ("contents", "TAG"):
                must_raise(I, lambda: I.setattr(o, attr, b"\x00"), "direct assignment of %s" % attr)
        ck.obligation("write-once", name, direct, where=c)

    A = ck.anchor(CDT, "Array")
    U = ck.anchor(CDT, "Unsigned")
    for how in ("invalid", "preset", "ok"):
        def arr(I, how=how):
            o = I.call(A, [bytes.fromhex("01021101 1102".replace(" ", ""))], {})
            old = octets(I, I.getattr(o, "encoding"))
            log = []
            if how == "preset":
                I.meth(o, "register_cb_preset", raising(I, "refused"))
            else:
                def pre(I2, a, k):
                    log.append("pre")
                I.meth(o, "register_cb_preset", Nat("pre", pre))
            I.meth(o, "register_cb_post_set", Nat("post", lambda I2, a, k: log.append("post")))
            b = I.in_fixed("v", 3)
            good = byt([1, 3, 0x11, I.bindex(b, 0), 0x11, I.bindex(b, 1), 0x11, I.bindex(b, 2)])
            bad = [byt([1, 3, 0x11, I.bindex(b, 0), 0x11, I.bindex(b, 1)]), byt([1, 2, 0x11, I.bindex(b, 0), 0x0f, I.bindex(b, 1)]),
                   byt([2, 1, 0x11, I.bindex(b, 0)])]
            if how == "ok":
                I.meth(o, "set", good)
                I.need_eq(octets(I, I.getattr(o, "encoding")), good, "array after set")
                I.need(log == ["pre", "post"], "callbacks called: %s" % (log,))
                return
            v = good if how == "preset" else bad[I.in_choice("bad", [0, 1, 2])]
            must_raise(I, lambda: I.meth(o, "set", v), "assignment that must be refused")
            I.need("post" not in log, "post-set callback called after a refused assignment")
            I.need_eq(octets(I, I.getattr(o, "encoding")), old, "array after a refused assignment")
        ck.obligation("array", "Array.set, " + how, arr, where=A)

    SU = ck.anchor(CDT, "ScalUnitType")

    def struct(I):
        o = I.call(SU, [(1, 27)], {})
        old = octets(I, I.getattr(o, "encoding"))
        v = I.in_choice("bad", [b"\x02\x02\x0f\x05\x16\x00", b"\x02\x02\x0f\x05", b"\x02\x01\x0f\x05", b"\x01\x02\x0f\x05\x16\x05", (5, 0), (5,)])
        must_raise(I, lambda: I.meth(o, "set", v), "assignment of an invalid value")
        I.need_eq(octets(I, I.getattr(o, "encoding")), old, "structure after an invalid assignment")
    ck.obligation("invalid-value", "Structure", struct, where=SU)

    def struct_ok(I):
        o = I.call(SU, [(1, 27)], {})
        b = I.in_byte("b")
        new = byt([2, 2, 0x0F, b, 0x16, 30])
        log = []
        I.meth(I.getitem(o, 0), "register_cb_post_set", Nat("post", lambda I2, a, k: log.append("post")))
        I.meth(o, "set", new)
        I.need_eq(octets(I, I.getattr(o, "encoding")), new, "structure after set")
        I.need(log == ["post"], "post-set callback of an element called %d times" % len(log))
    ck.obligation("order", "Structure", struct_ok, where=SU)

    def struct_pre(I):
        o = I.call(SU, [(1, 27)], {})
        old = octets(I, I.getattr(o, "encoding"))
        k = I.in_choice("element", [0, 1])
        I.meth(I.getitem(o, k), "register_cb_preset", raising(I, "refused"))
        must_raise(I, lambda: I.meth(o, "set", (5, 30)), "assignment refused by an element")
        I.need_eq(octets(I, I.getattr(o, "encoding")), old, "structure after element %d refused the assignment" % k)
    ck.obligation("preset-refusal", "Structure", struct_pre, where=SU)

    # constants refuse assignment
    CM = ck.anchor(CDT, "ConstantMixin")
    all_modules(ck)
    for s in subclasses(ck, CM):
        def const(I, s=s):
            o = I.call(s, [], {})
            old = octets(I, I.getattr(o, "encoding"))
            must_raise(I, lambda: I.meth(o, "set", old), "assignment to a constant")
        ck.obligation("constant", qual(ck.I, s), const, where=s)


# ------------------------------------------------------------------ C29
def check_C29(ck):
    B = ck.anchor(CDT, "BitString")
    sizes = (0, 1, 2, 7, 8, 9, 12, 16, 20, 24, 32) if not ck.thorough else list(range(0, 49)) + [64, 127, 128]
    for n in sizes:
        k = (n + 7) // 8

        def obj(I, n=n, k=k):
            bits = [I.in_bits("bit%d" % i, 1) for i in range(n)]
            vals = [I.facts.norm(b) for b in bits] + [0] * (8 * k - n)
            octs = []
            for j in range(k):
                u = 0
                for i in range(8):
                    u = add(u, scale(vals[8 * j + i], 1 << (7 - i)))
                octs.append(I.facts.norm(u))
            body = byt(octs) if octs else b""
            return vals[:n], body, I.call(B, [byt([4, length_prefix(I, n), body])], {})

        def read(I, n=n, k=k, obj=obj):
            bits, body, o = obj(I)
            I.need_eq(I.length(o), n, "bit count")
            I.need_eq(octets(I, I.getattr(o, "encoding")), byt([4, length_prefix(I, n), body]), "encoding")
            d = I.seqitems(I.meth(o, "decode"))
            I.need(len(d) == n, "%d bits decoded" % len(d))
            for i in range(n):
                I.need_eq(d[i], bits[i], "bit %d" % i)
        ck.obligation("bit-order", "%d bits decoded" % n, read, where=B)

        if n <= 12:
            def text(I, n=n, k=k):
                v = "".join(I.in_choice("b%d" % i, ["0", "1"]) for i in (range(n) if n <= 4 else (0, n // 2, n - 1))) if n else ""
                if n > 4:
                    w = ["0"] * n
                    for p, ch in zip((0, n // 2, n - 1), v):
                        w[p] = ch
                    v = "".join(w)
                o = I.call(B, [v], {})
                pad = v + "0" * (8 * k - n)
                want = bytes(int(pad[8 * i:8 * i + 8], 2) for i in range(k))
                I.need_eq(octets(I, I.getattr(o, "encoding")), byt([4, length_prefix(I, n), want]), "encoding of %s" % v)
                o2 = I.call(B, [I.mklist([int(ch) for ch in v])], {})
                I.need_eq(octets(I, I.getattr(o2, "encoding")), byt([4, length_prefix(I, n), want]), "encoding of the list of %s" % v)
                I.need_eq(I.call(str, [o], {}), v, "text form")
            ck.obligation("bit-order", "%d bits from text" % n, text, where=B)
        if n:
            def setbit(I, n=n, k=k):
                v = [I.in_choice("b%d" % i, ["0", "1"]) if i in (0, n - 1) else str(i % 2) for i in range(n)]
                o = I.call(B, ["".join(v)], {})
                i = I.in_choice("i", sorted({0, n // 2, n - 1}))
                x = I.in_choice("x", [0, 1, True, False])
                I.setitem(o, i, x)
                w = list(v)
                w[i] = "1" if x else "0"
                I.need_eq(I.call(str, [o], {}), "".join(w), "after setting bit %d of %s" % (i, "".join(v)))
                I.need_eq(I.length(o), n, "bit count")
                I.meth(o, "inverse", i)
                w[i] = "0" if x else "1"
                I.need_eq(I.call(str, [o], {}), "".join(w), "after inverting bit %d" % i)
                I.need_eq(I.getitem(o, i), bytes([int(w[i])]), "bit %d read by index" % i)
            ck.obligation("bit-set", "%d bits" % n, setbit, where=B)

            def clear(I, n=n, k=k):
                v = [I.in_choice("b%d" % i, ["0", "1"]) if i in (0, n - 1) else str(i % 2) for i in range(n)]
                o = I.call(B, ["".join(v)], {})
                I.meth(o, "clear")
                I.need_eq(octets(I, I.getattr(o, "encoding")), byt([4, length_prefix(I, n), bytes(k)]), "cleared bit string")
            ck.obligation("bit-set", "%d bits cleared" % n, clear, where=B)

            def outside(I, n=n, k=k):
                o = I.call(B, ["1" * n], {})
                i = I.in_int("i", n, None)
                must_raise(I, lambda: I.setitem(o, i, 1), "a bit beyond the declared size")
            ck.obligation("bit-set", "%d bits, index outside" % n, outside, where=B)

            def rot(I, n=n):
                v = [I.in_choice("b%d" % i, ["0", "1"]) if i in (0, n - 1) else str(i % 2) for i in range(n)]
                v = "".join(v)
                o = I.call(B, [v], {})
                I.call(I.getattr(o, "__lshift__"), [1], {})
                I.need_eq(I.call(str, [o], {}), v[1:] + v[:1], "rotated left")
                I.call(I.getattr(o, "__rshift__"), [1], {})
                I.need_eq(I.call(str, [o], {}), v, "rotated left and right")
            ck.obligation("bit-rotate", "%d bits" % n, rot, where=B)

    def frombytes(I):
        k = I.in_choice("octets", [0, 1, 2, 3, 4])
        b = I.in_fixed("c", k)
        o = I.call(B, [mkba(I, b)], {})
        I.need_eq(octets(I, I.getattr(o, "encoding")), byt([4, 8 * k, b]), "encoding")
    ck.obligation("bit-order", "contents given as octets", frombytes, where=B)

    def copied(I):
        b = I.in_fixed("c", 2)
        o = I.call(B, [byt([4, 13, b])], {})
        for p in (I.call(B, [o], {}), I.meth(o, "copy")):
            I.need_eq(octets(I, I.getattr(p, "encoding")), octets(I, I.getattr(o, "encoding")), "copy")
    ck.obligation("bit-order", "copy", copied, where=B)

    # fixed-size bit strings
    IMP = "types.implementations.bitstrings"
    try:
        C = ck.anchor(IMP, "Conformance")
    except AnchorMissing:
        C = None
    if C is not None:
        def conf(I):
            b = I.in_fixed("c", 3)
            o = I.call(C, [byt([4, 24, b])], {})
            I.need_eq(octets(I, I.getattr(o, "encoding")), byt([4, 24, b]), "encoding")
            I.need_eq(I.length(o), 24, "bit count")
        ck.obligation("bit-size", "Conformance decoded", conf, where=C)

        def confsize(I):
            n = I.in_choice("n", [0, 1, 8, 16, 23, 25, 32])
            must_raise(I, lambda: I.call(C, [byt([4, n, bytes((n + 7) // 8)])], {}), "a conformance block of %d bits" % n)
        ck.obligation("bit-size", "Conformance of another size", confsize, where=C)


# ------------------------------------------------------------------ C35
def check_C35(ck):
    S = ck.anchor(CDT, "Structure")
    A = ck.anchor(CDT, "Array")
    all_modules(ck)
    SD = ck.anchor(CDT, "SimpleDataType")
    CD = ck.anchor(CDT, "CommonDataType")
    I0 = ck.I
    for s in subclasses(ck, S):
        els = cva(I0, s, "ELEMENTS")
        q = qual(I0, s)
        if els is None or not isinstance(els, tuple):
            ck.fact("struct-shape", q, False, "no element table", where=s)
            continue
        own = s
        ann = [m for m in I0.mro_of(s) if isinstance(m, ClassVal) and "ELEMENTS" in m.d]
        names = []
        ok, why = True, ""
        for e in els:
            nm, ty = I0.getattr(e, "NAME"), I0.getattr(e, "TYPE")
            names.append(nm)
            if not isinstance(ty, (ClassVal, type(None))) and not isinstance(ty, Obj):
                pass
        # elements follow the annotations of the class that declares them
        decl = ann[0] if ann else None
        if decl is not None and decl is not S:
            from rules_struct import annotation_names
            want = annotation_names(I0, decl)
            if want is not None and want != names:
                ok, why = False, "elements %s, annotations %s" % (names, want)
        ck.fact("struct-shape", q, ok, why, where=s)

        types = [I0.getattr(e, "TYPE") for e in els]
        if not all(isinstance(t, ClassVal) and CD in I0.mro_of(t) for t in types):
            continue
        n = len(els)

        def default(I, s=s, n=n, types=types):
            st, o = I.attempt(lambda: I.call(s, [], {}))
            if st == "raise":
                return
            e = octets(I, I.getattr(o, "encoding"))
            if any(isinstance(m, ClassVal) and m.name == "AXDR" for m in I.mro_of(s)):
                o2 = I.call(s, [e], {})
                I.need_eq(octets(I, I.getattr(o2, "encoding")), e, "decoded from its own encoding")
                return
            vals = I.seqitems(I.getattr(o, "values"))
            I.need(len(vals) == n, "%d elements, declared %d" % (len(vals), n))
            parts = [2, length_prefix(I, n)]
            for v, t in zip(vals, types):
                I.need(I.isinst(v, t), "element %s is not of the declared type %s" % (I.show(v), t.name))
                parts.append(octets(I, I.getattr(v, "encoding")))
            I.need_eq(e, byt(parts), "encoding")
            st, o2 = I.attempt(lambda: I.call(s, [e], {}))
            I.need(st == "ok", "its own encoding is refused (%s)" % (I.excname(o2) if st == "raise" else ""))
            I.need_eq(octets(I, I.getattr(o2, "encoding")), e, "decoded from its own encoding")
            if isinstance(e, bytes):
                for m in (n - 1, n + 1):
                    if 0 <= m < 128 and n < 128:
                        must_raise(I, lambda: I.call(s, [e[:1] + bytes([m]) + e[2:]], {}), "an encoding announcing %d of %d elements" % (m, n))
                must_raise(I, lambda: I.call(s, [b"\x01" + e[1:]], {}), "an encoding with the tag of an array")
        ck.obligation("struct-codec", q, default, where=s)

        # accessors by name
        def acc(I, s=s, n=n, names=names):
            st, o = I.attempt(lambda: I.call(s, [], {}))
            if st == "raise":
                return
            vals = I.seqitems(I.getattr(o, "values"))
            for i, nm in enumerate(names):
                if not isinstance(nm, str) or not nm.isidentifier():
                    continue
                st, v = I.attempt(lambda: I.getattr(o, nm))
                if st == "ok" and isinstance(v, Obj) and isinstance(v.cls, ClassVal) and CD in I.mro_of(v.cls):
                    I.need(v is vals[i], "accessor %s does not return element %d" % (nm, i))
        ck.obligation("struct-access", q, acc, where=s)

    SU = ck.anchor(CDT, "ScalUnitType")

    def setitem(I):
        o = I.call(SU, [(1, 27)], {})
        U = ck.anchor(CDT, "Unit")
        Int = ck.anchor(CDT, "Integer")
        v = I.call(Int, [I.in_bits("x", 7)], {})
        must_raise(I, lambda: I.setitem(o, 1, v), "an element of a foreign type")
        I.setitem(o, 0, v)
        I.need(I.getitem(o, 0) is v, "element read back")
        must_raise(I, lambda: I.setattr(o, "scaler", v), "assignment to an attribute of a structure")
    ck.obligation("struct-shape", "assignment of elements", setitem, where=SU)

    def seq(I):
        x = I.in_bits("x", 7)
        o = I.call(SU, [(x, 27)], {})
        I.need_eq(octets(I, I.getattr(o, "encoding")), byt([2, 2, 0x0F, x, 0x16, 27]), "encoding")
        for bad in ((x,), (x, 27, 1), ()):
            must_raise(I, lambda: I.call(SU, [bad], {}), "a sequence of %d elements" % len(bad))
    ck.obligation("struct-shape", "built from a sequence", seq, where=SU)

    def elt(I):
        t0 = I.in_byte("t0")
        t1 = I.in_byte("t1")
        st, v = I.attempt(lambda: I.call(SU, [byt([2, 2, t0, 1, t1, 5])], {}))
        ok = I.eq(t0, 0x0F) and I.eq(t1, 0x16)
        I.need((st == "ok") == ok, "element tags %s %s: %s" % (I.show(t0), I.show(t1), st))
    ck.obligation("struct-shape", "element types of decoded input", elt, where=SU)

    def cnt(I):
        n = I.in_bits("n", 7)
        st, v = I.attempt(lambda: I.call(SU, [byt([2, n, 0x0F, 1, 0x16, 5, 0x0F, 1])], {}))
        I.need((st == "ok") == I.eq(n, 2), "element count %s: %s" % (I.show(n), st))
    ck.obligation("struct-shape", "element count of decoded input", cnt, where=SU)

    def generic(I):
        b = I.in_bytes("b", 0, 100)
        e = byt([2, 3, 0x09, blen(b), b, 0x12, I.in_fixed("w", 2), 0x02, 1, 0x11, I.in_byte("u")])
        o = I.call(S, [e], {})
        I.need_eq(octets(I, I.getattr(o, "encoding")), e, "decoded and encoded again")
        I.need_eq(I.length(o), 3, "element count")
    ck.obligation("struct-codec", "Structure of free types", generic, where=S)

    # arrays
    U = ck.anchor(CDT, "Unsigned")
    for n in (0, 1, 2, 5, 127, 128, 255, 256, 300):
        def arr(I, n=n):
            b = I.in_fixed("v", min(n, 3))
            body = byt([byt([0x11, I.bindex(b, i % 3) if n >= 3 or i < n else 0]) for i in range(n)]) if n else b""
            e = byt([1, length_prefix(I, n), body])
            o = I.call(A, [e], {"type_": U})
            I.need_eq(I.length(o), n, "element count")
            I.need_eq(octets(I, I.getattr(o, "encoding")), e, "decoded and encoded again")
        ck.obligation("array-codec", "%d elements" % n, arr, where=A)

    def atype(I):
        t = I.in_byte("t")
        st, v = I.attempt(lambda: I.call(A, [byt([1, 2, 0x11, 1, t, 5])], {"type_": U}))
        I.need((st == "ok") == I.eq(t, 0x11), "element tag %s: %s" % (I.show(t), st))
        st, v = I.attempt(lambda: I.call(A, [byt([1, 2, 0x11, 1, t, 5])], {}))
        I.need((st == "ok") == I.eq(t, 0x11), "second element tag %s: %s" % (I.show(t), st))
    ck.obligation("array-shape", "element types of decoded input", atype, where=A)

    def acount(I):
        n = I.in_choice("n", list(range(128)))
        st, v = I.attempt(lambda: I.call(A, [byt([1, n, 0x11, 1, 0x11, 5])], {"type_": U}))
        I.need((st == "ok") == I.le(n, 2), "element count %s with two elements: %s" % (I.show(n), st))
        if st == "ok":
            I.need_eq(I.length(v), n, "element count")
    ck.obligation("array-shape", "element count of decoded input", acount, where=A)

    def append(I):
        x = I.in_byte("x")
        o = I.call(A, [], {"type_": U})
        I.meth(o, "append", x)
        I.meth(o, "append", I.call(U, [7], {}))
        I.meth(o, "append", byt([0x11, x]))
        I.need_eq(octets(I, I.getattr(o, "encoding")), byt([1, 3, 0x11, x, 0x11, 7, 0x11, x]), "array after appending")
        Int = ck.anchor(CDT, "Integer")
        must_raise(I, lambda: I.meth(o, "append", I.call(Int, [7], {})), "an element of a foreign type")
        must_raise(I, lambda: I.meth(o, "append", 256), "an element outside the range of the type")
        I.need_eq(I.length(o), 3, "element count after refused elements")
        must_raise(I, lambda: I.setattr(o, "TYPE", Int), "assignment of the element type")
    ck.obligation("array-shape", "append", append, where=A)

    def inserts(I):
        x, at = I.in_byte("x"), I.in_choice("at", [0, 1, 2])
        o = I.call(A, [byt([1, 2, 0x11, 1, 0x11, 2])], {"type_": U})
        vals = [1, 2]
        I.meth(o, "insert", at, I.call(U, [x], {}))
        vals.insert(at, x)
        want = byt([1, 3] + [k for v in vals for k in (0x11, v)])
        I.need_eq(octets(I, I.getattr(o, "encoding")), want, "array after insert(%s)" % at)
        for other in ("Integer", "LongUnsigned"):
            v = I.call(ck.anchor(CDT, other), [7], {})
            I.attempt(lambda: I.meth(o, "insert", at, v))
            I.need_eq(octets(I, I.getattr(o, "encoding")), want, "array after an element of a foreign type")
            I.attempt(lambda: I.meth(o, "remove", v))
            I.need_eq(octets(I, I.getattr(o, "encoding")), want, "array after removing an element of a foreign type")
        I.meth(o, "remove", I.getitem(o, at))
        left = list(vals)
        first = next(i for i, v in enumerate(vals) if i == at or I.eq(v, vals[at]))
        del left[first]
        I.need_eq(octets(I, I.getattr(o, "encoding")), byt([1, 2] + [k for v in left for k in (0x11, v)]), "array after removing an element")
    ck.obligation("array-shape", "insertion", inserts, where=A)

    def pops(I):
        x = I.in_byte("x")
        o = I.call(A, [byt([1, 3, 0x11, x, 0x11, 7, 0x11, 9])], {})
        e = I.meth(o, "pop", 1)
        I.need_eq(I.call(int, [e], {}), 7, "popped element")
        I.need_eq(octets(I, I.getattr(o, "encoding")), byt([1, 2, 0x11, x, 0x11, 9]), "array after pop(1)")
        e = I.meth(o, "pop")
        I.need_eq(I.call(int, [e], {}), 9, "element popped from the end")
        I.meth(o, "clear")
        I.need_eq(octets(I, I.getattr(o, "encoding")), b"\x01\x00", "cleared array")
    ck.obligation("array-shape", "removal", pops, where=A)


# ------------------------------------------------------------------ C37
def check_C37(ck):
    for name, tag, n, kind in TYPES:
        c = ck.anchor(CDT, name) if kind != "enum" else enum_cls(ck)

        def mk(I, nm, name=name, n=n, kind=kind, c=c, tag=tag):
            if kind == "null":
                return b"", I.call(c, [], {})
            if kind == "bool":
                b = I.in_choice(nm, [b"\0", b"\1"])
            elif name in DT:
                b = I.in_choice(nm, [DT[name], DT[name][:-1] + b"\x04"])
            elif kind == "enum":
                b = byt([I.in_choice(nm, [1, 2, 255])])
            elif kind == "str":
                k = I.in_choice(nm + " size", [0, 1, 3])
                b = I.in_fixed(nm, k)
            elif kind == "bits":
                b = byt([I.in_byte(nm)])
                return b, I.call(c, [byt([4, 8, b])], {})
            else:
                b = I.in_fixed(nm, n)
            return b, I.call(c, [mkba(I, b)], {})

        def eqs(I, mk=mk):
            a, x = mk(I, "a")
            b, y = mk(I, "b")
            same = I.eq(blen(a), blen(b)) and I.eq(a, b)
            I.need(I.eq(x, y) == same, "equality of %s and %s is %s" % (I.show(a), I.show(b), not same))
            e = octets(I, I.getattr(y, "encoding"))
            I.need(I.eq(x, e) == same, "equality with the encoding of %s is %s" % (I.show(b), not same))
            if same:
                I.need_eq(pyhash(I, x), pyhash(I, y), "hashes of equal values")
            I.need(not I.eq(x, None), "equal to None")
        ck.obligation("equality", name, eqs, where=c)

        def cp(I, mk=mk, c=c, kind=kind):
            a, x = mk(I, "a")
            e = octets(I, I.getattr(x, "encoding"))
            y = I.meth(x, "copy")
            I.need(y is not x, "the copy is the object itself")
            I.need(I.typeof(y) is I.typeof(x), "type of the copy")
            I.need_eq(octets(I, I.getattr(y, "encoding")), e, "encoding of the copy")
            if kind == "null":
                return
            b, z = mk(I, "b")
            I.meth(y, "set", z)
            I.need_eq(octets(I, I.getattr(x, "encoding")), e, "original after changing the copy")
            I.need_eq(octets(I, I.getattr(y, "contents")), b, "changed copy")
            w = I.meth(x, "get_copy", z)
            I.need_eq(octets(I, I.getattr(x, "encoding")), e, "original after get_copy")
            I.need_eq(octets(I, I.getattr(w, "contents")), b, "copy with another value")
        ck.obligation("copy", name, cp, where=c)

        def tags(I, mk=mk):
            a, x = mk(I, "a")
            must_raise(I, lambda: I.setattr(x, "TAG", b"\x00"), "assignment of the tag")
        ck.obligation("tag-constant", name, tags, where=c)

        if kind not in ("null",):
            def clr(I, mk=mk, tag=tag, kind=kind, c=c):
                if kind == "bits":
                    x = I.call(c, [bytes([4, 8, I.in_choice("a", [0, 0xA5, 0xFF])])], {})
                else:
                    a, x = mk(I, "a")
                st, v = I.attempt(lambda: I.meth(x, "clear"))
                I.need(st == "ok", "clear() fails: %s" % (I.excname(v) if st == "raise" else ""))
                e = octets(I, I.getattr(x, "encoding"))
                I.need_eq(I.bindex(e, 0), tag, "tag after clear()")
            ck.obligation("clear", name, clr, where=c)

    names = [t for t in TYPES if t[3] in ("int", "uint", "float", "str")]
    for i, t in enumerate(names):
        for u in names[i + 1:]:
            if t[2] != u[2]:
                continue

            def cross(I, t=t, u=u):
                k = t[2] if t[2] is not None else 3
                b = I.in_fixed("c", k)
                x = I.call(ck.anchor(CDT, t[0]), [mkba(I, b)], {})
                y = I.call(ck.anchor(CDT, u[0]), [mkba(I, b)], {})
                I.need(not I.eq(x, y), "a %s equals a %s of the same contents" % (t[0], u[0]))
            ck.obligation("equality", "%s and %s" % (t[0], u[0]), cross, where=ck.anchor(CDT, "CommonDataType"))

    A, S, SU = ck.anchor(CDT, "Array"), ck.anchor(CDT, "Structure"), ck.anchor(CDT, "ScalUnitType")
    for c in (A, SU):
        def cpl(I, c=c):
            a, b = I.in_byte("a"), I.in_byte("b")
            mk = lambda v: I.call(c, [byt([1, 2, 0x11, v, 0x11, 5]) if c is A else byt([2, 2, 0x0F, v, 0x16, 5])], {})
            x, y = mk(a), mk(b)
            same = I.eq(a, b)
            I.need(I.eq(x, y) == same, "equality is %s" % (not same))
            if same:
                I.need_eq(pyhash(I, x), pyhash(I, y), "hashes of equal values")
            z = I.meth(x, "copy")
            e = octets(I, I.getattr(x, "encoding"))
            I.need_eq(octets(I, I.getattr(z, "encoding")), e, "encoding of the copy")
            I.meth(I.getitem(z, 0), "set", 3)
            I.need_eq(octets(I, I.getattr(x, "encoding")), e, "original after changing an element of the copy")
            I.need_eq(I.call(int, [I.getitem(z, 0)], {}), 3, "element of the copy")
        ck.obligation("copy", c.name, cpl, where=c)
