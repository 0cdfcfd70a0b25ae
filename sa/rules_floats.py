"""C38: floating-point numbers. The package's own conversion is interpreted; the conversions of the platform (float, struct) are uninterpreted functions for free numbers and folded for constants."""
from dom import byt
from rules_types import CDT

FLOATS = '''
import struct
from DLMS_SPODES.types import cdt

WIDE = {"f": (cdt.Float32, ">f", b"\\x17"), "d": (cdt.Float64, ">d", b"\\x18")}
NUMBERS = (0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 0.1, 0.2, 1 / 3, 100.25, 0.001, 1e-5, 123456.789, 16777215.0, 16777217.0, 16777219.0, 33554435.0, 1e10, 3.4028234663852886e38, 1.1754943508222875e-38, 1e-40, 1.401298464324817e-45, 1e-46, 1e38)
WIDER = (1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 1e300, 1e-300, 9007199254740993.0, 3.5e38, 1e39)


def held(v, fmt, tag, x):
    raw = struct.pack(fmt, x)
    same(v.contents, raw, "octets of the number")
    same(v.encoding, tag + raw, "encoding of the number")
    same(v.decode(), struct.unpack(fmt, raw)[0], "the number read back")


def listed(which, x):
    """a number, its text, its encoding"""
    T, fmt, tag = WIDE[which]
    held(T(x), fmt, tag, x)
    held(T(str(x)), fmt, tag, x)
    held(T(repr(x)), fmt, tag, x)
    held(T(x.hex()), fmt, tag, x)
    held(T(tag + struct.pack(fmt, x)), fmt, tag, x)
    v = T(7.0)
    v.set(x)
    held(v, fmt, tag, x)
    w = T(v)
    held(w, fmt, tag, x)
    held(v.copy(), fmt, tag, x)
    held(T(str(v)), fmt, tag, v.decode())
    if x == int(x) and x != 0:
        held(T(int(x)), fmt, tag, x)


def beyond(which, x):
    """what the width does not hold is refused"""
    T, fmt, tag = WIDE[which]
    r = outcome(T, x)
    need(r[0] == "raise" and r[1] in ("OverflowError", "ValueError"), "a number out of range is refused")
    need(outcome(T, str(x))[:2] == ("raise", "ValueError"), "its text is refused with ValueError")
    v = T(1.5)
    need(refused(v.set, x), "and is not set")
    held(v, fmt, tag, 1.5)


def foreign(which, text):
    T, fmt, tag = WIDE[which]
    need(outcome(T, text)[:2] == ("raise", "ValueError"), "text that is not a number is refused with ValueError")
    v = T(1.5)
    need(outcome(v.set, text)[:2] == ("raise", "ValueError"), "and is not set")
    held(v, fmt, tag, 1.5)


def whole(which, n):
    """any number: the octets are those of the platform's conversion"""
    T, fmt, tag = WIDE[which]
    x = float(n)
    for y in (x, n):
        r = outcome(T, y)
        if r[0] == "ok":
            held(r[1], fmt, tag, x)


def octets(which, raw):
    """the octets of an encoding are kept and are the number"""
    T, fmt, tag = WIDE[which]
    v = T(tag + raw)
    same(v.contents, raw, "octets kept")
    same(v.encoding, tag + raw, "encoding")
    same(v.decode(), struct.unpack(fmt, raw)[0], "the number")
    w = T(tag + raw + b"\\x01")
    same(w.contents, raw, "octets of the number only")
    need(refused(T, tag + raw[1:]), "too few octets are refused")
    need(refused(T, b"\\x06" + raw), "another tag is refused")


def across(x):
    """a number of the other width is converted"""
    d = cdt.Float64(x)
    f = cdt.Float32(d)
    held(f, ">f", b"\\x17", x)
    held(cdt.Float64(f), ">d", b"\\x18", struct.unpack(">f", struct.pack(">f", x))[0])


def typed(which, text, cursor):
    """an unfinished number is completed by a zero"""
    T, fmt, tag = WIDE[which]
    v = T(1.5)
    full = text + "0" if text != "" and text[-1] in ".-+exp" else text
    r = outcome(v.validate_from, text, cursor)
    if outcome(T, full)[0] == "ok":
        same(r, ("ok", (full, cursor)), "typed text that is a number")
    else:
        need(r[:2] == ("raise", "ValueError"), "typed text that is not a number is refused with ValueError")
    held(v, fmt, tag, 1.5)


def numbers(which):
    return NUMBERS if which == "f" else NUMBERS + WIDER
'''
N = 25
WIDER = 8
FOREIGN = ("", "x", "1,5", "1.5.2", "--1", "0x", "one", "1 2", "g")
TYPED = ("", "1", "1.", "1.5", "-", "+", "-1", "1e", "1e+", "1e-", "1e+3", ".", ".5", "0x1p", "abc", "1.5.", "1 ", "--", "e")


def check_C38(ck):
    w = ck.witness(FLOATS)
    init = ck.anchor(CDT, "Float", "from_float")
    dec = ck.anchor(CDT, "Float", "decode")
    txt = ck.anchor(CDT, "Float", "from_str")
    typ = ck.anchor(CDT, "Float", "validate_from")
    nums = ck.I.call(ck.I.getattr(w, "numbers"), ["d"], {})
    for which, width in (("f", 4), ("d", 8)):
        for x in nums[:N] if which == "f" else nums:
            ck.claim("number", "%s, %r" % (which, x), w, "listed", lambda I, x=x, which=which: (which, x), where=init)
        for x in ([1e39, -3.5e38, 3.4028236e38, 1e300] if which == "f" else []) + [float("inf"), float("-inf")]:
            ck.claim("range", "%s, %r" % (which, x), w, "beyond", lambda I, x=x, which=which: (which, x), where=init)
        for s in FOREIGN + ("1e400", "0x1p+2000") + (("1e39",) if which == "f" else ()):
            ck.claim("text", "%s, %r" % (which, s), w, "foreign", lambda I, s=s, which=which: (which, s), where=txt)
        ck.claim("number", "%s, any whole number" % which, w, "whole", lambda I, which=which: (which, I.in_int("number", -(1 << 60), 1 << 60)), where=init)
        ck.claim("octets", "%s, any octets" % which, w, "octets", lambda I, which=which, width=width: (which, byt([I.in_byte("octet %d" % i) for i in range(width)])), where=dec)
        for s in TYPED:
            ck.claim("typed", "%s, %r" % (which, s), w, "typed", lambda I, s=s, which=which: (which, s, I.in_int("cursor", 0, 8)), where=typ)
    for x in nums[:N]:
        ck.claim("across", "%r" % x, w, "across", lambda I, x=x: (x,), where=init)
