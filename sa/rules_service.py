"""C08, C09: the service types (useful_types), the data choices and the invoke-id octet."""

SERVICE = '''
from dataclasses import dataclass
from DLMS_SPODES.types import cst, cdt, ut
from DLMS_SPODES.types.cosemObjectInstanceId import CosemObjectInstanceId
from DLMS_SPODES.cosem_interface_classes.association_ln import ver0 as aln
from DLMS_SPODES.cosem_interface_classes.profile_generic import ver1 as profile


def prefix(n):
    if n < 128:
        return bytes([n])
    if n < 256:
        return bytes([0x81, n])
    if n < 65536:
        return bytes([0x82]) + n.to_bytes(2, "big")
    return bytes([0x84]) + n.to_bytes(4, "big")


# ------------------------------------------------------------------ integers
INTS = {"Integer8": (1, True), "Integer16": (2, True), "Integer32": (4, True), "Integer64": (8, True),
        "Unsigned8": (1, False), "Unsigned16": (2, False), "Unsigned32": (4, False), "Unsigned64": (8, False),
        "CosemClassId": (2, False), "CosemObjectAttributeId": (1, True), "CosemObjectMethodId": (1, True)}


def integer(name, raw, rest):
    cls = getattr(ut, name)
    n, signed = INTS[name]
    v = cls.from_contents(raw + rest)
    same(int(v), int.from_bytes(raw, "big", signed=signed), "number")
    same(v.contents, raw, "contents")
    need(v == cls(int(v)), "equal to one built from the number")


def integer_value(name, x):
    v = getattr(ut, name)(x)
    n, signed = INTS[name]
    same(v.contents, x.to_bytes(n, "big", signed=signed), "contents")
    same(int(v), x, "number")


def integer_refused(name, x):
    refuse("a number outside the range of " + name, getattr(ut, name), x)


def integer_short(name, raw):
    refuse(name + " cut off", getattr(ut, name).from_contents, raw)


def selection(x):
    st = outcome(ut.AccessSelectionParameters, x)
    if 0 <= x <= 1:
        need(st[0] == "ok", "0 and 1 are accepted")
        same(st[1].contents, bytes([x]), "contents")
    else:
        need(st[0] == "raise", "other numbers than 0 and 1 are refused")


# ------------------------------------------------------------------ strings
def octets(value, rest):
    v = ut.OctetString(value)
    e = prefix(len(value)) + value
    same(v.contents, e, "contents")
    w = ut.OctetString.from_contents(e + rest)
    same(w.value, value, "value read back")
    same(w.contents, e, "contents read back")
    same(bytes(w), value, "octets of the value")


def octets_short(value, n):
    if len(value) >= n:
        return
    refuse("an octet string cut off", ut.OctetString.from_contents, prefix(n) + value)


FIXED = {"OctetString4": 4, "OctetString5": 5, "OctetString6": 6, "OctetString8": 8, "OctetString12": 12}


def fixed(name, raw, rest):
    cls = getattr(ut, name)
    need(cls.SIZE() == FIXED[name], "size of the name")
    same(cls(raw).contents, raw, "contents of the value")
    same(cls.from_contents(raw + rest).contents, raw, "contents read back")


def fixed_size(name, raw):
    cls = getattr(ut, name)
    refuse("a value of another size", cls, raw)
    if len(raw) < FIXED[name]:
        refuse("contents cut off", cls.from_contents, raw)


def text(name, t, rest):
    cls = getattr(ut, name)
    raw = t.encode("ascii" if name == "VisibleString" else "utf-8")
    v = cls(t)
    e = prefix(len(raw)) + raw
    same(v.contents, e, "contents")
    w = cls.from_contents(e + rest)
    same(w.value, t, "text read back")
    same(w.contents, e, "contents read back")
    refuse("a text cut off", cls.from_contents, e[:-1])


def no_ascii(t):
    refuse("a visible string with other characters", ut.VisibleString, t)
    raw = t.encode("utf-8")
    refuse("contents of a visible string with other characters", ut.VisibleString.from_contents, prefix(len(raw)) + raw)


def flag(b, rest):
    v = ut.BOOLEAN.from_contents(bytes([b]) + rest)
    need(bool(v) == (b != 0), "true exactly for a value other than zero")
    same(v.contents, b"\\x01" if b else b"\\x00", "contents")
    refuse("no contents", ut.BOOLEAN.from_contents, b"")


def bits(n, raw, rest):
    size = (n + 7) // 8
    v = ut.BitString.from_contents(prefix(n) + raw + rest)
    same(len(v), n, "count of bits")
    for i in range(n):
        need(int(v.value[i]) == (raw[i // 8] >> (7 - i % 8)) & 1, "bit %d" % i)
    padded = raw
    if n % 8:
        keep = (0xff << (8 - n % 8)) & 0xff
        padded = raw[:-1] + bytes([raw[-1] & keep])
    same(v.contents, prefix(n) + padded, "contents")
    if size:
        refuse("a bit string cut off", ut.BitString.from_contents, prefix(n) + raw[:-1])


# ------------------------------------------------------------------ sequences
def attribute_descriptor(c, i, a, rest):
    d = ut.CosemAttributeDescriptor.from_contents(c + i + a + rest)
    same(int(d.class_id), int.from_bytes(c, "big"), "class id")
    same(d.instance_id.contents, i, "instance id")
    same(int(d.attribute_id), int.from_bytes(a, "big", signed=True), "attribute id")
    same(d.contents, c + i + a, "contents")
    need(isinstance(d.class_id, ut.CosemClassId) and isinstance(d.instance_id, ut.CosemObjectInstanceId)
         and isinstance(d.attribute_id, ut.CosemObjectAttributeId), "declared types of the fields")
    e = ut.CosemAttributeDescriptor(ut.CosemClassId(int.from_bytes(c, "big")), CosemObjectInstanceId(i), ut.CosemObjectAttributeId(int.from_bytes(a, "big", signed=True)))
    same(e.contents, c + i + a, "contents of the built descriptor")


def method_descriptor(c, i, a, rest):
    d = ut.CosemMethodDescriptor.from_contents(c + i + a + rest)
    same(int(d.class_id), int.from_bytes(c, "big"), "class id")
    same(d.instance_id.contents, i, "instance id")
    same(int(d.method_id), int.from_bytes(a, "big", signed=True), "method id")
    same(d.contents, c + i + a, "contents")
    need(isinstance(d.method_id, ut.CosemObjectMethodId), "declared type of the method id")


def descriptor_short(raw):
    refuse("an attribute descriptor cut off", ut.CosemAttributeDescriptor.from_contents, raw)
    refuse("a method descriptor cut off", ut.CosemMethodDescriptor.from_contents, raw)


def with_selection(raw, selector, tag, value, rest):
    e = raw + bytes([selector, tag]) + value
    d = ut.CosemAttributeDescriptorWithSelection.from_contents(e + rest)
    same(d.cosem_attribute_descriptor.contents, raw, "descriptor")
    same(int(d.access_selection.access_selector), selector, "selector")
    same(d.access_selection.access_parameters.contents, bytes([tag]) + value, "parameters")
    same(d.contents, e, "contents")


def with_selection_short(raw):
    refuse("a descriptor with selection cut off", ut.CosemAttributeDescriptorWithSelection.from_contents, raw)


def association_selection(selector):
    aln.SelectiveAccessDescriptor()


def association_read(selector):
    aln.SelectiveAccessDescriptor.from_contents(bytes([selector, 0]))


@dataclass
class Mixed(ut.Sequence):
    a: ut.Unsigned8
    b: ut.OctetString
    c: ut.Integer16
    d: ut.BOOLEAN


@dataclass
class Outer(ut.Sequence):
    x: ut.BOOLEAN
    inner: Mixed
    y: ut.OctetString4


@dataclass
class Tail(ut.Sequence):
    a: ut.Unsigned16
    b: ut.Null


MaybeInt = ut.OPTIONAL(ut.Integer16)


class MaybeOctets(ut.SequenceOptional):
    TYPE = ut.OctetString


@dataclass
class Options(ut.Sequence):
    a: MaybeInt
    b: MaybeOctets
    c: ut.Unsigned8


@dataclass
class WithBits(ut.Sequence):
    a: ut.BitString
    b: ut.Data
    c: ut.Unsigned8


def mixed(a, b, c, d, rest):
    e = a + prefix(len(b)) + b + c + bytes([d])
    v = Mixed.from_contents(e + rest)
    same(v.a.contents, a, "field a")
    same(v.b.value, b, "field b")
    same(v.c.contents, c, "field c")
    need(bool(v.d) == bool(d), "field d")
    w = a + prefix(len(b)) + b + c + (b"\\x01" if d else b"\\x00")
    same(v.contents, w, "contents")


def mixed_short(a, b, c):
    e = a + prefix(len(b)) + b + c
    for k in range(len(e) + 1):
        refuse("a sequence cut off", Mixed.from_contents, e[:k])


def outer(x, a, b, c, y, rest):
    e = b"\\x01" + a + prefix(len(b)) + b + c + b"\\x00" + y
    v = Outer.from_contents(e + rest)
    need(bool(v.x), "field x")
    same(v.inner.a.contents, a, "field inner.a")
    same(v.inner.b.value, b, "field inner.b")
    same(v.inner.c.contents, c, "field inner.c")
    need(not bool(v.inner.d), "field inner.d")
    same(v.y.contents, y, "field y")
    same(v.contents, e, "contents")


def tail(a, rest):
    v = Tail.from_contents(a + rest)
    same(v.a.contents, a, "field a")
    same(v.contents, a, "contents")
    v = Tail.from_contents(a)
    same(v.contents, a, "contents of the sequence alone")


def options(fa, a, fb, b, c, rest):
    ea = b"\\x01" + a if fa else b"\\x00"
    eb = b"\\x01" + prefix(len(b)) + b if fb else b"\\x00"
    v = Options.from_contents(ea + eb + c + rest)
    if fa:
        same(v.a.value.contents, a, "optional a")
    else:
        need(v.a.value is ut.NULL, "absent a")
    if fb:
        same(v.b.value.value, b, "optional b")
    else:
        need(v.b.value is ut.NULL, "absent b")
    same(v.c.contents, c, "field c")
    same(v.contents, ea + eb + c, "contents")
    p = MaybeInt(ut.Integer16.from_contents(a)) if fa else MaybeInt()
    q = MaybeOctets(ut.OctetString(b)) if fb else MaybeOctets()
    same(Options(p, q, ut.Unsigned8(c[0])).contents, ea + eb + c, "contents of the built sequence")
    refuse("an optional without presence flag", MaybeInt.from_contents, b"")
    refuse("an optional that announces a value without it", MaybeInt.from_contents, b"\\x01" + a[:1])


def with_bits(n, raw, tag, value, c, rest):
    keep = (0xff << (8 - n % 8)) & 0xff if n % 8 else 0xff
    raw = raw[:-1] + bytes([raw[-1] & keep])
    e = bytes([n]) + raw + bytes([tag]) + value + c
    v = WithBits.from_contents(e + rest)
    same(len(v.a), n, "count of bits")
    same(v.b.contents, bytes([tag]) + value, "choice field")
    same(v.c.contents, c, "field c")
    same(v.contents, e, "contents")


def long_prefix(cls, value, rest):
    """a length prefix that is not in its shortest form is legal and read as any other"""
    @dataclass
    class Two(ut.Sequence):
        a: cls
        b: ut.Unsigned8
    v = Two.from_contents(bytes([0x81, len(value)]) + value + rest)
    same(v.b.contents, rest[:1], "field after a value with a long prefix")


# ------------------------------------------------------------------ choices
DATA = {0: ("Null", 0), 3: ("BOOLEAN", 1), 4: ("BitString", None), 5: ("Integer32", 4), 6: ("Unsigned32", 4), 9: ("OctetString", None), 10: ("VisibleString", None),
        12: ("UTF8String", None), 13: ("Integer8", 1), 15: ("Integer8", 1), 16: ("Integer16", 2), 17: ("Unsigned8", 1), 18: ("Unsigned16", 2), 20: ("Integer64", 8),
        21: ("Unsigned64", 8), 22: (None, 1), 255: (None, 0)}


def data_choice(tag, raw):
    e = bytes([tag]) + raw
    st = outcome(ut.Data.from_contents, e)
    if tag not in DATA:
        need(st[0] == "raise", "a leading byte that names no alternative is refused")
        return
    name, n = DATA[tag]
    if n is None:
        return
    need(st[0] == "ok", "a leading byte that names an alternative is accepted")
    v = st[1]
    if name:
        need(isinstance(v.value, getattr(ut, name)), "the alternative of the leading byte")
    if tag == 3:
        same(v.contents, bytes([3, 1 if raw[0] else 0]), "contents")
    else:
        same(v.contents, e[:1 + n], "contents")
    for k in range(1, n + 1):
        refuse("a choice cut off", ut.Data.from_contents, e[:k])


def data_strings(tag, value):
    e = bytes([tag]) + prefix(len(value)) + value
    v = ut.Data.from_contents(e)
    need(type(v.value) is getattr(ut, DATA[tag][0]), "the alternative of the leading byte")
    same(v.contents, e, "contents")


def data_empty():
    refuse("a choice without leading byte", ut.Data.from_contents, b"")


def data_value(name, tag):
    v = ut.Data(getattr(ut, name)(5))
    need(v.contents[0] == tag, "the identifier of the alternative leads the encoding")
    w = ut.Data.from_contents(v.contents)
    need(w == v, "the choice read back is equal")
    need(not (w == ut.Data(ut.NULL)), "another alternative is not equal")


class Two(ut.Choice):
    ELEMENTS = (ut.ChoiceElement("first", 1, ut.Unsigned16),
                ut.ChoiceElement("second", 7, ut.OctetString),
                ut.ChoiceElement("third", 200, Mixed))


def client_choice(tag, a, b, c):
    body = {1: a, 7: prefix(len(b)) + b, 200: c + prefix(len(b)) + b + a + b"\\x01"}
    st = outcome(Two.from_contents, bytes([tag]) + (body[tag] if tag in body else a + b + c))
    if tag not in body:
        need(st[0] == "raise", "a leading byte that names no alternative is refused")
        return
    need(st[0] == "ok", "a leading byte that names an alternative is accepted")
    same(st[1].contents, bytes([tag]) + body[tag], "contents")
    need(isinstance(st[1].value, {1: ut.Unsigned16, 7: ut.OctetString, 200: Mixed}[tag]), "the alternative of the leading byte")


def foreign_value():
    refuse("a value of no alternative", Two, ut.Integer8(1))
    refuse("a value of no alternative", Two, ut.NULL)
    refuse("a value of no alternative", Two, 5)
'''

CHOICES = '''
from DLMS_SPODES.types import cst, cdt, ut, choices
from DLMS_SPODES.types.implementations import structs, enums
from DLMS_SPODES.cosem_interface_classes.push_setup import ver2 as push
from DLMS_SPODES.cosem_interface_classes.security_setup import ver1 as security
from DLMS_SPODES.exceptions import DLMSException


def table(choice, types):
    """the declared types are the alternatives, each under its own wire tag"""
    got = choice.get_types()
    need(len(got) == len(types), "every declared alternative is present")
    for t in types:
        need(t in got, "every declared alternative is present")
        need(choice.is_key(t.TAG[0]), "every declared alternative has its wire tag as identifier")
        el = choice[t.TAG[0]]
        if isinstance(el, dict):
            need(any(e.TYPE is t for e in el.values()), "the identifier leads to the alternative")
        else:
            need(el.TYPE is t, "the identifier leads to the alternative")


def dispatch(choice, tag, allowed):
    """what an identifier alone gives"""
    if tag in allowed:
        v = choice(tag)
        same(v.encoding[0], tag, "leading byte of the default value of an identifier")
    else:
        st = outcome(choice, tag)
        need(st[0] == "raise" and st[1] in ("UserfulTypesException", "ValueError"), "an identifier of no alternative is refused")


def from_encoding(choice, t):
    d = t()
    v = choice(d.encoding)
    need(type(v) is t, "the alternative of the leading byte")
    same(v.encoding, d.encoding, "encoding")


def foreign(choice, tag, allowed, raw):
    if tag in allowed:
        return
    st = outcome(choice, bytes([tag]) + raw)
    need(st[0] == "raise" and st[1] in ("UserfulTypesException", "ValueError"), "a leading byte that names no alternative is refused")


def empty(choice):
    refuse("an encoding without leading byte", choice, b"")


def any_date(size, raw):
    st = outcome(choices.any_date_time, bytes([9, size]) + raw)
    want = {12: cst.OctetStringDateTime, 5: cst.OctetStringDate, 4: cst.OctetStringTime}
    if size not in want:
        need(st[0] == "raise", "an octet string of another size is refused")
    elif st[0] == "ok":
        need(type(st[1]) is want[size], "the alternative of the size")


def limited(cls, options, kind, other):
    """the first element of such a structure selects the type of the second"""
    t = options[kind].TYPE
    e = bytes([2, 2, 22, kind]) + t().encoding
    v = cls(e)
    same(v.encoding, e, "encoding")
    need(type(v.values[1]) is t, "the type of the second element is that of the first element's value")
    same(cls((kind, None)).encoding[:4], bytes([2, 2, 22, kind]), "encoding of the built structure")
    o = options[other].TYPE
    if o.TAG != t.TAG:
        refuse("a second element of another option", cls, bytes([2, 2, 22, kind]) + o().encoding)


def limited_refused(cls, kind, allowed):
    if kind not in allowed:
        refuse("an option that does not exist", cls, bytes([2, 2, 22, kind, 0]))
        refuse("an option that does not exist", cls, bytes([2, 2, 22, kind, 2, 0]))
'''


def check_C08(ck):
    w = ck.witness(SERVICE)
    U = "types.useful_types"
    rest = lambda I: I.in_bytes("rest", 0, 1 << 16)
    ints = {"Integer8": (1, True), "Integer16": (2, True), "Integer32": (4, True), "Integer64": (8, True),
            "Unsigned8": (1, False), "Unsigned16": (2, False), "Unsigned32": (4, False), "Unsigned64": (8, False),
            "CosemClassId": (2, False), "CosemObjectAttributeId": (1, True), "CosemObjectMethodId": (1, True)}
    for name, (n, signed) in ints.items():
        cls = ck.anchor(U, name)
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        ck.claim("integer", name + " read", w, "integer", lambda I, name=name, n=n: (name, I.in_fixed("raw", n), rest(I)), where=cls)
        ck.claim("integer", name + " built", w, "integer_value", lambda I, name=name, lo=lo, hi=hi: (name, I.in_int("x", lo, hi)), where=cls)
        ck.claim("integer", name + " below its range", w, "integer_refused", lambda I, name=name, lo=lo: (name, I.in_int("x", None, lo - 1)), where=cls)
        ck.claim("integer", name + " above its range", w, "integer_refused", lambda I, name=name, hi=hi: (name, I.in_int("x", hi + 1, None)), where=cls)
        for k in range(n):
            ck.claim("integer", "%s cut to %d octets" % (name, k), w, "integer_short", lambda I, name=name, k=k: (name, I.in_fixed("raw", k)), where=cls)
    ck.claim("integer", "AccessSelectionParameters", w, "selection", lambda I: (I.in_int("x", None, None),), where=ck.anchor(U, "AccessSelectionParameters"))
    os_ = ck.anchor(U, "OctetString")
    for bits in (7, 8, 16, 32):
        ck.claim("octet-string", "announced in %d bits and cut off" % bits, w, "octets_short", lambda I, bits=bits: (I.in_bytes("value", 0, (1 << bits) - 1), I.in_bits("n", bits)), where=os_)
    for lo, hi in ((0, 127), (128, 255), (256, 65535), (65536, (1 << 32) - 1)):
        ck.claim("octet-string", "length %d..%d" % (lo, hi), w, "octets", lambda I, lo=lo, hi=hi: (I.in_bytes("value", lo, hi), rest(I)), where=os_)
    for name, n in (("OctetString4", 4), ("OctetString5", 5), ("OctetString6", 6), ("OctetString8", 8), ("OctetString12", 12)):
        cls = ck.anchor(U, name)
        ck.claim("fixed-size", name, w, "fixed", lambda I, name=name, n=n: (name, I.in_fixed("raw", n), rest(I)), where=cls)
        for k in (0, 1, n - 1, n + 1, 2 * n):
            ck.claim("fixed-size", "%s of %d octets" % (name, k), w, "fixed_size", lambda I, name=name, k=k: (name, I.in_fixed("raw", k)), where=cls)
    ck.claim("text", "VisibleString", w, "text", lambda I: ("VisibleString", I.in_choice("text", ("a", "meter 5", "x" * 127, "x" * 128, "x" * 300)), rest(I)), where=ck.anchor(U, "VisibleString"))
    ck.claim("text", "UTF8String", w, "text", lambda I: ("UTF8String", I.in_choice("text", ("a", "\u0441\u0447\u0435\u0442", "\u0436" * 64, "\u0436" * 63, "\u20ac" * 100)), rest(I)), where=ck.anchor(U, "UTF8String"))
    ck.claim("text", "VisibleString of other characters", w, "no_ascii", lambda I: (I.in_choice("text", ("\u0436", "a\u00e9", "\u20ac")),), where=ck.anchor(U, "VisibleString"))
    ck.claim("boolean", "BOOLEAN", w, "flag", lambda I: (I.in_byte("b"), rest(I)), where=ck.anchor(U, "BOOLEAN"))
    for n in (0, 1, 5, 8, 9, 16, 24, 64, 65, 129, 200, 257) if not ck.thorough else list(range(0, 73)) + [127, 128, 129, 200, 257, 500]:
        ck.claim("bit-string", "%d bits" % n, w, "bits", lambda I, n=n: (n, I.in_fixed("raw", (n + 7) // 8), rest(I)), where=ck.anchor(U, "BitString"))
    seq = ck.anchor(U, "Sequence")
    for fn, name in (("attribute_descriptor", "CosemAttributeDescriptor"), ("method_descriptor", "CosemMethodDescriptor")):
        ck.claim("sequence", name, w, fn, lambda I: (I.in_fixed("c", 2), I.in_fixed("i", 6), I.in_fixed("a", 1), rest(I)), where=ck.anchor(U, name))
    for k in range(9):
        ck.claim("sequence-short", "descriptors of %d octets" % k, w, "descriptor_short", lambda I, k=k: (I.in_fixed("raw", k),), where=seq)
    ws = ck.anchor(U, "CosemAttributeDescriptorWithSelection")
    for tag, n in ((0, 0), (17, 1), (18, 2), (5, 4), (6, 4), (15, 1), (22, 1), (13, 1), (255, 0)):
        ck.claim("sequence", "CosemAttributeDescriptorWithSelection, parameters of tag %d" % tag, w, "with_selection",
                 lambda I, tag=tag, n=n: (I.in_fixed("raw", 9), I.in_byte("selector"), tag, I.in_fixed("value", n), rest(I)), where=ws)
    for k in (0, 1, 8, 9, 10):
        ck.claim("sequence-short", "descriptor with selection of %d octets" % k, w, "with_selection_short", lambda I, k=k: (I.in_fixed("raw", k),), where=ws)
    sad = ck.anchor("cosem_interface_classes.association_ln.ver0", "SelectiveAccessDescriptor")
    ck.claim("selective-access", "association_ln descriptor without arguments", w, "association_selection", lambda I: (I.in_choice("selector", (1,)),), where=sad)
    ck.claim("selective-access", "association_ln descriptor read", w, "association_read", lambda I: (I.in_choice("selector", (1,)),), where=sad)
    ck.claim("sequence", "client sequence", w, "mixed", lambda I: (I.in_fixed("a", 1), I.in_bytes("b", 0, 1 << 20), I.in_fixed("c", 2), I.in_byte("d"), rest(I)), where=seq)
    for n in (0, 3):
        ck.claim("sequence-short", "client sequence with %d octets" % n, w, "mixed_short", lambda I, n=n: (I.in_fixed("a", 1), I.in_fixed("b", n), I.in_fixed("c", 2)), where=seq)
    ck.claim("sequence", "nested sequence", w, "outer", lambda I: (0, I.in_fixed("a", 1), I.in_bytes("b", 0, 1 << 20), I.in_fixed("c", 2), I.in_fixed("y", 4), rest(I)), where=seq)
    ck.claim("sequence", "sequence that ends in an element without octets", w, "tail", lambda I: (I.in_fixed("a", 2), rest(I)), where=seq)
    opt = ck.anchor(U, "SequenceOptional")
    ck.claim("optional", "sequence of optionals", w, "options", lambda I: (I.in_bool("fa"), I.in_fixed("a", 2), I.in_bool("fb"), I.in_bytes("b", 0, 1 << 20), I.in_fixed("c", 1), rest(I)), where=opt)
    for n in (1, 8, 11, 16):
        ck.claim("sequence", "bit string of %d bits and a choice in a sequence" % n, w, "with_bits",
                 lambda I, n=n: (n, I.in_fixed("raw", (n + 7) // 8), 18, I.in_fixed("value", 2), I.in_fixed("c", 1), rest(I)), where=seq)
    for name in ("OctetString",):
        ck.claim("long-prefix", name, w, "long_prefix", lambda I, name=name: (ck.anchor(U, name), I.in_fixed("value", 3), I.in_fixed("rest", 3)), where=ck.anchor(U, "get_instance_and_context"))
    data = ck.anchor(U, "Data")
    ck.claim("choice", "Data", w, "data_choice", lambda I: (I.in_int("tag", 0, 255), I.in_fixed("raw", 9)), where=data)
    for tag in (9,):
        ck.claim("choice", "Data, octets of any size", w, "data_strings", lambda I, tag=tag: (tag, I.in_bytes("value", 0, 1 << 20)), where=data)
    for tag in (10, 12):
        ck.claim("choice", "Data, text tag %d" % tag, w, "data_strings", lambda I, tag=tag: (tag, I.in_choice("text", (b"", b"abc", b"x" * 130))), where=data)
    ck.claim("choice", "Data without octets", w, "data_empty", where=data)
    for name, tag in (("Integer8", 15), ("Integer16", 16), ("Integer32", 5), ("Integer64", 20), ("Unsigned8", 17), ("Unsigned16", 18), ("Unsigned32", 6), ("Unsigned64", 21)):
        ck.claim("choice", "Data of " + name, w, "data_value", lambda I, name=name, tag=tag: (name, tag), where=data)
    ch = ck.anchor(U, "Choice")
    ck.claim("choice", "client choice", w, "client_choice", lambda I: (I.in_int("tag", 0, 255), I.in_fixed("a", 2), I.in_bytes("b", 0, 1 << 16), I.in_fixed("c", 1)), where=ch)
    ck.claim("choice", "foreign value", w, "foreign_value", where=ch)

    # the choices of data attributes
    w2 = ck.witness(CHOICES)
    cdt = ck.mod("types.common_data_types")
    cst = ck.mod("types.cosem_service_types")
    cm = ck.mod("types.choices")

    def t(names):
        return [cdt.d[n] for n in names.split()]
    simple = t("NullData Boolean BitString DoubleLong DoubleLongUnsigned OctetString VisibleString Utf8String Bcd Integer Long Unsigned LongUnsigned Long64 Long64Unsigned "
               "Enum Float32 Float64 DateTime Date Time")
    comp = t("Array Structure CompactArray")
    ext = t("NullData BitString DoubleLongUnsigned OctetString VisibleString Utf8String Unsigned LongUnsigned Long64Unsigned")
    reg = ext + t("DoubleLong Integer Long Long64 Enum Float32 Float64")
    declared = {"simple_dt": simple, "complex_dt": comp, "common_dt": simple + comp, "extended_register": ext, "register": reg, "access_selectors": t("NullData Array"),
                "any_date_time": t("DateTime Date Time") + [cst.d["OctetStringDateTime"], cst.d["OctetStringDate"], cst.d["OctetStringTime"]],
                "device_id_object": t("DoubleLongUnsigned OctetString VisibleString Utf8String Unsigned LongUnsigned")}
    nodefault = set(t("CompactArray Array Structure Enum"))
    for name, types in declared.items():
        inst = cm.d[name]
        wh = inst.cls
        ck.claim("choice-table", name, w2, "table", lambda I, inst=inst, types=types: (inst, I.mklist(types)), where=wh)
        tags = sorted({tagof(ck, x) for x in types})
        ck.claim("choice-foreign", name, w2, "foreign", lambda I, inst=inst, tags=tags: (inst, I.in_int("tag", 0, 255), I.mklist(tags), I.in_fixed("raw", 4)), where=wh)
        ck.claim("choice-foreign", name + " without octets", w2, "empty", lambda I, inst=inst: (inst,), where=wh)
        for x in types:
            if x in nodefault or (name == "any_date_time" and x in types[3:]):
                continue
            ck.claim("choice-decode", "%s / %s" % (name, x.name), w2, "from_encoding", lambda I, inst=inst, x=x: (inst, x), where=wh)
        if name != "any_date_time":
            ok = [tagof(ck, x) for x in types if x not in nodefault]
            bad = [tagof(ck, x) for x in types if x in nodefault]
            ck.claim("choice-dispatch", name, w2, "dispatch", lambda I, inst=inst, ok=ok, bad=bad: (inst, I.in_choice("tag", [k for k in range(256) if k not in bad]), I.mklist(ok)), where=wh)
    for n in range(0, 14):
        ck.claim("choice-decode", "any_date_time, octet string of %d octets" % n, w2, "any_date", lambda I, n=n: (n, I.in_fixed("raw", n)), where=cm.d["any_date_time"].cls)
    for mod, cname, inst, kinds in (("cosem_interface_classes.push_setup.ver2", "RestrictionElement", "restriction_value", 3), ("cosem_interface_classes.push_setup.ver2", "KeyInfoElement", "key_info_options", 3),
                                    ("cosem_interface_classes.security_setup.ver1", "CertificateIdentification", "certification_identification_option", 2)):
        cls = ck.anchor(mod, cname)
        opts = (ck.mod(mod).d.get(inst) or cm.d.get(inst))
        for k in range(kinds):
            for o in range(kinds):
                if o != k:
                    ck.claim("selected-option", "%s option %d (not %d)" % (cname, k, o), w2, "limited", lambda I, cls=cls, opts=opts, k=k, o=o: (cls, opts, k, o), where=cls)
        ck.claim("selected-option", cname + " unknown option", w2, "limited_refused", lambda I, cls=cls, kinds=kinds: (cls, I.in_int("kind", 0, 255), I.mklist(list(range(kinds)))), where=cls)


def tagof(ck, c):
    t = ck.I.native_of(ck.I.getattr(c, "TAG"))
    return bytes(t)[0]


INVOKE = '''
from DLMS_SPODES.types import ut, serviceClass, priority


def read(octet, rest):
    v = ut.InvokeIdAndPriority.from_contents(bytes([octet]) + rest)
    same(v.invoke_id, octet & 15, "invoke id")
    need(v.service_class == (serviceClass.CONFIRMED if octet & 64 else serviceClass.UNCONFIRMED), "service class is bit 6")


def read_priority(octet):
    v = ut.InvokeIdAndPriority.from_contents(bytes([octet]))
    need(v.priority == (priority.HIGH if octet & 128 else priority.NORMAL), "priority is bit 7")


def build(i, c, p):
    v = ut.InvokeIdAndPriority(i, serviceClass.CONFIRMED if c else serviceClass.UNCONFIRMED, priority.HIGH if p else priority.NORMAL)
    same(v.contents, bytes([i | (64 if c else 0) | (128 if p else 0)]), "octet")
    same(v.invoke_id, i, "invoke id")
    same(bool(v.service_class.value), bool(c), "service class")
    same(bool(v.priority.value), bool(p), "priority")
    same(int(v), i | (64 if c else 0) | (128 if p else 0), "number")
    u = ut.InvokeIdAndPriority.from_contents(v.contents)
    same(u.invoke_id, i, "invoke id read back")
    need(u.service_class == v.service_class, "service class read back")


def changed(i, j, c, p):
    """one part is changed after the octet was built"""
    v = ut.InvokeIdAndPriority(i, ut.ServiceClass(c), ut.Priority(p))
    v.invoke_id = j
    same(v.contents, bytes([j | (64 if c else 0) | (128 if p else 0)]), "octet after another invoke id")
    v.service_class = ut.ServiceClass(not c)
    same(v.contents, bytes([j | (0 if c else 64) | (128 if p else 0)]), "octet after another service class")
    v.priority = ut.Priority(not p)
    same(v.contents, bytes([j | (0 if c else 64) | (0 if p else 128)]), "octet after another priority")


def refused_id(i):
    refuse("an invoke id outside 0..15", ut.InvokeIdAndPriority, i, serviceClass.CONFIRMED, priority.NORMAL)


def no_octet():
    refuse("no octet", ut.InvokeIdAndPriority.from_contents, b"")


def named():
    need(serviceClass.CONFIRMED != serviceClass.UNCONFIRMED and priority.HIGH != priority.NORMAL, "the named values differ")
    same(int(serviceClass.CONFIRMED), 64, "confirmed")
    same(int(serviceClass.UNCONFIRMED), 0, "unconfirmed")
    same(int(priority.HIGH), 128, "high")
    same(int(priority.NORMAL), 0, "normal")
'''


def check_C09(ck):
    w = ck.witness(INVOKE)
    cls = ck.anchor("types.useful_types", "InvokeIdAndPriority")
    ck.claim("read", "invoke id and service class", w, "read", lambda I: (I.in_byte("octet"), I.in_bytes("rest", 0, 1 << 16)), where=cls)
    for bit6 in (0, 64):
        for bit7 in (0, 128):
            ck.claim("read", "priority with bit 7 %s, bit 6 %s" % ("set" if bit7 else "clear", "set" if bit6 else "clear"), w, "read_priority",
                     lambda I, b=bit6 + bit7: (I.in_choice("octet", [b + k for k in range(64)]),), where=cls)
    ck.claim("build", "octet", w, "build", lambda I: (I.in_int("i", 0, 15), I.in_bool("c"), I.in_bool("p")), where=cls)
    ck.claim("build", "octet after changes", w, "changed", lambda I: (I.in_int("i", 0, 15), I.in_int("j", 0, 15), I.in_bool("c"), I.in_bool("p")), where=cls)
    ck.claim("range", "invoke id above 15", w, "refused_id", lambda I: (I.in_int("i", 16, None),), where=cls)
    ck.claim("range", "invoke id below 0", w, "refused_id", lambda I: (I.in_int("i", None, -1),), where=cls)
    ck.claim("range", "no octet", w, "no_octet", where=cls)
    ck.claim("named", "service classes and priorities", w, "named", where=cls)
