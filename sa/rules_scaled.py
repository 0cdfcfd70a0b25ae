"""C51: numbers with a scaler and unit."""
from dom import byt

WITNESS = '''
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES.cosem_interface_classes import collection

TYPES = {"Integer": cdt.Integer, "Long": cdt.Long, "DoubleLong": cdt.DoubleLong, "Long64": cdt.Long64,
         "Unsigned": cdt.Unsigned, "LongUnsigned": cdt.LongUnsigned, "DoubleLongUnsigned": cdt.DoubleLongUnsigned, "Long64Unsigned": cdt.Long64Unsigned}


def scale(scaler, unit):
    return cdt.ScalUnitType(b"\\x02\\x02\\x0f" + scaler.to_bytes(1, "big", signed=True) + b"\\x16" + bytes([unit]))


def octets(cls, n):
    return n.to_bytes(cls.LENGTH, "big", signed=cls.SIGNED)


def text(n, k):
    """n times ten to the k, written out"""
    if k >= 0:
        return str(n * 10 ** k)
    s = str(abs(n)).zfill(1 - k)
    return ("-" if n < 0 else "") + s[:k] + "." + s[k:]


def scaled(name, scaler, unit, n):
    cls = TYPES[name]
    su = scale(scaler, unit)
    raw = octets(cls, n)
    k = scaler - su.unit.get_scaler()
    v = cls(cls.TAG + raw, su)
    same(v.contents, raw, "the octets are those of the number without scale")
    same(v.encoding, cls.TAG + raw, "and so is the encoding")
    same(str(v), text(n, k), "text: the number with the digits of its scale")
    same(v.get_report(), text(n, k) + " " + str(su.unit), "report with the unit")
    same(v.get_report(with_unit=False), text(n, k), "report without the unit")
    same(v.report, text(n, k) + " " + str(su.unit), "report")
    same(cls(text(n, k), su).contents, raw, "octets of the text")
    same(cls(v.decode(), su).contents, raw, "octets of the number")
    w = cls(cls.TAG + bytes(cls.LENGTH), su)
    w.set(text(n, k))
    same(w.contents, raw, "text set")
    w.set(cls.TAG + bytes(cls.LENGTH))
    w.set(v.decode())
    same(w.contents, raw, "number set")
    w.set(cls.TAG + bytes(cls.LENGTH))
    w.set(v)
    same(w.contents, raw, "value set")
    need(w.SCALER_UNIT is su, "the scale stays")
    need(refused(int, v), "no whole number")
    if text(n, k) != "-0":
        same(v.validate_from(text(n, k), 1), (text(n, k), 1), "text that is typed")


def copied(name, scaler, unit, n, m):
    """a copy has the scale, is a value of its own and takes a scaled value"""
    cls = TYPES[name]
    su = scale(scaler, unit)
    k = scaler - su.unit.get_scaler()
    v = cls(cls.TAG + octets(cls, n), su)
    c = v.copy()
    need(c is not v and type(c) is cls, "a copy is another value of the type")
    same(c.encoding, v.encoding, "encoding of the copy")
    same(str(c), text(n, k), "text of the copy")
    same(c.get_report(), v.get_report(), "report of the copy")
    d = v.get_copy(text(m, k))
    same(d.contents, octets(cls, m), "a copy with another value")
    same(str(d), text(m, k), "text of the copy with another value")
    same(v.contents, octets(cls, n), "the value stays")
    c.set(text(m, k))
    same(v.contents, octets(cls, n), "the value stays when the copy is set")
    need((d == v) == (n == m), "equal by their encodings")
    need(d == v or hash(v) == hash(cls(cls.TAG + octets(cls, n))), "hash of a number with a scale")
    need(d != v or hash(d) == hash(v), "equal values hash alike")
    need((v > d) == (n > m), "order of the numbers")
    e = cls(cls.TAG + octets(cls, n))
    same(e.copy().encoding, e.encoding, "copy of a number without a scale")
    same(e.get_copy(octets_value(m)).contents, octets(cls, m), "copy of a number without a scale, with another value")
    need(e.copy().SCALER_UNIT is None, "no scale")


def octets_value(m):
    return m


def limits(name, scaler, unit, n):
    """what does not fit the octets is refused and changes nothing"""
    cls = TYPES[name]
    su = scale(scaler, unit)
    k = scaler - su.unit.get_scaler()
    size = 8 * cls.LENGTH
    fits = -(1 << size - 1) <= n < 1 << size - 1 if cls.SIGNED else 0 <= n < 1 << size
    r = outcome(cls, text(n, k), su)
    need((r[0] == "ok") == fits, "a number that fits")
    v = cls(cls.TAG + octets(cls, 7), su)
    s = outcome(v.set, text(n, k))
    need((s[0] == "ok") == fits, "a number that fits is set")
    if fits:
        same(r[1].contents, octets(cls, n), "octets of the number")
        same(v.contents, octets(cls, n), "octets set")
    else:
        need(r[1] == "ValueError" and s[1] == "ValueError", "refused with ValueError")
        same(v.contents, octets(cls, 7), "the value stays")


def once(name, first, second):
    """the scale is set once; the same again does nothing; none resets it"""
    cls = TYPES[name]
    v = cls(cls.TAG + octets(cls, 7))
    same(str(v), "7", "no scale")
    a, b = scale(first[0], first[1]), scale(second[0], second[1])
    v.SCALER_UNIT = a
    t = str(v)
    same(t, text(7, first[0] - a.unit.get_scaler()), "the scale set")
    def again():
        v.SCALER_UNIT = b
    need(refused(again) == (first != second), "another scale is refused, the same is not")
    same(str(v), t, "the first scale stays")
    def wrong():
        v.SCALER_UNIT = cdt.Integer(1)
    need(refused(wrong), "no scale of another type")
    v.SCALER_UNIT = None
    same(str(v), "7", "no scale again")
    v.SCALER_UNIT = b
    same(str(v), text(7, second[0] - b.unit.get_scaler()), "another scale after that")
    w = cls(cls.TAG + octets(cls, 7))
    need(w.SCALER_UNIT is None, "another value has a scale of its own")


def register(scaler, unit, n, m):
    """the value of a register, and the value encoded for it"""
    c = collection.Collection()
    o = c.add(ut.CosemClassId(3), cdt.Unsigned(0), cst.LogicalName(b"\\x09\\x06\\x01\\x00\\x01\\x08\\x00\\xff"))
    need(o.encode(2, "5") is None, "an attribute of unknown type")
    o.set_attr(3, scale(scaler, unit).encoding)
    o.set_attr(2, b"\\x06" + n.to_bytes(4, "big"))
    k = scaler - o.get_attr(3).unit.get_scaler()
    same(str(o.get_attr(2)), text(n, k), "text of the register's value")
    e = o.encode(2, text(m, k))
    need(e is not None and e is not o.get_attr(2), "a value encoded for the attribute")
    same(e.encoding, b"\\x06" + m.to_bytes(4, "big"), "encoding of the value")
    same(o.get_attr(2).encoding, b"\\x06" + n.to_bytes(4, "big"), "the attribute keeps its value")


def encoded(first, second):
    """a value encoded for an attribute without scale, before and after it has one"""
    c = collection.Collection()
    o = c.add(ut.CosemClassId(8), cdt.Unsigned(0), cst.LogicalName(b"\\x09\\x06\\x00\\x00\\x01\\x00\\x00\\xff"))
    same(o.encode(3, str(first)).encoding, b"\\x10" + first.to_bytes(2, "big", signed=True), "encoding for an attribute without value")
    need(o.get_attr(3) is None, "the attribute stays empty")
    o.set_attr(3, first)
    same(o.encode(3, str(second)).encoding, b"\\x10" + second.to_bytes(2, "big", signed=True), "encoding for an attribute with a value")
    same(o.get_attr(3).encoding, b"\\x10" + first.to_bytes(2, "big", signed=True), "the attribute keeps its value")
'''

SIZES = {"Integer": (8, True), "Long": (16, True), "DoubleLong": (32, True), "Long64": (64, True), "Unsigned": (8, False), "LongUnsigned": (16, False), "DoubleLongUnsigned": (32, False),
         "Long64Unsigned": (64, False)}


def numbers(name, thorough):
    """bounds, powers of ten and what lies beside, numbers whose tenths and thirds have no finite binary form; to fifteen digits"""
    size, signed = SIZES[name]
    lo, hi = (-(1 << size - 1), (1 << size - 1) - 1) if signed else (0, (1 << size) - 1)
    out = {0, 1, 2, 3, 5, 7, 9, 10, 11, 29, 99, 100, 101, 115, 1005, 4035, 12345, 33333, 65535, 100001, 1234567, 16777217, 99999999, 2147483647, 4294967295, 123456789012, 999999999999999,
           -1, -7, -10, -99, -115, -1005, -12345, -100001, -16777217, lo, hi}
    if thorough:
        out |= {10 ** i + d for i in range(15) for d in (-1, 0, 1)} | {-(10 ** i) for i in range(15)}
    return sorted(x for x in out if lo <= x <= hi and abs(x) < 10 ** 15)


def check_C51(ck):
    w = ck.witness(WITNESS)
    C = "types.common_data_types"
    dec, frm = ck.anchor(C, "Digital", "decode"), ck.anchor(C, "Digital", "from_int")
    cp = ck.anchor(C, "CommonDataType", "get_copy")
    units = [27, 33, 255]
    for name in SIZES:
        for group in ((-9, -8, -7), (-6, -5), (-4, -3), (-2, -1), (0, 1, 2), (3, 6, 9)):
            ck.claim("scaled", "%s by 10^%d..%d" % (name, group[0], group[-1]), w, "scaled",
                     lambda I, name=name, g=group: (name, I.in_choice("scaler", list(g)), I.in_choice("unit", units if ck.thorough else units[:2]), I.in_choice("number", numbers(name, ck.thorough))), where=dec)
        ck.claim("copy", name, w, "copied", lambda I, name=name: (name, I.in_choice("scaler", [-3, -1, 0, 2]), 33, I.in_choice("number", [5, 100, 127]), I.in_choice("other", [0, 5, 99, 101])), where=cp)
        size, signed = SIZES[name]
        edge = [-(1 << size - 1) - 1, -(1 << size - 1), (1 << size - 1) - 1, 1 << size - 1] if signed else [-1, 0, (1 << size) - 1, 1 << size]
        if size < 64:
            ck.claim("limits", name, w, "limits", lambda I, name=name, edge=edge: (name, I.in_choice("scaler", [-3, -2, -1, 0, 1, 2]), I.in_choice("unit", units[:2]), I.in_choice("number", edge)), where=frm)
    for name in ("Long", "DoubleLongUnsigned"):
        some = [(-2, 33), (-2, 27), (1, 33), (0, 255)]
        ck.claim("once", name, w, "once", lambda I, name=name: (name, I.in_choice("first", some), I.in_choice("second", some)), where=ck.anchor(C, "Digital", "__setattr__"))
    enc = ck.anchor("cosem_interface_classes.cosem_interface_class", "COSEMInterfaceClasses", "encode")
    ck.claim("encode", "a register", w, "register", lambda I: (I.in_choice("scaler", [-3, -1, 0, 2]), I.in_choice("unit", [27, 30, 33]), I.in_choice("number", [0, 5, 12345]), I.in_choice("other", [0, 7, 65536])), where=enc)
    ck.claim("encode", "a time zone", w, "encoded", lambda I: (I.in_choice("first", [-720, 0, 180]), I.in_choice("second", [-60, 0, 180, 720])), where=enc)
