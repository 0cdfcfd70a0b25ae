"""C48, C49: a value and its text; an association's secret, objects and descriptors."""
from absint import ClassVal
from dom import byt
import rules_types
from rules_types import CDT, subclasses, qual, tagof

TEXT = '''
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES.types.implementations import enums
from DLMS_SPODES.cosem_interface_classes import collection
from DLMS_SPODES.cosem_interface_classes.association_ln import ver0


def back(T, enc):
    """the text of a value makes the same value; what a kind does not take, its text does not make either"""
    r = outcome(T, enc)
    if r[0] == "raise":
        need(r[1] == "ValueError", "a value out of the kind is refused")
        return
    v = r[1]
    need(isinstance(str(v), str), "a value has a text")
    w = T(str(v))
    same(w.encoding, v.encoding, "the value made from the text")
    u = T(enc)
    u.set(str(v))
    same(u.encoding, v.encoding, "the value set by the text")


def typed(T, enc, text, cursor, octets):
    """text being typed is taken exactly when the value takes it; the value stays as it was"""
    v = T(enc)
    r = outcome(v.validate_from, text, cursor)
    made = outcome(T, text)
    if octets:
        if made[0] == "ok":
            same(r, ("ok", (str(made[1]), cursor + len(str(made[1])) - len(text))), "typed octets are shown as octets, the cursor moves with them")
        elif outcome(T, text[:cursor] + "0" + text[cursor:])[0] == "ok":
            same(r, ("ok", (text, cursor)), "an unfinished octet")
        else:
            need(r[:2] == ("raise", "ValueError"), "what can not become octets is refused with ValueError")
    elif made[0] == "ok":
        same(r, ("ok", (text, cursor)), "typed text that the kind reads")
    else:
        need(r[:2] == ("raise", "ValueError"), "typed text that the kind does not read is refused with ValueError")
    same(v.encoding, enc, "the value while text is typed")


def listed(T, n, reserved, digits_too):
    """every listed value of an enumeration is known by its text; two values with one text are reserved ones"""
    r = outcome(T, bytes((22, n)))
    if r[0] == "raise":
        need(r[1] == "ValueError", "an unlisted value is refused")
        return
    v = r[1]
    w = T(str(v))
    if reserved is not None and str(v) == reserved:
        same(str(w), reserved, "a reserved value")
        return
    same(w.encoding, v.encoding, "the value made from the text")
    if digits_too:
        same(T(str(n)).encoding, v.encoding, "the value made from the digits")
    u = T(enc_first(T))
    u.set(str(v))
    same(u.encoding, v.encoding, "the value set by the text")


def enc_first(T):
    return T().encoding


def text(T, t, enc):
    """a text makes the octets of its characters, and they show it again"""
    v = T(t)
    same(v.encoding, enc, "octets of the text")
    same(str(v), t, "text of the octets")


def octets(T, raw, enc, method):
    """any octets have a text: one character each, printable ones as they are, a question mark for control codes and what the code page has not"""
    v = T(enc)
    t = str(v) if method is None else v.to_str()
    same(len(t), len(raw), "one character for each octet")
    for i in range(len(raw)):
        if raw[i] < 32 or raw[i] == 0x98:
            same(t[i], "?", "a control code")
        elif raw[i] < 127:
            same(t[i], chr(raw[i]), "a printable character")
        elif raw[i] >= 0xc0:
            same(t[i], chr(raw[i] + 0x350), "a Cyrillic letter")


def foreign(T, t):
    """other text is refused"""
    r = outcome(T, t)
    need(r[0] == "raise" and r[1] == "ValueError", "other text is refused")


# ------------------------------------------------------------------------------------ C49
def association(instance, ver):
    c = collection.Collection()
    return c, c.add(ut.CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName(b"\\x09\\x06\\x00\\x00\\x28\\x00" + bytes((instance,)) + b"\\xff"))


def mechanism(n):
    return b"\\x02\\x07\\x11\\x02\\x11\\x10\\x12\\x02\\xf4\\x11\\x05\\x11\\x08\\x11\\x02\\x11" + bytes((n,))


def early(ver, secret, times, m):
    """a secret that comes before the mechanism is known is not kept, however often it comes"""
    c, a = association(3, ver)
    for _ in range(times):
        a.set_attr(7, b"\\x09" + bytes((len(secret),)) + secret)
        need(a.LLS_secret is None, "no secret before the mechanism is known")
    a.set_attr(6, mechanism(m))
    need(a.LLS_secret is not None, "a secret of the mechanism")
    a.set_attr(7, b"\\x09" + bytes((len(secret),)) + secret)
    same(bytes(a.LLS_secret), secret, "the secret that was set")


def secret(ver, m, value):
    """the secret is of the kind of the mechanism: sixteen octets for the high one, any number otherwise; what was refused changes nothing"""
    c, a = association(3, ver)
    a.set_attr(6, mechanism(m))
    first = bytes(a.LLS_secret)
    if m == 2:
        same(len(first), 16, "length of the first secret")
    enc = b"\\x09" + bytes((len(value),)) + value
    r = outcome(a.set_attr, 7, enc)
    if m == 2 and len(value) != 16:
        need(r[0] == "raise" and r[1] == "ValueError", "a high secret of another length is refused")
        same(bytes(a.LLS_secret), first, "the secret is kept")
    else:
        need(r[0] == "ok", "the secret is taken")
        same(bytes(a.LLS_secret), value, "the secret")
        same(a.LLS_secret.encoding, enc, "octets of the secret")


def hidden(T, value, hide, ascii_):
    """a hidden secret shows none of its octets, an open one shows them as chosen and reads back"""
    s = T(b"\\x09" + bytes((len(value),)) + value)
    R = ver0.Representation
    s.representation = (R.ASCII_HIDDEN if ascii_ else R.HIDDEN) if hide else (R.ASCII if ascii_ else R.HEX)
    t = str(s)
    back_ = None if hide else T(t)
    s.representation = R.HEX
    if hide:
        for ch in t:
            need(ch in "* ", "nothing of the secret is shown")
        same(len(t), len(value) if ascii_ else 3 * len(value) - 1, "length of the text")
    elif ascii_:
        same(t, "".join([chr(x) if x >= 32 else "?" for x in value]), "the characters of the secret")
    else:
        same(t, " ".join([hex2(x) for x in value]), "the octets of the secret")
    if not hide:
        same(back_.encoding, s.encoding, "the secret made from its text")
    need(refused(setattr, s, "representation", 1), "another kind of representation is refused")


def hex2(x):
    return "0123456789abcdef"[x // 16] + "0123456789abcdef"[x % 16]


def partners(ver, instance):
    """the client of an association follows from its number, until it is read"""
    c, a = association(instance, ver)
    same(a.associated_partners_id.encoding, b"\\x02\\x02\\x0f" + bytes((16 * instance,)) + b"\\x12\\x00\\x01", "client and server of the association")
    same(a.source_address, bytes((32 * instance + 1,)), "address of the client")


def address(ver, sap):
    c, a = association(3, ver)
    r = outcome(a.set_attr, 3, b"\\x02\\x02\\x0f" + bytes((sap,)) + b"\\x12\\x00\\x01")
    if r[0] == "ok":
        same(a.source_address, bytes((2 * sap + 1,)), "address of the client")
        same(int(a.associated_partners_id.client_SAP), sap, "the client")


def listed_objects(rows):
    return b"\\x01" + bytes((len(rows),)) + b"".join([b"\\x02\\x04\\x12\\x00" + bytes((cid,)) + b"\\x11" + bytes((ver,)) + b"\\x09\\x06" + ln + b"\\x02\\x02\\x01\\x00\\x01\\x00" for cid, ver, ln in rows])


def objects(ver, rows, client, current):
    """the objects of a client are those of the list of its association, in order and once; the current association has no client of its own"""
    c = collection.Collection()
    if current == 2:
        a = c.add(ut.CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName("0.0.40.0.2.255"))
    if current:
        z = c.add(ut.CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName("0.0.40.0.0.255"))
        z.set_attr(3, b"\\x02\\x02\\x0f\\x20\\x12\\x00\\x01")
        z.set_attr(2, listed_objects((((1, 0, b"\\x00\\x00\\x2a\\x00\\x00\\xff")),)))
    if current != 2:
        a = c.add(ut.CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName("0.0.40.0.2.255"))
    b = c.add(ut.CosemClassId(15), cdt.Unsigned(ver), cst.LogicalName("0.0.40.0.3.255"))
    a.set_attr(2, listed_objects(rows))
    b.set_attr(2, listed_objects(((3, 0, b"\\x01\\x00\\x0c\\x07\\x00\\xff"), (1, 0, b"\\x00\\x00\\x60\\x01\\x01\\xff"))))
    for cid, v, ln in rows:
        o = c.get_object(ln)
        need(int(o.CLASS_ID) == cid and int(o.VERSION) == v, "an object of the list is in the collection, of its class and version")
    want = []
    for cid, v, ln in rows if client == 0x20 else ((3, 0, b"\\x01\\x00\\x0c\\x07\\x00\\xff"), (1, 0, b"\\x00\\x00\\x60\\x01\\x01\\xff")):
        if ln not in want:
            want.append(ln)
    if client not in (0x20, 0x30):
        need(refused(a.client_objects_list, enums.ClientSAP(client)), "no association of the client")
        need(refused(c.get_objects_list, enums.ClientSAP(client)), "no association of the client")
        return
    got = a.client_objects_list(enums.ClientSAP(client))
    same(len(got), len(want), "number of objects")
    for o, ln in zip(got, want):
        same(o.logical_name.contents, ln, "object of the list")
    all_ = [ln for _, _, ln in rows]
    same([o.logical_name.contents for o in a.get_objects()], all_, "objects of the association")
    same([o.logical_name.contents for o in c.filter_by_ass(2)], all_, "objects of the association with the number")
    if client == 0x20:
        same([o.logical_name.contents for o in c.get_objects_list(enums.ClientSAP(client))], all_, "objects of the client")
        same([o.logical_name.contents for o in a.objects], want, "objects of the association's client")


def selector(n):
    """access selectors of the object list are 1..4"""
    r = outcome(ver0.AccessSelector, n)
    if 1 <= n <= 4:
        need(r[0] == "ok" and int(r[1]) == n, "the selector")
    else:
        need(r[0] == "raise" and r[1] == "ValueError", "another selector is refused")


def descriptor(ver, index, selection):
    """a descriptor names class, object and attribute, and the selection when it is asked for the list"""
    c, a = association(3, ver)
    a.set_attr(2, b"\\x01\\x00")
    d = a.get_attr_descriptor(index, selection)
    want = b"\\x00\\x0f\\x00\\x00\\x28\\x00\\x03\\xff" + bytes((index,))
    same(d.contents, want + (b"\\x01\\x00" if index == 2 and selection else b""), "octets of the descriptor")


def aarq(n):
    """the name of a mechanism is the object identifier 2.16.756.5.8.2.n"""
    N = ver0.authentication_mechanism_name.AuthenticationMechanismName
    same(N.get_AARQ_mechanism_name(2, n), b"\\x60\\x85\\x74\\x05\\x08\\x02" + bytes((n,)), "object identifier of the mechanism")
    v = N(b"\\x09\\x07\\x60\\x85\\x74\\x05\\x08\\x02" + bytes((n,))) if False else N(mechanism(n))
    same(int(v.mechanism_id_element), n, "the mechanism")
'''

# values whose text is a description of them, not a form to be read
DESCRIBED = {"ClockStatus", "ChannelNumberValue"}


def simple_types(ck):
    base = ck.anchor(CDT, "SimpleDataType")
    return [c for c in subclasses(ck, base) if isinstance(c, ClassVal)]


NUMBER_TEXTS = ("", "0", "7", "255", "256", "-1", "-128", "-129", "65536", "1.5", "x", "1 ", "4294967295", "4294967296", "--")
TYPED = [(n, enc, NUMBER_TEXTS) for n, enc in (("Integer", b"\x0f\x05"), ("Unsigned", b"\x11\x05"), ("Long", b"\x10\0\x05"), ("LongUnsigned", b"\x12\0\x05"), ("DoubleLong", b"\x05\0\0\0\x05"),
                                              ("DoubleLongUnsigned", b"\x06\0\0\0\x05"), ("Long64", b"\x14\0\0\0\0\0\0\0\x05"), ("Long64Unsigned", b"\x15\0\0\0\0\0\0\0\x05"))] + [
    ("Boolean", b"\x03\x01", ("", "0", "1", "True", "False", "2", "x")),
    ("BitString", b"\x04\x03\xa0", ("", "0", "101", "10101010101", "2", "1a")),
    ("OctetString", b"\x09\x02\x01\x02", ("", "0", "01", "0102", "01 02", "01 2", "01 02 0", "012", "0g", "x", "01  02", "zz 01")),
    ("VisibleString", b"\x0a\x01A", ("", "a", "meter 5")),
    ("Utf8String", b"\x0c\x01A", ("", "a", "\u0441\u0447\u0435\u0442"))]


def check_C48(ck):
    I = ck.I
    rules_types.all_modules(ck)
    w = ck.witness(TEXT)
    sizes = {t[1]: (t[0], t[2], t[3]) for t in rules_types.TYPES}
    for short, enc, texts in TYPED:
        c = ck.anchor(CDT, short)
        for s in texts:
            ck.claim("typed", "%s, %r" % (short, s), w, "typed", lambda I, c=c, enc=enc, s=s, short=short: (c, enc, s, I.in_choice("cursor", list(range(len(s) + 1))), short == "OctetString"), where=c)
    for c in simple_types(ck):
        t = tagof(I, c)
        if not isinstance(t, bytes) or len(t) != 1:
            continue
        t = t[0]
        label = qual(I, c)
        short = label.split(".")[-1]
        names = {k.name for k in c.mro if isinstance(k, ClassVal)}
        if short in DESCRIBED or names & {"DateTime", "Date", "Time", "Float", "Float32", "Float64", "LogicalName", "NullData"} or any(n.startswith("__") or "Event" in n and "Values" in n for n in names & {short}):
            continue
        if "Enum" in names:
            if short == "Enum" or t != 22:
                continue
            for lo in range(0, 256, 64):
                ck.claim("enum", "%s, numbers %d..%d" % (label, lo, lo + 63), w, "listed", lambda I, c=c, lo=lo, names=names: (c, I.in_choice("number", list(range(lo, lo + 64))), "\u0437\u0430\u0440\u0435\u0437\u0435\u0440\u0432\u0438\u0440\u043e\u0432\u0430\u043d\u043e", "FlagMixin" not in names), where=c)
        elif "Digital" in names and t in sizes and isinstance(sizes[t][1], int):
            n, sg, lo, hi = rules_types.ranges_of(I, c)

            def num(I, c=c, lo=lo, hi=hi, n=n, sg=sg, t=t):
                x = I.in_int("number", lo, hi)
                return c, byt([t, I.meth(x, "to_bytes", n, "big", signed=sg)])
            ck.claim("number", label, w, "back", num, where=c)
            if short != "IPAddress":
                ck.claim("number", label + ", other text", w, "foreign", lambda I, c=c: (c, I.in_choice("text", ["", "x", "1 2", "0x1", "--1"])), where=c)
        elif "Boolean" in names:
            ck.claim("boolean", label, w, "back", lambda I, c=c: (c, byt([3, I.in_choice("value", [0, 1])])), where=c)
            ck.claim("boolean", label + ", other text", w, "foreign", lambda I, c=c: (c, I.in_choice("text", ["x", "2", "Truth", "10", "\u041e\u0442\u0432\u0435\u0442"])), where=c)
        elif short == "OctetString":
            for n in (0, 1, 2, 3, 6, 8, 12, 16, 127, 128, 200) if ck.thorough else (0, 1, 2, 6, 16, 128):
                ck.claim("octets", "%s of %d octets" % (label, n), w, "back", lambda I, c=c, n=n: (c, byt(([9, n] if n < 128 else [9, 0x81, n]) + ([I.in_byte("octet %d" % i) for i in range(n)] if n < 3 else [I.in_byte("first")] + list(range(n - 2)) + [I.in_byte("last")]))), where=c)
            ck.claim("octets", label + ", other text", w, "foreign", lambda I, c=c: (c, I.in_choice("text", ["0", "0g", "x", "1 2"])), where=c)
            ck.claim("shown", label, w, "octets", lambda I, c=c: (lambda v: (c, v, byt([9, 3, v]), "to_str"))(byt([I.in_choice("first", list(range(256))), 32, I.in_choice("last", [0, 31, 32, 0x98, 255])])), where=c)
        elif short == "VisibleString":
            for n in (1, 2, 3):
                ck.claim("string", "%s of %d characters" % (label, n), w, "back", lambda I, c=c, n=n: (c, byt([10, n] + [I.in_choice("character %d" % i, list(range(32, 127)) + list(range(0xc0, 256)) if n == 1 else [32, 48, 65, 126, 0xc0, 0xff]) for i in range(n)])), where=c)
            ck.claim("shown", label, w, "octets", lambda I, c=c: (lambda v: (c, v, byt([10, 3, v]), None))(byt([I.in_choice("first", list(range(256))), 32, I.in_choice("last", [0, 31, 32, 0x98, 255])])), where=c)
            ck.claim("shown", label + ", decoded", w, "octets", lambda I, c=c: (lambda v: (c, v, byt([10, 2, v]), "to_str"))(byt([I.in_choice("first", list(range(256))), I.in_choice("last", [0, 31, 32, 0x98, 255])])), where=c)
        elif short == "Utf8String":
            for s in ("", "a", "meter 5", "\u0441\u0447\u0451\u0442\u0447\u0438\u043a", "\u20ac \U0001f50c", "x" * 130):
                raw = s.encode("utf-8")
                ck.claim("string", "%s %r" % (label, s[:9]), w, "text", lambda I, c=c, s=s, raw=raw: (c, s, byt([12] + ([len(raw)] if len(raw) < 128 else [0x81, len(raw)]) + list(raw))), where=c)
        elif short == "BitString":
            for n in (0, 1, 7, 8, 9, 16, 17, 29, 127, 128) if ck.thorough else (0, 1, 7, 8, 9, 17, 128):
                def bits(I, c=c, n=n):
                    k = (n + 7) // 8
                    pad = -n % 8
                    last = [I.in_choice("last bits", [0, 1 << pad, (0xff << pad) & 0xff, (0x55 << pad) & 0xff])] if k else []
                    return c, byt(([4, n] if n < 128 else [4, 0x81, n]) + ([I.in_choice("first bits", [0, 1, 128, 255, 0x3c])] if k > 1 else []) + [(37 * i) & 255 for i in range(k - 2)] + last)
                ck.claim("bits", "%s of %d bits" % (label, n), w, "back", bits, where=c)
        elif short == "Bcd":
            ck.claim("number", label, w, "back", lambda I, c=c: (c, byt([13, I.in_byte("octet")])), where=c)


def check_C49(ck):
    w = ck.witness(TEXT)
    A = ck.anchor("cosem_interface_classes.association_ln.ver0", "AssociationLN")
    S = ck.anchor("cosem_interface_classes.association_ln.ver0", "LLCSecret")
    H = ck.anchor("cosem_interface_classes.association_ln.ver0", "LLCSecretHigh")
    for ver in (0, 1, 2):
        for times in (1, 2, 3):
            for m in (0, 1, 2):
                n = 16 if m == 2 else 3
                ck.claim("early", "version %d, mechanism %d, %d times" % (ver, m, times), w, "early", lambda I, ver=ver, times=times, m=m, n=n: (ver, byt([I.in_byte("first")] + [7] * (n - 1)), times, m), where=A)
        for m in (0, 1, 2):
            for n in (0, 1, 8, 15, 16, 17, 32):
                ck.claim("secret", "version %d, mechanism %d, %d octets" % (ver, m, n), w, "secret", lambda I, ver=ver, m=m, n=n: (ver, m, byt([I.in_byte("first")] + [9] * (n - 1)) if n else b""), where=A)
        for i in (1, 2, 3, 4):
            ck.claim("client", "version %d, association %d" % (ver, i), w, "partners", lambda I, ver=ver, i=i: (ver, i), where=A)
        ck.claim("client", "version %d, address" % ver, w, "address", lambda I, ver=ver: (ver, I.in_choice("client", [1, 16, 32, 48, 64, 80, 100, 127])), where=A)
        rows = ((8, 0, b"\0\0\1\0\0\xff"), (3, 0, b"\1\0\1\x08\0\xff"), (1, 0, b"\0\0\x60\1\0\xff"), (7, 1, b"\1\0\x63\1\0\xff"))
        for rs in ((), (0,), (0, 1), (2, 0, 1, 3), (1, 0, 1), (3, 3)):
            for cur in (0, 1, 2):
                ck.claim("objects", "version %d, rows %s%s" % (ver, rs, ("", ", after the current association", ", before the current association")[cur]), w, "objects",
                         lambda I, ver=ver, rs=rs, cur=cur: (ver, tuple(rows[r] for r in rs), I.in_choice("client", [0x20, 0x30, 0x40, 0x10]), cur), where=A)
        for index in range(1, 9):
            ck.claim("descriptor", "version %d, attribute %d" % (ver, index), w, "descriptor", lambda I, ver=ver, index=index: (ver, index, I.in_choice("selection", [False, True])), where=A)
    for T, sizes in ((S, (1, 2, 8, 16)), (H, (16,))):
        for n in sizes:
            for hide in (False, True):
                for asc in (False, True):
                    ck.claim("shown", "%s of %d octets, %s, %s" % (T.name, n, "hidden" if hide else "open", "characters" if asc else "octets"), w, "hidden",
                             lambda I, T=T, n=n, hide=hide, asc=asc: (T, byt([I.in_choice("first", [33, 42, 48, 97, 126])] + [I.in_choice("second", [32, 42, 65])] * (n > 1) + [48 + i for i in range(n - 2)]), hide, asc), where=S)
    ck.claim("selector", "access selectors", w, "selector", lambda I: (I.in_choice("selector", [0, 1, 2, 3, 4, 5, 127, 255]),), where=ck.anchor("cosem_interface_classes.association_ln.ver0", "AccessSelector"))
    ck.claim("mechanism", "object identifiers", w, "aarq", lambda I: (I.in_choice("mechanism", list(range(8))),), where=ck.anchor("cosem_interface_classes.association_ln.authentication_mechanism_name", "AuthenticationMechanismName"))
