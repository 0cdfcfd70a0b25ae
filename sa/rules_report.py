"""C47: texts of events, states and objects; what is reported is what was read."""
import ast
import os

from dom import byt

REPORT = '''
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES.Values.RU import events as texts
from DLMS_SPODES.cosem_interface_classes import collection, reports, events as ev
from DLMS_SPODES.cosem_interface_classes.implementations import data as impl_data


def event(name, prefix, code):
    """the text of an event is the one of its code in its own group"""
    v = getattr(impl_data, name)(code)
    want = texts.__dict__.get(prefix + "_" + str(code))
    same(v.get_report(), ("error enum" if want is None else want) + "(" + str(code) + ")", "text of the event")
    same(v.report, v.get_report(), "what reports show")


def event_object(name, values):
    """an object of events has values of its own group"""
    need(getattr(impl_data, name).get_attr_element(2).DATA_TYPE is getattr(impl_data, values), "values of its own group")


def flags(name, prefix, names, bits):
    """every set bit is told, in the order of the bits"""
    names = dict(names)
    value = 0
    want = []
    for b in bits:
        value = value | 1 << b
        want.append(texts.__dict__[names[b]] if b in names else "unknown bit: " + str(b))
    v = getattr(impl_data, name)(value)
    same(v.get_report(), ". ".join(want) + "(" + str(value) + ")", "flags that are set")


def name(raw):
    return cst.LogicalName(b"\\x09\\x06" + raw)


def made(cid, ver, raw, attrs):
    c = collection.Collection()
    o = c.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(raw))
    for i, enc in attrs:
        o.set_attr(i, enc)
    return o


def shown(v):
    return v.report if hasattr(v, "report") else v


def simple(cid, ver, raw, attrs, asked):
    """simple attributes: one line each, in the order asked for"""
    o = made(cid, ver, raw, attrs)
    want = "[" + collection.get_name(o.logical_name) + "]\\n"
    for i in asked:
        k = i if isinstance(i, int) else i[0]
        v = o.get_attr(k)
        if v is not None:
            want += "  " + str(o.get_attr_element(k)) + ": " + str(shown(v)) + "\\n"
    same(reports.get_obj_report(o, asked), want, "one line for each attribute with a value")


def leaves(v, label, depth):
    """the lines of one element"""
    out = ""
    indent = " " * (depth + 1)
    if isinstance(v, cdt.Structure):
        if type(v).__name__ == "DayProfileAction":
            return indent + v.ELEMENTS[0].NAME + ": " + str(v[0]) + " - \\u0422\\u0430\\u0440\\u0438\\u0444: " + str(v[2]) + "\\n"
        out += "\\n" if label == "" else indent + "[" + label + "]\\n"
        for el, x in zip(v.ELEMENTS, v):
            out += leaves(x, el.NAME, depth + 1)
    elif isinstance(v, cdt.Array):
        out += indent + "[" + label + "]\\n"
        for x in v:
            out += leaves(x, "*", depth + 1)
    else:
        out += indent + label + ": " + str(v) + "\\n"
    return out


def deep(cid, ver, raw, attrs, i):
    """complex attributes: every leaf is shown, under the names of what it is in"""
    o = made(cid, ver, raw, attrs)
    v = o.get_attr(i)
    want = "[" + collection.get_name(o.logical_name) + "]\\n  [" + str(o.get_attr_element(i)) + "]\\n"
    for x in v:
        want += leaves(x, "", 1)
    same(reports.get_obj_report(o, (i,)), want, "every leaf, in order")
    same(reports.get_obj_report(o, (1, i, 1)), want.replace("]\\n", "]\\n  " + str(o.get_attr_element(1)) + ": " + str(shown(o.logical_name)) + "\\n", 1) + "  " + str(o.get_attr_element(1)) + ": " + str(shown(o.logical_name)) + "\\n", "among others")
'''

GROUPS = {"Voltage": "VOLTAGE", "Current": "CURRENT", "Commutation": "COMMUTATION", "Programming": "PROGRAMING", "External": "EXTERNAL_IMPACT",
          "Communication": "COMMUNICATION", "Access": "ACCESS", "SelfDiagnostic": "SELF_DIAGNOSTIC", "ReactivePower": "REACTIVE_POWER"}
QUALITY1 = ((0, "POWER_QUALITY1_1"), (1, "POWER_QUALITY1_2"))
QUALITY2 = ((0, "POWER_QUALITY2_1"), (3, "POWER_QUALITY2_8"), (4, "POWER_QUALITY2_0x10"), (5, "POWER_QUALITY2_0x20"), (6, "POWER_QUALITY2_0x40"), (7, "POWER_QUALITY2_0x80"),
            (14, "POWER_QUALITY2_0x4000"), (15, "POWER_QUALITY2_0x8000"))


def languages(ck):
    """every text the package takes from a table of texts is in the table of every language"""
    I = ck.I
    root = os.path.join(I.root, I.PKG)
    values = os.path.join(root, "Values")
    langs = sorted(d for d in os.listdir(values) if os.path.isdir(os.path.join(values, d)) and d != "__pycache__")
    tables = {}
    for lang in langs:
        for f in sorted(os.listdir(os.path.join(values, lang))):
            if f.endswith(".py") and f != "__init__.py":
                names = {}
                for n in ast.parse(open(os.path.join(values, lang, f), encoding="utf-8").read()).body:
                    if isinstance(n, (ast.Assign, ast.AnnAssign)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if isinstance(t, ast.Name):
                                names[t.id] = isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)
                tables[lang, f[:-3]] = names
    return root, langs, tables


def used(root):
    """(table, name, place) for every text that the source takes from a table of texts by name"""
    for d, _, files in sorted(os.walk(root)):
        if os.sep + "Values" in d:
            continue
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            tree = ast.parse(open(path, encoding="utf-8").read())
            alias = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom) and n.module and "Values" in n.module.split("."):
                    for a in n.names:
                        alias.setdefault(a.asname or a.name, a.name)
            if not alias:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias and n.attr == n.attr.upper() and not n.attr.startswith("__"):
                    yield alias[n.value.id], n.attr, "%s:%d" % (os.path.relpath(path, root), n.lineno)


def check_C47(ck):
    root, langs, tables = languages(ck)
    seen = set()
    for table, attr, place in used(root):
        if (table, attr) in seen:
            continue
        seen.add((table, attr))
        for lang in langs:
            ck.fact("languages", "%s of %s in %s" % (attr, table, lang), attr in tables.get((lang, table), {}), "%s is used, the table %s of %s has no such text" % (attr, table, lang), place)
    for table in ("events", "actors"):
        for lang in langs:
            for k in sorted(tables.get((langs[-1], table), {})):
                ck.fact("languages", "%s of %s in %s, as in %s" % (k, table, lang, langs[-1]), k in tables.get((lang, table), {}), "the table %s of %s has no %s" % (table, lang, k), "Values/%s/%s.py" % (lang, table))
    w = ck.witness(REPORT)
    D = "cosem_interface_classes.implementations.data"
    codes = tuple(range(0, 70)) + (127, 128, 255, 256, 65535) if ck.thorough else tuple(range(0, 36)) + (48, 49, 50, 255, 256, 65535)
    for g, prefix in GROUPS.items():
        for kind in ("", "KPZ1"):
            cls = kind + g + "EventValues"
            ck.claim("event", cls, w, "event", lambda I, c=cls, p=prefix: (c, p, I.in_choice("code", list(codes))), where=ck.anchor(D, cls))
            cls2 = (kind or "") + "SPODES3" + g + "Event"
            ck.claim("event", cls2, w, "event_object", lambda I, c=cls2, v=cls: (c, v), where=ck.anchor(D, cls2))
    for cls, names, p in (("PowerQuality1EventValues", QUALITY1, "POWER_QUALITY1"), ("PowerQuality2EventValues", QUALITY2, "POWER_QUALITY2")):
        ck.claim("flags", "%s, single bits" % cls, w, "flags", lambda I, c=cls, n=names, p=p: (c, p, n, (I.in_choice("bit", list(range(16))),)), where=ck.anchor(D, cls))
        ck.claim("flags", "%s, no bit" % cls, w, "flags", lambda I, c=cls, n=names, p=p: (c, p, n, ()), where=ck.anchor(D, cls))
        ck.claim("flags", "%s, all bits" % cls, w, "flags", lambda I, c=cls, n=names, p=p: (c, p, n, tuple(range(16))), where=ck.anchor(D, cls))
        ck.claim("flags", "%s, three bits" % cls, w, "flags", lambda I, c=cls, n=names, p=p: (c, p, n, I.in_choice("bits", [(0, 14, 15), (1, 7, 8), (3, 4, 5), (2, 9, 15)])), where=ck.anchor(D, cls))
        ck.claim("flags", "%s, pairs" % cls, w, "flags", lambda I, c=cls, n=names, p=p: (c, p, n, I.in_choice("bits", [(a, b) for a in range(16) for b in range(a + 1, 16)])), where=ck.anchor(D, cls))
    R = ck.anchor("cosem_interface_classes.reports", "get_obj_report")
    reg = bytes([1, 0, 1, 8, 0, 255])
    for asked in ((2,), (3,), (2, 1), (1, 2), (1,), ((2, "par"), 1), ()):
        ck.claim("report", "register without value, attributes %s" % (asked,), w, "simple", lambda I, a=asked: (3, 0, reg, (), a), where=R)
    for asked in ((2,), (2, 1), (1, (2, "par"))):
        ck.claim("report", "register, attributes %s" % (asked,), w, "simple",
                 lambda I, a=asked: (3, 0, reg, ((2, byt([0x12, I.in_choice("high", [0, 1, 255]), I.in_choice("low", [0, 7, 200])])),), a), where=R)
        ck.claim("report", "clock, attributes %s" % (asked,), w, "simple",
                 lambda I, a=asked: (8, 0, bytes([0, 0, 1, 0, 0, 255]), ((2, byt([9, 12, 7, 0xe4, 1, I.in_choice("day", [1, 31, 255]), 255, I.in_choice("hour", [0, 23, 255]), 30, 0, 0, 128, 0, I.in_choice("status", [0, 128, 255])])),), a), where=R)
    cal = bytes([0, 0, 13, 0, 0, 255])

    def action(h, sel):
        return [2, 3, 9, 4, h, 0, 0, 0, 9, 6, 0, 0, 10, 0, 100, 255, 0x12, 0, sel]

    def day(x, acts):
        return [2, 2, 0x11, x, 1, len(acts)] + [y for a in acts for y in a]

    def week(name, d):
        return [2, 8, 9, len(name)] + list(name) + [0x11, d] * 7

    def season(name, wk):
        return [2, 3, 9, len(name)] + list(name) + [9, 12, 7, 0xe4, 1, 1, 255, 0, 0, 0, 0, 128, 0, 0, 9, len(wk)] + list(wk)

    def rows(*xs):
        return byt([1, len(xs)] + [y for x in xs for y in x])
    for n in (0, 1, 2):
        for m in (0, 1, 2):
            ck.claim("report", "%d days of %d actions" % (n, m), w, "deep",
                     lambda I, n=n, m=m: (20, 0, cal, ((5, rows(*[day(d + 1, [action(I.in_choice("hour %d" % d, [0, 7]), I.in_choice("rate %d" % d, [1, 2])) for _ in range(m)]) for d in range(n)])),), 5), where=R)
    for n in (0, 1, 2):
        for name in (b"", b"a", b"ab"):
            ck.claim("report", "%d weeks named of %d octets" % (n, len(name)), w, "deep",
                     lambda I, n=n, name=name: (20, 0, cal, ((4, rows(*[week(name if d == 0 else b"z", I.in_choice("day %d" % d, [0, 1, 255])) for d in range(n)])),), 4), where=R)
            ck.claim("report", "%d seasons, names of %d octets" % (n, len(name)), w, "deep",
                     lambda I, n=n, name=name: (20, 0, cal, ((3, rows(*[season(b"x" if d else name, name) for d in range(n)])),), 3), where=R)
    for n in (0, 1, 3):
        ck.claim("report", "script table of %d actions" % n, w, "deep",
                 lambda I, n=n: (9, 0, bytes([0, 0, 10, 0, 100, 255]), ((2, byt([1, 2, 2, 2, 0x12, 0, 1, 1, n] + [2, 5, 0x16, 1, 0x12, 0, 3, 9, 6, 1, 0, 1, 8, 0, 255, 0x0f, 2, 0] * n + [2, 2, 0x12, 0, 2, 1, 0])),), 2), where=R)
