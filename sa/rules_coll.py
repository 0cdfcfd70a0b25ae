"""C28, C40, C41: identity, content, filters and trees of device collections."""
from dom import byt

WITNESS = '''
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES import enums, exceptions as exc
from DLMS_SPODES.version import AppVersion
from DLMS_SPODES.obis import media_id
from DLMS_SPODES.cosem_interface_classes import collection
from DLMS_SPODES.cosem_interface_classes.association_ln import ver0
from DLMS_SPODES.cosem_interface_classes.overview import CountrySpecificIdentifiers

COUNTRIES = tuple(CountrySpecificIdentifiers)


def name(octets):
    return cst.LogicalName(b"\\x09\\x06" + octets)


def instance_of(octets):
    return attr_of(octets).instance_id


def attr_of(octets):
    return collection.Data(name(octets)).get_attr_descriptor(2)


def meth_of(octets):
    return collection.Clock(name(octets)).get_meth_descriptor(1)


def equal(a, b):
    """values of the identity: numbers, octets, versions, DLMS types"""
    if isinstance(a, cdt.CommonDataType) or isinstance(b, cdt.CommonDataType):
        return isinstance(a, cdt.CommonDataType) and isinstance(b, cdt.CommonDataType) and a.encoding == b.encoding
    return a == b


# ---------------------------------------------------------------------------------- C28
def country(i):
    return COUNTRIES[i]


def version(major, minor, patch):
    return AppVersion(major, minor, patch)


def setters(c):
    return {"manufacturer": (c.set_manufacturer, lambda: c.manufacturer), "country": (c.set_country, lambda: c.country), "country_ver": (c.set_country_ver, lambda: c.country_ver),
            "server_type": (c.set_server_type, lambda: c.server_type), "dlms_ver": (c.set_dlms_ver, lambda: c.dlms_ver)}


def fixed(c, which, first, second):
    put, read = setters(c)[which]
    need(equal(read(), first), "the first value is held")
    r = outcome(put, second)
    need(r[0] == ("ok" if equal(first, second) else "raise"), "another value is refused, the same one is taken")
    need(r[0] == "ok" or r[1] == "ValueError", "refused with ValueError")
    need(equal(read(), first), "the first value stays")


def once(which, first, second, third):
    c = collection.Collection() if which != "country" else collection.Collection(country=first)
    put, read = setters(c)[which]
    if which == "dlms_ver":
        first = c.dlms_ver
    elif which != "country":
        need(read() is None, "no value before it is set")
        put(first)
    fixed(c, which, first, second)
    fixed(c, which, first, third)
    fixed(c, which, first, first)


def versions_apart(first, second):
    """the other values of the identity are set between"""
    c = collection.Collection()
    c.set_manufacturer(first[0])
    c.set_server_type(first[1])
    c.set_country_ver(first[2])
    c.set_server_ver(0, first[3])
    c.set_collection_ver(first[4])
    fixed(c, "server_type", first[1], second[1])
    fixed(c, "manufacturer", first[0], second[0])
    fixed(c, "country_ver", first[2], second[2])
    need(c.server_ver[0] == first[3] and len(c.server_ver) == 1, "server version")
    need(c.collection_ver == first[4], "collection version")
    d = collection.Collection()
    need(d.manufacturer is None and d.server_type is None and d.country_ver is None and d.collection_ver is None and len(d.server_ver) == 0, "another collection has an identity of its own")


def file_version(first, second):
    c = collection.Collection()
    c.set_collection_ver(first)
    need(refused(c.set_collection_ver, second), "the version of a collection is set once")
    need(c.collection_ver == first, "the first version stays")


def forced(first, second):
    c = collection.Collection()
    c.set_server_type(first)
    c.set_server_type(second, force=True)
    fixed(c, "server_type", second, first)


def server(instance, other, first, second):
    """the major and the minor number stay; an earlier or equal patch is compatible"""
    c = collection.Collection()
    c.set_server_ver(instance, first)
    r = outcome(c.set_server_ver, instance, second)
    a = -1 if first.patch is None else first.patch
    b = -1 if second.patch is None else second.patch
    need((r[0] == "ok") == (first.major == second.major and first.minor == second.minor and b <= a), "compatible server version")
    need(r[0] == "ok" or r[1] == "ValueError", "refused with ValueError")
    need(c.server_ver[instance] is first, "the first server version stays")
    if other != instance:
        c.set_server_ver(other, second)
        need(c.server_ver[instance] is first and c.server_ver[other] is second, "instances have versions of their own")
    c.set_server_ver(instance, second, force=True)
    need(c.server_ver[instance] is second, "a forced version")


# ---------------------------------------------------------------------------------- C40
NAMES = (b"\\x00\\x00\\x01\\x00\\x00\\xff", b"\\x01\\x00\\x01\\x08\\x00\\xff", b"\\x01\\x00\\x29\\x08\\x00\\xff", b"\\x00\\x00\\x2a\\x00\\x00\\xff", b"\\x00\\x00\\x60\\x01\\x00\\xff")
KINDS = ((8, 0), (3, 0), (4, 0), (1, 0), (1, 0))


def answers(c, model):
    """every answer of the collection is that of the objects added and not removed"""
    need(len(c) == len(model), "number of objects")
    need([x for x in c] == [x for x in model.values()] and list(c.values()) == [x for x in model.values()], "objects in the order they were added")
    for raw in NAMES:
        o = model.get(raw)
        for key in (raw, name(raw), attr_of(raw)):
            need(c.is_in_collection(key) == (o is not None), "is in the collection")
            need(c.get_object2(key) is o, "object or nothing")
            if o is None:
                need(refused(c.get_object, key), "an absent object is refused")
            else:
                need(c.get_object(key) is o, "object by name")
        need(c.get(raw) is o, "object by octets")
        r = outcome(c.get_first, [raw, NAMES[3]])
        need(r[1] is (o if o is not None else model[NAMES[3]]), "first object present")
    by_class = {}
    for raw, o in model.items():
        need(o.collection is c and o.logical_name.contents == raw, "the object knows its collection and name")
        by_class.setdefault(int(o.CLASS_ID), []).append(o)
    for cid in (1, 3, 4, 8, 9):
        need(c.get_objects_by_class_id(cid) == by_class.get(cid, []) and c.get_objects_by_class_id(ut.CosemClassId(cid)) == by_class.get(cid, []), "objects of the class")
        r = outcome(c.find_version, ut.CosemClassId(cid))
        need((r[0] == "ok") == (cid in by_class), "version of a class present")
        need(list(collection.class_id_filter(c, ut.CosemClassId(cid))) == by_class.get(cid, []), "filter by class")
    need([(int(i), int(v)) for n, i, v in c.get_objects_descriptions()] == [(int(o.CLASS_ID), int(o.VERSION)) for o in model.values()], "descriptions of the objects")
    got = c.get_class_version()
    need(len(got) == len(by_class), "classes with versions")
    for cid in by_class:
        same(int(got[ut.CosemClassId(cid)]), int(by_class[cid][0].VERSION), "version of the class")
    r = outcome(c.get_n_phases)
    el = [raw for raw in model if raw[0] == 1]
    need((r[0] == "ok") == (len(el) != 0), "phases of a collection with electricity objects")
    if el:
        same(r[1], 3 if NAMES[2] in model else 1, "number of phases")


def content(steps):
    c = collection.Collection()
    other = collection.Collection()
    o = c.get_object(NAMES[3])
    model = {NAMES[3]: o}
    need(int(o.CLASS_ID) == 1 and type(o) is collection.impl.data.LDN, "a collection holds the logical device name")
    for op, i in steps:
        raw = NAMES[i]
        cid, ver = KINDS[i]
        if op == "add":
            o = c.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(raw))
            model[raw] = o
        elif op == "missing":
            o = c.add_if_missing(ut.CosemClassId(cid), cdt.Unsigned(ver), name(raw))
            if raw in model:
                need(o is model[raw], "a present object is given back")
            model[raw] = o
        elif op == "wrong":
            need(refused(c.add, ut.CosemClassId(65535), cdt.Unsigned(0), name(raw)), "an unknown class is refused")
        elif op == "unversioned":
            known = [x for x in model.values() if int(x.CLASS_ID) == cid]
            r = outcome(c.add, ut.CosemClassId(cid), None, name(raw))
            need((r[0] == "ok") == (len(known) != 0), "without a version the one of the class in the collection")
            if r[0] == "ok":
                same(int(r[1].VERSION), int(known[0].VERSION), "version of the class")
                model[raw] = r[1]
        else:
            need(c.try_remove(name(raw)) == (raw in model and i != 3), "removed when present, but for the logical device name")
            if i != 3:
                model.pop(raw, None)
        answers(c, model)
    need(len(other) == 1 and other.get_object(NAMES[3]) is not c.get_object(NAMES[3]), "another collection has objects of its own")


def phases(rows):
    """three phases exactly when there is an electricity object of the second phase"""
    c = collection.Collection()
    for octets in rows:
        c.add(ut.CosemClassId(3), cdt.Unsigned(0), name(octets))
    el = [x[2] for x in rows if x[0] == 1]
    r = outcome(c.get_n_phases)
    if not el:
        need(r[0] == "raise" and r[1] == "NoObject", "no electricity object")
    else:
        same(r, ("ok", 3 if [x for x in el if 41 <= x <= 60] else 1), "number of phases")


def several_versions(first, second):
    """one version of a class in a collection"""
    c = collection.Collection()
    c.add(ut.CosemClassId(15), cdt.Unsigned(first), name(b"\\x00\\x00\\x28\\x00\\x00\\xff"))
    c.add(ut.CosemClassId(15), cdt.Unsigned(second), name(b"\\x00\\x00\\x28\\x00\\x01\\xff"))
    r = outcome(c.get_class_version)
    need((r[0] == "ok") == (first == second), "two versions of a class are refused")


def names_as(octets):
    """every way to name an object gives its six octets"""
    ln = name(octets)
    for x in (octets, ln, attr_of(octets), meth_of(octets), instance_of(octets)):
        need(collection.get_ln_contents(x) == octets, "octets of the name")


def copied(values, present, time_zone):
    """the values of every object of the other collection that is in this one are taken over"""
    a, b = collection.Collection(), collection.Collection()
    for i in (4, 1):
        cid, ver = KINDS[i]
        a.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(NAMES[i]))
        if present >> i & 1:
            b.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(NAMES[i]))
    a.get_object(NAMES[4]).set_attr(2, values[0])
    a.get_object(NAMES[1]).set_attr(3, values[1])
    need(b.copy_objects_attr_values_from(a) == (present == 0b10010), "complete when every object was copied")
    if present >> 4 & 1:
        same(b.get_object(NAMES[4]).get_attr(2).encoding, values[0], "value taken over")
    if present >> 1 & 1:
        same(b.get_object(NAMES[1]).get_attr(3).encoding, values[1], "value taken over")
    need(a.get_object(NAMES[4]).get_attr(2).encoding == values[0], "the other collection keeps its values")


def kind_of_object(cid, ver, raw, second, foreign):
    """an object of any class is added, found, replaced and removed; of a version that is not supported it is refused and nothing is kept"""
    c = collection.Collection()
    ldn = c.get_object(NAMES[3])
    if foreign is not None:
        need(refused(c.add, ut.CosemClassId(cid), cdt.Unsigned(foreign), name(raw)), "a version that is not supported")
        need(len(c) == 1 and c.get(raw) is None, "nothing is kept of a refused object")
    o = c.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(raw))
    need((int(o.CLASS_ID), int(o.VERSION), o.logical_name.contents, o.collection is c) == (cid, ver, raw, True), "class, version, name and collection of the object")
    need(c.get_object(name(raw)) is o and c.get(raw) is o and c.is_in_collection(raw) and len(c) == 2, "the object is found by its name")
    need([x for x in c] == [ldn, o] and c.get_objects_by_class_id(cid) == ([ldn, o] if cid == 1 else [o]), "objects of the collection and of the class")
    p = c.add_if_missing(ut.CosemClassId(cid), cdt.Unsigned(ver), name(second))
    q = c.add(ut.CosemClassId(cid), None, name(raw))
    need(c.get(raw) is q and c.get(second) is p and len(c) == 3 and int(q.VERSION) == ver, "the object added last under a name")
    need(c.try_remove(name(raw)) and c.get(raw) is None and not c.is_in_collection(raw) and c.get(second) is p and len(c) == 2, "an object is removed alone")
    need(refused(c.get_object, name(raw)) and not c.try_remove(name(raw)), "an object removed is absent")
    need(c.try_remove(name(second)) and len(c) == 1 and c.get(NAMES[3]) is ldn, "the last object but the logical device name")
    need(not c.try_remove(name(NAMES[3])) and len(c) == 1, "the logical device name stays")


NAMED = {"p": b"\\x01\\x00\\x62\\x01\\x00\\xff", "k": b"\\x00\\x00\\x0d\\x00\\x00\\xff", "r": b"\\x01\\x00\\x01\\x08\\x00\\xff"}


def column(cid, raw, attr):
    return b"\\x02\\x04\\x12" + cid.to_bytes(2, "big") + b"\\x09\\x06" + raw + b"\\x0f" + bytes((attr,)) + b"\\x12\\x00\\x00"


def row(time, value):
    return b"\\x02\\x02\\x09\\x0c\\x07\\xe8\\x01\\x02\\xff" + time + b"\\x00\\xff\\x80\\x00\\xff" + value


def every_attribute(src, dst):
    for i in range(2, src.get_attr_length() + 1):
        x, y = src.get_attr(i), dst.get_attr(i)
        need((x is None) == (y is None), "attribute %d has a value in both or in none" % i)
        if x is not None:
            need(x is not y, "attribute %d is a value of its own" % i)
            same(y.encoding, x.encoding, "attribute %d" % i)


def copied_profile(rows, captured):
    """the columns first: a buffer is read by them"""
    a, b = collection.Collection(), collection.Collection()
    for c in (a, b):
        c.add(ut.CosemClassId(8), cdt.Unsigned(0), name(CLOCK))
        c.add(ut.CosemClassId(3), cdt.Unsigned(0), name(NAMED["r"]))
        c.get_object(NAMED["r"]).set_attr(2, captured)
        c.add(ut.CosemClassId(7), cdt.Unsigned(1), name(NAMED["p"]))
    p, q = a.get_object(NAMED["p"]), b.get_object(NAMED["p"])
    p.set_attr(6, column(8, CLOCK, 2))
    p.set_attr(3, b"\\x01\\x02" + column(8, CLOCK, 2) + column(3, NAMED["r"], 2))
    buffer = b"\\x01" + bytes((len(rows),))
    for t, v in rows:
        buffer = buffer + row(t, v)
    p.set_attr(2, buffer)
    p.set_attr(4, b"\\x06\\x00\\x00\\x0e\\x10")
    p.set_attr(5, b"\\x16\\x02")
    p.set_attr(8, b"\\x06\\x00\\x00\\x00\\x64")
    need(b.copy_obj_attr_values_from(p), "a profile that is present is copied")
    every_attribute(p, q)
    same(q.buffer.encoding, buffer, "rows of the copy")
    need(len(q.buffer) == len(rows), "number of rows")
    for i in range(len(rows)):
        same(q.buffer[i][1].encoding, rows[i][1], "value of the row")
    q.set_attr(2, b"\\x01\\x00")
    same(p.buffer.encoding, buffer, "rows of the other profile")


def copied_calendar(names, ids):
    """tables that name each other's entries"""
    a, b = collection.Collection(), collection.Collection()
    for c in (a, b):
        c.add(ut.CosemClassId(20), cdt.Unsigned(0), name(NAMED["k"]))
    p, q = a.get_object(NAMED["k"]), b.get_object(NAMED["k"])
    for at in (0, 4):
        p.set_attr(2 + at, b"\\x09\\x01" + names[0])
        p.set_attr(5 + at, b"\\x01\\x02\\x02\\x02\\x11" + ids[:1] + b"\\x01\\x00\\x02\\x02\\x11" + ids[1:] + b"\\x01\\x00")
        p.set_attr(4 + at, b"\\x01\\x01\\x02\\x08\\x09\\x01" + names[1] + b"".join([b"\\x11" + ids[:1]] * 6) + b"\\x11" + ids[1:])
        p.set_attr(3 + at, b"\\x01\\x01\\x02\\x03\\x09\\x01" + names[2] + b"\\x09\\x0c\\xff\\xff\\x01\\x01\\xff\\x00\\x00\\x00\\x00\\x80\\x00\\xff\\x09\\x01" + names[1])
    need(b.copy_obj_attr_values_from(p), "a calendar that is present is copied")
    every_attribute(p, q)
    for season, week in ((q.season_profile_active, names[1]), (q.season_profile_passive, names[1])):
        same(season.new_element().week_name.contents, week, "a week the copy has")


CLOCK = b"\\x00\\x00\\x01\\x00\\x00\\xff"


# ---------------------------------------------------------------------------------- C41
MEDIA = {"abstract": (media_id.ABSTRACT, (0,)), "electricity": (media_id.ELECTRICITY, (1,)), "hca": (media_id.HCA, (4,)), "thermal": (media_id.THERMAL, (5, 6)), "gas": (media_id.GAS, (7,)), "water": (media_id.WATER, (8, 9))}


def objects(names):
    out = []
    for raw, kind in names:
        out.append({1: collection.Data, 3: collection.Register, 8: collection.Clock, 7: collection.ProfileGenericVer1}[kind](name(raw)))
    return out


def parse(text):
    """what a pattern of six groups means"""
    out = []
    for i, x in enumerate(text.split(".")):
        if x == "abcdef"[i]:
            out.append(None)
        elif x[0] == "(":
            s = []
            for y in x.replace("(", "").replace(")", "").split(","):
                if "-" in y:
                    lo, hi = y.split("-")
                    s += list(range(int(lo), int(hi) + 1))
                else:
                    s.append(int(y))
            out.append(s)
        else:
            out.append([int(x)])
    return out


def matches(want, octets):
    for w, x in zip(want, octets):
        if w is not None and x not in w:
            return False
    return True


def pattern(text, octets):
    p = collection.LNPattern(text)
    need((p == name(octets)) == matches(parse(text), octets), "names of the pattern")
    need((name(octets) in [p]) == matches(parse(text), octets), "names in a list of patterns")


def filtered(names, classes, medium, group, patterns):
    """the objects of a wanted class, medium, group and pattern, in their order; a kind of key that is absent admits all"""
    obs = objects(names)
    keys = [ut.CosemClassId(x) for x in classes] + [MEDIA[m][0] for m in medium] + [getattr(media_id, g) for g in group] + [collection.LNPattern(p) for p in patterns]
    wanted = [parse(p) for p in patterns]
    want = []
    for o in obs:
        raw = o.logical_name.contents
        ok = not classes or int(o.CLASS_ID) in classes
        ok = ok and (not medium or any(raw[0] in MEDIA[m][1] for m in medium))
        ok = ok and (not group or any(collection.get_relation_group(o.logical_name) is getattr(media_id, g) for g in group))
        ok = ok and (not wanted or any(matches(w, raw) for w in wanted))
        if ok:
            want.append(o)
    got = collection.get_filtered(list(obs), tuple(keys))
    need(len(got) == len(want), "number of objects that match")
    for a, b in zip(got, want):
        need(a is b, "the objects that match, in their order")


def ordered(names, mode):
    """every object once, by the keys of the mode and else in their order"""
    obs = objects(names)
    before = list(obs)
    got = collection.get_sorted(obs, mode)
    need(len(got) == len(obs) and all(a is b for a, b in zip(obs, before)), "as many objects, the list given is as it was")
    for o in obs:
        n = 0
        for x in got:
            if x is o:
                n += 1
        need(n == 1, "every object once")

    def key(o):
        out = []
        for m in mode:
            out.append({"l": o.logical_name.contents, "n": collection.get_name(o.logical_name), "c": int(o.CLASS_ID)}[m])
        return tuple(out)

    def at(o):
        for i, x in enumerate(before):
            if x is o:
                return i
    for a, b in zip(got, got[1:]):
        ka, kb = key(a), key(b)
        need(ka < kb or (ka == kb and at(a) < at(b)), "ordered by the keys of the mode")


def attr_rights(i, mode):
    return b"\\x02\\x03\\x0f" + bytes([i]) + b"\\x16" + bytes([mode]) + b"\\x00"


def shown(modes, obj_mode, af_mode, keys):
    """the tree of attributes shows the attributes of the listed objects the association may read or write, and no empty branch"""
    c = collection.Collection()
    used = ((8, NAMES[0], 9), (3, NAMES[1], 3), (1, NAMES[4], 2))
    ass = c.add(ut.CosemClassId(15), cdt.Unsigned(0), name(b"\\x00\\x00\\x28\\x00\\x01\\xff"))
    els = []
    for (cid, raw, n), m in zip(used, modes):
        c.add(ut.CosemClassId(cid), cdt.Unsigned(0), name(raw))
        els.append(b"\\x02\\x04\\x12\\x00" + bytes([cid]) + b"\\x11\\x00\\x09\\x06" + raw + b"\\x02\\x02\\x01" + bytes([n]) + b"".join([attr_rights(i + 1, m if i == 1 else 1 if i == 0 else 0) for i in range(n)]) + b"\\x01\\x00")
    ass.set_attr_link(2, ver0.ObjectListType(b"\\x01" + bytes([len(els)]) + b"".join(els)))
    flt = tuple(ut.CosemClassId(x) if isinstance(x, int) else MEDIA[x][0] for x in keys)
    t = c.get_attr_tree(1, obj_mode, flt if flt else None, "", af_mode)
    found = {}

    def walk(t, depth):
        need(len(t) > 0 or (depth == 0 and len(want) == 0), "no empty branch")
        for k in t:
            if depth + 1 < len(obj_mode):
                walk(t[k], depth + 1)
            else:
                need(len(t[k]) > 0, "no empty branch")
                for o, indexes in t[k].items():
                    need(o.logical_name.contents not in found, "every object once")
                    found[o.logical_name.contents] = list(indexes)
    want = {}
    for (cid, raw, n), m in zip(used, modes):
        if keys and not any(k == cid if isinstance(k, int) else raw[0] in MEDIA[k][1] for k in keys):
            continue
        show = []
        for i in range(1, n + 1):
            mode = m if i == 2 else 1 if i == 1 else 0
            if "l" in af_mode and i == 1:
                continue
            if "r" in af_mode and mode not in (1, 3):
                continue
            if "w" in af_mode and mode not in (2, 3):
                continue
            show.append(i)
        if show:
            want[raw] = show
    walk(t, 0)
    need(found == want, "the attributes the mode admits")
'''


def check_C28(ck):
    w = ck.witness(WITNESS)
    A = ("cosem_interface_classes.collection", "Collection")
    setm = ck.anchor(*A, "set_manufacturer")
    setc = ck.anchor(*A, "set_country")
    setcv = ck.anchor(*A, "set_country_ver")
    sett = ck.anchor(*A, "set_server_type")
    setv = ck.anchor(*A, "set_server_ver")
    setd = ck.anchor(*A, "set_dlms_ver")
    setf = ck.anchor(*A, "set_collection_ver")
    top = 3 if not ck.thorough else 8
    for n in range(top + 1):
        for m in range(top + 1):
            ck.claim("once", "manufacturer of %d octets, then %d" % (n, m), w, "once",
                     lambda I, n=n, m=m: ("manufacturer", byt([I.in_byte("first %d" % _i) for _i in range(n)]), byt([I.in_byte("second %d" % _i) for _i in range(m)]), b"KPZ"), where=setm)
    members = w.d["COUNTRIES"]
    k = len(I_list(ck, members))
    ck.claim("once", "country", w, "once", lambda I: ("country", I.call(w.d["country"], [I.in_choice("first", list(range(k)))], {}), I.call(w.d["country"], [I.in_choice("second", list(range(k)))], {}),
                                                      I.call(w.d["country"], [0], {})), where=setc)
    ck.claim("once", "DLMS version", w, "once", lambda I: ("dlms_ver", None, I.in_int("second", -1, 256), I.in_int("third", -1, 256)), where=setd)

    def ver(I, tag, patch):
        return I.call(w.d["version"], [I.in_int(tag + " major", 0, 65535), I.in_int(tag + " minor", 0, 65535), None if not patch else I.in_int(tag + " patch", 0, 65535)], {})
    for p in range(8):
        ck.claim("once", "country version%s" % (", %s with a patch" % "".join(n for i, n in enumerate("123") if p >> i & 1) if p else ""), w, "once",
                 lambda I, p=p: ("country_ver", ver(I, "first", p & 1), ver(I, "second", p & 2), ver(I, "third", p & 4)), where=setcv)
    I = ck.I
    octets = ck.anchor("types.common_data_types", "OctetString")
    kinds = [("octet string", "OctetString", 9), ("visible string", "VisibleString", 10), ("bit string", "BitString", 4)]
    numbers = [("unsigned", "Unsigned", 0x11, 1), ("integer", "Integer", 0x0f, 1), ("long", "Long", 0x10, 2), ("long unsigned", "LongUnsigned", 0x12, 2), ("boolean", "Boolean", 3, 1), ("enum", "Enum", 0x16, 1)]
    for a, cls, tag in kinds[:2]:
        c = ck.anchor("types.common_data_types", cls)
        for n, m in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 3)) if not ck.thorough else [(n, m) for n in range(6) for m in range(6)]:
            ck.claim("once", "server type: %s of %d, then %d octets" % (a, n, m), w, "once", lambda I, c=c, tag=tag, n=n, m=m: (
                "server_type", I.call(c, [byt([tag, n] + [I.in_byte("first %d" % _i) for _i in range(n)])], {}), I.call(c, [byt([tag, m] + [I.in_byte("second %d" % _i) for _i in range(m)])], {}),
                I.call(octets, [byt([9, 1, I.in_byte("third")])], {})), where=sett)
            ck.claim("forced", "server type: %s of %d, then %d octets" % (a, n, m), w, "forced", lambda I, c=c, tag=tag, n=n, m=m: (
                I.call(c, [byt([tag, n] + [I.in_byte("first %d" % _i) for _i in range(n)])], {}), I.call(c, [byt([tag, m] + [I.in_byte("second %d" % _i) for _i in range(m)])], {})), where=sett)
    for a, cls, tag, n in numbers[:4]:
        c = ck.anchor("types.common_data_types", cls)
        ck.claim("once", "server type: %s" % a, w, "once", lambda I, c=c, tag=tag, n=n: (
            "server_type", I.call(c, [byt([tag] + [I.in_byte("first %d" % _i) for _i in range(n)])], {}), I.call(c, [byt([tag] + [I.in_byte("second %d" % _i) for _i in range(n)])], {}),
            I.call(octets, [byt([9, 1, I.in_byte("third")])], {})), where=sett)
    for p in range(4):
        ck.claim("server-version", "versions%s" % (", %s with a patch" % " and ".join(n for i, n in enumerate(("first", "second")) if p >> i & 1) if p else " without patches"), w, "server",
                 lambda I, p=p: (I.in_int("instance", 0, 255), I.in_int("other", 0, 255), ver(I, "first", p & 1), ver(I, "second", p & 2)), where=setv)
        ck.claim("collection-version", "versions, patches %d" % p, w, "file_version", lambda I, p=p: (ver(I, "first", p & 1), ver(I, "second", p & 2)), where=setf)

    def identity(I, tag):
        return (byt([I.in_byte("%s maker %d" % (tag, i)) for i in range(3)]), I.call(octets, [byt([9, 2] + [I.in_byte("%s type %d" % (tag, i)) for i in range(2)])], {}), ver(I, tag + " country", 1), ver(I, tag + " server", 1), ver(I, tag + " file", 0))
    ck.claim("apart", "all values together", w, "versions_apart", lambda I: (identity(I, "first"), identity(I, "second")), where=sett)


def I_list(ck, v):
    return list(v) if isinstance(v, tuple) else ck.I.iterate(v)


CLASSES = [(1, 0, "0.0.96.1.0.255", 1), (3, 0, "1.0.1.8.0.255", 1), (4, 0, "1.0.1.6.0.255", 2), (5, 0, "1.0.1.4.0.255", 1), (6, 0, "0.0.14.0.0.255", 1), (7, 1, "1.0.99.1.0.255", 2),
           (8, 0, "0.0.1.0.0.255", 1), (9, 0, "0.0.10.0.100.255", 1), (10, 0, "0.0.12.0.0.255", 1), (11, 0, "0.0.11.0.0.255", 1), (15, 0, "0.0.40.0.1.255", 5), (15, 1, "0.0.40.0.1.255", 5),
           (15, 2, "0.0.40.0.1.255", 255), (18, 0, "0.0.44.0.0.255", 1), (20, 0, "0.0.13.0.0.255", 1), (21, 0, "0.0.16.1.0.255", 1), (22, 0, "0.0.15.0.0.255", 1), (23, 1, "0.0.22.0.0.255", 3),
           (27, 0, "0.0.2.0.0.255", 2), (27, 1, "0.0.2.0.0.255", 2), (40, 2, "0.0.25.9.0.255", 9), (41, 0, "0.0.25.0.0.255", 1), (42, 0, "0.0.25.1.0.255", 1), (45, 0, "0.0.25.4.0.255", 1),
           (47, 0, "0.0.25.6.0.255", 9), (47, 1, "0.0.25.6.0.255", 9), (64, 0, "0.0.43.0.0.255", 9), (64, 1, "0.0.43.0.0.255", 9), (68, 0, "0.0.96.3.20.255", 1), (70, 0, "0.0.96.3.10.255", 1),
           (71, 0, "0.0.17.0.0.255", 1), (100, 0, "0.0.25.10.0.255", 1)]


def check_C40(ck):
    w = ck.witness(WITNESS)
    A = ("cosem_interface_classes.collection", "Collection")
    add = ck.anchor(*A, "add")
    rem = ck.anchor(*A, "try_remove")
    ck.anchor(*A, "get_object")
    cp = ck.anchor(*A, "copy_objects_attr_values_from")
    ops = ("add", "missing", "remove", "wrong", "unversioned")
    for a in ops:
        ck.claim("history", "one step: %s" % a, w, "content", lambda I, a=a: (((a, I.in_choice("object", [0, 1, 2, 3, 4])),),), where=add)
        for b in ops:
            ck.claim("history", "%s, %s" % (a, b), w, "content", lambda I, a=a, b=b: (((a, I.in_choice("first", [0, 1, 2, 3, 4])), (b, I.in_choice("second", [0, 1, 2, 3, 4]))),), where=rem if "remove" in (a, b) else add)
    three = [("add", "add", "remove"), ("add", "remove", "missing"), ("add", "remove", "add"), ("missing", "remove", "unversioned"), ("add", "unversioned", "remove")]
    if ck.thorough:
        three = [(a, b, c) for a in ops for b in ops for c in ops if a not in ("wrong",)]
    for s in three:
        ck.claim("history", ", ".join(s), w, "content", lambda I, s=s: (tuple((x, I.in_choice("object %d" % i, [1, 2, 4] if not ck.thorough else [0, 1, 2, 3, 4])) for i, x in enumerate(s)),), where=rem)
    for lo in range(0, 256, 64):
        ck.claim("phases", "one object, C %d..%d" % (lo, lo + 63), w, "phases", lambda I, lo=lo: ((byt([1, 0, I.in_choice("C", list(range(lo, lo + 64))), 128, 0, 255]),),), where=ck.anchor(*A, "get_n_phases"))
    ck.claim("phases", "three objects", w, "phases", lambda I: (tuple(byt([I.in_choice("A %d" % i, [1, 7]), 0, I.in_choice("C %d" % i, [1, 21, 41, 60, 61]), 128, i, 255]) for i in range(3)),), where=ck.anchor(*A, "get_n_phases"))
    ck.claim("versions", "two associations", w, "several_versions", lambda I: (I.in_choice("first", [0, 1, 2]), I.in_choice("second", [0, 1, 2])), where=ck.anchor(*A, "get_class_version"))
    ck.claim("naming", "octets of a name", w, "names_as", lambda I: (byt([I.in_byte("ABCDEF"[i]) for i in range(6)]),), where=ck.anchor("cosem_interface_classes.collection", "get_ln_contents"))
    for n in (0, 1, 5):
        for present in (0, 0b10, 0b10000, 0b10010):
            ck.claim("copy", "%d octets, objects %s" % (n, bin(present)), w, "copied",
                     lambda I, n=n, present=present: ((byt([9, n] + [I.in_byte("octet %d" % _i) for _i in range(n)]), byt([2, 2, 15, I.in_int("scaler", 0, 127), 22, I.in_choice("unit", [1, 27, 30, 255])])), present, None), where=cp)

    for cid, ver, text, foreign in CLASSES:
        a, b, c, d, e, f = [int(x) for x in text.split(".")]
        ck.claim("class", "%d version %d" % (cid, ver), w, "kind_of_object", lambda I, x=(cid, ver, bytes((a, b, c, d, e, f)), bytes((a, b + 1 if cid not in (15, 64) else b, c, d, e + 1 if cid in (15, 64) else e, f)), foreign): x, where=add)

    one = ck.anchor(*A, "copy_obj_attr_values_from")
    for n in (0, 1, 3):
        ck.claim("copy", "a profile of %d rows" % n, w, "copied_profile",
                 lambda I, n=n: (tuple((byt([I.in_int("hour %d" % i, 0, 23), I.in_int("minute %d" % i, 0, 59)]), byt([6] + [I.in_byte("value %d %d" % (i, j)) for j in range(4)])) for i in range(n)),
                                 byt([6, 0, 0, 0, 0])), where=one)
    ck.claim("copy", "a calendar", w, "copied_calendar", lambda I: (tuple(byt([I.in_byte("name %d" % i)]) for i in range(3)), byt([0, I.in_int("day", 1, 255)])), where=one)


OBJECTS = [(b"\0\0\x01\0\0\xff", 8), (b"\1\0\x01\x08\0\xff", 3), (b"\1\0\x62\x01\0\xff", 7), (b"\x04\0\x01\0\0\xff", 3), (b"\x05\0\x01\0\0\xff", 3), (b"\x06\0\x62\x01\0\xff", 7), (b"\x07\0\x01\x06\0\xff", 3),
           (b"\x08\0\x01\0\0\xff", 3), (b"\x09\0\0\0\0\xff", 1), (b"\0\0\x60\x01\0\xff", 1), (b"\x02\0\x01\0\0\xff", 3), (b"\1\0\x01\x08\1\xff", 3)]
PATTERNS = ("a.b.c.d.e.f", "0.b.c.d.e.f", "a.0.1.d.e.255", "(1,2,7).b.c.d.e.f", "a.b.(0-64).d.e.f", "a.b.((0-64),97,98).(0,8).e.f", "a.b.c.d.e.(255)", "1.0.1.8.0.255", "(0-9).(0-255).c.(6-8).(0).f", "255.255.255.255.255.255",
            "0.0.0.0.0.0", "a.b.(5-3).d.e.f", "a.(1, 2).c.d.e.f")


def check_C41(ck):
    w = ck.witness(WITNESS)
    M = "cosem_interface_classes.collection"
    flt = ck.anchor(M, "get_filtered")
    srt = ck.anchor(M, "get_sorted")
    pat = ck.anchor(M, "LNPattern")
    tree = ck.anchor(M, "Collection", "get_attr_tree")
    for p in PATTERNS:
        ck.claim("pattern", p, w, "pattern", lambda I, p=p: (p, byt([I.in_byte(n) for n in "ABCDEF"])), where=pat)
    full = [(r, k) for r, k in OBJECTS]
    def mix(I, i):
        c, d, e = I.in_choice("C D E", [(0, 0, 0), (1, 8, 0), (1, 0, 0), (96, 1, 1), (98, 1, 0)])
        return byt([I.in_choice("A", [0, 1, 2, 4, 5, 6, 7, 8, 9, 128]), 0, c, d, e, 255]), I.in_choice("kind", [1, 3])
    sel = [("", (), (), (), ())] + [("class %d" % c, (c,), (), (), ()) for c in (1, 3, 7, 8, 9)] + [("medium %s" % m, (), (m,), (), ()) for m in ("abstract", "electricity", "hca", "thermal", "gas", "water")] \
        + [("classes 1 and 7", (1, 7), (), (), ()), ("media gas and water", (), ("gas", "water"), (), ()), ("class 3 of gas", (3,), ("gas",), (), ()), ("group clock", (), (), ("CLOCK_OBJECTS",), ()),
           ("groups", (), (), ("ACTIVE_POWER_PLUS", "LIST_OBJECTS_ELECTRICITY"), ()), ("group and class", (3,), (), ("ACTIVE_POWER_PLUS",), ()), ("pattern", (), (), (), ("a.b.1.d.e.f",)),
           ("two patterns", (), (), (), ("0.b.c.d.e.f", "1.0.98.d.e.f")), ("class and pattern", (7, 3), (), (), ("a.b.98.d.e.f",)), ("medium and pattern", (), ("electricity",), (), ("a.b.c.d.0.f",)),
           ("medium and group", (), ("electricity",), ("ACTIVE_POWER_PLUS",), ())]
    for label, c, m, g, p in sel:
        ck.claim("filter", "%d objects by %s" % (len(full), label or "no keys"), w, "filtered", lambda I, a=(c, m, g, p): (I.mklist(full),) + a, where=flt)
        ck.claim("filter", "any object by %s" % (label or "no keys"), w, "filtered", lambda I, a=(c, m, g, p): (I.mklist([mix(I, 0)]),) + a, where=flt)
    for mode in ("l", "n", "c", "cl", "cn", ""):
        for lo in (0, 3, 6):
            part = full[lo:lo + 6]
            ck.claim("sort", "%s: objects %d..%d" % (mode or "none", lo, lo + len(part) - 1), w, "ordered", lambda I, part=part, mode=mode: (I.mklist(part), mode), where=srt)
        k = 3
        ck.claim("sort", "%s: any %d objects" % (mode or "none", k), w, "ordered", lambda I, mode=mode: (I.mklist([full[I.in_choice("object %d" % i, [0, 1, 2, 9, 11][:5 if ck.thorough else 3])] for i in range(3)]) , mode), where=srt)
    modes = ([0, 1, 2, 3],) * 3 if ck.thorough else ([0, 3], [0, 1, 2, 3], [0, 2])
    for om in ("c", "m", "g", "mc", "cm", "gc", "mgc", "cmg"):
        for af in ("l", "r", "w", "lr", "lw", "lrw") if om not in ("mgc", "cmg") else ("lr", "lrw"):
            ck.claim("shown", "objects %s, attributes %s" % (om, af), w, "shown", lambda I, om=om, af=af: (tuple(I.in_choice("mode %d" % i, m) for i, m in enumerate(modes)), om, af, ()), where=tree)
        for keys in ((3,), (3, 8), ("abstract",), (9,)) if om not in ("mgc", "cmg") else ((3,),):
            ck.claim("shown", "objects %s of %s" % (om, keys), w, "shown", lambda I, om=om, keys=keys: (tuple(I.in_choice("mode %d" % i, m) for i, m in enumerate(modes)), om, "lr", keys), where=tree)
