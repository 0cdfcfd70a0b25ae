"""C24, C25, C26: class maps, OBIS tables and relation groups of the collection module."""
import rules_ic
import rules_types
from dom import byt
from absint import Obj, ClassVal

WITNESS = '''
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES.cosem_interface_classes import collection
from DLMS_SPODES.obis import media_id

NOT_MADE = ((7, 0), (12, 0), (23, 0), (40, 0), (40, 1), (47, 2))


def name(octets):
    return cst.LogicalName(b"\\x09\\x06" + octets)


def number(x):
    return int(x)


def lookup(known, cid, ver):
    """a pair of numbers yields the class declared with them, or is refused"""
    r = outcome(collection.get_interface_class, collection.common_interface_class_map, ut.CosemClassId(cid), cdt.Unsigned(ver))
    need((r[0] == "ok") == ((cid, ver) in known), "a class exactly for the declared pairs: class %d version %d" % (cid, ver))
    if r[0] == "ok":
        same(int(r[1].CLASS_ID), cid, "class identifier of the class found")
        same(int(r[1].VERSION), ver, "version of the class found")
        if (cid, ver) in NOT_MADE:
            need(refused(r[1], name(b"\\x00\\x00\\x01\\x00\\x00\\xff")), "a version without support makes no object")
    else:
        need(r[1] == "ValueError", "an unknown pair is refused with ValueError")


class First:
    """stands for an interface class"""


class Second:
    """stands for an interface class"""


def restricted(cid, ver):
    """a table entry admits its own classes only"""
    maps = {1: {0: First, 2: Second}, 300: {1: Second}}
    want = {(1, 0): First, (1, 2): Second, (300, 1): Second}
    r = outcome(collection.get_interface_class, maps, ut.CosemClassId(cid), cdt.Unsigned(ver))
    if (cid, ver) in want:
        need(r[0] == "ok" and r[1] is want[(cid, ver)], "the class of the entry")
    else:
        need(r[0] == "raise" and r[1] == "ValueError", "a pair that is not in the entry is refused")


def added(cid, ver, octets):
    """an object added to a collection is of the class asked"""
    c = collection.Collection()
    r = outcome(c.add, ut.CosemClassId(cid), cdt.Unsigned(ver), name(octets))
    if r[0] == "ok":
        same(int(r[1].CLASS_ID), cid, "class identifier of the object")
        same(int(r[1].VERSION), ver, "version of the object")
        need(c.get_object(octets) is r[1], "the object is in the collection")
        need(int(c.find_version(ut.CosemClassId(cid))) == ver, "version of the class in the collection")
    else:
        need(r[1] == "ValueError", "refused with ValueError")
        need(not c.is_in_collection(name(octets)), "a refused object is not in the collection")
    return r[0]


def made(cid, ver):
    """every supported pair makes an object under a code without an entry of its own"""
    same(added(cid, ver, b"\\x00\\xc7\\xc7\\xc7\\xc7\\xff"), "ok", "an object of class %d version %d" % (cid, ver))


# -------------------------------------------------------------------------------- C25
class BCDE:
    CLASS_ID = 77
    hash_ = 1001


class CDE:
    CLASS_ID = 77
    hash_ = 1002


class CD:
    CLASS_ID = 77
    hash_ = 1003


class ByC:
    CLASS_ID = 77
    hash_ = 1004


def manufacturer(n):
    return 128 <= n[1] <= 199 or 128 <= n[2] <= 199 or n[2] == 240 or 128 <= n[3] <= 254 or 128 <= n[4] <= 254 or 128 <= n[5] <= 254


def lookup_order(key, mask, octets):
    """the finest entry that fits: C D E, then C D, then B C D E, then C; manufacturer specific codes have B C D E entries only"""
    a, b, c, d, e = key
    table = {}
    if mask & 1:
        table[bytes((a, c, d, e))] = {77: {0: CDE}}
    if mask & 2:
        table[bytes((a, c, d))] = {77: {0: CD}}
    if mask & 4:
        table[bytes((a, b, c, d, e))] = {77: {0: BCDE}}
    if mask & 8:
        table[bytes((a, c))] = {77: {0: ByC}}
    ln = name(octets)
    in_c = octets[0] == a and octets[2] == c
    in_cd = in_c and octets[3] == d
    in_cde = in_cd and octets[4] == e
    in_bcde = in_cde and octets[1] == b
    want = None
    if manufacturer(octets):
        if mask & 4 and in_bcde:
            want = BCDE
    elif mask & 1 and in_cde:
        want = CDE
    elif mask & 2 and in_cd:
        want = CD
    elif mask & 4 and in_bcde:
        want = BCDE
    elif mask & 8 and in_c:
        want = ByC
    r = outcome(collection.get_type, ut.CosemClassId(77), cdt.Unsigned(0), ln, table)
    if want is None:
        need(r[0] == "raise", "a class that is not in the common map is refused for a code without an entry")
        need(collection.get_type(ut.CosemClassId(3), cdt.Unsigned(0), ln, table) is collection.Register, "any common class for a code without an entry")
    else:
        need(r[0] == "ok" and r[1] is want, "the entry that applies")
        need(refused(collection.get_type, ut.CosemClassId(3), cdt.Unsigned(0), ln, table), "a class outside the entry is refused")


def product(parts):
    out = [b""]
    for p in parts:
        out = [x + bytes((y,)) for x in out for y in (p if isinstance(p, tuple) else (p,))]
    return out


class Other:
    CLASS_ID = 78
    hash_ = 1005


def expansion(key, two):
    """an entry stands for every combination of its values, and a later entry takes over the codes it names"""
    value = (collection.ClassMap({0: BCDE}), collection.ClassMap({0: Other})) if two else collection.ClassMap({0: BCDE})
    got = collection.get_func_map({key: value})
    want = product(key)
    need(len(got) == len(want), "number of codes of the entry")
    for k in want:
        need(k in got, "every combination of the entry's values")
        m = got[k]
        need(len(m) == (2 if two else 1) and m[77][0] is BCDE, "class map of the code")
        need(not two or m[78][0] is Other, "second class map of the code")
    last = want[-1]
    got = collection.get_func_map({key: value, tuple(last): collection.ClassMap({1: Other})})
    need(len(got) == len(want), "an entry for one of the codes adds none")
    for k in want:
        need((k == last) == (len(got[k]) == 1 and 78 in got[k]), "a later entry takes over its own codes only")


def bad_shape(key):
    need(refused(collection.get_func_map, {key: collection.ClassMap({0: BCDE})}), "an entry of another shape is refused")


def allowed(table, octets, ids, pairs):
    """the classes of a standard code"""
    ln = name(octets)
    for cid, ver in pairs:
        r = outcome(collection.get_type, ut.CosemClassId(cid), cdt.Unsigned(ver), ln, collection.func_maps[table])
        need((r[0] == "ok") == (cid in ids), "class %d version %d for a code of classes %s" % (cid, ver, ids))
        if r[0] == "ok":
            need(issubclass(r[1], collection.common_interface_class_map[cid][ver]) or cid == 1 and issubclass(r[1], collection.Data), "a kind of the class asked")


def kind_of(table, octets, cid, ver, path):
    """the kind of object the table gives to a code"""
    got = collection.get_type(ut.CosemClassId(cid), cdt.Unsigned(ver), name(octets), collection.func_maps[table])
    want = collection.common_interface_class_map[cid][ver] if path is None else getattr(getattr(collection.impl, path.split(".")[0]), path.split(".")[1])
    need(got is want or issubclass(got, want), "the kind of object of the code")


def by_identity(country_ver, manufacturer, server_ver, want, other):
    """the table of a collection follows its identity"""
    c = collection.Collection()
    if country_ver is not None:
        c.set_country_ver(collection.AppVersion.from_str(country_ver))
    if manufacturer is not None:
        c.set_manufacturer(manufacturer)
    if server_ver is not None:
        c.set_server_ver(0, collection.AppVersion.from_str(server_ver))
    c.set_spec()
    for octets, cid, ver in ((b"\\x00\\x00\\x60\\x0b\\x00\\xff", 1, 0), (b"\\x00\\x00\\x15\\x00\\x00\\xff", 7, 1), (b"\\x00\\x80\\x9a\\x00\\x00\\xff", 1, 0), (b"\\x00\\x00\\x60\\x01\\x06\\xff", 1, 0),
                             (b"\\x01\\x00\\x62\\x01\\x00\\xff", 7, 1)):
        o = c.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(octets))
        need(type(o) is collection.get_type(ut.CosemClassId(cid), cdt.Unsigned(ver), name(octets), collection.func_maps[want]), "the class of the table of the collection's specification")


# -------------------------------------------------------------------------------- C26
MEDIA = ((0, media_id.Abstract), (1, media_id.Electricity), (4, media_id.Hca), (5, media_id.Thermal), (6, media_id.Thermal), (7, media_id.Gas), (8, media_id.Water), (9, media_id.Water))


def group(octets):
    g = collection.get_relation_group(name(octets))
    for a, c in MEDIA:
        if octets[0] == a:
            need(isinstance(g, c), "the group belongs to the medium of the name")
            return
    need(g is media_id.OTHER_MEDIA, "other media have one group")


def group_of(octets, want):
    g = collection.get_relation_group(name(octets))
    same(type(g).__name__, want, "group of the code")


def medium(octets):
    m = collection.get_media_id(name(octets))
    for a, c in MEDIA + ((15, media_id.Other),):
        if octets[0] == a:
            need(type(m) is c, "class of the medium")
            break
    else:
        need(isinstance(m, media_id.Reserved), "a reserved medium")
    need(m == octets[0], "the medium is equal to its value")
    need(not m == octets[0] + 10 and not m == 3 + octets[0], "the medium differs from other values")


def tree(names, mode):
    """every object stands once in the tree, under its own keys"""
    objects = [collection.Data(name(x)) if x[2] != 1 else collection.Clock(name(x)) for x in names]
    t = collection.get_object_tree(list(objects), mode)

    def label(k):
        if isinstance(k, media_id.MediaId):
            for n in range(256):
                if k == n:
                    return type(k).__name__, n
            need(False, "a medium without a value")
        return "class", int(k)

    def keys(o):
        out = []
        for m in reversed(mode):
            if m == "m":
                out.append(label(collection.get_media_id(o.logical_name)))
            elif m == "g":
                out.append(label(collection.get_relation_group(o.logical_name)))
            else:
                out.append(("class", int(o.CLASS_ID)))
        return out

    found = []

    def walk(t, path):
        if len(path) == len(mode):
            need(isinstance(t, list) and len(t) > 0, "objects under the keys")
            for o in t:
                found.append((o, path))
        else:
            labels = [label(k) for k in t]
            for i, x in enumerate(labels):
                need(x not in labels[:i], "one branch for each key")
            for k in t:
                walk(t[k], path + [label(k)])

    walk(t, [])
    need(len(found) == len(objects), "every object once")
    for o in objects:
        n = 0
        for x, path in found:
            if x is o:
                n += 1
                for i, k in enumerate(keys(o)):
                    need(path[i] == k, "the object stands under its own keys")
        need(n == 1, "every object once")
'''

# codes of the Blue Book and the classes the framework supports for them, in the table of the standard
BYTE = tuple(range(256))
CODES = [
    ((0, None, 1, 0, None), (8,)), ((0, None, 2, 0, 0), (27,)),
    ((0, None, 10, 0, (0, 1, 125) + tuple(range(100, 112))), (9,)), ((0, None, 11, 0, None), (11,)), ((0, None, 12, 0, None), (10,)), ((0, None, 13, 0, None), (20,)),
    ((0, None, 14, 0, None), (6,)), ((0, None, 15, 0, tuple(range(8))), (22,)), ((0, None, 16, 0, None), (21,)), ((0, None, 16, 1, tuple(range(10))), (21,)),
    ((0, None, 17, 0, None), (71,)), ((0, None, 22, 0, 0), (23,)), ((0, None, 24, 4, 0), (70,)), ((0, None, 25, 0, 0), (41,)), ((0, None, 25, 1, 0), (42,)),
    ((0, None, 25, 4, 0), (45,)), ((0, None, 25, 6, 0), (47,)), ((0, None, 25, 9, 0), (40,)), ((0, None, 25, 10, 0), (100,)), ((0, 0, 40, 0, tuple(range(8))), (12, 15)),
    ((0, 0, 42, 0, 0), (1,)), ((0, 0, 43, 0, BYTE), (64,)), ((0, 0, 44, 0, BYTE), (18,)), ((0, None, 96, 1, tuple(range(10))), (1,)), ((0, None, 96, 3, 10), (70,)),
    ((0, None, 96, 3, tuple(range(20, 29))), (68,)), ((0, None, 96, 9, (0, 1, 2)), (3, 4)), ((0, None, 96, 14, tuple(range(16))), (1, 3, 4)), ((0, None, 97, 97, tuple(range(10))), (1,)),
    ((0, None, 98, None, None), (7,)), ((0, None, 99, 98, None), (7,)), ((1, None, 98, None, None), (7,)), ((1, None, 99, (1, 2, 11, 12, 97, 98, 99), None), (7,)),
    ((1, None, (1, 2, 3, 4, 21, 41, 61, 80), 8, None), (3, 4)), ((1, None, (1, 11, 12, 13, 14, 31, 32, 52, 91), 7, None), (3,)), ((1, None, (1, 2, 9, 15), 6, None), (3, 4, 7)),
    ((1, None, (1, 2, 9, 15), (4, 5), None), (3, 5)), ((1, None, 0, (6, 10), None), (3, 4)), ((1, None, 0, 0, tuple(range(10))), (1,)),
    ((0, None, 0, 1, None), (1,)), ((0, None, 0, 2, (0, 2, 8)), (1,)), ((0, None, 0, 2, 1), (1,)), ((0, None, 0, 9, None), (1,)), ((0, None, 1, (1, 2, 3, 4, 5, 6), None), (1,)),
    ((0, None, 19, tuple(range(50, 60)), (1, 2)), (1,)), ((0, None, 23, 2, 0), (1,)), ((0, None, 23, 3, tuple(range(10))), (1, 7)), ((0, None, 23, 3, tuple(range(10, 128))), (1,)),
    ((0, None, 24, 2, None), (4,)), ((0, None, 24, 3, None), (7,)), ((0, None, 24, 5, 0), (7,)), ((0, None, 43, 1, None), (1,)), ((0, None, 96, 1, 255), (7,)), ((0, None, 96, 2, (20, 90, 127)), (1,)),
    ((0, None, 96, 3, (0, 1, 2, 3)), (1,)), ((0, None, 96, (4, 5), 0), (1, 7)), ((0, None, 96, 4, (1, 2, 3, 4)), (1,)), ((0, None, 96, 5, (2, 3)), (1,)), ((0, None, 96, 6, tuple(range(7))), (1, 3, 4)),
    ((0, None, 96, 7, tuple(range(22))), (1, 3, 4)), ((0, None, 96, 8, tuple(range(64))), (1, 3, 4)), ((0, None, 96, 10, tuple(range(1, 10))), (1,)), ((0, None, 96, 11, tuple(range(9, 100))), (1, 3, 4)),
    ((0, None, 96, 12, (0, 1, 2, 3)), (1, 3, 4)), ((0, None, 96, 12, (5, 6)), (1, 3, 4)), ((0, None, 96, 12, 4), (1,)), ((0, None, 96, 13, (0, 1)), (1, 3, 4)), ((0, None, 96, 15, tuple(range(100))), (1, 3, 4)),
    ((0, None, 96, 16, tuple(range(10))), (1, 3, 4)), ((0, None, 96, 17, tuple(range(128))), (1, 3, 4)), ((0, None, 96, 20, None), (1, 3, 4)), ((0, None, 97, 98, tuple(range(30))), (1,)),
    ((0, None, 97, (97, 98), 255), (7,)), ((1, None, 0, 0, 255), (7,)), ((1, None, 0, (1, 2), None), (1,)), ((1, None, 0, (3, 4, 7, 9), None), (1, 3, 4)), ((1, None, 0, 8, (0, 1, 2, 3)), (1, 3, 4)),
    ((1, None, 0, 11, tuple(range(1, 8))), (1,)), ((1, None, 96, 1, tuple(range(10))), (1,)), ((1, None, 96, 1, 255), (7,)), ((1, None, 96, 5, (0, 1, 2)), (1,)), ((1, None, 96, 5, (3, 4, 5)), (1,)),
    ((1, None, 96, 10, (0, 1, 2, 3)), (1,)), ((1, None, 99, (3, 13, 14), 0), (7,)), ((1, None, 99, 10, (1, 2, 3)), (7,)),
    ((1, None, (1, 2, 95, 100), (9, 10, 17, 18), None), (3, 4)), ((1, None, (1, 2, 95, 100), (19, 20, 29, 30, 58), None), (3, 4)), ((1, None, (1, 2, 95, 100), (1, 2, 11, 12), None), (3, 4)),
    ((1, None, (1, 2, 95, 100), (21, 22, 46), None), (3, 4)), ((1, None, (1, 2, 95, 100), (31, 32, 33, 34), None), (3, 4)), ((1, None, (1, 2, 95, 100), (35, 36, 37, 38), None), (3, 4)),
    ((1, None, (1, 2, 95, 100), (43, 44), None), (3, 4)), ((1, None, (1, 2, 95, 100), (39, 41, 42), None), (3,)), ((1, None, (1, 2, 95, 100), (3, 13, 16, 26), None), (3, 4, 7)),
    ((1, None, (1, 2, 95, 100), (51, 52, 53, 54), None), (3, 4, 7)), ((1, None, (1, 2, 95, 100), (0, 14, 15, 24), None), (3, 5)), ((1, None, (1, 2, 95, 100), (25, 27, 28, 49), None), (3, 5)),
    ((1, None, (1, 2, 95, 100), (50, 55, 56), None), (3, 5)), ((1, None, (1, 2, 95, 100), 40, None), (1, 3)),
]
# codes of the country specification and the kind of object that knows their values
KINDS = [("0.0.21.0.0", 7, 1, "profile_generic.SPODES3DisplayReadout"), ("0.0.96.1.0", 1, 0, "data.SPODES3IDNotSpecific"), ("0.0.96.1.2", 1, 0, "data.SPODES3IDNotSpecific"),
         ("0.0.96.1.4", 1, 0, "data.SPODES3IDNotSpecific"), ("0.0.96.1.5", 1, 0, "data.SPODES3IDNotSpecific"), ("0.0.96.1.8", 1, 0, "data.SPODES3IDNotSpecific"), ("0.0.96.1.9", 1, 0, "data.SPODES3IDNotSpecific"),
         ("0.0.96.1.10", 1, 0, "data.SPODES3IDNotSpecific"), ("0.0.96.1.1", 1, 0, "data.DLMSDeviceIDObject"), ("0.0.96.1.3", 1, 0, "data.DLMSDeviceIDObject"), ("0.0.96.1.7", 1, 0, "data.DLMSDeviceIDObject"),
         ("0.0.96.1.6", 1, 0, "data.SPODES3SPODESVersion"), ("0.0.96.3.20", 68, 0, "arbitrator.SPODES3Arbitrator"), ("0.0.96.5.1", 1, 0, "data.SPODES3PowerQuality1Event"),
         ("0.0.96.5.4", 1, 0, "data.SPODES3PowerQuality2Event"), ("0.0.96.5.132", 1, 0, "data.Unsigned"), ("0.0.96.11.0", 1, 0, "data.SPODES3VoltageEvent"), ("0.0.96.11.1", 1, 0, "data.SPODES3CurrentEvent"),
         ("0.0.96.11.2", 1, 0, "data.SPODES3CommutationEvent"), ("0.0.96.11.3", 1, 0, "data.SPODES3ProgrammingEvent"), ("0.0.96.11.4", 1, 0, "data.SPODES3ExternalEvent"),
         ("0.0.96.11.5", 1, 0, "data.SPODES3CommunicationEvent"), ("0.0.96.11.6", 1, 0, "data.SPODES3AccessEvent"), ("0.0.96.11.7", 1, 0, "data.SPODES3SelfDiagnosticEvent"),
         ("0.0.96.11.8", 1, 0, "data.SPODES3ReactivePowerEvent"), ("0.0.96.51.0", 1, 0, "data.OpeningBody"), ("0.0.96.51.5", 1, 0, "data.SealStatus"), ("0.0.96.51.1", 1, 0, "data.Unsigned"),
         ("0.0.96.51.3", 1, 0, "data.Unsigned"), ("0.0.96.51.4", 1, 0, "data.Unsigned"), ("0.0.96.51.6", 1, 0, "data.Unsigned"), ("0.0.96.51.7", 1, 0, "data.Unsigned"),
         ("0.0.96.51.8", 1, 0, "data.OctetStringDateTime"), ("0.0.96.51.9", 1, 0, "data.OctetStringDateTime"), ("0.0.96.12.4", 1, 0, "data.CommunicationPortParameter"), ("0.0.42.0.0", 1, 0, "data.LDN"),
         ("0.0.0.2.1", 1, 0, "data.ActiveFirmwareId"), ("1.0.0.8.4", 1, 0, "data.SPODES3MeasurementPeriod"), ("1.0.0.8.5", 1, 0, "data.SPODES3MeasurementPeriod"),
         ("1.0.98.1.0", 7, 1, "profile_generic.SPODES3MonthProfile"), ("1.0.98.2.0", 7, 1, "profile_generic.SPODES3DailyProfile"), ("1.0.99.1.0", 7, 1, "profile_generic.SPODES3LoadProfile"),
         ("1.0.99.2.0", 7, 1, "profile_generic.SPODES3LoadProfile"), ("1.0.94.7.0", 7, 1, "profile_generic.SPODES3CurrentProfile"), ("1.0.94.7.1", 7, 1, "profile_generic.SPODES3ScalesProfile"),
         ("1.0.94.7.3", 7, 1, "profile_generic.SPODES3ScalesProfile"), ("1.0.94.7.6", 7, 1, "profile_generic.SPODES3ScalesProfile"), ("1.0.98.3.0", 7, 1, None), ("1.0.99.97.0", 7, 1, None),
         ("0.0.96.2.1", 1, 0, "data.AnyDateTime"), ("0.0.96.2.7", 1, 0, "data.AnyDateTime"), ("0.0.96.2.12", 1, 0, "data.AnyDateTime")]
# codes whose entries a country or manufacturer table narrows
NARROW = {"SPODES_3": [((0, 0, 96, 5, 132), (1,)), ((1, 0, (1, 2, 11, 12, 21, 22), 134, 0), (3,)), ((1, 0, 131, 35, 0), (3,)), ((1, 0, 148, 136, 0), (3,)), ((0, 0, 96, 51, tuple(range(10))), (1,)),
                       ((0, None, 21, 0, None), (7,)), ((1, None, 94, 7, (0, 1, 6)), (7,)), ((128, 0, tuple(range(20)), 0, 0), (3,))],
          "KPZ": [((0, 0, 128, (100, 101, 102, 103, 150, 151, 152, 170), 0), (1,)), ((0, 128, 96, 13, 1), (1,)), ((0, 128, 154, 0, 0), (1,))]}


def ends(t):
    """first, last and middle members of a group of values"""
    t = t if isinstance(t, tuple) else (t,)
    return t if len(t) <= 4 else tuple(sorted({t[0], t[1], t[len(t) // 2], t[-1]}))


def plain_key(k):
    return bytes(k) if isinstance(k, (bytes, bytearray)) else None


def table_entries(I, t):
    """{key: {class id: class map}} of a table held by the analysed program"""
    out = {}
    for hk, (k, v) in inner(t).items():
        out[k if isinstance(k, bytes) else I.facts.norm(k)] = v
    return out


def inner(m):
    """entries of a dictionary, also of a subclass of dict"""
    while isinstance(m.p, Obj):
        m = m.p
    return m.p


def manuf(x, lo, hi, extra=None):
    return lo <= x <= hi or x == extra


def check_C24(ck):
    I = ck.I
    w = ck.witness(WITNESS)
    gic = ck.anchor("cosem_interface_classes.collection", "get_interface_class")
    add = ck.anchor("cosem_interface_classes.collection", "Collection", "add")
    common = ck.anchor("cosem_interface_classes.collection", "common_interface_class_map")
    base, classes = rules_ic.interface_classes(ck)

    def num(v):
        r = I.attempt(lambda: I.call(w.d["number"], [v], {}))
        return r[1] if r[0] == "ok" else None

    def ident(c):
        out = []
        for n in ("CLASS_ID", "VERSION"):
            r = I.attempt(lambda: I.getattr(c, n))
            out.append(num(r[1]) if r[0] == "ok" and r[1] is not None else None)
        return tuple(out)
    known = {}
    seen = set()

    def entries(where, cid, cmap):
        for hk, (v, c) in inner(cmap).items():
            key = (cid, v, id(c))
            if where != "common map" and key in seen:
                continue
            seen.add(key)
            q = rules_types.qual(I, c).replace("cosem_interface_classes.", "") if isinstance(c, ClassVal) else I.show(c)
            got = ident(c) if isinstance(c, ClassVal) else (None, None)
            ck.fact("declared", "%s: class %s version %s is %s" % (where, cid, v, q), got == (cid, v), "the class declares class identifier %s version %s" % got, c if isinstance(c, ClassVal) else gic)
            if where == "common map":
                known[(cid, v)] = c
    for hk, (cid, cmap) in inner(common).items():
        entries("common map", cid, cmap)
    maps = ck.anchor("cosem_interface_classes.collection", "func_maps")
    n = 0
    for hk, (name, t) in inner(maps).items():
        for key, m in table_entries(I, t).items():
            for hk2, (cid, cmap) in inner(m).items():
                n += 1
                entries("table %s" % name, cid, cmap)
                if (cid,) not in seen:
                    seen.add((cid,))
                    ck.fact("common", "class %s is in the common map" % cid, any(c == cid for c, _ in known), "objects of the class cannot be made under codes without an entry", gic)
    # every interface class of the package is found by its own numbers
    for c in classes:
        q = rules_types.qual(I, c).replace("cosem_interface_classes.", "")
        if not rules_ic.supported(ck, c):
            continue
        i = ident(c)
        f = known.get(i)
        ck.fact("found", q, f is not None and f in c.mro, "class %s version %s selects %s" % (i + (rules_types.qual(I, f) if f is not None else "no class",)), c)
    pairs = tuple(sorted(known))
    need = set(rules_ic.STANDARD)
    ck.fact("found", "the classes of the standard the framework supports", need <= set(pairs), "no class for %s" % sorted(need - set(pairs)), gic)
    for lo in range(0, 104, 8):
        ck.claim("lookup", "class identifiers %d..%d" % (lo, lo + 7), w, "lookup", lambda I, lo=lo: (pairs, I.in_choice("class", list(range(lo, lo + 8))), I.in_choice("version", [0, 1, 2, 3, 4, 127, 255])), where=gic)
    ck.claim("lookup", "class identifiers above 103", w, "lookup", lambda I: (pairs, I.in_choice("class", [104, 127, 128, 255, 256, 257, 259, 32768, 65535]), I.in_choice("version", [0, 1, 255])), where=gic)
    ck.claim("restricted", "an entry of a table", w, "restricted", lambda I: (I.in_int("class", 0, 65535), I.in_int("version", 0, 255)), where=gic)
    for p in sorted(pairs):
        if p in need:
            ck.claim("made", "class %d version %d" % p, w, "made", lambda I, p=p: p, where=add)
    for octets in (b"\0\0\x01\0\0\xff", b"\1\0\x01\x08\0\xff", b"\0\0\x2b\0\0\xff", b"\0\0\x60\x0b\0\xff"):
        ck.claim("added", "objects under %s" % ".".join(map(str, octets)), w, "added", lambda I, o=octets: I.in_choice("pair", [p for p in sorted(set(pairs) | {(2, 0), (3, 1), (15, 3), (64, 2)})]) + (o,), where=add)


def check_C25(ck):
    I = ck.I
    w = ck.witness(WITNESS)
    gt = ck.anchor("cosem_interface_classes.collection", "get_type")
    gfm = ck.anchor("cosem_interface_classes.collection", "get_func_map")
    maps = ck.anchor("cosem_interface_classes.collection", "func_maps")
    keys = [(1, 2, 3, 4, 5), (0, 0, 96, 50, 0), (1, 130, 3, 4, 5), (1, 2, 240, 4, 5), (1, 2, 3, 200, 5), (1, 2, 3, 4, 254), (1, 199, 128, 128, 255), (1, 2, 255, 255, 128)]
    masks = {True: list(range(16)), False: [4, 15, 11]}
    for k in keys:
        for m in [0, 5, 10, 15] if k == (0, 0, 96, 50, 0) and not ck.thorough else masks[not (manuf(k[1], 128, 199) or manuf(k[2], 128, 199, 240) or manuf(k[3], 128, 254) or manuf(k[4], 128, 254)) or ck.thorough]:
            ck.claim("order", "entries %s of %s" % ("+".join(n for i, n in enumerate(("CDE", "CD", "BCDE", "C")) if m >> i & 1) or "none", ".".join(map(str, k))), w, "lookup_order",
                     lambda I, k=k, m=m: (k, m, I.in_fixed("octet", 6)), where=gt)
    shapes = [(0, 98), (1, 2, 3), (1, (2, 5), 3), (1, 2, (3, 4, 255)), (1, (2, 5), (3, 4)), (0, 0, 40, 0, 0), (0, 0, 40, 0, (0, 1, 7)), (1, 0, (1, 2), 134, 0), (0, 1, 2, 3), (0, 1, 2, (3, 4)), (0, 1, (2, 7), 3),
              (0, 1, (2, 7), (3, 4))]
    for s in shapes:
        for two in (False, True):
            ck.claim("expansion", "%s %s" % (s, "with two class maps" if two else "with one class map"), w, "expansion", lambda I, s=s, two=two: (s, two), where=gfm)
    for s in ((), (1,), (1, 2, 3, 4, 5, 6), (0, 256), (0, -1, 2), (0, 1, "2"), (0, 1, 2, None), (0, 1, 2, 3, None), (256, 1, (1, 2), 3)):
        ck.claim("shape", str(s), w, "bad_shape", lambda I, s=s: (s,), where=gfm)
    pairs = sorted(rules_ic.STANDARD)
    n = 0
    for hk, (name, t) in inner(maps).items():
        tab = table_entries(I, t)
        bad = [k for k in tab if not isinstance(k, bytes) or not 2 <= len(k) <= 5]
        ck.fact("key", "table %s" % name, not bad, "keys of another shape: %s" % bad[:3], gfm)
        n += len(tab)
        runs = {}
        for k, m in tab.items():
            if k in bad:
                continue
            # one line of a table gives many codes: those of the same A and, by length, of the same D, D E or B D E
            pre = {2: k[:1], 3: k[:1] + k[2:] if len(k) == 3 else b"", 4: k[:1] + k[2:3] if len(k) == 4 else b"", 5: k[:2] + k[3:]}[len(k)]
            runs.setdefault((len(k), pre, tuple(sorted(id(x[1]) for x in inner(m).values()))), []).append(k)
        for (ln, pre, _), ks in runs.items():
            ok, part = False, []
            for k in ks:
                if ln == 5:
                    man = manuf(k[1], 128, 199) or manuf(k[2], 128, 199, 240) or manuf(k[3], 128, 254) or manuf(k[4], 128, 254)
                    r = man or (k[:1] + k[2:] not in tab and k[:1] + k[2:4] not in tab)
                elif ln == 4:
                    r = not (manuf(k[1], 128, 199, 240) or manuf(k[2], 128, 254) or manuf(k[3], 128, 254))
                elif ln == 3:
                    r = not (manuf(k[1], 128, 199, 240) or manuf(k[2], 128, 254))
                else:
                    r = not manuf(k[1], 128, 199, 240)
                ok = ok or r
            if not ok:
                ck.fact("reached", "table %s: entry %s" % (name, "%s %s.%s" % ({5: "A B C D E", 4: "A C D E", 3: "A C D", 2: "A C"}[ln], " ".join(".".join(map(str, k)) for k in ks[:4]))), False,
                        "no logical name reaches the entry: its codes are manufacturer specific or hidden by entries found before", gt)
        ck.fact("reached", "table %s: entries of %d codes" % (name, len(tab)), True, "", gt)
    for hk, (name, t) in inner(maps).items():
        rows = list(CODES) if name == "DLMS_6" or ck.thorough else CODES[::6]
        if name != "DLMS_6":
            rows = rows + NARROW["SPODES_3"]
        if name.startswith("KPZ"):
            rows = rows + NARROW["KPZ"]
        for code, ids in rows:
            if name != "DLMS_6" and code[:1] + code[2:4] in ((0, 1, 0),) and ids == (8,):
                pass
            label = ".".join("*" if x is None else ("(%s)" % ",".join(map(str, ends(x))) if isinstance(x, tuple) else str(x)) for x in code)

            def inputs(I, code=code, name=name, ids=ids):
                v = []
                for i, x in enumerate(code):
                    if x is None:
                        v.append(I.in_choice("ABCDE"[i], ([0, 1, 64, 127] if ck.thorough else [0, 127]) if i == 1 else ([0, 1, 99, 127, 255] if ck.thorough else [0, 99, 255])))
                    elif isinstance(x, tuple):
                        v.append(I.in_choice("ABCDE"[i], list(ends(x))))
                    else:
                        v.append(x)
                return name, byt(v + [255]), ids, tuple(p for p in pairs)
            ck.claim("standard", "table %s: %s" % (name, label), w, "allowed", inputs, where=gt)
    for hk, (name, t) in inner(maps).items():
        if name == "SPODES_3" or ck.thorough and name != "DLMS_6":
            for code, cid, ver, path in KINDS:
                ck.claim("kind", "table %s: %s" % (name, code), w, "kind_of", lambda I, a=(name, bytes(int(x) for x in code.split(".")) + b"\xff", cid, ver, path): a, where=gt)
    add = ck.anchor("cosem_interface_classes.collection", "Collection", "set_spec")
    for cv, m, sv, want in ((None, None, None, "DLMS_6"), ("3.0", None, None, "SPODES_3"), ("2.0", None, None, "DLMS_6"), ("3.0", b"KPZ", None, "KPZ"), ("3.0", b"KPZ", "1.3.30", "KPZ"), ("3.0", b"KPZ", "1.3.29", "KPZ1"),
                            (None, b"KPZ", "1.4.0", "KPZ"), (None, b"KPZ", "1.2.99", "KPZ1"), ("3.0", b"ABC", "1.0.0", "SPODES_3")):
        ck.claim("specification", "country version %s, manufacturer %s, server version %s" % (cv, m, sv), w, "by_identity", lambda I, a=(cv, m, sv, want, None): a, where=add)


# -------------------------------------------------------------------------------------- C26
GROUPS = [
    ((0, None, 0, 1, None), "BillingPeriodValuesResetCounterEntries"), ((0, None, 1, tuple(range(7)), None), "ClockObjects"), ((0, None, 2, (0, 1, 2), None), "ModemConfigurationAndRelatedObjects"),
    ((0, None, 10, 0, (0, 1, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 125)), "ScriptTableObjects"), ((0, None, 11, 0, None), "SpecialDaysTableObjects"),
    ((0, None, 12, 0, None), "ScheduleObjects"), ((0, None, 13, 0, None), "ActivityCalendarObjects"), ((0, None, 14, 0, None), "RegisterActivationObjects"),
    ((0, None, 15, 0, tuple(range(8))), "SingleActionScheduleObjects"), ((0, None, 16, 0, None), "RegisterObjectsMonitor"), ((0, None, 16, 1, tuple(range(10))), "RegisterObjectsMonitor"),
    ((0, None, 16, 2, None), "ParameterMonitorObjects"), ((0, None, 17, 0, None), "LimiterObjects"), ((0, None, 19, tuple(range(10)), 0), "PaymentMeteringRelatedObjects"),
    ((0, None, 19, tuple(range(10, 50)), None), "PaymentMeteringRelatedObjects"), ((0, None, 19, tuple(range(50, 60)), (1, 2)), "PaymentMeteringRelatedObjects"),
    ((0, None, 20, 0, (0, 1)), "IecLocalPortSetupObjects"), ((0, None, 21, 0, None), "StandardReadoutProfileObjects"), ((0, None, 22, 0, 0), "IecHdlcSetupObjects"),
    ((0, None, 23, (0, 1, 2), 0), "IecTwistedPair1SetupObjects"), ((0, None, 23, 3, None), "IecTwistedPair1SetupObjects"), ((0, None, 25, (0, 1, 2, 3, 4, 5, 6, 7), 0), "ObjectsToSetUpDataExchangeOverTheInternet"),
    ((0, None, 25, 9, 0), "ObjectsToSetUpPushSetup"), ((0, 0, 40, 0, None), "AssociationObjects"), ((0, 0, 41, 0, 0), "SapAssignmentObject"), ((0, 0, 42, 0, 0), "CosemLogicalDeviceNameObject"),
    ((0, 0, 43, 0, None), "InformationSecurityRelatedObjects"), ((0, None, 43, (1, 2), None), "InformationSecurityRelatedObjects"), ((0, 0, 44, 0, None), "ImageTransferObjects"),
    ((0, 0, 44, 1, None), "FunctionControlObjects"), ((0, 0, 44, 2, None), "CommunicationPortProtectionObjects"), ((0, None, 65, tuple(range(64)), None), "UtilityTableObjects"),
    ((0, None, 66, 0, None), "CompactDataObjects"), ((0, None, 96, 1, tuple(range(10)) + (255,)), "DeviceIdObjects"), ((0, None, 96, 1, 10), "MeteringPointIdObjects"),
    ((0, None, 96, 2, None), "ParameterChangesAndCalibrationObjects"), ((0, None, 96, 3, (0, 1, 2, 3, 4)), "IOControlSignalObjects"), ((0, None, 96, 3, 10), "DisconnectControlObjects"),
    ((0, None, 96, 3, tuple(range(20, 30))), "ArbitratorObjects"), ((0, None, 96, 4, (0, 1, 2, 3, 4)), "StatusOfInternalControlSignalsObjects"),
    ((0, None, 96, 5, (0, 1, 2, 3, 4)), "InternalOperatingStatusObjects"), ((0, None, 96, 6, tuple(range(7))), "BatteryEntriesObjects"), ((0, None, 96, 7, tuple(range(22))), "PowerFailureMonitoringObjects"),
    ((0, None, 96, 8, tuple(range(64))), "OperatingTimeObjects"), ((0, None, 96, 9, (0, 1, 2)), "EnvironmentRelatedParametersObjects"), ((0, None, 96, 10, tuple(range(1, 10))), "StatusRegisterObjects"),
    ((0, None, 96, 11, tuple(range(100))), "EventCodeObjects"), ((0, None, 96, 12, tuple(range(7))), "CommunicationPortLogParameterObjects"), ((0, None, 96, 13, (0, 1)), "ConsumerMessageObjects"),
    ((0, None, 96, 14, tuple(range(16))), "CurrentlyActiveTariffObjects"), ((0, None, 96, 15, tuple(range(100))), "EventCounterObjects"), ((0, None, 96, 16, tuple(range(10))), "ProfileEntryDigitalSignatureObjects"),
    ((0, None, 96, 17, tuple(range(128))), "ProfileEntryCounterObjects"), ((0, None, 96, 20, None), "MeterTamperEventRelatedObjects"), ((0, None, 96, tuple(range(50, 100)), None), "AbstractManufacturerSpecific"),
    ((0, None, 97, 97, tuple(range(10)) + (255,)), "ErrorRegisterObjects"), ((0, None, 97, 98, tuple(range(30)) + (255,)), "AlarmRegisterFilterDescriptorObjects"), ((0, None, 98, None, None), "GeneralListObjects"),
    ((0, None, 99, 98, None), "EventLogObjects"), ((0, None, 127, 0, None), "InactiveObjects"),
    ((1, None, 0, 0, tuple(range(10)) + (255,)), "IdNumbersElectricity"), ((1, None, 0, 1, None), "BillingPeriodValuesResetCounterEntriesEl"),
    ((1, None, (1, 21, 41, 61), None, None), "ActivePowerPlus"), ((1, None, (2, 22, 42, 62), None, None), "ActivePowerMinus"), ((1, None, (3, 23, 43, 63), None, None), "ReactivePowerPlus"),
    ((1, None, (4, 24, 44, 64), None, None), "ReactivePowerMinus"), ((1, None, (5, 25, 45, 65), None, None), "ReactivePowerQi"), ((1, None, (6, 26, 46, 66), None, None), "ReactivePowerQii"),
    ((1, None, (7, 27, 47, 67), None, None), "ReactivePowerQiii"), ((1, None, (8, 28, 48, 68), None, None), "ReactivePowerQiv"), ((1, None, (9, 29, 49, 69), None, None), "ApparentPowerPlus"),
    ((1, None, (10, 30, 50, 70), None, None), "ApparentPowerMinus"), ((1, None, (11, 31, 51, 71), None, None), "Current"), ((1, None, (12, 32, 52, 72), None, None), "Voltage"),
    ((1, None, (13, 33, 53, 73), None, None), "PowerFactor"), ((1, None, (14, 34, 54, 74), None, None), "SupplyFrequency"), ((1, None, (15, 35, 55, 75), None, None), "ActivePowerSum"),
    ((1, None, (16, 36, 56, 76), None, None), "ActivePowerDiff"), ((1, None, (17, 37, 57, 77), None, None), "ActivePowerQi"), ((1, None, (18, 38, 58, 78), None, None), "ActivePowerQii"),
    ((1, None, (19, 39, 59, 79), None, None), "ActivePowerQiii"), ((1, None, (20, 40, 60, 80), None, None), "ActivePowerQiv"), ((1, None, 98, None, None), "ListObjectsElectricity"),
    ((4, None, 0, 0, tuple(range(10)) + (255,)), "IdNumbersHca"), ((4, None, 98, None, None), "ListObjectsHca"), ((4, None, 97, 97, None), "ErrorRegisterObjectsHca"), ((4, None, 99, 1, None), "DataProfileObjectsHca"),
    (((5, 6), None, 0, 0, tuple(range(10)) + (255,)), "IdNumbersThermal"), (((5, 6), None, 97, 97, (0, 1, 2)), "ErrorRegisterObjectsThermal"),
    ((7, None, 0, 0, tuple(range(10)) + (255,)), "IdNumbersGas"), ((7, None, 42, (0, 1, 2, 13, 15, 18, 19, 30, 35, 50, 55, 70), 0), "MeasuredValuesGasFlowRate"), ((7, None, 41, (0, 2, 15, 91), 0), "MeasuredValuesGasProcessValues"),
    ((7, None, 98, None, None), "ListObjectsGas"), (((8, 9), None, 0, 0, tuple(range(10)) + (255,)), "IdNumbersWater"), (((8, 9), None, 98, None, None), "ListObjectsWater"),
    (((8, 9), None, 97, 97, None), "ErrorRegisterObjectsWater"), (((8, 9), None, 99, 1, None), "DataProfileObjectsWater"),
]


def check_C26(ck):
    w = ck.witness(WITNESS)
    g = ck.anchor("cosem_interface_classes.collection", "get_relation_group")
    gm = ck.anchor("cosem_interface_classes.collection", "get_media_id")
    for a in (0, 1, 4, 5, 6, 7, 8, 9):
        step = 32 if a in (0, 1, 7) else 256
        for lo in range(0, 256, step):
            ck.claim("medium", "names of medium %d with C %d..%d" % (a, lo, lo + step - 1), w, "group",
                     lambda I, a=a, lo=lo, step=step: (byt([a, I.in_byte("B"), I.in_int("C", lo, lo + step - 1), I.in_byte("D"), I.in_byte("E"), I.in_byte("F")]),), where=g)
    for lo, hi in ((2, 3), (10, 14), (15, 15), (16, 255)):
        ck.claim("medium", "names of media %d..%d" % (lo, hi), w, "group", lambda I, lo=lo, hi=hi: (byt([I.in_int("A", lo, hi)] + [I.in_byte(n) for n in "BCDEF"]),), where=g)
    for code, want in GROUPS:
        label = ".".join("*" if x is None else ("(%s..%s)" % (x[0], x[-1]) if isinstance(x, tuple) else str(x)) for x in code)

        def inputs(I, code=code, want=want):
            v = []
            for i, x in enumerate(code):
                if x is None:
                    v.append(I.in_byte("ABCDE"[i]))
                elif isinstance(x, tuple):
                    v.append(I.in_choice("ABCDE"[i], list(x)))
                else:
                    v.append(x)
            return byt(v + [255]), want
        ck.claim("group", label, w, "group_of", inputs, where=g)
    for lo, hi in ((0, 0), (1, 1), (2, 4), (5, 9), (10, 15), (16, 255)):
        ck.claim("media-id", "media %d..%d" % (lo, hi), w, "medium", lambda I, lo=lo, hi=hi: (byt([I.in_int("A", lo, hi), 0, 1, 8, 0, 255]),), where=gm)
    tree = ck.anchor("cosem_interface_classes.collection", "get_object_tree")
    sets = [[b"\0\0\x01\0\0\xff", b"\0\0\x60\x01\0\xff", b"\1\0\x60\x01\0\xff", b"\0\0\x01\0\1\xff"], [b"\1\0\x01\0\0\xff", b"\0\0\x60\x01\0\xff", b"\x07\0\x62\x01\0\xff", b"\x04\0\x62\x01\0\xff", b"\x02\0\x62\x01\0\xff", b"\x03\0\x62\x01\0\xff"]]
    for i, s in enumerate(sets):
        for mode in ("m", "g", "c", "mc", "cm", "gm", "gc", "cg", "gmc"):
            ck.claim("tree", "mode %s, %d objects" % (mode, len(s)), w, "tree", lambda I, s=s, mode=mode: (I.mklist(s), mode), where=tree)
