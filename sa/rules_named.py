"""C42, C43: named accessors of a collection, associations by client address; columns of profiles."""
from dom import byt

WITNESS = '''
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES.types.implementations import structs, enums as impl_enums
from DLMS_SPODES import exceptions as exc
from DLMS_SPODES.cosem_interface_classes import collection
from DLMS_SPODES.cosem_interface_classes.association_ln import ver0, ver1

# name, A..F, class, version
NAMED = (
    ("LDN", (0, 0, 42, 0, 0, 255), 1, 0), ("current_association", (0, 0, 40, 0, 0, 255), 15, 1), ("PUBLIC_ASSOCIATION", (0, 0, 40, 0, 1, 255), 15, 1),
    ("COMMUNICATION_PORT_PARAMETER", (0, 0, 96, 12, 4, 255), 1, 0), ("clock", (0, 0, 1, 0, 0, 255), 8, 0), ("activity_calendar", (0, 0, 13, 0, 0, 255), 20, 0),
    ("special_day_table", (0, 0, 11, 0, 0, 255), 11, 0), ("TCP_UDP_setup", (0, 0, 25, 0, 0, 255), 41, 0), ("IPv4_setup", (0, 0, 25, 1, 0, 255), 42, 0),
    ("boot_image_transfer", (0, 0, 44, 0, 128, 255), 18, 0), ("firmware_image_transfer", (0, 0, 44, 0, 0, 255), 18, 0), ("RU_EXTENDED_PASSPORT_DATA", (0, 0, 94, 7, 1, 255), 7, 1),
    ("firmware_version", (0, 0, 96, 1, 2, 255), 1, 0), ("device_type", (0, 0, 96, 1, 1, 255), 1, 0), ("manufacturing_date", (0, 0, 96, 1, 4, 255), 1, 0),
    ("RU_LOAD_LOCK_STATUS", (0, 0, 96, 4, 3, 255), 1, 0), ("firmwares_description", (0, 0, 128, 100, 0, 255), 1, 0), ("serial_number", (0, 0, 96, 1, 0, 255), 1, 0),
    ("RU_MAGNETIC_EFFECT", (0, 0, 96, 51, 3, 255), 1, 0), ("RU_HF_FIELD_EFFECT", (0, 0, 96, 51, 4, 255), 1, 0), ("RU_ELECTRIC_SEAL_STATUS", (0, 0, 96, 51, 5, 255), 1, 0),
    ("RU_CLOSE_ELECTRIC_SEAL", (0, 0, 96, 51, 6, 255), 1, 0), ("RU_ERASE_MAGNETIC_EVENTS", (0, 0, 96, 51, 7, 255), 1, 0), ("RU_ALARM_REGISTER_2", (0, 0, 97, 98, 1, 255), 1, 0),
    ("RU_FILTER_ALARM_2", (0, 0, 97, 98, 11, 255), 1, 0), ("RU_DAILY_PROFILE", (1, 0, 98, 2, 0, 255), 7, 1), ("RU_MAXIMUM_CURRENT_EXCESS_LIMIT", (1, 0, 11, 134, 0, 255), 3, 0),
    ("RU_MAXIMUM_VOLTAGE_EXCESS_LIMIT", (1, 0, 12, 134, 0, 255), 3, 0),
)
# name, A..F with the channel or instance at an index, class, version
NUMBERED = (("getASSOCIATION", (0, 0, 40, 0, None, 255), 15, 1), ("getIECHDLCSetup", (0, None, 22, 0, 0, 255), 23, 1), ("getIPv4Setup", (0, None, 25, 1, 0, 255), 42, 0),
            ("getDISCONNECT_CONTROL", (0, None, 96, 3, 10, 255), 70, 0), ("getARBITRATOR", (0, None, 96, 3, 20, 255), 68, 0))


def name(octets):
    return cst.LogicalName(b"\\x09\\x06" + octets)


def refused_absent(fn, *a):
    r = outcome(fn, *a)
    need(r[0] == "raise" and r[1] == "NoObject", "an absent object is refused with NoObject")


def named(accessor, without):
    """each name gives the object of its logical name, also among all the others"""
    c = collection.Collection()
    mine = None
    for a, groups, cid, ver in NAMED:
        if a == accessor:
            mine = groups
    for a, groups, cid, ver in NAMED:
        if groups != mine and a not in without:
            c.add_if_missing(ut.CosemClassId(cid), cdt.Unsigned(ver), name(bytes(groups)))
    if mine != (0, 0, 42, 0, 0, 255):
        refused_absent(getattr, c, accessor)
    for a, groups, cid, ver in NAMED:
        if a == accessor:
            o = c.add_if_missing(ut.CosemClassId(cid), cdt.Unsigned(ver), name(bytes(groups)))
            need(getattr(c, a) is o, "the object of the name")
            need(o.logical_name.contents == bytes(groups) and int(o.CLASS_ID) == cid, "with the logical name and class of the standard")


def numbered(accessor, number, other):
    for a, groups, cid, ver in NUMBERED:
        if a == accessor:
            c = collection.Collection()
            get = getattr(c, a)
            made = []
            for n in (number, other):
                raw = b""
                for g in groups:
                    raw += bytes([n if g is None else g])
                made.append(raw)
            if made[0] != made[1]:
                second = c.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(made[1]))
                refused_absent(get, number)
                need(get(other) is second, "object of the number")
            first = c.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(made[0]))
            need(get(number) is first, "object of the number")
            need(made[0] == made[1] or get(other) is second, "object of the other number")


def without_channel(accessor, number):
    """channel 0 when none is named"""
    for a, groups, cid, ver in NUMBERED:
        if a == accessor:
            c = collection.Collection()
            raw = b""
            for g in groups:
                raw += bytes([0 if g is None else g])
            other = b""
            for g in groups:
                other += bytes([number if g is None else g])
            o = c.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(raw))
            c.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(other))
            need(getattr(c, a)() is o, "object of channel 0")


# ------------------------------------------------------------------ associations
OBJECTS = ((8, b"\\x00\\x00\\x01\\x00\\x00\\xff", 9), (3, b"\\x01\\x00\\x01\\x08\\x00\\xff", 3), (1, b"\\x00\\x00\\x60\\x01\\x00\\xff", 2))


def listed(numbers, modes, version=0):
    out = []
    for i in numbers:
        cid, raw, n = OBJECTS[i]
        out.append(b"\\x02\\x04\\x12\\x00" + bytes([cid]) + b"\\x11\\x00\\x09\\x06" + raw + b"\\x02\\x02\\x01" + bytes([n])
                   + b"".join([b"\\x02\\x03\\x0f" + bytes([k + 1]) + b"\\x16" + bytes([modes[i] if k == 1 else 1 if k == 0 else 0]) + b"\\x00" for k in range(n)]) + b"\\x01\\x00")
    return b"\\x01" + bytes([len(out)]) + b"".join(out)


def partners(sap):
    return b"\\x02\\x02\\x0f" + bytes([sap]) + b"\\x12\\x00\\x01"


def by_address(instances, saps, wanted):
    """the association of a client address is the one with it, never the current one"""
    c = collection.Collection()
    made = {}
    for i, sap in zip(instances, saps):
        ass = c.add(ut.CosemClassId(15), cdt.Unsigned(0), name(b"\\x00\\x00\\x28\\x00" + bytes([i]) + b"\\xff"))
        ass.set_attr(3, partners(sap))
        made[i] = (ass, sap)
    key = impl_enums.ClientSAP(wanted)
    want = [i for i in instances if i != 0 and made[i][1] == wanted]
    r = outcome(c.get_association_id, key)
    need((r[0] == "ok") == (len(want) != 0), "an association of the address is found exactly when there is one")
    q = outcome(c.getAssociationBySAP, key)
    need(q[0] == r[0], "and given")
    if want:
        same(r[1], want[0], "number of the association")
        need(q[1] is made[want[0]][0], "the association")
    else:
        need(r[1] == "ValueError" and q[1] == "ValueError", "an address without an association is refused with ValueError")
    for i in instances:
        need(c.getASSOCIATION(i) is made[i][0], "association by its number")


def lists(first, second, wanted, modes, drop):
    """objects of an association: those of its list, in its order"""
    c = collection.Collection()
    for cid, raw, n in OBJECTS:
        c.add(ut.CosemClassId(cid), cdt.Unsigned(0), name(raw))
    for i, sap, numbers in ((0, 0x30, (0, 1, 2)), (1, 0x10, first), (3, 0x30, second), (4, 0x40, None)):
        ass = c.add(ut.CosemClassId(15), cdt.Unsigned(0), name(b"\\x00\\x00\\x28\\x00" + bytes([i]) + b"\\xff"))
        ass.set_attr(3, partners(sap))
        if numbers is not None:
            ass.set_attr_link(2, ver0.ObjectListType(listed(numbers, modes)))
    if drop is not None:
        c.try_remove(name(OBJECTS[drop][1]))
    numbers = {0x10: first, 0x30: second}
    key = impl_enums.ClientSAP(wanted)
    r = outcome(c.get_objects_list, key)
    if wanted not in (0x10, 0x30, 0x40):
        need(r[0] == "raise" and r[1] == "ValueError", "no association of the address")
    elif wanted == 0x40:
        need(r[0] == "raise" and r[1] == "EmptyObj", "an association without a list")
    elif drop is not None and drop in numbers[wanted]:
        need(r[0] == "raise" and r[1] == "NoObject", "a listed object the collection lacks")
    else:
        need(r[0] == "ok" and [x.logical_name.contents for x in r[1]] == [OBJECTS[i][1] for i in numbers[wanted]], "objects of the list in its order")
        for x in r[1]:
            need(c.get_object(x.logical_name) is x, "objects of the collection")
        same([x.logical_name.contents for x in c.filter_by_ass(1 if wanted == 0x10 else 3)], [x.logical_name.contents for x in r[1]], "objects of the association by its number")
        same([x.logical_name.contents for x in c.getASSOCIATION(1 if wanted == 0x10 else 3).get_objects()], [x.logical_name.contents for x in r[1]], "objects of the association itself")


def writable(first, second, modes):
    """attributes any association but the current one may write"""
    c = collection.Collection()
    for i, numbers, m in ((0, (0, 1, 2), (3, 3, 3)), (1, first, modes[0]), (2, second, modes[1])):
        ass = c.add(ut.CosemClassId(15), cdt.Unsigned(0), name(b"\\x00\\x00\\x28\\x00" + bytes([i]) + b"\\xff"))
        ass.set_attr_link(2, ver0.ObjectListType(listed(numbers, m)))
    got = {}
    for ln, indexes in c.get_writable_attr().items():
        need(ln.contents not in got, "every name once")
        got[ln.contents] = list(indexes)
    want = {}
    for numbers, m in ((first, modes[0]), (second, modes[1])):
        for i in numbers:
            if m[i] in (2, 3):
                want[OBJECTS[i][1]] = [2]
    need(got == want, "the writable attributes")


def by_descriptor(raw, attr, value):
    c = collection.Collection()
    o = c.add(ut.CosemClassId(1), cdt.Unsigned(0), name(raw))
    p = c.add(ut.CosemClassId(3), cdt.Unsigned(0), name(b"\\x01\\x00\\x01\\x08\\x00\\xff"))
    o.set_attr(2, b"\\x12" + value)
    need(c.get_attr(o.get_attr_descriptor(attr)) is o.get_attr(attr), "the value of the attribute")
    same(c.get_attr(o.get_attr_descriptor(2)).encoding, b"\\x12" + value, "its encoding")
    need(c.get_attr(p.get_attr_descriptor(2)) is None, "no value")
    c.try_remove(name(raw))
    refused_absent(c.get_attr, o.get_attr_descriptor(2))


def boot(text, set_it):
    """the first four characters of the description of the firmware"""
    c = collection.Collection()
    same(c.boot_version, "unknown", "no description of the firmware")
    o = c.add(ut.CosemClassId(1), cdt.Unsigned(0), name(b"\\x00\\x00\\x80\\x64\\x00\\xff"))
    same(c.boot_version, "unknown", "a description without value")
    if set_it:
        o.set_attr(2, b"\\x09" + bytes([len(text)]) + text)
        same(c.boot_version, text[:4].decode("ascii"), "the version of the boot loader")


def scripts(selector, present, steps):
    """the names of the actions of the script asked for, in its order"""
    c = collection.Collection()
    s = c.add(ut.CosemClassId(9), cdt.Unsigned(0), name(b"\\x00\\x00\\x0a\\x00\\x6a\\xff"))
    d = c.add(ut.CosemClassId(70), cdt.Unsigned(0), name(b"\\x00\\x00\\x60\\x03\\x0a\\xff"))
    k = c.add(ut.CosemClassId(8), cdt.Unsigned(0), name(b"\\x00\\x00\\x01\\x00\\x00\\xff"))
    objs = {70: d, 8: k}
    table = []
    for i, actions in present:
        acts = []
        for kind, cid, index in actions:
            acts.append(b"\\x02\\x05\\x16" + bytes([kind]) + b"\\x12\\x00" + bytes([cid]) + b"\\x09\\x06" + objs[cid].logical_name.contents + b"\\x0f" + bytes([index]) + b"\\x00")
        table.append(b"\\x02\\x02\\x12\\x00" + bytes([i]) + b"\\x01" + bytes([len(acts)]) + b"".join(acts))
    s.set_attr(2, b"\\x01" + bytes([len(table)]) + b"".join(table))
    want = None
    for i, actions in present:
        if i == selector and want is None:
            want = ", ".join([str(objs[cid].get_attr_element(index) if kind == 1 else objs[cid].get_meth_element(index)) for kind, cid, index in actions])
    r = outcome(c.get_script_names, s.logical_name, cdt.LongUnsigned(selector))
    need((r[0] == "ok") == (want is not None), "a script the table has")
    if want is None:
        need(r[1] == "ValueError", "refused with ValueError")
    else:
        same(r[1], want, "names of the actions")
    for ln in (d.logical_name, k.logical_name):
        need(refused(c.get_script_names, ln, cdt.LongUnsigned(selector)), "an object that is no script table is refused")


# ------------------------------------------------------------------ C43
# class, version, name, attribute, element -> type of the column, its encoding's prefix, octets that follow
CAPTURED = {
    "time": (8, 0, b"\\x00\\x00\\x01\\x00\\x00\\xff", 2, 0, "OctetStringDateTime", b"\\x09\\x0c\\x07\\xe7\\x01\\x01\\xff\\x00\\x00\\x00\\xff\\x80\\x00\\x00", 0),
    "status": (8, 0, b"\\x00\\x00\\x01\\x00\\x00\\xff", 4, 0, "ClockStatus", b"\\x11", 1),
    "zone": (8, 0, b"\\x00\\x00\\x01\\x00\\x00\\xff", 3, 0, "Long", b"\\x10", 2),
    "scale": (3, 0, b"\\x01\\x00\\x01\\x08\\x00\\xff", 3, 0, "ScalUnitType", b"\\x02\\x02\\x0f\\x00\\x16\\x1e", 0),
    "scaler": (3, 0, b"\\x01\\x00\\x01\\x08\\x00\\xff", 3, 1, "Integer", b"\\x0f\\x05", 0),
    "unit": (3, 0, b"\\x01\\x00\\x01\\x08\\x00\\xff", 3, 2, "Unit", b"\\x16\\x1e", 0),
    "cell": (47, 0, b"\\x00\\x00\\x19\\x06\\x00\\xff", 6, 1, "LongUnsigned", b"\\x12", 2),
    "signal": (47, 0, b"\\x00\\x00\\x19\\x06\\x00\\xff", 6, 3, "SignalQuality", b"\\x11", 1),
    "ber": (47, 0, b"\\x00\\x00\\x19\\x06\\x00\\xff", 6, 4, "Unsigned", b"\\x11", 1),
    "operator": (47, 0, b"\\x00\\x00\\x19\\x06\\x00\\xff", 2, 0, "VisibleString", b"\\x0a\\x02", 2),
    "register": (3, 0, b"\\x01\\x00\\x01\\x08\\x00\\xff", 2, 0, "LongUnsigned", b"\\x12", 2),
    "data": (1, 0, b"\\x00\\x00\\x60\\x01\\x0a\\xff", 2, 0, "OctetString", b"\\x09\\x01", 1),
}


def definition(key):
    cid, ver, raw, attr, element, t, head, n = CAPTURED[key]
    return b"\\x02\\x04\\x12\\x00" + bytes([cid]) + b"\\x09\\x06" + raw + b"\\x0f" + bytes([attr]) + b"\\x12\\x00" + bytes([element])


def device(skip=()):
    c = collection.Collection()
    for cid, ver, raw in ((8, 0, b"\\x00\\x00\\x01\\x00\\x00\\xff"), (3, 0, b"\\x01\\x00\\x01\\x08\\x00\\xff"), (3, 0, b"\\x01\\x00\\x02\\x08\\x00\\xff"), (47, 0, b"\\x00\\x00\\x19\\x06\\x00\\xff"), (1, 0, b"\\x00\\x00\\x60\\x01\\x0a\\xff")):
        if raw not in skip:
            c.add(ut.CosemClassId(cid), cdt.Unsigned(ver), name(raw))
    for raw, v in ((b"\\x01\\x00\\x01\\x08\\x00\\xff", b"\\x12\\x00\\x07"), (b"\\x00\\x00\\x60\\x01\\x0a\\xff", b"\\x09\\x02ab")):
        if raw not in skip:
            c.get_object(raw).set_attr(2, v)
    return c


def columns(keys, values, more):
    """an entry of the buffer has the captured attributes in their order, each of its own type"""
    c = device()
    p = c.add(ut.CosemClassId(7), cdt.Unsigned(1), name(b"\\x01\\x00\\x63\\x01\\x00\\xff"))
    p.set_attr(6, definition("time"))
    p.set_attr(3, b"\\x01" + bytes([len(keys)]) + b"".join([definition(k) for k in keys]))
    entries = []
    for row in values:
        entries.append([CAPTURED[k][6] + v for k, v in zip(keys, row)])
    p.set_attr(2, b"\\x01" + bytes([len(entries)]) + b"".join([b"\\x02" + bytes([len(keys)]) + b"".join(e) for e in entries]))
    same(len(p.buffer), len(entries), "number of entries")
    for got, e in zip(p.buffer, entries):
        same(len(got), len(keys), "number of columns")
        for v, enc, k in zip(got, e, keys):
            need(type(v).__name__ == CAPTURED[k][5], "type of the captured attribute")
            same(v.encoding, enc, "value of the column")
    need([x.logical_name.contents for x in p.get_buffer_objects()] == [CAPTURED[k][2] for k in keys], "objects of the columns")
    need(p.get_capture_object_names() == [collection.get_name(name(CAPTURED[k][2])) for k in keys], "names of the captured objects")
    for el, k in zip(p.buffer.TYPE.ELEMENTS, keys):
        o = c.get_object(CAPTURED[k][2])
        text = collection.get_name(o.logical_name) + ". " + str(o.get_attr_element(CAPTURED[k][3]))
        if CAPTURED[k][4]:
            text += ". " + o.get_attr_element(CAPTURED[k][3]).DATA_TYPE.ELEMENTS[CAPTURED[k][4] - 1].NAME
        same(el.NAME, text, "name of the column")
    # an entry with another number of columns is refused, and the entries stay
    short = b"\\x01\\x01\\x02" + bytes([len(keys) - 1 + 2 * more]) + b"".join(([CAPTURED[k][6] + bytes(CAPTURED[k][7]) for k in keys] + [b"\\x11\\x00"])[:len(keys) - 1 + 2 * more])
    need(refused(p.set_attr, 2, short), "an entry with another number of columns")
    same(len(p.buffer), len(entries), "the entries stay")


def whole(number, position):
    """the number of an element outside the structure is refused"""
    c = device()
    d = structs.CaptureObjectDefinition(b"\\x02\\x04\\x12\\x00\\x03\\x09\\x06\\x01\\x00\\x01\\x08\\x00\\xff\\x0f\\x03\\x12" + number)
    n = number[0] * 256 + number[1]
    r = outcome(c.get_name_and_type, d)
    need((r[0] == "ok") == (n <= 2), "an element of a structure of two")
    if r[0] == "ok":
        names, t = r[1]
        same(t.__name__, ("ScalUnitType", "Integer", "Unit")[n], "type of the element")
        same(len(names), 2 if n == 0 else 3, "names down to the element")
    else:
        same(r[1], "ValueError", "refused with ValueError")


def nested(position, keys):
    """a column of a profile captured by a profile"""
    c = device()
    p = c.add(ut.CosemClassId(7), cdt.Unsigned(1), name(b"\\x01\\x00\\x63\\x01\\x00\\xff"))
    p.set_attr(6, definition("time"))
    p.set_attr(3, b"\\x01" + bytes([len(keys)]) + b"".join([definition(k) for k in keys]))
    d = structs.CaptureObjectDefinition(b"\\x02\\x04\\x12\\x00\\x07\\x09\\x06\\x01\\x00\\x63\\x01\\x00\\xff\\x0f\\x02\\x12\\x00" + bytes([position]))
    r = outcome(c.get_name_and_type, d)
    need((r[0] == "ok") == (position <= len(keys)), "a column the profile has")
    if r[0] == "ok" and position:
        same(r[1][1].__name__, CAPTURED[keys[position - 1]][5], "type of the column")


def missing(keys, skip):
    """a captured object the collection lacks is added with the version its class has there, or refused"""
    c = device([CAPTURED[skip][2]])
    p = c.add(ut.CosemClassId(7), cdt.Unsigned(1), name(b"\\x01\\x00\\x63\\x01\\x00\\xff"))
    p.set_attr(6, definition("time"))
    r = outcome(p.set_attr, 3, b"\\x01" + bytes([len(keys)]) + b"".join([definition(k) for k in keys]))
    known = CAPTURED[skip][0] != 47
    need((r[0] == "ok") == (skip not in keys or known), "added when a version of the class is known")
    need(c.is_in_collection(CAPTURED[skip][2]) == (skip in keys and known), "in the collection then")
    if skip in keys and known:
        o = c.get_object(CAPTURED[skip][2])
        need(int(o.CLASS_ID) == CAPTURED[skip][0] and int(o.VERSION) == 0, "of the class captured")


def sorted_by(cid, attr):
    """the sort object is one of the class its definition names"""
    c = device()
    p = c.add(ut.CosemClassId(7), cdt.Unsigned(1), name(b"\\x01\\x00\\x63\\x01\\x00\\xff"))
    r = outcome(p.set_attr, 6, b"\\x02\\x04\\x12\\x00" + bytes([cid]) + b"\\x09\\x06\\x00\\x00\\x01\\x00\\x00\\xff\\x0f" + bytes([attr]) + b"\\x12\\x00\\x00")
    need((r[0] == "ok") == (cid == 8), "a sort object of another class is refused")
    need(r[0] == "ok" or r[1] == "NoObject", "refused with NoObject")
    p = c.add(ut.CosemClassId(7), cdt.Unsigned(1), name(b"\\x01\\x00\\x63\\x02\\x00\\xff"))
    q = outcome(p.set_attr, 6, b"\\x02\\x04\\x12\\x00\\x08\\x09\\x06\\x00\\x00\\x01\\x00\\x07\\xff\\x0f\\x02\\x12\\x00\\x00")
    need(q[0] == "raise" and q[1] == "NoObject", "a sort object the collection lacks")


def before(order):
    """captured objects without a sort object are refused and forgotten"""
    c = device()
    p = c.add(ut.CosemClassId(7), cdt.Unsigned(1), name(b"\\x01\\x00\\x63\\x01\\x00\\xff"))
    need(refused(p.set_attr, 2, b"\\x01\\x01\\x02\\x01\\x11\\x00"), "no entries before the captured objects are known")
    need(len(p.buffer) == 0, "no entry")


def scales(exp, unit, keys, other):
    """scaler and unit of every column: those of the captured register's value, none else"""
    c = device()
    p = c.add(ut.CosemClassId(7), cdt.Unsigned(1), name(b"\\x01\\x00\\x63\\x01\\x00\\xff"))
    c.get_object(b"\\x01\\x00\\x01\\x08\\x00\\xff").set_attr(3, b"\\x02\\x02\\x0f" + bytes([exp]) + b"\\x16" + bytes([unit]))
    p.set_attr(6, definition("time"))
    p.set_attr(3, b"\\x01" + bytes([len(keys)]) + b"".join([definition(k) for k in keys]))
    p.set_attr(2, b"\\x01\\x00")
    got = p.get_scaler_units_profile()
    same(len(got), len(keys), "one for every column")
    for g, k in zip(got, keys):
        if k == "register":
            need(g is not None and g.encoding == b"\\x02\\x02\\x0f" + bytes([exp]) + b"\\x16" + bytes([unit]), "scaler and unit of the register")
        else:
            need(g is None, "no scaler and unit")


def hashes(first, second):
    """equal definitions hash alike"""
    a = structs.CaptureObjectDefinition(b"\\x02\\x04\\x12" + first[0] + b"\\x09\\x06" + first[1] + b"\\x0f" + first[2] + b"\\x12" + first[3])
    b = structs.CaptureObjectDefinition(b"\\x02\\x04\\x12" + second[0] + b"\\x09\\x06" + second[1] + b"\\x0f" + second[2] + b"\\x12" + second[3])
    need((a == b) == (first == second), "equal when every part is")
    if first == second:
        same(hash(a), hash(b), "equal definitions hash alike")
'''


def check_C42(ck):
    w = ck.witness(WITNESS)
    A = ("cosem_interface_classes.collection", "Collection")
    names = [I_text(x) for x in w.d["NAMED"]]
    for a in names:
        ck.claim("named", a, w, "named", lambda I, a=a: (a, ()), where=ck.anchor(*A, a))
    for a in ("getASSOCIATION", "getIECHDLCSetup", "getIPv4Setup", "getDISCONNECT_CONTROL", "getARBITRATOR"):
        ck.claim("numbered", a, w, "numbered", lambda I, a=a: (a, I.in_int("number", 0, 255), I.in_int("other", 0, 255)), where=ck.anchor(*A, a))
        if a != "getASSOCIATION":
            ck.claim("channel", a, w, "without_channel", lambda I, a=a: (a, I.in_int("other", 1, 255)), where=ck.anchor(*A, a))
    bys = ck.anchor(*A, "get_association_id")
    saps = [0, 1, 16, 32, 48, 64, 80, 96]
    for inst in ((), (0,), (2,), (0, 3), (3, 0), (1, 2, 3), (0, 5, 1), (7, 6, 0, 5)) if not ck.thorough else ((), (0,), (2,), (0, 3), (3, 0), (1, 2, 3), (0, 5, 1), (7, 6, 0, 5), (0, 1, 2, 3, 4), (4, 3, 2, 1, 0)):
        some = saps if len(inst) < 3 or ck.thorough and len(inst) < 4 else [16, 32, 48]
        ck.claim("address", "associations %s" % (", ".join(map(str, inst)) or "none"), w, "by_address",
                 lambda I, inst=inst, some=some: (inst, tuple(I.in_choice("address of %d" % i, some) for i in inst), I.in_choice("wanted", saps)), where=bys)
    ol = ck.anchor(*A, "get_objects_list")
    for n, (f, s) in enumerate((((), (0,)), ((0, 1), (2,)), ((2, 1, 0), (1, 2)), ((1,), ()), ((0, 2), (2, 0)))):
        ck.claim("list", "lists %s and %s" % (f, s), w, "lists", lambda I, f=f, s=s: (f, s, I.in_choice("wanted", saps), (1, 1, 1), I.in_choice("missing", [None, 0, 1, 2])), where=ol)
        ck.claim("writable", "lists %s and %s" % (f, s), w, "writable", lambda I, f=f, s=s: (
            f, s, tuple(tuple(I.in_choice("mode %d of %d" % (k, j), [0, 1, 2, 3] if len(f) + len(s) < 4 else [1, 2] if k else [0, 3]) if k in lst else 0 for k in range(3)) for j, lst in ((1, f), (2, s)))), where=ck.anchor(*A, "get_writable_attr"))
    ck.claim("descriptor", "attribute by its descriptor", w, "by_descriptor",
             lambda I: (byt([0, 0, I.in_choice("C", [95, 129, 200])] + [I.in_byte("DE"[i]) for i in range(2)] + [255]), I.in_choice("attribute", [1, 2]), byt([I.in_byte("value 0"), I.in_byte("value 1")])), where=ck.anchor(*A, "get_attr"))
    bv = ck.anchor(*A, "boot_version")
    for n in (0, 1, 4, 5, 29, 130 - 3):
        ck.claim("boot", "description of %d octets" % n, w, "boot", lambda I, n=n: (byt([I.in_choice("character %d" % k, [0x30, 0x39, 0x41, 0x7a]) if k in (0, 3, 4) else 0x35 for k in range(n)]), True), where=bv)
    ck.claim("boot", "no description", w, "boot", lambda I: (b"", False), where=bv)
    sn = ck.anchor(*A, "get_script_names")
    w1, w2, e1, e2, ck2 = (1, 70, 4), (1, 70, 2), (2, 70, 1), (2, 70, 2), (2, 8, 6)
    for label, present in (("no script", ()), ("one write", ((1, (w1,)),)), ("two scripts", ((1, (e1,)), (2, (e2, w1)))), ("later script first", ((3, (w2, ck2, e1)), (1, ()), (2, (e1,)))), ("clock", ((5, ((1, 8, 3), (1, 8, 9), ck2)),))):
        ck.claim("script", label, w, "scripts", lambda I, p=present: (I.in_choice("selector", [0, 1, 2, 3, 4, 5]), p, None), where=sn)


def I_text(row):
    return row[0] if isinstance(row, tuple) else row


def check_C43(ck):
    w = ck.witness(WITNESS)
    P = ("cosem_interface_classes.profile_generic.ver1", "ProfileGeneric")
    buf = ck.anchor(*P, "_ProfileGeneric__create_buffer_struct_type")
    nt = ck.anchor("cosem_interface_classes.collection", "Collection", "get_name_and_type")
    sizes = {"time": 0, "status": 1, "zone": 2, "scale": 0, "scaler": 0, "unit": 0, "cell": 2, "signal": 1, "ber": 1, "operator": 2, "register": 2, "data": 1}
    sets = [(k,) for k in sizes] + [("time", "register"), ("register", "time"), ("time", "status", "register"), ("data", "zone"), ("unit", "scaler"), ("cell", "signal", "ber"), ("time", "operator", "cell", "register", "data")]

    def rows(I, keys, n):
        return tuple(tuple(byt([I.in_byte("entry %d %s %d" % (r, k, i)) for i in range(sizes[k])]) if sizes[k] else b"" for k in keys) for r in range(n))
    for keys in sets:
        for n in (1, 2) if len(keys) > 1 else (0, 1):
            ck.claim("columns", "%s, %d entries" % (", ".join(keys), n), w, "columns", lambda I, keys=keys, n=n: (keys, rows(I, keys, n), I.in_choice("more", [0, 1])), where=buf)
    ck.claim("element", "element of scaler and unit", w, "whole", lambda I: (byt([I.in_byte("high"), I.in_byte("low")]), None), where=nt)
    for keys in (("time", "register", "cell"), ("unit",)):
        ck.claim("nested", ", ".join(keys), w, "nested", lambda I, keys=keys: (I.in_int("column", 0, len(keys)), keys), where=nt)
    for keys, skip in ((("time", "data"), "data"), (("time", "register"), "register"), (("cell",), "cell"), (("time",), "cell"), (("time", "register"), "data")):
        ck.claim("missing", "%s without %s" % (", ".join(keys), skip), w, "missing", lambda I, a=(keys, skip): a, where=buf)
    ck.claim("sort", "sort object", w, "sorted_by", lambda I: (I.in_choice("class", [1, 3, 7, 8, 20]), I.in_choice("attribute", [2, 3, 4])), where=ck.anchor(*P, "_ProfileGeneric__create_selective_access_descriptor"))
    ck.claim("before", "entries first", w, "before", lambda I: (None,), where=buf)
    for keys in (("time", "register"), ("register",), ("scale", "register", "data"), ("time", "status"), ("unit",)):
        ck.claim("scales", ", ".join(keys), w, "scales", lambda I, keys=keys: (I.in_int("scaler", 0, 127), I.in_choice("unit", [1, 27, 30, 255]), keys, None), where=ck.anchor(*P, "get_scaler_units_profile"))

    def part(I, tag):
        return (byt([0, I.in_choice(tag + " class", [3, 8])]), byt([I.in_byte("%s %s" % (tag, x)) for x in "ABCDEF"]), byt([I.in_byte(tag + " attribute")]), byt([0, I.in_byte(tag + " element")]))
    ck.claim("hash", "any two definitions", w, "hashes", lambda I: (part(I, "first"), part(I, "second")), where=ck.anchor("types.implementations.structs", "CaptureObjectDefinition"))
    ck.claim("hash", "the same definition", w, "hashes", lambda I: (lambda p: (p, p))(part(I, "first")), where=ck.anchor("types.implementations.structs", "CaptureObjectDefinition"))
