CIC = "cosem_interface_classes/"
COL = CIC + "collection.py"
CDT = "types/common_data_types.py"
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = {"property": prop, "edits": edits, "demo": demo, "needs": needs, "breaks": breaks}


seed("s19", "C33", [(CIC + "activity_calendar.py", "names: list[bytes] = [bytes(el.season_profile_name) for el in self.values]", "names: list[bytes] = [bytes(el.season_profile_name) for el in self.values[:16]]")], """
ac = mod("cosem_interface_classes.activity_calendar")
cdt = mod("types.common_data_types")
t = ac.SeasonProfile()
t.cb_get_week_profile_names = lambda: (cdt.OctetString(b"\\x09\\x01a"),)
for n in range(20):
    t.append(t.new_element())
names = [bytes(s.season_profile_name) for s in t.values]
assert len(set(names)) == 20, names
""", "a calendar of more than sixteen seasons", "a new season is given a name that another one has")

seed("s20", "C33", [(CIC + "activity_calendar.py", "self.season_profile_passive.cb_get_week_profile_names = self.week_profile_table_passive.get_week_profile_names", "self.season_profile_passive.cb_get_week_profile_names = self.week_profile_table_active.get_week_profile_names")], """
ac = mod("cosem_interface_classes.activity_calendar")
c = ac.ActivityCalendar("0.0.13.0.0.255")
c.characteristics_init()
def weeks(table, days, name):
    days.append(b"\\x02\\x02\\x11\\x01\\x01\\x00")
    table.append(b"\\x02\\x08\\x09\\x01" + name + b"\\x11\\x01" * 7)
weeks(c.week_profile_table_active, c.day_profile_table_active, b"A")
weeks(c.week_profile_table_passive, c.day_profile_table_passive, b"P")
assert bytes(c.season_profile_active.new_element().week_name) == b"A"
assert bytes(c.season_profile_passive.new_element().week_name) == b"P"
""", "a new passive season where the active and passive week tables differ", "a new row of the passive calendar refers to a week of the active one")

seed("s22", "C46", [(CIC + "activity_calendar.py", "            weekday = server_time.weekday()+1\n", "            weekday = server_time.timetuple().tm_wday + (server_time.hour != 0 or server_time.minute != 0)\n")], """
import datetime
ac = mod("cosem_interface_classes.activity_calendar")
col = mod("cosem_interface_classes.collection")
ut = mod("types.useful_types"); cdt = mod("types.common_data_types"); cst = mod("types.cosem_service_types")
c = col.Collection()
c.add(mod("types.cosemClassID").SPECIAL_DAYS_TABLE if False else ut.CosemClassId(11), cdt.Unsigned(0), cst.LogicalName("0.0.11.0.0.255")).set_attr(2, b"\\x01\\x00")
a = c.add(ut.CosemClassId(20), cdt.Unsigned(0), cst.LogicalName("0.0.13.0.0.255"))
a.set_attr(5, b"\\x01\\x07" + b"".join(b"\\x02\\x02\\x11" + bytes((d,)) + b"\\x01\\x00" for d in range(1, 8)))
a.set_attr(4, b"\\x01\\x01\\x02\\x08\\x09\\x01w" + b"".join(b"\\x11" + bytes((d,)) for d in range(1, 8)))
a.set_attr(3, b"\\x01\\x01\\x02\\x03\\x09\\x01s\\x09\\x0c\\xff\\xff\\x01\\x01\\xff\\x00\\x00\\x00\\x00\\x80\\x00\\x00\\x09\\x01w")
for day in range(6, 13):
    for h, m in ((10, 0), (0, 30), (0, 0)):
        t = datetime.datetime(2020, 7, day, h, m, tzinfo=datetime.timezone.utc)
        d = a.get_current_day(t)
        assert int(d.day_id) == t.isoweekday(), (t, int(d.day_id))
""", "midnight exactly", "at midnight the profile of the day before is in force")

seed("s24", "C28", [(COL, "            if value.major != self.__server_ver[instance].major or value.minor != self.__server_ver[instance].minor:", "            if value.major != self.__server_ver[instance].major or value.minor > self.__server_ver[instance].minor:")], """
col = mod("cosem_interface_classes.collection")
V = mod("version").AppVersion
c = col.Collection()
c.set_server_ver(0, V(1, 4, 2))
assert refused(lambda: c.set_server_ver(0, V(1, 5, 0)))
assert refused(lambda: c.set_server_ver(0, V(1, 3, 0)))
assert c.server_ver[0] == V(1, 4, 2)
""", "a server version with a lower minor number after a higher one", "the version of the server is changed by an older one")

seed("s26", "C25", [(COL, "    (0, 96, 13, (0, 1)): (DataMap,", "    (0, 96, 13, (0, 2)): (DataMap,")], """
col = mod("cosem_interface_classes.collection")
ut = mod("types.useful_types"); cdt = mod("types.common_data_types"); cst = mod("types.cosem_service_types")
c = col.Collection()
o = c.add(ut.CosemClassId(1), cdt.Unsigned(0), cst.LogicalName("0.0.96.13.1.255"))
assert int(o.CLASS_ID) == 1
assert refused(lambda: c.add(ut.CosemClassId(5), cdt.Unsigned(0), cst.LogicalName("0.0.96.13.1.255"))), "a demand register for consumer information"
""", "the second code of consumer messages with another class than Data", "a code of the standard is no longer restricted to its class")

seed("s27", "C25", [(COL, "or (128 <= ln.d <= 254) or (128 <= ln.e <= 254)", "or (128 <= ln.d <= 254) or (128 <= ln.e < 254)")], """
col = mod("cosem_interface_classes.collection")
cst = mod("types.cosem_service_types"); cdt = mod("types.common_data_types"); ut = mod("types.useful_types")
for t in ("1.0.1.8.253.255", "1.0.1.8.254.255"):
    try:
        o = col.Collection().add(ut.CosemClassId(1), cdt.Unsigned(0), cst.LogicalName(t))
    except ValueError as e:
        assert False, (t, str(e)[:80])
""", "a manufacturer specific code whose E is 254", "manufacturer specific codes whose E is 254 are refused")

seed("s28", "C45", [(CIC + "limiter.py", "                    s_v.clear()\n", "")], """
col = mod("cosem_interface_classes.collection")
ut = mod("types.useful_types"); cdt = mod("types.common_data_types"); cst = mod("types.cosem_service_types")
c = col.Collection()
r = c.add(ut.CosemClassId(3), cdt.Unsigned(0), cst.LogicalName("1.0.1.7.0.255"))
r.set_attr(2, b"\\x06\\x00\\x00\\x12\\x34")
r.set_attr(3, b"\\x02\\x02\\x0f\\x00\\x16\\x1b")
l = c.add(ut.CosemClassId(71), cdt.Unsigned(0), cst.LogicalName("0.0.17.0.0.255"))
l.set_attr(2, b"\\x02\\x03\\x12\\x00\\x03\\x09\\x06\\x01\\x00\\x01\\x07\\x00\\xff\\x0f\\x02")
assert l.threshold_normal.contents == bytes(4), l.threshold_normal
""", "a limiter configured after the value it monitors was read", "the thresholds of a limiter start from the momentary value")

seed("s29", "C42", [(COL, "if ass.associated_partners_id.client_SAP == client_sap and ass.logical_name.e != 0:", "if ass.associated_partners_id.client_SAP == client_sap:")], """
col = mod("cosem_interface_classes.collection")
ut = mod("types.useful_types"); cdt = mod("types.common_data_types"); cst = mod("types.cosem_service_types")
enums = mod("types.implementations.enums")
c = col.Collection()
z = c.add(ut.CosemClassId(15), cdt.Unsigned(0), cst.LogicalName("0.0.40.0.0.255"))
z.set_attr(3, b"\\x02\\x02\\x0f\\x20\\x12\\x00\\x01")
a = c.add(ut.CosemClassId(15), cdt.Unsigned(0), cst.LogicalName("0.0.40.0.2.255"))
a.set_attr(3, b"\\x02\\x02\\x0f\\x20\\x12\\x00\\x01")
assert c.get_association_id(enums.ClientSAP(0x20)) == 2
""", "a collection in which the current association was read for the same client", "the current association is given for the client's own one")

seed("s30", "C49", [(CIC + "association_ln/ver0.py", "            if association.associated_partners_id.client_SAP == value and association.logical_name.e != 0:", "            if association.associated_partners_id.client_SAP == value and association.object_list is not None:")], """
col = mod("cosem_interface_classes.collection")
ut = mod("types.useful_types"); cdt = mod("types.common_data_types"); cst = mod("types.cosem_service_types")
enums = mod("types.implementations.enums")
c = col.Collection()
z = c.add(ut.CosemClassId(15), cdt.Unsigned(0), cst.LogicalName("0.0.40.0.0.255"))
z.set_attr(3, b"\\x02\\x02\\x0f\\x20\\x12\\x00\\x01")
row = b"\\x02\\x04\\x12\\x00%c\\x11\\x00\\x09\\x06%b\\x02\\x02\\x01\\x00\\x01\\x00"
z.set_attr(2, b"\\x01\\x01" + row % (1, bytes((0, 0, 42, 0, 0, 255))))
a = c.add(ut.CosemClassId(15), cdt.Unsigned(0), cst.LogicalName("0.0.40.0.2.255"))
a.set_attr(3, b"\\x02\\x02\\x0f\\x20\\x12\\x00\\x01")
a.set_attr(2, b"\\x01\\x01" + row % (8, bytes((0, 0, 1, 0, 0, 255))))
got = [str(o.logical_name) for o in a.client_objects_list(enums.ClientSAP(0x20))]
assert got == ["0.0.1.0.0.255"], got
""", "a collection that holds the list of the current association too", "the objects of a client are those of the current association")

seed("s31", "C49", [(CIC + "association_ln/ver0.py", "            case Representation.ASCII_HIDDEN:                return self.__hide_all(cdt.VisibleString.__str__(self))\n", "            case Representation.ASCII_HIDDEN:                return self.__hide_all(cdt.VisibleString.__str__(self).rstrip(\"*\")) \n")], """
v = mod("cosem_interface_classes.association_ln.ver0")
for raw in (b"12345678", b"secret**"):
    s = v.LLCSecret(b"\\x09\\x08" + raw)
    s.representation = v.Representation.ASCII_HIDDEN
    t = str(s)
    s.representation = v.Representation.HEX
    assert t == "*" * 8, t
""", "a secret that ends with asterisks, hidden as characters", "the text of a hidden secret gives away how it ends")

seed("s32", "C32", [(CIC + "image_transfer/ver0.py", "            self.set_block_for_transfer(self.current_block_transfer+1)\n", "            self.set_block_for_transfer(self.current_block_transfer+1 & 0xff)\n")], """
it = mod("cosem_interface_classes.image_transfer.ver0")
o = it.ImageTransfer("0.0.44.0.0.255")
o.characteristics_init()
o.set_attr(2, b"\\x06\\x00\\x00\\x00\\x04")
image = bytes(i * 7 & 255 for i in range(4 * 300))
o.set_image_for_update(image, bytearray(b"id"))
got = b""
for n in range(300):
    assert o.current_block_transfer == n, (n, o.current_block_transfer)
    got += bytes(o.image_block_transfer.image_block_value)
    try:
        o.set_next_block()
    except StopIteration:
        break
assert got == image
""", "an image of more than 256 blocks", "the transfer begins again after 256 blocks")

seed("s33", "C16", [("hdlc/frame.py", "            if next_frame.control.is_info() and next_frame.is_next_send(frame):", "            if next_frame.control.is_info() and next_frame.is_next_send(frame) and len(info) < 0x800:")], """
from collections import deque
f = mod("hdlc.frame")
a = f.Address(upper_address=1)
q = deque()
want = b""
for i in range(40):
    info = bytes([i]) * 120
    q.append(f.Frame(DA=a, SA=a, control=f.Control(0x10 | (i % 8) << 1), info=info, is_segmentation=i < 39))
    want += info
assert f.Frame.join_info(q) == want
""", "a segmented message of more than two kilobytes", "a long message is not joined")

seed("s34", "C40", [(COL, "            if 41 <= obj.logical_name.c <= 60:", "            if 41 <= obj.logical_name.c < 60:")], """
col = mod("cosem_interface_classes.collection")
ut = mod("types.useful_types"); cdt = mod("types.common_data_types"); cst = mod("types.cosem_service_types")
for c in (41, 52, 59, 60):
    x = col.Collection()
    x.add(ut.CosemClassId(3), cdt.Unsigned(0), cst.LogicalName("1.0.%d.7.0.255" % c))
    assert x.get_n_phases() == 3, c
""", "a collection whose only object of the second phase has C = 60", "a three-phase meter is taken for a single-phase one")

seed("s35", "C35", [(CDT, "        if isinstance(element, self.TYPE):\n            self.values.insert(index, element)", "        if isinstance(element, (self.TYPE, CommonDataType)):\n            self.values.insert(index, element)")], """
cdt = mod("types.common_data_types")
A = cdt.Array(b"\\x01\\x02\\x11\\x01\\x11\\x02", type_=cdt.Unsigned)
try:
    A.insert(1, cdt.Integer(5))
except ValueError:
    pass
assert A.encoding == b"\\x01\\x02\\x11\\x01\\x11\\x02", A.encoding
A.insert(1, cdt.Unsigned(9))
assert A.encoding == b"\\x01\\x03\\x11\\x01\\x11\\x09\\x11\\x02"
""", "inserting an element of another type", "an array holds an element of a type it does not declare")

seed("s36", "C50", [(CIC + "implementations/data.py", "        self.value.register_cb_post_set(self.__handle_value)\n        self.__handle_value()", "        if (ver := self.collection.server_ver.get(self.logical_name.b)) is not None:\n            self.value.register_cb_post_set(self.__handle_value)\n        self.__handle_value()")], """
col = mod("cosem_interface_classes.collection")
ut = mod("types.useful_types"); cdt = mod("types.common_data_types"); cst = mod("types.cosem_service_types")
exc = mod("exceptions"); ver = mod("version")
c = col.Collection()
o = c.add(ut.CosemClassId(1), cdt.Unsigned(0), cst.LogicalName("0.0.0.2.1.255"))
o.set_attr(2, b"\\x09\\x051.4.2")
c.set_server_ver(0, ver.AppVersion(1, 4, 2))
try:
    o.value.set(cdt.OctetString(b"\\x09\\x051.5.0"))
except exc.NeedUpdate:
    pass
else:
    raise AssertionError("a later firmware passed")
""", "an identifier read before the version of the collection is known, then changed through its value", "a firmware update is not noticed")

seed("s37", "C19", [(CDT, "            case '-..',  (w, d, m, Y):        return bytes((*from_year(), from_month(), from_monthday(), from_weekday()))", "            case '-..',  (w, m, d, Y):        return bytes((*from_year(), from_month(), from_monthday(), from_weekday()))")], """
cst = mod("types.cosem_service_types")
cdt = mod("types.common_data_types")
assert cdt.Date("05.06.2024-3").contents == cdt.Date("3-05.06.2024").contents == bytes((7, 232, 6, 5, 3))
""", "a date written with its weekday before it", "day and month are exchanged")

seed("s38", "C40", [(COL, '            case ic.COSEMInterfaceClasses() if logical_name != cst.LogicalName("0.0.42.0.0.255"):', '            case ic.COSEMInterfaceClasses() as it if it.CLASS_ID not in (classID.ASSOCIATION_LN, classID.DATA) or it.CLASS_ID == classID.DATA and logical_name != cst.LogicalName("0.0.42.0.0.255"):')], """
col = mod("cosem_interface_classes.collection")
ut = mod("types.useful_types"); cdt = mod("types.common_data_types"); cst = mod("types.cosem_service_types")
for cid, v, n in ((3, 0, "1.0.1.8.0.255"), (1, 0, "0.0.96.1.0.255"), (15, 1, "0.0.40.0.2.255")):
    c = col.Collection()
    ln = cst.LogicalName(n)
    c.add(ut.CosemClassId(cid), cdt.Unsigned(v), ln)
    assert c.try_remove(ln) and not c.is_in_collection(ln), cid
""", "removing an association", "an association stays in the collection")

seed("s39", "C33", [(CIC + "activity_calendar.py", "                    if week_profile[i] not in days:", "                    if week_profile[i] not in days and (len(weeks) < 9 or i < 7):")], """
ac = mod("cosem_interface_classes.activity_calendar")
ic = mod("cosem_interface_classes.cosem_interface_class")
o = ac.ActivityCalendar("0.0.13.0.0.255")
def week(n, days):
    return b"\\x02\\x08\\x09\\x01" + bytes((n,)) + b"".join(b"\\x11" + bytes((d,)) for d in days)
for at in (0, 4):
    o.set_attr(5 + at, b"\\x01\\x01\\x02\\x02\\x11\\x01\\x01\\x00")
    o.set_attr(4 + at, b"\\x01\\x0a" + b"".join(week(n, (1,) * 7) for n in range(1, 11)))
    o.set_attr(3 + at, b"\\x01\\x00")
o.validate()
o.set_attr(4, b"\\x01\\x0a" + b"".join(week(n, (1,) * 7) for n in range(1, 10)) + week(10, (1, 1, 1, 1, 1, 1, 2)))
try:
    o.validate()
except ic.ObjectValidationError:
    pass
else:
    raise AssertionError("a Sunday of a missing day passed")
""", "a calendar of more than eight weeks with a missing day on a Sunday", "an inconsistent calendar counts as valid")

seed("s40", "C51", [(CDT, "            case 'SCALER_UNIT', ScalUnitType() if self.SCALER_UNIT == value:", "            case 'SCALER_UNIT', ScalUnitType() if self.SCALER_UNIT.unit == value.unit:")], """
cdt = mod("types.common_data_types")
v = cdt.Long(b"\\x10\\x00\\x07")
v.SCALER_UNIT = cdt.ScalUnitType(b"\\x02\\x02\\x0f\\xfe\\x16\\x1b")
v.SCALER_UNIT = cdt.ScalUnitType(b"\\x02\\x02\\x0f\\xfe\\x16\\x1b")
try:
    v.SCALER_UNIT = cdt.ScalUnitType(b"\\x02\\x02\\x0f\\x01\\x16\\x1b")
except ValueError:
    pass
else:
    raise AssertionError("another scaler passed")
""", "a number given a second scaler of the same unit", "the second scaler is dropped in silence")
