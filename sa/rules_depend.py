"""C45: values that depend on another attribute or object; C46: what the active calendar leads to; C47: events and reports."""
import datetime

from dom import byt

DEPEND = '''
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES import exceptions as exc
from DLMS_SPODES.cosem_interface_classes import collection

REGISTER = b"\\x01\\x00\\x01\\x08\\x00\\xff"
NAMES = {1: b"\\x00\\x00\\x60\\x01\\x0a\\xff", 3: REGISTER, 4: b"\\x01\\x00\\x01\\x06\\x00\\xff", 5: b"\\x01\\x00\\x01\\x04\\x00\\xff"}
OTHER = b"\\x01\\x00\\x02\\x08\\x00\\xff"
LIMITER = b"\\x00\\x00\\x11\\x00\\x00\\xff"
MONITOR = b"\\x00\\x00\\x10\\x00\\x00\\xff"
ARBITRATOR = b"\\x00\\x00\\x60\\x03\\x14\\xff"
NUMBERS = (0x12, 0x06, 0x05, 0x0f, 0x10, 0x11, 0x14, 0x15)


def name(raw):
    return cst.LogicalName(b"\\x09\\x06" + raw)


def scaler_unit(scaler, unit):
    return b"\\x02\\x02\\x0f" + scaler + b"\\x16" + unit


def scaled(v, enc):
    need(v.SCALER_UNIT is not None, "the value has a scaler and a unit")
    same(v.SCALER_UNIT.encoding, enc, "those of its register")


def register(cid, order, value, scale, later):
    """the value of a register has its scaler and unit, whichever of the two is known first"""
    c = collection.Collection()
    r = c.add(ut.CosemClassId(cid), cdt.Unsigned(0), name(REGISTER))
    for i in order:
        r.set_attr(i, value if i == 2 else scale)
    same(r.value.encoding, value, "the value")
    same(r.scaler_unit.encoding, scale, "the scaler and unit")
    if value[0] in NUMBERS:
        scaled(r.value, scale)
        r.set_attr(2, later)
        same(r.value.encoding, later, "the next value")
        scaled(r.value, scale)


def changed(cid, order, value, scale, again):
    """when the register's scaler and unit are read anew, the value has the new ones"""
    c = collection.Collection()
    r = c.add(ut.CosemClassId(cid), cdt.Unsigned(0), name(REGISTER))
    for i in order:
        r.set_attr(i, value if i == 2 else scale)
    r.set_attr(3, again)
    same(r.scaler_unit.encoding, again, "the scaler and unit")
    scaled(r.value, again)


def demand(order, current, last, scale):
    """both averages of a demand register are of one type and have its scaler and unit"""
    c = collection.Collection()
    r = c.add(ut.CosemClassId(5), cdt.Unsigned(0), name(NAMES[5]))
    put = {2: current, 3: last, 4: scale}
    alike = current[0] == last[0]
    have = []
    for i in order:
        t = outcome(r.set_attr, i, put[i])
        second = i in (2, 3) and (5 - i) in have
        need((t[0] == "ok") == (alike or not second), "averages of different types are refused")
        if t[0] == "ok":
            have.append(i)
        else:
            same(t[1], "ValueError", "with ValueError")
            need(r.get_attr(i) is None, "the refused one is not kept")
            same(r.get_attr(5 - i).encoding, put[5 - i], "the other one is kept")
    for i in have:
        same(r.get_attr(i).encoding, put[i], "the value")
        if i != 4 and 4 in have and put[i][0] in NUMBERS:
            scaled(r.get_attr(i), scale)
    if not alike:
        i = [x for x in order if x != 4][1]
        r.set_attr(i, put[5 - i])
        same(r.get_attr(i).encoding, put[5 - i], "a value of the same type is taken then")
        if put[5 - i][0] in NUMBERS:
            scaled(r.get_attr(i), scale)


def definition(cid, raw, attr):
    return b"\\x02\\x03\\x12\\x00" + bytes([cid]) + b"\\x09\\x06" + raw + b"\\x0f" + bytes([attr])


def registered(c, cid, raw, value, scale):
    o = c.add(ut.CosemClassId(cid), cdt.Unsigned(0), name(raw))
    if value is not None:
        o.set_attr(2, value)
    if scale is not None and cid != 1:
        o.set_attr(4 if cid == 5 else 3, scale)
    return o


def limiter(cid, value, scale, level, wrong):
    """thresholds are of the type of the value monitored, with its scaler and unit"""
    c = collection.Collection()
    o = registered(c, cid, NAMES[cid], value, scale)
    m = c.add(ut.CosemClassId(71), cdt.Unsigned(0), name(LIMITER))
    for i in (3, 4, 5):
        r = outcome(m.set_attr, i, level)
        need(r[0] != "ok" and r[1] == "EmptyObj", "no threshold before there is a value to monitor")
        need(m.get_attr(i) is None, "nothing is kept")
    for i in (6, 7):
        same(m.get_attr(i).SCALER_UNIT.encoding, b"\\x02\\x02\\x0f\\x00\\x16\\x07", "durations are in seconds")
    m.set_attr(2, definition(cid, NAMES[cid], 2))
    for i in (3, 4, 5):
        need(type(m.get_attr(i)) is type(o.get_attr(2)), "type of the value monitored")
        same(m.get_attr(i).encoding, type(o.get_attr(2))().encoding, "no threshold is read yet")
        if cid != 1 and value[0] in NUMBERS:
            scaled(m.get_attr(i), scale)
    for i in (3, 4, 5):
        m.set_attr(i, level)
        same(m.get_attr(i).encoding, level, "the threshold")
        need(refused(m.set_attr, i, wrong), "a threshold of another type")
        same(m.get_attr(i).encoding, level, "stays after the refusal")
    same(o.get_attr(2).encoding, value, "the value monitored is not touched")


def status(limit, before, first):
    """the attribute monitored is the one of the number in the definition"""
    c = collection.Collection()
    o = c.add(ut.CosemClassId(4), cdt.Unsigned(0), name(NAMES[4]))
    o.set_attr(2, b"\\x12\\x00\\x07")
    o.set_attr(4, b"\\x11" + first)
    if limit:
        m = c.add(ut.CosemClassId(71), cdt.Unsigned(0), name(LIMITER))
        m.set_attr(2, definition(4, NAMES[4], 4))
        kinds = [type(m.get_attr(i)) for i in (3, 4, 5)]
    else:
        m = c.add(ut.CosemClassId(21), cdt.Unsigned(0), name(MONITOR))
        if before:
            m.set_attr(2, b"\\x01\\x01\\x11\\x05")
        m.set_attr(3, definition(4, NAMES[4], 4))
        kinds = [m.thresholds.TYPE]
    need(all([k is type(o.get_attr(4)) for k in kinds]), "type of the status, not of the value")
    if not limit:
        m.set_attr(2, b"\\x01\\x01\\x11" + first)
        same(m.thresholds[0].encoding, b"\\x11" + first, "the threshold")
        need(refused(m.set_attr, 2, b"\\x01\\x01\\x12\\x00\\x05"), "a threshold of the type of the value")


def limiter_without(cid, absent, empty):
    c = collection.Collection()
    if not absent:
        registered(c, cid, NAMES[cid], None if empty else b"\\x12\\x00\\x07", None)
    registered(c, 3, OTHER, b"\\x12\\x00\\x07", b"\\x02\\x02\\x0f\\x00\\x16\\x1e")
    m = c.add(ut.CosemClassId(71), cdt.Unsigned(0), name(LIMITER))
    r = outcome(m.set_attr, 2, definition(cid, NAMES[cid], 2))
    need((r[0] == "ok") == (not absent and not empty), "an object with a value")
    if r[0] != "ok":
        same(r[1], "NoObject" if absent else "EmptyObj", "kind of refusal")
        for i in (3, 4, 5):
            need(m.get_attr(i) is None, "no threshold is made")


def monitor(value, levels, wrong, before):
    """thresholds of a register monitor are of the type of the value monitored"""
    c = collection.Collection()
    o = registered(c, 3, REGISTER, value, None)
    m = c.add(ut.CosemClassId(21), cdt.Unsigned(0), name(MONITOR))
    array = b"\\x01" + bytes([len(levels)]) + b"".join(levels)
    if before:
        m.set_attr(2, array)
    m.set_attr(3, definition(3, REGISTER, 2))
    need(m.thresholds.TYPE is type(o.value), "type of the value monitored")
    if not before:
        m.set_attr(2, array)
    same([x.encoding for x in m.thresholds], list(levels), "the thresholds")
    need(refused(m.set_attr, 2, b"\\x01\\x01" + wrong), "thresholds of another type")
    same([x.encoding for x in m.thresholds], list(levels), "stay after the refusal")


def permissions(rows, actions, again):
    """a row of permissions has one bit per action: other rows are emptied to that length"""
    c = collection.Collection()
    a = c.add(ut.CosemClassId(68), cdt.Unsigned(0), name(ARBITRATOR))
    a.set_attr(3, [cdt.BitString(x) for x in rows])
    want = [x for x in rows]
    for n in (actions, again):
        if n is None:
            continue
        a.set_attr(2, b"\\x01" + bytes([n]) + b"\\x02\\x02\\x09\\x06\\x00\\x00\\x0a\\x00\\x6a\\xff\\x12\\x00\\x01" * n)
        want = [x if len(x) == n else "0" * n for x in want]
        same(len(a.actions), n, "number of actions")
        same([len(x) for x in a.permissions_table], [n] * len(rows), "one bit per action")
        same([x.encoding for x in a.permissions_table], [cdt.BitString(x).encoding for x in want], "rows of the right length stay")


def action_names(calls):
    """each action is asked for at its own script table and selector, in order"""
    c = collection.Collection()
    a = c.add(ut.CosemClassId(68), cdt.Unsigned(0), name(ARBITRATOR))
    asked = []

    def names(ln, selector):
        asked.append((ln.contents, int(selector)))
        return "action %d" % len(asked)
    c.__dict__["get_script_names"] = names
    a.set_attr(2, b"\\x01" + bytes([len(calls)]) + b"".join([b"\\x02\\x02\\x09\\x06\\x00\\x00\\x0a\\x00" + x + b"\\xff\\x12\\x00" + y for x, y in calls]))
    same(a.get_action_names(), ["action %d" % (k + 1) for k in range(len(calls))], "names in the order of the actions")
    same(asked, [(b"\\x00\\x00\\x0a\\x00" + x + b"\\xff", y[0]) for x, y in calls], "script and selector of each")
'''

# head of the value's encoding -> number of octets that follow
VALUES = {"long unsigned": (0x12, 2), "double long unsigned": (0x06, 4), "double long": (0x05, 4), "integer": (0x0f, 1), "long": (0x10, 2),
          "unsigned": (0x11, 1), "long64": (0x14, 8), "long64 unsigned": (0x15, 8)}
OTHERS = {"octet string": [9, 2], "visible string": [10, 2], "bit string": [4, 8], "enumeration": [22]}
OCT = {"octet string": 2, "visible string": 2, "bit string": 1, "enumeration": 1}


def value(I, kind, label):
    if kind in VALUES:
        tag, n = VALUES[kind]
        return byt([tag] + [I.in_byte("%s %d" % (label, i)) for i in range(n)])
    if kind == "visible string":
        return byt([10, 2, 0x61, 0x62])
    return byt(OTHERS[kind] + [I.in_byte("%s %d" % (label, i)) for i in range(OCT[kind])])


def scale(I, label):
    return byt([2, 2, 0x0f, I.in_choice("%s scaler" % label, [0, 1, 3, 0xfd, 0xff]), 0x16, I.in_choice("%s unit" % label, [7, 30, 255])])


def check_C45(ck):
    w = ck.witness(DEPEND)
    base = "cosem_interface_classes."
    reg = ck.anchor(base + "register", "Register")
    for cid in (3, 4):
        for order in ((2, 3), (3, 2)):
            for kind in VALUES:
                ck.claim("register", "class %d, %s, %s" % (cid, kind, "value first" if order[0] == 2 else "scaler first"), w, "register",
                         lambda I, c=cid, o=order, k=kind: (c, o, value(I, k, "value"), scale(I, "first"), value(I, k, "later")), where=reg)
            for kind in OTHERS:
                ck.claim("register", "class %d, %s, %s" % (cid, kind, "value first" if order[0] == 2 else "scaler first"), w, "register",
                         lambda I, c=cid, o=order, k=kind: (c, o, value(I, k, "value"), scale(I, "first"), None), where=reg)
            ck.claim("register", "class %d, scaler read anew, %s" % (cid, "value first" if order[0] == 2 else "scaler first"), w, "changed",
                     lambda I, c=cid, o=order: (c, o, value(I, "long unsigned", "value"), scale(I, "first"), scale(I, "second")), where=reg)
    dem = ck.anchor(base + "demand_register.ver0", "DemandRegister")
    orders = ((2, 3, 4), (2, 4, 3), (3, 2, 4), (3, 4, 2), (4, 2, 3), (4, 3, 2))
    for order in orders:
        for a, b in (("long unsigned", "long unsigned"), ("double long", "double long"), ("octet string", "octet string"), ("long unsigned", "double long unsigned"), ("unsigned", "octet string"), ("integer", "unsigned")):
            ck.claim("demand", "%s and %s, order %s" % (a, b, ", ".join(map(str, order))), w, "demand",
                     lambda I, o=order, a=a, b=b: (o, value(I, a, "current"), value(I, b, "last"), scale(I, "the")), where=dem)
    lim = ck.anchor(base + "limiter", "Limiter")
    for cid in (1, 3, 4, 5):
        for kind in (("long unsigned", "double long unsigned", "octet string") if cid == 1 else ("long unsigned", "double long unsigned", "integer", "long64", "octet string")):
            ck.claim("limiter", "value of class %d, %s" % (cid, kind), w, "limiter",
                     lambda I, c=cid, k=kind: (c, value(I, k, "value"), scale(I, "the"), value(I, k, "level"), value(I, "unsigned", "wrong")), where=lim)
        for absent, empty in ((0, 0), (1, 0), (0, 1)):
            ck.claim("limiter", "value of class %d, %s" % (cid, "absent" if absent else "without value" if empty else "present"), w, "limiter_without", lambda I, c=cid, a=absent, e=empty: (c, a, e), where=lim)
    mon = ck.anchor(base + "register_monitor", "RegisterMonitor")
    ck.claim("limiter", "status of an extended register", w, "status", lambda I: (1, 0, byt([I.in_byte("status")])), where=lim)
    for before in (0, 1):
        ck.claim("monitor", "status of an extended register, %s" % ("read before the definition" if before else "read after it"), w, "status", lambda I, b=before: (0, b, byt([I.in_byte("status")])), where=mon)
    for kind in ("long unsigned", "double long unsigned", "integer"):
        for n in (1, 2):
            for before in (0, 1):
                ck.claim("monitor", "%d thresholds of %s, %s" % (n, kind, "read before the definition" if before else "read after it"), w, "monitor",
                         lambda I, k=kind, n=n, b=before: (value(I, k, "value"), tuple(value(I, k, "level %d" % j) for j in range(n)), value(I, "unsigned", "wrong"), b), where=mon)
    arb = ck.anchor(base + "arbitrator", "Arbitrator")
    for rows in ((), ("101",), ("101", "11"), ("", "1011", "000")):
        for n in (0, 1, 2, 3, 4):
            ck.claim("arbitrator", "rows %s, %d actions" % (", ".join(x or "-" for x in rows) or "none", n), w, "permissions",
                     lambda I, r=rows, n=n: (r, n, I.in_choice("again", [None, 0, 1, 2, 3, 4])), where=arb)
    for n in (0, 1, 2, 3):
        ck.claim("arbitrator", "names of %d actions" % n, w, "action_names",
                 lambda I, n=n: (tuple((byt([I.in_byte("script %d" % j)]), byt([I.in_byte("selector %d" % j)])) for j in range(n)),), where=arb)


CALENDAR = '''
import datetime
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES.cosem_interface_classes import collection, activity_calendar as cal, special_days_table as sdt

UTC = datetime.timezone.utc
LN = b"\\x09\\x06\\x00\\x00\\x0d\\x00\\x00\\xff"


def at(n, unit="day"):
    """the n-th moment, moments apart by the unit"""
    if n is None:
        return None
    u = {unit: n}
    return datetime.datetime(2020 + u.get("year", 0), 1 + u.get("month", 0), u.get("day", 1), u.get("hour", 0), u.get("minute", 0), u.get("second", 0), u.get("hundredth", 0) * 10000, tzinfo=UTC)


def time_of(n, unit):
    u = {unit: n}
    return datetime.time(u.get("hour", 0), u.get("minute", 0), u.get("second", 0), u.get("hundredth", 0) * 10000)


def season(k, week):
    return b"\\x02\\x03\\x09\\x01" + bytes([65 + k]) + b"\\x09\\x0c\\x07\\xe4\\x01\\x01\\xff" + bytes([k]) + b"\\x00\\x00\\x00\\x80\\x00\\x00\\x09" + bytes([len(week)]) + week


def week(name, days):
    return b"\\x02\\x08\\x09" + bytes([len(name)]) + name + b"".join([b"\\x11" + bytes([x]) for x in days])


def action(k, rate):
    return b"\\x02\\x03\\x09\\x04" + bytes([k]) + b"\\x00\\x00\\x00\\x09\\x06\\x00\\x00\\x0a\\x00\\x64\\xff\\x12\\x00" + bytes([rate])


def day(x, rates=()):
    return b"\\x02\\x02\\x11" + bytes([x]) + b"\\x01" + bytes([len(rates)]) + b"".join([action(k, r) for k, r in enumerate(rates)])


def array(rows):
    return b"\\x01" + bytes([len(rows)]) + b"".join(rows)


NOW = datetime.datetime(2020, 6, 5, 10, 0, tzinfo=UTC)


def calendar():
    o = cal.ActivityCalendar(LN)
    # the passive tables hold other rows: they never decide
    o.set_attr(9, array([day(x, (200,)) for x in (0, 1, 2, 3, 255)]))
    o.set_attr(8, array([week(b"p", [1] * 7)]))
    o.set_attr(7, array([season(20, b"p")]))
    return o


def seasons(moments, unit="day"):
    """the season in force is the one that began last"""
    o = calendar()
    o.set_attr(3, array([season(k, b"w") for k in range(len(moments))]))
    asked = []

    def nearest(self, point):
        asked.append(point)
        return at(moments[self.contents[5]], unit)
    cst.OctetStringDateTime.get_left_nearest_datetime = nearest
    best = None
    for k, m in enumerate(moments):
        if m is not None and (best is None or moments[best] < m):
            best = k
    r = outcome(o.get_current_season, NOW)
    need((r[0] == "ok") == (best is not None), "a season that has begun")
    if best is None:
        same(r[1], "AttributeError", "else there is none")
    else:
        need(r[1] is o.season_profile_active[best], "the one that began last")
    need(all([x == NOW for x in asked]), "of the time asked for")
    if best is not None:
        o.collection = Server()
        need(o.get_current_season() is o.season_profile_active[best], "of the server's time else")
        need(all([x == Server.current_time for x in asked[len(asked) // 2:]]), "the server's time")


class Table:
    def __init__(self, answer):
        self.answer = answer
        self.asked = []

    def get_day_id_of_current_special_day(self, server_time=None):
        self.asked.append(server_time)
        return self.answer


class Server:
    current_time = datetime.datetime(2021, 3, 7, 10, 0, 7, 650000, tzinfo=UTC)
    special_day_table = Table(None)


def weeks(names, wanted):
    """the week in force is the one the season names"""
    o = calendar()
    r = outcome(o.set_attr, 4, array([week(n, [1] * 7) for n in names]))
    if r[0] != "ok":
        return
    o.set_attr(3, array([season(0, wanted)]))
    o.get_current_season = lambda t=None: o.season_profile_active[0]
    r = outcome(o.get_current_week, NOW)
    k = [i for i, n in enumerate(names) if n == wanted]
    need((r[0] == "ok") == (k != []), "a week of that name")
    if k:
        need(r[1] is o.week_profile_table_active[k[0]], "the week of that name")
    else:
        same(r[1], "AttributeError", "else there is none")


def days(rows, of_week, weekday, special):
    """the day in force is the special day's, else the one of the weekday in the week in force"""
    o = calendar()
    r = outcome(o.set_attr, 5, array([day(x) for x in rows]))
    if r[0] != "ok":
        return
    o.set_attr(4, array([week(b"w", of_week)]))
    s = Server()
    s.special_day_table = Table(None if special is None else cdt.Unsigned(special))
    o.collection = s
    asked = []

    def current(t=None):
        asked.append(t)
        return o.week_profile_table_active[0]
    o.get_current_week = current
    when = datetime.datetime(2020, 6, weekday, 10, 0, tzinfo=UTC)
    r = outcome(o.get_current_day, when)
    want = of_week[weekday - 1] if special is None else special
    k = [i for i, x in enumerate(rows) if x == want]
    need((r[0] == "ok") == (k != []), "a day of that identifier")
    if k:
        need(r[1] is o.day_profile_table_active[k[0]], "the day of that identifier")
    else:
        same(r[1], "AttributeError", "else there is none")
    need(s.special_day_table.asked == [when] and (special is not None or asked == [when]), "of the time asked for")


def actions(moments, rates, unit="hour"):
    """the action in force is the one that started last"""
    o = calendar()
    o.set_attr(5, array([day(0, rates)]))
    s = Server()
    o.collection = s
    asked = []

    def current(t=None):
        asked.append(t)
        return o.day_profile_table_active[0]
    o.get_current_day = current

    def nearest(self, point):
        asked.append(point)
        n = moments[self.contents[0]]
        return None if n is None else time_of(n, unit)
    cst.OctetStringTime.get_left_nearest_time = nearest
    best = None
    for k, m in enumerate(moments):
        if m is not None and (best is None or moments[best] < m):
            best = k
    r = outcome(o.get_current_action)
    need((r[0] == "ok") == (best is not None), "an action that has started")
    need(asked[0] == s.current_time and all([x == s.current_time.time() for x in asked[1:]]), "of the server's time")
    if best is None:
        same(r[1], "AttributeError", "else there is none")
        need(refused(o.get_current_rate), "and no rate")
    else:
        need(r[1] is o.day_profile_table_active[0].day_schedule[best], "the one that started last")
        same(o.get_current_rate(), rates[best], "the rate is its script's selector")


def special_days(dates, ids, when):
    """a special day is one whose date, where specified, is today's"""
    o = sdt.SpecialDaysTable(b"\\x09\\x06\\x00\\x00\\x0b\\x00\\x00\\xff")
    r = outcome(o.set_attr, 2, array([b"\\x02\\x03\\x12\\x00" + bytes([k]) + b"\\x09\\x05" + d + b"\\x11" + bytes([x]) for k, (d, x) in enumerate(zip(dates, ids))]))
    if r[0] != "ok":
        need(any([d[4] != 0xff and d[:4] != b"\\x07\\xe4\\x0c\\x19" for d in dates]) or dates[0] == b"\\x07\\xe4\\x0c\\x19\\x04", "refused for a weekday the date does not have")
        return
    today = datetime.datetime(when[0], when[1], when[2], when[4][0], when[4][1], when[4][2], tzinfo=datetime.timezone(datetime.timedelta(minutes=when[5])))
    want = None
    for d, x in zip(dates, ids):
        fits = d[0] * 256 + d[1] in (0xffff, when[0]) and d[2] in (0xff, when[1]) and d[3] in (0xff, when[2]) and d[4] in (0xff, when[3])
        if want is None and fits:
            want = x
    r = o.get_day_id_of_current_special_day(today)
    need((r is None) == (want is None), "a special day today")
    if want is not None:
        same(int(r), want, "its day")


def order():
    """rows refer to tables that come before them"""
    o = calendar()
    got = [i for i, v in o.get_index_with_attributes(True)]
    same(sorted(got), list(range(1, 11)), "every attribute once")
    for b in (3, 7):
        need(got.index(b + 2) < got.index(b + 1) < got.index(b), "days before weeks before seasons")
    same([i for i, v in o.get_index_with_attributes()], list(range(1, 11)), "else in order")
    for init in (True, False):
        for i, v in o.get_index_with_attributes(init):
            need(v is o.get_attr(i), "the attribute of that number")


def nearest(start, point, want):
    """the last moment not after the point that the pattern admits"""
    t = cst.OctetStringDateTime(b"\\x09\\x0c" + start + b"\\x80\\x00\\x00")
    p = datetime.datetime(point[0], point[1], point[2], point[3], point[4], point[5], tzinfo=UTC)
    got = t.get_left_nearest_datetime(p)
    if want is None:
        need(got is None, "none has been")
    else:
        need(got is not None and (got.year, got.month, got.day, got.hour, got.minute, got.second) == want, "the last one")


def nearest_time(start, point, want):
    t = cst.OctetStringTime(b"\\x09\\x04" + start)
    got = t.get_left_nearest_time(datetime.time(point[0], point[1], point[2]))
    if want is None:
        need(got is None, "none has been")
    else:
        need(got is not None and (got.hour, got.minute, got.second) == want, "the last one")


def of_day(start, point, want):
    """the same for every mix of parts given and open, hundredths included"""
    t = cst.OctetStringTime(b"\\x09\\x04" + start)
    got = t.get_left_nearest_time(datetime.time(point[0], point[1], point[2], point[3] * 10000))
    need((got is None) == (want is None), "is there one")
    if want is not None:
        same((got.hour, got.minute, got.second, got.microsecond), (want[0], want[1], want[2], want[3] * 10000), "the last one")


def of_date(day, start, point, want):
    """and of a date and time: on the day of the point, or at the end of the day before"""
    t = cst.OctetStringDateTime(b"\\x09\\x0c\\x07\\xe4" + day + b"\\xff" + start + b"\\x80\\x00\\x00")
    got = t.get_left_nearest_datetime(datetime.datetime(2020, 6, 5, point[0], point[1], point[2], point[3] * 10000, tzinfo=UTC))
    need((got is None) == (want is None), "is there one")
    if want is not None:
        same((got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond), (2020, 6, want[0], want[1], want[2], want[3], want[4] * 10000), "the last one")
'''

# year month day weekday hour minute second hundredths, point, last moment
NEAREST = [
    ((0xffff, 4, 1, 255, 0, 0, 0, 0), (2021, 6, 5, 10, 0, 0), (2021, 4, 1, 0, 0, 0)),
    ((0xffff, 4, 1, 255, 0, 0, 0, 0), (2021, 3, 31, 10, 0, 0), (2020, 4, 1, 0, 0, 0)),
    ((0xffff, 10, 31, 255, 0, 0, 0, 0), (2021, 9, 30, 10, 0, 0), (2020, 10, 31, 0, 0, 0)),
    ((0xffff, 255, 31, 255, 0, 0, 0, 0), (2021, 6, 30, 10, 0, 0), (2021, 5, 31, 0, 0, 0)),
    ((0xffff, 255, 15, 255, 12, 0, 0, 0), (2021, 6, 15, 11, 59, 59), (2021, 5, 15, 12, 0, 0)),
    ((0xffff, 255, 15, 255, 12, 0, 0, 0), (2021, 6, 15, 12, 0, 0), (2021, 6, 15, 12, 0, 0)),
    ((2020, 255, 255, 255, 0, 0, 0, 0), (2021, 3, 5, 10, 0, 0), (2020, 12, 31, 0, 0, 0)),
    ((2022, 255, 255, 255, 0, 0, 0, 0), (2021, 3, 5, 10, 0, 0), None),
    ((2022, 1, 1, 255, 0, 0, 0, 0), (2021, 12, 31, 23, 59, 59), None),
    ((2020, 2, 255, 255, 0, 0, 0, 0), (2021, 3, 5, 10, 0, 0), (2020, 2, 29, 0, 0, 0)),
    ((0xffff, 255, 255, 7, 2, 0, 0, 0), (2021, 3, 3, 1, 0, 0), (2021, 2, 28, 2, 0, 0)),
    ((0xffff, 3, 255, 7, 2, 0, 0, 0), (2021, 2, 3, 1, 0, 0), (2020, 3, 29, 2, 0, 0)),
    ((0xffff, 255, 255, 255, 255, 30, 0, 0), (2021, 3, 1, 0, 10, 0), (2021, 2, 28, 23, 30, 0)),
    ((0xffff, 255, 255, 255, 255, 255, 0, 0), (2021, 3, 1, 7, 10, 30), (2021, 3, 1, 7, 10, 0)),
    ((2021, 2, 28, 255, 255, 255, 255, 0), (2021, 3, 1, 7, 10, 30), (2021, 2, 28, 23, 59, 59)),
    ((2021, 3, 1, 255, 8, 255, 255, 0), (2021, 3, 1, 7, 10, 30), None),
]
TIMES = [
    ((0, 0, 0, 0), (0, 0, 0), (0, 0, 0)), ((7, 0, 0, 0), (6, 59, 59), None), ((7, 0, 0, 0), (7, 0, 0), (7, 0, 0)), ((7, 0, 0, 0), (23, 0, 0), (7, 0, 0)),
    ((255, 30, 0, 0), (10, 29, 59), (9, 30, 0)), ((255, 30, 0, 0), (10, 30, 1), (10, 30, 0)), ((255, 30, 0, 0), (0, 10, 0), None), ((255, 255, 0, 0), (10, 29, 59), (10, 29, 0)),
    ((9, 255, 0, 0), (10, 29, 5), (9, 59, 0)), ((9, 255, 255, 0), (9, 29, 5), (9, 29, 5)), ((9, 255, 255, 0), (8, 29, 5), None), ((10, 29, 255, 0), (10, 29, 5), (10, 29, 5)),
]


LIMITS = (24, 60, 60, 100)


def last(start, point):
    """last time of day with the parts given (255: open) that is not after the point, None if there is none"""
    best = []

    def go(i, free):            # free: already before the point
        if i == 4:
            return True
        for x in ([start[i]] if start[i] != 255 else range(LIMITS[i] - 1 if free else point[i], -1, -1)):
            if not free and x > point[i]:
                continue
            best.append(x)
            if go(i + 1, free or x < point[i]):
                return True
            best.pop()
        return False
    return tuple(best) if go(0, False) else None


def starts(points):
    """every mix of open parts, the parts given being before, at or after those of the point"""
    out = []
    for point in points:
        for mask in range(16):
            for delta in (-1, 0, 1):
                start = tuple(255 if mask >> i & 1 else min(max(point[i] + (delta if i == 3 - mask % 4 or mask == 0 else 0), 0), LIMITS[i] - 1) for i in range(4))
                if (start, point) not in out:
                    out.append((start, point))
    return out


def last_day(year, month, day, wd, clock, point):
    """by counting back from the point, day by day"""
    p = datetime.datetime(*point)
    d = p.date()
    while d.year > 1800:
        if (year is None or d.year == year) and (month is None or d.month == month) and (day is None or d.day == day) and (wd is None or d.isoweekday() == wd):
            x = datetime.datetime(d.year, d.month, d.day, *clock)
            if x <= p:
                return (x.year, x.month, x.day, x.hour, x.minute, x.second)
        d -= datetime.timedelta(days=1)
    raise AssertionError("no such day")


def patterns():
    """days years apart (29 February, a weekday of a date), the ends of months and years, with starts before and after the time of the point"""
    noon = (12, 30, 0)
    points = [(2023, 6, 5, 10, 0, 0), (2020, 2, 29, 12, 30, 0), (2020, 2, 29, 12, 29, 59), (2024, 1, 1, 0, 0, 0), (1903, 3, 1, 5, 0, 0), (2021, 12, 31, 23, 59, 59)]

    def rows(year, month, day, wd, some=points):
        return [((0xffff if year is None else year, 255 if month is None else month, 255 if day is None else day, 255 if wd is None else wd) + noon + (0,), p, last_day(year, month, day, wd, noon, p)) for p in some]
    yield "29 February", rows(None, 2, 29, None)
    for wd in range(1, 8):
        yield "29 February on weekday %d" % wd, rows(None, 2, 29, wd, points[:3])
        yield "1 January on weekday %d" % wd, rows(None, 1, 1, wd, points[:4])
        yield "any weekday %d" % wd, rows(None, None, None, wd)
    for day in (1, 29, 30, 31):
        yield "day %d" % day, rows(None, None, day, None) + rows(None, None, day, None, [(2023, m, 15, 9, 0, 0) for m in (1, 2, 3, 5, 7, 10, 12)])
        yield "day %d on Friday" % day, rows(None, None, day, 5)
    for month in range(1, 13):
        yield "month %d" % month, rows(None, month, None, None) + rows(None, month, None, 1, points[:4])
    yield "any day", rows(None, None, None, None)
    yield "a day of a year", rows(1999, None, None, None, points[:1]) + rows(1999, None, None, 7, points[:2]) + rows(2020, None, 29, None, points[:1]) + rows(2020, 2, 29, 6, points[:2])


def check_C46(ck):
    w = ck.witness(CALENDAR)
    base = "cosem_interface_classes."
    A = (base + "activity_calendar", "ActivityCalendar")
    for n in (0, 1, 2, 3):
        ck.claim("season", "%d seasons" % n, w, "seasons", lambda I, n=n: (tuple(I.in_choice("begin %d" % k, [None, 1, 2, 3][:n + 2]) for k in range(n)),), where=ck.anchor(*A, "get_current_season"))
        ck.claim("week", "%d weeks" % n, w, "weeks", lambda I, n=n: (tuple(byt([I.in_byte("name %d" % k)]) for k in range(n)), byt([I.in_byte("wanted")])), where=ck.anchor(*A, "get_current_week"))
        ck.claim("action", "%d actions" % n, w, "actions",
                 lambda I, n=n: (tuple(I.in_choice("start %d" % k, [None, 0, 1, 2][:n + 2]) for k in range(n)), tuple(I.in_byte("rate %d" % k) for k in range(n))), where=ck.anchor(*A, "get_current_action"))
    for unit in ("year", "month", "hour", "minute", "second", "hundredth"):
        ck.claim("season", "seasons that begin %ss apart" % unit, w, "seasons", lambda I, u=unit: (tuple(I.in_choice("begin %d" % k, [1, 2, 9]) for k in range(3)), u), where=ck.anchor(*A, "get_current_season"))
        if unit not in ("year", "month", "hour"):
            ck.claim("action", "actions that start %ss apart" % unit, w, "actions",
                     lambda I, u=unit: (tuple(I.in_choice("start %d" % k, [1, 2, 9]) for k in range(3)), tuple(I.in_byte("rate %d" % k) for k in range(3)), u), where=ck.anchor(*A, "get_current_action"))
    ck.claim("season", "many seasons", w, "seasons", lambda I: (tuple([3, 4] * 9 + [I.in_choice("begin", [2, 4, 5]), None, I.in_choice("last", [None, 1, 4, 5, 6])]),), where=ck.anchor(*A, "get_current_season"))
    ck.claim("action", "many actions", w, "actions", lambda I: (tuple([3, 4] * 9 + [I.in_choice("start", [2, 4, 5]), None, I.in_choice("last", [None, 1, 4, 5, 6])]), tuple(range(21))), where=ck.anchor(*A, "get_current_action"))
    ck.claim("week", "longer names", w, "weeks", lambda I: ((byt([I.in_byte("name 0"), 0x61]), byt([0x61]), b""), byt([0x61, I.in_byte("wanted")])), where=ck.anchor(*A, "get_current_week"))
    for special in (0, 1):
        for wd in range(1, 8):
            ck.claim("day", "weekday %d, %s" % (wd, "a special day" if special else "no special day"), w, "days",
                     lambda I, wd=wd, s=special: (tuple(I.in_byte("row %d" % k) for k in range(2)), tuple(I.in_byte("of the week") if k == wd - 1 else 100 + k for k in range(7)), wd, I.in_byte("special") if s else None),
                     where=ck.anchor(*A, "get_current_day"))
    T = ck.anchor(base + "special_days_table", "SpecialDaysTable", "get_day_id_of_current_special_day")
    # 25 December 2020 is a Friday
    def date(I, k, alone):
        y = I.in_choice("year %d" % k, [(7, 0xe4), (7, 0xe3), (0xff, 0xff)] if alone else [(7, 0xe4), (0xff, 0xff)])
        return byt([y[0], y[1], I.in_choice("month %d" % k, [12, 11, 255] if alone else [12, 255]), I.in_choice("day %d" % k, [25, 24, 255]), I.in_choice("weekday %d" % k, [5, 4, 255] if alone else [255])])
    ck.claim("special", "no entry", w, "special_days", lambda I: ((), (), (2020, 12, 25, 5, (12, 30, 0), 0)), where=T)
    ck.claim("special", "one entry", w, "special_days", lambda I: ((date(I, 0, True),), (I.in_byte("id 0"),), (2020, 12, 25, 5, (12, 30, 0), 0)), where=T)
    ck.claim("special", "at any time of the day", w, "special_days",
             lambda I: ((byt([7, 0xe4, 12, I.in_choice("day", [24, 25, 26]), 255]),), (I.in_byte("id 0"),), (2020, 12, 25, 5, I.in_choice("time", [(0, 0, 0), (0, 0, 1), (0, 30, 0), (2, 59, 59), (23, 0, 0), (23, 59, 59)]), I.in_choice("zone", [-300, 0, 180]))), where=T)
    ck.claim("special", "on other days", w, "special_days",
             lambda I: ((byt(list(I.in_choice("year", [(7, 0xe4), (0xff, 0xff)])) + [I.in_choice("month", [1, 12, 255]), I.in_choice("day", [1, 29, 31, 255]), 255]),), (I.in_byte("id 0"),),
                        I.in_choice("today", [(2020, 1, 1, 3, (0, 0, 0), 0), (2020, 2, 29, 6, (9, 0, 0), 0), (2020, 12, 31, 4, (23, 59, 59), 0), (2021, 1, 1, 5, (0, 0, 0), 0)])), where=T)
    ck.claim("special", "two entries", w, "special_days", lambda I: ((date(I, 0, False), date(I, 1, False)), (I.in_byte("id 0"), I.in_byte("id 1")), (2020, 12, 25, 5, (12, 30, 0), 0)), where=T)
    ck.claim("order", "attributes in the order of their references", w, "order", lambda I: (), where=ck.anchor(*A, "get_index_with_attributes"))
    N = ck.anchor("types.common_data_types", "DateTime", "get_left_nearest_datetime")
    for k, (start, point, want) in enumerate(NEAREST):
        ck.claim("nearest", "pattern %d" % k, w, "nearest", lambda I, s=start, p=point, x=want: (byt([s[0] >> 8, s[0] & 255] + list(s[1:])), p, x), where=N)
    for label, cases in patterns():
        cases = [(byt([s[0] >> 8, s[0] & 255] + list(s[1:])), p, x) for s, p, x in cases]
        ck.claim("nearest", label, w, "nearest", lambda I, c=cases: I.in_choice("case", c), where=N)
    for k, (start, point, want) in enumerate(TIMES):
        ck.claim("nearest", "time pattern %d" % k, w, "nearest_time", lambda I, s=start, p=point, x=want: (byt(list(s)), p, x), where=ck.anchor("types.common_data_types", "Time", "get_left_nearest_time"))
    T = ck.anchor("types.common_data_types", "Time", "get_left_nearest_time")
    points = [(10, 29, 5, 50), (0, 0, 0, 0), (23, 59, 59, 99), (7, 0, 30, 0)]
    for point in points:
        cases = [(byt(list(s)), p, last(s, p)) for s, p in starts([point])]
        ck.claim("nearest", "times of day before %02d:%02d:%02d.%02d" % point, w, "of_day", lambda I, c=cases: I.in_choice("case", c), where=T)
        cases = []
        for s, p in starts([point]):
            x = last(s, p)
            y = last(s, (23, 59, 59, 99))
            cases.append((byt([6, 5]), byt(list(s)), p, x and (5,) + x))
            cases.append((byt([6, 4]), byt(list(s)), p, (4,) + y))
            cases.append((byt([6, 255]), byt(list(s)), p, (5,) + x if x else (4,) + y))
        ck.claim("nearest", "dates and times before %02d:%02d:%02d.%02d" % point, w, "of_date", lambda I, c=cases: I.in_choice("case", c), where=N)
