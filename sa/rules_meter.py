"""C32, C33: image transfer blocks, and the tables of calendar, special days and schedule."""
from dom import byt

WITNESS_IMAGE = '''
from DLMS_SPODES.types import cdt
from DLMS_SPODES.cosem_interface_classes.image_transfer.ver0 import ImageTransfer

LN = b"\\x09\\x06\\x00\\x00\\x2c\\x00\\x00\\xff"


def made(size):
    o = ImageTransfer(LN)
    o.set_attr(2, size)
    return o


def blocks(image, size):
    return [image[i:i + size] for i in range(0, len(image), size)]


def selected(o, want, i):
    t = o.image_block_transfer
    same(t.image_block_number.contents, i.to_bytes(4, "big"), "number of the block")
    same(t.image_block_value.contents, want[i], "octets of block %d" % i)


def split(image, size):
    o = made(size)
    want = blocks(image, size)
    o.set_image_for_update(image, bytearray(b"fw1"))
    same(o.get_n_blocks(), len(want), "number of blocks")
    need(o.is_image_exist, "an image is loaded")
    init = o.image_transfer_initiate
    same(init.image_identifier.contents, b"fw1", "identifier sent with the initiation")
    same(init.image_size.contents, len(image).to_bytes(4, "big"), "size sent with the initiation")
    sent = b""
    for i in range(len(want)):
        selected(o, want, i)
        sent = sent + o.image_block_transfer.image_block_value.contents
        if i < len(want) - 1:
            o.set_next_block()
    same(sent, image, "octets of all blocks in the order they are stepped through")
    need(outcome(o.set_next_block) == ("raise", "StopIteration"), "stepping stops after the last block")
    selected(o, want, len(want) - 1)


def pick(image, size, i):
    o = made(size)
    want = blocks(image, size)
    o.set_image_for_update(image, bytearray(b"fw1"))
    o.set_block_for_transfer(i)
    selected(o, want, i)


def outside(image, size, keep, i):
    o = made(size)
    want = blocks(image, size)
    o.set_image_for_update(image, bytearray(b"fw1"))
    o.set_block_for_transfer(keep)
    refuse("block %s of %d" % (i, len(want)), o.set_block_for_transfer, i)
    selected(o, want, keep)


def no_image(i):
    o = made(4)
    need(not o.is_image_exist, "no image is loaded")
    refuse("block of no image", o.set_block_for_transfer, i)
    refuse("next block of no image", o.set_next_block)
    o.set_image_for_update(b"12345", bytearray(b"fw1"))
    o.clear_image()
    need(not o.is_image_exist and o.get_n_blocks() == 0, "no block is left of a cleared image")
    refuse("block of a cleared image", o.set_block_for_transfer, 0)


def again(first, second, size, at, size2, identifier):
    o = made(size)
    o.set_image_for_update(first, bytearray(b"fw1"))
    o.set_block_for_transfer(at)
    o.set_attr(2, size2)
    o.set_image_for_update(second, bytearray(identifier))
    want = blocks(second, size2)
    same(o.get_n_blocks(), len(want), "number of blocks")
    same(o.image_transfer_initiate.image_size.contents, len(second).to_bytes(4, "big"), "size sent with the initiation")
    same(o.image_transfer_initiate.image_identifier.contents, identifier, "identifier sent with the initiation")
    n = o.current_block_transfer
    need(n < len(want), "selected block belongs to the image")
    selected(o, want, n)
    if identifier != b"fw1":
        need(n == 0, "another image starts at block 0")
    else:
        need(n <= at, "resuming skips no block")
    for i in range(n, len(want)):
        selected(o, want, i)
        if i < len(want) - 1:
            o.set_next_block()


def unusable(image, size):
    o = made(4)
    o.set_image_for_update(b"123456", bytearray(b"fw1"))
    o.set_attr(2, size)
    refuse("an image without blocks", o.set_image_for_update, image, bytearray(b"fw2"))
'''


def check_C32(ck):
    w = ck.witness(WITNESS_IMAGE)
    it = ck.anchor("cosem_interface_classes.image_transfer.ver0", "ImageTransfer")
    top = 14 if ck.thorough else 9
    for n in range(1, top + 1):
        for size in sorted({1, 2, 3, 4, n - 1, n, n + 1, 200, 2**32 - 1} - {0}):
            ck.claim("split", "%d octets in blocks of %d" % (n, size), w, "split", lambda I, n=n, s=size: (I.in_fixed("octet", n), s), where=it)
    for n, size in ((256, 128), (300, 200), (515, 256)):
        ck.claim("split", "%d octets in blocks of %d" % (n, size), w, "split", lambda I, n=n, s=size: (bytes(k * 7 % 256 for k in range(n)), s), where=it)
    for n, size in ((17, 1), (66, 2), (130, 1), (260, 1), (520, 2)):
        ck.claim("split", "%d octets in blocks of %d" % (n, size), w, "split", lambda I, n=n, s=size: (bytes(k * 7 % 256 for k in range(n)), s), where=it)
    ck.claim("resume", "300 octets at block 270, in blocks of 1", w, "again", lambda I: (bytes(300), bytes(k * 5 % 256 for k in range(300)), 1, 270, 1, b"fw1"), where=it)
    for n, size in ((1, 4), (4, 4), (5, 4), (7, 2)):
        k = -(-n // size)
        for i in range(k):
            ck.claim("selection", "block %d of %d octets in blocks of %d" % (i, n, size), w, "pick", lambda I, n=n, s=size, i=i: (I.in_fixed("octet", n), s, i), where=it)
            for lo, hi in ((None, -1), (k, None)):
                ck.claim("outside", "block numbers %s of %d blocks at block %d" % ("below 0" if hi else "from %d" % k, k, i), w, "outside",
                         lambda I, n=n, s=size, i=i, lo=lo, hi=hi: (I.in_fixed("octet", n), s, i, I.in_int("number", lo, hi)), where=it)
    ck.claim("outside", "no image", w, "no_image", lambda I: (I.in_int("number"),), where=it)
    for first, second, size, at, size2 in ((8, 8, 2, 0, 2), (8, 8, 2, 1, 2), (8, 8, 2, 3, 2), (8, 8, 1, 7, 2), (8, 4, 2, 3, 2), (4, 8, 2, 1, 2), (8, 2, 2, 2, 2), (6, 6, 1, 3, 2), (6, 6, 1, 4, 2)):
        for identifier in (b"fw1", b"fw2", b"", b"fw10"):
            ck.claim("resume", "%d octets at block %d of %d, then %d octets in blocks of %d, identifier %r" % (first, at, size, second, size2, identifier.decode()), w, "again",
                     lambda I, a=(first, second, size, at, size2), d=identifier: (I.in_fixed("old", a[0]), I.in_fixed("new", a[1]), a[2], a[3], a[4], d), where=it)
    ck.claim("unusable", "no octets", w, "unusable", lambda I: (b"", 4), where=it)
    ck.claim("unusable", "block size 0", w, "unusable", lambda I: (I.in_fixed("octet", 5), 0), where=it)


WITNESS_TABLES = '''
from DLMS_SPODES.types import cdt, cst
from DLMS_SPODES.cosem_interface_classes import cosem_interface_class as ic
from DLMS_SPODES.cosem_interface_classes import activity_calendar as cal
from DLMS_SPODES.cosem_interface_classes import special_days_table as sdt
from DLMS_SPODES.cosem_interface_classes import schedule as sch

DT = b"\\x09\\x0c\\x07\\xe4\\x01\\x01\\xff\\xff\\xff\\xff\\xff\\x80\\x00\\xff"
LN = b"\\x09\\x06\\x00\\x00\\x0d\\x00\\x00\\xff"


def name(raw):
    return bytes([9, len(raw)]) + raw


def season(raw, other=b"w"):
    return b"\\x02\\x03" + name(raw) + DT + name(other)


def week(raw, days):
    return b"\\x02\\x08" + name(raw) + b"".join([b"\\x11" + d for d in days])


def day(raw, n=0):
    return b"\\x02\\x02\\x11" + raw + b"\\x01" + bytes([n]) + (b"\\x02\\x03\\x09\\x04\\x00\\x00\\x00\\x00\\x09\\x06\\x00\\x00\\x0a\\x00\\x64\\xff\\x12\\x00\\x01") * n


def special(raw, d=b"\\x01", m=b"\\x01"):
    return b"\\x02\\x03\\x12" + raw + b"\\x09\\x05\\x07\\xe4" + m + b"\\x01\\xff\\x11" + d


def entry(raw, enable=b"\\x01"):
    return (b"\\x02\\x0a\\x12" + raw + b"\\x03" + enable + b"\\x09\\x06\\x00\\x00\\x0a\\x00\\x64\\xff\\x12\\x00\\x01\\x09\\x04\\x00\\x00\\x00\\x00\\x12\\x00\\x00"
            + b"\\x04\\x07\\x00\\x04\\x00\\x09\\x05\\x07\\xe4\\x01\\x01\\xff\\x09\\x05\\x07\\xe4\\x01\\x01\\xff")


def table(kind):
    if kind == "season":
        return cal.SeasonProfile, season, b"v"
    if kind == "week":
        return cal.WeekProfileTable, lambda raw, other=b"\\x01": week(raw, [other] * 7), b"\\x02"
    if kind == "day":
        return cal.DayProfileTable, lambda raw, n=0: day(raw, n), 1
    if kind == "special":
        return sdt.Entries, special, b"\\x02"
    return sch.Entries, entry, b"\\x00"


def key(element):
    return element[0].contents


def held(t, keys, what):
    need(len(t.values) == len(keys), "number of entries " + what)
    for e, k in zip(t.values, keys):
        same(key(e), k, "identifier " + what)


def distinct(keys):
    for i in range(len(keys)):
        for j in range(i):
            if keys[i] == keys[j]:
                return False
    return True


def filled(kind, keys):
    cls, row, other = table(kind)
    t = cls(b"\\x01" + bytes([len(keys)]) + b"".join([row(k) for k in keys]))
    return t, cls, row, other


def appended(kind, first, new):
    if not distinct(first):
        return
    t, cls, row, other = filled(kind, first)
    held(t, first, "of the table")
    for value in (row(new), row(new, other)):
        u, *_ = filled(kind, first)
        if new in first:
            refuse("an entry whose identifier is held", u.append, value)
            refuse("an entry object whose identifier is held", u.append, cls.TYPE(value))
            held(u, first, "after the refusal")
        else:
            u.append(value)
            held(u, first + [new], "after the addition")
            u, *_ = filled(kind, first)
            u.append(cls.TYPE(value))
            held(u, first + [new], "after the addition of an object")


def made(kind, keys):
    cls, row, other = table(kind)
    rows = [row(k) if i % 2 else row(k, other) for i, k in enumerate(keys)]
    raw = b"\\x01" + bytes([len(keys)]) + b"".join(rows)
    start = keys[:1]
    t, *_ = filled(kind, start)
    if distinct(keys):
        held(cls(raw), keys, "of the octets")
        held(cls([cls.TYPE(r) for r in rows]), keys, "of the list")
        t.set(raw)
        held(t, keys, "after the replacement")
    else:
        refuse("octets with two entries of one identifier", cls, raw)
        refuse("a list with two entries of one identifier", cls, [cls.TYPE(r) for r in rows])
        refuse("a replacement with two entries of one identifier", t.set, raw)
        held(t, start, "after the refused replacement")


def proposal(kind, keys):
    if not distinct(keys):
        return
    t, cls, row, other = filled(kind, keys)
    if kind == "season":
        t.cb_get_week_profile_names = lambda: (cdt.OctetString(bytearray(b"a")), cdt.OctetString(bytearray(b"b")))
    elif kind == "week":
        t.cb_get_day_ids = lambda: (cdt.Unsigned(7), cdt.Unsigned(9))
    e = t.new_element()
    need(key(e) not in keys, "identifier of a new entry is vacant")
    if kind == "season":
        same(e.week_name.contents, b"a", "week of a new season")
    elif kind == "week":
        for i in range(1, 8):
            same(e[i].contents, b"\\x07", "day of a new week")
    t.append()
    held(t, keys + [key(e)], "after the addition of a new entry")


def crowded(kind, n, width, gap):
    """one identifier after another, with one left out: a new entry beside many"""
    ids = [i for i in range(n) if i != gap]
    t, cls, row, other = filled(kind, [])
    for i in ids:
        t.append(row(bytes([0] * (width - 1) + [i])))
    if kind == "season":
        t.cb_get_week_profile_names = lambda: (cdt.OctetString(bytearray(b"a")),)
    elif kind == "week":
        t.cb_get_day_ids = lambda: (cdt.Unsigned(7),)
    e = t.new_element()
    need(all([key(e) != key(x) for x in t.values]), "identifier of a new entry is vacant")
    same(len(t), len(ids), "and nothing is added yet")


def references(season, week, day, names, days):
    """new seasons name a week of their own tables, new weeks a day"""
    o = cal.ActivityCalendar(b"\\x09\\x06\\x00\\x00\\x0d\\x00\\x00\\xff")
    for k in (0, 1):
        for d in days[k]:
            o.get_attr(day[k]).append(b"\\x02\\x02\\x11" + d + b"\\x01\\x00")
        for x in names[k]:
            o.get_attr(week[k]).append(b"\\x02\\x08\\x09\\x01" + x + (b"\\x11" + days[k][0]) * 7)
    for k in (0, 1):
        e = o.get_attr(season[k]).new_element()
        need(e.week_name.contents in names[k], "a week of the season's own tables")
        e = o.get_attr(week[k]).new_element()
        need(all([x.contents in days[k] for x in list(e)[1:]]), "days of the week's own tables")


def no_reference(kind):
    t, cls, row, other = filled(kind, [])
    if kind == "season":
        t.cb_get_week_profile_names = lambda: ()
    else:
        t.cb_get_day_ids = lambda: ()
    refuse("a new entry with nothing to refer to", t.append)
    held(t, [], "after the refusal")


def renamed(keys, k, new):
    if not distinct(keys):
        return
    t, cls, row, other = filled("special", keys)
    if new in keys and new != keys[k]:
        refuse("an index held by another entry", t[k].index.set, b"\\x12" + new)
        held(t, keys, "after the refusal")
    elif new not in keys:
        t[k].index.set(b"\\x12" + new)
        held(t, keys[:k] + [new] + keys[k + 1:], "after the change")


def removed(keys, missing):
    if not distinct(keys):
        return
    o = sdt.SpecialDaysTable(b"\\x09\\x06\\x00\\x00\\x0b\\x00\\x00\\xff")
    o.set_attr(2, b"\\x01" + bytes([len(keys)]) + b"".join([special(k) for k in keys]))
    if missing in keys:
        o.delete.set(b"\\x12" + missing)
        same(o.delete.contents, missing, "index of the entry to remove")
    else:
        refuse("removal of an index that is not in the table", o.delete.set, b"\\x12" + missing)


def index_range(x):
    r = outcome(sch.Index, x)
    if 1 <= x <= 9999:
        need(r[0] == "ok", "an index of 1..9999 is accepted")
        same(int(r[1]), x, "index")
    else:
        need(r[0] == "raise", "an index outside 1..9999 is refused")


def index_octets(raw):
    ok = 1 <= int.from_bytes(raw, "big") <= 9999
    r = outcome(sch.Index, b"\\x12" + raw)
    need((r[0] == "ok") == ok, "octets of an index are accepted exactly for 1..9999")
    for rows in ([raw], [b"\\x00\\x01", raw]):
        if len(rows) == 2 and raw == b"\\x00\\x01":
            continue
        t = outcome(sch.Entries, b"\\x01" + bytes([len(rows)]) + b"".join([entry(k) for k in rows]))
        need((t[0] == "ok") == ok, "table with that index is accepted exactly for 1..9999")


def index_default():
    need(1 <= int(sch.Index()) <= 9999, "default index is in range")
    e = sch.ScheduleTableEntry()
    need(1 <= int(e.index) <= 9999, "default entry's index is in range")
    i = sch.Index(5)
    for bad in (0, 10000, 65535):
        refuse("change to an index outside 1..9999", i.set, bad)
        same(int(i), 5, "index after the refusal")


# ------------------------------------------------------------------ calendar
def calendar(base, days, weeks, seasons):
    """days: octets; weeks: (name, seven octets); seasons: (name, week name); set without the tables' own refusal of duplicates"""
    o = cal.ActivityCalendar(LN)
    other = 9 if base == 5 else 5
    for b in (5, 9):
        o.set_attr(b, b"\\x01\\x01" + day(b"\\x63"))
        o.set_attr(b - 1, b"\\x01\\x01" + week(b"z", [b"\\x63"] * 7))
        o.set_attr(b - 2, b"\\x01\\x01" + season(b"z", b"z"))
    o.validate()
    for i, rows, rename in ((base, [day(x) for x in days], days), (base - 1, [week(n, d) for n, d in weeks], [n for n, d in weeks]),
                    (base - 2, [season(n, wn) for n, wn in seasons], [n for n, wn in seasons])):
        t = o.get_attr(i)
        t.clear()
        for r in rows:
            e = t.TYPE(r)
            t.values.append(e)
    return o


def valid(days, weeks, seasons):
    """None, or the number of the table a consistent reading complains about first: 0 days, 1 weeks, 2 seasons"""
    if not distinct(days):
        return 0
    for n, d in weeks:
        for x in d:
            if x not in days:
                return 1
    if not distinct([n for n, d in weeks]):
        return 1
    for n, wn in seasons:
        if wn not in [x for x, d in weeks]:
            return 2
    if not distinct([n for n, wn in seasons]):
        return 2
    return None


def judged(base, days, weeks, seasons):
    o = calendar(base, days, weeks, seasons)
    want = valid(days, weeks, seasons)
    try:
        o.validate()
        got = None
    except ic.ObjectValidationError as e:
        got = e
    if want is None:
        need(got is None, "a consistent calendar is valid")
    else:
        need(got is not None, "a calendar with %s is reported" % (("days of one identifier", "weeks of one name or of missing days", "seasons of one name or of missing weeks")[want]))
        need(got.i == base - want, "the error names the attribute at fault")


def judged_week(base, k, x, have):
    d = [b"\\x01"] * 7
    d[k] = x
    judged(base, have, [(b"a", [b"\\x01"] * 7), (b"b", d)], [(b"s", b"a"), (b"t", b"b")])


def judged_seven(base, d, have):
    judged(base, have, [(b"a", d)], [(b"s", b"a")])
'''


def check_C33(ck):
    w = ck.witness(WITNESS_TABLES)
    mk = ck.I.mklist
    cal = ck.anchor("cosem_interface_classes.activity_calendar", "ActivityCalendar")
    tables = {"season": ck.anchor("cosem_interface_classes.activity_calendar", "SeasonProfile"), "week": ck.anchor("cosem_interface_classes.activity_calendar", "WeekProfileTable"),
              "day": ck.anchor("cosem_interface_classes.activity_calendar", "DayProfileTable"), "special": ck.anchor("cosem_interface_classes.special_days_table", "Entries"),
              "schedule": ck.anchor("cosem_interface_classes.schedule", "Entries")}
    width = {"season": 1, "week": 1, "day": 1, "special": 2, "schedule": 2}

    def new(I, kind):
        if kind == "schedule":
            return byt([I.in_choice("new high", [1, 0x26]), I.in_byte("new low")])
        return I.in_fixed("new", width[kind])

    def keys(I, kind, n, tag="id"):
        if kind == "schedule":      # the two low octets of 1..9999: high octet chosen, low octet free
            return mk([byt([I.in_choice("%s%d high" % (tag, i), [1, 0x26]), I.in_byte("%s%d low" % (tag, i))]) for i in range(n)])
        return mk([I.in_fixed("%s%d " % (tag, i), width[kind]) for i in range(n)])

    for kind, cls in tables.items():
        for n in range(0, 4 if ck.thorough else 3):
            ck.claim("unique", "%s: an addition to %d entries" % (kind, n), w, "appended",
                     lambda I, k=kind, n=n: (k, keys(I, k, n), new(I, k)), where=cls)
            if n > 1:
                ck.claim("unique", "%s: %d entries at once" % (kind, n), w, "made", lambda I, k=kind, n=n: (k, keys(I, k, n)), where=cls)
        ck.claim("unique", "%s: 3 entries at once, names of different sizes" % kind, w, "made", lambda I, k=kind: (k, mk([b"a", b"ab", b"a"]) if k in ("season", "week") else keys(I, k, 2)),
                 where=cls)
        if kind != "schedule":
            for ks in ([], [0], [1], [0, 1], [1, 0], [0, 2], [5, 0, 1]):
                ck.claim("vacant", "%s: new entry beside %s" % (kind, ks), w, "proposal", lambda I, k=kind, ks=ks: (k, mk([x.to_bytes(width[k], "big") for x in ks])), where=cls)
            for n, gap in ((17, 17), (40, 33), (40, 0), (70, 70)):
                ck.claim("vacant", "%s: new entry beside %d others" % (kind, n), w, "crowded", lambda I, k=kind, n=n, g=gap: (k, n, width[k], g), where=cls)
            ck.claim("vacant", "%s: new entry beside free identifiers" % kind, w, "proposal", lambda I, k=kind: (k, keys(I, k, 2)), where=cls)
        if kind in ("season", "week"):
            ck.claim("vacant", "%s: new entry without reference" % kind, w, "no_reference", lambda I, k=kind: (k,), where=cls)
    cal = ck.anchor("cosem_interface_classes.activity_calendar", "ActivityCalendar")
    ck.claim("vacant", "rows a new row refers to", w, "references", lambda I: ((3, 7), (4, 8), (5, 9), ((b"a", b"b"), (b"c",)), ((byt([I.in_choice("day", [1, 7, 255])]), b"\x09"), (byt([I.in_choice("passive day", [2, 8])]),))), where=cal)
    for n in (1, 2, 3):
        for k in range(n):
            ck.claim("rename", "special day %d of %d" % (k, n), w, "renamed", lambda I, n=n, k=k: (keys(I, "special", n), k, I.in_fixed("new", 2)), where=tables["special"])
        ck.claim("rename", "removal from %d special days" % n, w, "removed", lambda I, n=n: (keys(I, "special", n), I.in_fixed("index", 2)), where=tables["special"])
    for kind, cls in tables.items():
        for n in ((12,) if kind == "schedule" else (24, 130) if ck.thorough else (24,)):
            ck.claim("unique", "%s: an addition to %d entries" % (kind, n), w, "appended",
                     lambda I, k=kind, n=n: (k, mk([(i + 1).to_bytes(width[k], "big") for i in range(n)]), I.in_choice("new", [i.to_bytes(width[k], "big") for i in (1, 2, n // 2, n, n + 1)])), where=cls)
    idx = ck.anchor("cosem_interface_classes.schedule", "Index")
    ck.claim("range", "index from every number", w, "index_range", lambda I: (I.in_int("index"),), where=idx)
    ck.claim("range", "index from every pair of octets", w, "index_octets", lambda I: (I.in_fixed("index", 2),), where=idx)
    ck.claim("range", "default and change", w, "index_default", lambda I: (), where=idx)

    one = b"\x01"
    num = lambda n, at=None, x=None: mk([x if k == at else bytes((k + 1,)) for k in range(n)])
    def odd(I):
        at = I.in_choice("weekday", list(range(7)))
        x = I.in_choice("day", [b"\x01", b"\x02", b"\x05"])
        return mk([x if k == at else one for k in range(7)])

    ends = lambda n: [bytes((k,)) for k in (1, 2, n // 2, n - 1, n, n + 1, 255)]
    for base in (5, 9):
        t = "active" if base == 5 else "passive"
        for n in (12, 34):
            for at in (0, n - 1):
                ck.claim("calendar", "%s: %d days, any identifier at %d" % (t, n, at), w, "judged",
                         lambda I, b=base, n=n, at=at: (b, num(n, at, I.in_choice("day", ends(n))), mk([(b"a", mk([b"\x03"] * 6 + [I.in_choice("weekday", ends(n))]))]), mk([(b"s", b"a")])), where=cal)
                ck.claim("calendar", "%s: %d weeks, any name at %d" % (t, n, at), w, "judged",
                         lambda I, b=base, n=n, at=at: (b, mk([one]), mk([(I.in_choice("week", ends(n)) if k == at else bytes((k + 1,)), mk([one] * 7)) for k in range(n)]),
                                                        mk([(b"s", b"\x03"), (b"t", I.in_choice("season week", ends(n)))])), where=cal)
                ck.claim("calendar", "%s: %d weeks, any day in the week at %d" % (t, n, at), w, "judged",
                         lambda I, b=base, n=n, at=at: (b, mk([one, b"\x05"]), mk([(bytes((k + 1,)), odd(I) if k == at else mk([one] * 7)) for k in range(n)]), mk([(b"s", b"\x03")])), where=cal)
                ck.claim("calendar", "%s: %d seasons, any name at %d" % (t, n, at), w, "judged",
                         lambda I, b=base, n=n, at=at: (b, mk([one]), mk([(b"a", mk([one] * 7)), (b"b", mk([one] * 7))]),
                                                        mk([(I.in_choice("season", ends(n)), I.in_choice("week", [b"a", b"b", b"c"])) if k == at else (bytes((k + 1,)), b"b") for k in range(n)])), where=cal)
        free = lambda I, n, tag: mk([I.in_fixed(tag + str(i), 1) for i in range(n)])
        for n in (1, 2, 3):
            ck.claim("calendar", "%s: %d free day identifiers" % (t, n), w, "judged",
                     lambda I, b=base, n=n: (b, free(I, n, "day"), mk([(b"a", mk([one] * 7))]), mk([(b"s", b"a")])), where=cal)
        for k in range(7):
            ck.claim("calendar", "%s: weekday %d refers to any identifier" % (t, k + 1), w, "judged_week", lambda I, b=base, k=k: (b, k, I.in_fixed("day", 1), mk([one, I.in_fixed("held", 1)])), where=cal)
        ck.claim("calendar", "%s: free identifiers for the whole week" % t, w, "judged_seven",
                 lambda I, b=base: (b, mk([I.in_choice("weekday%d" % i, [b"\x01", b"\x02"]) for i in range(7)]), mk([one])), where=cal)
        for n in (1, 2, 3):
            ck.claim("calendar", "%s: %d free week names" % (t, n), w, "judged",
                     lambda I, b=base, n=n: (b, mk([one]), mk([(I.in_fixed("week%d" % i, 1), mk([one] * 7)) for i in range(n)]),
                                             mk([(b"s", I.in_fixed("season week", 1))])), where=cal)
            ck.claim("calendar", "%s: %d free season names and weeks" % (t, n), w, "judged",
                     lambda I, b=base, n=n: (b, mk([one]), mk([(b"a", mk([one] * 7)), (b"b", mk([one] * 7))]),
                                             mk([(I.in_fixed("season%d" % i, 1), I.in_choice("week%d" % i, [b"a", b"b", b"c"])) for i in range(n)])), where=cal)
        for days, weeks, seasons in (([], [], []), ([one], [], []), ([one], [("a", one)], []), ([], [("a", one)], []), ([one], [], [("s", "a")]), ([one, b"\x02"], [("a", one), ("b", b"\x02")], [("s", "b"), ("t", "a")])):
            ck.claim("calendar", "%s: %d days, %d weeks, %d seasons" % (t, len(days), len(weeks), len(seasons)), w, "judged",
                     lambda I, b=base, d=days, ws=weeks, s=seasons: (b, mk(list(d)), mk([(n.encode(), mk([x] * 7)) for n, x in ws]), mk([(n.encode(), x.encode()) for n, x in s])), where=cal)
