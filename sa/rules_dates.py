"""C19: date, time and date-time values, analysed over a stand-in for the standard library's datetime written in plain Python."""

DATETIME = '''
MINYEAR = 1
MAXYEAR = 9999
DAYS = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(year):
    return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)


WEEKDAYS = {}


def weekday_of(year, month, day):
    """a fixed weekday for every day: the interpreter's client decides which"""
    return WEEKDAYS["of"](year, month, day)


class timedelta:
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        self.total = (days + weeks * 7) * 86400 + hours * 3600 + minutes * 60 + seconds
        self.micro = microseconds + milliseconds * 1000

    def total_seconds(self):
        return self.total

    @property
    def days(self):
        return self.total // 86400

    @property
    def seconds(self):
        return self.total % 86400

    @property
    def microseconds(self):
        return self.micro

    def __eq__(self, other):
        return isinstance(other, timedelta) and self.total == other.total and self.micro == other.micro

    def __hash__(self):
        return hash(self.total)

    def __neg__(self):
        return timedelta(seconds=-self.total)

    def __add__(self, other):
        return timedelta(seconds=self.total + other.total)

    def __sub__(self, other):
        return timedelta(seconds=self.total - other.total)

    def __floordiv__(self, other):
        if isinstance(other, timedelta):
            return self.total // other.total
        return timedelta(seconds=self.total // other)

    def __truediv__(self, other):
        return self.total / other.total

    def __lt__(self, other):
        return self.total < other.total

    def __le__(self, other):
        return self.total <= other.total

    def __gt__(self, other):
        return self.total > other.total

    def __ge__(self, other):
        return self.total >= other.total


class tzinfo:
    pass


class timezone(tzinfo):
    def __init__(self, offset, name=None):
        if not isinstance(offset, timedelta):
            raise TypeError("offset must be a timedelta")
        if not (-86400 < offset.total < 86400):
            raise ValueError("offset must be strictly between -24h and 24h")
        self.offset = offset

    def utcoffset(self, dt):
        return self.offset

    def __eq__(self, other):
        return isinstance(other, timezone) and self.offset == other.offset

    def __hash__(self):
        return hash(self.offset)


timezone.utc = timezone(timedelta(0))
UTC = timezone.utc


def check_date(year, month, day):
    if not 1 <= year <= 9999:
        raise ValueError("year out of range")
    if not 1 <= month <= 12:
        raise ValueError("month must be in 1..12")
    if not 1 <= day <= 28:
        if not 1 <= day <= 31:
            raise ValueError("day is out of range for month")
        if month == 2:
            if day > 29 or not leap(year):
                raise ValueError("day is out of range for month")
        elif day == 31 and (month == 4 or month == 6 or month == 9 or month == 11):
            raise ValueError("day is out of range for month")


def check_time(hour, minute, second, microsecond):
    if not 0 <= hour <= 23:
        raise ValueError("hour must be in 0..23")
    if not 0 <= minute <= 59:
        raise ValueError("minute must be in 0..59")
    if not 0 <= second <= 59:
        raise ValueError("second must be in 0..59")
    if not 0 <= microsecond <= 999999:
        raise ValueError("microsecond must be in 0..999999")


def lex(a, b):
    """-1, 0, 1"""
    for x, y in zip(a, b):
        if x < y:
            return -1
        if x > y:
            return 1
    return 0


class _Ordered:
    def __lt__(self, other):
        return lex(self.key(), other.key()) < 0

    def __le__(self, other):
        return lex(self.key(), other.key()) <= 0

    def __gt__(self, other):
        return lex(self.key(), other.key()) > 0

    def __ge__(self, other):
        return lex(self.key(), other.key()) >= 0

    def __eq__(self, other):
        return isinstance(other, _Ordered) and lex(self.key(), other.key()) == 0

    def __hash__(self):
        return hash(self.key())


class date(_Ordered):
    def __init__(self, year, month, day):
        check_date(year, month, day)
        self.year, self.month, self.day = year, month, day

    def key(self):
        return (self.year, self.month, self.day)

    def weekday(self):
        return weekday_of(self.year, self.month, self.day)

    def isoweekday(self):
        return self.weekday() + 1

    def replace(self, year=None, month=None, day=None):
        return date(self.year if year is None else year, self.month if month is None else month, self.day if day is None else day)

    @classmethod
    def today(cls):
        return cls(2020, 1, 1)


class time(_Ordered):
    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        check_time(hour, minute, second, microsecond)
        self.hour, self.minute, self.second, self.microsecond, self.tzinfo = hour, minute, second, microsecond, tzinfo

    def key(self):
        return (self.hour, self.minute, self.second, self.microsecond)

    def replace(self, hour=None, minute=None, second=None, microsecond=None):
        return time(self.hour if hour is None else hour, self.minute if minute is None else minute,
                    self.second if second is None else second, self.microsecond if microsecond is None else microsecond, self.tzinfo)


class datetime(date):
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        check_date(year, month, day)
        check_time(hour, minute, second, microsecond)
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second, self.microsecond, self.tzinfo = hour, minute, second, microsecond, tzinfo

    def key(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond)

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(self)

    def date(self):
        return date(self.year, self.month, self.day)

    def time(self):
        return time(self.hour, self.minute, self.second, self.microsecond)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True):
        return datetime(self.year if year is None else year, self.month if month is None else month, self.day if day is None else day,
                        self.hour if hour is None else hour, self.minute if minute is None else minute,
                        self.second if second is None else second, self.microsecond if microsecond is None else microsecond,
                        self.tzinfo if tzinfo is True else tzinfo)

    @classmethod
    def now(cls, tz=None):
        return cls(2020, 1, 1, tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls(2020, 1, 1)
'''

DATES = '''
import datetime
from DLMS_SPODES.types import cdt, cst

TYPES = {"DateTime": (cdt.DateTime, 12, 0, 5, b"\\x19"), "Date": (cdt.Date, 5, 0, None, b"\\x1a"), "Time": (cdt.Time, 4, None, 0, b"\\x1b"),
         "OctetStringDateTime": (cst.OctetStringDateTime, 12, 0, 5, b"\\x09\\x0c"), "OctetStringDate": (cst.OctetStringDate, 5, 0, None, b"\\x09\\x05"),
         "OctetStringTime": (cst.OctetStringTime, 4, None, 0, b"\\x09\\x04")}


class Weekday:
    """the weekday of a day, as far as a program can tell"""
    value = 0

    def __call__(self, year, month, day):
        return self.value


WD = Weekday()
if hasattr(datetime, "WEEKDAYS"):
    datetime.WEEKDAYS["of"] = WD


def exists(year, month, day):
    """a date of the calendar that the fields name, wild ones chosen freely"""
    if day <= 28 or day >= 0xfd:
        return True
    if day > 31:
        return False
    if month > 12:
        return True
    if month == 2:
        if day > 29:
            return False
        return year == 0xffff or year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
    if month == 4 or month == 6 or month == 9 or month == 11:
        return day <= 30
    return True


def date_range(year, month, day, weekday):
    if not (1 <= month <= 12 or month >= 0xfd):
        return False
    if not (1 <= day <= 31 or day >= 0xfd):
        return False
    return 1 <= weekday <= 7 or weekday == 0xff


def date_valid(year, month, day, weekday, real):
    """fields the type must accept"""
    if not date_range(year, month, day, weekday):
        return False
    if not (1 <= year <= 9999 or year == 0xffff):
        return False
    if not exists(year, month, day):
        return False
    if weekday == 0xff or year == 0xffff or month >= 0xfd or day >= 0xfd:
        return True
    return weekday == real + 1


def time_valid(hour, minute, second, hundredths):
    if not (hour <= 23 or hour == 0xff):
        return False
    if not (minute <= 59 or minute == 0xff):
        return False
    if not (second <= 59 or second == 0xff):
        return False
    return hundredths <= 99 or hundredths == 0xff


def two(n):
    return bytes(n)


def date_octets(name, real, year, month, day, weekday, concrete=False):
    WD.value = real
    cls, size, d, t, head = TYPES[name]
    raw = bytes(year) + bytes([month, day, weekday])
    year = year[0] * 256 + year[1]
    if month == 2 and day == 29 and not concrete:
        return                  # decided for listed years
    rest = b"" if t is None else b"\\xff\\xff\\xff\\xff\\x80\\x00\\x00"
    st = outcome(cls, head + raw + rest)
    if not date_range(year, month, day, weekday):
        need(st[0] == "raise", "a date part outside its range is refused")
        return
    if date_valid(year, month, day, weekday, real):
        need(st[0] == "ok", "a valid date is accepted")
    if st[0] == "raise":
        return
    v = st[1]
    same(v.contents, raw + rest, "contents")
    if year == 0xffff:
        need(v.year is None, "an unspecified year reads None")
    else:
        same(v.year, year, "year")
    if month == 0xff:
        need(v.month is None, "an unspecified month reads None")
    elif month <= 12:
        same(v.month, month, "month")
    if day == 0xff:
        need(v.day is None, "an unspecified day reads None")
    elif day <= 31:
        same(v.day, day, "day")
    if weekday == 0xff:
        need(v.weekday is None, "an unspecified weekday reads None")
    else:
        same(v.weekday, weekday, "weekday")
    if year == 0xffff and month == 2 and day == 29:
        return                  # see every_29_february
    p = v.decode()
    same((p.year, p.month, p.day), (1 if year == 0xffff else year, 1 if month >= 0xfd else month, 1 if day >= 0xfd else day), "decoded date")


def every_29_february(name):
    WD.value = 0
    cls, size, d, t, head = TYPES[name]
    v = cls(head + b"\\xff\\xff\\x02\\x1d\\xff" + (b"" if t is None else b"\\xff\\xff\\xff\\xff\\x80\\x00\\x00"))
    p = v.decode()
    same((p.month, p.day), (2, 29), "decoded month and day")


def time_octets(name, hour, minute, second, hundredths):
    WD.value = 0
    cls, size, d, t, head = TYPES[name]
    raw = bytes([hour, minute, second, hundredths])
    first = b"" if d is None else b"\\xff\\xff\\xff\\xff\\xff"
    rest = b"" if d is None else b"\\x80\\x00\\xff"
    st = outcome(cls, head + first + raw + rest)
    if not time_valid(hour, minute, second, hundredths):
        need(st[0] == "raise", "a time part outside its range is refused")
        return
    need(st[0] == "ok", "a valid time is accepted")
    v = st[1]
    same(v.contents, first + raw + rest, "contents")
    for got, want, what in ((v.hour, hour, "hour"), (v.minute, minute, "minute"), (v.second, second, "second"), (v.hundredths, hundredths, "hundredths")):
        if want == 0xff:
            need(got is None, "an unspecified " + what + " reads None")
        else:
            same(got, want, what)
    p = v.decode()
    same((p.hour, p.minute, p.second, p.microsecond), (0 if hour == 0xff else hour, 0 if minute == 0xff else minute, 0 if second == 0xff else second,
                                                      0 if hundredths == 0xff else hundredths * 10000), "decoded time")


def zone(name, deviation, status):
    """the deviation and clock status octets"""
    WD.value = 0
    cls, size, d, t, head = TYPES[name]
    raw = b"\\x07\\xe4\\x05\\x06\\xff\\x0a\\x0b\\x0c\\x0d" + deviation.to_bytes(2, "big", signed=True) + bytes([status])
    v = cls(head + raw)
    same(v.contents, raw, "contents")
    if deviation == -0x8000:
        need(v.time_zone is None, "an unspecified deviation gives no time zone")
    elif -720 <= deviation <= 720:
        z = v.time_zone
        need(z is not None, "a deviation gives a time zone")
        same(z.utcoffset(None).total_seconds(), deviation * 60, "offset of the time zone")
        p = v.decode()
        same(p.utcoffset().total_seconds(), deviation * 60, "offset of the decoded date and time")
    else:
        need(outcome(lambda: v.time_zone)[0] == "raise", "a deviation outside -720..720 gives no time zone")


def status(name, old, new):
    WD.value = 0
    cls, size, d, t, head = TYPES[name]
    raw = b"\\x07\\xe4\\x05\\x06\\xff\\x0a\\x0b\\x0c\\x0d\\x00\\x3c"
    v = cls(head + raw + bytes([old]))
    st = outcome(v.set_clock_status, new)
    if 0 <= new <= 255:
        need(st[0] == "ok", "a clock status of one octet is accepted")
        same(v.contents, raw + bytes([new]), "contents after setting the clock status")
    else:
        need(st[0] == "raise", "a clock status beyond one octet is refused")
        same(v.contents, raw + bytes([old]), "contents after a refused clock status")


SETTERS = {"year": (0, 2), "month": (2, 1), "day": (3, 1), "weekday": (4, 1), "hour": (0, 1), "minute": (1, 1), "second": (2, 1), "hundredths": (3, 1)}


def set_date(name, part, real, year, month, day, weekday, value):
    WD.value = real
    cls, size, d, t, head = TYPES[name]
    rest = b"" if t is None else b"\\x0a\\x0b\\x0c\\x0d\\x00\\x3c\\x80"
    raw = two(year) + bytes([month, day, weekday])
    year = year[0] * 256 + year[1]
    if (month == 2 or part == "month" and value == 2) and (day == 29 or part == "day" and value == 29):
        return
    st = outcome(cls, head + raw + rest)
    if st[0] == "raise":
        return
    v = st[1]
    st = outcome(getattr(v, "set_" + part), value)
    new = {"year": year, "month": month, "day": day, "weekday": weekday}
    new[part] = value
    if part == "year":
        inside = 0 <= value <= 0xffff
    else:
        inside = 0 <= value <= 0xff
    ok = inside and date_range(new["year"], new["month"], new["day"], new["weekday"])
    if not ok:
        need(st[0] == "raise", "a " + part + " outside its range is refused")
    elif date_valid(new["year"], new["month"], new["day"], new["weekday"], real):
        need(st[0] == "ok", "a valid " + part + " is accepted")
    if st[0] == "ok":
        same(v.contents, new["year"].to_bytes(2, "big") + bytes([new["month"], new["day"], new["weekday"]]) + rest, "contents after setting the " + part)
    else:
        same(v.contents, raw + rest, "contents after a refused " + part)


def set_time(name, part, hour, minute, second, hundredths, value):
    WD.value = 0
    cls, size, d, t, head = TYPES[name]
    first = b"" if d is None else b"\\x07\\xe4\\x05\\x06\\xff"
    rest = b"" if d is None else b"\\x00\\x3c\\x80"
    raw = bytes([hour, minute, second, hundredths])
    st = outcome(cls, head + first + raw + rest)
    if st[0] == "raise":
        return
    v = st[1]
    st = outcome(getattr(v, "set_" + part), value)
    new = {"hour": hour, "minute": minute, "second": second, "hundredths": hundredths}
    new[part] = value
    if 0 <= value <= 255 and time_valid(new["hour"], new["minute"], new["second"], new["hundredths"]):
        need(st[0] == "ok", "a valid " + part + " is accepted")
        same(v.contents, first + bytes([new["hour"], new["minute"], new["second"], new["hundredths"]]) + rest, "contents after setting the " + part)
    else:
        need(st[0] == "raise", "a " + part + " outside its range is refused")
        same(v.contents, first + raw + rest, "contents after a refused " + part)


def from_moment(name, real, year, month, day, hour, minute, second, micro, offset):
    """a value built from a point of time of the standard library"""
    WD.value = real
    cls, size, d, t, head = TYPES[name]
    zone = None if offset is None else datetime.timezone(datetime.timedelta(minutes=offset))
    p = datetime.datetime(year, month, day, hour, minute, second, micro, tzinfo=zone)
    v = cls(p)
    if d is not None:
        same((v.year, v.month, v.day), (year, month, day), "date parts")
        need(v.weekday is None or v.weekday == real + 1, "weekday is that of the day or unspecified")
    if t is not None:
        same((v.hour, v.minute, v.second, v.hundredths), (hour, minute, second, micro // 10000), "time parts")
    if size == 12:
        dev = b"\\x80\\x00" if offset is None else offset.to_bytes(2, "big", signed=True)
        same(v.contents[9:11], dev, "deviation octets")


def from_date(name, real, year, month, day):
    WD.value = real
    cls, size, d, t, head = TYPES[name]
    v = cls(datetime.date(year, month, day))
    same((v.year, v.month, v.day), (year, month, day), "date parts")
    need(v.weekday is None or v.weekday == real + 1, "weekday is that of the day or unspecified")
    if t is not None:
        need(v.hour is None and v.minute is None and v.second is None and v.hundredths is None, "the time of a date is unspecified")
        same(v.contents[9:11], b"\\x80\\x00", "the deviation of a date is unspecified")


def from_time(name, hour, minute, second, micro):
    cls, size, d, t, head = TYPES[name]
    v = cls(datetime.time(hour, minute, second, micro))
    same((v.hour, v.minute, v.second, v.hundredths), (hour, minute, second, micro // 10000), "time parts")
    if d is not None:
        need(v.year is None and v.month is None and v.day is None and v.weekday is None, "the date of a time is unspecified")
        same(v.contents[9:11], b"\\x80\\x00", "the deviation of a time is unspecified")


def text(name, raw):
    WD.value = 2
    cls, size, d, t, head = TYPES[name]
    v = cls(head + raw)
    w = cls(str(v))
    same(w.contents, raw, "contents read back from the text form")


def written(name, text, raw):
    WD.value = 2
    cls, size, d, t, head = TYPES[name]
    same(cls(text).contents, raw, "octets of the written parts")


def unwritten(name, text):
    cls, size, d, t, head = TYPES[name]
    refuse("text of an impossible part", cls, text)


def other_size(name, raw):
    cls, size, d, t, head = TYPES[name]
    refuse("contents of another size", cls, bytearray(raw))
'''


YEARS = tuple(divmod(y, 256) for y in (1, 4, 100, 256, 257, 400, 1900, 1999, 2000, 2023, 2024, 2100, 2400, 9996, 9999, 65535))


def check_C19(ck):
    ck.I.virtual = dict(ck.I.virtual, datetime=DATETIME)
    w = ck.witness(DATES)
    for name in ("DateTime", "Date", "Time", "OctetStringDateTime", "OctetStringDate", "OctetStringTime"):
        cls = ck.anchor("types.common_data_types" if not name.startswith("Octet") else "types.cosem_service_types", name)
        hasd, hast = "Date" in name, "Time" in name
        full = hasd and hast
        dparts = lambda I: (I.in_int("real weekday", 0, 6), (I.in_int("year high", 0, 255), I.in_int("year low", 0, 255)), I.in_int("month", 0, 255), I.in_int("day", 0, 255), I.in_int("weekday", 0, 255))
        # the service types inherit the setters: in the quick tier their date has one year, and one month for every day
        own = ck.thorough or not name.startswith("Octet")
        oneyear = lambda I: (I.in_int("real weekday", 0, 6), (7, 0xe7), I.in_choice("month", (1, 2, 4, 0xfe, 0xff)), I.in_int("day", 0, 255), I.in_int("weekday", 0, 255))
        tparts = lambda I: (I.in_int("hour", 0, 255), I.in_int("minute", 0, 255), I.in_int("second", 0, 255), I.in_int("hundredths", 0, 255))
        if hasd:
            ck.claim("date octets", name, w, "date_octets", lambda I: (name,) + dparts(I), where=cls)
            ck.claim("29 February", name, w, "date_octets", lambda I: (name, I.in_int("real weekday", 0, 6), I.in_choice("year", YEARS), 2, 29, I.in_int("weekday", 0, 255), True), where=cls)
            ck.claim("decode", name + " of 29 February in any year", w, "every_29_february", lambda I: (name,), where=cls)
            for part in ("year", "month", "day", "weekday"):
                ck.claim("set", name + "." + part, w, "set_date", lambda I: (name, part) + (dparts(I) if own else oneyear(I)) + (I.in_int("value"),), where=cls)
        if hast:
            ck.claim("time octets", name, w, "time_octets", lambda I: (name,) + tparts(I), where=cls)
            for part in ("hour", "minute", "hundredths"):
                ck.claim("set", name + "." + part, w, "set_time", lambda I: (name, part) + tparts(I) + (I.in_int("value"),), where=cls)
        if full:
            ck.claim("deviation", name, w, "zone", lambda I: (name, I.in_int("deviation", -0x8000, 0x7fff), I.in_byte("status")), where=cls)
            ck.claim("set", name + ".clock_status", w, "status", lambda I: (name, I.in_byte("old"), I.in_int("value")), where=cls)
            ck.claim("other size", name, w, "other_size", lambda I: (name, I.in_choice("octets", tuple((GOOD + bytes(5))[:n] for n in (0, 1, 5, 9, 10, 11, 13, 17)))), where=cls)
        moment = lambda I: (I.in_int("real weekday", 0, 6), I.in_int("year", 1, 9999), I.in_int("month", 1, 12), I.in_int("day", 1, 28))
        clock = lambda I: (I.in_int("hour", 0, 23), I.in_int("minute", 0, 59), I.in_int("second", 0, 59), I.in_int("microsecond", 0, 999999))
        ck.claim("from datetime", name, w, "from_moment", lambda I: (name,) + moment(I) + clock(I) +
                 ((I.in_int("offset", -720, 720) if I.in_choice("has offset", (False, True)) else None),), where=cls)
        if hasd:
            ck.claim("from date", name, w, "from_date", lambda I: (name,) + moment(I), where=cls)
        if hast:
            ck.claim("from time", name, w, "from_time", lambda I: (name,) + clock(I), where=cls)
        ck.claim("text", name, w, "text", lambda I: (name, I.in_choice("octets", texts(hasd, hast))), where=cls)
        if hasd != hast:
            forms, wrong = (DATE_FORMS, DATE_WRONG) if hasd else (TIME_FORMS, TIME_WRONG)
            ck.claim("written form", name, w, "written", lambda I: (name,) + I.in_choice("form", forms), where=cls)
            ck.claim("written form", name + ", impossible part", w, "unwritten", lambda I: (name, I.in_choice("text", wrong)), where=cls)


# text of the forms the parser documents: day, day.month, day.month.year with the weekday before or after; hour, hour:minute, hour:minute:second, minute:second.hundredths ...
DATE_FORMS = (("6", b"\xff\xff\xff\x06\xff"), ("31", b"\xff\xff\xff\x1f\xff"), ("6.5", b"\xff\xff\x05\x06\xff"), ("06.12", b"\xff\xff\x0c\x06\xff"),
              ("6.5.2020", b"\x07\xe4\x05\x06\xff"), ("6.5.20", b"\x07\xe4\x05\x06\xff"), ("6.5.1999", b"\x07\xcf\x05\x06\xff"), ("6.5-3", b"\xff\xff\x05\x06\x03"),
              ("3-6.5", b"\xff\xff\x05\x06\x03"), ("6.5.2020-3", b"\x07\xe4\x05\x06\x03"), ("3-6.5.2020", b"\x07\xe4\x05\x06\x03"), ("wed-6.5.2020", b"\x07\xe4\x05\x06\x03"),
              ("mon", b"\xff\xff\xff\xff\x01"), ("Tuesday", b"\xff\xff\xff\xff\x02"), ("We", b"\xff\xff\xff\xff\x03"), ("thu", b"\xff\xff\xff\xff\x04"), ("FR", b"\xff\xff\xff\xff\x05"),
              ("sa", b"\xff\xff\xff\xff\x06"), ("sunday", b"\xff\xff\xff\xff\x07"), ("last.5", b"\xff\xff\x05\xfe\xff"), ("penult.5.2020", b"\x07\xe4\x05\xfd\xff"),
              ("6.begin", b"\xff\xff\xfe\x06\xff"), ("6.end", b"\xff\xff\xfd\x06\xff"), ("_.5", b"\xff\xff\x05\xff\xff"), ("6._.____", b"\xff\xff\xff\x06\xff"))
DATE_WRONG = ("32", "0", "6.13", "6.0", "32.5", "0.5.2020", "6.5-8", "8-6.5", "6.5.20200", "6.5.x", "x.5", "6.x", "6.5-day", "nonday")
TIME_FORMS = (("7", b"\x07\xff\xff\xff"), ("23", b"\x17\xff\xff\xff"), ("7:8", b"\x07\x08\xff\xff"), ("07:08", b"\x07\x08\xff\xff"), ("9.10", b"\xff\xff\x09\x0a"), ("7:8:9", b"\x07\x08\x09\xff"),
              ("8:9.10", b"\xff\x08\x09\x0a"), ("7:8:9.10", b"\x07\x08\x09\x0a"), ("23:59:59.99", b"\x17\x3b\x3b\x63"), ("0:0:0.0", b"\x00\x00\x00\x00"), ("_:8", b"\xff\x08\xff\xff"),
              ("7:_:9", b"\x07\xff\x09\xff"), ("7:8:_.10", b"\x07\x08\xff\x0a"))
TIME_WRONG = ("24", "24:0", "7:60", "7:8:60", "7:8:9.100", "60.1", "x:8", "7:x", "7:8:x", "-1:0")
GOOD = b"\x07\xe4\x05\x06\xff\x0a\x0b\x0c\x0d\x00\x3c\x80"


def texts(hasd, hast):
    ds = [b"\x07\xe4\x05\x06\xff", b"\x07\xe4\x05\x06\x03", b"\xff\xff\x05\x06\xff", b"\xff\xff\xff\x06\xff", b"\xff\xff\xff\xff\xff", b"\xff\xff\xff\xff\x05",
          b"\xff\xff\xfe\xfe\xff", b"\x07\xe4\xfd\xfd\xff", b"\xff\xff\x0c\x1f\x07", b"\x00\x0c\x01\x01\xff", b"\x27\x0f\x0c\x1f\xff", b"\x07\xe4\xff\xff\x01"]
    ts = [b"\x0a\x0b\x0c\x0d", b"\x00\x00\x00\x00", b"\x17\x3b\x3b\x63", b"\xff\xff\xff\xff", b"\x0a\xff\xff\xff", b"\x0a\x0b\xff\xff", b"\x0a\x0b\x0c\xff", b"\xff\x0b\xff\xff",
          b"\xff\xff\x0c\xff", b"\x0a\x0b\xff\x05", b"\xff\xff\xff\x63"]
    zs = [b"\x80\x00", b"\x00\x00", b"\x00\x3c", b"\x02\xd0", b"\xff\xc4", b"\xfd\x30"]
    if not hast:
        return tuple(ds) + tuple(bytes((0x07, 0xe4, m, 6, 0xff)) for m in range(1, 13)) + tuple(bytes((0xff, 0xff, 5, d, 3)) for d in range(1, 32)) + \
            tuple(bytes((0xff, 0xff, 0xff, 6, n)) for n in range(1, 8)) + tuple(bytes(divmod(y, 256)) + b"\x05\x06\x03" for y in (1, 99, 100, 999, 1000, 1999, 2000, 2001, 2099, 2100, 9999))
    if not hasd:
        return tuple(ts) + tuple(bytes((h, 0, 0xff, 0xff)) for h in range(24)) + tuple(bytes((0xff, m, m, 0xff)) for m in range(60)) + tuple(bytes((1, 2, 3, f)) for f in range(100))
    return tuple(d + ts[0] + b"\x80\x00\xff" for d in ds) + tuple(ds[0] + t + b"\x80\x00\xff" for t in ts) + tuple(ds[1] + ts[2] + z + b"\xff" for z in zs) + \
        (ds[4] + ts[3] + zs[0] + b"\xff",)
