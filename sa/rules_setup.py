"""C44: link-setup objects, channel, address and status codes."""
from dom import byt

WITNESS = '''
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES import enums as enu
from DLMS_SPODES.types.implementations import double_long_usingneds as dlu, enums as impl_enums, bitstrings
from DLMS_SPODES.cosem_interface_classes import clock, disconnect_control
from DLMS_SPODES.cosem_interface_classes.iec_hdlc_setup import ver1 as hdlc_setup
from DLMS_SPODES.cosem_interface_classes.gsm_diagnostic import ver0 as gsm
from DLMS_SPODES.cosem_interface_classes.implementations import data as impl_data

# attribute: minimum, maximum, default of the standard
HDLC = {2: (0, 9, 5), 3: (1, 7, 1), 4: (1, 7, 1), 5: (32, 2030, 128), 6: (32, 2030, 128), 7: (20, 6000, 25)}
PARAMETERS = {5: 5, 6: 6, 7: 3, 8: 4}
BAUD = (300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200)


def setup():
    return hdlc_setup.IECHDLCSetup("0.0.22.0.0.255")


def number(h, i):
    return int(h.get_attr(i))


def defaults(i):
    h = setup()
    el = h.get_attr_element(i)
    lo, hi, d = HDLC[i]
    same(el.min, lo, "least value")
    same(el.max, hi, "greatest value")
    same(el.default, d, "default value")
    same(number(h, i), d, "a new object has the default")


OTHER = {3: 5, 4: 6, 5: 777, 6: 40}


def other():
    """a setup with parameters that are no defaults"""
    h = setup()
    for i in (3, 4, 5, 6):
        h.set_attr(i, OTHER[i])
    return h


def agreed(tags, values, widths):
    """the parameters of a response are taken over, each into its own attribute; those it does not name are the defaults"""
    h = other()
    body = b""
    for t, v, n in zip(tags, values, widths):
        body += bytes([t, n]) + v.to_bytes(n, "big")
    h.set_from_info(b"\\x81\\x80" + bytes([len(body)]) + body)
    want = {}
    for i in (3, 4, 5, 6):
        want[i] = HDLC[i][2]
    for t, v in zip(tags, values):
        want[PARAMETERS[t]] = v
    for i in (3, 4, 5, 6):
        same(number(h, i), want[i], "parameter %d" % i)
    for i, part in ((5, h.max_info_transmit), (6, h.max_info_receive)):
        need((part is None) == (want[i] == 128), "proposed when it is not the default")
        if part is not None:
            same(part, want[i].to_bytes(2, "big"), "octets of the proposal")
    for i, part in ((3, h.window_transmit), (4, h.window_receive)):
        need((part is None) == (want[i] == 1), "proposed when it is not the default")
        if part is not None:
            same(part, want[i].to_bytes(1, "big"), "octets of the proposal")
    h.set_from_info(b"")
    for i in (3, 4, 5, 6):
        same(number(h, i), HDLC[i][2], "a response without parameters agrees to the defaults")


def not_agreed(head, length, tag, value):
    """another header, another length or another parameter is refused"""
    h = other()
    body = bytes([tag, len(value)]) + value
    info = head + bytes([length]) + body
    good = head == b"\\x81\\x80" and length == len(body) and tag in (5, 6, 7, 8)
    if good:
        lo, hi, d = HDLC[PARAMETERS[tag]]
        good = lo <= int.from_bytes(value, "big") <= hi
    r = outcome(h.set_from_info, info)
    need((r[0] == "ok") == good, "a response of the standard's format")
    need(good or r[1] == "ValueError", "refused with ValueError")
    if not good:
        for i in (3, 4, 5, 6):
            same(number(h, i), OTHER[i], "nothing is taken over")


def whole(first, second, value, width):
    """one parameter out of range, unknown or cut short: nothing is taken over"""
    h = other()
    good = bytes([first, 1, 64 if first < 7 else 3])
    bad = bytes([second, 4]) + value.to_bytes(4, "big")
    body = good + bad[:width]
    fits = width == 6 and second in (5, 6, 7, 8)
    if fits:
        lo, hi, d = HDLC[PARAMETERS[second]]
        fits = lo <= value <= hi
    r = outcome(h.set_from_info, b"\\x81\\x80" + bytes([len(body)]) + body)
    need((r[0] == "ok") == fits, "a response with parameters in range")
    if not fits:
        same(r[1], "ValueError", "refused with ValueError")
        for i in (3, 4, 5, 6):
            same(number(h, i), OTHER[i], "nothing is taken over")


def address(value):
    h = setup()
    h.set_attr(9, value)
    same(h.get_device_address(), None if value == 0 else value, "device address, 0 is none")


def baud(code):
    s = impl_enums.CommSpeed(code)
    same(s.decode(), BAUD[code], "baud rate of the code")
    same(impl_enums.CommSpeed(BAUD[code]).encoding, b"\\x16" + bytes([code]), "code of the baud rate")


def ip(octets):
    v = dlu.IPAddress(b"\\x06" + octets)
    same(str(v), ".".join([str(x) for x in octets]), "text of an address")


def ip_text(parts):
    text = ".".join([str(x) for x in parts])
    r = outcome(dlu.IPAddress, text)
    good = all([0 <= x <= 255 for x in parts])
    need((r[0] == "ok") == good, "four octets")
    if good:
        same(r[1].encoding, b"\\x06" + bytes(parts), "octets of the text")
        same(str(r[1]), text, "text of the octets")
    else:
        need(r[1] == "ValueError", "refused with ValueError")


def channel(first, number, interface):
    """channel and interface of a port stay apart"""
    v = impl_data.ChannelNumberValue(first)
    same(int(v.channel), first & 7, "channel")
    same(int(v.interface), first >> 3, "interface")
    v.channel = enu.ChannelNumber(number)
    same(int(v), (first & 0xf8) | number, "another channel of the same interface")
    v = impl_data.ChannelNumberValue(first)
    v.interface = enu.Interface(interface)
    same(int(v), (first & 7) | (interface << 3), "the same channel of another interface")
    v.channel = enu.ChannelNumber(number)
    same(int(v), number | (interface << 3), "both")


def seals(value):
    """cover in the two low bits, cover of the terminals in the next two"""
    v = impl_data.SealUnsigned(value)
    t = v.get_report()
    for k in range(4):
        u = impl_data.SealUnsigned((value & 0b11110011) | (k << 2))
        need((u.get_report() == t) == (k == value >> 2 & 3), "the state of the terminals' seal is told apart")
        u = impl_data.SealUnsigned((value & 0b11111100) | k)
        need((u.get_report() == t) == (k == value & 3), "the state of the cover's seal is told apart")
    need(impl_data.SealUnsigned(value & 0b1111).get_report() == t, "other bits say nothing")


FLAGS = ((0x01, "invalid value"), (0x02, "doubtful value"), (0x04, "different clock base"), (0x08, "invalid clock status"), (0x80, "daylight saving active"))


def status(value):
    text = str(clock.ClockStatus(value))
    some = False
    for bit, t in FLAGS:
        need((t in text) == (value & bit != 0), t)
        some = some or value & bit != 0
    need((text == "empty") == (not some), "empty when no flag is set")


def signal(value):
    text = gsm.SignalQuality(value).get_report()
    if value < 31 and value > 0:
        need((str(-113 + 2 * value) in text or ("%d" % (113 - 2 * value)) in text) and "(%d)" % value in text, "signal strength of the standard's scale")
    elif value == 0:
        need("113 dBm" in text and "(0)" in text, "-113 dBm or less")
    elif value == 31:
        need("51 dBm" in text and "(31)" in text, "-51 dBm or greater")
    elif value == 99:
        need("dBm" not in text and "wrong" not in text, "not known")
    else:
        need("dBm" not in text and "wrong" in text, "no value of the scale")


LETTERS = {0: "", 1: "bcfgde", 2: "bcfgae", 3: "bcgde", 4: "bcgae", 5: "bcfgdeh", 6: "bcgdeh"}


def mode(value):
    r = outcome(disconnect_control.ControlMode, value)
    need((r[0] == "ok") == (value in LETTERS or 129 <= value <= 134), "modes declared")
    if value in LETTERS:
        same(sorted(r[1].get_letters()), sorted(LETTERS[value]), "transitions of the mode")


def output(value):
    on = str(disconnect_control.OutputState(b"\\x03\\x01"))
    off = str(disconnect_control.OutputState(b"\\x03\\x00"))
    need(on != off, "told apart")
    need(str(disconnect_control.OutputState(b"\\x03" + bytes([value]))) == (off if value == 0 else on), "connected unless 0")


PERIODS = (1, 2, 3, 5, 10, 15, 20, 30, 60)


def period(value):
    r = outcome(impl_data.SPODES3MeasurementPeriodValue, value)
    need((r[0] == "ok") == (value in PERIODS), "measurement periods that divide an hour as the standard lists them")
'''


def check_C44(ck):
    w = ck.witness(WITNESS)
    H = ("cosem_interface_classes.iec_hdlc_setup.ver1", "IECHDLCSetup")
    neg = ck.anchor(*H, "set_from_info")
    cls = ck.anchor(*H)
    for i, n in ((2, "communication speed"), (3, "window transmit"), (4, "window receive"), (5, "information field transmit"), (6, "information field receive"), (7, "inter-octet time-out")):
        ck.claim("default", n, w, "defaults", lambda I, i=i: (i,), where=cls)
    width = {5: 2, 6: 2, 7: 4, 8: 4}

    def value(I, t, n):
        return I.in_int("parameter %d" % t, 32, 2030 if n > 1 else 255) if t in (5, 6) else I.in_int("window %d" % t, 1, 7)
    for tags in ((), (5,), (6,), (7,), (8,), (5, 6), (7, 8), (5, 6, 7, 8), (8, 7, 6, 5)):
        ck.claim("agreed", "parameters %s" % (", ".join("%02x" % t for t in tags) or "none"), w, "agreed", lambda I, tags=tags: (tags, tuple(value(I, t, width[t]) for t in tags), tuple(width[t] for t in tags)), where=neg)
    for t in (5, 6, 7, 8):
        for n in (1, 2, 4):
            if n != width[t]:
                ck.claim("agreed", "parameter %02x of %d octets" % (t, n), w, "agreed", lambda I, t=t, n=n: ((t,), (value(I, t, n),), (n,)), where=neg)
        for u in (5, 6, 7, 8, 9):
            edge = [0, 31, 32, 2030, 2031, 65536 + 64, 1 << 31] if u in (5, 6) else [0, 1, 7, 8, 256 + 3]
            ck.claim("whole", "parameter %02x, then %02x" % (t, u), w, "whole", lambda I, t=t, u=u, edge=edge: (t, u, I.in_choice("value", edge), I.in_choice("octets present", [1, 2, 3, 5, 6])), where=neg)
    ck.claim("refused", "another header", w, "not_agreed", lambda I: (byt([I.in_byte("header 0"), I.in_byte("header 1")]), 4, 5, byt([0, I.in_byte("value")])), where=neg)
    ck.claim("refused", "another length", w, "not_agreed", lambda I: (byt([0x81, 0x80]), I.in_byte("length"), 5, byt([0, I.in_byte("value")])), where=neg)
    ck.claim("refused", "another parameter", w, "not_agreed", lambda I: (byt([0x81, 0x80]), 3, I.in_byte("parameter"), byt([I.in_int("value", 1, 7)])), where=neg)
    ck.claim("address", "device address", w, "address", lambda I: (I.in_int("address", 0, 65535),), where=ck.anchor(*H, "get_device_address"))
    ck.claim("speed", "baud rates", w, "baud", lambda I: (I.in_choice("code", list(range(10))),), where=ck.anchor("types.implementations.enums", "CommSpeed"))
    ipa = ck.anchor("types.implementations.double_long_usingneds", "IPAddress")
    ck.claim("ip", "text of every address", w, "ip", lambda I: (byt([I.in_byte("octet %d" % i) for i in range(4)]),), where=ipa)
    for i in range(4):
        ck.claim("ip", "address from text, any part %d" % i, w, "ip_text", lambda I, i=i: (tuple(I.in_int("part", 0, 300) if k == i else (10, 0, 255, 7)[k] for k in range(4)),), where=ipa)
    D = "cosem_interface_classes.implementations.data"
    ck.claim("channel", "port parameter", w, "channel", lambda I: (I.in_choice("value", [0, 1, 7, 8, 9, 15, 18, 27, 37, 46, 63, 64, 85, 106, 120, 127] if not ck.thorough else list(range(128))), I.in_int("channel", 0, 7), I.in_int("interface", 0, 15)),
             where=ck.anchor(D, "ChannelNumberValue"))
    ck.claim("seal", "seals of cover and terminals", w, "seals", lambda I: (I.in_choice("value", list(range(16)) + [16, 37, 90, 255]),), where=ck.anchor(D, "SealUnsigned"))
    ck.claim("status", "clock status", w, "status", lambda I: (I.in_byte("status"),), where=ck.anchor("cosem_interface_classes.clock", "ClockStatus"))
    ck.claim("signal", "signal quality", w, "signal", lambda I: (I.in_choice("value", list(range(34)) + [98, 99, 100, 255]),), where=ck.anchor("cosem_interface_classes.gsm_diagnostic.ver0", "SignalQuality"))
    ck.claim("mode", "control modes", w, "mode", lambda I: (I.in_int("mode", 0, 255),), where=ck.anchor("cosem_interface_classes.disconnect_control", "ControlMode"))
    ck.claim("output", "output state", w, "output", lambda I: (I.in_byte("state"),), where=ck.anchor("cosem_interface_classes.disconnect_control", "OutputState"))
    ck.claim("period", "measurement period", w, "period", lambda I: (I.in_int("minutes", 0, 255),), where=ck.anchor(D, "SPODES3MeasurementPeriodValue"))
