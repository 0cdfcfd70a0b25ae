"""C20, C21, C31, C36: logical names, versions, firmware files, media identifiers."""

VERSION = '''
from DLMS_SPODES.version import AppVersion


def lexless(a, b):
    for x, y in zip(a, b):
        if x < y:
            return True
        if x > y:
            return False
    return False


def key(v):
    return (v.major, v.minor, 0 if v.patch is None else 1, v.patch if v.patch is not None else 0, v.additional)


def parts(major, minor, patch, additional):
    v = AppVersion(major, minor, patch, additional)
    same(v.major, major, "major")
    same(v.minor, minor, "minor")
    if patch is None:
        need(v.patch is None, "patch is None")
    else:
        same(v.patch, patch, "patch")
    same(v.additional, additional, "additional")


def compare(a, b):
    x, y = AppVersion(*a), AppVersion(*b)
    kx, ky = key(x), key(y)
    eq, gt, ge, lt, le = x == y, x > y, x >= y, x < y, x <= y
    need((x == x) and not (x != x), "a version equals itself")
    need(eq == (kx == ky), "equality is equality of all parts")
    need((x != y) != eq, "!= is the opposite of ==")
    # the order of versions is by major, then minor, then patch
    if x.major != y.major:
        need(gt == (x.major > y.major), "major decides first")
    elif x.minor != y.minor:
        need(gt == (x.minor > y.minor), "minor decides second")
    elif x.patch is not None and y.patch is not None and x.patch != y.patch:
        need(gt == (x.patch > y.patch), "patch decides third")
    need(lt == (y > x), "x < y is y > x")
    need(le == (y >= x), "x <= y is y >= x")
    need(ge == (gt or eq), ">= is > or ==")
    need((1 if lt else 0) + (1 if gt else 0) + (1 if eq else 0) == 1, "exactly one of <, ==, > holds")
    if eq:
        need(hash(x) == hash(y), "equal versions have equal hashes")


def transitive(a, b, c):
    x, y, z = AppVersion(*a), AppVersion(*b), AppVersion(*c)
    if x > y and y > z:
        need(x > z, "> is transitive")


def text2(major, minor):
    t = str(major) + "." + str(minor)
    v = AppVersion.from_str(t)
    same(v.major, major, "major of the text")
    same(v.minor, minor, "minor of the text")
    need(v.patch is None, "a text of two numbers has no patch")
    same(str(v), t, "text of the parsed version")


def text3(major, minor, patch):
    t = str(major) + "." + str(minor) + "." + str(patch)
    v = AppVersion.from_str(t)
    same(v.major, major, "major of the text")
    same(v.minor, minor, "minor of the text")
    same(v.patch, patch, "patch of the text")
    same(v.additional, "", "additional part of the text")
    same(str(v), t, "text of the parsed version")


def printed(major, minor, patch):
    v = AppVersion(major, minor, patch)
    w = AppVersion.from_str(str(v))
    need(v == w, "a version parsed from its own text is equal")


def suffix(patch, extra):
    v = AppVersion.from_str("1.2." + patch + extra)
    same((v.major, v.minor), (1, 2), "major and minor of a version with a suffix")
    same(v.patch, int(patch) if patch else 0, "patch of a version with a suffix")
    same(v.additional, extra, "additional part of a version with a suffix")


def nonsense(t):
    v = AppVersion.from_str(t)
    same((v.major, v.minor), (0, 0), "text that is no version gives 0.0")
    need(not v.patch, "text that is no version gives no patch")


def nearest(own, variants):
    me = AppVersion(*own)
    vs = [AppVersion(*a) for a in variants]
    r = me.select_nearest(vs)

    def rank(v):
        return (0, 0) if v.patch is None else (1, v.patch)
    fits = [v for v in vs if v.major == me.major and v.minor == me.minor and rank(v) <= rank(me)]
    if not fits:
        need(r is None, "without a version at or before the own one in its minor branch nothing is selected")
    else:
        need(r is not None, "a version at or before the own one in its minor branch is selected")
        need(any(r is v for v in vs), "the selected version is one of the variants")
        need(any(r is v for v in fits), "the selected version is in the minor branch and not after the own one")
        for v in fits:
            need(rank(v) <= rank(r), "no nearer version is left out")
'''


ADDITIONAL = ("", " ", "d", "D", "d1", "d10", "d2", "1", "-rc", "rc", "rc ", "\u0430")


def check_C21(ck):
    w = ck.witness(VERSION)
    cls = ck.anchor("version", "AppVersion")

    def ver(I, n, extra=("", "d1")):
        pt = I.in_choice("has patch " + n, (False, True))
        return (I.in_int("major " + n, 0, None), I.in_int("minor " + n, 0, None), I.in_int("patch " + n, 0, None) if pt else None,
                I.in_choice("additional " + n, extra))
    ck.claim("parts", "AppVersion", w, "parts", lambda I: ver(I, "a"), where=cls)
    ck.claim("order", "AppVersion pairs", w, "compare", lambda I: (ver(I, "a"), ver(I, "b")), where=cls)
    ck.claim("order", "AppVersion pairs of any additional text", w, "compare", lambda I: (
        (1, 2, I.in_choice("patch a", (None, 0, 3)), I.in_choice("additional a", ADDITIONAL)), (1, 2, I.in_choice("patch b", (None, 0, 3)), I.in_choice("additional b", ADDITIONAL))), where=cls)
    ck.claim("order-transitive", "AppVersion triples", w, "transitive", lambda I: tuple(ver(I, n, ("", "d1") if ck.thorough else ("",)) for n in "abc"), where=cls)
    ck.claim("text", "from_str major.minor", w, "text2", lambda I: (I.in_int("major", 0), I.in_int("minor", 0)), where=cls)
    ck.claim("text", "from_str major.minor.patch", w, "text3", lambda I: (I.in_int("major", 0), I.in_int("minor", 0), I.in_int("patch", 0)), where=cls)
    ck.claim("text", "from_str of str", w, "printed", lambda I: ver(I, "a")[:3], where=cls)
    ck.claim("text", "from_str with suffix", w, "suffix", lambda I: (I.in_choice("patch", ("", "0", "3", "17", "205")), I.in_choice("extra", ("d1", "-rc2", "rc", " beta 4", "b.7"))), where=cls)
    ck.claim("text", "from_str of other text", w, "nonsense", lambda I: (I.in_choice("text", ("", "1", "abc", "a.b", "1.b", "a.2", "a.2.3", "1.b.3", "..", "-1.2", "1.-2.3")),), where=cls)
    n = 3 if ck.thorough else 2
    for k in range(0, n + 1):
        ck.claim("select-nearest", "%d variants" % k, w, "nearest",
                 lambda I, k=k: (ver(I, "own", ("",)), [ver(I, "v%d" % i, ("",)) for i in range(k)]), where=cls)


LOGICAL_NAME = '''
from DLMS_SPODES.types import cst, cdt, ut
from DLMS_SPODES.types.cosemObjectInstanceId import CosemObjectInstanceId
from DLMS_SPODES.cosem_interface_classes import collection


def text_of(g):
    return ".".join(map(str, g))


def octets(raw):
    ln = cst.LogicalName(bytearray(raw))
    same(ln.contents, raw, "contents")
    same((ln.a, ln.b, ln.c, ln.d, ln.e, ln.f), tuple(raw), "value groups A..F")
    same(str(ln), text_of(raw), "text of the name")
    same(cst.LogicalName(str(ln)).contents, raw, "octets of the text of the name")
    same(ln.encoding, bytes([9, 6]) + raw, "encoding")
    same(cst.LogicalName(ln.encoding).contents, raw, "octets of the encoding of the name")


def instance(raw):
    i = CosemObjectInstanceId(raw)
    same(i.contents, raw, "contents of the instance id")
    same(str(i), text_of(raw), "text of the instance id")
    same(CosemObjectInstanceId.from_contents(raw).contents, raw, "instance id from contents")
    same(CosemObjectInstanceId.from_contents(raw + bytes([1, 2])).contents, raw, "instance id from contents with octets behind")
    same(CosemObjectInstanceId.from_str(text_of(raw)).contents, raw, "instance id from text")


def pair(x, y):
    a, b = cst.LogicalName(bytearray(x)), cst.LogicalName(bytearray(y))
    eq = x == y
    need((a == b) == eq, "names are equal exactly when their octets are")
    if eq:
        need(hash(a) == hash(b), "equal names have equal hashes")
    need((a < b) == (x < y), "names are ordered by their octets")


def from_text(ctor, g):
    same(ctor(text_of(g)).contents, bytes(list(g)), "octets of the text")


def completed(ctor, g):
    """a text that leaves out groups is completed with 0, group F with 255"""
    n = ctor(text_of(g))
    full = list(g) + [0] * (5 - len(g)) + [255]
    same(n.contents, bytes(full[:6]), "octets of a shortened text")


def refused_text(ctor, g):
    refuse("a text with a group outside 0..255", ctor, text_of(g))


def refused_words(ctor, t):
    refuse("the text " + t, ctor, t)


def refused_size(raw):
    refuse("a name of another size", cst.LogicalName, bytearray(raw))
    refuse("an instance id of another size", CosemObjectInstanceId, bytes(raw))


def refused_encoding(raw):
    refuse("the encoding of an octet string of another size", cst.LogicalName, bytes([9, len(raw)]) + raw)


def short_contents(raw):
    refuse("an instance id cut off", CosemObjectInstanceId.from_contents, bytes(raw))


def search_key(raw):
    key = collection.get_ln_contents
    ln = cst.LogicalName(bytearray(raw))
    same(key(raw), raw, "search key of octets")
    same(key(ln), raw, "search key of a logical name")
    same(key(text_of(raw)), raw, "search key of a text")
    i = CosemObjectInstanceId(raw)
    same(key(i), raw, "search key of an instance id")
    same(key(ut.CosemAttributeDescriptor(ut.CosemClassId(1), i, ut.CosemObjectAttributeId(2))), raw, "search key of an attribute descriptor")
    same(key(ut.CosemMethodDescriptor(ut.CosemClassId(1), i, ut.CosemObjectMethodId(2))), raw, "search key of a method descriptor")


ctors = (cst.LogicalName, CosemObjectInstanceId.from_str)
'''


def check_C20(ck):
    w = ck.witness(LOGICAL_NAME)
    ln = ck.anchor("types.cosem_service_types", "LogicalName")
    iid = ck.anchor("types.useful_types", "CosemObjectInstanceId")
    ctors = (("LogicalName", ln, 0), ("CosemObjectInstanceId.from_str", iid, 1))
    ck.claim("octets", "LogicalName", w, "octets", lambda I: (I.in_fixed("o", 6),), where=ln)
    ck.claim("octets", "CosemObjectInstanceId", w, "instance", lambda I: (I.in_fixed("o", 6),), where=iid)
    ck.claim("comparison", "LogicalName pairs", w, "pair", lambda I: (I.in_fixed("x", 6), I.in_fixed("y", 6)), where=ln)
    for name, cls, k in ctors:
        def ctor(I, k=k):
            return w.d["ctors"][k]
        ck.claim("text", name, w, "from_text", lambda I, c=ctor: (c(I), tuple(I.in_int("g%d" % i, 0, 255) for i in range(6))), where=cls)
        for n in range(1, 6):
            ck.claim("shortened-text", "%s, %d groups" % (name, n), w, "completed", lambda I, n=n, c=ctor: (c(I), tuple(I.in_int("g%d" % i, 0, 255) for i in range(n))), where=cls)
        for i in range(6):
            for side, lo, hi in (("below 0", None, -1), ("above 255", 256, None)):
                def inp(I, i=i, lo=lo, hi=hi, c=ctor):
                    return (c(I), tuple(I.in_int("g%d" % j, lo, hi) if j == i else I.in_int("g%d" % j, 0, 255) for j in range(6)))
                ck.claim("text-refused", "%s group %s %s" % (name, "ABCDEF"[i], side), w, "refused_text", inp, where=cls)
        ck.claim("text-refused", "%s seven groups" % name, w, "refused_text", lambda I, c=ctor: (c(I), tuple(I.in_int("g%d" % i, 0, 255) for i in range(7))), where=cls)
        ck.claim("text-refused", "%s words" % name, w, "refused_words",
                 lambda I, c=ctor: (c(I), I.in_choice("text", ("a.0.1.0.0.255", "0.0.1.x.0.255", "0.0.1.0.0.f", "0.0.1.8.255.1.2", "1,0,1,8,0,255", "0-0:1.0.0.255", "0.0.0x1.0.0.255", "1.5.2.3.4.5.6.7"))), where=cls)
    for n in (0, 1, 5, 7, 12):
        ck.claim("size", "%d octets" % n, w, "refused_size", lambda I, n=n: (I.in_fixed("o", n),), where=ln)
        ck.claim("size", "encoding of %d octets" % n, w, "refused_encoding", lambda I, n=n: (I.in_fixed("o", n),), where=ln)
    for n in (0, 1, 5):
        ck.claim("size", "contents of %d octets" % n, w, "short_contents", lambda I, n=n: (I.in_fixed("o", n),), where=iid)
    ck.claim("search-key", "collection.get_ln_contents", w, "search_key", lambda I: (I.in_fixed("o", 6),), where=ck.anchor("cosem_interface_classes.collection", "get_ln_contents"))


# stand-ins for what lies outside the package: the digest, the cipher and the file are arbitrary values of the analysis
STANDINS = {
    "hashlib": """
TABLE = []
SEEN = []


class Digest:
    def __init__(self, data=b""):
        self.data = bytes(data)

    def update(self, more):
        self.data = self.data + bytes(more)

    def digest(self):
        SEEN.append(self.data)
        for d, h in TABLE:
            if d == self.data:
                return h
        return TABLE[-1][1]


def sha256(data=b""):
    return Digest(data)


def new(name, data=b""):
    if name.lower().replace("-", "") != "sha256":
        raise ValueError("other digest")
    return Digest(data)
""",
    "pickle": """
CONTENT = []


def load(file):
    return CONTENT[0]


def loads(data):
    return CONTENT[0]
""",
    "Cryptodome.Util.Padding": """
def pad(data, n):
    return bytes(data) + bytes([n] * n)


def unpad(data, n):
    if len(data) < n or data[-1] != n:
        raise ValueError("Padding is incorrect.")
    return data[:-n]
""",
    "Cryptodome.Random": """
def get_random_bytes(n):
    return bytes(n)
""",
    "Cryptodome.Cipher.AES": """
MODE_CBC = 2
KEYS = []


class Cipher:
    def __init__(self, key):
        self.key = key

    def decrypt(self, data):
        # the key of this direction has its own random vector: the first block comes out as garbage
        return bytes([170] * 16) + data[16:]

    def encrypt(self, data):
        return data


def new(key, mode, *args, **kwargs):
    KEYS.append(key)
    if len(key) not in (16, 24, 32):
        raise ValueError("Incorrect AES key length (%d bytes)" % len(key))
    return Cipher(key)
""",
}

FIRMWARE = '''
from DLMS_SPODES import firmwares, config_parser
import hashlib
import pickle
from Cryptodome.Cipher import AES
from Cryptodome.Util.Padding import pad


class File:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self):
        return b""

    def close(self):
        pass


def fake_open(path, mode="r"):
    OPENED.append((path, mode))
    return File(path)


OPENED = []


def setup(entries, content=None, table=()):
    config_parser.config = {"DLMS": {"firmwares": entries}} if entries is not None else {"DLMS": {}}
    firmwares.open = fake_open
    hashlib.TABLE[:] = list(table)
    hashlib.SEEN[:] = []
    pickle.CONTENT[:] = [content]
    AES.KEYS[:] = []
    OPENED[:] = []


def opens(dummy, data, stored, digest):
    """digest is the SHA-256 of the data, stored is what the file holds"""
    setup(None, None, [(data, digest)])
    c = firmwares.init_cipher(bytes(16))
    st = outcome(firmwares.decrypt, c, pad(dummy + data + stored, 16))
    if stored == digest:
        need(st[0] == "ok", "data whose digest matches are delivered")
        same(st[1], data, "delivered data")
        need(all(x == data for x in hashlib.SEEN), "the digest is that of the delivered data")
    else:
        need(st[0] == "raise", "data whose digest does not match are refused")


def closes(data, digest):
    setup(None, None, [(data, digest)])
    c = firmwares.init_cipher(bytes(16))
    e = firmwares.encrypt(c, data)
    need(len(e) >= len(data) + 48, "the image holds dummy, data and digest")
    same(firmwares.decrypt(firmwares.init_cipher(bytes(16)), e), data, "decrypting gives back what was encrypted")


def entry(man, codec, value, path="fw.bin"):
    return {"man": man, "path": path, "key": {"codec": codec, "value": value}}


def unknown(man):
    setup([entry("KPZ", "ascii", "0123456789abcdef")], ("CryptoFirmware_1", {}, {}), [(b"", bytes(32))])
    need(firmwares.get_firmware(man) is None, "an unknown manufacturer has no firmware")
    need(not OPENED, "no file of another manufacturer is read")


def unconfigured(man):
    setup(None)
    need(firmwares.get_firmware(man) is None, "without a configuration there is no firmware")


def wrong_codec(codec):
    setup([entry("KPZ", codec, "0123456789abcdef")], ("CryptoFirmware_1", {}, {}), [(b"", bytes(32))])
    refuse("a key of an unknown codec", firmwares.get_firmware, b"KPZ")


def keys(order, which, d1, h1, d2, h2):
    """the key of the entry of the manufacturer is used, in its own codec"""
    if d1 == d2:
        return
    e = [entry("KPZ", "ascii", "0123456789abcdef", "a.bin"), entry("101", "hex", "000102030405060708090a0b0c0d0e0f", "b.bin")]
    if order:
        e = e[::-1]
    setup(e, ("CryptoFirmware_1", {(1, 2): pad(bytes(16) + d1 + h1, 16)}, {(3, 4): pad(bytes(16) + d2 + h2, 16)}), [(d1, h1), (d2, h2)])
    r = firmwares.get_firmware(which)
    if which == b"KPZ":
        key, path = b"0123456789abcdef", "a.bin"
    else:
        key, path = bytes(range(16)), "b.bin"
    need(AES.KEYS and all(k == key for k in AES.KEYS), "the key of the manufacturer is used")
    need([p for p, m in OPENED] == [path] and "b" in OPENED[0][1], "the file of the manufacturer is read")
    need(len(r) == 2, "images and boot loaders")
    same(list(r[0].keys()), [(1, 2)], "identifiers of the images")
    same(list(r[1].keys()), [(3, 4)], "identifiers of the boot loaders")
    same(r[0][(1, 2)], d1, "image")
    same(r[1][(3, 4)], d2, "boot loader")


def items(n, m, bad, data, digest, stored):
    """one item out of several may be damaged"""
    good = pad(bytes(16) + b"image" + bytes([7] * 32), 16)
    damaged = pad(bytes(16) + data + stored, 16)
    fw = {i: (damaged if i == bad else good) for i in range(n)}
    bt = {i: (damaged if n + i == bad else good) for i in range(m)}
    setup([entry("KPZ", "ascii", "0123456789abcdef")], ("CryptoFirmware_1", fw, bt), [(b"image", bytes([7] * 32)), (data, digest)])
    st = outcome(firmwares.get_firmware, b"KPZ")
    if stored == digest:
        need(st[0] == "ok", "intact files are delivered")
        for i in range(n):
            same(st[1][0][i], data if i == bad else b"image", "image of its identifier")
        for i in range(m):
            same(st[1][1][i], data if n + i == bad else b"image", "boot loader of its identifier")
        need(len(st[1][0]) == n and len(st[1][1]) == m, "every item is delivered")
    else:
        need(st == ("raise", "ValueError"), "a damaged item refuses the whole file with ValueError")


def foreign(name):
    setup([entry("KPZ", "ascii", "0123456789abcdef")], (name, {}, {}), [(b"", bytes(32))])
    need(outcome(firmwares.get_firmware, b"KPZ") == ("raise", "ValueError"), "a file of another kind is refused with ValueError")


def malformed(content):
    setup([entry("KPZ", "ascii", "0123456789abcdef")], content, [(b"", bytes(32))])
    need(outcome(firmwares.get_firmware, b"KPZ") == ("raise", "ValueError"), "a file of another shape is refused with ValueError")
'''


def check_C31(ck):
    ck.I.virtual = dict(ck.I.virtual, **STANDINS)
    w = ck.witness(FIRMWARE)
    dec, enc, get = (ck.anchor("firmwares", n) for n in ("decrypt", "encrypt", "get_firmware"))
    big = 1 << 32
    ck.claim("digest-decides", "decrypt, data of any size", w, "opens", lambda I: (I.in_fixed("dummy", 16), I.in_bytes("data", 0, big), I.in_fixed("stored", 32), I.in_fixed("digest", 32)), where=dec)
    for n in (0, 1, 15, 16, 17, 33):
        ck.claim("digest-decides", "decrypt, %d octets" % n, w, "opens", lambda I, n=n: (I.in_fixed("dummy", 16), I.in_fixed("data", n), I.in_fixed("stored", 32), I.in_fixed("digest", 32)), where=dec)
    ck.claim("inverse", "encrypt then decrypt", w, "closes", lambda I: (I.in_bytes("data", 0, big), I.in_fixed("digest", 32)), where=enc)
    ck.claim("unknown", "manufacturer", w, "unknown", lambda I: (I.in_choice("man", (b"", b"KP", b"KPZZ", b"kpz", b"101")),), where=get)
    ck.claim("unknown", "no configuration", w, "unconfigured", lambda I: (I.in_choice("man", (b"", b"KPZ")),), where=get)
    ck.claim("key", "unknown codec", w, "wrong_codec", lambda I: (I.in_choice("codec", ("", "base64", "utf-8", "HEX", "raw")),), where=get)
    ck.claim("key", "manufacturer's own entry", w, "keys", lambda I: (I.in_choice("order", (0, 1)), I.in_choice("which", (b"KPZ", b"101")), I.in_bytes("d1", 0, big), I.in_fixed("h1", 32), b"boot loader", bytes([9] * 32)), where=get)
    top = 3 if ck.thorough else 2
    for n in range(0, top + 1):
        for m in range(0, top + 1):
            for bad in range(n + m):
                ck.claim("every-item", "%d images, %d boot loaders, item %d" % (n, m, bad), w, "items",
                         lambda I, n=n, m=m, bad=bad: (n, m, bad, I.in_fixed("data", 6), I.in_fixed("digest", 32), I.in_fixed("stored", 32)), where=get)
    ck.claim("kind", "file name", w, "foreign", lambda I: (I.in_choice("name", ("CryptoFirmware", "Firmware_1", "_", "", "a_b_c", "cryptofirmware_1", "CryptoFirmware_1_2")),), where=get)
    ck.claim("kind", "file content", w, "malformed", lambda I: (I.in_choice("content", (None, 5, (), ("CryptoFirmware_1", {}), ("CryptoFirmware_1", 5, {}), ("CryptoFirmware_1", {1: None}, {}), (5, {}, {}))),), where=get)


MEDIA = '''
from DLMS_SPODES.obis import media_id as m
from DLMS_SPODES.cosem_interface_classes import collection
from DLMS_SPODES.types import cst

NAMES = {0: m.Abstract, 1: m.Electricity, 4: m.Hca, 5: m.Thermal, 6: m.Thermal, 7: m.Gas, 8: m.Water, 9: m.Water, 15: m.Other}


def table(value):
    x = m.MediaId.from_int(value)
    if value in NAMES:
        need(isinstance(x, NAMES[value]), "the medium the standard assigns to the value")
    else:
        need(isinstance(x, m.Reserved), "a value without a medium is reserved")
    for v, c in NAMES.items():
        if v != value and c is not NAMES.get(value):
            need(not isinstance(x, c), "no other medium")
    need(x == value, "a medium equals its own value")
    g = collection.get_media_id(cst.LogicalName(bytearray((value, 0, 1, 0, 0, 255))))
    need(type(g) is type(x), "the medium of a name is that of its group A")


def equal_values(a, b):
    x = m.MediaId.from_int(a)
    same_medium = a == b or (a in NAMES and b in NAMES and NAMES[a] is NAMES[b])
    need((x == b) == same_medium, "a medium equals exactly the values the standard gives it")
    y = m.MediaId.from_int(b)
    need(isinstance(y, type(x)) == (same_medium or (a not in NAMES and b not in NAMES)), "media are told apart by their class")
    if same_medium:
        need(hash(x) == hash(y), "the same medium has one hash")
    elif a in NAMES and b in NAMES:
        need(hash(x) != hash(y), "different media have different hashes")


def no_number(v):
    refuse("a medium of no number", m.MediaId.from_int, v)


def constants():
    for c, v in ((m.ABSTRACT, 0), (m.ELECTRICITY, 1), (m.HCA, 4), (m.THERMAL, 5), (m.THERMAL, 6), (m.GAS, 7), (m.WATER, 8), (m.WATER, 9), (m.OTHER_MEDIA, 15)):
        need(type(c) is NAMES[v], "the named medium is the one of its value")
        need(c == v, "the named medium equals its value")
        need(type(c) is type(m.MediaId.from_int(v)), "the named medium is the one the value maps to")
'''


def check_C36(ck):
    from absint import ClassVal, Obj
    w = ck.witness(MEDIA)
    mod = ck.mod("obis.media_id")
    cls = ck.anchor("obis.media_id", "MediaId")
    ck.claim("table", "MediaId.from_int", w, "table", lambda I: (I.in_int("value", 0, 255),), where=cls)
    ck.claim("equality", "MediaId pairs", w, "equal_values", lambda I: (I.in_int("a", 0, 255), I.in_int("b", 0, 255)), where=cls)
    ck.claim("table", "no number", w, "no_number", lambda I: (I.in_choice("value", (None, "1", b"\x01", ())),), where=cls)
    ck.claim("named", "media constants", w, "constants", where=cls)
    # every relation group has its own identity below its medium: the groups of one module are told apart by their hash only
    I = ck.I
    I.reset([])
    seen = {}
    groups = [(n, v) for n, v in mod.d.items() if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and n.isupper() and cls in v.cls.mro]
    top = {ck.anchor("obis.media_id", n) for n in ("Abstract", "Electricity", "Hca", "Thermal", "Gas", "Water", "Other", "Reserved")}
    for n, v in groups:
        bases = [c for c in v.cls.mro if c in top]
        ck.fact("one-medium", n, len(bases) == 1, "the group %s descends from %d media" % (n, len(bases)), v.cls)
        h = I.hash(v)
        ck.fact("hash-constant", n, isinstance(h, int), "the hash of %s is not a constant" % n, v.cls)
        if isinstance(h, int):
            o = seen.get(h)
            ck.fact("distinct-hash", n, o is None or o[1].cls is v.cls, "%s and %s share the hash %s" % (n, o and o[0], h), v.cls)
            seen.setdefault(h, (n, v))
    names = {}
    for n, v in groups:
        o = names.setdefault(v.cls, n)
        ck.fact("one-name", n, o == n, "%s and %s are one group" % (n, o), v.cls)
