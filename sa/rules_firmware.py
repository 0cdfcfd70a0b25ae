"""C50: the version of the active firmware against the version a collection was made for."""
from dom import byt

WITNESS = '''
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES.version import AppVersion
from DLMS_SPODES import exceptions as exc
from DLMS_SPODES.cosem_interface_classes import collection
from DLMS_SPODES.cosem_interface_classes.implementations import data


def identifier(c, b):
    o = c.add(ut.CosemClassId(1), cdt.Unsigned(0), cst.LogicalName(b"\\x09\\x06" + bytes([0, b, 0, 2, 1, 255])))
    return o


def encoded(text, tag):
    raw = text.encode("ascii")
    return bytes([tag, len(raw)]) + raw


def newer(read, known):
    """later by its major, minor, patch; a version without patch precedes the same one with a patch"""
    for i in (0, 1):
        if read[i] != known[i]:
            return read[i] > known[i]
    a = -1 if read[2] is None else read[2]
    b = -1 if known[2] is None else known[2]
    return a > b


def shown(v):
    return str(v[0]) + "." + str(v[1]) + ("" if v[2] is None else "." + str(v[2]))


def judged(c, f, read, known):
    r = outcome(f)
    need((r[0] == "raise") == (known is not None and newer(read, known)), "a firmware later than the version the collection is for is reported, no other")
    need(r[0] == "ok" or r[1] == "NeedUpdate", "reported as a need to update")


def first_value(b, read, known, others):
    """the identifier gets its first value"""
    c = collection.Collection()
    for i, v in others:
        c.set_server_ver(i, AppVersion(*v))
    if known is not None:
        c.set_server_ver(b, AppVersion(*known))
    o = identifier(c, b)
    need(isinstance(o, data.ActiveFirmwareId), "the identifier of the active firmware")
    need(o.logical_name.b == b, "instance of the firmware")
    judged(c, lambda: o.set_attr(2, encoded(shown(read), 9)), read, known)
    need((c.server_ver.get(b) is None) == (known is None) and len(c.server_ver) == len(others) + (known is not None), "the versions of the collection stay")


def later_value(b, first, second, known, way):
    """an identifier that has a value gets another"""
    c = collection.Collection()
    o = identifier(c, b)
    o.set_attr(2, encoded(shown(first), 9))
    c.set_server_ver(b, AppVersion(*known))
    if way == "attribute":
        judged(c, lambda: o.set_attr(2, encoded(shown(second), 9)), second, known)
    else:
        judged(c, lambda: o.value.set(cdt.OctetString(encoded(shown(second), 9))), second, known)
    need(o.value.contents == shown(second).encode("ascii"), "the identifier is the one read")
    judged(c, lambda: o.set_attr(2, encoded(shown(first), 9)), first, known)
    need(o.value.contents == shown(first).encode("ascii"), "the identifier is the one read")


def updated(b, read, known, update):
    """a collection of another version judges by that"""
    c = collection.Collection()
    o = identifier(c, b)
    c.set_server_ver(b, AppVersion(*known))
    judged(c, lambda: o.set_attr(2, encoded(shown(read), 9)), read, known)
    c.set_server_ver(b, AppVersion(*update), force=True)
    judged(c, lambda: o.set_attr(2, encoded(shown(read), 9)), read, update)
    c.clear_server_ver()
    need(len(c.server_ver) == 0, "no version")
    judged(c, lambda: o.set_attr(2, encoded(shown(read), 9)), read, None)


def two(b, other, read, known, known_other):
    """identifiers of two instances"""
    c = collection.Collection()
    x, y = identifier(c, b), identifier(c, other)
    c.set_server_ver(b, AppVersion(*known))
    c.set_server_ver(other, AppVersion(*known_other))
    judged(c, lambda: x.set_attr(2, encoded(shown(read), 9)), read, known)
    judged(c, lambda: y.set_attr(2, encoded(shown(read), 9)), read, known_other)


def nothing(text, known):
    """text that is no version is no later than any"""
    c = collection.Collection()
    c.set_server_ver(0, AppVersion(*known))
    o = identifier(c, 0)
    same(outcome(o.set_attr, 2, encoded(text, 9))[0], "ok", "a value that is no version")
'''


def check_C50(ck):
    w = ck.witness(WITNESS)
    A = ("cosem_interface_classes.implementations.data", "ActiveFirmwareId")
    h = ck.anchor(*A, "_ActiveFirmwareId__handle_value")
    r = ck.anchor(*A, "_ActiveFirmwareId__register_value_preset")
    nums = [0, 1, 9, 10, 255]
    patch = [None, 0, 3, 10, 65536]

    def ver(I, tag, n=nums, p=patch):
        return I.in_choice(tag + " major", n), I.in_choice(tag + " minor", n), I.in_choice(tag + " patch", p)

    few, fp = [1, 2, 10], [None, 2, 10]
    ck.claim("first", "no version known", w, "first_value", lambda I: (I.in_int("instance", 0, 64), ver(I, "read"), None, ()), where=h)
    for at in ("major", "minor", "patch"):
        ck.claim("first", "versions that may differ from the %s on" % at, w, "first_value",
                 lambda I, at=at: (0, (I.in_choice("read major", nums) if at == "major" else 1, I.in_choice("read minor", nums) if at != "patch" else 2, I.in_choice("read patch", patch if at != "major" else fp)),
                                   (I.in_choice("known major", nums) if at == "major" else 1, I.in_choice("known minor", few) if at != "patch" else 2, I.in_choice("known patch", patch if at == "patch" else fp[:2])), ()), where=h)
    ck.claim("first", "any instance beside others", w, "first_value", lambda I: (I.in_choice("instance", [0, 1, 2, 63, 64]), ver(I, "read", few[:2], fp), ver(I, "known", few[:2], fp[:2]), ((5, (0, 0, 0)), (6, (255, 0, 0)))), where=h)
    ck.claim("first", "versions of other instances only", w, "first_value", lambda I: (I.in_choice("instance", [0, 1, 2, 63, 64]), ver(I, "read", few, fp), None, ((5, (0, 0, 0)), (6, (255, 0, 0)))), where=h)
    for way in ("attribute", "value"):
        ck.claim("later", "another value by the %s" % way, w, "later_value", lambda I, way=way: (0, (I.in_choice("first major", few), 2, 3), (I.in_choice("second major", few), 2, I.in_choice("second patch", fp)), (2, 2, I.in_choice("known patch", fp)), way), where=r)
    ck.claim("later", "another version of the collection", w, "updated", lambda I: (0, (1, I.in_choice("minor", few), 3), (1, I.in_choice("known minor", few), 3), (1, I.in_choice("update minor", few), 3)), where=r)
    ck.claim("later", "two instances", w, "two", lambda I: (0, 1, (1, I.in_choice("minor", few), 3), (1, I.in_choice("known minor", few), 3), (1, I.in_choice("other minor", few), 3)), where=h)
    ck.claim("no version", "other text", w, "nothing", lambda I: (I.in_choice("text", ("", "abc", "7", "x.1.2", "v9.9.9", "9", "9.x")), ver(I, "known", [0, 1], [0, 1])), where=h)
