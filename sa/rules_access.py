"""C22: access rights of association LN, as the answers of the objects list and of the association."""

WITNESS = '''
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES import pdu_enums as pdu
from DLMS_SPODES.cosem_interface_classes.association_ln import ver0, ver1, ver2, mechanism_id
from DLMS_SPODES.cosem_interface_classes import collection

LN = b"\\x00\\x00\\x01\\x00\\x00\\xff"
OTHER = b"\\x00\\x00\\x0b\\x00\\x00\\xff"
THIRD = b"\\x00\\x00\\x0d\\x00\\x00\\xff"
READ = {0: False, 1: True, 2: False, 3: True, 4: "auth", 5: False, 6: "auth"}
WRITE = {0: False, 1: False, 2: True, 3: True, 4: False, 5: "auth", 6: "auth"}


def attr(i, mode):
    return b"\\x02\\x03\\x0f" + bytes([i]) + b"\\x16" + bytes([mode]) + b"\\x00"


def meth(i, mode, version):
    return b"\\x02\\x02\\x0f" + bytes([i]) + (b"\\x03" if version == 0 else b"\\x16") + bytes([mode])


def element(ln, attrs, meths, version):
    return (b"\\x02\\x04\\x12\\x00\\x08\\x11\\x00\\x09\\x06" + ln + b"\\x02\\x02\\x01" + bytes([len(attrs)]) + b"".join([attr(i, m) for i, m in attrs])
            + b"\\x01" + bytes([len(meths)]) + b"".join([meth(i, m, version) for i, m in meths]))


MODULES = {0: ver0, 1: ver1, 2: ver1}
CLASSES = {0: ver0.AssociationLN, 1: ver1.AssociationLN, 2: ver2.AssociationLN}


def listed(version, elements):
    return MODULES[version].ObjectListType(b"\\x01" + bytes([len(elements)]) + b"".join(elements))


def association(version, elements):
    o = CLASSES[version](b"\\x09\\x06\\x00\\x00\\x28\\x00\\x03\\xff")
    o.set_attr_link(2, listed(version, elements))
    return o


def name(ln):
    return cst.LogicalName(b"\\x09\\x06" + ln)


def mode_tables(version, mode):
    top = 3 if version == 0 else 6
    r = outcome(MODULES[version].AccessMode, mode)
    need((r[0] == "ok") == (mode <= top), "access modes 0..%d exist" % top)
    if mode <= top:
        need(r[1].is_readable() == (READ[mode] is not False), "readable by the access mode")
        need(r[1].is_writable() == (WRITE[mode] is not False), "writable by the access mode")


def policy_grants(kind, policy):
    if kind == 0:
        return policy in (1, 3)
    return policy & 0b100 != 0 or policy & 0b100000 != 0


def policy_of(kind, policy):
    return pdu.SecurityPolicyVer0(policy) if kind == 0 else pdu.SecurityPolicyVer1(policy)


def attribute(version, mode, others, kind, policy):
    """the entry is neither the first nor the last of its object, the object neither the first nor the last of the list; all others have other modes"""
    a, b = others
    els = [element(OTHER, [(1, a), (3, a)], [], version), element(LN, [(1, b), (2, a), (3, mode), (4, b)], [(3, 0)], version), element(THIRD, [(3, b)], [], version)]
    o = association(version, els)
    p = policy_of(kind, policy)
    auth = policy_grants(kind, policy)
    for answer, table, what in ((o.is_readable, READ, "readable"), (o.is_writable, WRITE, "writable")):
        got = answer(name(LN), 3, p)
        want = table[mode]
        need(got == (auth if want == "auth" else want), what + " by the mode and the policy")
    r, w = outcome(o.is_readable, name(LN), 3), outcome(o.is_writable, name(LN), 3)
    need(r[0] == "ok" and r[1] == (READ[mode] is True), "readable without security")
    need(w[0] == "ok" and w[1] == (WRITE[mode] is True), "writable without security")
    same(int(o.object_list.get_attr_access(name(LN), 3)), mode, "access of the attribute")
    need(o.object_list.is_writable(name(LN), {3}) == (WRITE[mode] is not False), "writable by the list")
    need(o.object_list.is_writable(name(LN), {3, 2}) == (WRITE[mode] is not False and WRITE[a] is not False), "two attributes writable by the list")


def unlisted(version, i, j):
    els = [element(OTHER, [(1, 3), (2, 3), (7, 3)], [(1, 1), (2, 1)], version), element(LN, [(1, 3), (2, 3), (3, 3)], [(1, 1)], version)]
    o = association(version, els)
    if i not in (1, 2, 3):
        for f in (o.is_readable, o.is_writable):
            need(refused(f, name(LN), i) or f(name(LN), i) is False, "no right for an attribute without an entry")
        need(refused(o.object_list.is_writable, name(LN), {i}) or o.object_list.is_writable(name(LN), {i}) is False, "not writable by the list without an entry")
        need(refused(o.object_list.is_writable, name(LN), {2, i}) or o.object_list.is_writable(name(LN), {2, i}) is False, "not writable by the list when one of two has no entry")
    if j != 1:
        need(refused(o.is_accessible, name(LN), j) or o.is_accessible(name(LN), j) is False, "no right for a method without an entry")
    for f in (o.is_readable, o.is_writable, o.is_accessible):
        need(refused(f, name(THIRD), 1) or f(name(THIRD), 1) is False, "no right on an object that is not listed")


def no_list(version):
    o = CLASSES[version](b"\\x09\\x06\\x00\\x00\\x28\\x00\\x03\\xff")
    for f in (o.is_readable, o.is_writable, o.is_accessible):
        need(refused(f, name(LN), 1), "no right without an objects list")


def names(version, raw):
    """the name decides: an object whose name differs in any octet has its own rights"""
    els = [element(LN, [(2, 3)], [(1, 1)], version)]
    o = association(version, els)
    if raw == LN:
        need(o.is_readable(name(raw), 2) and o.is_writable(name(raw), 2) and o.is_accessible(name(raw), 1), "rights of the listed name")
    else:
        for f, i in ((o.is_readable, 2), (o.is_writable, 2), (o.is_accessible, 1)):
            need(refused(f, name(raw), i) or f(name(raw), i) is False, "no right on another name")


def method(version, mode, other, mechanism, use_own):
    els = [element(OTHER, [], [(2, other)], version), element(LN, [(2, other % 2)], [(1, other), (2, mode), (3, other)], version), element(THIRD, [], [(2, other)], version)]
    o = association(version, els)
    if use_own:
        n = (b"\\x09\\x07\\x60\\x85\\x74\\x05\\x08\\x02" + bytes([mechanism])) if version else (2, 16, 756, 5, 8, 2, mechanism)
        o.set_attr_link(6, o.get_attr_element(6).DATA_TYPE(n))
        got = o.is_accessible(name(LN), 2)
    else:
        got = o.is_accessible(name(LN), 2, mechanism_id.MechanismIdElement(mechanism))
    if mode == 2:
        need(got == (mechanism != 0), "authenticated access needs an authentication mechanism")
    else:
        need(got == (mode == 1), "access of the method")
    same(int(o.object_list.get_meth_access(name(LN), 2)), mode, "access of the method")


def saved(version, m):
    """what a collection reports as writable attributes is what the list grants"""
    c = collection.Collection()
    a = c.add(class_id=ut.CosemClassId(15), version=cdt.Unsigned(version), logical_name=name(b"\\x00\\x00\\x28\\x00\\x03\\xff"))
    a.set_attr_link(2, listed(version, [element(LN, [(1, 1), (2, m[0]), (3, m[1])], [], version), element(OTHER, [(2, m[2])], [], version)]))
    got = c.get_writable_attr()
    want = {}
    for ln, i, mode in ((LN, 2, m[0]), (LN, 3, m[1]), (OTHER, 2, m[2])):
        if WRITE[mode] is not False:
            want.setdefault(ln, set()).add(i)
    need(len(got) == len(want), "objects with writable attributes")
    for k in got:
        need(want.get(k.contents) == got[k], "writable attributes of an object")


def by_collection(version, mode, mode2):
    """the answer follows the objects list the association has now, of the collection asked"""
    def made(m):
        c = collection.Collection()
        a = c.add(class_id=ut.CosemClassId(15), version=cdt.Unsigned(version), logical_name=name(b"\\x00\\x00\\x28\\x00\\x03\\xff"))
        a.set_attr_link(2, listed(version, [element(LN, [(2, m)], [(1, m % 2)], version)]))
        return c, a

    def rights(c, m, what):
        need(c.is_readable(name(LN), 2, 3) == (READ[m] is True), "readable " + what)
        need(c.is_writable(name(LN), 2, 3) == (WRITE[m] is True), "writable " + what)
        need(c.is_accessible(name(LN), 1, 3) == (m % 2 == 1), "accessible " + what)

    c, a = made(mode)
    rights(c, mode, "by the collection")
    d, b = made(mode2)
    rights(d, mode2, "by another collection")
    a.set_attr_link(2, listed(version, [element(LN, [(2, mode2)], [(1, mode2 % 2)], version)]))
    rights(c, mode2, "after the list changed")
'''


def check_C22(ck):
    w = ck.witness(WITNESS)
    where = [ck.anchor("cosem_interface_classes.association_ln.ver%d" % v, "AssociationLN") for v in range(3)]
    for v in (0, 1):
        ck.claim("mode", "access modes of version %d" % v, w, "mode_tables", lambda I, v=v: (v, I.in_choice("mode", list(range(10)) + [0xff])), where=where[v])
    for v in (0, 1, 2):
        modes = list(range(4 if v == 0 else 7))
        for m in modes:
            for o in ((0, 3), (3, 0), (1, 2)) if v == 0 else ((0, 6), (3, 0), (2, 4), (5, 1)):
                ck.claim("attribute", "version %d, mode %d among modes %s, security policy of version 0" % (v, m, o), w, "attribute",
                         lambda I, v=v, m=m, o=o: (v, m, o, 0, I.in_choice("policy", [0, 1, 2, 3])), where=where[v])
            ck.claim("attribute", "version %d, mode %d, security policy of version 1" % (v, m), w, "attribute",
                     lambda I, v=v, m=m: (v, m, (3, 0), 1, I.in_choice("policy", [0] + [1 << k for k in range(8)] + [0b100100, 0b1000100, 0b1101100, 0xff, 0b11011011, 0b11011000])), where=where[v])
        ck.claim("unlisted", "version %d" % v, w, "unlisted", lambda I, v=v: (v, I.in_choice("attribute", [-1, 0, 1, 2, 3, 4, 5, 7, 127, 128, 255]), I.in_choice("method", [-1, 0, 1, 2, 3, 127, 255])),
                 where=where[v])
        ck.claim("unlisted", "version %d without an objects list" % v, w, "no_list", lambda I, v=v: (v,), where=where[v])
        ck.claim("unlisted", "version %d, names with other octets" % v, w, "names", lambda I, v=v: (v, I.in_fixed("octet", 6)), where=where[v])
        for m in (0, 1) if v == 0 else (0, 1, 2):
            for o in (0, 1) if v == 0 else (0, 1, 2):
                for own in (False, True):
                    ck.claim("method", "version %d, mode %d among mode %d, mechanism of the %s" % (v, m, o, "association" if own else "call"), w, "method",
                             lambda I, v=v, m=m, o=o, own=own: (v, m, o, I.in_choice("mechanism", list(range(8))), own), where=where[v])
        top = modes[-1]
        ck.claim("collection", "version %d, writable attributes" % v, w, "saved", lambda I, v=v, ms=modes: (v, ck.I.mklist([I.in_choice("mode%d" % i, ms) for i in range(3)])), where=where[v])
        ck.claim("collection", "version %d, current answers" % v, w, "by_collection", lambda I, v=v, ms=modes: (v, I.in_choice("mode", ms), I.in_choice("later mode", ms)), where=where[v])
