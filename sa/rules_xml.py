"""C27: files of a collection, saved and read back. The document library is a model: elements with names, attributes and texts, and files as documents."""
from dom import byt

ETREE = """
class Element:
    def __init__(self, tag, attrib={}, **extra):
        self.tag = tag
        self.attrib = dict(attrib)
        self.attrib.update(extra)
        self.text = None
        self.tail = None
        self.nodes = []

    def __len__(self):
        return len(self.nodes)

    def __iter__(self):
        return iter(list(self.nodes))

    def __getitem__(self, i):
        return self.nodes[i]

    def append(self, node):
        self.nodes.append(node)

    def extend(self, nodes):
        for node in nodes:
            self.nodes.append(node)

    def insert(self, i, node):
        self.nodes.insert(i, node)

    def remove(self, node):
        for i in range(len(self.nodes)):
            if self.nodes[i] is node:
                self.nodes.pop(i)
                return
        raise ValueError("list.remove(x): x not in list")

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def set(self, key, value):
        self.attrib[key] = value

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()

    def findall(self, path, namespaces=None):
        found = [self]
        for step in path.split("/"):
            if step == ".":
                continue
            found = [n for e in found for n in e.nodes if n.tag == step or (step == "*" and n.tag is not Comment)]
        return found

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path))

    def find(self, path, namespaces=None):
        for n in self.findall(path):
            return n
        return None

    def findtext(self, path, default=None, namespaces=None):
        for n in self.findall(path):
            return "" if n.text is None else n.text
        return default

    def iter(self, tag=None):
        todo = []
        if tag is None or tag == "*" or self.tag == tag:
            todo.append(self)
        for n in self.nodes:
            todo.extend(n.iter(tag))
        return iter(todo)


def SubElement(parent, tag, attrib={}, **extra):
    node = Element(tag, attrib, **extra)
    parent.append(node)
    return node


def Comment(text=None):
    node = Element(Comment)
    node.text = text
    return node


class ParseError(SyntaxError):
    pass


class ElementTree:
    def __init__(self, element=None):
        self.root = element

    def getroot(self):
        return self.root

    def find(self, path, namespaces=None):
        return self.root.find(path)

    def findall(self, path, namespaces=None):
        return self.root.findall(path)

    def findtext(self, path, default=None, namespaces=None):
        return self.root.findtext(path, default)

    def iter(self, tag=None):
        return self.root.iter(tag)

    def write(self, name, encoding=None, xml_declaration=None, default_namespace=None, method=None, short_empty_elements=True):
        FILES[name] = Document(stored(self.root))


class Document:
    def __init__(self, root):
        self.root = root

    def decode(self, *a, **k):
        return self

    def encode(self, *a, **k):
        return self


FILES = {}


def string(x):
    if not isinstance(x, str):
        raise TypeError("cannot serialize")
    return x


def stored(node):
    copied = Element(string(node.tag))
    for k, v in node.attrib.items():
        copied.attrib[string(k)] = string(v)
    if node.text is not None and string(node.text) != "":
        copied.text = node.text
    for n in node.nodes:
        if n.tag is not Comment:
            copied.nodes.append(stored(n))
    return copied


def tostring(element, encoding=None, method=None, xml_declaration=None, default_namespace=None, short_empty_elements=True):
    return Document(stored(element))


def fromstring(text, parser=None):
    return stored(text.root)


XML = fromstring


def indent(tree, space="  ", level=0):
    node = tree.root if isinstance(tree, ElementTree) else tree
    if len(node.nodes) != 0:
        if node.text is None:
            node.text = " "
        for n in node.nodes:
            indent(n)


def parse(source, parser=None):
    if source not in FILES:
        raise FileNotFoundError("no such file")
    return ElementTree(stored(FILES[source].root))
"""
MINIDOM = """
from xml.etree import ElementTree


def spaced(node):
    copied = ElementTree.stored(node)
    if len(copied.nodes) != 0:
        copied.text = " " if copied.text is None else " " + copied.text + " "
        copied.nodes = [spaced(n) for n in copied.nodes]
    return copied


class Dom:
    def __init__(self, root):
        self.root = root

    def toprettyxml(self, indent=" ", newl="x", encoding=None, standalone=None):
        return ElementTree.Document(spaced(self.root))

    def toxml(self, encoding=None, standalone=None):
        return ElementTree.Document(self.root)


def parseString(text, parser=None):
    return Dom(ElementTree.stored(text.root))
"""
STANDINS = {"xml": "", "xml.etree": "", "xml.etree.ElementTree": ETREE, "xml.dom": "", "xml.dom.minidom": MINIDOM}

WITNESS = '''
import xml.etree.ElementTree as ET
from DLMS_SPODES.types import cdt, cst, ut
from DLMS_SPODES import exceptions as exc
from DLMS_SPODES.version import AppVersion
from DLMS_SPODES.cosem_interface_classes import collection
from DLMS_SPODES.cosem_interface_classes.association_ln import ver0
from DLMS_SPODES.cosem_interface_classes.overview import CountrySpecificIdentifiers


class File:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def write(self, content):
        ET.FILES[self.name] = content

    def close(self):
        pass


def stub(file, mode="r", *a, **k):
    return File(file)


collection.open = stub
NAME = "saved.xml"
LIBRARY = []


def base_of(m, t, ver):
    for c in LIBRARY:
        if c.manufacturer == m and c.server_type.encoding == t.encoding and c.server_ver[0] == ver:
            return c
    raise exc.NoConfig("no such collection")


collection.get = base_of
MODE = {"-": 0, "r": 1, "w": 2, "rw": 3}
ASS = b"\\x00\\x00\\x28\\x00\\x01\\xff"
CURRENT = b"\\x00\\x00\\x28\\x00\\x00\\xff"


def name(octets):
    return cst.LogicalName(b"\\x09\\x06" + octets)


def element(cid, ver, raw, modes):
    return (b"\\x02\\x04\\x12\\x00" + bytes([cid]) + b"\\x11" + bytes([ver]) + b"\\x09\\x06" + raw + b"\\x02\\x02\\x01" + bytes([len(modes)])
            + b"".join([b"\\x02\\x03\\x0f" + bytes([i + 1]) + b"\\x16" + bytes([MODE[m]]) + b"\\x00" for i, m in enumerate(modes)]) + b"\\x01\\x00")


def library(kinds, man, kind, ver, country_ver=None):
    """a collection of the library: kinds is a sequence of (class, version, name, modes of the attributes)"""
    c = collection.Collection()
    c.set_manufacturer(man)
    c.set_server_type(kind)
    c.set_server_ver(0, ver)
    if country_ver is not None:
        c.set_country_ver(country_ver)
    c.set_spec()
    els = [element(15, 0, ASS, ("r", "r", "r", "r", "r", "r", "-", "r")), element(1, 0, b"\\x00\\x00\\x2a\\x00\\x00\\xff", ("r", "r"))]
    for cid, v, raw, modes in kinds:
        c.add(ut.CosemClassId(cid), cdt.Unsigned(v), name(raw))
        els.append(element(cid, v, raw, modes))
    a = c.add(ut.CosemClassId(15), cdt.Unsigned(0), name(ASS))
    a.set_attr_link(2, ver0.ObjectListType(b"\\x01" + bytes([len(els)]) + b"".join(els)))
    return c


def device(c):
    d = c.copy()
    d.set_server_type(c.server_type)
    d.set_server_ver(0, c.server_ver[0])
    return d


def state(c):
    return {(o.logical_name.contents, i): None if a is None else a.encoding for o in c for i, a in o.get_index_with_attributes()}


def identity(c):
    return (c.dlms_ver, c.country, c.country_ver, c.manufacturer, c.server_type.encoding, c.server_ver)


def alike(a, b):
    """the identity of two collections"""
    need(a.dlms_ver == b.dlms_ver and a.country == b.country, "DLMS version and country")
    need(a.country_ver == b.country_ver, "country version")
    need(a.manufacturer == b.manufacturer, "manufacturer")
    need(b.server_type is not None and a.server_type.encoding == b.server_type.encoding, "server type")


DATA = b"\\x00\\x00\\x60\\x01\\x00\\xff"
REGISTER = b"\\x01\\x00\\x01\\x08\\x00\\xff"
CLOCK = b"\\x00\\x00\\x01\\x00\\x00\\xff"
SCHEDULE = b"\\x00\\x00\\x0f\\x00\\x00\\xff"
SCRIPTS = b"\\x00\\x00\\x0a\\x00\\x64\\xff"
MODEM = b"\\x00\\x00\\x02\\x00\\x00\\xff"
KINDS = ((1, 0, DATA, ("r", "rw")), (3, 0, REGISTER, ("r", "rw", "r")), (8, 0, CLOCK, ("r", "rw", "rw", "r", "rw", "rw", "rw", "rw", "r")), (22, 0, SCHEDULE, ("r", "r", "r", "rw")), (9, 0, SCRIPTS, ("r", "r")), (27, 1, MODEM, ("r", "rw", "rw", "rw")))


def place(values):
    """the library holds a collection with the types of its values, the device has the values"""
    lib = library(KINDS, b"KPZ", cdt.OctetString(b"\\x09\\x03M2M"), AppVersion(1, 4, 15), AppVersion(3, 0))
    for raw, i, encoding in values:
        if isinstance(lib.get_object(raw).get_attr_element(i).DATA_TYPE, ut.CHOICE):
            lib.get_object(raw).set_attr(i, encoding[0])
        elif raw == REGISTER and i == 3:
            lib.get_object(raw).set_attr(i, encoding)
    LIBRARY.append(lib)
    d = device(lib)
    for raw, i, encoding in values:
        o = d.get_object(raw)
        o.set_attr(i, encoding)
    return lib, d


def files():
    ET.FILES.clear()


def compare(was, got, skip):
    """what was saved is there again, nothing else appeared"""
    for k, v in was.items():
        if skip(k):
            continue
        if v is None:
            need(k not in got or got[k] is None, "no value appears that was not saved")
        else:
            need(k in got and got[k] is not None, "a value saved is read")
            need(got[k] == v, "the value read is the value saved")
    for k, v in got.items():
        need(k in was, "no attribute appears that was not saved")


def all_of(values):
    """everything the device holds is saved and read back by the reader of the format"""
    lib, d = place(values)
    d.to_xml(NAME)
    e = lib.copy()
    e.from_xml2(NAME)
    alike(d, e)
    need(e.server_ver[0] == d.server_ver[0] and len(e.server_ver) == 1, "server versions")
    compare(state(d), state(e), lambda k: k[1] == 1)


def several_versions(a, b):
    """every server version under its own instance"""
    lib, d = place(())
    d.set_server_ver(1, a)
    d.set_server_ver(7, b)
    d.to_xml(NAME)
    e = collection.Collection()
    for o in d:
        e.add_if_missing(o.CLASS_ID, cdt.Unsigned(int(o.VERSION)), o.logical_name)
    e.from_xml2(NAME)
    alike(d, e)
    need(len(e.server_ver) == 3 and e.server_ver[0] == d.server_ver[0] and e.server_ver[1] == a and e.server_ver[7] == b, "server versions")


def foreign(where):
    """a file of another device is refused"""
    lib, d = place(())
    d.to_xml(NAME)
    e = collection.Collection()
    if where == "manufacturer":
        e.set_manufacturer(b"ABC")
    elif where == "server_type":
        e.set_server_type(cdt.OctetString(b"\\x09\\x03M2N"))
    elif where == "country_ver":
        e.set_country_ver(AppVersion(2, 0))
    elif where == "server_ver":
        e.set_server_ver(0, AppVersion(1, 5, 0))
    elif where == "object":
        d.set_attr_of = None
    need(refused(e.from_xml2, NAME), "a file of another device is refused")


def changes_of(values):
    """what the association may write and differs from the collection of the library is saved and read back"""
    lib, d = place(values)
    changed = {k: v for k, v in state(d).items() if v is not None and v != state(lib)[k] and k[0] in TABLE and k[1] in TABLE[k[0]]}
    r = d.to_xml2(NAME, association_id=1)
    need(r == (len(changed) != 0), "says if anything was saved")
    need(r == (NAME in ET.FILES), "a file is written when there is something to save")
    if r:
        e = device(lib)
        before = state(e)
        e.from_xml2(NAME)
        alike(d, e)
        after = state(e)
        for k, v in before.items():
            if k[1] != 1:
                need(after[k] == (changed[k] if k in changed else v), "changed values are read, others stay")


TABLE = {raw: tuple(i for i in range(2, len(modes) + 1) if modes[i - 1] == "rw") for cid, ver, raw, modes in KINDS}


def type_of(values):
    """the type of a device: objects and their fixed values, types of the others"""
    lib, d = place(values)
    d.save_type(NAME)
    e = collection.Collection.from_xml(NAME)
    need(e.dlms_ver == d.dlms_ver and e.country == d.country and e.country_ver == d.country_ver and e.manufacturer == d.manufacturer and e.server_type.encoding == d.server_type.encoding, "identity")
    need(e.collection_ver == d.server_ver[0], "the version of the type is the one of the device")
    was, got = state(d), state(e)
    for cid, ver, raw, modes in KINDS:
        o, p = d.get_object(raw), e.get_object(raw)
        need(int(p.CLASS_ID) == cid and int(p.VERSION) == ver, "objects of the type")
        for i in range(2, len(modes) + 1):
            el = o.get_attr_element(i)
            v = o.get_attr(i)
            if el.classifier == collection.ic.Classifier.STATIC and modes[i - 1] == "r":
                need(got[(raw, i)] == was[(raw, i)], "fixed values")
            elif v is not None and isinstance(el.DATA_TYPE, ut.CHOICE):
                need(p.get_attr(i) is not None and p.get_attr(i).TAG == v.TAG, "types of the choices")
    need(got[(ASS, 2)] == was[(ASS, 2)], "objects of the association")


def template_of(values, decode):
    """a template: the values and which attributes are used"""
    lib, d = place(values)
    d.to_xml(NAME, root_tag=collection.TagsName.TEMPLATE_ROOT.value, is_decode=decode)
    e, used = collection.Collection.from_xml3(NAME)
    need(e.manufacturer == d.manufacturer and e.server_type.encoding == d.server_type.encoding, "identity")
    was, got = state(d), state(e)
    for k, v in was.items():
        if k[1] != 1:
            need((k[1] in used[name(k[0])]) == (v is not None), "used attributes")
    compare(was, got, lambda k: k[1] == 1)


def templates_of(values, verified):
    """a template of several collections: every used attribute is saved with the value of the first collection that has it"""
    lib, d = place(values)
    used = {}
    for raw, i, encoding in values:
        used.setdefault(name(raw), set()).add(i)
    collection.to_xml4([d], NAME, used, verified)
    cols, u, v = collection.from_xml4(NAME)
    need(v is verified or v == verified, "the mark of a verified template")
    need(len(cols) == 1, "collections of the template")
    e = cols[0]
    need(e.manufacturer == d.manufacturer and e.server_type.encoding == d.server_type.encoding, "identity")
    need(len(u) == len(used), "used objects")
    was, got = state(d), state(e)
    for n, indexes in used.items():
        need(n in u and u[n] == indexes, "used attributes")
        for i in indexes:
            need(got[(n.contents, i)] == was[(n.contents, i)], "the value read is the value saved")


def wrong_root(tag, reader):
    lib, d = place(())
    d.to_xml(NAME, root_tag=tag)
    right = collection.TagsName.DEVICE_ROOT.value if reader in ("from_xml", "from_xml2") else collection.TagsName.TEMPLATE_ROOT.value
    if reader == "from_xml2":
        r = outcome(lib.copy().from_xml2, NAME)
    elif reader == "from_xml4":
        r = outcome(collection.from_xml4, NAME)
    else:
        r = outcome(getattr(collection.Collection, reader), NAME)
    need(tag == right or r == ("raise", "ValueError"), "a file of another kind is refused")
'''


def check_C27(ck):
    ck.I.virtual = dict(ck.I.virtual, **STANDINS)
    w = ck.witness(WITNESS)
    A = ("cosem_interface_classes.collection", "Collection")
    M = "cosem_interface_classes.collection"
    to1, to2, typ, to4 = ck.anchor(*A, "to_xml"), ck.anchor(*A, "to_xml2"), ck.anchor(*A, "save_type"), ck.anchor(M, "to_xml4")
    from1, from2, from3, from4 = ck.anchor(*A, "from_xml"), ck.anchor(*A, "from_xml2"), ck.anchor(*A, "from_xml3"), ck.anchor(M, "from_xml4")
    D, R, C, S, T, O = (w.d[n] for n in ("DATA", "REGISTER", "CLOCK", "SCHEDULE", "SCRIPTS", "MODEM"))
    B = lambda I, *x: byt([I.in_byte(y) if isinstance(y, str) else y for y in x])
    sets = {
        "octets of data": lambda I: ((D, 2, B(I, 9, 2, "a", "b")),),
        "no octets": lambda I: ((D, 2, B(I, 9, 0)),),
        "number of data": lambda I: ((D, 2, B(I, 18, "a", "b")),),
        "register": lambda I: ((R, 2, B(I, 6, "a", "b", "c", "d")), (R, 3, B(I, 2, 2, 15, "s", 22, 27))),
        "scaled register": lambda I: (lambda v: ((R, 2, B(I, 6, *v[:4])), (R, 3, B(I, 2, 2, 15, *v[4:]))))(tuple(I.in_choice("value", (b"\x00\x00\x00\x1d", b"\x00\xcb\xff\xff", b"\xff\xff\xff\xff"))) + (I.in_choice("scaler", (0, 1, 3, 254, 255)), 22) + (I.in_choice("unit", (27, 30, 35, 255)),)),
        "clock": lambda I: ((C, 3, B(I, 16, "z", "y")), (C, 7, B(I, 15, I.in_choice("d", (0, 1, 120)))), (C, 8, B(I, 3, 1))),
        "schedule": lambda I: ((S, 3, B(I, 22, 1)), (S, 4, B(I, 1, 2, 2, 2, 9, 4, 1, 2, 3, 4, 9, 5, 7, 228, 1, 1, 3, 2, 2, 9, 4, 5, 6, 7, 8, 9, 5, 7, 229, 2, 2, 2))),
        "scripts": lambda I: ((T, 2, B(I, 1, 1, 2, 2, 18, 0, "n", 1, 1, 2, 5, 22, 1, 18, 0, 1, 9, 6, 0, 0, 96, 1, 0, 255, 15, 2, 0)),),
        "parts without elements": lambda I: ((T, 2, B(I, 1, 2, 2, 2, 18, 0, "n", 1, 0, 2, 2, 18, 0, 9, 1, 1, 2, 5, 22, 1, 18, 0, 1, 9, 6, 0, 0, 96, 1, 0, 255, 15, 2, 9, 0)), (O, 3, B(I, 1, 2, 2, 3, 9, 0, 9, 2, "a", 1, 18, 0, "b", 2, 3, 9, 1, 2, 9, 0, 18, "c", 5))),
        "no scripts": lambda I: ((T, 2, B(I, 1, 0)),),
        "none": lambda I: (),
        "several": lambda I: ((D, 2, B(I, 9, 1, "a")), (C, 3, B(I, 16, "z", "y")), (R, 3, B(I, 2, 2, 15, "s", 22, 27)), (R, 2, B(I, 17, "c"))),
    }
    ck.I.max_steps = 4000000
    for label, vs in sets.items():
        ck.claim("all", label, w, "all_of", lambda I, vs=vs: (vs(I),), where=to1)
        ck.claim("changes", label, w, "changes_of", lambda I, vs=vs: (vs(I),), where=to2)
        ck.claim("type", label, w, "type_of", lambda I, vs=vs: (vs(I),), where=typ)
        for decode in (False, True) if label in ("octets of data", "clock", "schedule", "parts without elements") or ck.thorough else (False,):
            ck.claim("template", label + (", decoded" if decode else ""), w, "template_of", lambda I, vs=vs, decode=decode: (vs(I), decode), where=from3)
        if label in ("register", "several"):
            continue
        for verified in (False, True) if label == "clock" or ck.thorough else (False,):
            ck.claim("templates", label + (", verified" if verified else ""), w, "templates_of", lambda I, vs=vs, verified=verified: (vs(I), verified), where=to4)
    ck.claim("identity", "server versions", w, "several_versions", lambda I: tuple(I.call(ck.anchor("version", "AppVersion"), [I.in_int(t + "a", 0, 65535), I.in_int(t + "b", 0, 65535), I.in_int(t + "c", 0, 65535)], {}) for t in "xy"), where=from2)
    for what in ("manufacturer", "server_type", "country_ver", "server_ver"):
        ck.claim("identity", "file of another " + what, w, "foreign", lambda I, what=what: (what,), where=from2)
    for reader, f in (("from_xml", from1), ("from_xml2", from2), ("from_xml3", from3), ("from_xml4", from4)):
        ck.claim("kind", reader, w, "wrong_root", lambda I, reader=reader: (I.in_choice("tag", ("Objects", "template", "DLMSServer", "DLMSServerTemplate", "", "x")), reader), where=f)
