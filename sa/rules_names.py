"""C30: every name and attribute the package's code refers to exists.

Symbols come from the resolved (abstractly loaded) modules and classes; references are read from the syntax tree of every
function of every module."""
import ast
import builtins
import os

import absint
from absint import ModVal, ClassVal, FuncVal, Ext, Obj, Prop, CMeth, SMeth, MISSING
from dom import Term
import framework

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__builtins__", "__class__", "__path__", "__package__", "__spec__", "__annotations__"}


def package_modules(ck):
    root = os.path.join(framework.REPO, "src", ck.I.PKG)
    out = []
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                n = os.path.relpath(os.path.join(d, f), os.path.dirname(root))[:-3].replace(os.sep, ".")
                out.append(n[:-9] if n.endswith(".__init__") else n)
    return out


# ---------------------------------------------------------------- scopes
class Scope(ast.NodeVisitor):
    """names bound in one function body (not in nested functions or classes)"""

    def __init__(self, node):
        self.names, self.globals = set(), set()
        self.dynamic = False
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            self.names.add(p.arg)
        for p in (a.vararg, a.kwarg):
            if p:
                self.names.add(p.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self.visit(s)
        self.names -= self.globals

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(d)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    def visit_comp(self, n):
        # the targets of a comprehension are local to it; a walrus inside binds here
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.names.add(x.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_comp

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name == "*":
                self.dynamic = True
            self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchAs(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.names.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.names.add(n.rest)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        pass


class Refs:
    """walks one module: every name load with the scopes it may come from"""

    def __init__(self, rule, mod):
        self.rule, self.mod = rule, mod
        self.globals = set(mod.d)
        for x in ast.walk(mod.tree):         # names bound through global statements
            if isinstance(x, ast.Global):
                self.globals.update(x.names)
        m = ast.parse("def f(): pass").body[0]   # names bound at module level on any path (handlers, loops, unreached branches)
        m.body = mod.tree.body
        self.globals |= Scope(m).names
        self.unbound = []
        self.attrs = []
        self.nfuncs = 0
        self.nnames = 0
        self.quals = []

    def run(self):
        for s in self.mod.tree.body:
            self.stmt(s, [], [])

    def stmt(self, n, scopes, qual):
        self.walk(n, scopes, qual)

    def bound(self, name, scopes):
        return any(name in s for s in scopes) or name in self.globals or name in BUILTINS

    def walk(self, n, scopes, qual):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if not isinstance(n, ast.Lambda):
                for d in n.decorator_list:
                    self.walk(d, scopes, qual)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.walk(d, scopes, qual)
            sc = Scope(n)
            if sc.dynamic:
                return
            name = getattr(n, "name", "<lambda>")
            self.nfuncs += 1
            inner = [frozenset(sc.names)] + [s for s in scopes if not isinstance(s, set)]
            body = n.body if isinstance(n.body, list) else [n.body]
            for s in body:
                self.walk(s, inner, qual + [name])
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.walk(d, scopes, qual)
            names = set()
            for s in n.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        names.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        names.add(x.name)
                    elif isinstance(x, ast.alias):
                        names.add((x.asname or x.name).split(".")[0])
            inner = [names] + scopes
            for s in n.body:
                self.walk(s, inner, qual + [n.name])
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            names = set()
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
            inner = [frozenset(names)] + scopes
            for f in ast.iter_child_nodes(n):
                self.walk(f, inner, qual)
            return
        if isinstance(n, ast.comprehension):
            for f in ast.iter_child_nodes(n):
                self.walk(f, scopes, qual)
            return
        if isinstance(n, ast.arg):
            return
        if isinstance(n, ast.AnnAssign):       # annotations of local names are not evaluated
            self.walk(n.target, scopes, qual)
            if n.value is not None:
                self.walk(n.value, scopes, qual)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.nnames += 1
                if not self.bound(n.id, scopes):
                    self.unbound.append((n.id, n.lineno, ".".join(qual)))
            return
        if isinstance(n, ast.Attribute):
            chain = []
            x = n
            while isinstance(x, ast.Attribute):
                chain.append((x.attr, x.ctx, x.lineno))
                x = x.value
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if not any(x.id in s for s in scopes) and x.id in self.mod.d:
                    self.attrs.append((x.id, chain[::-1], ".".join(qual)))
            self.walk(x, scopes, qual)
            return
        for c in ast.iter_child_nodes(n):
            self.walk(c, scopes, qual)


class Rule:
    def __init__(self, ck):
        self.ck, self.I = ck, ck.I

    def open_class(self, c):
        return any(not (isinstance(b, ClassVal) or b is object or isinstance(b, type) or isinstance(b, Ext) and b.path in absint.SAFE_BASES)
                   for b in c.mro)

    def attr(self, v, name):
        """value of v.name, None when not statically known, MISSING when it does not exist"""
        I = self.I
        if isinstance(v, ModVal):
            if name in v.d:
                return v.d[name]
            f, _ = I.modpath(v.name + "." + name)
            if f is not None:
                return None
            if name in ("__file__", "__name__", "__path__", "__doc__", "__dict__"):
                return None
            if "__getattr__" in v.d:
                return None
            return MISSING
        if isinstance(v, ClassVal):
            if self.open_class(v):
                return None
            x, _ = I.lookup(v, name)
            if x is not MISSING and x is not None:
                return x
            if x is None:
                return None
            try:
                return I.getattr(v, name)
            except absint.PyRaise:
                # declared only (annotation): filled in by subclasses or instances
                for b in v.mro:
                    if isinstance(b, ClassVal) and any(a == name for a, _ in b.ann):
                        return None
                if self.assigned(v, name):
                    return None
                return MISSING
            except Exception:
                return None
        return None

    def assigned(self, c, name):
        return name in self.setters

    def collect(self, mods):
        """every attribute name some code of the package assigns on a class or instance"""
        self.setters = set()
        self.classsets = set()
        for m in mods:
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    self.setters.add(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 \
                        and isinstance(x.args[1], ast.Constant):
                    self.setters.add(x.args[1].value)
                    self.classsets.add(x.args[1].value)


STDLIB = None


def stdlib_attrs():
    """attribute names of the standard types and modules the package works with"""
    global STDLIB
    if STDLIB is None:
        import datetime, logging, enum, struct, io, re, xml.etree.ElementTree as ET, collections, functools, itertools, pathlib, os, typing, \
            dataclasses, abc, hashlib, inspect, threading, types, array, ast as _a, tomllib, copy, math, operator, zlib, binascii, decimal, random, time, string
        STDLIB = set()
        for o in list(vars(builtins).values()) + [datetime, logging, enum, struct, io, re, ET, collections, functools, itertools, pathlib, os, typing,
                                                  dataclasses, abc, hashlib, inspect, threading, types, array, tomllib, copy, math, operator, zlib,
                                                  binascii, decimal, random, time, string, os.path]:
            STDLIB |= set(dir(o))
            if isinstance(o, type(os)):
                for x in list(vars(o).values()):
                    if isinstance(x, type):
                        STDLIB |= set(dir(x))
        for o in ((lambda: 0), (lambda: (yield))(), ET.Element("a"), ET.ElementTree(), hashlib.sha256(), logging.getLogger("x"), re.compile("a"), re.match("a", "a"),
                  enum.Enum("E", "A").A, os.scandir, functools.lru_cache(lambda: 0), functools.partial(int), struct.Struct("B"), ValueError("x"),
                  UnicodeDecodeError("a", b"", 0, 0, ""), KeyError(), ET.ParseError(), StopIteration(), OSError(), SyntaxError()):
            STDLIB |= set(dir(o))
        STDLIB |= {"_value_", "_name_", "__match_args__", "__slots__", "__annotations__", "__origin__", "__args__", "path", "name", "_value2member_map_", "fields", "reason", "start", "end"}
    return STDLIB


class Defs:
    """every attribute name that exists on some object of the package"""

    def __init__(self, R, mods):
        self.names = set()
        for m in mods:
            self.names |= set(m.d)
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self.names.add(x.name)
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    self.names.add(x.attr)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.names.add(x.id)
                elif isinstance(x, ast.alias):
                    self.names.update((x.asname or x.name).split("."))
                elif isinstance(x, ast.arg):
                    self.names.add(x.arg)
                elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                    self.names.add(x.value)
                elif isinstance(x, ast.ImportFrom) and x.module:
                    self.names.update(x.module.split("."))


def classes_of(I, mods):
    seen = {}
    for m in mods:
        todo = [v for v in m.d.values() if isinstance(v, ClassVal) and v.module is m]
        while todo:
            c = todo.pop()
            if id(c) in seen:
                continue
            seen[id(c)] = c
            for v in c.d.values():
                if isinstance(v, ClassVal) and v.module is m:
                    todo.append(v)
    return list(seen.values())


def inst_attrs(c, memo):
    """attribute names methods of c set on their instance"""
    if id(c) in memo:
        return memo[id(c)]
    out = set()
    node = getattr(c, "node", None)
    if node is not None:
        for f in ast.walk(node):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.args.args:
                s = f.args.args[0].arg
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == s:
                        out.add(x.attr)
        for st in node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                out.add(st.target.id)
    sl = c.d.get("__slots__")
    if isinstance(sl, tuple):
        out.update(x for x in sl if isinstance(x, str))
    memo[id(c)] = out
    return out


def all_subs(c):
    out, todo = [], [c]
    while todo:
        x = todo.pop()
        for s in x.subs:
            if s not in out:
                out.append(s)
                todo.append(s)
    return out


OBJ_ATTRS = set(dir(object)) | {"__dict__", "__name__", "__qualname__", "__mro__", "__subclasses__", "__annotations__", "__module__", "mro", "__bases__", "__match_args__", "__slots__", "__wrapped__", "__orig_bases__"}


def has(I, c, name, memo):
    for b in c.mro:
        if isinstance(b, ClassVal):
            if name in b.d or name in inst_attrs(b, memo) or any(a == name for a, _ in b.ann):
                return True
            if b.members is not None and (name in b.members or name in ("name", "value", "_name_", "_value_")):
                return True
            if "__getattr__" in b.d or "__getattribute__" in b.d and b.d["__getattribute__"] is not None:
                return True
        elif isinstance(b, type):
            if hasattr(b, name):
                return True
    if c.kind == "exc" and hasattr(Exception, name):
        return True
    if c.kind in ("enum", "intenum", "intflag", "flag", "strenum", "namedtuple"):
        return True
    return name in OBJ_ATTRS


def self_refs(fn):
    """loads of self.X / cls.X in a method, not shadowed"""
    if not fn.args.args and not fn.args.posonlyargs:
        return
    s = (fn.args.posonlyargs + fn.args.args)[0].arg
    for x in ast.walk(fn):
        if isinstance(x, (ast.Name,)) and isinstance(x.ctx, ast.Store) and x.id == s:
            return
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and any(a.arg == s for a in x.args.args):
            continue
        if isinstance(x, ast.ClassDef):
            continue
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == s:
            yield x.attr, x.lineno
        stack.extend(ast.iter_child_nodes(x))


def third_party(m):
    import sys
    for x in ast.walk(m.tree):
        tops = []
        if isinstance(x, ast.Import):
            tops = [a.name.split(".")[0] for a in x.names]
        elif isinstance(x, ast.ImportFrom) and not x.level and x.module:
            tops = [x.module.split(".")[0]]
        if any(t not in sys.stdlib_module_names and t not in ("DLMS_SPODES", "src") for t in tops):
            return True
    return False


def stdlib_imports(m):
    """names imported from the standard library that it does not have"""
    import importlib
    import importlib.util
    import sys
    for x in ast.walk(m.tree):
        if isinstance(x, ast.ImportFrom) and not x.level and x.module and x.module.split(".")[0] in sys.stdlib_module_names:
            try:
                o = importlib.import_module(x.module)
            except Exception:
                yield x.module, "such module", x.lineno
                continue
            for a in x.names:
                if a.name != "*" and not hasattr(o, a.name):
                    try:
                        importlib.import_module(x.module + "." + a.name)
                    except Exception:
                        yield x.module, a.name, x.lineno


def used_stdlib(mods):
    """attribute names of every standard module the package imports, and of its classes"""
    import importlib
    import sys
    out = set()
    for m in mods:
        for x in ast.walk(m.tree):
            names = []
            if isinstance(x, ast.Import):
                names = [a.name for a in x.names]
            elif isinstance(x, ast.ImportFrom) and not x.level and x.module:
                names = [x.module] + [x.module + "." + a.name for a in x.names]
            for n in names:
                if n.split(".")[0] in sys.stdlib_module_names and n not in ("this", "antigravity"):
                    try:
                        o = importlib.import_module(n)
                    except Exception:
                        continue
                    out |= set(dir(o))
                    for c in vars(o).values():
                        if isinstance(c, type):
                            out |= set(dir(c))
    return out


def check_members(ck, R, mods):
    I = ck.I
    memo = {}
    D = Defs(R, mods)
    std = stdlib_attrs() | used_stdlib(mods)
    for c in sorted(classes_of(I, mods), key=lambda c: c.qualname):
        if R.open_class(c) or getattr(c, "node", None) is None:
            continue
        subs = all_subs(c)
        bad = {}
        n = 0
        for f in c.node.body:
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list):
                continue
            for a, l in self_refs(f):
                n += 1
                nm = I.mangle(a, c.name)
                if a.startswith("__") and not a.endswith("__"):
                    ok = nm in c.d or a in inst_attrs(c, memo) or any(x == a or x == nm for x, _ in c.ann)
                else:
                    ok = has(I, c, a, memo) or any(has(I, x, a, memo) for x in subs) or any(R.open_class(x) for x in subs)
                if not ok and a in R.classsets:
                    ok = True
                if not ok:
                    bad.setdefault((a, f.name), l)
        if not bad and n:
            ck.fact("members-exist", c.qualname, True)
        for (a, fn), l in sorted(bad.items(), key=lambda t: t[1]):
            ck.fact("members-exist", "%s.%s: self.%s" % (c.qualname, fn, a), False, "neither %s, its bases and subclasses nor their instances have %s" % (c.name, a),
                    "%s:%d" % (os.path.relpath(c.module.path, framework.REPO), l))
    for m in mods:
        bad = {}
        wrong = list(stdlib_imports(m))
        ck.fact("standard-library-names", m.name, not wrong, "; ".join("%s has no %s" % w[:2] for w in wrong),
                "%s:%d" % (os.path.relpath(m.path, framework.REPO), wrong[0][2] if wrong else 1))
        if third_party(m):
            continue            # its objects come from a library that is not analysed
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                if x.attr not in D.names and x.attr not in std:
                    bad.setdefault(x.attr, x.lineno)
        if not bad:
            ck.fact("attribute-defined-somewhere", m.name, True)
        for a, l in sorted(bad.items()):
            ck.fact("attribute-defined-somewhere", "%s: .%s" % (m.name, a), False, "no class, module or instance of the package or the standard library has %r" % a,
                    "%s:%d" % (os.path.relpath(m.path, framework.REPO), l))


def check_C30(ck):
    I = ck.I
    names = package_modules(ck)
    mods = []
    for n in names:
        k = len(I.diags)
        m = I.load(n)
        bad = [d for d in I.diags[k:]]
        msg = "; ".join("%s line %s: %s" % d[:3] for d in bad[:3])
        und = all("Unsupported" in str(d[2]) or "Cut" in str(d[2]) for d in bad)
        ck.fact("module-loads", n, True if not bad else (None if und else False), "loading fails: " + msg, (m.path, bad[0][1]) if bad else (m.path, 1))
        if isinstance(m, ModVal) and m.tree is not None:
            mods.append(m)
    R = Rule(ck)
    R.collect(mods)
    for m in mods:
        r = Refs(R, m)
        r.run()
        short = m.name
        bad = sorted({(n, q): l for n, l, q in reversed(r.unbound)}.items(), key=lambda t: t[1])
        if not bad:
            ck.fact("names-bound", short, True)
        for (n, q), l in bad:
            ck.fact("names-bound", "%s: %s in %s" % (short, n, q), False, "name %r is bound nowhere (module, enclosing scopes, builtins)" % n,
                    "%s:%d" % (os.path.relpath(m.path, framework.REPO), l))
        seen = {}
        for base, chain, q in r.attrs:
            v = m.d.get(base)
            done = base
            for a, ctx, l in chain:
                if not isinstance(ctx, ast.Load):
                    break
                v = R.attr(v, a)
                done += "." + a
                if v is None:
                    break
                if v is MISSING:
                    seen.setdefault((done, q), l)
                    break
        if not seen:
            ck.fact("attributes-exist", short, True)
        for (d, q), l in sorted(seen.items(), key=lambda t: t[1]):
            ck.fact("attributes-exist", "%s: %s in %s" % (short, d, q), False, "%s does not exist" % d,
                    "%s:%d" % (os.path.relpath(m.path, framework.REPO), l))
    check_members(ck, R, mods)
