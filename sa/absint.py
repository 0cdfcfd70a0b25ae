"""Abstract interpreter for the Python subset the repository is written in.

It evaluates source text (ast) over the domains of dom.py with trace
partitioning: when a condition is not decided by the facts of the current
partition, the partition is split and each half is refined by the condition.
Nothing of the analysed program is imported or executed.
"""
import ast
import copy as _copy
import datetime as _dt
import math as _math
import re
import os
import struct as _struct
import sys
import collections as _coll
import itertools as _it

from dom import (Term, Lin, BitBool, Byt, Seg, SStr, Fmt, Facts, mkstr, byt, bparts, blen,
                 add, scale, mk, sym, opq, bit, byte, bits_of, from_bits, xor_bit, lin_parts, mkand)

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ control
class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Infeasible(Exception):
    pass


class Cut(Exception):
    """bound reached on this partition"""


class Unsupported(Exception):
    """construct outside the modelled subset"""


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------ values
class Obj:
    __slots__ = ("cls", "d", "p", "gen", "tag", "sealed")

    def __init__(self, cls, gen=0):
        self.cls = cls
        self.d = {}
        self.p = None
        self.gen = gen
        self.tag = None

    def __repr__(self):
        n = cname(self.cls)
        if self.tag:
            return "<%s %s>" % (n, self.tag)
        if "_name_" in self.d:
            return "%s.%s" % (n, self.d["_name_"])
        if self.cls is list or self.cls is set:
            return "%s%r" % ("" if self.cls is list else "set", self.p)
        if self.cls is dict:
            return "{%s}" % ", ".join("%r: %r" % kv for kv in self.p.values())
        if self.p is not None:
            return "<%s %r>" % (n, self.p)
        return "<%s obj>" % n


class ClassVal(Obj):
    __slots__ = ("name", "module", "qualname", "bases", "mro", "node", "kind", "native", "ann", "annval",
                 "dc", "members", "env", "kwds", "subs")

    def __repr__(self):
        return "<class %s>" % self.qualname


class FuncVal(Obj):
    __slots__ = ("name", "node", "module", "env", "owner", "mcls", "defaults", "kwdefaults",
                 "qualname", "isgen", "locs")

    def __repr__(self):
        return "<function %s>" % self.qualname


class Bound:
    __slots__ = ("f", "s")

    def __init__(self, f, s):
        self.f, self.s = f, s

    def __eq__(self, o):
        return isinstance(o, Bound) and self.f is o.f and self.s is o.s

    def __hash__(self):
        return hash((id(self.f), id(self.s)))

    def __repr__(self):
        return "<bound %r of %r>" % (self.f, self.s)


class NatM:
    """method `name` of a built-in typed abstract value"""
    __slots__ = ("name", "s")

    def __init__(self, name, s):
        self.name, self.s = name, s

    def __repr__(self):
        return "<method %s of %r>" % (self.name, self.s)


class Nat:
    """a modelled function"""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Prop:
    def __init__(self, fget=None, fset=None, fdel=None, cached=False):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached


class CMeth:
    def __init__(self, f):
        self.f = f


class SMeth:
    def __init__(self, f):
        self.f = f


# what a special method found on a class may be (called with the instance as first argument)
FN = (FuncVal, CMeth, SMeth)


class ModVal(Obj):
    __slots__ = ("name", "path", "tree", "state", "ispkg")

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    """something outside the repository, known by its dotted path"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "<ext %s>" % self.path


class Union:
    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return " | ".join(map(repr, self.items))


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Env:
    __slots__ = ("vars", "parent", "module", "func", "mcls", "isclass", "locs", "globs", "nonl",
                 "owner", "first", "yields", "iscomp")

    def __init__(self, parent, module):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = None
        self.mcls = parent.mcls if parent is not None else None
        self.isclass = False
        self.locs = None
        self.globs = ()
        self.nonl = ()
        self.owner = None
        self.first = None
        self.yields = None
        self.iscomp = False


class Outcome:
    __slots__ = ("kind", "value", "exc", "where", "facts", "log", "reason", "ndec")

    def __repr__(self):
        if self.kind == "raise":
            return "raise %s at %s" % (cname(self.exc.cls), self.where)
        if self.kind == "ret":
            return "ret %r" % (self.value,)
        return "%s %s" % (self.kind, self.reason)


def cname(c):
    if isinstance(c, ClassVal):
        return c.name
    if isinstance(c, type):
        return c.__name__
    return str(c)


MISSING = object()
NOTIMPL = NotImplemented

BUILTIN_TYPES = {t.__name__: t for t in (int, str, bytes, bytearray, bool, float, list, tuple, dict,
                                         set, frozenset, object, type, memoryview, range, slice,
                                         complex)}
BUILTIN_TYPES.update({n: getattr(__import__("builtins"), n) for n in dir(__import__("builtins"))
                      if isinstance(getattr(__import__("builtins"), n), type)
                      and issubclass(getattr(__import__("builtins"), n), BaseException)})
CONST = (int, str, bytes, float, type(None), bool, complex, type(Ellipsis), _dt.date, _dt.time,
         _dt.timedelta, _dt.timezone)

BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv",
          ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow", ast.LShift: "lshift",
          ast.RShift: "rshift", ast.BitOr: "or", ast.BitXor: "xor", ast.BitAnd: "and",
          ast.MatMult: "matmul"}
import operator as _op
PYOP = {"add": _op.add, "sub": _op.sub, "mul": _op.mul, "truediv": _op.truediv,
        "floordiv": _op.floordiv, "mod": _op.mod, "pow": _op.pow, "lshift": _op.lshift,
        "rshift": _op.rshift, "or": _op.or_, "xor": _op.xor, "and": _op.and_}
CMPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
PYCMP = {"eq": _op.eq, "ne": _op.ne, "lt": _op.lt, "le": _op.le, "gt": _op.gt, "ge": _op.ge}
SWAP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


def local_names(node):
    """names bound in a function body (params included), plus global/nonlocal declarations."""
    locs, globs, nonl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        locs.add(x.arg)
    if a.vararg:
        locs.add(a.vararg.arg)
    if a.kwarg:
        locs.add(a.kwarg.arg)
    gen = False

    def walk(n):
        nonlocal gen
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            locs.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only the walrus targets leak
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    locs.add(m.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            locs.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                locs.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            locs.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            locs.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            locs.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            locs.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    if isinstance(node, ast.Lambda):
        walk(node.body)
    else:
        for s in node.body:
            walk(s)
    return locs - globs - nonl, globs, nonl, gen


class Interp:
    yield_hook = None

    PKG = "DLMS_SPODES"

    def __init__(self, root, max_steps=300000, max_depth=60):
        self.root = root                      # directory that holds the package
        self.modules = {}
        self.builtins = {}
        self.loading = 0
        self.gen = 0
        self.undo = []
        self.facts = Facts()
        self.log = []
        self.prefix = []
        self.decisions = []
        self.dpos = 0
        self.steps = 0
        self.deadline = None
        self.max_steps = max_steps
        self.depth = 0
        self.max_depth = max_depth
        self.nfresh = 0
        self.cur = ("?", 0)
        self.inraise = 0
        self.diags = []                       # (module, line, text) raised while loading
        self.entered = set()                  # functions analysed (qualname, file, line)
        self.branches = 0
        self.stack = []
        self.while_bound = 40
        self.seg_bound = 4
        self.order = 0
        self.load_root = False
        self.hooks = {}                       # qualname -> callable replacing a function
        self.classes = []
        import builtins_model
        builtins_model.install(self)

    # ---------------------------------------------------------------- modules
    def modpath(self, name):
        parts = name.split(".")
        p = os.path.join(self.root, *parts)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            if os.path.exists(f):
                return f, True
            return None, True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def known_module(self, name):
        f, pkg = self.modpath(name)
        return f is not None or pkg

    virtual = {}        # sources of client programs written in the rules

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        else:
            parent = None
        f, pkg = self.modpath(name)
        m = ModVal(type(sys))
        m.name, m.path, m.ispkg = name, f, pkg
        m.state = "loading"
        m.d = {"__name__": name, "__file__": f or "", "__doc__": None, "__package__": name}
        self.modules[name] = m
        if parent is not None:
            parent.d[name.rsplit(".", 1)[1]] = m
        if name in self.virtual:
            f = "<%s>" % name
        if f is None or (name == self.PKG and not self.load_root):
            # the top-level __init__ only imports the collection module; it defines nothing itself
            m.tree = None
            m.state = "done"
            return m
        if name in self.virtual:
            src = self.virtual[name]
        else:
            with open(f, encoding="utf-8") as fh:
                src = fh.read()
        m.tree = ast.parse(src, f)
        env = Env(None, m)
        env.vars = m.d
        save = (self.cur, self.stack, self.depth, self.prefix, self.decisions, self.dpos, self.facts,
                self.steps, self.gen, self.log, self.inraise)
        self.stack, self.depth, self.facts = [], 0, Facts()
        self.log = []
        self.loading += 1
        smax, self.max_steps = self.max_steps, 20000000
        self.gen = 0
        try:
            for st in m.tree.body:
                self.load_stmt(st, env, m)
        finally:
            self.loading -= 1
            self.max_steps = smax
            (self.cur, self.stack, self.depth, self.prefix, self.decisions, self.dpos, self.facts,
             self.steps, self.gen, self.log, self.inraise) = save
        m.state = "done"
        return m

    def load_stmt(self, st, env, m):
        self.steps = 0
        try:
            self.exec(st, env)
        except PyRaise as e:
            self.diag(m, st, "raise %s: %s" % (cname(e.exc.cls), self.excmsg(e.exc)))
            self.bind_unknown(st, env, m)
        except (Unsupported, Cut, Infeasible) as e:
            self.diag(m, st, "%s: %s" % (type(e).__name__, e))
            self.bind_unknown(st, env, m)

    def bind_unknown(self, st, env, m):
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in env.vars:
                env.vars[n.id] = Term("unknown", (m.name, n.id))
        if isinstance(st, (ast.ClassDef, ast.FunctionDef)) and st.name not in env.vars:
            env.vars[st.name] = Term("unknown", (m.name, st.name))
        if isinstance(st, (ast.ImportFrom,)):
            for a in st.names:
                nm = a.asname or a.name
                if nm not in env.vars:
                    env.vars[nm] = Term("unknown", (m.name, nm))

    def diag(self, m, node, text):
        self.diags.append((m.name, getattr(node, "lineno", 0), text, self.cur))

    def excmsg(self, exc):
        a = exc.d.get("args", ())
        return ", ".join(str(x) for x in a)

    # ---------------------------------------------------------------- runs
    def reset(self, prefix):
        for o, d, p in reversed(self.undo):
            o.d, o.p = d, p
            o.gen = 0
        self.undo = []
        self.gen += 1
        self.facts = Facts()
        self.log = []
        self.prefix = prefix
        self.decisions = []
        self.dpos = 0
        self.steps = 0
        self.depth = 0
        self.nfresh = 0
        self.inraise = 0
        self.order = 0
        self.stack = []

    def explore(self, thunk, max_paths=4000):
        """yield an Outcome per trace partition; partition facts are live during the yield."""
        todo = [[]]
        n = 0
        while todo:
            prefix = todo.pop()
            n += 1
            o = Outcome()
            o.kind, o.value, o.exc, o.where, o.reason = "ret", None, None, None, None
            if n > max_paths:
                o.kind, o.reason = "unknown", "more than %d partitions" % max_paths
                o.facts, o.log, o.ndec = Facts(), [], 0
                yield o
                break
            self.reset(prefix)
            try:
                o.value = thunk(self)
            except PyRaise as e:
                o.kind, o.exc = "raise", e.exc
                o.where = e.exc.d.get("__where__")
            except Infeasible:
                o.kind = "infeasible"
            except Cut as e:
                o.kind, o.reason = "cut", str(e)
            except Unsupported as e:
                o.kind, o.reason = "unknown", "%s (at %s:%s)" % (e, self.cur[0], self.cur[1])
            except RecursionError:
                o.kind, o.reason = "cut", "recursion"
            dec = self.decisions
            for i in range(len(dec) - 1, len(prefix) - 1, -1):
                ch, cnt = dec[i]
                base = [c for c, _ in dec[:i]]
                for alt in range(cnt - 1, 0, -1):
                    todo.append(base + [alt])
            o.facts, o.log, o.ndec = self.facts, self.log, len(dec)
            if o.kind != "infeasible":
                yield o
        self.reset([])

    def choose(self, n):
        if self.loading and not self.prefix and self.gen == 0:
            raise Unsupported("undecided condition while loading a module")
        i = self.dpos
        self.dpos += 1
        self.branches += 1
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
        self.decisions.append((c, n))
        if len(self.decisions) > 3000:
            raise Cut("too many decisions")
        return c

    def fresh(self, base):
        self.nfresh += 1
        return "%s#%d" % (base, self.nfresh)

    # ---------------------------------------------------------------- heap
    def new(self, cls, p=None):
        o = Obj(cls, self.gen)
        o.p = p
        return o

    def hw(self, o):
        """declare a write to o."""
        if o.gen != self.gen:
            if self.gen != 0:
                p = o.p
                if isinstance(p, (list, dict, set)):
                    p2 = p.copy()
                else:
                    p2 = p
                self.undo.append((o, o.d, p))
                o.d = dict(o.d)
                o.p = p2
            o.gen = self.gen
        return o

    def mklist(self, items):
        return self.new(list, list(items))

    def mkdict(self, pairs):
        d = self.new(dict, {})
        for k, v in pairs:
            self.dict_set(d, k, v)
        return d

    def mkset(self, items):
        s = self.new(set, {})
        for x in items:
            self.dict_set(s, x, x)
        return s

    def mkiter(self, items):
        return self.new("iter", iter(items))

    # dictionaries are keyed by hkey -> (key, value)
    def hkey(self, k):
        k = self.facts.norm(k)
        if isinstance(k, (Lin, Byt, BitBool)):
            return None
        if isinstance(k, Obj):
            c = k.cls
            if isinstance(k, (ClassVal, FuncVal, ModVal)):
                return ("id", id(k))
            if "_name_" in k.d and isinstance(c, ClassVal) and c.kind in ("intenum", "intflag"):
                v = k.d["_value_"]
                return self.hkey(v)
            if "_name_" in k.d:
                return ("id", id(k))
            if k.p is not None and isinstance(k.p, CONST) and isinstance(c, ClassVal) and c.native:
                return k.p
            if isinstance(c, ClassVal) and c.native is tuple:
                return self.hkey(k.p)
            if isinstance(c, ClassVal):
                hf, hc = self.lookup(c, "__hash__")
                if hc is not None and hf is None:
                    self.throw(TypeError, "unhashable type: '%s'" % c.name)
                if hc is not None or c.dc is not None:
                    hv = self.hash(k)
                    if isinstance(hv, int):
                        return ("h", hv)
                    return None
                return ("id", id(k))
            if c in (list, dict, set, bytearray):
                self.throw(TypeError, "unhashable type: '%s'" % c.__name__)
            return ("id", id(k))
        if isinstance(k, tuple):
            out = []
            for x in k:
                h = self.hkey(x)
                if h is None and x is not None:
                    return None
                out.append(h)
            return ("t", tuple(out))
        if isinstance(k, (SStr,)):
            return ("s", k)
        if isinstance(k, Term):
            return ("term", k)
        try:
            hash(k)
        except TypeError:
            return ("id", id(k))
        if isinstance(k, (float, int)):
            return k
        return k if not isinstance(k, (Nat, Bound, NatM, Prop)) else ("id", id(k))

    def hash(self, k):
        k = self.facts.norm(k)
        if isinstance(k, Obj) and isinstance(k.cls, ClassVal) and "_name_" not in k.d:
            f, hc = self.lookup(k.cls, "__hash__")
            if isinstance(f, FN):
                return self.call(f, [k])
            if hc is not None and f is None:
                self.throw(TypeError, "unhashable type: '%s'" % k.cls.name)
            if f is None and k.cls.dc is not None:
                return self.hash(tuple(k.d.get(n) for n, _ in self.dc_fields(k.cls)))
            if k.p is not None and isinstance(k.p, CONST):
                return hash(k.p)
            f, c = self.lookup(k.cls, "__eq__")
            if isinstance(f, FN):
                self.throw(TypeError, "unhashable type: '%s'" % k.cls.name)
        h = self.hkey(k)
        if h is None and k is not None:
            return Term("hash", (self.dnorm(k),), int)
        return hash(h)

    def dnorm(self, k):
        if isinstance(k, tuple):
            return tuple(map(self.dnorm, k))
        return self.facts.norm(k)

    def dict_find(self, d, k):
        """entry key in d.p equal to k, or MISSING; may split partitions."""
        h = self.hkey(k)
        if isinstance(h, tuple) and len(h) == 2 and h[0] == "h":
            for hk, e in list(d.p.items()):
                if isinstance(hk, tuple) and len(hk) == 3 and hk[:2] == h and (e[0] is k or self.truth(self.cmp("eq", e[0], k))):
                    return hk
            return MISSING
        if h is not None or k is None:
            if h in d.p:
                return h
            if any(isinstance(e[0], (Lin, Byt, Term, SStr)) and not isinstance(e[0], Term) for e in d.p.values()):
                for hk, e in d.p.items():
                    if isinstance(e[0], (Lin, Byt)) and self.truth(self.cmp("eq", e[0], k)):
                        return hk
            return MISSING
        # abstract key: compare with every candidate
        kk = self.facts.norm(k)
        cands = []
        for hk, e in d.p.items():
            cands.append((hk, e[0]))
        if isinstance(kk, Lin):
            vals = self.facts.values(kk)
            lo, hi = self.facts.interval(kk)
            c2 = []
            for hk, key in cands:
                kv = self.asint(key)
                if kv is None:
                    continue
                if isinstance(kv, int):
                    if vals is not None and kv not in vals:
                        continue
                    if (lo is not None and kv < lo) or (hi is not None and kv > hi):
                        continue
                c2.append((hk, key))
            if len(c2) > 300:
                raise Cut("dictionary with %d keys indexed by an abstract value" % len(c2))
            i = self.choose(len(c2) + 1) if c2 else 0
            for j, (hk, key) in enumerate(c2):
                kv = self.asint(key)
                if j == i:
                    if not self.facts.assume_eq(add(kk, kv, -1), 0):
                        raise Infeasible()
                    return hk
            for hk, key in c2:
                if not self.facts.assume_ne(add(kk, self.asint(key), -1), 0):
                    raise Infeasible()
            return MISSING
        for hk, key in cands:
            if self.truth(self.cmp("eq", key, k)):
                return hk
        return MISSING

    def dict_set(self, d, k, v):
        self.hw(d)
        h = self.hkey(k)
        if h is None and k is not None:
            f = self.dict_find(d, k)
            if f is not MISSING:
                d.p[f] = (d.p[f][0], v)
                return
            h = ("abs", k if not isinstance(k, Obj) else id(k))
        if isinstance(h, tuple) and len(h) == 2 and h[0] == "h":
            f = self.dict_find(d, k)
            h = f if f is not MISSING else ("h", h[1], len(d.p))
        if h in d.p:
            d.p[h] = (d.p[h][0], v)
        else:
            d.p[h] = (k, v)

    # ---------------------------------------------------------------- errors
    def throw(self, t, *args):
        e = self.new(t)
        e.d["args"] = tuple(args)
        e.d["__where__"] = (self.cur[0], self.cur[1], self.stack[-1] if self.stack else "<module>")
        raise PyRaise(e)

    def reraise(self, pyexc):
        self.throw(type(pyexc), str(pyexc))

    # ---------------------------------------------------------------- classes
    def mro_of(self, cv):
        seqs = []
        for b in cv.bases:
            if isinstance(b, ClassVal):
                seqs.append(list(b.mro))
            else:
                seqs.append([b])
        seqs.append(list(cv.bases))
        out = [cv]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            seqs = [[x for x in s if x is not c and x != c] if s[0] is c or s[0] == c else s for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, cls, name):
        """attribute through the mro: (value, class) or (None, None)."""
        if not isinstance(cls, ClassVal):
            return None, None
        for c in cls.mro:
            if isinstance(c, ClassVal):
                if name in c.d:
                    return c.d[name], c
        return None, None

    def subclass(self, a, b):
        """a <: b : True/False, or None if not known"""
        if a is b or b is object:
            return True
        if isinstance(b, Union):
            rs = [self.subclass(a, x) for x in b.items]
            return True if True in rs else (None if None in rs else False)
        if isinstance(b, tuple):
            rs = [self.subclass(a, x) for x in b]
            return True if True in rs else (None if None in rs else False)
        if b is None:
            return a is type(None)
        if isinstance(b, Obj) and b.cls in (list, set):
            self.throw(TypeError, "isinstance() arg 2 must be a type")
        if isinstance(a, ClassVal):
            if isinstance(b, ClassVal):
                return b in a.mro
            if isinstance(b, type):
                for c in a.mro:
                    if isinstance(c, type) and issubclass(c, b):
                        return True
                if b is int and a.kind in ("intenum", "intflag"):
                    return True
                if b is str and a.kind == "strenum":
                    return True
                return False
            if isinstance(b, Ext):
                if b.path in ("enum.Enum", "enum.IntEnum", "enum.IntFlag", "enum.Flag"):
                    return any(isinstance(c, Ext) and c == b for c in a.mro) or (b.path == "enum.Enum" and a.kind in ("enum", "intenum", "intflag", "flag"))
                return any(isinstance(c, Ext) and c == b for c in a.mro)
            return None
        if isinstance(a, type):
            if isinstance(b, type):
                return issubclass(a, b)
            if isinstance(b, ClassVal):
                return False
            if isinstance(b, Ext):
                return self.ext_isinstance(a, b)
            return None
        if isinstance(a, str):      # internal kinds
            return False
        if isinstance(a, Ext):
            if isinstance(b, Ext):
                return a == b or None
            return False if isinstance(b, ClassVal) else None
        return None

    def ext_isinstance(self, a, b):
        n = b.path.rsplit(".", 1)[-1]
        table = {"Callable": (), "Sequence": (str, bytes, list, tuple, range, bytearray, memoryview), "Iterable": (str, bytes, list, tuple, dict, set, range),
                 "Mapping": (dict,), "MutableSequence": (list, bytearray), "Number": (int, float)}
        if n in table:
            return issubclass(a, table[n]) if table[n] else False
        return False

    def typeof(self, v):
        v = self.facts.norm(v)
        if isinstance(v, Obj):
            if isinstance(v, ClassVal):
                return type
            if isinstance(v, FuncVal):
                return "function"
            return v.cls
        if isinstance(v, Lin):
            return int
        if isinstance(v, BitBool):
            return bool
        if isinstance(v, Byt):
            return bytes
        if isinstance(v, SStr):
            return str
        if isinstance(v, Term):
            return v.typ
        if isinstance(v, type):
            return type
        if isinstance(v, (Nat, NatM, Bound)):
            return "function"
        if isinstance(v, Ext):
            return None
        return type(v)

    def isinst(self, v, cls):
        """bool, or splits when not known"""
        if isinstance(v, Term) and v.typ is None:
            k = Term("isinstance", (v, _clskey(cls)), bool)
            return self.truth(k)
        t = self.typeof(v)
        if t is None:
            r = None
        else:
            r = self.subclass(t, cls)
        if r is None:
            # may be any: protocol classes / external
            if isinstance(cls, Ext) and isinstance(v, Obj):
                return False
            return self.truth(Term("isinstance", (_vkey(v), _clskey(cls)), bool))
        return r

    def native_of(self, v):
        """underlying built-in value of an instance of a built-in subclass / IntEnum; else v"""
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            c = v.cls
            if "_value_" in v.d and c.kind in ("intenum", "intflag", "strenum"):
                return v.d["_value_"]
            if c.native is not None and v.p is not None:
                return v.p
        return v

    def asint(self, v):
        """int/Lin view of v, or None"""
        v = self.native_of(self.facts.norm(v))
        if isinstance(v, BitBool):
            return v.lin()
        if isinstance(v, Lin):
            return self.facts.norm(v)
        if isinstance(v, int):
            return int(v)
        if isinstance(v, Term) and v.typ is int:
            return self.facts.norm(opq(v))
        return None

    def unopq(self, v):
        return v

    # ---------------------------------------------------------------- decisions
    def decide_bit(self, fs, k):
        """truth of affine bit (fs xor k)"""
        fs, k = self.facts.nbit(fs, k)
        if not fs:
            return bool(k)
        c = self.choose(2)
        want = 1 if c == 0 else 0
        if not self.facts.assume_bit(fs, k ^ want) or not self.facts.recheck():
            raise Infeasible()
        return bool(want)

    def decide_eq(self, v):
        """truth of v == 0 for integer v"""
        v = self.facts.norm(v)
        if isinstance(v, int):
            return v == 0
        g = _math.gcd(*(k for _, k in v.t))
        if g > 1:
            if v.c % g:
                return False
            v = Lin(v.c // g, tuple((a, k // g) for a, k in v.t))
        lo, hi = self.facts.interval(v)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        t, s = self.facts.canon(v.t)
        if -v.c * s in self.facts.ne.get(t, ()):
            return False
        b = None
        if all(a[0] == "b" for a, _ in v.t):
            m = sum(k for _, k in v.t if k < 0)
            b = bits_of(Lin(-m, v.t))
            tgt = -v.c - m
            if b is not None:
                if tgt < 0 or tgt >> len(b):
                    return False
                for i, (fs, k) in enumerate(b):
                    if not fs and k != (tgt >> i) & 1:
                        return False
            if self.facts.ne.get(t) or self.facts.iv.get(t):
                vals = self.facts.values(v)
                if vals is not None:
                    if 0 not in vals:
                        return False
                    if vals == {0}:
                        return True
        c = self.choose(2)
        if c == 0:
            if not self.facts.assume_eq(v, 0):
                raise Infeasible()
            return True
        if not self.facts.assume_ne(v, 0):
            raise Infeasible()
        return False

    def decide_le(self, v):
        """truth of v <= 0"""
        v = self.facts.norm(v)
        if isinstance(v, int):
            return v <= 0
        g = _math.gcd(*(k for _, k in v.t))
        if g > 1:
            v = Lin(-((-v.c) // g), tuple((a, k // g) for a, k in v.t))
        lo, hi = self.facts.interval(v)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        r = self.decide_le_bits(v)
        if r is not None:
            return r
        if len(v.t) == 1 and v.t[0][0][0] == "o" and v.t[0][0][1].op == "bit_length" and abs(v.t[0][1]) == 1:
            x, n = v.t[0][0][1].args[0], -v.c
            if v.t[0][1] > 0:       # bit_length(x) <= n
                return n >= 0 and self.decide_le(add(x, -((1 << n) - 1))) and self.decide_le(add(-((1 << n) - 1), x, -1))
            n = v.c - 1             # bit_length(x) >= c  <=>  not bit_length(x) <= c - 1
            return not (n >= 0 and self.decide_le(add(x, -((1 << n) - 1))) and self.decide_le(add(-((1 << n) - 1), x, -1)))
        c = self.choose(2)
        if c == 0:
            if not self.facts.assume_range(v, None, 0):
                raise Infeasible()
            return True
        if not self.facts.assume_range(v, 1, None):
            raise Infeasible()
        return False

    def decide_le_bits(self, v):
        """v <= 0 for a bit vector against a constant, as equalities of high parts (exact, no interval loss)."""
        if any(a[0] != "b" for a, _ in v.t):
            return None
        neg = sum(k for _, k in v.t if k < 0)
        pos = sum(k for _, k in v.t if k > 0)
        if pos == 0 or (neg and -neg > pos):
            # mostly negative: v <= 0  <=>  not (-v <= -1)
            w = scale(v, -1)
            t = bits_of(Lin(-sum(k for _, k in w.t if k < 0), w.t))
            if t is None:
                return None
            # w >= 0  <=> T >= n  with T = bits, n = -(w.c + neg part)
            n = -(w.c + sum(k for _, k in w.t if k < 0))
            r = self.below(t, n)
            return None if r is None else not r
        t = bits_of(Lin(-neg, v.t))
        if t is None:
            return None
        n = -(v.c + neg)          # T <= n
        return self.below(t, n + 1)

    def below(self, bits, m):
        """truth of T < m for the bit vector T (little-endian affine bits)"""
        if m <= 0:
            return False
        if m >> len(bits):
            return True
        if bin(m).count("1") > 6 and bin((1 << len(bits)) - m).count("1") < 4:
            # T < m  <=>  not (T >= m); complement has the shorter decomposition
            inv = [(fs, k ^ 1) for fs, k in bits]
            return not self.below(inv, (1 << len(bits)) - m)
        if bin(m).count("1") > 6:
            return None
        pre = 0
        for b in range(m.bit_length() - 1, -1, -1):
            if (m >> b) & 1:
                # numbers with the prefix of m above b and bit b zero
                hi = from_bits(bits[b:])
                if self.decide_eq(self.facts.norm(add(hi, -(pre >> b)))):
                    return True
                pre |= 1 << b
        return False

    def truth(self, v):
        v = self.facts.norm(v)
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple, frozenset, range)):
            return bool(v)
        if isinstance(v, BitBool):
            return self.decide_bit(v.fs, v.k)
        if isinstance(v, Lin):
            return not self.decide_eq(v)
        if isinstance(v, Byt):
            n = blen(v)
            return not self.decide_eq(n) if not isinstance(n, int) else n != 0
        if isinstance(v, SStr):
            if any(isinstance(x, str) or x.spec == "d" for x in v.p):
                return True
            if all(x.spec in ("hex", "hex ") for x in v.p):
                return any(self.truth(x.v) for x in v.p)
            return self.truth(Term("truth", (v,), bool))
        if isinstance(v, Term):
            f = self.facts.truth.get(v)
            if f is not None:
                return f
            if v.op == "not":
                r = not self.truth(v.args[0])
                return r
            if self.loading and self.gen == 0:
                return False
            r = self.choose(2) == 0
            self.facts.truth[v] = r
            return r
        if isinstance(v, Obj):
            if isinstance(v, (ClassVal, FuncVal, ModVal)):
                return True
            if v.cls in (list, dict, set) or v.cls is _coll.deque:
                return len(v.p) != 0
            if v.cls is bytearray or v.cls is memoryview:
                return self.truth(self.length(v))
            if isinstance(v.cls, ClassVal):
                if "_value_" in v.d and v.cls.kind in ("intenum", "intflag", "flag"):
                    return self.truth(v.d["_value_"])
                f, _ = self.lookup(v.cls, "__bool__")
                if isinstance(f, FN):
                    r = self.call(f, [v])
                    return self.truth(r)
                f, _ = self.lookup(v.cls, "__len__")
                if isinstance(f, FN):
                    r = self.call(f, [v])
                    return self.truth(r)
                if v.cls.native is not None:
                    return self.truth(v.p)
            return True
        return True

    # ---------------------------------------------------------------- operators
    def arith(self, op, x, y):
        """integers (int or Lin)"""
        f = self.facts
        x, y = f.norm(x), f.norm(y)
        if isinstance(x, int) and isinstance(y, int):
            try:
                if op in ("lshift", "pow") and abs(y) > 5000:
                    raise Unsupported("huge shift")
                return PYOP[op](x, y)
            except (ZeroDivisionError, ValueError, OverflowError) as e:
                self.reraise(e)
        if op == "add":
            return add(x, y)
        if op == "sub":
            return add(x, y, -1)
        if op == "mul":
            if isinstance(y, int):
                return scale(x, y)
            if isinstance(x, int):
                return scale(y, x)
            for a, b in ((x, y), (y, x)):
                if len(a.t) == 1 and a.t[0][0][0] == "b" and a.c == 0:
                    fs = a.t[0][0][1]
                    if self.decide_bit(fs, 0):
                        return self.arith("mul", a.t[0][1], f.norm(b))
                    return 0
            return opq(Term("mul", (x, y), int))
        if op == "lshift":
            if isinstance(y, int):
                if y < 0:
                    self.throw(ValueError, "negative shift count")
                return scale(x, 1 << y)
            y = self.small(y)
            if y is None:
                return opq(Term("lshift", (x, y), int))
            return self.arith(op, x, y)
        if op in ("rshift", "floordiv", "mod") and isinstance(y, int):
            if op == "rshift":
                if y < 0:
                    self.throw(ValueError, "negative shift count")
                sh = y
            elif y == 0:
                self.throw(ZeroDivisionError, "division by zero")
            elif y > 0 and y & (y - 1) == 0:
                sh = y.bit_length() - 1
            else:
                sh = None
            lo, hi = f.interval(x)
            if sh is not None:
                b = self.tobits(x)
                if b is not None:
                    return from_bits(b[:sh]) if op == "mod" else from_bits(b[sh:])
                # drop multiples
                d = 1 << sh
                if op != "mod" and x.c % d == 0 and all(k % d == 0 for _, k in x.t):
                    return mk(x.c // d, {a: k // d for a, k in x.t})
                if op == "mod" and all(k % d == 0 for _, k in x.t):
                    return x.c % d
                y2 = d
            else:
                y2 = y
                if y > 0 and x.c % y == 0 and all(k % y == 0 for _, k in x.t):
                    return mk(x.c // y, {a: k // y for a, k in x.t}) if op == "floordiv" else 0
            if lo is not None and hi is not None and y2 > 0 and lo // y2 == hi // y2:
                q = lo // y2
                return q if op != "mod" else add(x, -q * y2)
            vals = self.smallvals(x, 256)
            if vals is not None:
                v = self.pick(x, vals)
                return self.arith(op, v, y)
            t = Term(op, (x, y), int)
            r = opq(t)
            if op == "mod" and y > 0:
                f.iv[r.t] = (0, y - 1)
            elif op in ("floordiv", "rshift") and y2 > 0:
                f.iv[r.t] = (None if lo is None else lo // y2, None if hi is None else hi // y2)
            return r
        if op in ("and", "or", "xor"):
            r = self.bitop(op, x, y)
            if r is not None:
                return r
            for a in (x, y):
                if isinstance(a, Lin):
                    vals = self.smallvals(a, 256)
                    if vals is not None:
                        self.pick(a, vals)
                        if not isinstance(f.norm(a), int):
                            raise Unsupported("bit operation on %r" % (a,))
                        return self.arith(op, f.norm(x), f.norm(y))
            if op == "and":
                for a, b in ((x, y), (y, x)):
                    if isinstance(b, int) and b >= 0:
                        # only the low bits matter: use modular view when the mask is low
                        m = b
                        w = m.bit_length()
                        red = self.modbits(a, w)
                        if red is not None:
                            r = self.bitop("and", red, b)
                            if r is not None:
                                return r
                        r = opq(Term("and", (a, b), int))
                        f.iv[r.t] = (0, b)
                        return r
            r = opq(Term(op, (x, y), int))
            (xl, xh), (yl, yh) = f.interval(x), f.interval(y)
            nx, ny = xl is not None and xl >= 0, yl is not None and yl >= 0
            mx, my = xh is not None and xh < 0, yh is not None and yh < 0
            if op == "or":
                if nx and ny:
                    f.iv[r.t] = (max(xl, yl), None if xh is None or yh is None else (1 << max(xh, yh).bit_length()) - 1)
                elif mx or my:
                    f.iv[r.t] = (None, -1)
            elif op == "and":
                if nx or ny:
                    f.iv[r.t] = (0, min([h for n, h in ((nx, xh), (ny, yh)) if n and h is not None], default=None))
                elif mx and my:
                    f.iv[r.t] = (None, -1)
            elif nx and ny:
                f.iv[r.t] = (0, None)
            return r
        if op == "truediv":
            if isinstance(y, int) and y == 0:
                self.throw(ZeroDivisionError, "division by zero")
            return Term("truediv", (x, y), float)
        if op in ("floordiv", "mod", "rshift"):
            if op != "rshift" and self.decide_eq(y):
                self.throw(ZeroDivisionError, "integer division or modulo by zero")
            y2 = f.norm(y)
            if isinstance(y2, int):
                return self.arith(op, x, y2)
            y3 = self.small(y2)
            if y3 is not None:
                return self.arith(op, f.norm(x), y3)
            r = opq(Term(op, (x, y2), int))
            return r
        if op == "pow":
            y = self.small(y)
            if isinstance(x, int) and y is not None:
                return self.arith("pow", x, y)
            if y == 2:
                return self.arith("mul", x, x)
            return opq(Term("pow", (x, y), int))
        raise Unsupported("operator %s" % op)

    def modbits(self, a, w):
        """a mod 2**w as a bit form, when the high part can be dropped"""
        c, d = lin_parts(a)
        m = 1 << w
        d2 = {k: v % m for k, v in d.items()}
        # prefer small negative as is
        r = mk(c % m, d2)
        b = self.tobits(r)
        if b is None:
            return None
        return from_bits(b[:w])

    def tobits(self, v):
        v = self.facts.norm(v)
        b = bits_of(v)
        if b is not None or isinstance(v, int):
            return b
        # bit-blast symbols of known non-negative bounded range
        done = False
        for a, k in v.t:
            if a[0] == "s":
                lo, hi = self.facts.interval(Lin(0, ((a, 1),)))
                if lo is None or hi is None or lo < -(1 << 64) or hi >= (1 << 72):
                    return None
        for a, k in v.t:
            if a[0] == "s":
                self.blast(a[1])
                done = True
        if not done:
            return None
        v = self.facts.norm(v)
        return bits_of(v)

    def blast(self, name):
        a = ("s", name)
        lo, hi = self.facts.interval(Lin(0, ((a, 1),)))
        if lo < 0:
            w = max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0) + 1
            r = 0
            for i in range(w - 1):
                r = add(r, bit("%s.%d" % (name, i)), 1 << i)
            r = add(r, bit("%s.%d" % (name, w - 1)), -(1 << (w - 1)))
        else:
            w = max(1, hi.bit_length())
            r = byte(name, w)
        f = self.facts
        old = f.iv.pop(((a, 1),), None)
        ne = f.ne.pop(((a, 1),), None)
        f.ssub[name] = r
        if not f.recheck() or not f.assume_range(r, lo, hi):
            raise Infeasible()
        for x in ne or ():
            if not f.assume_ne(r, x):
                raise Infeasible()

    def bitop(self, op, x, y):
        bx, by = self.tobits(x), self.tobits(y)
        if bx is None or by is None:
            # negative constants as masks: x & ~m
            if op == "and":
                for a, b, bb in ((x, y, bx), (y, x, by)):
                    if isinstance(b, int) and b < 0 and bb is not None:
                        w = len(bb)
                        return self.bitop("and", a, b & ((1 << w) - 1))
                # -1 complement form of a bit expression: (-1 - z)
                for a, b in ((x, y), (y, x)):
                    if isinstance(a, Lin) and not isinstance(b, int) or isinstance(a, Lin):
                        z = add(-1, a, -1)     # ~a
                        bz = self.tobits(z)
                        bb = self.tobits(b)
                        if bz is not None and bb is not None:
                            w = len(bb)
                            bz = (bz + [(frozenset(), 0)] * w)[:w]
                            inv = [(fs, k ^ 1) for fs, k in bz]
                            return self.bitop("and", from_bits(inv), b)
            return None
        n = max(len(bx), len(by))
        zero = (frozenset(), 0)
        bx = bx + [zero] * (n - len(bx))
        by = by + [zero] * (n - len(by))
        out = []
        for i in range(n):
            p, q = self.facts.nbit(*bx[i]), self.facts.nbit(*by[i])
            if op == "xor":
                out.append(xor_bit(p, q))
                continue
            if op == "and":
                r = mkand(p, q)
            else:
                r = mkand((p[0], p[1] ^ 1), (q[0], q[1] ^ 1))
                r = (r[0], r[1] ^ 1)
            out.append(r)
        return self.facts.norm(from_bits(out))

    def smallvals(self, v, limit):
        """set of possible values when few"""
        v = self.facts.norm(v)
        if isinstance(v, int):
            return {v}
        vals = self.facts.values(v, limit.bit_length() - 1)
        if vals is not None and len(vals) <= limit:
            return vals
        if len(v.t) == 1 and v.t[0][0][0] != "b":
            lo, hi = self.facts.interval(v)
            if lo is not None and hi is not None and hi - lo < limit:
                t, s = self.facts.canon(v.t)
                ne = self.facts.ne.get(t, ())
                return {x for x in range(lo, hi + 1) if (x - v.c) * s not in ne}
        return None

    def pick(self, v, vals):
        vals = sorted(vals)
        i = self.choose(len(vals)) if len(vals) > 1 else 0
        if not vals:
            raise Infeasible()
        if not self.facts.assume_eq(v, vals[i]):
            raise Infeasible()
        return vals[i]

    def small(self, v, limit=32):
        """concrete value of v, splitting over a small range; None if not small"""
        v = self.facts.norm(v)
        if isinstance(v, int):
            return v
        if not isinstance(v, Lin):
            return None
        vals = self.smallvals(v, limit)
        if vals is None:
            return None
        return self.pick(v, vals)

    def binop(self, op, a, b):
        a, b = self.facts.norm(a), self.facts.norm(b)
        # user dunders
        if isinstance(a, Obj) and isinstance(a.cls, ClassVal) or isinstance(b, Obj) and isinstance(b.cls, ClassVal):
            if isinstance(a, Obj) and isinstance(a.cls, ClassVal) and not isinstance(a, ClassVal):
                f, _ = self.lookup(a.cls, "__%s__" % op)
                if isinstance(f, FN):
                    r = self.call(f, [a, b])
                    if r is not NOTIMPL:
                        return r
            if isinstance(b, Obj) and isinstance(b.cls, ClassVal) and not isinstance(b, ClassVal):
                f, _ = self.lookup(b.cls, "__r%s__" % op)
                if isinstance(f, FN):
                    r = self.call(f, [b, a])
                    if r is not NOTIMPL:
                        return r
            if op in ("or", "and", "xor"):
                for v in (a, b):
                    if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.kind in ("flag", "intflag") and "_value_" in v.d:
                        x = a.d["_value_"] if isinstance(a, Obj) and "_value_" in a.d else a
                        y = b.d["_value_"] if isinstance(b, Obj) and "_value_" in b.d else b
                        return self.mkflag(v.cls, self.arith(op, x, y))
        na, nb = self.native_of(a), self.native_of(b)
        if op == "or" and (isinstance(na, (ClassVal, type, Ext, Union)) or isinstance(nb, (ClassVal, type, Ext, Union))):
            items = []
            for v in (na, nb):
                items.extend(v.items if isinstance(v, Union) else [v])
            return Union(items)
        if isinstance(na, CONST) and isinstance(nb, CONST):
            if na is None or nb is None:
                self.throw(TypeError, "unsupported operand type(s) for %s" % op)
            try:
                if op in ("pow", "lshift") and isinstance(nb, int) and abs(nb) > 5000:
                    raise Unsupported("huge %s" % op)
                return PYOP[op](na, nb)
            except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
                self.reraise(e)
        # sequences
        if op == "add":
            x, y = self.byteslike(na), self.byteslike(nb)
            if x is not None and y is not None:
                r = byt([x, y]) if not (isinstance(x, bytes) and isinstance(y, bytes)) else x + y
                if isinstance(na, Obj) and na.cls is bytearray:
                    return self.new(bytearray, r)
                return r
            if isinstance(na, (str, SStr)) and isinstance(nb, (str, SStr)):
                return mkstr((list(na.p) if isinstance(na, SStr) else [na]) + (list(nb.p) if isinstance(nb, SStr) else [nb]))
            if isinstance(na, tuple) and isinstance(nb, tuple):
                return na + nb
            if isinstance(na, Obj) and na.cls is list and isinstance(nb, Obj) and nb.cls is list:
                return self.mklist(na.p + nb.p)
        if op == "mul":
            for x, y in ((na, nb), (nb, na)):
                n = self.asint(y)
                if n is not None:
                    if isinstance(x, Obj) and x.cls is list or isinstance(x, tuple):
                        n = self.small(n)
                        if n is None:
                            raise Cut("sequence repeated an unknown number of times")
                        return self.mklist(x.p * n) if isinstance(x, Obj) else x * n
                    if isinstance(x, (bytes, Byt)):
                        k = self.small(n)
                        if k is not None:
                            return byt(bparts(x) * max(0, k))
                        if isinstance(x, bytes) and len(set(x)) == 1 and len(x) == 1:
                            return Byt((Seg(("rep", x), 0, n),))
                        raise Cut("bytes repeated an unknown number of times")
                    if isinstance(x, (str, SStr)):
                        k = self.small(n)
                        if isinstance(x, str) and k is not None:
                            return x * k
                        return Term("strmul", (x, n), str)
        if op == "mod" and isinstance(na, str) and (isinstance(nb, CONST) or isinstance(nb, tuple) and all(isconst(self.native_of(x)) for x in nb)):
            try:
                return na % (tuple(self.native_of(x) for x in nb) if isinstance(nb, tuple) else nb)
            except (TypeError, ValueError) as e:
                self.reraise(e)
        if op == "mod" and isinstance(na, (str, SStr)):
            return Term("strformat", (na, _vkey(nb)), str)
        if op in ("or", "and", "sub", "xor") and self.isset(na) and self.isset(nb):
            return self.setop(op, na, nb)
        if op == "or" and isinstance(na, Obj) and na.cls is dict and isinstance(nb, Obj) and nb.cls is dict:
            return self.mkdict(list(na.p.values()) + list(nb.p.values()))
        x, y = self.asint(na), self.asint(nb)
        if x is not None and y is not None:
            r = self.arith(op, x, y)
            if op in ("and", "or", "xor") and self.typeof(na) is bool and self.typeof(nb) is bool and isinstance(r, (int, Lin)):
                return self.tobool(r)
            return r
        if isinstance(na, Term) or isinstance(nb, Term) or isinstance(na, float) or isinstance(nb, float) or isinstance(na, Ext) or isinstance(nb, Ext):
            if na is None or nb is None:
                self.throw(TypeError, "unsupported operand")
            typ = None
            ta, tb = self.typeof(na), self.typeof(nb)
            if ta in (int, float, bool) and tb in (int, float, bool):
                typ = float
            elif ta is not None and ta is tb:
                typ = ta
            if typ in (str,) and op == "add":
                return mkstr([Fmt(na, "str") if isinstance(na, Term) else na] + [Fmt(nb, "str") if isinstance(nb, Term) else nb]) if False else Term(op, (na, nb), str)
            if typ is bytes and op == "add":
                return byt([self.term_bytes(na), self.term_bytes(nb)])
            if typ in (str, bytes) or (ta in (str, bytes, int, float) and tb in (str, bytes, int, float) and ((ta in (str, bytes)) != (tb in (str, bytes)))):
                if not (op == "mul"):
                    self.throw(TypeError, "unsupported operand types")
            return Term(op, (_vkey(na), _vkey(nb)), typ)
        self.throw(TypeError, "unsupported operand type(s) for %s: %s and %s" % (op, cname(self.typeof(na)), cname(self.typeof(nb))))

    def term_bytes(self, t):
        if isinstance(t, Term):
            n = opq(Term("len", (t,), int))
            if self.facts.iv.get(n.t) is None:
                self.facts.iv[n.t] = (0, None)
            return Byt((Seg(t, 0, n),))
        return t

    def tobool(self, r):
        r = self.facts.norm(r)
        if isinstance(r, int):
            return bool(r)
        b = bits_of(r)
        if b is not None and len(b) == 1:
            return BitBool(*b[0])
        return self.truth(r)

    def isset(self, v):
        return (isinstance(v, Obj) and v.cls is set) or isinstance(v, frozenset) or (isinstance(v, Obj) and v.cls == "dictkeys")

    def setitems(self, v):
        if isinstance(v, frozenset):
            return list(v)
        return [k for k, _ in v.p.values()]

    def setop(self, op, a, b):
        x, y = self.setitems(a), self.setitems(b)
        s = self.mkset(())
        by = self.mkset(y)
        bx = self.mkset(x)
        if op == "or":
            out = x + y
        elif op == "and":
            out = [k for k in x if self.dict_find(by, k) is not MISSING]
        elif op == "sub":
            out = [k for k in x if self.dict_find(by, k) is MISSING]
        else:
            out = [k for k in x if self.dict_find(by, k) is MISSING] + [k for k in y if self.dict_find(bx, k) is MISSING]
        for k in out:
            self.dict_set(s, k, k)
        return s

    def mkflag(self, cls, v):
        v = self.facts.norm(v)
        if isinstance(v, int):
            for m in (cls.members or {}).values():
                if m.d["_value_"] == v:
                    return m
        o = self.new(cls)
        o.d["_value_"] = v
        o.d["_name_"] = None
        if isinstance(v, int) and v > 0:
            parts = [m for m in (cls.members or {}).values() if isinstance(m.d["_value_"], int) and m.d["_value_"] > 0 and m.d["_value_"] & (m.d["_value_"] - 1) == 0
                     and m.d["_value_"] & v]
            if sum(m.d["_value_"] for m in parts) == v:
                o.d["_name_"] = "|".join(m.d["_name_"] for m in parts)
        o.d["name"] = o.d["_name_"]
        o.d["value"] = v
        return o

    def unop(self, op, v):
        v = self.facts.norm(v)
        if isinstance(op, ast.Not):
            if isinstance(v, BitBool):
                return BitBool(v.fs, v.k ^ 1)
            if isinstance(v, Term):
                return Term("not", (v,), bool) if v.op != "not" or v.args[0].typ is not bool else v.args[0]
            return not self.truth(v)
        name = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(op)]
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and not isinstance(v, ClassVal):
            f, _ = self.lookup(v.cls, name)
            if isinstance(f, FuncVal):
                return self.call(f, [v])
            if v.cls.kind in ("intflag", "flag") and "_value_" in v.d and name == "__invert__":
                m = 0
                for x in v.cls.members.values():
                    m |= x.d["_value_"]
                return self.mkflag(v.cls, self.arith("xor", self.arith("and", v.d["_value_"], m), m))
        v = self.native_of(v)
        if isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, bool):
            try:
                return {ast.USub: _op.neg, ast.UAdd: _op.pos, ast.Invert: _op.invert}[type(op)](v)
            except TypeError as e:
                self.reraise(e)
        x = self.asint(v)
        if x is not None:
            if isinstance(op, ast.USub):
                return scale(x, -1)
            if isinstance(op, ast.UAdd):
                return x
            return add(-1, x, -1)
        if isinstance(v, Term):
            return Term(name, (v,), v.typ)
        if isinstance(v, _dt.timedelta):
            return -v
        self.throw(TypeError, "bad operand type for unary %s" % name)

    def byteslike(self, v):
        v = self.native_of(v)
        if isinstance(v, (bytes, Byt)):
            return v
        if isinstance(v, Obj) and v.cls is bytearray:
            return v.p
        if isinstance(v, Obj) and v.cls is memoryview:
            base, off, n = v.p
            return self.bslice(self.byteslike(base), off, add(off, n))
        return None

    def cmp(self, op, a, b):
        a, b = self.facts.norm(a), self.facts.norm(b)
        if op == "ne":
            if isinstance(a, Obj) and isinstance(a.cls, ClassVal):
                f, _ = self.lookup(a.cls, "__ne__")
                if isinstance(f, FN):
                    r = self.call(f, [a, b])
                    if r is not NOTIMPL:
                        return r
            r = self.cmp("eq", a, b)
            if isinstance(r, bool):
                return not r
            if isinstance(r, BitBool):
                return BitBool(r.fs, r.k ^ 1)
            if isinstance(r, Term):
                return Term("not", (r,), bool)
            return not self.truth(r)
        ua = isinstance(a, Obj) and isinstance(a.cls, ClassVal) and not isinstance(a, ClassVal)
        ub = isinstance(b, Obj) and isinstance(b.cls, ClassVal) and not isinstance(b, ClassVal)
        if ua or ub:
            order = [(a, b, op), (b, a, SWAP[op])]
            if ua and ub and a.cls is not b.cls and a.cls in b.cls.mro:
                order.reverse()
            for x, y, o in order:
                if isinstance(x, Obj) and isinstance(x.cls, ClassVal) and not isinstance(x, ClassVal):
                    f, _ = self.lookup(x.cls, "__%s__" % o)
                    if isinstance(f, FN):
                        r = self.call(f, [x, y])
                        if r is not NOTIMPL:
                            return r
            if op == "eq":
                if a is b:
                    return True
                if ua and ub and a.cls.dc is not None and a.cls is b.cls and a.cls.dc.get("eq", True):
                    for n, _ in self.dc_fields(a.cls):
                        if not self.truth(self.cmp("eq", a.d.get(n), b.d.get(n))):
                            return False
                    return True
            elif ua and ub and a.cls is b.cls and a.cls.dc is not None and a.cls.dc.get("order"):
                ta = tuple(a.d.get(n) for n, _ in self.dc_fields(a.cls))
                tb = tuple(b.d.get(n) for n, _ in self.dc_fields(b.cls))
                return self.cmp(op, ta, tb)
        na, nb = self.native_of(a), self.native_of(b)
        if isinstance(na, CONST) and isinstance(nb, CONST):
            if op != "eq" and (na is None or nb is None):
                self.throw(TypeError, "'%s' not supported with None" % op)
            try:
                return PYCMP[op](na, nb)
            except TypeError as e:
                self.reraise(e)
        x, y = self.asint(na), self.asint(nb)
        if x is not None and y is not None:
            return self.cmp_int(op, x, y)
        bx, by = self.byteslike(na), self.byteslike(nb)
        if bx is not None and by is not None:
            if op == "eq":
                return self.eq_bytes(bx, by)
            if isinstance(bx, bytes) and isinstance(by, bytes):
                return PYCMP[op](bx, by)
            nx, ny = self.facts.norm(blen(bx)), self.facts.norm(blen(by))
            if isinstance(nx, int) and isinstance(ny, int):
                return self.cmp_seq(op, [self.bindex(bx, i) for i in range(nx)], [self.bindex(by, i) for i in range(ny)])
            return Term("cmp" + op, (bx, by), bool)
        if isinstance(na, (str, SStr)) and isinstance(nb, (str, SStr)):
            if na == nb:
                return op in ("eq", "le", "ge")
            if op == "eq":
                r = self.eq_str(na, nb)
                if r is not None:
                    return r
            return Term("cmp" + op, (na, nb), bool)
        sa, sb = self.seqitems(na), self.seqitems(nb)
        if sa is not None and sb is not None and self.seqkind(na) == self.seqkind(nb):
            return self.cmp_seq(op, sa, sb)
        if self.isset(na) and self.isset(nb):
            ia, ib = self.setitems(na), self.setitems(nb)
            pa, pb = self.mkset(ia), self.mkset(ib)
            sub = all(self.dict_find(pb, k) is not MISSING for k in ia)
            sup = all(self.dict_find(pa, k) is not MISSING for k in ib)
            return {"eq": sub and sup, "le": sub, "ge": sup, "lt": sub and not sup, "gt": sup and not sub}[op]
        if isinstance(na, Obj) and isinstance(nb, Obj) and na.cls is dict and nb.cls is dict and op == "eq":
            if len(na.p) != len(nb.p):
                return False
            for k, v in list(na.p.values()):
                h = self.dict_find(nb, k)
                if h is MISSING or not self.truth(self.cmp("eq", v, nb.p[h][1])):
                    return False
            return True
        if op == "eq":
            if na is nb:
                return True
            if isinstance(na, Term) or isinstance(nb, Term):
                if isinstance(na, Term) and isinstance(nb, Term):
                    if na == nb:
                        return True
                    if na.op == nb.op == "hash" and self.truth(self.cmp("eq", na.args[0], nb.args[0])):
                        return True
                ta, tb = self.typeof(na), self.typeof(nb)
                if ta is not None and tb is not None and ta is not tb and \
                        (na is None or nb is None or (ta in (str, bytes) and tb in (str, bytes, int, float))
                         or (tb in (str, bytes) and ta in (int, float))):
                    return False
                k = sorted((na, nb), key=lambda z: (not isinstance(z, Term), repr(z)))
                t = Term("eq", tuple(_vkey(z) for z in k), bool)
                return t
            if isinstance(na, Ext) or isinstance(nb, Ext):
                if isinstance(na, Ext) and isinstance(nb, Ext):
                    return na == nb
                return False
            if isinstance(na, float) or isinstance(nb, float):
                if (x is not None or isinstance(na, float)) and (y is not None or isinstance(nb, float)):
                    fl, li = (na, y) if isinstance(na, float) else (nb, x)
                    if li is not None and fl == int(fl):
                        return self.cmp_int("eq", li, int(fl))
                    return False
            if isinstance(na, Bound) and isinstance(nb, Bound):
                return na == nb
            return False
        if isinstance(na, Term) or isinstance(nb, Term) or isinstance(na, float) or isinstance(nb, float):
            if na is None or nb is None:
                self.throw(TypeError, "'%s' not supported with None" % op)
            fl, li = (nb, x) if isinstance(nb, float) else ((na, y) if isinstance(na, float) else (None, None))
            if fl is not None and li is not None and fl == fl and abs(fl) != _math.inf:
                # integer against float constant
                o = op if isinstance(nb, float) else SWAP[op]
                if o in ("lt", "ge"):
                    r = self.cmp_int("lt", li, _math.ceil(fl))
                    return r if o == "lt" else self.negb(r)
                r = self.cmp_int("le", li, _math.floor(fl))
                return r if o == "le" else self.negb(r)
            ta, tb = self.typeof(na), self.typeof(nb)
            num = (int, float, bool)
            if ta is not None and tb is not None and ta is not tb and not (ta in num and tb in num):
                self.throw(TypeError, "'%s' not supported" % op)
            return Term("cmp" + op, (_vkey(na), _vkey(nb)), bool)
        self.throw(TypeError, "'%s' not supported between %s and %s" % (op, cname(self.typeof(na)), cname(self.typeof(nb))))

    def negb(self, r):
        if isinstance(r, bool):
            return not r
        if isinstance(r, BitBool):
            return BitBool(r.fs, r.k ^ 1)
        return not self.truth(r)

    def cmp_int(self, op, x, y):
        d = self.facts.norm(add(x, y, -1))
        if isinstance(d, int):
            return PYCMP[op](d, 0)
        # single bit forms stay symbolic
        if len(d.t) == 1 and d.t[0][0][0] == "b":
            k = d.t[0][1]
            v0, v1 = PYCMP[op](d.c, 0), PYCMP[op](d.c + k, 0)
            if v0 == v1:
                return v0
            return BitBool(d.t[0][0][1], 0 if v1 else 1)
        if op == "eq":
            return self.decide_eq(d)
        if op == "le":
            return self.decide_le(d)
        if op == "lt":
            return self.decide_le(add(d, 1))
        if op == "ge":
            return not self.decide_le(add(d, 1))
        if op == "gt":
            return not self.decide_le(d)
        raise Unsupported(op)

    def eq_bytes(self, x, y):
        if isinstance(x, bytes) and isinstance(y, bytes):
            return x == y
        if x == y:
            return True
        lx, ly = blen(x), blen(y)
        if not self.decide_eq(add(lx, ly, -1)):
            return False
        n = self.facts.norm(lx)
        if not isinstance(n, int):
            n = self.facts.norm(ly)
        px, py = self.npar(x), self.npar(y)
        if byt(px) == byt(py):
            return True
        if isinstance(n, int) and n <= 64:
            for i in range(n):
                p, q = self.bindex(x, i), self.bindex(y, i)
                if not self.truth(self.cmp_int("eq", p, q)):
                    return False
            return True
        # strip equal heads
        while px and py and px[0] == py[0]:
            px.pop(0)
            py.pop(0)
        while px and py and not isinstance(px[0], Seg) and not isinstance(py[0], Seg):
            if not self.truth(self.cmp_int("eq", px[0], py[0])):
                return False
            px.pop(0)
            py.pop(0)
        if not px and not py:
            return True
        return self.truth(Term("eqb", (byt(px), byt(py)), bool))

    def npar(self, x):
        out = []
        for p in bparts(x):
            if isinstance(p, Seg):
                a, b = self.facts.norm(p.a), self.facts.norm(p.b)
                p = Seg(p.src, a, b)
                d = self.facts.norm(add(b, a, -1))
                if isinstance(d, int) and isinstance(p.src, str) and d <= 64 and isinstance(a, int):
                    for i in range(d):
                        out.append(self.facts.norm(self.srcbyte(p.src, add(a, i))))
                    continue
                out.append(p)
            else:
                out.append(self.facts.norm(p))
        return out

    def eq_str(self, a, b):
        pa = list(a.p) if isinstance(a, SStr) else [a]
        pb = list(b.p) if isinstance(b, SStr) else [b]
        if len(pa) == len(pb):
            vs = []
            ok = True
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        return None
                elif isinstance(x, Fmt) and isinstance(y, Fmt) and x.spec == y.spec == "d":
                    vs.append((x.v, y.v))
                else:
                    ok = False
            if ok:
                for x, y in vs:
                    if not self.truth(self.cmp("eq", x, y)):
                        return False
                return True
        if isinstance(a, SStr) != isinstance(b, SStr):
            s, c = (a, b) if isinstance(a, SStr) else (b, a)
            if c == "":
                return not self.truth(s)
            if len(s.p) == 1 and s.p[0].spec == "hex":
                try:
                    n = bytes.fromhex(c)
                except ValueError:
                    return False
                return self.truth(self.cmp("eq", s.p[0].v, n)) if n.hex() == c else False
            if len(s.p) == 1 and s.p[0].spec == "d":
                try:
                    n = int(c)
                except ValueError:
                    return False
                if str(n) != c:
                    return False
                return self.truth(self.cmp("eq", s.p[0].v, n))
            if len(s.p) == 1 and s.p[0].spec == "str" and isinstance(s.p[0].v, Term):
                return Term("eq", (s.p[0].v, c), bool)
            if all(isinstance(x, str) or x.spec == "d" for x in s.p):
                m = re.fullmatch("".join(re.escape(x) if isinstance(x, str) else "(0|-?[1-9][0-9]*)" for x in s.p), c)
                if m is None:
                    return False
                if not any(isinstance(x, Fmt) and isinstance(y, Fmt) for x, y in zip(s.p, s.p[1:])) \
                        and not any(isinstance(x, str) and (x[0].isdigit() or x[-1].isdigit() or x[-1] == "-") for x in s.p):
                    for g, x in zip(m.groups(), [x for x in s.p if isinstance(x, Fmt)]):
                        if not self.truth(self.cmp("eq", x.v, int(g))):
                            return False
                    return True
        return None

    def seqkind(self, v):
        if isinstance(v, tuple):
            return tuple
        return v.cls

    def seqitems(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Obj) and v.cls in (list, _coll.deque):
            return v.p
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and v.cls.native in (tuple,):
            return list(v.p)
        return None

    def cmp_seq(self, op, x, y):
        if op == "eq":
            if len(x) != len(y):
                return False
            for p, q in zip(list(x), list(y)):
                if p is q:
                    continue
                if not self.truth(self.cmp("eq", p, q)):
                    return False
            return True
        for p, q in zip(list(x), list(y)):
            if not self.truth(self.cmp("eq", p, q)):
                return self.cmp(op, p, q)
        return PYCMP[op](len(x), len(y))

    def is_(self, a, b):
        a, b = self.facts.norm(a), self.facts.norm(b)
        if isinstance(a, Term) or isinstance(b, Term):
            if isinstance(a, Term) and isinstance(b, Term) and a == b:
                return True
            t, o = (a, b) if isinstance(a, Term) else (b, a)
            if o is None and t.typ is not None:
                return False
            if t.typ is not None and self.typeof(o) is not None and self.typeof(o) is not t.typ:
                return False
            return self.truth(Term("eq", (t, _vkey(o)), bool))
        if isinstance(a, BitBool) or isinstance(b, BitBool):
            if isinstance(a, (bool, BitBool)) and isinstance(b, (bool, BitBool)):
                return self.truth(self.cmp("eq", a, b))
            return False
        if isinstance(a, (Obj, type, Nat, Ext)) or isinstance(b, (Obj, type, Nat, Ext)):
            return a is b or (isinstance(a, Ext) and a == b)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, Lin) or isinstance(b, Lin):
            return self.truth(self.cmp("eq", a, b))
        return a is b or (type(a) is type(b) and a == b)

    def contains(self, c, x):
        c = self.facts.norm(c)
        if isinstance(c, Obj):
            if isinstance(c, ClassVal):
                if c.members is not None:
                    if isinstance(x, Obj) and x.cls is c:
                        return True
                    for m in c.members.values():
                        if self.truth(self.cmp("eq", m.d["_value_"], x)):
                            return True
                    return False
                self.throw(TypeError, "argument of type 'type' is not iterable")
            if c.cls in (dict, set, "dictkeys"):
                xs = self.facts.norm(x) if isinstance(x, Lin) else None
                if isinstance(xs, Lin) and isinstance(c.p, dict) and all(type(e[0]) in (int, bool) for e in c.p.values()):
                    return self.member(sorted({int(e[0]) for e in c.p.values()}), xs)
                return self.dict_find(c, x) is not MISSING
            if c.cls in (bytearray, memoryview):
                return self.contains(self.byteslike(c), x)
            if isinstance(c.cls, ClassVal):
                f, _ = self.lookup(c.cls, "__contains__")
                if isinstance(f, FN):
                    return self.truth(self.call(f, [c, x]))
                if c.cls.kind in ("flag", "intflag") and "_value_" in c.d:
                    y = x.d["_value_"] if isinstance(x, Obj) and "_value_" in x.d else self.asint(x)
                    if y is None:
                        self.throw(TypeError, "unsupported operand type(s) for in")
                    return self.truth(self.cmp("eq", self.arith("and", c.d["_value_"], y), y))
                if c.cls.native in (bytes, str, tuple):
                    return self.contains(c.p, x)
                if c.cls.native in (list, dict, set):
                    return self.contains(c.p, x)
        if isinstance(c, (str, SStr)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(c, SStr) and isinstance(x, str):
                if any(isinstance(p, str) and x in p for p in c.p):
                    return True
                if all(isinstance(p, str) or p.spec == "d" for p in c.p) and not any(ch.isdigit() or ch == "-" for ch in x):
                    return False
            return self.truth(Term("in", (_vkey(x), c), bool))
        if isinstance(c, (bytes, Byt)):
            if isinstance(c, bytes) and isinstance(x, bytes):
                return x in c
            n = self.asint(x)
            if n is not None:
                if isinstance(n, int) and isinstance(c, bytes):
                    return n in c
                for p in self.iterate(c):
                    if self.truth(self.cmp("eq", p, n)):
                        return True
                return False
            bx = self.byteslike(x)
            lx, lc = (None, None) if bx is None else (self.facts.norm(blen(bx)), self.facts.norm(blen(c)))
            if isinstance(lx, int) and isinstance(lc, int) and lc <= 64:
                return any(self.eq_bytes(bx, self.bslice(c, i, i + lx)) for i in range(lc - lx + 1))
            return self.truth(Term("in", (_vkey(x), c), bool))
        if isinstance(c, Term):
            return self.truth(Term("in", (_vkey(x), c), bool))
        if isinstance(c, range):
            n = self.asint(x)
            if n is None:
                if isinstance(x, (Term, float)):
                    return self.truth(Term("in", (_vkey(x), c), bool))
                return False
            if isinstance(n, int):
                return n in c
            if len(c) == 0:
                return False
            if c.step == 1:
                return self.truth(self.cmp_int("ge", n, c.start)) and self.truth(self.cmp_int("lt", n, c.stop))
            if len(c) <= 256:
                c = list(c)
                for p in c:
                    if self.truth(self.cmp_int("eq", n, p)):
                        return True
                return False
            raise Unsupported("membership in a stepped range")
        if isinstance(c, Obj) and c.cls == "rangel":
            lo, hi, st = c.p
            if st != 1:
                raise Unsupported("stepped abstract range")
            n = self.asint(x)
            if n is None:
                return False
            return self.truth(self.cmp_int("ge", n, lo)) and self.truth(self.cmp_int("lt", n, hi))
        xs = self.asint(x)
        items = self.iterate(c)
        if isinstance(xs, Lin) and all(isinstance(self.asint(p), int) for p in items):
            # membership in a constant set of integers
            return self.member(sorted({self.asint(p) for p in items}), xs)
        for p in items:
            if p is x:
                return True
            if self.truth(self.cmp("eq", p, x)):
                return True
        return False

    def member(self, ints, x):
        """membership of an abstract integer in a set of numbers: one partition for each run of members, one for the rest"""
        x = self.facts.norm(x)
        if isinstance(x, int):
            return x in ints
        vals = self.facts.values(x)
        lo, hi = self.facts.interval(x)
        t, s = self.facts.canon(x.t)
        out = {v * s + x.c for v in self.facts.ne.get(t, ())}
        ints = [v for v in ints if v not in out and (vals is None or v in vals) and (lo is None or v >= lo) and (hi is None or v <= hi)]
        runs = []
        for v in ints:
            if runs and all(u in out or (vals is not None and u not in vals) for u in range(runs[-1][1] + 1, v)):
                runs[-1][1] = v
            else:
                runs.append([v, v])
        i = self.choose(len(runs) + 1) if runs else 0
        if i < len(runs):
            a, b = runs[i]
            if not (self.facts.assume_eq(add(x, a, -1), 0) if a == b else self.facts.assume_range(x, a, b)):
                raise Infeasible()
            return True
        for v in ints:
            if not self.facts.assume_ne(add(x, v, -1), 0):
                raise Infeasible()
        return False

    # ---------------------------------------------------------------- bytes
    def srcbyte(self, src, i):
        i = self.facts.norm(i)
        if isinstance(src, tuple) and src and src[0] == "rep":
            return src[1][0]
        return byte("%s[%s]" % (src if isinstance(src, str) else repr(src), i if isinstance(i, int) else repr(i)))

    def bindex(self, x, i):
        """byte at (already validated) offset i"""
        if isinstance(x, bytes) and isinstance(i, int):
            return x[i]
        i = self.facts.norm(i)
        pos = 0
        ps = bparts(x)
        if not isinstance(i, int) and not any(isinstance(p, Seg) for p in ps) :
            # constant-length string with an abstract index
            if isinstance(x, bytes):
                return self.table_index(list(x), i)
            i = self.small(i, 64)
            if i is None:
                raise Unsupported("abstract index into a byte string")
            return ps[i]
        for p in ps:
            if isinstance(p, Seg):
                n = self.facts.norm(add(p.b, p.a, -1))
                rel = self.facts.norm(add(i, pos, -1))
                # rel < n ?
                if self.truth(self.cmp_int("lt", rel, n)):
                    return self.facts.norm(self.srcbyte(p.src, add(p.a, rel)))
                pos = add(pos, n)
            else:
                if self.truth(self.cmp_int("eq", i, pos)):
                    return self.facts.norm(p)
                pos = add(pos, 1)
        raise Infeasible()

    def bslice(self, x, i, j):
        """x[i:j] with 0 <= i, any j, clamped"""
        if isinstance(x, bytes) and isinstance(i, int) and isinstance(j, int):
            return x[i:j]
        i, j = self.facts.norm(i), self.facts.norm(j)
        out = []
        pos = 0
        for p in bparts(x):
            n = 1 if not isinstance(p, Seg) else self.facts.norm(add(p.b, p.a, -1))
            # part covers [pos, pos+n)
            s = self.facts.norm(add(i, pos, -1))
            e = self.facts.norm(add(j, pos, -1))
            if self.truth(self.cmp_int("le", e, 0)):
                break
            s, e = self.facts.norm(s), self.facts.norm(e)
            if not self.truth(self.cmp_int("le", n, s)):
                s, e = self.facts.norm(s), self.facts.norm(e)
                if not isinstance(p, Seg):
                    out.append(self.facts.norm(p))
                else:
                    a = p.a
                    b = p.b
                    if self.truth(self.cmp_int("gt", s, 0)):
                        a = self.facts.norm(add(p.a, s))
                    if self.truth(self.cmp_int("lt", e, n)):
                        b = self.facts.norm(add(p.a, e))
                    out.append(Seg(p.src, self.facts.norm(a), self.facts.norm(b)))
            i, j = self.facts.norm(i), self.facts.norm(j)
            pos = self.facts.norm(add(pos, n))
        return byt(out)

    def slice_bounds(self, sl, n):
        """(start, stop, step) as non-negative offsets for a slice over length n (int or Lin)."""
        st = 1 if sl.step is None else self.asint(sl.step)
        if not isinstance(st, int):
            raise Unsupported("abstract slice step")

        def fix(v, dflt):
            if v is None:
                return dflt
            v = self.asint(v)
            if v is None:
                self.throw(TypeError, "slice indices must be integers")
            if self.truth(self.cmp_int("lt", v, 0)):
                v = self.facts.norm(add(v, n))
                if self.truth(self.cmp_int("lt", v, 0)):
                    return 0
                return self.facts.norm(v)
            if self.truth(self.cmp_int("gt", v, n)):
                return self.facts.norm(n)
            return self.facts.norm(v)
        if st == 1:
            return fix(sl.start, 0), fix(sl.stop, n), 1
        if isinstance(n, int):
            a, b = sl.start, sl.stop
            a = None if a is None else self.small(self.asint(a), 300)
            b = None if b is None else self.small(self.asint(b), 300)
            return ("range", range(*slice(a, b, st).indices(n)), None)
        raise Unsupported("stepped slice over unknown length")

    def norm_index(self, i, n, what="index"):
        if self.truth(self.cmp_int("lt", i, 0)):
            i = self.facts.norm(add(i, n))
            if self.truth(self.cmp_int("lt", i, 0)):
                self.throw(IndexError, "%s out of range" % what)
            return self.facts.norm(i)
        if not self.truth(self.cmp_int("lt", i, n)):
            self.throw(IndexError, "%s out of range" % what)
        return self.facts.norm(i)

    def table_index(self, items, i):
        """items[i] for abstract i within range; keeps affine tables affine."""
        i = self.facts.norm(i)
        if isinstance(i, int):
            return items[i]
        b = bits_of(i)
        n = len(items)
        if b is not None and all(isinstance(self.asint(x), int) for x in items) and n >= (1 << len(b)):
            xs = [self.asint(x) for x in items]
            base = xs[0]
            basis = [xs[1 << k] ^ base for k in range(len(b))]
            ok = True
            for m in range(1 << len(b)):
                v = base
                for k in range(len(b)):
                    if (m >> k) & 1:
                        v ^= basis[k]
                if v != xs[m]:
                    ok = False
                    break
            if ok:
                w = max([base.bit_length()] + [y.bit_length() for y in basis] + [1])
                out = []
                for pos in range(w):
                    e = (frozenset(), (base >> pos) & 1)
                    for k in range(len(b)):
                        if (basis[k] >> pos) & 1:
                            e = xor_bit(e, b[k])
                    out.append(e)
                return self.facts.norm(from_bits(out))
        vals = self.smallvals(i, 256)
        if vals is None:
            raise Unsupported("table indexed by an unbounded abstract value")
        return items[self.pick(i, [v for v in vals if 0 <= v < n])]

    # ---------------------------------------------------------------- iteration
    def length(self, v):
        v = self.facts.norm(v)
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassVal) and not isinstance(v, ClassVal):
                f, _ = self.lookup(v.cls, "__len__")
                if isinstance(f, FN):
                    r = self.call(f, [v])
                    if self.asint(r) is None and not isinstance(r, Term):
                        self.throw(TypeError, "'%s' object cannot be interpreted as an integer" % cname(self.typeof(r)))
                    r2 = self.asint(r)
                    return r2 if r2 is not None else r
                if v.cls.native is not None and v.p is not None:
                    return self.length(v.p)
            if isinstance(v, ClassVal) and v.members is not None:
                return len(v.members)
            if v.cls in (list, dict, set, "dictkeys", _coll.deque):
                return len(v.p)
            if v.cls == "idict":
                return len(v.p.d)
            if v.cls is bytearray:
                return self.facts.norm(blen(v.p))
            if v.cls is memoryview:
                return v.p[2]
            if v.cls == "rangel":
                lo, hi, st = v.p
                if st == 1:
                    d = self.facts.norm(add(hi, lo, -1))
                    if self.truth(self.cmp_int("le", d, 0)):
                        return 0
                    return d
            self.throw(TypeError, "object of type '%s' has no len()" % cname(v.cls))
        if isinstance(v, Byt):
            return self.facts.norm(blen(v))
        if isinstance(v, SStr):
            if all(isinstance(x, str) or x.spec == "hex" and isinstance(x.v, (bytes, Byt)) for x in v.p):
                n = 0
                for x in v.p:
                    n = add(n, len(x) if isinstance(x, str) else scale(blen(x.v), 2))
                return self.facts.norm(n)
            return self.lenterm(v)
        if isinstance(v, Term):
            if v.typ in (int, float, bool):
                self.throw(TypeError, "object has no len()")
            return self.lenterm(v)
        if isinstance(v, (str, bytes, tuple, range, frozenset)):
            return len(v)
        self.throw(TypeError, "object of type '%s' has no len()" % cname(self.typeof(v)))

    def lenterm(self, v):
        r = opq(Term("len", (v,), int))
        if self.facts.iv.get(r.t) is None:
            self.facts.iv[r.t] = (0, None)
        return self.facts.norm(r)

    def iterate(self, v):
        """list of the elements of v"""
        v = self.facts.norm(v)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, (bytes, range, frozenset)):
            if isinstance(v, range) and len(v) > 70000:
                raise Cut("range too long")
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Byt):
            return self.iter_bytes(v)
        if isinstance(v, Obj):
            if isinstance(v, ClassVal):
                if v.members is not None:
                    return [m for n, m in v.members.items() if m.d["_name_"] == n]
                self.throw(TypeError, "'type' object is not iterable")
            if v.cls in (list, _coll.deque):
                return list(v.p)
            if v.cls == "idict":
                return list(v.p.d)
            if v.cls in (dict, set, "dictkeys"):
                return [k for k, _ in v.p.values()]
            if v.cls in (bytearray, memoryview):
                return self.iterate(self.byteslike(v))
            if v.cls == "iter":
                out = []
                for x in v.p:
                    out.append(x)
                    if len(out) > 70000:
                        raise Cut("iterator too long")
                return out
            if v.cls == "rangel":
                lo, hi, st = v.p
                n = self.small(self.facts.norm(add(hi, lo, -1)), 16)
                if n is None:
                    # bounded unrolling
                    for k in range(self.seg_bound + 1):
                        if self.truth(self.cmp_int("le", add(hi, lo, -1), k * st)):
                            return [add(lo, i * st) for i in range(k)]
                    raise Cut("range of unknown length")
                return [add(lo, i) for i in range(0, max(n, 0), st)]
            if isinstance(v.cls, ClassVal):
                f, _ = self.lookup(v.cls, "__iter__")
                if isinstance(f, FN):
                    it = self.call(f, [v])
                    if it is v or (isinstance(it, Obj) and isinstance(it.cls, ClassVal) and self.lookup(it.cls, "__next__")[0]):
                        return self.drain(it)
                    return self.iterate(it)
                if v.cls.native is not None and v.p is not None:
                    return self.iterate(v.p)
                f, _ = self.lookup(v.cls, "__getitem__")
                if isinstance(f, FN):
                    out = []
                    for i in range(200):
                        try:
                            out.append(self.call(f, [v, i]))
                        except PyRaise as e:
                            if self.subclass(e.exc.cls, IndexError):
                                return out
                            raise
                    raise Cut("iteration too long")
            self.throw(TypeError, "'%s' object is not iterable" % cname(v.cls))
        if isinstance(v, SStr):
            raise Unsupported("iteration over an abstract text")
        if isinstance(v, Term):
            if v.typ in (int, float, bool):
                self.throw(TypeError, "object is not iterable")
            if v.typ is bytes:
                return self.iter_bytes(self.term_bytes(v))
            # unknown collection: split over few elements
            for k in range(3):
                if self.truth(Term("len<=", (v, k), bool)):
                    return [Term("elem", (v, i)) for i in range(k)]
            raise Cut("iteration over an unknown collection")
        self.throw(TypeError, "'%s' object is not iterable" % cname(self.typeof(v)))

    def drain(self, it):
        out = []
        f, _ = self.lookup(it.cls, "__next__")
        if not isinstance(f, FN):
            self.throw(TypeError, "not an iterator")
        for _ in range(300):
            try:
                out.append(self.call(f, [it]))
            except PyRaise as e:
                if self.subclass(e.exc.cls, StopIteration):
                    return out
                raise
        raise Cut("iterator too long")

    def iter_bytes(self, v):
        n = self.facts.norm(blen(v))
        if not isinstance(n, int):
            lo, _ = self.facts.interval(n)
            lo = lo or 0
            for k in range(lo, lo + self.seg_bound + 1):
                if self.decide_le(add(n, -k)):
                    n = k
                    break
            else:
                raise Cut("iteration over a byte string of unknown length")
        return [self.bindex(v, i) for i in range(n)]

    def next_(self, it, *default):
        if isinstance(it, Obj) and it.cls == "iter":
            try:
                return next(it.p)
            except StopIteration:
                pass
            if default:
                return default[0]
            self.throw(StopIteration)
        if isinstance(it, Obj) and isinstance(it.cls, ClassVal):
            f, _ = self.lookup(it.cls, "__next__")
            if isinstance(f, FN):
                try:
                    return self.call(f, [it])
                except PyRaise as e:
                    if default and self.subclass(e.exc.cls, StopIteration):
                        return default[0]
                    raise
        if isinstance(it, Term):
            return Term("next", (it, self.fresh("n")))
        self.throw(TypeError, "'%s' object is not an iterator" % cname(self.typeof(it)))

    def iter_(self, v):
        if isinstance(v, Obj) and v.cls == "iter":
            return v
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and not isinstance(v, ClassVal):
            f, _ = self.lookup(v.cls, "__iter__")
            if isinstance(f, FN):
                return self.call(f, [v])
        return self.mkiter(self.iterate(v))

    # ---------------------------------------------------------------- attributes
    def getattr(self, v, name, default=MISSING):
        v = self.facts.norm(v)
        if isinstance(v, ModVal):
            if name in v.d:
                return v.d[name]
            if name == "__dict__":
                return self.mkdict(list(v.d.items()))
            f = v.name + "." + name
            if self.known_module(f):
                if v.ispkg and f in self.modules:
                    return self.modules[f]
            if "__getattr__" in v.d:
                return self.call(v.d["__getattr__"], [name])
            if default is not MISSING:
                return default
            self.throw(AttributeError, "module '%s' has no attribute '%s'" % (v.name, name))
        if isinstance(v, ClassVal):
            return self.class_getattr(v, name, default)
        if isinstance(v, Super):
            return self.super_getattr(v, name)
        if isinstance(v, FuncVal):
            if name in v.d:
                return v.d[name]
            if name == "__name__":
                return v.name
            if name == "__qualname__":
                return v.qualname
            if name == "__doc__":
                return None
            if name == "__module__":
                return v.module.name
            if name == "__wrapped__":
                return v
            if name in ("cache_clear", "cache_info"):
                return Nat(name, lambda I, a, k: None)
            if default is not MISSING:
                return default
            self.throw(AttributeError, "function has no attribute %s" % name)
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            return self.inst_getattr(v, name, default)
        if isinstance(v, Bound):
            if name == "__self__":
                return v.s
            if name == "__func__":
                return v.f
            return self.getattr(v.f, name, default)
        if isinstance(v, Ext):
            return self.ext_attr(v, name)
        if isinstance(v, Term):
            if v.op == "unknown" or v.typ is None:
                return Term("attr", (v, name))
        if isinstance(v, type) and name in ("from_bytes", "fromhex", "maketrans", "__new__", "__init__", "__setattr__", "__delattr__",
                                            "__eq__", "__hash__", "fromkeys", "__getitem__", "__init_subclass__"):
            return Nat("%s.%s" % (v.__name__, name), None)
        r = self.nat_getattr(v, name, default)
        return r

    def inst_getattr(self, v, name, default=MISSING):
        cv, c = self.lookup(v.cls, name)
        if isinstance(cv, Prop) and not cv.cached:
            if cv.fget is None:
                self.throw(AttributeError, "unreadable attribute %s" % name)
            try:
                return self.call(cv.fget, [v])
            except PyRaise as e:
                if e.exc.cls is AttributeError and (default is not MISSING):
                    return default
                if e.exc.cls is AttributeError and self.lookup(v.cls, "__getattr__")[0] is not None:
                    return self.call(self.lookup(v.cls, "__getattr__")[0], [v, name])
                raise
        if name in v.d:
            return v.d[name]
        if c is not None:
            return self.bind(cv, v, v.cls, name)
        if name == "__class__":
            return v.cls
        if isinstance(v.cls, ClassVal) and v.cls.kind == "namedtuple" and name in ("_replace", "_asdict", "_fields"):
            fl = [n for n, _ in self.nt_fields(v.cls)]
            if name == "_fields":
                return tuple(fl)
            if name == "_asdict":
                return Nat("_asdict", lambda I, a, k: I.mkdict(list(zip(fl, v.p))))
            return Nat("_replace", lambda I, a, k: I.call(v.cls, [k.get(n, x) for n, x in zip(fl, v.p)]))
        if name == "__dict__":
            d = self.new("idict")
            d.p = v
            return d
        if name == "__doc__":
            return None
        if name == "__module__":
            return v.cls.module.name if v.cls.module else None
        if v.cls.kind in ("enum", "intenum", "intflag", "flag", "strenum") and "_value_" in v.d:
            if name == "value":
                return v.d["_value_"]
            if name == "name":
                return v.d["_name_"]
            if name in ("real", "to_bytes", "bit_length"):
                return self.getattr(v.d["_value_"], name)
        if v.cls.dc is not None and name == "__post_init__":
            pass
        if v.cls.native is not None and v.p is not None:
            r = self.nat_getattr(v.p, name, None)
            if r is not None:
                return r
        if v.cls.kind == "exc":
            if name == "args":
                return v.d.get("args", ())
            if name in ("add_note", "with_traceback"):
                return Nat(name, lambda I, a, k: v)
            if name in ("__traceback__", "__cause__", "__context__", "__notes__"):
                return None
        g, gc = self.lookup(v.cls, "__getattr__")
        if g is not None:
            return self.call(g, [v, name])
        if name in ("__eq__", "__hash__", "__str__", "__repr__", "__setattr__", "__delattr__", "__init__", "__init_subclass__", "__ne__", "__reduce__", "__getattribute__"):
            return Nat("object." + name, self.objmeth(name, v))
        for b in v.cls.mro:
            if isinstance(b, (Ext,)) and b.path not in SAFE_BASES:
                return Term("attr", (_vkey(v), name))
            if isinstance(b, Term):
                return Term("attr", (_vkey(v), name))
        if default is not MISSING:
            return default
        self.throw(AttributeError, "'%s' object has no attribute '%s'" % (v.cls.name, name))

    def objmeth(self, name, v):
        def fn(I, a, k):
            if name == "__setattr__":
                I.object_setattr(v, a[0], a[1])
                return None
            if name == "__delattr__":
                return I.raw_delattr(v, a[0])
            if name == "__eq__":
                return v is a[0]
            if name == "__ne__":
                return v is not a[0]
            if name == "__hash__":
                return I.hash(v)
            if name in ("__str__", "__repr__"):
                return I.str_(v) if name == "__str__" else I.repr_(v)
            if name == "__getattribute__":
                return I.inst_getattr(v, a[0])
            return None
        return fn

    def bind(self, cv, inst, cls, name=None):
        if isinstance(cv, FuncVal):
            return Bound(cv, inst) if inst is not None else cv
        if isinstance(cv, CMeth):
            return Bound(cv.f, cls) if not isinstance(cv.f, Prop) else self.call(cv.f.fget, [cls])
        if isinstance(cv, SMeth):
            return cv.f
        if isinstance(cv, Prop):
            if inst is None:
                return cv
            if cv.cached:
                r = self.call(cv.fget, [inst])
                self.hw(inst)
                inst.d[name] = r
                return r
            return self.call(cv.fget, [inst])
        if isinstance(cv, Nat) and inst is not None and cv.name.startswith("method:"):
            return Bound(cv, inst)
        if isinstance(cv, Obj) and isinstance(cv.cls, ClassVal) and not isinstance(cv, ClassVal):
            g, _ = self.lookup(cv.cls, "__get__")
            if isinstance(g, FuncVal):
                return self.call(g, [cv, inst, cls])
        return cv

    def class_getattr(self, v, name, default=MISSING):
        if v.members is not None and name in v.members and (name not in v.d or v.d[name] is v.members[name]):
            return v.members[name]
        cv, c = self.lookup(v, name)
        if name == "__annotations__":
            return self.annotations(v)
        if c is not None:
            return self.bind(cv, None, v, name)
        if name == "__name__":
            return v.name
        if name == "__qualname__":
            return v.qualname
        if name == "__mro__":
            return tuple(v.mro)
        if name == "__bases__":
            return tuple(v.bases)
        if name == "__base__":
            return v.bases[0] if v.bases else object
        if name == "__module__":
            return v.module.name if v.module else ""
        if name == "__doc__":
            return None
        if name == "__class__":
            return type
        if name == "__dict__":
            return self.mkdict([(k, x) for k, x in v.d.items()])
        if name == "__subclasses__":
            return Nat("__subclasses__", lambda I, a, k: I.mklist(list(v.subs)))
        if name == "mro":
            return Nat("mro", lambda I, a, k: I.mklist(list(v.mro)))
        if name in ("__members__", "_member_map_") and v.members is not None:
            return self.mkdict(list(v.members.items()))
        if name == "_member_names_" and v.members is not None:
            return self.mklist([n for n, m in v.members.items() if m.d["_name_"] == n])
        if name == "_value2member_map_" and v.members is not None:
            return self.mkdict([(m.d["_value_"], m) for n, m in v.members.items() if m.d["_name_"] == n])
        if name == "__dataclass_fields__" and v.dc is not None:
            return self.mkdict([(n, Term("field", (n,))) for n, _ in self.dc_fields(v)])
        if name in ("__new__", "__init__", "__setattr__", "__delattr__", "__init_subclass__", "__eq__", "__hash__", "__str__", "__repr__", "__getattribute__"):
            return Nat("object." + name, None)
        if v.native is not None:
            if name in ("from_bytes", "fromhex"):
                return Nat("%s.%s" % (v.native.__name__, name), None)
            return Nat("unbound", lambda I, a, k: I.call(I.nat_getattr(I.native_of(a[0]), name), a[1:], k))
        if v.kind == "namedtuple" and name == "_fields":
            return tuple(n for n, _ in self.nt_fields(v))
        if v.kind == "namedtuple" and name == "_make":
            return Nat("_make", lambda I, a, k: I.call(v, I.iterate(a[0])))
        for b in v.mro:
            if isinstance(b, Ext) and b.path not in SAFE_BASES or isinstance(b, Term):
                return Term("attr", (_vkey(v), name))
            if isinstance(b, type) and issubclass(b, BaseException) and hasattr(b, name):
                return Nat("exc." + name, lambda I, a, k: None)
        if default is not MISSING:
            return default
        self.throw(AttributeError, "type object '%s' has no attribute '%s'" % (v.name, name))

    def super_getattr(self, s, name):
        obj = s.obj
        cls = obj if isinstance(obj, ClassVal) else obj.cls
        mro = cls.mro
        i = mro.index(s.cls) if s.cls in mro else -1
        for c in mro[i + 1:]:
            if isinstance(c, ClassVal) and name in c.d:
                cv = c.d[name]
                if name == "__new__" and isinstance(cv, (FuncVal, SMeth)):
                    return cv.f if isinstance(cv, SMeth) else cv
                if isinstance(obj, ClassVal):
                    return self.bind(cv, None, obj, name) if not isinstance(cv, FuncVal) else cv
                return self.bind(cv, obj, cls, name)
            if isinstance(c, ClassVal) and name == "__init__" and c.dc is not None:
                return Nat("dc_init", lambda I, a, k, c=c: I.dc_init(c, obj, a, k))
        native = cls.native
        if name == "__new__":
            def new_(I, a, k):
                return I.native_new(a[0], a[1:], k)
            return Nat("object.__new__", new_)
        if name == "__init__":
            def init_(I, a, k):
                if cls.kind == "exc":
                    I.hw(obj)
                    obj.d["args"] = tuple(a)
                elif native in (list, dict, set, bytearray, _coll.deque) and obj.p is not None:
                    I.hw(obj)
                    obj.p = I.call(native, a, k)
                elif a or k:
                    if cls.native is None and not any(isinstance(b, (Ext, Term)) and getattr(b, "path", "") not in SAFE_BASES for b in cls.mro):
                        I.throw(TypeError, "object.__init__() takes exactly one argument (the instance to initialize)")
                return None
            return Nat("object.__init__", init_)
        if name == "__setattr__":
            def sa(I, a, k):
                I.object_setattr(obj, a[0], a[1])
                return None
            return Nat("object.__setattr__", sa)
        if name == "__delattr__":
            return Nat("object.__delattr__", lambda I, a, k: I.raw_delattr(obj, a[0]))
        if name == "__init_subclass__":
            return Nat("object.__init_subclass__", lambda I, a, k: None)
        if name in ("__eq__", "__hash__", "__str__", "__repr__", "__ne__", "__getattribute__"):
            if native is not None and obj.p is not None:
                p = obj.p
                if name == "__eq__":
                    return Nat(name, lambda I, a, k: I.cmp("eq", p, I.native_of(a[0])))
                if name == "__hash__":
                    return Nat(name, lambda I, a, k: I.hash(p))
                if name == "__str__":
                    return Nat(name, lambda I, a, k: I.str_(p))
            if name == "__eq__":
                return Nat(name, lambda I, a, k: True if a[0] is obj else NOTIMPL)
            if name == "__str__" and cls.kind == "exc":
                return Nat(name, lambda I, a, k: I.str_(obj.d.get("args", ("",))[0] if obj.d.get("args") else ""))
            return Nat("object." + name, self.objmeth(name, obj))
        if native is not None and not isinstance(obj, ClassVal) and obj.p is not None:
            return self.nat_getattr(obj.p, name)
        if cls.kind == "exc" and name == "args":
            return obj.d.get("args", ())
        for c in mro[i + 1:]:
            if isinstance(c, (Ext, Term)) and getattr(c, "path", "") not in SAFE_BASES:
                return Term("superattr", (_vkey(obj), name))
        self.throw(AttributeError, "'super' object has no attribute '%s'" % name)

    def annotations(self, v):
        if isinstance(v, FuncVal):
            a = v.node.args
            ps = [(p.arg, p.annotation) for p in a.posonlyargs + a.args + a.kwonlyargs if p.annotation is not None]
            if v.node.returns is not None:
                ps.append(("return", v.node.returns))
            if self.future_ann(v.module):
                return self.mkdict([(n, ast.unparse(x)) for n, x in ps])
            e = v.env
            if e is None:
                e = Env(None, v.module)
                e.isclass = True
                e.vars = v.module.d
            return self.mkdict([(n, self.eval(x, e)) for n, x in ps])
        fut = self.future_ann(v.module)
        out = []
        for n, node in v.ann:
            if fut:
                out.append((n, ast.unparse(node)))
            elif n in v.annval:
                out.append((n, v.annval[n]))
            else:
                e = Env(v.env, v.module)
                e.isclass = True
                e.vars = v.d
                out.append((n, self.eval(node, v.env if v.env is not None else e)))
        return self.mkdict(out)

    def future_ann(self, m):
        if m is None or m.tree is None:
            return False
        for s in m.tree.body[:5]:
            if isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names):
                return True
        return False

    def raw_setattr(self, v, name, val):
        if isinstance(v, Obj):
            self.log.append(("setattr", v, name, val, self.cur, self.stack[-1] if self.stack else None))
            self.hw(v)
            v.d[name] = val
            return
        raise Unsupported("setattr on %r" % (v,))

    def setattr(self, v, name, val):
        v = self.facts.norm(v)
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and not isinstance(v, ClassVal):
            f, _ = self.lookup(v.cls, "__setattr__")
            if isinstance(f, FuncVal):
                self.call(f, [v, name, val])
                return
            self.obj_setattr(v, name, val)
            return
        if isinstance(v, (ClassVal, ModVal, FuncVal)):
            self.raw_setattr(v, name, val)
            if isinstance(v, ClassVal) and v.name and isinstance(val, Obj) and False:
                pass
            return
        if isinstance(v, Term):
            self.log.append(("setattr", v, name, val, self.cur, self.stack[-1] if self.stack else None))
            return
        if isinstance(v, Obj) and isinstance(v.cls, type) and issubclass(v.cls, BaseException):
            self.hw(v)
            v.d[name] = val
            return
        if isinstance(v, Ext):
            return
        self.throw(AttributeError, "'%s' object attribute '%s' is read-only" % (cname(self.typeof(v)), name))

    def object_setattr(self, v, name, val):
        """object.__setattr__: data descriptors of the class, then the instance"""
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and not isinstance(v, ClassVal):
            self.obj_setattr(v, name, val, frozen=False)
        else:
            self.raw_setattr(v, name, val)

    def obj_setattr(self, v, name, val, frozen=True):
        cv, _ = self.lookup(v.cls, name)
        if isinstance(cv, Prop) and not cv.cached:
            if cv.fset is None:
                self.throw(AttributeError, "property '%s' has no setter" % name)
            self.call(cv.fset, [v, val])
            return
        if isinstance(cv, Obj) and isinstance(cv.cls, ClassVal) and not isinstance(cv, ClassVal):
            s, _ = self.lookup(cv.cls, "__set__")
            if isinstance(s, FuncVal):
                self.call(s, [cv, v, val])
                return
        if frozen and v.cls.dc is not None and v.cls.dc.get("frozen"):
            import dataclasses
            self.throw(dataclasses.FrozenInstanceError, "cannot assign to field %r" % name)
        self.check_slots(v, name)
        self.raw_setattr(v, name, val)

    def check_slots(self, v, name):
        slots = set()
        for c in v.cls.mro:
            if isinstance(c, ClassVal):
                if "__slots__" not in c.d:
                    if c.kind in ("plain", "exc", "dataclass") or True:
                        return
                s = c.d["__slots__"]
                for x in ([s] if isinstance(s, str) else self.iterate(s)):
                    slots.add(self.mangle(x, c.name))
            elif c is object or (isinstance(c, Ext) and c.path in SAFE_BASES):
                continue
            else:
                return
        if name not in slots:
            self.throw(AttributeError, "'%s' object has no attribute '%s'" % (v.cls.name, name))

    def delattr(self, v, name):
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassVal) and not isinstance(v, (ClassVal, FuncVal, ModVal)):
                f, _ = self.lookup(v.cls, "__delattr__")
                if isinstance(f, FuncVal):
                    self.call(f, [v, name])
                    return
                cv, _ = self.lookup(v.cls, name)
                if isinstance(cv, Prop) and not cv.cached:
                    if cv.fdel is None:
                        self.throw(AttributeError, "property '%s' has no deleter" % name)
                    self.call(cv.fdel, [v])
                    return
        self.raw_delattr(v, name)

    def raw_delattr(self, v, name):
        if isinstance(v, Obj):
            self.hw(v)
            if name in v.d:
                del v.d[name]
                return
        self.throw(AttributeError, name)

    # ---------------------------------------------------------------- subscripts
    def getitem(self, v, i):
        v, i = self.facts.norm(v), self.facts.norm(i)
        if isinstance(v, Obj):
            if isinstance(v, ClassVal):
                if v.members is not None:
                    if isinstance(i, str):
                        if i in v.members:
                            return v.members[i]
                        self.throw(KeyError, i)
                    raise Unsupported("enum lookup by abstract name")
                f, c = self.lookup(v, "__class_getitem__")
                if f is not None:
                    f = f.f if isinstance(f, CMeth) else f
                    if isinstance(f, FuncVal):
                        return self.call(f, [v, i])
                return v
            if isinstance(v.cls, ClassVal):
                f, _ = self.lookup(v.cls, "__getitem__")
                if isinstance(f, FN):
                    return self.call(f, [v, i])
                if v.cls.native is not None and v.p is not None:
                    if v.cls.native is dict:
                        m, _ = self.lookup(v.cls, "__missing__")
                        if isinstance(m, FuncVal) and self.dict_find(v.p, i) is MISSING:
                            return self.call(m, [v, i])
                    return self.getitem(v.p, i)
                self.throw(TypeError, "'%s' object is not subscriptable" % v.cls.name)
            if v.cls in (list, _coll.deque):
                return self.seq_get(v.p, i, lambda x: self.mklist(x))
            if v.cls is dict:
                h = self.dict_find(v, i)
                if h is MISSING:
                    fac = v.d.get("default_factory")
                    if fac is not None:
                        x = self.call(fac, [])
                        self.dict_set(v, i, x)
                        return x
                    self.throw(KeyError, i)
                return v.p[h][1]
            if v.cls == "idict":
                if isinstance(i, str) and i in v.p.d:
                    return v.p.d[i]
                if isinstance(i, str):
                    self.throw(KeyError, i)
                raise Unsupported("abstract __dict__ key")
            if v.cls is bytearray:
                return self.bytes_get(v.p, i, True)
            if v.cls is memoryview:
                base, off, n = v.p
                if isinstance(i, slice):
                    a, b, st = self.slice_bounds(i, n)
                    if st != 1:
                        raise Unsupported("stepped memoryview slice")
                    if self.truth(self.cmp_int("le", b, a)):
                        b = a
                    r = self.new(memoryview)
                    r.p = (base, self.facts.norm(add(off, a)), self.facts.norm(add(b, a, -1)))
                    return r
                k = self.asint(i)
                k = self.norm_index(k, n)
                return self.bindex(self.byteslike(base), self.facts.norm(add(off, k)))
            if v.cls == "rangel":
                lo, hi, st = v.p
                return add(lo, scale(self.asint(i), st))
            self.throw(TypeError, "'%s' object is not subscriptable" % cname(v.cls))
        if isinstance(v, tuple):
            return self.seq_get(v, i, tuple)
        if isinstance(v, (bytes, Byt)):
            return self.bytes_get(v, i, False)
        if isinstance(v, (str, SStr)):
            if isinstance(v, str) and self.constidx(i):
                try:
                    return v[self.cidx(i)]
                except (IndexError, TypeError) as e:
                    self.reraise(e)
            if isinstance(v, SStr) and self.constidx(i):
                cs = self.chars(v)
                if cs is not None:
                    try:
                        r = cs[self.cidx(i)]
                    except (IndexError, TypeError) as e:
                        self.reraise(e)
                    return mkstr(r if isinstance(r, list) else [r])
            return Term("index", (v, _vkey(i)), str)
        if isinstance(v, range):
            k = self.asint(i)
            if isinstance(k, int):
                try:
                    return v[k]
                except IndexError as e:
                    self.reraise(e)
            if isinstance(i, slice):
                return v[self.cidx(i)]
            return self.table_index(list(v), k)
        if isinstance(v, (type, Ext)):
            return v
        if isinstance(v, Union):
            return v
        if isinstance(v, Term):
            if v.typ is bytes:
                return self.bytes_get(self.term_bytes(v), i, False)
            if v.typ in (int, float, bool):
                self.throw(TypeError, "object is not subscriptable")
            return Term("index", (v, _vkey(i)))
        if v is None or isinstance(v, (int, float, Lin, BitBool)):
            self.throw(TypeError, "'%s' object is not subscriptable" % cname(self.typeof(v)))
        if isinstance(v, (FuncVal, Nat)):
            return v
        raise Unsupported("subscript of %r" % (v,))

    def constidx(self, i):
        if isinstance(i, slice):
            return all(x is None or isinstance(self.asint(x), int) for x in (i.start, i.stop, i.step))
        return isinstance(self.asint(i), int)

    def cidx(self, i):
        if isinstance(i, slice):
            return slice(*[None if x is None else self.asint(x) for x in (i.start, i.stop, i.step)])
        return self.asint(i)

    def seq_get(self, items, i, wrap):
        if isinstance(i, slice):
            if not self.constidx(i):
                n = len(items)
                a, b, st = self.slice_bounds(i, n)
                if st is None:
                    return wrap([items[k] for k in b])
                a, b = self.small(a, 64), self.small(b, 64)
                if a is None or b is None:
                    raise Unsupported("abstract slice of a sequence")
                return wrap(items[a:b])
            try:
                return wrap(items[self.cidx(i)])
            except (TypeError, ValueError) as e:
                self.reraise(e)
        k = self.asint(i)
        if k is None:
            if isinstance(i, Term) and i.typ is None:
                if not items:
                    self.throw(IndexError, "index out of range")
                c = self.choose(len(items) + 1)
                if c == len(items):
                    self.throw(IndexError, "index out of range")
                self.facts.truth[Term("eq", (i, c), bool)] = True
                return items[c]
            self.throw(TypeError, "indices must be integers or slices, not %s" % cname(self.typeof(i)))
        if isinstance(k, int):
            if -len(items) <= k < len(items):
                return items[k]
            self.throw(IndexError, "index out of range")
        k = self.norm_index(k, len(items))
        return self.table_index(list(items), k)

    def bytes_get(self, x, i, mut):
        n = blen(x)
        n = self.facts.norm(n)
        if isinstance(i, slice):
            if isinstance(x, bytes) and self.constidx(i):
                r = x[self.cidx(i)]
            else:
                a, b, st = self.slice_bounds(i, n)
                if a == "range":
                    r = byt([self.bindex(x, k) for k in b])
                else:
                    r = self.bslice(x, a, b)
            return self.new(bytearray, r) if mut else r
        k = self.asint(i)
        if k is None:
            if isinstance(i, Term):
                raise Unsupported("byte string indexed by an unknown value")
            self.throw(TypeError, "byte indices must be integers or slices, not %s" % cname(self.typeof(i)))
        k = self.norm_index(k, n)
        return self.bindex(x, k)

    def setitem(self, v, i, val):
        v, i = self.facts.norm(v), self.facts.norm(i)
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassVal):
                f, _ = self.lookup(v.cls, "__setitem__")
                if isinstance(f, FN):
                    self.call(f, [v, i, val])
                    return
                if v.cls.native in (list, dict, bytearray):
                    self.setitem(v.p, i, val)
                    return
            elif v.cls in (list, _coll.deque):
                self.hw(v)
                if isinstance(i, slice):
                    if not self.constidx(i):
                        raise Unsupported("abstract slice assignment")
                    v.p[self.cidx(i)] = self.iterate(val)
                    return
                k = self.asint(i)
                if k is None:
                    if isinstance(i, Term):
                        raise Unsupported("list store at unknown index")
                    self.throw(TypeError, "list indices must be integers")
                k = self.norm_index(k, len(v.p), "list assignment index")
                k = self.small(k, 64)
                if k is None:
                    raise Unsupported("list store at abstract index")
                v.p[k] = val
                return
            elif v.cls is dict:
                self.dict_set(v, i, val)
                return
            elif v.cls == "idict":
                self.raw_setattr(v.p, i, val)
                return
            elif v.cls is bytearray or v.cls is memoryview:
                if v.cls is memoryview:
                    base, off, n = v.p
                    if not (isinstance(base, Obj) and base.cls is bytearray):
                        self.throw(TypeError, "cannot modify read-only memory")
                else:
                    base, off, n = v, 0, self.facts.norm(blen(v.p))
                self.hw(base)
                if isinstance(i, slice):
                    a, b, st = self.slice_bounds(i, n)
                    data = self.byteslike(val)
                    if data is None:
                        if self.seqitems(val) is not None:
                            data = byt([self.tobyte(x) for x in self.iterate(val)])
                        else:
                            self.throw(TypeError, "can assign only bytes-like")
                    if a == "range":
                        rng = list(b)
                        items = [self.bindex(base.p, k) for k in range(self.small(n, 300))]
                        for k, x in zip(rng, self.iterate(data)):
                            items[k] = x
                        base.p = byt(items)
                        return
                    if self.truth(self.cmp_int("lt", b, a)):
                        b = a
                    if v.cls is memoryview:
                        d = add(add(b, a, -1), blen(data), -1)
                        if not self.decide_eq(d):
                            self.throw(ValueError, "memoryview assignment: lvalue and rvalue have different structures")
                    a2, b2 = self.facts.norm(add(off, a)), self.facts.norm(add(off, b))
                    tot = self.facts.norm(blen(base.p))
                    self.log.append(("bufwrite", base, a2, b2, data, self.cur))
                    base.p = byt([self.bslice(base.p, 0, a2), data, self.bslice(base.p, b2, tot)])
                    return
                k = self.asint(i)
                if k is None:
                    self.throw(TypeError, "indices must be integers")
                k = self.norm_index(k, n)
                k2 = self.facts.norm(add(off, k))
                x = self.tobyte(val)
                tot = self.facts.norm(blen(base.p))
                self.log.append(("bufwrite", base, k2, add(k2, 1), byt([x]), self.cur))
                base.p = byt([self.bslice(base.p, 0, k2), x, self.bslice(base.p, add(k2, 1), tot)])
                return
            self.throw(TypeError, "'%s' object does not support item assignment" % cname(v.cls))
        if isinstance(v, Term):
            self.log.append(("setitem", v, i, val, self.cur))
            return
        self.throw(TypeError, "'%s' object does not support item assignment" % cname(self.typeof(v)))

    def tobyte(self, v):
        n = self.asint(v)
        if n is None:
            if isinstance(v, Term) and v.typ is None:
                return opq(v)
            self.throw(TypeError, "'%s' object cannot be interpreted as an integer" % cname(self.typeof(v)))
        if not (self.truth(self.cmp_int("ge", n, 0)) and self.truth(self.cmp_int("le", n, 255))):
            self.throw(ValueError, "byte must be in range(0, 256)")
        return self.facts.norm(n)

    def delitem(self, v, i):
        v, i = self.facts.norm(v), self.facts.norm(i)
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassVal):
                f, _ = self.lookup(v.cls, "__delitem__")
                if isinstance(f, FN):
                    self.call(f, [v, i])
                    return
                if v.p is not None:
                    return self.delitem(v.p, i)
            if v.cls in (list, _coll.deque):
                self.hw(v)
                if not self.constidx(i):
                    raise Unsupported("abstract del")
                try:
                    del v.p[self.cidx(i)]
                except IndexError as e:
                    self.reraise(e)
                return
            if v.cls is dict:
                h = self.dict_find(v, i)
                if h is MISSING:
                    self.throw(KeyError, i)
                self.hw(v)
                del v.p[h]
                return
            if v.cls == "idict":
                self.raw_delattr(v.p, i)
                return
            if v.cls is bytearray:
                self.hw(v)
                n = self.facts.norm(blen(v.p))
                if isinstance(i, slice):
                    a, b, st = self.slice_bounds(i, n)
                    if a == "range":
                        raise Unsupported("stepped del")
                    if self.truth(self.cmp_int("lt", b, a)):
                        b = a
                else:
                    a = self.norm_index(self.asint(i), n)
                    b = add(a, 1)
                self.log.append(("bufdel", v, a, b, self.cur))
                v.p = byt([self.bslice(v.p, 0, a), self.bslice(v.p, b, n)])
                return
        if isinstance(v, Term):
            return
        self.throw(TypeError, "'%s' object doesn't support item deletion" % cname(self.typeof(v)))

    # ---------------------------------------------------------------- names
    def mangle(self, name, cls):
        if cls and name.startswith("__") and not name.endswith("__"):
            return "_%s%s" % (cls.lstrip("_"), name)
        return name

    def load_name(self, env, name):
        name = self.mangle(name, env.mcls)
        e = env
        first = True
        while e is not None:
            if name in e.globs:
                break
            if (not e.isclass or first) and name in e.vars:
                if e.parent is None:
                    break
                return e.vars[name]
            if e.locs is not None and name in e.locs and not e.isclass and e.parent is not None:
                self.throw(UnboundLocalError if e is env else NameError, "cannot access local variable '%s'" % name)
            if not e.iscomp:
                first = False
            e = e.parent
        g = env.module.d
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in BUILTIN_TYPES:
            return BUILTIN_TYPES[name]
        if name == "__class__" and True:
            e = env
            while e is not None:
                if e.owner is not None:
                    return e.owner
                e = e.parent
        self.throw(NameError, "name '%s' is not defined" % name)

    def store_name(self, env, name, v):
        name = self.mangle(name, env.mcls)
        if name in env.globs:
            self.hw(env.module)
            env.module.d[name] = v
            return
        if name in env.nonl:
            e = env.parent
            while e is not None:
                if name in e.vars and not e.isclass:
                    e.vars[name] = v
                    return
                e = e.parent
        if env.parent is None and self.gen != 0:
            self.hw(env.module)
            env.module.d[name] = v
            return
        env.vars[name] = v

    # ---------------------------------------------------------------- calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.f, [f.s] + args, kw)
        if isinstance(f, FuncVal):
            h = self.hooks.get(f.qualname)
            if h is not None:
                r = h(self, args, kw)
                if r is not MISSING:
                    return r
            if "__lru__" in f.d:
                return self.call_cached(f, args, kw)
            return self.call_func(f, args, kw)
        if isinstance(f, CMeth) and args and not isinstance(f.f, Prop):
            return self.call(Bound(f.f, args[0].cls if isinstance(args[0], Obj) else args[0]), args[1:], kw)
        if isinstance(f, SMeth):
            return self.call(f.f, args[1:], kw)
        if isinstance(f, Nat):
            if f.fn is None:
                return self.call_unbound(f.name, args, kw)
            return f.fn(self, args, kw)
        if isinstance(f, NatM):
            return self.call_method(f.s, f.name, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, type):
            return self.call_type(f, args, kw)
        if isinstance(f, SMeth):
            return self.call(f.f, args, kw)
        if isinstance(f, CMeth):
            return self.call(f.f, args, kw)
        if isinstance(f, Obj) and isinstance(f.cls, ClassVal):
            m, _ = self.lookup(f.cls, "__call__")
            if isinstance(m, FuncVal):
                return self.call(m, [f] + args, kw)
            self.throw(TypeError, "'%s' object is not callable" % f.cls.name)
        if isinstance(f, Ext):
            return self.call_ext(f.path, args, kw)
        if isinstance(f, Term):
            if f.typ is not None:
                self.throw(TypeError, "'%s' object is not callable" % cname(f.typ))
            self.log.append(("call", f, args, kw, self.cur))
            return Term("call", (f, tuple(_vkey(a) for a in args), tuple(sorted((k, _vkey(v)) for k, v in kw.items()))))
        if f is None or isinstance(f, CONST) or isinstance(f, (Lin, Byt, tuple, Obj)):
            self.throw(TypeError, "'%s' object is not callable" % cname(self.typeof(f)))
        if f is NOTIMPL:
            self.throw(TypeError, "'NotImplementedType' object is not callable")
        raise Unsupported("call of %r" % (f,))

    def call_cached(self, f, args, kw):
        """functools.lru_cache: the result of an earlier call with equal arguments"""
        names = tuple(sorted(kw))
        key = tuple(args) + tuple(kw[n] for n in names)
        hs = [self.hash(a) for a in key]
        for k0, n0, h0, r in f.d.get("__cache__", ()):
            if n0 != names or len(k0) != len(key):
                continue
            if any(isinstance(a, int) and isinstance(b, int) and a != b for a, b in zip(hs, h0)):
                continue
            if all(a is b or self.truth(self.cmp("eq", a, b)) for a, b in zip(k0, key)):
                return r
        r = self.call_func(f, args, kw)
        self.hw(f)
        f.d["__cache__"] = f.d.get("__cache__", ()) + ((key, names, hs, r),)
        return r

    def call_func(self, f, args, kw):
        if self.depth >= self.max_depth:
            raise Cut("call depth (%s)" % f.qualname)
        env = Env(f.env, f.module)
        env.func = f
        env.mcls = f.mcls
        env.owner = f.owner
        locs, globs, nonl, isgen = f.locs
        env.locs, env.globs, env.nonl = locs, globs, nonl
        self.bind_args(f, args, kw, env)
        env.first = args[0] if args else (env.vars.get(f.node.args.args[0].arg) if f.node.args.args else None)
        self.entered.add((f.qualname, f.module.path, f.node.lineno))
        self.depth += 1
        save, srz = self.cur, self.inraise
        self.inraise = 0
        self.stack.append(f.qualname)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if isgen:
                env.yields = []
                if self.yield_hook is not None:
                    env.yields, self.yield_hook = self.yield_hook, None
                ret = None
                try:
                    self.block(f.node.body, env)
                except _Return as r:
                    ret = r.v
                if callable(env.yields):
                    return None
                it = self.mkiter(env.yields)
                it.d["__ret__"] = ret
                return it
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.stack.pop()
            self.cur, self.inraise = save, srz

    def bind_args(self, f, args, kw, env):
        a = f.node.args
        pos = a.posonlyargs + a.args
        vars_ = env.vars
        names = [self.mangle(x.arg, f.mcls) for x in pos]
        n = len(names)
        for i, v in enumerate(args[:n]):
            vars_[names[i]] = v
        if len(args) > n:
            if a.vararg:
                vars_[a.vararg.arg] = tuple(args[n:])
            else:
                self.throw(TypeError, "%s() takes %d positional arguments but %d were given" % (f.name, n, len(args)))
        elif a.vararg:
            vars_[a.vararg.arg] = ()
        extra = []
        kwnames = [self.mangle(x.arg, f.mcls) for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if (k in names and k not in posonly) or k in kwnames:
                if k in vars_:
                    self.throw(TypeError, "%s() got multiple values for argument '%s'" % (f.name, k))
                vars_[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                self.throw(TypeError, "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg:
            vars_[a.kwarg.arg] = self.mkdict(extra)
        nd = len(f.defaults)
        for i, nm in enumerate(names):
            if nm not in vars_:
                j = i - (n - nd)
                if j >= 0:
                    vars_[nm] = f.defaults[j]
                else:
                    self.throw(TypeError, "%s() missing required positional argument: '%s'" % (f.name, nm))
        for x, nm in zip(a.kwonlyargs, kwnames):
            if nm not in vars_:
                if x.arg in f.kwdefaults:
                    vars_[nm] = f.kwdefaults[x.arg]
                else:
                    self.throw(TypeError, "%s() missing required keyword-only argument: '%s'" % (f.name, nm))

    def instantiate(self, c, args, kw):
        if c.members is not None and c.kind != "plain":
            return self.enum_lookup(c, args, kw)
        if c.kind == "namedtuple":
            fl = self.nt_fields(c)
            vals = list(args)
            for n, dnode in fl[len(args):]:
                if n in kw:
                    vals.append(kw[n])
                elif dnode is not None:
                    vals.append(c.d[n])
                else:
                    self.throw(TypeError, "missing argument %s" % n)
            o = self.new(c, tuple(vals))
            for (n, _), v in zip(fl, vals):
                o.d[n] = v
            return o
        ab = self.abstract_methods(c)
        if ab:
            self.throw(TypeError, "Can't instantiate abstract class %s with abstract methods %s" % (c.name, ", ".join(sorted(ab))))
        nf, _ = self.lookup(c, "__new__")
        if nf is not None:
            nf = nf.f if isinstance(nf, (SMeth, CMeth)) else nf
            o = self.call(nf, [c] + list(args), kw)
            if not (isinstance(o, Obj) and isinstance(o.cls, ClassVal) and c in o.cls.mro):
                return o
        else:
            o = self.native_new(c, args, kw)
        inf, ic = self.lookup(o.cls, "__init__")
        # a dataclass __init__ nearer in the mro wins
        for k in o.cls.mro:
            if isinstance(k, ClassVal):
                if "__init__" in k.d:
                    break
                if k.dc is not None and k.dc.get("init", True):
                    self.dc_init(k, o, args, kw)
                    return o
        if isinstance(inf, FuncVal):
            r = self.call(inf, [o] + list(args), kw)
            if r is not None and not isinstance(r, Term):
                self.throw(TypeError, "__init__() should return None")
        elif nf is None and c.kind not in ("exc",) and c.native is None and (args or kw):
            if not any(isinstance(b, (Ext, Term)) and getattr(b, "path", "") not in SAFE_BASES for b in c.mro):
                self.throw(TypeError, "%s() takes no arguments" % c.name)
        return o

    def abstract_methods(self, c):
        if not any(isinstance(b, Ext) and b.path in ("abc.ABC", "typing.Protocol", "abc.ABCMeta") for b in c.mro):
            return ()
        names = set()
        seen = set()
        out = set()
        for k in c.mro:
            if isinstance(k, ClassVal):
                for n, v in k.d.items():
                    if n in seen:
                        continue
                    seen.add(n)
                    if self.is_abstract(v):
                        out.add(n)
        return out

    def is_abstract(self, v):
        if isinstance(v, FuncVal):
            return v.d.get("__isabstractmethod__") is True
        if isinstance(v, Prop):
            return self.is_abstract(v.fget)
        if isinstance(v, (CMeth, SMeth)):
            return self.is_abstract(v.f)
        return False

    def native_new(self, c, args, kw):
        if isinstance(c, type):
            return self.call_type(c, args, kw)
        if not isinstance(c, ClassVal):
            raise Unsupported("__new__ of %r" % (c,))
        o = self.new(c)
        if c.native is not None:
            if c.native in (list, dict, set, bytearray, _coll.deque):
                o.p = self.call_type(c.native, [] if self.lookup(c, "__init__")[0] is not None else args, {})
            else:
                v = self.call_type(c.native, args, kw)
                o.p = v
        if c.kind == "exc":
            o.d["args"] = tuple(args)
            o.d["__where__"] = (self.cur[0], self.cur[1], self.stack[-1] if self.stack else "<module>")
        return o

    def chars(self, v):
        """the characters of a text whose symbolic parts are single digits, else None"""
        out = []
        for x in v.p:
            if isinstance(x, str):
                out.extend(x)
            elif x.spec == "d" and isinstance(x.v, Lin):
                lo, hi = self.facts.interval(x.v)
                if lo is None or hi is None or lo < 0 or hi > 9:
                    return None
                out.append(x)
            else:
                return None
        return out

    def dc_fields(self, c):
        """[(name, default-info)] of a dataclass, bases first; default-info: ('none',)|('val',v)|('fac',f)|..."""
        fields = {}
        for k in reversed(c.mro):
            if isinstance(k, ClassVal) and k.dc is not None:
                for n, node in k.ann:
                    src = ast.unparse(node)
                    if src.startswith("ClassVar") or "ClassVar[" in src and src.split("[")[0].endswith("ClassVar"):
                        continue
                    if n in k.d:
                        dv = k.d[n]
                        if isinstance(dv, Obj) and dv.cls == "dcfield":
                            fields[n] = dv.p
                        else:
                            fields[n] = {"default": dv}
                    else:
                        fields[n] = {}
        return list(fields.items())

    def dc_init(self, c, o, args, kw):
        fl = self.dc_fields(c)
        args = list(args)
        kw = dict(kw)
        pos = [n for n, i in fl if i.get("init", True) is not False and not i.get("kw_only", c.dc.get("kw_only"))]
        if len(args) > len(pos):
            self.throw(TypeError, "%s.__init__() takes %d positional arguments but %d were given" % (c.name, len(pos) + 1, len(args) + 1))
        vals = {}
        for n, v in zip(pos, args):
            vals[n] = v
        for k, v in kw.items():
            if k not in dict(fl) or k in vals:
                self.throw(TypeError, "%s.__init__() got an unexpected keyword argument '%s'" % (c.name, k))
            vals[k] = v
        frozen = c.dc.get("frozen")
        sf, _ = self.lookup(o.cls, "__setattr__")
        for n, info in fl:
            if n in vals:
                v = vals[n]
            elif "default" in info:
                v = info["default"]
            elif "default_factory" in info:
                v = self.call(info["default_factory"], [])
            elif info.get("init") is False:
                continue
            else:
                self.throw(TypeError, "%s.__init__() missing required argument: '%s'" % (c.name, n))
            if frozen:
                self.raw_setattr(o, n, v)
            else:
                self.setattr(o, n, v)
        pf, _ = self.lookup(o.cls, "__post_init__")
        if isinstance(pf, FuncVal):
            self.call(pf, [o])

    def nt_fields(self, c):
        for k in c.mro:
            if isinstance(k, ClassVal) and k.kind == "namedtuple" and k.ann:
                return [(n, k.d.get(n, None) if n in k.d else None) for n, _ in k.ann]
        return []

    def enum_lookup(self, c, args, kw):
        if not args:
            self.throw(TypeError, "enum lookup needs a value")
        v = self.facts.norm(args[0])
        if isinstance(v, Obj) and v.cls is c:
            return v
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and "_value_" in v.d:
            v = v.d["_value_"] if v.cls.kind in ("intenum", "intflag") or c.kind in ("intflag",) else v
        n = self.asint(v)
        if n is not None:
            if c.kind in ("intflag", "flag"):
                return self.mkflag(c, n)
            d = self.mkdict([(m.d["_value_"], m) for m in c.members.values() if isinstance(self.asint(m.d["_value_"]), int)])
            h = self.dict_find(d, n)
            if h is not MISSING:
                return d.p[h][1]
        elif isinstance(v, Term) and v.typ is None:
            if c.kind in ("intflag", "flag"):
                return self.mkflag(c, opq(v))
            ms = list(c.members.values())
            i = self.choose(len(ms) + 1)
            if i < len(ms):
                self.facts.truth[Term("eq", (v, ms[i].d["_value_"]), bool)] = True
                return ms[i]
        else:
            for m in c.members.values():
                mv = m.d["_value_"]
                if self.truth(self.cmp("eq", mv, v)):
                    return m
        f, _ = self.lookup(c, "_missing_")
        if f is not None:
            f = f.f if isinstance(f, CMeth) else f
            r = self.call(f, [c, v])
            if r is not None:
                return r
        self.throw(ValueError, "not a valid %s" % c.name)

    # the rest of the interpreter (statements and expressions) lives in exec_model
    # ---------------------------------------------------------------- text
    def str_(self, v):
        v = self.facts.norm(v)
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, Lin):
            return SStr((Fmt(v, "d"),))
        if isinstance(v, BitBool):
            return "True" if self.truth(v) else "False"
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and not isinstance(v, ClassVal):
            f, c = self.lookup(v.cls, "__str__")
            if isinstance(f, FN):
                r = self.call(f, [v])
                if not isinstance(r, (str, SStr)) and not (isinstance(r, Term) and r.typ in (None, str)):
                    self.throw(TypeError, "__str__ returned non-string (type %s)" % cname(self.typeof(r)))
                return r
            if "_value_" in v.d:
                if v.cls.kind in ("intenum", "intflag", "strenum"):
                    return self.str_(v.d["_value_"])
                return "%s.%s" % (v.cls.name, v.d["_name_"])
            if v.cls.kind == "exc":
                a = v.d.get("args", ())
                return "" if not a else (self.str_(a[0]) if len(a) == 1 else Term("excstr", (tuple(map(_vkey, a)),), str))
            if v.cls.native is str and v.p is not None:
                return v.p
            if v.cls.native is not None and v.p is not None and v.cls.native is int:
                return self.str_(v.p)
            f, c = self.lookup(v.cls, "__repr__")
            if isinstance(f, FN):
                return self.call(f, [v])
            if v.cls.native is not None and v.p is not None:
                return self.str_(v.p)
            r = self.repr_of_container(v)
            return r if r is not None else Term("str", (_vkey(v),), str)
        if isinstance(v, CONST):
            return str(v)
        if isinstance(v, Obj) and isinstance(v.cls, type) and issubclass(v.cls, BaseException):
            a = v.d.get("args", ())
            if issubclass(v.cls, KeyError) and len(a) == 1:
                return self.repr_(a[0])
            return "" if not a else (self.str_(a[0]) if len(a) == 1 else Term("excstr", (), str))
        if isinstance(v, Term) and v.typ is str:
            return v
        r = self.repr_of_container(v)
        if r is not None:
            return r
        return Term("str", (_vkey(v),), str)

    def repr_(self, v):
        v = self.facts.norm(v)
        if isinstance(v, CONST):
            return repr(v)
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal) and not isinstance(v, ClassVal):
            f, c = self.lookup(v.cls, "__repr__")
            if isinstance(f, FN):
                return self.call(f, [v])
        if isinstance(v, Lin):
            return SStr((Fmt(v, "d"),))
        r = self.repr_of_container(v)
        if r is not None:
            return r
        return Term("repr", (_vkey(v),), str)

    def repr_join(self, pre, xs, post):
        parts = [pre]
        for i, x in enumerate(xs):
            if i:
                parts.append(", ")
            for y in x if isinstance(x, list) else [x]:
                if isinstance(y, str) or isinstance(y, SStr):
                    parts.extend(y.p if isinstance(y, SStr) else [y])
                elif isinstance(y, Term):
                    parts.append(Fmt(y, "str"))
                else:
                    return None
        parts.append(post)
        return mkstr(parts)

    def repr_of_container(self, v):
        rp = self.repr_
        if isinstance(v, tuple):
            return self.repr_join("(", [rp(x) for x in v], ",)" if len(v) == 1 else ")")
        if isinstance(v, frozenset):
            return self.repr_join("frozenset({", [rp(x) for x in v], "})") if v else "frozenset()"
        if not isinstance(v, Obj) or isinstance(v, (ClassVal, FuncVal, ModVal)):
            return None
        c = v.cls
        if self.depth > 40:
            return None
        if c is list:
            return self.repr_join("[", [rp(x) for x in v.p], "]")
        if c == "idict":
            return self.repr_join("{", [[rp(k), ": ", rp(x)] for k, x in v.p.d.items()], "}")
        if c is dict:
            return self.repr_join("{", [[rp(k), ": ", rp(x)] for k, x in v.p.values()], "}")
        if c is set:
            return self.repr_join("{", [rp(k) for k, _ in v.p.values()], "}") if v.p else "set()"
        if c is bytearray:
            b = self.byteslike(v)
            return "bytearray(%r)" % b if isinstance(b, bytes) else None
        if isinstance(c, type) and issubclass(c, BaseException):
            a = v.d.get("args", ())
            return self.repr_join(c.__name__ + "(", [rp(x) for x in a], ")") if isinstance(a, tuple) else None
        if isinstance(c, ClassVal):
            if "_name_" in v.d and c.kind in ("enum", "intenum", "intflag", "flag", "strenum"):
                return self.repr_join("<", [[c.name, ".", str(v.d["_name_"]), ": ", rp(v.d["_value_"])]], ">") if v.d["_name_"] else None
            if c.kind == "exc":
                a = v.d.get("args", ())
                return self.repr_join(c.name + "(", [rp(x) for x in a], ")") if isinstance(a, tuple) else None
            if c.kind == "namedtuple" and isinstance(v.p, tuple):
                return self.repr_join(c.name + "(", [[n + "=", rp(x)] for (n, _), x in zip(self.nt_fields(c), v.p)], ")")
            if any(isinstance(k, ClassVal) and k.dc is not None and k.dc.get("repr") is not False for k in c.mro):
                fl = [n for n, i in self.dc_fields(c) if i.get("repr", True) is not False]
                if all(n in v.d for n in fl):
                    return self.repr_join(c.name + "(", [[n + "=", rp(v.d[n])] for n in fl], ")")
            if c.native in (list, tuple, dict, set, int, str, bytes, float) and v.p is not None:
                return rp(v.p)
        return None

    def format_(self, v, spec, conv=-1):
        v = self.facts.norm(v)
        if conv == 114:
            v = self.repr_(v)
        elif conv == 115:
            v = self.str_(v)
        if isinstance(spec, str) and spec:
            n = self.native_of(v)
            if isinstance(n, CONST) and n is not None:
                try:
                    return format(n, spec)
                except (ValueError, TypeError) as e:
                    self.reraise(e)
            if isinstance(n, (Lin, BitBool)):
                if spec in ("d",):
                    return self.str_(self.asint(n))
                return SStr((Fmt(self.asint(n), spec),))
            if n is None:
                self.throw(TypeError, "unsupported format string passed to NoneType.__format__")
            if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
                f, _ = self.lookup(v.cls, "__format__")
                if isinstance(f, FN):
                    return self.call(f, [v, spec])
            return Term("format", (_vkey(v), spec), str)
        if spec not in ("", None):
            return Term("format", (_vkey(v), _vkey(spec)), str)
        return self.str_(v)


SAFE_BASES = {"abc.ABC", "typing.Protocol", "typing.Generic", "enum.Enum", "enum.IntEnum", "enum.IntFlag",
              "enum.Flag", "typing.NamedTuple", "enum.StrEnum"}


def isconst(v):
    return isinstance(v, CONST) or isinstance(v, tuple) and all(isconst(x) for x in v)


def _clskey(c):
    if isinstance(c, ClassVal):
        return c.qualname
    if isinstance(c, type):
        return c.__name__
    if isinstance(c, (tuple, list)):
        return tuple(_clskey(x) for x in c)
    if isinstance(c, Union):
        return tuple(_clskey(x) for x in c.items)
    return c


class _IdKey:
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __eq__(self, x):
        return isinstance(x, _IdKey) and x.o is self.o

    def __hash__(self):
        return id(self.o)

    def __repr__(self):
        return repr(self.o)


def _vkey(v):
    """hashable stand-in used inside Terms"""
    if isinstance(v, Obj) and not isinstance(v, (ClassVal, FuncVal, ModVal)):
        if v.cls is list:
            return ("list",) + tuple(_vkey(x) for x in v.p)
        return _IdKey(v)
    if isinstance(v, tuple):
        return tuple(_vkey(x) for x in v)
    if isinstance(v, slice):
        return ("slice", _vkey(v.start), _vkey(v.stop), _vkey(v.step))
    return v


from exec_model import ExecMixin          # noqa: E402
from builtins_model import BuiltinsMixin  # noqa: E402


class Machine(ExecMixin, BuiltinsMixin, Interp):
    pass
