"""Statements and expressions."""
import ast
import collections as _coll
import sys
from time import time as _time

from dom import (Term, Lin, BitBool, Byt, SStr, Fmt, mkstr, add)


def _ab():
    import absint
    return absint


THIRD = {"Cryptodome", "tomllib", "semver", "StructResult"}


class ExecMixin:
    # ---------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise self.Cut("step budget")
        if self.deadline is not None and self.steps & 1023 == 0 and _time() > self.deadline:
            raise self.Cut("time")
        self.cur = (env.module.path, s.lineno)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise self.Unsupported("statement %s" % type(s).__name__)
        m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Global(self, s, env):
        pass

    x_Nonlocal = x_Global

    def x_Break(self, s, env):
        raise self.Break()

    def x_Continue(self, s, env):
        raise self.Continue()

    def x_Return(self, s, env):
        raise self.Return(self.eval(s.value, env) if s.value is not None else None)

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            self.throw(AssertionError, *([self.eval(s.msg, env)] if s.msg is not None else []))

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                n = self.mangle(t.id, env.mcls)
                if n in env.vars:
                    del env.vars[n]
                else:
                    self.throw(NameError, "name '%s' is not defined" % n)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, env), self.mangle(t.attr, env.mcls))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    self.x_Delete(ast.copy_location(ast.Delete(targets=[x]), s), env)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if env.isclass and isinstance(s.target, ast.Name):
            n = self.mangle(s.target.id, env.mcls)
            env.owner.ann.append((n, s.annotation))
            if not self.future_ann(env.module):
                try:
                    env.owner.annval[n] = self.eval(s.annotation, env)
                except self.Unsupported:
                    pass
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_TypeAlias(self, s, env):
        self.assign(s.name, Term("typealias", (s.name.id,)), env)

    def x_AugAssign(self, s, env):
        op = self.BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(env, t.id)
            self.store_name(env, t.id, self.inplace(op, old, self.eval(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            n = self.mangle(t.attr, env.mcls)
            old = self.getattr(o, n)
            self.setattr(o, n, self.inplace(op, old, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            old = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, old, self.eval(s.value, env)))
        else:
            raise self.Unsupported("augmented target")

    def inplace(self, op, a, b):
        a = self.facts.norm(a)
        Obj, ClassVal, FuncVal = self.Obj, self.ClassVal, self.FuncVal
        if isinstance(a, Obj) and not isinstance(a, ClassVal):
            if isinstance(a.cls, ClassVal):
                f, _ = self.lookup(a.cls, "__i%s__" % op)
                if isinstance(f, self.FN):
                    r = self.call(f, [a, b])
                    if r is not NotImplemented:
                        return r
            if a.cls is list and op == "add":
                self.hw(a)
                a.p.extend(self.iterate(b))
                return a
            if a.cls is bytearray and op == "add":
                self.call_method(a, "extend", [b], {})
                return a
            if a.cls is set and op == "or":
                for x in self.iterate(b):
                    self.dict_set(a, x, x)
                return a
            if a.cls is dict and op == "or":
                self.call_method(a, "update", [b], {})
                return a
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), self.mangle(t.attr, env.mcls), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise self.Unsupported("assignment target %s" % type(t).__name__)

    def unpack(self, elts, v, env):
        v = self.facts.norm(v)
        if isinstance(v, Term) and v.typ is None and not any(isinstance(e, ast.Starred) for e in elts):
            for i, e in enumerate(elts):
                self.assign(e, Term("index", (v, i)), env)
            return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Byt):
            n = self.length(v)
            want = len(elts) - len(star)
            if not star:
                if not self.truth(self.cmp_int("eq", n, want)):
                    self.throw(ValueError, "unpack: wrong number of values (expected %d)" % want)
        items = self.iterate(v)
        if not star:
            if len(items) != len(elts):
                self.throw(ValueError, "unpack: expected %d values, got %d" % (len(elts), len(items)))
            for e, x in zip(elts, items):
                self.assign(e, x, env)
            return
        k = star[0]
        after = len(elts) - k - 1
        if len(items) < k + after:
            self.throw(ValueError, "not enough values to unpack")
        for e, x in zip(elts[:k], items[:k]):
            self.assign(e, x, env)
        self.assign(elts[k].value, self.mklist(items[k:len(items) - after]), env)
        for e, x in zip(elts[k + 1:], items[len(items) - after:] if after else []):
            self.assign(e, x, env)

    def x_If(self, s, env):
        if self.loading and env.parent is None and self.is_main_guard(s.test):
            return
        if self.truth(self.eval(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def is_main_guard(self, t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"

    def x_For(self, s, env):
        it = self.pyiter(self.eval(s.iter, env))
        broke = False
        n = 0
        for x in it:
            n += 1
            if n > 20000:
                raise self.Cut("loop too long")
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except self.Break:
                broke = True
                break
            except self.Continue:
                continue
        if not broke:
            self.block(s.orelse, env)

    def x_While(self, s, env):
        und = 0
        n = 0
        while True:
            n += 1
            d0 = self.dpos
            if not self.truth(self.eval(s.test, env)):
                self.block(s.orelse, env)
                break
            try:
                self.block(s.body, env)
            except self.Break:
                break
            except self.Continue:
                pass
            if self.dpos > d0:
                und += 1
                if und > self.while_bound:
                    raise self.Cut("while loop bound")
            if n > 20000:
                raise self.Cut("while loop too long")

    def x_With(self, s, env):
        self.with_(list(s.items), s.body, env)

    def with_(self, items, body, env):
        if not items:
            return self.block(body, env)
        it, rest = items[0], items[1:]
        c = self.eval(it.context_expr, env)
        if isinstance(c, self.Obj) and c.cls == "cmgr":
            return self.with_generator(c, it, rest, body, env)
        v = c
        if isinstance(c, self.Obj) and isinstance(c.cls, self.ClassVal):
            f, _ = self.lookup(c.cls, "__enter__")
            if isinstance(f, self.FN):
                v = self.call(f, [c])
        elif isinstance(c, Term):
            v = Term("enter", (c,))

        def leave(*a):
            if isinstance(c, self.Obj) and isinstance(c.cls, self.ClassVal):
                f, _ = self.lookup(c.cls, "__exit__")
                if isinstance(f, self.FN):
                    return self.call(f, [c] + list(a))
            elif isinstance(c, self.Obj) and c.cls == "suppress":
                return a[0] is not None and self.subclass(a[0], tuple(c.p)) is True
            return None
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            self.with_(rest, body, env)
        except self.PyRaise as e:
            r = leave(e.exc.cls, e.exc, None)
            if r is not None and not isinstance(r, Term) and self.truth(r):
                return
            raise
        except (self.Return, self.Break, self.Continue):
            leave(None, None, None)
            raise
        leave(None, None, None)

    def with_generator(self, c, it, rest, body, env):
        """contextlib.contextmanager: the with body runs at the yield of the generator function"""
        f, args, kw = c.p
        st = {"n": 0, "ctl": None}

        def hook(v):
            st["n"] += 1
            if st["n"] > 1:
                self.throw(RuntimeError, "generator didn't stop")
            depth, stack, cur, ir = self.depth, list(self.stack), self.cur, self.inraise
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
                self.with_(rest, body, env)
            except (self.Return, self.Break, self.Continue) as e:
                st["ctl"] = e
            finally:
                self.depth, self.cur, self.inraise = depth, cur, ir
                self.stack[:] = stack
        self.yield_hook = hook
        self.call(f, list(args), dict(kw))
        if st["n"] == 0:
            self.throw(RuntimeError, "generator didn't yield")
        if st["ctl"] is not None:
            raise st["ctl"]

    def x_Raise(self, s, env):
        if s.exc is None:
            st = getattr(self, "excstack", [])
            if st:
                raise self.PyRaise(st[-1])
            self.throw(RuntimeError, "No active exception to reraise")
        self.inraise += 1
        where = self.cur
        try:
            e = self.eval(s.exc, env)
        finally:
            self.inraise -= 1
        self.cur = where
        if isinstance(e, (type, self.ClassVal)):
            e = self.call(e, [])
        if isinstance(e, Term):
            x = self.new(Exception)
            x.d["args"] = (e,)
            e = x
        if isinstance(e, self.Obj) and (isinstance(e.cls, self.ClassVal) and e.cls.kind == "exc"
                                        or isinstance(e.cls, type) and issubclass(e.cls, BaseException)):
            e.d["__where__"] = (self.cur[0], self.cur[1], self.stack[-1] if self.stack else "<module>")
            raise self.PyRaise(e)
        if isinstance(e, self.Obj) and isinstance(e.cls, self.ClassVal) and any(isinstance(b, (Term, self.Ext)) for b in e.cls.mro):
            x = self.new(Exception)
            x.d["args"] = (e,)
            x.d["__where__"] = (self.cur[0], self.cur[1], self.stack[-1] if self.stack else "<module>")
            raise self.PyRaise(x)
        self.throw(TypeError, "exceptions must derive from BaseException")

    def exc_match(self, exc, t):
        if t is None:
            return True
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        r = self.subclass(exc.cls, t)
        return bool(r)

    def x_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except self.PyRaise as e:
                for h in s.handlers:
                    t = None if h.type is None else self.eval(h.type, env)
                    if self.exc_match(e.exc, t):
                        if h.name:
                            self.store_name(env, h.name, e.exc)
                        self.__dict__.setdefault("excstack", []).append(e.exc)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.excstack.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (self.PyRaise, self.Return, self.Break, self.Continue):
            if s.finalbody:
                self.block(s.finalbody, env)
            raise
        if s.finalbody:
            self.block(s.finalbody, env)

    x_TryStar = x_Try

    def x_Import(self, s, env):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == self.PKG:
                m = self.load(a.name)
                self.store_name(env, a.asname or top, m if a.asname else self.modules[top])
            elif a.name in self.virtual:
                m = self.load(a.name)
                self.store_name(env, a.asname or top, m if a.asname else self.modules[top])
            elif top in sys.stdlib_module_names or top in THIRD:
                self.store_name(env, a.asname or top, self.Ext(a.name if a.asname else top))
            else:
                self.throw(ModuleNotFoundError, "No module named '%s'" % a.name)

    def resolve_rel(self, m, level, module):
        if level == 0:
            return module
        base = m.name if m.ispkg else m.name.rpartition(".")[0]
        for _ in range(level - 1):
            base = base.rpartition(".")[0]
        return base + ("." + module if module else "")

    def x_ImportFrom(self, s, env):
        if s.module == "__future__":
            return
        name = self.resolve_rel(env.module, s.level, s.module)
        top = name.split(".")[0]
        if top != self.PKG and name not in self.virtual:
            if not (top in sys.stdlib_module_names or top in THIRD):
                self.throw(ModuleNotFoundError, "No module named '%s'" % name)
            for a in s.names:
                if a.name == "*":
                    continue
                sub = name + "." + a.name
                self.store_name(env, a.asname or a.name, self.load(sub) if sub in self.virtual else self.ext_import(name, a.name))
            return
        if name not in self.virtual and not self.known_module(name):
            self.throw(ModuleNotFoundError, "No module named '%s'" % name)
        m = self.load(name)
        err = None
        for a in s.names:
            if a.name == "*":
                for k, v in list(m.d.items()):
                    if not k.startswith("_"):
                        self.store_name(env, k, v)
                continue
            if a.name in m.d:
                v = m.d[a.name]
            elif name + "." + a.name in self.virtual or (m.ispkg and self.known_module(name + "." + a.name)):
                v = self.load(name + "." + a.name)
            else:
                err = a.name
                self.diags.append((env.module.name, s.lineno, "cannot import name %r from %r" % (a.name, name), self.cur))
                v = Term("unknown", (name, a.name))
                if not self.loading:
                    self.throw(ImportError, "cannot import name %r from %r" % (a.name, name))
            self.store_name(env, a.asname or a.name, v)

    # ---- functions and classes
    def mkfunc(self, node, env):
        ab = _ab()
        f = ab.FuncVal(type(lambda: 0), self.gen)
        f.node = node
        f.name = getattr(node, "name", "<lambda>")
        f.module = env.module
        f.env = env
        e = env
        f.owner = None
        while e is not None and e.isclass:
            if f.owner is None:
                f.owner = e.owner
            e = e.parent
        f.env = e if e is not None else env
        f.mcls = env.mcls
        q = []
        if env.isclass:
            q.append(env.owner.qualname)
        elif env.func is not None:
            q.append(env.func.qualname + ".<locals>")
        else:
            q.append(env.module.name)
        f.qualname = ".".join(q + [f.name])
        if f.owner is None and env.func is not None:
            f.owner = env.owner
        a = node.args
        f.defaults = [self.eval(d, env) for d in a.defaults]
        f.kwdefaults = {x.arg: self.eval(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        c = self._locs.get(id(node))
        if c is None:
            c = ab.local_names(node)
            mc = env.mcls
            c = ({self.mangle(n, mc) for n in c[0]}, c[1], c[2], c[3])
            self._locs[id(node)] = c
        f.locs = c
        return f

    def x_FunctionDef(self, s, env):
        f = self.mkfunc(s, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, env, f)
        self.store_name(env, s.name, v)

    def x_AsyncFunctionDef(self, s, env):
        self.store_name(env, s.name, Term("async", (s.name,)))

    def decorate(self, d, v, env, f):
        ab = _ab()
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.eval(d.value, env)
            if isinstance(p, ab.Prop):
                q = ab.Prop(p.fget, p.fset, p.fdel, p.cached)
                if d.attr == "setter":
                    q.fset = v
                elif d.attr == "getter":
                    q.fget = v
                else:
                    q.fdel = v
                return q
        dv = self.eval(d, env)
        return self.apply_decorator(dv, v)

    def apply_decorator(self, dv, v):
        ab = _ab()
        if dv is ab.BUILTIN_TYPES.get("property") or (isinstance(dv, ab.Nat) and dv.name == "property"):
            return ab.Prop(v)
        if isinstance(dv, ab.Nat) and dv.name == "classmethod":
            return ab.CMeth(v)
        if isinstance(dv, ab.Nat) and dv.name == "staticmethod":
            return ab.SMeth(v)
        if isinstance(dv, ab.Ext):
            p = dv.path
            if p == "functools.cached_property":
                return ab.Prop(v, cached=True)
            if p in ("functools.lru_cache", "functools.cache"):
                g = v.f if isinstance(v, (ab.CMeth, ab.SMeth)) else v
                if isinstance(g, ab.FuncVal):
                    g.d["__lru__"] = True
                return v
            if p in ("abc.abstractmethod", "abc.abstractproperty", "abc.abstractclassmethod", "abc.abstractstaticmethod"):
                g = v
                while not isinstance(g, ab.FuncVal):
                    g = g.fget if isinstance(g, ab.Prop) else getattr(g, "f", None)
                    if g is None:
                        return v
                g.d["__isabstractmethod__"] = True
                return v
            if p in ("dataclasses.dataclass",):
                return self.mkdataclass(v, {})
            if p in ("functools.total_ordering",):
                return self.total_ordering(v)
            if p == "contextlib.contextmanager" and isinstance(v, ab.FuncVal):
                def mk(I, a, k, g=v):
                    o = I.new("cmgr")
                    o.p = (g, a, k)
                    return o
                q = self.natfunc(v, "contextmanager", mk)
                q.owner, q.mcls = v.owner, v.mcls
                return q
            if p in ("functools.singledispatch", "functools.singledispatchmethod") and isinstance(v, (ab.FuncVal, ab.CMeth, ab.SMeth)):
                return self.singledispatch(v, p.endswith("method"))
            if p in ("typing.override", "typing.final", "typing.overload", "typing.runtime_checkable", "enum.unique",
                     "typing.no_type_check", "enum.verify", "enum.member", "enum.nonmember",
                     "atexit.register", "warnings.deprecated", "typing.no_type_check_decorator",
                     "enum.global_enum"):
                return v
            return Term("decorated", (p, v))
        return self.call(dv, [v])

    def total_ordering(self, c):
        ab = _ab()

        def have(n):
            return n in c.d
        root = next((n for n in ("__lt__", "__le__", "__gt__", "__ge__") if have(n)), None)
        if root is None:
            return c
        def mkop(name):
            def fn(I, a, k):
                x, y = a
                r = I.call(c.d[root], [x, y])
                if r is NotImplemented:
                    return r
                eq = None
                lt = {"__lt__": lambda: I.truth(r), "__le__": lambda: I.truth(r) and not I.truth(I.cmp("eq", x, y)),
                      "__gt__": lambda: not I.truth(r) and not I.truth(I.cmp("eq", x, y)), "__ge__": lambda: not I.truth(r)}[root]()
                eqv = I.truth(I.cmp("eq", x, y)) if not lt or True else False
                return {"__lt__": lt, "__le__": lt or eqv, "__gt__": not lt and not eqv, "__ge__": not lt}[name]
            return fn
        for n in ("__lt__", "__le__", "__gt__", "__ge__"):
            if not have(n):
                f = self.natfunc(c, n, mkop(n))
                c.d[n] = f
        return c

    def natfunc(self, c, name, fn):
        """a FuncVal whose behaviour is a model (so that dunder lookup finds it)"""
        ab = _ab()
        node = ast.parse("def %s(self, other): return None" % name).body[0]
        f = ab.FuncVal(type(lambda: 0), self.gen)
        f.node, f.name, f.module, f.env, f.owner, f.mcls = node, name, c.module, None, c, c.name
        f.defaults, f.kwdefaults, f.qualname = [], {}, c.qualname + "." + name
        f.locs = (set(), (), (), False)
        self.hooks[f.qualname] = lambda I, a, k: fn(I, a, k)
        return f

    def singledispatch(self, v, method):
        """the implementation registered for the nearest class of the (first or second) argument"""
        ab = _ab()
        g = v.f if isinstance(v, (ab.CMeth, ab.SMeth)) else v
        reg = []

        def pick(I, a, k):
            arg = a[1 if method else 0]
            t = I.typeof(arg)
            mro = list(t.mro) if isinstance(t, ab.ClassVal) else list(t.__mro__) if isinstance(t, type) else []
            if t is None or not mro:
                raise ab.Unsupported("single dispatch on a value of unknown type")
            for c in mro:
                for kc, fn in reversed(reg):
                    if kc is c:
                        return I.call(fn, a, k)
            return I.call(g, a, k)

        def register(I, a, k):
            if len(a) == 2:
                reg.append((a[0], a[1].f if isinstance(a[1], (ab.CMeth, ab.SMeth)) else a[1]))
                return a[1]
            if isinstance(a[0], ab.FuncVal):
                an = I.annotations(a[0])
                tys = [x for kk, x in an.p.values() if kk != "return"]
                if not tys:
                    raise ab.Unsupported("singledispatch.register without an annotation")
                for t in (tys[0].items if isinstance(tys[0], ab.Union) else [tys[0]]):
                    reg.append((t, a[0]))
                return a[0]

            def deco(I2, b, kk):
                for t in (a[0].items if isinstance(a[0], ab.Union) else [a[0]]):
                    reg.append((t, b[0].f if isinstance(b[0], (ab.CMeth, ab.SMeth)) else b[0]))
                return b[0]
            return ab.Nat("register()", deco)
        q = self.natfunc(g, "singledispatch", pick)
        q.owner, q.mcls = g.owner, g.mcls
        q.d["register"] = ab.Nat("register", register)
        return q

    def mkdataclass(self, c, opts):
        if not isinstance(c, self.ClassVal):
            return c
        c.dc = dict(opts)
        if opts.get("eq", True) and "__hash__" in c.d and c.d["__hash__"] is None and opts.get("frozen"):
            if "__eq__" not in c.d:
                del c.d["__hash__"]
        if opts.get("eq", True) and "__hash__" not in c.d and not opts.get("frozen") and not opts.get("unsafe_hash"):
            c.d["__hash__"] = None
        if "__match_args__" not in c.d:
            c.d["__match_args__"] = tuple(n for n, _ in self.dc_fields(c))
        return c

    def x_ClassDef(self, s, env):
        ab = _ab()
        bases, kw = [], {}
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.eval(b.value, env)))
            else:
                bases.append(self.eval(b, env))
        for k in s.keywords:
            if k.arg:
                kw[k.arg] = self.eval(k.value, env)
        prefix = env.owner.qualname if env.isclass else (env.func.qualname + ".<locals>" if env.func is not None else env.module.name)
        cv = self.mkclass(s.name, bases, env.module, prefix + "." + s.name)
        cv.node = s
        cv.kwds = kw
        ce = ab.Env(env, env.module)
        ce.isclass = True
        ce.owner = cv
        ce.mcls = s.name
        ce.vars = cv.d
        ce.func = None
        cv.env = env
        # type parameters
        for tp in getattr(s, "type_params", []) or []:
            ce.vars.setdefault(tp.name, Term("typevar", (tp.name,)))
        names = []
        cv.d["__order__"] = names
        if self.loading and env.parent is None:
            for st in s.body:
                self.load_stmt(st, ce, env.module)
        else:
            self.block(s.body, ce)
        for tp in getattr(s, "type_params", []) or []:
            if isinstance(cv.d.get(tp.name), Term) and cv.d[tp.name].op == "typevar":
                del cv.d[tp.name]
        del cv.d["__order__"]
        self.finish_class(cv, kw)
        v = cv
        for d in reversed(s.decorator_list):
            dn = d
            if isinstance(d, ast.Call):
                fn = self.eval(d.func, env)
                if isinstance(fn, ab.Ext) and fn.path == "dataclasses.dataclass":
                    opts = {k.arg: self.eval(k.value, env) for k in d.keywords}
                    v = self.mkdataclass(v, opts)
                    continue
            v = self.apply_decorator(self.eval(dn, env), v)
        self.store_name(env, s.name, v)

    def mkclass(self, name, bases, module, qualname):
        ab = _ab()
        cv = ab.ClassVal(type, self.gen)
        cv.name, cv.module, cv.qualname = name, module, qualname
        bases = [b for b in bases if not (isinstance(b, ab.Ext) and b.path == "typing.Generic")]
        cv.bases = bases or [object]
        cv.node = None
        cv.env = None
        cv.ann = []
        cv.annval = {}
        cv.dc = None
        cv.members = None
        cv.kwds = {}
        cv.subs = []
        cv.kind = "plain"
        cv.native = None
        cv.mro = self.mro_of(cv)
        for b in cv.mro[1:]:
            if isinstance(b, ab.Ext):
                k = {"enum.Enum": "enum", "enum.IntEnum": "intenum", "enum.IntFlag": "intflag", "enum.Flag": "flag",
                     "enum.StrEnum": "strenum", "typing.NamedTuple": "namedtuple"}.get(b.path)
                if k:
                    if cv.kind == "plain" or k != "enum":
                        cv.kind = k
                    if k == "namedtuple":
                        cv.native = tuple
            elif isinstance(b, type) and b is not object:
                if issubclass(b, BaseException):
                    cv.kind = "exc"
                elif b is not type:
                    cv.native = cv.native or b
            elif isinstance(b, ab.ClassVal):
                if b.kind == "exc":
                    cv.kind = "exc"
                if b.native is not None:
                    cv.native = cv.native or b.native
        if cv.kind == "enum" and cv.native is int:
            cv.kind = "intenum"
        if cv.kind in ("enum", "intenum", "intflag", "flag", "strenum"):
            cv.native = None
        return cv

    def finish_class(self, cv, kw):
        ab = _ab()
        if "__eq__" in cv.d and "__hash__" not in cv.d:
            cv.d["__hash__"] = None
        for k, v in list(cv.d.items()):
            if isinstance(v, ab.FuncVal) and k in ("__new__",):
                pass
            if isinstance(v, ab.FuncVal) and k in ("__init_subclass__", "__class_getitem__"):
                cv.d[k] = ab.CMeth(v)
            if isinstance(v, self.Obj) and isinstance(v.cls, ab.ClassVal) and not isinstance(v, ab.ClassVal):
                sn, _ = self.lookup(v.cls, "__set_name__")
                if isinstance(sn, ab.FuncVal):
                    self.call(sn, [v, cv, k])
        for b in cv.bases:
            if isinstance(b, ab.ClassVal):
                if self.gen == 0:
                    b.subs.append(cv)
        if self.gen == 0:
            self.classes.append(cv)
        if cv.kind in ("enum", "intenum", "intflag", "flag", "strenum"):
            self.finish_enum(cv)
        for b in cv.mro[1:]:
            if isinstance(b, ab.ClassVal) and "__init_subclass__" in b.d:
                f = b.d["__init_subclass__"]
                f = f.f if isinstance(f, (ab.CMeth, ab.SMeth)) else f
                kws = {k: v for k, v in kw.items() if k != "metaclass"}
                try:
                    self.call(f, [cv], kws)
                except self.PyRaise as e:
                    if not self.loading:
                        raise
                    self.diags.append((cv.module.name, cv.node.lineno if cv.node else 0,
                                       "__init_subclass__ of %s raises %s: %s" % (cv.name, ab.cname(e.exc.cls), self.excmsg(e.exc)), self.cur))
                break

    def finish_enum(self, cv):
        ab = _ab()
        inherited = {}
        members = {}
        last = []
        autos = {}

        def known(t):
            """a combination of automatic numbers, with their values"""
            if not isinstance(t, Term):
                return t
            if t in autos:
                return autos[t]
            f = {"or": int.__or__, "and": int.__and__, "xor": int.__xor__, "add": int.__add__, "sub": int.__sub__, "mul": int.__mul__, "lshift": int.__lshift__}.get(t.op)
            a = [known(x) for x in t.args]
            if f is not None and len(a) == 2 and all(isinstance(x, int) for x in a):
                return f(*a)
            return t
        names = [k for k in cv.d]
        for k in names:
            v = cv.d[k]
            if k.startswith("__") or k.startswith("_%s__" % cv.name) or k in ("_ignore_", "_missing_", "_generate_next_value_", "_order_"):
                continue
            if isinstance(v, (ab.FuncVal, ab.Prop, ab.CMeth, ab.SMeth, ab.Nat)):
                continue
            if isinstance(v, ab.ClassVal):
                continue
            if isinstance(v, Term) and v.op != "enum.auto" and autos:
                v = known(v)
            if isinstance(v, Term) and v.op == "enum.auto":
                number = v
                if cv.kind in ("intflag", "flag"):
                    nums = [x for x in last if isinstance(x, int)]
                    v = 1 << (max(nums).bit_length()) if nums else 1
                elif cv.kind == "strenum":
                    v = k.lower()
                else:
                    g, _ = self.lookup(cv, "_generate_next_value_")
                    if g is not None and isinstance(g if not isinstance(g, ab.SMeth) else g.f, ab.FuncVal):
                        v = self.call(g, [k, 1, len(last), self.mklist(last)])
                    else:
                        nums = [x for x in last if isinstance(x, int)]
                        v = (nums[-1] + 1) if nums else 1
                if isinstance(v, int):
                    autos[number] = v
            nv = self.native_of(v)
            if cv.kind in ("intenum", "intflag") and isinstance(nv, int) and not isinstance(nv, bool):
                v = nv
            args = v if isinstance(v, tuple) else (v,)
            m = self.new(cv)
            m.d["_name_"] = k
            m.d["_value_"] = v
            nf, _ = self.lookup(cv, "__new__")
            if nf is not None:
                f = nf.f if isinstance(nf, ab.SMeth) else nf
                if isinstance(f, ab.FuncVal):
                    m2 = self.call(f, [cv] + list(args))
                    if isinstance(m2, self.Obj):
                        m2.d.setdefault("_value_", v)
                        m2.d["_name_"] = k
                        m = m2
            mv = m.d["_value_"]
            alias = None
            for mm in members.values():
                x = mm.d["_value_"]
                if type(x) is type(mv) and isinstance(x, ab.CONST) and x == mv:
                    alias = mm
                    break
            last.append(mv)
            if alias is not None:
                members[k] = alias
                cv.d[k] = alias
                continue
            inf, _ = self.lookup(cv, "__init__")
            if isinstance(inf, ab.FuncVal):
                self.call(inf, [m] + list(args))
            members[k] = m
            cv.d[k] = m
        cv.members = members
        if not members:
            cv.members = None

    # ---------------------------------------------------------------- match
    def x_Match(self, s, env):
        v = self.eval(s.subject, env)
        for c in s.cases:
            binds = {}
            if self.match(c.pattern, v, env, binds):
                for k, x in binds.items():
                    self.store_name(env, k, x)
                if c.guard is None or self.truth(self.eval(c.guard, env)):
                    self.block(c.body, env)
                    return

    def match(self, p, v, env, binds):
        v = self.facts.norm(v)
        if isinstance(p, ast.MatchValue):
            return self.truth(self.cmp("eq", v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                b2 = {}
                if self.match(q, v, env, b2):
                    binds.update(b2)
                    return True
            return False
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (str, bytes, Byt, SStr)) or (isinstance(v, self.Obj) and v.cls in (bytearray, dict, set)):
                return False
            if isinstance(v, Term):
                if v.typ is not None and v.typ not in (list, tuple):
                    return False
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                if not self.truth(Term("isseq", (v, len(p.patterns), bool(star)), bool)):
                    return False
                if star:
                    raise self.Unsupported("star pattern on an unknown value")
                return all(self.match(q, Term("index", (v, i)), env, binds) for i, q in enumerate(p.patterns))
            items = self.seqitems(v)
            if items is None and isinstance(v, self.Obj) and isinstance(v.cls, self.ClassVal) and v.cls.native in (list, tuple):
                items = self.iterate(v)
            if items is None and isinstance(v, self.Obj) and v.cls is memoryview:
                n = self.length(v)
                star = any(isinstance(q, ast.MatchStar) for q in p.patterns)
                want = len(p.patterns) - (1 if star else 0)
                if not star:
                    if not self.truth(self.cmp_int("eq", n, want)):
                        return False
                items = self.iterate(v)
            if items is None and isinstance(v, range):
                items = list(v)
            if items is None:
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                if len(items) != len(p.patterns):
                    return False
                return all(self.match(q, x, env, binds) for q, x in zip(p.patterns, list(items)))
            k = star[0]
            after = len(p.patterns) - k - 1
            if len(items) < k + after:
                return False
            items = list(items)
            for q, x in zip(p.patterns[:k], items[:k]):
                if not self.match(q, x, env, binds):
                    return False
            tail = items[len(items) - after:] if after else []
            for q, x in zip(p.patterns[k + 1:], tail):
                if not self.match(q, x, env, binds):
                    return False
            if p.patterns[k].name:
                binds[p.patterns[k].name] = self.mklist(items[k:len(items) - after])
            return True
        if isinstance(p, ast.MatchMapping):
            if not (isinstance(v, self.Obj) and v.cls is dict):
                if isinstance(v, Term):
                    raise self.Unsupported("mapping pattern on an unknown value")
                return False
            used = []
            for kn, q in zip(p.keys, p.patterns):
                k = self.eval(kn, env)
                h = self.dict_find(v, k)
                if h is self.MISSING:
                    return False
                used.append(h)
                if not self.match(q, v.p[h][1], env, binds):
                    return False
            if p.rest:
                binds[p.rest] = self.mkdict([kv for h, kv in v.p.items() if h not in used])
            return True
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, env)
            if isinstance(cls, self.Nat) or cls is None:
                self.throw(TypeError, "called match pattern must be a class")
            if not self.isinst(v, cls):
                return False
            v = self.facts.norm(v)
            subs = []
            if p.patterns:
                if isinstance(cls, type) and cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
                    if len(p.patterns) > 1:
                        self.throw(TypeError, "%s() accepts 1 positional sub-pattern" % cls.__name__)
                    if not self.match(p.patterns[0], v, env, binds):
                        return False
                else:
                    ma = self.getattr(cls, "__match_args__", None) if isinstance(cls, self.ClassVal) else None
                    if ma is None and isinstance(cls, self.ClassVal) and cls.native in (int, str, bytes, list, dict, tuple, float):
                        if not self.match(p.patterns[0], v, env, binds):
                            return False
                        ma = ()
                        pats = []
                    else:
                        ma = self.iterate(ma) if ma is not None else []
                        pats = p.patterns
                        if len(pats) > len(ma):
                            self.throw(TypeError, "%s() accepts %d positional sub-patterns (%d given)" % (_ab().cname(cls), len(ma), len(pats)))
                    for n, q in zip(ma, pats):
                        subs.append((n, q))
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                subs.append((n, q))
            for n, q in subs:
                if isinstance(v, Term):
                    x = Term("attr", (v, n))
                else:
                    try:
                        x = self.getattr(v, n)
                    except self.PyRaise as e:
                        if self.subclass(e.exc.cls, AttributeError):
                            return False
                        raise
                if not self.match(q, x, env, binds):
                    return False
            return True
        raise self.Unsupported("pattern %s" % type(p).__name__)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise self.Cut("step budget")
        if self.deadline is not None and self.steps & 1023 == 0 and _time() > self.deadline:
            raise self.Cut("time")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise self.Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load_name(env, e.id)

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        ln = getattr(e, "lineno", None)
        if ln:
            self.cur = (env.module.path, ln)
        return self.getattr(o, self.mangle(e.attr, env.mcls))

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        i = self.eval(e.slice, env)
        self.cur = (env.module.path, e.lineno)
        return self.getitem(o, i)

    def e_Slice(self, e, env):
        return slice(*[None if x is None else self.eval(x, env) for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.mklist(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return self.mkset(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = self.new(dict, {})
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, env)
                self.call_method(d, "update", [o], {})
            else:
                kk = self.eval(k, env)
                self.dict_set(d, kk, self.eval(v, env))
        return d

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env)

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        t = env
        while t.iscomp:
            t = t.parent
        self.store_name(t, e.target.id, v)
        return v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t or not isand and t:
                return self.facts.norm(v) if not isinstance(v, BitBool) else t
        return v

    def e_UnaryOp(self, e, env):
        return self.unop(e.op, self.eval(e.operand, env))

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.cur = (env.module.path, e.lineno)
        return self.binop(self.BINOPS[type(e.op)], a, b)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        r = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            self.cur = (env.module.path, e.lineno)
            if isinstance(op, ast.Is):
                r = self.is_(left, right)
            elif isinstance(op, ast.IsNot):
                r = not self.is_(left, right)
            elif isinstance(op, ast.In):
                r = self.contains(right, left)
            elif isinstance(op, ast.NotIn):
                r = not self.contains(right, left)
            else:
                r = self.cmp(self.CMPS[type(op)], left, right)
            if len(e.ops) > 1 and not self.truth(r):
                return False
            left = right
        return r

    def e_Call(self, e, env):
        ab = _ab()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in env.vars and "super" not in env.module.d:
            return self.mksuper(e, env)
        f = self.eval(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                o = self.eval(k.value, env)
                if isinstance(o, self.Obj) and o.cls is dict:
                    for kk, v in o.p.values():
                        kw[kk] = v
                elif isinstance(o, Term):
                    raise self.Unsupported("** of an unknown mapping")
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.cur = (env.module.path, e.lineno)
        if isinstance(f, ab.Nat) and f.name in ("locals", "globals", "vars") and not args:
            if f.name == "globals":
                return self.mkdict(list(env.module.d.items()))
            return self.mkdict(list(env.vars.items()))
        return self.call(f, args, kw)

    def mksuper(self, e, env):
        ab = _ab()
        if e.args:
            c = self.eval(e.args[0], env)
            o = self.eval(e.args[1], env)
            return ab.Super(c, o)
        x = env
        while x is not None and (x.func is None or x.owner is None or x.first is None):
            x = x.parent
        if x is None:
            self.throw(RuntimeError, "super(): no arguments")
        return ab.Super(x.func.owner, x.first)

    def e_JoinedStr(self, e, env):
        if self.inraise:
            return Term("message", (), str)
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, env))
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out.extend(p.p)
            elif isinstance(p, Term):
                out.append(Fmt(p, "str"))
            else:
                out.append(p)
        return mkstr(out)

    def e_FormattedValue(self, e, env):
        v = self.eval(e.value, env)
        spec = ""
        if e.format_spec is not None:
            spec = self.eval(e.format_spec, env)
        return self.format_(v, spec, e.conversion)

    def e_Starred(self, e, env):
        return self.eval(e.value, env)

    def comp_env(self, env):
        ab = _ab()
        c = ab.Env(env, env.module)
        c.iscomp = True
        c.func = env.func
        c.owner = env.owner if not env.isclass else env.owner
        c.first = env.first
        return c

    def comp(self, gens, env, fn, first=None):
        """python generator over the comprehension"""
        g = gens[0]
        src = first if first is not None else self.eval(g.iter, env)
        n = 0
        for x in self.pyiter(src):
            n += 1
            if n > 70000:
                raise self.Cut("comprehension too long")
            self.assign_comp(g.target, x, env)
            ok = True
            for c in g.ifs:
                if not self.truth(self.eval(c, env)):
                    ok = False
                    break
            if not ok:
                continue
            if len(gens) == 1:
                yield fn()
            else:
                yield from self.comp(gens[1:], env, fn)

    def assign_comp(self, t, x, env):
        if isinstance(t, ast.Name):
            env.vars[self.mangle(t.id, env.mcls)] = x
        else:
            self.assign(t, x, env)

    def e_ListComp(self, e, env):
        c = self.comp_env(env)
        first = self.eval(e.generators[0].iter, env)
        return self.mklist(list(self.comp(e.generators, c, lambda: self.eval(e.elt, c), first)))

    def e_SetComp(self, e, env):
        c = self.comp_env(env)
        first = self.eval(e.generators[0].iter, env)
        return self.mkset(list(self.comp(e.generators, c, lambda: self.eval(e.elt, c), first)))

    def e_DictComp(self, e, env):
        c = self.comp_env(env)
        first = self.eval(e.generators[0].iter, env)
        return self.mkdict(list(self.comp(e.generators, c, lambda: (self.eval(e.key, c), self.eval(e.value, c)), first)))

    def e_GeneratorExp(self, e, env):
        c = self.comp_env(env)
        first = self.iter_(self.eval(e.generators[0].iter, env))
        if self.gen == 0:
            return self.mkiter(list(self.comp(e.generators, c, lambda: self.eval(e.elt, c), first)))
        return self.mkiter(self.comp(e.generators, c, lambda: self.eval(e.elt, c), first))

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        x = env
        while x is not None and x.yields is None:
            x = x.parent
        if callable(x.yields):
            x.yields(v)
            return None
        x.yields.append(v)
        if len(x.yields) > 2000:
            raise self.Cut("generator too long")
        return None

    def e_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        x = env
        while x is not None and x.yields is None:
            x = x.parent
        if callable(x.yields):
            for y in self.iterate(v):
                x.yields(y)
        else:
            x.yields.extend(self.iterate(v))
        return v.d.get("__ret__") if isinstance(v, self.Obj) else None

    # ---------------------------------------------------------------- iteration protocol (lazy)
    def pyiter(self, v):
        v = self.facts.norm(v)
        Obj, ClassVal, FuncVal = self.Obj, self.ClassVal, self.FuncVal
        if isinstance(v, Obj):
            if v.cls == "iter":
                return v.p
            if v.cls in (list, _coll.deque):
                return self._list_iter(v)
            if v.cls in (dict, set):
                return self._dict_iter(v)
            if v.cls == "idict":
                return iter(list(v.p.d))
            if isinstance(v.cls, ClassVal) and not isinstance(v, ClassVal):
                f, _ = self.lookup(v.cls, "__iter__")
                if isinstance(f, self.FN):
                    it = self.call(f, [v])
                    return self._next_iter(it)
                if v.cls.native is not None and v.p is not None:
                    return self.pyiter(v.p)
            if v.cls in (bytearray, memoryview):
                return self._bytes_iter(self.byteslike(v))
        if isinstance(v, Byt):
            return self._bytes_iter(v)
        return iter(self.iterate(v))

    def _list_iter(self, v):
        i = 0
        while i < len(v.p):
            yield v.p[i]
            i += 1

    def _dict_iter(self, v):
        n = len(v.p)
        for k, _ in list(v.p.values()):
            if len(v.p) != n:
                self.throw(RuntimeError, "dictionary changed size during iteration")
            yield k

    def _bytes_iter(self, v):
        n = self.facts.norm(_ab().blen(v))
        if isinstance(n, int):
            for i in range(n):
                yield self.bindex(v, i)
            return
        lo, _ = self.facts.interval(n)
        i = 0
        while True:
            n = self.facts.norm(n)
            if i - (lo or 0) > self.seg_bound:
                raise self.Cut("iteration over a byte string of unknown length")
            if not self.truth(self.cmp_int("gt", n, i)):
                return
            yield self.bindex(v, i)
            i += 1

    def _next_iter(self, it):
        if isinstance(it, self.Obj) and it.cls == "iter":
            yield from it.p
            return
        n = 0
        while True:
            try:
                x = self.next_(it)
            except self.PyRaise as e:
                if self.subclass(e.exc.cls, StopIteration):
                    return
                raise
            yield x
            n += 1
            if n > 2000:
                raise self.Cut("iterator too long")
