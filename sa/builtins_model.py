"""Models of the built-in types and of the few library functions the repository uses."""
import builtins as _bi
import collections as _coll
import datetime as _dt
import itertools as _it
import math as _math
import re as _re
import struct as _struct

from dom import (Term, Lin, BitBool, Byt, Seg, SStr, Fmt, mkstr, byt, bparts, blen, add, scale, mk,
                 opq, byte, bit, bits_of, from_bits, sym)

BYTES_METHODS = {n for n in dir(bytes) if not n.startswith("__")}
BA_METHODS = {n for n in dir(bytearray) if not n.startswith("__")}
STR_METHODS = {n for n in dir(str) if not n.startswith("__")}
INT_METHODS = {n for n in dir(int) if not n.startswith("__")}
LIST_METHODS = {n for n in dir(list) if not n.startswith("__")}
DICT_METHODS = {n for n in dir(dict) if not n.startswith("__")}
SET_METHODS = {n for n in dir(set) if not n.startswith("__")}
TUP_METHODS = {"index", "count"}
DEQ_METHODS = {n for n in dir(_coll.deque) if not n.startswith("__")}
MV_METHODS = {"tobytes", "release", "cast", "hex", "tolist", "toreadonly"}


def ab():
    import absint
    return absint


def install(I):
    A = ab()
    I._locs = {}
    for n in ("Cut", "Unsupported", "PyRaise", "Infeasible", "Obj", "ClassVal", "FuncVal", "Nat", "Ext", "BINOPS", "CMPS", "MISSING", "FN"):
        setattr(type(I), n, getattr(A, n))
    type(I).Return, type(I).Break, type(I).Continue = A._Return, A._Break, A._Continue
    B = I.builtins

    def reg(name):
        def deco(fn):
            B[name] = A.Nat(name, fn)
            return fn
        return deco

    @reg("len")
    def _len(I, a, k):
        return I.length(a[0])

    @reg("isinstance")
    def _isinstance(I, a, k):
        c = a[1]
        return I.isinst(a[0], c)

    @reg("issubclass")
    def _issubclass(I, a, k):
        x = a[0]
        if isinstance(x, Term):
            return I.truth(Term("issubclass", (x, A._clskey(a[1])), bool))
        if not isinstance(x, (A.ClassVal, type, A.Ext)):
            I.throw(TypeError, "issubclass() arg 1 must be a class")
        r = I.subclass(x, a[1])
        return bool(r)

    @reg("hasattr")
    def _hasattr(I, a, k):
        if isinstance(a[0], Term) and a[0].typ is None:
            return I.truth(Term("hasattr", (a[0], a[1]), bool))
        try:
            r = I.getattr(a[0], a[1], None if False else A.MISSING)
            return r is not A.MISSING
        except A.PyRaise as e:
            if I.subclass(e.exc.cls, AttributeError):
                return False
            raise

    @reg("getattr")
    def _getattr(I, a, k):
        if not isinstance(a[1], str):
            if isinstance(a[1], (SStr, Term)):
                return Term("getattr", (A._vkey(a[0]), a[1]))
        if len(a) == 3:
            try:
                return I.getattr(a[0], a[1])
            except A.PyRaise as e:
                if I.subclass(e.exc.cls, AttributeError):
                    return a[2]
                raise
        return I.getattr(a[0], a[1])

    @reg("setattr")
    def _setattr(I, a, k):
        I.setattr(a[0], a[1], a[2])

    @reg("delattr")
    def _delattr(I, a, k):
        I.delattr(a[0], a[1])

    @reg("callable")
    def _callable(I, a, k):
        v = a[0]
        if isinstance(v, Term):
            return I.truth(Term("callable", (v,), bool))
        if isinstance(v, A.Obj) and isinstance(v.cls, A.ClassVal) and not isinstance(v, A.ClassVal):
            return I.lookup(v.cls, "__call__")[0] is not None
        return isinstance(v, (A.ClassVal, A.FuncVal, A.Nat, A.NatM, A.Bound, type, A.Ext))

    @reg("id")
    def _id(I, a, k):
        return Term("id", (A._vkey(a[0]),), int)

    @reg("hash")
    def _hash(I, a, k):
        r = I.hash(a[0])
        return opq(r) if isinstance(r, Term) and r.typ is int else r

    @reg("repr")
    def _repr(I, a, k):
        return I.repr_(a[0])

    B["ascii"] = B["repr"]

    @reg("print")
    def _print(I, a, k):
        return None

    @reg("iter")
    def _iter(I, a, k):
        if len(a) == 2:
            def g():
                for _ in range(500):
                    v = I.call(a[0], [])
                    if I.truth(I.cmp("eq", v, a[1])):
                        return
                    yield v
                raise A.Cut("iter(callable)")
            return I.mkiter(g())
        return I.iter_(a[0])

    @reg("next")
    def _next(I, a, k):
        return I.next_(*a)

    @reg("zip")
    def _zip(I, a, k):
        its = [I.pyiter(x) for x in a]
        strict = k.get("strict", False)

        def g():
            while True:
                out = []
                for j, it in enumerate(its):
                    try:
                        out.append(next(it))
                    except StopIteration:
                        if strict and (j or any(next(x, A.MISSING) is not A.MISSING for x in its[1:])):
                            I.throw(ValueError, "zip() arguments have different lengths")
                        return
                yield tuple(out)
        return I.mkiter(g()) if its else I.mkiter([])

    @reg("map")
    def _map(I, a, k):
        its = [I.pyiter(x) for x in a[1:]]
        return I.mkiter(I.call(a[0], list(xs)) for xs in zip(*its))

    @reg("filter")
    def _filter(I, a, k):
        it = I.pyiter(a[1])
        return I.mkiter(x for x in it if I.truth(x if a[0] is None else I.call(a[0], [x])))

    @reg("enumerate")
    def _enumerate(I, a, k):
        it = I.pyiter(a[0])
        st = a[1] if len(a) > 1 else k.get("start", 0)
        return I.mkiter((I.binop("add", st, i) if i else st, x) for i, x in enumerate(it))

    @reg("reversed")
    def _reversed(I, a, k):
        v = a[0]
        if isinstance(v, A.Obj) and isinstance(v.cls, A.ClassVal):
            f, _ = I.lookup(v.cls, "__reversed__")
            if isinstance(f, A.FN):
                return I.call(f, [v])
        return I.mkiter(reversed(I.iterate(v)))

    @reg("sorted")
    def _sorted(I, a, k):
        return I.mklist(sort(I, I.iterate(a[0]), k))

    def minmax(name, op):
        @reg(name)
        def _mm(I, a, k):
            items = I.iterate(a[0]) if len(a) == 1 else a
            key = k.get("key")
            if not items:
                if "default" in k:
                    return k["default"]
                I.throw(ValueError, "%s() arg is an empty sequence" % name)
            best = items[0]
            bk = I.call(key, [best]) if key is not None else best
            for x in items[1:]:
                xk = I.call(key, [x]) if key is not None else x
                if I.truth(I.cmp(op, xk, bk)):
                    best, bk = x, xk
            return I.facts.norm(best)
    minmax("max", "gt")
    minmax("min", "lt")

    @reg("sum")
    def _sum(I, a, k):
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in I.pyiter(a[0]):
            r = I.binop("add", r, x)
        return r

    @reg("any")
    def _any(I, a, k):
        for x in I.pyiter(a[0]):
            if I.truth(x):
                return True
        return False

    @reg("all")
    def _all(I, a, k):
        for x in I.pyiter(a[0]):
            if not I.truth(x):
                return False
        return True

    @reg("abs")
    def _abs(I, a, k):
        v = I.native_of(a[0])
        n = I.asint(v)
        if n is not None:
            if I.truth(I.cmp_int("ge", n, 0)):
                return I.facts.norm(n)
            return scale(I.facts.norm(n), -1)
        if isinstance(v, float) or isinstance(v, _dt.timedelta):
            return abs(v)
        if isinstance(v, A.Obj) and isinstance(v.cls, A.ClassVal):
            f, _ = I.lookup(v.cls, "__abs__")
            if isinstance(f, A.FN):
                return I.call(f, [v])
        if isinstance(v, Term):
            return Term("abs", (v,), v.typ)
        I.throw(TypeError, "bad operand type for abs()")

    @reg("divmod")
    def _divmod(I, a, k):
        return (I.binop("floordiv", a[0], a[1]), I.binop("mod", I.facts.norm(a[0]), I.facts.norm(a[1])))

    @reg("pow")
    def _pow(I, a, k):
        if len(a) == 3:
            if all(isinstance(x, int) for x in a):
                return pow(*a)
            raise A.Unsupported("3-argument pow")
        return I.binop("pow", a[0], a[1])

    @reg("round")
    def _round(I, a, k):
        v = I.native_of(a[0])
        if isinstance(v, (int, float)) and all(isinstance(x, int) for x in a[1:]):
            return round(v, *a[1:])
        if isinstance(v, Lin) and len(a) == 1:
            return v
        return Term("round", tuple(map(A._vkey, a)), int if len(a) == 1 else float)

    @reg("ord")
    def _ord(I, a, k):
        v = a[0]
        if isinstance(v, str):
            try:
                return ord(v)
            except TypeError as e:
                I.reraise(e)
        b = I.byteslike(v)
        if b is not None:
            n = blen(b)
            if not I.truth(I.cmp_int("eq", n, 1)):
                I.throw(TypeError, "ord() expected a character")
            return I.bindex(b, 0)
        r = opq(Term("ord", (A._vkey(v),), int))
        I.facts.iv.setdefault(r.t, (0, 0x10ffff))
        return r

    @reg("chr")
    def _chr(I, a, k):
        n = I.asint(a[0])
        if isinstance(n, int):
            try:
                return chr(n)
            except ValueError as e:
                I.reraise(e)
        return Term("chr", (n,), str)

    def radix(name, fn, spec):
        @reg(name)
        def _r(I, a, k):
            n = I.asint(a[0])
            if isinstance(n, int):
                return fn(n)
            if n is None and not isinstance(a[0], Term):
                v = a[0]
                if isinstance(v, A.Obj) and isinstance(v.cls, A.ClassVal):
                    f, _ = I.lookup(v.cls, "__index__")
                    if isinstance(f, A.FuncVal):
                        return I.call(B[name], [I.call(f, [v])])
                I.throw(TypeError, "object cannot be interpreted as an integer")
            return SStr((Fmt(n if n is not None else a[0], spec),))
    radix("hex", hex, "#x")
    radix("bin", bin, "#b")
    radix("oct", oct, "#o")

    @reg("format")
    def _format(I, a, k):
        return I.format_(a[0], a[1] if len(a) > 1 else "")

    @reg("vars")
    def _vars(I, a, k):
        return I.getattr(a[0], "__dict__")

    @reg("dir")
    def _dir(I, a, k):
        return I.mklist([])

    @reg("locals")
    def _locals(I, a, k):
        return I.mkdict([])

    B["globals"] = A.Nat("globals", lambda I, a, k: I.mkdict([]))

    @reg("open")
    def _open(I, a, k):
        I.log.append(("open", a, k, I.cur))
        return Term("open", tuple(map(A._vkey, a)))

    @reg("input")
    def _input(I, a, k):
        return Term("input", (), str)

    B["property"] = A.Nat("property", lambda I, a, k: A.Prop(*a, **{kk: v for kk, v in k.items() if kk in ("fget", "fset", "fdel")}))
    B["classmethod"] = A.Nat("classmethod", lambda I, a, k: A.CMeth(a[0]))
    B["staticmethod"] = A.Nat("staticmethod", lambda I, a, k: A.SMeth(a[0]))
    B["NotImplemented"] = NotImplemented
    B["Ellipsis"] = Ellipsis
    B["__debug__"] = True
    B["__name__"] = "__main__"
    for n in ("eval", "exec", "compile", "__import__", "breakpoint", "help", "aiter", "anext"):
        def unk(I, a, k, n=n):
            raise A.Unsupported(n)
        B[n] = A.Nat(n, unk)


def sort(I, items, k):
    key = k.get("key")
    rev = k.get("reverse", False)
    keyed = [(I.call(key, [x]) if key is not None else x, x) for x in items]
    A = ab()
    consts = all(isinstance(I.native_of(kx), (int, str, bytes, float)) for kx, _ in keyed) or \
        all(isinstance(kx, tuple) and all(isinstance(I.native_of(y), (int, str, bytes, float)) for y in kx) for kx, _ in keyed)
    if consts:
        try:
            r = sorted(keyed, key=lambda t: tuple(I.native_of(y) for y in t[0]) if isinstance(t[0], tuple) else I.native_of(t[0]), reverse=bool(rev))
        except TypeError as e:
            I.reraise(e)
        return [x for _, x in r]
    out = []
    rev = I.truth(rev)
    for kx, x in keyed:
        j = len(out)
        while j > 0 and I.truth(I.cmp("lt", kx, out[j - 1][0]) if not rev else I.cmp("lt", out[j - 1][0], kx)):
            j -= 1
        out.insert(j, (kx, x))
    return [x for _, x in out]


FMT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
       "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def parse_fmt(I, fmt):
    A = ab()
    fmt = I.native_of(fmt)
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    syms = []
    if isinstance(fmt, SStr):
        # a count written into the format: "B{n}s"
        t = ""
        for x in fmt.p:
            if isinstance(x, str):
                t += x
            elif x.spec == "d":
                t += "9%04d" % len(syms)
                syms.append(x.v)
            else:
                raise A.Unsupported("abstract struct format")
        if _re.search(r"\d{6}", t) or any(not _re.search(r"(?<!\d)9%04ds" % i, t) for i in range(len(syms))):
            raise A.Unsupported("abstract struct format")
        fmt = t
    if not isinstance(fmt, str):
        raise A.Unsupported("abstract struct format")
    order = "big"
    native = True
    s = fmt.replace(" ", "")
    if s and s[0] in "<>!=@":
        native = s[0] == "@"
        order = "little" if s[0] in "<=@" else "big"
        s = s[1:]
    else:
        order = "little"
    items = []
    for m in _re.finditer(r"(\d*)([a-zA-Z?])", s):
        n = int(m.group(1)) if m.group(1) else 1
        c = m.group(2)
        if c == "s":
            if syms and n >= 90000:
                n = syms[n - 90000]
                if I.truth(I.cmp_int("lt", n, 0)):
                    I.throw(_struct.error, "bad char in struct format")
            items.append(("s", n))
        elif c == "x":
            items.append(("x", n))
        else:
            items.extend([(c, 1)] * n)
    if not syms and native and len({c for c, _ in items if c not in "sxbB?c"}) > 0 and len(items) > 1:
        if any(c not in "sxbB?c" for c, _ in items):
            sizes = _struct.calcsize(fmt)
            if sizes != sum(sz(c, n) for c, n in items):
                raise A.Unsupported("padded native struct format")
    return order, items


def sz(c, n):
    if c in ("s", "x"):
        return n
    if c in FMT:
        return FMT[c][0]
    return {"f": 4, "d": 8, "e": 2, "?": 1, "c": 1}[c]


def s_pack(I, fmt, vals):
    A = ab()
    order, items = parse_fmt(I, fmt)
    need = sum(1 for c, _ in items if c != "x")
    if need != len(vals):
        I.throw(_struct.error, "pack expected %d items for packing (got %d)" % (need, len(vals)))
    vals = list(vals)
    out = []
    for c, n in items:
        if c == "x":
            out.append(b"\0" * n)
            continue
        v = vals.pop(0)
        if c == "s":
            b = I.byteslike(v)
            if b is None:
                I.throw(_struct.error, "argument for 's' must be a bytes object")
            ln = blen(b)
            if I.truth(I.cmp_int("ge", ln, n)):
                out.append(I.bslice(b, 0, n))
            else:
                ln = I.small(I.facts.norm(ln), 64)
                if ln is None or not isinstance(n, int):
                    raise A.Unsupported("struct s of unknown length")
                out.append(byt([b, b"\0" * (n - ln)]))
            continue
        if c in ("f", "d", "e"):
            v = I.native_of(v)
            if isinstance(v, (int, float)):
                try:
                    out.append(_struct.pack((">" if order == "big" else "<") + c, v))
                except (OverflowError, _struct.error) as e:
                    I.reraise(e)
            else:
                if c != "d" and not I.truth(Term("packable", (c, A._vkey(v)), bool)):
                    I.throw(OverflowError, "float too large to pack with %s format" % c)
                t = Term("packfloat", (c, order, A._vkey(v)), bytes)
                out.append(Byt((Seg(t, 0, sz(c, 1)),)))
            continue
        if c == "?":
            out.append(byt([1 if I.truth(v) else 0]))
            continue
        if c == "c":
            b = I.byteslike(v)
            out.append(b)
            continue
        x = I.asint(v)
        if x is None:
            if isinstance(v, Term) and v.typ is None:
                x = opq(v)
            else:
                if isinstance(v, A.Obj) and isinstance(v.cls, A.ClassVal) and I.lookup(v.cls, "__index__")[0]:
                    x = I.asint(I.call(I.lookup(v.cls, "__index__")[0], [v]))
                else:
                    I.throw(_struct.error, "required argument is not an integer")
        size, signed = FMT[c]
        out.append(int_to_bytes(I, x, size, order, signed, _struct.error))
    return byt(out)


def s_unpack(I, fmt, data, exact=True):
    A = ab()
    order, items = parse_fmt(I, fmt)
    total = sum(sz(c, n) for c, n in items)
    b = I.byteslike(data)
    if b is None:
        if isinstance(data, Term):
            b = I.term_bytes(data)
        else:
            I.throw(TypeError, "a bytes-like object is required")
    ln = blen(b)
    if exact:
        if not I.truth(I.cmp_int("eq", ln, total)):
            I.throw(_struct.error, "unpack requires a buffer of %d bytes" % total)
    else:
        if not I.truth(I.cmp_int("ge", ln, total)):
            I.throw(_struct.error, "unpack_from requires a buffer of at least %d bytes" % total)
    out, pos = [], 0
    for c, n in items:
        w = sz(c, n)
        if c == "x":
            pass
        elif c in FMT:
            bs = [I.bindex(b, pos + i) for i in range(w)]
            out.append(int_from_bytes(I, bs, order, FMT[c][1]))
        elif c in ("s", "c"):
            out.append(I.bslice(b, pos, pos + w))
        elif c == "?":
            out.append(I.truth(I.bindex(b, pos)))
        else:
            x = I.bslice(b, pos, pos + w)
            if isinstance(x, bytes):
                out.append(_struct.unpack((">" if order == "big" else "<") + c, x)[0])
            else:
                out.append(Term("unpackfloat", (c, order, x), float))
        pos += w
    return tuple(out)


def int_from_bytes(I, bs, order, signed):
    if order == "little":
        bs = list(reversed(bs))
    r = 0
    for x in bs:
        r = add(scale(r, 256), I.asint(x))
    if signed and bs:
        w = 8 * len(bs)
        b = I.tobits(r)
        if b is None:
            t = opq(Term("signed", (r, w), int))
            return t
        if len(b) == w:
            top = b[w - 1]
            r = add(r, from_bits([top]), -(1 << w))
    return I.facts.norm(r)


def int_to_bytes(I, x, n, order, signed, err):
    A = ab()
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    x = I.facts.norm(x)
    if isinstance(x, int):
        if not lo <= x <= hi:
            I.throw(err, "int too big to convert")
        return x.to_bytes(n, order, signed=signed)
    if not (I.truth(I.cmp_int("ge", x, lo)) and I.truth(I.cmp_int("le", x, hi))):
        I.throw(err, "int too big to convert")
    x = I.facts.norm(x)
    if isinstance(x, int):
        return x.to_bytes(n, order, signed=signed)
    if n == 1 and I.facts.interval(x)[0] is not None and I.facts.interval(x)[0] >= 0 and any(a[0] == "o" for a, _ in x.t):
        return byt([x])
    r = None
    if signed:
        # two's complement: view x + 2^w*[x<0]
        b = None
        xlo, xhi = I.facts.interval(x)
        if xlo is not None and xlo >= 0:
            b = I.tobits(x)
        else:
            b = signed_bits(I, x, 8 * n)
    else:
        b = I.tobits(x)
    if b is None:
        t = Term("to_bytes", (x, n, signed), bytes)
        out = [opq(Term("octet", (x, i), int)) for i in range(n)]
        for o in out:
            I.facts.iv.setdefault(o.t, (0, 255))
        return byt(out if order == "big" else list(reversed(out)))
    b = (b + [(frozenset(), 0)] * (8 * n))[:8 * n]
    out = [from_bits(b[8 * i:8 * i + 8]) for i in range(n)]
    if order == "big":
        out.reverse()
    return byt([I.facts.norm(o) for o in out])


def signed_bits(I, x, w):
    """bits of a linear form whose only negative part is a sign bit -2^k"""
    for a, k in list(x.t):
        if a[0] == "s":
            lo, hi = I.facts.interval(Lin(0, ((a, 1),)))
            if lo is None or hi is None:
                return None
            I.blast(a[1])
    x = I.facts.norm(x)
    if isinstance(x, int):
        return bits_of(x & ((1 << w) - 1))
    neg = [(a, k) for a, k in x.t if k < 0]
    if not neg:
        return bits_of(x)
    if len(neg) == 1 and neg[0][0][0] == "b":
        a, k = neg[0]
        m = -k
        if m & (m - 1) == 0:
            rest = add(x, Lin(0, ((a, 1),)), m)
            b = bits_of(rest) if not isinstance(rest, int) else (bits_of(rest) if rest >= 0 else None)
            p = m.bit_length() - 1
            if b is not None and len(b) <= p:
                b = b + [(frozenset(), 0)] * (p - len(b))
                return b + [(a[1], 0)] * (w - p)
    return None


def fold(I, fn, a, k):
    """apply a pure native function to constants"""
    try:
        return fn(*a, **k)
    except (TypeError, ValueError, IndexError, KeyError, OverflowError, ZeroDivisionError, UnicodeError, AttributeError, LookupError) as e:
        I.reraise(e)


class BuiltinsMixin:
    # ---------------------------------------------------------------- constructors of built-in types
    def call_type(self, t, a, k):
        A = ab()
        a = [self.facts.norm(x) for x in a]
        name = "new_" + t.__name__
        m = getattr(self, name, None)
        if m is not None:
            return m(a, k)
        if issubclass(t, BaseException):
            e = self.new(t)
            e.d["args"] = tuple(a)
            e.d["__where__"] = (self.cur[0], self.cur[1], self.stack[-1] if self.stack else "<module>")
            return e
        if t is object:
            return self.new(object)
        if t in (_dt.datetime, _dt.date, _dt.time, _dt.timedelta, _dt.timezone):
            return self.dtcall(t, "datetime." + t.__name__, a, k)
        raise A.Unsupported("constructor %s" % t.__name__)

    def dtcall(self, fn, path, a, k):
        A = ab()
        if all(isinstance(x, A.CONST) for x in a) and all(isinstance(x, A.CONST) for x in k.values()):
            return fold(self, fn, a, k)
        t = Term("call", (path, tuple(map(A._vkey, a)), tuple(sorted((n, A._vkey(v)) for n, v in k.items()))), None)
        self.log.append(("call", path, a, k, self.cur))
        return t

    def new_int(self, a, k):
        A = ab()
        if not a:
            return 0
        v = a[0]
        base = a[1] if len(a) > 1 else k.get("base")
        n = self.native_of(v)
        if base is not None:
            if isinstance(n, str) and isinstance(base, int):
                return fold(self, int, [n, base], {})
            if isinstance(n, SStr):
                spec = {16: ("x", "02x", "#x", "X", "02X"), 2: ("b", "#b", "08b", "016b", "#010b")}.get(base, ())
                if len(n.p) == 1 and n.p[0].spec in spec:
                    return n.p[0].v
                cs = self.chars(n)
                if cs is not None and isinstance(base, int) and 2 <= base <= 10 and \
                        all(isinstance(c, str) and "0" <= c < str(base) or not isinstance(c, str) and self.facts.interval(c.v)[1] < base for c in cs):
                    r = 0
                    for c in cs:
                        r = add(scale(r, base), int(c) if isinstance(c, str) else c.v)
                    return r
            b = self.byteslike(n)
            if isinstance(b, bytes):
                return fold(self, int, [b, base], {})
            if isinstance(n, (SStr, Term)):
                return opq(Term("int", (n, base), int))
            self.throw(TypeError, "int() can't convert non-string with explicit base")
        if isinstance(n, BitBool):
            return n.lin()
        if isinstance(n, (bool, int)):
            return int(n)
        if isinstance(n, Lin):
            return n
        if isinstance(n, (float, str)):
            return fold(self, int, [n], {})
        if isinstance(n, SStr):
            if len(n.p) == 1 and isinstance(n.p[0], Fmt) and n.p[0].spec == "d":
                return n.p[0].v
            if any(isinstance(x, str) and not all(c.isdigit() or c in " _-+" for c in x) for x in n.p):
                self.throw(ValueError, "invalid literal for int()")
            if self.truth(Term("isint", (n,), bool)):
                return opq(Term("int", (n,), int))
            self.throw(ValueError, "invalid literal for int()")
        if isinstance(v, A.Obj) and isinstance(v.cls, A.ClassVal) and not isinstance(v, A.ClassVal):
            for m in ("__int__", "__index__"):
                f, _ = self.lookup(v.cls, m)
                if isinstance(f, A.FuncVal):
                    r = self.call(f, [v])
                    if self.asint(r) is None and not isinstance(r, Term):
                        self.throw(TypeError, "__int__ returned non-int (type %s)" % A.cname(self.typeof(r)))
                    return r
        if isinstance(n, Term):
            if n.typ is int:
                return opq(n)
            if n.typ is str:
                if self.truth(Term("isint", (n,), bool)):
                    return opq(Term("int", (n,), int))
                self.throw(ValueError, "invalid literal for int()")
            r = opq(Term("int", (n,), int))
            return r
        b = self.byteslike(n)
        if isinstance(b, bytes):
            return fold(self, int, [b], {})
        if b is not None:
            self.throw(ValueError, "invalid literal for int()")
        self.throw(TypeError, "int() argument must be a string or a number, not '%s'" % A.cname(self.typeof(v)))

    def new_bool(self, a, k):
        if not a:
            return False
        v = self.facts.norm(a[0])
        if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][0][0] == "b":
            return self.cmp_int("eq", v, 0) if False else self.negb(self.cmp_int("eq", v, 0))
        if isinstance(v, BitBool):
            return v
        return self.truth(v)

    def new_float(self, a, k):
        A = ab()
        if not a:
            return 0.0
        v = self.native_of(a[0])
        if isinstance(v, (int, float, str)):
            return fold(self, float, [v], {})
        if isinstance(v, A.Obj) and isinstance(v.cls, A.ClassVal):
            f, _ = self.lookup(v.cls, "__float__")
            if isinstance(f, A.FN):
                return self.call(f, [v])
            self.throw(TypeError, "float() argument must be a string or a real number")
        if v is None or isinstance(v, (tuple, A.Obj)):
            self.throw(TypeError, "float() argument must be a string or a real number")
        if isinstance(v, (SStr,)) or isinstance(v, Term) and v.typ is str:
            if not self.truth(Term("isfloat", (v,), bool)):
                self.throw(ValueError, "could not convert string to float")
        return Term("float", (v,), float)

    def new_str(self, a, k):
        if not a:
            return ""
        b = self.byteslike(a[0])
        if b is not None and (len(a) > 1 or k):
            return self.call_method(b, "decode", list(a[1:]), k)
        if self.inraise and not isinstance(a[0], str):
            return Term("message", (), str)
        return self.str_(a[0])

    def new_bytes(self, a, k):
        A = ab()
        if not a:
            return b""
        v = a[0]
        if len(a) > 1 or "encoding" in k:
            return self.call_method(v, "encode", list(a[1:]), k)
        if isinstance(v, A.Obj) and isinstance(v.cls, A.ClassVal) and not isinstance(v, A.ClassVal):
            f, _ = self.lookup(v.cls, "__bytes__")
            if isinstance(f, A.FN):
                r = self.call(f, [v])
                if self.byteslike(r) is None and not isinstance(r, Term):
                    self.throw(TypeError, "__bytes__ returned non-bytes (type %s)" % A.cname(self.typeof(r)))
                return r
        b = self.byteslike(v)
        if b is not None:
            return b
        n = self.asint(v)
        if n is not None:
            if isinstance(n, int):
                if n < 0:
                    self.throw(ValueError, "negative count")
                if n > 100000:
                    raise A.Cut("huge bytes()")
                return bytes(n)
            if self.truth(self.cmp_int("lt", n, 0)):
                self.throw(ValueError, "negative count")
            m = self.small(self.facts.norm(n), 16)
            if m is not None:
                return bytes(m)
            return Byt((Seg(("rep", b"\0"), 0, self.facts.norm(n)),))
        if isinstance(v, (str, SStr)):
            self.throw(TypeError, "string argument without an encoding")
        if v is None or isinstance(v, float):
            self.throw(TypeError, "cannot convert to bytes")
        if isinstance(v, Term):
            if v.typ is str:
                self.throw(TypeError, "string argument without an encoding")
            if v.typ is bytes:
                return self.term_bytes(v)
            return self.term_bytes(Term("bytes", (v,), bytes))
        return byt([self.tobyte(x) for x in self.pyiter(v)])

    def new_bytearray(self, a, k):
        A = ab()
        o = self.new(A.BUILTIN_TYPES["bytearray"])
        o.p = self.new_bytes(a, k)
        if isinstance(o.p, A.Obj):
            o.p = self.byteslike(o.p)
        return o

    def new_memoryview(self, a, k):
        A = ab()
        v = a[0]
        b = self.byteslike(v)
        if b is None:
            self.throw(TypeError, "memoryview: a bytes-like object is required")
        o = self.new(memoryview)
        if isinstance(v, A.Obj) and v.cls is memoryview:
            o.p = v.p
        else:
            o.p = (v, 0, self.facts.norm(blen(b)))
        return o

    def new_list(self, a, k):
        return self.mklist(self._all(a[0]) if a else [])

    def _all(self, v):
        A = ab()
        out = []
        for x in self.pyiter(v):
            out.append(x)
            if len(out) > 70000:
                raise A.Cut("materialising a long iterator")
        return out

    def new_tuple(self, a, k):
        return tuple(self._all(a[0])) if a else ()

    def new_set(self, a, k):
        return self.mkset(self._all(a[0]) if a else [])

    def new_frozenset(self, a, k):
        items = self._all(a[0]) if a else []
        try:
            return frozenset(items)
        except TypeError:
            return self.mkset(items)

    def new_dict(self, a, k):
        A = ab()
        d = self.new(dict, {})
        if a:
            self.call_method(d, "update", [a[0]], {})
        for n, v in k.items():
            self.dict_set(d, n, v)
        return d

    def new_range(self, a, k):
        A = ab()
        xs = [self.asint(x) for x in a]
        if any(x is None for x in xs):
            if any(isinstance(x, Term) for x in a):
                xs = [opq(x) if isinstance(x, Term) else self.asint(x) for x in a]
            else:
                self.throw(TypeError, "'%s' object cannot be interpreted as an integer" % A.cname(self.typeof(a[0])))
        if all(isinstance(x, int) for x in xs):
            return fold(self, range, xs, {})
        o = self.new("rangel")
        if len(xs) == 1:
            o.p = (0, xs[0], 1)
        elif len(xs) == 2:
            o.p = (xs[0], xs[1], 1)
        else:
            o.p = tuple(xs)
        return o

    def new_slice(self, a, k):
        return slice(*a)

    def new_type(self, a, k):
        A = ab()
        if len(a) == 1:
            t = self.typeof(a[0])
            if t == "function" or t is None:
                return Term("type", (A._vkey(a[0]),))
            return t
        name, bases, d = a[:3]
        cv = self.mkclass(name, list(bases), None, "<dynamic>." + str(name))
        for kk, v in d.p.values():
            cv.d[kk] = v
        self.finish_class(cv, k)
        return cv

    def new_object(self, a, k):
        return self.new(object)

    def new_complex(self, a, k):
        return fold(self, complex, a, k)

    def new_deque(self, a, k):
        o = self.new(_coll.deque)
        o.p = self._all(a[0]) if a else []
        ml = a[1] if len(a) > 1 else k.get("maxlen")
        o.d["maxlen"] = ml
        if ml is not None:
            o.p = o.p[-ml:] if ml else []
        return o

    def call_unbound(self, name, a, k):
        A = ab()
        t, m = name.split(".", 1)
        if m == "from_bytes":
            return self.int_from(a, k)
        if m == "fromhex" and t == "float":
            v = self.native_of(a[0])
            if isinstance(v, str):
                return fold(self, float.fromhex, [v], {})
            if not self.truth(Term("isfloathex", (v,), bool)):
                self.throw(ValueError, "invalid hexadecimal floating-point string")
            return Term("floathex", (v,), float)
        if m == "fromhex":
            v = a[0]
            if isinstance(v, str):
                r = fold(self, bytes.fromhex, [v], {})
            elif isinstance(v, (SStr,)) and len(v.p) == 1 and v.p[0].spec in ("hex", "hex "):
                r = v.p[0].v
            elif isinstance(v, (Term, SStr)):
                if not self.truth(Term("ishex", (v,), bool)):
                    self.throw(ValueError, "non-hexadecimal number found in fromhex()")
                r = self.term_bytes(Term("fromhex", (v,), bytes))
            else:
                self.throw(TypeError, "fromhex() argument must be str")
            return r if t == "bytes" else self.new_bytearray([r], {})
        if t == "dict" and m == "fromkeys":
            d = self.mkdict([(x, a[1] if len(a) > 1 else None) for x in self.iterate(a[0])])
            return d
        if m == "__new__":
            return self.native_new(a[0], a[1:], k)
        if m == "__setattr__":
            self.object_setattr(a[0], a[1], a[2])
            return None
        if m == "__delattr__":
            return self.raw_delattr(a[0], a[1])
        if m == "__init__" or m == "__init_subclass__":
            return None
        if m == "__eq__":
            return a[0] is a[1]
        if m == "__hash__":
            return self.hash(a[0])
        if m in ("__str__", "__repr__"):
            return self.str_(a[0])
        if m == "__getattribute__":
            return self.inst_getattr(a[0], a[1])
        raise A.Unsupported(name)

    def int_from(self, a, k):
        A = ab()
        data = a[0]
        order = a[1] if len(a) > 1 else k.get("byteorder", "big")
        signed = self.truth(k.get("signed", False))
        b = self.byteslike(data)
        if b is None:
            if isinstance(data, Term):
                b = self.term_bytes(data if data.typ is bytes else Term("bytes", (data,), bytes))
            elif isinstance(data, A.Obj) and isinstance(data.cls, A.ClassVal):
                b = self.byteslike(self.new_bytes([data], {}))
            elif self.seqitems(data) is not None or isinstance(data, A.Obj):
                b = byt([self.tobyte(x) for x in self.pyiter(data)])
            else:
                self.throw(TypeError, "cannot convert '%s' object to bytes" % A.cname(self.typeof(data)))
        if isinstance(b, bytes):
            return int.from_bytes(b, order, signed=signed)
        n = self.facts.norm(blen(b))
        if not isinstance(n, int):
            m = self.small(n, 10)
            if m is None:
                r = opq(Term("from_bytes", (b, order, signed), int))
                if not signed:
                    self.facts.iv.setdefault(r.t, (0, None))
                return r
            n = m
        return int_from_bytes(self, [self.bindex(b, i) for i in range(n)], order, signed)

    # ---------------------------------------------------------------- attributes of built-in values
    def nat_getattr(self, v, name, default=None):
        A = ab()
        NatM = A.NatM
        v0 = v
        v = self.facts.norm(v)
        if name == "__class__":
            t = self.typeof(v)
            return t if t is not None else Term("type", (A._vkey(v),))
        if isinstance(v, bool) or isinstance(v, (int, Lin, BitBool)):
            if name in ("real", "numerator"):
                return v
            if name == "imag":
                return 0
            if name in INT_METHODS:
                return NatM(name, v)
        elif isinstance(v, (str, SStr)):
            if name in STR_METHODS:
                return NatM(name, v)
        elif isinstance(v, (bytes, Byt)):
            if name in BYTES_METHODS:
                return NatM(name, v)
        elif isinstance(v, tuple):
            if name in TUP_METHODS:
                return NatM(name, v)
        elif isinstance(v, float):
            if name in dir(float):
                return NatM(name, v)
        elif isinstance(v, range):
            if name in ("start", "stop", "step"):
                return getattr(v, name)
            if name in ("index", "count"):
                return NatM(name, v)
        elif isinstance(v, frozenset):
            if name in SET_METHODS:
                return NatM(name, self.mkset(list(v)))
        elif isinstance(v, (_dt.date, _dt.time, _dt.timedelta, _dt.timezone)):
            if hasattr(v, name):
                x = getattr(v, name)
                return NatM(name, v) if callable(x) else x
        elif isinstance(v, slice):
            if name in ("start", "stop", "step"):
                return getattr(v, name)
            if name == "indices":
                return NatM(name, v)
        elif isinstance(v, A.Prop):
            if name in ("fget", "fset"):
                return getattr(v, name)
            if name in ("setter", "getter", "deleter"):
                return A.Nat(name, lambda I, a, k: A.Prop(a[0] if name == "getter" else v.fget, a[0] if name == "setter" else v.fset, v.fdel, v.cached))
        elif isinstance(v, A.Obj):
            c = v.cls
            tab = {list: LIST_METHODS, dict: DICT_METHODS, set: SET_METHODS, bytearray: BA_METHODS,
                   _coll.deque: DEQ_METHODS, memoryview: MV_METHODS, "idict": DICT_METHODS, "iter": {"__next__", "__iter__"},
                   "rangel": {"index", "count"}, "struct": {"pack", "unpack", "pack_into", "unpack_from"}}.get(c, ())
            if name in tab or (c in (list, dict, set) and name in ("__contains__", "__len__", "__getitem__", "__setitem__", "__iter__")):
                return NatM(name, v)
            if c == "struct" and name == "size":
                return sum(sz(x, n) for x, n in parse_fmt(self, v.p)[1])
            if c == memoryview and name == "nbytes":
                return v.p[2]
            if c == memoryview and name in ("readonly", "obj", "itemsize", "format", "ndim"):
                return {"readonly": isinstance(v.p[0], (bytes, Byt)), "obj": v.p[0], "itemsize": 1, "format": "B", "ndim": 1}[name]
            if c is _coll.deque and name == "maxlen":
                return v.d.get("maxlen")
            if c == "rangel" and name in ("start", "stop", "step"):
                return v.p[("start", "stop", "step").index(name)]
            if isinstance(c, type) and issubclass(c, BaseException):
                if name in v.d:
                    return v.d[name]
                if name == "args":
                    return v.d.get("args", ())
                if name in ("add_note", "with_traceback"):
                    return A.Nat(name, lambda I, a, k: v)
                if name == "value" and c is StopIteration:
                    return None
                if name in ("__traceback__", "__cause__", "__context__"):
                    return None
            if name in v.d:
                return v.d[name]
        elif isinstance(v, Term):
            if v.typ is str and name in STR_METHODS or v.typ is bytes and name in BYTES_METHODS or v.typ is int and name in INT_METHODS:
                return NatM(name, v)
            if v.typ is None:
                return Term("attr", (v, name))
        elif isinstance(v, (A.Nat, A.NatM)):
            if name in ("__name__", "__qualname__"):
                return v.name
        elif isinstance(v, type):
            if name in ("__name__", "__qualname__"):
                return v.__name__
            if name == "__mro__":
                return v.__mro__
            if name == "__doc__":
                return None
            if name == "__members__":
                pass
            elif hasattr(v, name):
                if v in (_dt.datetime, _dt.date, _dt.time, _dt.timedelta, _dt.timezone):
                    x = getattr(v, name)
                    if not callable(x):
                        return x
                    return A.Nat(name, lambda I, a, k: I.dtclsmeth(v, name, a, k))
                return A.Nat("unbound", lambda I, a, k: I.call(I.nat_getattr(I.native_of(a[0]), name), a[1:], k))
        elif isinstance(v, A.SMeth):
            return self.getattr(v.f, name, A.MISSING)
        elif isinstance(v, A.Union):
            if name == "__args__":
                return tuple(v.items)
        elif isinstance(v, _re.Match) or isinstance(v, _re.Pattern):
            return NatM(name, v)
        if default is not None and default is not A.MISSING:
            return default
        if default is None:
            return None if False else self._noattr(v, name, default)
        self.throw(AttributeError, "'%s' object has no attribute '%s'" % (A.cname(self.typeof(v)), name))

    def _noattr(self, v, name, default):
        return None

    def dtclsmeth(self, t, name, a, k):
        A = ab()
        fn = getattr(t, name)
        if name in ("now", "today", "utcnow"):
            return Term("call", ("%s.%s" % (t.__name__, name), self.fresh("t")))
        if all(isinstance(x, A.CONST) for x in a) and all(isinstance(x, A.CONST) for x in k.values()):
            return fold(self, fn, a, k)
        if a and isinstance(a[0], (_dt.date, _dt.time)):
            return self.call_method(a[0], name, a[1:], k)
        return Term("call", ("datetime.%s.%s" % (t.__name__, name), tuple(map(A._vkey, a)), tuple(sorted((n, A._vkey(v)) for n, v in k.items()))))

    # ---------------------------------------------------------------- methods of built-in values
    def call_method(self, s, name, a, k):
        A = ab()
        s = self.facts.norm(s)
        a = [self.facts.norm(x) for x in a]
        if isinstance(s, BitBool):
            s = s.lin()
        if isinstance(s, Term):
            if s.typ is bytes:
                s = self.term_bytes(s)
            elif s.typ is str:
                return self.m_str(s, name, a, k)
            elif s.typ is int:
                s = opq(s)
            else:
                return Term("method", (s, name, tuple(map(A._vkey, a))))
        if isinstance(s, (int, Lin)) and not isinstance(s, bool) or isinstance(s, bool):
            return self.m_int(s, name, a, k)
        if isinstance(s, (str, SStr)):
            return self.m_str(s, name, a, k)
        if isinstance(s, (bytes, Byt)):
            return self.m_bytes(s, name, a, k)
        if isinstance(s, tuple):
            return self.m_list(s, list(s), name, a, k)
        if isinstance(s, range):
            n = self.asint(a[0])
            if isinstance(n, int):
                return fold(self, getattr(s, name), [n], {})
            raise A.Unsupported("range.%s" % name)
        if isinstance(s, float):
            if all(isinstance(x, A.CONST) for x in a):
                return fold(self, getattr(s, name), a, k)
            return Term("method", (s, name, tuple(a)))
        if isinstance(s, (_dt.date, _dt.time, _dt.timedelta, _dt.timezone)):
            if all(isinstance(x, A.CONST) for x in a) and all(isinstance(x, A.CONST) for x in k.values()):
                return fold(self, getattr(s, name), a, k)
            return Term("method", (s, name, tuple(map(A._vkey, a)), tuple(sorted((n, A._vkey(v)) for n, v in k.items()))))
        if isinstance(s, slice):
            n = self.asint(a[0])
            if isinstance(n, int) and self.constidx(s):
                return self.cidx(s).indices(n)
            raise A.Unsupported("slice.indices")
        if isinstance(s, (_re.Match, _re.Pattern)):
            if all(isinstance(x, A.CONST) for x in a):
                r = fold(self, getattr(s, name), a, k)
                return self.mklist(r) if isinstance(r, list) else r
            return Term("rematch", (tuple(map(A._vkey, a)),))
        if isinstance(s, A.Obj):
            c = s.cls
            if c is list:
                return self.m_list(s, s.p, name, a, k)
            if c is _coll.deque:
                return self.m_deque(s, name, a, k)
            if c is dict:
                return self.m_dict(s, name, a, k)
            if c == "idict":
                d = self.mkdict(list(s.p.d.items()))
                if name == "update":
                    t = self.mkdict([])
                    self.m_dict(t, "update", a, k)
                    for kk, v in list(t.p.values()):
                        self.raw_setattr(s.p, kk, v)
                    return None
                if name == "clear":
                    for kk in list(s.p.d):
                        self.raw_delattr(s.p, kk)
                    return None
                if name == "setdefault":
                    if a[0] not in s.p.d:
                        self.raw_setattr(s.p, a[0], a[1] if len(a) > 1 else None)
                    return s.p.d[a[0]]
                if name == "popitem":
                    if not s.p.d:
                        self.throw(KeyError, "popitem(): dictionary is empty")
                    kk, v = list(s.p.d.items())[-1]
                    self.raw_delattr(s.p, kk)
                    return (kk, v)
                if name == "pop":
                    if a[0] in s.p.d:
                        v = s.p.d[a[0]]
                        self.raw_delattr(s.p, a[0])
                        return v
                    if len(a) > 1:
                        return a[1]
                    self.throw(KeyError, a[0])
                return self.m_dict(d, name, a, k)
            if c is set:
                return self.m_set(s, name, a, k)
            if c is bytearray:
                return self.m_bytearray(s, name, a, k)
            if c is memoryview:
                if name == "tobytes":
                    return self.byteslike(s)
                if name == "release":
                    return None
                if name in ("cast", "toreadonly"):
                    return s
                return self.m_bytes(self.byteslike(s), name, a, k)
            if c == "iter":
                return self.next_(s) if name == "__next__" else s
            if c == "struct":
                if name == "pack":
                    return s_pack(self, s.p, a)
                if name == "unpack":
                    return s_unpack(self, s.p, a[0])
                if name == "unpack_from":
                    off = a[1] if len(a) > 1 else k.get("offset", 0)
                    return self.call_ext("struct.unpack_from", [s.p, a[0], off], {})
                if name == "pack_into":
                    return self.call_ext("struct.pack_into", [s.p] + list(a), {})
        raise A.Unsupported("method %s of %r" % (name, s))

    def m_int(self, s, name, a, k):
        A = ab()
        if name == "to_bytes":
            n = a[0] if a else k.get("length", 1)
            order = a[1] if len(a) > 1 else k.get("byteorder", "big")
            signed = self.truth(k.get("signed", False))
            n = self.small(self.asint(n), 16)
            if n is None:
                raise A.Unsupported("to_bytes of abstract length")
            if not signed and self.truth(self.cmp_int("lt", s, 0)):
                self.throw(OverflowError, "can't convert negative int to unsigned")
            return int_to_bytes(self, self.asint(s), n, order, signed, OverflowError)
        if isinstance(s, int):
            return fold(self, getattr(s, name), a, k)
        if name == "bit_length":
            b = self.tobits(s)
            if b is None:
                lo, hi = self.facts.interval(s)
                if lo is not None and hi is not None and lo >= 0:
                    for w in range(hi.bit_length() + 1):
                        if self.truth(self.cmp_int("lt", s, 1 << w)):
                            return w
                return opq(Term("bit_length", (s,), int))
            for i in range(len(b) - 1, -1, -1):
                if self.decide_bit(*b[i]):
                    return i + 1
            return 0
        if name == "bit_count":
            b = self.tobits(s)
            if b is not None:
                r = 0
                for e in b:
                    r = add(r, from_bits([e]))
                return r
        if name in ("conjugate", "__index__", "__int__"):
            return s
        if name == "from_bytes":
            return self.int_from(a, k)
        if name == "is_integer":
            return True
        raise A.Unsupported("int.%s" % name)

    def m_str(self, s, name, a, k):
        A = ab()
        if k and name in ("split", "rsplit"):
            sep = k.get("sep", a[0] if a else None)
            mx = k.get("maxsplit", a[1] if len(a) > 1 else -1)
            a, k = [sep, mx], {}
        if isinstance(s, str):
            if name == "join":
                items = self._all(a[0])
                out = []
                for i, x in enumerate(items):
                    x = self.native_of(x)
                    if i and s:
                        out.append(s)
                    if isinstance(x, str):
                        out.append(x)
                    elif isinstance(x, SStr):
                        out.extend(x.p)
                    elif isinstance(x, Term) and x.typ in (str, None):
                        out.append(Fmt(x, "str"))
                    else:
                        self.throw(TypeError, "sequence item %d: expected str instance, %s found" % (i, A.cname(self.typeof(x))))
                return mkstr(out)
            if name == "format":
                if all(isinstance(x, A.CONST) for x in a) and all(isinstance(x, A.CONST) for x in k.values()):
                    return fold(self, s.format, a, k)
                return self.str_format(s, a, k)
            na = [self.native_of(x) for x in a]
            if all(isinstance(x, A.CONST) or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in na):
                r = fold(self, getattr(s, name), na, {n: v for n, v in k.items()})
                if isinstance(r, list):
                    return self.mklist(r)
                return r
            if name in ("startswith", "endswith"):
                return Term(name, (s, tuple(map(A._vkey, na))), bool)
            if name in ("find", "index", "count", "rfind"):
                return opq(Term(name, (s, tuple(map(A._vkey, na))), int))
            if any(x is None for x in na):
                self.throw(TypeError, "must be str, not None")
            return Term("str." + name, (s, tuple(map(A._vkey, na))), str)
        if isinstance(s, SStr):
            p = s.p
            alldec = all(isinstance(x, str) or x.spec == "d" for x in p)
            if name in ("split", "rsplit", "partition", "rpartition") and a and isinstance(a[0], str) and alldec \
                    and not any(c.isdigit() or c == "-" for c in a[0]):
                sep = a[0]
                mx = self.asint(a[1]) if len(a) > 1 else self.asint(k.get("maxsplit", -1))
                if mx != -1 and name in ("split", "rsplit"):
                    pass
                fields, cur = [], []
                for x in p:
                    if isinstance(x, str):
                        bits = x.split(sep)
                        for j, b in enumerate(bits):
                            if j:
                                fields.append(cur)
                                cur = []
                            if b:
                                cur.append(b)
                    else:
                        cur.append(x)
                fields.append(cur)
                fs = [mkstr(f) for f in fields]

                def glue(xs):
                    out = []
                    for j, x in enumerate(xs):
                        if j:
                            out.append(sep)
                        out.extend(x.p if isinstance(x, SStr) else [x])
                    return mkstr(out)
                if name == "split":
                    if mx is not None and isinstance(mx, int) and mx >= 0 and len(fs) > mx + 1:
                        fs = fs[:mx] + [glue(fs[mx:])]
                    return self.mklist(fs)
                if name == "rsplit":
                    if isinstance(mx, int) and mx >= 0 and len(fs) > mx + 1:
                        fs = [glue(fs[:len(fs) - mx])] + fs[len(fs) - mx:]
                    return self.mklist(fs)
                if name == "partition":
                    return (fs[0], sep, glue(fs[1:])) if len(fs) > 1 else (s, "", "")
                return (glue(fs[:-1]), sep, fs[-1]) if len(fs) > 1 else ("", "", s)
            if name in ("isdigit", "isdecimal", "isnumeric") and alldec:
                if any(isinstance(x, str) and not x.isdigit() for x in p):
                    return False
                for x in p:
                    if isinstance(x, Fmt) and not self.truth(self.cmp_int("ge", x.v, 0)):
                        return False
                return True
            if name in ("strip", "lstrip", "rstrip") and (not a or a[0] in (" ", None)):
                ends = (p[0], p[-1])
                if all(isinstance(x, Fmt) and x.spec == "d" or isinstance(x, str) and x.strip() == x for x in ends):
                    return s
            if name in ("lower", "upper", "casefold", "title") and alldec:
                return mkstr([getattr(x, name)() if isinstance(x, str) else x for x in p])
            if name == "replace" and alldec and len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], str) \
                    and not any(c.isdigit() or c == "-" for c in a[0]):
                return mkstr([x.replace(a[0], a[1]) if isinstance(x, str) else x for x in p])
            if name == "count" and alldec and isinstance(a[0], str) and not any(c.isdigit() or c == "-" for c in a[0]):
                return sum(x.count(a[0]) for x in p if isinstance(x, str))
            if name in ("startswith", "endswith") and isinstance(a[0], str):
                x = p[0] if name == "startswith" else p[-1]
                if isinstance(x, str) and len(x) >= len(a[0]):
                    return getattr(x, name)(a[0])
                if isinstance(x, Fmt) and x.spec == "d" and a[0] and not (a[0][0 if name == "startswith" else -1].isdigit() or a[0][0] == "-"):
                    return False
            if name == "join":
                items = self._all(a[0])
                out = []
                for i, x in enumerate(items):
                    if i:
                        out.extend(p)
                    out.extend(x.p if isinstance(x, SStr) else [x])
                return mkstr(out)
        # opaque text
        typ = {"split": None, "rsplit": None, "splitlines": None, "partition": None, "rpartition": None, "encode": bytes,
               "isdigit": bool, "isdecimal": bool, "isnumeric": bool, "startswith": bool, "endswith": bool, "isalpha": bool,
               "find": int, "index": int, "count": int, "rfind": int, "isupper": bool, "islower": bool, "isspace": bool,
               "isidentifier": bool, "isalnum": bool, "isascii": bool}.get(name, str)
        sep = None
        if name in ("split", "rsplit"):
            return Term("split", (s, tuple(map(A._vkey, a))))
        t = Term("str." + name, (s,) + tuple(map(A._vkey, a)), typ)
        if name == "encode":
            return self.term_bytes(Term("encode", (s, a[0] if a else k.get("encoding", "utf-8")), bytes))
        if typ is int:
            return opq(t)
        return t

    def str_format(self, s, a, k):
        import string
        A = ab()
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                out.append(lit)
            if field is None:
                continue
            m = _re.match(r"^[A-Za-z0-9_]*", field)
            head, rest = field[:m.end()], field[m.end():]
            if head == "":
                v = a[auto]
                auto += 1
            elif head.isdigit():
                v = a[int(head)]
            else:
                v = k[head]
            if rest:
                raise A.Unsupported("format field %s" % field)
            r = self.format_(v, spec or "", ord(conv) if conv else -1)
            if isinstance(r, SStr):
                out.extend(r.p)
            elif isinstance(r, Term):
                out.append(Fmt(r, "str"))
            else:
                out.append(r)
        return mkstr(out)

    def m_bytes(self, s, name, a, k):
        A = ab()
        na = [self.byteslike(x) if self.byteslike(x) is not None else self.native_of(x) for x in a]
        if name == "join":
            items = self._all(a[0])
            out = []
            for i, x in enumerate(items):
                b = self.byteslike(x)
                if b is None:
                    if isinstance(x, Term):
                        b = self.term_bytes(x)
                    else:
                        self.throw(TypeError, "sequence item %d: expected a bytes-like object, %s found" % (i, A.cname(self.typeof(x))))
                if i and s:
                    out.append(s)
                out.append(b)
            return byt(out)
        if isinstance(s, bytes) and all(isinstance(x, A.CONST) for x in na) and all(isinstance(x, A.CONST) for x in k.values()):
            r = fold(self, getattr(s, name), na, k)
            return self.mklist(r) if isinstance(r, list) else r
        if name == "hex":
            return SStr((Fmt(s, "hex" if not a else "hex" + str(a[0])),))
        if name == "decode":
            enc = a[0] if a else k.get("encoding", "utf-8")
            if len(getattr(s, "p", ())) == 1 and isinstance(s.p[0], Seg) and isinstance(s.p[0].src, Term) and s.p[0].src.op == "encode" and s.p[0].a == 0:
                return s.p[0].src.args[0]
            if isinstance(enc, str) and enc.lower().replace("-", "") in ("utf8", "ascii", "cp1251", "windows1251") and k.get("errors", a[1] if len(a) > 1 else "strict") == "strict":
                if not self.truth(Term("decodable", (s, enc), bool)):
                    self.throw(UnicodeDecodeError, "can't decode")
            return Term("decode", (s, enc), str)
        if name in ("startswith", "endswith"):
            opts = na[0] if isinstance(na[0], tuple) else (na[0],)
            for o in opts:
                o = self.byteslike(o)
                n = blen(o)
                ln = self.facts.norm(blen(s))
                if self.truth(self.cmp_int("lt", ln, n)):
                    continue
                if name == "startswith":
                    part = self.bslice(s, 0, n)
                else:
                    ln = self.facts.norm(ln)
                    part = self.bslice(s, add(ln, n, -1), ln)
                if self.truth(self.cmp("eq", part, o)):
                    return True
            return False
        if name in ("ljust", "rjust"):
            w = self.asint(a[0])
            fill = na[1] if len(na) > 1 else b" "
            n = self.small(self.facts.norm(blen(s)), 64)
            if n is None or not isinstance(w, int):
                raise A.Unsupported("bytes.%s" % name)
            padb = fill * max(0, w - n)
            return byt([s, padb]) if name == "ljust" else byt([padb, s])
        if name in ("find", "index", "rfind", "count"):
            return self.b_find(s, name, na, k)
        if name in ("removeprefix", "removesuffix"):
            o = self.byteslike(na[0])
            if o is None:
                self.throw(TypeError, "a bytes-like object is required")
            n, ln = self.facts.norm(blen(o)), self.facts.norm(blen(s))
            if self.truth(self.cmp_int("lt", ln, n)):
                return s
            ln = self.facts.norm(ln)
            part, rest = (self.bslice(s, 0, n), self.bslice(s, n, ln)) if name == "removeprefix" else (self.bslice(s, add(ln, n, -1), ln), self.bslice(s, 0, add(ln, n, -1)))
            return rest if self.truth(self.cmp("eq", part, o)) else s
        if name == "strip" or name == "rstrip" or name == "lstrip":
            return self.term_bytes(Term("bytes." + name, (s,) + tuple(map(A._vkey, na)), bytes))
        if name in ("isdigit", "isascii", "isalpha"):
            return Term("bytes." + name, (s,), bool)
        if name == "replace":
            n = self.small(self.facts.norm(blen(s)), 64)
            if n is not None and len(na) == 2 and isinstance(na[0], bytes) and na[0] and self.byteslike(na[1]) is not None:
                # left to right, each occurrence decided on its octets
                items = [self.bindex(s, i) for i in range(n)]
                out, i, k = [], 0, len(na[0])
                while i < n:
                    if i + k <= n and all(self.truth(self.cmp_int("eq", self.facts.norm(items[i + j]), na[0][j])) for j in range(k)):
                        out.append(self.byteslike(na[1]))
                        i += k
                    else:
                        out.append(byt([items[i]]))
                        i += 1
                return byt(out)
            return self.term_bytes(Term("bytes.replace", (s,) + tuple(map(A._vkey, na)), bytes))
        if name == "split":
            return Term("bytes.split", (s,) + tuple(map(A._vkey, na)))
        raise A.Unsupported("bytes.%s" % name)

    def b_find(self, s, name, na, k):
        """first occurrence of a byte / short needle"""
        A = ab()
        needle = na[0]
        n = self.asint(needle)
        if n is not None:
            nd = [n]
        else:
            nd = bparts(needle)
            if any(isinstance(x, Seg) for x in nd):
                raise A.Unsupported("search for an abstract needle")
        start = self.asint(na[1]) if len(na) > 1 else 0
        ln = self.facts.norm(blen(s))
        if name in ("rfind", "count") or not isinstance(start, int):
            raise A.Unsupported("bytes.%s" % name)
        i = start
        while True:
            if i - start > self.seg_bound + 8 and not isinstance(ln, int):
                raise A.Cut("search in a byte string of unknown length")
            ln = self.facts.norm(ln)
            if not self.truth(self.cmp_int("le", i + len(nd), ln)):
                if name == "index":
                    self.throw(ValueError, "subsection not found")
                return -1
            ok = True
            for j, x in enumerate(nd):
                if not self.truth(self.cmp_int("eq", self.bindex(s, i + j), x)):
                    ok = False
                    break
            if ok:
                return i
            i += 1

    def m_bytearray(self, s, name, a, k):
        A = ab()
        if name == "extend":
            b = self.byteslike(a[0])
            if b is None:
                b = byt([self.tobyte(x) for x in self.pyiter(a[0])])
            self.hw(s)
            s.p = byt([s.p, b])
            return None
        if name == "append":
            x = self.tobyte(a[0])
            self.hw(s)
            s.p = byt([s.p, x])
            return None
        if name == "insert":
            n = self.facts.norm(blen(s.p))
            i = self.slice_bounds(slice(a[0], None), n)[0]
            x = self.tobyte(a[1])
            self.hw(s)
            s.p = byt([self.bslice(s.p, 0, i), x, self.bslice(s.p, i, n)])
            return None
        if name == "clear":
            self.hw(s)
            self.log.append(("bufdel", s, 0, self.facts.norm(blen(s.p)), self.cur))
            s.p = b""
            return None
        if name == "copy":
            o = self.new(bytearray)
            o.p = s.p
            return o
        if name == "pop":
            n = self.facts.norm(blen(s.p))
            if self.truth(self.cmp_int("eq", n, 0)):
                self.throw(IndexError, "pop from empty bytearray")
            i = self.norm_index(self.asint(a[0]) if a else -1, n)
            v = self.bindex(s.p, i)
            self.hw(s)
            self.log.append(("bufdel", s, i, add(i, 1), self.cur))
            s.p = byt([self.bslice(s.p, 0, i), self.bslice(s.p, add(i, 1), n)])
            return v
        if name == "remove":
            i = self.b_find(s.p, "index", a, k)
            self.hw(s)
            n = self.facts.norm(blen(s.p))
            s.p = byt([self.bslice(s.p, 0, i), self.bslice(s.p, add(i, 1), n)])
            return None
        if name == "reverse":
            self.hw(s)
            s.p = byt(list(reversed(self.npar(s.p))))
            return None
        r = self.m_bytes(s.p, name, a, k)

        def ba(x):
            if not isinstance(x, bytes) and not (isinstance(x, A.Obj) is False and self.byteslike(x) is not None):
                return x
            o = self.new(bytearray)
            o.p = x
            return o
        if name in ("join", "ljust", "rjust", "center", "strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix",
                    "lower", "upper", "title", "swapcase", "capitalize", "zfill", "expandtabs", "translate"):
            return ba(r)
        if name in ("partition", "rpartition") and isinstance(r, tuple):
            return tuple(ba(x) for x in r)
        return r

    def m_list(self, s, p, name, a, k):
        A = ab()
        if name in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear"):
            self.hw(s)
            p = s.p
        if name == "append":
            p.append(a[0])
            return None
        if name == "extend":
            p.extend(self._all(a[0]))
            return None
        if name == "insert":
            i = self.small(self.asint(a[0]), 64)
            if i is None:
                raise A.Unsupported("list.insert at abstract index")
            p.insert(i, a[1])
            return None
        if name == "pop":
            i = self.asint(a[0]) if a else -1
            if i is None:
                self.throw(TypeError, "'%s' object cannot be interpreted as an integer" % A.cname(self.typeof(a[0])))
            if not p:
                self.throw(IndexError, "pop from empty list")
            i = self.norm_index(i, len(p), "pop index")
            i = self.small(i, 64)
            if i is None:
                raise A.Unsupported("list.pop at abstract index")
            return p.pop(i)
        if name in ("remove", "index"):
            for i, x in enumerate(p):
                if x is a[0] or self.truth(self.cmp("eq", x, a[0])):
                    if name == "remove":
                        del p[i]
                        return None
                    return i
            self.throw(ValueError, "list.%s(x): x not in list" % name)
        if name == "count":
            return sum(1 for x in p if x is a[0] or self.truth(self.cmp("eq", x, a[0])))
        if name == "sort":
            p[:] = sort(self, list(p), k)
            return None
        if name == "reverse":
            p.reverse()
            return None
        if name == "clear":
            p.clear()
            return None
        if name == "copy":
            return self.mklist(p)
        if name == "__contains__":
            return self.contains(s, a[0])
        if name == "__len__":
            return len(p)
        if name == "__getitem__":
            return self.getitem(s, a[0])
        if name == "__setitem__":
            return self.setitem(s, a[0], a[1])
        if name == "__iter__":
            return self.iter_(s)
        raise A.Unsupported("list.%s" % name)

    def m_deque(self, s, name, a, k):
        self.hw(s)
        ml = s.d.get("maxlen")
        p = s.p
        if name == "append":
            p.append(a[0])
            if ml is not None and len(p) > ml:
                del p[0]
            return None
        if name == "appendleft":
            p.insert(0, a[0])
            if ml is not None and len(p) > ml:
                del p[-1]
            return None
        if name == "popleft":
            if not p:
                self.throw(IndexError, "pop from an empty deque")
            return p.pop(0)
        if name == "extendleft":
            for x in self._all(a[0]):
                p.insert(0, x)
            return None
        if name == "rotate":
            n = self.asint(a[0]) if a else 1
            if p:
                n %= len(p)
                p[:] = p[-n:] + p[:-n] if n else p
            return None
        if name == "copy":
            o = self.new(_coll.deque)
            o.p = list(p)
            o.d["maxlen"] = ml
            return o
        return self.m_list(s, p, name, a, k)

    def m_dict(self, s, name, a, k):
        A = ab()
        p = s.p
        if name == "get":
            h = self.dict_find(s, a[0])
            if h is A.MISSING:
                return a[1] if len(a) > 1 else k.get("default")
            return s.p[h][1]
        if name == "items":
            return self.mklist([(kk, v) for kk, v in p.values()]) if True else None
        if name == "keys":
            o = self.new("dictkeys")
            o.p = p
            return o
        if name == "values":
            return self.mklist([v for _, v in p.values()])
        if name in ("pop",):
            h = self.dict_find(s, a[0])
            if h is A.MISSING:
                if len(a) > 1:
                    return a[1]
                self.throw(KeyError, a[0])
            self.hw(s)
            return s.p.pop(h)[1]
        if name == "setdefault":
            h = self.dict_find(s, a[0])
            if h is A.MISSING:
                v = a[1] if len(a) > 1 else None
                self.dict_set(s, a[0], v)
                return v
            return s.p[h][1]
        if name == "update":
            for x in a:
                if isinstance(x, A.Obj) and isinstance(x.cls, A.ClassVal) and x.cls.native is dict:
                    x = x.p
                if isinstance(x, A.Obj) and x.cls is dict:
                    for kk, v in list(x.p.values()):
                        self.dict_set(s, kk, v)
                elif isinstance(x, A.Obj) and x.cls == "idict":
                    for kk, v in list(x.p.d.items()):
                        self.dict_set(s, kk, v)
                elif isinstance(x, Term):
                    raise A.Unsupported("dict.update of an unknown value")
                else:
                    for kv in self.pyiter(x):
                        kk, v = self.iterate(kv)
                        self.dict_set(s, kk, v)
            for kk, v in k.items():
                self.dict_set(s, kk, v)
            return None
        if name == "copy":
            o = self.new(dict, dict(p))
            o.d.update(s.d)
            return o
        if name == "clear":
            self.hw(s)
            s.p = {}
            return None
        if name == "popitem":
            if not p:
                self.throw(KeyError, "popitem(): dictionary is empty")
            self.hw(s)
            kk = list(s.p)[-1]
            return s.p.pop(kk)
        if name == "__contains__":
            return self.contains(s, a[0])
        if name == "__len__":
            return len(p)
        if name == "__getitem__":
            return self.getitem(s, a[0])
        if name == "__setitem__":
            return self.setitem(s, a[0], a[1])
        if name == "__iter__":
            return self.iter_(s)
        raise A.Unsupported("dict.%s" % name)

    def m_set(self, s, name, a, k):
        A = ab()
        if name == "add":
            self.dict_set(s, a[0], a[0])
            return None
        if name in ("discard", "remove"):
            h = self.dict_find(s, a[0])
            if h is A.MISSING:
                if name == "remove":
                    self.throw(KeyError, a[0])
                return None
            self.hw(s)
            del s.p[h]
            return None
        if name == "update":
            for x in a:
                for y in self._all(x):
                    self.dict_set(s, y, y)
            return None
        if name == "clear":
            self.hw(s)
            s.p = {}
            return None
        if name == "copy":
            return self.new(set, dict(s.p))
        if name == "pop":
            if not s.p:
                self.throw(KeyError, "pop from an empty set")
            self.hw(s)
            return s.p.pop(next(iter(s.p)))[0]
        other = [self.mkset(self._all(x)) for x in a]
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            r = s
            for o in other:
                r = self.setop({"union": "or", "intersection": "and", "difference": "sub", "symmetric_difference": "xor"}[name], r, o)
            return r if r is not s else self.new(set, dict(s.p))
        if name in ("issubset", "issuperset", "isdisjoint"):
            x, y = (s, other[0]) if name == "issubset" else (other[0], s)
            if name == "isdisjoint":
                return not any(self.dict_find(s, z) is not A.MISSING for z in self.setitems(other[0]))
            return all(self.dict_find(y, z) is not A.MISSING for z in self.setitems(x))
        if name == "__contains__":
            return self.contains(s, a[0])
        raise A.Unsupported("set.%s" % name)

    # ---------------------------------------------------------------- the library
    REALTYPES = {"datetime.datetime": _dt.datetime, "datetime.date": _dt.date, "datetime.time": _dt.time,
                 "datetime.timedelta": _dt.timedelta, "datetime.timezone": _dt.timezone, "struct.error": _struct.error,
                 "collections.deque": _coll.deque, "datetime.tzinfo": _dt.tzinfo}
    TYPING_CONST = {"typing.TYPE_CHECKING": False, "math.pi": _math.pi, "math.inf": _math.inf, "math.e": _math.e, "math.nan": _math.nan,
                    "datetime.UTC": _dt.timezone.utc, "datetime.timezone.utc": _dt.timezone.utc, "datetime.MINYEAR": 1, "datetime.MAXYEAR": 9999}

    def ext_import(self, mod, name):
        return self.ext_attr(ab().Ext(mod), name)

    def ext_attr(self, e, name):
        A = ab()
        p = e.path + "." + name
        if p in self.REALTYPES:
            return self.REALTYPES[p]
        if p in self.TYPING_CONST:
            return self.TYPING_CONST[p]
        if p == "functools.partial":
            return A.Nat("partial", lambda I, a, k: A.Nat("partial()", lambda I2, a2, k2: I2.call(a[0], list(a[1:]) + list(a2), {**k, **k2})))
        if e.path in ("typing", "types", "collections.abc") and name in ("List", "Dict", "Tuple", "Set", "Type"):
            return {"List": list, "Dict": dict, "Tuple": tuple, "Set": set, "Type": type}[name]
        if p == "types.NoneType":
            return type(None)
        if p == "enum.auto":
            return A.Nat("auto", lambda I, a, k: Term("enum.auto", (I.fresh("auto"),)))
        if p == "dataclasses.field":
            def field(I, a, k):
                o = I.new("dcfield")
                o.p = dict(k)
                return o
            return A.Nat("field", field)
        if p == "enum.property" or p == "types.DynamicClassAttribute":
            return self.builtins["property"]
        return A.Ext(p)

    def call_ext(self, path, a, k):
        A = ab()
        a = [self.facts.norm(x) for x in a]
        short = path
        h = getattr(self, "l_" + path.replace(".", "_"), None)
        if h is not None:
            return h(a, k)
        if path.startswith("math.") and all(isinstance(self.native_of(x), (int, float)) for x in a):
            r = fold(self, getattr(_math, path[5:]), [self.native_of(x) for x in a], k)
            return r
        if path.startswith("operator."):
            return self.l_operator(path[9:], a, k)
        if path.startswith("re."):
            if all(isinstance(x, A.CONST) for x in a):
                r = fold(self, getattr(_re, path[3:]), a, k)
                return self.mklist(r) if isinstance(r, list) else r
            return Term("call", (path, tuple(map(A._vkey, a))))
        if path in ("functools.lru_cache", "functools.cache"):
            if a and isinstance(a[0], (A.FuncVal, A.CMeth, A.SMeth)):
                return self.apply_decorator(A.Ext(path), a[0])
            return A.Ext(path)
        if path == "functools.wraps":
            return A.Nat("wraps", lambda I, b, kk: b[0])
        if path == "typing.cast":
            return a[1]
        if path in ("typing.TypeVar", "typing.NewType", "typing.ParamSpec", "typing.TypeVarTuple"):
            return Term("typevar", (a[0],))
        if path == "typing.get_type_hints":
            return self.annotations(a[0])
        if path == "contextlib.suppress":
            o = self.new("suppress")
            o.p = list(a)
            return o
        if path == "dataclasses.dataclass":
            if a:
                return self.mkdataclass(a[0], k)
            return A.Nat("dataclass()", lambda I, b, kk: I.mkdataclass(b[0], k))
        if path.startswith("enum.") and path[5:] in ("Enum", "IntEnum", "IntFlag", "Flag"):
            name = a[0]
            cv = self.mkclass(name, [A.Ext(path)], None, "<dynamic>." + str(name))
            src = a[1]
            if isinstance(src, A.Obj) and src.cls is dict:
                for n, v in src.p.values():
                    cv.d[n] = v
            elif isinstance(src, str):
                for i, n in enumerate(src.replace(",", " ").split()):
                    cv.d[n] = i + 1
            else:
                for i, kv in enumerate(self.iterate(src)):
                    if isinstance(kv, str):
                        cv.d[kv] = i + 1
                    else:
                        n, v = self.iterate(kv)
                        cv.d[n] = v
            self.finish_class(cv, {})
            return cv
        self.log.append(("call", path, a, k, self.cur))
        return Term("call", (path, tuple(map(A._vkey, a)), tuple(sorted((n, A._vkey(v)) for n, v in k.items()))),
                    float if path.startswith("math.") and path not in ("math.ceil", "math.floor", "math.trunc") else (int if path in ("math.ceil", "math.floor", "math.trunc") else None))

    def l_tomllib_load(self, a, k):
        """the shipped default configuration (package data) stands for the configuration file."""
        import os
        import tomllib
        A = ab()
        p = os.path.join(self.root, self.PKG, "config.toml")
        if not os.path.isfile(p):
            return Term("call", ("tomllib.load",))
        with open(p, "rb") as f:
            data = tomllib.load(f)

        def conv(v):
            if isinstance(v, dict):
                return self.mkdict([(kk, conv(x)) for kk, x in v.items()])
            if isinstance(v, list):
                return self.mklist([conv(x) for x in v])
            if isinstance(v, (str, int, float, bool)):
                return v
            return Term("toml", (str(v),))
        return conv(data)

    def l_math_ceil(self, a, k):
        v = self.native_of(a[0])
        if isinstance(v, (int, float)):
            return fold(self, _math.ceil, [v], {})
        if isinstance(v, Term) and v.op == "truediv" and isinstance(v.args[1], int) and v.args[1] > 0:
            x = v.args[0]
            n = self.asint(x)
            if n is not None:
                return scale(self.arith("floordiv", scale(n, -1), v.args[1]), -1)
        n = self.asint(v)
        if n is not None:
            return n
        return opq(Term("ceil", (v,), int))

    def l_math_floor(self, a, k):
        v = self.native_of(a[0])
        if isinstance(v, (int, float)):
            return fold(self, _math.floor, [v], {})
        if isinstance(v, Term) and v.op == "truediv" and isinstance(v.args[1], int) and v.args[1] > 0:
            return self.arith("floordiv", self.asint(v.args[0]), v.args[1])
        n = self.asint(v)
        return n if n is not None else opq(Term("floor", (v,), int))

    def l_operator(self, name, a, k):
        A = ab()
        m = {"add": "add", "sub": "sub", "mul": "mul", "or_": "or", "and_": "and", "xor": "xor", "lshift": "lshift",
             "rshift": "rshift", "mod": "mod", "floordiv": "floordiv", "truediv": "truediv", "concat": "add"}
        if name in m:
            return self.binop(m[name], a[0], a[1])
        if name in ("eq", "ne", "lt", "le", "gt", "ge"):
            return self.cmp(name, a[0], a[1])
        if name in ("itemgetter",):
            ks = list(a)
            return A.Nat("itemgetter", lambda I, b, kk: I.getitem(b[0], ks[0]) if len(ks) == 1 else tuple(I.getitem(b[0], x) for x in ks))
        if name == "attrgetter":
            ks = list(a)

            def ag(I, b, kk):
                def one(o, path):
                    for x in path.split("."):
                        o = I.getattr(o, x)
                    return o
                return one(b[0], ks[0]) if len(ks) == 1 else tuple(one(b[0], x) for x in ks)
            return A.Nat("attrgetter", ag)
        if name == "methodcaller":
            return A.Nat("methodcaller", lambda I, b, kk: I.call(I.getattr(b[0], a[0]), a[1:], k))
        if name in ("not_",):
            return not self.truth(a[0])
        if name == "getitem":
            return self.getitem(a[0], a[1])
        if name == "index":
            return self.asint(a[0])
        if name == "contains":
            return self.contains(a[0], a[1])
        raise A.Unsupported("operator.%s" % name)

    def l_struct_pack(self, a, k):
        return s_pack(self, a[0], a[1:])

    def l_struct_unpack(self, a, k):
        return s_unpack(self, a[0], a[1])

    def l_struct_calcsize(self, a, k):
        return sum(sz(c, n) for c, n in parse_fmt(self, a[0])[1])

    def l_struct_Struct(self, a, k):
        o = self.new("struct")
        o.p = a[0]
        return o

    def l_struct_unpack_from(self, a, k):
        fmt, buf = a[0], a[1]
        off = self.asint(a[2] if len(a) > 2 else k.get("offset", 0))
        b = self.byteslike(buf)
        if b is None:
            self.throw(TypeError, "a bytes-like object is required")
        n = self.facts.norm(blen(b))
        if self.truth(self.cmp_int("lt", off, 0)):
            off = self.facts.norm(add(off, n))
            if self.truth(self.cmp_int("lt", off, 0)):
                self.throw(_struct.error, "offset out of range")
        if self.truth(self.cmp_int("gt", off, n)):
            self.throw(_struct.error, "unpack_from requires a larger buffer")
        return s_unpack(self, fmt, self.bslice(b, self.facts.norm(off), self.facts.norm(n)), exact=False)

    def l_struct_pack_into(self, a, k):
        A = ab()
        fmt, buf, off = a[0], a[1], self.asint(a[2])
        data = s_pack(self, fmt, a[3:])
        ln = blen(data)
        n = self.length(buf)
        if self.truth(self.cmp_int("lt", off, 0)):
            off = self.facts.norm(add(off, n))
            if self.truth(self.cmp_int("lt", off, 0)):
                self.throw(_struct.error, "offset out of range")
        if not self.truth(self.cmp_int("le", add(off, ln), n)):
            self.throw(_struct.error, "pack_into requires a larger buffer")
        self.setitem(buf, slice(self.facts.norm(off), self.facts.norm(add(off, ln))), data)
        return None

    def l_functools_reduce(self, a, k):
        it = self.pyiter(a[1])
        if len(a) > 2:
            r = a[2]
        else:
            try:
                r = next(it)
            except StopIteration:
                self.throw(TypeError, "reduce() of empty iterable with no initial value")
        for x in it:
            r = self.call(a[0], [r, x])
        return r

    def l_itertools_chain(self, a, k):
        def g():
            for x in a:
                yield from self.pyiter(x)
        return self.mkiter(g())

    def l_itertools_chain_from_iterable(self, a, k):
        def g():
            for x in self.pyiter(a[0]):
                yield from self.pyiter(x)
        return self.mkiter(g())

    def l_itertools_count(self, a, k):
        st = a[0] if a else k.get("start", 0)
        step = a[1] if len(a) > 1 else k.get("step", 1)

        def g():
            x = st
            while True:
                yield x
                x = self.binop("add", x, step)
        return self.mkiter(g())

    def l_itertools_islice(self, a, k):
        xs = [None if x is None else self.asint(x) for x in a[1:]]
        if not all(x is None or isinstance(x, int) for x in xs):
            xs = [x if x is None else self.small(x, 16) for x in xs]
            if any(x is None for x in xs):
                raise ab().Unsupported("islice")
        return self.mkiter(_it.islice(self.pyiter(a[0]), *xs))

    def l_itertools_cycle(self, a, k):
        items = self._all(a[0])

        def g():
            while items:
                yield from items
        return self.mkiter(g())

    def l_itertools_repeat(self, a, k):
        n = self.asint(a[1]) if len(a) > 1 else None
        return self.mkiter(_it.repeat(a[0]) if n is None else _it.repeat(a[0], n))

    def l_itertools_product(self, a, k):
        rep = self.asint(k.get("repeat", 1))
        return self.mkiter(_it.product(*([self._all(x) for x in a] * rep)))

    def l_itertools_zip_longest(self, a, k):
        return self.mkiter(_it.zip_longest(*[self._all(x) for x in a], fillvalue=k.get("fillvalue")))

    def l_itertools_takewhile(self, a, k):
        def g():
            for x in self.pyiter(a[1]):
                if not self.truth(self.call(a[0], [x])):
                    return
                yield x
        return self.mkiter(g())

    def l_itertools_dropwhile(self, a, k):
        def g():
            it = self.pyiter(a[1])
            for x in it:
                if not self.truth(self.call(a[0], [x])):
                    yield x
                    break
            yield from it
        return self.mkiter(g())

    def l_itertools_accumulate(self, a, k):
        def g():
            r = None
            for i, x in enumerate(self.pyiter(a[0])):
                r = x if i == 0 else (self.call(a[1], [r, x]) if len(a) > 1 else self.binop("add", r, x))
                yield r
        return self.mkiter(g())

    def l_itertools_pairwise(self, a, k):
        xs = self._all(a[0])
        return self.mkiter(list(zip(xs, xs[1:])))

    def l_itertools_groupby(self, a, k):
        raise ab().Unsupported("groupby")

    def l_itertools_compress(self, a, k):
        return self.mkiter(x for x, c in zip(self.pyiter(a[0]), self.pyiter(a[1])) if self.truth(c))

    def l_itertools_starmap(self, a, k):
        return self.mkiter(self.call(a[0], self.iterate(x)) for x in self.pyiter(a[1]))

    def l_collections_defaultdict(self, a, k):
        d = self.new_dict(a[1:], k)
        d.d["default_factory"] = a[0] if a else None
        return d

    def l_collections_OrderedDict(self, a, k):
        return self.new_dict(a, k)

    def l_collections_Counter(self, a, k):
        d = self.new(dict, {})
        for x in self._all(a[0]) if a else []:
            h = self.dict_find(d, x)
            self.dict_set(d, x, 1 if h is ab().MISSING else self.binop("add", d.p[h][1], 1))
        return d

    def l_collections_namedtuple(self, a, k):
        A = ab()
        cv = self.mkclass(a[0], [A.Ext("typing.NamedTuple")], None, "<dynamic>." + a[0])
        import ast
        names = a[1].replace(",", " ").split() if isinstance(a[1], str) else self.iterate(a[1])
        cv.ann = [(n, ast.Constant(None)) for n in names]
        self.finish_class(cv, {})
        return cv

    def l_copy_copy(self, a, k):
        return self.clone(a[0], False, {})

    def l_copy_deepcopy(self, a, k):
        return self.clone(a[0], True, {})

    def clone(self, v, deep, memo):
        A = ab()
        if isinstance(v, tuple):
            return tuple(self.clone(x, True, memo) for x in v) if deep else v
        if not isinstance(v, A.Obj) or isinstance(v, (A.ClassVal, A.FuncVal, A.ModVal)):
            return v
        if id(v) in memo:
            return memo[id(v)]
        if "_name_" in v.d:
            return v
        if isinstance(v.cls, A.ClassVal):
            f, _ = self.lookup(v.cls, "__deepcopy__" if deep else "__copy__")
            if isinstance(f, A.FuncVal):
                return self.call(f, [v] + ([self.mkdict([])] if deep else []))
        o = self.new(v.cls)
        memo[id(v)] = o
        o.d = {n: (self.clone(x, True, memo) if deep else x) for n, x in v.d.items()}
        p = v.p
        if isinstance(p, list):
            o.p = [self.clone(x, True, memo) if deep else x for x in p]
        elif isinstance(p, dict):
            o.p = {h: ((self.clone(e[0], True, memo), self.clone(e[1], True, memo)) if deep else e) for h, e in p.items()}
        elif isinstance(p, A.Obj):
            o.p = self.clone(p, deep, memo)
        else:
            o.p = p
        return o

    def l_dataclasses_astuple(self, a, k):
        return tuple(a[0].d.get(n) for n, _ in self.dc_fields(a[0].cls))

    def l_dataclasses_asdict(self, a, k):
        return self.mkdict([(n, a[0].d.get(n)) for n, _ in self.dc_fields(a[0].cls)])

    def l_dataclasses_fields(self, a, k):
        A = ab()
        c = a[0] if isinstance(a[0], A.ClassVal) else a[0].cls
        out = []
        for n, info in self.dc_fields(c):
            o = self.new("dcf")
            o.d = {"name": n, "default": info.get("default", Term("MISSING"))}
            for b in c.mro:
                if isinstance(b, A.ClassVal) and any(x == n for x, _ in b.ann):
                    for x, v in self.annotations(b).p.values():
                        if x == n:
                            o.d["type"] = v
                    break
            out.append(o)
        return tuple(out)

    def l_dataclasses_replace(self, a, k):
        o = a[0]
        vals = {n: o.d.get(n) for n, i in self.dc_fields(o.cls)}
        vals.update(k)
        return self.call(o.cls, [], vals)

    def l_inspect_isclass(self, a, k):
        A = ab()
        return isinstance(a[0], (A.ClassVal, type))

    def l_math_log(self, a, k):
        A = ab()
        na = [self.native_of(x) for x in a]
        if all(isinstance(x, (int, float)) for x in na):
            return fold(self, _math.log, na, k)
        return Term("call", ("math.log", tuple(na)), float)

    def l_hashlib_sha256(self, a, k):
        o = Term("sha256", tuple(A2(x) for x in a))
        self.log.append(("call", "hashlib.sha256", a, k, self.cur))
        return o

    def l_os_path_join(self, a, k):
        return Term("call", ("os.path.join", tuple(map(ab()._vkey, a))), None)


def A2(x):
    return ab()._vkey(x)
