"""The transfer functions against CPython: every snippet below is run by CPython and by the analyser; the values of R must agree.
(A test of the analyser, not of the repository.)"""
import os
import sys
import tempfile
import shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

SN = r'''
R = [(lambda a, b=2, *c, d=4, **e: (a, b, c, d, e))(1, 3, 5, 6, d=7, z=8)]
###
x = [1, 2, 3, 4, 5]
a, *b, c = x
R = (a, b, c, x[1:-1], x[::-1], x[::2], x[-2:])
###
R = {k: v for k, v in zip("abc", range(3)) if v != 1}, {i % 3 for i in range(7)}, [i * j for i in range(3) for j in range(3) if i <= j]
###
def g(n):
    i = 0
    while True:
        if i >= n:
            return "done"
        got = yield i
        i += got or 1
def h():
    r = yield from g(3)
    yield r
R = list(h()), next(iter([7])), next(iter([]), None)
###
class A:
    x = 1
    def __init__(self, v): self.v = v
    @property
    def p(self): return self.v + 1
    @p.setter
    def p(self, val): self.v = val
    @classmethod
    def mk(cls, v): return cls(v)
    @staticmethod
    def st(v): return v * 2
    def __repr__(self): return f"A<{self.v!r}>"
    def __eq__(self, o): return isinstance(o, A) and self.v == o.v
    def __hash__(self): return hash(self.v)
    def __lt__(self, o): return self.v < o.v
    def __add__(self, o): return A(self.v + o.v)
    def __iadd__(self, o): self.v += o.v; return self
    def __getitem__(self, i): return (self.v, i)
    def __contains__(self, i): return i == self.v
    def __len__(self): return 3
    def __bool__(self): return self.v != 0
    def __call__(self, *a): return a
    def __iter__(self): return iter((1, 2))
class B(A):
    def __init__(self, v):
        super().__init__(v + 10)
    def __repr__(self): return "B" + super().__repr__()
b = B.mk(1); b.p = 5
a = A(3); a += A(4)
R = [b.p, b.v, repr(b), str(A(2) + A(3)), A(1) == A(1), A(1) != A(2), A(1) in {A(1)}, sorted([A(3), A(1)])[0].v, a.v, a[1], a["k"], 7 in a, len(a), bool(A(0)), a(1, 2), list(a), A.st(4), max([A(1), A(5)]).v]
###
def f():
    try:
        return 1
    finally:
        L.append("f")
L = []
def g2():
    for i in range(3):
        try:
            if i == 1: continue
            if i == 2: break
            L.append(i)
        except ValueError: pass
        else: L.append("else%d" % i)
        finally: L.append("fin")
    else: L.append("never")
R = f(), g2(), L
###
class E1(ValueError): pass
L = []
for e in (E1("a"), ValueError("b"), KeyError("k"), IndexError()):
    try:
        raise e
    except E1 as x: L.append(("E1", x.args))
    except (ValueError, KeyError) as x: L.append((type(x).__name__, str(x)))
    except Exception as x: L.append(repr(x))
try:
    try: int("x")
    except ValueError as e: raise TypeError("t") from e
except TypeError as t: L.append(str(t.__cause__))
R = L
###
def m(v):
    match v:
        case 0: return "zero"
        case int() | float() if v > 100: return "big"
        case int(n): return f"int{n}"
        case str() as s if s.startswith("a"): return "a-str"
        case [x, *rest]: return ("seq", x, rest)
        case {"k": k, **o}: return ("map", k, o)
        case None: return "none"
        case _: return "other"
R = [m(x) for x in (0, 101, 5, 2.5, "abc", "b", [1, 2, 3], (4,), {"k": 1, "z": 2}, None, {}, b"x", True)]
###
from dataclasses import dataclass, field, replace, asdict
@dataclass(order=True)
class P:
    a: int
    b: list = field(default_factory=list)
    c: str = "z"
    def __post_init__(self): self.b.append(self.a)
@dataclass(frozen=True)
class Q:
    a: int = 1
p = P(1); q = P(2)
try:
    Q().a = 3; fr = False
except Exception as e: fr = type(e).__name__
R = repr(p), p == P(1), p < q, replace(p, c="y"), hash(Q(1)) == hash(Q(1)), fr, asdict(Q(4))
###
from enum import Enum, IntEnum, IntFlag, auto, Flag
class C(Enum):
    A = 1
    B = "b"
    D = auto() if False else 7
class I(IntEnum):
    X = 1
    Y = auto()
class F(IntFlag):
    P = 1
    W = 2
    @property
    def dbl(self): return self.value * 2
try: C(99); bad = 0
except ValueError as e: bad = 1
R = C.A.name, C["B"].value, [c.name for c in C], C(7) is C.D, I.Y + 1, I(2).name, F.P | F.W, (F.P | F.W).value, F.W.dbl, bad, C.A in {C.A}, isinstance(I.X, int), len(C), list(C.__members__)
###
R = ["%05.1f|%-5s|%+d|%x|%r" % (3.14159, "ab", 5, 255, "q"), f"{255:08b} {255:#x} {1000:,} {'a':>4} {'b':^5}|{3.5:.2f} {1!r:>3}", "{0}-{b}".format(1, b=2), "a,b,,c".split(","), " x ".strip(), "abc".replace("b", "X"), "a-b".partition("-"), "abc".find("c"), "AbC".lower(), "x".join(["1", "2"]), "ab" * 2, "abc"[1], "0042".lstrip("0"), "abc".startswith(("x", "a")), "12".isdigit(), "a b".title(), "7".zfill(3), ord("A"), chr(66), "é".encode("utf-8"), "abc".index("b"), "a\nb".splitlines(), "aXbX".rsplit("X", 1), "ab".center(6, "*"), "abcabc".count("bc")]
###
R = [int("0x1f", 16), int("-12"), int(3.9), float("1e3"), bin(5), hex(255), oct(8), divmod(-7, 3), -7 // 2, -7 % 3, 7 >> 1, ~5, 5 ^ 3, 2 ** 10, pow(3, 4, 5), abs(-3), round(2.5), round(3.14159, 2), min(3, 1, 2), max([1, 5], key=lambda v: -v), sum([1, 2], 10), any([0, 1]), all([]), sorted("bca", reverse=True), list(reversed([1, 2])), list(enumerate("ab", 1)), list(map(lambda a, b: a + b, [1, 2], [3, 4])), list(filter(None, [0, 1, 2])), (255).to_bytes(2, "big"), int.from_bytes(b"\x01\x00", "little"), (5).bit_length(), isinstance(True, int), bool(""), 1 < 2 < 3, 1 if 0 else 2, None or 5, 0 and 1, not [], (-1).to_bytes(2, "big", signed=True)]
###
b = bytearray(b"abc"); b[1:2] = b"XY"; b += b"z"; b.append(1); b.extend([2, 3]); del b[0]; p = b.pop(); b.insert(0, 9)
m = memoryview(bytearray(b"hello")); m[1:3] = b"EL"
R = bytes(b), p, bytes(m), bytes(m[1:]), b"abc"[1], b"abc"[1:], b"a" + b"b", b"ab" * 2, b"a,b".split(b","), bytes(3), bytes([1, 2]), b"abc".hex(), b"abc".hex(" "), bytes.fromhex("0a 0b"), b"\x01" in b"\x00\x01", b"abc".find(b"c"), list(b"ab"), b"abc".startswith(b"a"), b"ab".ljust(4, b"\0"), b"".join([b"1", b"2"]), b"abc" == bytearray(b"abc"), b"a" < b"b", m.tobytes()[:1], len(m), b"abc"[::-1], b"%d" % 5 if False else b"", b"\x00a".strip(b"\x00"), b"ab".rjust(3, b"0")
###
d = {"a": 1, "b": 2}; d["c"] = 3; d.setdefault("a", 9); d.setdefault("z", 8); e = d.copy(); e.update(a=5, q=6); e |= {"w": 1}
x = d.pop("b"); y = d.pop("nope", None)
R = d, e, x, y, list(d.items()), list(d.keys()), sum(d.values()), d.get("a"), d.get("n", 0), "a" in d, len(d), dict(a=1), dict([(1, 2)]), {**d, "k": 0}, d == {"a": 1, "c": 3, "z": 8}, dict.fromkeys("ab", 0), list(d)[0], {1: 2} | {3: 4}, sorted(d, reverse=True), min(d.values())
###
s = {1, 2}; s.add(3); s.discard(9); t = s | {7}; u = s & {2, 3}; v = s - {1}; w = s ^ {1, 9}; s2 = frozenset([1, 1])
R = sorted(s), sorted(t), sorted(u), sorted(v), sorted(w), s2, s <= t, s.issubset(t), {1} < {1, 2}, s.isdisjoint({8}), sorted(s.union([5])), len(s)
###
l = [3, 1, 2]; l.sort(); l.append(4); l.extend((5, 6)); l.insert(0, 0); l.remove(3); k = l.pop(); l.reverse(); l[1:3] = [9, 9, 9]; del l[0]; l2 = l * 2; l3 = l + [1]; l.sort(key=lambda v: -v); l += [8]
R = l, k, l2, l3, l.index(9), l.count(9), 9 in l, l == list(l), [1, 2] < [1, 3], [[0] * 2 for _ in range(2)], list("ab"), tuple([1]), l.copy() is l, [*l, 1], (1,) + (2,), (1, 2).index(2)
###
import struct
S = struct.Struct(">BH")
b = bytearray(6); struct.pack_into(">HB", b, 1, 513, 7)
R = struct.pack(">BHIq", 1, 2, 3, -4), struct.unpack("<HB", b"\x01\x02\x03"), S.size, S.pack(1, 2), S.unpack(b"\x01\x00\x02"), bytes(b), struct.unpack_from(">H", b, 1), struct.calcsize(">BHL"), struct.pack("3s", b"ab"), struct.pack(">f", 1.5), struct.unpack(">d", struct.pack(">d", 0.1))
###
from functools import reduce, partial, lru_cache, cached_property, wraps
from itertools import chain, islice, count, product, zip_longest, groupby, accumulate, takewhile, repeat, starmap
from collections import deque, namedtuple, defaultdict, OrderedDict, Counter
from operator import itemgetter, attrgetter
def deco(f):
    @wraps(f)
    def inner(*a, **k): return ("w", f(*a, **k))
    return inner
@deco
def ff(a): "doc"; return a
class Q:
    def __init__(self, k, v): self.k, self.v = k, v
    def __eq__(self, o): return self.k == o.k
    def __hash__(self): return hash(self.k)
    @lru_cache(maxsize=10)
    def get(self, d=0): return self.v + d
    @classmethod
    @lru_cache
    def mk(cls, x): return [x]
q1, q2, q3 = Q(1, 10), Q(1, 20), Q(2, 30)
QR = q1.get(), q2.get(), q3.get(), q1.get(1), q2.get(d=1)
q1.v = 99; QS = q1.get(), Q.mk(1) is Q.mk(1), Q.mk(1) is Q.mk(2)
try: q1.get([]); QT = 0
except TypeError: QT = 1
@lru_cache(maxsize=None)
def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
class K:
    n = 0
    @cached_property
    def c(self): self.n += 1; return self.n
k = K(); k.c
NT = namedtuple("NT", "x y")
dd = defaultdict(list); dd["a"].append(1)
dq = deque([1, 2, 3]); dq.appendleft(0); dq.rotate(1)
R = QR, QS, QT, reduce(lambda a, b: a * b, [1, 2, 3]), partial(pow, 2)(5), fib(10), ff(3), k.c, k.n, NT(1, 2).y, NT(1, 2)._replace(x=5), dict(dd), list(dq), dq.pop(), list(chain([1], [2])), list(islice(count(3), 2)), list(product("ab", [1])), list(zip_longest([1, 2], [3])), list(accumulate([1, 2, 3])), list(takewhile(lambda v: v < 2, [1, 2, 1])), list(repeat(1, 2)), list(starmap(lambda a, b: a - b, [(3, 1)])), list(map(itemgetter(1), [(1, 2)])), list(chain.from_iterable([[1], [2]]))
###
def outer():
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    inc(); inc()
    return n, inc
G = 5
def glob():
    global G
    G += 1
glob()
R = outer()[0], G, outer()[1]()
###
class Base:
    subs = []
    def __init_subclass__(cls, tag=None, **kw):
        super().__init_subclass__(**kw)
        cls.tag = tag; Base.subs.append(cls.__name__)
    def __class_getitem__(cls, k): return (cls.__name__, k)
class S1(Base, tag=1): pass
class S2(S1): pass
R = S1.tag, S2.tag, Base.subs, Base[3], S2.__mro__[1].__name__, issubclass(S2, Base), isinstance(S2(), S1), type(S1()).__name__, [c.__name__ for c in Base.__subclasses__()], hasattr(S1, "tag"), getattr(S1, "nope", 3)
###
from abc import ABC, abstractmethod
class Ab(ABC):
    @abstractmethod
    def f(self): ...
    @property
    @abstractmethod
    def q(self): ...
class Im(Ab):
    q = 2
    def f(self): return 1
try: Ab(); e = None
except TypeError: e = "TypeError"
R = e, Im().f(), Im().q
###
class D:
    def __set_name__(self, o, n): self.n = n
    def __get__(self, i, o): return (self.n, i is None)
    def __set__(self, i, v): i.__dict__["_" + self.n] = v
class U:
    d = D()
    __slots__ = () if False else ("__dict__",)
u = U(); u.d = 5
class At:
    def __getattr__(self, n): return n.upper()
    def __setattr__(self, n, v): self.__dict__[n] = (v,)
    def __delattr__(self, n): self.__dict__.pop(n)
a = At(); a.q = 1; a.w = 2; del a.w
R = u.d, U.d, u.__dict__, a.foo, a.q, a.w, vars(a), {**a.__dict__}, dict(a.__dict__), "q" in a.__dict__, [k for k in a.__dict__], len(a.__dict__)
###
class Ctx:
    def __enter__(self): L.append("in"); return self
    def __exit__(self, t, v, tb): L.append(t.__name__ if t else None); return t is ValueError
L = []
with Ctx() as c, Ctx(): L.append("body")
with Ctx(): raise ValueError
from contextlib import contextmanager, suppress
@contextmanager
def cm():
    L.append("cin")
    try: yield 5
    finally: L.append("cout")
with cm() as v: L.append(v)
with suppress(KeyError): {}["x"]
R = L
###
if (n := 5) > 3: R = [n, [y := 1, y ** 2], (z := [1, 2])[0]]
###
import copy
class N:
    def __init__(self): self.l = [1, [2]]; self.t = (1,)
n = N(); c = copy.copy(n); d = copy.deepcopy(n); n.l[1].append(3); n.l.append(4)
R = c.l, d.l, d.t, copy.copy([1, 2]), copy.deepcopy({"a": [1]})
###
def a1(x, /, y, *, z=1): return x, y, z
def a2(*args, **kw): return args, sorted(kw.items())
args = (1, 2); kw = {"z": 3}
R = [a1(*args, **kw), a2(*args, 3, *[4], **kw, k=1), a1(1, y=2)]
try: a1(1)
except TypeError as e: R.append("TypeError")
try: a1(x=1, y=2)
except TypeError as e: R.append("TypeError2")
try: undefined_name
except NameError as e: R.append("NameError")
try: (1).foo
except AttributeError: R.append("AttributeError")
try: [][0]
except IndexError: R.append("IndexError")
try: 1 / 0
except ZeroDivisionError: R.append("ZeroDivisionError")
try: assert 0, "m"
except AssertionError as e: R.append(str(e))
try: "a" + 1
except TypeError: R.append("TypeError3")
try: int.from_bytes("x", "big")
except TypeError: R.append("TypeError4")
try: (300).to_bytes(1, "big")
except OverflowError: R.append("OverflowError")
try: bytes([256])
except ValueError: R.append("ValueError")
try: {}.pop("x")
except KeyError as e: R.append(e.args)
try: a, b = (1,)
except ValueError: R.append("unpack")
###
import datetime
d = datetime.datetime(2024, 2, 29, 1, 2, 3, 40000, tzinfo=datetime.timezone(datetime.timedelta(minutes=-90)))
R = d.year, d.weekday(), d.isoweekday(), d.utcoffset().total_seconds(), (d + datetime.timedelta(days=1)).month, d.date().isoformat(), str(d), datetime.date(2023, 1, 1) < datetime.date(2023, 1, 2), datetime.time(1, 2).hour, d.strftime("%d.%m.%Y"), d.replace(tzinfo=None).isoformat(), (datetime.date(2024, 3, 1) - datetime.date(2024, 2, 1)).days
try: datetime.date(2023, 2, 29)
except ValueError: R += ("bad",)
###
import re, hashlib, math
R = re.match(r"(\d+)\.(?P<m>\d+)", "12.34x").groups(), re.fullmatch("a+", "aab") is None, re.findall(r"\d", "a1b2"), re.sub("a", "b", "aa"), math.ceil(2.1), math.floor(-2.1), math.log2(8), math.log(8, 2)
###
i = 0; L = []
while i < 5:
    i += 1
    if i == 2: continue
    if i == 4: break
    L.append(i)
else: L.append("no")
for i, (a, b) in enumerate([(1, 2), (3, 4)]): L.append((i, a, b))
for q in []: pass
else: L.append("else")
x = y = 3; x, y = y + 1, x
a: int = 4
del i
R = L, x, y, a
###
class T(tuple):
    def __new__(cls, *a): return super().__new__(cls, a)
class Li(list):
    def add(self, v): self.append(v); return self
class By(bytes):
    def __str__(self): return "By" + self.hex()
class In(int):
    def __str__(self): return "In%d" % int(self)
class Di(dict):
    def __missing__(self, k): return k * 2
class St(str):
    def up(self): return self.upper()
R = T(1, 2), T(1)[0], Li([1]).add(2), By(b"ab") == b"ab", str(By(b"a")), In(5) + 1, str(In(3)), Di()[4], St("ab").up(), len(By(b"abc")), f"{In(3)}", hash(In(3)) == 3, {By(b"a"): 1}[b"a"]
###
f = lambda *a: sum(a)
R = f(1, 2, 3), [*range(3)], [*map(str, range(2))], max((1, 2), (1, 3)), dict(zip("ab", (1, 2))), "".join(c for c in "abc" if c != "b"), sum(x * x for x in range(4)), [a for a, in [(1,), (2,)]], (1, 2) == (1, 2), [1] is [1], type(3) is int, callable(f), id(f) == id(f), {True: "a"}[1], "%s %s" % ("a", (1,)), list(range(10, 0, -3)), range(5)[2], 3 in range(5), len(range(0, 10, 3)), slice(1, 3).start, [0, 1, 2, 3][slice(1, 3)], tuple(x for x in range(2)), divmod(7, 2), int(True), str(None), repr("a'b"), isinstance(3, (str, int)), type("Dyn", (), {"x": 4})().x, print("") if False else 1, sorted([(2, "b"), (1, "a")]), sorted(["b", "A"], key=str.lower), list(zip(*[(1, 2), (3, 4)])), any(x > 2 for x in [1, 3])
###
from typing import NamedTuple, Protocol, Generic, TypeVar, Optional, cast, get_type_hints, Any
TV = TypeVar("TV")
class NT(NamedTuple):
    a: int
    b: str = "q"
    def s(self): return f"{self.a}{self.b}"
class Gen(Generic[TV]):
    def __init__(self, v: TV): self.v = v
class Pr(Protocol):
    def f(self) -> int: ...
R = NT(1), NT(1).s(), NT(2, "x") == (2, "x"), Gen[int](5).v, cast(int, "3"), [x for x in NT(1, "2")], NT(1)._asdict()
###
class Priv:
    __x = 3
    def __m(self): return self.__x + 1
    def pub(self): return self.__m()
    def setx(self): self.__x = 9; return self._Priv__x
R = Priv().pub(), Priv().setx(), Priv._Priv__x
###
class It:
    def __init__(self): self.i = 0
    def __iter__(self): return self
    def __next__(self):
        self.i += 1
        if self.i > 3: raise StopIteration
        return self.i
class Sq:
    def __getitem__(self, i):
        if i > 2: raise IndexError
        return i
    def __len__(self): return 3
it = iter(It()); next(it)
R = list(it), list(Sq()), 1 in Sq(), [x for x in Sq()], list(reversed([1, 2, 3])), tuple(It())
###
from functools import singledispatch, reduce
import operator as op
@singledispatch
def sd(x): return "any"
@sd.register
def _(x: int): return "int"
@sd.register(str)
def _(x): return "str"
def deco(n):
    def w(f):
        def g(*a, **k): return [f(*a, **k)] * n
        return g
    return w
@deco(2)
def k(v, *, z=0): return v + z
fs = [lambda x, i=i: x + i for i in range(3)]
R = [sd(1), sd("a"), sd(2.0), k(1, z=2), [f(1) for f in fs], reduce(op.xor, [1, 2, 4], 0), op.add(1, 2), op.or_(1, 2), list(zip([1, 2], [3, 4], strict=True)), list(reversed(range(3))), list(iter([1, 2, 3].pop, 1)), (5).bit_count(), int.from_bytes([1, 2], "big"), int.from_bytes(b"\x01\x02"), (3).to_bytes(), sum((i for i in range(4)), 10), b"".join(bytes([i]) for i in range(3)), bytes(i ^ 1 for i in b"ab"), [*b"ab"], {*"a"}, dict(**{"a": 1}), [1, 2, 3][-1:], [1, 2, 3][slice(None, None, -1)], "abc"[-2:], (1, 2, 3)[1:], min([3, 1], default=0), max([], default=7)]
###
class S:
    __slots__ = ("a", "b")
    def __init__(self): self.a = 1
s = S()
try: s.c = 1; e = 0
except AttributeError: e = 1
try: s.b; e2 = 0
except AttributeError: e2 = 1
class Z:
    v = 1
    def __setattr__(self, k, v):
        match k:
            case "ro": raise ValueError(k)
            case _: super().__setattr__(k, v)
z = Z(); z.q = 2
try: z.ro = 1; e3 = 0
except ValueError: e3 = 1
object.__setattr__(z, "ro", 5); setattr(z, "w", 6); delattr(z, "q")
class Y(Z):
    @property
    def p(self): return self.h
    @p.setter
    def p(self, x): self.h = x + 1
y = Y(); y.p = 3; e += y.p; object.__setattr__(y, "p", 10); e += y.p * 10; e2 += "p" in y.__dict__
R = e, e2, e3, z.ro, z.w, hasattr(z, "q"), getattr(z, "nope", None), type(z).__name__, z.__class__ is Z, vars(z), Z.__dict__["v"], isinstance(z, (int, Z)), type(z)().v
###
b = bytearray(b"$$ab$k$z"); o = []
while b:
    if b.startswith(b"$$"): b.pop(0); o.append(b.pop(0))
    elif b.startswith(b"$"):
        k, q, b = b[1:].partition(b"$"); o.append((k.decode(), type(k).__name__, type(q).__name__))
    else: o.append(b.pop(0))
R = o, b"ab".removeprefix(b"a"), b"ab".removesuffix(b"ab"), b"ab".removeprefix(b"abc"), b"ab".removeprefix(b"b"), bytearray(b"ab").removeprefix(b"a"), type(bytearray(b"a").ljust(3)).__name__
###
def f(v):
    match v:
        case (1, 2) | [3, 4]: return "pair"
        case {"a": int(x)} if x > 3: return x
        case [int() as a, [b, *_]]: return a, b
        case str("x" | "y"): return "xy"
        case bytes() | bytearray(): return "by"
        case True: return "T"
        case float(): return "fl"
        case -1: return "m1"
        case "q" | None: return "qn"
        case (a, b, c): return "three"
        case _: return 0
class Pt:
    __match_args__ = ("x", "y")
    def __init__(self, x, y): self.x, self.y = x, y
def g(p):
    match p:
        case Pt(0, 0): return "o"
        case Pt(x=0): return "yaxis"
        case Pt(x, y) if x == y: return "diag"
        case Pt(): return "pt"
        case int(): return "i"
R = [f(v) for v in ((1, 2), [3, 4], {"a": 5}, {"a": 1}, [1, [2, 3]], "x", "z", b"", bytearray(), True, 1.0, -1, "q", None, (7, 8, 9))], [g(p) for p in (Pt(0, 0), Pt(0, 1), Pt(2, 2), Pt(1, 2), 3, "s")]
###
T = {i: i * i for i in range(4)}
class Cn:
    TAB = tuple(x ^ 0xff for x in (1, 2))
    M = {k: v for k, v in (("a", 1),)}
    def __init__(self): self._d = {}
    def get(self, k):
        try: return self._d[k]
        except KeyError:
            self._d[k] = v = k * 2
            return v
    def __enter__(self): return self
    def __exit__(self, *a): self.left = True
    @property
    def pr(self): return self._d
    @pr.deleter
    def pr(self): self._d = None
    __call__ = get
    alias = property(lambda self: 4)
c = Cn()
with c as q: c.get(3)
del c.pr
acc = []
def rec(n): return 1 if n <= 0 else n * rec(n - 1)
for i in range(3):
    for j in range(3):
        if j == 1: break
        acc.append((i, j))
    else: acc.append("x")
try:
    pass
except ValueError: acc.append("v")
else: acc.append("e")
finally: acc.append("f")
def ff():
    try: raise ValueError("a")
    except ValueError: return "r"
    finally: acc.append("fin")
def nest():
    try:
        try: raise KeyError("k")
        finally: acc.append("in")
    except KeyError as e:
        try: raise RuntimeError("z") from None
        except RuntimeError as r: return (e.args, r.args, r.__cause__)
R = T, Cn.TAB, Cn.M, c.left, c._d, c.alias, rec(5), ff(), nest(), acc, 5 if not c._d else 6, 1 < 3 > 2, 1 == 1.0, None is None, "a" in "abc", 3 not in [1], [] or {} or "z", 1 and "y"
###
import enum
class Op(enum.IntEnum):
    GET = 0xC0
    SET = 0xC1
    @classmethod
    def parse(cls, v): return cls(v)
    def __str__(self): return self.name.lower()
class Fl(enum.Flag):
    A = enum.auto()
    B = enum.auto()
class St(enum.StrEnum):
    X = "x"
class Uq(enum.Enum):
    P = (1, "one")
    Q = (2, "two")
    def __init__(self, n, t): self.n, self.t = n, t
    @property
    def lab(self): return f"{self.n}{self.t}"
R = Op.parse(0xC1) is Op.SET, str(Op.GET), Op.GET == 0xC0, Op(0xC0).value, Op["SET"].name, 0xC1 in [o.value for o in Op], int(Op.SET), Op.GET < Op.SET, sorted(Op), (Fl.A | Fl.B) & Fl.A == Fl.A, Fl.A in (Fl.A | Fl.B), bool(Fl.A & Fl.B), St.X == "x", str(St.X), Uq.Q.lab, Uq((1, "one")).t, {Op.GET: 1}[0xC0], bytes([Op.GET]), Op.GET | 1, f"{Op.GET}", Op._value2member_map_[0xC0] is Op.GET, [m for m in Op if m > 0xC0]
###
import struct
from array import array
b = bytearray(8)
mv = memoryview(b)
struct.pack_into("<H", mv, 2, 0x0102)
mv[0] = 5
sl = mv[2:4]; sl[0] = 9
R = bytes(b), bytes(sl), mv[0], len(sl), mv.nbytes, list(mv[:3]), sl == b"\x09\x01", b.index(9), b.count(0), bytes(b[:2] + b"z"), b"ab".translate(bytes(range(256))), b"a-b".split(b"-", 1), b"\xff\x00".hex(), int(b"12"), b"abc".upper(), bytes(b).rstrip(b"\0"), b"ab" in b"cab", b"a\x00b".replace(b"\x00", b""), bytearray(3) == b"\0\0\0", bytearray.fromhex("0aff"), bytes(bytearray(b"q")), b"%02x" % 10, bytes("é", "utf8"), b"\xe9".decode("latin1"), "aé".encode("cp1251", "replace") if False else 0, mv.readonly, memoryview(b"q").readonly, mv.obj is b, b.find(b"\x09"), bytes(reversed(b"abc"))
try: memoryview(b"x")[0] = 1; e = 0
except TypeError: e = 1
try: mv[0:2] = b"abc"; e1 = 0
except ValueError: e1 = 1
try: b"a"[5]; e2 = 0
except IndexError: e2 = 1
try: struct.pack("B", 256); e3 = 0
except struct.error: e3 = 1
try: struct.unpack("H", b"a"); e4 = 0
except struct.error: e4 = 1
try: bytes.fromhex("0"); e5 = 0
except ValueError: e5 = 1
try: b"a" + "a"; e6 = 0
except TypeError: e6 = 1
R += (e, e1, e2, e3, e4, e5, e6)
'''


def norm(v):
    r = repr(v)
    return r


def main():
    d = tempfile.mkdtemp(prefix="sa-diff-")
    os.environ["VERIF_REPO"] = d
    pk = os.path.join(d, "src", "DLMS_SPODES")
    os.makedirs(pk)
    open(os.path.join(pk, "__init__.py"), "w").close()
    import framework as fw
    ck = fw.Check("SELF")
    I = ck.I
    bad = 0
    parts = SN.strip("\n").split("\n###\n")
    pick = [int(a) for a in sys.argv[1:]]
    for n, src in enumerate(parts):
        if pick and n not in pick:
            continue
        ns = {"__name__": "snip%d" % n}
        mod = __import__("types").ModuleType("snip%d" % n)
        sys.modules["snip%d" % n] = mod
        exec(compile(src, "s", "exec"), mod.__dict__)
        want = mod.R
        want = list(want) if isinstance(want, (tuple, list)) else [want]
        try:
            m = ck.program(src + "\nRR = [repr(_x) for _x in (R if isinstance(R, (tuple, list)) else [R])]\n")
            got = [x for x in m.d["RR"].p]
        except Exception as e:
            print("snippet %d: %s: %s" % (n, type(e).__name__, str(e)[:300]))
            print("    ", src.split("\n")[0][:100])
            bad += 1
            continue
        import re as _re
        w = [_re.sub(r"snip\d+\.", "", repr(x)) for x in want]
        for i, x in enumerate(w):
            g = got[i] if i < len(got) else "<missing>"
            g = g if isinstance(g, str) else repr(g)
            g = _re.sub(r"client_program_\d+\.", "", g)
            if g != x and "object at 0x" not in x:
                print("snippet %d item %d: CPython %s, analyser %s" % (n, i, x[:150], g[:150]))
                bad += 1
    shutil.rmtree(d)
    print("differences:", bad)
    return bad


if __name__ == "__main__":
    import threading
    threading.stack_size(512 << 20)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(1 if not rc or rc[0] else 0)
