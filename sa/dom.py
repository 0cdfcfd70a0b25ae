"""Abstract domains used by the interpreter in absint.py.

 * constants            - the Python value itself (int, str, bytes, None, ...)
 * Lin                  - an integer that is a linear form over atoms; atoms are
                          GF(2)-affine bits (xor of input bits) or integer symbols.
                          The product of an interval domain, a value-numbering
                          domain and a bit-provenance domain.
 * BitBool              - a boolean that equals one affine bit
 * Byt / Seg            - byte strings: single (abstract) bytes and slices of
                          unknown input strings of unknown length
 * SStr / Fmt           - text assembled from constants and formatted numbers
 * Term                 - an opaque value, identified by how it was computed
"""


class Term:
    __slots__ = ("op", "args", "typ", "_h")

    def __init__(self, op, args=(), typ=None):
        self.op, self.args, self.typ = op, tuple(args), typ
        self._h = None

    def __hash__(self):
        if self._h is None:
            try:
                self._h = hash((self.op, self.args))
            except TypeError:
                self._h = hash((self.op, len(self.args)))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Term) and self.op == o.op and self.args == o.args)

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args))) if self.args else str(self.op)


def akey(a):
    return (0, tuple(sorted(a[1]))) if a[0] == "b" else (1, (str(a[1]),))


class Lin:
    """c + sum(coef * atom); never constant (use mk)."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c, self.t = c, t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        def at(a):
            return "^".join(sorted(a[1])) if a[0] == "b" else str(a[1])
        s = self.pretty_bits()
        if s:
            return s
        r = " + ".join(("%d*%s" % (k, at(a))) if k != 1 else at(a) for a, k in self.t)
        return "{%s%s}" % (r, " + %d" % self.c if self.c else "")

    def pretty_bits(self):
        b = bits_of(self)
        if b is None or len(b) > 64:
            return None
        # compress runs name.k
        out = []
        for e in reversed(b):
            fs, k = e
            if not fs:
                out.append(str(k))
            else:
                out.append(("~" if k else "") + "^".join(sorted(fs)))
        return "<" + " ".join(out) + ">"


def mk(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: akey(x[0])))
    return Lin(c, t) if t else c


def lin_parts(v):
    if isinstance(v, Lin):
        return v.c, dict(v.t)
    return int(v), {}


def add(x, y, ky=1):
    c1, d1 = lin_parts(x)
    c2, d2 = lin_parts(y)
    for a, k in d2.items():
        d1[a] = d1.get(a, 0) + ky * k
    return mk(c1 + ky * c2, d1)


def scale(x, k):
    c, d = lin_parts(x)
    return mk(c * k, {a: v * k for a, v in d.items()})


def sym(name):
    return Lin(0, ((("s", name), 1),))


def opq(term):
    return Lin(0, ((("o", term), 1),))


def bit(name):
    return Lin(0, ((("b", frozenset((name,))), 1),))


def from_bits(bits):
    """bits: list of (frozenset, const) little-endian -> int or Lin."""
    c, d = 0, {}
    for i, (fs, k) in enumerate(bits):
        if not fs:
            c += k << i
        elif k:
            c += 1 << i
            a = ("b", fs)
            d[a] = d.get(a, 0) - (1 << i)
        else:
            a = ("b", fs)
            d[a] = d.get(a, 0) + (1 << i)
    return mk(c, d)


def byte(name, width=8):
    return from_bits([(frozenset(("%s.%d" % (name, i),)), 0) for i in range(width)])


Z = (frozenset(), 0)
ONE = (frozenset(), 1)


def bits_of(v):
    """little-endian list of affine bits, or None if v is not a disjoint sum of bits."""
    if isinstance(v, int):
        if v < 0:
            return None
        return [(frozenset(), (v >> i) & 1) for i in range(v.bit_length())]
    c = v.c
    if c < 0:
        return None
    # c is the value with every atom 0; atom a toggles exactly the bits c ^ (c + k)
    used = 0
    pos = {}
    for a, k in v.t:
        if a[0] != "b" or c + k < 0:
            return None
        fl = c ^ (c + k)
        if used & fl:
            return None
        used |= fl
        j = 0
        while fl:
            if fl & 1:
                pos[j] = (a[1], (c >> j) & 1)
            fl >>= 1
            j += 1
    out = []
    for i in range(max(used.bit_length(), c.bit_length())):
        out.append(pos[i] if i in pos else (frozenset(), (c >> i) & 1))
    return out


def xor_bit(x, y):
    return (x[0] ^ y[0], x[1] ^ y[1])


ANDS = {}       # name of a product bit -> (affine bit, affine bit)


def mkand(p, q):
    """affine view of p & q; a genuine product becomes a named bit"""
    if not p[0]:
        return q if p[1] else Z
    if not q[0]:
        return p if q[1] else Z
    if p[0] == q[0]:
        return p if p[1] == q[1] else Z
    a, b = sorted(((tuple(sorted(p[0])), p[1]), (tuple(sorted(q[0])), q[1])))
    n = "&(%s%s|%s%s)" % ("~" if a[1] else "", "^".join(a[0]), "~" if b[1] else "", "^".join(b[0]))
    ANDS[n] = (p, q)
    return (frozenset((n,)), 0)


def support(fs, out=None):
    out = set() if out is None else out
    for n in fs:
        if n in out:
            continue
        out.add(n)
        if n[0] == "&":
            for fs2, _ in ANDS[n]:
                support(fs2, out)
    return out


class BitBool:
    """A bool equal to an affine bit."""
    __slots__ = ("fs", "k")

    def __init__(self, fs, k=0):
        self.fs, self.k = fs, k

    def lin(self):
        return from_bits([(self.fs, self.k)])

    def __eq__(self, o):
        return isinstance(o, BitBool) and (self.fs, self.k) == (o.fs, o.k)

    def __hash__(self):
        return hash((self.fs, self.k))

    def __repr__(self):
        return "bool(%s%s)" % ("~" if self.k else "", "^".join(sorted(self.fs)))


class Seg:
    """src[a:b] of an unknown byte string."""
    __slots__ = ("src", "a", "b")

    def __init__(self, src, a, b):
        self.src, self.a, self.b = src, a, b

    def __eq__(self, o):
        return isinstance(o, Seg) and (self.src, self.a, self.b) == (o.src, o.a, o.b)

    def __hash__(self):
        return hash((self.src, self.a, self.b))

    def __repr__(self):
        return "%s[%s:%s]" % (self.src, self.a, self.b)


class Byt:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, Byt) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return "Byt[%s]" % ", ".join(("%02x" % x) if isinstance(x, int) else repr(x) for x in self.p)


class Fmt:
    """one formatted value inside a text."""
    __slots__ = ("v", "spec")

    def __init__(self, v, spec=""):
        self.v, self.spec = v, spec

    def __eq__(self, o):
        return isinstance(o, Fmt) and self.v == o.v and self.spec == o.spec

    def __hash__(self):
        return hash((self.spec, "fmt"))

    def __repr__(self):
        return "{%r:%s}" % (self.v, self.spec)


class SStr:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, SStr) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return "SStr[%s]" % ", ".join(map(repr, self.p))


def mkstr(parts):
    out = []
    for x in parts:
        if isinstance(x, str):
            if x == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        out.append(x)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def byt(parts):
    """normalise a list of parts to bytes or Byt."""
    out = []
    for x in parts:
        if isinstance(x, (bytes, bytearray)):
            out.extend(x)
        elif isinstance(x, Byt):
            out.extend(x.p)
        else:
            out.append(x)
    res = []
    for x in out:
        if isinstance(x, Seg):
            if x.a == x.b:
                continue
            if res and isinstance(res[-1], Seg) and res[-1].src == x.src and res[-1].b == x.a:
                res[-1] = Seg(x.src, res[-1].a, x.b)
                continue
        res.append(x)
    if all(isinstance(x, int) for x in res):
        return bytes(res)
    return Byt(res)


def bparts(v):
    if isinstance(v, Byt):
        return list(v.p)
    return list(v)


def blen(v):
    if isinstance(v, (bytes, bytearray)):
        return len(v)
    n = 0
    for x in v.p:
        if isinstance(x, Seg):
            n = add(n, add(x.b, x.a, -1))
        else:
            n = add(n, 1)
    return n


class Facts:
    """What is known on the current trace partition."""

    def __init__(self):
        self.bsub = {}      # bit name -> (frozenset, const)
        self.ssub = {}      # symbol -> Lin/int
        self.iv = {}        # canonical term tuple -> [lo, hi]
        self.ne = {}        # canonical term tuple -> set of excluded values of (t)
        self.truth = {}     # Term -> bool
        self.width = {}

    # ---- normal form
    def nbit(self, fs, k=0):
        changed = True
        while changed:
            changed = False
            for n in fs:
                s = self.bsub.get(n)
                if s is None and n[0] == "&" and self.bsub:
                    p, q = ANDS[n]
                    s = mkand(self.nbit(*p), self.nbit(*q))
                    if s[1] == 0 and len(s[0]) == 1 and n in s[0]:
                        s = None
                if s is not None:
                    fs = (fs - {n}) ^ s[0]
                    k ^= s[1]
                    changed = True
                    break
        return fs, k

    def norm(self, v):
        if isinstance(v, bool) or isinstance(v, int):
            return v
        if isinstance(v, BitBool):
            fs, k = self.nbit(v.fs, v.k)
            if not fs:
                return bool(k)
            return BitBool(fs, k)
        if not isinstance(v, Lin):
            return v
        if not self.bsub and not self.ssub:
            return v
        dirty = False
        for a, _ in v.t:
            if a[0] == "b":
                if any(n in self.bsub or n[0] == "&" for n in a[1]):
                    dirty = True
                    break
            elif a[0] == "s":
                if a[1] in self.ssub:
                    dirty = True
                    break
        if not dirty:
            return v
        r = v.c
        for a, k in v.t:
            if a[0] == "b":
                fs, kk = self.nbit(a[1])
                r = add(r, from_bits([(fs, kk)]), k)
            elif a[0] == "s" and a[1] in self.ssub:
                r = add(r, self.norm(self.ssub[a[1]]), k)
            else:
                r = add(r, Lin(0, ((a, 1),)), k)
        return r

    # ---- intervals
    def canon(self, t):
        """terms with positive leading coefficient; returns (t, sign)."""
        if t[0][1] < 0:
            return tuple((a, -k) for a, k in t), -1
        return t, 1

    def interval(self, v):
        v = self.norm(v)
        if isinstance(v, int):
            return int(v), int(v)
        lo, hi = v.c, v.c
        if len(v.t) > 1:
            tk = v.t
            neg = tuple((a, -k) for a, k in tk)
        for a, k in v.t:
            if a[0] == "b":
                alo, ahi = 0, 1
            else:
                alo, ahi = self.iv.get(((a, 1),), (None, None))
            if k < 0:
                alo, ahi = (None if ahi is None else k * ahi), (None if alo is None else k * alo)
            else:
                alo, ahi = (None if alo is None else k * alo), (None if ahi is None else k * ahi)
            lo = None if lo is None or alo is None else lo + alo
            hi = None if hi is None or ahi is None else hi + ahi
        t, s = self.canon(v.t)
        f = self.iv.get(t)
        if f is not None:
            flo, fhi = f
            if s < 0:
                flo, fhi = (None if fhi is None else -fhi), (None if flo is None else -flo)
            if flo is not None:
                lo = flo + v.c if lo is None else max(lo, flo + v.c)
            if fhi is not None:
                hi = fhi + v.c if hi is None else min(hi, fhi + v.c)
        if (lo is None or hi is None) and len(v.t) > 1:
            # difference of two recorded forms: try to split off one recorded fact
            lo2, hi2 = self._combo(v)
            if lo is None:
                lo = lo2
            if hi is None:
                hi = hi2
        return lo, hi

    def _combo(self, v):
        lo = hi = None
        for t, (flo, fhi) in self.iv.items():
            if len(t) < 2:
                continue
            for s in (1, -1):
                rest = add(Lin(v.c, v.t), Lin(0, t), -s)
                rc = rest if isinstance(rest, int) else None
                if rc is None:
                    if len(rest.t) > len(v.t):
                        continue
                    if len(rest.t) == len(v.t):
                        # transitivity: the other summand is a recorded form itself
                        rt, rs = self.canon(rest.t)
                        f = self.iv.get(rt)
                        if f is None:
                            continue
                        rlo, rhi = f if rs > 0 else ((None if f[1] is None else -f[1]), (None if f[0] is None else -f[0]))
                        l, h = (flo, fhi) if s > 0 else ((None if fhi is None else -fhi), (None if flo is None else -flo))
                        if l is not None and rlo is not None:
                            lo = l + rlo + rest.c if lo is None else max(lo, l + rlo + rest.c)
                        if h is not None and rhi is not None:
                            hi = h + rhi + rest.c if hi is None else min(hi, h + rhi + rest.c)
                        continue
                    rlo, rhi = rest.c, rest.c
                    for a, k in rest.t:
                        if a[0] == "b":
                            alo, ahi = 0, 1
                        else:
                            alo, ahi = self.iv.get(((a, 1),), (None, None))
                        if k < 0:
                            alo, ahi = (None if ahi is None else k * ahi), (None if alo is None else k * alo)
                        else:
                            alo, ahi = (None if alo is None else k * alo), (None if ahi is None else k * ahi)
                        rlo = None if rlo is None or alo is None else rlo + alo
                        rhi = None if rhi is None or ahi is None else rhi + ahi
                else:
                    rlo = rhi = rc
                l, h = (flo, fhi) if s > 0 else ((None if fhi is None else -fhi), (None if flo is None else -flo))
                if l is not None and rlo is not None:
                    lo = l + rlo if lo is None else max(lo, l + rlo)
                if h is not None and rhi is not None:
                    hi = h + rhi if hi is None else min(hi, h + rhi)
        return lo, hi

    # ---- refinement (return False when contradictory)
    def assume_bit(self, fs, k):
        """assume xor(fs) == k"""
        fs, c = self.nbit(fs)
        k ^= c
        if not fs:
            return k == 0
        prod = [n for n in fs if n[0] == "&"]
        if not prod:
            n = min(fs)
        elif len(fs) == 1:
            n = prod[0]
            if k == 1:
                p, q = ANDS[n]
                return self.assume_bit(p[0], p[1] ^ 1) and self.assume_bit(q[0], q[1] ^ 1)
        else:
            sup = support(prod)
            plain = [n for n in fs if n not in sup]
            n = min(plain) if plain else min(prod)
        self.bsub[n] = (fs - {n}, k)
        return True

    def assume_eq(self, v, n=0):
        """assume v == n"""
        v = self.norm(v)
        if isinstance(v, int):
            return v == n
        w = add(v, -n) if n else v
        if isinstance(w, int):
            return w == 0
        t, s = self.canon(w.t)
        val = -w.c * s      # t == val
        if val in self.ne.get(t, ()):
            return False
        f = self.iv.get(t)
        if f and ((f[0] is not None and val < f[0]) or (f[1] is not None and val > f[1])):
            return False
        if all(a[0] == "b" for a, _ in t):
            b = bits_of(Lin(0, t)) if all(k > 0 for _, k in t) else None
            if b is None:
                # shift negatives
                m = sum(k for _, k in t if k < 0)
                b = bits_of(Lin(-m, t))
                tgt = val - m
            else:
                tgt = val
            if b is not None:
                if tgt < 0 or tgt >> len(b):
                    return False
                for i, (fs, kk) in enumerate(b):
                    if not self.assume_bit(fs, kk ^ ((tgt >> i) & 1)):
                        return False
                return self.recheck()
            r = self._pair_bits(t, val)
            if r is not None:
                return r
            self.iv[t] = (val, val)
            lo, hi = self.interval(Lin(0, t))
            return True
        for a, k in t:
            if a[0] == "s" and abs(k) == 1:
                # a = (val - rest)/k
                rest = mk(0, {x: y for x, y in t if x != a})
                r = scale(add(val, rest, -1), k)
                lo, hi = self.interval(Lin(0, ((a, 1),)))
                self.ssub[a[1]] = r
                if lo is not None or hi is not None:
                    rr = self.norm(r)
                    if not self.assume_range(rr, lo, hi):
                        return False
                old_ne = self.ne.get(((a, 1),), ())
                for x in old_ne:
                    if isinstance(self.norm(r), int) and self.norm(r) == x:
                        return False
                return self.recheck()
        self.iv[t] = (val, val)
        return True

    def _pair_bits(self, t, val):
        """two bit vectors (and a constant) are equal: equate them bit by bit; None when the shape is another one"""
        pos, neg = {}, {}
        for a, k in t:
            d = pos if k > 0 else neg
            k = abs(k)
            if k & (k - 1) or k.bit_length() - 1 in d:
                return None
            d[k.bit_length() - 1] = (a[1], 0)
        d = neg if val >= 0 else pos
        for i in range(abs(val).bit_length()):
            if (abs(val) >> i) & 1:
                if i in d:
                    return None
                d[i] = (frozenset(), 1)
        z = (frozenset(), 0)
        for i in set(pos) | set(neg):
            p, q = pos.get(i, z), neg.get(i, z)
            if not self.assume_bit(p[0] ^ q[0], p[1] ^ q[1]):
                return False
        return self.recheck()

    def assume_range(self, v, lo, hi):
        v = self.norm(v)
        if isinstance(v, int):
            return (lo is None or v >= lo) and (hi is None or v <= hi)
        t, s = self.canon(v.t)
        nlo = None if lo is None else lo - v.c
        nhi = None if hi is None else hi - v.c
        if s < 0:
            nlo, nhi = (None if nhi is None else -nhi), (None if nlo is None else -nlo)
        clo, chi = self.interval(Lin(0, t))
        if nlo is None or (clo is not None and clo > nlo):
            nlo = clo
        if nhi is None or (chi is not None and chi < nhi):
            nhi = chi
        ne = self.ne.get(t, ())
        while nlo is not None and nlo in ne and (nhi is None or nlo <= nhi):
            nlo += 1
        while nhi is not None and nhi in ne and (nlo is None or nlo <= nhi):
            nhi -= 1
        if nlo is not None and nhi is not None:
            if nlo > nhi:
                return False
            if nlo == nhi:
                return self.assume_eq(Lin(0, t), nlo)
        self.iv[t] = (nlo, nhi)
        # single scaled atom
        if len(t) == 1 and t[0][1] != 1 and t[0][0][0] != "b":
            k = t[0][1]
            l2 = None if nlo is None else -((-nlo) // k)
            h2 = None if nhi is None else nhi // k
            return self.assume_range(Lin(0, ((t[0][0], 1),)), l2, h2)
        # two-symbol forms: propagate to single symbols
        if len(t) == 2 and all(a[0] == "s" and abs(k) == 1 for a, k in t):
            (a1, k1), (a2, k2) = t
            for (a, k), (b, kb) in (((a1, k1), (a2, k2)), ((a2, k2), (a1, k1))):
                blo, bhi = self.iv.get(((b, 1),), (None, None))
                # k*a = T - kb*b
                lo_b, hi_b = (blo, bhi) if kb > 0 else ((None if bhi is None else -bhi), (None if blo is None else -blo))
                lo_a = None if nlo is None or hi_b is None else nlo - hi_b
                hi_a = None if nhi is None or lo_b is None else nhi - lo_b
                if k < 0:
                    lo_a, hi_a = (None if hi_a is None else -hi_a), (None if lo_a is None else -lo_a)
                cur = self.iv.get(((a, 1),), (None, None))
                if (lo_a is not None and (cur[0] is None or lo_a > cur[0])) or \
                        (hi_a is not None and (cur[1] is None or hi_a < cur[1])):
                    if not self.assume_range(Lin(0, ((a, 1),)), lo_a, hi_a):
                        return False
        # bits: force high zero / low one bits
        if all(a[0] == "b" for a, _ in t):
            b = bits_of(Lin(0, t))
            known = len(self.bsub)
            if b is not None and nhi is not None:
                for i in range(len(b) - 1, -1, -1):
                    if (1 << i) > nhi:
                        if not self.assume_bit(b[i][0], b[i][1]):
                            return False
                    else:
                        break
                full = sum(1 << i for i, e in enumerate(b) if e[0] or e[1])
                # forced ones from the lower bound
                top = len(b) - 1
                rest_max = full
                if nlo is not None:
                    for i in range(top, -1, -1):
                        w = 1 << i
                        if not (full & w):
                            continue
                        if rest_max - w < nlo:
                            if not self.assume_bit(b[i][0], b[i][1] ^ 1):
                                return False
                        else:
                            break
            if len(self.bsub) != known:
                return self.recheck()
        return True

    def assume_ne(self, v, n=0):
        v = self.norm(v)
        if isinstance(v, int):
            return v != n
        t, s = self.canon(v.t)
        val = (n - v.c) * s
        self.ne.setdefault(t, set()).add(val)
        lo, hi = self.interval(Lin(0, t))
        if lo == val or hi == val:
            if not self.assume_range(Lin(0, t), lo, hi):
                return False
        if all(a[0] == "b" for a, _ in t):
            vals = self.values(Lin(0, t))
            if vals is not None:
                if not vals:
                    return False
                if len(vals) == 1:
                    return self.assume_eq(Lin(0, t), next(iter(vals)))
        return True

    def recheck(self):
        """re-normalise interval/ne facts after a substitution."""
        prods = [n for n in self.bsub if n[0] == "&"]
        again = True
        while again and prods:
            again = False
            for n in prods:
                p, q = ANDS[n]
                r = mkand(self.nbit(*p), self.nbit(*q))
                if n in r[0]:
                    continue
                w = self.nbit(*self.bsub[n])
                d = self.nbit(r[0] ^ w[0], r[1] ^ w[1])
                if not d[0]:
                    if d[1]:
                        return False
                    continue
                if not self.assume_bit(d[0], d[1]):
                    return False
                again = True
        for t, (lo, hi) in list(self.iv.items()):
            v = self.norm(Lin(0, t))
            if isinstance(v, int):
                if (lo is not None and v < lo) or (hi is not None and v > hi):
                    return False
            elif v.t != t or v.c:
                if self.iv.pop(t, None) is None:
                    continue
                if not self.assume_range(v, lo, hi):
                    return False
        for t, s in list(self.ne.items()):
            v = self.norm(Lin(0, t))
            if isinstance(v, int):
                if v in s:
                    return False
            elif v.t != t or v.c:
                if self.ne.pop(t, None) is None:
                    continue
                for x in s:
                    if not self.assume_ne(v, x):
                        return False
        return True

    def values(self, v, limit=8):
        """set of values a bit form may take (None if too many bits)."""
        v = self.norm(v)
        if isinstance(v, int):
            return {v}
        if any(a[0] != "b" for a, _ in v.t):
            return None
        # independent basis of the affine bits
        basis, exprs = [], []
        for a, k in v.t:
            exprs.append((a[1], k))
        names = sorted({n for fs, _ in exprs for n in fs})
        if len(names) > limit:
            b = bits_of(v)
            if b is None or sum(1 for e in b if e[0]) > limit:
                return None
            if any(len(e[0]) > 1 for e in b):
                return None
        # each distinct single bit free
        out = set()
        n = len(names)
        if n > limit:
            return None
        t, s = self.canon(v.t)
        f = self.iv.get(t)
        ne = self.ne.get(t, ())
        for m in range(1 << n):
            asg = {nm: (m >> i) & 1 for i, nm in enumerate(names)}
            x = 0
            for fs, k in exprs:
                bb = 0
                for nm in fs:
                    bb ^= asg[nm]
                x += k * bb
            y = x * s
            if f and ((f[0] is not None and y < f[0]) or (f[1] is not None and y > f[1])):
                continue
            if y in ne:
                continue
            out.add(x + v.c)
        return out
