"""Obligations, verdicts, evidence.

A rule module states obligations.  Each obligation is a thunk that builds
abstract inputs, drives the analysed source through the abstract interpreter
and compares abstract results.  The interpreter partitions the traces; the
obligation holds when every partition satisfies it.  A partition that does not
is refined to singleton inputs taken from its facts; only a violation that
persists at singletons is reported (an over-approximation never raises an
alarm, it makes the obligation undecided).
"""
import hashlib
import json
import mmap
import os
import pickle
import random
import struct
import sys
import tempfile
import time
import traceback

import absint
from absint import PyRaise, Infeasible, Cut, Unsupported, Obj, ClassVal, FuncVal, Outcome, cname
from dom import (Term, Lin, BitBool, Byt, Seg, SStr, Fmt, Facts, mkstr, byt, bparts, blen, add, scale, mk,
                 sym, opq, bit, byte, bits_of, from_bits)

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


class Bad(Exception):
    """the obligation is violated on this partition"""


class AnchorMissing(Exception):
    pass


class Shared:
    """the deadline, shared by the workers"""

    def __init__(self, deadline):
        self.m = mmap.mmap(-1, 8)
        self.m[0:8] = struct.pack("d", deadline)

    @property
    def deadline(self):
        return struct.unpack("d", self.m[0:8])[0]

    def shorten(self, t):
        self.m[0:8] = struct.pack("d", min(self.deadline, t))


class M(absint.Machine):
    """interpreter plus named abstract inputs."""

    def __init__(self, root, **k):
        super().__init__(root, **k)
        self.model = None
        self.inputs = {}
        self.choices = {}

    # ---------------------------------------------------------- inputs
    def in_int(self, name, lo=None, hi=None):
        self.inputs[name] = ("int", lo, hi)
        if self.model is not None:
            return self.model[name]
        v = sym(name)
        if not self.facts.assume_range(v, lo, hi):
            raise Infeasible()
        return self.facts.norm(v)

    def in_byte(self, name):
        self.inputs[name] = ("bits", 8)
        if self.model is not None:
            return self.model[name]
        return byte(name, 8)

    def in_bits(self, name, width):
        self.inputs[name] = ("bits", width)
        if self.model is not None:
            return self.model[name]
        return byte(name, width)

    def in_bool(self, name):
        self.inputs[name] = ("bool",)
        if self.model is not None:
            return bool(self.model[name])
        return BitBool(frozenset((name + ".0",)), 0)

    def in_fixed(self, name, n):
        """n free octets"""
        return byt([self.in_byte("%s%d" % (name, i)) for i in range(n)])

    def in_bytes(self, name, lo=0, hi=None):
        """an octet string of any length lo..hi"""
        self.inputs[name] = ("bytes", lo, hi)
        if self.model is not None:
            return self.model[name]
        n = sym("len " + name)
        if not self.facts.assume_range(n, lo, hi):
            raise Infeasible()
        n = self.facts.norm(n)
        if n == 0:
            return b""
        return byt([Seg(name, 0, n)])

    def in_choice(self, name, vals):
        self.inputs[name] = ("choice", len(vals))
        self.choices[name] = vals
        if self.model is not None:
            return vals[self.model[name]]
        i = self.choose(len(vals))
        self.picked[name] = i
        return vals[i]

    def reset(self, prefix):
        super().reset(prefix)
        self.picked = {}
        self.inputs = {}
        self.choices = {}

    # ---------------------------------------------------------- helpers for obligations
    def attempt(self, fn):
        """('ok', value) or ('raise', exception object)"""
        st, d, cur, ir = list(self.stack), self.depth, self.cur, self.inraise
        try:
            return "ok", fn()
        except PyRaise as e:
            self.stack, self.depth, self.cur, self.inraise = st, d, cur, ir
            return "raise", e.exc

    def exc_is(self, exc, *types):
        return any(self.subclass(exc.cls, t) for t in types)

    def eq(self, a, b):
        return self.truth(self.cmp("eq", a, b))

    def le(self, a, b):
        return self.truth(self.cmp("le", a, b))

    def lt(self, a, b):
        return self.truth(self.cmp("lt", a, b))

    def need(self, cond, msg):
        if not cond:
            raise Bad(msg)

    def need_eq(self, got, want, msg):
        if not self.eq(got, want):
            raise Bad("%s: got %s, expected %s" % (msg, self.show(got), self.show(want)))

    def show(self, v):
        v = self.facts.norm(v)
        if isinstance(v, Obj):
            try:
                if isinstance(v.cls, ClassVal):
                    if "_name_" in v.d:
                        return "%s.%s" % (v.cls.name, v.d["_name_"])
                    c = v.d.get("contents")
                    return "%s(%s)" % (v.cls.name, self.show(c) if c is not None else "")
                if v.cls in (list,):
                    return "[%s]" % ", ".join(self.show(x) for x in v.p)
                if v.cls is bytearray:
                    return "bytearray(%s)" % self.show(v.p)
            except Exception:
                pass
        if isinstance(v, bytes):
            return v.hex(" ") or "b''"
        return repr(v)

    def plain(self, v):
        v = self.facts.norm(v)
        return v if isinstance(v, str) else self.show(v)

    def clsname(self, exc):
        return cname(exc.cls)

    def excname(self, exc):
        return "%s(%s)" % (cname(exc.cls), self.excmsg(exc)[:80])

    def mod(self, name):
        name = self.PKG + ("." + name if name else "")
        f, pkg = self.modpath(name)
        if f is None:
            raise AnchorMissing("module %s" % name)
        return self.load(name)

    def anchor(self, mod, *path):
        m = self.mod(mod)
        v = m.d.get(path[0], absint.MISSING)
        if v is absint.MISSING:
            raise AnchorMissing("%s.%s" % (mod, path[0]))
        for p in path[1:]:
            try:
                v = self.getattr(v, p)
            except PyRaise:
                raise AnchorMissing("%s.%s" % (mod, ".".join(path)))
        if isinstance(v, Term) and v.op == "unknown":
            raise AnchorMissing("%s.%s (not analysable)" % (mod, ".".join(path)))
        return v

    def meth(self, o, name, *a, **k):
        return self.call(self.getattr(o, name), list(a), k)


# --------------------------------------------------------------------- concretisation
def models(I, facts, inputs, picked, rnd, count=24):
    """singleton elements of a partition (candidates; they are re-checked by the caller)."""
    bitnames = {}
    for n, k in inputs.items():
        if k[0] == "bits":
            for i in range(k[1]):
                bitnames["%s.%d" % (n, i)] = None
        elif k[0] == "bool":
            bitnames[n + ".0"] = None
    for t in list(facts.iv) + list(facts.ne):
        for a, _ in t:
            if a[0] == "b":
                for x in a[1]:
                    bitnames.setdefault(x, None)
    for n, (fs, k) in facts.bsub.items():
        bitnames.setdefault(n, None)
        for x in fs:
            bitnames.setdefault(x, None)
    for att in range(count):
        val = {}
        for n in bitnames:
            if n not in facts.bsub:
                val[n] = 0 if att == 0 else 1 if att == 1 else rnd.randrange(2)
        # try to satisfy interval facts over pure bit vectors
        for t, (lo, hi) in list(facts.iv.items()):
            if all(a[0] == "b" and len(a[1]) == 1 for a, _ in t) and all(k > 0 for _, k in t):
                names = {next(iter(a[1])): k for a, k in t}
                if any(n in facts.bsub for n in names):
                    continue
                tgt = rnd.choice([x for x in (lo, hi, lo if hi is None else rnd.randint(lo or 0, hi)) if x is not None] or [0])
                rest = tgt
                for n, k in sorted(names.items(), key=lambda x: -x[1]):
                    if rest >= k:
                        val[n] = 1
                        rest -= k
                    else:
                        val[n] = 0
        for n in bitnames:
            if n in facts.bsub:
                fs, k = facts.nbit(frozenset((n,)))
                for x in fs:
                    k ^= val.get(x, 0)
                val[n] = k
        syms = {}

        def symval(n, depth=0):
            if n in syms:
                return syms[n]
            if n in facts.ssub and depth < 20:
                r = evalin(facts.ssub[n], depth + 1)
            else:
                lo, hi = facts.iv.get(((("s", n), 1),), (None, None))
                ne = facts.ne.get(((("s", n), 1),), set())
                cands = []
                if lo is not None:
                    cands += [lo, lo + 1, lo + rnd.randrange(1, 50)]
                if hi is not None:
                    cands += [hi, hi - 1]
                if lo is None and hi is None:
                    cands += [0, 1, -1, rnd.randrange(-300, 300), rnd.randrange(1 << 33)]
                if lo is not None and hi is None:
                    cands += [lo + rnd.randrange(1 << 17)]
                if lo is None and hi is not None:
                    cands += [hi - rnd.randrange(1 << 17)]
                if lo is not None and hi is not None:
                    cands += [rnd.randint(lo, hi)]
                cands = [c for c in cands if c not in ne and (lo is None or c >= lo) and (hi is None or c <= hi)] or [0]
                r = cands[att] if att < len(cands) else rnd.choice(cands)
            syms[n] = r
            return r

        def evalin(v, depth=0):
            if isinstance(v, int):
                return int(v)
            r = v.c
            for a, k in v.t:
                if a[0] == "b":
                    b = 0
                    for x in a[1]:
                        b ^= val.get(x, 0)
                    r += k * b
                elif a[0] == "s":
                    r += k * symval(a[1], depth)
            return r
        model = {}
        for n, k in inputs.items():
            if k[0] == "bits":
                model[n] = sum(val.get("%s.%d" % (n, i), 0) << i for i in range(k[1]))
            elif k[0] == "bool":
                model[n] = val.get(n + ".0", 0)
            elif k[0] == "int":
                x = symval(n)
                if k[1] is not None:
                    x = max(x, k[1])
                if k[2] is not None:
                    x = min(x, k[2])
                model[n] = x
            elif k[0] == "choice":
                model[n] = picked.get(n, 0)
            elif k[0] == "bytes":
                ln = symval("len " + n)
                ln = max(ln, k[1] or 0)
                if k[2] is not None:
                    ln = min(ln, k[2])
                if ln > 1 << 20:
                    ln = 1 << 20
                buf = bytearray(rnd.randrange(256) if att > 1 else 0 for _ in range(min(ln, 4096)))
                buf += bytes(max(0, ln - len(buf)))
                pre = n + "["
                for bn, bv in val.items():
                    if bn.startswith(pre):
                        idx, _, b = bn[len(pre):].rpartition("].")
                        try:
                            i = int(idx)
                        except ValueError:
                            continue
                        if 0 <= i < ln:
                            b = int(b)
                            buf[i] = (buf[i] & ~(1 << b)) | (bv << b)
                model[n] = bytes(buf)
        yield model


def showmodel(m):
    out = []
    for k, v in m.items():
        if len(out) >= 12 and len(m) > 14:
            out.append("... (%d inputs)" % len(m))
            break
        if isinstance(v, bytes):
            v = v.hex() if len(v) <= 40 else "%s... (%d octets)" % (v[:40].hex(), len(v))
        out.append("%s=%s" % (k, v))
    return ", ".join(out)


class Ob:
    __slots__ = ("rule", "construct", "status", "detail", "where", "parts", "bounded", "witness", "sig", "wall", "trace")

    def __init__(self, rule, construct):
        self.rule, self.construct = rule, construct
        self.status, self.detail, self.where = "held", "", ""
        self.parts = 0
        self.bounded = False
        self.witness = None
        self.sig = ""
        self.wall = 0.0
        self.trace = None


class Check:
    """one property check."""

    def __init__(self, pid, tier="quick", seed=1, parallel=False):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.jobs = (int(os.environ.get("SA_JOBS") or 0) or len(os.sched_getaffinity(0))) if parallel else 1
        self.kids = {}
        self.missing = None
        self.I = M(os.path.join(REPO, "src"))
        self.obs = []
        self.t0 = time.time()
        self.notes = []
        self.assumptions = []
        self.debug = bool(os.environ.get("SA_DEBUG"))
        self.limits = Shared(self.t0 + (560 if tier == "quick" else 700))
        self.entered = set()
        self.loaded = set()
        self.ob_limit = 150 if tier == "quick" else 400
        self.known = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def mod(self, n):
        return self.I.mod(n)

    def anchor(self, *a):
        return self.I.anchor(*a)

    def program(self, src):
        """a client program written in the rule, analysed together with the package (a witness of how the package is used)"""
        I = self.I
        name = "client_program_%d" % (len(I.virtual) + 1)
        I.virtual = dict(I.virtual)
        I.virtual[name] = src
        n = len(I.diags)
        m = I.load(name)
        bad = [d for d in I.diags[n:] if d[0] == name]
        if bad:
            raise AnchorMissing("client program: line %d: %s" % (bad[0][1], bad[0][2]))
        return m

    def witness(self, src):
        """a client program whose functions state expectations with need/refused/attempt; run them with claim()"""
        I = self.I

        def need(I, a, k):
            if not I.truth(a[0]):
                raise Bad(I.plain(a[1]) if len(a) > 1 else "expectation fails")

        def same(I, a, k):
            if not I.eq(a[0], a[1]):
                raise Bad("%s: got %s, expected %s" % (I.plain(a[2]), I.show(a[0]), I.show(a[1])))

        def refused(I, a, k):
            st, e = I.attempt(lambda: I.call(a[0], list(a[1:]), k))
            return st == "raise"

        def refuse(I, a, k):
            st, e = I.attempt(lambda: I.call(a[1], list(a[2:]), k))
            if st != "raise":
                raise Bad("%s is accepted and gives %s" % (I.plain(a[0]), I.show(e)))

        def outcome(I, a, k):
            st, e = I.attempt(lambda: I.call(a[0], list(a[1:]), k))
            return ("raise", I.clsname(e)) if st == "raise" else ("ok", e)
        m = self.program(src)
        for n, f in (("need", need), ("same", same), ("refused", refused), ("refuse", refuse), ("outcome", outcome)):
            m.d[n] = absint.Nat(n, f)
        return m

    def claim(self, rule, construct, w, fn, inputs=None, where=None, **kw):
        """the witness function fn holds for every value of its inputs"""
        f = w.d[fn]

        def thunk(I):
            a = inputs(I) if inputs else []
            I.call(f, list(a) if isinstance(a, (list, tuple)) else [a], {})
        return self.obligation(rule, construct, thunk, where=where, **kw)

    # ------------------------------------------------------------ obligations
    def obligation(self, rule, construct, thunk, where=None, max_paths=None, sig=None):
        """thunk(I) raises Bad (or lets an analysed exception escape) on a violating partition."""
        ob = Ob(rule, construct)
        ob.sig = sig or ""
        self.obs.append(ob)
        if self.jobs < 2:
            return self.decide(ob, thunk, where, max_paths)
        self.reap(self.jobs - 1)
        out = tempfile.TemporaryFile()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()     # the worker decides on the state as it is now
        if pid == 0:
            try:
                anchor = None
                try:
                    self.decide(ob, thunk, where, max_paths)
                except AnchorMissing as e:
                    anchor = str(e)
                d = {k: getattr(ob, k) for k in Ob.__slots__}
                if d["witness"]:
                    d["witness"] = {k: v if isinstance(v, (int, str, bytes, bool, float)) else repr(v) for k, v in d["witness"].items()}
                for k in ("detail", "where", "sig", "trace"):
                    d[k] = None if d[k] is None else str(d[k])
                pickle.dump((d, set(self.I.entered), self.files(), anchor), out)
                out.flush()
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(0)
        self.kids[pid] = (ob, out)
        return ob

    def files(self):
        return {m.path for m in self.I.modules.values() if m.path}

    def reap(self, left):
        """wait until at most so many workers run"""
        while len(self.kids) > left:
            pid, _ = os.wait()
            if pid not in self.kids:
                continue
            ob, out = self.kids.pop(pid)
            out.seek(0)
            try:
                d, ent, mods, anchor = pickle.load(out)
            except (EOFError, pickle.UnpicklingError):
                ob.status, ob.detail = "undecided", "analyser: a worker ended"
                continue
            finally:
                out.close()
            for k, v in d.items():
                setattr(ob, k, v)
            self.entered |= ent
            self.loaded |= mods
            if anchor:
                ob.status, ob.detail = "undecided", "anchor not found: " + anchor
                self.missing = self.missing or anchor

    def decide(self, ob, thunk, where=None, max_paths=None):
        rule, construct = ob.rule, ob.construct
        rnd = random.Random("%d %s %s" % (self.seed, rule, construct))
        t = time.time()
        I = self.I
        I.model = None
        if max_paths is None:
            max_paths = 20000 if self.thorough else 4000
        bad = None
        undec = None
        nbad = 0
        limit = min(self.limits.deadline, t + self.ob_limit)
        if t > limit:
            ob.status, ob.detail, ob.where = "undecided", "time", self.locate(where)
            return ob
        I.deadline = limit
        gen = I.explore(self.wrap(thunk), max_paths)
        try:
            for o in gen:
                ob.parts += 1
                if time.time() > limit:
                    undec = "time"
                    gen.close()
                    break
                if o.kind == "ret" and o.value != "bad":
                    continue
                if o.kind == "cut":
                    ob.bounded = True
                    undec = undec or "bounded: " + str(o.reason)
                    continue
                if o.kind == "unknown":
                    undec = undec or o.reason
                    if self.debug:
                        print("   undecided:", construct, o.reason)
                    continue
                # bad or raise
                nbad += 1
                if bad is None and nbad <= 60:
                    what = self.describe(o)
                    I.deadline = max(limit, time.time() + 60)
                    cands = list(models(I, o.facts, dict(I.inputs), dict(I.picked), rnd)) if I.inputs else [{}]
                    bad = self.confirm(thunk, cands, gen, o)
                    I.deadline = limit
                    if bad is None:
                        undec = undec or "unconfirmed: " + what
                        if self.debug:
                            print("   unconfirmed:", construct, what)
                    else:
                        gen.close()
                        break
        except AnchorMissing:
            raise
        except Exception as e:      # an analyser failure is never a verdict
            undec = "analyser: %s: %s" % (type(e).__name__, e)
            ob.trace = traceback.format_exc()
            if self.debug:
                print('\n'.join(ob.trace.splitlines()[-8:]))
        I.model = None
        I.deadline = None
        I.reset([])
        ob.wall = time.time() - t
        if bad is not None:
            ob.status = "violated"
            ob.detail, ob.where, ob.witness = bad
            if not self.is_known(ob):
                # one violation decides the check: the rest gets a bounded share of time
                self.limits.shorten(time.time() + (60 if not self.thorough else 200))
        elif undec is not None:
            ob.status = "undecided"
            ob.detail = undec
        if not ob.where or ob.where.startswith("?"):
            ob.where = self.locate(where)
        if self.debug:
            print("%-10s %5d %.2fs %s / %s %s %s" % (ob.status, ob.parts, ob.wall, rule, construct, ob.detail, showmodel(ob.witness or {})))
        return ob

    def is_known(self, ob):
        key = "%s / %s" % (ob.rule, ob.construct)
        return any(kk == key and (not ksig or ksig in ob.detail) for kk, ksig in self.known)

    def wrap(self, thunk):
        def run(I):
            I.bad = None
            try:
                thunk(I)
            except Bad as e:
                I.bad = (str(e), I.cur)
                return "bad"
            return None
        return run

    def describe(self, o):
        if o.kind == "raise":
            return "raises %s" % self.I.excname(o.exc)
        return str(self.I.bad and self.I.bad[0])

    def verdict(self, o):
        """(message, where) when the outcome violates the obligation"""
        if o.kind == "raise":
            w = o.where or o.exc.d.get("__where__")
            return "unexpected %s" % self.I.excname(o.exc), w
        if o.kind == "ret" and o.value == "bad":
            return self.I.bad
        return None

    def confirm(self, thunk, cands, gen, o):
        I = self.I
        saved = (I.prefix, I.decisions, I.dpos)
        found = None
        for m in cands[:24]:
            I.model = m
            try:
                n = 0
                msgs = []
                good = False
                for o2 in I.explore(self.wrap(thunk), 64):
                    n += 1
                    v = self.verdict(o2)
                    if v is None:
                        good = True
                        break
                    msgs.append(v)
                    I.keep = dict(I.choices)
                if msgs and not good:
                    m = {k: (repr(I.keep[k][v])[:80] if k in I.keep else v) for k, v in m.items()}
                    found = (msgs[0][0], self.loc(msgs[0][1]), m)
                    break
            except (AnchorMissing, KeyError):
                pass
            finally:
                I.model = None
        return found

    def loc(self, w):
        if isinstance(w, tuple) and len(w) >= 2:
            f = str(w[0])
            if f.startswith(REPO + "/"):
                f = f[len(REPO) + 1:]
            return "%s:%s" % (f, w[1])
        return str(w) if w else ""

    def locate(self, v):
        if v is None:
            return ""
        if isinstance(v, str):
            return v
        n = getattr(v, "node", None)
        m = getattr(v, "module", None)
        p = getattr(m, "path", None)
        if p:
            return self.loc((p, getattr(n, "lineno", 0)))
        return ""

    def fact(self, rule, construct, ok, detail="", where="", sig=""):
        """a structural obligation already decided by a rule over the resolved program."""
        ob = Ob(rule, construct)
        ob.parts = 1
        ob.sig = sig
        if ok is None:
            ob.status = "undecided"
        elif not ok:
            ob.status = "violated"
        ob.detail, ob.where = (detail if not ok else ""), self.locate(where)
        self.obs.append(ob)
        if self.debug:
            print("%-10s fact %s / %s %s" % (ob.status, rule, construct, ob.detail))
        return ob

    # ------------------------------------------------------------ results
    def finish(self):
        self.reap(0)
        if self.missing and not any(o.status == "violated" for o in self.obs):
            raise AnchorMissing(self.missing)
        self.entered |= set(self.I.entered)
        self.loaded |= self.files()
        known = load_known(self.pid)
        nviol = 0
        out = []
        for ob in self.obs:
            if ob.status != "violated":
                continue
            key = "%s / %s" % (ob.rule, ob.construct)
            k = None
            for (kk, ksig) in known:
                if kk == key and (not ksig or ksig in ob.detail):
                    k = kk
            if k:
                ob.status = "known"
                out.append("KNOWN-FINDING: property=%s %s: %s" % (self.pid, key, ob.detail))
                continue
            nviol += 1
        held = sum(o.status == "held" for o in self.obs)
        undec = [o for o in self.obs if o.status == "undecided"]
        decided = len(self.obs) - len(undec)
        I = self.I
        print("property %s tier %s: %d obligations, %d held, %d violated, %d known, %d undecided; %d trace partitions; "
              "%d functions analysed; %.1fs" % (
                  self.pid, self.tier, len(self.obs), held, nviol, sum(o.status == "known" for o in self.obs), len(undec),
                  sum(o.parts for o in self.obs), len(self.entered), time.time() - self.t0))
        for l in out:
            print(l)
        for o in undec:
            print("UNDECIDED %s / %s: %s" % (o.rule, o.construct, o.detail))
        rdir = os.path.join(EVID, "replay")
        i = 0
        for ob in self.obs:
            if ob.status != "violated":
                continue
            i += 1
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            w = {k: (v.hex() if isinstance(v, bytes) else v) for k, v in (ob.witness or {}).items()}
            with open(p, "w") as f:
                json.dump({"property": self.pid, "rule": ob.rule, "construct": ob.construct, "where": ob.where,
                           "detail": ob.detail, "singleton_input": w}, f, indent=1, default=str)
            print("violated: %s / %s at %s: %s%s" % (ob.rule, ob.construct, ob.where, ob.detail,
                                                     "  [" + showmodel(ob.witness) + "]" if ob.witness else ""))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        self.write(nviol, held, undec)
        if nviol:
            return 1
        base = load_baseline().get(self.pid)
        if base is not None and decided < base * 0.5:
            print("analysis broken: %d obligations decided, %d expected" % (decided, base))
            return 2
        if decided == 0:
            print("analysis broken: nothing decided")
            return 2
        return 0

    def write(self, nviol, held, undec):
        import spec
        I = self.I
        s = spec.SPEC[self.pid]
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o.rule, {"obligations": 0, "held": 0, "undecided": 0, "known": 0, "violated": 0, "partitions": 0})
            r["obligations"] += 1
            r[o.status] += 1
            r["partitions"] += o.parts
        mods = sorted(self.loaded)
        dig = hashlib.sha256()
        for p in mods:
            with open(p, "rb") as f:
                dig.update(f.read())
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": s["level"],
            "coverage": {
                "explanation": s["explain"],
                "obligations": len(self.obs), "discharged": held,
                "undecided": [{"rule": o.rule, "construct": o.construct, "why": o.detail} for o in undec][:60],
                "bounded": sum(o.bounded for o in self.obs),
                "known_findings": [{"rule": o.rule, "construct": o.construct, "what": o.detail} for o in self.obs if o.status == "known"],
                "violated": [{"rule": o.rule, "construct": o.construct, "where": o.where, "what": o.detail} for o in self.obs if o.status == "violated"],
                "rules": rules,
                "partitions": sum(o.parts for o in self.obs),
                "functions_analysed": sorted("%s:%s" % (self.loc((f[1], f[2])), f[0]) for f in self.entered)[:1500],
                "functions_analysed_count": len(self.entered),
                "modules_loaded": len(mods), "source_digest": dig.hexdigest(),
                "samples": ["%s / %s: %s" % (o.rule, o.construct, o.status) for o in self.obs[:40]],
                "checker_cmd": "python3 sa/check.py %s" % self.pid,
                "trusted_base": ["sa/absint.py transfer functions", "sa/dom.py domains", "sa/rules_*.py oracles"],
            },
            "assumptions": s.get("assume", []) + self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": nviol,
        }
        d = EVID
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def load_known(pid):
    """lines 'known: property=<id> <rule> / <construct> :: <text that the report must contain> :: why'"""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                parts = rest.split(" :: ")
                out.append((parts[0].strip(), parts[1].strip() if len(parts) > 1 else ""))
    return out


def load_baseline():
    p = os.path.join(HERE, "baseline.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {}
