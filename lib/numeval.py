"""Evaluate a closed form (value term) under an assignment of its atoms.

Used to decide whether the closed form the analysis derived for a value and the closed
form a property prescribes denote the same function, when their normal forms differ:
two forms that disagree under an assignment are different (identity testing).  The
program itself is never executed; a form with a part the analysis could not summarise
is reported as undecided.
"""
import math
from fractions import Fraction
from terms import *


class Undecided(Exception):
    pass


class _Null:
    """the null pointer"""
    def __bool__(self):
        return False

    def __repr__(self):
        return "nullptr"


NULLV = _Null()
INTS = (int, Fraction)


class NumEval:
    def __init__(self, atom, E=None):
        """atom(term) -> value, or None if unknown; E: engine holding loop recurrences"""
        self.atom = atom
        self.E = E
        self.version = 0
        self.loops = {}
        self.memo = {}
        self.bound = {}
        self.steps = 0
        if E is None:
            self.frees = {}
        else:
            if not hasattr(E, "frees"):
                E.frees = {}
            self.frees = E.frees

    def ev(self, t):
        op = t.op
        a = t.args
        if op == "n":
            return a[0]
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t is NULL:
            return NULLV
        if t in self.bound:
            return self.bound[t]
        fr = self.free(t)
        b = self.bound
        mkey = (t, self.version) if fr is None else (t,) + tuple([b.get(x) for x in fr])
        if mkey in self.memo:
            return self.memo[mkey]
        self.steps += 1
        if self.steps > 3000000:
            raise Undecided("too large")
        v = self.ev1(t, op, a)
        self.memo[mkey] = v
        return v

    # ---- iteration symbols a term depends on (None: evaluation has side effects)
    def free(self, t):
        r = self.frees.get(t, 0)
        if r == 0:
            r = self.free1(t, ())
            if r is not None:
                r = tuple(r)
            self.frees[t] = r
        return r

    def free1(self, t, busy):
        op, a = t.op, t.args
        if op in ("k", "ph"):
            return {t}
        if op == "exists" or op == "brk":
            return None
        if op in ("phiend", "trip"):
            own = self.freerec(a[0], busy)
            return None if own is None else own | {t}
        out = {t} if op == "phi" else set()
        for x in a:
            for y in (x if isinstance(x, tuple) else (x,)):
                for z in (y if isinstance(y, tuple) else (y,)):
                    for w in (z if isinstance(z, tuple) else (z,)):
                        if isinstance(w, type(ZERO)):
                            r = self.frees.get(w, 0)
                            if r == 0 and w not in busy:
                                r = self.free1(w, busy)
                                if not busy:
                                    self.frees[w] = None if r is None else tuple(r)
                            if r is None:
                                return None
                            if r:
                                out.update(r)
        if op == "upd":
            b = self.free1(a[4], busy)
            if b is not None and a[3] in b:
                out = set()
                for x in a[:3]:
                    r = self.free1(x, busy)
                    out |= r
                out |= b - {a[3]}
        elif op == "lam":
            out.discard(a[0])
        return out

    def freerec(self, uid, busy):
        rec = self.E.rec.get(uid) if self.E is not None else None
        if rec is None or uid in busy:
            return set()
        key = ("rec", uid)
        if key in self.frees:
            return self.frees[key]
        b2 = busy + (uid,)
        out = set()
        terms = [rec["guard"]] + list(rec["brk"]) + list(rec["rets"])
        for p, (i0, e) in rec["eqs"].items():
            terms.append(i0)
            if e is not None:
                terms.append(e)
        for x in terms:
            r = self.free1(x, b2) if isinstance(x, type(ZERO)) else set()
            if r is None:
                out = None
                break
            out |= r
        if out is not None:
            out -= set(rec["eqs"]) | {rec["K"]}
        if not busy:
            self.frees[key] = out
        return out

    def ev1(self, t, op, a):
        if op == "poly":
            s = 0
            for m, c in a[0]:
                x = c
                for y in m:
                    v = self.ev(y)
                    if isinstance(v, bool):
                        v = int(v)
                    x = x * v
                s = s + x
            return s
        if op == "idiv":
            x, y = self.ev(a[0]), self.ev(a[1])
            if y == 0:
                raise Undecided("division by zero")
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y >= 0) else -q
        if op == "mod":
            x, y = self.ev(a[0]), self.ev(a[1])
            if y == 0:
                raise Undecided("division by zero")
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y >= 0) else -q
            return x - q * y
        if op == "inv":
            x = self.ev(a[0])
            if x == 0:
                raise Undecided("division by zero")
            return Fraction(1) / Fraction(x)
        if op in ("gt0", "fgt0"):
            return self.ev(a[0]) > 0
        if op == "flt0":
            return self.ev(a[0]) < 0
        if op in ("eq0",):
            v = self.ev(a[0])
            if v is NULLV:
                return True
            return v == 0
        if op == "eq":
            return self.ev(a[0]) == self.ev(a[1])
        if op == "bool":
            x = self.ev(a[0])
            return x is not NULLV and x != 0
        if op in ("bit&", "bit|", "bit^", "bit<<", "bit>>"):
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, bool):
                x = int(x)
            if isinstance(y, bool):
                y = int(y)
            if not (isinstance(x, INTS) and isinstance(y, INTS)) or x != int(x) or y != int(y):
                raise Undecided("bit operation on " + str(t))
            x, y = int(x), int(y)
            if op == "bit&":
                return x & y
            if op == "bit|":
                return x | y
            if op == "bit^":
                return x ^ y
            return x << y if op == "bit<<" else x >> y
        if op == "not":
            return not self.ev(a[0])
        if op == "and":
            return self.conj(a, False)
        if op == "or":
            return self.conj(a, True)
        if op in ("ite", "iteb"):
            return self.ev(a[1] if self.ev(a[0]) else a[2])
        if op == "sel":
            return self.sel(a[0], self.ev(a[1]))
        if op == "fn1":
            return self.fn1(a[0], self.ev(a[1]))
        if op == "argext":
            lo, hi = self.pidx(a[2]), self.pidx(a[3])
            best = None
            for j in range(int(lo), int(hi)):
                v = self.sel(a[1], j)
                if best is None or (v > best[0] if a[0].endswith("max_element") else v < best[0]):
                    best = (v, j)
            return best[1] if best else hi
        if op in ("Sum", "Max", "Min"):
            return self.reduce(t, op, a)
        if op == "exists":
            return self.exists(a)
        if op in ("phiend", "trip", "brk"):
            v = self.atom(t)
            if v is not None:
                return v
            r = self.runloop(a[0])
            if op == "trip":
                return r["n"]
            if op == "brk":
                return r["brk"]
            p = mk("phi", a[0], a[1])
            if p not in r["end"]:
                raise Undecided(str(t))
            v = r["end"][p]
            if callable(v):
                raise Undecided("array value")
            return v
        v = self.atom(t)
        if v is None:
            raise Undecided(str(t))
        return v

    def conj(self, a, stop):
        und = None
        for x in a:
            try:
                if bool(self.ev(x)) == stop:
                    return stop
            except Undecided as e:
                und = e
        if und:
            raise und
        return not stop

    def fn1(self, n, x):
        if n == "sqrt":
            if isinstance(x, (int, Fraction)) and x >= 0:
                x = Fraction(x)
                p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if p * p == x.numerator and q * q == x.denominator:
                    return Fraction(p, q)
            return math.sqrt(x)
        if n == "ceil":
            return math.ceil(x)
        if n == "floor":
            return math.floor(x)
        if n == "trunc":
            return math.trunc(x)
        if n == "round":
            return math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)
        if n in ("abs", "fabs"):
            return abs(x)
        raise Undecided("function " + str(n))

    def reduce(self, t, op, a):
        if op == "Sum":
            init, lam, n = 0, a[0], self.ev(a[1])
        else:
            init, lam, n = self.ev(a[0]), a[1], self.ev(a[2])
        if n > 5000:
            raise Undecided("long reduction")
        ph = lam.args[0]
        save, sv = dict(self.bound), self.version
        r = init
        try:
            for i in range(int(n)):
                self.version = self.fresh_version()
                self.bound[ph] = i
                v = self.ev(lam.args[1])
                if isinstance(v, bool):
                    v = int(v)
                if op == "Sum":
                    r = r + v
                elif op == "Max":
                    r = max(r, v)
                else:
                    r = min(r, v)
        finally:
            self.bound, self.version = save, sv
        return r

    def exists(self, a):
        r = self.runloop(a[0].args[0], a[1])
        return r["hit"]

    def runloop(self, uid, until=None):
        """iterate the recurrence equations of a summarised loop"""
        rec = self.E.rec.get(uid) if self.E is not None else None
        if rec is None:
            raise Undecided("loop %s" % uid)
        own = self.freerec(uid, ())
        fu = () if until is None else self.free(until)
        if own is None or fu is None:
            key = (uid, until, self.version)
        else:
            key = (uid, until) + tuple([self.bound.get(x) for x in own if x not in fu] + [
                self.bound.get(x) for x in fu if x not in rec["eqs"] and x is not rec["K"]])
        r = self.loops.get(key)
        if r is not None:
            if "at" in r:
                self.bound = dict(self.bound)
                self.bound.update(r["at"])
            return r
        save, sv = self.bound, self.version
        self.bound = dict(save)
        eqs = {p: e for p, e in rec["eqs"].items()}
        try:
            cur = {}
            for p, (i0, e) in eqs.items():
                cur[p] = self.hold(p, i0)
            n = 0
            brk = hit = False
            while True:
                if n > 4000:
                    raise Undecided("long loop")
                self.version = self.fresh_version()
                self.bound.update({p: v for p, v in cur.items() if v is not None})
                for p, v in cur.items():
                    if v is None:
                        self.bound.pop(p, None)
                self.bound[rec["K"]] = n
                if not self.ev(rec["guard"]):
                    break
                if until is not None and self.ev(until):
                    hit = True
                    break
                if any(self.ev(b) for b in rec["brk"]):
                    brk = True
                    break
                if until is None and any(self.ev(b) for b in rec["rets"]):
                    raise Undecided("loop left by return")
                nxt = {}
                for p, (i0, e) in eqs.items():
                    nxt[p] = self.hold(p, e) if e is not None else None
                cur = nxt
                n += 1
            at = dict(self.bound)
        finally:
            self.bound, self.version = save, sv
        r = dict(n=n, brk=brk, hit=hit, end=cur)
        if brk or hit:
            # values of the iteration in which the loop was left
            r["at"] = {x: v for x, v in at.items() if x not in save}
            self.bound = dict(self.bound)
            self.bound.update(r["at"])
        self.loops[key] = r
        return r

    def fresh_version(self):
        NumEval.vcount += 1
        return NumEval.vcount

    vcount = 0

    def hold(self, p, e):
        """value of a recurrence variable (arrays become lookup functions)"""
        key = p.args[1]
        isarr = key.op == "loc" and key.args[1] == "@"
        if isarr:
            bound, ver = dict(self.bound), self.version
            memo = {}

            def f(i):
                if i in memo:
                    return memo[i]
                s, v = self.bound, self.version
                self.bound, self.version = bound, ver
                try:
                    r = self.sel(e, i)
                finally:
                    self.bound, self.version = s, v
                memo[i] = r
                return r
            return f
        try:
            return self.ev(e)
        except Undecided:
            return None

    def sel(self, arr, i):
        op = arr.op
        a = arr.args
        if arr in self.bound:
            return self.bound[arr](i)
        if op == "store":
            if self.ev(a[1]) == i:
                return self.ev(a[2])
            return self.sel(a[0], i)
        if op == "upd":
            lo, hi = self.ev(a[1]), self.ev(a[2])
            if lo <= i < hi:
                save = dict(self.bound)
                self.bound[a[3]] = i
                sv, self.version = self.version, self.fresh_version()
                try:
                    return self.ev(a[4])
                finally:
                    self.bound, self.version = save, sv
            return self.sel(a[0], i)
        if op == "fill":
            return self.ev(a[0])
        if op == "shift":
            return self.sel(a[0], i + self.ev(a[1]))
        if op == "lam":
            save = dict(self.bound)
            self.bound[a[0]] = i
            sv, self.version = self.version, self.fresh_version()
            try:
                return self.ev(a[1])
            finally:
                self.bound, self.version = save, sv
        if op == "ite":
            return self.sel(a[1] if self.ev(a[0]) else a[2], i)
        if op == "phiend":
            f = self.atom(arr)
            if f is None:
                p = mk("phi", a[0], a[1])
                f = self.runloop(a[0])["end"].get(p)
            if not callable(f):
                raise Undecided(str(arr))
            return f(i)
        if op == "perm":
            return self.perm(a, i)
        f = self.atom(arr)
        if f is None:
            raise Undecided(str(arr))
        return f(i)

    def pidx(self, p):
        if p.op == "ptr":
            return self.ev(p.args[1]) if p.args[1] != "obj" else 0
        raise Undecided("iterator " + str(p))

    def perm(self, a, i):
        """element i after nth_element/sort over a range"""
        name, c, rest = a[0], a[1], a[2:]
        if name in ("std::nth_element", "std::sort", "std::partial_sort"):
            lo, hi = self.pidx(rest[0]), self.pidx(rest[-1] if name != "std::sort" else rest[1])
            if not (lo <= i < hi):
                return self.sel(c, i)
            vals = sorted(self.sel(c, j) for j in range(int(lo), int(hi)))
            if name == "std::nth_element":
                n = self.pidx(rest[1])
                if i == n:
                    return vals[int(n - lo)]
                # a legal permutation: fully sorted
            return vals[int(i - lo)]
        raise Undecided(str(name))
