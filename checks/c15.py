"""Dark reference and gain, present or absent.  The analysis starts at the public dispatch
functions (electron counting for every block iterator and both threaded readers, every
overload of calculateThresholds) and follows all their dispatch branches into the variants.
(1) Every statement that reads through the dark or gain pointer must be guarded, on its
path from the entry, by a condition that excludes the null pointer.  (2) For each of the
four combinations of present and absent arrays, with and without row-dark correction, the
closed form of the frame that reaches the peak search, and of the samples the thresholds
are estimated from, is compared with the prescribed one, so a supplied array that is
ignored or an absent one that is used changes the form."""
import random
from fractions import Fraction as F
from cxx import *
import c14
from c14 import spec, cases, inb, inputs_at_search, RULE

ASSUMPTIONS = c14.ASSUMPTIONS + ["the threaded readers deliver blocks unchanged; the delivery itself is covered by C10"]
READS = {"stempy::SectorStreamReader::read", "stempy::StreamReader::read", "stempy::PyReader::read",
         "stempy::SectorStreamThreadedReader::readAll", "stempy::SectorStreamMultiPassThreadedReader::readAll"}
NULLRULE = "an absent dark or gain array is never read"
USE = "the frame searched uses exactly the arrays supplied"
SAMP = "the threshold samples use exactly the arrays supplied"


def check(ctx):
    jobs = []
    n = 0
    for f in functions(ctx, "stempy::electronCount"):
        P = [f["_tu"].ty(p["t"])["s"] for p in f["params"]]
        tail = f["key"].split("|")[0]
        ret = f["key"].split("|")[1].split("(")[0]
        if "PyArray" in ret:
            continue
        if len(P) == 3 and "Options" in P[2] and tail.count(",") == 0:
            jobs.append(lambda c, f=f: one(c, f, 2))
        elif len(P) == 2 and "Options" in P[1] and tail.count(",") == 0:
            jobs.append(lambda c, f=f: one(c, f, 1))
    ctx.require(jobs, "no electron counting entry point found")
    for f in functions(ctx, "stempy::calculateThresholds"):
        if f["key"].split("|")[0].count(",") == 0:
            jobs.append(lambda c, f=f: thresholds(c, f))
    ctx.parallel(jobs)


def is_array(p, which):
    """deref'ed content of the dark / gain array"""
    fs = fields(p)
    return fs[-1:] == ["@"] and which in fs


class Names:
    def __init__(self, f, env):
        self.__dict__.update(env)
        self.memo = {}
        self.f = f

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        v = self.find(t)
        if v is not None:
            self.memo[t] = v
        return v

    def find(self, t):
        if t.op == "k":
            return 0
        if t.op in ("rnd",):
            return 0
        if t.op == "proj" and t.args[1] == ".":
            n = t.args[2]
            b = self.scalar(n)
            if b is not None:
                return b
        p = pathof(t)
        if p is None:
            return None
        fs = fields(p)
        if not fs:
            return None
        last = fs[-1]
        if last == "@":
            if "darkReference" in fs:
                return lambda i: inb(self.D if self.D is not None else [10 ** 7] * self.N, i)
            if "gain" in fs:
                return lambda i: inb(self.G if self.G is not None else [10 ** 7] * self.N, i)
            if "data" in fs:
                return lambda i: inb(self.raw, i)
            return None
        if last == "darkReference":
            return 1 if self.D is not None else NULLV
        if last == "gain":
            return 1 if self.G is not None else NULLV
        if fs[-2:] == ["frameDimensions", "first"]:
            return self.W
        if fs[-2:] == ["frameDimensions", "second"]:
            return self.H
        if last == "applyRowDarkSubtraction":
            return self.rowdark
        if last == "applyRowDarkUseMean":
            return self.use_mean
        return self.scalar(last)

    def scalar(self, n):
        return {"backgroundThreshold": self.lo, "xRayThreshold": self.hi, "optimizedMean": self.om}.get(n)


def null_reads(ctx, E, at, opt):
    """reads through a pointer option that may be null"""
    bad = False
    n = 0
    for e in E.events:
        if e.kind not in ("read", "index", "write") or e.loc is None or not isinstance(e.loc, type(ZERO)):
            continue
        r = rootof(e.loc)
        if r.op != "deref":
            continue
        p = pathof(r.args[0])
        if p is None or p[0] != opt or fields(p)[-1:] not in (["darkReference"], ["gain"]):
            continue
        ptr = r.args[0]
        n += 1

        def atom(t):
            return NULLV if t is ptr else None
        ok = False
        for l in e.pc:
            try:
                if not NumEval(atom, E).ev(l):
                    ok = True
                    break
            except Undecided:
                pass
        if not ok:
            bad = True
            ctx.bad(NULLRULE, e.at, "%s is read on a path from %s whose conditions do not exclude that the array is absent (%s)" % (
                fields(p)[-1], at, "; ".join(str(l)[:80] for l in e.pc[:4])))
            break
    ctx.count("reads through optional arrays", n)
    if not bad:
        ctx.ok(NULLRULE, at, "%d reads are guarded" % n)


def one(ctx, f, iopt):
    at = where(f)
    E = analyse(ctx, f, opaque=READS)
    if E is None:
        return
    opt = ("p", f["params"][iopt]["n"])
    null_reads(ctx, E, at, opt)
    site = inputs_at_search(ctx, E, at)
    if not site:
        ctx.und(USE, at, "no call of the peak search recognised")
        return
    rng = random.Random(ctx.seed)
    total = 0
    for hasd in (False, True):
        for hasg in (False, True):
            for rowdark, um in ((False, True), (True, True), (True, False)):
                for W, H, raw, D, G, lo, hi, om in cases(rng, not hasg, hasd, hasg, rowdark, um, n=3):
                    want = spec(raw, W, H, D, G, lo, hi, rowdark, om, um, not hasg)
                    names = Names(f, dict(W=W, H=H, N=W * H, raw=raw, D=D, G=G, lo=lo, hi=hi, om=om, rowdark=rowdark, use_mean=um))
                    reached = 0
                    for e, content, n_ in site:
                        if content is None:
                            continue
                        ne = NumEval(names, E)
                        for l in loops_of(e):
                            ne.bound[l.k] = 0
                        if not reachable(ne, e):
                            continue
                        reached += 1
                        try:
                            got = [ne.sel(content, i) for i in range(W * H)]
                        except Undecided as x:
                            ctx.und(USE, at, "not summarised: %s" % str(x)[:300])
                            return
                        except IndexError as x:
                            ctx.bad(USE, "%s, %s" % (at, e.at), "element %s outside the frame is used" % x)
                            return
                        for i in range(W * H):
                            if got[i] != want[i] and abs(float(got[i]) - float(want[i])) > 1e-9:
                                ctx.bad(USE, "%s, %s" % (at, e.at),
                                        "dark %s, gain %s, row-dark %s: pixel %d is searched as %s instead of %s" % (
                                            "supplied" if hasd else "absent", "supplied" if hasg else "absent",
                                            ("mean" if um else "median") if rowdark else "off", i, float(got[i]), float(want[i])))
                                return
                        total += W * H
                    if not reached:
                        ctx.und(USE, at, "no variant reached for dark=%s gain=%s" % (hasd, hasg))
                        return
    ctx.count("pixel values compared", total)
    ctx.ok(USE, at, "%d pixel values agree" % total)
    samples(ctx, E, f, at, None)


def reachable(ne, e):
    for l in e.pc:
        try:
            if not ne.ev(l):
                return False
        except Undecided:
            pass
        except IndexError:
            pass
    return True


def samples(ctx, E, f, at, fixed):
    """values stored into the sample array of the threshold estimation"""
    ws = []
    for e in E.events:
        if e.kind == "write" and e.thread == 0 and isinstance(e.val, type(ZERO)) and \
                any(s.endswith("::calculateThresholds") for s in e.stack) and len(loops_of(e)) >= 2 and \
                e.loc.op == "loc" and e.loc.args[1] == "[]":
            if any(pathof(a) and fields(pathof(a))[-1:] == ["@"] and "data" in fields(pathof(a)) for a in atoms_of(e.val)):
                ws.append(e)
    if not ws:
        if not fixed:
            ctx.und(SAMP, at, "samples not recognised")
        return
    rng = random.Random(ctx.seed)
    total = 0
    combos = [fixed] if fixed else [(a, b) for a in (False, True) for b in (False, True)]
    for hasd, hasg in combos:
        W, H = 3, 2
        N = W * H
        D = [rng.randint(0, 9) for _ in range(N)] if hasd else None
        G = [F(rng.randint(1, 9), 4) for _ in range(N)] if hasg else None
        raw = [rng.randint(20, 90) for _ in range(N)]
        names = Names(f, dict(W=W, H=H, N=N, raw=raw, D=D, G=G, lo=0, hi=0, om=1, rowdark=False, use_mean=False))
        if fixed is not None:
            names = overload_names(f, names)
        reached = 0
        for e in ws:
            ls = loops_of(e)
            for j in range(N):
                ne = NumEval(names, E)
                for l in ls[:-1]:
                    ne.bound[l.k] = 0
                ne.bound[ls[-1].k] = j
                if not reachable(ne, e):
                    continue
                reached += 1
                if any(y.op == "deref" and y.args[0] is NULL for y in subterms(e.val)) and through_null(ne, e.val):
                    ctx.bad(SAMP, "%s, %s" % (at, e.at), "dark %s, gain %s: a sample is computed through a null pointer" % (
                        "supplied" if hasd else "absent", "supplied" if hasg else "absent"))
                    return
                try:
                    v = ne.ev(e.val)
                    cell = ne.ev(e.loc.args[2])
                except Undecided as x:
                    ctx.und(SAMP, at, "not summarised: %s" % str(x)[:300])
                    return
                except IndexError as x:
                    ctx.bad(SAMP, "%s, %s" % (at, e.at), "element %s outside the frame is used" % x)
                    return
                x = raw[cell] - (D[cell] if hasd else 0)
                y = x * (G[cell] if hasg else 1)
                if v != y and v != int(y):
                    ctx.bad(SAMP, "%s, %s" % (at, e.at), "dark %s, gain %s: the sample of pixel %d is %s instead of %s" % (
                        "supplied" if hasd else "absent", "supplied" if hasg else "absent", cell, float(v), float(y)))
                    return
                total += 1
        if not reached:
            ctx.und(SAMP, at, "samples not reached")
            return
    ctx.count("sample values compared", total)
    ctx.ok(SAMP, at, "%d samples agree" % total)


def through_null(ne, t):
    """the part of the value that applies reads through a null pointer"""
    if t.op == "ite":
        try:
            c = ne.ev(t.args[0])
        except Undecided:
            return False
        return through_null(ne, t.args[1 if c else 2])
    return any(y.op == "deref" and y.args[0] is NULL for y in subterms(t)) and not any(y.op == "ite" for y in subterms(t))


def overload_names(f, names):
    """dark/gain of a calculateThresholds overload, by parameter position and type"""
    P = f["params"]
    T = [f["_tu"].ty(p["t"])["s"] for p in P]
    dark = P[1]["n"] if arr(T[1]) else None
    gain = P[-1]["n"] if len(P) > 2 and arr(T[-1]) else None
    base = names.find

    def find(t):
        if t.op == "k":
            return 0
        p = pathof(t)
        if p is not None and p[0][0] == "p":
            fs = fields(p)
            for nm, a in ((dark, names.D), (gain, names.G)):
                if nm is not None and p[0][1] == nm:
                    if fs[-1:] == ["@"]:
                        return lambda i: inb(a, i)
                    return 1
        return base(t)
    names.find = find
    return names


def arr(s):
    return "array_t<float" in s or "Image<float>" in s or ("float" in s and "*" in s)


def thresholds(ctx, f):
    at = where(f)
    P = f["params"]
    T = [f["_tu"].ty(p["t"])["s"] for p in P]
    E = analyse(ctx, f)
    if E is None:
        return
    samples(ctx, E, f, at, (arr(T[1]), len(P) > 2 and arr(T[-1])))
