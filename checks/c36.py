"""Histogram of the sampled pixel values.  For every overload and instantiation of
calculateThresholds the analysis derives, for each access to an array the function
allocates (samples, histogram, bin positions), the index and the array's size as closed
forms of the sample values, together with the condition of the path that leads there.
The index has to lie inside the array whenever the path is taken, and every requested
size has to be non-negative.  An access is proved when its path condition entails both
bounds; otherwise the closed forms are evaluated over families of sample values (wide,
narrow, constant, with outliers on either side, negative after dark subtraction) and
sigma factors, and an assignment that takes the path with an index outside the array is
a violation."""
import random
import time
from fractions import Fraction as F
from cxx import *
import c15

ASSUMPTIONS = ["the random block and frame numbers lie in the requested ranges; conversions from floating point to int do not overflow"]
RULE = "index inside the array on every path"
SIZE = "requested number of elements is not negative"


def check(ctx):
    fs = functions(ctx, "stempy::calculateThresholds")
    ctx.parallel([lambda c, f=f: one(c, f) for f in fs])


def local(loc):
    r = rootof(loc)
    return r.op == "root" and r.args[0] not in ("p", "this", "global", "static")


def one(ctx, f):
    at = where(f)
    E = analyse(ctx, f)
    if E is None:
        return
    fam = list(family(random.Random(ctx.seed)))
    if "unsigned short" in f["key"].split("|")[1].split("(")[0]:
        # integral samples: values that stay non-negative after the dark correction
        fam = [v for v in fam if all(int(d) <= r for r, d in zip(v["raw"], v["D"]))]
    done = {}
    for e in E.events:
        if e.kind == "index" and isinstance(e.loc, type(ZERO)) and local(e.loc) and e.loc.op == "loc" and e.loc.args[1] == "[]":
            base = e.loc.args[0]
            size = e.x.get("size")
            if size is None:
                size = E.size(base) if e.x.get("how") in ("raw", "iter") and known(E, base) else None
            if size is None:
                continue
            key = (e.at, e.loc, size)
            if key in done:
                continue
            done[key] = 1
            ctx.count("array accesses examined")
            idx = e.loc.args[2]
            bounds(ctx, E, f, e, idx, size, at, fam)
        elif e.kind == "cop" and e.val in ("ctor", "resize", "assign") and isinstance(e.loc, type(ZERO)) and local(e.loc):
            a = (e.x.get("args") or (None,))[0]
            if not isinstance(a, type(ZERO)) or a.op in ("ptr",) or e.x.get("raw") is None and a.op == "val":
                continue
            key = (e.at, a)
            if key in done:
                continue
            done[key] = 1
            ctx.count("array sizes examined")
            witness(ctx, E, f, e, SIZE, [a], lambda v: v[0] < 0,
                    lambda v: "%d elements are requested" % v[0], at, fam)


def known(E, base):
    try:
        return E.size_key(base) in E.st.mem
    except Exception:
        return False


def bounds(ctx, E, f, e, idx, size, at, fam):
    fx = Facts(list(e.pc))
    if fx.ge0(idx) and fx.ge0(sub(sub(size, idx), ONE)):
        ctx.ok(RULE, e.at, "entailed by the path condition")
        return
    witness(ctx, E, f, e, RULE, [idx, size], lambda v: not (0 <= v[0] < v[1]),
            lambda v: "element %s of an array of %s elements is accessed" % (v[0], v[1]), at, fam)


def names_for(f, env):
    names = c15.overload_names(f, c15.Names(f, env))
    base = names.find
    P = f["params"]
    T = [f["_tu"].ty(p["t"])["s"] for p in P]
    ints = [p["n"] for p, t in zip(P, T) if t == "int"]
    dbl = [p["n"] for p, t in zip(P, T) if t == "double"]

    def find(t):
        if t.op == "rnd":
            return 0
        if t.op == "val":
            p = pathof(t)
            if p is not None and p[0][0] == "p" and not p[1]:
                if p[0][1] in ints:
                    return env["samples"]
                if p[0][1] in dbl:
                    return env["sigma"][dbl.index(p[0][1])]
            if p is not None and fields(p)[-1:] == ["#"]:
                return 1
            if p is not None and fields(p)[-1:] == ["imagesInBlock"]:
                return 1
        return base(t)
    names.find = find
    return names


def family(rng):
    for raw in ([5, 5, 5, 5], [0, 1, 2, 3, 4, 5], [100, 101, 102, 103, 104, 106, 99, 100], [10, 10, 10, 10, 10, 70],
                [60, 61, 60, 62, 61, 2], [0] * 7 + [1], [7, 7], [0, 50], [1, 2, 3, 60],
                [10, 30, 50, 60, 80, 95], [rng.randint(0, 40) for _ in range(9)]):
        for D in ([0] * len(raw), [F(rng.randint(0, 40), 4) for _ in raw], [70] * len(raw)):
            for g in (F(1), F(5, 4), F(1, 8)):
                for sg in ((4, 10), (4, 0), (F(1, 2), -1), (0, -3)):
                    yield dict(W=len(raw), H=1, N=len(raw), raw=raw, D=D, G=[g] * len(raw), lo=0, hi=0, om=1, rowdark=False,
                               use_mean=False, samples=1, sigma=list(sg))


def witness(ctx, E, f, e, rule, vals, wrong, text, at, fam):
    n = taken = 0
    und = None
    t0 = time.time()
    for env in fam:
        if time.time() - t0 > 1.5:
            break
        names = names_for(f, env)
        try:
            got = occurrences(E, e, env, lambda env_, t: names(t), vals)
        except Undecided as x:
            und = x
            break
        except (IndexError, TypeError, OverflowError, ValueError) as x:
            und = x
            break
        n += 1
        taken += len(got)
        for v in got:
            if wrong(v):
                ctx.bad(rule, "%s, %s" % (at, e.at), "%s for samples %s, dark %s, gain %s, sigma factors %s" % (
                    text(v), env["raw"], [float(x) for x in env["D"]][:3], float(env["G"][0]), [float(x) for x in env["sigma"]]))
                return
    if und is not None:
        ctx.und(rule, e.at, "not summarised: %s" % str(und)[:200])
    else:
        ctx.count("evaluations of an access", taken)
        ctx.ok(rule, e.at, "no violating assignment among %d (%d executions)" % (n, taken))
