"""Pre-processing order.  For every counting path (the per-frame function used by the
threaded readers, the classic block-iterator function, each instantiation over frame type
and dark/no dark, with and without row-dark correction) the analysis yields the closed
form of the frame content that reaches the peak search, in terms of the raw frame, the
dark reference, the gain, both thresholds and the row statistic.  It is compared with
  v = raw - dark;  v *= optimizedMean / statistic(raw half row)  [row-dark only];
  v *= gain [if given];  v = 0 iff v <= background or v >= xray
for every pixel of odd and even, square and non-square frames, with thresholds placed on,
below and above the corrected values (so <= against < and the order of the steps are all
distinguished)."""
import random
from fractions import Fraction as F
from cxx import *

ASSUMPTIONS = ["rounding of single precision arithmetic is not modelled: the closed forms are compared over the rationals",
               "for integer frames the dark reference does not exceed the pixel value (underflow is not modelled)"]
RULE = "dark, then gain, then zero iff <= background or >= x-ray, every pixel once"


def check(ctx):
    jobs = []
    names = {}
    for f in functions(ctx, "stempy::electronCount"):
        p0 = f["_tu"].ty(f["params"][0]["t"])["s"] if f["params"] else ""
        if "vector<" in p0:
            jobs.append(lambda c, f=f: frame_level(c, f))
        elif len(f["params"]) == 3 and "Classic" in f["_tu"].ty(f["params"][2]["t"])["s"] and \
                ("float" in f["key"].split("|")[0] or "unsigned short" in f["key"].split("|")[0]):
            jobs.append(lambda c, f=f: classic(c, f))
    ctx.require(jobs, "no electron counting function found")
    ctx.parallel(jobs)


def median(v):
    v = sorted(v)
    n = len(v) // 2
    return v[n] if len(v) & 1 else F(v[n] + v[n - 1], 2)


def spec(raw, W, H, dark, gain, lo, hi, rowdark, om, use_mean, integral):
    out = [0] * (W * H)
    left = W // 2
    for i in range(W * H):
        v = F(raw[i])
        if dark is not None:
            v = v - dark[i]
        if rowdark:
            r, c = divmod(i, W)
            half = raw[r * W:r * W + left] if c < left else raw[r * W + left:(r + 1) * W]
            st = F(sum(half), len(half)) if use_mean else F(median(half))
            v = v * om / st
            if integral:
                v = F(int(v))
        if gain is not None:
            v = v * gain[i]
        if v <= lo or v >= hi:
            v = F(0)
        out[i] = v
    return out


def cases(rng, integral, dark, gain, rowdark, use_mean, n=14):
    for c in range(n):
        W, H = rng.choice([(4, 3), (5, 2), (3, 3), (2, 4)])
        N = W * H
        D = [rng.randint(0, 6) for _ in range(N)] if dark else None
        raw = [rng.randint(1, 40) + (D[i] if D else 0) for i in range(N)]
        G = [F(rng.randint(1, 8), 4) for _ in range(N)] if gain else None
        om = F(rng.randint(2, 6), 2)
        base = spec(raw, W, H, D, G, -10 ** 9, 10 ** 9, rowdark, om, use_mean, integral)
        vals = sorted(set(base))
        lo = vals[len(vals) // 4]
        hi = vals[3 * len(vals) // 4]
        if c % 4 == 1:
            lo = lo - F(1, 2)
        if c % 4 == 2:
            hi = hi + F(1, 2)
        if c % 4 == 3:
            lo, hi = F(-5), F(10 ** 6)
        yield W, H, raw, D, G, lo, hi, om


def find(f, *names):
    for i, p in enumerate(f["params"]):
        if p["n"] in names:
            return i
    return None


def inputs_at_search(ctx, E, at):
    evs = [e for e in E.events if e.kind == "enter" and e.x["fn"]["f"].endswith("::maximalPoints")]
    if evs:
        return [(e, e.x["vals"][0].get("@"), e.x["vals"][0].get("#")) for e in evs]
    return None


def frame_level(ctx, f):
    at = where(f)
    s = f["key"].split("|")[0]
    integral = "unsigned short" in s
    E = analyse(ctx, f)
    if E is None:
        return
    P = f["params"]
    wide_enough(ctx, E, "counters and coordinates of pixels are kept in types that hold them", at)
    # parameters by type and order: frame, dims, dark, background, xray, gain, rowDark, optimizedMean, useMean
    if len(P) != 9:
        ctx.und(RULE, at, "unexpected parameter list")
        return
    has_dark = s.rstrip(">").endswith("true")
    site = inputs_at_search(ctx, E, at)
    if not site:
        ctx.und(RULE, at, "no call of the peak search recognised")
        return
    arr = mk("val", E.content_key(proot(f, 0)))
    size = mk("val", E.size_key(proot(f, 0)))

    def ptr_arr(i):
        return mk("val", E.content_key(mk("deref", pval(f, i))))
    compare(ctx, E, at, s, site, integral, has_dark, arr, size, pval(f, 1, "first"), pval(f, 1, "second"),
            pval(f, 2), ptr_arr(2), pval(f, 5), ptr_arr(5), pval(f, 3), pval(f, 4), pval(f, 6), pval(f, 7), pval(f, 8), None)


def classic(ctx, f):
    at = where(f)
    s = f["key"].split("|")[0]
    integral = "unsigned short" in s
    has_dark = s.rstrip(">").endswith("true")
    E = analyse(ctx, f, opaque={"stempy::SectorStreamReader::read", "stempy::StreamReader::read", "stempy::PyReader::read"})
    if E is None:
        return
    wide_enough(ctx, E, "counters and coordinates of pixels are kept in types that hold them", at)
    site = inputs_at_search(ctx, E, at)
    if not site:
        ctx.und(RULE, at, "no call of the peak search recognised")
        return
    o = proot(f, 2)

    def opt(n):
        return mk("val", loc_field(o, n))

    def oarr(n):
        return mk("val", E.content_key(mk("deref", opt(n))))
    compare(ctx, E, at, s, site, integral, has_dark, None, None, None, None,
            opt("darkReference"), oarr("darkReference"), opt("gain"), oarr("gain"), opt("backgroundThreshold"),
            opt("xRayThreshold"), opt("applyRowDarkSubtraction"), opt("optimizedMean"), opt("applyRowDarkUseMean"), True)


def compare(ctx, E, at, s, site, integral, has_dark, arr, size, w, h, dptr, darr, gptr, garr, lo_, hi_, rd_, om_, um_, isclassic):
    rng = random.Random(ctx.seed)
    for e, content, n_ in site:
        total = 0
        if content is None:
            ctx.und(RULE, at, "content of the frame not tracked")
            continue
        for rowdark in (False, True):
            for use_mean in ((False, True) if rowdark else (False,)):
                for W, H, raw, D, G, lo, hi, om in cases(rng, integral, has_dark, not integral, rowdark, use_mean):
                    want = spec(raw, W, H, D, G, lo, hi, rowdark, om, use_mean, integral)
                    N = W * H

                    def atom(t):
                        if t is arr:
                            return lambda i: inb(raw, i)
                        if t is darr:
                            return lambda i: inb(D if D is not None else [10 ** 7] * N, i)
                        if t is garr:
                            return lambda i: inb(G if G is not None else [10 ** 7] * N, i)
                        if t is size:
                            return N
                        if t is w:
                            return W
                        if t is h:
                            return H
                        if t is lo_:
                            return lo
                        if t is hi_:
                            return hi
                        if t is rd_:
                            return rowdark
                        if t is um_:
                            return use_mean
                        if t is om_:
                            return om
                        if t is dptr:
                            return 1 if D is not None else NULLV
                        if t is gptr:
                            return 1 if G is not None else NULLV
                        if isclassic:
                            return classic_atom(t, W, H, raw)
                        return None
                    if not integral:
                        pass
                    try:
                        if isclassic:
                            ne = NumEval(atom, E)
                            bindk(E, e, ne)
                        else:
                            ne = NumEval(atom, E)
                        reach = True
                        for l in e.pc:
                            try:
                                if not ne.ev(l):
                                    reach = False
                            except Undecided:
                                pass
                        if not reach:
                            continue
                        got = [ne.sel(content, i) for i in range(N)]
                        cnt = ne.ev(n_) if n_ is not None else N
                    except Undecided as x:
                        ctx.und(RULE, at, "not summarised: %s" % str(x)[:300])
                        return
                    except IndexError as x:
                        ctx.bad(RULE, "%s, %s" % (at, e.at), "element %s outside of the %dx%d frame is used" % (x, W, H))
                        return
                    total += N
                    if cnt != N:
                        ctx.bad(RULE, "%s, %s" % (at, e.at), "the frame searched has %s instead of %d pixels" % (cnt, N))
                        return
                    for i in range(N):
                        if got[i] != want[i] and abs(float(got[i]) - float(want[i])) > 1e-9:
                            ctx.bad(RULE, "%s, %s" % (at, e.at),
                                    "%s: pixel %d of a %dx%d frame, raw %s dark %s gain %s thresholds (%s, %s)%s: searched value %s instead of %s" % (
                                        s, i, W, H, raw[i], D and D[i], G and G[i], lo, hi,
                                        " row-dark (%s)" % ("mean" if use_mean else "median") if rowdark else "", float(got[i]), float(want[i])))
                            return
        if total:
            ctx.count("pixel values compared", total)
            ctx.ok(RULE, "%s, %s" % (at, e.at), "%s: %d pixel values agree" % (s, total))
        else:
            ctx.und(RULE, at, "never reached in the cases tried")


def bindk(E, e, ne):
    """first frame of some block: fix the enclosing loops at their first iteration"""
    for l in loops_of(e):
        ne.bound[l.k] = 0
    ne.version = ne.fresh_version()


def classic_atom(t, W, H, raw):
    s = str(t)
    if t.op == "k":
        return 0
    last = t.args[-1] if t.op in ("val", "phi") else None
    if last is not None and isinstance(last, type(ZERO)) and last.op == "loc":
        n = steps(last)[1]
        names = [x.args[2] for x in n if x.args[1] == "."]
        if len(names) >= 2 and names[-2:] == ["frameDimensions", "first"]:
            return W
        if len(names) >= 2 and names[-2:] == ["frameDimensions", "second"]:
            return H
        if last.args[1] == "@" and "data" in s and "Reference" not in s and "gain" not in s:
            return lambda i: inb(raw, i)
    return None


def inb(a, i):
    if i != int(i) or not 0 <= i < len(a):
        raise IndexError(i)
    return a[int(i)]
