"""Local maxima.  The analysis of the peak search yields, for the statement that reports
an event, the reported pixel index and the guard (a formula over comparisons of frame
values) under which it is reported, per pixel index.  That formula is compared with the
prescribed one - strictly greater than each existing neighbour among up to eight, no wrap
around the border - over frame shapes that contain every class of pixel (corner, edge,
interior, single row, single column, single pixel) and value patterns that decide every
comparison both ways, including ties with each single neighbour and extreme values that
sit only across a border."""
import random
from cxx import *


def frames_for(W, H, rng):
    """value patterns: for each pixel and each neighbour direction a tie and a win, plus random"""
    N = W * H
    out = []
    for _ in range(4):
        out.append([rng.randint(0, 3) for _ in range(N)])
    for _ in range(3):
        out.append([rng.randint(0, 40) for _ in range(N)])
    for i in range(N):
        base = [1] * N
        base[i] = 5
        out.append(base)
        for j in range(N):
            if j != i:
                b = list(base)
                b[j] = 5
                out.append(b)
                c = list(base)
                c[j] = 9
                out.append(c)
    return out


def maxima(fr, W, H):
    res = []
    for i in range(W * H):
        r, c = divmod(i, W)
        ok = True
        for dr in (-1, 0, 1):
            for dc in (-1, 0, 1):
                rr, cc = r + dr, c + dc
                if (dr or dc) and 0 <= rr < H and 0 <= cc < W and not fr[i] > fr[rr * W + cc]:
                    ok = False
        if ok:
            res.append(i)
    return res


SHAPES = [(3, 4), (4, 3), (2, 2), (1, 3), (3, 1), (1, 1), (5, 2)]


def check(ctx):
    fs = functions(ctx, "stempy::maximalPoints", required=False)
    if not fs:
        # the search was merged into the per-frame counting function
        fs = functions(ctx, "stempy::electronCount", lambda f: f["params"] and "vector" in f["_tu"].ty(f["params"][0]["t"])["s"])
    for f in fs:
        one(ctx, f)


def one(ctx, f):
    at = where(f)
    rule = "an event is reported iff the pixel exceeds all existing neighbours"
    E = analyse(ctx, f)
    if E is None:
        return
    frame = proot(f, 0)
    fd = proot(f, 1)
    arr = mk("val", E.content_key(frame))
    num_ = mk("val", E.size_key(frame))
    w, h = pval(f, 1, "first"), pval(f, 1, "second")
    pushes = [e for e in E.events if e.kind == "cop" and e.val in ("push_back", "emplace_back", "insert")
              and e.x.get("args")]
    if not pushes:
        ctx.und(rule, at, "no statement reporting events recognised")
        return
    rng = random.Random(ctx.seed)
    n = 0

    def atom(env, t):
        if t is arr:
            return env["frame"]
        if t is num_:
            return env["n"]
        return env.get(t)
    for W, H in SHAPES:
        fr = frames_for(W, H, rng)
        if ctx.tier != "thorough" and len(fr) > 60:
            fr = fr[:7] + [fr[i] for i in sorted(rng.sample(range(7, len(fr)), 53))]
        for vals in fr:
            def look(i, vals=vals):
                if i != int(i) or not 0 <= i < len(vals):
                    raise OutOfFrame(i)
                return vals[int(i)]
            env = {w: W, h: H, "frame": look, "n": W * H}
            got = []
            try:
                for e in pushes:
                    a = e.x["args"]
                    v = a[-1]
                    got += [x[0] for x in occurrences(E, e, env, atom, [v])]
            except OutOfFrame as e:
                ctx.bad(rule, at, "a %dx%d frame: pixel index %s outside the frame is compared" % (W, H, e))
                return
            except Undecided as e:
                ctx.und(rule, at, "not summarised: %s" % str(e)[:300])
                return
            want = maxima(vals, W, H)
            n += W * H
            if sorted(got) != want:
                diff = sorted(set(got) ^ set(want)) or got
                i = diff[0]
                ctx.bad(rule, "%s, %s" % (at, pushes[0].at),
                        "frame %dx%d %s: pixel (%d,%d) %s" % (W, H, vals, i % W, i // W,
                                                            "reported but not a local maximum" if i not in want else
                                                            "is a local maximum but not reported" if i not in got else "reported twice"))
                return
    wide_enough(ctx, E, "pixel coordinates are kept in types that hold them", at)
    ctx.count("pixel verdicts compared", n)
    ctx.ok(rule, at, "guard agrees for every pixel class")


class OutOfFrame(Exception):
    pass
