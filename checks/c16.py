"""Annular masks.  The value-numbering analysis of createAnnularMask (helpers inlined in
their calling context, loops summarised) yields one closed form for the content of the
returned buffer as a function of the pixel index, the dimensions, both radii and the
centre.  That closed form is compared with the prescribed one - 0xFFFF iff
inner^2 <= (x - cx)^2 + (y - cy)^2 < outer^2, x = i mod width, y = i / width, negative
centre coordinates replaced by half of their own dimension - over every sign pattern of
the centre and over dimensions, radii and centres that include every boundary (d equal to
either squared radius, non-square frames, off-centre and out-of-frame centres).  Callers
are checked to pass width/height, inner/outer and the centre in the declared order, one request
per pair of radii; coordinates and counters must not pass through types too small for real frames."""
from cxx import *

ASSUMPTIONS = ["squares and sums of squares of pixel distances are exact in double"]


def check(ctx):
    for f in functions(ctx, "stempy::createAnnularMask"):
        one(ctx, f)
    for f in functions(ctx, "stempy::createSTEMImages", required=False):
        made(ctx, f, "a mask is made from the radii and the centre asked for")


def made(ctx, f, rule):
    """the masks of an image request: frame size, i-th radii and the centre, in that order"""
    at = where(f)
    names = [p["n"] for p in f["params"]]
    ints = [i for i, p in enumerate(f["params"]) if "vector<int" in f["_tu"].ty(p["t"])["s"]]
    cs = [i for i, p in enumerate(f["params"]) if "oord" in f["_tu"].ty(p["t"])["s"] or "enter" in p["n"]]
    MAKE = "stempy::createAnnularMask"
    E = analyse(ctx, f, opaque=[MAKE], hooks={MAKE: request})
    if E is None or len(ints) != 2 or len(cs) != 1:
        return
    calls = [e for e in E.events if e.kind == "maskreq"]
    if not calls:
        return              # hands the request on to another overload
    inner, outer, W, H, cx, cy = [3, 5, 0], [10, 20, 7], 50, 60, 7, 9
    roots = {names[ints[0]]: inner, names[ints[1]]: outer}

    def atom(env, t):
        p = pathof(t)
        if p is None:
            return None
        (kind, root), st = p
        fs = fields(p)
        if kind == "p" and root in roots:
            if fs == ["#"] or (st and st[-1] == ("py", "size")):
                return 3
            if fs == ["@"]:
                return lambda i: roots[root][int(i)]
            return None
        if kind == "p" and root == names[cs[0]] and fs in (["first"], ["second"]):
            return cx if fs == ["first"] else cy
        if fs[-1:] in (["first"], ["second"]) and len(fs) >= 1:
            k = 0 if fs[-1] == "first" else 1
            if fs[-2:-1] == ["frameDimensions"] or kind == "p" and "frame" in root.lower():
                return (W, H)[k]
            if fs[-2:-1] in (["scanDimensions"], ["dimensions"]) or kind == "p" and "scan" in root.lower():
                return (4, 2)[k]
        return None
    got = []
    try:
        for e in calls:
            got += occurrences(E, e, {}, atom, e.x["vals"], skip=lambda l: any(
                pathof(a) is None or pathof(a)[0][0] != "p" or pathof(a)[0][1] not in roots for a in atoms_of(l) if a.op != "k"))
    except Undecided as x:
        ctx.und(rule, at, str(x)[:300])
        return
    want = [(W, H, inner[i], outer[i], cx, cy) for i in range(3)]
    got = [tuple(int(x) for x in g) for g in got]
    ctx.count("mask requests compared", len(got))
    if got == want:
        ctx.ok(rule, at, "%d masks" % len(got))
    elif sorted(got) == sorted(want):
        ctx.und(rule, at, "order of the masks")
    else:
        ctx.bad(rule, "%s, %s" % (at, calls[0].at), "frame %dx%d, radii %s..%s, centre (%d,%d): the masks are made with (width, height, inner, outer, cx, cy) = %s" % (
            W, H, inner, outer, cx, cy, got))


def request(E, e):
    """record what is asked for; the call itself stays opaque"""
    try:
        out = []
        for i, a in enumerate(e["args"]):
            if i in (1, 2):
                out.append(E.val(a))
                continue
            x = E.as_loc(E.eval(a))
            out += [E.lookup(loc_field(x, n)) for n in ("first", "second")]
        if len(out) == 6 and all(isinstance(v, T) for v in out):
            E.ev("maskreq", None, None, e, vals=out)
    except Exception:
        pass
    return None


def one(ctx, f):
    at = where(f)
    P = f["params"]
    ctx.require(len(P) == 4, "createAnnularMask no longer takes dimensions, two radii and a centre")
    E = analyse(ctx, f)
    if E is None:
        return
    r = E.result
    if E.st is None or r is None:
        ctx.bad("the mask is returned", at, "the function does not return a mask")
        return
    if not (isinstance(r, type(ZERO)) and r.op == "ptr"):
        ctx.und("the mask is returned", at, "returned value %s" % r)
        return
    buf, off = E.psplit(r)
    content = E.content(buf)
    size = E.size(buf)
    w, h = pval(f, 0, "first"), pval(f, 0, "second")
    inner, outer = pval(f, 1), pval(f, 2)
    cx, cy = pval(f, 3, "first"), pval(f, 3, "second")
    IDX = sym("pixel")
    envs = []
    for (W, H) in [(7, 5), (5, 8), (6, 6), (1, 4), (4, 1)]:
        for (X, Y) in [(-1, -1), (3, -1), (-1, 3), (0, 0), (2, 3), (6, 1), (-7, 2), (2, -5)]:
            for (I, O) in [(0, 2), (1, 3), (0, 100), (2, 2), (0, 5), (5, 6), (3, 4), (0, 0), (4, 5)]:
                envs.append({w: W, h: H, inner: I, outer: O, cx: X, cy: Y})

    def atom(env, t):
        return env.get(t)

    def rnd(d):
        return (d + 1) // 2

    # size of the buffer
    def spec_size(env):
        return env[w] * env[h]
    same_function(ctx, "the mask has width*height elements", at, size, spec_size, envs, atom, sig="size")

    bad = None
    n = 0
    for env in envs:
        W, H = env[w], env[h]
        X = env[cx] if env[cx] >= 0 else rnd(W)
        Y = env[cy] if env[cy] >= 0 else rnd(H)
        # an unspecified coordinate of odd sizes may round either way
        Xs = {X} if env[cx] >= 0 else {W // 2, rnd(W)}
        Ys = {Y} if env[cy] >= 0 else {H // 2, rnd(H)}
        match = None
        for X in Xs:
            for Y in Ys:
                ok = True
                for i in range(W * H):
                    env2 = dict(env)
                    env2[IDX] = i
                    ev = NumEval(lambda t: env2.get(t))
                    try:
                        v = ev.sel(content, ev.ev(add(IDX, off)))
                    except Undecided as e:
                        ctx.und("a pixel is selected iff inner^2 <= d < outer^2", at, str(e)[:300])
                        return
                    x, y = i % W, i // W
                    d = (x - X) ** 2 + (y - Y) ** 2
                    want = 0xFFFF if env[inner] ** 2 <= d < env[outer] ** 2 else 0
                    n += 1
                    if v != want:
                        ok = False
                        if bad is None or True:
                            why = "pixel (%d,%d) of a %dx%d mask, radii %d..%d, centre (%d,%d): %s instead of %s" % (
                                x, y, W, H, env[inner], env[outer], env[cx], env[cy], v, want)
                        break
                if ok:
                    match = True
                    break
            if match:
                break
        if not match:
            ctx.bad("a pixel is selected iff inner^2 <= d < outer^2", at, why)
            return
    wide_enough(ctx, E, "pixel coordinates are kept in types that hold them", at)
    ctx.count("closed-form instances compared", n)
    ctx.ok("a pixel is selected iff inner^2 <= d < outer^2", at, "content = %s" % content)
