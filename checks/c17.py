"""STEM images and radial sums.  The analysis follows every instantiation of the public
functions (createSTEMImages for raw and for sparse data, radialSum) from their entry into
the tasks they enqueue and yields, for every statement that stores into a result buffer,
the closed form of the cell index and of the stored value.  Enumerating the summarised
loops of those closed forms gives the contribution of one block; it is compared with the
prescribed one (cell = the frame's image number, value = sum over the frame's own pixels
of mask & data; radial bin = ceil(distance) of the frame's image number) for square and
non-square frames and permuted image numbers.  Type rules on the same statements: sums are
accumulated in 64 bits without narrowing, the offset of a frame inside a block is not the
product of 32-bit operands, concurrent tasks add to a radial bin only atomically or under
a lock, and the number of bins allocated covers the largest distance in the frame, also with a centre outside of it.  Image numbers,
coordinates and loop counters must not pass through a type too small for a 600x700 frame or a
512x500 scan."""
import math
import random
import c16
from cxx import *

ASSUMPTIONS = ["distances of integer points are compared exactly; the rounding of sqrt in double is not modelled"]


def instances(ctx, name):
    return functions(ctx, name)


def check(ctx):
    jobs = []
    for f in functions(ctx, "stempy::createSTEMImages"):
        n = len(f["params"])
        p0 = f["_tu"].ty(f["params"][0]["t"])["s"]
        if n == 6 and ("vector<" not in p0 or "iterator" in p0):
            jobs.append(lambda c, f=f: stem(c, f))
        elif n == 6:
            jobs.append(lambda c, f=f: sparse(c, f))
        jobs.append(lambda c, f=f: c16.made(c, f, "the mask of an image is made from that image's radii"))
    for f in functions(ctx, "stempy::radialSum"):
        if len(f["params"]) == 4:
            jobs.append(lambda c, f=f: radial(c, f))
    ctx.require(len(jobs) >= 3, "the entry points for STEM images and radial sums were not found")
    ctx.parallel(jobs)


READS = {"stempy::SectorStreamReader::read", "stempy::StreamReader::read", "stempy::PyReader::read"}


class Block:
    """one block of n frames of W x H pixels, a scan of SW x SH positions, masks"""

    def __init__(self, f, W, H, n, SW, SH, nums, rng, masks=2, center=(1, 1)):
        self.f = f
        self.W, self.H, self.n, self.SW, self.SH, self.nums = W, H, n, SW, SH, nums
        self.data = [rng.randint(1, 60000) for _ in range(W * H * n)]
        self.masks = [[rng.choice([0, 0xFFFF]) for _ in range(W * H)] for _ in range(masks)]
        self.center = center
        self.P = [p["n"] for p in f["params"]]

    def atom(self, t):
        if t in self.env:
            return self.env[t]
        p = pathof(t)
        if p is None:
            return None
        v = self.named(p)
        if v is not None:
            self.env[t] = v
        return v

    env = None

    def named(self, p):
        (kind, root), st = p
        fs = fields(p)
        tail = fs[-2:]
        if kind == "p" and root in self.P:
            i = self.P.index(root)
        else:
            i = None
        if tail == ["imageNumbers", "#"] or tail[-1:] == ["imagesInBlock"]:
            return self.n
        if tail == ["imageNumbers", "@"]:
            return lambda i: at(self.nums, i)
        if tail == ["frameDimensions", "first"]:
            return self.W
        if tail == ["frameDimensions", "second"]:
            return self.H
        if "header" in fs and tail == ["scanDimensions", "first"]:
            return self.SW
        if "header" in fs and tail == ["scanDimensions", "second"]:
            return self.SH
        if i == 4 and len(self.P) == 6 and fs in (["first"], ["second"]) or \
                i == 2 and len(self.P) == 4 and fs in (["first"], ["second"]):
            return self.SW if fs == ["first"] else self.SH
        if i == len(self.P) - 1 and fs in (["first"], ["second"]):
            return self.center[0 if fs == ["first"] else 1]
        if tail == ["dimensions", "first"]:
            return self.SW
        if tail == ["dimensions", "second"]:
            return self.SH
        if "data" in fs and fs[-1] == "@" and i in (0, 1):
            return lambda i: at(self.data, i)
        if fs[-1:] in (["data"], ["array"]) and i in (0, 1):
            return 1
        if i in (2, 3) and len(self.P) == 6 and fs == ["#"]:
            return len(self.masks)
        if fs in (["#"], ["[]", "#"]) and kind == "v" and "mask" in root:
            return len(self.masks)
        return None

    def mask(self, t):
        p = pathof(t)
        if p is None:
            return None
        fs = fields(p)
        idx = [n for k, n in p[1] if k == "[]"]
        if fs[-1:] == ["@"] and "->" in fs and len(idx) == 1 and p[0][0] != "p":
            return idx[0]
        return None


def at(a, i):
    if i != int(i) or not 0 <= i < len(a):
        raise Outside(i)
    return a[int(i)]


class Outside(Exception):
    pass


def iterating(l):
    """the loop over the blocks: its trip count is not a number of anything in the block"""
    return l.trip is None


def only_iterators(f):
    names = {p["n"] for p in f["params"][:2]}

    def skip(l):
        """compares only the iterators themselves (not header or data)"""
        a = [x for x in atoms_of(l) if x.op != "k"]
        if not a:
            return False
        for x in a:
            p = pathof(x)
            if p is None or p[0][0] != "p" or p[0][1] not in names:
                return False
            fs = fields(p)
            if "header" in fs or "data" in fs:
                return False
        return True
    return skip


CASES = [(3, 2, 2, 2, 3, [4, 1]), (2, 4, 3, 3, 2, [0, 5, 2]), (4, 4, 1, 2, 2, [3])]


def cell_of(loc):
    """(array location, index term) of an element location"""
    if loc is not None and isinstance(loc, type(ZERO)) and loc.op == "loc" and loc.args[1] == "[]":
        return loc.args[0], loc.args[2]
    return None


def stem(ctx, f):
    rule = "a STEM value is the sum over the frame's pixels of mask & data, stored at its image number"
    at_ = where(f)
    E = analyse(ctx, f, opaque=READS)
    if E is None:
        return
    stores = []
    for e in E.events:
        if e.kind in ("write", "atomic_add", "armw") and e.thread != 0 or e.kind == "write" and e.thread == 0:
            c = cell_of(e.loc)
            if c is None:
                continue
            tgt = image_of(E, c[0])
            if tgt is not None and e.val is not None:
                stores.append((e, c[1], tgt))
    stores = [s for s in stores if loops_of(s[0])]
    if not stores:
        ctx.und(rule, at_, "no statement storing into an image recognised")
        return
    rng = random.Random(ctx.seed)
    skip = only_iterators(f)
    total = 0
    for case in CASES:
        b = Block(f, *case, rng=rng)
        b.env = {}
        got = {}
        try:
            for e, idx, tgt in stores:
                def atom(env, t, ne):
                    m = b.mask(t)
                    if m is not None:
                        k = ne.ev(m)
                        return lambda i: at(b.masks[int(k)], i)
                    return b.atom(t)
                for img, cell, v in occurrences(E, e, {}, atom, [tgt, idx, e.val], once=iterating, skip=skip):
                    key = (img, cell)
                    if e.kind == "write":
                        got[key] = v
                    else:
                        got[key] = got.get(key, 0) + v
        except Outside as x:
            ctx.bad(rule, "%s, %s" % (at_, e.at), "element %s outside the block, mask or image-number table of %dx%dx%d is read" % (x, case[0], case[1], case[2]))
            return
        except Undecided as x:
            ctx.und(rule, at_, "not summarised: %s" % str(x)[:300])
            return
        N = b.W * b.H
        want = {}
        for m in range(len(b.masks)):
            for fr in range(b.n):
                want[(m, b.nums[fr])] = sum(b.masks[m][p] & b.data[fr * N + p] for p in range(N))
        total += len(want)
        if got != want:
            d = sorted(set(k for k in list(got) + list(want) if got.get(k) != want.get(k)))[0]
            ctx.bad(rule, "%s, %s" % (at_, stores[0][0].at),
                    "frames %dx%d, image numbers %s: image %s position %s gets %s instead of %s" % (
                        b.W, b.H, b.nums, d[0], d[1], got.get(d), want.get(d)))
            return
    ctx.count("image cells compared", total)
    ctx.ok(rule, "%s, %s" % (at_, stores[0][0].at), "%d cells agree" % total)
    types(ctx, E, f, at_, [s[0] for s in stores])


def image_of(E, arr):
    """index term of the image whose buffer arr is: *<images[k].data>"""
    r, st = steps(arr)
    if r.op != "deref" or st:
        return None
    p = pathof(r.args[0])
    if p is None or fields(p)[-1:] != ["data"]:
        return None
    idx = [n for k, n in p[1] if k == "[]"]
    if len(idx) != 1 or p[0][0] == "p":
        return None
    return idx[0]


def types(ctx, E, f, at_, stores):
    """width rules"""
    wide_enough(ctx, E, "image numbers, coordinates and counters are kept in types that hold them", at_)
    rule = "frame offsets are not computed in 32 bits"
    frame_loops = set()
    for e in stores:
        for l in loops_of(e):
            if l.trip is not None:
                frame_loops.add(l.k)
    wide = {}
    ok = True
    idx_terms = [e.val for e in stores if isinstance(e.val, type(ZERO))]
    used = set()
    for t in idx_terms:
        for s in subterms(t):
            if s.op == "sel":
                used.add(s.args[1])
    n = 0
    for e in E.events:
        if e.kind != "arith":
            continue
        n += 1
        ks = [a for a in atoms_of(e.val) if a.op == "k" and a in frame_loops]
        dims = [a for a in atoms_of(e.val) if dimension(a)]
        if not ks or len(dims) < 2:
            continue
        # a product of the frame number with both frame dimensions
        if not product_of_three(e.val):
            continue
        if any(part_of(e.val, u) for u in used):
            ok = False
            ctx.bad(rule, e.at, "%s is computed in %s bits and indexes the block's data" % (e.val, e.x.get("w")))
    if ok:
        ctx.ok(rule, at_, "%d narrow products looked at" % n)
    rule = "sums are kept in 64 bits"
    sums = set()
    ok = True
    for e in E.events:
        if e.kind == "narrow" and e.val is not None and isinstance(e.val, type(ZERO)) and e.x.get("w", 64) < 64:
            if accumulated(E, e.val):
                ok = False
                ctx.bad(rule, e.at, "the sum %s is converted to %s bits" % (str(e.val)[:200], e.x["w"]))
    for e in E.events:
        if e.kind == "write" and e.loops and e.val is not None and isinstance(e.val, type(ZERO)):
            t = e.x.get("ty")
            if t is None or t.base.k not in ("int",):
                continue
            w = t.base.raw.get("w") or 64
            if w < 64 and sums_data(e):
                ok = False
                ctx.bad(rule, e.at, "pixel values are accumulated in a variable of %d bits" % w)
    if ok:
        ctx.ok(rule, at_)


def dimension(a):
    p = pathof(a)
    return p is not None and fields(p)[-1:] in (["first"], ["second"])


def product_of_three(v):
    if v.op != "poly":
        return False
    return any(len(m) >= 3 for m, c in v.args[0])


def part_of(v, u):
    """all monomials of v occur in u"""
    if u is v:
        return True
    if v.op != "poly" or u.op != "poly":
        return False
    um = {m for m, c in u.args[0]}
    big = [m for m, c in v.args[0] if len(m) >= 3]
    return bool(big) and all(any(set_le(m, x) for x in um) for m in big)


def set_le(a, b):
    b = list(b)
    for x in a:
        if x not in b:
            return False
        b.remove(x)
    return True


def accumulated(E, v):
    return any(s.op == "Sum" for s in subterms(v))


def sums_data(e):
    """v = previous value of the same location + something read from pixel data"""
    prev = False
    data = False
    for a in (e.val.args[0] if e.val.op == "poly" else ()):
        for y in a[0]:
            if y.op == "phi" and y.args[1] is e.loc:
                prev = True
            if any(s.op == "sel" for s in subterms(y)):
                data = True
    return prev and data


def sparse(ctx, f):
    rule = "a sparse STEM value adds mask[event] over all frames of its own scan position"
    at_ = where(f)
    E = analyse(ctx, f)
    if E is None:
        return
    stores = []
    for e in E.events:
        if e.kind in ("write", "atomic_add") and loops_of(e):
            c = cell_of(e.loc)
            tgt = image_of(E, c[0]) if c else None
            if tgt is not None and e.val is not None:
                stores.append((e, c[1], tgt))
    if not stores:
        ctx.und(rule, at_, "no statement storing into an image recognised")
        return
    rng = random.Random(ctx.seed)
    total = 0
    for W, H, shape in ((3, 2, [[2, 1], [0, 3]]), (2, 4, [[1, 1, 2], [3, 0, 1], [2, 2, 2], [0, 0, 0]])):
        ev = [[[rng.randrange(W * H) for _ in range(n)] for n in fr] for fr in shape]
        b = Block(f, W, H, 1, 2, len(shape) // 2 or 1, [0], rng)

        def atom(env, t, ne):
            m = b.mask(t)
            if m is not None:
                k = ne.ev(m)
                return lambda i: at(b.masks[int(k)], i)
            p = pathof(t)
            if p is None:
                return None
            (kind, root), st = p
            if kind == "p" and root in b.P:
                i = b.P.index(root)
                fs = fields(p)
                if i == 0:
                    x = ev
                    for kk, n in st:
                        if kk == "[]":
                            x = at(x, ne.ev(n))
                        elif kk == "#" or (kk == "py" and n == "size"):
                            return len(x)
                        elif kk == "@":
                            return lambda i, x=x: at(x, i)
                    return 1
                if fs in (["first"], ["second"]):
                    k = 0 if fs == ["first"] else 1
                    return {3: (2, len(shape) // 2 or 1), 4: (W, H), 5: (1, 1)}.get(i, (None, None))[k]
                if i in (1, 2) and fs == ["#"]:
                    return len(b.masks)
            return b.atom(t)
        b.env = {}
        got = {}
        old = object()
        try:
            for e, idx, tgt in stores:
                def value(ne, e=e):
                    # what the statement adds: the stored value minus the previous content
                    return ne.ev(e.val)
                base = accumulate(e)
                over = base is None
                if over:
                    # a statement that replaces what the cell held: the last one counts
                    if len(stores) > 1 or e.kind != "write" or not isinstance(e.val, type(ZERO)) or old_used(E, e):
                        raise Undecided("stored value " + str(e.val)[:200])
                    base = e.val
                for img, cell, v in occurrences(E, e, {}, atom, [tgt, idx, base]):
                    got[(img, cell)] = v if over else got.get((img, cell), 0) + v
        except Outside as x:
            ctx.bad(rule, "%s, %s" % (at_, e.at), "element %s outside of the data or mask is read" % x)
            return
        except Undecided as x:
            ctx.und(rule, at_, "not summarised: %s" % str(x)[:300])
            return
        want = {}
        for m in range(len(b.masks)):
            for i, fr in enumerate(ev):
                want[(m, i)] = sum(b.masks[m][x] for g in fr for x in g)
        total += len(want)
        for k in set(got) | set(want):
            if got.get(k, 0) != want.get(k, 0):
                ctx.bad(rule, "%s, %s" % (at_, stores[0][0].at), "frames %dx%d, events %s: image %s position %s gets %s instead of %s" % (
                    W, H, ev, k[0], k[1], got.get(k, 0), want.get(k, 0)))
                return
    ctx.count("image cells compared", total)
    ctx.ok(rule, "%s, %s" % (at_, stores[0][0].at), "%d cells agree" % total)
    types(ctx, E, f, at_, [s[0] for s in stores])


def accumulate(e):
    """the term a statement adds to its own cell"""
    if e.kind == "atomic_add":
        return e.val
    v = e.val
    if v.op != "poly":
        return None
    old = []
    rest = []
    arr, idx = cell_of(e.loc)
    for m, c in v.args[0]:
        if c == 1 and len(m) == 1 and is_old(m[0], arr, idx):
            old.append(m[0])
        else:
            rest.append((m, c))
    if len(old) != 1:
        return None
    return sub(v, old[0])


def old_used(E, e):
    """the stored value refers to the image's data in some way"""
    return any(y.op in ("sel", "phi", "phiend", "val", "?") and ".data" in str(y) and "py(data" not in str(y) and "<data.data" not in str(y)
               for y in subterms(e.val))


def is_old(t, arr, idx):
    if t.op == "sel" and t.args[1] is idx:
        p = pathof(t.args[0])
        return p is not None and fields(p)[-1:] == ["@"]
    p = pathof(t)
    return p is not None and t.op in ("val", "phi") and t.args[-1].op == "loc" and t.args[-1].args[1] == "[]"


def radial(ctx, f):
    rule = "a radial sum adds each pixel once to bin ceil(distance) of its image number"
    at_ = where(f)
    E = analyse(ctx, f, opaque=READS)
    if E is None:
        return
    adds = []
    for e in E.events:
        if e.thread == 0 or e.kind not in ("write", "atomic_add", "armw"):
            continue
        c = cell_of(e.loc)
        if c is None:
            continue
        r = rootof(c[0])
        if r.op == "root" and r.args[0] == "heap":
            adds.append((e, c[0], c[1]))
    if not adds:
        ctx.und(rule, at_, "no statement adding to the radial sum recognised")
        return
    arr = adds[0][1]
    size = E.sizes_of(arr) if hasattr(E, "sizes_of") else None
    if size is None and E.st is not None:
        size = E.size(arr)
    rng = random.Random(ctx.seed)
    skip = only_iterators(f)
    total = 0
    for e, a, i in adds:
        if e.kind == "write" and not e.locks:
            ctx.bad("concurrent additions to a radial bin are atomic", e.at,
                    "tasks of a pool with several threads update %s without a lock or an atomic operation" % e.loc)
            return
    ctx.ok("concurrent additions to a radial bin are atomic", adds[0][0].at)
    for case in CASES:
        for center in ((1, 1), (0, 2), (-1, -1), (2, -1), (-1, 0), (5, 5), (0, case[1]), (case[0], 0), (0, 30), (30, 0)):
            b = Block(f, *case, rng=rng, center=center)
            b.env = {}
            got = {}
            try:
                for e, a, idx in adds:
                    def atom(env, t):
                        return b.atom(t)
                    for cell, v in occurrences(E, e, {}, atom, [idx, e.val], once=iterating, skip=skip):
                        got[cell] = got.get(cell, 0) + v
                cells = NumEval(b.atom, E).ev(size) if size is not None else None
            except Outside as x:
                ctx.bad(rule, "%s, %s" % (at_, e.at), "element %s outside the block or image-number table is read" % x)
                return
            except Undecided as x:
                ctx.und(rule, at_, "not summarised: %s" % str(x)[:300])
                return
            W, H = b.W, b.H
            alts = []
            for cx in ({center[0]} if center[0] >= 0 else {W // 2, (W + 1) // 2}):
                for cy in ({center[1]} if center[1] >= 0 else {H // 2, (H + 1) // 2}):
                    want = {}
                    for fr in range(b.n):
                        for p in range(W * H):
                            d2 = (p % W - cx) ** 2 + (p // W - cy) ** 2
                            r = math.isqrt(d2)
                            r += r * r < d2
                            c = r * b.SW * b.SH + b.nums[fr]
                            want[c] = want.get(c, 0) + b.data[fr * W * H + p]
                    alts.append(want)
            total += len(got)
            if got not in alts:
                want = alts[0]
                d = sorted(set(k for k in list(got) + list(want) if got.get(k) != want.get(k)))[0]
                ctx.bad(rule, "%s, %s" % (at_, adds[0][0].at),
                        "frames %dx%d, scan %dx%d, centre %s, image numbers %s: cell %s gets %s instead of %s" % (
                            W, H, b.SW, b.SH, center, b.nums, d, got.get(d), want.get(d)))
                return
            if cells is not None and max(got) >= cells:
                ctx.bad("bins exist for every distance", at_, "frames %dx%d, centre %s: cell %s of %s" % (W, H, center, max(got), cells))
                return
    ctx.count("radial cells compared", total)
    ctx.ok(rule, "%s, %s" % (at_, adds[0][0].at), "%d cells agree" % total)
    if size is not None:
        ctx.ok("bins exist for every distance", at_, "")
    else:
        ctx.und("bins exist for every distance", at_, "size of the buffer not tracked")
    types(ctx, E, f, at_, [a[0] for a in adds])
