"""Every place where a number taken from a file, an image-number table or a sparse data set selects an
element of an array is found in the counting functions, STEM images, radial sums and readers (helpers
and tasks inlined).  A condition on the way to the access must bound the number by a term that is the
size of that very array (the resize/allocation is traced), and leaving that range must end in an
exception.  Header fields that say how many entries follow must be bounded by the fixed-size buffer they
are copied from and the vector they are copied to; reads from a stream never exceed the local buffer.
The sector number of a file name is registered only after a test which, evaluated for every candidate
sector, lets only 0..3 pass; with those four the rows of a sector written into a frame, enumerated,
stay inside it and are disjoint.  Frames asked for by number from the two-pass reader: the image number and
every frame index are tested against the size of the list they select from."""
from conc import *
import re
import numeval
from numeval import NumEval, Undecided

R1 = "a position read from data is inside the array it selects"
R2 = "an out-of-range position ends in an exception"
R3 = "lock and position arrays have the same length"
R4 = "number of entries announced by a header fits its buffers"
R5 = "reads never exceed the local buffer"
R6 = "only sectors 0 to 3 are registered"
R7 = "a sector's pixels stay inside the frame"
R9 = "storage covers the dimensions kept with it"
R10 = "a header lists as many image numbers as images"
R11 = "a frame asked for by number exists"
ASKED = re.compile(r"<imageNumber>|<frameIndices@>")
R8 = "image numbers cover the frames they are taken for"

CLASSIC = ("stempy::maximalPoints", "stempy::applyRowDark")
TABLES = re.compile(r"imageNumbers(?:@|\), @, )|headerNumbers#\d+@|headerPositions#\d+@|headerData#\d+@|\.sector\b|stoi|parseData|\bdata\.data\[")


def check(ctx):
    ts, n = [], {"t": 0, "c": 0, "i": 0, "r": 0}
    for r, f in counting_functions(targs=("float, true",)):
        n["t"] += 1
        ts.append(lambda c, f=f, r=r: entry(c, f, "electronCount " + r, PURE))
    for f in all_functions({"stempy::electronCount"}):
        k = f["key"].split("|")[0]
        if len(f["params"]) == 3 and k.endswith(", float, true>"):
            n["c"] += 1
            ts.append(lambda c, f=f, k=k: entry(c, f, "electronCount iterator " + inst(k), CLASSIC))
    for nm, x in (("stempy::createSTEMImages", "i"), ("stempy::radialSum", "r")):
        for f in all_functions({nm}):
            n[x] += 1
            ts.append(lambda c, f=f, nm=nm: entry(c, f, nm[8:] + " " + inst(f["key"].split("|")[0]), ()))
    ctx.require(n["t"] >= 2 and n["c"] >= 1 and n["i"] >= 3 and n["r"] >= 2, "functions that use positions not found: %s" % n)
    ts.append(readers)
    ts.append(sectors)
    ts.append(pyread)
    ts.append(storage)
    ts.append(asked)
    ctx.parallel(ts)


def asked(ctx):
    """frames asked for by number: the image number and each frame index select an existing entry"""
    n = 0
    RD = "stempy::SectorStreamMultiPassThreadedReader::"
    for f in all_functions(None):
        k = f["key"].split("|")[0]
        if not re.match(re.escape(RD) + r"readFrames(<|$)", k):
            continue
        E = analyse(ctx, f, opaque=(RD + "initializeScanMap", RD + "processFrame"))
        if E is None:
            ctx.und(R11, where(f), "readFrames")
            continue
        n += 1
        S = Sizes(E)
        for e in E.events:
            if e.kind != "index":
                continue
            C, idx = e.loc.args[0], e.val
            if not isinstance(idx, T) or not ASKED.search(str(idx)):
                continue
            sizes = S.of(e, C)
            what = "readFrames: %s[%s]" % (re.sub(r"#\d+", "", str(C))[-40:], norm(idx)[-40:])
            ctx.count("accesses by a number the caller asked for", 1)
            got, near = None, None
            B, _ = bounds(e.pc, idx)
            for b in B:
                for s in sizes:
                    d = sub(b, s)
                    if isnum(d):
                        if numval(d) <= 0:
                            got = b
                        else:
                            near = near or b
            if got is not None:
                ctx.ok(R11, short(e.at), what + ": below the number of entries")
            elif near is not None:
                ctx.bad(R11, short(e.at), what + ": the test lets the value %s pass, past the last entry" % str(sub(near, ONE))[:80], key="asked:%s" % what)
            elif not any(str(idx) in str(p) for p in e.pc):
                ctx.bad(R11, short(e.at), what + ": nothing tests the number before the access", key="asked:%s" % what)
            else:
                ctx.und(R11, short(e.at), what + " limits %s sizes %s" % ([str(b)[:60] for b in B], [str(s)[:60] for s in sizes]))
    ctx.require(n >= 1, "readFrames not found")


def inst(k):
    return k.split("<", 1)[-1].replace("stempy::", "")[:60] if "<" in k else ""


# ---------------------------------------------------------------- taint
def norm(s):
    return re.sub(r"k\(\d+\)", "k", str(s))


def tainted(t):
    """is the atom t a number stored in a table read from data (a value, not a size)"""
    if not isinstance(t, T) or isnum(t) or t.op in ("bool", "not", "and", "or", "eq0", "gt0", "ite", "k", "min", "max", "mod", "div"):
        return False
    s = str(t)
    if s.endswith(("#>", "#, )", "#")) or not TABLES.search(s):
        return False
    return t.op in ("sel", "proj", "val") or (t.op == "ret" and "stoi" in s)


def monomials(t):
    return todict(t)


def taintpart(t):
    """sum of the monomials of t with a tainted factor"""
    out = {}
    for m, c in monomials(t).items():
        if any(tainted(a) for a, _ in facs(m)):
            out[m] = c
    return fromdict(out) if out else None


def facs(m):
    out = []
    for x in m:
        if isinstance(x, tuple):
            out.append((x[0], x[1] if len(x) > 1 else 1))
        else:
            out.append((x, 1))
    return out


def bases(t):
    """tables the tainted part comes from, without the position inside them"""
    out = set()
    for m in monomials(t):
        for a, _ in facs(m):
            if tainted(a):
                out.add(norm(a))
    return out


def bounds(pc, idx):
    """upper limits S with a fact idx < S, from linear conditions on the way"""
    out, other = [], []
    work = list(pc)
    while work:
        p = work.pop()
        if not isinstance(p, T):
            continue
        if p.op == "and":
            work += list(p.args)
            continue
        q = None
        if p.op == "gt0":
            q = sub(p.args[0], ONE)
        elif p.op == "not" and p.args[0].op == "gt0":
            q = neg(p.args[0].args[0])
        if q is not None and isinstance(q, T):
            S = add(q, idx, ONE)
            if taintpart(S) is None:
                out.append(S)
                continue
        other.append(p)
    return out, other


class Rnd:
    """positive values for all atoms, equal atoms equal"""
    def __init__(self, seed):
        self.seed = seed

    def __call__(self, t):
        if t.op in ("val", "proj", "phi", "phiend", "ret", "sel", "fresh", "?", "sym", "k") or t.op.startswith("?"):
            import zlib
            return 3 + zlib.crc32(("%d:%s" % (self.seed, t)).encode()) % 61
        return None


def value(t, seed):
    return NumEval(Rnd(seed)).ev(t)


def compare(S, n):
    """'equal', 'over' (S exceeds n for some sizes), 'under' or None"""
    d = sub(S, n)
    if isnum(d):
        return "equal" if d is ZERO else "over" if numval(d) > 0 else "under"
    over = under = 0
    try:
        for s in range(12):
            a, b = value(S, s), value(n, s)
            over += a > b
            under += a < b
    except (Undecided, Exception):
        return None
    return "over" if over else "under" if under else "equal"


def numval(d):
    return d.args[0]


def leafy(t):
    """only products of dimensions: comparable by value"""
    return all(not a.op.startswith("?") and a.op not in ("phi", "phiend", "fresh") or True for a in atoms_of(t))


# ---------------------------------------------------------------- sizes of containers
def dims_product(obj):
    """width * height stored next to the data of an image-like object"""
    d = mk("loc", obj, ".", "dimensions")
    return mk("loc", d, ".", "first"), mk("loc", d, ".", "second")


class Sizes:
    def __init__(self, E):
        self.E = E
        self.resized, self.allocs, self.same = {}, [], {}
        for e in E.events:
            if e.kind == "cop" and e.x.get("write") and e.val in ("resize", "assign", "ctor"):
                a = [x for x in (e.x.get("args") or ()) if isinstance(x, T)]
                if a and a[0].op in ("n", "poly", "val", "proj", "ite"):
                    self.resized.setdefault(e.loc, []).append(a[0])
            elif e.kind == "alloc" and isinstance(e.val, T):
                self.allocs.append((e, e.val))
            if e.kind == "index" and isinstance(e.x, dict) and isinstance(e.x.get("size"), T):
                self.same.setdefault(e.x["size"], set()).add(e.loc.args[0] if isinstance(e.loc, T) and e.loc.op == "loc" else e.loc)

    def of(self, e, C):
        """terms known to be the number of elements of C at event e"""
        out = []
        x = e.x.get("size") if isinstance(e.x, dict) else None
        if isinstance(x, T):
            out.append(x)
        out.append(self.E.size(C))
        out.append(mk("val", self.E.size_key(C)))
        return out

    def fixed(self, C, e=None):
        """number of elements C is created with, when there is just one such place"""
        r = self.resized.get(C)
        if r and len({str(x) for x in r}) == 1:
            return r[0]
        s = str(C)
        for a, n in self.allocs:
            if str(a.loc) in s:
                return n
        # unique_ptr member / element filled from an allocation
        m = re.match(r"(\w+)#(\d+)(?:\[.*\])?->$", s)
        if m:
            nm = "%s#%s" % m.groups()
            for x in self.E.events:
                if x.kind == "cop" and str(x.loc) == nm and x.val in ("emplace_back", "push_back"):
                    for a in x.x.get("args") or ():
                        for al, n in self.allocs:
                            if str(al.loc) in str(a):
                                return n
        return None


# ---------------------------------------------------------------- rule R1/R2
def entry(ctx, f, label, opaque):
    E = analyse(ctx, f, opaque=opaque)
    if E is None:
        ctx.und(R1, where(f), label)
        return
    ctx.count("functions", 1)
    S = Sizes(E)
    seen, n = set(), 0
    maps = set()
    for e in E.events:
        if e.kind == "cop" and isinstance(e.x, dict) and e.val in ("operator[]", "find", "at", "erase", "emplace", "insert", "count"):
            ty = e.x.get("ty")
            if ty is not None and "map<" in str(getattr(ty, "s", "")):
                maps.add(e.loc)
    indexed = {e.loc for e in E.events if e.kind == "index"}
    for e in E.events:
        if e.kind in ("enter", "leave", "return", "declare", "temp", "loop", "iter", "lock", "unlock"):
            continue
        l = e.loc
        while isinstance(l, T) and l.op == "loc":
            if l.args[1] == "[]" and isinstance(l.args[2], T) and not isnum(l.args[2]):
                idx, C = l.args[2], l.args[0]
                if (l, e.at) not in seen and C not in maps and not keyed(E, C) \
                        and (e.kind == "index" and e.loc is l or l not in indexed):
                    seen.add((l, e.at))
                    if taintpart(idx) is not None:
                        n += 1
                        site(ctx, E, S, e, C, idx, label)
            l = l.args[0]
    if not n:
        ctx.und(R1, where(f), "%s: no access by a position found" % label)
    # R3: the lock array of the same loop has as many entries as there are positions
    ev = [(c, r[0]) for c, r in S.resized.items() if re.match(r"events#\d+$", str(c))]
    for a, nn in S.allocs:
        ty = getattr(a.x.get("ty"), "s", "") if isinstance(a.x, dict) else ""
        if "mutex" in ty and ev:
            c = compare(ev[0][1], nn)
            if c == "equal":
                ctx.ok(R3, short(a.at), "%s: locks and positions both %s" % (label, str(nn)[:60]))
            elif c == "over":
                ctx.bad(R3, short(a.at), "%s: %s locks for %s positions" % (label, str(nn)[:120], str(ev[0][1])[:120]), key="locks:%s" % label)
            else:
                ctx.und(R3, short(a.at), label)


    pos = [r[0] for c, r in S.resized.items() if str(c).endswith("m_scanMap") or str(c).endswith("m_scanMap>")]
    for e in E.events:
        if e.kind == "cop" and e.val in ("push_back", "emplace_back") and "utex" in str(e.loc) and pos:
            ls = [l for l in e.loops if l.k is not None]
            if len(ls) and isinstance(ls[-1].trip, T):
                c = compare(pos[0], ls[-1].trip)
                (ctx.ok if c in ("equal", "under") else ctx.und)(R3, short(e.at), "%s: one lock for each of the %s positions" % (label, str(pos[0])[-60:])) if c != "over" else \
                    ctx.bad(R3, short(e.at), "%s: %s locks are made for %s positions" % (label, str(ls[-1].trip)[:100], str(pos[0])[:100]), key="locks:%s" % label)


def storage(ctx):
    """constructors that allocate what their dimensions describe; headers and their image numbers"""
    n = 0
    for f in all_functions(None):
        k = f["key"].split("|")[0]
        if re.search(r"stempy::\w*Reader\w*::readHeader\w*$", k):
            E = analyse(ctx, f)
            if E is None or E.result is None:
                continue
            a = E.lookup(mk("loc", E.result, ".", "imagesInBlock"))
            b = E.size(mk("loc", E.result, ".", "imageNumbers"))
            if not isinstance(a, T) or "imagesInBlock" in str(a) or "imageNumbers" in str(b):
                continue
            d = sub(b, a)
            if d is ZERO or isnum(d) and numval(d) > 0:
                ctx.ok(R10, where(f), "%s: %s" % (k[8:], str(a)[:60]))
            elif isnum(d):
                ctx.bad(R10, where(f), "%s: the header announces %s images but lists %s image numbers" % (k[8:], str(a)[:60], str(b)[:60]), key="numbers:%s" % k)
            else:
                ctx.und(R10, where(f), "%s: %s images, %s numbers" % (k[8:], str(a)[:60], str(b)[:60]))
            continue
        m = re.search(r"stempy::(Image|RadialSum|Block)(?:<.*>)?::\1$", k)
        if not m:
            continue
        E = analyse(ctx, f)
        if E is None:
            continue
        al = [e for e in E.events if e.kind == "alloc" and isinstance(e.val, T)]
        if not al:
            continue
        this = mk("root", "p", "this")
        th = [l for l in E.st.mem if isinstance(l, T) and l.op == "loc" and l.args[1] == "." and l.args[2] == "data"]
        if not th:
            continue
        this = th[0].args[0]
        F = lambda *p: E.lookup(path(this, p))
        if m.group(1) == "Block":
            want = mul(mul(F("header", "frameDimensions", "first"), F("header", "frameDimensions", "second")), F("header", "imagesInBlock"))
        else:
            want = mul(F("dimensions", "first"), F("dimensions", "second"))
            if m.group(1) == "RadialSum":
                want = mul(want, F("radii"))
        c = compare(want, al[0].val)
        n += 1
        if c in ("equal", "under"):
            ctx.ok(R9, short(al[0].at), "%s: %s" % (k[8:], str(want)[:80]))
        elif c == "over":
            ctx.bad(R9, short(al[0].at), "%s allocates %s elements for dimensions of %s" % (k[8:], str(al[0].val)[:100], str(want)[:100]), key="alloc:%s" % m.group(1))
        else:
            ctx.und(R9, short(al[0].at), k)
    if n < 3:
        ctx.und(R9, "stempy/image.h", "constructors that allocate their data not found")


def path(l, p):
    for x in p:
        l = mk("loc", l, ".", x)
    return l


def keyed(E, C):
    s = str(C)
    return s.endswith("m_frameCache") or "Cache" in s.rsplit(".", 1)[-1]


def mentioned(E, e, bs):
    """is any condition anywhere in the analysed function about one of the tables?"""
    bs = {re.sub(r"(\[[^\[\]]*\])+$", "", b) for b in bs}
    last = {re.split(r"[.>,# ]+", b.rstrip("@)>, "))[-1] for b in bs}
    for x in E.events:
        if x.kind in ("call", "range", "callback") and isinstance(x.x, dict) and (x.seq < e.seq or x.loops):
            # an algorithm or unknown function that looks at the table
            s = str([x.x.get("args"), x.x.get("cont"), x.x.get("ret")]) + str(x.val)
            if any(b and b in s for b in last) and not re.search(r"ostream|operator<<|str\(|::Header|::Block|move|ctor", str(x.x.get("name"))):
                return x
        for p in x.pc:
            s = norm(p)
            for b in bs:
                if b in s:
                    return x
    return None


def site(ctx, E, S, e, C, idx, label):
    tp = taintpart(idx)
    rest = sub(idx, tp)
    what = "%s: %s[%s]" % (label, re.sub(r"#\d+", "", str(C))[-60:], norm(tp)[-70:])
    bs = bases(tp)
    ctx.count("accesses by a position from data", 1)
    # the sector of a registered stream: R6 limits it to 0..3
    if all(b.endswith(".sector>") or b.endswith("sector, )") for b in bs):
        sz = [x for x in S.of(e, C) if isnum(x)]
        if sz:
            if numval(sz[0]) >= 4:
                ctx.ok(R1, short(e.at), what + ": array of %s for the sectors 0..3" % numval(sz[0]))
            else:
                ctx.bad(R1, short(e.at), what + ": array of only %s elements for the sectors 0..3" % numval(sz[0]), key="sector:%s" % short(e.at))
        else:
            ctx.und(R1, short(e.at), what)
        return
    B, other = bounds(e.pc, tp)
    sizes = S.of(e, C)
    best = None
    for b in B:
        if rest is ZERO or isnum(rest) and numval(rest) == 0:
            if any(b is s or sub(b, s) is ZERO for s in sizes):
                best = ("ok", "below its size %s" % str(b)[:60])
                break
            fx = S.fixed(C, e)
            if fx is not None:
                c = compare(b, fx)
                if c in ("equal", "under"):
                    best = ("ok", "below the allocated %s" % str(fx)[:60])
                    break
                if c == "over":
                    best = best or ("bad", "only tested against %s but the array has %s elements" % (str(b)[:120], str(fx)[:120]))
                    continue
            # off by a constant?
            for s in sizes:
                d = sub(b, s)
                if isnum(d) and numval(d) > 0:
                    best = best or ("bad", "the test lets the value %s pass, %s past the last element" % (str(sub(b, ONE))[:80], numval(d)))
                elif isnum(d):
                    best = ("ok", "below %s" % str(b)[:60])
            if best and best[0] == "ok":
                break
            # the size of another array of the same length (R3), or of the image's own dimensions
            peers = {p for p in S.same.get(b, ()) if p is not C}
            if not best and peers:
                best = ("ok", "below the number of elements of %s (lengths compared by R3)" % re.sub(r"#\d+", "", str(sorted(map(str, peers))[0]))[-40:])
                break
            for P in S.same:
                d = sub(b, P)
                if isnum(d) and numval(d) > 0 and not best:
                    best = ("bad", "the test lets the value %s pass (%s past the last element)" % (str(sub(b, ONE))[:80], numval(d)))
            if not best and isinstance(C, T) and own_dims(E, C, b):
                best = ("ok", "below the width*height of the image it belongs to")
                break
            if not best and isinstance(C, T):
                od = own_dims_value(E, C)
                if od is not None:
                    c = compare(b, od)
                    if c in ("equal", "under"):
                        best = ("ok", "below the width*height of the image")
                        break
                    if c == "over":
                        best = ("bad", "only tested against %s but the image has %s elements" % (str(b)[:120], str(od)[:120]))
        else:
            # row * length + position: position below length keeps it in its row
            fx = S.fixed(C, e)
            try:
                vals = [(value(rest, s), value(b, s), value(fx, s) if fx is not None else None) for s in range(8)]
            except Exception:
                vals = None
            if vals is None:
                continue
            if fx is not None and all(x % b_ == 0 for x, b_, _ in vals if b_) and all(f % b_ == 0 for _, b_, f in vals if b_):
                best = ("ok", "inside its row of %s" % str(b)[:60])
                break
            if fx is not None:
                # the limit is that of a row plus something
                for c in (1, 2):
                    if all(b_ > c and x % (b_ - c) == 0 and f % (b_ - c) == 0 for x, b_, f in vals):
                        best = ("bad", "the test lets the value %s pass, %d past the end of its row" % (str(sub(b, ONE))[:80], c))
    if best is None and not B:
        m = mentioned(E, e, bs)
        if m is None and plain(tp):
            best = ("bad", "nothing tests the value before the access")
    if best is None:
        ctx.und(R1, short(e.at), what + (" limits %s" % [str(b)[:60] for b in B] if B else ""))
    elif best[0] == "ok":
        ctx.ok(R1, short(e.at), what + ": " + best[1])
        rejected(ctx, E, e, tp, bs, what)
    else:
        if [p for p in other if any(b in norm(p) for b in bs)]:
            ctx.und(R1, short(e.at), what + ": " + best[1])
        else:
            ctx.bad(R1, short(e.at), what + ": " + best[1], key="%s:%s" % (re.sub(r"#\d+", "", str(C))[-40:], label.split(" ")[0]))


def plain(tp):
    return all(tainted(a) or a.op == "val" for m in monomials(tp) for a, _ in facs(m))


def own_dims_value(E, C):
    """C = <obj.data> -> value of obj.dimensions.first * second"""
    s = C
    if isinstance(s, T) and s.op == "deref" and isinstance(s.args[0], T):
        v = s.args[0]
        l = v.args[0] if v.op == "val" else None
        if isinstance(l, T) and l.op == "loc" and l.args[1] == "." and l.args[2] == "data":
            a, b = dims_product(l.args[0])
            return mul(E.lookup(a), E.lookup(b))
    return None


def own_dims(E, C, b):
    v = own_dims_value(E, C)
    if v is None:
        return False
    s = C.args[0].args[0].args[0]
    x, y = dims_product(s)
    return sub(b, mul(mk("val", x), mk("val", y))) is ZERO or sub(b, v) is ZERO


def rejected(ctx, E, e, tp, bs, what):
    """some exception is thrown under the opposite of the bound"""
    for x in E.events:
        if x.kind != "throw":
            continue
        for p in x.pc:
            s = norm(p)
            if any(b in s for b in bs) or "imageNumbers" in str(tp) and "imageNumbers" in re.sub(r"imageNumbers(#|\), #)", "", s):
                ctx.ok(R2, short(x.at), what)
                return
    root = re.search(r"(imageNumbers)(?:@|\), @)", norm(tp)) or "phi" not in str(tp) and re.match(r"<([A-Za-z_]\w*)[\[.]", norm(tp))
    if root and "?" not in str(tp) and \
            not any(re.search(r"\b%s\b" % root.group(1), re.sub(r"<[^<>]*#>|imageNumbers(#|\), #)", "", norm(p))) for x in E.events if x.kind == "throw" for p in x.pc) and \
            not [c for c in E.events if c.kind == "call" and any(root.group(1) in str(a) for a in (c.x or {}).get("args", ()) if isinstance(c.x, dict))]:
        ctx.bad(R2, short(e.at), what + ": values outside the tested range are skipped, nothing is thrown", key="skipped:%s" % what)
        return
    ctx.und(R2, short(e.at), what)


# ---------------------------------------------------------------- readers
def arraysize(ty):
    """(number of elements, bytes per element) of a local array type"""
    m = re.match(r"(?:const )?([\w: ]+?)\s*\[(\d+)\]$", ty.s if ty is not None else "")
    if m:
        return int(m.group(2)), width(m.group(1))
    w = width(ty.s if ty is not None else "")
    return (1, w) if w else None


def width(s):
    s = s.replace("const ", "").strip()
    return {"unsigned int": 4, "int": 4, "uint32_t": 4, "uint16_t": 2, "unsigned short": 2, "short": 2, "uint8_t": 1, "char": 1,
            "unsigned char": 1, "uint64_t": 8, "unsigned long": 8, "long": 8, "int64_t": 8, "float": 4, "double": 8, "std::uint32_t": 4}.get(s)


def readers(ctx):
    n = 0
    for f in all_functions(None):
        k = f["key"].split("|")[0]
        if not re.search(r"stempy::\w*Reader::(readHeader\w*|read)$", k) or "PyReader" in k:
            continue
        E = analyse(ctx, f)
        if E is None:
            ctx.und(R4, where(f), k)
            continue
        n += 1
        ctx.count("functions", 1)
        local = {}
        for e in E.events:
            if e.kind == "declare" and isinstance(e.loc, T) and isinstance(e.x, dict):
                a = arraysize(e.x.get("ty"))
                if a:
                    local[e.loc] = a
        seen = set()
        for e in E.events:
            if e.kind == "fillbuf":
                root, off = split(e.x.get("ptr"), E)
                if root in local and isnum(off) and (root, e.at, e.val) not in seen:
                    seen.add((root, e.at, e.val))
                    cap = (local[root][0] - numval(off)) * (local[root][1] or 1)
                    if isnum(e.val):
                        if numval(e.val) <= cap:
                            ctx.ok(R5, short(e.at), "%s: %s bytes into %s of %d" % (k[8:], numval(e.val), nm(root), cap))
                        else:
                            ctx.bad(R5, short(e.at), "%s: %s bytes are read into %s, which has %d" % (k[8:], numval(e.val), nm(root), cap), key="fill:%s:%s" % (k, nm(root)))
                    else:
                        ctx.und(R5, short(e.at), "%s: %s" % (k[8:], str(e.val)[:60]))
            elif e.kind == "memcpy":
                src = e.x.get("src")
                for side, l in (("from", src), ("to", e.loc)):
                    fits(ctx, E, e, k, side, l, e.val, local)
            elif e.kind == "index" and isinstance(e.loc, T) and e.loc.op == "loc" and e.loc.args[0] in local and (e.loc, e.at) not in seen:
                seen.add((e.loc, e.at))
                inside(ctx, E, e, k, local[e.loc.args[0]][0], nm(e.loc.args[0]), e.loc.args[2])
            elif e.kind == "index" and isinstance(e.x, dict) and e.x.get("how") == "vector" and "imageNumbers" in str(e.loc.args[0]) \
                    and (e.loc, e.at) not in seen and isinstance(e.x.get("size"), T):
                seen.add((e.loc, e.at))
                inside(ctx, E, e, k, e.x["size"], "imageNumbers", e.loc.args[2])
    ctx.require(n >= 4, "readers' header functions not found")


def nm(l):
    return re.sub(r"#\d+", "", str(l))


def split(p, E):
    if isinstance(p, T):
        if p.op == "root":
            return p, ZERO
        try:
            r = E.psplit(p)
        except Exception:
            r = None
        if r:
            b = r[0]
            while isinstance(b, T) and b.op in ("deref", "addr") and b.args and isinstance(b.args[0], T):
                b = b.args[0]
            return b, r[1]
        if p.op == "addr":
            return p.args[0], ZERO
    return p, ZERO


def lin(ctx, E, e, need):
    """is need >= 0 on the way to e: True, False (a value violating it passes every condition), None"""
    try:
        if Facts(list(e.pc)).ge0(need):
            return True
    except Exception:
        pass
    return None


def counter(E, e, need, cap_atoms):
    """a value of the tainted header field, allowed by every condition, with need < 0"""
    atoms = {a for m in monomials(need) for a, _ in facs(m) if tainted(a)}
    if len(atoms) != 1:
        return None
    a = atoms.pop()
    rel = [p for p in e.pc if str(a) in str(p)]
    for v in (0, 1, 1013, 1014, 1015, 1016, 1023, 1024, 1025, 1034, 2048, 65536, 2 ** 31, 2 ** 32 - 1):
        try:
            if Fixed(a, v).ev(need) < 0 and all(Fixed(a, v).ev(p) for p in rel):
                return v
        except Exception:
            continue
    return None


class Fixed(NumEval):
    """evaluation with one term set to a value"""
    def __init__(self, a, v):
        NumEval.__init__(self, lambda t: None)
        self.a, self.v = a, v

    def ev(self, t):
        return self.v if t is self.a else NumEval.ev(self, t)


def fits(ctx, E, e, k, side, l, n, local):
    if not isinstance(l, T):
        ctx.und(R4, short(e.at), k)
        return
    if l.op == "loc" and l.args[1] == "[]":
        C, off = l.args[0], l.args[2]
    else:
        C, off = l, ZERO
    if C in local:
        size = num(local[C][0])
    else:
        size = E.size(C)
        x = [q for q in E.events if q.kind == "cop" and q.loc is C and q.val in ("resize", "ctor", "assign") and q.seq < e.seq]
        if x and x[-1].x.get("args"):
            size = x[-1].x["args"][0]
    need = sub(sub(size, off), n)
    what = "%s: %s entries copied %s %s (%s)" % (k[8:], norm(n)[-40:], side, nm(C)[-40:], str(size)[:40])
    r = True if isnum(need) and numval(need) >= 0 else lin(ctx, E, e, need)
    ctx.count("bulk copies", 1)
    if r:
        ctx.ok(R4, short(e.at), what)
        return
    v = -1 if isnum(need) else counter(E, e, need, None)
    if v is not None:
        ctx.bad(R4, short(e.at), what + ": with %s entries announced it goes past the end" % v, key="copy:%s:%s" % (k, side))
    else:
        ctx.und(R4, short(e.at), what)


def inside(ctx, E, e, k, size, name, idx):
    size = num(size) if isinstance(size, int) else size
    if not isinstance(idx, T):
        return
    need = sub(sub(size, idx), ONE)
    what = "%s: %s[%s]" % (k[8:], name, norm(idx)[:50])
    if isnum(need):
        if numval(need) >= 0 and numval(idx) >= 0:
            ctx.ok(R4, short(e.at), what)
        else:
            ctx.bad(R4, short(e.at), what + " is outside its %s elements" % str(size)[:40], key="index:%s:%s" % (k, name))
        return
    if lin(ctx, E, e, need):
        ctx.ok(R4, short(e.at), what)
        return
    # the last iteration of the loop around the access
    ls = loops_of(e)
    if ls and isinstance(ls[-1].trip, T):
        last = subst(idx, {ls[-1].k: sub(ls[-1].trip, ONE)})
        d = sub(sub(size, last), ONE)
        if isnum(d) and numval(d) < 0:
            ctx.bad(R4, short(e.at), what + ": the last iteration is %s past the end" % -numval(d), key="index:%s:%s" % (k, name))
            return
        v = counter(E, e, d, None) if not isnum(d) else None
        if v is not None and not isnum(d):
            ctx.bad(R4, short(e.at), what + ": outside its %s elements when %s entries are announced" % (str(size)[:40], v), key="index:%s:%s" % (k, name))
            return
    ctx.und(R4, short(e.at), what)


# ---------------------------------------------------------------- sectors
def sectors(ctx):
    n = 0
    for f in all_functions(None):
        k = f["key"].split("|")[0]
        if not re.search(r"stempy::Sector\w*Reader::\w+$", k):
            continue
        if not any(isinstance(x, dict) and "stoi" in str(x.get("n") or x.get("f") or x.get("callee") or "") for x in walk(f["body"])) and "openFiles" not in k:
            continue
        E = analyse(ctx, f)
        if E is None:
            ctx.und(R6, where(f), k)
            continue
        for e in E.events:
            if e.kind != "cop" or e.val not in ("emplace_back", "push_back") or "m_streams" not in str(e.loc):
                continue
            ss = [a for a in e.x.get("args") or () if isinstance(a, T) and "stoi" in str(a)]
            if not ss:
                ctx.und(R6, short(e.at), k)
                continue
            n += 1
            registered(ctx, E, e, k, ss[0])
    if not n:
        ctx.und(R6, "stempy/reader.cpp", "no place registers a stream with the sector of its file name")
    geometry(ctx)


def registered(ctx, E, e, k, s):
    bad = []
    try:
        for found in (True, False):
            for v in (-7, -1, 0, 1, 2, 3, 4, 5, 9, 10, 255, 2 ** 31 - 1):
                if not found and v != 0:
                    continue

                def atom(t):
                    if t.op in ("ret", "fresh") and "stoi" in str(t):
                        return v
                    if t.op == "ret" and "regex" in str(t):
                        return found
                    return None
                val = NumEval(atom).ev(s)
                if val in (0, 1, 2, 3) and val is not True:
                    continue
                passes = True
                for p in e.pc:
                    if "stoi" not in str(p) and "regex" not in str(p):
                        continue
                    if not NumEval(atom).ev(p):
                        passes = False
                if passes:
                    bad.append(val)
    except Exception:
        ctx.und(R6, short(e.at), k[8:])
        return
    if bad:
        ctx.bad(R6, short(e.at), "%s: a file is registered with sector %s" % (k[8:], bad[0]), key="sector:%s" % k)
    else:
        ctx.ok(R6, short(e.at), "%s: every sector outside 0..3 (-7 to 2147483647 sampled at the limits) is refused before the file is registered" % k[8:])


def constants():
    """dimension constants of the sources: name -> (first, second)"""
    out = {}
    for dim, ab in (("FRAME_DIMENSIONS", None), ("SECTOR_DIMENSIONS_VERSION_4", None), ("SECTOR_DIMENSIONS_VERSION_5", None)):
        out[dim] = None
    import os
    repo = os.environ.get("STEMPY_REPO", "/repo")
    for p in ("stempy/reader.cpp", "stempy/reader.h"):
        try:
            t = open(os.path.join(repo, p)).read()
        except OSError:
            continue
        for dim in out:
            m = re.search(dim + r"\s*(?:=\s*)?[{(]\s*(\d+)\s*,\s*(\d+)\s*[})]", t)
            if m:
                out[dim] = (int(m.group(1)), int(m.group(2)))
    return out


def geometry(ctx):
    K = constants()
    F = K.get("FRAME_DIMENSIONS")
    if not all(K.values()):
        ctx.und(R7, "stempy/reader.cpp", "dimension constants not found: %s" % K)
        return
    for f in all_functions({"stempy::SectorStreamReader::readSectorData", "stempy::SectorStreamThreadedReader::readSectorData"}):
        ps = [p["n"] for p in f["params"]]
        E = analyse(ctx, f)
        if E is None or "sector" not in ps:
            continue
        for e in E.events:
            if e.kind != "fillbuf" or ".data" not in str(e.loc):
                continue
            off = e.loc.args[2] if e.loc.op == "loc" and e.loc.args[1] == "[]" else None
            if off is None or not isinstance(e.val, T):
                ctx.und(R7, short(e.at), nm(e.loc)[:60])
                continue
            total, used, over = 0, set(), None
            try:
                for sec in range(4):
                    def atom(env, t):
                        s = str(t)
                        for d, v in K.items():
                            if s.rstrip(">)").endswith(d + ".first"):
                                return v[0]
                            if s.rstrip(">)").endswith(d + ".second"):
                                return v[1]
                        if s in ("<sector>", "sector"):
                            return sec
                        return None
                    for o, b in occurrences(E, e, {}, atom, (off, e.val), skip=lambda p: "sector>" not in str(p) and "DIMENSIONS" not in str(p) and "k(" not in str(p)):
                        total += 1
                        if o < 0 or 2 * o + b > 2 * F[0] * F[1]:
                            over = over or (sec, o, b)
                        key = (o, b)
                        if key in used:
                            over = over or (sec, o, b)
                        used.add(key)
            except (Undecided, Exception) as ex:
                ctx.und(R7, short(e.at), "%s: %s" % (nm(e.loc)[:60], str(ex)[:80]))
                continue
            ctx.count("sector row placements enumerated", total)
            if over:
                ctx.bad(R7, short(e.at), "sector %d writes %d bytes at pixel %d of a frame of %d pixels" % (over[0], over[2], over[1], F[0] * F[1]), key="geometry")
            else:
                ctx.ok(R7, short(e.at), "%d placements of the four sectors inside %dx%d" % (total, F[0], F[1]))


# ---------------------------------------------------------------- Python reader
def pyread(ctx):
    fs = [f for f in all_functions(None) if f["key"].split("|")[0].endswith("stempy::PyReader::read")]
    if not fs:
        ctx.und(R8, "python/pyreader.cpp", "PyReader::read not found")
        return
    for f in fs:
        E = analyse(ctx, f)
        if E is None:
            ctx.und(R8, where(f), "PyReader::read")
            continue
        n = 0
        for e in E.events:
            if e.kind != "index" or not isinstance(e.loc, T) or e.loc.op != "loc" or "m_imageNumbers" not in str(e.loc.args[0]):
                continue
            if isinstance(e.x, dict) and e.x.get("how") == "at":
                ctx.ok(R8, short(e.at), "checked access")
                n += 1
                continue
            C = e.loc.args[0]
            n += 1
            size = e.x.get("size") if isinstance(e.x, dict) and isinstance(e.x.get("size"), T) else E.size(C)
            need = sub(sub(size, e.loc.args[2]), ONE)
            try:
                good = Facts(list(e.pc)).ge0(need)
            except Exception:
                good = False
            ls = loops_of(e)
            if not good and ls and isinstance(ls[-1].trip, T):
                last = subst(e.loc.args[2], {ls[-1].k: sub(ls[-1].trip, ONE)})
                try:
                    good = Facts(list(e.pc)).ge0(sub(sub(size, last), ONE))
                except Exception:
                    good = False
            if good:
                ctx.ok(R8, short(e.at), "m_imageNumbers[%s] below its length" % norm(e.loc.args[2])[:60])
            elif witness(e, e.loc.args[2], size):
                ctx.bad(R8, short(e.at), "element %s of the image numbers is read although there are %s (%s)" % witness(e, e.loc.args[2], size), key="pyread")
            elif not any(str(size) in str(p) for x in E.events for p in x.pc):
                ctx.bad(R8, short(e.at), "the number of image numbers is never compared with the frames of the block", key="pyread")
            else:
                ctx.und(R8, short(e.at), "m_imageNumbers[%s]" % norm(e.loc.args[2])[:60])
        if not n:
            ctx.und(R8, where(f), "no access to the image numbers found")

        # the header announces the frames that were sliced and lists a number for each
        blk = [e for e in E.events if e.kind == "write" and isinstance(e.loc, T) and str(e.loc).endswith("header.imagesInBlock") and isinstance(e.val, T) and not isnum(e.val)]
        if not blk:
            ctx.und(R10, where(f), "PyReader::read")
            continue
        e = blk[-1]
        have = E.size(mk("loc", e.loc.args[0], ".", "imageNumbers"))
        try:
            have = simp(have, Facts(list(e.pc)))
        except Exception:
            pass
        c = compare(e.val, have)
        if c == "equal" or c == "under":
            ctx.ok(R10, short(e.at), "PyReader::read: %s" % str(have)[:80])
        elif c == "over" and not re.search(r"[^_]imageNumbers#", str(have)):
            ctx.bad(R10, short(e.at), "PyReader::read: the header announces %s images but lists %s image numbers" % (str(e.val)[:120], str(have)[:120]), key="numbers:pyread")
        else:
            ctx.und(R10, short(e.at), "PyReader::read: %s images, %s numbers" % (str(e.val)[:60], str(have)[:60]))


def witness(e, idx, size):
    """small values that pass every condition on the way but select an element past the end"""
    import itertools
    ats = sorted({a for t in [idx, size] + list(e.pc) for a in atoms_of(t)}, key=str)
    if not 1 <= len(ats) <= 5:
        return None
    for v in itertools.product((0, 1, 2, 4, 6), repeat=len(ats)):
        env = dict(zip(ats, v))
        try:
            ev = NumEval(lambda t: env.get(t)).ev
            if not all(ev(p) for p in e.pc):
                continue
            i, n = ev(idx), ev(size)
        except Exception:
            return None
        if i >= n:
            return i, n, ", ".join("%s=%d" % (norm(a)[-24:], x) for a, x in env.items())
    return None
