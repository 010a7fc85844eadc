"""The plain, the threaded and the two-pass sector reader are analysed with header parsing, frame
cache and the per-version sector reads inlined.  For every read into a frame buffer the closed
forms of destination and byte count, over the loops around it, are evaluated for both versions
and all four sectors: the file's pixels must arrive, in order, at the prescribed region (version
4: columns [144 s, 144 s + 144) of each row, version 5: rows [144 s, 144 s + 144)), i.e. disjoint
and covering.  The sector number must be that of the stream read.  The two-pass reader must read
sector j at the position recorded for sector j, record it under the sector of its stream after
the header, and skip exactly the sector's bytes.  A frame is marked or delivered as complete iff
the fourth sector has been counted, the count follows the read, and the buffer holds the whole
frame."""
from conc import *
from numeval import NumEval, Undecided

R1 = "sector is read to its own region, completely"
R2 = "sector number belongs to the stream read"
R3 = "frame counts as complete exactly with four sectors"
R4 = "sector is counted after its data was read"
R5 = "two-pass reader finds each sector's data where its header said"
R6 = "buffer holds a whole frame"

W = H = 576


def check(ctx):
    ts = [lambda c, f=f, r=r: one(c, f, PURE, r) for r, f in counting_functions(targs=("float, true",))]
    ts += [lambda c, f=f: one(c, f, (), "SectorStreamReader") for f in functions(ctx, "stempy::SectorStreamReader::read", required=False) if not f["params"]]
    ctx.require(len(ts) == 3, "sector readers not found")
    ctx.parallel(ts)


def constants(f):
    import ir
    out = {}
    for tu in ir.load():
        for g in tu.globals.values():
            n = g.get("n") or g.get("name")
            a = [x.get("cv") for x in ((g.get("init") or {}).get("args") or ()) if isinstance(x, dict)]
            if n and len(a) == 2 and None not in a:
                out[n.split("::")[-1]] = a
    return out


def last(t):
    """(object term, field) of a member value"""
    if t.op == "val" and t.args[0].op == "loc" and t.args[0].args[1] == ".":
        return t.args[0].args[0], str(t.args[0].args[2])
    if t.op == "proj" and t.args[1] == ".":
        return t.args[0], str(t.args[2])
    return None, None


def leaves_of(p):
    """(base, offset) alternatives of a pointer"""
    if p.op == "ite":
        return leaves_of(p.args[1]) + leaves_of(p.args[2])
    if p.op == "ptr":
        return [(p.args[0], ZERO if p.args[1] == "obj" else p.args[1])]
    return [(p, ZERO)]


class Env:
    def __init__(self, consts, version, sector, slots=None, count=None):
        self.c, self.v, self.s, self.slots, self.count = consts, version, sector, slots, count

    def __call__(self, t):
        if self.count is not None and t.op in ("armw", "aload"):
            return self.count + (1 if t.op == "aload" else 0)
        o, f = last(t)
        if f is not None:
            g = o
            if g.op == "root" and g.args[0] == "global":
                n = str(g.args[1]).split("::")[-1]
                if n in self.c and f in ("first", "second"):
                    return self.c[n][0 if f == "first" else 1]
            if f == "m_version":
                return self.v
            if f == "sector":
                return self.s
            if f == "sectorStream" and self.slots is not None:
                j = slot(o)
                if j is not None:
                    return 1 if self.slots[j] else 0
            if f == "#":
                return 7
        if t.op in ("val", "phi", "phiend") and any(isinstance(x, T) and x.op == "loc" and x.args[1] == "#" for x in t.args):
            return 7
        if t.op == "proj" and t.args[1] == "#":
            return 7
        return None


def slot(l):
    """constant index of an array element under the scan map"""
    while l.op == "loc":
        if l.args[1] in ("[]", "[*]") and isinstance(l.args[2], T) and isnum(l.args[2]):
            return int(l.args[2].args[0])
        if l.args[1] in ("[]", "[*]"):
            return None
        l = l.args[0]
    return None


def evaluate(t, env, bound=None):
    ne = NumEval(env)
    for k, v in (bound or {}).items():
        ne.bound[k] = v
    return ne.ev(t)


def want_region(v, s):
    if v == 4:
        return [(y * W + 144 * s, 144) for y in range(H)]
    return [(144 * s * W, 144 * W)]


def joinr(rs):
    out = []
    for a, n in rs:
        if out and out[-1][0] + out[-1][1] == a:
            out[-1] = (out[-1][0], out[-1][1] + n)
        else:
            out.append((a, n))
    return out


def one(ctx, f, opaque, reader):
    E = analyse(ctx, f, opaque=opaque)
    if E is None:
        return
    wide_enough(ctx, E, "offsets and counters are kept in types that hold them", reader)
    consts = constants(f)
    fills = [e for e in E.events if e.kind == "fillbuf" and framebuf(e)]
    if not fills:
        ctx.und(R1, reader, "no read into a frame buffer found")
        return
    ctx.count("reads into frame buffers", len(fills))
    # the reads of one sector: same slot or same sector expression
    groups = {}
    for e in fills:
        st = stream_slot(e)
        groups.setdefault((e.thread, st, tuple(l.uid for l in outer_loops(E, e))), []).append(e)
    for key, es in groups.items():
        regions(ctx, E, reader, consts, key, es)
    complete(ctx, E, reader, consts, fills)
    buffers(ctx, E, reader, consts)
    if any(e.thread and stream_slot(e) is not None for e in fills):
        twopass(ctx, E, reader, consts, fills)


def framebuf(e):
    p = e.x.get("ptr")
    if not isinstance(p, T):
        return False
    for b, o in leaves_of(p):
        s = str(b)
        if b.op == "root" and b.args[0] in ("v", "tmp"):
            return False
    return True


def offsets(e):
    return [o for b, o in leaves_of(e.x["ptr"])]


def inner_loops(e):
    """loops the destination or its guard range over"""
    ls = []
    for l in e.loops:
        if l.k is None:
            continue
        if any(mentions(strip(o), l.k) for o in offsets(e)):
            ls.append(l)
    return ls


def strip(o):
    """offset without the objects its members come from"""
    def f(t):
        a, n = last(t)
        if n is not None:
            return sym("m:" + n + ":" + (str(a.args[1]) if a.op == "root" else ""))
        return t
    # replace member values from the top
    m = {}
    for t in subterms(o):
        a, n = last(t)
        if n is not None:
            m[t] = f(t)
    return subst(o, m)


def mentions(t, x):
    return t is x or any(y is x for y in subterms(t))


def outer_loops(E, e):
    inn = inner_loops(e)
    return [l for l in e.loops if l not in inn and l.k is not None]


def stream_slot(e):
    st = e.x.get("stream")
    for t in [e.loc, st]:
        if isinstance(t, T):
            for x in [t] + list(subterms(t)):
                o, n = last(x)
                if n == "sectorStream":
                    return slot(o)
    return None


def regions(ctx, E, reader, consts, key, es):
    thread, slt, outer = key
    at = short(es[0].at)
    for v in (4, 5):
        for s in range(4) if slt is None else (slt,):
            env = Env(consts, v, s)
            got = []
            try:
                for e in es:
                    skip = False
                    for lit in e.pc:
                        if any(last(x)[1] == "m_version" for x in subterms(lit)) and not any(mentions(lit, l.k) for l in inner_loops(e)):
                            if not evaluate(lit, env):
                                skip = True
                                break
                    if skip:
                        continue
                    got += spans(E, e, env)
            except Undecided as u:
                subs = [x for e in es for o in offsets(e) for x in [o] + list(subterms(o))]
                place = [x for x in subs if x.op == "pdiff" and "m_streams" in str(x)]
                if place and not any(last(x)[1] == "sector" for x in subs):
                    ctx.bad(R2, at, "%s: the sector is taken from the place of the stream in the list of open streams, which is neither sorted nor kept complete" % reader, key="sector:place")
                    return
                ctx.und(R1, at, "%s version %d sector %d: %s" % (reader, v, s, str(u)[:120]))
                return
            if joinr(got) != joinr(want_region(v, s)):
                g, w = joinr(got), joinr(want_region(v, s))
                d = next((i for i in range(max(len(g), len(w))) if i >= len(g) or i >= len(w) or g[i] != w[i]), 0)
                ctx.bad(R1, at, "%s, version %d, sector %d: %s" % (reader, v, s, "pixels %s.. (%d) where %s.. (%d) belong" % (
                    g[d][0] if d < len(g) else "none", g[d][1] if d < len(g) else 0,
                    w[d][0] if d < len(w) else "none", w[d][1] if d < len(w) else 0)), key="region:v%d" % v)
                return
            ctx.count("sector regions evaluated")
    ctx.ok(R1, at, "%s%s: destination and bytes agree for versions 4 and 5" % (reader, "" if slt is None else " sector %d" % slt))
    if slt is None:
        # the sector used is the one of the stream that is read
        bad = None
        for e in es:
            objs = {last(x)[0] for o in offsets(e) for x in [o] + list(subterms(o)) if last(x)[1] == "sector"}
            st = e.x.get("stream")
            sub = set([e.loc] + list(subterms(e.loc)))
            stt = e.x.get("stream")
            if isinstance(stt, T):
                sub |= set([stt] + list(subterms(stt)))
            objs = {o for o in objs if o is not None}
            if objs and not any(o in sub or any(same_entry(o, y) for y in sub) for o in objs):
                bad = e
        if bad is not None:
            ctx.und(R2, short(bad.at), "%s: the sector is not recognised as that of the stream" % reader)
        else:
            ctx.ok(R2, at, "%s: sector taken from the stream's entry" % reader)


def same_entry(o, y):
    return y.op == "proj" and y.args[0] is o or y.op == "loc" and y.args[0] is o


def spans(E, e, env):
    """(first element, elements) of every execution of e in one sector, in order"""
    ls = inner_loops(e)
    out = []

    def go(i, bound):
        if i == len(ls):
            for l in e.pc:
                if any(mentions(l, x.k) for x in ls):
                    if not evaluate(l, env, bound):
                        return False
            offs = {evaluate(strip_env(o), env, bound) for o in offsets(e)}
            if len(offs) != 1:
                raise Undecided("different offsets")
            n = evaluate(e.val, env, bound)
            if n % 2:
                raise Undecided("odd number of bytes")
            out.append((int(offs.pop()), int(n // 2)))
            return True
        for k in range(5000):
            b = dict(bound)
            b[ls[i].k] = k
            if go(i + 1, b) is False and i == len(ls) - 1:
                break
        else:
            raise Undecided("no end of the loop")
        return None
    if not ls:
        go(0, {})
    else:
        go(0, {})
    return out


def strip_env(o):
    return o


# ------------------------------------------------------------------ completeness
def complete(ctx, E, reader, consts, fills):
    found = 0
    counts = {}
    for e in E.events:
        if e.kind == "armw" and e.loc.op == "loc" and (e.x.get("op") in ("operator++", "fetch_add", "operator+=")) and e.val is ONE and any(
                fl.thread == e.thread and fl.seq < e.seq + 10 ** 9 and fl.loops[:len(e.loops)] == e.loops for fl in fills):
            if any(last_step(e.loc) in str(l) for x in E.events for l in x.pc if x.thread == e.thread) and "sector" in last_step(e.loc).lower():
                counts[e.loc] = e
    for loc, inc in counts.items():
        own = [f for f in fills if f.thread == inc.thread]
        late = [f for f in own if f.seq > inc.seq and same_iteration(f, inc)]
        if inc.thread:
            if late:
                ctx.bad(R4, short(inc.at), "%s counts the sector before its data is read: another thread can deliver the frame without it" % reader, key="early count")
            else:
                ctx.ok(R4, short(inc.at), "%s: count follows the read" % reader)
        for e in E.events:
            if e.thread != inc.thread or not (e.kind == "cop" and e.x.get("write") or e.kind == "return" or e.kind == "write"):
                continue
            lits = [l for l in e.pc if any(y.op in ("armw", "aload") and y.args[0] is loc for y in subterms(l))]
            if not lits or tuple(e.loops) != tuple(inc.loops):
                continue
            res = []
            try:
                for v in range(4):
                    res.append(all(bool(evaluate(l, Env(consts, 5, 0, count=v))) for l in lits))
            except Undecided as u:
                ctx.und(R3, short(e.at), str(u)[:100])
                continue
            found += 1
            if res == [False, False, False, True]:
                ctx.ok(R3, short(e.at), "%s: after the fourth sector" % reader)
            elif res == [True, True, True, False]:
                ctx.ok(R3, short(e.at), "%s: otherwise" % reader)
            else:
                ctx.bad(R3, short(e.at), "%s: happens after %s of 4 sectors" % (reader, [i + 1 for i, r in enumerate(res) if r]), key="count")
    # flags computed from the sectors present
    for e in E.events:
        if not isinstance(e.loc, T) or not any(s.args[1] == "." and s.args[2] == "complete" for s in steps(e.loc)[1]):
            continue
        v = None
        if e.kind == "call" and "_Bit_reference::operator=" in str(e.x.get("name")):
            v = (e.x.get("args") or [None])[0]
        elif e.kind == "cop" and e.val in ("assign", "push_back", "resize", "emplace_back") or e.kind == "cop" and str(e.val) in ("assign", "push_back", "resize", "emplace_back"):
            a = e.x.get("args") or ()
            v = a[-1] if a else None
        if not isinstance(v, T):
            continue
        if not any(last(x)[1] == "sectorStream" for x in [v] + list(subterms(v))):
            if v is TRUE and not any("sectorCount" in str(l) or any(y.op in ("armw", "aload") for y in subterms(l)) for l in e.pc) and e.thread:
                if any(x is not e and x.kind == "call" and x.loc is not None and isinstance(x.loc, T) and steps(x.loc)[0] is steps(e.loc)[0] and
                       "operator=" in str(x.x.get("name")) and x.seq > e.seq for x in E.events):
                    continue
                ctx.bad(R3, short(e.at), "%s marks frames complete whatever sectors arrived" % reader, key="always complete")
            continue
        found += 1
        try:
            for m in range(16):
                sl = [bool(m >> j & 1) for j in range(4)]
                got = bool(evaluate(v, Env(consts, 5, 0, slots=sl)))
                if got != all(sl):
                    ctx.bad(R3, short(e.at), "%s: marked %s with sectors %s" % (reader, "complete" if got else "incomplete", [j for j in range(4) if sl[j]]), key="count")
                    break
            else:
                ctx.ok(R3, short(e.at), "%s: complete iff all four sectors were found (16 combinations)" % reader)
        except Undecided as u:
            ctx.und(R3, short(e.at), str(u)[:100])
    if not found:
        ctx.und(R3, reader, "no decision on completeness found")


def last_step(l):
    return str(l.args[2]) if l.op == "loc" else str(l)


def same_iteration(f, inc):
    return tuple(f.loops[:len(inc.loops)]) == tuple(inc.loops)


def buffers(ctx, E, reader, consts):
    env = Env(consts, 5, 0)
    for e in E.events:
        if e.kind == "alloc" and isinstance(e.val, T) and "reader" in str(e.at) and "new@" in str(e.loc):
            try:
                n = evaluate(e.val, env)
            except Undecided:
                continue
            if n >= W * H:
                ctx.ok(R6, short(e.at), "%s: %d pixels" % (reader, n))
            else:
                ctx.bad(R6, short(e.at), "%s: buffer of %d pixels for a frame of %d" % (reader, n, W * H), key="buffer")


# ------------------------------------------------------------------ two passes
def twopass(ctx, E, reader, consts, fills):
    for e in fills:
        j = stream_slot(e)
        seeks = [x for x in E.events if x.kind == "io" and str(x.val) == "seekg" and x.thread == e.thread and x.seq < e.seq and x.loc is (e.x.get("stream") or None)]
        seeks = seeks or [x for x in E.events if x.kind == "io" and str(x.val) == "seekg" and x.thread == e.thread and x.seq < e.seq]
        if not seeks:
            ctx.und(R5, short(e.at), "no positioning before the read")
            continue
        a = (seeks[-1].x.get("args") or (None,))[0]
        js = {slot(last(x)[0]) for x in [a] + list(subterms(a)) if last(x)[1] == "offset"} if isinstance(a, T) else set()
        if js == {j}:
            ctx.ok(R5, short(e.at), "sector %s read at its own offset" % j)
        elif js:
            ctx.bad(R5, short(seeks[-1].at), "sector %s is read at the position recorded for sector %s" % (j, sorted(js, key=str)[0]), key="seek")
        else:
            ctx.und(R5, short(seeks[-1].at), "position not recognised: %s" % str(a)[:80])
    # first pass
    for e in E.events:
        assign = e.kind == "call" and str(e.x.get("name")).endswith("operator=")
        if not (e.kind == "write" or assign) or not isinstance(e.loc, T) or e.loc.op != "loc":
            continue
        fld, arr = str(e.loc.args[2]), e.loc.args[0]
        if fld not in ("sectorStream", "offset") or arr.op != "loc" or arr.args[1] not in ("[]", "[*]") or not e.thread:
            continue
        idx = arr.args[2]
        if not isinstance(idx, T):
            continue
        o, n = last(idx)
        if fld == "sectorStream":
            ptr = leaves_of(e.val)
            tgt = mk("loc", ptr[0][0], "[]", ptr[0][1]) if ptr else None
            if n == "sector" and tgt is not None and (o is tgt or str(o) == str(tgt)):
                ctx.ok(R5, short(e.at), "location recorded under the sector of its stream")
            elif isnum(idx) or idx.op in ("armw", "k") or n not in (None, "sector"):
                ctx.bad(R5, short(e.at), "the location is recorded under %s, not under its sector" % str(idx)[:60], key="record")
            else:
                ctx.und(R5, short(e.at), "recorded under %s" % str(idx)[:60])
        else:
            io = [x for x in E.events if x.kind == "io" and x.thread == e.thread and x.seq < e.seq]
            if io and str(io[-1].val) == "tellg" or not assign and isinstance(e.val, T) and any(y.op == "io" and y.args[0] == "tellg" for y in [e.val] + list(subterms(e.val))):
                tell = [x for x in io if str(x.val) == "tellg"][-1]
                reads = [x for x in E.events if x.kind == "fillbuf" and x.thread == e.thread and same_iteration(x, tell)]
                skips = [x for x in E.events if x.kind == "io" and x.thread == e.thread and str(x.val) in ("seekg", "ignore") and tell.loops == x.loops[:len(tell.loops)]]
                if any(x.seq > tell.seq for x in reads):
                    ctx.bad(R5, short(tell.at), "the position is taken before the header has been read", key="tell")
                elif any(x.seq < tell.seq for x in skips):
                    ctx.bad(R5, short(tell.at), "the position is taken after the data has been skipped", key="tell")
                else:
                    ctx.ok(R5, short(tell.at), "position taken between header and data")
                for x in skips:
                    a = (x.x.get("args") or (None,))[0]
                    if not isinstance(a, T):
                        continue
                    vals = set()
                    try:
                        for v in (4, 5):
                            vals.add(evaluate(a, Images(consts, v, 0)))
                    except Undecided as u:
                        ctx.und(R5, short(x.at), "skipped bytes: %s" % str(u)[:100])
                        continue
                    if vals == {144 * 576 * 2}:
                        ctx.ok(R5, short(x.at), "skips the sector's %d bytes" % (144 * 576 * 2))
                    else:
                        ctx.bad(R5, short(x.at), "skips %s bytes, a sector has %d" % (sorted(vals), 144 * 576 * 2), key="skip")
            else:
                ctx.und(R5, short(e.at), "recorded position: %s" % str(e.val)[:80])


class Images(Env):
    def __call__(self, t):
        o, f = last(t)
        if f == "imagesInBlock":
            return 1
        return Env.__call__(self, t)
