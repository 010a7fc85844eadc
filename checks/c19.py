"""For every counting function the container returned as the data of the result is traced back: its
number of positions (last size-changing operation on the container itself) must be the product of
the scan dimensions stored in the result, and those must be the options' (the header's when the
options have none).  The last operation that changes the length of a position's list of frames must
be applied to all positions (index from 0 to the number of positions), with one length that does not
depend on the position and, when lists may already have grown, is not below any of their lengths.
No task that writes the container may still run at that operation, at the reading of the lengths or
when the result takes the container, and nothing may change a length afterwards."""
from conc import *
from race import Order

R1 = "positions = reported scan width * height"
R2 = "every position gets the same number of frames"
R3 = "no frame is dropped when lengths are made equal"
R4 = "result built after all workers have finished"
R5 = "reported dimensions are those used"
SIZES = ("resize", "assign", "push_back", "emplace_back", "insert", "emplace", "clear", "pop_back",
         "erase", "operator=", "swap", "ctor")


def check(ctx):
    ts, n = [], [0, 0]
    for r, f in counting_functions(targs=("float, true",)):
        if "Threaded" in r:
            n[0] += 1
        ts.append(lambda c, f=f, r=r: one(c, f, r, PURE))
    for f in all_functions({"stempy::electronCount"}):
        k = f["key"].split("|")[0]
        if len(f["params"]) == 3 and k.endswith(", float, true>"):
            n[1] += 1
            r = k.split("<")[-1].split(",")[0].replace("stempy::", "").strip(">")
            ts.append(lambda c, f=f, r=r: one(c, f, "iterator " + r, CLASSIC))
    ctx.require(n[0] >= 2 and n[1] >= 3, "counting functions not found")
    ctx.parallel(ts)


CLASSIC = ("stempy::maximalPoints", "stempy::applyRowDark")


def names(t):
    """field names on the way to the value t denotes"""
    out = []
    while isinstance(t, T):
        if t.op == "proj":
            if t.args[1] == ".":
                out.append(str(t.args[2]))
            t = t.args[0]
        elif t.op == "val":
            t = t.args[0]
        elif t.op == "loc":
            if t.args[1] == ".":
                out.append(str(t.args[2]))
            t = t.args[0]
        elif t.op in ("aload",):
            t = t.args[0]
        else:
            break
    return out


def element(l, root):
    """index term when l is an element of the container root"""
    if isinstance(l, T) and l.op == "loc" and l.args[0] is root and l.args[1] in ("[]", "[*]"):
        return l.args[2] if l.args[1] == "[]" else ZERO
    return None


def one(ctx, f, label, opaque):
    E = analyse(ctx, f, opaque=opaque)
    if E is None or E.result is None:
        ctx.und(R1, where(f), label)
        return
    res = E.result
    data = mk("loc", res, ".", "data")
    wide_enough(ctx, E, "positions and image numbers are kept in types that hold them", label)
    O = Order(E)
    # which container becomes the data of the result?
    src, taken = data, None
    for e in E.events:
        if e.kind == "cop" and isinstance(e.loc, T) and e.loc.op == "loc" and e.loc.args[1] == "." and e.loc.args[2] == "data" \
                and str(e.loc).startswith("ret") and (e.val == "operator=" or e.x.get("name") == "operator="):
            a = e.x.get("args") or ()
            if a and isinstance(a[0], T) and a[0].op in ("root", "loc"):
                src, taken = a[0], e
    if src is data:
        ctx.note("%s: the result's data is filled directly" % label)
    at0 = short(taken.at) if taken else where(f)

    # R5 dimensions reported
    def dim(F, x):
        return E.lookup(mk("loc", mk("loc", res, ".", F), ".", x))
    for x in ("first", "second"):
        v = dim("frameDimensions", x)
        ls = [l for l in leaves(v)]
        if any(isnum(l) for l in ls):
            ctx.bad(R5, at0, "%s: frameDimensions.%s of the result is never set (%s)" % (label, x, str(v)[:40]), key="frame:%s:%s" % (label, x))
        else:
            ok = all(names(l)[:2] == [x, "frameDimensions"] for l in ls)
            wrong = [l for l in ls if len(names(l)) >= 2 and (names(l)[1] in ("scanDimensions", "frameDimensions")) and names(l)[:2] != [x, "frameDimensions"]]
            if ok:
                ctx.ok(R5, at0, "%s: frameDimensions.%s = %s" % (label, x, str(v)[:60]))
            elif wrong:
                ctx.bad(R5, at0, "%s: frameDimensions.%s of the result is %s" % (label, x, str(wrong[0])[:80]), key="frame:%s:%s" % (label, x))
            else:
                ctx.und(R5, at0, "%s: frameDimensions.%s = %s" % (label, x, str(v)[:60]))
        v = dim("scanDimensions", x)
        ls = [l for l in leaves(v)]
        given = [l for l in ls if "options" in str(l)]
        if any(isnum(l) for l in ls):
            ctx.bad(R5, at0, "%s: scanDimensions.%s of the result is never set (%s)" % (label, x, str(v)[:40]), key="scan:%s:%s" % (label, x))
        elif any(len(names(l)) >= 2 and names(l)[1] in ("scanDimensions", "frameDimensions") and names(l)[:2] != [x, "scanDimensions"] for l in ls):
            ctx.bad(R5, at0, "%s: scanDimensions.%s of the result is %s" % (label, x, str(v)[:80]), key="scan:%s:%s" % (label, x))
        elif all(names(l)[:2] == [x, "scanDimensions"] for l in ls) and not given:
            ctx.bad(R5, at0, "%s: the scan dimensions given in the options are not used in scanDimensions.%s" % (label, x), key="scan:%s:%s" % (label, x))
        elif all(names(l)[:2] == [x, "scanDimensions"] for l in ls):
            ctx.ok(R5, at0, "%s: scanDimensions.%s = %s" % (label, x, str(v)[:60]))
        else:
            ctx.und(R5, at0, "%s: scanDimensions.%s = %s" % (label, x, str(v)[:60]))

    # R1 number of positions
    prod = mul(dim("scanDimensions", "first"), dim("scanDimensions", "second"))
    last = None
    for e in E.events:
        if e.kind == "cop" and e.loc is src and e.x.get("write") and opname(e) in SIZES:
            last = e
    n = None
    end = E.size(src)
    fin = E.size(data)
    if last is not None and opname(last) in ("resize", "assign") and last.x.get("args"):
        n = last.x["args"][0]
    if n is None:
        n = end if isinstance(end, T) and end.op != "fresh" and "join" not in str(end)[:8] else fin
    at = short(last.at) if last is not None else at0
    if last is not None and O_loop(last):
        ctx.und(R1, at, "%s: resized in a loop" % label)
    elif n is prod:
        ctx.ok(R1, at, "%s: %s" % (label, str(n)[:80]))
    else:
        w = differ(n, prod)
        if w is True:
            ctx.bad(R1, at, "%s: the container has %s positions, the result reports %s" % (label, str(n)[:100], str(prod)[:100]), key="positions:%s" % label)
        elif w is False:
            ctx.ok(R1, at, "%s: %s" % (label, str(n)[:80]))
        else:
            ctx.und(R1, at, "%s: %s against %s" % (label, str(n)[:80], str(prod)[:80]))
    if last is not None and last.thread != 0:
        ctx.bad(R4, at, "%s: a worker changes the number of positions" % label, key="grow:%s" % label)

    # R2/R3: lengths of the lists of frames
    ch = [e for e in E.events if e.kind == "cop" and e.x.get("write") and element(e.loc, src) is not None and opname(e) in SIZES]
    ctx.count("operations changing a position's frames", len(ch))
    if not ch:
        ctx.und(R2, at0, "%s: no operation on the positions found" % label)
        return
    # equalising operation: walks over consecutive positions in the calling thread
    eq = [e for e in ch if e.thread == 0 and e.loops and walks(E, e, src)]
    if not eq:
        if label.startswith("iterator") or not any(x for x in ch if opname(x) in ("resize", "emplace_back", "push_back", "insert")):
            ctx.und(R2, at0, "%s: no equalising operation recognised" % label)
        elif equalised_elsewhere(E, src, taken):
            ctx.und(R2, at0, "%s: lengths are changed in a way the analysis does not follow" % label)
        else:
            ctx.bad(R2, at0, "%s: positions grow one by one (%s) and are never brought to one length before the result takes them" % (label, short(ch[-1].at)), key="noequal:%s" % label)
        return
    pad = eq[-1]
    at = short(pad.at)
    lp = pad.loops[-1]
    k = mk("k", lp.uid)
    total = {str(end), str(fin), str(prod), str(n)}
    idx = element(pad.loc, src)
    off = sub(idx, k)
    trip = lp.trip
    a = pad.x.get("args") or (None,)
    if opname(pad) not in ("resize", "assign"):
        ctx.und(R2, at, "%s: %s" % (label, opname(pad)))
        return
    m = a[0]
    # all positions?
    if isnum(off) and off is not ZERO and val_of(off) > 0:
        ctx.bad(R2, at, "%s: the first position is left out" % label, key="range:%s" % label)
    elif off is ZERO and (str(trip) in total):
        ctx.ok(R2, at, "%s: all positions" % label)
    elif off is ZERO and any(isnum(sub(x, trip)) and val_of(sub(x, trip)) > 0 for x in (end, fin, prod, n) if isinstance(x, T)):
        ctx.bad(R2, at, "%s: the walk stops before the last position (%s of %s)" % (label, str(trip)[:60], str(fin)[:60]), key="range:%s" % label)
    else:
        ctx.und(R2, at, "%s: walk over %s, %s positions" % (label, str(trip)[:60], str(fin)[:60]))
    # same length for all
    if any(x is k for x in [m] + list(subterms(m))):
        ctx.bad(R2, at, "%s: the new length %s depends on the position" % (label, str(m)[:80]), key="length:%s" % label)
    else:
        ctx.ok(R2, at, "%s: one length %s" % (label, str(m)[:80]))
    # condition inside the loop
    extra = [p for p in pad.pc if any(x is k for x in [p] + list(subterms(p))) and p is not gt0(sub(trip, k))]
    for p in extra:
        r = condition(E, p, k, m, src, trip)
        if r is True:
            ctx.ok(R2, at, "%s: only skipped when already that long" % label)
        elif r is False:
            ctx.bad(R2, at, "%s: positions for which %s does not hold keep their own length" % (label, str(p)[:80]), key="cond:%s" % label)
        else:
            ctx.und(R2, at, "%s: under %s" % (label, str(p)[:80]))
    # condition around the loop
    base = list(taken.pc) if taken is not None else list(getattr(E.st, "pc", ()))
    for p in pad.pc:
        if p in extra or p is gt0(sub(trip, k)) or any(p is q for q in base):
            continue
        r = around(p, m, trip)
        if r is None:
            ctx.und(R2, at, "%s: only under %s" % (label, str(p)[:80]))
        elif r is True:
            ctx.ok(R2, at, "%s: skipped only when no position has a frame" % label)
        else:
            ctx.bad(R2, at, "%s: lengths are not made equal when %s does not hold, for instance when the longest list has %d frame(s)" % (label, str(p)[:80], r), key="around:%s" % label)
    # later changes
    later = [e for e in ch if e.seq > pad.seq and e is not pad and e.thread == 0 and e.loops[-1:] != pad.loops[-1:]]
    for e in later:
        ctx.bad(R2, short(e.at), "%s: a position's list of frames is changed after the lengths were made equal" % label, key="later:%s" % label)
    # R3 growth before
    grown = [e for e in ch if e is not pad and e.seq < pad.seq or e.thread != 0]
    if grown:
        r, why, reads = covers(E, m, src, pad)
        if r is True:
            ctx.ok(R3, at, "%s: %s" % (label, why))
        elif r is False:
            ctx.bad(R3, at, "%s: %s" % (label, why), key="drop:%s" % label)
        else:
            ctx.und(R3, at, "%s: %s" % (label, why))
    else:
        reads = []
    # R4 workers finished
    W = [e for e in E.events if e.thread != 0 and e.kind == "cop" and e.x.get("write") and (e.loc is src or under_el(e.loc, src))]
    ctx.count("accesses by workers", len(W))
    points = [("made equal", pad)] + [("measured", e) for e in reads] + ([("taken", taken)] if taken is not None else [])
    for what, p in points:
        for w in W:
            if O.concurrent(w, p):
                ctx.bad(R4, short(p.at), "%s: lengths are %s while a worker may still add frames at %s" % (label, what, short(w.at)), key="early:%s:%s" % (label, what))
                break
        else:
            if W:
                ctx.ok(R4, short(p.at), "%s: %s after the workers" % (label, what))


def opname(e):
    return str(e.val if isinstance(e.val, str) else e.x.get("name") or e.val)


def under_el(l, src):
    while isinstance(l, T) and l.op == "loc":
        if l.args[0] is src:
            return True
        l = l.args[0]
    return False


def O_loop(e):
    return bool(e.loops)


def val_of(t):
    return t.args[0]


def leaves(v):
    st, out = [v], []
    while st:
        t = st.pop()
        if isinstance(t, T) and t.op == "ite":
            st += [t.args[1], t.args[2]]
        else:
            out.append(t)
    return out


def walks(E, e, src):
    i = element(e.loc, src)
    lp = e.loops[-1]
    k = mk("k", lp.uid)
    return isnum(sub(i, k))


def equalised_elsewhere(E, src, taken):
    """the container, or a reference into it, goes through code the engine did not follow"""
    top = taken.seq if taken is not None else 1 << 60
    for e in E.events:
        if e.thread != 0 or e.seq > top:
            continue
        if e.kind in ("call", "callback") and any(isinstance(a, T) and (a is src or under_el(a, src)) for a in (e.x.get("args") or ())):
            return True
        if e.kind == "cop" and e.x.get("write") and element(e.loc, src) is not None and e.loops and opname(e) in ("resize", "assign", "insert", "operator="):
            i = element(e.loc, src)
            if any(x.op == "k" and x.args[0] == e.loops[-1].uid for x in [i] + list(subterms(i)) if isinstance(x, T)):
                return True
    return False


def differ(a, b):
    """True when a and b have different values for some sizes, False when equal on all tried"""
    import itertools
    from numeval import NumEval, Undecided
    ats = sorted({x for t in (a, b) for x in atoms(t)}, key=str)
    if len(ats) > 8:
        return None
    bad = 0
    for vs in itertools.islice(itertools.product((3, 5, 0), repeat=len(ats)), 300):
        env = dict(zip(ats, vs))
        try:
            N = NumEval(lambda t: env.get(t))
            va, vb = N.ev(a), NumEval(lambda t: env.get(t)).ev(b)
        except (Undecided, KeyError, TypeError):
            return None
        if va != vb:
            bad += 1
    # unknown values on either side make the comparison meaningless
    if bad and any(x.op not in ("val", "proj") for x in ats):
        return None
    return bad > 0


def atoms(t):
    out, st = set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, T):
            continue
        if x.op in ("val", "proj", "phiend", "trip", "fresh", "aload", "call", "Max", "Sum", "fn1"):
            out.add(x)
            continue
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, (tuple, list)):
                for y in a:
                    if isinstance(y, T):
                        st.append(y)
                    elif isinstance(y, (tuple, list)):
                        for z in y:
                            if isinstance(z, T):
                                st.append(z)
                            elif isinstance(z, (tuple, list)):
                                st += [q for q in z if isinstance(q, T)]
    return out


def is_len(t):
    """is t the length of an element of a container; returns the index"""
    if not isinstance(t, T):
        return None
    if t.op == "val" and t.args[0].op == "loc" and t.args[0].args[1] == "#":
        l = t.args[0].args[0]
        if l.op == "loc" and l.args[1] == "[]":
            return l.args[2]
    if t.op == "proj" and t.args[1] == "#":
        l = t.args[0]
        if l.op == "proj" and l.args[1] == "[]":
            return l.args[2]
    return None


def condition(E, p, k, m, src, trip):
    """does not-p imply that the position already has length m?  p mentions the length of position k"""
    from numeval import NumEval, Undecided
    lens = [x for x in [p] + list(subterms(p)) if is_len(x) is not None]
    if not lens or any(is_len(x) is not k for x in lens):
        return None
    res = True
    for M in (0, 1, 3):
        for s in range(0, M + 1):
            def atom(t, M=M, s=s):
                if t is m:
                    return M
                if is_len(t) is k:
                    return s
                return None
            try:
                v = NumEval(atom).ev(p)
            except (Undecided, TypeError, KeyError):
                return None
            if not v and s != M:
                res = False
    return res


def around(p, m, trip):
    """does p hold whenever the longest list has at least one frame?  The smallest length without, or None"""
    from numeval import NumEval, Undecided

    class Known(NumEval):
        def ev(self, t):
            v = self.atom(t)
            return v if v is not None else NumEval.ev(self, t)
    for M in (1, 2, 3, 4, 7):
        try:
            v = Known(lambda t, M=M: M if t is m else 5 if t is trip else None).ev(p)
        except (Undecided, TypeError, KeyError):
            return None
        if not v:
            return M
    return True


def covers(E, m, src, pad):
    """is m at least the length of every position?"""
    from numeval import NumEval, Undecided
    reads = []

    def reads_of(uid):
        return [e for e in E.events if e.kind == "cop" and element(e.loc, src) is not None and opname(e) in ("size", "length") and e.loops and e.loops[-1].uid == uid]
    if isnum(m):
        return False, "positions are cut to %s frames" % str(m), []
    if m.op == "Max":
        low, lam, trip = m.args[0], m.args[1], m.args[2]
        ph = lam.args[0]
        body = lam.args[1]
        uid = ph.args[0] if isinstance(ph, T) else None
        rd = reads_of(uid) if uid is not None else []
        i = is_len(body)
        if i is ph:
            return whole(E, rd, src, trip, pad)
        if i is not None and isnum(sub(i, ph)):
            return False, "the longest list is looked for from position %s" % str(sub(i, ph)), rd
        return None, "the length is %s" % str(m)[:80], rd
    if m.op in ("Min",):
        return False, "positions are cut to the shortest list", []
    if m.op == "phiend":
        uid, key = m.args[0], m.args[1]
        rec = E.rec.get(uid)
        rd = reads_of(uid)
        if rec is None:
            return None, "the length is %s" % str(m)[:80], rd
        step = None
        for kk, v in rec["eqs"].items():
            if kk is key or isinstance(kk, T) and kk.op == "phi" and kk.args[1] is key:
                step = v
        if step is None:
            return None, "no recurrence for %s" % str(m)[:60], rd
        nxt = step[-1] if isinstance(step, tuple) else step
        phi = [x for x in [nxt] + list(subterms(nxt)) if isinstance(x, T) and x.op == "phi" and x.args[0] == uid]
        lens = [x for x in [nxt] + list(subterms(nxt)) if is_len(x) is not None]
        if not lens:
            return None, "no length in %s" % str(nxt)[:60], rd
        for sizes in ((0, 0, 0), (1, 2, 1), (3, 1, 2), (1, 1, 4), (0, 2, 0)):
            cur = val_of(step[0]) if isinstance(step, tuple) and isnum(step[0]) else 0
            for s in sizes:
                def atom(t, s=s, cur=cur):
                    if t in phi:
                        return cur
                    if is_len(t) is not None:
                        return s
                    return None
                try:
                    cur = NumEval(atom).ev(nxt)
                except (Undecided, TypeError, KeyError):
                    return None, "recurrence %s not evaluated" % str(nxt)[:80], rd
            if cur < max(sizes):
                return False, "with lists of %s frames every position is cut to %s" % (list(sizes), cur), rd
        return whole(E, rd, src, rec.get("trip"), pad)
    i = is_len(m)
    if i is not None:
        return False, "every position is cut to the number of frames of position %s" % str(i)[:40], []
    return None, "the length is %s" % str(m)[:80], []


def whole(E, rd, src, trip, pad):
    tot = pad.loops[-1].trip
    if not isinstance(trip, T):
        return None, "trip count unknown", rd
    if str(trip) == str(tot):
        return True, "longest list of all positions", rd
    d = sub(tot, trip)
    if isnum(d) and val_of(d) > 0:
        return False, "the longest list is looked for in all but %s positions" % str(d), rd
    return None, "longest of %s, walk over %s" % (str(trip)[:40], str(tot)[:40]), rd
