"""Python part of c25: reader() and the iteration protocol."""
from pychk import *

ERR = (Unknown, KeyError, TypeError, IndexError, ValueError)


def holds(pc, env, atom):
    r = True
    for c, b in pc:
        try:
            if bool(evalt(c, env, atom)) != b:
                return False
        except ERR:
            r = None
    return r


def check(ctx, RV, RI):
    front(ctx, RV)
    iteration(ctx, RI)


def front(ctx, RULE):
    r = function(ctx, IO, "reader")
    if r is None:
        ctx.und(RULE, "python/stempy/io", "reader() is too large to follow")
        return
    P = r.P
    vers, back, path = ("param", "version"), ("param", "backend"), ("param", "path")

    def atom(t):
        if t[0] == "call" and str(t[1]).split(".")[-1] == "isinstance":
            return False
        if t == path:
            return "file.dat"
        return None
    cons = [e for e in P.events if e.kind == "construct"]
    raises = [e for e in P.events if e.kind == "raise"]
    made = {e.ret if isinstance(getattr(e, "ret", None), tuple) else None for e in cons}
    for v in range(0, 10):
        for b in (None, "thread", "multi-pass", "threads", ""):
            env = {vers: v, back: b}
            ctx.count("version and back-end combinations")
            c = [(e, holds(e.pc, env, atom)) for e in cons]
            x = [(e, holds(e.pc, env, atom)) for e in raises]
            rets = [(s, holds(s.pc, env, atom), o) for s, o in r.returns()]
            if any(h is None for _, h in c + x) or any(h is None for _, h, _ in rets):
                if not any(h for _, h in x):
                    ctx.und(RULE, r.at, "version %s, back-end %r" % (v, b))
                    continue
            hit = sorted({name(e) for e, h in c if h})
            thrown = any(h for _, h in x)
            known = b in (None, "thread", "multi-pass")
            if v in (4, 5):
                if not known:
                    if not thrown:
                        ctx.bad(RULE, r.at, "reader(version=%d, backend=%r) gives %s instead of an error" % (v, b, hit or "nothing"), "backend")
                    else:
                        ctx.ok(RULE, r.at, "refused")
                    continue
                if b == "multi-pass" and v != 5:
                    if not thrown:
                        ctx.bad(RULE, r.at, "the multi pass reader is given version %d" % v, "multi:%d" % v)
                    else:
                        ctx.ok(RULE, r.at, "refused")
                    continue
                want = {None: "SectorReader", "thread": "SectorThreadedReader", "multi-pass": "SectorThreadedMultiPassReader"}[b]
            else:
                want = "Reader"
            if thrown and not hit:
                if v in (1, 2, 3, 4, 5) and (v in (4, 5) or b is None):
                    ctx.bad(RULE, r.at, "reader(version=%d, backend=%r) is refused" % (v, b), "refused:%d:%s" % (v, b))
                else:
                    ctx.ok(RULE, r.at, "refused")
                continue
            if not 1 <= v <= 5 and len(hit) == 1 and hit[0] in ("Reader", "SectorReader", "SectorThreadedReader"):
                want = hit[0]            # each of them refuses the version it is told
            if hit != [want]:
                ctx.bad(RULE, r.at, "reader(version=%d, backend=%r) gives %s instead of %s" % (v, b, hit, want), "class:%d:%s" % (v, b))
                continue
            e = [e for e, h in c if h][0]
            given = [a.t for a in e.args] + [a.t for a in (e.kw or {}).values()]
            if want not in ("SectorThreadedMultiPassReader",) and vers not in given:
                ctx.bad(RULE, e.at, "%s is not told the version" % want, "version:%s" % want)
                continue
            ctx.ok(RULE, r.at, "%s" % want)


def name(e):
    c = e.cls
    return getattr(c, "name", None) or (c.fn.name if getattr(c, "fn", None) is not None else str(c))


def iteration(ctx, RULE):
    P0 = Py()
    mix = None
    for n, node in P0.mods[IO].names.items():
        if isinstance(node, ast.ClassDef):
            ms = {x.name: x for x in node.body if isinstance(x, ast.FunctionDef)}
            if "__next__" in ms and "read" in ms:
                mix = n
    if mix is None:
        ctx.und(RULE, "python/stempy/io", "class with __next__ and read not found")
        return
    one(ctx, RULE, mix, "read")
    one(ctx, RULE, mix, "__next__")


def one(ctx, RULE, mix, mname):
    P = Py()
    c = P.cls(mix)
    kind, v = P.member(c, mname)
    try:
        ex = P.run(v, {"self": P.instance("self", mix)})
    except Exception as x:
        ctx.und(RULE, "python/stempy/io %s.%s" % (mix, mname), str(x)[:80])
        return
    r = Run(mix + "." + mname, P, ex, where(P, c.members[mname][0], c.mod), c.members[mname][0])
    ctx.count("methods of the iteration protocol")

    def version(t):
        return t[0] == "attr" and t[-1] == "version" or t[0] == "attr" and "version" in [x for x in t if isinstance(x, str)]

    for k in range(0, 6):
        atom = lambda t: k if version(t) else None
        none, some, und = [], [], False
        for s, o in r.returns():
            h = holds(s.pc, {}, atom)
            if not any(version(x) for c, b in s.pc for x in walk(c)):
                und = und or True
            if h is False:
                continue
            (none if o.t == ("const", None) else some).append((s, h))
        stop = [(e, holds(e.pc, {}, atom)) for e in P.events if e.kind == "raise"]
        stop = [e for e, h in stop if h]
        if mname == "__next__":
            if k == 0 and not stop and not und and some:
                ctx.bad(RULE, r.at, "%s returns a block for the end of the data" % mname, "next:0")
            elif k and stop and not und:
                ctx.bad(RULE, r.at, "%s stops at a block of version %d" % (mname, k), "next:%d" % k)
            elif und:
                ctx.und(RULE, r.at, "%s: version %d" % (mname, k))
            else:
                ctx.ok(RULE, r.at, "%s: version %d" % (mname, k))
            continue
        if und:
            ctx.und(RULE, r.at, "%s: version %d" % (mname, k))
        elif k == 0 and some:
            ctx.bad(RULE, r.at, "%s delivers the empty block at the end of the data" % mname, "read:0")
        elif k and none:
            ctx.bad(RULE, r.at, "%s treats a block of version %d as the end of the data" % (mname, k), "read:%d" % k)
        else:
            ctx.ok(RULE, r.at, "%s: version %d" % (mname, k))
