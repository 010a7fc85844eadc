"""Every place where the library starts a task (thread pool constructor, the readers' readAll and
scan map, the image sums) is analysed in the function that drives it, with the task inlined.
For every object of another thread that a task uses - captured by reference, reached through a
captured pointer, or owned by an object that is - the lifetime is compared with the waits for
the task: the object must outlive a wait that covers all the tasks (a wait loop must reach every
future), and this must also hold when the function is left by an exception: either the wait is
in a destructor that runs before the object's (pool or guard declared after the object), or
nothing between start and wait can throw.  Containers whose elements tasks use may not be
changed while they run, shared buffers must be owned by the task's own copy, and the pool's
destructor must wait for all of its workers."""
import c04
import race
import tasks
from conc import *

R1 = "object outlives the tasks that use it"
R2 = "also when the function is left by an exception"
R3 = "container is not changed while tasks use its elements"
R4 = "shared buffer is owned by the task that uses it"
R5 = "wait covers every task"
R6 = "the pool's destructor waits for its workers"

SKIP = ("stempy::StreamReader::read", "stempy::SectorStreamReader::read", "stempy::PyReader::read",
        "stempy::SectorStreamThreadedReader::read")


def image_functions():
    out = []
    for f in all_functions({"stempy::createSTEMImages", "stempy::radialSum"}):
        if "Iterator" in f["key"].split("|")[0] or "iterator" in f["key"].split("|")[0]:
            out.append(f)
    return out


def units(ctx):
    return [(f, PURE) for r, f in counting_functions(targs=("float, true",))] + [(f, SKIP) for f in image_functions()]


def check(ctx):
    us = units(ctx)
    ctx.require(us, "no function that starts tasks found")
    ts = [lambda c, f=f, o=o: one(c, f, o) for f, o in us]
    ts.append(pool)
    ctx.parallel(ts)


def run(ctx, f, opaque):
    return analyse(ctx, f, opaque=opaque, hooks=c04.guard_hooks())


def one(ctx, f, opaque):
    E = run(ctx, f, opaque)
    if E is None:
        return
    K = tasks.Tasks(E)
    started = [t for t, d in E.threads.items() if d.get("kind") != "thread" or True]
    n = 0
    for t in started:
        sp = K.spawn_of(t)
        if not sp:
            continue
        n += 1
        for r, (d, use) in sorted(K.own(t).items(), key=lambda x: str(x[0])):
            lifetime(ctx, E, K, t, sp, r, d, use)
        ownership(ctx, E, K, t, sp)
    ctx.count("kinds of task", n)
    if not n:
        ctx.und(R1, where(f), "no task found")
    containers(ctx, E, K)
    for j in K.joins:
        if j.cover == "partial":
            ctx.bad(R5, short(j.ev.at), "%s, tasks may still be running" % j.why, key="partial:" + j.ev.fn_name() if hasattr(j.ev, "fn_name") else "partial")
        elif j.cover == "unknown":
            ctx.und(R5, short(j.ev.at), j.why)
        else:
            ctx.ok(R5, short(j.ev.at), "tasks %s" % sorted(j.tids))


def oname(r):
    import re
    return re.sub(r"#\d+", "", str(r))[:60]


def lifetime(ctx, E, K, t, sp, r, d, use):
    """declaring event d of r; use: event in which task t reaches it"""
    th = d.thread
    at = short(sp[0].at)
    # direct child of the declaring thread on the way to t
    way = K.order.ancestors(t)
    child = way[way.index(th) - 1]
    start = [s for s in K.spawns if s.x.get("tid") == child and s.thread == th]
    if not start:
        return
    first, last = start[0], start[-1]
    pools = {s.loc for s in sp if s.loc is not None}
    if any(isinstance(p, T) and steps(p)[0] is r for p in pools) or E.threads[t].get("kind") == "thread" and r.args[0] == "tmp":
        return                                   # the pool itself: its destructor is examined separately
    if E.threads[t].get("kind") == "thread":
        # the pool's workers use the pool
        return
    joins = [j for j in K.joins if j.thread == th and t in K.closure(j)]
    ctx.count("objects shared with tasks")
    fr = frame_of(d)
    # end of the frame that declares it
    leave = [e for e in E.events if e.kind == "leave" and e.thread == th and tasks.frame(e) == fr[:-1] and e.seq > last.seq] if len(fr) > 1 else []
    ends = leave[0].seq if leave else None
    guards = []
    for j in joins:
        if not j.guard:
            continue
        g = guard_decl(E, K, j, th)
        if g is None:
            continue
        extra = [l for l in j.ev.pc if "pending@" not in str(l) and l not in g.pc and not any(l in e.pc for e in leftover(E, j, g))]
        guards.append((j, g, extra))
    for j, g, extra in guards:
        if g.seq > d.seq and inside(g, d) and not (ends is not None and j.seq > ends):
            if extra and j.ev.kind != "join_pool" and not tail_only(E, j, extra):
                continue
            thrower = tasks.throwers(E, th, first.seq, g.seq)
            if thrower is None and t in K.closure(j, safe=True):
                ctx.ok(R1, at, "%s: %s waits before it is destroyed" % (oname(r), oname(steps(g.loc)[0])))
                ctx.ok(R2, at, "%s: destructor of %s" % (oname(r), oname(steps(g.loc)[0])))
                return
    normal = [j for j in joins if not j.guard and j.seq > last.seq and (ends is None or j.seq < ends)
              and set(d.loops or ()) <= set(j.ev.loops or ())]
    late = [(j, g) for j, g, x in guards if g.seq < d.seq]
    early = [j for j, g, x in guards if g.seq > d.seq and t not in K.closure(j, safe=True)]
    what = "%s (declared at %s) is used by the task" % (oname(r), short(d.at))
    if not normal:
        if any(j.cover == "unknown" for j in K.joins):
            ctx.und(R1, at, what)
            return
        why = "nothing waits for the task before it is destroyed"
        if ends is not None:
            why = "the function that declares it returns before the task is waited for"
        elif d.loops and joins:
            why = "it is destroyed at the end of the iteration, the task is waited for later"
        elif late:
            why = "it is destroyed before %s, which waits for the task" % oname(steps(late[0][1].loc)[0])
        ctx.bad(R1, at, what + "; " + why, key="lifetime:%s" % oname(r))
        return
    ctx.ok(R1, at, "%s: waited for at %s" % (oname(r), short(normal[0].ev.at)))
    for j in normal:
        covers = K.closure(j, safe=True)
        thrower = tasks.throwers(E, th, first.seq, j.seq)
        if thrower is None and t in covers:
            ctx.ok(R2, at, "%s: nothing can throw between start and wait" % oname(r))
            return
    thrower = tasks.throwers(E, th, first.seq, 1 << 60)
    ctx.bad(R2, at, what + "; when %s throws it is destroyed while the task may still run%s" %
            (short(thrower.at) if thrower is not None else "a task",
             ", " + oname(steps(late[0][1].loc)[0]) + " waits only after that" if late else
             ", the wait at %s ends with the first task that fails" % short(early[0].ev.at) if early else ""), key="unwind:%s" % oname(r))


def frame_of(d):
    return tasks.frame(d)


def leftover(E, j, g):
    return [e for e in E.events if e.thread == j.thread and e.seq > g.seq and e.seq < j.seq and len(e.stack or ()) <= len(g.stack or ())]


def tail_only(E, j, extra):
    return False


def inside(g, d):
    fg, fd = tasks.frame(g), tasks.frame(d)
    return fg[:len(fd)] == fd[:len(fg)] and len(fg) <= len(fd) or fg == fd


def guard_decl(E, K, j, th):
    """declaration of the object whose destructor contains the wait"""
    if j.ev.kind == "join_pool":
        r = steps(j.ev.loc)[0]
        return K.decl.get(r)
    # the object whose destructor it is: the type named by the frame
    cls = None
    for s in (j.ev.stack or ()):
        if "~" in str(s):
            cls = str(s).split("~")[-1].split("(")[0].split("<")[0]
    for e in E.events:
        if e.kind == "declare" and e.thread == th and isinstance(e.loc, T):
            ty = e.x.get("ty") if e.x else None
            ty = ty or E.root_ty.get(steps(e.loc)[0])
            n = str(ty.base.s if ty is not None and hasattr(ty, "base") else ty)
            if cls and n.split("::")[-1].split("<")[0].strip() == cls:
                return e
    return None


def ownership(ctx, E, K, t, sp):
    """memory reached through a shared pointer that the task does not own"""
    ths = {t} | {x for x in E.threads if t in K.order.ancestors(x)}
    shared = {}
    for e in E.events:
        if e.kind in ("release", "shared") and isinstance(e.val, T):
            shared.setdefault(e.val, e)
    seen = set()
    for e in E.events:
        if e.thread not in ths or not isinstance(e.loc, T):
            continue
        r = steps(e.loc)[0]
        if r.op != "deref" or r in seen:
            continue
        p = r.args[0]
        if p not in shared:
            continue
        seen.add(r)
        # created by the task itself
        if any(x.thread in ths and x.val is p and x.kind == "shared" for x in E.events):
            continue
        for s in sp:
            h = s.x.get("held") or {}
            own = [l for l, v in h.items() if steps(l)[0] not in K.decl and any(v is x for x in whole(p))]
            if own:
                ctx.ok(R4, short(s.at), "buffer used at %s is held by the task's copy" % short(e.at))
                break
        else:
            if any(x is v for x in whole(p) for s in sp for v in (s.x.get("held") or {}).values()):
                ctx.und(R4, short(e.at), "buffer held through a captured reference")
            elif next(mentions_shared(p)):
                ctx.bad(R4, short(e.at), "the task uses a buffer that only the caller's block owns; the next block replaces it", key="buffer")


def whole(p):
    """p and the objects it is a member of"""
    yield p
    while True:
        if p.op == "proj":
            p = p.args[0]
        elif p.op == "val" and p.args[0].op == "loc":
            p = mk("val", p.args[0].args[0])
        else:
            return
        yield p


def mentions_shared(p):
    p = list(whole(p))[-1]
    yield p.op in ("phi", "val")


def containers(ctx, E, K):
    roots = set()
    for t in E.threads:
        for r, (d, e) in K.own(t).items():
            roots.add(r)
    if not roots:
        return
    rs = race.analyse_races(E, lambda r, st: r in roots)
    n = 0
    for r in rs:
        for a, b in ((r.a, r.b), (r.b, r.a)):
            if not (a.w and a.e.kind in ("cop", "release", "uptr_dtor") or a.grow):
                continue
            if b.e.thread == a.e.thread:
                continue
            n += 1
            if r.how:
                ctx.ok(R3, short(a.e.at), "%s [%s]" % (name(a), r.how))
            elif not b.cont or b.w:
                ctx.bad(R3, short(a.e.at), "%s is changed while a task may use it at %s" % (name(a), short(b.e.at)), key="container:" + name(a))
            break
    ctx.count("changes of containers that tasks use", n)


def pool(ctx):
    fs = [f for f in all_functions() if f["f"].startswith("ThreadPool::") and f.get("body")]
    d = [f for f in fs if "~" in f["f"]]
    if not d:
        ctx.bad(R6, "ThreadPool", "the pool has no destructor, its threads are destroyed while they run", key="pool dtor")
        return
    E = analyse(ctx, d[0])
    if E is None:
        return
    js = [e for e in E.events if e.kind == "join"]
    if not js:
        ctx.bad(R6, where(d[0]), "the workers are not joined", key="pool join")
    for j in js:
        c, why = tasks.coverage(E, j)
        if c == "full":
            ctx.ok(R6, short(j.at), "every worker is joined")
        elif c == "partial":
            ctx.bad(R6, short(j.at), why, key="pool join")
        else:
            ctx.und(R6, short(j.at), why or "one worker")
