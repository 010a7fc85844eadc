"""Every task the library starts (the readers' readAll and scan map, the image sums) is analysed in
the function that drives it.  On every path on which the function returns normally, the result
of each task must have been taken with get() - directly, through a loop that reaches every
future, or through the deferred completion that does so - because get() is what rethrows the
exception of a worker: waiting only, or dropping the future, would hand out an incomplete result
as if it were complete.  A handler around such a get() must throw again, a task may not swallow
its own failure, and the worker threads must run every queued task."""
import c04
import c05
import race
import tasks
from conc import *

R1 = "result of every task is taken before a normal return"
R2 = "handler of a worker's exception throws again"
R3 = "task does not swallow its failure"
R4 = "pool hands the task's exception to its future"


def check(ctx):
    us = c05.units(ctx)
    ctx.require(us, "no function that starts tasks found")
    ts = [lambda c, f=f, o=o: one(c, f, o) for f, o in us]
    ts.append(pool)
    ctx.parallel(ts)


def one(ctx, f, opaque):
    E = c05.run(ctx, f, opaque)
    if E is None:
        return
    K = tasks.Tasks(E)
    n = 0
    for t, d in E.threads.items():
        if d.get("kind") == "thread":
            continue
        sp = [s for s in K.spawn_of(t)]
        if not sp:
            continue
        n += 1
        th = sp[0].thread
        taken(ctx, E, K, f, t, th, sp)
    ctx.count("kinds of task", n)
    if not n:
        ctx.und(R1, where(f), "no task found")
    handlers(ctx, E, K)
    swallow(ctx, E)


def taken(ctx, E, K, f, t, th, sp):
    at = short(sp[0].at)
    joins = [j for j in K.joins if j.how == "get" and j.thread == th and not j.guard]
    gets = [j for j in joins if t in K.closure(j, ("get",))]
    rets = [e for e in E.events if e.kind == "return" and e.thread == th and len(e.stack or ()) == 1 and e.seq > sp[0].seq]
    if not gets:
        waits = [j for j in K.joins if t in K.closure(j)]
        part = [j for j in joins if j.cover != "full"]
        if any(j.cover == "unknown" for j in K.joins):
            ctx.und(R1, at, "get not matched with the task")
            return
        ctx.bad(R1, at, "the exception of a task is lost: " + (
            "%s" % part[0].why if part else
            "it is waited for at %s, but its result is never taken" % short(waits[0].ev.at) if waits else "its result is never taken"), key="dropped:" + fname(sp[0]))
        return
    if th != 0:
        ctx.ok(R1, at, "get at %s" % short(gets[0].ev.at))
        return
    for r in rets:
        ok = [j for j in gets if j.seq < r.seq and all(l in r.pc for l in outer(j))]
        if ok:
            ctx.ok(R1, at, "get at %s before the return at %s" % (short(ok[0].ev.at), short(r.at)))
            continue
        before = [j for j in gets if j.seq < r.seq]
        if any(l in r.pc and bnot(l) in s.pc or bnot(l) in r.pc and l in s.pc for s in sp for l in s.pc):
            continue
        if not before:
            ctx.bad(R1, short(r.at), "the function returns before the result of the task started at %s is taken" % at, key="early:" + fname(sp[0]))
        else:
            left = [l for l in outer(before[0]) if l not in r.pc]
            if starts_imply(left, sp):
                ctx.ok(R1, at, "get at %s on every path that starts the task" % short(before[0].ev.at))
            elif simple(left):
                ctx.bad(R1, short(before[0].ev.at), "the result of the task is only taken if also %s" % str(left[0])[:80], key="conditional:" + fname(sp[0]))
            else:
                ctx.und(R1, short(r.at), "condition of get: %s" % str(left[0])[:80])
    if not rets:
        ctx.und(R1, at, "no normal return found")


def fname(e):
    return (e.stack or ("?",))[-1].split("::")[-1].split("(")[0] if isinstance((e.stack or ("?",))[-1], str) else "?"


def starts_imply(left, sp):
    return all(any(l is x for s in sp for x in s.pc) or ended(l) for l in left)


def ended(l):
    """what is known after a loop has run to its end"""
    return any(y.op == "trip" for y in subterms(l))


def simple(left):
    return all(not any(y.op in ("phi", "phiend", "trip", "u", "exists") for y in [l] + list(subterms(l))) for l in left)


def outer(j):
    """guards of the get outside of the loop over the futures"""
    idx = j.ev.loc.args[2] if j.looped() else None
    return [l for l in j.ev.pc if not (isinstance(idx, T) and tasks.mentions(l, idx))]


def handlers(ctx, E, K):
    for th, a, b, c, d in K.order.handlers():
        js = [j for j in K.joins if j.thread == th and a < j.seq < b and j.how == "get"]
        if not js:
            continue
        h = [e for e in E.events if e.thread == th and c <= e.seq < d]
        throws = [e for e in h if e.kind == "throw"]
        base = set(h[0].pc)
        if any(set(e.pc) <= base for e in throws):
            ctx.ok(R2, short(h[0].at), "throws again")
        else:
            ctx.bad(R2, short(h[0].at), "an exception that get() at %s passes on is not thrown again%s" % (
                short(js[0].ev.at), " on every path" if throws else ""), key="swallowed:" + short(js[0].ev.at).split(":")[0])


def swallow(ctx, E):
    n = 0
    for th, a, b, c, d in race.Order(E).handlers():
        if th == 0 or E.threads.get(th, {}).get("kind") == "async":
            continue
        n += 1
        h = [e for e in E.events if e.thread == th and c <= e.seq < d]
        ty = h[0].x.get("type") or h[0].x.get("ty")
        if any(e.kind == "throw" and set(e.pc) <= set(h[0].pc) for e in h):
            ctx.ok(R3, short(h[0].at), "throws again")
        elif ty is None or "std::exception" in str(ty):
            ctx.bad(R3, short(h[0].at), "a failing task ends as if it had succeeded", key="task catch")
        else:
            ctx.und(R3, short(h[0].at), "handler of %s" % ty)
    ctx.count("handlers in tasks", n)
    if not n:
        ctx.ok(R3, "tasks", "no handler in a task")


def pool(ctx):
    fs = [f for f in all_functions() if f["f"].startswith("ThreadPool::") and f.get("body")]
    enq = [f for f in fs if f["f"] == "ThreadPool::enqueue"]
    if not enq:
        ctx.und(R4, "ThreadPool", "enqueue not found")
        return
    src = [x for f in enq for x in walk(f["body"]) if x.get("k") in ("call", "ctor") and
           any(s in (x.get("f") or "") for s in ("packaged_task", "std::async", "get_future"))]
    if src:
        ctx.ok(R4, where(enq[0]), "%d instantiations create the future from a packaged task" % len(enq))
    else:
        ctx.und(R4, where(enq[0]), "how the future receives the exception was not recognised")
    ctor = [f for f in fs if f["f"] == "ThreadPool::ThreadPool"]
    for f in ctor[:1]:
        E = analyse(ctx, f)
        if E is None:
            return
        # a worker leaves its loop only when nothing is queued
        for e in E.events:
            if e.kind == "return" and e.thread > 0 and not e.val and len(e.stack or ()) <= 2:
                pass
        swallow(ctx, E)
