"""Locks, conditions and joins of the counting and reading code are analysed in whole-program
runs (the public counting function with the reader's readAll, its tasks, the callback and the
exit guard inlined, the guard also as it runs when the function is left by an exception), the
thread pool's member functions with a common symbolic pool.  Decided: the graph "acquired while
holding" between lock classes has no cycle and no lock is acquired by a thread that may hold
it; the caller's function is not entered while a reader's or the pool's lock is held; no thread
is waited for under a lock it acquires; every wait re-tests a condition; every change that can
make a waiter's condition true is made under the waiter's lock and followed, on every path on
which the condition may have become true, by a notification that reaches all threads it can
release (notify_one only where one change releases one waiter)."""
import race
from conc import *

R1 = "locks are acquired in one order"
R2 = "no lock is acquired again by its holder"
R3 = "caller's function runs without the library's internal locks"
R4 = "no thread is waited for under a lock it needs"
R5 = "a wait re-tests its condition"
R6 = "condition is changed under the waiter's lock"
R7 = "change is followed by a sufficient wake-up"

SHRINK = ("pop", "pop_front", "pop_back", "clear", "erase", "top", "front")


def check(ctx):
    tasks = [lambda c, r=r, f=f: composite(c, f) for r, f in counting_functions(targs=("float, true",))]
    ctx.require(tasks, "no concurrent counting function found")
    tasks.append(pool)
    ctx.parallel(tasks)


def composite(ctx, f):
    n = [0]

    E = analyse(ctx, f, opaque=PURE, hooks=guard_hooks())
    if E is None:
        return
    order = race.Order(E)
    own = own_locals(E)
    rd = f["params"][0]["n"]
    locks(ctx, E)
    joins(ctx, E, order)
    conditions(ctx, E, E.events, order)
    k = 0
    for e in E.events:
        if e.thread and isinstance(e.loc, type(ZERO)) and steps(e.loc)[0] in own and e.kind in ("lock", "cop", "read", "aload", "wait", "write"):
            k += 1
            inner = [l for l in e.locks if under(steps(l)[0], rd) or any(isinstance(x, type(ZERO)) and x.op == "deref" for x in [steps(l)[0]])]
            if inner:
                ctx.bad(R3, short(e.at), "the caller's function runs while %s is held" % lname(inner[0]), key="callback:" + lname(inner[0]))
                break
    else:
        if k:
            ctx.ok(R3, where(f), "%d accesses of the caller's function examined" % k)


def guard_hooks():
    """exit guards are also analysed as they run when the function is left by an exception:
    whether the future they look at is still pending is unknown"""
    def valid(E, e, *a):
        # mark only inside destructors
        if any("~" in str(fr.name) for fr in E.frames):
            E.eval(e["obj"]) if e.get("obj") else None
            return mk("bool", sym("pending@%s" % E.at(e)))
        return None
    return {k: valid for k in ("std::future::valid", "std::__basic_future::valid", "std::__basic_future<void>::valid", "std::future<void>::valid")}


def lname(l):
    import re
    r, st = steps(l)
    s = re.sub(r"#\d+", "", str(r)) if len(str(r)) < 60 else "(…%s)" % str(r)[-30:]
    for x in st:
        s += "." + str(x.args[2]) if x.args[1] == "." else "[]" if x.args[1] in ("[]", "[*]", "kv") else ""
    return s


def lclass(l):
    r, st = steps(l)
    rn = "deref" if r.op == "deref" else str(r)
    return (rn,) + tuple((x.args[1], str(x.args[2]) if x.args[1] == "." else "") for x in st)


def locks(ctx, E):
    edges = {}
    n = 0
    for e in E.events:
        if e.kind != "lock" or not isinstance(e.loc, type(ZERO)):
            continue
        n += 1
        for h in e.locks:
            if h is e.loc:
                ctx.bad(R2, short(e.at), "%s is acquired while already held" % lname(h), key="reacquire:" + lname(h))
            elif lclass(h) == lclass(e.loc):
                ctx.bad(R1, short(e.at), "two locks of the kind %s are held at once in no fixed order" % lname(h), key="nested:" + lname(h))
            else:
                edges.setdefault(lclass(h), {})[lclass(e.loc)] = (h, e)
    ctx.count("lock acquisitions", n)
    ctx.count("lock-order edges", sum(len(x) for x in edges.values()))

    def reach(a, b, seen):
        if a == b:
            return True
        seen.add(a)
        return any(reach(c, b, seen) for c in edges.get(a, ()) if c not in seen)
    for a in edges:
        for b, (h, e) in edges[a].items():
            if reach(b, a, set()):
                ctx.bad(R1, short(e.at), "%s is acquired while %s is held, and elsewhere the other way round" % (lname(e.loc), lname(h)),
                        key="order:%s:%s" % (lname(h), lname(e.loc)))
            else:
                ctx.ok(R1, short(e.at), "%s before %s" % (lname(h), lname(e.loc)))
    if n:
        ctx.ok(R2, "lock acquisitions", "%d examined" % n)


def joins(ctx, E, order):
    n = 0
    for j in E.events:
        if j.kind not in ("join", "join_pool"):
            continue
        n += 1
        ts = order.closure(j)
        need = [e for e in E.events if e.kind in ("lock", "wait") and e.thread in ts]
        for l in j.locks:
            for e in need:
                m = e.loc if e.kind == "lock" else e.val
                if m is l or isinstance(m, type(ZERO)) and isinstance(l, type(ZERO)) and lclass(m) == lclass(l):
                    ctx.bad(R4, short(j.at), "waits for tasks while holding %s, which they acquire at %s" % (lname(l), short(e.at)), key="join:" + lname(l))
                    break
    ctx.count("waits for tasks", n)
    if n:
        ctx.ok(R4, "waits for tasks", "%d examined" % n)


def in_guard(e):
    return any("~" in str(x) for x in (e.stack or ()))


def conditions(ctx, E, events, order, pairs=None):
    ws = race.waits(E) if pairs is None else pairs
    sites = {}
    for w, subj in ws:
        sites.setdefault(w.loc, {}).setdefault(w.at, []).append((w, subj))
    for cv, by in sites.items():
        for site, wl in by.items():
            for w, subj in wl[:2]:
                one_wait(ctx, E, events, order, cv, w, subj, sites)
    ctx.count("waits on conditions", sum(len(x) for x in sites.values()))


def goes_on(E, w):
    """what is done after the wait in the same round of its loop without a test of the condition"""
    mine = [e for e in E.events if e.thread == w.thread and tuple(e.loops[:len(w.loops)]) == tuple(w.loops)]
    base = set(mine[0].pc) if mine else set()
    shared = {e.loc for e in E.events if e.thread != w.thread and e.kind in ("astore", "write", "cop", "armw") and isinstance(e.loc, type(ZERO))}

    def tested(ls):
        return {a for l in ls for y in [l] + list(subterms(l)) for a in y.args if isinstance(a, type(ZERO)) and a in shared}
    before = tested(set(w.pc) - base)
    out = []
    for e in mine:
        if e.seq <= w.seq or e.kind not in ("index", "cop", "callback", "memcpy", "fill", "fillbuf", "spawn", "delete", "range"):
            continue
        ks = [lp.k for lp in e.loops[len(w.loops):]]
        new = [l for l in e.pc if l not in w.pc and not any(l is k or any(y is k for y in subterms(l)) for k in ks)]
        if before & tested(new) or (new and not before):
            continue
        out.append(e)
    return out


def one_wait(ctx, E, events, order, cv, w, subj, sites):
    at = short(w.at)
    cond = w.x.get("cond")
    if not isinstance(cond, type(ZERO)) or w.x.get("pred") is None:
        if not w.loops:
            ctx.bad(R5, at, "the wait is neither given a condition nor repeated", key="wait:" + lname(cv))
        else:
            # after waking up the loop must test again before anything is done in the same round
            use = goes_on(E, w)
            if use:
                ctx.bad(R5, at, "the wait is not given a condition, and %s goes on without testing one again" % short(use[0].at), key="wait:" + lname(cv))
            else:
                ctx.und(R5, at, "wait inside a loop")
        return
    ctx.ok(R5, at, "waits for %s" % str(cond)[-60:])
    other = [l for l in w.locks if l is not w.val]
    size = sym("size")
    c = subst(cond, {x: size for x in race.atoms_of_all(cond) if x.op == "u" and "wait" in str(x)})
    c = subst(c, {x: size for x in race.same_size(c, subj)})
    seen = set()
    for x in events:
        if x is w or not isinstance(x.loc, type(ZERO)):
            continue
        flag = x.kind in ("astore", "write") and x.loc in subj
        grow = x.kind == "cop" and x.x.get("write") and x.loc in subj and str(x.val) not in SHRINK
        if not flag and not grow:
            continue
        if flag and (x.val is FALSE or x.val is ZERO) and cond.op != "not":
            continue
        if order is not None and not in_guard(x) and not order.concurrent(x, w):
            continue
        k = (x.at, x.kind, len(x.locks), in_guard(x))
        if k in seen:
            continue
        seen.add(k)
        xa = "%s (waiter %s)" % (short(x.at), at)
        if w.val in x.locks:
            ctx.ok(R6, xa, "under the waiter's lock")
        else:
            ctx.bad(R6, xa, "%s, which the waiter at %s tests, is changed without the lock %s" % (lname(x.loc), at, lname(w.val)),
                    key="unlocked:%s:%s" % (lname(x.loc), at))
        for l in other:
            if any(e.kind == "lock" and e.thread == x.thread and e.loc is l and e.seq < x.seq for e in events):
                ctx.bad(R4, at, "the wait keeps %s, which the task that ends it acquires" % lname(l), key="wait holds:" + lname(l))
        good, why = None, "no notification follows"
        for n in events:
            if n.kind != "notify" or n.thread != x.thread:
                continue
            if n.seq < x.seq and not (w.val in n.locks and w.val in x.locks and not any(
                    u.kind == "unlock" and u.loc is w.val and u.thread == x.thread and n.seq < u.seq < x.seq for u in events)):
                continue               # notified before the change, and the waiter could look in between
            if n.loc is not cv:
                continue
            extra = [l for l in n.pc if l not in x.pc]
            left = [l for l in extra if not implied(l, x, c, size, subj, grow)]
            if left:
                why = "the notification at %s only happens if also %s" % (short(n.at), str(left[0])[:80])
                continue
            if len(n.loops) > len(x.loops) or tuple(n.loops) != tuple(x.loops)[:len(n.loops)]:
                why = "the notification at %s is inside a loop" % short(n.at)
                continue
            multi = len(sites[cv]) > 1 or (flag and bool(E_threads(E).get(w.thread, {}).get("multi", True)))
            if str(n.val) == "notify_one" and multi:
                why = "notify_one at %s wakes one thread, but %s" % (short(n.at), "threads wait on this condition for different things"
                                                                    if len(sites[cv]) > 1 else "the change releases all waiting threads")
                continue
            blocked = [j for j in events if j.kind == "join" and j.thread == x.thread and x.seq < j.seq < n.seq and not_excl(j, n)]
            if blocked:
                why = "the thread waits for tasks at %s before it notifies" % short(blocked[0].at)
                continue
            good = n
            break
        if good:
            ctx.ok(R7, xa, "%s at %s" % (good.val, short(good.at)))
        else:
            ctx.bad(R7, xa, "after the change of %s: %s" % (lname(x.loc), why), key="wakeup:%s:%s" % (lname(x.loc), at))


def not_excl(a, b):
    return all(not (l.op == "not" and l.args[0] in b.pc or bnot(l) in b.pc) for l in a.pc)


def E_threads(E):
    return E.threads if E is not None else {}


def implied(l, x, c, size, subj, grow):
    """literal l of the notification holds whenever the waiter's condition holds after x"""
    pcs = set(x.pc)

    def f(t):
        if t.op == "ite":
            if t.args[0] in pcs:
                return t.args[1]
            if bnot(t.args[0]) in pcs:
                return t.args[2]
        return t
    l2 = rebuild(l, f, {})
    l2 = subst(l2, {a: sub(size, ONE) if grow else size for a in race.same_size(l2, subj)})
    if l2 is TRUE or l2 in pcs:
        return True
    fx = Facts([c] if c.op != "and" else list(c.args), lambda a: a is size)
    for y in pcs:
        if y.op in ("gt0", "eq0"):
            fx.assume(y)
    return fx.holds(l2)


# ---------------------------------------------------------------- the thread pool
def pool(ctx):
    fs = [f for f in all_functions() if f["f"].startswith("ThreadPool::") and f.get("body")]
    ctor = [f for f in fs if f["f"] == "ThreadPool::ThreadPool"]
    dtor = [f for f in fs if "~" in f["f"]]
    enq = [f for f in fs if f["f"] == "ThreadPool::enqueue"]
    if not ctor or not dtor or not enq:
        ctx.und(R7, "thread pool", "member functions not found")
        return
    runs = []
    for f in ctor[:1] + dtor[:1] + enq[:1]:
        E = analyse(ctx, f)
        if E is None:
            return
        runs.append(E)
    merged = []
    ws = []
    for i, E in enumerate(runs):
        for e in E.events:
            e.seq += 100000 * i
            if e.thread == 0:
                e.thread = -i
        merged += E.events
        ws += race.waits(E)
        locks(ctx, E)
    for j in [e for e in runs[1].events if e.kind == "join"]:
        for l in j.locks:
            for e in runs[0].events:
                if e.kind == "lock" and e.thread > 0 and lclass(e.loc) == lclass(l):
                    ctx.bad(R4, short(j.at), "joins the workers while holding %s, which they acquire" % lname(l), key="pool join")
    if not ws:
        ctx.und(R5, "thread pool", "no wait found")
        return
    conditions(ctx, runs[0], merged, None, ws)
    # the task runs without the pool's lock
    n = 0
    for e in runs[0].events:
        if e.thread > 0 and e.kind in ("callback", "call") and ("operator()" in str(e.x.get("name")) and "function" in str(e.x.get("name")) or e.kind == "callback"):
            n += 1
            if e.locks:
                ctx.bad(R3, short(e.at), "a task is run while %s is held" % lname(e.locks[0]), key="task under lock")
            else:
                ctx.ok(R3, short(e.at), "task run without locks")
    if not n:
        ctx.und(R3, "thread pool", "call of the task not found")
