"""Every function registered with Python is walked with the interpreter lock held, or given up by
its call guard, together with the tasks it starts.  A registration is a violation when the calling
thread waits (future, thread, condition, pool destructor) while holding the lock although one
of the tasks has to acquire it, or when a started task acquires it while the lock cannot be
given up before the wait.  Overloads of one operation, i.e. its bindings for the reader types,
have to agree on giving the lock up."""
from conc import *
import bind
import gil

R1 = "no wait for lock-needing tasks with the lock held"
R2 = "overloads agree on giving up the lock"


def check(ctx):
    E = Engine()
    bs = bind.bindings(E)
    ctx.require(len(bs) > 10, "bindings not found")
    ctx.count("bindings", len(bs))
    groups = {}
    waiting = 0
    for b in bs:
        g = gil.Gil(E)
        g.function(b.fn, not b.released)
        groups.setdefault((b.cls, b.name), []).append((b, g))
        if not g.waits and not g.spawns:
            continue
        waiting += 1
        needs = [n for n in g.needs if n[0]]
        held = [w for w in g.waits if w[0] and not w[1]]
        ctx.count("waits", len(g.waits))
        ctx.count("acquisitions in tasks", len(needs))
        if needs and held:
            ctx.bad(R1, b.at, "%s holds the interpreter lock while it waits at %s (%s); the task needs it at %s" % (b.name, held[0][2], held[0][3], needs[0][1]), key="wait:%s" % b.name)
        else:
            ctx.ok(R1, b.at, "%s (%s): %d waits, tasks %s the lock" % (b.name, argument(b), len(g.waits), "need" if needs else "do not need"))
    ctx.count("bindings that start or await tasks", waiting)
    ctx.require(waiting, "no binding waits for tasks")
    for (cls, name), l in groups.items():
        if cls or len(l) < 2:
            continue
        rel = [b for b, g in l if b.released]
        kept = [b for b, g in l if not b.released]
        if rel and kept:
            for b in kept:
                ctx.bad(R2, b.at, "%s (%s) keeps the interpreter lock, its other overloads give it up" % (name, argument(b)), key="overload:%s:%s" % (name, argument(b)))
        else:
            ctx.ok(R2, l[0][0].at, "%s: %d overloads" % (name, len(l)))


def argument(b):
    p = b.fn.get("params") or [{}]
    try:
        return b.fn["_tu"].ty(p[0]["t"])["s"].replace("stempy::", "")
    except Exception:
        return "?"
