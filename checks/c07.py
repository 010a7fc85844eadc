"""Every function registered with Python is walked with the interpreter lock held, or not held
when its call guard gives it up, and every task it starts is walked without the lock.  The walk
follows calls, closures, implicit copies and assignments and the destruction of locals, parameters,
temporaries and captured values, through scoped acquire and release guards.  Creating, copying,
calling or dropping a Python object (or a container, block or shared pointer that may hold the
last reference) where the lock is not held is a violation.  Reading an array's address, shape
or size is allowed."""
from conc import *
import bind
import gil

R1 = "Python object touched with the interpreter lock held"


def check(ctx):
    E = Engine()
    bs = bind.bindings(E)
    ctx.require(len(bs) > 10, "bindings not found")
    ctx.count("bindings", len(bs))
    bad, ok, und = {}, {}, {}
    fns = set()
    for b in bs:
        g = gil.Gil(E)
        g.function(b.fn, not b.released)
        fns |= g.functions
        ctx.count("tasks started", len(set(g.spawns)))
        for lst, out in ((g.bad, bad), (g.ok, ok), (g.und, und)):
            for what, at, fn, stack in lst:
                out.setdefault((at, what, fn), (b, stack))
    ctx.count("functions walked", len(fns))
    ctx.require(ok or bad, "no use of a Python object found")
    for (at, what, fn), (b, stack) in sorted(bad.items(), key=str):
        ctx.bad(R1, at, "%s in %s without the lock (from %s: %s)" % (what, fn.split("::")[-1], b.name, " > ".join(s.split("::")[-1] for s in stack)), key="gil:%s:%s" % (fn, what))
    for (at, what, fn), (b, stack) in sorted(und.items(), key=str):
        ctx.und(R1, at, "%s in %s" % (what, fn))
    for (at, what, fn) in sorted(ok, key=str):
        if (at, what, fn) not in bad:
            ctx.ok(R1, at, "%s in %s" % (what, fn.split("::")[-1]))
