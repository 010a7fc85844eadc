"""Every public method and property of SparseArray and every image function taking one is
interpreted abstractly with the values of the settings at entry as symbols.  At every normal
return, every explicit raise and every call that may raise outside a protecting try, each setting
(the constructor parameters stored unchanged: element type, slicing mode, expansion permission)
must hold the symbol it had at entry; finally blocks and handlers are executed on the states of
the calls they protect."""
from pychk import *

R1 = "setting restored on return"
R2 = "setting restored when an exception leaves"


def check(ctx):
    S = settings(ctx)
    n = ch = 0
    runs = []
    for m in public_methods(ctx):
        if m.startswith("set_"):
            continue
        runs.append((SELF, method(ctx, m), m))
        c = sparse(ctx)
        if Py().setter(c, m) is not None:
            runs.append((SELF, method(ctx, m, setter=True), m + " setter"))
    for mod, f, p in functions_with_array(ctx):
        runs.append((("param", p), function(ctx, mod, f, arrays=(p,)), f))
    for obj, r, name in runs:
        if r is None:
            ctx.und(R1, "python/stempy", "%s: too large to follow" % name)
            continue
        n += 1
        sets = [e for e in r.P.events if e.kind in ("setattr", "delattr") and e.obj.t == obj and e.attr in S]
        ch += len(sets)
        for s in S:
            if not any(e.attr == s for e in sets):
                ctx.ok(R1, r.at, "%s never changes %s" % (name, s))
                continue
            at = next(e.at for e in sets if e.attr == s)
            one(ctx, R1, r, name, obj, s, [(x.heap, at) for x, _ in r.returns()], at)
            one(ctx, R2, r, name, obj, s, [(x.heap, a) for x, a in r.escapes()], at)
    ctx.count("entry points", n)
    ctx.count("temporary changes of settings", ch)
    ctx.require(n >= 15, "public methods of SparseArray not found")


def one(ctx, rule, r, name, obj, s, heaps, at):
    und = False
    for h, a in heaps:
        v = h.get((obj, s))
        if v is None or v.t == ("attr", obj, s):
            continue
        if any(x[0] == "param" and x != obj for x in walk(v.t)):
            und = True       # stores what the caller asked for
            continue
        if v.t[0] in ("loopend", "joined", "phi"):
            und = True
            continue
        if rule == R1:
            ctx.bad(rule, at, "%s returns with %s = %s" % (name, s, show(v.t)[:60]), key="return:%s:%s" % (name, s))
        else:
            ctx.bad(rule, a, "when this raises, %s (called through %s) stays %s" % (s, name, show(v.t)[:60]), key="raise:%s:%s" % (name, s))
        return
    if und:
        ctx.und(rule, at, "%s: %s" % (name, s))
    else:
        ctx.ok(rule, at, "%s: %s on %d exits" % (name, s, len(heaps)))
