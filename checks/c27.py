"""Every public query of SparseArray (with in_place false where it is a choice) and every image
function taking an array is interpreted abstractly; each value carries the storage it may or must
share with the array given (rows, frames and pixel lists of its data, its shapes and metadata).
Obligations: no element store, in-place operator or mutating call reaches storage of the input, the
attributes holding data, shapes, settings and metadata are those of entry at every exit, and neither
a returned array nor the data of a returned SparseArray must share storage with the input.
A definite sharing is reported; a sharing that depends on the kind of index is counted undecided."""
from pychk import *

R1 = "input storage not written"
R2 = "input attributes unchanged"
R3 = "result does not alias the input"
MUTATORS = ("ravel_scans", "from_hdf5", "__init__")


def check(ctx):
    attrs = sorted(attributes(ctx))
    n = 0
    for m in public_methods(ctx):
        if m in MUTATORS or m.startswith("set_"):
            continue
        c = sparse(ctx)
        names = [a.arg for f in c.members[m] for a in getattr(f, "args", ast.arguments(args=[], kwonlyargs=[])).args]
        args = {}
        if "in_place" in names:
            args["in_place"] = const(False)
        if m == "reshape":
            continue
        n += entry(ctx, SELF, method(ctx, m, args, kwargs=args), m, attrs)
    for mod, f, p in functions_with_array(ctx):
        n += entry(ctx, ("param", p), function(ctx, mod, f, arrays=(p,)), f, attrs)
    ctx.count("entry points", n)
    ctx.require(n >= 12, "public methods of SparseArray not found")


def entry(ctx, obj, r, name, attrs):
    if r is None:
        ctx.und(R1, "python/stempy", "%s: too large to follow" % name)
        return 0
    stores(ctx, obj, r, name)
    heaps = [(x.heap, r.at) for x, _ in r.returns()] + [(x.heap, a) for x, a in r.escapes()]
    for a in attrs:
        diff = [(h, w) for h, w in heaps if last(h, obj, a) != ("attr", obj, a)]
        if not diff:
            ctx.ok(R2, r.at, "%s keeps %s" % (name, a))
            continue
        ctx.bad(R2, next((e.at for e in r.P.events if e.kind == "setattr" and e.attr == a and e.obj.t == obj), diff[0][1]),
                "%s leaves %s = %s" % (name, a, show(last(diff[0][0], obj, a))[:60]), key="attr:%s:%s" % (name, a))
    results(ctx, obj, r, name)
    return 1


def owned(obj, tokens):
    return [t for t, d in tokens if tokens_of(t, obj)]


def stores(ctx, obj, r, name):
    n = 0
    for e in r.P.events:
        if e.kind not in ("setitem", "inplace", "mutcall"):
            continue
        n += 1
        hit = definite(e.obj.st, obj)
        if hit:
            ctx.bad(R1, e.at, "%s: %s writes into %s" % (name, e.kind, show(hit[0])[:60]), key="store:%s:%s" % (name, e.fn))
        elif owned(obj, e.obj.st):
            ctx.und(R1, e.at, "%s: %s may write into the input" % (name, e.kind))
        else:
            ctx.ok(R1, e.at, "%s: %s on its own storage" % (name, e.kind))
    ctx.count("stores", n)


def results(ctx, obj, r, name):
    bad = und = k = 0
    for x, v in r.returns():
        vals = [(v, "returned value")]
        for i in (v.items or ()):
            vals.append((i, "returned item"))
        for a in ("data", "metadata"):
            w = x.heap.get((v.t, a))
            if w is not None and v.t != obj:
                vals.append((w, "%s of the returned array" % a))
        if v.t == obj:
            ctx.bad(R3, r.at, "%s returns the array itself" % name, key="self:%s" % name)
            continue
        for w, what in vals:
            k += 1
            hit = definite(w.st, obj) or definite(w.el, obj)
            if hit and not bad:
                ctx.bad(R3, r.at, "%s: %s shares %s of the input" % (name, what, show(hit[0])[:60]), key="alias:%s:%s" % (name, what))
                bad = 1
            elif owned(obj, w.st | w.el):
                und = 1
    ctx.count("returned values", k)
    if not bad:
        (ctx.und if und else ctx.ok)(R3, r.at, "%s: %d returned values" % (name, k))
