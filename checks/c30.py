"""Every method of SparseArray that changes data or shape of the array itself (binning with in_place,
reshape, ravel_scans, the shape setter; found by interpreting every public method) is analysed for
the attributes that hold results computed from earlier contents: attributes attached to arrays
outside the constructor and read by methods or image functions, cached properties, memoised methods
and constructor placeholders filled in later.  On every normal or exceptional exit with changed data
or shape each of them must have been removed.  Binning in place must change the same attributes as
binning into a new array, and the image functions must hand the current data and shapes to the
native code."""
from pychk import *

R1 = "cached results dropped when the array changes"
R2 = "in place changes what binning a copy changes"
R3 = "native code gets the current data and shapes"
SKIP = ("from_hdf5", "__init__", "write_to_hdf5")


def check(ctx):
    own = attributes(ctx)
    P = Py()
    c = sparse(ctx, P)
    caches = {}
    stored_attrs(ctx, P, own, c, caches)
    memo = memoised(c, caches)
    runs = []
    mutators = 0
    for m in public_methods(ctx):
        if m in SKIP:
            continue
        names = [a.arg for f in c.members[m] for a in getattr(f, "args", ast.arguments(args=[], kwonlyargs=[])).args]
        runs.append((m, method(ctx, m, {"in_place": const(True)} if "in_place" in names else {})))
        if Py().setter(c, m) is not None:
            runs.append((m + " setter", method(ctx, m, setter=True)))
        if "in_place" in names:
            runs.append((m, same_changes(ctx, m, runs[-1][1])))
    lazy(runs, own, caches)
    for m, r in runs:
        if r is None:
            ctx.und(R1, "python/stempy", "%s: too large to follow" % m)
            continue
        for name in sorted(caches):
            for x, v in r.returns():
                w = x.heap.get((v.t, name))
                if v.t != SELF and w is not None and ("attr", SELF, name) in walk(w.t):
                    ctx.bad(R1, r.at, "%s hands %s of the source to the array it returns" % (m, name), key="handed:%s:%s" % (m, name))
                    break
        exits = [(x.heap, r.at) for x, _ in r.returns()] + [(x.heap, a) for x, a in r.escapes()]
        changed = [(h, a) for h, a in exits if any(last(h, SELF, s) != ("attr", SELF, s) for s in STATE)]
        if not changed:
            continue
        mutators += 1
        for name, kind in sorted(caches.items()):
            stale = [(h, a) for h, a in changed if not dropped(h, name)]
            if stale:
                ctx.bad(R1, stale[0][1], "%s changes the array and keeps %s (%s)" % (m, name, kind), key="%s:%s" % (m, name))
            else:
                ctx.ok(R1, r.at, "%s: %s dropped on %d exits" % (m, name, len(changed)))
        for name in memo:
            ctx.bad(R1, r.at, "%s changes the array, %s is memoised per object" % (m, name), key="memo:%s" % name)
    ctx.count("methods changing the array", mutators)
    ctx.count("attributes holding computed results", len(caches))
    ctx.require(mutators >= 2, "no method changing a SparseArray in place found")
    consumers(ctx)


def dropped(h, name):
    v = h.get((SELF, name))
    return v is not None and (v.t == ("deleted",) or v.t[0] == "const" and v.t[1] is None or
                              any(y[0] == "attr" and y[2] in STATE for y in walk(v.t)))


def stored_attrs(ctx, P, own, c, caches):
    """attributes set from outside the class and read off arrays"""
    read = set()
    for mn, mod in P.mods.items():
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
                read.add(node.attr)
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("hasattr", "getattr") and \
                    len(node.args) > 1 and isinstance(node.args[1], ast.Constant):
                read.add(node.args[1].value)
    for mn, mod in P.mods.items():
        for f, node in mod.names.items():
            if not isinstance(node, ast.FunctionDef) or not any(isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) == SA for n in ast.walk(node)):
                continue
            r = function(ctx, mn, f)
            for e in r.P.events if r is not None else ():
                if e.kind == "setattr" and e.obj.cls is not None and e.attr in read and e.attr not in own and e.attr not in c.members \
                        and getattr(e.obj.cls, "name", e.obj.cls) == SA and e.fn != "SparseArray.__init__":
                    caches[e.attr] = "attached in %s" % f
            if r is None:
                ctx.und(R1, "python/stempy", "%s: too large to follow" % f)


def memoised(c, caches):
    out = []
    for m, nodes in c.members.items():
        for n in nodes if isinstance(nodes, list) else ():
            for d in getattr(n, "decorator_list", ()):
                if isinstance(d, ast.Call):
                    d = d.func
                k = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")
                if not reads_state(c, m, set()):
                    continue
                if k == "cached_property":
                    caches[m] = "cached property"
                if k in ("lru_cache", "cache"):
                    out.append(m)
    return out


def reads_state(c, m, seen):
    if m in seen:
        return False
    seen.add(m)
    for n in c.members.get(m, ()) if isinstance(c.members.get(m), list) else ():
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                if x.attr in STATE or reads_state(c, x.attr, seen):
                    return True
    return False


def lazy(runs, own, caches):
    """attributes filled in by queries and read again later"""
    ctor = set(STATE) | {"metadata"}
    for m, r in runs:
        if r is None:
            continue
        for e in r.P.events:
            if e.kind == "setattr" and e.obj.t == SELF and e.attr not in ctor and \
                    any(y[0] == "attr" and y[1] == SELF and y[2] in STATE for y in walk(e.val.t)):
                caches.setdefault(e.attr, "computed in %s" % m)


def same_changes(ctx, m, rin):
    rnew = method(ctx, m, {"in_place": const(False)})
    if rin is None or rnew is None:
        ctx.und(R2, "python/stempy", m)
        return rnew
    new = {s: None for s in STATE}
    for s in STATE:
        ch = set()
        for x, v in rnew.returns():
            if (v.t, s) in x.heap:
                t = x.heap[(v.t, s)].t
                while t[0] == "call" and t[1].split(".")[-1] in ("tuple", "deepcopy", "copy") and t[2]:
                    t = t[2][0]
                ch.add(t != ("attr", SELF, s))
        if len(ch) != 1:
            ctx.und(R2, rnew.at, "%s: %s" % (m, s))
            continue
        ci = {last(x.heap, SELF, s) != ("attr", SELF, s) for x, v in rin.returns()}
        if ci == ch:
            ctx.ok(R2, rin.at, "%s: %s %s" % (m, s, "changed" if True in ch else "kept"))
        elif ci and len(ci) == 1:
            ctx.bad(R2, rin.at, "%s %s %s in place but %s in a copy" % (m, "changes" if True in ci else "keeps", s, "changes it" if True in ch else "keeps it"), key="inplace:%s:%s" % (m, s))
        else:
            ctx.und(R2, rin.at, "%s: %s" % (m, s))
    return rnew


def consumers(ctx):
    n = 0
    scan, frame = (6, 4), (10, 8)
    for mn, f, p in functions_with_array(ctx):
        r = function(ctx, mn, f, arrays=(p,))
        if r is None:
            ctx.und(R3, "python/stempy", "%s: too large to follow" % f)
            continue
        obj = ("param", p)
        env = {("attr", obj, "scan_shape"): scan, ("attr", obj, "frame_shape"): frame}
        for e in r.P.events:
            if e.kind != "call" or not e.name.startswith("stempy._"):
                continue
            if not any(a.t == ("attr", obj, "data") for a in e.args):
                continue
            n += 1
            dims = []
            for a in e.args:
                if a.t == ("attr", obj, "data"):
                    continue
                try:
                    v = Sizes(env).num(a.t)
                except (Unknown, KeyError, TypeError, IndexError):
                    if any(y[0] == "attr" and y[1] == obj for y in walk(a.t)):
                        dims.append(None)
                    continue
                if isinstance(v, tuple):
                    dims.append(v)
            want = [scan[::-1], frame[::-1]]
            if None in dims:
                ctx.und(R3, e.at, "%s: shapes passed to %s" % (f, e.name))
            elif dims == want:
                ctx.ok(R3, e.at, "%s: %s gets data, width and height of scan and frame" % (f, e.name))
            else:
                ctx.bad(R3, e.at, "%s: %s gets the shapes %s for a %s scan of %s frames" % (f, e.name, dims, scan, frame), key="shapes:%s" % f)
    ctx.count("native calls with the data of an array", n)
