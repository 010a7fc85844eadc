"""The lookup of scan files (the public functions of contrib reaching a directory search) is interpreted
for searches with no, one and several matches: a path is returned only where the path condition
excludes several matches, no match ends in FileNotFoundError and several matches in an exception that
no handler on the way swallows.  The lookup over all naming versions must try every version there is,
go on only after FileNotFoundError, refuse unknown versions and never end without a path or an
exception; the patterns must delimit the scan number and id on both sides."""
import builtins
from pychk import *
from c31 import conds

R1 = "a path is returned only for a single match"
R2 = "no match raises FileNotFoundError"
R3 = "several matches raise"
R4 = "every naming version is tried"
R5 = "patterns delimit numbers"
GLOB = ("glob", "rglob", "iglob")
ERR = (Unknown, KeyError, TypeError, IndexError, ValueError)


def searches(t):
    return [x for x in walk(t) if x[0] == "meth" and x[1] in GLOB or x[0] == "call" and x[1].split(".")[-1] in GLOB + ("listdir", "scandir")]


class Matches:
    def __init__(self, k):
        self.k = k

    def atom(self, t):
        g = searches(t)
        if not g:
            return None
        if t[0] in ("item", "elem", "fstr") or t[0] == "attr":
            return None
        if t[0] == "call" and t[1] == "len":
            return self.k
        if t[0] == "call" and t[1] in ("list", "tuple", "sorted", "set"):
            return [0] * self.k
        if t[0] == "new" or t in g:
            return [0] * self.k if t in g else self.atom(t[2])
        return None

    def feasible(self, pc):
        r = True
        for c, b in pc:
            if not searches(c):
                continue
            try:
                if bool(evalt(c, {}, self.atom)) != b:
                    return False
            except ERR:
                r = None
        return r


def exc_name(v):
    t = v.t if hasattr(v, "t") else v
    while t and t[0] == "new":
        t = t[2]
    if t and t[0] in ("call", "class", "ext", "construct"):
        return str(t[1]).split(".")[-1]
    return None


def sub(name, types):
    """does a handler for types catch the exception"""
    if types is None:
        return True
    c = getattr(builtins, name or "", None)
    for n in types.strip("()").split(","):
        h = getattr(builtins, n.strip().split(".")[-1], None)
        if n.strip().split(".")[-1] == name or isinstance(c, type) and isinstance(h, type) and issubclass(c, h):
            return True
    return False


def check(ctx):
    P = Py()
    m = P.mods.get(CONTRIB)
    ctx.require(m is not None, "contrib not found")
    found = 0
    multi = []
    sites = {}
    for name, node in m.names.items():
        if not isinstance(node, ast.FunctionDef):
            continue
        r = function(ctx, CONTRIB, name)
        if r is None:
            ctx.und(R1, "python/stempy/contrib", "%s: too large to follow" % name)
            continue
        g = [e for e in r.P.events if e.kind in ("meth", "call") and e.name.split(".")[-1] in GLOB]
        if not g:
            continue
        found += 1
        args = [a.arg for a in node.args.args]
        if "version" in args:
            multi.append((name, node))
        else:
            sites[name] = {e.at for e in g}
        single(ctx, name, r, "version" in args)
        for e in g:
            pattern(ctx, name, e)
    ctx.count("lookup functions", found)
    ctx.require(found >= 1, "no lookup of scan files found")
    for name, node in multi:
        versions(ctx, name, node, sites)
    if not multi:
        ctx.und(R4, "python/stempy/contrib/__init__.py", "no lookup over several naming versions found")


def single(ctx, name, r, wrapper):
    for x, v in r.returns():
        g = searches(v.t)
        if v.t == ("const", None) or v.t[0] == "tuple" and v.t[1] and v.t[1][0] == ("const", None):
            ctx.bad(R1, r.at, "%s: can end without a path and without an exception" % name, key="none:%s" % name)
            continue
        if not g and wrapper and ("param", "version") in walk(v.t):
            continue
        if not g:
            ctx.und(R1, r.at, "%s: returns %s" % (name, show(v.t)[:60]))
            continue
        p = Matches(2).feasible(conds(x.pc))
        if p is False:
            ctx.ok(R1, r.at, "%s: path of a single match" % name)
        elif p:
            ctx.bad(R1, r.at, "%s: returns one of several matching files: %s" % (name, show(v.t)[:60]), key="several:%s" % name)
        else:
            ctx.und(R1, r.at, "%s: condition on the matches not evaluated" % name)
    rs = [e for e in r.P.events if e.kind == "raise"]
    on = lambda k: [e for e in rs if any(searches(c) for c, _ in conds(e.pc)) and Matches(k).feasible(conds(e.pc)) is True and
                    Matches(1).feasible(conds(e.pc)) is False]
    none, many = on(0), on(2)
    reach = [x for x, v in r.returns()]
    if not none:
        ctx.bad(R2, r.at, "%s: no match is not answered with FileNotFoundError" % name, key="no match:%s" % name) if reach else None
    for e in none:
        n = exc_name(e.val)
        if n is not None and sub(n, "FileNotFoundError"):
            ctx.ok(R2, e.at, "%s: no match raises %s" % (name, n))
        elif n is not None:
            ctx.bad(R2, e.at, "%s: no match raises %s" % (name, n), key="no match:%s" % name)
    for e in many:
        n = exc_name(e.val)
        hs = [h for h in r.P.events if h.kind == "handler"]
        swallow = [h for h in hs if n is not None and sub(n, h.types)]
        if swallow:
            if any(isinstance(z, ast.Raise) for z in ast.walk(swallow[0].node)):
                ctx.und(R3, e.at, "%s: handler at %s may pass it on" % (name, swallow[0].at))
            else:
                ctx.bad(R3, e.at, "%s: the exception for several matches (%s) is swallowed at %s" % (name, n, swallow[0].at), key="swallowed:%s" % name)
        else:
            ctx.ok(R3, e.at, "%s: several matches raise %s" % (name, n))
    if wrapper:
        for e in none:
            n = exc_name(e.val)
            hs = [h for h in r.P.events if h.kind == "handler"]
            if n is not None and not any(sub(n, h.types) for h in hs):
                ctx.bad(R4, e.at, "%s: no match for one naming version (%s) keeps the others from being tried" % (name, n), key="not continued:%s" % name)


def users(r):
    """functions whose searches a run reaches, through returned paths"""
    out = set()
    for e in r.P.events:
        if e.kind in ("meth", "call") and e.name.split(".")[-1] in GLOB:
            out.add(e.at)
    return out


def versions(ctx, name, node, sites):
    runs = {}
    for k in (None, -1, 0, 1, 2, 3, 7):
        runs[k] = function(ctx, CONTRIB, name, {"version": const(k)})
    if any(r is None for r in runs.values()):
        ctx.und(R4, "python/stempy/contrib/__init__.py", "%s: too large to follow" % name)
        return
    every = set()
    known = []
    for k, r in runs.items():
        if k is None:
            continue
        u = users(r)
        if u:
            known.append(k)
            every |= u
        elif r.returns():
            ctx.bad(R4, r.at, "%s: version %s ends normally without a search" % (name, k), key="unknown version:%s" % k)
        else:
            ctx.ok(R4, r.at, "%s: version %s is refused" % (name, k))
    left = every - users(runs[None])
    if left:
        ctx.bad(R4, runs[None].at, "%s: without a version the searches at %s are not tried" % (name, ", ".join(sorted(left))), key="not tried:%s" % name)
    else:
        ctx.ok(R4, runs[None].at, "%s: versions %s are tried" % (name, known))
    ctx.require(bool(known), "no naming version found")
    us = [users(runs[k]) for k in known]
    for i in range(len(us)):
        for j in range(i):
            if us[i] & us[j]:
                unused = [n for n, a in sites.items() if not a & every]
                if unused and us[i] == us[j]:
                    ctx.bad(R4, runs[None].at, "%s: versions %s and %s search for the same names, %s is never used" % (
                        name, known[i], known[j], ", ".join(unused)), key="same:%s" % name)
                else:
                    ctx.und(R4, runs[None].at, "versions %s and %s share searches" % (known[i], known[j]))
    for k, r in runs.items():
        for x, v in r.returns():
            if v.t == ("const", None):
                ctx.bad(R1, r.at, "%s: version %s can end without a path and without an exception" % (name, k), key="none:%s" % name)


WILD = set("*?]")


def pattern(ctx, name, e):
    t = e.args[0].t if e.args else None
    if t is None or t[0] != "fstr":
        return
    parts = flat(t)
    for i, p in enumerate(parts):
        if isinstance(p, str) or not number(p):
            continue
        before = parts[i - 1] if i else ""
        after = parts[i + 1] if i + 1 < len(parts) else ""
        b = before[-1:] if isinstance(before, str) else None
        a = after[:1] if isinstance(after, str) else None
        if b is not None and (b in WILD or b.isdigit()) and b:
            ctx.bad(R5, e.at, "%s: %s matches longer numbers ending in %s" % (name, text(parts), show(p)), key="pattern:%s:%s" % (name, show(p)))
        elif a is not None and a and (a in "*?[" or a.isdigit()):
            ctx.bad(R5, e.at, "%s: %s matches longer numbers starting with %s" % (name, text(parts), show(p)), key="pattern:%s:%s" % (name, show(p)))
        else:
            ctx.ok(R5, e.at, "%s: %s delimits %s" % (name, text(parts), show(p)))


def number(p):
    return any(x[0] == "param" and x[1] in ("scan_num", "scan_id", "th") for x in walk(p)) and not any(x[0] == "attr" for x in walk(p))


def flat(t):
    out = []
    for p in t[1]:
        if p[0] == "const":
            if out and isinstance(out[-1], str):
                out[-1] += str(p[1])
            else:
                out.append(str(p[1]))
        else:
            out.append(p)
    return out


def text(parts):
    return "".join(p if isinstance(p, str) else "{}" for p in parts)
