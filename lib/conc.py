"""Whole-program runs of the concurrent entry points: the public function with the reader's
readAll, the tasks it starts, the counting callback and the exit paths inlined."""
from cxx import *
import race

# per-frame computations on values of the calling task only (C01 analyses them too)
PURE = ("stempy::maximalPoints", "stempy::applyRowDarkSubtraction")
READERS = ("SectorStreamThreadedReader", "SectorStreamMultiPassThreadedReader")


def counting_functions(readers=READERS, targs=("float, true", "unsigned short, false")):
    out = []
    for f in all_functions({"stempy::electronCount"}):
        k = f["key"].split("|")[0]
        if len(f["params"]) != 2:
            continue
        for r in readers:
            for t in targs:
                if "stempy::" + r + ", " + t in k:
                    out.append((r, f))
    return out


def label(f):
    return f["key"].split("|")[0].replace("stempy::", "")[:110]


def own_locals(E):
    """roots of locals declared by the calling thread that other threads use"""
    own, used = set(), {}
    for e in E.events:
        if isinstance(e.loc, type(ZERO)):
            if e.kind == "declare" and e.thread == 0:
                own.add(steps(e.loc)[0])
            if e.loc.op in ("loc", "root"):
                used.setdefault(steps(e.loc)[0], set()).add(e.thread)
    return {r for r in own if len(used.get(r, ())) > 1}


def under(root, name):
    """does the location root dereference the pointer parameter `name`"""
    return root.op == "deref" and any(isinstance(x, type(ZERO)) and x.op == "root" and x.args[0] == "p" and str(x.args[1]) == name
                                      for x in [root] + list(subterms(root))) and not any(
        isinstance(x, type(ZERO)) and x.op in ("aload", "armw") for x in subterms(root))


def at(e):
    return "%s (%s)" % (e.fn if isinstance(e.fn, str) else (e.fn or {}).get("f", "?") if isinstance(e.fn, dict) else "?", short(e.at))


def short(a):
    a = str(a)
    return a[a.index("stempy/"):] if "stempy/" in a else a


def name(a):
    """readable name of an accessed object"""
    import re
    s = race.pattern(a)
    s = re.sub(r"#\d+", "", s)
    return s.replace("*<", "<").strip()


def report(ctx, rule, E, r, entry, und=False):
    a, b = r.a, r.b
    d = "%s: %s by %s at %s and %s at %s" % (name(a), "changed" if a.w else "read", "task" if a.e.thread else "caller", short(a.e.at),
                                              "%s changed" % name(b) if b.w else "%s read" % name(b), short(b.e.at))
    if r.how:
        ctx.ok(rule, short(a.e.at), d + " [" + r.how + "]")
    elif und:
        ctx.und(rule, short(a.e.at), d)
    else:
        ctx.bad(rule, short(a.e.at), d + " can run at the same time without a common lock or ordering", key="%s:%s" % (name(a), name(b)))
