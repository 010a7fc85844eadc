"""Helpers shared by the checks on the native code."""
import random
from fractions import Fraction
import ir
import engine
from engine import Engine, LV, rootof, steps, loc_field, loc_idx, ty
from terms import *
from numeval import NumEval, Undecided, NULLV


def all_functions(names=None):
    E = Engine()
    out = []
    seen = set()
    for tu in E.tus:
        for f in tu.functions:
            if f["key"] in seen or not f.get("body"):
                continue
            if names is None or f["f"] in names:
                seen.add(f["key"])
                out.append(f)
    return out


def functions(ctx, name, pred=None, required=True):
    fs = [f for f in all_functions({name}) if pred is None or pred(f)]
    if required:
        ctx.require(fs, "no definition of %s in the analysed sources" % name)
    return fs


def where(f):
    try:
        return "%s (%s)" % (f["f"], f["_tu"].loc(f["body"]))
    except Exception:
        return f["f"]


def analyse(ctx, f, opaque=(), hooks=None, args=None, locks=()):
    """run the dataflow analysis on one entry function; None when it gave up"""
    E = Engine()
    E.opaque |= set(opaque)
    if hooks:
        E.hooks.update(hooks)
    try:
        r = E.run(f, args=args, locks=locks)
    except engine.Aborted as e:
        ctx.und("analysis of function", where(f), str(e))
        return None
    except (RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
        ctx.und("analysis of function", where(f), "%s: %s" % (type(e).__name__, e))
        return None
    E.result = r
    for g in E.stats["functions"]:
        ctx.fn(g[:160])
    ctx.count("calls interpreted", E.stats["calls"])
    ctx.count("loops summarised", E.stats["loops"])
    ctx.count("events", len(E.events))
    return E


def param(f, name_or_idx):
    i = name_or_idx
    if isinstance(i, str):
        for j, p in enumerate(f["params"]):
            if p["n"] == i:
                return j
        return None
    return i


def proot(f, i):
    """root location of parameter i"""
    return mk("root", "p", f["params"][i]["n"] or "arg")


def pval(f, i, *path):
    l = proot(f, i)
    for p in path:
        l = loc_field(l, p)
    return mk("val", l)


def cval(t, d=""):
    return t


def walk(x):
    """all IR dict nodes below x"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            for k, z in y.items():
                if k != "_tu" and isinstance(z, (dict, list)):
                    st.append(z)
        elif isinstance(y, list):
            for z in y:
                if isinstance(z, (dict, list)):
                    st.append(z)


def same_function(ctx, rule, at, code, spec, envs, atom, describe=None, sig=None):
    """compare a closed form with a prescription on a family of assignments

    code: term; spec: callable(env) -> value; envs: iterable of environments;
    atom(env, term) -> value of an atom.  Returns True / False / None."""
    n = 0
    for env in envs:
        ev = NumEval(lambda t: atom(env, t))
        try:
            v = ev.ev(code)
        except Undecided as e:
            ctx.und(rule, at, "not summarised: %s" % str(e)[:300])
            return None
        s = spec(env)
        n += 1
        if isinstance(v, bool) != isinstance(s, bool):
            v, s = bool(v), bool(s)
        if v != s and not (isinstance(v, float) and abs(v - s) < 1e-9 * max(1, abs(s))):
            ctx.bad(rule, at, "%s: the code computes %s where %s is required%s" % (
                sig or "value", v, s, (" for " + describe(env)) if describe else ""))
            return False
    ctx.ok(rule, at, "%s agrees on %d assignments" % (sig or "closed form", n))
    return True


def loops_of(ev):
    return [l for l in ev.loops if l.k is not None]


def occurrences(E, ev, env, atom, value, limit=20000, once=None, skip=None):
    """every value tuple the event yields: its loops enumerated, its guard evaluated

    once(loop): look at a single arbitrary iteration of that loop (its iteration variables
    are left to the atoms); skip(literal): the literal is a precondition of the situation
    looked at, not part of the rule.  value: terms, or callables(NumEval)."""
    out = []
    ls = loops_of(ev)
    wants_ne = getattr(getattr(atom, "__code__", None), "co_argcount", 2) == 3

    def go(i, bound):
        if i == len(ls):
            ne = mkeval(bound)
            for l in ev.pc:
                if skip is not None and skip(l):
                    continue
                if not ne.ev(l):
                    return
            out.append(tuple(v(ne) if callable(v) else ne.ev(v) for v in value))
            return
        l = ls[i]
        if once is not None and once(l):
            b = dict(bound)
            b[l.k] = 0
            go(i + 1, b)
            return
        rec = E.rec.get(l.uid)
        n = 0
        ne = mkeval(bound)
        trip = None
        if l.trip is not None:
            try:
                trip = ne.ev(l.trip)
            except Undecided:
                trip = None
        if trip is None:
            trip = ne.runloop(l.uid)["n"]
        if trip > limit:
            raise Undecided("long loop")
        for k in range(int(max(trip, 0))):
            b = dict(bound)
            b[l.k] = k
            go(i + 1, b)

    def mkeval(bound):
        ne = NumEval(lambda t: atom(env, t), E)
        if wants_ne:
            ne.atom = lambda t: atom(env, t, ne)
        # values at the head of iteration k of every enclosing loop
        ne.bound = dict(bound)
        ne.version = ne.fresh_version()
        for l in ls:
            if l.k in bound and not (once is not None and once(l)):
                bind_iteration(E, ne, l, bound[l.k])
        return ne
    go(0, {})
    return out


def bind_iteration(E, ne, l, k):
    """bind the loop-carried variables of loop l at the start of iteration k (lazily)"""
    rec = E.rec.get(l.uid)
    if rec is None or not rec["eqs"]:
        return
    need = rec["eqs"]
    cur = {p: ne.hold(p, i0) for p, (i0, e) in need.items()}
    for n in range(k):
        ne.version = ne.fresh_version()
        for p, v in cur.items():
            if v is not None:
                ne.bound[p] = v
            else:
                ne.bound.pop(p, None)
        ne.bound[l.k] = n
        cur = {p: (ne.hold(p, e) if e is not None else None) for p, (i0, e) in need.items()}
    ne.version = ne.fresh_version()
    for p, v in cur.items():
        if v is not None:
            ne.bound[p] = v
        else:
            ne.bound.pop(p, None)
    ne.bound[l.k] = k


# ------------------------------------------------------------------ naming atoms
def pathof(t):
    """(root name, [(kind, name or index term)]) of a value atom, or None"""
    tail = []
    while t.op == "proj":
        tail.append((t.args[1], t.args[2]))
        t = t.args[0]
    if t.op == "py" and len(t.args) >= 2 and isinstance(t.args[1], type(ZERO)):
        l = t.args[1]
        tail.append(("py", str(t.args[0])))
        if l.op not in ("loc", "root", "deref"):
            b = pathof(l)
            return (b[0], b[1] + tail[::-1]) if b else None
    elif t.op == "val":
        l = t.args[0]
    elif t.op in ("phi", "phiend"):
        l = t.args[1]
    else:
        return None
    if not isinstance(l, type(ZERO)):
        return None
    r, st = steps(l)
    out = [(s.args[1], s.args[2]) for s in st]
    name = None
    if r.op == "root":
        name = ("p" if r.args[0] == "p" else r.args[0], str(r.args[1]))
        if r.args[0] not in ("p", "this") and len(r.args) > 2:
            name = (r.args[0], str(r.args[2]))
    elif r.op == "deref":
        b = pathof(r.args[0])
        if b is None:
            return None
        name = b[0]
        out = b[1] + [("*", "")] + out
    else:
        return None
    return name, out + tail[::-1]


def fields(p):
    """names and markers of a path, indices dropped: 'header.imageNumbers@'"""
    out = []
    for k, n in p[1]:
        if k == ".":
            out.append(n)
        elif k in ("#", "@"):
            out.append(k)
        elif k in ("[]", "[*]"):
            out.append("[]")
        elif k == "->":
            out.append("->")
    return out


def atoms_of(t):
    """the maximal value atoms in t"""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, type(ZERO)):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("val", "phi", "phiend", "proj", "k", "aload", "armw", "unk", "fresh", "sym"):
            out.add(x)
            continue
        st.extend(x.args)
    return out


# ---- widths: indices and counters must be able to hold what real data needs ----

FRAME, SCAN, BLOCK = (600, 700), (512, 500), 32     # a detector frame, a scan, frames of a block


def usual(t):
    """an unremarkable size of the data a term stands for"""
    p = pathof(t)
    if p is None:
        return None
    (kind, root), st = p
    fs = fields(p)
    names = [root] + [x for x in fs]
    scan = any("scan" in x.lower() for x in names) or fs[-2:-1] == ["dimensions"]
    if fs[-1:] in (["first"], ["second"]):
        if not any("dim" in x.lower() or "size" in x.lower() for x in names[:-1]):
            return None
        return (SCAN if scan else FRAME)[0 if fs[-1] == "first" else 1]
    if fs[-2:] == ["imageNumbers", "#"] or fs[-1:] == ["imagesInBlock"]:
        return BLOCK
    if fs[-2:] == ["imageNumbers", "@"]:
        return lambda i: SCAN[0] * SCAN[1] - 1 - int(i)
    return None


def wide_enough(ctx, E, rule, at, extra=None):
    """no counter, coordinate, index or image number passes through a type that is too small for
    a frame of 600x700 pixels or a scan of 512x500 positions"""
    def atom(t):
        if extra is not None:
            v = extra(t)
            if v is not None:
                return v
        return usual(t)
    n, bad = 0, set()
    for e in E.events:
        if e.kind != "narrow" or not isinstance(e.val, T) or (e.x.get("w") or 64) > 16 or e.val.op == "n":
            continue
        n += 1
        w = e.x["w"]
        top = 2 ** (w - 1 if e.x.get("sg") else w) - 1
        for pick in (lambda n: n - 1, lambda n: n // 2):
            ne = NumEval(atom, E)
            try:
                for l in loops_of(e):
                    if l.trip is None:
                        continue
                    k = int(ne.ev(l.trip))
                    ne.bound[l.k] = max(pick(k), 0)
                v = ne.ev(e.val)
            except Exception:
                continue
            if not isinstance(v, (int, float)) or isinstance(v, bool) or v <= top:
                continue
            mine = set(atoms_of(e.val))
            fits = True
            for l in e.pc:
                try:
                    fits = fits and bool(ne.ev(l))
                except Exception:
                    if mine & set(atoms_of(l)):
                        fits = False
            if fits and (e.at, w) not in bad:
                bad.add((e.at, w))
                ctx.bad(rule, "%s, %s" % (at, e.at), "%s is kept in %d bits, but is %d for a frame of %dx%d pixels or a scan of %dx%d" % (
                    str(e.val)[:160], w, v, *FRAME, *SCAN), key="narrow:%s" % str(e.fn)[:60])
    ctx.count("conversions to small types", n)
    if not bad:
        ctx.ok(rule, at, "%d conversions to small types looked at" % n)
