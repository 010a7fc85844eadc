"""Python layer of C18: options, arguments of the threshold calculation, metadata keys."""
import difflib
import re
from pychk import *

R7 = "Python option attribute receives the argument of its name"
R8 = "arguments of the threshold calculation are in the order of its parameters"
R9 = "gain handed to the native code is the inverse of the gain argument"
R10 = "metadata dictionary entry is the field of its name"
FN = "electron_count"
RESULTS = "stempy._image.calculate_thresholds"


def norm(n):
    n = re.sub(r"[^a-z0-9]", "", re.sub(r"^m_", "", n).lower())
    return n.replace("numberof", "num")


def similar(a, b):
    a, b = norm(a), norm(b)
    return 1.0 if a == b else difflib.SequenceMatcher(None, a, b).ratio()


def matching(attrs, params):
    """attribute -> parameter of (nearly) the same name"""
    out, left = {}, set(params)
    for a in attrs:
        for p in sorted(left):
            if norm(a) == norm(p):
                out[a] = p
                left.discard(p)
                break
    rest = [(similar(a, p), a, p) for a in attrs if a not in out for p in left]
    for s, a, p in sorted(rest, reverse=True):
        if s >= 0.7 and a not in out and p in left:
            out[a] = p
            left.discard(p)
    return out


def params_in(t, names):
    return {x[1] for x in walk(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == "param" and x[1] in names}


def stat_of(t):
    """the field of the threshold result a term is, if it is one"""
    while t[0] == "meth" and t[1] in ("astype", "item", "copy") or t[0] == "call" and t[1].split(".")[-1] in ("int", "float") and len(t[2]) == 1:
        t = t[2] if t[0] == "meth" else t[2][0]
    if t[0] == "attr" and t[1][0] == "call" and t[1][1] == RESULTS:
        return t[2]
    return None


def is_none(t):
    return t == ("const", None)


def none_on_path(p, pc):
    """True / False / None: the parameter is None on this path, is not, or is not known"""
    for c, b in pc:
        if c[0] == "cmp" and c[1] in ("is", "is not", "==", "!=") and c[2] == ("param", p) and is_none(c[3]):
            return b == (c[1] in ("is", "=="))
    return None


def inverse(t):
    """value of the term for gain = 4"""
    def atom(x):
        if x == ("param", "gain"):
            return 4.0
        if x[0] == "call":
            n = x[1].split(".")[-1]
            if n in ("power", "float_power", "pow") and len(x[2]) == 2:
                return float(evalt(x[2][0], {}, atom)) ** evalt(x[2][1], {}, atom)
            if n == "reciprocal":
                return 1.0 / evalt(x[2][0], {}, atom)
            if n in ("divide", "true_divide"):
                return evalt(x[2][0], {}, atom) / evalt(x[2][1], {}, atom)
            if n in ("ascontiguousarray", "float32", "asarray", "array", "asanyarray"):
                return evalt(x[2][0], {}, atom)
        return None
    try:
        v = evalt(t, {}, atom)
        return float(v) if isinstance(v, (int, float)) else None
    except Exception:
        return None


def options(ctx, r):
    names = {a.arg for a in r.node.args.args + r.node.args.kwonlyargs}
    got = {}
    for e in r.P.events:
        if e.kind != "setattr" or e.val is None:
            continue
        o = e.obj.t if hasattr(e.obj, "t") else e.obj
        if isinstance(o, tuple) and o[0] == "call" and o[1].split(".")[-1].startswith("ElectronCountOptions"):
            got.setdefault(o[1].split(".")[-1], {}).setdefault(e.attr, []).append((e.val.t, e))
    if not got:
        ctx.und(R7, r.at, "no assignments to option objects recognised")
        return
    stats_names = {norm(f) for f in got_fields(ctx, "CalculateThresholdsResults")}
    for cls, attrs in sorted(got.items()):
        m = matching(sorted(attrs), names)
        for a, vs in sorted(attrs.items()):
            ctx.count("option attributes compared")
            at = "%s: %s.%s" % (vs[0][1].at, cls, a)
            bad = None
            for t, e in vs:
                s = stat_of(t)
                ps = params_in(t, names) if RESULTS not in repr(t) else set()
                if s is not None:
                    if norm(s) != norm(a) and (norm(a) in stats_names or any(norm(s) == norm(b) for b in attrs)):
                        bad = "receives the statistic %s" % s
                    elif a in m and norm(s) != norm(a):
                        bad = "receives the statistic %s instead of the argument %s" % (s, m[a])
                    continue
                if a in m:
                    if t[0] == "const" and none_on_path(m[a], e.pc) is not True:
                        bad = "receives the constant %s instead of the argument %s" % (show(t), m[a])
                    elif ps and m[a] not in ps:
                        bad = "receives %s instead of the argument %s" % (show(t)[:80], m[a])
                elif ps and any(m.get(b) in ps for b in attrs if b != a) and len(ps) == 1:
                    bad = "receives %s, the argument for another option" % show(t)[:80]
            if bad:
                ctx.bad(R7, at, "%s.%s %s" % (cls, a, bad), key="%s.%s" % (cls, a))
            else:
                ctx.ok(R7, at, "%d assignments" % len(vs))
    # every field of the native structure that is named like an argument must be set, unless the
    # argument goes into the threshold calculation whose results the object receives
    thr = set()
    for e in r.P.events:
        if e.kind == "call" and e.name == RESULTS:
            for a in e.args:
                thr |= params_in(a.t, names)
    unknown = any(e.kind == "call" and str(e.name).split(".")[-1] in ("setattr", "update", "vars") for e in r.P.events)
    for c, attrs in sorted(got.items()):
        m = matching(sorted(attrs), names)
        stats = any(stat_of(t) for vs in attrs.values() for t, e in vs)
        want = matching(sorted({f.lstrip("m_") if f.startswith("m_") else f for f in got_fields(ctx, c)}), names)
        for f, p in sorted(want.items()):
            if p in m.values() or stats and p in thr or unknown:
                continue
            ctx.count("option attributes compared")
            ctx.bad(R7, "%s: %s" % (r.at, p), "argument %s never reaches %s.%s" % (p, c, f), key="%s.%s" % (c, p))


_fields = {}


def got_fields(ctx, cls):
    """the fields of the native option structure"""
    if cls not in _fields:
        from cxx import Engine
        import c18
        _fields[cls] = c18.record_fields(Engine(), cls) + c18.record_fields(Engine(), cls + "Py")
    return _fields[cls]


def gain(ctx, r):
    vals = []
    for e in r.P.events:
        if e.kind == "setattr" and e.attr == "gain" and e.val is not None:
            vals.append((e.val.t, e, "option gain"))
        if e.kind == "call" and e.name == RESULTS:
            for a in e.args:
                if ("param", "gain") in list(walk(a.t)):
                    vals.append((a.t, e, "threshold gain"))
    seen = {}
    for t, e, what in vals:
        n = none_on_path("gain", e.pc)
        if is_none(t) or n is True:
            if is_none(t) and n is False:
                seen[(what, e.at)] = "the gain is dropped"
            continue
        v = inverse(t)
        if v is None or n is None and t == ("param", "gain"):
            seen.setdefault((what, e.at), None)
        elif abs(v - 0.25) < 1e-9:
            seen.setdefault((what, e.at), "")
        else:
            seen[(what, e.at)] = "%s is %g for a gain of 4" % (show(t)[:60], v)
    for (what, at), d in sorted(seen.items()):
        ctx.count("gain values evaluated")
        if d:
            ctx.bad(R9, "%s: %s" % (at, what), d, key=what)
        elif d == "":
            ctx.ok(R9, "%s: %s" % (at, what), "1/gain")
        else:
            ctx.und(R9, "%s: %s" % (at, what), "not evaluated")


def thresholds(ctx, r):
    from cxx import functions
    names = [a.arg for a in r.node.args.args]
    sigs = set()
    for f in functions(ctx, "stempy::calculateThresholds"):
        sigs.add(tuple(p["n"] for p in f["params"]))
    if not sigs:
        ctx.und(R8, r.at, "threshold functions not found")
        return
    seen = {}
    for e in r.P.events:
        if e.kind != "call" or e.name != RESULTS:
            continue
        roles = []
        for a in e.args:
            ps = params_in(a.t, set(names))
            roles.append(ps.pop() if len(ps) == 1 else None)
        if any(x is None for x in roles[1:]) or e.kw:
            seen.setdefault((e.at, tuple(roles)), None)
            continue
        roles[0] = None
        seen[(e.at, tuple(roles))] = fits(roles, sigs)
    for (at, roles), d in sorted(seen.items(), key=str):
        ctx.count("threshold calls compared")
        if d is None:
            ctx.und(R8, at, "arguments %s not attributed" % (roles,))
        elif d is True:
            ctx.ok(R8, at, ", ".join(map(str, roles)))
        else:
            ctx.bad(R8, at, "arguments (%s) do not follow any parameter order (%s)" % (", ".join(map(str, roles)), d), key=",".join(map(str, roles)))


def fits(roles, sigs):
    """True when some overload takes the arguments in this order, its parameter list when an
    overload of this length has the same names in another order, None otherwise"""
    other = None
    for s in sigs:
        if len(s) != len(roles):
            continue
        m = matching(list(s[1:]), [x for x in roles[1:]])
        if all(m.get(s[i]) == roles[i] for i in range(1, len(s))):
            return True
        if len(m) == len(s) - 1:
            other = ", ".join(s)
    return other


def keys(ctx):
    r = None
    for mod in (IMAGE,):
        m = Py().mods[mod]
        for n in m.names:
            if "metadata" in n and "dict" in n:
                r = function(ctx, mod, n)
    if r is None:
        ctx.und(R10, IMAGE, "conversion of the metadata not found")
        return
    from cxx import Engine
    import c18
    want = {norm(f) for f in c18.record_fields(Engine(), "ElectronCountedMetadata")}
    arg = r.node.args.args[0].arg
    for x, v in r.returns():
        if v.d is None or v.open:
            ctx.und(R10, r.at, "entries not enumerated")
            continue
        got = {}
        for k, e in v.d.items():
            if k.__class__ is tuple and len(k) == 2 and k[0] == "const":
                k = k[1]
            ctx.count("metadata entries compared")
            t = e.t
            got[norm(str(k))] = 1
            if t[0] == "attr" and t[1] == ("param", arg):
                if norm(t[2]) == norm(str(k)):
                    ctx.ok(R10, "%s: %s" % (r.at, k))
                elif norm(t[2]) in want:
                    ctx.bad(R10, "%s: %s" % (r.at, k), "entry %r is the field %s" % (k, t[2]), key=str(k))
                else:
                    ctx.und(R10, "%s: %s" % (r.at, k), show(t)[:80])
            else:
                ctx.und(R10, "%s: %s" % (r.at, k), show(t)[:80])
        lost = sorted(w for w in want if w not in got)
        if got and lost and len(lost) <= len(want) // 2:
            ctx.bad(R10, r.at, "the dictionary has no entry for %s" % ", ".join(lost), key="lost")


def check(ctx):
    r = function(ctx, IMAGE, FN)
    if r is None:
        ctx.und(R7, IMAGE + "." + FN, "function not followed")
    else:
        options(ctx, r)
        gain(ctx, r)
        thresholds(ctx, r)
    keys(ctx)
