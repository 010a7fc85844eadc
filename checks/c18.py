"""Option and statistics plumbing.  (1) Conversion: every field of the option structures made
for the native computation is the value of the same field of the Python-facing structure; the
dark and gain pointers come from the arrays of the same name.  (2) Counting: the values handed
to functions and parameters that carry the name of an option or a threshold statistic are that
option or statistic, and every option is used.  (3) Result metadata: every field of the
metadata that counting returns is the threshold statistic of the same name.  (4) The threshold
results: each returned field is evaluated over sample sets and compared with the statistic it
is named after.  (5) The tables of attributes registered with Python name the member they
read.  (6) Python layer: attribute assignments on option objects, arguments of the threshold
calculation and the keys of the metadata dictionary use values of the same name.  Renaming is
not judged; a field that receives another field's value, a constant, or nothing is."""
import random
import re
from fractions import Fraction as F
from cxx import *
import c36
import c18py

R1 = "an option is converted to the option of the same name"
R2 = "an option or statistic is handed over as itself"
R3 = "metadata field holds the statistic of the same name"
R4 = "threshold result field is the statistic it is named after"
R5 = "registered attribute reads the member of its name"
R6 = "an option is used by the computation"

OPTION_RECORDS = ("ElectronCountOptions", "ElectronCountOptionsClassic", "ElectronCountOptionsPy", "ElectronCountOptionsClassicPy")
META_RECORDS = ("ElectronCountedMetadata", "CalculateThresholdsResults")


def norm(n):
    n = re.sub(r"[^a-z0-9]", "", n.lower())
    return n.lstrip("m") if n.startswith("m_") else n


def record_fields(E, short):
    for tu in E.tus:
        for s, r in tu.records.items():
            if s.split("<")[0] == "stempy::" + short and "fields" in r:
                return [f["n"] for f in r["fields"]]
    return []


def vocabulary(E):
    v = set()
    for r in OPTION_RECORDS + META_RECORDS:
        v |= {norm(n) for n in record_fields(E, r)}
    return v


def check(ctx):
    E0 = Engine()
    conversions(ctx, E0)
    attributes(ctx, E0)
    repackaged(ctx, E0)
    tasks = []
    for f in functions(ctx, "stempy::calculateThresholds"):
        tasks.append(lambda c, f=f: statistics(c, f))
    for f in functions(ctx, "stempy::electronCount", lambda f: len(f["params"]) == 2 and "Reader" in f["key"] and "PyArray" not in f["key"] and "OptionsPy" not in f["key"]):
        tasks.append(lambda c, f=f: counting(c, f))
    for f in functions(ctx, "stempy::electronCount", lambda f: len(f["params"]) == 3 and "ClassicPy" not in f["key"] and has_dispatch(f)):
        tasks.append(lambda c, f=f: classic(c, f))
    tasks.append(lambda c: c18py.check(c))
    ctx.parallel(tasks)


def has_dispatch(f):
    # the public entry: the instantiation that only has the iterator as template argument
    return not re.search(r"(true|false)>\|", f["key"]) and "<" in f["key"].split("|")[0]


# ---------------------------------------------------------------- conversion
def conversions(ctx, E0):
    todo = []
    for tu in E0.tus:
        for f in tu.functions:
            m = re.match(r"(stempy::)?(ElectronCountOptions(?:Classic)?Py)::(\w+)$", f["f"])
            if m and not f["params"] and f.get("body") and re.search(r"\|stempy::ElectronCountOptions(Classic)?\b", f["key"]):
                todo.append((m.group(2), f))
    ctx.require(todo, "no conversion of the option structures found")
    seen = set()
    for rec, f in todo:
        if f["key"] in seen:
            continue
        seen.add(f["key"])
        at = where(f)
        E = analyse(ctx, f)
        if E is None:
            continue
        src = set(record_fields(E, rec))
        dst = record_fields(E, rec[:-2])
        for n in dst:
            ctx.count("option fields compared")
            if E.result is None or E.result.op not in ("root", "loc"):
                ctx.und(R1, at, "returned structure not recognised")
                break
            l = loc_field(E.result, n)
            v = E.lookup(l)
            if n not in src:
                ctx.und(R1, at, "no source field named %s" % n)
                continue
            if n == "scanDimensions":
                v2 = [E.lookup(loc_field(l, x)) for x in ("first", "second")]
                used = [origin(x) for x in v2]
                good = used == [{(n, "first")}, {(n, "second")}]
                used = set().union(*used)
            else:
                used = origin(v)
                good = {u[0] for u in used} == {n}
            if n not in ("darkReference", "gain", "scanDimensions"):
                good = good and isinstance(v, type(ZERO)) and v.op == "val"
            if good:
                ctx.ok(R1, "%s: %s" % (at, n), "")
            elif not used and not opaque_part(v):
                ctx.bad(R1, "%s: %s" % (at, n), "%s does not depend on the field %s of %s" % (n, n, rec))
            elif used and not {u[0] for u in used} & {n} or n == "scanDimensions" and used == {(n, "first"), (n, "second")}:
                ctx.bad(R1, "%s: %s" % (at, n), "%s is set from %s" % (n, ", ".join(sorted(".".join(u) for u in used))))
            else:
                ctx.und(R1, "%s: %s" % (at, n), "value %s" % str(v)[:100])


def opaque_part(v):
    return isinstance(v, type(ZERO)) and any(x.op in ("u", "ret") for x in subterms(v))


def origin(v):
    """the fields of the object that occur in a value"""
    out = set()
    if not isinstance(v, type(ZERO)):
        return out
    for s in [v] + list(subterms(v)):
        if s.op in ("val", "loc"):
            l = s.args[0] if s.op == "val" else s
            if not isinstance(l, type(ZERO)):
                continue
            r, st = steps(l)
            if r.op == "root" and r.args[0] == "this":
                fs = tuple(x.args[2] for x in st if x.args[1] == ".")
                if fs:
                    out.add(fs[:2])
    # drop prefixes of longer paths
    return {a for a in out if not any(b != a and b[:len(a)] == a for b in out)}


def repackaged(ctx, E0):
    """the result structure made for Python takes every field of the native one from the field of its name"""
    seen = set()
    for tu in E0.tus:
        for f in tu.functions:
            m = re.match(r"(stempy::)?(\w+)::(\w+)$", f["f"])
            if not m or m.group(2) != m.group(3) or len(f["params"]) != 1 or not f.get("body") or f["key"] in seen:
                continue
            pt = tu.ty(f["params"][0]["t"])["s"]
            g = re.search(r"stempy::(ElectronCountedData\w*)\b", pt)
            if not g or g.group(1) == m.group(2) or not m.group(2).startswith("ElectronCountedData"):
                continue
            seen.add(f["key"])
            E = analyse(ctx, f)
            if E is None or E.st is None:
                continue
            at = where(f)
            this, other = mk("root", "this", "this"), f["params"][0]["n"]
            shared = set(record_fields(E, m.group(2))) & set(record_fields(E, g.group(1)))
            for n in sorted(shared):
                if n == "data":
                    continue
                ctx.count("result fields compared")
                if n.endswith("Dimensions"):
                    got = [E.lookup(loc_field(loc_field(this, n), x)) for x in ("first", "second")]
                    src = [pathof(x) if isinstance(x, type(ZERO)) else None for x in got]
                    if all(p is not None and p[0][0] == "p" and p[0][1] == other for p in src):
                        have = [tuple(fields(p)) for p in src]
                        if have == [(n, "first"), (n, "second")]:
                            ctx.ok(R2, "%s: %s" % (at, n), "")
                        else:
                            ctx.bad(R2, "%s: %s" % (at, n), "%s of the result is taken from %s" % (n, ", ".join(".".join(x) for x in have)))
                    elif all(isinstance(x, type(ZERO)) and x.op == "n" for x in got):
                        ctx.bad(R2, "%s: %s" % (at, n), "%s of the native result is dropped" % n)
                    else:
                        ctx.und(R2, "%s: %s" % (at, n), "value %s" % str(got)[:100])
                    continue
                at_n = loc_field(this, n)
                sets = [e for e in E.events if isinstance(e.loc, type(ZERO)) and under_loc(e.loc, at_n) and e.x.get("how") != "init"]
                if sets:
                    ctx.ok(R2, "%s: %s" % (at, n), "assigned")
                elif any(isinstance(e.loc, type(ZERO)) and under_loc(e.loc, at_n) for e in E.events):
                    ctx.bad(R2, "%s: %s" % (at, n), "%s of the native result is dropped" % n)
                else:
                    ctx.und(R2, "%s: %s" % (at, n), "no assignment recognised")


def under_loc(l, base):
    if l is base:
        return True
    r, st = steps(l)
    b, sb = steps(base)
    return r is b and len(st) >= len(sb) and all(x.args[1:] == y.args[1:] for x, y in zip(st, sb))


# ---------------------------------------------------------------- attributes
ALIAS = {"xraythreshold": "xraythreshold"}
BINDERS = ("def_readonly", "def_readwrite")


def attributes(ctx, E0):
    seen = set()
    n = 0
    for tu in E0.tus:
        for f in tu.functions:
            if not f.get("body"):
                continue
            for c in walk(f["body"]):
                if c.get("k") != "call" or str(c.get("f", "")).split("::")[-1] not in BINDERS:
                    continue
                name = [m for m in walk(c["args"][0]) if m.get("k") == "str"]
                mem = [m for m in walk(c["args"][1]) if m.get("k") in ("fieldref", "mref")]
                if not name or not mem:
                    continue
                rec = tu.ty(c["obj"]["t"])["s"] if c.get("obj") else ""
                member = mem[0].get("n") or ""
                cls = mem[0].get("cls") or rec
                key = (cls, rec, name[0].get("v"), member, tu.loc(c))
                if key in seen:
                    continue
                seen.add(key)
                n += 1
                short = re.sub(r"<.*", "", str(cls)).split("::")[-1]
                others = {norm(x) for x in record_fields(E0, short)}
                got, want = norm(str(name[0].get("v"))), norm(member.split("::")[-1])
                ctx.count("registered attributes compared")
                if got == want:
                    ctx.ok(R5, "%s: %s" % (tu.loc(c), name[0].get("v")), "")
                elif got in others:
                    ctx.bad(R5, "%s: %s" % (tu.loc(c), name[0].get("v")), "the attribute %s of %s reads %s" % (name[0].get("v"), short, member))
                else:
                    ctx.und(R5, "%s: %s" % (tu.loc(c), name[0].get("v")), "member %s" % member)
    if not n:
        ctx.und(R5, "python bindings", "no registered attribute recognised")


# ---------------------------------------------------------------- statistics
WIDTHS = ["mean", "variance", "stdDev", "optimizedMean", "optimizedStdDev"]
STATS = ["numberOfSamples", "minSample", "maxSample", "mean", "variance", "stdDev", "xRayThresholdNSigma", "backgroundThresholdNSigma", "xRayThreshold"]


def statistics(ctx, f):
    at = where(f)
    E = analyse(ctx, f)
    if E is None:
        return
    r = E.result
    if r is None or r.op not in ("root", "loc", "val"):
        ctx.und(R4, at, "returned structure not recognised")
        return

    def val(n):
        return E.lookup(loc_field(r, n))
    P = f["params"]
    dbl = [pval(f, i) for i, p in enumerate(P) if f["_tu"].ty(p["t"])["s"] == "double"]
    names = record_fields(E, "CalculateThresholdsResults")
    # the fit: position and width are different results of the solver, the threshold is mean + sigma factor * width
    om, od, bt = val("optimizedMean"), val("optimizedStdDev"), val("backgroundThreshold")
    if all(isinstance(x, type(ZERO)) for x in (om, od, bt)) and len(dbl) == 2:
        ctx.count("statistics compared", 3)
        wit = add(om, mul(od, dbl[0]))
        if bt is wit:
            ctx.ok(R4, "%s: backgroundThreshold" % at, "")
        else:
            combos = [(a, b, i) for a in WIDTHS for b in WIDTHS for i in (0, 1) if bt is add(val(a), mul(val(b), dbl[i]))]
            rep = {val(n): sym(n) for n in ("xRayThreshold", "stdDev", "mean", "variance", "minSample", "maxSample") if isinstance(val(n), type(ZERO))}
            rep.update({om: sym("fitMean"), od: sym("fitWidth"), dbl[0]: sym("bgSigma"), dbl[1]: sym("xrSigma")})
            b2 = subst(bt, rep)
            left = {x for x in atoms_of(b2)}
            if combos:
                a, b, i = combos[0]
                ctx.bad(R4, "%s: backgroundThreshold" % at, "the background threshold is %s + %s * %s sigma factor" % (a, b, ("background", "x-ray")[i]))
            elif left <= set(rep.values()) and not opaque_part(b2):
                ctx.bad(R4, "%s: backgroundThreshold" % at, "the background threshold is %s" % str(b2)[:200])
            else:
                ctx.und(R4, "%s: backgroundThreshold" % at, "closed form %s" % str(b2)[:200])
        if om is od:
            ctx.bad(R4, "%s: optimizedStdDev" % at, "fitted mean and width are the same value")
        else:
            ctx.ok(R4, "%s: optimizedMean, optimizedStdDev" % at, "distinct results of the fit")
        ini = state_order(E, val("mean"), val("stdDev"))
        if ini:
            im, isd = ini
            gm, gs = solver_index(E, om), solver_index(E, od)
            if gm is not None and gs is not None:
                if (gm, gs) == (im, isd):
                    ctx.ok(R4, "%s: order of the fit parameters" % at, "")
                else:
                    ctx.bad(R4, "%s: order of the fit parameters" % at, "fitted mean and width are read from parameters %s and %s, which start as %s" % (gm, gs, ini))
    rng = random.Random(ctx.seed)
    done = {}
    for env in samplesets(rng, f):
        wants = [expect(env, f, k) for k in (0, 1)]
        want = wants[0]
        nm = c36.names_for(f, env)
        for n in STATS:
            t = val(n)
            if n not in names or not isinstance(t, type(ZERO)) or done.get(n) not in (None, True):
                continue
            ne = NumEval(lambda t_: nm(t_), E)
            try:
                got = ne.ev(t)
                # population and sample variance are both variances
                same = any(abs(float(got) - float(w[n])) < 1e-6 * (1 + abs(float(w[n]))) for w in wants)
            except (Undecided, IndexError, TypeError, ValueError, OverflowError) as x:
                done[n] = None if done.get(n) is None else done[n]
                done.setdefault(n + "!", str(x)[:160])
                continue
            ctx.count("statistics compared")
            done[n] = True if same else "%s is %s instead of %s for samples %s, sigma factors %s" % (n, float(got), float(want[n]), env["values"], env["sigma"])
    for n in STATS:
        r_ = done.get(n)
        if r_ is True:
            ctx.ok(R4, "%s: %s" % (at, n), "")
        elif r_:
            ctx.bad(R4, "%s: %s" % (at, n), r_)
        elif n in names and [m for m in names if m != n and isinstance(val(n), type(ZERO)) and val(m) is val(n) and val(n).op != "n"]:
            m = [m for m in names if m != n and val(m) is val(n)][0]
            ctx.bad(R4, "%s: %s" % (at, n), "%s and %s are the same value" % (n, m))
        elif n in names:
            ctx.und(R4, "%s: %s" % (at, n), done.get(n + "!", "not evaluated"))


def samplesets(rng, f):
    for n in range(6):
        W, H = rng.choice([(3, 2), (2, 2), (5, 1)])
        N = W * H
        D = [rng.randint(0, 4) for _ in range(N)]
        raw = [rng.randint(5, 60) + D[i] for i in range(N)]
        g = rng.randint(1, 3)
        isg = "float>" in f["key"].split("|")[1].split("(")[0]
        dark = "false>" not in f["key"].split("|")[0] and any("dark" in p["n"].lower() for p in f["params"])
        # calculateThresholds without dark correction ignores D
        vals = [(raw[i] - (D[i] if dark else 0)) * (g if isg else 1) for i in range(N)]
        yield dict(W=W, H=H, N=N, raw=raw, D=D, G=[g] * N, lo=0, hi=0, om=1, rowdark=False, use_mean=False, samples=3,
                   sigma=[rng.randint(2, 4), rng.randint(5, 12)], values=vals)


def expect(env, f, ddof):
    v = env["values"] * env["samples"]
    m = F(sum(v), len(v))
    var = sum((F(x) - m) ** 2 for x in v) / (len(v) - ddof)
    sd = float(var) ** 0.5
    return dict(numberOfSamples=env["samples"], minSample=min(v), maxSample=max(v), mean=m, variance=var, stdDev=sd,
                backgroundThresholdNSigma=env["sigma"][0], xRayThresholdNSigma=env["sigma"][1], xRayThreshold=float(m) + env["sigma"][1] * sd)


def state_order(E, mean, std):
    """positions at which mean and standard deviation start the fit"""
    got = []
    for e in E.events:
        if e.kind == "call" and str(e.val).endswith(("operator<<", "operator,")) and "Eigen" in str(e.val):
            a = [x for x in e.x["args"] if isinstance(x, type(ZERO))]
            got.append(a[-1] if a else None)
    if mean in got and std in got and got.count(mean) == 1 and got.count(std) == 1 and len(got) == 3:
        return got.index(mean), got.index(std)
    return None


def solver_index(E, t):
    if t.op == "fn1":
        t = t.args[1]
    for e in E.events:
        if e.kind == "call" and e.x.get("ret") is t and str(e.val).endswith(("operator[]", "operator()")):
            for a in e.x["args"]:
                if isinstance(a, type(ZERO)) and a.op == "n":
                    return a.args[0]
    return None


# ---------------------------------------------------------------- counting
OPAQUE = {"stempy::SectorStreamThreadedReader::readAll", "stempy::SectorStreamMultiPassThreadedReader::readAll", "stempy::calculateThresholds",
          "stempy::applyRowDarkSubtraction", "stempy::maximalPoints"}


def leaves(t):
    """alternatives of a value"""
    out, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, type(ZERO)) and x.op == "ite":
            st += [x.args[1], x.args[2]]
        else:
            out.add(x)
    return out


def identity(E, t, optroot, voc):
    """the option or statistic a value is, or None"""
    if not isinstance(t, type(ZERO)):
        return None
    p = pathof(t)
    if p is None:
        return None
    fs = fields(p)
    if not fs:
        return None
    if t.op == "val" and p[0][0] == "p" and p[0][1] == optroot and norm(fs[0]) in voc:
        return norm(fs[0])
    return None


def thresholds_field(t):
    if isinstance(t, type(ZERO)) and t.op == "proj" and t.args[1] == "." and t.args[0].op not in ("proj", "val"):
        return str(t.args[2])
    return None


def counting(ctx, f):
    E = analyse(ctx, f, opaque=OPAQUE)
    if E is None:
        return
    plumbing(ctx, E, f, "ElectronCountOptions", 1, skip=("verbose",))
    metadata(ctx, E, f)


def classic(ctx, f):
    E = analyse(ctx, f, opaque={"stempy::SectorStreamReader::read", "stempy::StreamReader::read", "stempy::PyReader::read",
                                "stempy::applyRowDarkSubtraction", "stempy::maximalPoints"})
    if E is None:
        return
    plumbing(ctx, E, f, "ElectronCountOptionsClassic", 2)


def plumbing(ctx, E, f, rec, oi, skip=()):
    at = where(f)
    voc = vocabulary(E)
    optroot = f["params"][oi]["n"]
    flds = record_fields(E, rec)
    used = set()
    bad = set()
    n = 0
    for e in E.events:
        terms = list(e.pc) + [x for x in (e.loc, e.val) if isinstance(x, type(ZERO))]
        for k in ("args", "vals"):
            terms += [x for x in e.x.get(k) or () if isinstance(x, type(ZERO))]
        if len(used) < len(flds):
            for t in terms:
                for a in allfields(t, optroot):
                    used.add(a)
        pn = None
        if e.kind == "enter" and e.x["fn"]["f"].startswith("stempy::"):
            pn, vals = [p["n"] for p in e.x["fn"]["params"]], e.x["vals"]
        elif e.kind == "call" and str(e.val).startswith("stempy::") and e.x.get("key"):
            g = E.keymap.get(e.x["key"]) or E.by_name.get(str(e.val))
            g = g[0] if isinstance(g, list) else g
            if isinstance(g, tuple):
                g = g[-1]
            if isinstance(g, dict):
                pn, vals = [p["n"] for p in g["params"]], e.x["args"]
        if not pn:
            continue
        for name, v in zip(pn, vals):
            for t in leaves(v) if isinstance(v, type(ZERO)) else ():
                if norm(name) not in voc:
                    continue
                have = identity(E, t, optroot, voc)
                have = have or (norm(thresholds_field(t)) if thresholds_field(t) and norm(thresholds_field(t)) in voc else None)
                if have is None:
                    if t.op == "n" and norm(name) in {norm(x) for x in flds} and not t is NULL:
                        bad.add((e.at, name, "the constant %s" % t))
                    continue
                n += 1
                ctx.count("options and statistics handed over")
                if have != norm(name):
                    bad.add((e.at, name, have))
    for a, name, have in sorted(bad):
        ctx.bad(R2, "%s, %s" % (at, a), "%s receives %s" % (name, have))
    if n and not bad:
        ctx.ok(R2, at, "%d values" % n)
    elif not n:
        ctx.und(R2, at, "no parameter named after an option recognised")
    for x in flds:
        if x in skip:
            continue
        if x in used:
            ctx.ok(R6, "%s: %s" % (at, x), "")
        else:
            ctx.bad(R6, "%s: %s" % (at, x), "the option %s has no effect on the computation" % x)


def allfields(t, root):
    out = set()
    for s in [t] + list(subterms(t)):
        l = s.args[0] if s.op == "val" else s if s.op in ("loc",) else None
        if l is None or not isinstance(l, type(ZERO)):
            continue
        r, st = steps(l)
        if r.op == "root" and r.args[0] == "p" and str(r.args[1]) == root and st and st[0].args[1] == ".":
            out.add(str(st[0].args[2]))
    return out


def metadata(ctx, E, f):
    at = where(f)
    shared = set(record_fields(E, "ElectronCountedMetadata")) & set(record_fields(E, "CalculateThresholdsResults"))
    roots = leaves(E.result) if isinstance(E.result, type(ZERO)) else set()
    got = {}
    for e in E.events:
        if e.kind != "write" or not isinstance(e.loc, type(ZERO)) or not isinstance(e.val, type(ZERO)):
            continue
        r, st = steps(e.loc)
        fs = [x.args[2] for x in st if x.args[1] == "."]
        if len(fs) >= 2 and fs[-2] == "metadata" and fs[-1] in shared:
            for t in leaves(e.val):
                got.setdefault(fs[-1], []).append((thresholds_field(t), t, e.at))
    if not any(x[0] for v in got.values() for x in v):
        ctx.und(R3, at, "metadata assignments not recognised")
        return
    for n in sorted(shared):
        ctx.count("metadata fields compared")
        xs = got.get(n, [])
        from_stats = [x for x in xs if x[0]]
        wrong = [x for x in from_stats if x[0] != n]
        if wrong:
            ctx.bad(R3, "%s, %s" % (at, wrong[0][2]), "metadata %s receives the statistic %s" % (n, wrong[0][0]))
        elif from_stats:
            ctx.ok(R3, "%s: %s" % (at, n), "%d assignments" % len(from_stats))
        elif all(x[1].op == "n" for x in xs):
            ctx.bad(R3, "%s: %s" % (at, n), "metadata %s never receives the statistic" % n)
        else:
            ctx.und(R3, "%s: %s" % (at, n), "assigned %s" % str(xs[-1][1])[:80])
