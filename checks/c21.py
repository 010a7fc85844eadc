"""Failed HDF5 writes are reported.  First the HDF5 layer: a writer is a public function that
creates or writes something (found by the library calls on its paths, implementation
inlined).  Its result is a closed form over the results of the library calls; on every
consistent combination of those results, each create, write or selection call on the path
that failed makes the function return false, and with an invalid file the function
returns false.  Then the callers: wherever repository code outside the layer calls a
writer, every path on which the writer returned false leads to a throw."""
from cxx import *
from numeval import Undecided
import h5val
from h5val import *
import c20

ASSUMPTIONS = ["an HDF5 call given an invalid identifier fails"]
WRITE = ("H5Acreate", "H5Awrite", "H5Dcreate", "H5Dwrite", "H5Gcreate", "H5Dset_extent", "H5Lcreate")
EFFECT = WRITE + ("H5Sselect_hyperslab",)
RULE = "a failed HDF5 operation makes the write function return false"
INV = "writing without an open file returns false"
CALLER = "a write function that returned false leads to an exception"


def check(ctx):
    pub, impl = c20.entries(ctx)
    names = sorted({f["f"] for f in pub})
    ctx.require(pub, "the HDF5 layer's public class is gone")
    writers = sorted({f["f"] for f in pub if writes(f, by_key())})
    ctx.require(writers, "no function of the HDF5 layer writes anything")
    others = users(writers)
    ctx.count("write functions of the HDF5 layer", len(writers))
    ctx.parallel([lambda c, f=f: layer(c, f) for f in pub if f["f"] in writers]
                 + [lambda c, f=f: caller(c, f, writers, names) for f in others])


def by_key():
    out = {}
    for f in all_functions():
        out[f["key"]] = f
    return out


def writes(f, keys, seen=None):
    """a create or write call in the function or in what it calls inside the layer"""
    seen = seen if seen is not None else set()
    if f["key"] in seen:
        return False
    seen.add(f["key"])
    for x in walk(f["body"]):
        if x.get("k") == "call":
            n = str(x.get("f", ""))
            if n.startswith(WRITE):
                return True
            g = keys.get(x.get("key"))
            if g is not None and g["f"].startswith("h5::") and writes(g, keys, seen):
                return True
    return False


def layer(ctx, f):
    at = where(f)
    E = analyse(ctx, f)
    if E is None:
        return
    res = E.result
    if not isinstance(res, type(ZERO)):
        ctx.und(RULE, at, "the function has no result the analysis could derive")
        return
    ctx.count("write functions analysed")
    bad = {}
    conds = [res] + [x.args[0] for x in h5val.subs(res) if x.op == "ite"]
    n = [0]

    def body(v, calls):
        n[0] += 1
        r = v.ev(res)
        for e in calls:
            if e.x["name"].startswith(EFFECT) and h5name(e.x["ret"]) and v.ev(e.x["ret"]) < 0 and r:
                bad[(RULE, e.at, "%s returns true although %s failed" % (f["f"], e.x["name"]))] = 1
        if r and any(is_file(k) and x < 0 for k, x in v.env.items()):
            bad[(INV, at, "%s returns true although no file is open" % f["f"])] = 1
    try:
        paths(E, conds, body)
    except Undecided as x:
        ctx.und(RULE, at, str(x))
        return
    ctx.count("paths walked", n[0])
    ctx.count("create and write calls on them", len({(e.at, e.x["name"]) for e in E.events if is_h5(e) and e.x["name"].startswith(EFFECT)}))
    for rule, w, msg in sorted(bad, key=str):
        ctx.bad(rule, w, msg, msg)
    if not bad:
        ctx.ok(RULE, at, "%d paths" % n[0])


def caller(ctx, f, writers, names):
    at = where(f)
    E = analyse(ctx, f, opaque=names)
    if E is None:
        return
    res = E.result if isinstance(E.result, type(ZERO)) else None
    throws = [e for e in E.events if e.kind == "throw"]
    for c in E.events:
        if c.kind != "call" or c.x.get("name") not in writers or c.x.get("ctor"):
            continue
        r = c.x.get("ret")
        if not isinstance(r, type(ZERO)):
            ctx.und(CALLER, c.at, "the result of %s is not followed" % c.x["name"])
            continue
        ctx.count("calls of write functions")
        later = [t for t in throws if t.seq > c.seq]
        # a failure recorded in a variable and examined later is not followed
        doms = Space(list(c.pc) + [r] + [x for t in later for x in t.pc] + ([res] if res is not None else [])).domains()
        miss = []

        def run(v):
            if not v.true(c.pc) or v.ev(r):
                return
            if any(v.true(t.pc) for t in later):
                return
            # a helper that passes the failure on in its result
            if not (res is not None and not v.ev(res)):
                miss.append(v.env)
        try:
            branch(doms, run)
        except Undecided as x:
            ctx.und(CALLER, c.at, str(x))
            continue
        if not miss:
            ctx.ok(CALLER, c.at, short(c))
        elif recorded(E, r, later):
            ctx.und(CALLER, c.at, "the result is combined into a value that is examined later")
        else:
            ctx.bad(CALLER, c.at, "%s continues normally when %s fails" % (f["f"], c.x["name"]),
                    "%s:%s" % (f["f"], c.x["name"]))


def data(t):
    """terms a value is made of (not the conditions that select between values)"""
    if t.op == "ite":
        return data(t.args[1]) | data(t.args[2])
    out = {t}
    for a in t.args:
        for y in flat(a):
            out |= data(y)
    return out


def recorded(E, r, later):
    """does the result flow into a variable of a loop that a later throw depends on"""
    taint = {r} | {x for x in r.args if isinstance(x, type(ZERO)) and h5name(x) is None and x.op == "ret"}
    more = True
    while more:
        more = False
        for uid, rec in E.rec.items():
            for p, (i0, e) in rec["eqs"].items():
                if p in taint:
                    continue
                d = set()
                for x in (i0, e):
                    if isinstance(x, type(ZERO)):
                        d |= data(x)
                if d & taint:
                    taint |= {p, mk("phiend", uid, p.args[1])}
                    more = True
    taint = {x for x in taint if x.op in ("phi", "phiend")}
    return any(set(h5val.subs(c)) & taint for t in later for c in t.pc)


def users(writers):
    """functions outside the layer that reach a write function"""
    fs = [f for f in all_functions() if not f["f"].startswith("h5::")]
    calls = {f["key"]: {(x.get("f"), x.get("key")) for x in walk(f["body"]) if x.get("k") == "call"} for f in fs}
    hit = {k for k, c in calls.items() if any(n in writers for n, _ in c)}
    more = True
    while more:
        more = False
        for k, c in calls.items():
            if k not in hit and any(y in hit for _, y in c):
                hit.add(k)
                more = True
    return [f for f in fs if f["key"] in hit]


def short(e):
    return str(e.at).split("/")[-1]
