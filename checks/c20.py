"""HDF5 identifiers: typestate over every path of the HDF5 layer.  For each public function
(and template instantiation) of the h5 layer the dataflow analysis inlines the
implementation and the destructors of the scope guards, and yields every HDF5 library
call with its arguments as closed forms and the condition of the path it is on.  The
conditions only depend on call results being negative or not and on a few scalars, so the
function's paths are the finitely many consistent combinations.  Along each of them an
identifier moves unopened -> open -> closed: at the end of the path none may be left open
(except one stored in a member, see below), the closing call is the one for its kind,
nothing is closed twice, nothing that was not opened (such as H5P_DEFAULT) is closed, a
closed identifier is not used again, and error reporting that was switched off is on.  An
identifier stored in a member is an obligation on the class: its destructor closes it when
it is valid, and a function that closes it leaves the member invalid."""
from cxx import *
from numeval import Undecided
import h5val
from h5val import *

ASSUMPTIONS = ["an HDF5 call given an invalid identifier fails; error reporting is on between public calls"]

KIND = {"A": "H5Aclose", "D": "H5Dclose", "G": "H5Gclose", "F": "H5Fclose", "S": "H5Sclose", "T": "H5Tclose", "P": "H5Pclose",
        "O": "H5Oclose"}
OPEN = {"H5Fopen": "F", "H5Fcreate": "F", "H5Freopen": "F", "H5Gopen1": "G", "H5Gopen2": "G", "H5Gcreate1": "G", "H5Gcreate2": "G",
        "H5Gcreate_anon": "G", "H5Dopen1": "D", "H5Dopen2": "D", "H5Dcreate1": "D", "H5Dcreate2": "D", "H5Dcreate_anon": "D",
        "H5Dget_space": "S", "H5Dget_type": "T", "H5Dget_create_plist": "P", "H5Dget_access_plist": "P", "H5Aopen": "A",
        "H5Aopen_by_name": "A", "H5Aopen_by_idx": "A", "H5Aopen_name": "A", "H5Aopen_idx": "A", "H5Acreate1": "A", "H5Acreate2": "A",
        "H5Acreate_by_name": "A", "H5Aget_space": "S", "H5Aget_type": "T", "H5Aget_create_plist": "P", "H5Screate": "S",
        "H5Screate_simple": "S", "H5Scopy": "S", "H5Tcopy": "T", "H5Tcreate": "T", "H5Tget_native_type": "T", "H5Tget_super": "T",
        "H5Tvlen_create": "T", "H5Tarray_create2": "T", "H5Tenum_create": "T", "H5Topen2": "T", "H5Pcreate": "P", "H5Pcopy": "P",
        "H5Oopen": "O", "H5Fget_create_plist": "P", "H5Fget_access_plist": "P"}
# H5Oclose closes groups, datasets and named types too
CLOSERS = {}
for k, c in KIND.items():
    CLOSERS[c] = {k}
CLOSERS["H5Oclose"] = {"O", "G", "D", "T"}
RULE = "opened once, closed once by the matching call"
ERR = "error reporting restored"
MEMBER = "identifier kept in a member is closed by the class"


def entries(ctx):
    """public functions, and every other function of the layer with HDF5 calls no public one reaches"""
    fs = [f for f in all_functions() if f["f"].startswith("h5::")]
    pub = [f for f in fs if f["f"].startswith("h5::H5ReadWrite::") and "H5ReadWriteImpl" not in f["f"]]
    return pub, [f for f in fs if "H5ReadWriteImpl" in f["f"] and "lambda" not in f["f"]]


def calls_h5(f):
    return any(x.get("k") == "call" and str(x.get("f", "")).startswith("H5") for x in walk(f["body"]))


def check(ctx):
    pub, impl = entries(ctx)
    ctx.require(pub and impl, "the HDF5 layer's classes are gone")
    ctx.parallel([lambda c, f=f: one(c, f) for f in pub] + [lambda c, f=f: one(c, f, True) for f in impl]
                 + [lambda c, f=f: member(c, f, impl) for f in impl if "::~" not in f["f"]])


def one(ctx, f, inner=False):
    at = where(f)
    E = analyse(ctx, f)
    if E is None:
        return
    evs = [e for e in E.events if e.kind == "call" and str(e.x.get("name")).startswith("H5")]
    if not evs:
        return
    ctx.count("functions analysed")
    ctx.count("HDF5 call sites on their paths", len({(e.at, e.x["name"], e.stack if hasattr(e, "stack") else 0) for e in evs}))
    errors = [e for e in evs if e.x["name"].startswith("H5Eset_auto")]
    dtor = "::~" in f["f"]
    h5val.note_members(evs)
    bad = {}
    und = set()
    n = 0
    final = final_members(E)
    conds = []
    for e in errors:
        conds.extend(e.pc)
    for loc, val in final:
        if h5val.ident(val):
            conds.extend(x.args[0] for x in h5val.subs(val) if x.op == "ite")
    if inner:
        errors = []

    def body(v, calls):
        walk_path(ctx, E, v, calls, errors, final, dtor, bad)
    try:
        n = paths(E, conds, body)
    except Undecided as x:
        und.add(str(x))
    ctx.count("paths walked", n)
    for (rule, where_, msg) in sorted(bad, key=str):
        ctx.bad(rule, where_, "%s: %s" % (f["f"], msg), "%s:%s" % (f["f"], msg))
    if und:
        ctx.und(RULE, at, "; ".join(sorted(und))[:200])
    elif not bad:
        ctx.ok(RULE, at, "%d paths" % n)


def final_members(E):
    """members of the object (and what it owns) at the end of the function"""
    out = []
    for loc, val in (E.st.mem if E.st is not None else {}).items():
        if isinstance(loc, type(ZERO)) and isinstance(val, type(ZERO)) and show(loc).startswith("this"):
            out.append((loc, val))
    return out


def walk_path(ctx, E, v, calls, errors, final, dtor, bad):
    opened = {}
    closed = {}
    for e in calls:
        name = e.x["name"]
        args = e.x["args"]
        if name in CLOSERS:
            a = v.num(args[0]) if args else None
            if a is None or a == -1:
                continue
            if a in opened:
                k, o = opened.pop(a)
                if k not in CLOSERS[name]:
                    bad[(RULE, e.at, "what %s (%s) opened is closed by %s" % (o.x["name"], short(o), name))] = 1
                closed[a] = (name, e)
            elif a in closed:
                bad[(RULE, e.at, "%s closes an identifier that %s already closed at %s" % (name, closed[a][0], short(closed[a][1])))] = 1
            elif args[0].op == "n" or not ident_value(v, a):
                bad[(RULE, e.at, "%s is given %s, which was not opened" % (name, show(args[0])[:60]))] = 1
            else:
                if file_value(v, a):
                    if name != "H5Fclose":
                        bad[(RULE, e.at, "the file's identifier is closed by %s" % name)] = 1
                    closed[a] = (name, e)
                    opened.pop(a, None)
            continue
        for a in args:
            x = v.num(a) if isinstance(a, type(ZERO)) and h5val.ident(a) else None
            if x is not None and x in closed:
                bad[(RULE, e.at, "%s uses an identifier that %s closed at %s" % (name, closed[x][0], short(closed[x][1])))] = 1
        r = e.x["ret"]
        if name in OPEN and h5name(r) and v.ev(r) >= 0:
            opened[v.env[r]] = (OPEN[name], e)
    for a, (k, o) in opened.items():
        kept = [loc for loc, val in final if v.num(val) == a]
        res = E.result if isinstance(E.result, type(ZERO)) else None
        if kept or res is not None and v.num(res) == a:
            continue
        bad[(RULE, o.at, "the identifier %s opens is still open when the function ends" % o.x["name"])] = 1
    for a, (c, e) in closed.items():
        if file_value(v, a):
            left = [loc for loc, val in final if v.num(val) == a]
            key = [k for k, x in v.env.items() if x == a]
            names = {show(k)[1:-1] for k in key}
            if not dtor and (left or not any(show(l) in names for l, _ in final)):
                bad[(MEMBER, e.at, "the identifier is closed and the member still holds it")] = 1
    off = None
    for e in errors:
        if v.true(e.pc):
            a = e.x["args"]
            if len(a) > 1 and (a[1] is NULL or isnum(a[1])):
                off = e
            else:
                off = None
    if off is not None:
        bad[(ERR, off.at, "error reporting is switched off and not switched on again before the function ends")] = 1


def outcomes(t):
    return outcomes(t.args[1]) + outcomes(t.args[2]) if t.op == "ite" else [t]


def member(ctx, f, fs):
    """what a function of the class stores in a member is closed by the class's destructor"""
    E = analyse(ctx, f)
    if E is None:
        return
    cls = f["f"].rsplit("::", 1)[0]
    seen = set()
    for e in E.events:
        if not is_h5(e) or e.x["name"] not in OPEN or not h5name(e.x["ret"]):
            continue
        for loc, val in final_members(E):
            if not any(x is e.x["ret"] for x in outcomes(val)) or (loc, e.x["name"]) in seen:
                continue
            seen.add((loc, e.x["name"]))
            ctx.count("identifiers stored in members")
            path = show(loc).split(".")
            if len(path) > 2:
                ctx.ok(MEMBER, e.at, "stored in an object with a destructor of its own")
                continue
            ds = [g for g in fs if g["f"].startswith(cls + "::~")]
            if not ds:
                ctx.bad(MEMBER, e.at, "%s stores the identifier %s opens in %s, and its class has no destructor" % (
                    f["f"], e.x["name"], show(loc)), "%s:%s" % (f["f"], show(loc)))
                continue
            D = analyse(ctx, ds[0])
            if D is None:
                continue
            hit = []
            var = None
            for c in D.events:
                if is_h5(c) and c.x["name"] in CLOSERS and OPEN[e.x["name"]] in CLOSERS[c.x["name"]] and c.x["args"] \
                        and show(c.x["args"][0]) == "<%s>" % show(loc):
                    hit.append(c)
                    var = c.x["args"][0]
            if not hit:
                other = [c for c in D.events if is_h5(c) and c.x["name"] in CLOSERS]
                if other:
                    ctx.und(MEMBER, e.at, "the destructor closes %s" % [show(c.x["args"][0]) for c in other][:3])
                else:
                    ctx.bad(MEMBER, e.at, "the destructor of %s does not close %s, which holds the identifier %s opens" % (
                        cls, show(loc), e.x["name"]), "%s:%s" % (f["f"], show(loc)))
                continue
            h5val.note_members(D.events)
            doms = Space([x for c in hit for x in c.pc], [var]).domains()
            left = []

            def run(v):
                if v.ev(var) >= 0 and not any(v.true(c.pc) for c in hit):
                    left.append(v.env)
            try:
                branch(doms, run)
            except Undecided as x:
                ctx.und(MEMBER, e.at, str(x))
                continue
            if left:
                ctx.bad(MEMBER, hit[0].at, "the destructor of %s leaves %s open although it is valid" % (cls, show(loc)),
                        "%s:%s" % (f["f"], show(loc)))
            else:
                ctx.ok(MEMBER, e.at, "closed by the destructor")


def short(e):
    return e.at.split("/")[-1] if isinstance(e.at, str) else str(e.at)


def ident_value(v, a):
    return any(x == a and (h5name(k) or is_file(k)) for k, x in v.env.items())


def file_value(v, a):
    return any(x == a and is_file(k) for k, x in v.env.items())
