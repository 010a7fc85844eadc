"""Blocks delivered by the readers.  For every C++ function that fills a block header the
dataflow analysis gives each write to its fields with the condition of its path: wherever
the number of images is set, the format version has to be set to a value that is not zero
(and not be reset to zero afterwards), the frame dimensions (and the scan dimensions, where
the format has them) have to be set, and the image-number table gets as many entries.
The image number made from a header's position is evaluated on non-square scans, and so are the
frame dimensions the sector readers state.
For the functions that return a block, each returned value is either complete (version and
data) or the empty end block, and the end block is returned only where nothing is left.
The version a reader is given is enumerated: unsupported ones have to end in an exception,
supported ones in the matching header.  The Python front end (reader() and the iteration
protocol) is interpreted and its path conditions are evaluated for every version and
back-end."""
import re
from cxx import *
import cxx
from numeval import NumEval, Undecided
import h5val
from h5val import Space, branch

ASSUMPTIONS = ["a version 1 file states a non-zero version in its block headers"]
FILL = "version, dimensions and image numbers are set together with the number of images"
NUMS = "one image number per image"
RET = "a returned block is complete or the empty end block"
END = "the end block is returned only at the end of the data"
VER = "unsupported versions raise"
PYV = "the Python front end refuses unknown versions and back-ends"
PYI = "Python iteration ends at the empty block"
NOSCAN = ("readHeaderVersion1", "readHeaderVersion2")
import c10
PRODUCERS = ("stempy::StreamReader::readHeaderVersion1", "stempy::StreamReader::readHeaderVersion2",
             "stempy::StreamReader::readHeaderVersion3", "stempy::SectorStreamReader::readHeader")
DATA = ("stempy::StreamReader::read", "stempy::StreamReader::skip", "stempy::StreamReader::openNextFile", "stempy::StreamReader::atEnd",
        "stempy::SectorStreamReader::readSectorData", "stempy::SectorStreamReader::read")


def fillers():
    """functions of the readers that assign a number of images, and those that take over a whole header"""
    out = []
    keep = ("stempy::StreamReader::", "stempy::SectorStreamReader::", "stempy::SectorStreamThreadedReader::",
            "stempy::SectorStreamMultiPassThreadedReader::", "stempy::PyReader::")
    for f in all_functions():
        if not f["f"].startswith(keep):
            continue
        if any(sets(x) for x in walk(f["body"])):
            out.append(f)
    return out


def sets(x):
    if x.get("k") == "asg":
        a = x.get("a") or {}
        return a.get("k") == "mem" and a.get("n", "").split("::")[-1] == "imagesInBlock"
    return x.get("k") == "ctor" and x.get("cls") in ("stempy::Header", "Header") and len(x.get("args") or []) >= 4


def check(ctx):
    fs = fillers()
    ctx.require(fs, "no reader fills a block header")
    seen = set()
    some = []
    for f in fs:
        k = f["f"] + "|" + where(f)
        if k not in seen:
            seen.add(k)
            some.append(f)
    ret = [f for f in all_functions({"stempy::StreamReader::read", "stempy::SectorStreamReader::read", "stempy::PyReader::read"})
           if not f["params"]]
    ctx.parallel([lambda c, f=f: fill(c, f) for f in some] + [lambda c, f=f: returned(c, f) for f in ret]
                 + [lambda c, f=f: framesize(c, f) for f in some if "Sector" in f["f"] and not f["f"].endswith("::readHeader")]
                 + [lambda c, f=f: position(c, f) for f in some if f["f"] in PRODUCERS]
                 + [versions_stream, versions_sector, stream_files, python])


def tail(t, n):
    return isinstance(t, type(ZERO)) and t.op == "loc" and t.args[1] == "." and t.args[2] == n


def implied(a, b):
    """does every valuation satisfying conditions a satisfy one of the condition lists b: True, False or None"""
    for p in b:
        if set(p) <= set(a):
            return True
    fx = Facts(list(a))
    doms = Space(list(a) + [x for p in b for x in p]).domains()
    miss = []

    def run(v):
        if v.true(a) and not any(v.true(p) for p in b):
            miss.append(v.env)
    try:
        branch(doms, run, 4000)
    except Undecided:
        return None
    return not miss


def fill(ctx, f):
    at = where(f)
    op = [x for x in PRODUCERS + DATA if x != f["f"]]
    E = analyse(ctx, f, opaque=op)
    if E is None:
        return
    heads = {}
    for e in E.events:
        if e.kind == "write" and tail(e.loc, "imagesInBlock"):
            heads.setdefault(e.loc.args[0], []).append(e)
    if not heads:
        ctx.und(FILL, at, "no header found in the function")
        return
    ctx.count("functions that fill a header")
    for H, ws in heads.items():
        vs = [e for e in E.events if e.kind == "write" and e.loc is loc_field(H, "version")]
        for w in ws:
            if w.val is ZERO or not isinstance(w.val, type(ZERO)) or copied(w.val, "imagesInBlock"):
                continue
            ctx.count("header fills")
            label = short(w)
            group(ctx, E, f, H, w, vs, label)


def copied(val, name):
    """value taken over from another header as a whole"""
    return isinstance(val, type(ZERO)) and (val.op == "proj" and val.args[-1] == name or val.op == "val" and show(val).endswith(".%s>" % name))


def group(ctx, E, f, H, w, vs, label):
    bad = []
    good = [v for v in vs if v.val is not ZERO]
    st = implied(w.pc, [v.pc for v in good]) if good else False
    if st is False:
        bad.append("the version of the block is %s" % ("not set" if not good else "only set on some of the paths that set the number of images"))
    elif st:
        last = max(v.seq for v in good)
        zero = [v for v in vs if v.val is ZERO and v.seq > last and implied(w.pc, [v.pc])]
        if zero:
            bad.append("the version is set back to 0 at %s" % short(zero[0]))
    und = st is None
    for n in ("frameDimensions", "scanDimensions"):
        if n == "scanDimensions" and any(f["f"].endswith(x) for x in NOSCAN):
            continue
        ds = [e for e in E.events if e.kind == "write" and e.loc is loc_field(H, n)]
        parts = [[e for e in E.events if e.kind == "write" and e.loc is loc_field(loc_field(H, n), p)] for p in ("first", "second")]
        ok = implied(w.pc, [e.pc for e in ds]) if ds else False
        if ok is False and all(parts):
            r = [implied(later(w, [e.pc for e in p]), [e.pc for e in p]) for p in parts]
            ok = None if None in r else all(r)
            if not ok and all(any(set(w.pc) <= set(e.pc) for e in p) for p in parts):
                ok = True        # set further down the same path, behind calls that may throw
        if ok is False:
            bad.append("the %s are not set" % ("frame dimensions" if n == "frameDimensions" else "scan dimensions"))
        und = und or ok is None
    L = loc_field(H, "imageNumbers")
    fills = [e for e in E.events if e.kind in ("cop", "range") and e.loc is L and e.val in (
        "push_back", "emplace_back", "resize", "assign", "operator=", "insert", "swap", "ctor")]
    fills = [e for e in fills if set(w.pc) <= set(e.pc) or implied(e.pc, [w.pc]) or implied(w.pc, [e.pc])]
    if not fills:
        bad.append("no image number is stored")
    else:
        count(ctx, E, f, w, fills, L, label)
    for m in bad:
        ctx.bad(FILL, w.at, "%s: %s" % (f["f"], m), "%s:%s" % (f["f"], m[:40]))
    if not bad:
        if und:
            ctx.und(FILL, w.at, label)
        else:
            ctx.ok(FILL, w.at, label)


def skipped(E, w, push):
    """does the function go on, on the path of w, where the push was not reached"""
    extra = set(push.pc) - set(w.pc)
    if not extra or push.seq < w.seq:
        return False
    for e in E.events:
        if e.seq > push.seq and e.thread == push.thread and tuple(e.loops) == tuple(push.loops) and e.kind in (
                "write", "cop", "call", "return", "fillbuf") and set(w.pc) <= set(e.pc) and not extra & set(e.pc) and not any(
                b.kind == "catch" and push.seq < b.seq < e.seq for b in E.events):
            return True
    return False


SIZES = "the frame dimensions of a block are those of its frame"


def framesize(ctx, f):
    """blocks the sector readers hand on have the dimensions of whole frames, not of sectors"""
    at = where(f)
    E = analyse(ctx, f, opaque=[x for x in PRODUCERS + DATA if x != f["f"] and not x.endswith("readHeader")])
    if E is None:
        return
    consts = c10.constants(f)
    for e in E.events:
        if e.kind != "write" or not tail(e.loc, "frameDimensions") or "readHeader" in str((e.stack or ("",))[-1]):
            continue
        got = e.x.get("pair")
        if got is None:
            continue
        for v in (4, 5):
            try:
                d = tuple(int(c10.evaluate(t, c10.Env(consts, v, 0))) for t in got)
            except Exception as u:
                ctx.und(SIZES, e.at, str(u)[:120])
                break
            ctx.count("frame dimensions evaluated")
            if d != (c10.W, c10.H):
                ctx.bad(SIZES, e.at, "%s, version %d: a block states frames of %dx%d instead of %dx%d" % (f["f"], v, d[0], d[1], c10.W, c10.H), "%s:size" % f["f"])
                break
        else:
            ctx.ok(SIZES, e.at, f["f"])


PLACE = "the image number of a frame is its row times the scan width plus its column"


def position(ctx, f):
    """header positions (width, height, x, y) -> image number y * width + x"""
    at = where(f)
    E = analyse(ctx, f, opaque=[x for x in DATA])
    if E is None:
        return
    pushes = [e for e in E.events if e.kind == "cop" and e.val in ("push_back", "emplace_back") and tail(e.loc, "imageNumbers")]
    if len(pushes) != 1 or not (pushes[0].x.get("args") or [None])[-1]:
        return
    e = pushes[0]
    v = e.x["args"][-1]
    if e.loops or any(y.op == "k" for y in [v] + list(subterms(v))):
        return              # this version numbers its images itself
    dims = {n: [d for d in E.events if d.kind == "write" and tail(d.loc, n) and tail(d.loc.args[0], "scanDimensions")] for n in ("first", "second")}
    for w, h, x, y in ((5, 3, 4, 2), (5, 3, 0, 1), (2, 7, 1, 6)):
        raw = (w, h, x, y)
        ne = NumEval(lambda t: (lambda i: raw[int(i)]) if t.op in ("proj", "val", "io") and str(t).rstrip(">").endswith("@") else None, E)
        try:
            got = ne.ev(v)
        except Exception as u:
            ctx.und(PLACE, e.at, str(u)[:120])
            return
        ctx.count("image numbers evaluated")
        for n, want in (("first", w), ("second", h)):
            for d in dims[n]:
                try:
                    g = ne.ev(d.val)
                except Exception:
                    continue
                if g != want:
                    ctx.bad(PLACE, d.at, "%s: the scan %s is read as %s from a header that says %dx%d" % (
                        f["f"], "width" if n == "first" else "height", g, w, h), "%s:scan" % f["f"])
                    return
        if got != y * w + x:
            ctx.bad(PLACE, e.at, "%s: the frame at column %d, row %d of a %dx%d scan gets image number %s" % (f["f"], x, y, w, h, got), "%s:place" % f["f"])
            return
    ctx.ok(PLACE, e.at, f["f"])


def later(w, pcs):
    return w.pc


def count(ctx, E, f, w, fills, L, label):
    """entries of the image-number table against the number of images"""
    n = w.val
    last = [e for e in fills if e.val in ("resize", "assign", "operator=")]
    try:
        size = E.size(L)
    except Exception:
        size = None
    if last and last[-1].val == "resize":
        a = (last[-1].x.get("args") or [None])[0]
        if isinstance(a, type(ZERO)):
            if a is n or sub(a, n) is ZERO:
                ctx.ok(NUMS, w.at, label)
            elif isnum(sub(a, n)):
                ctx.bad(NUMS, last[-1].at, "%s: the block states %s images and holds %s image numbers" % (f["f"], show(n), show(a)),
                        "%s:resize" % f["f"])
            else:
                ctx.und(NUMS, w.at, "%s entries for %s images" % (show(a)[:60], show(n)[:60]))
            return
    pushes = [e for e in fills if e.val in ("push_back", "emplace_back")]
    if pushes and not last:
        one = [e for e in pushes if tuple(e.loops) == tuple(w.loops)]
        loop = [e for e in pushes if tuple(e.loops) != tuple(w.loops)]
        if isnum(n) and not loop and len({e.at for e in one}) == 1 and skipped(E, w, one[0]):
            ctx.bad(NUMS, one[0].at, "%s: the block states %s images, but its image number is not stored on every path" % (f["f"], show(n)), "%s:push" % f["f"])
            return
        if isnum(n) and not loop:
            k = len({e.at for e in one})
            if num(k) is n:
                ctx.ok(NUMS, w.at, label)
            elif k < 2 and num(k) is not n:
                ctx.bad(NUMS, one[0].at, "%s: the block states %s images and gets %d image number" % (f["f"], show(n), k), "%s:push" % f["f"])
            else:
                ctx.und(NUMS, w.at, "%d entries" % k)
            return
        if size is not None and isnum(size) and isnum(n):
            if size is n:
                ctx.ok(NUMS, w.at, label)
            else:
                ctx.bad(NUMS, pushes[0].at, "%s: the block states %s images and gets %s image numbers" % (f["f"], show(n), show(size)),
                        "%s:push" % f["f"])
            return
    if last and last[-1].val == "operator=":
        src = (last[-1].x.get("args") or [None])[0]
        try:
            k = E.size(src)
            if k is n or sub(k, n) is ZERO:
                ctx.ok(NUMS, w.at, label)
                return
        except Exception:
            pass
    ctx.und(NUMS, w.at, "%s images" % show(n)[:60])


def short(e):
    return str(e.at).split("/")[-1]


# ---------------------------------------------------------------- returned blocks
def leaves(t):
    if t.op == "ite":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def returned(ctx, f):
    at = where(f)
    E = analyse(ctx, f, opaque=[x for x in PRODUCERS + DATA if x != f["f"]])
    if E is None:
        return
    ctx.count("functions that return blocks")
    empty = []
    for e in E.events:
        if e.kind != "return" or not isinstance(e.val, type(ZERO)) or e.fn != f["f"] and e.fn is not None and not same(e.fn, f):
            continue
        if e.val.op != "root" and e.val.op != "loc":
            continue
        v = E.lookup(loc_field(loc_field(e.val, "header"), "version"))
        d = E.lookup(loc_field(e.val, "data"))
        n = E.lookup(loc_field(loc_field(e.val, "header"), "imagesInBlock"))
        ctx.count("returned blocks")
        v, d, n = (x if not isinstance(x, type(ZERO)) else strip(x, e) for x in (v, d, n))
        if v is ZERO:
            if n is not ZERO and isnum(n) or definitely_data(d):
                ctx.bad(RET, e.at, "%s returns a block with data and version 0" % f["f"], "%s:zero" % f["f"])
                continue
            empty.append(e)
            ctx.ok(RET, e.at, "end block")
        elif isinstance(v, type(ZERO)) and isnum(v):
            if d is NULL:
                ctx.bad(RET, e.at, "%s returns a block of version %s without data" % (f["f"], show(v)), "%s:nodata" % f["f"])
            else:
                ctx.ok(RET, e.at, "version %s" % show(v))
        else:
            ctx.ok(RET, e.at, "the version the header was filled with")
    for e in empty:
        end(ctx, E, f, e)


def same(fn, f):
    return fn.split("|")[0] == f["key"].split("|")[0]


def strip(t, e):
    """value on the path of the event"""
    fx = set(e.pc)
    while isinstance(t, type(ZERO)) and t.op == "ite":
        c = t.args[0]
        cs = set(c.args) if c.op == "and" else {c}
        if cs <= fx:
            t = t.args[1]
        elif implied(e.pc, [[bnot(c)]]):
            t = t.args[2]
        elif implied(e.pc, [[c]]):
            t = t.args[1]
        else:
            break
    return t


def definitely_data(d):
    return isinstance(d, type(ZERO)) and d.op == "ptr" and d.args[0].op == "root" and d.args[0].args[0] in ("heap", "new")


def end(ctx, E, f, e):
    """the condition of returning the end block against what is left to read"""
    cls = f["f"].split("::")[1]
    if cls == "PyReader":
        names = {}
        for c in e.pc:
            for x in h5val.subs(c):
                if x.op == "val" and show(x).startswith("<this."):
                    names[show(x)[1:-1].split(".")[-1]] = x
        idx = [x for n, x in names.items() if "cur" in n.lower()]
        tot = [x for n, x in names.items() if "total" in n.lower()]
        if len(idx) != 1 or len(tot) != 1:
            ctx.und(END, e.at, "condition not understood")
            return
        rest = [x for n, x in names.items() if x is not idx[0] and x is not tot[0]]
        early = []
        for i, t, step in ((i, t, s) for i in range(6) for t in range(6) for s in ((1, 2, 5) if rest else (1,))):
            ev = NumEval(lambda x: i if x is idx[0] else t if x is tot[0] else step if x in rest else None)
            try:
                hit = all(ev.ev(c) for c in e.pc)
            except Undecided as x:
                ctx.und(END, e.at, str(x))
                return
            if hit and i < t:
                early.append((i, t))
        if early:
            ctx.bad(END, e.at, "%s reports the end at image %d of %d" % ((f["f"],) + early[0]), "%s:early" % f["f"])
        else:
            ctx.ok(END, e.at, "no image is left")
        return
    txt = " ".join(show(c) for c in e.pc)
    if cls == "StreamReader":
        at_end = [c for c in e.pc if "atEnd" in show(c) and not c.op == "not"]
        if at_end:
            ctx.ok(END, e.at, "the last file is exhausted")
        elif e.loops == () and not any("peek" in show(c) for c in e.pc):
            ctx.bad(END, e.at, "%s reports the end without having looked for data" % f["f"], "%s:early" % f["f"])
        else:
            # behind the try block: only reached by an exception that a handler takes
            ctx.und(END, e.at, "reached behind an exception")
        return
    need = {"streams": [c for c in e.pc if "m_streams" in show(c) and c.op != "not"],
            "frame cache": [c for c in e.pc if "m_frameCache" in show(c) and c.op != "not"]}
    miss = [k for k, v in need.items() if not v]
    if miss:
        ctx.bad(END, e.at, "%s reports the end without the %s being empty" % (f["f"], " and the ".join(miss)), "%s:early" % f["f"])
    else:
        ctx.ok(END, e.at, "no stream and no partial frame is left")


# ---------------------------------------------------------------- versions
def pin(doms, name, k):
    for x in doms:
        if x.op in ("val", "proj") and name in show(x).split(".")[-1] or x.op == "proj" and x.args[-1] == name:
            doms[x] = [k]


def version_vars(E):
    out = set()
    for e in E.events:
        for c in e.pc:
            for x in h5val.subs(c):
                s = show(x)
                if x.op == "val" and s in ("<this.m_version>", "<version>") or x.op == "proj" and x.args[-1] == "m_version":
                    out.add(x)
    return out


def versions_stream(ctx):
    fs = [f for f in all_functions({"stempy::StreamReader::read"}) if not f["params"]]
    for f in fs:
        E = analyse(ctx, f, opaque=[x for x in PRODUCERS + DATA if x != f["f"]])
        if E is None:
            continue
        vs = version_vars(E)
        heads = {}
        for e in E.events:
            if e.kind == "call" and str(e.x.get("name", "")) in PRODUCERS:
                heads.setdefault(e.x["name"], []).append(e)
        if not vs or not heads:
            ctx.und(VER, where(f), "the dispatch on the version was not found")
            continue
        throws = [e for e in E.events if e.kind == "throw"]
        known = known_versions()
        names = {show(x) for x in vs}

        def taken(e, k):
            """do the version conditions of the event's path hold (None: there are none, or they are open)"""
            own = [c for c in e.pc if any(show(x) in names for x in h5val.subs(c))]
            return possible(own, {n: k for n in names}) if own else None
        for k in range(0, 10):
            ctx.count("versions enumerated")
            used = {n.split("::")[-1]: e for n, es in heads.items() for e in es if taken(e, k)}
            maybe = any(taken(e, k) is None for es in heads.values() for e in es)
            want = known.get(k)
            if want is None and used:
                n, e = sorted(used.items(), key=lambda x: x[0])[0]
                ctx.bad(VER, e.at, "version %d is read as if it were supported (%s)" % (k, n), "stream:%d" % k)
            elif maybe:
                ctx.und(VER, where(f), "version %d" % k)
            elif want is not None and not used:
                ctx.bad(VER, where(f), "version %d is not read although its header is known" % k, "stream:%d" % k)
            elif want is not None and set(used) != {want}:
                n, e = sorted((x for x in used.items() if x[0] != want), key=lambda x: x[0])[0]
                ctx.bad(VER, e.at, "version %d is read by %s, which fills in another version" % (k, n), "stream:%d" % k)
            elif want is None and not any(taken(e, k) for e in throws):
                ctx.bad(VER, where(f), "version %d returns instead of raising an error" % k, "stream:silent:%d" % k)
            else:
                ctx.ok(VER, where(f), "version %d: %s" % (k, want or "refused"))


def known_versions():
    """version -> header reader, from the version each one fills in"""
    out = {}
    for n in PRODUCERS[:3]:
        for f in all_functions({n}):
            E = Engine()
            E.opaque |= set(DATA)
            try:
                E.run(f)
            except Exception:
                continue
            vals = {e.val for e in E.events if e.kind == "write" and tail(e.loc, "version") and e.val is not ZERO}
            for v in vals:
                if isnum(v):
                    out[int(v.args[0])] = n.split("::")[-1]
                else:
                    m = re.search(r"(\d+)$", n)
                    out.setdefault(int(m.group(1)), n.split("::")[-1])
    return out


def possible(pc, env):
    """may a path with these conditions be taken under the assignment (name -> value): False, True or None"""
    def atom(t):
        s = show(t)
        return env.get(s) if t.op in ("val", "proj") else None
    out = True
    for c in pc:
        try:
            if not NumEval(atom).ev(c):
                return False
        except Undecided:
            out = None
    return out


def versions_sector(ctx):
    for f in all_functions({"stempy::SectorStreamReader::SectorStreamReader"}):
        ns = [p["n"] for p in f["params"]]
        E = analyse(ctx, f, opaque=["stempy::SectorStreamReader::openFiles", "stempy::SectorStreamReader::openFile"])
        if E is None:
            continue
        opens = [e for e in E.events if e.kind == "call" and str(e.x.get("name", "")).split("::")[-1] in ("openFiles", "openFile")]
        conds = [c for e in E.events for c in e.pc]
        vs = {show(x) for c in conds for x in h5val.subs(c) if x.op == "val" and "version" in show(x)}
        files = {show(x) for c in conds for x in h5val.subs(c) if x.op == "val" and show(x).endswith("iles#>")}
        if not opens:
            ctx.und(VER, where(f), "opening of the files not found")
            continue
        ctx.count("constructors of the sector reader")
        if not vs:
            ctx.bad(VER, opens[0].at, "%s opens the files whatever the version" % f["f"], "sector:unchecked:%d" % len(ns))
            continue
        for k in range(0, 10):
            ctx.count("versions enumerated")
            env = {x: 1 for x in files}
            env.update((x, k) for x in vs)
            hit = [possible(e.pc, env) for e in opens]
            want = k in (4, 5)
            if want and all(h is False for h in hit):
                ctx.bad(VER, where(f), "version %d is refused" % k, "sector:%d" % k)
            elif not want and any(h is True for h in hit):
                ctx.bad(VER, opens[0].at, "version %d is accepted by the sector reader" % k, "sector:%d" % k)
            elif not want and any(h is None for h in hit):
                ctx.und(VER, where(f), "version %d" % k)
            else:
                ctx.ok(VER, where(f), "version %d %s" % (k, "accepted" if want else "refused"))
        if "vector" in f["key"] and ns and "file" in ns[0]:
            nofiles(ctx, f, E, opens, vs, (4, 5))


def nofiles(ctx, f, E, opens, vs, versions):
    """opening the files is not reached with an empty list"""
    n = f["params"][0]["n"]
    hit = []
    for k in versions:
        env = {"<%s#>" % n: 0, "<this.m_files#>": 0}
        env.update((x, k) for x in vs)
        hit += [possible(e.pc, env) for e in opens]
    ctx.count("constructors that take a list of files")
    if any(h is True for h in hit):
        ctx.bad(VER, opens[0].at, "%s goes on without any file" % f["f"], "nofiles:%s" % f["f"])
    elif any(h is None for h in hit):
        ctx.und(VER, opens[0].at, "empty file list")
    else:
        ctx.ok(VER, opens[0].at, "an empty file list is refused")


def stream_files(ctx):
    for f in all_functions({"stempy::StreamReader::StreamReader"}):
        if "vector" not in f["key"] or not f["params"] or "file" not in f["params"][0]["n"]:
            continue
        E = analyse(ctx, f, opaque=["stempy::StreamReader::openNextFile"])
        if E is None:
            continue
        opens = [e for e in E.events if e.kind == "call" and str(e.x.get("name", "")).split("::")[-1] in ("openNextFile", "open")]
        if not opens:
            opens = [e for e in E.events if e.kind == "leave"][-1:]
        if not opens:
            ctx.und(VER, where(f), "opening of the files not found")
            continue
        vs = {show(x) for e in E.events for c in e.pc for x in h5val.subs(c) if x.op == "val" and "version" in show(x)}
        nofiles(ctx, f, E, opens, vs, (1, 2, 3))


# ---------------------------------------------------------------- Python front end
def python(ctx):
    import c25py
    c25py.check(ctx, PYV, PYI)
