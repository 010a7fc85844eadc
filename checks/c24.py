"""For the readers with a reset, the reading function is analysed to find the fields of the reader
it changes (cursor, index, containers, stream).  The final value of every such field in reset() must
not depend on what reading left in it, must be the value the constructor starts from, containers
must be emptied (and refilled from the file list only), an open stream must be closed, reopened
or rewound, and an iterator must be taken after its container was refilled.  For the threaded
readers the full read is followed into the tasks it starts: every queue, cache, counter and
list of pending tasks that these change must be re-initialised, on every path to the start of
the tasks, before any of them runs; a stream the caller read from beforehand must be rewound."""
from conc import *

R1 = "reset forgets what reading changed"
R2 = "reset returns to the initial value"
R3 = "reset closes or rewinds the stream"
R4 = "full read re-initialises shared state before its tasks start"
R5 = "stream rewound before the tasks read it"
GROW = ("push_back", "emplace_back", "push", "emplace", "insert", "operator[]")
DROP = ("erase", "pop", "pop_back", "pop_front")
THIS = mk("root", "this", "this")


def check(ctx):
    ts = []
    for cls in ("stempy::StreamReader", "stempy::SectorStreamReader", "stempy::PyReader"):
        rd = [f for f in functions(ctx, cls + "::read", required=False) if not f["params"]]
        rs = [f for f in functions(ctx, cls + "::reset", required=False) if not f["params"]]
        ctor = functions(ctx, cls + "::" + cls.split("::")[-1], required=False)
        if rd and rs:
            ts.append(lambda c, a=rd[0], b=rs[0], d=ctor, n=cls: resetting(c, n.split("::")[-1], a, b, d))
    ctx.require(len(ts) == 3, "read/reset of the readers not found")
    n = 0
    for r, f in counting_functions(targs=("float, true",)):
        if "Threaded" in r:
            n += 1
            ts.append(lambda c, f=f, r=r: full(c, f, r))
    ctx.require(n == 2, "full reads of the threaded readers not found")
    ctx.parallel(ts)


def chain(l):
    out = []
    while isinstance(l, T) and l.op == "loc":
        out.append(l)
        l = l.args[0]
    return out, l


def field_of(l, root):
    """first field below root, and the location of that field"""
    c, r = chain(l)
    if r is root and c and c[-1].args[1] == ".":
        return str(c[-1].args[2]), c[-1], len(c)
    return None, None, 0


def mentions_field(t, fields):
    """does a term depend on the initial contents of one of these fields of this?"""
    for x in [t] + list(subterms(t)):
        if x.op in ("val", "loc") or x.op == "phi":
            for a in x.args:
                if isinstance(a, T):
                    c, r = chain(a)
                    if r is THIS and c and str(c[-1].args[2]) in fields:
                        return str(c[-1].args[2])
    return None


def changed(E):
    """fields of this that a function changes: name -> kinds"""
    W = {}
    for e in E.events:
        if not isinstance(e.loc, T):
            continue
        F, fl, n = field_of(e.loc, THIS)
        if F is None:
            continue
        if e.kind in ("write", "astore", "armw") and n == 1:
            W.setdefault(F, set()).add("value")
        elif e.kind == "cop" and e.x.get("write") and n == 1:
            W.setdefault(F, set()).add("container")
        elif e.kind == "io" and n == 1:
            W.setdefault(F, set()).add("stream")
    if E.st is not None:
        for l, v in E.st.mem.items():
            F, fl, n = field_of(l, THIS)
            if F is not None and n == 1 and isinstance(v, T) and v is not mk("val", l) and not (v.op == "val" and v.args[0] is l):
                W.setdefault(F, set()).add("value")
            elif F is not None and n == 2 and l.args[1] == "#":
                W.setdefault(F, set()).add("container")
    return W


def resetting(ctx, name, read, reset, ctors):
    R = analyse(ctx, read, opaque=())
    Z = analyse(ctx, reset, opaque=())
    if R is None or Z is None or Z.st is None:
        ctx.und(R1, name, "not analysed")
        return
    W = changed(R)
    ctx.require(W, "%s::read changes nothing" % name)
    inits = []
    for c in ctors:
        C = analyse(ctx, c, opaque=())
        if C is not None and C.st is not None:
            inits.append(C)
    ctx.count("fields changed by reading", len(W))
    touched = {}
    for e in Z.events:
        F, fl, n = field_of(e.loc, THIS) if isinstance(e.loc, T) else (None, None, 0)
        if F is not None and (e.kind in ("write", "astore", "armw", "io") or e.kind == "cop" and e.x.get("write") or e.kind == "call"):
            touched.setdefault(F, []).append(e)
    # helper objects the analysis lost track of
    for F, kinds in sorted(W.items()):
        fl = mk("loc", THIS, ".", F)
        ev = touched.get(F, [])
        at = short(ev[-1].at) if ev else where(reset)
        if "stream" in kinds:
            good = [e for e in ev if e.kind == "io" and str(e.val) in ("close", "open", "seekg") and unconditional(e)]
            if good:
                ctx.ok(R3, short(good[-1].at), "%s.%s: %s" % (name, F, str(good[-1].val)))
            elif any(e.kind == "call" or e.kind == "io" and str(e.val) not in ("is_open", "peek", "tellg", "clear", "good", "eof") for e in ev):
                ctx.und(R3, at, "%s.%s" % (name, F))
            else:
                ctx.bad(R3, at, "%s::reset leaves %s open where reading stopped" % (name, F), key="stream:%s:%s" % (name, F))
            continue
        if "container" in kinds:
            n = Z.size(fl)
            dep = mentions_field(n, set(W)) if isinstance(n, T) else None
            if n.op in ("phi", "phiend") or n.op == "fresh":
                ctx.und(R1, at, "%s.%s: size %s" % (name, F, str(n)[:80]))
            elif dep:
                ctx.bad(R1, at, "%s::reset keeps what reading left in %s" % (name, F), key="keep:%s:%s" % (name, F))
            else:
                ctx.ok(R1, at, "%s.%s: emptied, now %s elements" % (name, F, str(n)[:40]))
            continue
        v = Z.lookup(fl)
        dep = mentions_field(v, set(W)) if not pointer(v) else (None if later(Z, F, v, touched) else F)
        if not ev and v.op == "val" and v.args[0] is fl or v.op == "val" and v.args[0] is fl:
            ctx.bad(R1, at, "%s::reset does not set %s, which reading moves" % (name, F), key="keep:%s:%s" % (name, F))
            continue
        if dep and pointer(v):
            ctx.bad(R1, at, "%s::reset takes %s before the container it points into is refilled" % (name, F), key="keep:%s:%s" % (name, F))
            continue
        if dep:
            if v.op == "ite" and not any(v.args[1] is v.args[2] for _ in (0,)):
                # left unchanged on some path
                if any(x.op == "val" and x.args[0] is fl for x in leaves(v)):
                    ctx.bad(R1, at, "%s::reset does not set %s on every path" % (name, F), key="keep:%s:%s" % (name, F))
                    continue
            if isnum(sub(v, mk("val", fl))) or any(x is mk("val", fl) for x in subterms(v)):
                ctx.bad(R1, at, "%s::reset leaves %s at %s" % (name, F, str(v)[:60]), key="keep:%s:%s" % (name, F))
            else:
                ctx.und(R1, at, "%s.%s = %s" % (name, F, str(v)[:80]))
            continue
        ctx.ok(R1, at, "%s.%s = %s" % (name, F, str(v)[:40]))
        first = []
        for C in inits:
            w = [e for e in C.events if e.kind in ("write", "astore") and e.loc is fl]
            if w:
                first.append(w[0].val)
        if first and all(isinstance(x, T) and isnum(x) for x in first) and (isnum(v) or plain(v)):
            if any(x is v for x in first):
                ctx.ok(R2, at, "%s.%s starts from %s" % (name, F, str(v)))
            else:
                ctx.bad(R2, at, "%s::reset sets %s to %s, a new reader starts from %s" % (name, F, v, first[0]), key="initial:%s:%s" % (name, F))


def unconditional(e):
    """executed whenever the stream is open"""
    for l in e.pc:
        if not any(x.op == "io" and str(x.args[0]) == "is_open" for x in [l] + list(subterms(l))):
            return False
    return True


def plain(v):
    """a parameter or field whose value is free"""
    return v.op == "val"


def leaves(v):
    if v.op == "ite":
        return leaves(v.args[1]) + leaves(v.args[2])
    return [v]


def pointer(v):
    return v.op in ("ptr", "iter") or v.op == "ite" and any(pointer(x) for x in v.args[1:])


def later(Z, F, v, touched):
    """an iterator written after the last change of the container it points into"""
    into = {field_of(x, THIS)[0] for x in subterms(v) if isinstance(x, T) and x.op == "loc"} - {None}
    begins = [e.seq for e in Z.events if e.kind == "cop" and str(e.val) in ("begin", "cbegin") and field_of(e.loc, THIS)[0] in into]
    changes = [e.seq for f in into for e in touched.get(f, []) if e.kind == "cop" and e.x.get("write")]
    if not begins or not changes:
        return True
    return max(begins) > max(changes)


# ------------------------------------------------------------------ full reads
def full(ctx, f, reader):
    E = analyse(ctx, f, opaque=PURE)
    if E is None:
        return
    spawns = sorted([e for e in E.events if e.kind == "spawn"], key=lambda e: e.seq)
    rootl = None
    for e in E.events:
        if e.kind == "cop" and isinstance(e.loc, T):
            c, r = chain(e.loc)
            if len(c) >= 2 and "reader" in str(r).lower():
                rootl = c[-1]
                break
    if rootl is None:
        ctx.und(R4, reader, "reader object not recognised")
        return

    def fld(l):
        c, r = chain(l)
        if rootl in c:
            i = c.index(rootl)
            if i > 0 and c[i - 1].args[1] == ".":
                return str(c[i - 1].args[2]), i, (c[i - 2] if i > 1 else None)
        return None, 0, None
    # tasks that work on the reader: started by it, through its pool
    phases = []
    for s in spawns:
        tid = s.x.get("tid")
        t = next((x for x in [tid] if x is not None), None)
        th = thread_of(E, s)
        if th is None:
            continue
        W = {}
        for e in E.events:
            if e.thread != th or not isinstance(e.loc, T):
                continue
            F, n, nx = fld(e.loc)
            if F is None or n == 0:
                continue
            own = (E.root_ty or {})
            if e.kind in ("armw", "astore", "write") and n == 1:
                W.setdefault(F, e)
            elif e.kind == "cop" and e.x.get("write") and n == 1:
                W.setdefault(F, e)
        # the list of futures is state as well: what joins iterate over
        phases.append((s, th, W))
    done = 0
    prev = 0
    for s, th, W in phases:
        if not W:
            continue
        done += 1
        for F, w in sorted(W.items()):
            decide(ctx, E, reader, s, F, w, fld, "%s at %s" % (str(w.val)[:20] if w.kind == "cop" else w.kind, short(w.at)))
        # pending tasks
        lists = {}
        for e in E.events:
            if e.kind == "cop" and str(e.val) in ("emplace_back", "push_back") and e.thread == s.thread and s.seq < e.seq and s.loops and tuple(e.loops) == tuple(s.loops):
                F, n, nx = fld(e.loc)
                if F and n == 1:
                    lists[F] = e
        for F, w in lists.items():
            joins = [e for e in E.events if e.kind == "join" and fld(e.loc)[0] == F and e.seq > w.seq]
            nxt = [p[0].seq for p in phases if p[0].seq > s.seq]
            if joins:
                decide(ctx, E, reader, s, F, w, fld, "list of pending tasks, awaited at %s" % short(joins[0].at), pending=True)
        # a stream the caller has read from
        for e in E.events:
            if e.kind in ("fillbuf",) and e.thread == 0 and e.seq < s.seq and isinstance(e.x.get("stream"), T) and fld(e.x["stream"])[0]:
                st = e.x["stream"]
                seeks = [x for x in E.events if x.kind == "io" and str(x.val) == "seekg" and x.thread == 0 and e.seq < x.seq < s.seq and x.loc is st]
                if not sequential(E, th, fld):
                    continue
                if any((x.x.get("args") or (None,))[0] is ZERO for x in seeks):
                    ctx.ok(R5, short(seeks[-1].at), "%s: rewound after the caller's read" % reader)
                elif not seeks:
                    ctx.bad(R5, short(e.at), "%s: the caller reads from the stream and does not rewind it before the tasks read on" % reader, key="rewind:%s" % reader)
                else:
                    ctx.und(R5, short(seeks[-1].at), "%s: repositioned" % reader)
                break
    if not done:
        ctx.und(R4, reader, "no task works on the reader")


def thread_of(E, s):
    for tid, th in E.threads.items():
        if tid and th.get("spawn") == s.seq:
            return tid
    return s.val if isinstance(s.val, int) else s.x.get("tid")


def sequential(E, th, fld):
    """does the task read on from where streams stand (no absolute positioning first)?"""
    for e in E.events:
        if e.thread == th and e.kind == "io" and str(e.val) == "seekg" and len(e.x.get("args") or ()) == 1:
            return False
        if e.thread == th and e.kind == "fillbuf":
            return True
    return False


def decide(ctx, E, reader, s, F, w, fld, what, pending=False):
    spc = set(s.pc)
    good, cond, other = [], [], []
    for e in E.events:
        if e.thread != s.thread or e.seq >= (s.seq) or not isinstance(e.loc, T):
            continue
        f, n, nx = fld(e.loc)
        if f != F or n != 1:
            continue
        if e.kind in ("write", "astore") or e.kind == "cop" and e.x.get("write") and str(e.val) not in GROW + DROP:
            v = e.val
            if e.kind in ("write", "astore") and isinstance(v, T) and any(y.op in ("val", "aload") and fld(y.args[0])[0] == F for y in [v] + list(subterms(v)) if isinstance(y.args[0], T)):
                other.append(e)
            elif e.kind == "cop" and str(e.val) in ("resize", "swap", "reserve"):
                other.append(e)
            elif set(e.pc) <= spc and (not e.loops or set(e.loops) <= set(s.loops)):
                good.append(e)
            else:
                cond.append(e)
        elif e.kind == "call":
            other.append(e)
    # an initialisation before other tasks that change the field again does not count
    resp = [e for e in E.events if e.thread not in (s.thread,) and isinstance(e.loc, T) and fld(e.loc)[0] == F and
            (e.kind in ("armw", "astore") or e.kind == "cop" and e.x.get("write")) and fld(e.loc)[1] == 1]
    earlier = [e for e in resp if e.seq < s.seq and e.thread != thread_of(E, s)]
    if pending:
        earlier = [e for e in E.events if e.kind == "cop" and str(e.val) in ("emplace_back", "push_back") and e.thread == s.thread and e.seq < s.seq and fld(e.loc)[0] == F and fld(e.loc)[1] == 1]
    last = max([e.seq for e in earlier] or [-1])
    g = [e for e in good if e.seq > last]
    # an empty container that is only filled once is not reading state
    if g:
        ctx.ok(R4, short(g[-1].at), "%s.%s (%s) re-initialised" % (reader, F, what))
    elif once(E, s, F, fld):
        ctx.ok(R4, short(w.at), "%s.%s (%s): the tasks only start while it is empty" % (reader, F, what))
    elif other:
        ctx.und(R4, short(other[-1].at), "%s.%s (%s)" % (reader, F, what))
    else:
        ctx.bad(R4, short(w.at), "%s: %s (%s) %s before the tasks start" % (reader, F, what, "is only re-initialised on some paths" if cond or good else "is not re-initialised"),
                key="state:%s:%s" % (reader, F))


def once(E, s, F, fld):
    """the tasks are only started under a test that a container of the reader is empty, which they fill"""
    for l in s.pc:
        if l.op in ("or", "not", "and", "ite"):
            continue
        for x in [l] + list(subterms(l)):
            for a in x.args:
                if isinstance(a, T) and a.op == "loc" and a.args[1] == "#" and fld(a.args[0])[0]:
                    G = fld(a.args[0])[0]
                    if any(e.kind == "cop" and e.x.get("write") and str(e.val) == "resize" and fld(e.loc)[0] == G and e.thread == s.thread and e.seq < s.seq for e in E.events if isinstance(e.loc, T)):
                        return True
    return False
