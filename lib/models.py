"""Semantics of the library calls the repository uses (containers, smart pointers,
locks, threads, streams, algorithms, pybind11 and HDF5 entry points)."""
from terms import *
import engine as EN
from engine import LV, ty, is_scalar, recname, loc_idx, loc_field, Aborted


class _NM:
    pass


NOTMODELLED = _NM()
GIL = mk("root", "gil", "GIL")
BOOL.add("aloadb")
RAWTHREAD = ("std::thread",)


def lastname(f):
    """unqualified function name (template arguments of enclosing classes skipped)"""
    d = 0
    cut = 0
    i = 0
    if "operator" in f:
        p = f.rfind("operator")
        if p == 0 or f[p - 1] == ":":
            return f[p:]
    while i < len(f):
        c = f[i]
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        elif c == ":" and d == 0:
            cut = i + 1
        i += 1
    return f[cut:]


def tstr(t):
    return recname(t.base) if t is not None else ""


def bare(s):
    return s.replace("const ", "").split("<")[0]


VEC = ("std::vector", "std::array", "std::initializer_list", "std::deque", "pybind11::detail::any_container")
MAPS = ("std::map", "std::unordered_map", "std::set", "std::unordered_set")
QUEUES = ("std::queue", "std::priority_queue", "std::stack")
LOCKS = ("std::unique_lock", "std::lock_guard", "std::scoped_lock")
ITER = ("__gnu_cxx::__normal_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator")


def ptr_null(E, L):
    return mk("loc", L, "?", "")


def pointee(L):
    if L.op == "ite":
        return mk("ite", L.args[0], pointee(L.args[1]), pointee(L.args[2]))
    return mk("loc", L, "->", "")


# ---------------------------------------------------------------- locks
def acquire(E, m, e, how="raii", shared=False):
    E.ev("lock", m, None, e, how=how)
    if m not in E.st.locks:
        E.st.locks = E.st.locks + (m,)


def trying(E, L, m, b):
    """the lock is held where the result b of the attempt is known to be true"""
    if (m, b) not in E.tries:
        E.tries.append((m, b))
    E.st.mem[mk("loc", L, ".", "$try")] = b


def release(E, m, e=None):
    for x, b in E.tries:
        if x is m and b in E.st.pc:
            E.st.pc = tuple(p for p in E.st.pc if p is not b)
    if m in E.st.locks:
        E.ev("unlock", m, None, e)
        E.st.locks = tuple(x for x in E.st.locks if x is not m)


def lock_state(E, L):
    """(mutex loc, owned term) of a unique_lock object"""
    v = E.lookup(mk("loc", L, ".", "$m"))
    return v


# ---------------------------------------------------------------- helpers
def objloc(E, e):
    o = e.get("obj")
    if o is None:
        return None, None
    t = E.tyof(o)
    if e.get("arrow"):
        p = E.val(o)
        if E.st is None:
            return None, None
        return E.deref(p), (t.base.to if t is not None and t.base.k == "ptr" else t)
    x = E.eval(o)
    if E.st is None:
        return None, None
    return E.as_loc(x, t), t


def elem_type(t):
    if t is None:
        return None
    t = t.base
    if t.k == "arr":
        return t.to
    return t.targ(0)


def set_scalar_arr(E, L, size, c):
    E.killsub(L)
    E.killalias(L)
    E.st.mem.pop(L, None)
    E.set_size(L, size)
    if c is not None:
        E.set_content(L, c)


def init_args(e):
    """elements of a braced initialiser, if e is one"""
    while e is not None and e["k"] in ("cast", "defarg"):
        e = e.get("e")
    if e is None:
        return None
    if e["k"] == "init":
        return e["args"]
    if e["k"] == "other" and e.get("cn") == "CXXStdInitializerListExpr":
        a = e["args"][0]
        while a["k"] == "cast":
            a = a["e"]
        return a["args"] if a["k"] == "init" else None
    if e["k"] == "ctor" and "initializer_list" in e.get("f", "") and e["args"]:
        return init_args(e["args"][0])
    return None


def default_init(E, L, t):
    b = t.base
    n = bare(recname(b))
    if b.k == "arr":
        return
    E.killsub(L)
    E.st.mem.pop(L, None)
    if n in VEC or n in MAPS or n in QUEUES:
        if n != "std::array":
            E.set_size(L, ZERO)
        return
    if n == "std::unique_ptr":
        E.st.mem[ptr_null(E, L)] = FALSE
        return
    if n in LOCKS:
        E.st.mem[mk("loc", L, ".", "$m")] = NULL
        return
    if n == "std::pair":
        for i, f in enumerate(("first", "second")):
            at = b.targ(i)
            E.st.mem[loc_field(L, f)] = ZERO if at is None or at.k in ("int", "float", "enum", "bool") else NULL
        return
    tu, r = E.record(b)
    if r:
        for bb in r.get("bases", []):
            bt = ty(tu, bb) if isinstance(bb, int) else None
            if bt is not None:
                default_init(E, L, bt)
        fr = E.frames[-1]
        for f in r["fields"]:
            fl = loc_field(L, f["n"])
            ft = ty(tu, f["t"])
            if f.get("init") is not None:
                f2 = EN.Frame(fr.fn, tu, L, fr.name)
                f2.env = fr.env
                E.frames.append(f2)
                try:
                    E.init_loc(fl, ft, f["init"])
                finally:
                    E.frames.pop()
            elif ft is not None and not is_scalar(ft) and ft.k != "ref":
                default_init(E, fl, ft)
            elif ft is not None and recname(ft).startswith("std::shared_ptr"):
                E.st.mem[fl] = NULL


def init_list(E, L, t, e):
    b = t.base if t else None
    args = e.get("args", []) if e["k"] == "init" else []
    if b is None:
        return
    n = bare(recname(b))
    if b.k == "arr" or n == "std::array":
        et = elem_type(t)
        if n == "std::array" and len(args) == 1 and args[0]["k"] == "init":
            args = args[0]["args"]
        E.killsub(L)
        if et is None or is_scalar(et):
            E.set_content(L, mk("fill", ZERO))
        for i, a in enumerate(args):
            il = loc_idx(L, num(i))
            if et is None or is_scalar(et):
                v = E.val(a)
                if E.st is None:
                    return
                E.write_loc(il, v, et)
            else:
                E.init_loc(il, et, a)
        return
    tu, r = E.record(b)
    if r:
        i = 0
        fields = r["fields"]
        for f in fields:
            fl = loc_field(L, f["n"])
            ft = ty(tu, f["t"])
            if i < len(args):
                a = args[i]
                if ft is not None and ft.k == "ref":
                    x = E.eval(a)
                    if E.st is None:
                        return
                    E.st.mem[fl] = mk("alias", E.as_loc(x, ft.base))
                else:
                    E.init_loc(fl, ft, a)
                if E.st is None:
                    return
            else:
                if f.get("init") is not None:
                    E.init_loc(fl, ft, f["init"])
                elif ft is not None and is_scalar(ft):
                    E.st.mem[fl] = NULL if ft.k in ("ptr", "rec") else (FALSE if ft.k == "bool" else ZERO)
                elif ft is not None:
                    default_init(E, fl, ft)
            i += 1
        return
    if not args:
        default_init(E, L, t)
    else:
        for a in args:
            E.eval(a)
        if E.st is not None:
            E.havoc(L)


def moved_from(E, L, t):
    if t is None or E.st is None:
        return
    n = bare(tstr(t))
    if n == "std::vector":
        pass


# ---------------------------------------------------------------- construction
def construct(E, L, t, e):
    b = t.base if t is not None else None
    n = bare(recname(b)) if b is not None else bare(e.get("cls") or "")
    args = e["args"]
    real = [a for a in args if a["k"] != "defarg"]
    if n in LOCKS:
        m = None
        owned = TRUE
        tried = None
        tags = [bare(tstr(E.tyof(a))) for a in real]
        if any(x.endswith("defer_lock_t") for x in tags):
            owned = FALSE
        if any(x.endswith("try_to_lock_t") for x in tags):
            owned = FALSE
            tried = mk("bool", fresh("try_lock"))
        for a in real:
            at = E.tyof(a)
            an = bare(tstr(at))
            if an.endswith(("defer_lock_t", "adopt_lock_t", "try_to_lock_t")):
                continue
            x = E.eval(a)
            if E.st is None:
                return
            if an in LOCKS:          # move
                E.copy_object(E.as_loc(x, at), L)
                E.st.mem[mk("loc", E.as_loc(x, at), ".", "$m")] = NULL
                return
            ml = E.as_loc(x, at)
            m = ml
            if owned is TRUE:
                acquire(E, ml, e)
        E.killsub(L)
        E.st.mem[mk("loc", L, ".", "$m")] = m if m is not None else NULL
        if tried is not None and m is not None:
            trying(E, L, m, tried)
        return
    if n in VEC:
        et = elem_type(t)
        il = init_args(e) if e["k"] != "ctor" else (init_args(real[0]) if len(real) == 1 else None)
        if il is not None:
            set_scalar_arr(E, L, num(len(il)), None)
            for i, a in enumerate(il):
                if et is None or is_scalar(et):
                    v = E.val(a)
                    if E.st is None:
                        return
                    E.write_loc(loc_idx(L, num(i)), v, et)
                else:
                    E.init_loc(loc_idx(L, num(i)), et, a)
            return
        if not real:
            default_init(E, L, t)
            return
        t0 = E.tyof(real[0])
        vs = [E.eval(a) for a in real]
        if E.st is None:
            return
        n0 = bare(tstr(t0))
        if n0 in VEC and len(real) == 1:
            E.access("read", E.as_loc(vs[0], t0), t0, how="copy")
            E.copy_object(E.as_loc(vs[0], t0), L)
            return
        if len(real) >= 2 and (t0.base.k == "ptr" or n0 in ITER):
            p, q = E.rv(vs[0]), E.rv(vs[1])
            pb, pi = E.psplit(p)
            qb, qi = E.psplit(q)
            size = sub(qi, pi) if pb is qb else fresh("size")
            E.ev("range", loc_idx(pb, pi), size, e, ty=et, lo=pi, hi=qi)
            if et is None or is_scalar(et):
                c = E.content(pb)
                set_scalar_arr(E, L, size, c if pi is ZERO else mk("shift", c, pi))
            else:
                E.havoc(L)
                E.set_size(L, size)
            return
        sz = E.rv(vs[0])
        fill = None
        if et is None or is_scalar(et):
            fill = mk("fill", ZERO)
            if len(vs) > 1:
                fill = mk("fill", E.rv(vs[1]))
        set_scalar_arr(E, L, sz, fill)
        E.ev("cop", L, "ctor", e, write=True, args=(sz,), ty=t)
        if fill is None and et is not None and bare(tstr(et)) in VEC:
            if len(vs) == 1:
                E.st.mem[mk("loc", L, "esz", "")] = ZERO
        return
    if n == "std::pair":
        if len(real) == 2:
            for i, f in enumerate(("first", "second")):
                at = b.targ(i) if b is not None else None
                if at is not None and not is_scalar(at):
                    E.init_loc(loc_field(L, f), at, real[i])
                else:
                    v = E.val(real[i])
                    if E.st is None:
                        return
                    if at is not None:
                        v = E.conv(v, E.tyof(real[i]), at)
                    E.st.mem.pop(L, None)
                    E.st.mem[loc_field(L, f)] = v
            return
        if len(real) == 1:
            x = E.eval(real[0])
            if E.st is not None:
                E.copy_object(E.as_loc(x, E.tyof(real[0])), L)
            return
        default_init(E, L, t)
        return
    if n == "std::unique_ptr":
        if not real:
            E.killsub(L)
            E.st.mem[ptr_null(E, L)] = FALSE
            return
        t0 = E.tyof(real[0])
        x = E.eval(real[0])
        if E.st is None:
            return
        if bare(tstr(t0)) == "std::unique_ptr":
            E.copy_object(E.as_loc(x, t0), L)
            return
        take_pointer(E, L, E.rv(x))
        return
    if n == "pybind11::gil_scoped_acquire":
        acquire(E, GIL, e)
        return
    if n == "pybind11::gil_scoped_release":
        release(E, GIL, e)
        return
    vs = [E.eval(a) for a in real]
    if E.st is None:
        return
    if (e.get("copy") or e.get("move")) and vs:
        E.copy_object(E.as_loc(vs[0], t), L)
        E.ev("call", L, e.get("f"), e, args=[], name=e.get("f"), ctor=True, ty=t, copy=True, src=E.as_loc(vs[0], t))
        return
    if not real and (n.startswith(("stempy", "h5")) or b is None):
        default_init(E, L, t)
        return
    E.havoc(L)
    E.st.mem[L] = mk("obj", n, E.nextuid()) if False else E.st.mem[L]
    E.ev("call", L, e.get("f"), e, args=[E.rv(v) if not isinstance(v, LV) else v for v in vs], name=e.get("f"), ctor=True, ty=t,
         key=e.get("key"), cont=snapshot(E, vs, real))


def take_pointer(E, L, p):
    E.killsub(L)
    E.st.mem.pop(L, None)
    if p is NULL or p is ZERO:
        E.st.mem[ptr_null(E, L)] = FALSE
        return
    E.st.mem[ptr_null(E, L)] = TRUE if p.op == "ptr" else tobool(p)
    src = E.psplit(p)[0]
    E.copy_object(src, pointee(L))


def ctor_scalar(E, t, e):
    n = bare(recname(t.base))
    real = [a for a in e["args"] if a["k"] != "defarg"]
    if t.base.raw.get("lambda"):
        return E.val(real[0]) if real else fresh("lam")
    if n in ("std::shared_ptr", "std::__shared_ptr"):
        if not real:
            return NULL
        v = E.eval(real[0])
        for a in real[1:]:
            E.eval(a)
        if E.st is None:
            return ZERO
        v = E.rv(v)
        if v.op in ("root", "loc"):
            # from unique_ptr
            return mk("ptr", pointee(v), "obj")
        E.ev("shared", None, v, e, ty=t)
        return v
    if n in ITER:
        return E.val(real[0]) if real else fresh("iter")
    if n in ("std::function", "std::packaged_task"):
        return E.val(real[0]) if real else NULL
    if n in ("std::atomic", "std::__atomic_base"):
        return E.val(real[0]) if real else ZERO
    if n in ("std::basic_string", "std::__cxx11::basic_string"):
        if not real:
            return mk("str", "")
        v = E.val(real[0])
        for a in real[1:]:
            E.eval(a)
        if v.op == "str" or e.get("copy") or e.get("move"):
            return v
        return mk("strof", v)
    if n == "std::thread" and real:
        if bare(tstr(E.tyof(real[0]))) == "std::thread":
            return E.val(real[0])
        f = E.val(real[0])
        args = [E.eval(a) for a in real[1:]]
        return spawn(E, f, args, e, "thread")
    if n in ("std::future",):
        return E.val(real[0]) if real else NULL
    vs = [E.val(a) for a in real]
    if E.st is None:
        return ZERO
    if len(vs) == 1:
        return vs[0]
    return fresh("ctor:" + n.split("::")[-1])


# ---------------------------------------------------------------- threads
def spawn(E, f, args, e, kind, pool=None):
    site = (E.at(e), tuple(x.name for x in E.frames), E.thread, f)
    if not hasattr(E, "spawnids"):
        E.spawnids = {}
    key = site[:3]
    tid = E.spawnids.get(key)
    if tid is None:
        tid = E.spawnids[key] = len(E.spawnids) + 1
        E.threads[tid] = dict(parent=E.thread, spawn=None, multi=False, join=None, name=E.at(e), kind=kind,
                              count=0, pool=None, containers=set(), args=None, callee=None, site=E.at(e))
    th = E.threads[tid]
    th["pool"] = pool
    th["callee"] = f
    fut = mk("fut", tid)
    ev = E.ev("spawn", pool, f, e, tid=tid, args=args, how=kind)
    if not E.mute:
        ev.x["held"] = held(E, f)
        th["count"] += 1
        if th["spawn"] is None:
            th["spawn"] = ev.seq
            th["spawn_ev"] = ev
        th["last_spawn"] = ev.seq
    if E.loops or th["count"] > 1:
        th["multi"] = True
    if th.get("running"):
        return fut
    th["running"] = True
    saved = E.st
    old = E.thread
    # state seen by the task
    E.st = saved.clone()
    E.st.locks = ()
    drop_shared(E, E.st)
    E.thread = tid
    av = []
    for a in args:
        if isinstance(a, LV) and a.ty is not None and is_scalar(a.ty):
            av.append(E.rv(a))
        elif isinstance(a, LV):
            # arguments are copied into the task, std::ref excepted
            av.append(a)
        else:
            av.append(a)
    lo = E.loops
    E.call_value(f, av, e)
    after = E.st
    E.st = saved
    E.thread = old
    th["running"] = False
    if after is not None:
        for k, v in after.mem.items():
            r = EN.rootof(k)
            if not shared_root(E, r) or k in saved.mem and saved.mem[k] is v:
                continue
            if v is known(E, "task", k) and k not in saved.mem:
                continue
            saved.mem[k] = known(E, "after", k)
    return fut


def held(E, f):
    """locations and values of the objects a closure carries by value or by reference"""
    roots, work = set(), [f]
    while work:
        x = work.pop()
        if not isinstance(x, T):
            continue
        if x.op == "root":
            roots.add(x)
        elif x.op in ("clo", "bind"):
            work += list(x.args)
    return {l: v for l, v in E.st.mem.items() if EN.rootof(l) in roots}


def shared_root(E, r):
    if r.op != "root":
        return True
    if r.args[0] in ("this", "p", "global", "static", "free"):
        return True
    return r in E.escaped


def drop_shared(E, st):
    """what a concurrently running task knows about shared objects"""
    for k in list(st.mem):
        r = EN.rootof(k)
        if r.op == "root" and r.args[0] in ("this", "global", "static", "free") or r.op == "deref":
            v = st.mem[k]
            if k.op == "loc" and k.args[1] in ("?",):
                continue
            if v.op in ("alias", "clo"):
                continue
            forget(E, st, k, v)
        elif r in E.escaped:
            t = E.root_ty.get(r)
            if t is not None and (not is_scalar(t) or "atomic" in recname(t.base)):
                if k.op == "loc" and k.args[1] == "?":
                    continue
                v = st.mem[k]
                if v.op in ("alias", "clo"):
                    continue
                n = bare(recname(t.base))
                if n in VEC or n in MAPS or n in QUEUES or "atomic" in n or n == "std::unique_ptr":
                    forget(E, st, k, v)


def forget(E, st, k, v):
    if v is mk("val", k):
        del st.mem[k]
    else:
        st.mem[k] = known(E, "task", k)


_known = {}


def known(E, desc, k):
    # the unknown value a shared object has in a task: one symbol per object
    v = _known.get((desc, k))
    if v is None:
        v = _known[(desc, k)] = fresh(desc)
    if k.op == "loc" and k.args[1] == "#":
        E.nn.add(v)
    return v


def havoc_shared(E, desc):
    st = E.st
    for k in list(st.mem):
        r = EN.rootof(k)
        t = E.root_ty.get(r)
        if r.op == "root" and r.args[0] in ("this", "global", "static") or r.op == "deref" or \
                (r in E.escaped and t is not None and not is_scalar(t) and bare(recname(t.base)) in VEC + MAPS + QUEUES):
            v = st.mem[k]
            if v.op in ("alias", "clo", "ptr") or (k.op == "loc" and k.args[1] == "?"):
                continue
            st.mem[k] = fresh(desc)


def join(E, fut, loc, e, how):
    """future.get()/wait(), thread.join()"""
    tids = []
    if fut is not None:
        for x in subterms(fut):
            if x.op == "fut":
                tids.append(x.args[0])
    if not tids and loc is not None:
        l = loc
        chain = set()
        while l.op == "loc":
            chain.add(l)
            l = l.args[0]
        chain.add(l)
        for tid, th in E.threads.items():
            if tid and any(c in chain for c in th["containers"]):
                tids.append(tid)
    E.ev("join", loc, fut, e, tids=tuple(sorted(set(tids))), how=how)
    return tids


def store_future(E, loc, v):
    for x in subterms(v) if isinstance(v, T) else ():
        if x.op == "fut" and x.args[0] in E.threads:
            E.threads[x.args[0]]["containers"].add(loc)


# ---------------------------------------------------------------- destruction
_needs = {}


def needs_dtor(E, t):
    if t is None:
        return False
    t = t.base if t.k == "ref" else t
    if t.k != "rec":
        return False
    if t.s in _needs:
        return _needs[t.s]
    _needs[t.s] = False
    n = bare(recname(t))
    r = False
    if n in LOCKS or n in ("std::unique_ptr", "std::shared_ptr", "std::future", "ThreadPool", "std::thread") or n.startswith("pybind11::"):
        r = True
    elif n in VEC:
        r = needs_dtor(E, elem_type(t))
    else:
        tu, rec = E.record(t)
        if rec:
            if rec.get("dtor_user"):
                r = True
            else:
                for f in rec["fields"]:
                    ft = ty(tu, f["t"])
                    if ft is not None and ft.k != "ref" and needs_dtor(E, ft):
                        r = True
                for bb in rec.get("bases", []):
                    if isinstance(bb, int) and needs_dtor(E, ty(tu, bb)):
                        r = True
    _needs[t.s] = r
    return r


def destroy(E, L, t, e=None, depth=0):
    if E.st is None or t is None or t.k in ("ref", "ptr") or depth > 6 or not needs_dtor(E, t):
        return
    n = bare(recname(t))
    if n in LOCKS:
        m = E.lookup(mk("loc", L, ".", "$m"))
        if m.op in ("root", "loc"):
            release(E, m, e)
        elif m.op == "ite":
            for x in m.args[1:]:
                release(E, x, e)
        return
    if n == "std::unique_ptr":
        fl = E.lookup(ptr_null(E, L))
        if fl is FALSE:
            return
        et = t.targ(0)
        E.ev("uptr_dtor", L, None, e, ty=et)
        if et is not None:
            destroy(E, pointee(L), et, e, depth + 1)
        return
    if n == "ThreadPool":
        E.ev("join_pool", L, None, e)
        return
    if n == "std::future":
        v = E.lookup(L)
        if v.op == "fut" and E.threads[v.args[0]]["kind"] == "async":
            join(E, v, L, e, "dtor")
        return
    if n == "std::shared_ptr":
        E.ev("release", L, E.lookup(L), e, ty=t)
        return
    if n == "pybind11::gil_scoped_acquire":
        release(E, GIL, e)
        return
    if n == "pybind11::gil_scoped_release":
        acquire(E, GIL, e)
        return
    if n.startswith("pybind11::"):
        E.ev("pydtor", L, None, e, ty=t)
        return
    if n in VEC:
        E.ev("elems_dtor", L, None, e, ty=elem_type(t))
        et = elem_type(t)
        if et is not None and E.size(L) is not ZERO and bare(recname(et)) not in ("std::future",):
            destroy(E, loc_idx(L, mk("any", L)), et, e, depth + 1)
        return
    tu, rec = E.record(t)
    if rec is None:
        return
    if rec.get("dtor_user"):
        fn = None
        k = rec.get("dtor")
        fn = tu.by_key.get(k) or E.keymap.get(k)
        if fn is not None and fn.get("body") and fn["f"] not in E.opaque:
            E.invoke(fn, fn["_tu"], L, [], None, fn["f"], e)
    for f in reversed(rec["fields"]):
        ft = ty(tu, f["t"])
        if ft is not None and ft.k != "ref":
            destroy(E, loc_field(L, f["n"]), ft, e, depth + 1)
    for bb in rec.get("bases", []):
        if isinstance(bb, int):
            destroy(E, L, ty(tu, bb), e, depth + 1)


# ---------------------------------------------------------------- ranges
def range_of(E, L, t):
    n = bare(tstr(t))
    et = elem_type(t)
    if t is not None and t.base.k == "arr":
        import re
        m = re.search(r"\[(\d+)\]$", t.base.s)
        sz = num(int(m.group(1))) if m else fresh("n")
        return (lambda: sz), (lambda i: loc_idx(L, i)), et
    if n == "std::array":
        ta = t.base.raw.get("targs") or []
        sz = num(int(ta[1]["i"])) if len(ta) > 1 and "i" in ta[1] else fresh("n")
        return (lambda: sz), (lambda i: loc_idx(L, i)), et
    if n in VEC:
        E.ev("cop", L, "iterate", None, write=False, args=())
        if n == "std::initializer_list":
            return (lambda: E.size(L)), (lambda i: loc_idx(L, i)), et
        return (lambda: E.size(L)), (lambda i: loc_idx(L, i)), et
    E.ev("cop", L, "iterate", None, write=False, args=())
    sz = fresh("n")
    E.nn.add(sz)
    return (lambda: sz), (lambda i: mk("loc", L, "kv", i)), et


# ---------------------------------------------------------------- calls
UNARY = {"sqrt": "sqrt", "ceil": "ceil", "floor": "floor", "round": "round", "fabs": "fabs", "abs": "fabs",
         "std::sqrt": "sqrt", "std::ceil": "ceil", "std::floor": "floor", "std::round": "round", "std::abs": "fabs",
         "std::fabs": "fabs", "exp": "exp", "std::exp": "exp", "log": "log", "std::log": "log", "lround": "round",
         "trunc": "trunc", "std::trunc": "trunc", "std::lround": "round", "sqrtf": "sqrt", "ceilf": "ceil", "floorf": "floor", "std::hypot": None}


def call(E, e):
    f = e.get("f") or ""
    if not f:
        return NOTMODELLED
    name = lastname(f)
    cls = bare(e.get("cls") or "")
    # lambdas and function objects
    if name == "operator()" and e.get("obj") is not None:
        x = E.eval(e["obj"])
        if E.st is None:
            return ZERO
        t = E.tyof(e["obj"])
        if isinstance(x, LV) and x.ty is not None and is_scalar(x.ty):
            v = E.read_loc(x.loc, x.ty)
        elif isinstance(x, LV):
            v = x.loc
        else:
            v = x
        if v.op in ("clo", "ite", "bound", "fn") and not (v.op == "ite" and v.args[1].op in ("root", "loc")):
            args = [E.eval(a) for a in e["args"]]
            if E.st is None:
                return ZERO
            E.cure = e
            return E.call_value(v, args, e)
        if cls in ("std::function", "std::packaged_task") or (t is not None and t.base.raw.get("lambda")):
            args = [E.eval(a) for a in e["args"]]
            return E.call_value(v, args, e) if E.st is not None else ZERO
        if cls in ("std::random_device", "std::uniform_int_distribution"):
            for a in e["args"]:
                E.eval(a)
            r = mk("rnd", E.nextuid())
            if cls == "std::uniform_int_distribution" and isinstance(x, LV):
                lo = E.lookup(loc_field(x.loc, "$lo"))
            E.nn.add(r)
            return r
        if E.find(e) is not None and v.op in ("root", "loc"):
            return E.call_fn(E.find(e), e, v, e["args"])
        args = [E.eval(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        E.ev("callback", None, v, e, args=tuple(args))
        return unknown_result(E, e, f)
    if name.startswith("operator ") and t_lambda(E, e):
        return E.val(e["obj"])
    if e.get("op") and e.get("obj") is None and name.startswith("operator"):
        r = free_operator(E, e, name)
        if r is not NOTMODELLED:
            return r
    if cls in VEC:
        return vector_call(E, e, name, cls)
    if cls in MAPS:
        return map_call(E, e, name)
    if cls in QUEUES:
        return queue_call(E, e, name)
    if cls in ITER:
        return iter_call(E, e, name)
    if cls in ("std::unique_ptr",):
        return uptr_call(E, e, name)
    if cls in ("std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access"):
        return sptr_call(E, e, name)
    if cls in ("std::atomic", "std::__atomic_base", "std::atomic_flag"):
        return atomic_call(E, e, name)
    if cls == "std::pair" or cls == "std::tuple":
        if name == "operator=":
            L, t = objloc(E, e)
            x = E.eval(e["args"][0])
            if E.st is None:
                return ZERO
            n = len(E.events)
            E.access("write", L, t)
            E.copy_object(E.as_loc(x, t), L)
            if cls == "std::pair" and len(E.events) > n and E.events[n].kind == "write":
                E.events[n].x = dict(E.events[n].x or {}, pair=(E.lookup(loc_field(L, "first")), E.lookup(loc_field(L, "second"))))
            return LV(L, t)
        return NOTMODELLED
    if cls in LOCKS:
        return lock_call(E, e, name)
    if cls in ("std::mutex", "std::recursive_mutex"):
        L, t = objloc(E, e)
        if E.st is None:
            return ZERO
        if name == "lock":
            acquire(E, L, e, "manual")
        elif name == "unlock":
            release(E, L, e)
        return mk("ret", f, E.nextuid())
    if cls == "std::condition_variable":
        return cv_call(E, e, name)
    if cls in ("std::future", "std::__basic_future", "std::shared_future"):
        return future_call(E, e, name)
    if cls == "std::thread":
        if name in ("join",):
            o = E.eval(e["obj"])
            if E.st is None:
                return ZERO
            l = o.loc if isinstance(o, LV) else None
            v = E.read_loc(o.loc, o.ty) if isinstance(o, LV) else o
            join(E, v, l, e, "join")
            havoc_shared(E, "join")
            return ZERO
        return unknown(E, e)
    if cls in ("std::packaged_task",) and name == "get_future":
        return E.val(e["obj"])
    if cls == "std::function" and name == "operator=":
        o = E.eval(e["obj"])
        v = E.val(e["args"][0])
        if E.st is not None and isinstance(o, LV):
            E.write_loc(o.loc, v)
        return o
    if f == "ThreadPool::enqueue":
        L, t = objloc(E, e)
        if E.st is None:
            return ZERO
        c = E.eval(e["args"][0])
        args = [E.eval(a) for a in e["args"][1:]]
        if E.st is None:
            return ZERO
        cv = E.rv(c)
        return spawn(E, cv, args, e, "pool", L)
    if f == "std::async":
        al = list(e["args"])
        if "launch" in tstr(E.tyof(al[0])) or E.tyof(al[0]).k == "enum":
            pol = E.val(al[0])
            al = al[1:]
        c = E.val(al[0])
        args = [E.eval(a) for a in al[1:]]
        if E.st is None:
            return ZERO
        return spawn(E, c, args, e, "async")
    if cls in ("std::basic_ifstream", "std::basic_istream", "std::basic_ios", "std::basic_fstream", "std::basic_ifstream<char>"):
        return stream_call(E, e, name)
    if f in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::addressof"):
        x = E.eval(e["args"][0])
        if f == "std::addressof" and isinstance(x, LV):
            return E.addrof(x.loc)
        return x
    if f == "std::get" and e.get("targs"):
        x = E.eval(e["args"][0])
        if E.st is None:
            return ZERO
        i = e["targs"][0].get("i")
        l = E.as_loc(x, E.tyof(e["args"][0]))
        if bare(tstr(E.tyof(e["args"][0]))) == "std::array":
            return LV(loc_idx(l, num(i)), E.tyof(e))
        return LV(loc_field(l, ("first", "second", "third")[i] if i is not None and i < 3 else str(i)), E.tyof(e))
    if f in ("std::make_pair",):
        L = E.newroot("tmp", "pair", E.tyof(e))
        for a, fl in zip(e["args"], ("first", "second")):
            at = E.tyof(a)
            if at is not None and not is_scalar(at):
                E.init_loc(loc_field(L, fl), at, a)
            else:
                v = E.val(a)
                if E.st is None:
                    return ZERO
                E.st.mem[loc_field(L, fl)] = v
        return L
    if f in ("std::make_shared", "std::make_unique"):
        return make_smart(E, e, f)
    if f == "std::bind":
        vs = [E.eval(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        return mk("bound", E.rv(vs[0]), *[E.as_loc(v) if isinstance(v, LV) else v for v in vs[1:]])
    if f in UNARY and len(e["args"]) == 1 and UNARY[f]:
        v = E.val(e["args"][0])
        return fn1(UNARY[f], v)
    if f in ("pow", "std::pow") and len(e["args"]) == 2:
        a, b = E.val(e["args"][0]), E.val(e["args"][1])
        if b.op == "n" and isinstance(b.args[0], int) and 0 <= b.args[0] <= 4:
            r = ONE
            for _ in range(b.args[0]):
                r = mul(r, a)
            return r
        return mk("pow", a, b)
    if f in ("std::hypot", "hypot") and len(e["args"]) == 2:
        a, b = E.val(e["args"][0]), E.val(e["args"][1])
        return mk("fn1", "sqrt", add(mul(a, a), mul(b, b)))
    if f in ("std::max", "std::min", "fmax", "fmin", "std::fmax", "std::fmin") and len(e["args"]) == 2:
        a, b = E.val(e["args"][0]), E.val(e["args"][1])
        if E.st is None:
            return ZERO
        fl = EN.is_float(E.tyof(e["args"][0]))
        c = lt(a, b, not fl)
        return ite(c, b, a) if "max" in f else ite(lt(b, a, not fl), b, a)
    if f == "std::accumulate":
        return accumulate(E, e)
    if f in ("std::copy", "std::copy_n"):
        vs = [E.val(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        pb, pi = E.psplit(vs[0])
        db, di = E.psplit(vs[2])
        if f == "std::copy_n":
            n = vs[1]
        else:
            qb, qi = E.psplit(vs[1])
            n = sub(qi, pi) if qb is pb else fresh("n")
        ph = mk("ph", "i")
        src = E.content(pb)
        E.ev("memcpy", loc_idx(db, di), n, e, src=loc_idx(pb, pi))
        E.set_content(db, mk("upd", E.content(db), di, add(di, n), ph, sel(src, add(sub(ph, di), pi))))
        E.access("write", db, None, how="copy")
        return E.padd(vs[2], n)
    if f in ("memcpy", "std::memcpy", "memmove", "std::memmove"):
        vs = [E.val(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        db, di = E.psplit(vs[0])
        pb, pi = E.psplit(vs[1])
        E.ev("memcpy", loc_idx(db, di), vs[2], e, src=loc_idx(pb, pi), bytes=True)
        E.set_content(db, fresh("memcpy"))
        return vs[0]
    if f in ("std::fill", "std::fill_n"):
        vs = [E.val(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        pb, pi = E.psplit(vs[0])
        if f == "std::fill_n":
            hi = add(pi, vs[1])
        else:
            qb, qi = E.psplit(vs[1])
            hi = qi if qb is pb else fresh("n")
        E.access("write", pb, None, how="fill")
        E.ev("fill", loc_idx(pb, pi), sub(hi, pi), e, value=vs[2])
        E.set_content(pb, mk("upd", E.content(pb), pi, hi, mk("ph", "i"), vs[2]))
        return ZERO
    if f in ("memset", "std::memset"):
        vs = [E.val(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        pb, pi = E.psplit(vs[0])
        E.ev("fill", loc_idx(pb, pi), vs[2], e, value=vs[1], bytes=True)
        E.set_content(pb, mk("fill", ZERO) if vs[1] is ZERO else fresh("memset"))
        return vs[0]
    if f in ("std::sort", "std::stable_sort", "std::nth_element", "std::partial_sort", "std::reverse"):
        vs = [E.val(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        pb, pi = E.psplit(vs[0])
        E.ev("permute", pb, f, e, args=tuple(vs))
        c = E.content(pb)
        E.set_content(pb, mk("perm", f, c, *vs))
        E.access("write", pb, None, how="sort")
        return ZERO
    if f in ("std::max_element", "std::min_element"):
        vs = [E.val(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        pb, pi = E.psplit(vs[0])
        return mk("ptr", pb, mk("argext", f, E.content(pb), vs[0], vs[1]))
    if f == "std::minmax_element":
        vs = [E.val(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        pb, pi = E.psplit(vs[0])
        L = E.newroot("tmp", "minmax")
        E.st.mem[loc_field(L, "first")] = mk("ptr", pb, mk("argext", "std::min_element", E.content(pb), vs[0], vs[1]))
        E.st.mem[loc_field(L, "second")] = mk("ptr", pb, mk("argext", "std::max_element", E.content(pb), vs[0], vs[1]))
        return L
    if f == "std::for_each" and len(e["args"]) == 3:
        return for_each(E, e)
    if f == "std::distance":
        a, b = E.val(e["args"][0]), E.val(e["args"][1])
        x, y = E.psplit(a), E.psplit(b)
        return sub(y[1], x[1]) if x[0] is y[0] else fresh("distance")
    if f in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::size", "std::data"):
        x = E.eval(e["args"][0])
        if E.st is None:
            return ZERO
        L = E.as_loc(x, E.tyof(e["args"][0]))
        n, el, et = range_of(E, L, E.tyof(e["args"][0]))
        if f == "std::size":
            return n()
        return mk("ptr", L, ZERO if ("begin" in f or "data" in f) else n())
    if f in ("std::atomic_load", "std::atomic_store"):
        p = E.val(e["args"][0])
        if E.st is None:
            return ZERO
        l = E.deref(p)
        if f == "std::atomic_load":
            E.ev("aload", l, None, e)
            return mk("aload", l, E.nextuid())
        v = E.val(e["args"][1])
        if E.st is None:
            return ZERO
        E.ev("astore", l, v, e)
        E.write_loc(l, v)
        return ZERO
    if f.startswith("__sync_") or f.startswith("__atomic_"):
        vs = [E.val(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        l = E.deref(vs[0])
        E.ev("atomic_add" if "add" in f else "atomic_rmw", l, vs[1] if len(vs) > 1 else None, e, name=f)
        o = E.read_loc(l, None)
        if "add" in f and len(vs) > 1:
            E.write_loc(l, add(o, vs[1]))
        else:
            E.write_loc(l, fresh("rmw"))
        return o
    return NOTMODELLED


def t_lambda(E, e):
    t = E.tyof(e["obj"]) if e.get("obj") is not None else None
    return t is not None and bool(t.base.raw.get("lambda"))


def fn1(n, v):
    if v.op == "n":
        import math
        x = v.args[0]
        if n in ("ceil", "floor", "round", "trunc"):
            return num({"ceil": math.ceil, "floor": math.floor, "round": round, "trunc": int}[n](x))
        if n == "fabs":
            return num(abs(x))
    if n in ("ceil", "floor", "round", "trunc") and EN.intvalued(v):
        return v
    return mk("fn1", n, v)


def accumulate(E, e):
    vs = [E.val(a) for a in e["args"]]
    if E.st is None:
        return ZERO
    pb, pi = E.psplit(vs[0])
    qb, qi = E.psplit(vs[1])
    ph = mk("ph", "i")
    n = sub(qi, pi) if pb is qb else fresh("n")
    c = E.content(pb)
    E.ev("range", loc_idx(pb, pi), n, e, ty=None, lo=pi, hi=qi)
    body = sel(c, add(ph, pi))
    if len(vs) > 3:
        f = vs[3]
        nm = tstr(E.tyof(e["args"][3]))
        if "multiplies" in nm:
            return mk("Prod", vs[2], mk("lam", ph, body), n)
        return mk("Fold", f, vs[2], mk("lam", ph, body), n)
    return add(vs[2], mk("Sum", mk("lam", ph, body), n))


def for_each(E, e):
    vs = [E.val(a) for a in e["args"]]
    if E.st is None:
        return ZERO
    pb, pi = E.psplit(vs[0])
    qb, qi = E.psplit(vs[1])
    E.call_value(vs[2], [LV(loc_idx(pb, fresh("it")), None)], e)
    return ZERO


def make_smart(E, e, f):
    t = E.tyof(e)
    et = None
    if e.get("targs") and "t" in e["targs"][0]:
        et = ty(E.frames[-1].tu, e["targs"][0]["t"])
    elif t is not None:
        et = t.base.targ(0)
    if f == "std::make_shared":
        vs = [E.eval(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        H = E.newroot("heap", "shared", et)
        if et is not None and bare(tstr(et)) == "std::packaged_task":
            E.st.mem[H] = E.rv(vs[0])
        elif et is not None and not is_scalar(et) and len(vs) == 1:
            E.copy_object(E.as_loc(vs[0], et), H)
        elif vs:
            E.st.mem[H] = E.rv(vs[0]) if et is not None and is_scalar(et) else fresh("obj")
        E.ev("alloc", H, None, e, ty=et)
        return mk("ptr", H, "obj")
    L = E.newroot("tmp", "uptr", t)
    P = pointee(L)
    if et is not None and et.k == "arr":
        n = E.val(e["args"][0]) if e["args"] else None
        if E.st is None:
            return ZERO
        E.set_size(P, n)
        E.set_content(P, mk("fill", ZERO))
        E.ev("alloc", P, n, e, ty=et.to)
    else:
        pe = dict(e)
        k = None
        vs = [E.eval(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        # constructor of the element type
        tu, r = E.record(et) if et is not None else (None, None)
        done = False
        if r:
            for key, fn in list(tu.by_key.items()):
                if fn.get("isctor") and fn.get("cls") == r["name"] and len(fn["params"]) == len(vs) and fn.get("body") and fn["f"] not in E.opaque:
                    E.invoke(fn, fn["_tu"], P, vs, None, fn["f"], e)
                    done = True
                    break
        if E.st is None:
            return ZERO
        E.ev("alloc", P, None, e, ty=et, args=vs)
        if not done and vs and et is not None and not is_scalar(et) and bare(tstr(et)) != "ThreadPool":
            x = vs[0]
            if isinstance(x, LV) or x.op in ("root", "loc"):
                E.copy_object(E.as_loc(x, et), P)
    if E.st is not None:
        E.st.mem[ptr_null(E, L)] = TRUE
    return L


def free_operator(E, e, name):
    a = e["args"]
    if len(a) == 2:
        t0 = E.tyof(a[0])
        n0 = bare(tstr(t0))
        n1 = bare(tstr(E.tyof(a[1])))
        if n0 in ITER or n1 in ITER:
            x, y = E.val(a[0]), E.val(a[1])
            if E.st is None:
                return ZERO
            if name in ("operator!=", "operator=="):
                r = itereq(E, x, y)
                return r if name == "operator==" else bnot(r)
            if name == "operator-":
                p, q = E.psplit(x), E.psplit(y)
                return sub(p[1], q[1]) if p[0] is q[0] else mk("pdiff", x, y)
            if name == "operator+":
                return E.padd(x, y)
            if name in ("operator<", "operator>", "operator<=", "operator>="):
                p, q = E.psplit(x), E.psplit(y)
                if p[0] is q[0]:
                    return E.cmp(name[8:], p[1], q[1], True)
        if n0 in ("std::shared_ptr", "std::unique_ptr") or n1 in ("std::shared_ptr", "std::unique_ptr"):
            if name in ("operator==", "operator!="):
                vs = []
                for x in a:
                    v = E.eval(x)
                    if E.st is None:
                        return ZERO
                    if bare(tstr(E.tyof(x))) == "std::unique_ptr":
                        L = E.as_loc(v)
                        fl = E.lookup(ptr_null(E, L))
                        vs.append(("u", tobool(fl)))
                    else:
                        vs.append(("s", tobool(E.rv(v))))
                r = bnot(vs[0][1]) if vs[1][1] is FALSE else bnot(vs[1][1]) if vs[0][1] is FALSE else eq(vs[0][1], vs[1][1])
                return r if name == "operator==" else bnot(r)
        if n0 in ("std::basic_string", "std::__cxx11::basic_string") or n1 in ("std::basic_string", "std::__cxx11::basic_string"):
            x, y = E.val(a[0]), E.val(a[1])
            if E.st is None:
                return ZERO
            if name in ("operator==", "operator!="):
                r = eq(x, y)
                return r if name == "operator==" else bnot(r)
            if name == "operator+":
                if x.op == "str" and y.op == "str":
                    return mk("str", x.args[0] + y.args[0])
                return mk("strcat", x, y)
        if name in ("operator==", "operator!=") and n0 == n1 and n0 in VEC + ("std::pair",):
            x, y = E.eval(a[0]), E.eval(a[1])
            if E.st is None:
                return ZERO
            l, r = E.as_loc(x), E.as_loc(y)
            if n0 == "std::pair":
                t = t0.base.targ(0)
                c = TRUE
                for f in ("first", "second"):
                    c = band(c, eq(E.read_loc(loc_field(l, f), t), E.read_loc(loc_field(r, f), t)))
                return c if name == "operator==" else bnot(c)
    return NOTMODELLED


def itereq(E, x, y):
    if x is y:
        return TRUE
    for a, b in ((x, y), (y, x)):
        if b.op == "mapend":
            if a.op == "mapit":
                return bnot(mk("bool", mk("has", a.args[0], a.args[1], a.args[2])))
            return mk("eq", a, b)
    return E.ptreq(x, y)


# ---------------------------------------------------------------- containers
VEC_READ = ("size", "empty", "begin", "end", "cbegin", "cend", "data", "operator[]", "at", "front", "back", "capacity", "rbegin", "rend")


def cop(E, L, op, e, write, args=(), t=None):
    E.ev("cop", L, op, e, write=write, args=tuple(args), ty=t)


def vector_call(E, e, name, cls):
    if e.get("obj") is None:
        return NOTMODELLED
    L, t = objloc(E, e)
    if E.st is None:
        return ZERO
    et = elem_type(t)
    scal = et is None or is_scalar(et)

    def size():
        if cls == "std::array":
            ta = t.base.raw.get("targs") or []
            if len(ta) > 1 and "i" in ta[1]:
                return num(int(ta[1]["i"]))
        return E.size(L)
    if L.op == "ite" and name in ("size", "empty", "operator[]", "at", "data", "begin", "end"):
        c, a, b = L.args
        i = E.val(e["args"][0]) if e["args"] else None
        if name == "size":
            return ite(c, E.size(a), E.size(b))
        if name == "empty":
            return ite(c, eq(E.size(a), ZERO), eq(E.size(b), ZERO))
        if name in ("operator[]", "at"):
            return LV(mk("ite", c, loc_idx(a, i), loc_idx(b, i)), et)
        if name in ("data", "begin"):
            return ite(c, mk("ptr", a, ZERO), mk("ptr", b, ZERO))
        return ite(c, mk("ptr", a, E.size(a)), mk("ptr", b, E.size(b)))
    if name == "size":
        cop(E, L, name, e, False)
        return size()
    if name == "empty":
        cop(E, L, name, e, False)
        return eq(size(), ZERO)
    if name in ("operator[]", "at"):
        i = E.val(e["args"][0])
        if E.st is None:
            return ZERO
        cop(E, L, name, e, False, (i,))
        l = loc_idx(L, i)
        E.ev("index", l, i, e, how="at" if name == "at" else "vector", size=size(), ty=et)
        return LV(l, et)
    if name in ("front", "back"):
        i = ZERO if name == "front" else sub(size(), ONE)
        cop(E, L, name, e, False)
        return LV(loc_idx(L, i), et)
    if name in ("begin", "cbegin", "data"):
        cop(E, L, name, e, False)
        return mk("ptr", L, ZERO)
    if name in ("end", "cend"):
        cop(E, L, name, e, False)
        return mk("ptr", L, size())
    if name in ("push_back", "emplace_back"):
        n = size()
        l = loc_idx(L, n)
        if len(e["args"]) == 1:
            x = E.eval(e["args"][0])
            if E.st is None:
                return ZERO
            if et is not None and bare(tstr(et)) == "std::thread":
                v = E.rv(x)
                if v.op != "fut":
                    v = spawn(E, v, [], e, "thread")
                store_future(E, L, v)
                E.set_size(L, add(n, ONE))
                return ZERO
            if scal:
                v = E.rv(x)
                store_future(E, L, v)
                cop(E, L, name, e, True, (v,), t)
                E.write_loc(l, v, et)
            else:
                src = E.as_loc(x, et)
                at = E.tyof(e["args"][0])
                if is_scalar(at) and not isinstance(x, LV) or (isinstance(x, LV) and at is not None and is_scalar(at)):
                    # emplaced from a constructor argument
                    src = None
                cop(E, L, name, e, True, (src,) if src is not None else (E.rv(x),), t)
                if src is not None and bare(tstr(at)) == bare(tstr(et)):
                    if isinstance(x, LV):
                        E.access("read", src, et, how="copy")
                    E.copy_object(src, l)
                else:
                    if bare(tstr(et)) == "std::unique_ptr":
                        take_pointer(E, l, E.rv(x))
                    else:
                        emplace(E, l, et, [x], e)
        else:
            vs = [E.eval(a) for a in e["args"]]
            if E.st is None:
                return ZERO
            cop(E, L, name, e, True, tuple(E.rv(v) for v in vs), t)
            if et is not None and bare(tstr(et)) == "std::thread" and vs:
                v = spawn(E, E.rv(vs[0]), vs[1:], e, "thread")
                store_future(E, L, v)
            else:
                emplace(E, l, et, vs, e)
        if E.st is None:
            return ZERO
        E.set_size(L, add(n, ONE))
        return LV(l, et)
    if name == "resize":
        vs = [E.val(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        old = E.lookup(E.size_key(L))
        cop(E, L, name, e, True, vs, t)
        E.set_size(L, vs[0])
        if scal and old is ZERO:
            E.set_content(L, mk("fill", vs[1] if len(vs) > 1 else (FALSE if et is not None and et.k == "bool" else ZERO)))
        elif scal and len(vs) > 1:
            pass
        return ZERO
    if name == "clear":
        cop(E, L, name, e, True, (), t)
        E.killsub(L)
        E.st.mem.pop(L, None)
        E.set_size(L, ZERO)
        return ZERO
    if name in ("reserve", "shrink_to_fit"):
        for a in e["args"]:
            E.val(a)
        cop(E, L, name, e, True, (), t)
        return ZERO
    if name == "assign" and len(e["args"]) == 2:
        vs = [E.val(a) for a in e["args"]]
        if E.st is None:
            return ZERO
        cop(E, L, name, e, True, vs, t)
        if vs[0].op == "ptr":
            E.havoc(L)
        else:
            set_scalar_arr(E, L, vs[0], mk("fill", vs[1]) if scal else None)
        return ZERO
    if name == "fill":
        v = E.val(e["args"][0])
        cop(E, L, name, e, True, (v,), t)
        if E.st is not None and scal:
            E.set_content(L, mk("fill", v))
        return ZERO
    if name == "operator=":
        il = init_args(e["args"][0])
        if il is not None and e["args"][0]["k"] != "ctor":
            cop(E, L, name, e, True, (), t)
            construct(E, L, t, dict(args=[e["args"][0]], k="ctor", f="", cls=cls))
            return LV(L, t)
        x = E.eval(e["args"][0])
        if E.st is None:
            return ZERO
        src = E.as_loc(x, t)
        if isinstance(x, LV):
            E.access("read", src, t, how="copy")
        cop(E, L, name, e, True, (src,), t)
        E.copy_object(src, L)
        return LV(L, t)
    vs = [E.eval(a) for a in e["args"]]
    if E.st is None:
        return ZERO
    w = name not in ("rbegin", "rend", "capacity", "max_size", "crbegin", "crend")
    cop(E, L, name, e, w, tuple(E.rv(v) for v in vs), t)
    if w:
        E.havoc(L)
    return unknown_result(E, e, name)


def emplace(E, l, et, vs, e):
    if et is None:
        return
    n = bare(tstr(et))
    if n == "std::pair" and len(vs) == 2:
        E.killsub(l)
        for v, f in zip(vs, ("first", "second")):
            E.st.mem[loc_field(l, f)] = E.rv(v)
        return
    tu, r = E.record(et)
    if r:
        for key, fn in list(tu.by_key.items()):
            if fn.get("isctor") and fn.get("cls") == r["name"] and len(fn["params"]) == len(vs) and fn.get("body"):
                E.invoke(fn, fn["_tu"], l, vs, None, fn["f"], e)
                return
    E.havoc(l)
    E.ev("emplace", l, None, e, args=vs, ty=et)


def map_call(E, e, name):
    if e.get("obj") is None:
        return NOTMODELLED
    L, t = objloc(E, e)
    if E.st is None:
        return ZERO
    vs = [E.eval(a) for a in e["args"]]
    if E.st is None:
        return ZERO
    vt = t.base.targ(1) if t is not None else None
    if name in ("operator[]", "at"):
        k = E.rv(vs[0])
        cop(E, L, name, e, name == "operator[]", (k,), t)
        return LV(loc_idx(L, k), vt)
    if name in ("find",):
        k = E.rv(vs[0])
        cop(E, L, name, e, False, (k,), t)
        return mk("mapit", L, k, E.nextuid())
    if name in ("end", "cend"):
        cop(E, L, name, e, False, (), t)
        return mk("mapend", L)
    if name in ("begin", "cbegin"):
        cop(E, L, name, e, False, (), t)
        return mk("mapit", L, mk("key0", L, E.nextuid()), E.nextuid())
    if name in ("size", "empty", "count"):
        cop(E, L, name, e, False, tuple(E.rv(v) for v in vs), t)
        n = E.lookup(E.size_key(L))
        if name == "count":
            return mk("has", L, E.rv(vs[0]), E.nextuid())
        E.nn.add(n)
        return n if name == "size" else eq(n, ZERO)
    if name == "operator=":
        cop(E, L, name, e, True, (), t)
        E.copy_object(E.as_loc(vs[0], t), L)
        return LV(L, t)
    if name == "clear":
        cop(E, L, name, e, True, (), t)
        E.killsub(L)
        E.st.mem.pop(L, None)
        E.set_size(L, ZERO)
        return ZERO
    cop(E, L, name, e, True, tuple(E.rv(v) if not isinstance(v, LV) or is_scalar(v.ty) else v.loc for v in vs), t)
    E.st.mem[E.size_key(L)] = fresh("mapsize")
    return unknown_result(E, e, name)


def queue_call(E, e, name):
    if e.get("obj") is None:
        return NOTMODELLED
    L, t = objloc(E, e)
    if E.st is None:
        return ZERO
    et = elem_type(t)
    vs = [E.eval(a) for a in e["args"]]
    if E.st is None:
        return ZERO
    if name in ("empty", "size", "top", "front", "back"):
        cop(E, L, name, e, False, (), t)
        if name in ("top", "front", "back"):
            return LV(loc_idx(L, mk("qtop", L, E.nextuid())), et)
        n = E.lookup(E.size_key(L))
        E.nn.add(n)
        return eq(n, ZERO) if name == "empty" else n
    if name == "operator=":
        cop(E, L, name, e, True, (), t)
        E.copy_object(E.as_loc(vs[0], t), L)
        return LV(L, t)
    for v in vs:
        if not isinstance(v, LV):
            store_future(E, L, v)
    cop(E, L, name, e, True, tuple(E.rv(v) for v in vs), t)
    E.st.mem[E.size_key(L)] = fresh("qsize")
    return unknown_result(E, e, name)


def iter_call(E, e, name):
    o = e.get("obj")
    if o is None:
        return NOTMODELLED
    x = E.eval(o)
    if E.st is None:
        return ZERO
    p = E.rv(x)
    if name == "operator*":
        l = iter_deref(E, p)
        E.ev("index", l, ZERO, e, how="iter", ty=E.tyof(e))
        return LV(l, E.tyof(e))
    if name == "operator->":
        if p.op == "mapit":
            return mk("ptr", iter_deref(E, p), "obj")
        return p
    if name in ("operator++", "operator--"):
        d = ONE if name == "operator++" else num(-1)
        if p.op in ("mapit", "mapend"):
            n = mk("mapit", p.args[0], mk("keyn", p, E.nextuid()), E.nextuid())
        else:
            n = E.padd(p, d)
        if isinstance(x, LV):
            E.write_loc(x.loc, n, x.ty)
        return p if e["args"] else (x if isinstance(x, LV) else n)
    if name in ("operator+", "operator-", "operator+=", "operator-="):
        v = E.val(e["args"][0])
        if E.st is None:
            return ZERO
        n = E.padd(p, v if "+" in name else neg(v))
        if name.endswith("="):
            if isinstance(x, LV):
                E.write_loc(x.loc, n, x.ty)
            return x
        return n
    if name == "operator[]":
        v = E.val(e["args"][0])
        return LV(E.deref(p, v), E.tyof(e))
    if name == "operator=":
        v = E.val(e["args"][0])
        if E.st is not None and isinstance(x, LV):
            E.write_loc(x.loc, v, x.ty)
        return x
    if name in ("operator==", "operator!="):
        y = E.val(e["args"][0])
        r = itereq(E, p, y)
        return r if name == "operator==" else bnot(r)
    if name == "base":
        return p
    return unknown(E, e)


def iter_deref(E, p):
    if p.op == "mapit":
        return mk("loc", p.args[0], "kv", p.args[1])
    if p.op == "ite":
        return mk("ite", p.args[0], iter_deref(E, p.args[1]), iter_deref(E, p.args[2]))
    return E.deref(p)


# ---------------------------------------------------------------- smart pointers
def uptr_call(E, e, name):
    if e.get("obj") is None:
        return NOTMODELLED
    L, t = objloc(E, e)
    if E.st is None:
        return ZERO
    et = t.base.targ(0) if t is not None else None
    isarr = et is not None and et.k == "arr"
    P = pointee(L)
    if name in ("get", "operator->"):
        E.access("read", L, t, how="uptr")
        fl = E.lookup(ptr_null(E, L))
        if fl is FALSE and name == "get":
            return NULL
        return mk("ptr", P, ZERO) if isarr else mk("ptr", P, "obj")
    if name == "operator*":
        E.access("read", L, t, how="uptr")
        return LV(P, et)
    if name == "operator[]":
        E.access("read", L, t, how="uptr")
        i = E.val(e["args"][0])
        if E.st is None:
            return ZERO
        l = loc_idx(P, i)
        E.ev("index", l, i, e, how="uptr", ty=et.to if isarr else et, size=E.lookup(E.size_key(P)))
        return LV(l, et.to if isarr else et)
    if name == "operator bool":
        E.access("read", L, t, how="uptr")
        return tobool(E.lookup(ptr_null(E, L)))
    if name == "reset":
        v = E.val(e["args"][0]) if e["args"] else NULL
        if E.st is None:
            return ZERO
        E.access("write", L, t, v, how="reset")
        et2 = et
        if E.lookup(ptr_null(E, L)) is not FALSE:
            E.ev("uptr_dtor", L, None, e, ty=et2, how="reset")
            if et2 is not None and bare(tstr(et2)) == "ThreadPool":
                E.ev("join_pool", P, None, e)
        take_pointer(E, L, v)
        return ZERO
    if name == "release":
        E.access("write", L, t, None, how="release")
        E.st.mem[ptr_null(E, L)] = FALSE
        H = E.newroot("heap", "released", et)
        E.copy_object(P, H)
        return mk("ptr", H, ZERO if isarr else "obj")
    if name == "operator=":
        x = E.eval(e["args"][0])
        if E.st is None:
            return ZERO
        E.access("write", L, t, None, how="assign")
        if E.lookup(ptr_null(E, L)) is not FALSE:
            E.ev("uptr_dtor", L, None, e, ty=et, how="assign")
            if et is not None and bare(tstr(et)) == "ThreadPool":
                E.ev("join_pool", P, None, e)
        if bare(tstr(E.tyof(e["args"][0]))) == "std::unique_ptr":
            E.copy_object(E.as_loc(x, t), L)
        else:
            take_pointer(E, L, E.rv(x))
        return LV(L, t)
    return unknown(E, e)


def sptr_call(E, e, name):
    if e.get("obj") is None:
        return NOTMODELLED
    o = E.eval(e["obj"]) if not e.get("arrow") else LV(E.deref(E.val(e["obj"])), None)
    if E.st is None:
        return ZERO
    t = E.tyof(e["obj"])
    if e.get("arrow") and t is not None and t.base.k == "ptr":
        t = t.base.to
    if isinstance(o, LV):
        if name not in ("reset", "operator="):
            E.access("read", o.loc, t)
        p = E.read_loc(o.loc, t)
    else:
        p = o
    et = t.base.targ(0) if t is not None else None
    if name in ("get", "operator->"):
        return p
    if name == "operator*":
        l = E.deref(p)
        if p.op == "ptr" and p.args[1] == "obj":
            l = p.args[0]
        return LV(l, E.tyof(e))
    if name == "operator bool":
        return tobool(p)
    if name == "operator[]":
        i = E.val(e["args"][0])
        return LV(E.deref(p, i), E.tyof(e))
    if name == "reset":
        v = NULL
        for i, a in enumerate(e["args"]):
            x = E.val(a)
            if i == 0:
                v = x
        if E.st is None:
            return ZERO
        E.ev("release", o.loc if isinstance(o, LV) else None, p, e, ty=t, how="reset")
        if isinstance(o, LV):
            E.access("write", o.loc, t, v, how="reset")
            E.write_loc(o.loc, v, t)
            if v is not NULL:
                E.ev("shared", o.loc, v, e, ty=t)
        return ZERO
    if name == "operator=":
        x = E.eval(e["args"][0])
        if E.st is None:
            return ZERO
        v = E.rv(x)
        E.ev("release", o.loc if isinstance(o, LV) else None, p, e, ty=t, how="assign")
        if isinstance(o, LV):
            E.access("write", o.loc, t, v, how="assign")
            E.write_loc(o.loc, v, t)
        return o
    if name == "use_count":
        return fresh("use_count")
    return unknown(E, e)


# ---------------------------------------------------------------- atomics, locks, conditions
def atomic_call(E, e, name):
    if e.get("obj") is None:
        return NOTMODELLED
    L, t = objloc(E, e)
    if E.st is None:
        return ZERO
    vs = [E.val(a) for a in e["args"] if a["k"] != "defarg"]
    if E.st is None:
        return ZERO
    isb = "bool" in (e.get("f") or "") or (E.tyof(e) is not None and E.tyof(e).k == "bool")
    if name == "load" or name.startswith("operator ") :
        E.ev("aload", L, None, e)
        n = mk("aload", L, E.nextuid())
        E.nn.add(n)
        if isb:
            return mk("bool", n)
        return n
    if name in ("operator=", "store"):
        E.ev("astore", L, vs[0], e)
        E.st.mem.pop(L, None)
        return vs[0]
    if name in ("operator++", "operator--", "operator+=", "operator-=", "fetch_add", "fetch_sub", "exchange", "operator|=", "operator&="):
        n = mk("armw", L, E.nextuid())
        E.nn.add(n)
        d = vs[0] if vs and name not in ("operator++", "operator--") else ONE
        E.ev("armw", L, d, e, op=name, old=n, post=bool(e["args"]) if name in ("operator++", "operator--") else None)
        post = name.startswith("fetch") or name == "exchange" or (name in ("operator++", "operator--") and len(e["args"]) > 0)
        if post:
            return n
        s = num(-1) if name in ("operator--", "operator-=") else ONE
        return add(n, mul(s, d))
    if name.startswith("compare_exchange"):
        n = mk("armw", L, E.nextuid())
        E.ev("armw", L, None, e, op=name, old=n, post=None)
        return mk("bool", n)
    return unknown(E, e)


def lock_call(E, e, name):
    L, t = objloc(E, e)
    if E.st is None:
        return ZERO
    m = E.lookup(mk("loc", L, ".", "$m"))
    if name == "unlock":
        if m.op in ("root", "loc"):
            release(E, m, e)
        elif m.op == "ite":
            for x in m.args[1:]:
                release(E, x, e)
        return ZERO
    if name in ("lock",):
        if m.op in ("root", "loc"):
            acquire(E, m, e)
        return ZERO
    if name == "try_lock":
        b = mk("bool", fresh("try_lock"))
        if m.op in ("root", "loc"):
            trying(E, L, m, b)
        return b
    if name in ("owns_lock", "operator bool"):
        b = E.st.mem.get(mk("loc", L, ".", "$try"))
        if isinstance(b, T) and b.op == "bool" and not (m.op in ("root", "loc") and m in E.st.locks):
            return b
        if m.op in ("root", "loc"):
            return TRUE if m in E.st.locks else FALSE
        return fresh("owns")
    if name == "operator=":
        x = E.eval(e["args"][0])
        if E.st is None:
            return ZERO
        if m.op in ("root", "loc"):
            release(E, m, e)
        E.copy_object(E.as_loc(x, t), L)
        E.st.mem[mk("loc", E.as_loc(x, t), ".", "$m")] = NULL
        return LV(L, t)
    if name == "release":
        return fresh("mtx")
    return unknown(E, e)


def cv_call(E, e, name):
    L, t = objloc(E, e)
    if E.st is None:
        return ZERO
    if name in ("notify_one", "notify_all"):
        E.ev("notify", L, name, e)
        return ZERO
    if name in ("wait", "wait_for", "wait_until"):
        lk = E.eval(e["args"][0])
        if E.st is None:
            return ZERO
        m = E.lookup(mk("loc", E.as_loc(lk), ".", "$m"))
        pred = None
        rest = e["args"][1:]
        if name != "wait":
            E.val(rest[0])
            rest = rest[1:]
        if rest:
            x = E.eval(rest[0])
            if E.st is None:
                return ZERO
            pred = E.rv(x)
        ev = E.ev("wait", L, m, e, pred=pred, how=name)
        havoc_shared(E, "wait")
        if pred is not None:
            E.ev("predstart", L, m, e)
            c = tobool(E.rv(E.call_value(pred, [], e)))
            if E.st is None:
                return ZERO
            E.ev("predend", L, c, e)
            if ev is not None:
                ev.x["cond"] = c
            if name == "wait":
                E.assume(c)
        return mk("bool", fresh("wait")) if name != "wait" else ZERO
    return unknown(E, e)


def future_call(E, e, name):
    o = E.eval(e["obj"]) if not e.get("arrow") else LV(E.deref(E.val(e["obj"])), None)
    if E.st is None:
        return ZERO
    l = o.loc if isinstance(o, LV) else None
    v = E.read_loc(l, None) if l is not None else o
    if name == "valid":
        if v is NULL:
            return FALSE
        if v.op == "fut":
            return TRUE
        return mk("bool", mk("valid", v))
    if name in ("get", "wait"):
        join(E, v, l, e, name)
        havoc_shared(E, "join")
        if name == "get" and l is not None:
            es = E.elem_split(l)
            if not es:
                E.write_loc(l, NULL)
        rt = E.tyof(e)
        return ZERO if rt is None or rt.k == "void" else mk("futval", v)
    if name == "operator=":
        x = E.val(e["args"][0])
        if E.st is not None and l is not None:
            store_future(E, l, x)
            E.write_loc(l, x)
        return o
    for a in e["args"]:
        E.eval(a)
    return fresh("future." + name)


def stream_call(E, e, name):
    L, t = objloc(E, e)
    if E.st is None:
        return ZERO
    vs = [E.eval(a) for a in e["args"]]
    if E.st is None:
        return ZERO
    av = tuple(E.rv(v) for v in vs)
    E.ev("io", L, name, e, args=av)
    if name == "read" and av:
        b, i = E.psplit(av[0])
        E.ev("fillbuf", loc_idx(b, i), av[1] if len(av) > 1 else None, e, stream=L, ptr=av[0])
        r = EN.rootof(b)
        if av[0].op == "ptr" and av[0].args[1] == "obj":
            E.havoc(av[0].args[0], "read")
        else:
            E.set_content(b, fresh("read"))
            for k in [k for k in E.st.mem if k.op == "loc" and k.args[0] is b and k.args[1] == "[]"]:
                E.st.mem[k] = fresh("read")
        return LV(L, t)
    if name in ("eof", "is_open", "fail", "good", "bad", "operator bool", "operator!"):
        return mk("bool", mk("io", name, L, E.nextuid()))
    if name in ("tellg", "gcount", "peek", "get"):
        return mk("io", name, L, E.nextuid())
    return LV(L, t)


# ---------------------------------------------------------------- unknown calls
PURE_PY = ("shape", "size", "ndim", "itemsize", "nbytes", "strides", "data", "mutable_data", "ptr", "dtype")


def unknown_result(E, e, name):
    t = E.tyof(e)
    if t is not None and not is_scalar(t):
        r = E.newroot("tmp", "ret:" + (name or "?")[-30:], t)
        if E.st is not None:
            E.st.mem[r] = mk("ret", name, E.nextuid())
        return r
    v = mk("ret", name, E.nextuid())
    if t is not None and EN.is_unsigned(t):
        E.nn.add(v)
    if t is not None and t.k == "bool":
        return mk("bool", v)
    return v


def snapshot(E, vs, exprs):
    """size and contents of the scalar sequences passed to a call"""
    out = []
    for v, x in zip(vs, exprs):
        t = v.ty if isinstance(v, LV) else E.tyof(x)
        if t is not None and bare(tstr(t.base)) in VEC:
            et = elem_type(t)
            L = E.as_loc(v, t)
            out.append((E.size(L), E.content(L)) if et is None or is_scalar(et) else None)
        else:
            out.append(None)
    return out


def unknown(E, e):
    f = e.get("f") or "?"
    L = None
    ot = None
    if e.get("obj") is not None:
        L, ot = objloc(E, e)
        if E.st is None:
            return ZERO
    vs = []
    for a in e["args"]:
        vs.append(E.eval(a))
        if E.st is None:
            return ZERO
    name = lastname(f)
    av = []
    for v in vs:
        if isinstance(v, LV) and (v.ty is None or is_scalar(v.ty)):
            av.append(E.read_loc(v.loc, v.ty))
        elif isinstance(v, LV):
            av.append(v.loc)
        else:
            av.append(v)
    E.cure = e
    ev = E.ev("call", L, f, e, args=av, name=f, lvs=[v.loc if isinstance(v, LV) else None for v in vs], ty=ot, key=e.get("key"),
              cont=snapshot(E, vs, e["args"]))
    E.stats["unknown"].add(f)
    cls = bare(e.get("cls") or "")
    if cls.startswith("pybind11::") and name in PURE_PY:
        r = mk("py", name, L if L is not None else NULL, *[x for x in av if isinstance(x, T)])
        if name in ("shape", "size", "ndim"):
            E.nn.add(r)
        return r
    # side effects on arguments
    pts = e.get("pt") or []
    tu = E.frames[-1].tu
    for i, v in enumerate(vs):
        pt = ty(tu, pts[i]) if i < len(pts) else None
        at = E.tyof(e["args"][i])
        if isinstance(v, LV) and pt is not None and pt.k == "ref" and pt.raw.get("ref") == "l" and pt.to is not None and not pt.to.const:
            E.havoc(v.loc, "arg")
        elif pt is None or pt.k == "ptr":
            x = av[i]
            if pt is not None and pt.to is not None and (pt.to.const or pt.to.k == "func"):
                continue
            if isinstance(x, T) and x.op == "ptr":
                b, k = x.args
                if k == "obj":
                    E.havoc(b, "arg")
                else:
                    E.set_content(b, fresh("arg"))
    if L is not None and not is_const_method(e) and not cls.startswith("std::basic_ostr"):
        if cls and not cls.startswith("pybind11::"):
            E.havoc(L, "obj")
    r = unknown_result(E, e, f)
    if ev is not None:
        ev.x["ret"] = r
    return r


def is_const_method(e):
    k = e.get("key") or ""
    return k.rstrip().endswith("const") or " const" in k[k.rfind(")"):]
