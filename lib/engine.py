"""Value-numbering abstract interpreter over the AST-IR.

One forward pass per entry point: joins merge values under their guards, loops are
summarised (induction variables, elementwise array updates, reductions), repository
functions and lambdas are analysed in their calling context.  Nothing is executed and
no path is enumerated: every program point is visited in a single merged state per
calling context.  The result is a log of events (accesses, calls, stores, throws,
spawns, joins, lock operations) with their values, guards and held locks.
"""
import sys
import ir
from terms import *
import terms as TT

sys.setrecursionlimit(20000)


class Ty:
    __slots__ = ("s", "k", "name", "raw", "tu", "idx", "_to")

    def __init__(self, tu, idx):
        self.tu, self.idx = tu, idx
        r = tu.ty(idx)
        self.raw = r
        self.s = r.get("s", "?")
        self.k = r.get("k", "other")
        self.name = r.get("name") or ""
        self._to = None

    @property
    def to(self):
        if self._to is None:
            t = self.raw.get("to")
            self._to = ty(self.tu, t) if t is not None else None
        return self._to

    @property
    def base(self):
        """strip references"""
        t = self
        while t.k == "ref" and t.to is not None:
            t = t.to
        return t

    def targ(self, i):
        ta = self.raw.get("targs") or []
        if i < len(ta) and isinstance(ta[i], dict) and "t" in ta[i]:
            return ty(self.tu, ta[i]["t"])
        return None

    @property
    def const(self):
        return bool(self.raw.get("const"))


_tys = {}


def ty(tu, idx):
    if idx is None or idx < 0:
        return None
    k = (tu.name, idx)
    t = _tys.get(k)
    if t is None:
        t = _tys[k] = Ty(tu, idx)
    return t


SCALAR_REC = ("std::shared_ptr", "__gnu_cxx::__normal_iterator", "std::_Rb_tree_iterator",
              "std::_Rb_tree_const_iterator", "std::function", "std::basic_string", "std::future",
              "std::packaged_task", "std::chrono", "std::__cxx11::basic_string", "std::atomic",
              "std::__atomic_base", "std::__shared_ptr", "std::_Bit_reference", "std::shared_future",
              "std::reverse_iterator", "std::thread", "std::fpos", "std::integral_constant")


def recname(t):
    return t.name or t.s


def is_scalar(t):
    if t is None:
        return True
    t = t.base
    if t.k == "arr":
        return False
    if t.k != "rec":
        return True
    if t.raw.get("lambda"):
        return True
    n = recname(t)
    return n.startswith(SCALAR_REC)


def is_unsigned(t):
    t = t.base if t else None
    return bool(t and ((t.k == "int" and not t.raw.get("sg", True)) or t.k == "bool" or
                       (t.k == "enum" and False)))


def is_float(t):
    return bool(t and t.base.k == "float")


class LV:
    __slots__ = ("loc", "ty")

    def __init__(self, loc, t):
        self.loc, self.ty = loc, t


class State:
    __slots__ = ("mem", "pc", "locks")

    def __init__(self, mem=None, pc=(), locks=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc
        self.locks = locks

    def clone(self):
        return State(dict(self.mem), self.pc, self.locks)


class Frame:
    def __init__(self, fn, tu, this, name):
        self.fn, self.tu, self.this, self.name = fn, tu, this, name
        self.env = {}
        self.rets = []
        self.scopes = []
        self.rt = None
        self.base_pc = 0


class Loop:
    def __init__(self, uid, k, depth):
        self.uid, self.k, self.depth = uid, k, depth
        self.breaks = []
        self.conts = []
        self.trip = None
        self.isswitch = False


class Ev:
    __slots__ = ("kind", "loc", "val", "pc", "locks", "thread", "loops", "stack", "at", "fn", "seq", "x", "st")

    def __repr__(self):
        return "%s %s %s @%s" % (self.kind, self.loc, self.val, self.at)


def loc_field(b, f):
    return mk("loc", b, ".", f)


def loc_idx(b, i):
    return mk("loc", b, "[]", i)


def loc_pseudo(b, p):
    return mk("loc", b, p, "")


def steps(l):
    out = []
    while l.op == "loc":
        out.append(l)
        l = l.args[0]
    return l, out[::-1]


def rootof(l):
    while l.op == "loc":
        l = l.args[0]
    return l


def isprefix(p, l):
    while True:
        if l is p:
            return True
        if l.op != "loc":
            return False
        l = l.args[0]


def wild(b):
    """every element of array b"""
    return mk("loc", b, "[*]", "")


def covers(m, k):
    """does binding m (a location or all elements of an array) contain location k?"""
    if m.op == "loc" and m.args[1] == "[*]":
        b = m.args[0]
        while k.op == "loc":
            if k.args[0] is b and (k.args[1] == "[]" or k is m):
                return True
            k = k.args[0]
        return False
    return isprefix(m, k)


class Aborted(Exception):
    pass


class Engine:
    def __init__(self, tus=None, entry_tu=None):
        self.tus = tus or ir.load()
        self.entry_tu = entry_tu
        self.keymap = {}
        for tu in self.tus:
            for k, f in tu.by_key.items():
                if k not in self.keymap and f.get("body"):
                    self.keymap[k] = f
        self.uid = 0
        self.seq = 0
        self.tries = []
        self.mute = 0
        self.events = []
        self.frames = []
        self.loops = []
        self.thread = 0
        self.threads = {0: dict(parent=None, spawn=0, multi=False, join=None, name="main", fut=None)}
        self.clos = {}
        self.nn = set()
        self.maxdepth = 40
        self.tempty = {}
        self.st = State()
        self.hooks = {}
        self.opaque = set()          # function names not to be inlined
        self.rec_access = True
        self.root_ty = {}
        self.stats = dict(functions=set(), calls=0, loops=0, unknown=set(), branches=0)
        self.loc_ty = {}
        self.budget = 4000000
        self.factcache = {}
        self.by_name = {}
        self.loopmemo = {}
        self.rec = {}                # recurrence equations of the loops
        self.steps = {}
        for tu in self.tus:
            for f in tu.functions:
                self.by_name.setdefault(f["f"], []).append(f)
        self.escaped = set()
        import models
        self.models = models

    # ------------------------------------------------------------ utilities
    def nextuid(self):
        self.uid += 1
        return self.uid

    def newroot(self, kind, name, t=None):
        r = mk("root", kind, name, self.nextuid())
        if t is not None:
            self.root_ty[r] = t
        return r

    def at(self, e=None):
        e = e if e is not None else getattr(self, "cur", None)
        if e is None:
            return "?"
        tu = self.frames[-1].tu if self.frames else None
        if tu and isinstance(e, dict) and e.get("fi") is not None:
            return tu.loc(e)
        return getattr(self, "lastat", "?")

    def heldlocks(self, st):
        """locks held in a state, those of successful attempts included"""
        if not self.tries:
            return st.locks
        return st.locks + tuple(m for m, b in self.tries if b in st.pc and m not in st.locks)

    def ev(self, kind, loc=None, val=None, e=None, **x):
        self.seq += 1
        if self.mute:
            return None
        v = Ev()
        v.kind, v.loc, v.val = kind, loc, val
        v.pc = self.st.pc if self.st else ()
        v.locks = self.heldlocks(self.st) if self.st else ()
        v.thread = self.thread
        v.loops = tuple(self.loops)
        v.stack = tuple(f.name for f in self.frames)
        v.at = self.at(e)
        v.fn = self.frames[-1].name if self.frames else "?"
        v.seq = self.seq
        v.x = x
        v.st = None
        self.events.append(v)
        return v

    def facts(self, extra=()):
        pc = self.st.pc if self.st else ()
        k = (pc, tuple(extra))
        f = self.factcache.get(k)
        if f is None:
            f = Facts(pc + tuple(extra), self.isnn)
            self.factcache[k] = f
        return f

    def isnn(self, a):
        if a in self.nn:
            return True
        if a.op == "k":
            return True
        if a.op == "loc":
            return False
        if a.op == "val":
            l = a.args[0]
            if l.op == "loc" and l.args[1] == "#":
                return True
        if a.op == "trip":
            return True
        if a.op == "ite":
            return all(self.isnn(x) or (x.op == "n" and x.args[0] >= 0) for x in a.args[1:])
        if a.op == "proj" or a.op == "phi":
            return False
        return False

    def assume(self, c):
        if c is TRUE or self.st is None:
            return
        if c is FALSE:
            self.st = None
            return
        lits = c.args if c.op == "and" else (c,)
        pc = self.st.pc
        for l in lits:
            if bnot(l) in pc:
                self.st = None
                return
            if l not in pc:
                pc = pc + (l,)
        self.st.pc = pc

    def decide(self, c):
        """simplify a condition with the current path condition"""
        if c is TRUE or c is FALSE or self.st is None:
            return c
        pc = self.st.pc
        if c in pc:
            return TRUE
        n = bnot(c)
        if n in pc:
            return FALSE
        if c.op in ("and", "or"):
            f = band if c.op == "and" else bor
            return f(*[self.decide(x) for x in c.args])
        if c.op in ("gt0", "eq0") or (c.op == "not" and c.args[0].op in ("gt0", "eq0")):
            f = self.facts()
            if f.holds(c):
                return TRUE
            if f.holds(n):
                return FALSE
        return c

    # ------------------------------------------------------------ memory
    def lookup(self, key, st=None):
        """value bound at memory key (a loc term), or its default"""
        mem = (st or self.st).mem
        v = mem.get(key)
        if v is not None:
            return v
        # ancestors
        path = []
        l = key
        while l.op == "loc":
            path.append(l)
            l = l.args[0]
            v = mem.get(l)
            if v is None and path[-1].args[1] == "[]":
                w = mem.get(mk("loc", l, "[*]", ""))
                if w is not None:
                    v = mk("proj", w, "[]", path[-1].args[2])
                    path.pop()
            if v is not None:
                for p in reversed(path):
                    v = self.project(v, p)
                return v
        if l.op == "root" and l.args[0] == "tmp0":
            return ZERO
        return mk("val", key)

    def project(self, v, p):
        """component of value v for the last step of location p"""
        if v.op == "val":
            b = v.args[0]
            return mk("val", mk("loc", b, p.args[1], p.args[2]))
        if v.op == "ite":
            return ite(v.args[0], self.project(v.args[1], p), self.project(v.args[2], p))
        return mk("proj", v, p.args[1], p.args[2])

    def killsub(self, loc):
        mem = self.st.mem
        dead = [k for k in mem if k is not loc and isprefix(loc, k)]
        for k in dead:
            del mem[k]

    def killalias(self, loc):
        """forget bindings that a write to loc may change through a different symbolic index"""
        r, st = steps(loc)
        idxs = [x for x in st if x.args[1] == "[]"]
        if not idxs:
            return
        mem = self.st.mem
        for k in list(mem):
            if rootof(k) is not r or isprefix(loc, k) or k is loc:
                continue
            _, ks = steps(k)
            same = True
            differs = False
            for a, b in zip(st, ks):
                if a.args[1] != b.args[1]:
                    same = False
                    break
                if a.args[1] == "[]":
                    if a.args[2] is b.args[2]:
                        continue
                    d = sub(a.args[2], b.args[2])
                    if isnum(d) and d is not ZERO:
                        same = False
                        break
                    differs = True
                elif a.args[2] is not b.args[2] and a.args[2] != b.args[2]:
                    same = False
                    break
            if same and differs and len(ks) >= 1:
                f = self.facts()
                # try to prove disjoint
                for a, b in zip(st, ks):
                    if a.args[1] == "[]" and a.args[2] is not b.args[2]:
                        d = sub(a.args[2], b.args[2])
                        if f.gt0(d) or f.gt0(neg(d)):
                            same = False
                            break
                if same:
                    mem[k] = fresh("alias")

    def elem_split(self, loc):
        """(array location, index) if loc is an element of a scalar array"""
        if loc.op == "loc" and loc.args[1] == "[]":
            return loc.args[0], loc.args[2]
        return None

    def content_key(self, arr):
        return mk("loc", arr, "@", "")

    def content(self, arr, st=None):
        return self.lookup(self.content_key(arr), st)

    def set_content(self, arr, c):
        self.st.mem[self.content_key(arr)] = c

    def size_key(self, arr):
        return mk("loc", arr, "#", "")

    def size(self, arr):
        v = self.lookup(self.size_key(arr))
        if v.op not in ("n", "poly"):
            self.nn.add(v)
        return v

    def set_size(self, arr, n):
        self.st.mem[self.size_key(arr)] = n

    def read_loc(self, loc, t):
        if loc.op == "ite":
            return ite(loc.args[0], self.read_loc(loc.args[1], t), self.read_loc(loc.args[2], t))
        es = self.elem_split(loc)
        if es:
            arr, i = es
            v = self.st.mem.get(loc)
            if v is None:
                c = self.content(arr)
                v = sel(c, i, self.facts())
        else:
            v = self.lookup(loc)
        if is_unsigned(t) and v.op not in ("n", "poly"):
            self.nn.add(v)
        return v

    def write_loc(self, loc, v, t=None):
        if self.st is None:
            return
        if loc.op == "ite":
            for i in (1, 2):
                old = self.read_loc(loc.args[i], t)
                c = loc.args[0] if i == 1 else bnot(loc.args[0])
                self.write_loc(loc.args[i], ite(c, v, old), t)
            return
        es = self.elem_split(loc)
        if es:
            arr, i = es
            self.killalias(loc)
            self.killsub(loc)
            self.st.mem.pop(loc, None)
            c = self.content(arr)
            self.set_content(arr, store(c, i, v))
            return
        self.killalias(loc)
        self.killsub(loc)
        self.st.mem[loc] = v

    def copy_object(self, src, dst, move=False):
        """copy the object stored at src to dst (both locations)"""
        if src is dst or self.st is None:
            return
        if src.op == "ite":
            c = src.args[0]
            base = self.st
            a = base.clone()
            b = base.clone()
            self.st = a
            self.copy_object(src.args[1], dst)
            sa = self.st
            self.st = b
            self.copy_object(src.args[2], dst)
            sb = self.st
            sa.pc = base.pc + (c,)
            sb.pc = base.pc + (bnot(c),)
            self.st = self.merge(base.pc, [sa, sb])
            return
        if dst.op == "ite":
            self.havoc(dst.args[1])
            self.havoc(dst.args[2])
            return
        mem = self.st.mem
        subs = [(k, v) for k, v in mem.items() if k is not src and isprefix(src, k)]
        top = self.lookup(src)
        self.killalias(dst)
        self.killsub(dst)
        mem = self.st.mem
        mem[dst] = top
        for k, v in subs:
            mem[self.rebase(k, src, dst)] = v
        if dst in self.loc_ty or src in self.loc_ty:
            pass

    def rebase(self, k, src, dst):
        if k is src:
            return dst
        return mk("loc", self.rebase(k.args[0], src, dst), k.args[1], k.args[2])

    def havoc(self, loc, desc="h"):
        if self.st is None:
            return
        if loc.op == "ite":
            self.havoc(loc.args[1])
            self.havoc(loc.args[2])
            return
        self.killalias(loc)
        self.killsub(loc)
        es = self.elem_split(loc)
        if es:
            arr, i = es
            self.st.mem[loc] = fresh(desc)
            c = self.content(arr)
            self.set_content(arr, store(c, i, self.st.mem.pop(loc)))
        self.st.mem[loc] = fresh(desc)
        if es:
            # records: sub-fields read through the element binding
            pass

    # ------------------------------------------------------------ pointers
    def deref(self, p, i=ZERO):
        """location a pointer value designates (element i)"""
        if p.op == "ite":
            for a, b in ((p.args[1], p.args[2]), (p.args[2], p.args[1])):
                if self.nullbased(b) and not self.nullbased(a):
                    return self.deref(a, i)
            return mk("ite", p.args[0], self.deref(p.args[1], i), self.deref(p.args[2], i))
        if p.op == "ptr":
            b, k = p.args
            if k == "obj":
                if i is ZERO:
                    return b
                if b.op == "loc" and b.args[1] == "[]":
                    return loc_idx(b.args[0], add(b.args[2], i))
                return loc_idx(b, i)
            return loc_idx(b, add(k, i))
        return loc_idx(mk("deref", p), i)

    def nullbased(self, p):
        """the null pointer, or an offset from it"""
        return p is NULL or p.op == "ptr" and p.args[0].op == "deref" and self.nullbased(p.args[0].args[0])

    def addrof(self, loc):
        if loc.op == "ite":
            return ite(loc.args[0], self.addrof(loc.args[1]), self.addrof(loc.args[2]))
        if loc.op == "loc" and loc.args[1] == "[]":
            b = loc.args[0]
            if b.op == "deref" and loc.args[2] is ZERO:
                return b.args[0]
            return mk("ptr", b, loc.args[2])
        return mk("ptr", loc, "obj")

    def padd(self, p, i):
        if i is ZERO:
            return p
        if p.op == "ite":
            return ite(p.args[0], self.padd(p.args[1], i), self.padd(p.args[2], i))
        if p.op == "ptr":
            b, k = p.args
            if k == "obj":
                return self.addrof(self.deref(p, i))
            return mk("ptr", b, add(k, i)) if not (b.op == "deref" and add(k, i) is ZERO) else b.args[0]
        return mk("ptr", mk("deref", p), i)

    def psplit(self, p):
        if p.op == "ptr" and p.args[1] != "obj":
            return p.args[0], p.args[1]
        if p.op == "ptr":
            return p.args[0], ZERO
        if p.op == "ite":
            for a, b in ((p.args[1], p.args[2]), (p.args[2], p.args[1])):
                if self.nullbased(b) and not self.nullbased(a):
                    return self.psplit(a)
        return mk("deref", p), ZERO

    # ------------------------------------------------------------ merging
    def merge(self, base_pc, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        n = len(base_pc)
        g = [band(*s.pc[n:]) if s.pc[:n] == base_pc else band(*[l for l in s.pc if l not in base_pc]) for s in states]
        out = State({}, base_pc, ())
        # common suffix literals
        common = [l for l in states[0].pc if l not in base_pc and all(l in s.pc for s in states[1:])]
        tot = bor(*g)
        out.pc = base_pc
        self_lits = list(common)
        if tot is not TRUE:
            for l in (tot.args if tot.op == "and" else (tot,)):
                if l not in self_lits:
                    self_lits.append(l)
        out.pc = base_pc + tuple(l for l in self_lits if l not in base_pc)
        ls = [self.heldlocks(s) for s in states]
        lk = [l for l in ls[0] if all(l in x for x in ls[1:])]
        out.locks = tuple(lk)
        keys = {}
        for s in states:
            for k in s.mem:
                keys[k] = None
        mem = out.mem
        first = states[0].mem
        for k in keys:
            v0 = first.get(k)
            same = v0 is not None
            if same:
                for s in states[1:]:
                    if s.mem.get(k) is not v0:
                        same = False
                        break
            if same:
                mem[k] = v0
                continue
            v = None
            for s, c in reversed(list(zip(states, g))):
                x = self.lookup(k, s)
                v = x if v is None else ite(c, x, v)
            mem[k] = v
        return out

    # ------------------------------------------------------------ scopes / destructors
    def push_scope(self):
        self.frames[-1].scopes.append([])

    def pop_scope(self):
        sc = self.frames[-1].scopes.pop()
        self.run_dtors(sc)

    def run_dtors(self, sc):
        for loc, t, e in reversed(sc):
            if self.st is None:
                return
            self.destroy(loc, t, e)

    def unwind(self, depth):
        f = self.frames[-1]
        for sc in reversed(f.scopes[depth:]):
            if self.st is None:
                return
            self.run_dtors(list(sc))

    def declare(self, loc, t, e=None):
        if self.frames[-1].scopes:
            self.frames[-1].scopes[-1].append((loc, t, e))

    def destroy(self, loc, t, e=None):
        if t is None or t.k in ("ref", "ptr"):
            return
        self.models.destroy(self, loc, t, e)

    def record(self, t):
        r = t.tu.records.get(t.s)
        if r is None and t.s.startswith("const "):
            r = t.tu.records.get(t.s[6:])
        if r is None:
            for tu in self.tus:
                r = tu.records.get(t.s) or tu.records.get(t.s.replace("const ", "", 1))
                if r is not None:
                    return tu, r
            return None, None
        return t.tu, r

    # ------------------------------------------------------------ entry points
    def run(self, fn, args=None, this=None, mkthis=True, locks=(), env=None):
        """analyse function fn with symbolic arguments; returns (value/loc, final state)"""
        self.st = State({}, (), tuple(locks))
        tu = fn["_tu"]
        fr = Frame(fn, tu, None, fn["f"])
        if this is None and mkthis and fn.get("cls") and not fn.get("st"):
            this = mk("root", "this", "this")
        return self.invoke_body(fn, tu, this, args, None, fn["f"], symbolic=True)

    def sym_param(self, p, tu):
        t = ty(tu, p["t"])
        r = mk("root", "p", p["n"] or "arg")
        if t is not None and t.k == "ref":
            self.root_ty[r] = t.base
            return r, t
        self.root_ty[r] = t
        return r, t

    def invoke_body(self, fn, tu, this, args, caps_env, name, symbolic=False, e=None):
        """analyse the body of fn (params bound) in the current state"""
        fr = Frame(fn, tu, this, name)
        fr.rt = ty(tu, fn.get("rt"))
        if caps_env:
            fr.env.update(caps_env)
        self.frames.append(fr)
        self.stats["functions"].add("%s" % fn.get("key", name))
        fr.scopes.append([])
        if symbolic:
            for i, p in enumerate(fn["params"]):
                if args and i in args:
                    a = args[i]
                    if isinstance(a, LV):
                        fr.env[p["id"]] = (a.loc, ty(tu, p["t"]))
                    else:
                        r, t = self.sym_param(p, tu)
                        self.st.mem[r] = a
                        fr.env[p["id"]] = (r, t)
                else:
                    fr.env[p["id"]] = self.sym_param(p, tu)
        else:
            for p, a in zip(fn["params"], args):
                fr.env[p["id"]] = a
                if not (a[1] is not None and a[1].k == "ref"):
                    fr.scopes[-1].append((a[0], a[1], None))
        base_pc = self.st.pc
        nloops = len(self.loops)
        fr.base_pc = base_pc
        fr.nloops = nloops
        if fn.get("isctor"):
            self.ctor_inits(fn, tu, this)
        if fn.get("body") is not None and self.st is not None:
            self.stmt(fn["body"])
        if self.st is not None:
            self.unwind(0)
            if self.st is not None:
                fr.rets.append((self.st, None))
        self.frames.pop()
        rets = fr.rets
        if not rets:
            self.st = None
            return None
        states = [s for s, _ in rets]
        # a return inside a finished loop happens in some unknown iteration
        for s, _ in rets:
            s.pc = self.abstract_loops(s.pc, base_pc, nloops)
        if len(rets) == 1:
            self.st = states[0]
            return rets[0][1]
        n = len(base_pc)
        gs = [band(*s.pc[n:]) for s in states]
        self.st = self.merge(base_pc, states)
        vals = [v for _, v in rets]
        if all(v is None for v in vals):
            return None
        out = None
        for v, c in reversed(list(zip(vals, gs))):
            if v is None:
                continue
            if out is None:
                out = v
            elif out.op in ("root", "loc") or v.op in ("root", "loc"):
                out = v if v is out else mk("ite", c, v, out)
            else:
                out = ite(c, v, out)
        return out

    def abstract_loops(self, pc, base_pc, nloops):
        live = {l.k for l in self.loops[:nloops]}
        out = []
        grp = {}
        for l in pc:
            ks = [x for x in subterms(l) if x.op == "k" and x not in live]
            if not ks or l in base_pc:
                out.append(l)
            else:
                grp.setdefault(max(ks, key=lambda x: x.id), []).append(l)
        for k, ls in grp.items():
            out.append(mk("exists", k, band(*ls)))
        return tuple(out)

    def ctor_inits(self, fn, tu, this):
        for i in fn.get("inits", []):
            if self.st is None:
                return
            if i.get("e") is None:
                continue
            if i.get("base") is not None:
                self.init_loc(this, ty(tu, i["base"]), i["e"])
            elif i.get("deleg"):
                self.init_loc(this, None, i["e"])
            else:
                e = i["e"]
                ft = ty(tu, e.get("t"))
                if e.get("k") == "defarg":
                    ft = ty(tu, e["e"].get("t")) if isinstance(e.get("e"), dict) else ft
                self.init_field(this, i["n"], e, tu)

    def field_type(self, rec_t, n):
        tu, r = self.record(rec_t)
        if r:
            for f in r["fields"]:
                if f["n"] == n:
                    return ty(tu, f["t"])
        return None

    def init_field(self, this, n, e, tu):
        l = loc_field(this, n)
        # reference members hold an alias
        ft = None
        fn = self.frames[-1].fn
        cls = fn.get("cls")
        for s, r in tu.records.items():
            for f in r["fields"]:
                if f["n"] == n and e.get("t") is not None and r["name"] == cls:
                    ft = ty(tu, f["t"])
        if ft is not None and ft.k == "ref":
            v = self.eval(e)
            lv = self.as_loc(v, ty(tu, e.get("t")))
            self.st.mem[l] = mk("alias", lv)
            return
        self.init_loc(l, ft or ty(tu, e.get("t")), e)

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.st is None:
            return
        self.budget -= 1
        if self.budget < 0:
            raise Aborted("analysis budget exhausted")
        k = s["k"]
        if s.get("fi") is not None and self.frames:
            self.cur = s
            self.lastat = self.frames[-1].tu.loc(s)
        m = getattr(self, "s_" + k, None)
        if m:
            m(s)

    def s_block(self, s):
        self.push_scope()
        for x in s["b"]:
            self.stmt(x)
            if self.st is None:
                break
        if self.st is not None:
            self.pop_scope()
        else:
            self.frames[-1].scopes.pop()

    def s_nop(self, s):
        pass

    def s_otherstmt(self, s):
        pass

    def s_label(self, s):
        self.stmt(s["b"])

    def s_expr(self, s):
        self.eval(s["e"])

    def s_decl(self, s):
        for v in s["v"]:
            if self.st is None:
                return
            self.vardecl(v)

    def vardecl(self, v):
        fr = self.frames[-1]
        t = ty(fr.tu, v["t"])
        if v.get("static"):
            r = mk("root", "static", "%s::%s" % (fr.name, v["n"]))
            fr.env[v["id"]] = (r, t)
            return
        init = v.get("init")
        if t is not None and t.k == "ref":
            x = self.eval(init)
            if self.st is None:
                return
            fr.env[v["id"]] = (self.as_loc(x, t.base), t)
            if not isinstance(x, LV) and x is not None:
                self.declare(self.as_loc(x, t.base), t.base, v)
        else:
            r = self.newroot("v", v["n"], t)
            fr.env[v["id"]] = (r, t)
            if init is not None:
                self.init_loc(r, t, init)
            else:
                self.default_init(r, t)
            if self.st is None:
                return
            self.declare(r, t, v)
            self.ev("declare", r, None, v, ty=t)
        for b in v.get("bind") or []:
            if b.get("init"):
                x = self.eval(b["init"])
                fr.env[b["id"]] = (self.as_loc(x, None), None)

    def default_init(self, loc, t):
        if t is None or is_scalar(t):
            if t is not None and t.k == "rec" and recname(t.base).startswith(("std::shared_ptr",)):
                self.st.mem[loc] = NULL
            return
        self.models.default_init(self, loc, t)

    def s_if(self, s):
        self.stats["branches"] += 1
        self.push_scope()
        depth = len(self.frames[-1].scopes)
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("cvar"):
            self.vardecl(s["cvar"])
        if self.st is None:
            self.frames[-1].scopes.pop()
            return
        c = self.cond(s["c"])
        if self.st is not None:
            self.branch(c, lambda: self.stmt(s.get("a")), lambda: self.stmt(s.get("b")))
        if self.st is not None:
            self.pop_scope()
        else:
            self.frames[-1].scopes.pop()

    def branch(self, c, fa, fb):
        if self.st is None:
            return
        c = self.decide(c)
        if c is TRUE:
            fa()
            return
        if c is FALSE:
            fb()
            return
        base = self.st
        bpc = base.pc
        self.st = base.clone()
        self.assume(c)
        if self.st is not None:
            fa()
        a = self.st
        self.st = base
        self.assume(bnot(c))
        if self.st is not None:
            fb()
        b = self.st
        self.st = self.merge(bpc, [a, b])

    def returned_local(self, e):
        while isinstance(e, dict):
            if e.get("k") == "ctor" and (e.get("move") or e.get("copy")) and len(e.get("args") or ()) == 1:
                if e.get("copy") and not e.get("elid"):
                    return None
                e = e["args"][0]
            elif e.get("k") in ("expr", "cast", "init") and e.get("e") is not None:
                e = e["e"]
            else:
                break
        if isinstance(e, dict) and e.get("k") == "var" and e.get("sc") == "local":
            v = self.eval(e)
            if isinstance(v, LV):
                return v.loc
        return None

    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s.get("e") is not None:
            rt = fr.rt
            v = self.eval(s["e"])
            if self.st is None:
                return
            if rt is not None and rt.k == "ref":
                v = self.as_loc(v, rt.base)
            elif isinstance(v, LV) or (v is not None and v.op in ("root", "loc") or (v is not None and v.op == "ite" and v.args[1].op in ("root", "loc"))):
                if rt is not None and not is_scalar(rt):
                    src = v.loc if isinstance(v, LV) else v
                    tmp = self.newroot("tmp", "ret", rt)
                    self.copy_object(src, tmp)
                    v = tmp
                else:
                    v = self.rv(v)
            self.ev("return", None, v, s)
            gone = self.returned_local(s["e"])
            if gone is not None:
                # the local has been moved into the result (or is the result)
                for sc in fr.scopes:
                    sc[:] = [x for x in sc if x[0] is not gone]
        n = len(fr.scopes)
        self.unwind(0)
        if self.st is not None:
            fr.rets.append((self.st, v))
        self.st = None

    def s_break(self, s):
        fr = self.frames[-1]
        l = self.loops_local()
        if l is None:
            return
        self.unwind(l.depth)
        if self.st is not None:
            l.breaks.append(self.st)
        self.st = None

    def s_continue(self, s):
        l = self.loops_local(loop=True)
        if l is None:
            return
        self.unwind(l.depth)
        if self.st is not None:
            l.conts.append(self.st)
        self.st = None

    def loops_local(self, loop=False):
        st = getattr(self.frames[-1], "lstack", [])
        for l in reversed(st):
            if loop and l.isswitch:
                continue
            return l
        return None

    def lpush(self, l):
        f = self.frames[-1]
        if not hasattr(f, "lstack"):
            f.lstack = []
        f.lstack.append(l)

    def lpop(self):
        self.frames[-1].lstack.pop()

    def s_switch(self, s):
        v = self.rv(self.eval(s["c"]))
        if self.st is None:
            return
        cases = []
        body = s["b"]
        items = body["b"] if body and body["k"] == "block" else [body]
        # flatten nested case labels
        flat = []
        for it in items:
            while it is not None and it["k"] in ("case", "default"):
                flat.append(("L", it))
                it = it.get("b")
            if it is not None:
                flat.append(("S", it))
        l = Loop(self.nextuid(), None, len(self.frames[-1].scopes) + 1)
        l.isswitch = True
        self.lpush(l)
        self.push_scope()
        base = self.st
        bpc = base.pc
        labels = [x for k, x in flat if k == "L"]
        conds = {}
        neg_all = []
        for x in labels:
            if x["k"] == "case":
                c = eq(v, self.rv(self.eval(x["v"])))
                conds[id(x)] = self.decide(c)
                neg_all.append(bnot(c))
        cur = None
        for k, x in flat:
            if k == "L":
                c = conds[id(x)] if x["k"] == "case" else self.decide(band(*neg_all))
                ent = base.clone()
                self.st = ent
                self.assume(c)
                ent = self.st
                self.st = self.merge(bpc, [cur, ent])
                cur = self.st
            else:
                self.st = cur
                self.stmt(x)
                cur = self.st
        outs = [cur]
        if not any(x["k"] == "default" for x in labels):
            self.st = base.clone()
            self.assume(self.decide(band(*neg_all)))
            outs.append(self.st)
        self.lpop()
        self.frames[-1].scopes.pop()
        self.st = self.merge(bpc, outs + l.breaks)

    def s_case(self, s):
        self.stmt(s.get("b"))

    s_default = s_case

    def s_try(self, s):
        base = self.st.clone()
        n0 = len(self.events)
        self.trydepth = getattr(self, "trydepth", 0) + 1
        self.ev("try", None, None, s, handlers=s["h"])
        self.stmt(s["b"])
        self.trydepth -= 1
        self.ev("tryend", None, None, s)
        after = self.st
        outs = [after]
        bpc = base.pc
        exc = mk("exc", self.nextuid())
        BOOL.add("exc")
        if after is not None:
            after.pc = bpc + (bnot(exc),) + tuple(l for l in after.pc if l not in bpc)
        for i, h in enumerate(s["h"]):
            st = base.clone()
            if after is not None:
                for k, v in after.mem.items():
                    if self.lookup(k, base) is not v:
                        st.mem[k] = fresh("exc")
            self.st = st
            st.pc = bpc + (exc,) + ((mk("eq0", mk("excn", exc, i)),) if len(s["h"]) > 1 else ())
            fr = self.frames[-1]
            self.ev("catch", None, None, h["b"], all=h.get("all"), t=(ty(fr.tu, h["t"]).s if h.get("t") is not None else "..."))
            if h.get("var"):
                v = h["var"]
                r = self.newroot("v", v["n"] or "exc")
                fr.env[v["id"]] = (r, ty(fr.tu, v["t"]))
            self.stmt(h["b"])
            self.ev("catchend", None, None, h["b"])
            outs.append(self.st)
        self.st = self.merge(bpc, outs)

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        self.push_scope()
        if s.get("init"):
            self.stmt(s["init"])
        if self.st is not None:
            self.loop(s, lambda: self.cond(s["c"]) if s.get("c") else TRUE,
                      lambda: self.stmt(s.get("b")),
                      (lambda: self.eval(s["inc"])) if s.get("inc") else None)
        if self.st is not None:
            self.pop_scope()
        else:
            self.frames[-1].scopes.pop()

    def s_while(self, s):
        self.loop(s, lambda: self.cond(s["c"]), lambda: self.stmt(s.get("b")), None)

    def s_do(self, s):
        # body; while (c) body  ==  loop { body; if (!c) break; }
        def body():
            self.stmt(s.get("b"))
            # continue jumps to the condition
            l = self.loops_local(loop=True)
            if l is not None and l.conts:
                bpc = l.head_pc
                sts = l.conts + [self.st]
                l.conts = []
                self.st = self.merge(bpc, sts)
            if self.st is None:
                return
            c = self.decide(self.cond(s["c"]))
            if self.st is None:
                return
            l = self.loops_local(loop=True)
            if c is TRUE:
                return
            ex = self.st.clone()
            keep = self.st
            self.st = ex
            self.assume(bnot(c))
            if self.st is not None:
                l.breaks.append(self.st)
            self.st = keep
            self.assume(c)
        self.loop(s, lambda: TRUE, body, None)

    def s_rfor(self, s):
        fr = self.frames[-1]
        self.push_scope()
        rng = self.eval(s["range"])
        if self.st is None:
            self.frames[-1].scopes.pop()
            return
        rt = ty(fr.tu, s["range"].get("t"))
        rl = self.as_loc(rng, rt)
        n, elem, et = self.models.range_of(self, rl, rt)
        idx = self.newroot("v", "$i")
        self.st.mem[idx] = ZERO
        self.nn.add(mk("val", idx))

        def cond():
            return lt(self.st.mem[idx], n())

        def body():
            i = self.st.mem[idx]
            v = s["var"]
            t = ty(fr.tu, v["t"])
            l = elem(i)
            self.ev("iter", l, None, s)
            if t.k == "ref":
                fr.env[v["id"]] = (l, t)
            else:
                r = self.newroot("v", v["n"], t)
                fr.env[v["id"]] = (r, t)
                self.assign_from(r, t, LV(l, et))
            for b in v.get("bind") or []:
                if b.get("init"):
                    x = self.eval(b["init"])
                    fr.env[b["id"]] = (self.as_loc(x, None), None)
            self.stmt(s.get("b"))

        def inc():
            self.st.mem[idx] = add(self.st.mem[idx], ONE)
        self.loop(s, cond, body, inc)
        if self.st is not None:
            self.pop_scope()
        else:
            self.frames[-1].scopes.pop()

    def body_once(self, l, condf, bodyf, incf, record_head=None):
        """one iteration from the current (head) state; returns (exit_state, next_state)"""
        bpc = self.st.pc
        l.breaks, l.conts = [], []
        c = condf()
        if self.st is None:
            return None, None, c
        c = self.decide(c)
        ex = None
        if c is not TRUE:
            ex = self.st.clone()
            keep = self.st
            self.st = ex
            self.assume(bnot(c))
            ex = self.st
            self.st = keep
        self.assume(c)
        l.head_pc = bpc
        if self.st is not None:
            bodyf()
        nxt = self.merge(bpc, l.conts + [self.st])
        self.st = nxt
        if self.st is not None and incf:
            incf()
        return ex, self.st, c

    def loop(self, s, condf, bodyf, incf):
        self.stats["loops"] += 1
        fr = self.frames[-1]
        mark = self.uid
        entry = self.st
        lid = "%s:%s" % (self.at(s), s.get("id"))
        depth = len(fr.scopes)
        # -- small constant loops are unrolled
        if self.try_unroll(s, entry, condf, bodyf, incf, depth):
            return
        uid = self.nextuid()
        K = mk("k", uid)
        loop = Loop(uid, K, depth)
        nrets = len(fr.rets)
        u0, q0, f0 = self.uid, self.seq, TT._fresh[0]

        def old(k):
            r = rootof(k)
            return not (r.op == "root" and len(r.args) > 2 and r.args[2] > mark)

        def dry(head):
            self.mute += 1
            self.loops.append(loop)
            self.lpush(loop)
            # every pass names its objects alike
            self.uid, self.seq, TT._fresh[0] = u0, q0 + 1, f0
            allrets = [len(f.rets) for f in self.frames]
            self.st = head.clone()
            ex, nxt, c = self.body_once(loop, condf, bodyf, incf)
            brk = list(loop.breaks)
            rets = fr.rets[nrets:]
            for f, n in zip(self.frames, allrets):
                del f.rets[n:]
            self.lpop()
            self.loops.pop()
            self.mute -= 1
            return ex, nxt, c, brk, [r for r, _ in rets]

        def variant(i):
            for x in subterms(i):
                o = x.op
                if o in ("k", "phi", "phiend", "trip"):
                    if x.args[0] >= uid:
                        return True
                elif o == "u":
                    if x.args[0] > f0:
                        return True
                elif o in ("aload", "armw"):
                    return True
                elif o == "root" and len(x.args) > 2 and x.args[2] > mark:
                    return True
            return False

        def norm(k):
            """a changed location; elements at loop dependent indices stand for the whole array"""
            r, st = steps(k)
            for x in st:
                if x.args[1] == "[]" and variant(x.args[2]):
                    return wild(x.args[0])
            return k

        def changed(head, nxt, modified):
            new = {}
            if nxt is None:
                return new
            ws = [m for m in modified if m.op == "loc" and m.args[1] == "[*]"]

            def add1(k):
                if not old(k) or k in modified or any(covers(w, k) for w in ws):
                    return
                n = norm(k)
                if n is not k:
                    if n in modified or n in new:
                        return
                    ws.append(n)
                new[n] = None
            for k, v in nxt.mem.items():
                if self.lookup(k, head) is not v:
                    add1(k)
            for k in head.mem:
                if k not in nxt.mem:
                    add1(k)
            return new

        site = (id(s), uid, tuple(id(f.fn) for f in self.frames))
        memo = self.loopmemo.get(site)
        cached = None
        modified, induct = {}, {}
        if memo is not None:
            modified = dict(memo[0])
            induct = self.induct_from(memo[1], entry, K)
            ok = True
            if self.mute:
                # one optimistic pass, checked below
                cached = True
            else:
                head = entry.clone()
                self.bind_phis(head, modified, uid, induct, K)
                head.pc = entry.pc + (ge0(K),)
                ex, nxt, c, brk, rets = dry(head)
                if self.check_induct(head, nxt, modified, induct, memo[1], K, uid, changed):
                    cached = True
            if not cached:
                modified, induct = {}, {}
        if not cached:
            modified, induct = self.classify(entry, uid, K, dry, changed)
        # -- recorded pass
        head = entry.clone()
        self.bind_phis(head, modified, uid, induct, K)
        head.pc = entry.pc
        self.st = head.clone()
        self.st.pc = entry.pc
        self.mute += 1
        c0 = condf()
        self.mute -= 1
        trip = self.trip_count(c0, K, entry)
        loop.trip = trip
        self.st = head
        self.st.pc = entry.pc
        self.loops.append(loop)
        self.lpush(loop)
        self.ev("loop", None, trip, s, loop=loop)
        ex, nxt, c, = None, None, None
        r0 = len(fr.rets)
        allr0 = [len(f.rets) for f in self.frames]
        self.uid, self.seq, TT._fresh[0] = u0, q0 + 1, f0
        ex, nxt, c = self.body_once(loop, condf, bodyf, incf)
        brk = list(loop.breaks)
        self.lpop()
        self.loops.pop()
        if cached and self.mute and \
                not self.check_induct(head, nxt, modified, induct, memo[1], K, uid, changed):
            # the remembered classification does not fit this pass
            del self.loopmemo[site]
            for f, n in zip(self.frames, allr0):
                del f.rets[n:]
            self.st = entry
            self.uid, self.seq, TT._fresh[0] = mark, q0, f0
            return self.loop(s, condf, bodyf, incf)
        if not cached:
            self.loopmemo[site] = (dict.fromkeys(modified), {k: self.steps.get((uid, k)) for k in induct})
        self.rec[uid] = dict(
            K=K, guard=c, trip=trip, nbase=len(entry.pc),
            eqs={self.phi(uid, k): (self.lookup(k, entry), self.lookup(k, nxt) if nxt is not None else None)
                 for k in modified if k not in induct},
            brk=[band(*[l for l in b.pc if l not in entry.pc]) for b in brk],
            rets=[band(*[l for l in r.pc if l not in entry.pc]) for r, _ in fr.rets[r0:]])
        tripv = trip if trip is not None and not brk else mk("trip", uid)
        # -- state after normal termination
        outs = []
        if ex is not None:
            after = entry.clone()
            for k in modified:
                after.mem[k] = self.after_value(k, entry, nxt, uid, K, tripv, induct, trip is not None)
            for k in list(after.mem):
                if k not in modified and any(covers(m, k) and m is not k for m in modified):
                    del after.mem[k]
            self.st = after
            self.mute += 1
            ca = condf()
            self.mute -= 1
            if self.st is not None:
                after = self.st
                if not brk:
                    ca = bnot(ca)
                    for l in (ca.args if ca.op == "and" else (ca,)):
                        if l is not TRUE and l is not FALSE and l not in after.pc:
                            after.pc = after.pc + (l,)
                outs.append(after)
        if brk:
            b = mk("brk", uid)
            BOOL.add("brk")
            bst = self.merge(entry.pc, brk)
            suffix = [l for l in bst.pc if l not in entry.pc]
            # values at the breaking iteration: K is some iteration
            bst.pc = entry.pc + (b,) + tuple(l for l in suffix if not contains(l, K))
            if suffix and any(contains(l, K) for l in suffix):
                bst.pc = bst.pc + (mk("exists", K, band(*[l for l in suffix if contains(l, K)])),)
            for k in list(bst.mem):
                if not old(k) and False:
                    del bst.mem[k]
            for o in outs:
                o.pc = entry.pc + (bnot(b),) + tuple(l for l in o.pc if l not in entry.pc)
            outs.append(bst)
        self.st = self.merge(entry.pc, outs) if outs else None
        if self.st is not None and brk:
            self.st.pc = entry.pc

    def classify(self, entry, uid, K, dry, changed):
        """locations a loop changes, and those with a closed form in the iteration number"""
        modified = {}
        for it in range(8):
            head = entry.clone()
            self.bind_phis(head, modified, uid)
            head.pc = entry.pc + (ge0(K),)
            ex, nxt, c, brk, rets = dry(head)
            new = changed(head, nxt, modified)
            if not new:
                break
            modified.update(new)
            ws = [m for m in new if m.op == "loc" and m.args[1] == "[*]"]
            if ws:
                for k in [k for k in modified if any(w is not k and covers(w, k) for w in ws)]:
                    del modified[k]
        induct = {}
        for rnd in range(4):
            if rnd:
                head = entry.clone()
                self.bind_phis(head, modified, uid, induct, K)
                head.pc = entry.pc + (ge0(K),)
                ex, nxt, c, brk, rets = dry(head)
            if nxt is None:
                break
            grew = False
            for k in modified:
                if k in induct:
                    continue
                p = self.phi(uid, k)
                e = self.lookup(k, nxt)
                if e is p:
                    step = ("num", ZERO)
                else:
                    step = self.step_of(e, p, uid)
                if step is not None:
                    self.steps[(uid, k)] = step
                    induct.update(self.induct_from({k: step}, entry, K))
                    grew = True
            if not grew:
                break
        return modified, induct

    def induct_from(self, steps, entry, K):
        out = {}
        for k, step in steps.items():
            i0 = self.lookup(k, entry)
            if step is None or (step[1] is ZERO):
                out[k] = i0
            elif step[0] == "num":
                out[k] = add(i0, mul(step[1], K))
            else:
                out[k] = self.padd(i0, mul(step[1], K))
        return out

    def check_induct(self, head, nxt, modified, induct, steps, K, uid, changed):
        """do the remembered changed locations and steps describe this pass?"""
        if nxt is None:
            return True
        if changed(head, nxt, modified):
            return False
        m = {K: add(K, ONE)}
        for k, v in induct.items():
            if self.lookup(k, nxt) is not subst(v, m):
                return False
        for k in modified:
            if k not in induct:
                p = self.phi(uid, k)
                e = self.lookup(k, nxt)
                if e is p or self.step_of(e, p, uid) is not None:
                    return False
        return True

    def phi(self, uid, k):
        p = mk("phi", uid, k)
        return p

    def bind_phis(self, head, modified, uid, induct=None, K=None):
        for k in modified:
            for x in [x for x in head.mem if x is not k and covers(k, x) and x not in modified]:
                del head.mem[x]
        for k in modified:
            if induct is not None and k in induct:
                head.mem[k] = induct[k]
            else:
                p = self.phi(uid, k)
                head.mem[k] = p
                if k.op == "loc" and k.args[1] == "#":
                    self.nn.add(p)
                elif k in self.root_ty and is_unsigned(self.root_ty[k]):
                    self.nn.add(p)

    def step_of(self, e, p, uid):
        d = sub(e, p) if e.op in ("poly", "n") or e is p else None
        if d is not None and not any(x.op in ("phi", "k") and x.args[0] == uid for x in subterms(d)):
            # fresh values differ in every iteration
            if not self.hidden_dep(d, uid):
                return ("num", d)
        if e.op == "ptr" and e.args[0].op == "deref" and e.args[0].args[0] is p and e.args[1] != "obj":
            return ("ptr", e.args[1])
        return None

    def trip_count(self, c, K, entry):
        """number of iterations if the guard has the form K*s + a < b"""
        lits = c.args if c.op == "and" else (c,)
        if len(lits) != 1:
            return None
        c = lits[0]
        if c.op == "gt0":
            p, strict = c.args[0], 1
        elif c.op == "not" and c.args[0].op == "gt0":
            p, strict = sub(ONE, c.args[0].args[0]), 1      # p' <= 0  <=>  1-p' > 0
        elif c.op == "not" and c.args[0].op == "eq0":
            p = c.args[0].args[0]
            d = todict(p)
            co = d.get((K,), 0)
            if co in (1, -1) and not any(K in m and m != (K,) for m in d):
                rest = sub(p, mul(num(co), K))
                if any(contains(x, K) for x in children(rest) if x is not K):
                    return None
                return mul(num(-co), rest)
            return None
        else:
            return None
        d = todict(p)
        co = d.get((K,), 0)
        if any((K in m and m != (K,)) or any(contains(a, K) and a is not K for a in m) for m in d):
            return None
        if any(x.op == "phi" and x.args[0] == K.args[0] for x in subterms(p)):
            return None
        rest = sub(p, mul(num(co), K))
        if co == -1:
            return rest
        if isinstance(co, int) and co < -1:
            return idiv(add(rest, num(-co - 1)), num(-co))
        return None

    def after_value(self, k, entry, nxt, uid, K, trip, induct, exact):
        i0 = self.lookup(k, entry)
        if k in induct:
            return subst(induct[k], {K: trip})
        p = self.phi(uid, k)
        if nxt is None:
            return i0
        e = self.lookup(k, nxt)
        if self.hidden_dep(e, uid):
            v = mk("phiend", uid, k)
            if k.op == "loc" and k.args[1] == "#":
                self.nn.add(v)
            return v
        if k.op == "loc" and k.args[1] == "@":
            r = self.array_after(e, p, i0, K, trip, uid, nxt)
            if r is not None:
                return r
        # additive reduction
        g = None
        if e.op == "poly" and todict(e).get((p,), 0) == 1:
            g = sub(e, p)
        elif e.op == "ite":
            a, b = e.args[1], e.args[2]
            da = sub(a, p) if not (a.op in BOOL or a.op == "ptr") else None
            db = sub(b, p) if not (b.op in BOOL or b.op == "ptr") else None
            if da is not None and db is not None and not contains(da, p) and not contains(db, p):
                g = ite(e.args[0], da, db)
        if g is not None and not contains(g, p):
            others = [x for x in subterms(g) if x.op == "phi" and x.args[0] == uid]
            if not others:
                return add(i0, self.mksum(g, K, trip))
        if e.op == "ite" and e.args[2] is p or e.op == "ite" and e.args[1] is p:
            x = e.args[1] if e.args[2] is p else e.args[2]
            c = e.args[0] if e.args[2] is p else bnot(e.args[0])
            if not contains(x, p):
                if c is lt(p, x) or c is le(p, x) or c is lt(p, x, False) or c is le(p, x, False):
                    return mk("Max", i0, self.mklam(x, K), trip)
                if c is lt(x, p) or c is le(x, p) or c is lt(x, p, False) or c is le(x, p, False):
                    return mk("Min", i0, self.mklam(x, K), trip)
        if e in BOOL or e.op in BOOL:
            pass
        v = mk("phiend", uid, k)
        if k.op == "loc" and k.args[1] == "#":
            self.nn.add(v)
        return v

    def hidden_dep(self, t, uid):
        """may t differ between iterations of loop uid without naming its iteration number?"""
        for x in subterms(t):
            if x.op in ("phiend", "trip", "brk", "phi", "exists", "k"):
                u = x.args[0] if x.op != "exists" else x.args[0].args[0]
                if isinstance(u, int) and u > uid:
                    return True
            elif x.op in ("u", "aload", "armw"):
                return True
        return False

    def mklam(self, body, K):
        ph = mk("ph", K.args[0])
        return mk("lam", ph, subst(body, {K: ph}))

    def mksum(self, g, K, trip):
        if not contains(g, K):
            return mul(trip, g)
        return mk("Sum", self.mklam(g, K), trip)

    def array_after(self, e, p, i0, K, trip, uid, nxt):
        """closed form of an array updated in a loop; p is the value at the loop head"""
        if e.op == "ite" and (e.args[1] is p or e.args[2] is p):
            other = e.args[2] if e.args[1] is p else e.args[1]
            c = e.args[0] if e.args[2] is p else bnot(e.args[0])
            if other.op == "store" and other.args[0] is p:
                e = store(p, other.args[1], ite(c, other.args[2], sel(p, other.args[1])))
        segs = []          # (lo, hi, ph, body) in order of application
        x = e
        while x is not p:
            if x.op == "store":
                ph = mk("ph", self.nextuid(), "s")
                segs.append((x.args[1], add(x.args[1], ONE), ph, x.args[2]))
                x = x.args[0]
            elif x.op == "upd":
                segs.append((x.args[1], x.args[2], x.args[3], x.args[4]))
                x = x.args[0]
            elif x.op == "fill" and not segs:
                return None
            else:
                return None
        segs.reverse()
        if not segs:
            return i0
        f = Facts(nxt.pc, self.isnn)
        cover = [(segs[0][0], segs[0][1])]
        lo, hi, ph, body = segs[0]
        # reads of the array inside the body must be of the same element
        def own(b, idx, ph):
            for y in subterms(b):
                if y.op == "sel" and contains(y.args[0], p):
                    if y.args[1] is not idx and y.args[1] is not ph:
                        return False
                elif y is p:
                    pass
            return True
        P = mk("ph", uid, "w")
        cur_lo, cur_hi, cur_body = lo, hi, None
        def norm(lo, hi, ph, body):
            if sub(hi, lo) is ONE and lo is not ph:
                if not own(body, lo, ph):
                    return None
                b = body
                # the stored value as a function of the index
                return ("pt", lo, b)
            if not own(body, ph, ph):
                return None
            return ("fn", lo, subst(body, {ph: P}))
        n0 = norm(*segs[0])
        if n0 is None:
            return None
        kind, _, b = n0
        if len(segs) == 1 and kind == "pt":
            d = todict(lo)
            # index must advance by a constant step of one per iteration
            nxtlo = subst(lo, {K: add(K, ONE)})
            st = sub(nxtlo, lo)
            if st is ONE or st is num(-1):
                l0 = subst(lo, {K: ZERO})
                kk = sub(P, l0) if st is ONE else sub(l0, P)
                bb = subst(b, {K: kk})
                bb = self.deself(bb, p, i0, P)
                if bb is None:
                    return None
                if st is ONE:
                    return self.mkupd(i0, l0, add(l0, trip), P, bb)
                return self.mkupd(i0, add(sub(l0, trip), ONE), add(l0, ONE), P, bb)
            if not contains(lo, K) and not contains(b, p):
                return None
            return None
        # several adjacent ranges
        total_lo, total_hi = lo, hi
        body_acc = b if kind == "fn" else None
        if kind == "pt":
            body_acc = subst(b, {lo: P}) if lo.op != "n" else b
            if contains(b, p):
                body_acc = self.replace_sel(b, p, lo, P)
        for sg in segs[1:]:
            n1 = norm(*sg)
            if n1 is None:
                return None
            if not (f.eq0(sub(sg[0], total_hi)) or sub(sg[0], total_hi) is ZERO):
                # same range: composition
                if sub(sg[0], total_lo) is ZERO and sub(sg[1], total_hi) is ZERO and n1[0] == "fn":
                    return None
                return None
            b1 = n1[2] if n1[0] == "fn" else self.replace_sel(n1[2], p, sg[0], P)
            body_acc = ite(lt(P, sg[0]), body_acc, b1)
            total_hi = sg[1]
        lo, hi = total_lo, total_hi
        nl = subst(lo, {K: add(K, ONE)})
        step = sub(nl, lo)
        if sub(nl, hi) is ZERO or f.eq0(sub(nl, hi)):
            if contains(step, K):
                return None
            l0 = subst(lo, {K: ZERO})
            bb = subst(body_acc, {K: idiv(sub(P, l0), step)})
            bb = self.deself(bb, p, i0, P)
            if bb is None:
                return None
            return self.mkupd(i0, l0, add(l0, mul(step, trip)), P, bb)
        if not contains(lo, K) and not contains(hi, K):
            # the same range rewritten in every iteration with an iteration independent value
            if not contains(body_acc, K) and not contains(body_acc, p):
                return self.mkupd(i0, lo, hi, P, body_acc)
        return None

    def replace_sel(self, b, p, idx, P):
        return rebuild(b, lambda x: mk("sel", x.args[0], P) if x.op == "sel" and contains(x.args[0], p) and x.args[1] is idx else x)

    def deself(self, b, p, i0, P):
        """replace reads of the loop-head array by reads of the array before the loop"""
        def f(x):
            return x
        m = {}
        for y in subterms(b):
            if y.op == "sel" and y.args[0] is p:
                m[y] = mk("sel", i0, P) if i0.op in ("upd",) else sel(i0, P)
        r = subst(b, m) if m else b
        if contains(r, p):
            return None
        return r

    def mkupd(self, base, lo, hi, ph, body):
        # rename the bound index so equal updates share one term
        B = mk("ph", "i")
        if any(x.op == "upd" for x in subterms(body)) and contains(body, B):
            B = mk("ph", "i%d" % self.nextuid())
        elif contains(body, B):
            B = mk("ph", "i%d" % self.nextuid())
        return mk("upd", base, lo, hi, B, subst(body, {ph: B}))

    def try_unroll(self, s, entry, condf, bodyf, incf, depth):
        fr = self.frames[-1]
        # cheap test: the guard must be decided without unknowns
        self.st = entry.clone()
        self.mute += 1
        c = condf()
        c = self.decide(c) if self.st is not None else TRUE
        self.mute -= 1
        self.st = entry
        if c is FALSE:
            condf()
            return True
        if c is not TRUE:
            return False
        e = s.get("c")
        if s["k"] in ("while", "do") or (s["k"] == "for" and not s.get("c")):
            return False

        def attempt():
            outs = []
            for i in range(17):
                l = Loop(self.nextuid(), None, depth)
                if self.st is None:
                    break
                bpc = self.st.pc
                c = condf()
                if self.st is None:
                    break
                c = self.decide(c)
                if c is FALSE:
                    outs.append(self.st)
                    self.st = None
                    break
                if c is not TRUE or i == 16:
                    return None
                l.head_pc = bpc
                self.lpush(l)
                bodyf()
                self.lpop()
                self.st = self.merge(bpc, l.conts + [self.st])
                outs.extend(l.breaks)
                if self.st is not None and incf:
                    incf()
            return outs
        self.mute += 1
        rets = [len(f.rets) for f in self.frames]
        self.st = entry.clone()
        r = attempt()
        for f, n in zip(self.frames, rets):
            del f.rets[n:]
        self.mute -= 1
        self.st = entry
        if r is None:
            return False
        bpc = entry.pc
        outs = attempt()
        self.st = self.merge(bpc, outs)
        return True

    # ------------------------------------------------------------ expressions
    def tyof(self, e):
        return ty(self.frames[-1].tu, e.get("t")) if e else None

    def rv(self, v):
        """value of an evaluated expression"""
        if isinstance(v, LV):
            if self.st is None:
                return ZERO
            if v.ty is not None and not is_scalar(v.ty):
                return v.loc
            self.access("read", v.loc, v.ty)
            x = self.read_loc(v.loc, v.ty)
            if x.op == "alias":
                return self.rv(LV(x.args[0], v.ty))
            return x
        return v if v is not None else ZERO

    def as_loc(self, v, t=None):
        if isinstance(v, LV):
            return v.loc
        if v is not None and (v.op in ("root", "loc") or (v.op == "ite" and v.args[1].op in ("root", "loc", "ite") and self.is_locite(v))):
            return v
        r = self.newroot("tmp", "t", t)
        if self.st is not None and v is not None:
            self.st.mem[r] = v
        return r

    def is_locite(self, v):
        if v.op == "ite":
            return self.is_locite(v.args[1]) and self.is_locite(v.args[2])
        return v.op in ("root", "loc")

    def access(self, kind, loc, t=None, val=None, how=None):
        if not self.rec_access or self.mute:
            self.seq += 1
            return
        r = rootof(loc) if loc.op != "ite" else loc
        if r.op == "root" and r.args[0] in ("tmp",):
            return
        self.ev(kind, loc, val, getattr(self, "cure", None), how=how, ty=t)

    def cond(self, e):
        return tobool(self.rv(self.eval(e)))

    def eval(self, e):
        if e is None or self.st is None:
            return ZERO
        self.budget -= 1
        if self.budget < 0:
            raise Aborted("analysis budget exhausted")
        if e.get("fi") is not None:
            self.cure = e
            self.lastat = self.frames[-1].tu.loc(e)
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return fresh(k)
        return m(e)

    def val(self, e):
        return self.rv(self.eval(e))

    def e_lit(self, e):
        v = e.get("cv")
        if v is None:
            return fresh("lit")
        t = self.tyof(e)
        if t is not None and t.k == "bool":
            return TRUE if int(v) else FALSE
        return num(int(v))

    def e_flit(self, e):
        return num(float(e["v"]))

    def e_str(self, e):
        return mk("str", e.get("v", "?"))

    def e_null(self, e):
        return NULL

    def e_enumc(self, e):
        return num(int(e["cv"]))

    def e_zero(self, e):
        t = self.tyof(e)
        if t is not None and not is_scalar(t):
            r = self.newroot("tmp0", "zero", t)
            return r
        if t is not None and t.k == "ptr":
            return NULL
        if t is not None and t.k == "bool":
            return FALSE
        return ZERO

    def e_sizeof(self, e):
        if e.get("cv") is not None:
            return num(int(e["cv"]))
        return fresh("sizeof")

    def e_this(self, e):
        th = self.frames[-1].this
        if th is None:
            th = mk("root", "this", "this")
        return mk("ptr", th, "obj")

    def var_loc(self, e):
        for f in (self.frames[-1],):
            x = f.env.get(e["id"])
            if x is not None:
                return x
        sc = e.get("sc")
        t = ty(self.frames[-1].tu, e.get("vt")) or self.tyof(e)
        if sc in ("global", "static", "slocal"):
            return (mk("root", "global", e["n"]), t)
        # captured variable outside of its closure
        return (mk("root", "free", e["n"]), t)

    def e_var(self, e):
        if e.get("cv") is not None and e.get("sc") in ("global", "static"):
            return num(int(e["cv"]))
        loc, t = self.var_loc(e)
        t2 = self.tyof(e)
        return LV(loc, t2 if t2 is not None else (t.base if t else None))

    def e_mem(self, e):
        if e.get("arrow"):
            p = self.val(e["b"])
            b = self.deref(p)
        else:
            b = self.as_loc(self.eval(e["b"]), self.tyof(e["b"]))
        if self.st is None:
            return ZERO
        if b.op == "ite":
            l = mk("ite", b.args[0], self.field_loc(b.args[1], e["n"]), self.field_loc(b.args[2], e["n"]))
        else:
            l = self.field_loc(b, e["n"])
        # reference members are aliases
        if l.op == "loc":
            v = self.st.mem.get(l)
            if v is not None and v.op == "alias":
                return LV(v.args[0], self.tyof(e))
        return LV(l, self.tyof(e))

    def field_loc(self, b, n):
        if b.op == "ite":
            return mk("ite", b.args[0], self.field_loc(b.args[1], n), self.field_loc(b.args[2], n))
        return loc_field(b, n)

    def e_idx(self, e):
        p = self.eval(e["b"])
        i = self.val(e["i"])
        if self.st is None:
            return ZERO
        bt = self.tyof(e["b"])
        if isinstance(p, LV) and p.ty is not None and p.ty.k == "arr":
            l = loc_idx(p.loc, i)
        else:
            p = self.rv(p)
            if p.op in ("root", "loc"):
                l = loc_idx(p, i)
            else:
                l = self.deref(p, i)
        self.ev("index", l, i, e, how="raw", ty=self.tyof(e))
        return LV(l, self.tyof(e))

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            x = self.eval(e["e"])
            if isinstance(x, LV):
                return self.addrof(x.loc)
            if x.op in ("root", "loc"):
                return self.addrof(x)
            return x
        if op == "*":
            p = self.val(e["e"])
            if p.op in ("clo", "fn"):
                return p
            l = self.deref(p)
            self.ev("index", l, ZERO, e, how="deref", ty=self.tyof(e))
            return LV(l, self.tyof(e))
        if op in ("++", "--", "p++", "p--"):
            x = self.eval(e["e"])
            if not isinstance(x, LV):
                return fresh("inc")
            o = self.rv(x)
            if self.st is None:
                return ZERO
            t = x.ty
            d = ONE if op.endswith("++") else num(-1)
            if t is not None and t.k == "ptr":
                n = self.padd(o, d)
            elif t is not None and t.k == "bool":
                n = TRUE
            else:
                n = add(o, d)
                if t is not None and t.k == "int" and (t.base.raw.get("w") or 64) < 32:
                    self.ev("narrow", None, n, e, w=t.base.raw.get("w"), sg=t.base.raw.get("sg"))
            self.access("write", x.loc, t, n)
            self.write_loc(x.loc, n, t)
            return o if op[0] == "p" else x
        v = self.val(e["e"])
        if op == "!":
            return bnot(tobool(v))
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "~":
            return mk("bitnot", v)
        return mk("un" + op, v)

    def e_bin(self, e):
        op = e["op"]
        if op == "&&" or op == "||":
            a = self.cond(e["a"])
            if self.st is None:
                return ZERO
            a = self.decide(a)
            stop = FALSE if op == "&&" else TRUE
            if a is stop:
                return a
            if a is bnot(stop):
                return self.cond(e["b"])
            base = self.st
            bpc = base.pc
            self.st = base.clone()
            self.assume(a if op == "&&" else bnot(a))
            b = FALSE
            if self.st is not None:
                b = self.cond(e["b"])
                if self.st is not None:
                    b2 = self.decide(b)
                    b = b2
            s2 = self.st
            base.pc = bpc
            self.st = base
            self.assume(bnot(a) if op == "&&" else a)
            s1 = self.st
            self.st = self.merge(bpc, [s2, s1])
            if self.st is not None:
                self.st.pc = bpc
            return band(a, b) if op == "&&" else bor(a, b)
        if op == ",":
            self.eval(e["a"])
            return self.eval(e["b"])
        if e.get("cv") is not None:
            t = self.tyof(e)
            if t is not None and t.k == "bool":
                return TRUE if int(e["cv"]) else FALSE
            return num(int(e["cv"]))
        a = self.eval(e["a"])
        ta = self.tyof(e["a"])
        if isinstance(a, LV) and a.ty is not None and a.ty.k == "arr":
            a = mk("ptr", a.loc, ZERO)
        a = self.rv(a)
        b = self.val(e["b"])
        if self.st is None:
            return ZERO
        r = self.binop(op, a, b, ta, self.tyof(e["b"]), self.tyof(e))
        if op in ("*", "<<"):
            self.narrow_mul(r, a, b, self.tyof(e), e)
        return r

    def narrow_mul(self, r, a, b, t, e):
        """note products of run-time values computed in 32 bits or fewer"""
        if t is not None and t.base.k == "int" and (t.base.raw.get("w") or 64) <= 32 and a.op != "n" and b.op != "n" \
                and r.op != "n":
            self.ev("arith", None, r, e, w=t.base.raw.get("w"))

    def binop(self, op, a, b, ta, tb, t):
        ca, cb = (ta.base.k if ta else None), (tb.base.k if tb else None)
        fl = ca == "float" or cb == "float"
        if a.op == "ptr" or b.op == "ptr" or ca == "ptr" or cb == "ptr":
            pa = a.op == "ptr" or ca == "ptr"
            pb = b.op == "ptr" or cb == "ptr"
            if op == "+":
                return self.padd(a, b) if pa else self.padd(b, a)
            if op == "-":
                if pb:
                    x, y = self.psplit(a), self.psplit(b)
                    if x[0] is y[0]:
                        return sub(x[1], y[1])
                    return mk("pdiff", a, b)
                return self.padd(a, neg(b))
            if op in ("==", "!="):
                r = self.ptreq(a, b)
                return r if op == "==" else bnot(r)
            x, y = self.psplit(a), self.psplit(b)
            if x[0] is y[0]:
                return self.cmp(op, x[1], y[1], True)
            return mk("bool", mk("ptrcmp" + op, a, b))
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if fl:
                return fdiv(a, b)
            return idiv(a, b, self.facts())
        if op == "%":
            return imod(a, b, self.facts())
        if op in ("<", "<=", ">", ">="):
            return self.cmp(op, a, b, not fl)
        if op in ("==", "!="):
            r = eq(a, b)
            return r if op == "==" else bnot(r)
        if op == "<<" and b.op == "n" and 0 <= b.args[0] < 63:
            return mul(a, num(2 ** b.args[0]))
        if op == ">>" and b.op == "n" and 0 <= b.args[0] < 63:
            return idiv(a, num(2 ** b.args[0]), self.facts())
        if op in ("|", "&", "^") and ((ca == "bool" and cb == "bool") or (a.op in BOOL and b.op in BOOL)):
            x, y = tobool(a), tobool(b)
            if op == "|":
                return bor(x, y)
            if op == "&":
                return band(x, y)
            return bnot(eq(x, y))
        if a.op == "n" and b.op == "n":
            x, y = a.args[0], b.args[0]
            if isinstance(x, int) and isinstance(y, int):
                return num({"|": x | y, "&": x & y, "^": x ^ y}.get(op, 0)) if op in "|&^" else fresh("bin")
        if op in ("|", "&", "^") and a.id > b.id:
            a, b = b, a
        return mk("bit" + op, a, b)

    def cmp(self, op, a, b, isint):
        if op == "<":
            return lt(a, b, isint)
        if op == ">":
            return lt(b, a, isint)
        if op == "<=":
            return le(a, b, isint)
        return le(b, a, isint)

    def ptreq(self, a, b):
        if a is b:
            return TRUE
        if a is ZERO:
            a = NULL
        if b is ZERO:
            b = NULL
        if a is NULL or b is NULL:
            return bnot(tobool(b if a is NULL else a))
        if a.op == "ite":
            return ite(a.args[0], self.ptreq(a.args[1], b), self.ptreq(a.args[2], b))
        x, y = self.psplit(a), self.psplit(b)
        if x[0] is y[0]:
            return eq(x[1], y[1])
        return eq(a, b)

    def e_asg(self, e):
        op = e["op"]
        x = self.eval(e["a"])
        t = self.tyof(e["a"])
        if op == "=":
            v = self.eval(e["b"])
            if self.st is None:
                return ZERO
            if isinstance(x, LV):
                self.assign_from(x.loc, t, v)
                return x
            return fresh("asg")
        o = self.rv(x)
        b = self.val(e["b"])
        if self.st is None or not isinstance(x, LV):
            return ZERO
        tb = self.tyof(e["b"])
        ct = ty(self.frames[-1].tu, e.get("clt")) or t
        v = self.binop(op[:-1], o, b, ct if ct.k == "float" else t, tb, t)
        v = self.conv(v, ct, t)
        self.access("write", x.loc, t, v)
        self.write_loc(x.loc, v, t)
        return x

    def assign_from(self, loc, t, v):
        """store an evaluated expression into loc"""
        if self.st is None:
            return
        if t is not None and not is_scalar(t):
            src = self.as_loc(v, t)
            self.access("write", loc, t, src)
            self.copy_object(src, loc)
            return
        x = self.rv(v)
        if self.st is None:
            return
        if isinstance(v, LV) is False and x.op in ("root", "loc"):
            # an object returned where a scalar is expected
            self.copy_object(x, loc)
            return
        self.access("write", loc, t, x)
        self.write_loc(loc, x, t)

    def init_loc(self, loc, t, e):
        """initialise loc of type t from expression e"""
        k = e["k"]
        if k in ("cast", "defarg") and t is not None and not is_scalar(t):
            return self.init_loc(loc, t, e["e"]) if isinstance(e.get("e"), dict) else None
        if t is None:
            t = self.tyof(e)
        if k == "ctor" and (t is None or not is_scalar(t)):
            self.construct(loc, t, e)
            return
        if k in ("init", "zero") and (t is not None and not is_scalar(t)):
            self.models.init_list(self, loc, t, e)
            return
        v = self.eval(e)
        if self.st is None:
            return
        if t is not None and not is_scalar(t):
            src = self.as_loc(v, t)
            self.copy_object(src, loc)
            return
        x = self.rv(v)
        if x.op in ("root", "loc") and not (t is not None and t.k == "ptr"):
            self.copy_object(x, loc)
            return
        if self.frames and t is not None and loc.op == "loc":
            self.access("write", loc, t, x, how="init")
        self.st.mem[loc] = x

    def construct(self, loc, t, e):
        """constructor expression e building the object at loc"""
        if (e.get("copy") or e.get("move")) and (e.get("triv") or e.get("elid") or not self.find(e)) and len(e["args"]) >= 1:
            a = self.eval(e["args"][0])
            if self.st is None:
                return
            src = self.as_loc(a, t)
            n = recname(t.base) if t else ""
            if isinstance(a, LV):
                self.access("read", src, t, how="move" if e.get("move") else "copy")
            self.copy_object(src, loc)
            if e.get("move") and isinstance(a, LV):
                self.models.moved_from(self, src, t)
            return
        f = self.find(e)
        if f is not None:
            if e.get("dflt") and f.get("defaulted"):
                self.models.default_init(self, loc, t)
                return
            self.call_fn(f, e, loc, e["args"])
            return
        self.models.construct(self, loc, t, e)

    def find(self, e):
        k = e.get("key")
        if not k:
            return None
        tu = self.frames[-1].tu if self.frames else None
        f = tu.by_key.get(k) if tu else None
        if f is None or not (f.get("body")):
            f = self.keymap.get(k)
        if f is not None and (f["f"] in self.opaque):
            return None
        return f

    def e_ctor(self, e):
        t = self.tyof(e)
        if t is not None and is_scalar(t):
            return self.models.ctor_scalar(self, t, e)
        r = self.newroot("tmp", (e.get("cls") or "obj").split("::")[-1], t)
        self.construct(r, t, e)
        if self.st is None:
            return ZERO
        self.ev("temp", r, None, e, ty=t)
        return r

    def e_init(self, e):
        t = self.tyof(e)
        if t is not None and is_scalar(t):
            if e.get("args"):
                return self.val(e["args"][0])
            return NULL if t.k in ("ptr", "rec") else ZERO
        r = self.newroot("tmp", "init", t)
        self.models.init_list(self, r, t, e)
        return r

    def e_cond(self, e):
        c = self.cond(e["c"])
        if self.st is None:
            return ZERO
        c = self.decide(c)
        if c is TRUE:
            return self.eval(e["a"])
        if c is FALSE:
            return self.eval(e["b"])
        base = self.st
        bpc = base.pc
        self.st = base.clone()
        self.assume(c)
        a = self.eval(e["a"]) if self.st is not None else None
        if self.st is not None and not (isinstance(a, LV) and not is_scalar(a.ty)):
            a = self.rv(a)
        sa = self.st
        self.st = base
        self.assume(bnot(c))
        b = self.eval(e["b"]) if self.st is not None else None
        if self.st is not None and not (isinstance(b, LV) and not is_scalar(b.ty)):
            b = self.rv(b)
        sb = self.st
        self.st = self.merge(bpc, [sa, sb])
        if sa is None:
            return b
        if sb is None:
            return a
        if isinstance(a, LV) or isinstance(b, LV) or a.op in ("root", "loc"):
            la, lb = self.as_loc(a), self.as_loc(b)
            return LV(mk("ite", c, la, lb) if la is not lb else la, self.tyof(e))
        return ite(c, a, b)

    def conv(self, v, tf, tt):
        """numeric conversion of v from type tf to tt"""
        if tt is None:
            return v
        tk = tt.base.k
        fk = tf.base.k if tf is not None else None
        if tk == "bool":
            return tobool(v)
        if tk in ("int", "enum") and fk == "float":
            if v.op == "n":
                return num(int(v.args[0]))
            if v.op == "fn1" and v.args[0] in ("ceil", "floor", "round", "trunc"):
                return v
            if v.op == "ite":
                return ite(v.args[0], self.conv(v.args[1], tf, tt), self.conv(v.args[2], tf, tt))
            if intvalued(v):
                return v
            return mk("fn1", "trunc", v)
        if tk in ("int", "float") and v.op in BOOL:
            return v if v not in (TRUE, FALSE) else b2n(v)
        if tk == "int" and fk == "int" and v.op != "n" and (tt.base.raw.get("w") or 64) < (tf.base.raw.get("w") or 64):
            self.ev("narrow", None, v, getattr(self, "cure", None), w=tt.base.raw.get("w"), sg=tt.base.raw.get("sg"))
        return v

    def e_cast(self, e):
        ck = e.get("ck")
        sube = e["e"]
        tt = self.tyof(e)
        if ck in ("UserDefinedConversion", "ConstructorConversion"):
            return self.eval(sube)
        if ck == "ArrayToPointerDecay":
            x = self.eval(sube)
            if isinstance(x, LV):
                return mk("ptr", x.loc, ZERO)
            return x
        if ck == "NullToPointer":
            return NULL
        if ck in ("NoOp", "LValueBitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "FunctionToPointerDecay", "LValueToRValue"):
            return self.eval(sube)
        if ck == "ToVoid":
            self.eval(sube)
            return ZERO
        v = self.val(sube)
        if self.st is None:
            return ZERO
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            return tobool(v)
        if ck == "BitCast":
            return v
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            return v
        r = self.conv(v, self.tyof(sube), tt)
        if e.get("ex") and tt is not None and is_unsigned(tt):
            pass
        return r

    def e_defarg(self, e):
        return self.eval(e["e"]) if isinstance(e.get("e"), dict) else fresh("defarg")

    def e_stmtexpr(self, e):
        self.stmt(e["s"])
        return fresh("stmtexpr")

    def e_throw(self, e):
        if e.get("e"):
            self.eval(e["e"])
        if self.st is None:
            return ZERO
        t = ty(self.frames[-1].tu, e.get("et"))
        self.ev("throw", None, None, e, t=t.s if t else "rethrow")
        self.st = None
        return ZERO

    def e_new(self, e):
        at = ty(self.frames[-1].tu, e["at"])
        n = self.val(e["n"]) if e.get("n") else None
        if self.st is None:
            return ZERO
        r = self.newroot("heap", "new@" + self.at(e).split("/")[-1], at)
        if e.get("arr"):
            init = e.get("init")
            if init is not None and init["k"] in ("zero", "init"):
                self.st.mem[self.content_key(r)] = mk("fill", ZERO)
            self.set_size(r, n if n is not None else ONE)
            self.ev("alloc", r, n, e, ty=at)
            return mk("ptr", r, ZERO)
        self.ev("alloc", r, None, e, ty=at)
        if e.get("init") is not None:
            self.init_loc(r, at, e["init"])
        return mk("ptr", r, "obj")

    def e_delete(self, e):
        p = self.val(e["e"])
        if self.st is None:
            return ZERO
        l = self.deref(p)
        self.ev("delete", l, p, e)
        return ZERO

    def e_fref(self, e):
        return mk("fn", e.get("key") or e.get("f") or "?", self.frames[-1].tu.name)

    def e_mref(self, e):
        return mk("fn", e.get("key") or e.get("f") or "?", self.frames[-1].tu.name)

    def e_other(self, e):
        vs = [self.eval(a) for a in e.get("args", [])]
        if e.get("cn") in ("CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "CXXFunctionalCastExpr") and vs:
            return vs[0]
        if e.get("cn") == "CXXTypeidExpr":
            return fresh("typeid")
        return fresh(e.get("cn", "other"))

    def e_fieldref(self, e):
        return mk("fieldref", e.get("cls"), e.get("n"))

    # ------------------------------------------------------------ lambdas
    def e_lambda(self, e):
        fr = self.frames[-1]
        caps = {}
        ident = []
        this = None
        for c in e.get("caps", []):
            if c.get("this"):
                this = fr.this
                ident.append(this if this is not None else NULL)
                continue
            t = ty(fr.tu, c.get("vt"))
            if c.get("init") is not None and c.get("ref"):
                x = self.eval(c["init"])
                loc = self.as_loc(x, t.base if t else None)
                caps[c["id"]] = (loc, t)
                ident.append(loc)
            elif c.get("ref"):
                loc, t0 = self.var_loc({"id": c["id"], "n": c["n"], "sc": "local", "vt": c.get("vt")})
                self.escaped.add(rootof(loc) if loc.op != "ite" else loc)
                caps[c["id"]] = (loc, t0)
                ident.append(loc)
            else:
                if c.get("init") is not None:
                    x = self.eval(c["init"])
                else:
                    loc, t0 = self.var_loc({"id": c["id"], "n": c["n"], "sc": "local", "vt": c.get("vt")})
                    x = LV(loc, (t0.base if t0 is not None else t))
                tt = t.base if t is not None else None
                r = self.newroot("cap", c["n"], tt)
                if self.st is None:
                    return ZERO
                if tt is not None and not is_scalar(tt):
                    self.copy_object(self.as_loc(x, tt), r)
                    ident.append(r)
                else:
                    v = self.rv(x)
                    self.st.mem[r] = v
                    ident.append(v)
                caps[c["id"]] = (r, tt)
        t = mk("clo", e["id"], fr.tu.name, *ident)
        self.clos[t] = dict(lam=e, tu=fr.tu, caps=caps, this=this, owner=fr.name)
        return t

    def closure_fn(self, t, e=None):
        d = self.clos[t]
        lam = d["lam"]
        if lam.get("fn"):
            return lam["fn"]
        sp = lam.get("specs") or []
        if e is not None:
            for f in sp:
                if f.get("key") == e.get("key"):
                    return f
        return sp[0] if sp else None

    def call_value(self, f, args, e, argtys=None):
        """call a first-class callee value with evaluated args"""
        if self.st is None:
            return ZERO
        if f.op == "ite":
            base = self.st
            bpc = base.pc
            self.st = base.clone()
            self.assume(f.args[0])
            a = self.call_value(f.args[1], args, e) if self.st is not None else None
            sa = self.st
            self.st = base
            self.assume(bnot(f.args[0]))
            b = self.call_value(f.args[2], args, e) if self.st is not None else None
            sb = self.st
            self.st = self.merge(bpc, [sa, sb])
            if sa is None:
                return b
            if sb is None:
                return a
            a, b = self.rv(a), self.rv(b)
            if a.op in ("root", "loc"):
                return a if a is b else mk("ite", f.args[0], a, b)
            return ite(f.args[0], a, b)
        if f.op == "clo":
            d = self.clos.get(f)
            if d is None:
                return fresh("clo")
            fn = self.closure_fn(f, e)
            if fn is None:
                return fresh("clo")
            return self.invoke(fn, d["tu"], d["this"], args, d["caps"], d["owner"].split("::")[-1] + "::lambda", e)
        if f.op == "fn":
            g = self.keymap.get(f.args[0])
            if g is not None:
                return self.invoke(g, g["_tu"], None, args, None, g["f"], e)
            # a library function called through a pointer
            name = f.args[0].split("|")[0]
            vals = [self.rv(a) if isinstance(a, LV) and (a.ty is None or is_scalar(a.ty)) else a for a in args]
            r = mk("ret", name, self.nextuid())
            self.ev("call", None, name, e, args=vals, name=name, lvs=[a.loc if isinstance(a, LV) else None for a in args],
                    ty=None, key=f.args[0], ret=r, through=True)
            for a in args:
                if isinstance(a, LV) and not (a.ty is None or is_scalar(a.ty)):
                    self.havoc(a.loc)
            return r
        if f.op == "bound":
            return self.call_value(f.args[0], [self.unbox(a) for a in f.args[1:]] + list(args), e)
        if f.op in ("root", "loc"):
            # functor object with a repository operator()
            t = self.root_ty.get(f)
            if t is not None and t.base.k == "rec":
                g = self.by_name.get(recname(t.base).split("<")[0] + "::operator()") or self.by_name.get(t.base.s + "::operator()")
                if g and len(g) == 1 and g[0].get("body"):
                    return self.invoke(g[0], g[0]["_tu"], f, args, None, g[0]["f"], e)
        self.ev("callback", None, f, e, args=tuple(args))
        for a in args:
            if isinstance(a, LV):
                self.havoc(a.loc)
        return fresh("cb")

    def unbox(self, a):
        return a

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        self.stats["calls"] += 1
        if self.hooks:
            h = self.hooks.get(e.get("f"))
            if h is not None:
                r = h(self, e)
                if r is not None:
                    return r
        if not e.get("f") or e.get("fe") is not None:
            if e.get("fe") is not None and not e.get("f"):
                f = self.eval(e["fe"])
                f = self.rv(f)
                args = [self.eval(a) for a in e["args"]]
                if self.st is None:
                    return ZERO
                self.cure = e
                if f.op == "clo":
                    d = self.clos.get(f)
                    fn = self.closure_fn(f, e) if d else None
                    if fn is not None:
                        return self.invoke(fn, d["tu"], d["this"], args, d["caps"], d["owner"].split("::")[-1] + "::lambda", e)
                return self.call_value(f, args, e)
        r = self.models.call(self, e)
        if r is not self.models.NOTMODELLED:
            return r
        fn = self.find(e)
        if fn is not None and len(self.frames) < self.maxdepth and \
                sum(1 for f in self.frames if f.fn is fn) < 2:
            this = None
            if e.get("obj") is not None:
                if e.get("arrow"):
                    this = self.deref(self.val(e["obj"]))
                else:
                    this = self.as_loc(self.eval(e["obj"]), self.tyof(e["obj"]))
                if self.st is None:
                    return ZERO
            elif fn.get("cls") and not fn.get("st"):
                this = self.frames[-1].this
            return self.call_fn(fn, e, this, e["args"])
        return self.models.unknown(self, e)

    def call_fn(self, fn, e, this, argexprs):
        args = []
        for a in argexprs:
            x = self.eval(a)
            if self.st is None:
                return ZERO
            if not isinstance(x, LV) and x is not None and x.op in ("root", "loc"):
                pass
            args.append(x)
        if self.st is None:
            return ZERO
        self.cure = e
        return self.invoke(fn, fn["_tu"], this, args, None, fn["f"], e)

    def snap(self, loc, t):
        """value of an argument at a call: a term, or the fields of a small record"""
        if t is not None and t.k == "ref":
            t = t.to
        if t is None or is_scalar(t):
            return self.read_loc(loc, t)
        out = {}
        if recname(t).startswith("std::pair"):
            names = ["first", "second"]
        else:
            tu, r = self.record(t)
            names = [f["n"] for f in r["fields"]] if r else []
        for n in names:
            out[n] = self.lookup(loc_field(loc, n))
        if recname(t).startswith(("std::vector", "std::array")):
            out["@"] = self.content(loc)
            out["#"] = self.lookup(self.size_key(loc))
        return out

    def invoke(self, fn, tu, this, args, caps, name, e):
        if this is not None and this.op == "ite":
            # object chosen by a condition
            base = self.st
            bpc = base.pc
            c = this.args[0]
            self.st = base.clone()
            self.assume(c)
            a = self.invoke(fn, tu, this.args[1], args, caps, name, e) if self.st is not None else None
            sa = self.st
            self.st = base
            self.assume(bnot(c))
            b = self.invoke(fn, tu, this.args[2], args, caps, name, e) if self.st is not None else None
            sb = self.st
            self.st = self.merge(bpc, [sa, sb])
            if sa is None or b is None:
                return b if sa is None else a
            if sb is None or a is None:
                return a
            if isinstance(a, LV) or isinstance(b, LV) or a.op in ("root", "loc"):
                la, lb = self.as_loc(a), self.as_loc(b)
                return LV(mk("ite", c, la, lb), a.ty if isinstance(a, LV) else None) if la is not lb else a
            return ite(c, a, b)
        bound = []
        params = fn["params"]
        for i, p in enumerate(params):
            t = ty(tu, p["t"])
            a = args[i] if i < len(args) else None
            if a is None:
                r = self.newroot("v", p["n"] or "p", t)
                bound.append((r, t))
                continue
            if t is not None and t.k == "ref":
                if isinstance(a, LV):
                    bound.append((a.loc, t))
                else:
                    bound.append((self.as_loc(a, t.base), t))
            else:
                r = self.newroot("v", p["n"] or "p", t)
                if t is not None and not is_scalar(t):
                    self.copy_object(self.as_loc(a, t), r)
                else:
                    v = self.rv(a)
                    self.st.mem[r] = v
                bound.append((r, t))
        if not self.mute:
            self.ev("enter", this, None, e, fn=fn, args=bound, key=fn.get("key"),
                    vals=[self.snap(l, t) for l, t in bound])
        else:
            self.seq += 1
        v = self.invoke_body(fn, tu, this, bound, caps, name, e=e)
        if self.st is not None:
            self.ev("leave", this, v if not isinstance(v, LV) else None, e, fn=fn)
        rt = ty(tu, fn.get("rt"))
        if v is None:
            return ZERO
        if rt is not None and rt.k == "ref" and not isinstance(v, LV):
            return LV(v, rt.base)
        return v


def intvalued(v):
    """does v certainly denote an integer (all atoms integral)?"""
    if v.op == "n":
        return isinstance(v.args[0], int)
    if v.op == "fn1":
        return v.args[0] in ("ceil", "floor", "round", "trunc")
    if v.op == "poly":
        return all(isinstance(c, int) and all(intvalued(a) for a in m) for m, c in v.args[0])
    if v.op in ("idiv", "mod", "k"):
        return True
    return False
