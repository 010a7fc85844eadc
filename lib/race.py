"""Data-race analysis over the events of one engine run.

Two accesses conflict when they may touch the same object, at least one changes it, and
they can run at the same time: neither is ordered before the start of the other's task nor
after its join.  A conflict is synchronised when
  lock       both hold the same lock (per-element locks: the lock's index is the same
             function of the accessed element at both places),
  atomic     both are atomic operations,
  published  one side precedes the store of an atomic flag in its task and the other is
             guarded by having read that flag as set,
  phase      the waiting side runs after a wait whose condition contradicts the guard under
             which the other side, holding the lock of that wait, changes the object,
  completed  the later side is guarded by an atomic counter having reached its final value
             and the earlier side precedes the same task's increment of that counter,
  unique     both touch the element selected by a number an atomic counter hands out once,
  once       one side initialises the object once (tested again under a lock) and the other
             follows its task's own test of it,
  owned      the object belongs to one task instance (declared in it).
"""
from cxx import *

STRUCT_STABLE = ("std::map<", "std::unordered_map<", "std::set<", "std::list<", "std::deque<")
ATOMIC = ("aload", "astore", "armw", "atomic_add")
WRITES = ("write", "fillbuf", "fill", "permute", "release", "memcpy", "uptr_dtor")
READS = ("read", "range", "index")
GROW = ("operator[]", "emplace", "insert", "try_emplace", "emplace_hint")


class Access:
    __slots__ = ("e", "w", "atomic", "root", "st", "cont", "grow", "loc")

    def __repr__(self):
        return "%s %s @%s T%s" % ("W" if self.w else "R", self.loc, self.e.at, self.e.thread)


def accesses(E, want):
    """accesses to objects whose location satisfies want(root, steps)"""
    out = []
    for e in E.events:
        l = e.loc
        if not isinstance(l, type(ZERO)) or l.op not in ("loc", "root", "deref"):
            continue
        k = e.kind
        if k not in WRITES and k not in READS and k not in ATOMIC and k not in ("cop", "io"):
            continue
        r, st = steps(l)
        if not want(r, st):
            continue
        a = Access()
        a.e, a.root, a.loc, a.cont, a.grow = e, r, l, None, False
        a.st = [(s.args[1], s.args[2]) for s in st]
        a.atomic = k in ATOMIC
        a.w = k in WRITES or k in ("io", "astore", "armw", "atomic_add") or (k == "cop" and bool(e.x.get("write")))
        if k == "cop":
            ty = e.x.get("ty")
            a.cont = ty.base.s if ty is not None and hasattr(ty, "base") else str(ty)
            a.grow = str(e.val) in GROW
        elif k == "index" and e.x.get("how") in ("vector", "at"):
            # header of the container is read
            if a.st and a.st[-1][0] in ("[]", "[*]"):
                a.st = a.st[:-1]
                a.loc = l.args[0]
                a.cont = "header"
        elif k == "index":
            continue
        elif k in ("read", "write") and e.x.get("lv") is None:
            pass
        out.append(a)
    return out


def elementwise(a, b):
    """'same' path, 'a<' a is a proper prefix of b, 'b<', or None (disjoint)"""
    n = min(len(a), len(b))
    for i in range(n):
        (k1, x1), (k2, x2) = a[i], b[i]
        if k1 in ("[]", "[*]", "kv") and k2 in ("[]", "[*]", "kv"):
            if isinstance(x1, type(ZERO)) and isinstance(x2, type(ZERO)) and x1.op == "n" and x2.op == "n" and x1 is not x2:
                return None
            continue
        if k1 != k2 or (k1 == "." and x1 != x2):
            return None
    if len(a) == len(b):
        return "same"
    return "a<" if len(a) < len(b) else "b<"


def conflict(a, b):
    if not (a.w or b.w) or (a.atomic and b.atomic):
        return False
    if a.root is not b.root:
        return False
    rel = elementwise(a.st, b.st)
    if rel is None:
        return False
    if rel == "same":
        return True
    up, low = (a, b) if rel == "a<" else (b, a)
    if up.cont is not None:
        if not up.w:
            return False               # reading a container's header does not touch its elements
        if up.cont != "header" and any(s in up.cont for s in STRUCT_STABLE) and up.grow:
            return False               # insertion leaves the other elements where they are
        return True
    if up.w:
        return True
    if low.st[len(up.st)][0] == "->":
        return False                   # reading the pointer, not its target
    return up.e.kind == "read"         # copy of the whole object


class Order:
    def __init__(self, E):
        self.E = E
        self.T = E.threads
        self._handlers = self._cleared = None
        self.join_at = {}              # (thread, seq) facts: thread joined by events of other threads
        joins = [e for e in E.events if e.kind in ("join", "join_pool")]
        self.joins = joins
        # threads joined completely inside another thread's body
        self.inner = {}
        for e in joins:
            for t in self.joined(e):
                self.inner.setdefault(e.thread, set()).add(t)
        self.spawn_seqs = {}
        for e in E.events:
            if e.kind == "spawn":
                pass

    def cut(self, j, x):
        """x runs in a handler entered when the loop of waits j ended early with an exception"""
        if j.x.get("how") != "get" or not (isinstance(j.loc, T) and j.loc.op == "loc" and j.loc.args[1] in ("[]", "[*]")):
            return False
        return any(th == j.thread and a < j.seq < b and c < x.seq < d for th, a, b, c, d in self.handlers())

    def handlers(self):
        """(thread, try, end of try, handler, end of handler)"""
        if self._handlers is None:
            out, stack = [], {}
            last = {}
            for e in self.E.events:
                if e.kind == "try":
                    stack.setdefault(e.thread, []).append(e.seq)
                elif e.kind == "tryend" and stack.get(e.thread):
                    last[e.thread] = (stack[e.thread].pop(), e.seq)
                elif e.kind == "catch":
                    stack.setdefault(("c", e.thread), []).append((last.get(e.thread, (0, 0)), e.seq))
                elif e.kind == "catchend" and stack.get(("c", e.thread)):
                    (a, b), c = stack[("c", e.thread)].pop()
                    out.append((e.thread, a, b, c, e.seq))
                    last[e.thread] = (a, b)
            self._handlers = out
        return self._handlers

    def joined(self, e):
        out = set(e.x.get("tids") or ())
        if e.kind == "join_pool":
            out |= {t for t, d in self.T.items() if d.get("pool") is not None and d.get("pool") is e.loc}
        base = e.loc
        if isinstance(base, type(ZERO)) and base.op == "loc" and base.args[1] in ("[]", "[*]"):
            cont = base.args[0]
            for t, d in self.T.items():
                if cont in (d.get("containers") or ()):
                    out.add(t)
            # futures that were dropped from the container in between
            out = {t for t in out if not any(self.T.get(t, {}).get("last_spawn", 0) < x.seq < e.seq for x in self.cleared(cont))}
        # only tasks started before the join are joined
        return {t for t in out if self.T.get(t, {}).get("spawn", 0) < e.seq}

    def cleared(self, cont):
        if self._cleared is None:
            self._cleared = {}
            for x in self.E.events:
                if x.kind == "cop" and str(x.val) == "clear" and isinstance(x.loc, T):
                    if not any(th == x.thread and c < x.seq < d for th, a, b, c, d in self.handlers()):
                        self._cleared.setdefault(x.loc, []).append(x)
        return self._cleared.get(cont, ())

    def closure(self, e):
        """threads that have finished once e has happened"""
        out, work = set(), list(self.joined(e))
        while work:
            t = work.pop()
            if t in out:
                continue
            out.add(t)
            work += list(self.inner.get(t, ()))
        return out

    def ancestors(self, t):
        out = []
        while t is not None:
            out.append(t)
            t = self.T[t]["parent"] if t in self.T else None
        return out

    def concurrent(self, a, b):
        ta, tb = a.thread, b.thread
        if ta == tb:
            d = self.T.get(ta) or {}
            if ta == 0:
                return False
            return bool(d.get("multi"))
        # one is an ancestor of the other
        for x, y, t in ((a, b, tb), (b, a, ta)):
            if x.thread in self.ancestors(t)[1:]:
                # first thread on the way down from x.thread to t
                way = self.ancestors(t)
                child = way[way.index(x.thread) - 1]
                d = self.T[child]
                start = d.get("spawn", 0)
                sp = d.get("spawn_ev")
                if x.seq < start:
                    if sp is None or not any(l in x.loops for l in sp.loops):
                        return False
                    # same loop as the start of the task: an earlier iteration's task may run
                    if sp is not None and d.get("multi") is False:
                        return False
                for j in self.joins:
                    if j.thread == x.thread and j.seq < x.seq and t in self.closure(j) and not self.cut(j, x):
                        return False
                return True
        # siblings: one joined (in a common ancestor) before the other starts
        for x, y in ((a, b), (b, a)):
            start = self.T.get(y.thread, {}).get("spawn", 0)
            for j in self.joins:
                if j.seq < start and x.thread in self.closure(j) and j.thread in self.ancestors(y.thread):
                    return False
            # y joins x inside its own body before the access
            for j in self.joins:
                if j.thread == y.thread and j.seq < y.seq and x.thread in self.closure(j):
                    return False
        return True


def accessed_index(st):
    for k, x in reversed(st):
        if k in ("[]", "kv") and isinstance(x, type(ZERO)):
            return x
    return None


def lock_shape(l, idx):
    """lock location with the accessed element's index abstracted"""
    r, st = steps(l)
    out = [str(r)]
    own = r
    priv = False
    for s in st:
        k, x = s.args[1], s.args[2]
        if k in ("[]", "kv") and isinstance(x, type(ZERO)):
            if idx:
                h = x
                for n, i in enumerate(idx):
                    h = subst(h, {i: sym("element%d" % n)}) if i.op not in ("n",) else h
                x = h
            if any(a.op in ("k", "phi", "val", "proj", "u") for a in atoms_of_all(x)):
                priv = True
            out.append((k, x))
        else:
            out.append((k, str(x)))
    return tuple(out), priv


def common_lock(E, a, b):
    ia = [x for k, x in a.st if k in ("[]", "kv") and isinstance(x, type(ZERO))]
    ib = [x for k, x in b.st if k in ("[]", "kv") and isinstance(x, type(ZERO))]
    la = [lock_shape(l, ia) for l in a.e.locks if isinstance(l, type(ZERO))]
    lb = [lock_shape(l, ib) for l in b.e.locks if isinstance(l, type(ZERO))]
    for s, p in la:
        for t, q in lb:
            if s == t and not p and not q and not private_root(E, s[0], a, b):
                return s
    return None


def private_root(E, rootname, a, b):
    """is the lock object declared inside the task (one lock per task instance)?"""
    if not hasattr(E, "_decl"):
        E._decl = {}
        for e in E.events:
            if e.kind == "declare" and isinstance(e.loc, type(ZERO)):
                E._decl[str(steps(e.loc)[0])] = e.thread
    t = E._decl.get(rootname)
    return t is not None and t != 0 and E.threads.get(t, {}).get("multi")


def lit_atoms(l, op):
    return [x for x in [l] + list(subterms(l)) if isinstance(x, type(ZERO)) and x.op == op]


def published(E, a, b):
    """a precedes the store of a flag in its thread, b has read the flag as set"""
    if a.e.thread == b.e.thread:
        return None
    for s in E.events:
        if s.kind != "astore" or s.thread != a.e.thread or s.seq < a.e.seq:
            continue
        if a.e.loops and s.loops != a.e.loops and not (len(s.loops) <= len(a.e.loops)):
            pass
        if s.val is FALSE or s.val is ZERO:
            continue
        # every store of a true value to the flag by this thread comes after the access
        first = min(x.seq for x in E.events if x.kind == "astore" and x.loc is s.loc and x.val is not FALSE and x.val is not ZERO)
        if first < a.e.seq:
            continue
        for lit in b.e.pc:
            if lit.op == "bool" and lit.args[0].op == "aload" and lit.args[0].args[0] is s.loc:
                return s
            if lit.op == "aload" and lit.args[0] is s.loc:
                return s
    return None


def waits(E):
    """(wait event, locations its predicate reads)"""
    out = []
    for i, e in enumerate(E.events):
        if e.kind != "wait":
            continue
        subj = set()
        on = False
        for x in E.events[i + 1:]:
            if x.kind == "predstart" and x.thread == e.thread:
                on = True
            elif x.kind == "predend" and x.thread == e.thread:
                break
            elif on and isinstance(x.loc, type(ZERO)) and x.kind in ("cop", "read", "aload"):
                subj.add(x.loc)
            elif not on and x.seq > e.seq + 3:
                break
        out.append((e, subj))
    return out


def same_size(t, subj):
    """value atoms in t that are the size of one of the locations"""
    out = []
    for x in [t] + list(subterms(t)):
        if not isinstance(x, type(ZERO)):
            continue
        l = x.args[1] if x.op in ("phi", "phiend") else x.args[0] if x.op == "val" else None
        if isinstance(l, type(ZERO)) and l.op == "loc" and l.args[1] == "#" and l.args[0] in subj:
            out.append(x)
    return out


def phase(E, main, worker):
    """main runs after a wait whose condition excludes the guard of the worker's access"""
    for w, subj in waits(E):
        if w.thread != main.e.thread or w.seq > main.e.seq:
            continue
        cond = w.x.get("cond")
        if not isinstance(cond, type(ZERO)) or w.val not in worker.e.locks:
            continue
        size = sym("size")
        c = subst(cond, {x: size for x in [cond] + list(subterms(cond)) if isinstance(x, type(ZERO)) and x.op == "u" and "wait" in str(x)})
        c = subst(c, {x: size for x in same_size(c, subj)})
        if size not in atoms_of_all(c):
            continue
        for lit in worker.e.pc:
            at = same_size(lit, subj)
            if not at:
                continue
            l2 = subst(lit, {x: size for x in at})
            if contradict(c, l2):
                # every change of the subject by other tasks must be under the same guard and lock
                if all(changes_guarded(E, s, w, c, size, subj) for s in subj):
                    return w
    return None


def atoms_of_all(t):
    return {x for x in [t] + list(subterms(t)) if isinstance(x, type(ZERO))}


def contradict(c, l):
    """c and l cannot both hold"""
    def lits(x):
        if x.op == "and":
            return [y for a in x.args for y in (lits(a) if isinstance(a, type(ZERO)) else [])]
        return [x]
    fx = Facts(lits(c))
    for x in lits(l):
        n = x.op == "not"
        y = x.args[0] if n else x
        if y.op not in ("gt0", "eq0"):
            continue
        p = y.args[0]
        if y.op == "gt0" and fx.ge0(sub(p, ONE) if n else neg(p)):
            return True
        if y.op == "eq0" and not n and (fx.ge0(sub(p, ONE)) or fx.ge0(sub(neg(p), ONE))):
            return True
        if y.op == "eq0" and n and fx.ge0(p) and fx.ge0(neg(p)):
            return True
    return False


def changes_guarded(E, s, w, c, size, subj):
    for e in E.events:
        if e.kind == "cop" and e.x.get("write") and e.loc is s and e.thread != w.thread:
            if w.val not in e.locks:
                return False
            if not any(contradict(c, subst(l, {x: size for x in same_size(l, subj)})) for l in e.pc if same_size(l, subj)):
                return False
    return True


def completed(E, early, late):
    """late is guarded by a counter's final value, early precedes its own increment"""
    for lit in late.e.pc:
        if lit.op != "eq0" and not (lit.op in ("and",)):
            continue
        for r in lit_atoms(lit, "armw"):
            counter = r.args[0]
            if not isinstance(counter, type(ZERO)):
                continue
            incs = [x for x in E.events if x.kind == "armw" and x.loc is counter]
            if len(incs) != 1 or early.e.thread != incs[0].thread or early.e.seq > incs[0].seq:
                continue
            # the increment follows the early access on every path: its guards are among those of the access
            if all(l in early.e.pc or l in late.e.pc for l in incs[0].pc) and tuple(incs[0].loops) == tuple(early.e.loops)[:len(incs[0].loops)]:
                return incs[0]
    return None


def unique(E, a, b):
    """the objects lie under elements selected by values an atomic counter hands out once"""
    n = min(len(a.st), len(b.st))
    for i in range(n):
        (k1, x1), (k2, x2) = a.st[i], b.st[i]
        if k1 in ("[]", "kv") and k2 in ("[]", "kv") and isinstance(x1, type(ZERO)) and isinstance(x2, type(ZERO)):
            c1, c2 = ticket(E, x1), ticket(E, x2)
            if c1 is not None and c1[0] is c2[0] if c2 is not None else False:
                # same task instance holds the same ticket; different instances differ
                if c1[1] is c2[1]:
                    return c1[0]
    return None


def ticket(E, x):
    """(counter, offset) if x is the result of counter++ plus a constant"""
    rs = [y for y in atoms_of_all(x) if y.op == "armw"]
    if len(rs) != 1:
        return None
    off = sub(x, rs[0])
    if off.op != "n":
        return None
    for e in E.events:
        if e.kind == "armw" and e.loc is rs[0].args[0]:
            d = e.val
            if isinstance(d, type(ZERO)) and d.op == "n" and d.args[0] == 0:
                return None
    return rs[0].args[0], rs[0]


def once(E, a, b):
    """a initialises the object once under a lock after finding it empty; b comes after its
    task has tested the object"""
    if a.e.kind != "astore" or not a.e.locks:
        return None
    tested = [l for l in a.e.pc if any(x.args[0] is a.loc for x in lit_atoms(l, "aload"))]
    if not tested:
        return None
    # the test is repeated under the lock
    inner = [e for e in E.events if e.kind == "aload" and e.loc is a.loc and e.thread == a.e.thread and e.seq < a.e.seq and
             set(map(str, a.e.locks)) <= set(map(str, e.locks))]
    if not inner:
        return None
    for e in E.events:
        if e.kind == "aload" and e.loc is b.loc and e.thread == b.e.thread and e.seq < b.e.seq and all(l in b.e.pc for l in e.pc) \
                and tuple(e.loops) == tuple(b.e.loops)[:len(e.loops)]:
            return e
    return None


class Result:
    __slots__ = ("a", "b", "how")


def analyse_races(E, want):
    """list of Result (how is None for an unsynchronised conflict)"""
    acc = accesses(E, want)
    order = Order(E)
    out = []
    seen = set()
    for i, a in enumerate(acc):
        for b in acc[i:]:
            if not conflict(a, b):
                continue
            if a is b and not a.w:
                continue
            key = (a.e.at, b.e.at, a.e.thread, b.e.thread, a.w, b.w, pattern(a), pattern(b), len(a.e.locks), len(b.e.locks), tuple(a.e.locks) == tuple(b.e.locks))
            if not order.concurrent(a.e, b.e):
                continue
            if key in seen:
                continue
            seen.add(key)
            r = Result()
            r.a, r.b = a, b
            r.how = None
            if common_lock(E, a, b):
                r.how = "lock"
            elif published(E, a, b) or published(E, b, a):
                r.how = "published"
            elif phase(E, a, b) or phase(E, b, a):
                r.how = "phase"
            elif completed(E, a, b) or completed(E, b, a):
                r.how = "completed"
            elif unique(E, a, b):
                r.how = "unique"
            elif once(E, a, b) or once(E, b, a):
                r.how = "once"
            out.append(r)
    return out


def pattern(a):
    return str(a.root) + "".join("." + str(x) if k == "." else "[]" if k in ("[]", "[*]", "kv") else k for k, x in a.st)


def changed_after_publication(E, want):
    """(publication, later change, access of another task without a common lock) for memory a task allocates, makes
    reachable through an object that satisfies want(root), and changes again afterwards"""
    def ptr_root(v):
        if not isinstance(v, T):
            return None
        out = [x for x in [v] + list(subterms(v)) if isinstance(x, T) and x.op == "root"]
        return out[0] if len(out) == 1 else None

    def top(l):
        while isinstance(l, T) and l.op == "loc":
            l = l.args[0]
        return l
    res = []
    new = {e.loc: e for e in E.events if e.kind == "alloc" and e.thread and isinstance(e.loc, T) and "new@" in str(e.loc)}
    for p in E.events:
        if p.kind not in ("astore", "write") or not p.thread or not isinstance(p.loc, T):
            continue
        n = ptr_root(p.val)
        if n not in new or new[n].thread != p.thread or not want(top(p.loc)):
            continue
        slot = str(p.loc)
        later = [w for w in E.events if w.kind in ("fill", "memcpy", "permute") and w.seq > p.seq and w.thread == p.thread
                 and top(w.loc) is n and [l.uid for l in w.loops][:len(p.loops)] == [l.uid for l in p.loops]]
        for w in later:
            held = set(map(str, w.locks))
            users = [f for f in E.events if f.kind in ("fillbuf", "read", "range", "memcpy", "fill") and f.thread == p.thread and f is not w
                     and f.loc is not None and slot in str(f.loc) and f.loc is not p.loc and top(f.loc) is not n]
            free = [f for f in users if not (held & set(map(str, f.locks)))]
            res.append((p, w, free[0] if free else None, len(users)))
    return res
