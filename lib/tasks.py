"""Tasks, the waits that end them, and what they use (shared by the lifetime and the
exception checks)."""
import race
from conc import *


def mentions(t, x):
    return t is x or any(y is x for y in subterms(t))


class Join:
    """one wait for a task: full / partial / unknown"""
    def __init__(self, E, order, j):
        self.ev, self.seq, self.thread = j, j.seq, j.thread
        self.how = j.x.get("how") or ("pool" if j.kind == "join_pool" else "wait")
        self.tids = order.joined(j)
        self.cover, self.why = coverage(E, j)
        if self.cover == "one":
            # one element, although the tasks are started again and again
            here = {lp.uid for lp in j.loops}
            many = [e for e in E.events if e.kind == "spawn" and e.x.get("tid") in self.tids and
                    any(lp.uid not in here for lp in e.loops)]
            if many:
                l = j.loc
                if isinstance(l.args[2], T) and isnum(l.args[2]):
                    self.cover, self.why = "partial", "only element %s of the futures is taken, and each task started at %s has its own" % (
                        l.args[2], short(many[0].at))
                else:
                    self.cover, self.why = "unknown", "which element is taken is not known"
        self.guard = any("~" in str(s) for s in (j.stack or ())) or j.kind == "join_pool"

    def looped(self):
        l = self.ev.loc
        return isinstance(l, T) and l.op == "loc" and l.args[1] in ("[]", "[*]")


def size_terms(l, k):
    """X for a literal that says k < X"""
    if l.op == "gt0":                  # X - k > 0
        x = add(k, l.args[0])
    elif l.op == "not" and l.args[0].op == "gt0":
        x = sub(add(k, ONE), l.args[0].args[0])      # not 1 + k - X > 0
    else:
        return None
    return None if mentions(x, k) else x


def coverage(E, j):
    """does the wait inside its loop reach every future of the container"""
    l = j.loc
    if not isinstance(l, T) or l.op != "loc" or l.args[1] not in ("[]", "[*]"):
        return "full", None
    cont, idx = l.args[0], l.args[2]
    ks = [lp for lp in j.loops if isinstance(idx, T) and mentions(idx, lp.k)]
    if not ks:
        return ("one", None)
    k = ks[-1].k
    if idx is not k:
        return "partial", "element %s of the futures is waited for" % idx
    xs = []
    for lit in j.pc:
        for c in (lit.args if lit.op == "and" else (lit,)):
            if mentions(c, k):
                x = size_terms(c, k)
                if x is None:
                    return "unknown", "the wait depends on %s" % str(c)[:80]
                xs.append(x)
    if not xs:
        return "full", None
    n = E_size(E, cont, j)
    for x in xs:
        if n is not None and x is n:
            continue
        if is_size(x, cont):
            continue
        if n is not None:
            d = sub(x, n)
            c = const(d)
            if c is not None and c < 0:
                return "partial", "the last %d futures are not waited for" % -c
        for s in [y for y in subterms(x) if is_size(y, cont)]:
            c = const(sub(x, s))
            if c is not None and c < 0:
                return "partial", "the last %d futures are not waited for" % -c
        return "unknown", "the wait stops at %s" % str(x)[:80]
    rec = E.rec.get(ks[-1].uid) or {}
    if rec.get("brk"):
        return "unknown", "the loop of the wait may be left early"
    return "full", None


def const(t):
    return t.args[0] if isnum(t) else None


def is_size(x, cont):
    return x.op in ("phi", "val", "u", "phiend") and any(isinstance(y, T) and y.op == "loc" and y.args[1] == "#" and y.args[0] is cont
                                                         for y in list(x.args) + list(subterms(x)))


def E_size(E, cont, j):
    # size of the container as the loop sees it: the size recorded by an access in the loop, or the
    # number of times the tasks were started
    for e in E.events:
        if e.kind == "index" and e.thread == j.thread and e.loc is j.loc and e.loops == j.loops:
            s = e.x.get("size")
            if isinstance(s, T):
                return s
    v = E.lookup(mk("loc", cont, "#", "")) if hasattr(E, "lookup") else None
    return v if isinstance(v, T) and v.op != "val" else None


class Param:
    """a parameter passed by value, declared by the call"""
    kind = "declare"

    def __init__(self, e, r, t):
        self.loc, self.at, self.seq, self.thread, self.loops, self.pc = r, e.at, e.seq, e.thread, e.loops, e.pc
        self.stack = tuple(e.stack or ()) + ((e.x.get("fn") or {}).get("f", "?"),)
        self.x = {"ty": t}


class Tasks:
    def __init__(self, E):
        self.E = E
        self.order = race.Order(E)
        self.joins = [Join(E, self.order, e) for e in self.order.joins]
        # a future that is waited for elsewhere under the same name stands for the same tasks
        byloc = {}
        for j in self.joins:
            if j.ev.kind == "join":
                byloc.setdefault(j.ev.loc, set()).update(j.tids)
        for j in self.joins:
            if j.ev.kind == "join" and not j.tids:
                j.tids = set(byloc.get(j.ev.loc, ()))
        self.spawns = [e for e in E.events if e.kind == "spawn"]
        self.decl = {}
        for e in E.events:
            if e.kind == "declare" and isinstance(e.loc, T):
                self.decl.setdefault(steps(e.loc)[0], e)
            elif e.kind == "enter":
                for r, t in e.x.get("args") or ():
                    if isinstance(r, T) and r.op == "root" and not (t is not None and t.k == "ref"):
                        self.decl.setdefault(r, Param(e, r, t))
        self.used = {}
        for e in E.events:
            if isinstance(e.loc, T) and e.loc.op in ("loc", "root", "deref"):
                self.used.setdefault(e.thread, {}).setdefault(steps(e.loc)[0], e)

    def spawn_of(self, t):
        return [e for e in self.spawns if e.x.get("tid") == t]

    def closure(self, j, how=None, unknown=True, safe=False):
        """tasks that are finished after j (how: only through waits of this kind; safe: also if one
        of the tasks ends with an exception)"""
        out, work = set(), [j]
        while work:
            x = work.pop()
            if x.cover == "partial" or x.cover == "unknown" and not unknown:
                continue
            if safe and x.how == "get" and x.looped():
                continue                # the first exception ends the loop
            for t in x.tids:
                if t not in out and t != x.thread:
                    out.add(t)
                    work += [y for y in self.joins if y.thread == t and (how is None or y.how in how)]
        return out

    def own(self, t):
        """objects of other threads that task t (or a task it started) uses"""
        ts = {t} | {x for x in self.E.threads if t in self.order.ancestors(x)}
        out = {}
        for x in ts:
            for r, e in self.used.get(x, {}).items():
                for b in [r] + [y for y in subterms(r) if y.op == "root"]:
                    out.setdefault(b, e)
        for s in self.spawn_of(t):
            work = [s.val]
            while work:
                x = work.pop()
                if isinstance(x, T):
                    if x.op in ("clo", "bind"):
                        work += list(x.args)
                    else:
                        for y in [x] + list(subterms(x)):
                            if y.op == "root" and x.op in ("root", "loc", "ptr"):
                                out.setdefault(y, s)
        res = {}
        for r, e in out.items():
            d = self.decl.get(r)
            if d is not None and d.thread in self.order.ancestors(t)[1:]:
                res[r] = (d, e)
        return res


def frame(e):
    return tuple(str(s) for s in (e.stack or ()))


def throwers(E, thread, lo, hi, skip=()):
    """events of a thread between two points that can leave the function by an exception"""
    for e in E.events:
        if e.thread != thread or not lo < e.seq < hi or e in skip:
            continue
        if e.kind == "throw" or e.kind == "callback" or e.kind == "join" and e.x.get("how") == "get":
            return e
    return None
