"""Finite valuations of the conditions on HDF5 call results.

The path conditions and results the dataflow analysis derives for a function of the HDF5
layer are closed forms over the results of library calls (an identifier or a status:
either negative or not), the identifier of the open file and a few scalars that are only
compared with constants.  `valuations` enumerates every combination that makes a
difference and is consistent (a library call given an invalid identifier fails), which
turns the event list of a function into its finite set of paths."""
from cxx import *
from numeval import NumEval, Undecided


def is_h5(e):
    return e.kind == "call" and isinstance(e.x.get("name"), str) and e.x["name"].startswith("H5") and e.x["name"][2:3].isupper() \
        and not e.x["name"].startswith("H5E")


def subs(t):
    seen = {}

    def go(x):
        if x in seen:
            return
        seen[x] = 1
        for a in x.args:
            for y in flat(a):
                go(y)
    go(t)
    return list(seen)


def flat(a):
    if isinstance(a, type(ZERO)):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from flat(x)


def h5name(t):
    """name of the HDF5 function whose result the term is"""
    return t.args[0] if t.op == "ret" and isinstance(t.args[0], str) and t.args[0].startswith("H5") else None


FILES = set()


def is_file(t):
    """identifier kept in a member between calls"""
    return t in FILES


def note_members(events):
    """members of the object handed to HDF5 functions as their first argument hold identifiers"""
    for e in events:
        if is_h5(e) and e.x["args"]:
            a = e.x["args"][0]
            if isinstance(a, type(ZERO)):
                FILES.update(x for x in subs(a) if x.op == "val" and show(x).startswith("<this"))


BOOL = ("gt0", "fgt0", "eq", "bool", "ge0", "feq")


class Space:
    """the variables that decide a set of conditions"""

    def __init__(self, conds, handles=()):
        self.handles = {}          # term -> values
        self.nums = {}             # scalar leaf -> candidate values
        self.bools = {}            # other comparison
        for h in handles:
            self.handles[h] = None
        for c in conds:
            self.cond(c)
        n = 10
        for h in self.handles:
            self.handles[h] = (-1, n)
            n += 1

    def cond(self, t):
        op = t.op
        if t is TRUE or t is FALSE:
            return
        if op in ("and", "or", "not"):
            for a in t.args:
                for y in flat(a):
                    self.cond(y)
            return
        if op == "ite":
            for y in flat(t.args):
                self.cond(y)
            return
        self.comparison(t)

    def comparison(self, t):
        if t in self.bools:
            return
        lv = self.leaves(t)
        if lv is None:
            self.bools[t] = (False, True)
            return
        hs, xs, conds = lv
        if xs and (hs or len(xs) > 1):
            self.bools[t] = (False, True)
            return
        for h in hs:
            self.handles[h] = None
        for c in conds:
            self.cond(c)
        if xs:
            x, = xs
            if t.op == "bool" or t is x:
                self.nums.setdefault(x, set()).update((0, 1))
                return
            k = self.roots(t, x)
            if k is None:
                self.bools[t] = (False, True)
                return
            self.nums.setdefault(x, set()).update(k)

    def leaves(self, t):
        """(handles, scalars, conditions inside) of a comparison; None: not simple"""
        hs, xs, cs = set(), set(), []

        def go(x):
            if h5name(x) or is_file(x):
                hs.add(x)
            elif x.op == "n":
                pass
            elif x.op in ("poly",) or x.op in BOOL:
                for y in flat(x.args):
                    if y.op != "n":
                        go(y)
            elif x.op == "ite":
                cs.append(x.args[0])
                go(x.args[1])
                go(x.args[2])
            elif x.op in ("val", "proj", "has", "ret", "phi", "phiend", "fresh", "?", "sym", "arg", "trip", "k"):
                xs.add(x)
            else:
                return False
            return True
        try:
            for y in flat(t.args):
                if y.op != "n" and go(y) is False:
                    return None
        except RecursionError:
            return None
        if t.op not in BOOL:
            return None
        return hs, xs, cs

    def roots(self, t, x):
        for y in flat(t.args):
            if y is x:
                return {0, 1, -1} if t.op != "bool" else {0, 1}
            if y.op == "poly":
                co = {m: c for m, c in y.args[0]}
                if set(co) <= {(), (x,)} and co.get((x,)) in (1, -1):
                    r = -co.get((), 0) * co[(x,)]
                    if isinstance(r, int) or getattr(r, "denominator", 2) == 1:
                        return {int(r) - 1, int(r), int(r) + 1}
        return None

    def domains(self):
        d = dict(self.handles)
        d.update({k: sorted(v) for k, v in self.nums.items()})
        d.update(self.bools)
        return d


class Need(Exception):
    def __init__(self, var):
        self.var = var


class Lazy(NumEval):
    def __init__(self, env, doms):
        NumEval.__init__(self, lambda t: env.get(t))
        self.env, self.doms = env, doms

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.doms:
            raise Need(t)
        return NumEval.ev(self, t)


class Val:
    def __init__(self, env, doms):
        self.env = env
        self.n = Lazy(env, doms)

    def ev(self, t):
        return self.n.ev(t)

    def true(self, conds):
        return all(self.n.ev(c) for c in conds)

    def num(self, t):
        """value of an argument, None when it is no identifier"""
        if not isinstance(t, type(ZERO)):
            return None
        try:
            v = self.n.ev(t)
        except Undecided:
            return None
        return int(v) if isinstance(v, (int,)) else None


def branch(doms, run, limit=20000):
    """run(valuation) for every assignment of the variables it turns out to need"""
    todo = [{}]
    n = 0
    while todo:
        env = todo.pop()
        n += 1
        if n > limit:
            raise Undecided("too many combinations")
        try:
            run(Val(env, doms))
        except Need as x:
            for y in reversed(list(doms[x.var])):
                e2 = dict(env)
                e2[x.var] = y
                todo.append(e2)


def interesting(E):
    return [e for e in E.events if is_h5(e) and isinstance(e.x.get("ret"), type(ZERO))]


def ident(a):
    return any(h5name(x) or is_file(x) for x in subs(a))


def paths(E, extra=(), body=None):
    """body(valuation, executed HDF5 calls) for every consistent combination; returns their number"""
    note_members(E.events)
    calls = interesting(E)
    conds = list(extra)
    handles = []
    for e in calls:
        conds.extend(e.pc)
        handles.append(e.x["ret"]) if h5name(e.x["ret"]) else None
        for a in e.x["args"]:
            if isinstance(a, type(ZERO)) and ident(a):
                conds.extend(x.args[0] for x in subs(a) if x.op == "ite")
                handles.extend(x for x in subs(a) if is_file(x))
    calls = [e for e in calls if not e.x["name"].startswith(("H5open", "H5check"))]
    used = {h for h in handles if matter(h)}
    doms = Space(conds, list(used)).domains()
    n = [0]

    def run(v):
        done = []
        for e in calls:
            if not v.true(e.pc):
                continue
            done.append(e)
            r = e.x["ret"]
            if r in used and any(isinstance(a, type(ZERO)) and a.op != "n" and ident(a) and v.num(a) == -1 for a in e.x["args"]):
                if v.ev(r) >= 0:
                    return      # a call that is given an invalid identifier fails
        body(v, done)
        n[0] += 1
    branch(doms, run)
    return n[0]


def matter(h):
    n = h5name(h)
    return n is None or not n.startswith(("H5open", "H5check", "H5Pset", "H5Tset", "H5Tget", "H5Sget", "H5Gget", "H5E")) and \
        not (n.endswith("close") and n[:2] == "H5")
