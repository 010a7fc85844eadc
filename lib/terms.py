"""Hash-consed value terms with a polynomial normal form.

Terms denote values a program expression has in terms of values the analysed entry
point starts with.  Arithmetic is normalised over the integers/rationals (machine
width is handled by separate type rules), comparisons are normalised to sign tests of
polynomials, so syntactically different but equal computations share one term.
"""
from fractions import Fraction

_tab = {}
_n = 0


class T(float):
    """Terms are interned; as floats (id + 1/2, never equal to an integer argument) they
    hash, compare and sort by creation order without leaving C."""
    __slots__ = ("op", "args", "id", "_s")

    def __repr__(self):
        return show(self)

    __str__ = __repr__


def mk(op, *args):
    global _n
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        _n += 1
        t = T(_n + 0.5)
        t.op = op
        t.args = args
        t.id = _n
        t._s = None
        _tab[k] = t
    return t


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if type(x) is T:
        raise TypeError("num of a term")
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return mk("sym", "flt:%r" % x)
        x = Fraction(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        x = int(x)
    return mk("n", x)


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("true"), mk("false")
NULL = mk("null")
_fresh = [0]


def sym(name):
    return mk("sym", name)


def fresh(desc=""):
    _fresh[0] += 1
    return mk("u", _fresh[0], desc)


def isnum(t):
    return t.op == "n"


# ---------------------------------------------------------------- polynomials
def todict(t):
    """term -> {monomial: coefficient}"""
    if t.op == "n":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {(t,): 1}


def _k0(x):
    return x[0]


def fromdict(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(((m, (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c))
                          for m, c in d.items()), key=_k0))
    return mk("poly", items)


def b2n(t):
    if t.op in BOOL:
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
    return t


def add(*ts):
    d = {}
    for t in ts:
        for m, c in todict(b2n(t)).items():
            d[m] = d.get(m, 0) + c
    return fromdict(d)


def mul(a, b):
    a, b = b2n(a), b2n(b)
    if a.op == "n" and a.args[0] == 1:
        return b
    if b.op == "n" and b.args[0] == 1:
        return a
    d = {}
    db = todict(b)
    for m, c in todict(a).items():
        for m2, c2 in db.items():
            mm = tuple(sorted(m + m2))
            mm = _cancel(mm)
            d[mm] = d.get(mm, 0) + c * c2
    return fromdict(d)


def _cancel(mm):
    # x * inv(x) = 1 (floating division atoms)
    for x in mm:
        if x.op == "inv" and x.args[0] in mm:
            l = list(mm)
            l.remove(x)
            l.remove(x.args[0])
            return _cancel(tuple(l))
    return mm


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def fdiv(a, b):
    if b.op == "n" and b.args[0] != 0:
        return mul(num(Fraction(1) / Fraction(b.args[0])), a)
    if a is b:
        return ONE
    d = todict(b)
    if len(d) == 1:
        (m, c), = d.items()
        r = num(Fraction(1) / Fraction(c))
        for x in m:
            r = mul(r, x.args[0] if x.op == "inv" else mk("inv", x))
        return mul(a, r)
    return mul(a, mk("inv", b))


def _divsplit(a, b):
    """split polynomial a into q*b + r with exact monomial division"""
    if b.op == "n":
        n = b.args[0]
        q, r = {}, {}
        for m, c in todict(a).items():
            if isinstance(c, int) and isinstance(n, int) and n != 0:
                qq = c // n if c % n == 0 else 0
                if qq:
                    q[m] = qq
                    if c - qq * n:
                        r[m] = c - qq * n
                else:
                    r[m] = c
            else:
                r[m] = c
        return fromdict(q), fromdict(r)
    db = todict(b)
    if len(db) == 1:
        (mb, cb), = db.items()
        q, r = {}, {}
        for m, c in todict(a).items():
            l = list(m)
            ok = isinstance(c, int) and isinstance(cb, int) and c % cb == 0
            for x in mb:
                if x in l:
                    l.remove(x)
                else:
                    ok = False
            if ok:
                q[tuple(l)] = c // cb
            else:
                r[m] = c
        return fromdict(q), fromdict(r)
    return ZERO, a


def idiv(a, b, facts=None):
    a, b = b2n(a), b2n(b)
    if a.op == "n" and b.op == "n" and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        q = abs(x) // abs(y)
        return num(q if (x >= 0) == (y >= 0) else -q)
    if b is ONE:
        return a
    q, r = _divsplit(a, b)
    if r is ZERO:
        return q
    if facts is not None and inrange(r, b, facts):
        return q
    if q is not ZERO:
        return add(q, mk("idiv", r, b))
    return mk("idiv", a, b)


def imod(a, b, facts=None):
    a, b = b2n(a), b2n(b)
    if a.op == "n" and b.op == "n" and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        r = abs(x) % abs(y)
        return num(r if x >= 0 else -r)
    if b is ONE:
        return ZERO
    q, r = _divsplit(a, b)
    if r is ZERO:
        return ZERO
    if facts is not None and inrange(r, b, facts):
        return r
    if r.op == "mod" and r.args[1] is b:
        return r
    return mk("mod", r, b)


def inrange(r, b, facts):
    return facts.ge0(r) and facts.gt0(sub(b, r))


# ---------------------------------------------------------------- booleans
BOOL = {"true", "false", "gt0", "eq0", "not", "and", "or", "fgt0", "feq0", "eq", "bool", "iteb"}
_ints = {}


def isfloat_poly(p):
    return False


def gt0(p):
    """p > 0 over the integers (p >= 1)"""
    if p.op == "n":
        return TRUE if p.args[0] > 0 else FALSE
    return mk("gt0", _prim(p))


def _prim(p):
    # divide by the positive content
    d = todict(p)
    g = 0
    from math import gcd
    for m, c in d.items():
        if not isinstance(c, int):
            return p
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        # floor of constant: p>0 <=> g*x + c > 0 <=> x > -c/g <=> x + floor((c-1)/g)+1 > 0
        dd = {m: c // g for m, c in d.items() if m != ()}
        c = d.get((), 0)
        dd[()] = (c - 1) // g + 1
        return fromdict(dd)
    return p


def ge0(p):
    return gt0(add(p, ONE))


def _nonneg_first(p):
    d = todict(p)
    items = sorted(d.items(), key=lambda x: tuple(a.id for a in x[0]))
    for m, c in items:
        if m != ():
            return c > 0
    return True


def lt(a, b, isint=True):
    a, b = b2n(a), b2n(b)
    p = sub(b, a)
    if isint:
        # canonical sign: keep the form whose leading coefficient is positive
        if p.op == "n":
            return TRUE if p.args[0] > 0 else FALSE
        if _nonneg_first(p):
            return gt0(p)
        return bnot(gt0(add(neg(p), ONE)))          # p>0 <=> not(-p >= 0)
    if p.op == "n":
        return TRUE if p.args[0] > 0 else FALSE
    if _nonneg_first(p):
        return mk("fgt0", p)
    return mk("flt0", neg(p))


def le(a, b, isint=True):
    return bnot(lt(b, a, isint))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in BOOL and b.op in BOOL:
        if b is TRUE:
            return a
        if b is FALSE:
            return bnot(a)
        if a is TRUE:
            return b
        if a is FALSE:
            return bnot(b)
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if a.op in BOOL and b.op == "n":
        return a if b.args[0] else bnot(a)
    if b.op in BOOL and a.op == "n":
        return b if a.args[0] else bnot(b)
    if a is NULL or b is NULL:
        o = b if a is NULL else a
        if o.op == "ptr":
            return FALSE
        if o.op == "n":
            return TRUE if o.args[0] == 0 else FALSE
        if o.op == "ite":
            return ite(o.args[0], eq(o.args[1], NULL), eq(o.args[2], NULL))
        return mk("eq", NULL, o)
    if a.op == "str" and b.op == "str":
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and (isnum(x.args[1]) or isnum(x.args[2])) and isnum(y):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if numeric(a) or numeric(b):
        p = sub(a, b)
        if p.op == "n":
            return TRUE if p.args[0] == 0 else FALSE
        if not _nonneg_first(p):
            p = neg(p)
        return mk("eq0", p)
    if a.id > b.id:
        a, b = b, a
    p = sub(a, b)
    if not _nonneg_first(p):
        p = neg(p)
    return mk("eq0", p)


def numeric(t):
    return t.op in ("n", "poly", "idiv", "mod")


_bm = {}


def bnot(t):
    r = _bm.get(t)
    if r is None:
        r = _bm[t] = _bnot(t)
    return r


def _bnot(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "and":
        return bor(*[bnot(x) for x in t.args])
    if t.op == "or":
        return band(*[bnot(x) for x in t.args])
    if t.op == "iteb":
        return mk("iteb", t.args[0], bnot(t.args[1]), bnot(t.args[2]))
    return mk("not", t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


_am, _om = {}, {}


def band(*ts):
    r = _am.get(ts)
    if r is None:
        r = _am[ts] = _band(ts)
    return r


def _band(ts):
    l = []
    for t in _flat("and", ts):
        if t is FALSE:
            return FALSE
        if t is TRUE or t in l:
            continue
        l.append(t)
    s = set(l)
    for t in l:
        if bnot(t) in s:
            return FALSE
    if not l:
        return TRUE
    # absorb:  a and (not a or b) = a and b
    res = []
    for t in l:
        if t.op == "or":
            if any(x in s for x in t.args):
                continue
            k = [x for x in t.args if bnot(x) not in s]
            if len(k) != len(t.args):
                t = bor(*k)
                if t is FALSE:
                    return FALSE
        if t not in res:
            res.append(t)
    if res != l:
        return band(*res)
    if len(l) == 1:
        return l[0]
    return mk("and", *sorted(l))


def bor(*ts):
    r = _om.get(ts)
    if r is None:
        r = _om[ts] = _bor(ts)
    return r


def _bor(ts):
    l = []
    for t in _flat("or", ts):
        if t is TRUE:
            return TRUE
        if t is FALSE or t in l:
            continue
        l.append(t)
    s = set(l)
    for t in l:
        if bnot(t) in s:
            return TRUE
    if not l:
        return FALSE
    res = []
    for t in l:
        if t.op == "and":
            if any(x in s for x in t.args):
                continue
            k = [x for x in t.args if bnot(x) not in s]
            if len(k) != len(t.args):
                t = band(*k)
                if t is TRUE:
                    return TRUE
        if t not in res:
            res.append(t)
    if res != l:
        return bor(*res)
    # (a and b) or (a and not b) = a
    for i, x in enumerate(l):
        if x.op == "and":
            for j in range(i + 1, len(l)):
                y = l[j]
                if y.op == "and" and len(x.args) == len(y.args):
                    d1 = [t for t in x.args if t not in y.args]
                    d2 = [t for t in y.args if t not in x.args]
                    if len(d1) == 1 and len(d2) == 1 and bnot(d1[0]) is d2[0]:
                        com = [t for t in x.args if t is not d1[0]]
                        rest = [t for q, t in enumerate(l) if q not in (i, j)]
                        return bor(band(*com), *rest)
    if len(l) == 1:
        return l[0]
    return mk("or", *sorted(l))


def tobool(t):
    """C++ contextual conversion to bool"""
    if t.op in BOOL:
        return t
    if t.op == "n":
        return TRUE if t.args[0] != 0 else FALSE
    if t is NULL:
        return FALSE
    if t.op in ("ptr", "str", "clo", "fn"):
        return TRUE
    if t.op == "ite":
        return ite(t.args[0], tobool(t.args[1]), tobool(t.args[2]))
    return mk("bool", t)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op in BOOL and b.op in BOOL:
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
        return bor(band(c, a), band(bnot(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if b.op == "ite" and b.args[1] is a:
        return ite(bor(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(band(bnot(c), b.args[0]), b.args[1], a)
    if a.op == "ite" and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(band(c, bnot(a.args[0])), a.args[2], b)
    if a.op == "store" and a.args[0] is b:
        return mk("store", b, a.args[1], ite(c, a.args[2], sel(b, a.args[1])))
    if a.op == "store" and b.op == "store" and a.args[1] is b.args[1]:
        return store(ite(c, a.args[0], b.args[0]), a.args[1], ite(c, a.args[2], b.args[2]))
    if b.op == "store" and b.args[0] is a:
        return mk("store", a, b.args[1], ite(c, sel(a, b.args[1]), b.args[2]))
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- arrays
def store(a, i, v):
    if a.op == "store" and a.args[1] is i:
        return mk("store", a.args[0], i, v)
    if a.op == "store" and isnum(sub(a.args[1], i)) and a.args[1].id > i.id:
        return mk("store", store(a.args[0], i, v), a.args[1], a.args[2])
    return mk("store", a, i, v)


def sel(a, i, facts=None):
    while True:
        if a.op == "store":
            d = sub(a.args[1], i)
            if d is ZERO:
                return a.args[2]
            if isnum(d):
                a = a.args[0]
                continue
            if facts is not None and (facts.gt0(d) or facts.gt0(neg(d))):
                a = a.args[0]
                continue
            break
        if a.op == "upd":
            base, lo, hi, ph, body = a.args
            if facts is not None:
                if facts.ge0(sub(i, lo)) and facts.gt0(sub(hi, i)):
                    break
                if facts.gt0(sub(lo, i)) or facts.ge0(sub(i, hi)):
                    a = base
                    continue
            break
        if a.op == "fill":
            return a.args[0]
        if a.op == "shift":
            return sel(a.args[0], add(i, a.args[1]), facts)
        if a.op == "lam":
            return subst(a.args[1], {a.args[0]: i})
        if a.op == "ite" and i.op != "ite":
            x, y = sel(a.args[1], i, facts), sel(a.args[2], i, facts)
            return ite(a.args[0], x, y)
        break
    return mk("sel", a, i)


def expand(t, facts=None, depth=12):
    """expand reads of summarised arrays inside t"""
    if depth <= 0:
        return t

    def f(x):
        if x.op == "sel" and x.args[0].op == "upd":
            base, lo, hi, ph, body = x.args[0].args
            i = x.args[1]
            inside = band(ge0(sub(i, lo)), gt0(sub(hi, i)))
            if facts is not None and facts.ge0(sub(i, lo)) and facts.gt0(sub(hi, i)):
                inside = TRUE
            return ite(inside, expand(subst(body, {ph: i}), facts, depth - 1),
                       expand(sel(base, i, facts), facts, depth - 1))
        if x.op == "sel" and x.args[0].op == "store":
            base, j, v = x.args[0].args
            i = x.args[1]
            return ite(eq(i, j), v, expand(sel(base, i, facts), facts, depth - 1))
        return x
    return rebuild(t, f)


# ---------------------------------------------------------------- generic traversal
def children(t):
    if t.op == "poly":
        for m, c in t.args[0]:
            for a in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def contains(t, x):
    st = [t]
    seen = set()
    while st:
        y = st.pop()
        if y is x:
            return True
        if y in seen:
            continue
        seen.add(y)
        st.extend(children(y))
    return False


def rebuild(t, f, memo=None):
    """bottom-up rewrite with renormalisation; f is applied to every rebuilt term"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            x = num(c)
            for a in m:
                x = mul(x, rebuild(a, f, memo))
            r = add(r, x)
    elif not any(isinstance(a, T) for a in t.args):
        r = t
    else:
        a = [rebuild(x, f, memo) if isinstance(x, T) else x for x in t.args]
        r = remake(op, a)
    r = f(r)
    memo[t] = r
    return r


def remake(op, a):
    if op == "gt0":
        return lt(ZERO, a[0])
    if op == "eq0":
        return eq(a[0], ZERO)
    if op == "fgt0":
        return lt(ZERO, a[0], False)
    if op == "flt0":
        return lt(a[0], ZERO, False)
    if op == "not":
        return bnot(a[0])
    if op == "and":
        return band(*a)
    if op == "or":
        return bor(*a)
    if op == "bool":
        return tobool(a[0])
    if op == "eq":
        return eq(*a)
    if op == "ite":
        return ite(*a)
    if op == "idiv":
        return idiv(*a)
    if op == "mod":
        return imod(*a)
    if op == "inv":
        return fdiv(ONE, a[0])
    if op == "sel":
        return sel(*a)
    if op == "store":
        return store(*a)
    return mk(op, *a)


BOOL.add("flt0")


def subst(t, m, facts=None):
    memo = dict(m)

    def f(x):
        if facts is not None and x.op in ("idiv", "mod"):
            return (idiv if x.op == "idiv" else imod)(x.args[0], x.args[1], facts)
        return x
    return rebuild(t, f, memo)


def simp(t, facts):
    """simplify divisions, comparisons and selections with the given facts"""
    def f(x):
        if x.op in ("idiv", "mod"):
            return (idiv if x.op == "idiv" else imod)(x.args[0], x.args[1], facts)
        if x.op == "gt0":
            if facts.gt0(x.args[0]):
                return TRUE
            if facts.ge0(neg(x.args[0])):
                return FALSE
        if x.op == "eq0":
            if facts.eq0(x.args[0]):
                return TRUE
            if facts.gt0(x.args[0]) or facts.gt0(neg(x.args[0])):
                return FALSE
        if x.op == "sel":
            return sel(x.args[0], x.args[1], facts)
        return x
    return rebuild(t, f)


# ---------------------------------------------------------------- facts
class Facts:
    """linear facts p >= 0 (integers) with a small, incomplete entailment test"""

    def __init__(self, lits=(), nonneg=None):
        self.nn = nonneg          # predicate: atom known to be >= 0
        self.ge = []              # polynomials >= 0
        self.lits = set()
        self.memo = {}
        for l in lits:
            self.assume(l)

    def copy(self):
        f = Facts((), self.nn)
        f.ge = list(self.ge)
        f.lits = set(self.lits)
        return f

    def assume(self, l):
        if l in self.lits:
            return
        self.memo = {}
        self.lits.add(l)
        if l.op == "and":
            for x in l.args:
                self.assume(x)
        elif l.op == "gt0":
            self.ge.append(sub(l.args[0], ONE))
        elif l.op == "not" and l.args[0].op == "gt0":
            self.ge.append(neg(l.args[0].args[0]))
        elif l.op == "eq0":
            self.ge.append(l.args[0])
            self.ge.append(neg(l.args[0]))
        elif l.op == "not" and l.args[0].op == "eq0":
            p = l.args[0].args[0]
            if self.ge0(p):
                self.ge.append(sub(p, ONE))
            elif self.ge0(neg(p)):
                self.ge.append(sub(neg(p), ONE))

    def atom_nn(self, a):
        if a.op in ("mod", "idiv") and isinstance(a.args[0], T):
            return self.ge0(a.args[0], 1)
        return bool(self.nn and self.nn(a))

    def mono_nn(self, m):
        # product of nonnegative atoms; squares are fine
        cnt = {}
        for a in m:
            cnt[a] = cnt.get(a, 0) + 1
        return all(n % 2 == 0 or self.atom_nn(a) for a, n in cnt.items())

    def triv(self, p):
        d = todict(p)
        if d.get((), 0) < 0:
            return False
        for m, c in d.items():
            if m != () and (c < 0 or not self.mono_nn(m)):
                return False
        return True

    FUEL = 400
    fuel = None

    def ge0(self, p, depth=3):
        if p.op == "n":
            return p.args[0] >= 0
        k = (p, depth)
        r = self.memo.get(k)
        if r is not None:
            return r
        top = self.fuel is None
        if top:
            self.fuel = self.FUEL
        elif self.fuel <= 0:
            return False
        self.fuel -= 1
        self.memo[k] = False
        r = self._ge0(p, depth)
        self.memo[k] = r
        if top:
            self.fuel = None
        return r

    def _ge0(self, p, depth):
        if ge0(p) in self.lits or lt(neg(p), ONE) in self.lits or le(ZERO, p) in self.lits:
            return True
        if self.triv(p):
            return True
        # bounds of mod: 0 <= x mod y < y (for nonneg x); idiv(x,y)*y <= x
        if p.op == "poly" or True:
            d = todict(p)
            for m, c in d.items():
                if c < 0:
                    for x in m:
                        if x.op == "mod":
                            rest = list(m)
                            rest.remove(x)
                            # replace x by y-1 (upper bound) when the rest is nonnegative
                            if self.mono_nn(tuple(rest)) and depth > 0 and self.ge0(x.args[0], 1):
                                rm = ONE
                                for a in rest:
                                    rm = mul(rm, a)
                                q = add(p, mul(num(-c), mul(rm, x)), mul(num(c), mul(rm, sub(x.args[1], ONE))))
                                if self.ge0(q, depth - 1):
                                    return True
                        if x.op == "idiv" and depth > 0:
                            rest = list(m)
                            rest.remove(x)
                            if x.args[1] in rest and self.ge0(x.args[0], 1):
                                rest.remove(x.args[1])
                                if self.mono_nn(tuple(rest)):
                                    rm = ONE
                                    for a in rest:
                                        rm = mul(rm, a)
                                    q = add(p, mul(num(-c), mul(rm, mul(x, x.args[1]))), mul(num(c), mul(rm, x.args[0])))
                                    if self.ge0(q, depth - 1):
                                        return True
        if depth <= 0:
            return False
        # p = f + rest with f >= 0 known: try to subtract facts sharing a negative monomial
        d = todict(p)
        negs = [(m, c) for m, c in d.items() if c < 0]
        for f in self.ge:
            df = todict(f)
            for m, c in negs:
                cf = df.get(m, 0)
                if cf < 0 and m != ():
                    k = Fraction(c) / Fraction(cf)
                    q = sub(p, mul(num(k), f))
                    if self.ge0(q, depth - 1):
                        return True
                elif m != ():
                    # multiply a linear fact by one nonnegative atom
                    for a in set(m):
                        mm = list(m)
                        mm.remove(a)
                        cf = df.get(tuple(mm), 0)
                        if cf < 0 and self.mono_nn((a,)):
                            k = Fraction(c) / Fraction(cf)
                            q = sub(p, mul(num(k), mul(f, a)))
                            if self.ge0(q, depth - 1):
                                return True
            if () in d and d[()] < 0 and df.get((), 0) < 0 and len(negs) == 1:
                q = sub(p, f)
                if self.ge0(q, depth - 1):
                    return True
        return False

    def gt0(self, p):
        return self.ge0(sub(p, ONE))

    def eq0(self, p):
        return p is ZERO or (self.ge0(p) and self.ge0(neg(p)))

    def holds(self, c):
        """is the literal/formula c implied?"""
        if c is TRUE or c in self.lits:
            return True
        if c.op == "and":
            return all(self.holds(x) for x in c.args)
        if c.op == "or":
            return any(self.holds(x) for x in c.args)
        if c.op == "gt0":
            return self.gt0(c.args[0])
        if c.op == "not" and c.args[0].op == "gt0":
            return self.ge0(neg(c.args[0].args[0]))
        if c.op == "eq0":
            return self.eq0(c.args[0])
        if c.op == "not" and c.args[0].op == "eq0":
            p = c.args[0].args[0]
            return self.gt0(p) or self.gt0(neg(p))
        return False


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if t._s is not None:
        return t._s
    if d > 14:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if op == "n":
        r = str(a[0])
    elif op == "sym":
        r = str(a[0])
    elif op == "u":
        r = "?%d%s" % (a[0], ":" + a[1] if a[1] else "")
    elif op == "poly":
        parts = []
        for m, c in a[0]:
            ms = "*".join(s(x) for x in m)
            parts.append(str(c) if not m else (ms if c == 1 else "-" + ms if c == -1 else "%s*%s" % (c, ms)))
        r = "(" + " + ".join(parts) + ")"
    elif op == "root":
        r = str(a[1]) + ("" if len(a) < 3 or a[0] == "this" else "#%s" % a[2])
    elif op == "loc":
        p, k = a[0], a[1]
        r = s(p) + ("[" + s(a[2]) + "]" if k == "[]" else "." + str(a[2]) if k == "." else k)
    elif op == "deref":
        r = "*" + s(a[0])
    elif op == "val":
        r = "<" + s(a[0]) + ">"
    elif op == "ptr":
        r = "&" + s(a[0]) + ("" if a[1] == "obj" else "+" + s(a[1]) if a[1] is not ZERO else "")
    elif op == "gt0":
        r = s(a[0]) + ">0"
    elif op == "eq0":
        r = s(a[0]) + "==0"
    elif op == "not":
        r = "!(" + s(a[0]) + ")"
    elif op == "sel":
        r = s(a[0]) + "[" + s(a[1]) + "]"
    else:
        r = op + "(" + ", ".join(s(x) for x in a) + ")"
    if len(r) > 400:
        r = r[:400] + "…"
    if d < 6:
        t._s = r
    return r
