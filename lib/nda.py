"""Evaluates terms over small arrays of any rank: shapes, aranges, reshaping, selections, sums of indices.
The terms are summaries the interpreter extracted; nothing of /repo is run."""
import itertools
from pychk import Unknown, bcast, const   # noqa


class Arr:
    def __init__(self, shape, flat):
        self.shape, self.flat = tuple(shape), list(flat)
        n = 1
        for x in self.shape:
            n *= x
        if n != len(self.flat):
            raise Unknown("shape %s for %d values" % (self.shape, len(self.flat)))

    def at(self, idx):
        i = 0
        for x, n in zip(idx, self.shape):
            i = i * n + x
        return self.flat[i]

    def transposed(self, axes):
        s = tuple(self.shape[a] for a in axes)
        out = []
        for idx in itertools.product(*[range(n) for n in s]):
            src = [0] * len(axes)
            for a, x in zip(axes, idx):
                src[a] = x
            out.append(self.at(src))
        return Arr(s, out)


def zipped(op, a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.shape != b.shape:
            raise Unknown("shapes")
        return Arr(a.shape, bcast(op, a.flat, b.flat))
    if isinstance(a, Arr):
        return Arr(a.shape, bcast(op, a.flat, b))
    if isinstance(b, Arr):
        return Arr(b.shape, bcast(op, a, b.flat))
    if op == "+" and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(a, tuple) or isinstance(b, tuple):
        raise Unknown("tuple")
    return bcast(op, a, b)


def prod(v):
    n = 1
    for x in (v.flat if isinstance(v, Arr) else v if isinstance(v, tuple) else (v,)):
        n *= x
    return n


def select(a, key):
    """numpy's basic indexing, and one integer array"""
    if isinstance(a, tuple):
        if isinstance(key, (int, slice)) and not isinstance(key, bool):
            return a[key]
        raise Unknown("key")
    if not isinstance(a, Arr):
        raise Unknown("item of a number")
    key = key if isinstance(key, tuple) else (key,)
    if any(isinstance(k, Arr) for k in key):
        if len(key) != 1 or any(isinstance(x, bool) for x in key[0].flat):
            raise Unknown("key")
        rest = a.shape[1:]
        n = prod(rest)
        out = []
        for i in key[0].flat:
            if not -a.shape[0] <= i < a.shape[0]:
                raise Unknown("index out of range")
            i %= a.shape[0]
            out += a.flat[i * n:(i + 1) * n]
        return Arr(key[0].shape + rest, out)
    if any(k is Ellipsis for k in key):
        i = key.index(Ellipsis)
        key = key[:i] + (slice(None),) * (len(a.shape) - len(key) + 1) + key[i + 1:]
    if len(key) > len(a.shape):
        raise Unknown("too many indices")
    key += (slice(None),) * (len(a.shape) - len(key))
    ranges, s = [], []
    for k, n in zip(key, a.shape):
        if isinstance(k, slice):
            ranges.append(range(*k.indices(n)))
            s.append(len(ranges[-1]))
        elif isinstance(k, int) and not isinstance(k, bool):
            if not -n <= k < n:
                raise Wrong("index %d of an axis of %d" % (k, n))
            ranges.append((k % n,))
        else:
            raise Unknown("key")
    out = [a.at(i) for i in itertools.product(*ranges)]
    return Arr(s, out) if s else out[0]


class Wrong(Exception):
    """the evaluated program itself fails here"""


class Nd:
    def __init__(self, env, atom=None):
        self.env, self.atom = dict(env), atom

    def value(self, t, env=None):
        if env:
            return Nd({**self.env, **env}, self.atom).value(t)
        try:
            return self.ev(t)
        except (KeyError, TypeError, IndexError, ValueError, AttributeError, ZeroDivisionError) as x:
            raise Unknown(str(x)[:60])

    def shape(self, v):
        return v if isinstance(v, tuple) else (v,)

    def reshape(self, a, s):
        s = list(s)
        if -1 in s:
            i = s.index(-1)
            r = prod(tuple(x for x in s if x != -1))
            s[i] = len(a.flat) // r
        if prod(tuple(s)) != len(a.flat):
            raise Wrong("%d values into shape %s" % (len(a.flat), tuple(s)))
        return Arr(s, a.flat)

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if self.atom is not None:
            r = self.atom(t)
            if r is not None:
                return r
        o = t[0]
        E = self.ev
        if o == "const":
            return t[1]
        if o in ("tuple", "list"):
            out = ()
            for x in t[1]:
                out += tuple(E(x[1])) if x[0] == "star" else (E(x),)
            return out
        if o == "slice":
            return slice(*[E(x) for x in t[1:]])
        if o == "bin":
            return zipped(t[1], E(t[2]), E(t[3]))
        if o == "neg":
            return zipped("*", E(t[1]), -1)
        if o == "attr":
            v = E(t[1])
            if t[2] == "shape" and isinstance(v, Arr):
                return v.shape
            if t[2] == "size" and isinstance(v, Arr):
                return len(v.flat)
            if t[2] == "ndim" and isinstance(v, Arr):
                return len(v.shape)
            if t[2] == "T" and isinstance(v, Arr):
                return v.transposed(range(len(v.shape))[::-1])
            raise Unknown(t)
        if o == "item":
            return select(E(t[1]), E(t[2]))
        if o == "comp":
            if len(t) > 4 and t[4]:
                raise Unknown(t)
            it = E(t[3])
            out = []
            for x in (it.flat if isinstance(it, Arr) and len(it.shape) == 1 else it):
                hits = [y for y in walk_(t[2]) if y[0] == "elem" and y[1] == t[3]]
                out.append(Nd({**self.env, **{h: x for h in hits}}, self.atom).ev(t[2]))
            return tuple(out)
        if o == "meth":
            n, a = t[1], E(t[2])
            if not isinstance(a, Arr):
                raise Unknown(t)
            if n in ("ravel", "flatten") and not t[3]:
                return Arr((len(a.flat),), a.flat)
            if n in ("copy", "astype", "view"):
                return a
            if n == "reshape":
                s = [E(x) for x in t[3]]
                return self.reshape(a, s[0] if len(s) == 1 and isinstance(s[0], tuple) else s)
            if n == "transpose":
                s = [E(x) for x in t[3]]
                s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
                return a.transposed(s or range(len(a.shape))[::-1])
            if n == "swapaxes":
                i, j = [E(x) % len(a.shape) for x in t[3]]
                ax = list(range(len(a.shape)))
                ax[i], ax[j] = ax[j], ax[i]
                return a.transposed(ax)
            if n == "repeat" and len(t[3]) == 1:
                return Arr((len(a.flat) * E(t[3][0]),), [x for x in a.flat for _ in range(E(t[3][0]))])
            raise Unknown(t)
        if o == "call":
            n = t[1].split(".")[-1]
            a = [E(x[1]) if x[0] == "star" else E(x) for x in t[2]]
            if n == "arange":
                return Arr((len(range(*a)),), range(*a))
            if n == "prod":
                return prod(a[0])
            if n in ("int", "tuple", "list", "asarray", "array", "int64", "copy", "deepcopy", "ascontiguousarray"):
                return a[0]
            if n == "len":
                return a[0].shape[0] if isinstance(a[0], Arr) else len(a[0])
            if n == "range":
                return tuple(range(*a))
            if n in ("ravel",):
                return Arr((len(a[0].flat),), a[0].flat)
            if n == "reshape":
                return self.reshape(a[0], self.shape(a[1]))
            if n == "repeat" and len(a) == 2 and isinstance(a[1], int):
                return Arr((len(a[0].flat) * a[1],), [x for x in a[0].flat for _ in range(a[1])])
            if n == "tile" and len(a) == 2 and isinstance(a[1], int):
                return Arr((len(a[0].flat) * a[1],), a[0].flat * a[1])
            if n in ("append", "concatenate", "hstack"):
                seq = a[0] if n != "append" else a[:2]
                out = []
                for v in seq:
                    out += list(v.flat) if isinstance(v, Arr) else list(v)
                return Arr((len(out),), out)
            if n in ("floor_divide", "mod", "add", "multiply", "subtract"):
                return zipped({"floor_divide": "//", "mod": "%", "add": "+", "multiply": "*", "subtract": "-"}[n], a[0], a[1])
        raise Unknown(t)


def walk_(t):
    from pychk import walk
    return walk(t)


def rows(v):
    """what a loop over v hands out"""
    if isinstance(v, Arr):
        return [select(v, i) for i in range(v.shape[0])]
    if isinstance(v, (tuple, list, range)):
        return list(v)
    raise Unknown("loop")


def passes(N, loops):
    """environments of all passes of nested loops [(uid, term of what is iterated)]"""
    if not loops:
        yield {}
        return
    (uid, it), rest = loops[0], loops[1:]
    if it is None:
        raise Unknown("while loop")
    parts = [it]
    if it[0] == "call" and it[1].split(".")[-1] in ("enumerate", "zip"):
        parts = list(it[2])
    seqs = []
    for x in parts:
        try:
            seqs.append(rows(N.value(x)))
        except Unknown:
            seqs.append(None)
    known = [s for s in seqs if s is not None]
    if not known:
        raise Unknown("loop over %s" % it[1] if isinstance(it[1], str) else "loop")
    for i in range(min(len(s) for s in known)):
        env = {("idx", uid): i}
        for x, s in zip(parts, seqs):
            if s is not None:
                env[("elem", x, uid)] = s[i]
        for e in passes(Nd({**N.env, **env}, N.atom), rest):
            yield {**env, **e}
