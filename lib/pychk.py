"""Shared helpers of the checks of the Python package."""
import ast

import pyeng
from pyeng import *

SA = "SparseArray"
SELF = ("param", "self")
IMAGE, IO, SPARSE, COMPAT, CONTRIB = "stempy.image", "stempy.io", "stempy.io.sparse_array", "stempy.io.compatibility", "stempy.contrib"
STATE = ("data", "scan_shape", "frame_shape")


class Run:
    def __init__(self, name, P, exits, at, node):
        self.name, self.P, self.exits, self.at, self.node = name, P, exits, at, node

    def returns(self):
        return [(x, o[1] if o is not None else NONE) for x, o in self.exits if o is None or o[0] == "return"]

    def escapes(self):
        """(state, where) of every way an exception can leave the function"""
        out = [(x, o[3] if len(o) > 3 else self.at) for x, o in self.exits if o is not None and o[0] == "raise"]
        for x, tr, at, node, dep in self.P.raises:
            if not tr:
                out.append((x, at))
        return out


def sparse(ctx, P=None):
    P = P or Py()
    c = P.cls(SA)
    ctx.require(c is not None, "class SparseArray not found")
    return c


def settings(ctx):
    """constructor parameters that are stored unchanged and are neither data, shape nor metadata"""
    P = Py()
    c = sparse(ctx, P)
    k, v = P.member(c, "__init__")
    out = []
    r = P.run(v, {"self": P.instance("self", SA)})
    for x, o in r:
        for (obj, a), w in x.heap.items():
            if obj == SELF and w.t == ("param", a) and a not in STATE + ("metadata",) and a not in out:
                out.append(a)
    ctx.require(out, "settings of SparseArray not found")
    return out


def attributes(ctx):
    """attributes the constructor sets"""
    P = Py()
    c = sparse(ctx, P)
    k, v = P.member(c, "__init__")
    out = set()
    for x, o in P.run(v, {"self": P.instance("self", SA)}):
        out |= {a for (obj, a) in x.heap if obj == SELF}
    return out


def where(P, node, mod):
    return "%s:%d" % (mod.path, node.lineno)


def public_methods(ctx):
    c = sparse(ctx)
    out = []
    for n, ms in c.members.items():
        if isinstance(ms, list) and (not n.startswith("_") or n in ("__getitem__", "__len__", "__iter__", "__call__", "__add__")):
            out.append(n)
    return out


def method(ctx, name, args=None, opaque=(), setter=False, kwargs=None):
    """analyse one method of SparseArray as an entry point; None when it is too large to follow"""
    P = Py(opaque=opaque)
    c = sparse(ctx, P)
    if setter:
        v = P.setter(c, name)
        kind = "method"
    else:
        kind, v = P.member(c, name)
    node = [n for n in c.members[name]][-1 if setter else 0]
    a = {"self": P.instance("self", SA), "cls": V(("class", SA), fn=c), "args": P.seq("tuple", []),
         "kwargs": V(("dict", ()), d=dict(kwargs or {}))}
    a.update(args or {})
    try:
        ex = P.run(v, a)
    except (Budget, RecursionError):
        return None
    ctx.count("abstract paths", len(ex))
    return Run(SA + "." + name, P, ex, where(P, node, c.mod), node)


def functions_with_array(ctx, mods=(IMAGE,)):
    """public functions with a parameter that is a SparseArray: (module, name, parameter)"""
    P = Py()
    out = []
    for mn in mods:
        m = P.mods.get(mn)
        if m is None:
            continue
        for n, node in m.names.items():
            if not isinstance(node, ast.FunctionDef):
                continue
            for a in node.args.args:
                ann = ast.unparse(a.annotation) if a.annotation is not None else ""
                used = {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == a.arg}
                doc = ast.get_docstring(node) or ""
                if SA in ann or used & {"scan_shape", "frame_shape", "num_scans"} or ":type %s: SparseArray" % a.arg in doc or \
                        n == "create_stem_images" and a.arg == "input":
                    out.append((mn, n, a.arg))
    return out


def function(ctx, mod, name, args=None, opaque=(), arrays=()):
    P = Py(opaque=opaque)
    m = P.mods[mod]
    v = P.module_name(m, name, St({}, {}))
    a = {p: P.instance(p, SA) for p in arrays}
    a.update(args or {})
    try:
        ex = P.run(v, a)
    except (Budget, RecursionError):
        return None
    ctx.count("abstract paths", len(ex))
    node = m.names[name]
    return Run(mod.split(".")[-1] + "." + name, P, ex, where(P, node, m), node)


def tokens_of(t, obj):
    """is the storage token t part of object obj, going by its access path"""
    while t != obj:
        o = t[0]
        if o in ("attr", "item", "elem", "el"):
            t = t[1]
        elif o == "call" and t[1].split(".")[-1] in ("enumerate", "zip", "reversed", "iter", "list", "tuple", "asarray", "ndenumerate", "nditer"):
            return any(tokens_of(x, obj) for x in t[2])
        elif o == "meth" and t[1] in ("values", "items", "view", "reshape", "ravel"):
            t = t[2]
        elif o in ("tuple", "list", "joined"):
            return any(tokens_of(x, obj) for x in t[1] if isinstance(x, tuple))
        else:
            return False
    return True


def definite(s, obj):
    return [t for t, d in s if d and tokens_of(t, obj)]


def last(heap, obj, attr):
    v = heap.get((obj, attr))
    return v.t if v is not None else ("attr", obj, attr)


def evalt(t, env, atom=None):
    """numeric value of a term; env: {term: value}; raises KeyError when something is unknown"""
    if t in env:
        return env[t]
    o = t[0]
    if atom is not None:
        r = atom(t)
        if r is not None:
            return r
    E = lambda x: evalt(x, env, atom)
    if o == "const":
        return t[1]
    if o == "bin":
        a, b = E(t[2]), E(t[3])
        return bcast(t[1], a, b)
    if o == "cmp":
        a = E(t[2])
        if t[1] in ("is", "is not"):
            b = E(t[3])
            return (a is b or a == b) == (t[1] == "is")
        b = E(t[3])
        if t[1] in ("in", "not in"):
            if isinstance(b, (tuple, str)) and not isinstance(a, list):
                return (a in b) == (t[1] == "in")
            raise KeyError(t[1])
        return bcast(t[1], a, b)
    if o == "not":
        return not E(t[1])
    if o == "inv":
        a = E(t[1])
        return [not x for x in a] if isinstance(a, list) else not a
    if o == "neg":
        a = E(t[1])
        return [-x for x in a] if isinstance(a, list) else -a
    if o == "and":
        r = True
        for x in t[1]:
            r = E(x)
            if not r:
                return r
        return r
    if o == "or":
        r = False
        for x in t[1]:
            r = E(x)
            if r:
                return r
        return r
    if o in ("tuple", "list"):
        return tuple(E(x) for x in t[1])
    if o == "meth" and t[1] in ("astype", "copy", "ravel", "flatten", "view"):
        return E(t[2])
    if o == "meth" and t[1] in ("any", "all", "max", "min", "sum") and not t[3]:
        f = {"any": any, "all": all, "max": max, "min": min, "sum": sum}[t[1]]
        return f(aslist(E(t[2])))
    if o == "call":
        n = t[1].split(".")[-1]
        if n in ("any", "all", "sum", "max", "min", "amax", "amin") and len(t[2]) >= 1:
            f = {"any": any, "all": all, "max": max, "amax": max, "min": min, "amin": min, "sum": sum}[n]
            return f(aslist(E(t[2][0])) if len(t[2]) == 1 else [E(x) for x in t[2]])
        if n in ("asarray", "array", "int", "bool", "int64", "copy", "deepcopy", "tuple", "list", "float"):
            v = E(t[2][0])
            return v
        if n in ("count_nonzero",):
            return sum(1 for x in aslist(E(t[2][0])) if x)
        if n == "len":
            return len(E(t[2][0]))
        if n in ("logical_and", "logical_or"):
            a, b = E(t[2][0]), E(t[2][1])
            return bcast("and" if n == "logical_and" else "or", a, b)
        if n in ("maximum", "minimum"):
            return bcast(n, E(t[2][0]), E(t[2][1]))
        if n in ("subtract", "add", "multiply", "floor_divide", "mod", "greater", "greater_equal", "less", "not_equal"):
            op = {"subtract": "-", "add": "+", "multiply": "*", "floor_divide": "//", "mod": "%", "greater": ">", "greater_equal": ">=", "less": "<", "not_equal": "!="}[n]
            return bcast(op, E(t[2][0]), E(t[2][1]))
        if n == "where" and len(t[2]) == 3:
            c, a, b = [E(x) for x in t[2]]
            if not isinstance(c, list):
                return a if c else b
            return [(a[i] if isinstance(a, list) else a) if c[i] else (b[i] if isinstance(b, list) else b) for i in range(len(c))]
    if o == "item":
        a, k = E(t[1]), E(t[2])
        if isinstance(a, list) and isinstance(k, list):
            return [x for x, y in zip(a, k) if y] if all(isinstance(y, bool) for y in k) else [a[i] for i in k]
        if isinstance(a, (list, tuple)) and isinstance(k, int):
            return a[k]
    raise KeyError(t)


def aslist(a):
    return a if isinstance(a, (list, tuple)) else [a]


def bcast(op, a, b):
    f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "//": lambda x, y: x // y, "%": lambda x, y: x % y,
         "/": lambda x, y: x / y, "**": lambda x, y: x ** y, "<<": lambda x, y: x << y, ">>": lambda x, y: x >> y, "&": lambda x, y: x & y,
         "|": lambda x, y: x | y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y, "<=": lambda x, y: x <= y,
         ">": lambda x, y: x > y, ">=": lambda x, y: x >= y, "and": lambda x, y: x and y, "or": lambda x, y: x or y,
         "maximum": max, "minimum": min}.get(op)
    if f is None:
        raise KeyError(op)
    try:
        if isinstance(a, list) and isinstance(b, list):
            return [f(x, y) for x, y in zip(a, b)]
        if isinstance(a, list):
            return [f(x, b) for x in a]
        if isinstance(b, list):
            return [f(a, y) for y in b]
        return f(a, b)
    except (TypeError, ZeroDivisionError):
        raise KeyError(op)


class Unknown(Exception):
    pass


class Sizes:
    """numbers of elements from the terms that build arrays; sizes of selections are named unknowns"""

    def __init__(self, env):
        self.env = env
        self.named = {}
        self.used = set()

    def opaque(self, t):
        try:
            t = ("selection", self.size(t[1]), t[2])     # whichever array of that size it is applied to
        except (Unknown, KeyError, TypeError, IndexError):
            pass
        self.used.add(t)
        return self.named.setdefault(t, 1009 + 97 * len(self.named))

    def shape_of(self, t):
        """term of the array whose shape the shape term is, or None"""
        while t[0] == "call" and t[1].split(".")[-1] in ("tuple", "list") and t[2]:
            t = t[2][0]
        return t[1] if t[0] == "attr" and t[2] == "shape" else None

    def prod(self, t):
        """product of a shape term"""
        a = self.shape_of(t)
        if a is not None:
            return self.size(a)
        v = self.num(t)
        n = 1
        for x in (v if isinstance(v, (list, tuple)) else (v,)):
            n *= x
        return n

    def num(self, t):
        if t in self.env:
            return self.env[t]
        o = t[0]
        if o == "const":
            return t[1]
        if o in ("tuple", "list"):
            out = ()
            for x in t[1]:
                out += tuple(self.num(x[1])) if x[0] == "star" else (self.num(x),)
            return out
        if o == "bin":
            a, b = self.num(t[2]), self.num(t[3])
            if t[1] == "+" and isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            return bcast(t[1], a, b)
        if o == "comp":
            it = self.num(t[3])
            if len(t) > 4 and t[4]:
                raise Unknown(t)
            out = []
            for x in it:
                saved = dict(self.env)
                self.env[("elem", t[3], t[1])] = x
                out.append(self.num(t[2]))
                self.env = saved
            return tuple(out)
        if o == "call":
            n = t[1].split(".")[-1]
            if n in ("tuple", "list", "int", "array", "asarray"):
                return self.num(t[2][0])
            if n == "prod" and len(t[2]) == 1:
                return self.prod(t[2][0])
            if n == "len":
                try:
                    return len(self.num(t[2][0]))
                except (Unknown, TypeError):
                    return self.lead(t[2][0])
        if o == "attr" and t[2] == "size":
            return self.size(t[1])
        if o == "item" and t[2] == ("const", 0) and self.shape_of(t[1]) is not None:
            return self.lead(self.shape_of(t[1]))
        if o == "item":
            v = self.num(t[1])
            k = self.slice(t[2])
            return v[k]
        raise Unknown(t)

    def slice(self, t):
        if t[0] == "slice":
            return slice(*[self.num(x) for x in t[1:4]])
        return self.num(t)

    def lead(self, t):
        """number of positions (first axis)"""
        if t in self.env and isinstance(self.env[t], (list, tuple)):
            return len(self.env[t])
        o = t[0]
        if o == "new":
            return self.lead(t[2])
        if o == "attr" and t[2] == "T":
            x = t[1]
            while x[0] == "call" and x[1].split(".")[-1] in ("array", "asarray", "stack", "vstack") and x[2]:
                x = x[2][0]
            if x[0] == "call" and x[1].split(".")[-1] == "unravel_index":
                return self.size(x[2][0])
            raise Unknown(t)
        if o == "attr" and t[2] == "data":
            return self.num(("call", "numpy.prod", (("attr", t[1], "scan_shape"),), ()))
        if o == "call":
            n = t[1].split(".")[-1]
            if n in ("empty", "zeros", "ones", "full"):
                s = t[2][0]
                a = self.shape_of(s)
                if a is not None:
                    return self.lead(a)
                if s[0] in ("tuple", "list"):
                    return self.num(s[1][0])
                v = self.num(s)
                return v[0] if isinstance(v, tuple) else v
            if n in ("empty_like", "zeros_like", "full_like", "deepcopy", "copy", "asarray", "ascontiguousarray", "array") and t[2]:
                return self.lead(t[2][0])
            if n == "arange" and len(t[2]) == 1:
                return self.num(t[2][0])
            if n in ("argwhere", "flatnonzero"):
                raise Unknown(t)
            if n in ("enumerate",) and t[2]:
                return self.lead(t[2][0])
            if n == "take" and len(t[2]) >= 2 and (("axis", ("const", 0)) in t[3]):
                return self.size(t[2][1])
        if o == "meth" and t[1] in ("copy", "astype", "view", "__deepcopy__"):
            return self.lead(t[2])
        if o == "meth" and t[1] in ("ravel", "flatten"):
            return self.size(t[2])
        if o == "item":
            k = t[2]
            if k[0] == "tuple":
                if k[1] and k[1][0] == ("slice", ("const", None), ("const", None), ("const", None)):
                    return self.lead(t[1])
                raise Unknown(t)
            if k[0] in ("slice", "const"):
                raise Unknown(t)
            return self.size(k)
        raise Unknown(t)

    def size(self, t):
        """number of elements"""
        o = t[0]
        if o == "new":
            return self.size(t[2])
        if o == "meth" and t[1] in ("ravel", "flatten", "copy", "astype", "reshape", "view", "squeeze", "transpose"):
            return self.size(t[2])
        if o == "attr" and t[2] in ("T", "flat"):
            return self.size(t[1])
        if o == "call":
            n = t[1].split(".")[-1]
            if n in ("ravel", "reshape", "asarray", "copy", "deepcopy", "ascontiguousarray", "transpose", "sort") and t[2]:
                return self.size(t[2][0])
            if n == "arange" and len(t[2]) == 1:
                return self.num(t[2][0])
            if n in ("empty", "zeros", "ones", "full"):
                return self.prod(t[2][0])
        if o == "item" and t[2][0] != "slice" and not any(x[0] == "cmp" for x in walk(t[2])):
            return self.opaque(t)
        raise Unknown(t)
