"""Abstract interpreter for the Python part of stempy.

Functions are interpreted over symbolic terms with one abstract execution per control-flow path
(loops: one abstract pass with havocked loop variables).  Repository functions, properties,
decorators and closures are inlined; everything else is an uninterpreted call.  Besides terms every
value carries the storage it may share (st: its own buffer, el: the buffers of its elements)."""
import ast
import os

import ir

MAXP = 300
DEPTH = 14
WIDE = 6
EMPTY = frozenset()

BUILTINS = {"isinstance", "len", "tuple", "list", "range", "enumerate", "zip", "sorted", "reversed", "any", "all",
            "hasattr", "getattr", "max", "min", "sum", "abs", "int", "float", "str", "set", "dict", "print", "type",
            "issubclass", "super", "object", "bool", "round", "map", "filter", "id", "repr", "iter", "next", "slice",
            "setattr", "delattr", "open", "vars", "frozenset", "callable", "divmod", "pow", "NotImplemented", "Ellipsis",
            "property", "staticmethod", "classmethod", "Exception", "ValueError", "IndexError", "KeyError", "TypeError",
            "FileNotFoundError", "NotImplementedError", "StopIteration", "RuntimeError", "AttributeError", "OSError",
            "IOError", "AssertionError", "ImportError", "BaseException", "LookupError", "ZeroDivisionError"}
SAFE = {"isinstance", "len", "tuple", "hasattr", "type", "issubclass", "list", "dict", "range", "enumerate", "zip", "reversed",
        "builtins.slice", "slice", "super", "print", "warnings.warn", "set", "str", "repr", "id", "bool", "getattr", "property"}
VIEWS = {"ravel", "reshape", "view", "transpose", "squeeze", "swapaxes"}
VIEWFN = {"numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.atleast_1d", "numpy.atleast_2d",
          "numpy.transpose", "numpy.asanyarray", "numpy.expand_dims", "stempy.utils.safe_array"}
SHALLOW = {"numpy.array", "copy.copy", "numpy.copy", "numpy.append", "numpy.repeat", "numpy.stack", "numpy.vstack",
           "numpy.take", "numpy.delete", "numpy.insert", "numpy.tile", "numpy.roll"}
ALLOC = {"numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.zeros_like", "numpy.empty_like", "numpy.full_like"}
MUTATORS = {"sort", "fill", "resize", "put", "itemset", "partition", "append", "extend", "insert", "pop", "update",
            "clear", "setdefault", "remove", "setfield", "byteswap", "popitem", "reverse"}
MUTFN = {"numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.add.at": 0, "numpy.subtract.at": 0,
         "numpy.maximum.at": 0, "numpy.minimum.at": 0, "numpy.fill_diagonal": 0, "numpy.random.shuffle": 0}
DELETED = ("deleted",)


class V:
    __slots__ = ("t", "st", "el", "cls", "fn", "items", "d", "lv", "open")

    def __init__(self, t, st=EMPTY, el=EMPTY, cls=None, fn=None, items=None, d=None, lv=None, open=False):
        self.t, self.st, self.el, self.cls, self.fn, self.items, self.d, self.lv, self.open = t, st, el, cls, fn, items, d, lv, open

    def but(self, **kw):
        r = V(self.t, self.st, self.el, self.cls, self.fn, self.items, self.d, self.lv, self.open)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def __repr__(self):
        return show(self.t)


class Fn:
    """a function of the repository"""
    def __init__(self, node, mod, cls=None, closure=None, name=None):
        self.node, self.mod, self.cls, self.closure = node, mod, cls, closure or {}
        self.name = name or getattr(node, "name", "<lambda>")


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.members = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.members.setdefault(s.name, []).append(s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = s.value
        self.cache = {}


class Ext:
    def __init__(self, name):
        self.name = name


class Mod:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}
        self.values = {}

        def scan(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    self.names[s.name] = s
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        self.names[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    m = s.module or ""
                    if s.level:
                        base = name.split(".") if path.endswith("__init__.py") else name.split(".")[:-1]
                        base = base[:len(base) - (s.level - 1)]
                        m = ".".join(base + ([m] if m else []))
                    for a in s.names:
                        self.names[a.asname or a.name] = ("from", m, a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            self.names[t.id] = ("assign", s.value)
                elif isinstance(s, (ast.If, ast.Try)):
                    scan(s.body)
                    for h in getattr(s, "handlers", []):
                        scan(h.body)
                    scan(s.orelse)
        scan(tree.body)


class Ev:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class St:
    __slots__ = ("env", "heap", "pc", "loops")

    def __init__(self, env, heap, pc=(), loops=()):
        self.env, self.heap, self.pc, self.loops = env, heap, pc, loops

    def clone(self):
        return St(dict(self.env), self.heap, self.pc, self.loops)


class Budget(Exception):
    pass


_mods = {}


def modules():
    """all Python modules of the package"""
    if _mods:
        return _mods
    root = os.path.join(ir.REPO, "python", "stempy")
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, os.path.join(ir.REPO, "python"))
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            src = open(p).read()
            _mods[name] = Mod(name, os.path.relpath(p, ir.REPO), ast.parse(src), src)
    return _mods


def const(v):
    return V(("const", v))


NONE = const(None)


def show(t, n=0):
    if not isinstance(t, tuple):
        return str(t)
    if n > 7:
        return "…"
    o = t[0] if t else ""
    s = lambda x: show(x, n + 1)
    if o == "const":
        return repr(t[1])
    if o == "param":
        return t[1]
    if o == "attr":
        return "%s.%s" % (s(t[1]), t[2])
    if o == "item":
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if o == "call":
        return "%s(%s)" % (t[1].replace("numpy.", "np."), ", ".join([s(x) for x in t[2]] + ["%s=%s" % (k, s(v)) for k, v in t[3]]))
    if o == "meth":
        return "%s.%s(%s)" % (s(t[2]), t[1], ", ".join([s(x) for x in t[3]] + ["%s=%s" % (k, s(v)) for k, v in t[4]]))
    if o in ("bin", "cmp"):
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if o in ("tuple", "list"):
        return "(%s)" % ", ".join(s(x) for x in t[1])
    if o == "new":
        return s(t[2])
    if o == "slice":
        return ":".join("" if x == ("const", None) else s(x) for x in t[1:])
    if o == "elem":
        return "each(%s)" % s(t[1])
    if o == "comp":
        return "[%s for %s]" % (s(t[2]), s(t[3]))
    if o == "not":
        return "not %s" % s(t[1])
    return "%s(%s)" % (o, ", ".join(s(x) for x in t[1:]))


def walk(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)


def contains(t, s):
    return any(x == s for x in walk(t))


def tk(*ts):
    return frozenset((t, True) for t in ts)


def may(s):
    return frozenset((t, False) for t, _ in s)


def intlike(t):
    if t[0] == "const":
        return isinstance(t[1], int) and not isinstance(t[1], bool)
    if t[0] == "idx":
        return True
    if t[0] == "elem":
        return t[1][0] == "call" and t[1][1] == "range"
    if t[0] == "bin":
        return intlike(t[2]) and intlike(t[3])
    if t[0] == "call":
        return t[1] in ("len", "int", "numpy.prod")
    if t[0] == "item":
        return t[1][0] == "attr" and t[1][2] in ("shape", "scan_shape", "frame_shape")
    return False


MISSING = object()


def ckey(v):
    """the constant a key stands for"""
    if v.t[0] == "const":
        return v.t[1]
    if v.items is not None and v.t[0] == "tuple" and not v.open:
        k = tuple(ckey(i) for i in v.items)
        return MISSING if any(x is MISSING for x in k) else k
    return MISSING


def objarray(t):
    """an element of an array created to hold objects: None until assigned"""
    b = t
    while b[0] in ("item", "elem", "new"):
        b = b[2] if b[0] == "new" else b[1]
    return t[0] != "new" and b is not t and b[0] == "call" and b[1] == "numpy.empty" and ("ext", "object") in walk(b)


def arraylike(t):
    if t[0] == "call":
        return t[1].startswith("numpy.") and t[1] not in ("numpy.prod", "numpy.max", "numpy.min", "numpy.sum")
    if t[0] == "new":
        return arraylike(t[2]) or t[2][0] == "list"
    if t[0] == "meth":
        return t[1] in ("ravel", "astype", "reshape", "flatten", "copy")
    if t[0] in ("cmp", "bin"):
        return arraylike(t[2]) or arraylike(t[3])
    if t[0] in ("list",):
        return True
    if t[0] == "item":
        return arraylike(t[1]) and (t[2][0] == "slice" or arraylike(t[2]))
    return False


class Py:
    def __init__(self, params=None, opaque=(), classes=None):
        self.mods = modules()
        self.events = []
        self.raises = []
        self.uid = 0
        self.loopinfo = {}
        self.opaque = set(opaque)
        self.trunc = False
        self.stack = []
        self.steps = 0
        self.trys = []
        self.compinfo = {}

    # ---------------------------------------------------------------- lookup
    def cls(self, name, mod=None):
        for m in self.mods.values():
            n = m.names.get(name)
            if isinstance(n, ast.ClassDef):
                v = self.module_name(m, name, St({}, {}))
                return v.fn
        return None

    def module_name(self, m, name, st):
        if name in m.values:
            return m.values[name]
        n = m.names.get(name)
        v = None
        if n is None:
            return None
        if isinstance(n, ast.FunctionDef):
            v = V(("fn", m.name + "." + name), fn=Fn(n, m))
            if n.decorator_list:
                m.values[name] = v
                v = self.decorate(v, n, m, None)
        elif isinstance(n, ast.ClassDef):
            v = V(("class", name), fn=Cls(n, m))
        elif n[0] == "import":
            v = V(("mod", n[1]), fn=Ext(n[1]))
        elif n[0] == "from":
            full = n[1] + "." + n[2] if n[1] else n[2]
            if n[1] in self.mods:
                v = self.module_name(self.mods[n[1]], n[2], st)
            if v is None and full in self.mods:
                v = V(("mod", full), fn=Ext(full))
            if v is None:
                v = V(("ext", full), fn=Ext(full))
        elif n[0] == "assign":
            m.values[name] = V(("global", m.name, name))
            sub = self.stack
            self.stack = [Fn(ast.parse("pass").body[0], m, name="<module>")]
            ev, rs = self.events, self.raises
            self.events, self.raises = [], []
            try:
                r = self.eval(n[1], St({}, {}))
                v = r[0][1]
            except (Budget, RecursionError):
                v = V(("global", m.name, name))
            self.stack, self.events, self.raises = sub, ev, rs
        m.values[name] = v
        return v

    def decorate(self, v, node, m, cls):
        for d in reversed(node.decorator_list):
            ev, rs, sk = self.events, self.raises, self.stack
            self.events, self.raises = [], []
            self.stack = [Fn(node, m, name="<decorators>")]
            try:
                f = self.eval(d, St({}, {}))[0][1]
                if isinstance(f.fn, (Fn, Bound)):
                    r = self.call(f, [v], {}, St({}, {}), d)
                    if r and r[0][1] is not None:
                        v = r[0][1]
                elif isinstance(f.fn, Ext) and f.fn.name in ("functools.lru_cache", "functools.cache", "functools.cached_property"):
                    v = v.but(t=("cached", v.t))
            finally:
                self.events, self.raises, self.stack = ev, rs, sk
        return v

    def member(self, c, name):
        """(kind, value) of a class member: 'prop', 'method', 'static', 'class', 'value'"""
        if name in c.cache:
            return c.cache[name]
        ms = c.members.get(name)
        r = None
        if ms is None:
            for b in c.node.bases:
                if isinstance(b, ast.Name):
                    bc = self.module_name(c.mod, b.id, St({}, {}))
                    if bc is not None and isinstance(bc.fn, Cls):
                        r = self.member(bc.fn, name)
                        if r is not None:
                            break
        elif isinstance(ms, list):
            kind, node = "method", ms[0]
            decs = []
            for n in ms:
                ds = [ast.unparse(d) for d in n.decorator_list]
                if any(d.endswith(".setter") for d in ds):
                    continue
                node, decs = n, ds
            if "property" in decs or any(d.endswith("cached_property") for d in decs):
                kind = "prop"
            elif "staticmethod" in decs:
                kind = "static"
            elif "classmethod" in decs:
                kind = "class"
            v = V(("fn", c.name + "." + name), fn=Fn(node, c.mod, c))
            c.cache[name] = (kind, v)
            keep = [d for d in node.decorator_list if ast.unparse(d) not in ("property", "staticmethod", "classmethod")
                    and not ast.unparse(d).endswith(".setter") and not ast.unparse(d).endswith("cached_property")]
            if keep:
                class N:
                    decorator_list = keep
                n2 = N()
                n2.lineno = node.lineno
                v = self.decorate(v, n2, c.mod, c)
            r = (kind, v)
        else:
            ev, rs, sk = self.events, self.raises, self.stack
            self.events, self.raises = [], []
            self.stack = [Fn(c.node, c.mod, name="<class>")]
            try:
                r = ("value", self.eval(ms, St({}, {}))[0][1])
            finally:
                self.events, self.raises, self.stack = ev, rs, sk
        c.cache[name] = r
        return r

    def setter(self, c, name):
        ms = c.members.get(name)
        if isinstance(ms, list):
            for n in ms:
                if any(ast.unparse(d) == name + ".setter" for d in n.decorator_list):
                    return V(("fn", c.name + "." + name + ".setter"), fn=Fn(n, c.mod, c))
        return None

    # ---------------------------------------------------------------- entry
    def run(self, fn, args=None, kwargs=None, heap=None):
        """interpret a function value; args: {param: V}; returns [(state, outcome)]"""
        f = fn.fn
        st = St({}, dict(heap or {}))
        node = f.node if isinstance(f, Fn) else f.fn.fn.node
        vals = {}
        args = args or {}
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        pos = []
        kw = {}
        if isinstance(f, Fn):
            for x in a.posonlyargs + a.args:
                kw[x.arg] = args.get(x.arg) or self.param(x.arg)
            for x in a.kwonlyargs:
                kw[x.arg] = args.get(x.arg) or self.param(x.arg)
            if a.vararg:
                kw["*"] = args.get(a.vararg.arg) or self.param(a.vararg.arg)
            if a.kwarg:
                kw["**"] = args.get(a.kwarg.arg) or self.param(a.kwarg.arg)
        return self.enter(f, kw, st, node)

    def param(self, name, cls=None, lv=None):
        t = ("param", name)
        return V(t, tk(t), tk(("el", t)), cls=cls, lv=lv)

    def instance(self, name, clsname):
        t = ("param", name)
        return V(t, tk(t), EMPTY, cls=self.cls(clsname))

    # ---------------------------------------------------------------- helpers
    def tick(self):
        self.steps += 1
        if self.steps > 400000:
            raise Budget()

    def at(self, node):
        m = self.stack[-1].mod if self.stack else None
        return "%s:%d" % (m.path if m else "?", getattr(node, "lineno", 0))

    def fname(self):
        for f in reversed(self.stack):
            return (f.cls.name + "." if f.cls else "") + f.name
        return "?"

    def ev(self, kind, st, node, **kw):
        e = Ev(kind, pc=st.pc, loops=st.loops, heap=st.heap, at=self.at(node), fn=self.fname(), node=node, seq=len(self.events),
               chain=tuple((f.cls.name + "." if f.cls else "") + f.name for f in self.stack), env=st.env, **kw)
        self.events.append(e)
        return e

    def mayraise(self, st, node):
        self.raises.append((St(dict(st.env), st.heap, st.pc, st.loops), tuple(self.trys), self.at(node), node, len(self.stack)))

    def cap(self, xs):
        if len(xs) > MAXP:
            self.trunc = True
            return xs[:MAXP]
        return xs

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st):
        live, out = [st], []
        for s in stmts:
            nxt = []
            for x in live:
                for y, o in self.stmt(s, x):
                    if o is None:
                        nxt.append(y)
                    else:
                        out.append((y, o))
            live = self.cap(self.dedupe(nxt))
            if not live:
                break
        return [(x, None) for x in live] + out

    def dedupe(self, sts):
        if len(sts) < 2:
            return sts
        out = []
        seen = {}
        for s in sts:
            k = (tuple(sorted((n, id(v)) for n, v in s.env.items())), id(s.heap), s.loops)
            if k in seen:
                o = seen[k]
                n = 0
                while n < min(len(o.pc), len(s.pc)) and o.pc[n] == s.pc[n]:
                    n += 1
                o.pc = o.pc[:n]
                continue
            seen[k] = s
            out.append(s)
        return out

    def stmt(self, s, st):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return [(st, None)]
        return m(s, st)

    def s_Pass(self, s, st):
        return [(st, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        return [(x, None) for x, _ in self.eval(s.value, st)]

    def s_Import(self, s, st):
        st = st.clone()
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            f = a.name if a.asname else a.name.split(".")[0]
            st.env[n] = V(("mod", f), fn=Ext(f))
        return [(st, None)]

    def s_ImportFrom(self, s, st):
        st = st.clone()
        for a in s.names:
            f = (s.module or "") + "." + a.name
            v = None
            if s.module in self.mods:
                v = self.module_name(self.mods[s.module], a.name, st)
            st.env[a.asname or a.name] = v or V(("ext", f), fn=Ext(f))
        return [(st, None)]

    def s_FunctionDef(self, s, st):
        st = st.clone()
        f = self.stack[-1]
        v = V(("fn", f.name + "." + s.name), fn=Fn(s, f.mod, None, dict(st.env)))
        v.fn.closure[s.name] = v
        for d in reversed(s.decorator_list):
            r = self.eval(d, st)
            dv = r[0][1]
            if isinstance(dv.fn, (Fn, Bound)):
                q = self.call(dv, [v], {}, r[0][0], d)
                if q:
                    v = q[0][1]
        st.env[s.name] = v
        return [(st, None)]

    def s_ClassDef(self, s, st):
        st = st.clone()
        st.env[s.name] = V(("class", s.name), fn=Cls(s, self.stack[-1].mod))
        return [(st, None)]

    def s_Return(self, s, st):
        if s.value is None:
            return [(st, ("return", NONE, s))]
        return [(x, ("return", v, s)) for x, v in self.eval(s.value, st)]

    def s_Raise(self, s, st):
        out = []
        if s.exc is None:
            return [(st, ("raise", ("reraise",), s, self.at(s)))]
        for x, v in self.eval(s.exc, st):
            self.ev("raise", x, s, val=v)
            out.append((x, ("raise", v.t, s, self.at(s))))
        return out

    def s_Break(self, s, st):
        return [(st, ("break",))]

    def s_Continue(self, s, st):
        return [(st, ("continue",))]

    def s_Assert(self, s, st):
        out = []
        for x, v in self.eval(s.test, st):
            for y in self.assume(x, v, True):
                out.append((y, None))
            for y in self.assume(x, v, False):
                out.append((y, ("raise", ("call", "AssertionError", (), ()), s, self.at(s))))
        return out

    def s_Delete(self, s, st):
        out = [st]
        for t in s.targets:
            nxt = []
            for x in out:
                if isinstance(t, ast.Attribute):
                    for y, o in self.eval(t.value, x):
                        y = y.clone()
                        y.heap = dict(y.heap)
                        y.heap[(o.t, t.attr)] = V(DELETED)
                        self.ev("delattr", y, s, obj=o, attr=t.attr)
                        nxt.append(y)
                elif isinstance(t, ast.Subscript):
                    for y, vs in self.evals([t.value, t.slice], x):
                        self.delitem(y, vs[0], vs[1], s, nxt)
                else:
                    y = x.clone()
                    if isinstance(t, ast.Name):
                        y.env.pop(t.id, None)
                    nxt.append(y)
            out = nxt
        return [(x, None) for x in out]

    def delitem(self, st, o, k, node, out):
        if o.t[0] == "attr" and o.t[2] == "__dict__" and k.t[0] == "const":
            st = st.clone()
            st.heap = dict(st.heap)
            st.heap[(o.t[1], k.t[1])] = V(DELETED)
            self.ev("delattr", st, node, obj=V(o.t[1]), attr=k.t[1])
        else:
            self.ev("setitem", st, node, obj=o, key=k, val=NONE, op="del")
        out.append(st)

    def s_Assign(self, s, st):
        out = []
        for x, v in self.eval(s.value, st):
            sts = [x]
            for t in s.targets:
                sts = [z for y in sts for z in self.bind(t, v, y, s)]
            out += sts
        return [(x, None) for x in out]

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        out = []
        for x, v in self.eval(s.value, st):
            out += self.bind(s.target, v, x, s)
        return [(x, None) for x in out]

    def s_AugAssign(self, s, st):
        out = []
        op = OPS.get(type(s.op), "?")
        if isinstance(s.target, ast.Name):
            for x, vs in self.evals([ast.Name(s.target.id, ast.Load(), lineno=s.lineno), s.value], st):
                a, b = vs
                r = self.binop(op, a, b)
                self.ev("inplace", x, s, obj=a, val=b, op=op, name=s.target.id)
                if a.items is None and a.t[0] != "const" and not intlike(a.t):
                    r = r.but(st=a.st, el=EMPTY if a.lv else a.el, lv=a.lv)
                x = x.clone()
                x.env[s.target.id] = r
                out.append(x)
        elif isinstance(s.target, ast.Attribute):
            for x, vs in self.evals([s.target.value, s.value], st):
                for y, a in self.getattr(vs[0], s.target.attr, x, s):
                    r = self.binop(op, a, vs[1])
                    self.ev("inplace", y, s, obj=a, val=vs[1], op=op, name=s.target.attr)
                    out += self.setattr(vs[0], s.target.attr, r.but(st=a.st), y, s)
        else:
            for x, vs in self.evals([s.target.value, s.target.slice, s.value], st):
                self.ev("setitem", x, s, obj=vs[0], key=vs[1], val=vs[2], op=op)
                out.append(x)
        return [(x, None) for x in out]

    def bind(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st = st.clone()
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            n = len(t.elts)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e, w = e.value, V(("rest", v.t, i))
                else:
                    w = self.item(v, const(i))
                sts = [z for y in sts for z in self.bind(e, w, y, node)]
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for x, o in self.eval(t.value, st):
                out += self.setattr(o, t.attr, v, x, node)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, vs in self.evals([t.value, t.slice], st):
                out += self.setitem(x, vs[0], vs[1], v, node)
            return out
        if isinstance(t, ast.Starred):
            return self.bind(t.value, v, st, node)
        return [st]

    def setitem(self, st, o, k, v, node):
        self.ev("setitem", st, node, obj=o, key=k, val=v, op="=")
        st = st.clone()
        if o.d is not None and ckey(k) is not MISSING:
            d = dict(o.d)
            d[ckey(k)] = v
            self.replace(st, o, o.but(d=d))
        elif o.t[0] == "attr" and o.t[2] == "__dict__" and k.t[0] == "const":
            st.heap = dict(st.heap)
            st.heap[(o.t[1], k.t[1])] = v
        elif o.lv in ("D1", "D2") or o.t[0] in ("new",):
            add = v.el if v.lv in ("D1", "D2") or v.t[0] in ("list", "new") and v.lv != "F" else v.st | (v.el if v.lv is None else EMPTY)
            if add - o.el:
                self.replace(st, o, o.but(el=o.el | add))
        return [st]

    def replace(self, st, old, new):
        for n, w in list(st.env.items()):
            if w is old or w.t == old.t and w.t[0] in ("new",):
                st.env[n] = new
        ch = {k: new for k, w in st.heap.items() if w is old}
        if ch:
            st.heap = dict(st.heap)
            st.heap.update(ch)

    def setattr(self, o, name, v, st, node):
        c = o.cls
        if isinstance(c, Cls):
            sf = self.setter(c, name)
            if sf is not None:
                return [x for x, _ in self.call(V(sf.t, fn=Bound(sf, o)), [v], {}, st, node)]
        st = st.clone()
        st.heap = dict(st.heap)
        self.ev("setattr", st, node, obj=o, attr=name, val=v)
        st.heap[(o.t, name)] = v
        return [st]

    def s_If(self, s, st):
        out = []
        for x, v in self.eval(s.test, st):
            ts, fs = self.assume(x, v, True), self.assume(x, v, False)
            if not ts and not fs:
                ts = fs = [x]
            for y in ts:
                out += self.block(s.body, y)
            for y in fs:
                out += self.block(s.orelse, y)
        live = self.dedupe([x for x, o in out if o is None])
        return [(x, None) for x in self.cap(live)] + [(x, o) for x, o in out if o is not None]

    def s_With(self, s, st):
        sts = [st]
        for i in s.items:
            nxt = []
            for x in sts:
                for y, v in self.eval(i.context_expr, x):
                    if i.optional_vars is not None:
                        nxt += self.bind(i.optional_vars, v, y, s)
                    else:
                        nxt.append(y)
            sts = nxt
        out = []
        for x in sts:
            out += self.block(s.body, x)
        return out

    def assigned(self, body):
        ns = []
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    ns.append(n.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    ns.append(n.target.id)
        return list(dict.fromkeys(ns))

    def elem(self, it, uid):
        """the abstract element of an iterable"""
        t = it.t
        if t[0] == "call" and t[1] == "enumerate" and t[2]:
            inner = self.elem(it.items[0] if it.items else V(t[2][0]), uid)
            return V(("tuple", (("idx", uid), inner.t)), items=[V(("idx", uid)), inner])
        if t[0] == "call" and t[1] == "zip":
            es = [self.elem(x, uid) for x in (it.items or [V(y) for y in t[2]])]
            return V(("tuple", tuple(e.t for e in es)), items=es)
        lv = {"D2": "D1", "D1": "F"}.get(it.lv)
        if it.lv == "D2":
            s, e = it.st, it.el
        elif it.lv == "D1":
            s, e = it.el, EMPTY
        else:
            s, e = it.st | it.el, it.el
        if it.lv == "F" or t[0] == "call" and t[1] == "range":
            s, e = EMPTY, EMPTY
        return V(("elem", t, uid), s, e, lv=lv)

    def s_For(self, s, st):
        out = []
        for x, it in self.eval(s.iter, st):
            items = self.literal(it)
            if items is not None and (len(items) <= 10 or len(items) <= 24 and all(i.t[0] == "const" for i in items)):
                live = [x]
                for v in items:
                    nxt = []
                    for y in live:
                        for z in self.bind(s.target, v, y, s):
                            for w, o in self.block(s.body, z):
                                if o is None or o[0] == "continue":
                                    nxt.append(w)
                                elif o[0] == "break":
                                    out.append((w, None))
                                else:
                                    out.append((w, o))
                    live = self.cap(self.dedupe(nxt))
                for y in live:
                    out += self.block(s.orelse, y) if s.orelse else [(y, None)]
                continue
            self.uid += 1
            uid = self.uid
            out += self.loop(s, x, uid, it, None)
        return out

    def s_While(self, s, st):
        self.uid += 1
        return self.loop(s, st, self.uid, None, s.test)

    def loop(self, s, st, uid, it, test):
        info = {"iter": it, "test": None, "vars": {}, "node": s, "at": self.at(s)}
        self.loopinfo[uid] = info
        names = [n for n in self.assigned(s.body) if n in st.env]
        tnames = self.assigned([s.target]) if it is not None else []
        h = st.clone()
        for n in names:
            v = st.env[n]
            h.env[n] = V(("phi", uid, n), v.st, v.el, v.cls, lv=v.lv)
        h.loops = st.loops + ((uid, it.t if it is not None else ("while",)),)
        heap0 = h.heap
        hs = []
        if it is not None:
            hs = self.bind(s.target, self.elem(it, uid), h, s)
        else:
            for y, v in self.eval(test, h):
                info["test"] = v
                hs += self.assume(y, v, True)
        ends, outs = [], []
        info["ends"], info["outs"] = ends, outs
        for y in hs:
            for z, o in self.block(s.body, y):
                if o is None or o[0] in ("continue", "break"):
                    ends.append((z, o))
                else:
                    outs.append((z, o))
        after = st.clone()
        for n in names:
            v = st.env[n]
            es = [z.env.get(n) for z, _ in ends if z.env.get(n) is not None]
            info["vars"][n] = (v, [(z.env.get(n), z.pc, o) for z, o in ends])
            s_, e_ = v.st, v.el
            for e in es:
                s_ = s_ | may(e.st) if e.st - v.st else s_
                e_ = e_ | e.el
            if all(e.t == ("phi", uid, n) for e in es):
                after.env[n] = v.but(st=s_, el=e_)
            else:
                after.env[n] = V(("loopend", uid, n), s_, e_, v.cls, lv=v.lv or next((e.lv for e in es if e.lv), None))
        # objects mutated in the loop whose tokens grew
        for n, v in st.env.items():
            if n in names:
                continue
            for z, _ in ends:
                w = z.env.get(n)
                if w is not None and w is not v and w.t == v.t:
                    after.env[n] = after.env[n].but(st=after.env[n].st | w.st, el=after.env[n].el | w.el, d=w.d if w.d is not None else None)
        for n in tnames + [m for m in self.assigned(s.body) if m not in st.env]:
            es = [z.env.get(n) for z, _ in ends if z.env.get(n) is not None]
            if es:
                after.env[n] = V(("loopend", uid, n), frozenset().union(*[may(e.st) for e in es]), frozenset().union(*[may(e.el) for e in es]))
        ch = {}
        for z, _ in ends:
            if z.heap is not heap0:
                for k, w in z.heap.items():
                    if heap0.get(k) is not w:
                        ch.setdefault(k, []).append(w)
        if ch:
            after.heap = dict(after.heap)
            for k, ws in ch.items():
                after.heap[k] = ws[0] if len(ws) == 1 and ws[0].t[0] in ("new",) else V(("loopend", uid, k), frozenset().union(*[w.st for w in ws]), frozenset().union(*[w.el for w in ws]))
        res = [(after, None)]
        if s.orelse:
            res = self.block(s.orelse, after)
        for z, o in outs:
            z.loops = st.loops
        return res + outs

    def s_Try(self, s, st):
        mark = len(self.raises)
        self.uid += 1
        self.trys.append(self.uid)
        body = self.block(s.body, st)
        self.trys.pop()
        snaps = self.raises[mark:]
        out = []
        rest = []
        pend = []     # (state, outcome) leaving the try statement before finally
        for x, o in body:
            if o is not None and o[0] == "raise" and s.handlers:
                hs = [h for h in s.handlers if self.catches(h, o[1])]
                if hs:
                    pend += self.handler(hs[0], x, s, o)
                else:
                    pend.append((x, o))
            elif o is None and s.orelse:
                pend += self.block(s.orelse, x)
            else:
                pend.append((x, o))
        # implicit exceptions
        depth = len(self.stack)
        seen = set()
        impl = []
        for z, tr, at, node, dep in snaps:
            k = (id(z.heap), tuple(sorted((n, id(v)) for n, v in (z.env if dep == depth else st.env).items())))
            if k in seen or len(seen) > 24:
                continue
            seen.add(k)
            y = St(dict(z.env) if dep == depth else dict(st.env), z.heap, z.pc, st.loops)
            impl.append((y, at))
        for y, at in impl:
            for h in s.handlers:
                pend += self.handler(h, y.clone(), s, None)
        if s.finalbody:
            del self.raises[mark:]
            if not any(h.type is None for h in s.handlers):
                for y, at in impl:
                    pend.append((y, ("raise", ("implicit", at), s, at)))
            for x, o in pend:
                for y, p in self.block(s.finalbody, x):
                    out.append((y, p if p is not None else o))
            return out
        if any(h.type is None or ast.unparse(h.type) in ("Exception", "BaseException") for h in s.handlers):
            del self.raises[mark:]
        return pend

    def catches(self, h, exc):
        if h.type is None:
            return True
        n = exc[1] if exc and exc[0] in ("call", "class", "ext") else (exc[2] if exc and exc[0] == "new" else None)
        names = [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if "Exception" in names or "BaseException" in names:
            return True
        return str(n).split(".")[-1] in [x.split(".")[-1] for x in names]

    def handler(self, h, st, s, o):
        st = st.clone()
        if h.name:
            st.env[h.name] = V(("exc", h.lineno))
        self.ev("handler", st, h, types=None if h.type is None else ast.unparse(h.type))
        return self.block(h.body, st)

    # ---------------------------------------------------------------- conditions
    def truth(self, v):
        t = v.t
        if t[0] == "const":
            return bool(t[1])
        if v.items is not None and t[0] in ("tuple", "list") and not v.open:
            return len(v.items) > 0
        if t[0] in ("fn", "class", "mod"):
            return True
        return None

    def assume(self, st, v, want):
        t = v.t
        k = self.truth(v)
        if k is not None:
            return [st] if k == want else []
        while t[0] == "not":
            t, want = t[1], not want
        if t[0] == "const":
            return [st] if bool(t[1]) == want else []
        lits = None
        if t[0] == "and" and want or t[0] == "or" and not want:
            sts = [st]
            for x in t[1]:
                sts = [z for y in sts for z in self.assume(y, V(x), want)]
            return sts
        if t[0] == "cmp" and t[1] in NEG and not want and t[1] in ("!=", "is not", "not in"):
            t, want = ("cmp", NEG[t[1]], t[2], t[3]), True
        elif t[0] == "cmp" and t[1] in ("!=", "is not", "not in"):
            t, want = ("cmp", NEG[t[1]], t[2], t[3]), False
        if (t, want) in st.pc:
            return [st]
        if (t, not want) in st.pc:
            return []
        st = st.clone()
        st.pc = st.pc + ((t, want),)
        return [st]

    # ---------------------------------------------------------------- expressions
    def evals(self, nodes, st):
        out = [(st, [])]
        for n in nodes:
            nxt = []
            for x, vs in out:
                if isinstance(n, ast.Starred):
                    for y, v in self.eval(n.value, x):
                        nxt.append((y, vs + [v.but(t=("star", v.t))]))
                else:
                    for y, v in self.eval(n, x):
                        nxt.append((y, vs + [v]))
            out = self.cap(nxt)
        return out

    def eval(self, n, st):
        self.tick()
        return getattr(self, "e_" + type(n).__name__, self.e_other)(n, st)

    def e_other(self, n, st):
        self.uid += 1
        return [(st, V(("other", type(n).__name__, self.uid)))]

    def e_Constant(self, n, st):
        return [(st, const(n.value))]

    def e_Name(self, n, st):
        v = st.env.get(n.id)
        f = self.stack[-1] if self.stack else None
        if v is None and f is not None:
            v = f.closure.get(n.id)
            if v is None:
                v = self.module_name(f.mod, n.id, st)
        if v is None:
            if n.id in BUILTINS:
                v = V(("ext", n.id), fn=Ext(n.id))
            else:
                v = V(("unbound", n.id))
        return [(st, v)]

    def e_Attribute(self, n, st):
        out = []
        for x, o in self.eval(n.value, st):
            out += self.getattr(o, n.attr, x, n)
        return out

    def getattr(self, o, name, st, node):
        w = st.heap.get((o.t, name))
        if w is not None:
            return [(st, w)]
        if isinstance(o.fn, Ext):
            full = o.fn.name + "." + name
            if o.fn.name in self.mods:
                v = self.module_name(self.mods[o.fn.name], name, st)
                if v is not None:
                    return [(st, v)]
            return [(st, V(("ext", full), fn=Ext(full)))]
        if isinstance(o.fn, Cls):
            m = self.member(o.fn, name)
            if m is not None:
                if m[0] == "class":
                    return [(st, V(m[1].t, fn=Bound(m[1], o)))]
                return [(st, m[1])]
            return [(st, V(("attr", o.t, name)))]
        if isinstance(o.cls, Cls):
            m = self.member(o.cls, name)
            if m is not None:
                kind, v = m
                if kind == "prop":
                    self.ev("prop", st, node, obj=o, attr=name)
                    if self.inlinable(v):
                        return self.call(V(v.t, fn=Bound(v, o)), [], {}, st, node)
                    return [(st, V(("attr", o.t, name)))]
                if kind == "value":
                    return [(st, v)]
                if kind == "static":
                    return [(st, v)]
                if kind == "class":
                    return [(st, V(v.t, fn=Bound(v, V(("class", o.cls.name), fn=o.cls))))]
                return [(st, V(v.t, fn=Bound(v, o)))]
            if name == "__class__":
                return [(st, V(("class", o.cls.name), fn=o.cls))]
            t = ("attr", o.t, name)
            lv = "D2" if name == "data" and o.cls.name == "SparseArray" else None
            return [(st, V(t, tk(t), tk(("el", t)), lv=lv))]
        t = ("attr", o.t, name)
        if name in ("T", "flat", "real"):
            return [(st, V(t, o.st, o.el, lv=o.lv))]
        if name in ("shape", "size", "ndim", "dtype", "nbytes", "itemsize"):
            return [(st, V(t))]
        return [(st, V(t, tk(t), tk(("el", t)), fn=None))]

    def inlinable(self, v):
        f = v.fn
        if isinstance(f, Bound):
            f = f.fn.fn
        if not isinstance(f, Fn) or len(self.stack) > DEPTH:
            return False
        q = (f.cls.name + "." if f.cls else "") + f.name
        if q in self.opaque or f.name in self.opaque:
            return False
        return not any(x is f for x in self.stack) and sum(1 for x in self.stack if x.node is f.node) < 3

    def item(self, o, k):
        t, kt = o.t, k.t
        if o.items is not None and o.open:
            if kt[0] == "const" and isinstance(kt[1], int) and kt[1] >= 0 and not any(i.t[0] == "star" for i in o.items[:kt[1] + 1]) and kt[1] < len(o.items):
                return o.items[kt[1]]
        elif o.items is not None and t[0] in ("tuple", "list", "new"):
            if kt[0] == "const" and isinstance(kt[1], int) and -len(o.items) <= kt[1] < len(o.items) and t[0] != "new":
                return o.items[kt[1]]
            if kt[0] == "slice" and t[0] == "tuple" and all(x[0] == "const" for x in kt[1:]):
                it = o.items[slice(*[x[1] for x in kt[1:]])]
                return V(("tuple", tuple(i.t for i in it)), items=it)
        if o.d is not None and ckey(k) is not MISSING and ckey(k) in o.d:
            return o.d[ckey(k)]
        if t[0] == "call" and t[1] in ("tuple", "list") and len(t[2]) == 1 and t[2][0][0] == "comp" and kt[0] == "const" and isinstance(kt[1], int):
            return self.comp_item(t[2][0], k)
        if t[0] == "comp" and kt[0] == "const" and isinstance(kt[1], int):
            return self.comp_item(t, k)
        if t[0] == "call" and t[1] in ("tuple", "list") and len(t[2]) == 1 and kt[0] == "const" and isinstance(kt[1], int):
            return self.item(V(t[2][0]), k)
        r = ("item", t, kt)
        if kt[0] == "slice" or kt == ("const", None) or kt == ("const", Ellipsis) or k.items is not None and all(
                i.t[0] == "slice" or i.t in (("const", None), ("const", Ellipsis)) for i in k.items):
            return V(r, o.st, o.el, lv=o.lv if kt[0] == "slice" else o.lv)
        if intlike(kt) or k.items is not None and all(intlike(i.t) or i.t[0] == "slice" for i in k.items):
            n = 1 if k.items is None else sum(1 for i in k.items if intlike(i.t))
            if o.lv == "D2":
                if n == 2:
                    return V(r, o.el, EMPTY, lv="F")
                return V(r, o.st, o.el, lv="D1")
            if o.lv == "D1":
                return V(r, o.el, EMPTY, lv="F")
            if o.lv == "F":
                return V(r)
            return V(r, o.st | o.el, o.el)
        if k.items is not None and k.t[0] == "tuple" and any(arraylike(i.t) for i in k.items) or arraylike(kt) or k.lv == "F":
            return V(r, EMPTY, o.el, lv=o.lv)
        # unknown kind of index
        if o.lv == "F":
            return V(r, may(o.st), EMPTY, lv="F")
        return V(r, may(o.st), o.el, lv=o.lv)

    def comp_item(self, c, k):
        uid, e, it = c[1], c[2], c[3]
        src = self.item(V(it), k).t
        return V(subst(e, {("elem", it, uid): src}))

    def e_Subscript(self, n, st):
        out = []
        for x, vs in self.evals([n.value, n.slice], st):
            o, k = vs
            if isinstance(o.cls, Cls):
                m = self.member(o.cls, "__getitem__")
                if m is not None:
                    out += self.call(V(m[1].t, fn=Bound(m[1], o)), [k], {}, x, n)
                    continue
            self.ev("getitem", x, n, obj=o, key=k)
            if not (o.t[0] in ("tuple",) or intlike(k.t) and o.t[0] == "attr"):
                self.mayraise(x, n)
            if o.d is not None and not o.open and ckey(k) is not MISSING and ckey(k) not in o.d and o.t[0] == "new" and o.t[2][0] == "dict" and o.d:
                continue
            out.append((x, self.item(o, k)))
        return out

    def e_Slice(self, n, st):
        parts = [p if p is not None else ast.Constant(None) for p in (n.lower, n.upper, n.step)]
        return [(x, V(("slice",) + tuple(v.t for v in vs))) for x, vs in self.evals(parts, st)]

    def e_Tuple(self, n, st):
        return [(x, self.seq("tuple", vs)) for x, vs in self.evals(n.elts, st)]

    def e_List(self, n, st):
        out = []
        for x, vs in self.evals(n.elts, st):
            v = self.seq("list", vs)
            self.uid += 1
            if not vs:
                v = V(("new", self.uid, ("list", ())), items=None)
            out.append((x, v))
        return out

    e_Set = e_List

    def seq(self, kind, vs):
        items, ok = [], True
        for v in vs:
            if v.t[0] == "star":
                w = v.but(t=v.t[1])
                if w.items is not None and w.t[0] in ("tuple", "list"):
                    items += w.items
                    ok = ok and not w.open
                else:
                    ok = False
                    items.append(v)
            else:
                items.append(v)
        s = frozenset().union(*[v.st for v in items]) if items else EMPTY
        e = frozenset().union(*[v.el for v in items]) if items else EMPTY
        return V((kind, tuple(v.t for v in items)), EMPTY, s | e, items=items, open=not ok)

    def e_Dict(self, n, st):
        out = []
        keys = [k if k is not None else ast.Constant("**") for k in n.keys]
        for x, vs in self.evals(keys + n.values, st):
            ks, ws = vs[:len(keys)], vs[len(keys):]
            d, op = {}, False
            for k, w, kn in zip(ks, ws, n.keys):
                if kn is None:
                    if w.d is not None:
                        d.update(w.d)
                        op = op or w.open
                    else:
                        op = True
                elif k.t[0] == "const":
                    d[k.t[1]] = w
                else:
                    op = op or ckey(k) is MISSING
                    d[k.t if ckey(k) is MISSING else ckey(k)] = w
            self.uid += 1
            out.append((x, V(("new", self.uid, ("dict", tuple((str(k), w.t) for k, w in d.items()))), d=d, open=op)))
        return out

    def e_JoinedStr(self, n, st):
        parts, out = [], []
        nodes = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                nodes.append(v.value)
        for x, vs in self.evals(nodes, st):
            it = iter(vs)
            parts = []
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    w = next(it)
                    parts.append(w.t)
                else:
                    parts.append(("const", v.value))
            if all(p[0] == "const" for p in parts):
                out.append((x, const("".join(str(p[1]) for p in parts))))
            else:
                out.append((x, V(("fstr", tuple(parts)))))
        return out

    def e_Lambda(self, n, st):
        f = self.stack[-1]
        return [(st, V(("lambda", n.lineno, n.col_offset), fn=Fn(n, f.mod, None, dict(st.env))))]

    def e_Starred(self, n, st):
        return [(x, v.but(t=("star", v.t))) for x, v in self.eval(n.value, st)]

    def e_NamedExpr(self, n, st):
        out = []
        for x, v in self.eval(n.value, st):
            for y in self.bind(n.target, v, x, n):
                out.append((y, v))
        return out

    def e_IfExp(self, n, st):
        out = []
        for x, v in self.eval(n.test, st):
            ts, fs = self.assume(x, v, True), self.assume(x, v, False)
            for y in ts:
                out += self.eval(n.body, y)
            for y in fs:
                out += self.eval(n.orelse, y)
        return out

    def e_UnaryOp(self, n, st):
        out = []
        for x, v in self.eval(n.operand, st):
            if isinstance(n.op, ast.Not):
                k = self.truth(v)
                out.append((x, const(not k) if k is not None else V(neg(v.t))))
            elif isinstance(n.op, ast.USub):
                out.append((x, const(-v.t[1]) if v.t[0] == "const" and isinstance(v.t[1], (int, float)) else V(("neg", v.t))))
            elif isinstance(n.op, ast.Invert):
                out.append((x, V(("inv", v.t))))
            else:
                out.append((x, v))
        return out

    def e_BoolOp(self, n, st):
        kind = "and" if isinstance(n.op, ast.And) else "or"
        outs = [(st, [])]
        done = []
        for i, e in enumerate(n.values):
            nxt = []
            for x, vs in outs:
                base = x.pc
                y = x
                for w in vs:
                    q = self.assume(y, w, kind == "and")
                    if not q:
                        break
                    y = q[0]
                else:
                    for z, v in self.eval(e, y):
                        k = self.truth(v)
                        z = z.clone()
                        z.pc = base if z.pc == y.pc else base + tuple(p for p in z.pc if p not in y.pc)
                        if k is not None and k == (kind == "or"):
                            done.append((z, vs + [v]))
                        elif k is not None and i < len(n.values) - 1:
                            nxt.append((z, vs))
                        else:
                            nxt.append((z, vs + [v]))
                    continue
                done.append((x, vs))
            outs = nxt
        res = []
        for x, vs in outs + done:
            if len(vs) == 1:
                res.append((x, vs[0]))
            elif not vs:
                res.append((x, const(kind == "and")))
            else:
                ts = []
                for v in vs:
                    ts += list(v.t[1]) if v.t[0] == kind else [v.t]
                res.append((x, V((kind, tuple(ts)))))
        return res

    def e_Compare(self, n, st):
        out = []
        for x, vs in self.evals([n.left] + n.comparators, st):
            ts = []
            for a, b, op in zip(vs, vs[1:], n.ops):
                ts.append(self.compare(CMP[type(op)], a, b))
            if len(ts) == 1:
                out.append((x, ts[0]))
            elif all(t.t[0] == "const" for t in ts):
                out.append((x, const(all(t.t[1] for t in ts))))
            else:
                out.append((x, V(("and", tuple(t.t for t in ts if t.t != ("const", True))))))
        return out

    def compare(self, op, a, b):
        x, y = a.t, b.t
        if x[0] == "const" and y[0] == "const":
            try:
                if op == "is":
                    return const(x[1] is y[1] or x[1] == y[1] and type(x[1]) is type(y[1]))
                if op == "is not":
                    return const(not (x[1] is y[1] or x[1] == y[1]))
                return const(eval("a %s b" % op, {"a": x[1], "b": y[1]}))
            except TypeError:
                pass
        if op in ("is", "is not") and y == ("const", None) and not objarray(x) and (x[0] in ("new", "tuple", "list", "fn", "class", "obj", "bin", "cmp", "fstr") or arraylike(x) or a.cls is not None
                                                                or a.lv is not None):
            return const(op == "is not")
        if op in ("in", "not in") and b.items is not None and not b.open and x[0] == "const" and all(i.t[0] == "const" for i in b.items):
            return const((x[1] in [i.t[1] for i in b.items]) == (op == "in"))
        if op in ("in", "not in") and b.d is not None and not b.open and ckey(a) is not MISSING:
            return const((ckey(a) in b.d) == (op == "in"))
        if op in ("==", "!=") and x == y and x[0] in ("const", "param", "attr"):
            return const(op == "==")
        return V(("cmp", op, x, y))

    def e_BinOp(self, n, st):
        return [(x, self.binop(OPS.get(type(n.op), "?"), vs[0], vs[1])) for x, vs in self.evals([n.left, n.right], st)]

    def binop(self, op, a, b):
        x, y = a.t, b.t
        if x[0] == "const" and y[0] == "const":
            try:
                return const(eval("a %s b" % op, {"a": x[1], "b": y[1]}))
            except Exception:
                pass
        if op == "+" and a.items is not None and b.items is not None and x[0] == y[0]:
            it = a.items + b.items
            return V((x[0], tuple(i.t for i in it)), el=a.el | b.el, items=it, open=a.open or b.open)
        if op == "%" and x[0] == "const" and isinstance(x[1], str):
            return V(("fstr", (x, y)))
        lv = a.lv or b.lv
        return V(("bin", op, x, y), lv=lv)

    def comp(self, n, st, kind):
        """comprehensions: one abstract element"""
        g = n.generators[0]
        out = []
        for x, it in self.eval(g.iter, st):
            items = self.literal(it)
            if items is not None and (len(items) <= 10 or len(items) <= 24 and all(i.t[0] == "const" for i in items)) and len(n.generators) == 1 and not g.ifs:
                res = [(x, [])]
                for v in items:
                    nxt = []
                    for y, vs in res:
                        saved = y.env
                        for z in self.bind(g.target, v, y, n):
                            for w, r in [(a, b) for a, b in (self.eval(n.elt, z) if kind != "dict" else self.evals([n.key, n.value], z))]:
                                w = w.clone()
                                for t in self.assigned([g.target]):
                                    if t in saved:
                                        w.env[t] = saved[t]
                                    else:
                                        w.env.pop(t, None)
                                nxt.append((w, vs + [r]))
                    res = self.cap(nxt)
                if kind == "dict":
                    for y, vs in res:
                        d, op = {}, False
                        for k, w in vs:
                            key = k.t[1] if k.t[0] == "const" else ckey(k)
                            op = op or key is MISSING
                            d[k.t if key is MISSING else key] = w
                        self.uid += 1
                        out.append((y, V(("new", self.uid, ("dict", tuple((str(k), w.t) for k, w in d.items()))), d=d, open=op)))
                    continue
                out += [(y, self.seq("list", vs)) for y, vs in res]
                continue
            self.uid += 1
            uid = self.uid
            inner = x.clone()
            inner.loops = x.loops + ((uid, it.t),)
            inner = self.bind(g.target, self.elem(it, uid), inner, n)[0]
            conds = []
            for extra in n.generators[1:]:
                r = self.eval(extra.iter, inner)
                self.uid += 1
                inner = r[0][0].clone()
                inner.loops = inner.loops + ((self.uid, r[0][1].t),)
                inner = self.bind(extra.target, self.elem(r[0][1], self.uid), inner, n)[0]
            base = inner.pc
            for c in [c for gg in n.generators for c in gg.ifs]:
                r = self.eval(c, inner)
                conds.append(r[0][1].t)
                q = self.assume(r[0][0], r[0][1], True)
                inner = q[0] if q else r[0][0]
            if kind == "dict":
                vs = self.evals([n.key, n.value], inner)
                e = V(("pair", vs[0][1][0].t, vs[0][1][1].t), vs[0][1][1].st, vs[0][1][1].el)
                alts = [e]
            else:
                r = self.eval(n.elt, inner)
                e = r[0][1]
                alts = [v for _, v in r]
            t = ("comp", uid, e.t, it.t) if len(alts) == 1 else ("comp", uid, ("alt", tuple(v.t for v in alts)), it.t)
            if conds:
                t = t + (tuple(conds),)
            self.compinfo[uid] = (it, alts)
            out.append((x, V(t, EMPTY, frozenset().union(*[v.st | v.el for v in alts]))))
        return out

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def literal(self, v):
        """elements of an iterable when they are known"""
        if v.open or v.items and any(i.open for i in v.items if v.t[0] == "call"):
            return None
        if v.items is not None and v.t[0] in ("tuple", "list"):
            return v.items
        if v.t[0] == "call" and v.t[1] == "reversed" and v.items and v.items[0].items is not None:
            return list(reversed(v.items[0].items))
        if v.t[0] == "call" and v.t[1] == "range" and all(x[0] == "const" for x in v.t[2]):
            r = range(*[x[1] for x in v.t[2]])
            return [const(i) for i in r] if len(r) <= 10 else None
        if v.t[0] == "call" and v.t[1] == "enumerate" and v.items and v.items[0].items is not None and v.items[0].t[0] in ("tuple", "list"):
            return [self.seq("tuple", [const(i), x]) for i, x in enumerate(v.items[0].items)]
        if v.t[0] == "call" and v.t[1] == "zip" and v.items and all(i.items is not None for i in v.items):
            return [self.seq("tuple", list(xs)) for xs in zip(*[i.items for i in v.items])]
        if v.t[0] == "meth" and v.t[1] == "items" and v.d is not None and not v.open:
            return [self.seq("tuple", [const(k), x]) for k, x in v.d.items()]
        return None

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st):
        out = []
        if isinstance(n.func, ast.Attribute):
            for x, o in self.eval(n.func.value, st):
                for y, f in self.getattr(o, n.func.attr, x, n):
                    out += self.call_args(f, o, n.func.attr, n, y)
            return out
        for x, f in self.eval(n.func, st):
            out += self.call_args(f, None, None, n, x)
        return out

    def call_args(self, f, o, name, n, st):
        out = []
        kws = [k.value for k in n.keywords]
        for x, vs in self.evals(list(n.args) + kws, st):
            a, k = vs[:len(n.args)], vs[len(n.args):]
            args, kw = [], {}
            for v in a:
                if v.t[0] == "star":
                    w = v.but(t=v.t[1])
                    if w.items is not None and w.t[0] in ("tuple", "list"):
                        args += w.items
                    else:
                        args.append(v)
                else:
                    args.append(v)
            for kn, v in zip(n.keywords, k):
                if kn.arg is None:
                    if v.d is not None:
                        kw.update({q: w for q, w in v.d.items() if isinstance(q, str)})
                        if v.open:
                            kw["**"] = v
                    else:
                        kw["**"] = v
                else:
                    kw[kn.arg] = v
            if o is not None and f.fn is None:
                out += self.method(o, name, args, kw, x, n)
            else:
                out += self.call(f, args, kw, x, n)
        return out

    def call(self, f, args, kw, st, node):
        fn = f.fn
        if isinstance(fn, Bound):
            return self.call_fn(fn.fn, [fn.self] + args, kw, st, node)
        if isinstance(fn, Fn):
            return self.call_fn(f, args, kw, st, node)
        if isinstance(fn, Cls):
            return self.construct(f, args, kw, st, node)
        if isinstance(fn, Ext):
            return self.ext(fn.name, args, kw, st, node)
        t = ("call", show(f.t), tuple(v.t for v in args), tuple(sorted((k, v.t) for k, v in kw.items())))
        self.ev("call", st, node, name=show(f.t), args=args, kw=kw, ret=t, callee=f)
        self.mayraise(st, node)
        return [(st, V(t, tk(t), tk(("el", t))))]

    def call_fn(self, f, args, kw, st, node):
        fn = f.fn
        if isinstance(fn, Bound):
            return self.call_fn(fn.fn, [fn.self] + args, kw, st, node)
        if not isinstance(fn, Fn):
            return self.call(f, args, kw, st, node)
        name = (fn.cls.name + "." if fn.cls else "") + fn.name
        t = ("call", name, tuple(v.t for v in args), tuple(sorted((k, v.t) for k, v in kw.items())))
        self.ev("enter", st, node, name=name, args=args, kw=kw, callee=f)
        if not self.inlinable(f):
            self.mayraise(st, node)
            return [(st, V(t))]
        b = self.bindargs(fn, args, kw, node)
        if b is None:
            self.mayraise(st, node)
            return [(st, V(t))]
        out = []
        caller = st.env
        sub = St({}, st.heap, st.pc, st.loops)
        for x, o in self.enter(fn, b, sub, node):
            x.env = dict(caller)
            x.loops = st.loops
            if o is None:
                out.append((x, NONE))
            elif o[0] == "return":
                out.append((x, o[1]))
            else:
                # exception leaving the callee
                self.raises.append((x, tuple(self.trys), o[3] if len(o) > 3 else "?", node, len(self.stack)))
                self.ev("raised", x, node, val=o[1])
        return self.cap(self.merge_calls(out, st, t))

    def merge_calls(self, outs, st, t):
        """several paths of a callee with the same effect and result become one"""
        res, seen = [], {}
        for x, v in outs:
            k = (v.t, v.st, v.el, id(x.heap), tuple(sorted((n, id(w)) for n, w in x.env.items())))
            try:
                hash(k)
            except TypeError:
                res.append((x, v))
                continue
            if k in seen:
                o = seen[k]
                o.pc = st.pc
                continue
            seen[k] = x
            res.append((x, v))
        if len(res) > WIDE and all(x.heap is st.heap for x, _ in res):
            # too many ways through the callee: join the results
            vs = [v for _, v in res]
            x = res[0][0]
            x.pc = st.pc
            if all(v.items is not None and v.t[0] == "tuple" for v in vs) and len({len(v.items) for v in vs}) == 1:
                its = [self.join(t + (i,), [v.items[i] for v in vs]) for i in range(len(vs[0].items))]
                return [(x, V(("tuple", tuple(i.t for i in its)), items=its))]
            return [(x, self.join(t, vs))]
        return res

    def join(self, t, vs):
        if len({v.t for v in vs}) == 1:
            return vs[0]
        st = frozenset().union(*[v.st for v in vs])
        el = frozenset().union(*[v.el for v in vs])
        lv = vs[0].lv if len({v.lv for v in vs}) == 1 else None
        cls = vs[0].cls if len({v.cls for v in vs}) == 1 else None
        return V(("joined",) + t[1:2] + t[4:], may(st), may(el), cls=cls, lv=lv)

    def bindargs(self, fn, args, kw, node):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        extra = []
        kw = dict(kw)
        opened = kw.pop("**", None)
        for i, v in enumerate(args):
            if v.t[0] == "star":
                if a.vararg is not None and i >= len(pos):
                    extra.append(v)
                    continue
                # unknown number of positional arguments: remaining parameters are unknown
                for j in range(i, len(pos)):
                    b.setdefault(pos[j], V(("item", v.t[1], ("const", j - i)), tk(("item", v.t[1], ("const", j - i)))))
                break
            if i < len(pos):
                b[pos[i]] = v
            else:
                extra.append(v)
        kwx = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                b[k] = v
            else:
                kwx[k] = v
        if a.vararg:
            b["*"] = self.seq("tuple", extra) if not (len(extra) == 1 and extra[0].t[0] == "star") else extra[0].but(t=extra[0].t[1])
        if a.kwarg:
            b["**"] = V(("dict", tuple((k, v.t) for k, v in kwx.items())), d=kwx, open=opened is not None)
        if opened is not None:
            b["?"] = opened
        return b

    def enter(self, fn, b, st, node):
        a = fn.node.args
        env = {}
        allp = a.posonlyargs + a.args
        dn = len(allp) - len(a.defaults)
        self.stack.append(fn)
        try:
            opened = b.get("?")
            for i, x in enumerate(allp):
                if x.arg in b:
                    env[x.arg] = b[x.arg]
                elif i >= dn:
                    env[x.arg] = self.eval(a.defaults[i - dn], St({}, {}))[0][1]
                    if opened is not None:
                        env[x.arg] = V(("kwdefault", opened.t, x.arg, env[x.arg].t))
                else:
                    env[x.arg] = V(("missing", x.arg)) if opened is None else V(("item", opened.t, ("const", x.arg)))
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg in b:
                    env[x.arg] = b[x.arg]
                elif d is not None:
                    env[x.arg] = self.eval(d, St({}, {}))[0][1]
            if a.vararg:
                env[a.vararg.arg] = b.get("*") or self.seq("tuple", [])
            if a.kwarg:
                env[a.kwarg.arg] = b.get("**") or V(("dict", ()), d={})
            s2 = St(env, st.heap, st.pc, st.loops)
            if isinstance(fn.node, ast.Lambda):
                return [(x, ("return", v, fn.node)) for x, v in self.eval(fn.node.body, s2)]
            body = fn.node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn.node)):
                self.uid += 1
                return [(s2, ("return", V(("gen", self.uid)), fn.node))]
            return self.block(body, s2)
        finally:
            self.stack.pop()

    def construct(self, f, args, kw, st, node):
        c = f.fn
        self.uid += 1
        t = ("obj", self.uid, c.name)
        o = V(t, cls=c)
        bases = [ast.unparse(b) for b in c.node.bases]
        if any(b.endswith("Exception") or b.endswith("Error") for b in bases):
            return [(st, V(("call", c.name, tuple(v.t for v in args), ())))]
        self.ev("construct", st, node, cls=c.name, obj=o, args=args, kw=kw)
        m = self.member(c, "__init__")
        if m is None:
            self.mayraise(st, node)
            return [(st, o)]
        out = []
        for x, _ in self.call(V(m[1].t, fn=Bound(m[1], o)), args, kw, st, node):
            out.append((x, o))
        return out

    def ext(self, name, args, kw, st, node):
        ts = tuple(v.t for v in args)
        kt = tuple(sorted((k, v.t) for k, v in kw.items()))
        t = ("call", name, ts, kt)
        if name == "functools.wraps":
            return [(st, V(("fn", "identity"), fn=Ext("identity")))]
        if name == "identity" and args:
            return [(st, args[0])]
        if name == "functools.reduce" or name == "property":
            return [(st, args[0] if args else V(t))]
        if name in ("tuple", "list") and len(args) == 1:
            a = args[0]
            if a.items is not None and a.t[0] in ("tuple", "list"):
                return [(st, V((name, tuple(i.t for i in a.items)), el=a.el, items=list(a.items), open=a.open))]
            lit = self.literal(a)
            if lit is not None:
                return [(st, self.seq(name, lit))]
            return [(st, V(t, EMPTY, a.st | a.el, items=None))]
        if name in ("tuple", "list") and not args:
            self.uid += 1
            return [(st, V(("tuple", ()), items=[]) if name == "tuple" else V(("new", self.uid, ("list", ()))))]
        if name == "dict" and not args:
            self.uid += 1
            return [(st, V(("new", self.uid, ("dict", tuple((k, v.t) for k, v in kw.items()))), d={k: v for k, v in kw.items() if k != "**"}, open="**" in kw))]
        if name == "len" and len(args) == 1:
            a = args[0]
            if a.items is not None and a.t[0] in ("tuple", "list") and not a.open:
                return [(st, const(len(a.items)))]
            return [(st, V(t))]
        if name in ("enumerate", "zip", "reversed"):
            return [(st, V(t, frozenset().union(*[a.st for a in args]) if args else EMPTY, EMPTY, items=args))]
        if name == "isinstance" and len(args) == 2:
            r = self.isinst(args[0], args[1])
            if r is not None:
                return [(st, const(r))]
            return [(st, V(t))]
        if name == "hasattr" and len(args) == 2 and args[1].t[0] == "const":
            w = st.heap.get((args[0].t, args[1].t[1]))
            if w is not None:
                return [(st, const(w.t != DELETED))]
            if isinstance(args[0].cls, Cls) and (self.member(args[0].cls, args[1].t[1]) is not None):
                return [(st, const(True))]
            return [(st, V(t))]
        if name == "getattr" and len(args) >= 2 and args[1].t[0] == "const":
            return self.getattr(args[0], args[1].t[1], st, node)
        if name == "setattr" and len(args) == 3 and args[1].t[0] == "const":
            return [(x, NONE) for x in self.setattr(args[0], args[1].t[1], args[2], st, node)]
        if name == "delattr" and len(args) == 2 and args[1].t[0] == "const":
            st = st.clone()
            st.heap = dict(st.heap)
            st.heap[(args[0].t, args[1].t[1])] = V(DELETED)
            self.ev("delattr", st, node, obj=args[0], attr=args[1].t[1])
            return [(st, NONE)]
        if name == "vars" and len(args) == 1:
            return self.getattr(args[0], "__dict__", st, node)
        if name in ("any", "all") and len(args) == 1 and args[0].t[0] == "list" and args[0].items is not None and not args[0].open:
            its = args[0].items
            return [(st, V(("or" if name == "any" else "and", tuple(i.t for i in its))) if its else const(name == "all"))]
        if name == "print":
            return [(st, NONE)]
        if name == "sum" and len(args) == 1:
            self.ev("call", st, node, name=name, args=args, kw=kw, ret=t, callee=None)
            return [(st, V(t))]
        self.ev("call", st, node, name=name, args=args, kw=kw, ret=t, callee=None)
        if name not in SAFE:
            self.mayraise(st, node)
        if "out" in kw:
            self.ev("inplace", st, node, obj=kw["out"], val=args[0] if args else NONE, op=name, name="out")
            return [(st, kw["out"].but(t=t))]
        if name in MUTFN and args:
            self.ev("inplace", st, node, obj=args[MUTFN[name]], val=NONE, op=name, name=name)
            return [(st, NONE)]
        if name == "numpy.nan_to_num" and args and kw.get("copy") is not None and kw["copy"].t == ("const", False):
            self.ev("inplace", st, node, obj=args[0], val=NONE, op=name, name=name)
            return [(st, args[0])]
        a = args[0] if args else None
        if name == "copy.deepcopy" and a is not None:
            if a.cls is not None:
                self.uid += 1
                return [(st, V(("copy", self.uid, a.t), cls=a.cls))]
            return [(st, V(t, EMPTY, EMPTY, lv=a.lv))]
        if name == "copy.copy" and a is not None and a.cls is not None:
            self.uid += 1
            o = V(("obj", self.uid, a.cls.name), cls=a.cls)
            st = st.clone()
            st.heap = dict(st.heap)
            for at in ("data", "scan_shape", "frame_shape", "dtype", "sparse_slicing", "allow_full_expand", "metadata", "_electron_counted_data"):
                r = self.getattr(a, at, st, node)
                st.heap[(o.t, at)] = r[0][1]
            self.ev("construct", st, node, cls=a.cls.name, obj=o, args=args, kw=kw)
            return [(st, o)]
        if name in ALLOC:
            self.uid += 1
            lv = None
            dt = kw.get("dtype") or (args[1] if len(args) > 1 and name != "numpy.full" else None)
            if dt is not None and dt.t in (("ext", "object"), ("const", "object"), ("const", "O")):
                sh = args[0] if args else kw.get("shape")
                lv = "D1"
                if sh is not None and sh.items is not None:
                    lv = "D2" if len(sh.items) == 2 else "D1"
                elif sh is not None and sh.t[0] == "attr" and sh.t[2] == "shape":
                    lv = self.level_of(sh.t[1], st) or "D2"
            return [(st, V(("new", self.uid, t), lv=lv))]
        if name in ("numpy.concatenate", "numpy.hstack") and a is not None:
            if a.lv == "D2":
                return [(st, V(t, EMPTY, a.el, lv="D1"))]
            if a.lv == "D1":
                return [(st, V(t, EMPTY, EMPTY, lv="F"))]
            return [(st, V(t))]
        if name in VIEWFN and a is not None:
            cp = kw.get("copy")
            if name == "stempy.utils.safe_array" and not (cp is not None and cp.t == ("const", False)):
                return [(st, V(t, EMPTY, a.el, lv=a.lv))]
            return [(st, V(t, a.st, a.el, lv=a.lv))]
        if name == "numpy.array" and a is not None and kw.get("copy") is not None and kw["copy"].t != ("const", True):
            return [(st, V(t, a.st, a.el, lv=a.lv))]
        if name in SHALLOW and a is not None:
            return [(st, V(t, EMPTY, a.el if a.lv != "F" else EMPTY, lv=a.lv))]
        if name == "numpy.unique":
            return [(st, V(t, lv=None))]
        if name == "iter" and a is not None:
            return [(st, a)]
        return [(st, V(t))]

    def level_of(self, t, st):
        for v in list(st.env.values()) + list(st.heap.values()):
            if v.t == t and v.lv:
                return v.lv
        return None

    def isinst(self, v, c):
        cs = c.items if c.items is not None else [c]
        names = []
        for x in cs:
            n = x.t[1] if x.t[0] in ("class", "ext") else (x.t[2] if x.t[0] == "attr" else None)
            if n is None:
                return None
            names.append(str(n).split(".")[-1])
        if isinstance(v.cls, Cls):
            mro, todo = [], [v.cls]
            while todo:
                k = todo.pop()
                mro.append(k.name)
                for b in k.node.bases:
                    bn = ast.unparse(b).split(".")[-1]
                    bv = self.module_name(k.mod, bn, St({}, {}))
                    if bv is not None and isinstance(bv.fn, Cls):
                        todo.append(bv.fn)
                    else:
                        mro.append(bn)
            return any(n in mro for n in names)
        k = v.t[0]
        if k == "const":
            ty = type(v.t[1]).__name__
            if ty in ("int", "float", "str", "bool", "NoneType", "bytes"):
                return ty in names or (ty == "bool" and "int" in names)
        if k == "tuple":
            return any(n in ("tuple", "Sequence") for n in names)
        if k == "list" or k == "new" and v.t[2][0] == "list":
            return any(n in ("list", "Sequence") for n in names)
        if k == "slice":
            return "slice" in names
        if k == "call" and v.t[1] == "slice":
            return "slice" in names
        if (k == "call" and v.t[1] in ("numpy.asarray", "numpy.array", "numpy.arange") or k == "new" and v.t[2][0] == "call") and names:
            return "ndarray" in names
        if v.lv is not None and names:
            return "ndarray" in names
        return None

    def method(self, o, name, args, kw, st, node):
        """call of a method of something that is not an instance of a repository class"""
        ts = tuple(v.t for v in args)
        kt = tuple(sorted((k, v.t) for k, v in kw.items()))
        t = ("meth", name, o.t, ts, kt)
        if o.t[0] == "attr" and o.t[2] == "__dict__" and name == "pop" and args and args[0].t[0] == "const":
            st = st.clone()
            st.heap = dict(st.heap)
            st.heap[(o.t[1], args[0].t[1])] = V(DELETED)
            self.ev("delattr", st, node, obj=V(o.t[1]), attr=args[0].t[1])
            if len(args) < 2:
                self.mayraise(st, node)
            return [(st, V(t))]
        if o.d is not None:
            if name == "update":
                st = st.clone()
                d, op = dict(o.d), o.open
                for a in args:
                    if a.d is not None:
                        d.update(a.d)
                        op = op or a.open
                    else:
                        op = True
                        d = {k: V(("maybe", a.t, str(k), v.t), v.st, v.el, v.cls, lv=v.lv) for k, v in d.items()}
                d.update(kw)
                self.replace(st, o, o.but(d=d, open=op))
                return [(st, NONE)]
            if name == "get" and args and ckey(args[0]) is not MISSING and ckey(args[0]) in o.d:
                return [(st, o.d[ckey(args[0])])]
            if name == "get" and args and ckey(args[0]) is not MISSING and not o.open and o.d:
                return [(st, args[1] if len(args) > 1 else NONE)]
            if name in ("items", "keys", "values"):
                return [(st, V(t, EMPTY, EMPTY, d=o.d if name == "items" else None, open=o.open))]
            if name == "copy":
                self.uid += 1
                return [(st, V(("new", self.uid, o.t), d=dict(o.d), open=o.open))]
            if name == "pop" and args and args[0].t[0] == "const" and args[0].t[1] in o.d:
                st = st.clone()
                d = dict(o.d)
                v = d.pop(args[0].t[1])
                self.replace(st, o, o.but(d=d))
                return [(st, v)]
        self.ev("meth", st, node, name=name, obj=o, args=args, kw=kw, ret=t)
        if name in ("append", "extend", "insert", "add") and args:
            a = args[-1]
            st = st.clone()
            add = a.st | a.el
            if add - o.el:
                self.replace(st, o, o.but(el=o.el | add))
            self.ev("mutcall", st, node, name=name, obj=o, args=args)
            if o.items is not None and o.t[0] == "list":
                it = o.items + (args if name == "append" else (a.items or [V(("star", a.t))]))
                self.replace(st, o, V(("list", tuple(i.t for i in it)), o.st, o.el | add, items=it))
            return [(st, NONE)]
        if name in MUTATORS:
            self.ev("mutcall", st, node, name=name, obj=o, args=args)
            self.mayraise(st, node)
            return [(st, V(t))]
        if name not in ("ravel", "copy", "any", "all", "items", "keys", "values", "format", "join", "get", "split", "astype"):
            self.mayraise(st, node)
        if name in VIEWS:
            lv = o.lv
            if lv in ("D1", "D2"):
                lv = "D1" if name == "ravel" else lv
                if name == "reshape":
                    n = len(args) if len(args) != 1 else (len(args[0].items) if args[0].items is not None else None)
                    lv = {1: "D1", 2: "D2"}.get(n, "D2")
            return [(st, V(t, o.st, o.el, lv=lv))]
        if name == "flatten":
            return [(st, V(t, EMPTY, o.el, lv="D1" if o.lv == "D2" else o.lv))]
        if name == "copy":
            return [(st, V(t, EMPTY, o.el if o.lv != "F" else EMPTY, lv=o.lv))]
        if name == "astype":
            cp = kw.get("copy")
            if cp is not None and cp.t == ("const", False):
                return [(st, V(t, may(o.st), o.el, lv=o.lv))]
            return [(st, V(t, EMPTY, o.el if o.lv in ("D1", "D2") else EMPTY, lv=o.lv))]
        return [(st, V(t))]


def neg(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "cmp" and t[1] in ("is", "is not", "in", "not in"):
        return ("cmp", NEG[t[1]], t[2], t[3])
    return ("not", t)


def subst(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
NEG = {"==": "!=", "!=": "==", "is": "is not", "is not": "is", "in": "not in", "not in": "in", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
