"""Where Python objects are touched, where threads wait and where tasks are started, together with
whether the executing thread holds the interpreter lock there.  One pass over the syntax tree
per (function, lock held, task) context, following calls, closures, implicit copies, destructors
of locals and temporaries, and scoped acquire / release guards."""
from cxx import *
from engine import ty, recname
from models import bare, elem_type, VEC

# reading an array's fields does not change a reference count
EXEMPT = {"data", "mutable_data", "size", "shape", "strides", "ndim", "itemsize", "nbytes", "ptr", "operator bool", "is_none",
          "index_at", "offset_at", "unchecked", "mutable_unchecked", "writeable", "owndata", "flags", "at", "check_writeable",
          "format", "format_descriptor", "release", "gil_scoped_acquire", "gil_scoped_release", "begin", "end"}
SMART = ("std::shared_ptr", "std::unique_ptr", "std::optional", "std::atomic", "std::weak_ptr")
WAITERS = {"std::future": ("get", "wait"), "std::__basic_future": ("wait",), "std::shared_future": ("get", "wait"), "std::thread": ("join",),
           "std::condition_variable": ("wait", "wait_for", "wait_until"), "std::condition_variable_any": ("wait",)}
ACQ, REL = "pybind11::gil_scoped_acquire", "pybind11::gil_scoped_release"


def pybase(n):
    return n.startswith("pybind11::") and bare(n) not in (ACQ, REL, "pybind11::buffer_info_dummy", "pybind11::detail::any_container", "pybind11::error_already_set_dummy")


class Gil:
    def __init__(self, E):
        self.E = E
        self.seen = {}
        self.bad, self.ok, self.und = [], [], []
        self.needs = []       # acquisitions by threads that do not hold the lock: (task?, at)
        self.waits = []       # (held, at, what)
        self.spawns = []
        self.functions = set()
        self.stack = []
        self.kinds = {}

    # ---- types
    def record(self, t):
        return self.E.record(t)

    def fieldtypes(self, t, depth=0):
        tu, rec = self.record(t)
        if rec is None:
            return []
        out = [(f["n"], ty(tu, f["t"])) for f in rec.get("fields", [])]
        for b in rec.get("bases", []):
            if isinstance(b, int):
                out.append(("", ty(tu, b)))
        return out

    def touchy(self, t, depth=0):
        """does the type own Python references (whatever guards it has)?"""
        if t is None or t.k in ("ref", "ptr") or depth > 6:
            return False
        n = recname(t)
        if t.s in self.kinds:
            return self.kinds[t.s]
        self.kinds[t.s] = False
        b = bare(n)
        if pybase(b):
            r = b not in ("pybind11::handle",)
        elif b in (ACQ, REL):
            r = False
        elif b in VEC or b in SMART or b.startswith("std::") or t.k == "arr":
            r = False
            for i in range(2):
                try:
                    e = elem_type(t) if i == 0 else t.targ(1)
                except Exception:
                    e = None
                if e is not None and e.k == "rec" and self.touchy(e, depth + 1):
                    r = True
        else:
            r = any(self.touchy(ft, depth + 1) for _, ft in self.fieldtypes(t))
        self.kinds[t.s] = r
        return r

    def guard(self, t, depth=0):
        """True: type acquires while alive; False: releases; None: neither"""
        if t is None or t.k in ("ref", "ptr") or depth > 3:
            return None
        b = bare(recname(t))
        if b == ACQ:
            return True
        if b == REL:
            return False
        if b in SMART or b == "std::tuple" or b == "std::pair":
            try:
                return self.guard(t.targ(0), depth + 1)
            except Exception:
                return None
        if b.startswith("std::") or pybase(b):
            return None
        for _, ft in self.fieldtypes(t):
            g = self.guard(ft, depth + 1)
            if g is not None:
                return g
        return None

    # ---- reporting
    def where(self):
        return self.stack[-1] if self.stack else "?"

    def touch(self, what, at):
        rec = (what, at, self.where(), tuple(self.stack))
        (self.ok if self.held else self.bad).append(rec)

    # ---- functions
    def function(self, f, held, task=False, this=None):
        if f is None or not f.get("body"):
            return held
        key = (id(f), held, task)
        if key in self.seen:
            return self.seen[key]
        self.seen[key] = held
        saved = getattr(self, "held", None), getattr(self, "task", None), getattr(self, "tu", None), getattr(self, "temps", None), getattr(self, "nulled", None), getattr(self, "fn", None)
        self.held, self.task, self.tu, self.temps, self.nulled = held, task, f["_tu"], [], set()
        self.fn = f
        self.stack.append(str(f["f"]).split("(")[0])
        self.functions.add(f["f"])
        for i in f.get("inits") or ():
            if isinstance(i, dict):
                self.expr(i.get("init") if isinstance(i.get("init"), dict) else i)
        self.stmt(f["body"])
        for p in f.get("params") or ():
            self.destroy(ty(self.tu, p.get("t")), self.at(f), "parameter " + str(p.get("n")))
        out, nulled = self.held, self.nulled
        self.seen[key] = out
        self.stack.pop()
        self.held, self.task, self.tu, self.temps, self.nulled, self.fn = saved
        self.null_of = getattr(self, "null_of", {})
        self.null_of[id(f)] = nulled
        return out

    def at(self, e):
        try:
            return self.tu.loc(e)
        except Exception:
            return "?"

    # ---- statements
    def stmt(self, s):
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "block":
            live = []
            saved = self.held
            guards = []
            for x in s.get("b") or ():
                if isinstance(x, dict) and x.get("k") == "decl":
                    for v in x.get("v") or ():
                        t = ty(self.tu, v.get("t"))
                        g = self.guard(t) if t is not None and t.k != "ref" else None
                        if isinstance(v.get("init"), dict):
                            self.init(v["init"], t)
                        if g is not None:
                            guards.append(self.held)
                            self.acquire(g, self.at(v) if v.get("l") else self.at(v.get("init") or s))
                            live.append(("guard", g))
                        elif t is not None and t.k != "ref":
                            live.append(("var", t, v, x))
                else:
                    self.stmt(x)
            for l in reversed(live):
                if l[0] == "guard":
                    self.held = guards.pop()
                else:
                    v = l[2]
                    self.destroy(l[1], self.at(v.get("init") or s), "local " + str(v.get("n")), init=v.get("init"))
            return
        if k == "decl":
            self.stmt({"k": "block", "b": [s]})
            return
        if k == "expr":
            self.expr(s["e"])
            return
        if k == "if":
            for key in ("init", "v"):
                if isinstance(s.get(key), dict):
                    self.stmt(s[key]) if s[key].get("k") in ("decl", "block") else self.expr(s[key])
            if isinstance(s.get("c"), dict):
                self.expr(s["c"])
            h = self.held
            self.stmt(s.get("a"))
            ha = self.held
            self.held = h
            self.stmt(s.get("b"))
            self.held = ha and self.held
            return
        # everything else: children in order
        for key, x in s.items():
            if key in ("k", "t", "l", "c_", "fi", "_tu"):
                continue
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict):
                    self.any(y)

    STM = ("block", "decl", "if", "for", "while", "do", "rfor", "ret", "break", "continue", "nop", "switch", "case", "default", "try", "expr", "label", "otherstmt")

    def any(self, y):
        if y.get("k") in self.STM:
            self.stmt(y)
        elif y.get("k"):
            self.expr(y)
        else:
            for key, x in y.items():
                if key == "_tu":
                    continue
                for z in (x if isinstance(x, list) else [x]):
                    if isinstance(z, dict):
                        self.any(z)

    def acquire(self, g, at):
        if g and not self.held:
            self.needs.append((self.task, at, self.where()))
        self.held = g

    # ---- expressions
    def init(self, e, t):
        self.expr(e, owned=True)

    def expr(self, e, owned=False):
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k == "lambda":
            return     # walked where it is called or handed to
        if k == "call":
            return self.call(e, owned)
        if k == "ctor":
            return self.ctor(e, owned)
        if k in ("cast", "defarg", "init"):
            for key in ("e", "ex"):
                if isinstance(e.get(key), dict):
                    self.expr(e[key], owned)
            for a in e.get("args") or ():
                self.expr(a, owned)
            return
        if k == "delete":
            self.children(e)
            t = self.ty(e.get("e"))
            if t is not None and t.k == "ptr":
                self.destroy(t.to, self.at(e), "deleted object")
            return
        self.children(e)

    def children(self, e):
        for key, x in e.items():
            if key in ("_tu",):
                continue
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict):
                    self.any(y)

    def ty(self, e):
        if isinstance(e, dict) and isinstance(e.get("t"), int):
            return ty(self.tu, e["t"])
        return None

    def closures(self, e):
        """functions of the closures an argument denotes"""
        out = []
        seen = set()
        for m in walk([e]):
            if m.get("k") == "lambda":
                out += self.lamfns(self.tu, m)
                seen.add(m.get("id"))
            elif m.get("k") in ("var", "mem", "call", "cast", "ctor"):
                t = self.ty(m)
                if t is not None:
                    l = t.base.raw.get("lambda")
                    if l is not None and l not in seen:
                        seen.add(l)
                        for tu in [t.base.tu] + list(self.E.tus):
                            if l in tu.lambdas:
                                out += self.lamfns(tu, tu.lambdas[l])
                                break
            elif m.get("k") == "fref" and m.get("key"):
                f = self.E.keymap.get(m["key"])
                if f is not None:
                    out.append((f, None))
        return out

    def lamfns(self, tu, m):
        fs = [m["fn"]] if isinstance(m.get("fn"), dict) else list(m.get("specs") or ())
        out = []
        for f in fs:
            f["_tu"] = tu
            out.append((f, m))
        return out

    def resolve(self, e):
        key = e.get("key")
        f = self.tu.by_key.get(key) if key else None
        if f is None or not f.get("body"):
            f = self.E.keymap.get(key) if key else None
        if f is not None and f.get("body"):
            return f
        o = e.get("obj")
        if isinstance(o, dict) and str(e.get("f", "")).endswith("operator()"):
            cl = self.closures(o)
            for f, m in cl:
                if f.get("key") == key:
                    return f
            if cl:
                return cl[0][0]
        return None

    def spawner(self, name, cls):
        last = name.split("::")[-1]
        return last == "enqueue" or name == "std::async" or bare(cls) in ("std::thread", "std::jthread") and last in ("thread", "jthread")

    def spawn(self, e, args):
        for a in args:
            self.expr(a, owned=True)
        n = 0
        for a in args:
            for f, m in self.closures(a):
                n += 1
                self.spawns.append((self.at(e), self.where()))
                self.task_fn(f, m)
        return n

    def task_fn(self, f, m):
        saved = getattr(self, "held", None), self.task
        out = self.function(f, False, True)
        # captured values die with the task, on whatever thread runs it
        if m is not None:
            for c in m.get("caps") or ():
                if isinstance(c, dict) and not c.get("ref"):
                    t = self.ty(c)
                    if t is not None and t.k not in ("ref", "ptr") and c.get("how", "copy") != "ref" and self.raw(t):
                        self.held = False
                        self.touch("captured copy of %s destroyed with the task" % t.s[:60], self.at(m))
        self.held, self.task = saved

    def raw(self, t):
        """destroying the type touches Python without its own guard"""
        probe = Gil(self.E)
        probe.held, probe.task, probe.tu, probe.temps, probe.nulled, probe.stack = False, False, self.tu, [], set(), list(self.stack)
        probe.destroy(t, "?", "x")
        return bool(probe.bad)

    def call(self, e, owned=False):
        name, cls = str(e.get("f") or ""), str(e.get("cls") or "")
        args = e.get("args") or []
        if isinstance(e.get("obj"), dict):
            self.expr(e["obj"])
        if isinstance(e.get("fe"), dict):
            self.expr(e["fe"])
        last = name.split("::")[-1].split("<")[0]
        if self.spawner(name.split("<")[0] if "<" in name and not name.endswith("enqueue") else name, cls) or last == "enqueue":
            if self.spawn(e, args):
                return
            args = []
        for a in args:
            self.expr(a)
        at = self.at(e)
        f = self.resolve(e)
        b = bare(cls)
        if b in VEC and last in ("emplace_back", "push_back", "emplace"):
            ot = self.ty(e.get("obj"))
            et = elem_type(ot.to if ot is not None and ot.k == "ptr" else ot)
            if et is not None and bare(recname(et)) in ("std::thread", "std::jthread"):
                for a in args:
                    for g, m in self.closures(a):
                        self.spawns.append((at, self.where()))
                        self.task_fn(g, m)
                return
        if name.startswith("PyGILState_Ensure") or name == "PyEval_RestoreThread":
            self.acquire(True, at)
            return
        if name in ("PyGILState_Release", "PyEval_SaveThread"):
            self.held = False
            return
        if name.startswith(("Py", "_Py")) and name[:3] not in ("PyG",) and "::" not in name:
            self.touch("call of %s" % name, at)
            return
        if f is not None and not name.startswith("pybind11::"):
            h = self.function(f, self.held, self.task)
            if self.this_obj(e):
                self.nulled |= getattr(self, "null_of", {}).get(id(f), set())
            if h != self.held:
                self.held = h
        elif name.startswith("pybind11::") or pybase(b):
            if last not in EXEMPT and not last.startswith("operator bool") and b not in ("pybind11::buffer_info",) and "any_container" not in name:
                self.touch("call of %s" % short_name(name), at)
        else:
            self.unknown(e, name, b, last, at)

    def this_obj(self, e):
        o = e.get("obj")
        while isinstance(o, dict) and o.get("k") in ("cast", "un"):
            o = o.get("e")
        return isinstance(o, dict) and o.get("k") == "this"

    def unknown(self, e, name, b, last, at):
        """standard library or implicit members"""
        if b in WAITERS and last in WAITERS[b]:
            self.waits.append((self.held, self.task, at, "%s::%s" % (b, last), self.where()))
        # closures handed to library functions run here
        for a in e.get("args") or ():
            for f, m in self.closures(a) if self.mentions_closure(a) else ():
                self.function(f, self.held, self.task)
        o = e.get("obj")
        t = self.ty(o)
        if t is not None:
            t = t.base
            if t.k == "ptr":
                t = t.to
        if t is None or t.k != "rec" or not self.touchy(t):
            return
        if last in ("reset", "clear", "operator=", "erase", "pop_back", "resize", "assign", "pop_front", "swap", "pop"):
            if last == "swap":
                return
            if last == "operator=" and not (b in VEC or b in SMART or b.startswith("std::")):
                self.memberwise(t, e, at)
                return
            # dropping the old value
            if b in SMART or b in VEC or b.startswith("std::"):
                inner = elem_type(t)
                if inner is not None:
                    self.destroy(inner, at, "value dropped by %s" % last, store=e.get("obj"))
                if last == "operator=" and b in VEC and not self.moved(e):
                    self.copy(inner, at)
                if last == "reset" and not (e.get("args") or ()):
                    self.mark_null(o)
            else:
                self.destroy(t, at, "value dropped by %s" % last)
        elif last in ("push_back", "emplace_back", "insert") and b in VEC:
            inner = elem_type(t)
            for a in e.get("args") or ():
                if not self.rvalue(a):
                    self.copy(inner, at)

    def mentions_closure(self, a):
        while isinstance(a, dict) and a.get("k") in ("cast", "ctor", "defarg"):
            a = a.get("e") if isinstance(a.get("e"), dict) else (a.get("args") or [None])[0]
        if not isinstance(a, dict):
            return False
        if a.get("k") == "lambda":
            return True
        t = self.ty(a)
        return t is not None and t.base.raw.get("lambda") is not None

    def mark_null(self, o):
        if isinstance(o, dict) and o.get("k") == "mem":
            b = o.get("b")
            while isinstance(b, dict) and b.get("k") in ("cast", "un"):
                b = b.get("e")
            if isinstance(b, dict) and b.get("k") == "this":
                self.nulled.add(o.get("n"))

    def moved(self, e):
        a = (e.get("args") or [None])[0]
        return self.rvalue(a)

    def rvalue(self, a):
        while isinstance(a, dict) and a.get("k") in ("cast", "defarg"):
            a = a.get("e")
        if not isinstance(a, dict):
            return False
        if a.get("k") == "call":
            if str(a.get("f", "")).split("<")[0] in ("std::move", "std::forward"):
                return True
            t = self.ty(a)
            return t is not None and t.k != "ref" and not a.get("lv")
        return a.get("k") in ("ctor", "init")

    def memberwise(self, t, e, at):
        mv = self.moved(e)
        for n, ft in self.fieldtypes(t):
            if ft is None or ft.k in ("ref", "ptr") or not self.touchy(ft):
                continue
            b = bare(recname(ft))
            if pybase(b) or b in VEC or b in SMART or b.startswith("std::"):
                self.destroy(ft, at, "old value of member %s" % n)
                if not mv:
                    self.copy(ft, at)
            else:
                self.assign_type(ft, mv, at, e)

    def assign_type(self, t, mv, at, e):
        tu, rec = self.record(t)
        ms = [m for m in (rec or {}).get("methods", []) if m.get("n") == "operator=" and not m.get("deleted")]
        mine = [m for m in ms if ("&&" in str(m.get("key"))) == mv] or ms
        f = None
        for m in mine:
            if m.get("user"):
                f = tu.by_key.get(m["key"])
                if f is None or not f.get("body"):
                    f = self.E.keymap.get(m["key"])
        if f is not None:
            self.held = self.function(f, self.held, self.task)
        else:
            fake = {"args": e.get("args")}
            self.memberwise(t, fake, at)

    def ctor(self, e, owned=False):
        cls = str(e.get("cls") or "")
        b = bare(cls)
        args = e.get("args") or []
        at = self.at(e)
        if b in ("std::thread", "std::jthread") and args and not (e.get("copy") or e.get("move")):
            self.spawn(e, args)
            return
        for a in args:
            self.expr(a, owned=bool(e.get("elid") or e.get("move")))
        t = self.ty(e)
        if pybase(b):
            if e.get("elid") or e.get("move"):
                pass
            elif b in ("pybind11::buffer_info",) and not args:
                pass
            elif e.get("dflt") and b in ("pybind11::object", "pybind11::handle", "pybind11::buffer_info", "pybind11::capsule", "pybind11::slice", "pybind11::buffer"):
                pass
            elif b in ("pybind11::handle",):
                pass
            elif b in ("pybind11::gil_scoped_acquire", "pybind11::gil_scoped_release"):
                pass
            elif e.get("copy"):
                self.touch("copy of a %s" % short_name(cls), at)
            elif "detail::descr" in b or "arg" == b.split("::")[-1]:
                pass
            else:
                self.touch("construction of a %s" % short_name(cls), at)
        else:
            f = None if e.get("elid") else self.resolve(e)
            if f is not None and not f.get("defaulted"):
                self.held = self.function(f, self.held, self.task)
            elif e.get("copy") and not e.get("elid"):
                self.copy(t, at)
        if e.get("temp") and not owned and t is not None:
            self.destroy(t, at, "temporary")

    def copy(self, t, at, depth=0):
        if t is None or t.k in ("ref", "ptr") or depth > 6 or not self.touchy(t):
            return
        b = bare(recname(t))
        if pybase(b):
            self.touch("copy of a %s" % short_name(b), at)
        elif b in SMART:
            return
        elif b in VEC or b.startswith("std::"):
            self.copy(elem_type(t), at, depth + 1)
        else:
            tu, rec = self.record(t)
            for m in (rec or {}).get("methods", []):
                if m.get("user") and m.get("n") == b.split("::")[-1] and "(const %s &)" % b in str(m.get("key")):
                    f = tu.by_key.get(m["key"]) or self.E.keymap.get(m["key"])
                    if f is not None and f.get("body"):
                        self.held = self.function(f, self.held, self.task)
                        return
            for n, ft in self.fieldtypes(t):
                self.copy(ft, at, depth + 1)

    def destroy(self, t, at, what, init=None, store=None, depth=0):
        if t is not None and t.k == "rec" and depth == 0 and (bare(recname(t)) == "ThreadPool" or bare(recname(t)) in SMART and "<ThreadPool" in t.s):
            self.waits.append((self.held, self.task, at, "end of the thread pool", self.where()))
        if t is None or t.k in ("ref", "ptr") or depth > 6 or not self.touchy(t):
            return
        b = bare(recname(t))
        if pybase(b):
            if init is not None and self.nullinit(init, b):
                return
            if depth == 0 and store is None and what.startswith("local") and self.moved_away(what[6:]):
                return
            self.touch("destruction of a %s (%s)" % (short_name(b), what), at)
            return
        if b in SMART:
            if what.startswith("local") and depth == 0 and self.borrowed(init):
                if not self.held:
                    self.und.append(("copy of a shared pointer to a Python object released (%s)" % what, at, self.where(), tuple(self.stack)))
                return
            if what.startswith("local") and depth == 0 and self.moved_away(what[6:]):
                return
            self.destroy(elem_type(t), at, what, depth=depth + 1)
            return
        if b in VEC or b.startswith("std::"):
            if what.startswith("local") and depth == 0 and self.moved_away(what[6:]):
                return
            self.destroy(elem_type(t), at, what, depth=depth + 1)
            try:
                self.destroy(t.targ(1), at, what, depth=depth + 1)
            except Exception:
                pass
            return
        tu, rec = self.record(t)
        if rec is None:
            return
        nulled = set()
        if rec.get("dtor_user"):
            f = tu.by_key.get(rec.get("dtor"))
            if f is None or not f.get("body"):
                f = self.E.keymap.get(rec.get("dtor"))
            if f is not None:
                h = self.function(f, self.held, self.task)
                nulled = self.null_of.get(id(f), set())
                self.held = h
        for n, ft in self.fieldtypes(t):
            if n not in nulled:
                self.destroy(ft, at, what if n == "" else "%s, member %s" % (what, n), depth=depth + 1)

    def nullinit(self, init, b):
        return isinstance(init, dict) and init.get("k") == "ctor" and init.get("dflt") and b in ("pybind11::object", "pybind11::handle", "pybind11::buffer_info")

    def moved_away(self, name):
        """local handed on with std::move or returned"""
        f = self.current()
        for m in walk([f.get("body")]) if f else ():
            if m.get("k") == "call" and str(m.get("f", "")).split("<")[0] in ("std::move", "std::forward"):
                for v in walk(m.get("args") or []):
                    if v.get("k") == "var" and v.get("n") == name:
                        return True
            if m.get("k") == "ret" and isinstance(m.get("e"), dict):
                x = m["e"]
                while isinstance(x, dict) and x.get("k") in ("ctor", "cast") :
                    x = x.get("e") if isinstance(x.get("e"), dict) else (x.get("args") or [None])[0]
                if isinstance(x, dict) and x.get("k") == "var" and x.get("n") == name:
                    return True
        return False

    def current(self):
        return getattr(self, "fn", None)

    def borrowed(self, init):
        """copy-initialised from an lvalue that this function never overwrites"""
        x = init
        while isinstance(x, dict) and x.get("k") in ("cast", "ctor") and x.get("args", [1]):
            if x.get("k") == "ctor" and not x.get("copy"):
                return False
            x = x.get("e") if isinstance(x.get("e"), dict) else (x.get("args") or [None])[0]
        if not isinstance(x, dict) or x.get("k") not in ("mem", "var"):
            return False
        n = x.get("n")
        f = self.current()
        for m in walk([f.get("body")]) if f else ():
            if m.get("k") == "call" and str(m.get("f", "")).split("::")[-1].split("<")[0] in ("operator=", "reset", "swap", "move"):
                for y in walk([m.get("obj"), m.get("args")]):
                    if y.get("k") in ("mem", "var") and y.get("n") == n and y is not x:
                        return False
        return True


def short_name(n):
    return str(n).replace("pybind11::", "py::").split("<")[0]
