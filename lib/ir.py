"""Loading of the AST-IR: runs the extractor over every translation unit the build
compiles (in parallel, cached by the content of all inputs) and merges the results."""
import hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STEMPY_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ROOT_DIRS = ["stempy", "python", "h5cpp", "thirdparty/ThreadPool"]
TUS = ["stempy/electron.cpp", "stempy/electronthresholds.cpp", "stempy/image.cpp", "stempy/mask.cpp",
       "stempy/reader.cpp", "python/image.cpp", "python/io.cpp", "python/pyreader.cpp", "h5cpp/h5readwrite.cpp"]


class AnalysisBroken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ensure_tool():
    tool = os.path.join(BUILD, "astir")
    src = os.path.join(VERIF, "src", "astir.cpp")
    if not os.path.exists(tool) or os.path.getmtime(tool) < os.path.getmtime(src):
        r = sh(["bash", os.path.join(VERIF, "tools", "build_astir.sh")])
        if r.returncode != 0:
            raise AnalysisBroken("cannot build the extractor:\n" + r.stdout[-2000:])
    return tool


def find_include(name, cands):
    for c in cands:
        if os.path.exists(os.path.join(c, name)):
            return c
    return None


def flags():
    inc = os.path.join(BUILD, "inc")
    os.makedirs(inc, exist_ok=True)
    cfg = os.path.join(inc, "config.h")
    txt = "#pragma once\n#define ENABLE_HDF5\n"
    if not os.path.exists(cfg) or open(cfg).read() != txt:
        import tempfile
        fd, tmp = tempfile.mkstemp(dir=inc)
        os.write(fd, txt.encode())
        os.close(fd)
        os.replace(tmp, cfg)
    import glob
    pybind = None
    cands = [os.path.join(REPO, "thirdparty/pybind11/include")]
    cands += glob.glob("/opt/stempy-venv/lib/python3*/site-packages/pybind11/include")
    cands += ["/usr/include", "/usr/local/include"]
    for c in cands:
        if os.path.exists(os.path.join(c, "pybind11", "pybind11.h")):
            pybind = c
            break
    f = ["-xc++", "-std=c++14", "-I" + inc, "-I" + REPO, "-I" + REPO + "/thirdparty/ThreadPool",
         "-isystem", REPO + "/thirdparty/least-squares-cpp/include", "-isystem", "/usr/include/eigen3"]
    if pybind and pybind != "/usr/include":
        f += ["-isystem", pybind]
    for d in sorted(glob.glob("/usr/include/python3.*"))[-1:]:
        f += ["-isystem", d]
    f += ["-isystem", "/usr/include/hdf5/serial", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w"]
    return f


_tree_hash = None


def tree_hash():
    """content hash of every source file that can influence a translation unit"""
    global _tree_hash
    if _tree_hash:
        return _tree_hash
    h = hashlib.sha256()
    for d in ROOT_DIRS + ["thirdparty/least-squares-cpp"]:
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".cpp", ".hpp", ".cc", ".ipp", ".hxx", ".tpp", ".inl")):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    h.update(open(os.path.join(VERIF, "src", "astir.cpp"), "rb").read())
    h.update(" ".join(flags()).encode())
    h.update(open(os.path.abspath(__file__), "rb").read())
    _tree_hash = h.hexdigest()[:24]
    return _tree_hash


def extract(tu):
    out = os.path.join(BUILD, "ir-%s-%s.json" % (tree_hash(), tu.replace("/", "_")))
    if os.path.exists(out):
        return out
    tool = ensure_tool()
    import tempfile
    fd, tmp = tempfile.mkstemp(dir=BUILD, suffix=".tmp")
    os.close(fd)
    cmd = [tool]
    for d in ROOT_DIRS:
        cmd += ["-root", os.path.join(REPO, d)]
    cmd += ["-o", tmp, os.path.join(REPO, tu), "--"] + flags()
    r = sh(cmd)
    if r.returncode != 0 or not os.path.getsize(tmp):
        raise AnalysisBroken("cannot parse %s:\n%s" % (tu, r.stdout[-3000:]))
    os.replace(tmp, out)
    return out


class TU:
    def __init__(self, name, d):
        self.name = name
        self.d = d
        self.types = d["types"]
        self.files = [f[len(REPO) + 1:] if f.startswith(REPO + "/") else f for f in d["files"]]
        self.functions = d["functions"]
        self.by_key = {}
        for f in self.functions:
            f["_tu"] = self
            self.by_key[f["key"]] = f
        self.records = {}
        self.enums = {}
        for r in d["records"]:
            if "enum" in r:
                self.enums[r["enum"]] = r
            else:
                self.records[self.types[r["t"]]["s"]] = r
        self.globals = {g["id"]: g for g in d["globals"]}
        self.lambdas = {}
        self._index(d["functions"])

    def _index(self, x):
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, dict):
                if y.get("k") == "lambda":
                    self.lambdas[y["id"]] = y
                for kk, z in y.items():
                    if kk != "_tu" and isinstance(z, (dict, list)):
                        st.append(z)
            else:
                for z in y:
                    if isinstance(z, (dict, list)):
                        st.append(z)

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else {"s": "?", "k": "other"}

    def loc(self, e):
        fi = e.get("fi")
        return "%s:%s" % (self.files[fi] if fi is not None else "?", e.get("l", "?"))


_cache = {}


def load(tus=None):
    tus = tus or TUS
    need = [t for t in tus if t not in _cache]
    if need:
        ensure_tool()
        tree_hash()
        with ThreadPoolExecutor(max_workers=8) as ex:
            outs = list(ex.map(extract, need))
        for t, o in zip(need, outs):
            with open(o) as fh:
                _cache[t] = TU(t, json.load(fh))
        clean_old()
    return [_cache[t] for t in tus]


def clean_old():
    keep = "ir-" + tree_hash()
    try:
        for f in os.listdir(BUILD):
            if f.startswith("ir-") and not f.startswith(keep) and f.endswith(".json"):
                p = os.path.join(BUILD, f)
                import time
                if time.time() - os.path.getmtime(p) > 3600:
                    os.unlink(p)
    except OSError:
        pass
