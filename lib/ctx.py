"""Obligations, findings and evidence of one check run."""
import json
import os
import subprocess
import sys

import ir


class Ctx:
    def __init__(self, prop, here):
        self.prop = prop
        self.here = here
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.obl = []           # (state, rule, at, detail, key)
        self.functions = set()
        self.units = set()
        self.notes = []
        self.counts = {}
        self.seen = set()

    # -------------------------------------------------- obligations
    def _add(self, state, rule, at, detail, key=None):
        k = (state, rule, at, detail)
        if k in self.seen:
            return
        self.seen.add(k)
        self.obl.append((state, rule, at, detail, key))

    def ok(self, rule, at, detail=""):
        self._add("proved", rule, at, detail)

    def und(self, rule, at, why=""):
        self._add("undecided", rule, at, why)

    def bad(self, rule, at, detail, key=None):
        self._add("violated", rule, at, detail, key)

    def verdict(self, v, rule, at, detail=""):
        """v: True proved, False violated, None undecided"""
        if v is True:
            self.ok(rule, at, detail)
        elif v is False:
            self.bad(rule, at, detail)
        else:
            self.und(rule, at, detail)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def require(self, c, msg):
        if not c:
            raise ir.AnalysisBroken(msg)
        return c

    def fn(self, f):
        self.functions.add(f)

    def absorb(self, d):
        """results of a worker process"""
        for o in d["obl"]:
            self._add(*o)
        self.functions |= set(d["functions"])
        self.units |= set(d["units"])
        for k, v in d["counts"].items():
            self.count(k, v)
        for n in d["notes"]:
            self.note(n)

    def dump(self):
        return dict(obl=self.obl, functions=sorted(self.functions), units=sorted(self.units),
                    counts=self.counts, notes=self.notes)

    # -------------------------------------------------- parallel parts
    def parallel(self, jobs, procs=8, timeout=780):
        """run callables(ctx) in forked workers; their obligations are merged in order"""
        import pickle
        import select
        import time
        pending = list(enumerate(jobs))
        running = {}
        results = {}
        t0 = time.time()
        while pending or running:
            while pending and len(running) < procs:
                i, j = pending.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    code = 0
                    try:
                        sub = Ctx(self.prop, self.here)
                        j(sub)
                        out = ("ok", sub.dump())
                    except ir.AnalysisBroken as e:
                        out = ("broken", str(e))
                    except MemoryError:
                        out = ("und", "out of memory")
                    except BaseException:
                        import traceback
                        out = ("und", traceback.format_exc())
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                    os._exit(code)
                os.close(w)
                running[r] = (i, pid, b"")
            ready, _, _ = select.select(list(running), [], [], 1.0)
            for r in ready:
                i, pid, buf = running[r]
                data = os.read(r, 1 << 20)
                if data:
                    running[r] = (i, pid, buf + data)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    results[i] = pickle.loads(buf)
                except Exception:
                    results[i] = ("und", "worker ended early")
            if time.time() - t0 > timeout:
                for r, (i, pid, buf) in list(running.items()):
                    try:
                        os.kill(pid, 9)
                        os.waitpid(pid, 0)
                    except OSError:
                        pass
                    os.close(r)
                    results[i] = ("und", "time limit")
                running = {}
                for i, j in pending:
                    results[i] = ("und", "time limit")
                pending = []
        for i in range(len(jobs)):
            k, d = results[i]
            if k == "ok":
                self.absorb(d)
            elif k == "broken":
                raise ir.AnalysisBroken(d)
            else:
                self.und("analysis of part %d" % i, "-", d)

    # -------------------------------------------------- end of run
    def known(self):
        path = os.path.join(self.here, "known_findings.txt")
        out = []
        if os.path.exists(path):
            for l in open(path):
                l = l.strip()
                if l.startswith("known: property=%s " % self.prop):
                    rest = l.split(" ", 2)[2]
                    key, _, desc = rest.partition(" | ")
                    out.append((key.strip(), desc.strip()))
        return out

    def finish(self, mod, wall):
        viol = [o for o in self.obl if o[0] == "violated"]
        known = self.known()
        rest = []
        shown = set()
        for o in viol:
            m = [k for k in known if o[4] is not None and k[0] == o[4]]
            if m:
                if m[0] not in shown:
                    shown.add(m[0])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, m[0][1] or m[0][0]))
            else:
                rest.append(o)
        proved = [o for o in self.obl if o[0] == "proved"]
        und = [o for o in self.obl if o[0] == "undecided"]
        samples = ["%s: %s %s [%s]" % (o[0], o[1], o[2], str(o[3])[:300]) for o in self.obl[:40]]
        ev = {
            "property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": (mod.__doc__ or "").strip(),
                "obligations": len(self.obl), "discharged": len(proved),
                "undecided": len(und), "violated": len(viol),
                "undecided_list": ["%s %s %s" % (o[1], o[2], str(o[3])[:200]) for o in und[:40]],
                "functions_analysed": len(self.functions),
                "functions": sorted(self.functions)[:300],
                "counts": self.counts,
                "samples": samples,
            },
            "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + self.notes,
            "wall_s": round(wall, 2),
            "violations": len(rest),
        }
        os.makedirs(os.path.join(self.here, "evidence"), exist_ok=True)
        with open(os.path.join(self.here, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for o in self.obl:
            if os.environ.get("VERIF_VERBOSE"):
                print("%-9s %s | %s | %s" % (o[0], o[1], o[2], str(o[3])[:600]))
        print("property=%s obligations=%d proved=%d undecided=%d violated=%d (%.1f s)" % (
            self.prop, len(self.obl), len(proved), len(und), len(viol), wall))
        if rest:
            path = os.path.join(self.here, "build", "replay")
            os.makedirs(path, exist_ok=True)
            path = os.path.join(path, self.prop + ".txt")
            with open(path, "w") as f:
                f.write("Re-run: cd /verif && python3 run.py %s\n\n" % self.prop)
                for o in rest:
                    f.write("rule: %s\nat:   %s\n%s\n\n" % (o[1], o[2], o[3]))
            for o in rest[:10]:
                print("  %s at %s: %s" % (o[1], o[2], str(o[3])[:500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        return 0
