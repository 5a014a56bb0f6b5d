"""Drives one property check: explores every case, replays counterexamples on the
unpatched code, validates witnesses, writes evidence, decides the exit code."""
import json
import os
import selectors
import subprocess
import sys
import threading
import time
from queue import Queue, Empty

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


class Worker:
    def __init__(self, mode):
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED="0", TQDM_DISABLE="1", PYTHONDONTWRITEBYTECODE="1",
            VERIF_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="agg",
        )
        env.pop("SOIL_DEBUG", None)
        env.pop("SOIL_POSTMORTEM", None)
        env.pop("SOIL_VERBOSE", None)
        self.p = subprocess.Popen(
            [PY, os.path.join(HERE, "symx", "worker.py"), mode],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE, text=True,
        )
        self.mode = mode

    def call(self, req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker died (%s)" % req.get("case"))
        r = json.loads(line)
        if not r["ok"]:
            raise HarnessError(r["error"])
        return r["reply"]

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass


class HarnessError(Exception):
    pass


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                out.append(json.loads(line))
    return out


def close(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    return a == b


def exact(assignment):
    """Are sums of a few of these values exact in binary floating point?"""
    for v in assignment.values():
        if isinstance(v, list):
            n, d = v
            if d & (d - 1) or d > 2 ** 16 or abs(n) > 2 ** 32:
                return False
    return True


class Check:
    def __init__(self, prop, module, tier, meta):
        self.prop, self.module, self.tier, self.meta = prop, module, tier, meta
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.soft = float(os.environ.get("VERIF_SOFT_S", 420 if tier == "quick" else 3600))
        self.nworkers = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 1)))
        self.lock = threading.Lock()
        self.agg = {}
        self.functions = set()
        self.cases = {}
        self.violations = []
        self.known_hit = []
        self.errors = []
        self.artefacts = 0
        self.validated = 0
        self.inexact = 0
        self.validation_mismatch = []
        self.samples = []
        self.known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]

    # ------------------------------------------------------------ replay
    def concrete(self, conc, case, assignment):
        return conc.call(
            dict(op="run", module=self.module, tier=self.tier, case=case,
                 assignment=assignment, seconds=20)
        )

    def handle_cex(self, conc, st, cex):
        """Replay a solver counterexample on the unpatched code."""
        r = self.concrete(conc, st["name"], cex["assignment"])
        if r is None:
            self.errors.append("replay process died: %s %s" % (st["name"], cex))
            return
        bad = []
        if r["failures"]:
            bad = r["failures"]
        elif r["end"] == "exception":
            bad = [r["label"]]
        elif r["end"] == "limit":
            bad = [r["label"]]
        if bad:
            for k in self.known:
                if k["case"] == st["name"] and all(any(b.startswith(l) for l in k["labels"]) for b in bad):
                    if k not in self.known_hit:
                        self.known_hit.append(k)
                    return
            path = self.write_replay(st, cex, r, bad)
            self.violations.append((st["name"], bad[0], path))
            st["violated"] = True
            if not os.environ.get("VERIF_ALL"):
                self.stop = True  # one reproduced counterexample settles the check
            return
        if not cex.get("hashed") and exact(cex["assignment"]) and cex["kind"] in ("check", "limit"):
            st["unreproduced"].append(cex)
        else:
            # an exception only the symbolic stand-ins provoke, or values that machine numbers
            # only approximate: that path is not decided
            self.artefacts += 1
            st["exhaustive"] = False
            st["undecided"] += 1
            st.setdefault("artefact", cex["label"])

    def write_replay(self, st, cex, r, bad):
        d = os.path.join(HERE, "out", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump(
                dict(property=self.prop, module=self.module, tier=self.tier, case=st["name"],
                     kwargs=st["info"].get("kwargs"), assignment=cex["assignment"],
                     symbolic_label=cex["label"], failures=bad, end=r["end"], log=r["log"],
                     how="python3 /verif/run.py --replay %s" % path),
                f, indent=1, default=str,
            )
        return path

    # ------------------------------------------------------------ exploration
    def run(self):
        boot = Worker("conc")
        try:
            infos = boot.call(dict(op="list", module=self.module, tier=self.tier))
        except HarnessError as ex:
            # the harness cannot even be set up on this tree
            print(ex)
            boot.kill()
            return self.finish(error="harness import failed")
        only = os.environ.get("VERIF_CASE")
        if only:
            infos = [i for i in infos if any(o in i["name"] for o in only.split(","))]
        todo = []  # list of (case, prefixes)
        for i in infos:
            st = dict(name=i["name"], info=i, outstanding=1, paths=0, covers=set(), ends={},
                      exhaustive=True, undecided=0, unreproduced=[], violated=False,
                      isolate=bool(i.get("isolate")), cpu=0.0, stats={}, max_depth=0)
            self.cases[i["name"]] = st
            todo.append((st, [""]))
        self.todo = todo
        self.busy = 0
        self.cv = threading.Condition()
        self.stop = False
        threads = [threading.Thread(target=self.loop, args=(i,), daemon=True) for i in range(self.nworkers)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        boot.kill()
        return self.finish()

    def loop(self, i):
        sym = conc = None
        try:
            while True:
                with self.cv:
                    while not self.todo and self.busy and not self.stop:
                        self.cv.wait(1.0)
                    if self.stop or (not self.todo and not self.busy):
                        self.cv.notify_all()
                        return
                    if not self.todo:
                        continue
                    # fair share: the case that has used the least time so far goes first
                    j = min(range(len(self.todo)), key=lambda j: (self.todo[j][0]["cpu"], -j))
                    st, prefixes = self.todo.pop(j)
                    # share: give back half of a long list
                    if len(prefixes) > 1 and len(self.todo) < self.nworkers:
                        h = len(prefixes) // 2
                        self.todo.append((st, prefixes[:h]))
                        prefixes = prefixes[h:]
                        self.cv.notify()
                    self.busy += 1
                try:
                    if time.time() - self.t0 > self.soft:
                        st["exhaustive"] = False
                        st["undecided"] += len(prefixes)
                        continue
                    cap = st["info"].get("max_paths")
                    if cap and st["paths"] >= cap:
                        st["exhaustive"] = False
                        st["undecided"] += len(prefixes)
                        continue
                    if st["violated"]:
                        continue
                    if sym is None:
                        sym = Worker("sym")
                        conc = Worker("conc")
                    rep = sym.call(
                        dict(op="explore", module=self.module, tier=self.tier, case=st["name"],
                             prefixes=prefixes, max_paths=st["info"].get("batch", 400), seconds=1.0,
                             witness=st["info"].get("witness", 40), seed=self.seed,
                             isolate=st["isolate"])
                    )
                    self.merge(st, rep, conc)
                finally:
                    with self.cv:
                        self.busy -= 1
                        self.cv.notify_all()
        except Exception as ex:
            import traceback
            with self.lock:
                self.errors.append(traceback.format_exc())
            self.stop = True
            with self.cv:
                self.cv.notify_all()
        finally:
            for w in (sym, conc):
                if w:
                    w.kill()

    def merge(self, st, rep, conc):
        with self.lock:
            st["paths"] += rep["stats"]["paths"]
            st["covers"].update(rep["covers"])
            st["cpu"] += rep["cpu"]
            st["max_depth"] = max(st["max_depth"], rep["max_depth"])
            for k, v in rep["ends"].items():
                st["ends"][k] = st["ends"].get(k, 0) + v
            for k, v in rep["stats"].items():
                st["stats"][k] = st["stats"].get(k, 0) + v
            self.functions.update(rep["functions"])
        bad = sum(rep["ends"].get(k, 0) for k in ("abandoned", "unknown"))
        if bad:
            st["exhaustive"] = False
            st["undecided"] += bad
        if rep["ends"].get("diverged") and st["ends"].get("concretised"):
            # the value a number was pinned to was another one the second time
            st["exhaustive"] = False
            st["undecided"] += rep["ends"]["diverged"]
        elif rep["ends"].get("diverged"):
            if st["isolate"]:
                self.errors.append("nondeterministic re-execution in case %s" % st["name"])
            else:
                return self.restart_isolated(st)
        for cex in rep["cex"]:
            if st["violated"]:
                break
            with self.lock:
                self.handle_cex(conc, st, cex)
        if st["unreproduced"]:
            if not st["isolate"]:
                return self.restart_isolated(st)
            self.errors.append("counterexample does not reproduce on the real code: %s %s"
                               % (st["name"], json.dumps(st["unreproduced"][0])))
            st["unreproduced"] = []
        if rep["ends"].get("hashed"):
            st["exhaustive"] = False
        for w in rep["witnesses"]:
            if not exact(w["assignment"]):
                # rounding would make the concrete run differ from the exact one
                self.inexact += 1
                continue
            r = self.concrete(conc, st["name"], w["assignment"])
            with self.lock:
                self.validated += 1
                if r is None or r["failures"] or not close(r["log"], w["log"]) or r["end"] not in ("ok",):
                    if w.get("hashed") and r and not r["failures"] and r["end"] == "ok":
                        st["undecided"] += 1  # a known number met an unknown one in a dict
                        continue
                    self.validation_mismatch.append(
                        dict(case=st["name"], assignment=w["assignment"], symbolic=w["log"],
                             concrete=r and r["log"], end=r and r["end"], label=r and r["label"],
                             failures=r and r["failures"]))
                elif len(self.samples) < 6 and not any(s["case"] == st["name"] for s in self.samples):
                    self.samples.append(dict(case=st["name"], inputs=w["assignment"], observed=r["log"][:12]))
        if rep["left"]:
            with self.cv:
                self.todo.append((st, rep["left"]))
                self.cv.notify_all()

    def restart_isolated(self, st):
        """State leaked between paths of one process: redo the case, one process per path."""
        with self.cv:
            if st["isolate"]:
                return
            st.update(isolate=True, unreproduced=[], violated=False, covers=set(), paths=0,
                      exhaustive=True, undecided=0, ends={}, stats={})
            self.todo = [(s, p) for (s, p) in self.todo if s is not st]
            self.todo.append((st, [""]))
            self.cv.notify_all()

    # ------------------------------------------------------------ verdict
    def finish(self, error=None):
        wall = time.time() - self.t0
        if error:
            self.errors.append(error)
        tot = {}
        missing = []
        for st in self.cases.values():
            for k, v in st["stats"].items():
                tot[k] = tot.get(k, 0) + v
            miss = set(st["info"].get("covers", [])) - st["covers"]
            if miss and st["exhaustive"] and not st["violated"] and not self.stop:
                missing.append("%s: never reached %s" % (st["name"], sorted(miss)))
        exhaustive = bool(self.cases) and all(s["exhaustive"] for s in self.cases.values()) and not self.errors
        for s in self.validation_mismatch:
            # a concrete run that fails the property is a violation in its own right
            if s["failures"] or s["end"] in ("exception", "limit"):
                st = self.cases[s["case"]]
                bad = s["failures"] or [s["label"]]
                p = self.write_replay(st, dict(assignment=s["assignment"], label="(witness run)"),
                                      dict(end=s["end"], log=s["concrete"]), bad)
                self.violations.append((s["case"], bad[0], p))
        mism = [s for s in self.validation_mismatch if not (s["failures"] or s["end"] in ("exception", "limit"))]
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(
                states=tot.get("paths", 0) - tot.get("infeasible", 0),
                transitions=tot.get("branches", 0),
                states_meaning="feasible symbolic paths explored to their end (each stands for every input value satisfying its path condition); transitions = forks where the solver found both sides feasible",
                traces_validated_against_impl=self.validated,
                validation_mismatches=len(mism),
                witnesses_not_exact_in_floating_point=self.inexact,
                samples=self.samples or [dict(note="no sample path")],
                exhaustive=exhaustive,
                solver="z3 %s" % tot.get("z3", "5.3.2 (python bindings)"),
                queries=tot.get("queries", 0),
                solver_s=round(tot.get("solver_s", 0.0), 2),
                obligations_decided_by_solver=tot.get("obligations", 0),
                obligations_decided_syntactically=tot.get("trivial_obligations", 0),
                unknown=tot.get("unknown", 0),
                concretisations=tot.get("concretised", 0),
                undecided_paths=sum(s["undecided"] for s in self.cases.values()),
                functions_encoded=sorted(self.functions),
                cases=[
                    dict(case=s["name"], bounds=s["info"].get("bounds", ""), paths=s["paths"],
                         exhaustive=s["exhaustive"], covers=sorted(s["covers"]), ends=s["ends"],
                         cpu_s=round(s["cpu"], 2), max_decisions=s["max_depth"],
                         **({"artefact": s["artefact"]} if "artefact" in s else {}))
                    for s in self.cases.values()
                ],
                outside_the_bounds=self.meta.get("outside", ""),
            ),
            assumptions=self.meta.get("assumptions", []),
            wall_s=round(wall, 2),
            violations=len(self.violations),
        )
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s tier=%s: %d cases, %d paths, %d forks, %d queries (%.1fs solver), %d concrete validations, exhaustive=%s, %.1fs"
              % (self.prop, self.tier, len(self.cases), tot.get("paths", 0), tot.get("branches", 0),
                 tot.get("queries", 0), tot.get("solver_s", 0.0), self.validated, exhaustive, wall))
        if os.environ.get("VERIF_VERBOSE"):
            for s in sorted(self.cases.values(), key=lambda s: -s["cpu"]):
                print("   %-60s paths=%-6d cpu=%.1f depth=%d %s%s %s" % (
                    s["name"], s["paths"], s["cpu"], s["max_depth"], s["ends"],
                    "" if s["exhaustive"] else " NOT-EXHAUSTIVE",
                    s.get("artefact", "")))
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            for (case, label, path) in self.violations[:5]:
                print("  case %s: %s" % (case, label))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        bad = False
        for e in self.errors[:5]:
            print("ERROR", e)
            bad = True
        for m in missing[:5]:
            print("ERROR vacuity:", m)
            bad = True
        for m in mism[:3]:
            print("ERROR witness mismatch:", json.dumps(m, default=str)[:1500])
            bad = True
        return 2 if bad else 0


def replay(path):
    d = json.load(open(path))
    w = Worker("conc")
    r = w.call(dict(op="run", module=d["module"], tier=d["tier"], case=d["case"],
                    assignment=d["assignment"], seconds=20))
    w.kill()
    print(json.dumps(r, indent=1))
    bad = r["failures"] or r["end"] in ("exception", "limit")
    print("REPRODUCED" if bad else "not reproduced")
    return 1 if bad else 0
