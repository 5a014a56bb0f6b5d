"""Worker process.  One JSON request per line on stdin, one JSON reply per line on
the original stdout.

  worker.py sym    explores paths of a case symbolically (soil imported through loader.install)
  worker.py conc   runs a case on plain values against unpatched soil (each run in a forked child)
"""
import importlib
import json
import logging
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _setup_io():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(dn, 2)
    inp = os.fdopen(os.dup(0), "r")
    os.dup2(dn, 0)
    return inp, out


def _functions_monitor(repo):
    seen = set()
    root = os.path.join(repo, "soil") + os.sep
    mon = sys.monitoring
    mon.use_tool_id(4, "verif")

    def start(code, off):
        if code.co_filename.startswith(root):
            seen.add(
                "%s:%s" % (code.co_filename[len(root) - 5 :], code.co_qualname)
            )
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)
    return seen


class Harness:
    def __init__(self):
        self.mods = {}

    def cases(self, module, tier):
        key = (module, tier)
        if key not in self.mods:
            m = importlib.import_module("harness." + module)
            self.mods[key] = {c["name"]: c for c in m.cases(tier)}
        return self.mods[key]


def _json_val(v):
    """A loggable rendering of an observed plain value."""
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return v if v == v and abs(v) != float("inf") else repr(v)
    if isinstance(v, (list, tuple)):
        return [_json_val(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _json_val(x) for k, x in v.items()}
    try:
        return float(v)
    except Exception:
        return repr(type(v).__name__)


# ---------------------------------------------------------------- symbolic


def sym_eval(core, model, v):
    z3 = core.z3
    if isinstance(v, core.SymBool):
        return bool(z3.is_true(model.eval(v.t, model_completion=True)))
    if isinstance(v, core.SymNum):
        c = core._const_value(model.eval(v.t, model_completion=True))
        return float(c) if v.is_real else int(c)
    if isinstance(v, (list, tuple)):
        return [sym_eval(core, model, x) for x in v]
    if isinstance(v, dict):
        return {str(k): sym_eval(core, model, x) for k, x in v.items()}
    return _json_val(v)


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if "/soil/" in f.filename] or tb
    return "%s:%s in %s" % (os.path.basename(fr[-1].filename), fr[-1].lineno, fr[-1].name)


def run_path(core, eng, case, prefix, want_witness):
    """Run one path; returns a dict."""
    eng._reset(prefix)
    ctx = core.Ctx(eng)
    ctx.int_delays = eng.hash_free = bool(case.get("ints"))
    core.ENGINE = eng
    res = {"end": "ok"}
    try:
        try:
            with core.alarm(case.get("path_seconds", eng.path_seconds)):
                case["fn"](ctx, **case.get("kwargs", {}))
        finally:
            for f in reversed(ctx.cleanup):
                try:
                    f()
                except Exception:
                    pass
    except core.StopCase:
        pass
    except core.Infeasible:
        eng.stats["infeasible"] += 1
        res["end"] = "infeasible"
    except core.Abandon:
        res["end"] = "abandoned"
    except core.Diverged:
        res["end"] = "diverged"
    except core.PathLimit as ex:
        res["end"] = "limit"
        res["label"] = "does-not-terminate(%s)" % ex.why
    except Exception as ex:
        res["end"] = "exception"
        res["label"] = "exception %s: %s [%s]" % (type(ex).__name__, str(ex)[:200], _where(ex))
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    if res["end"] in ("ok", "exception") and isinstance(eng.stopped, (core.Infeasible, core.Abandon, core.Diverged)):
        res["end"] = {core.Infeasible: "infeasible", core.Abandon: "abandoned", core.Diverged: "diverged"}[type(eng.stopped)]
    res["alts"] = list(eng.alternatives)
    res["covers"] = sorted(ctx.covers)
    res["concretised"] = eng.concretised_here
    res["hashed"] = eng.hashed_here
    res["depth"] = len(eng.trace)
    eng.stats["paths"] += 1
    if res["end"] in ("infeasible", "abandoned", "diverged"):
        return res
    res["nobl"] = len(eng.pending)
    d = eng.discharge()
    if d is not None:
        label, asg, m = d
        if label == "UNKNOWN":
            res["end"] = "unknown"
            return res
        if asg is None:
            res["end"] = "unknown"
            return res
        labels = [
            l for (t, l) in eng.pending
            if not core.z3.is_true(m.eval(t, model_completion=True))
        ] or [label]
        res["cex"] = {"kind": "check", "label": labels[0], "assignment": asg}
        return res
    if res["end"] in ("exception", "limit"):
        asg, m = eng.assignment()
        if asg is None:
            # path condition turned out infeasible (explored on `unknown`)
            res["end"] = "infeasible" if eng._check() == core.z3.unsat else "unknown"
            return res
        res["cex"] = {"kind": res["end"], "label": res["label"], "assignment": asg}
        return res
    if want_witness:
        asg, m = eng.assignment()
        if asg is not None:
            res["witness"] = {
                "hashed": eng.hashed_here,
                "assignment": asg,
                "log": [[l, sym_eval(core, m, list(v))] for (l, v) in ctx.log],
            }
    return res


def _crosscheck(core, eng, ctx_terms):
    pass


def isolated(fn):
    """Run fn() in a forked child, return its JSON-able result (or None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def sym_job(core, eng, harness, req, seen):
    case = harness.cases(req["module"], req["tier"])[req["case"]]
    eng.max_depth = case.get("max_depth", 600)
    eng.path_seconds = case.get("path_seconds", 30.0)
    for k in eng.stats:
        eng.stats[k] = 0 if not isinstance(eng.stats[k], float) else 0.0
    stack = list(req["prefixes"])
    t0 = time.time()
    out = {
        "covers": [], "cex": [], "witnesses": [], "ends": {}, "sample_prefix": None,
        "max_depth": 0,
    }
    covers = set()
    n = 0
    while stack and n < req["max_paths"] and time.time() - t0 < req["seconds"]:
        p = stack.pop()
        # pseudo-random but seeded choice of the paths validated concretely
        want = req["witness"] and (hash((req["seed"], p)) % req["witness"] == 0 or n == 0)
        if req.get("isolate"):
            def one():
                r = run_path(core, eng, case, p, want)
                r["stats"] = dict(eng.stats)
                return r
            base = dict(eng.stats)
            r = isolated(one)
            if r is None:
                r = {"end": "diverged", "alts": [], "covers": [], "concretised": False, "depth": 0}
            else:
                eng.stats.update(r.pop("stats"))
        else:
            r = run_path(core, eng, case, p, want)
        n += 1
        stack.extend(r["alts"])
        covers.update(r["covers"])
        out["ends"][r["end"]] = out["ends"].get(r["end"], 0) + 1
        out["max_depth"] = max(out["max_depth"], r["depth"])
        if r.get("hashed"):
            out["ends"]["hashed"] = out["ends"].get("hashed", 0) + 1
        if r["concretised"]:
            out["ends"]["concretised"] = out["ends"].get("concretised", 0) + 1
        if "cex" in r:
            r["cex"]["prefix"] = p
            r["cex"]["hashed"] = bool(r.get("hashed"))
            out["cex"].append(r["cex"])
            if len(out["cex"]) >= 3:
                break
        if "witness" in r:
            out["witnesses"].append(r["witness"])
    out["covers"] = sorted(covers)
    out["left"] = stack
    out["stats"] = dict(eng.stats)
    out["functions"] = sorted(seen)
    out["cpu"] = time.time() - t0
    return out


# ---------------------------------------------------------------- concrete


def conc_run(core, case, assignment, seconds):
    ctx = core.Ctx(None, assignment)
    ctx.int_delays = bool(case.get("ints"))
    end, label = "ok", None
    try:
        try:
            with core.alarm(seconds):
                case["fn"](ctx, **case.get("kwargs", {}))
        finally:
            for f in reversed(ctx.cleanup):
                try:
                    f()
                except Exception:
                    pass
    except core.StopCase:
        pass
    except core.Infeasible:
        end = "infeasible"
    except core.PathLimit as ex:
        end, label = "limit", "does-not-terminate(%s)" % ex.why
    except core.PathStop:
        end = "abandoned"
    except Exception as ex:
        end = "exception"
        label = "exception %s: %s [%s]" % (type(ex).__name__, str(ex)[:200], _where(ex))
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    return {
        "end": end,
        "label": label,
        "failures": ctx.failures,
        "log": [[l, _json_val(list(v))] for (l, v) in ctx.log],
        "covers": sorted(ctx.covers),
    }


def main():
    mode = sys.argv[1]
    sys.path.insert(0, HERE)
    inp, out = _setup_io()
    from symx import core, loader

    if mode == "sym":
        loader.install()
        seen = _functions_monitor(loader.REPO)
        eng = core.Engine()
    else:
        loader.plain()
    logging.disable(logging.CRITICAL)
    try:
        import soil  # so that forked runs find it loaded
    except Exception:
        pass
    harness = Harness()
    for line in inp:
        req = json.loads(line)
        try:
            if req["op"] == "list":
                rep = [
                    {k: v for k, v in c.items() if k != "fn"}
                    for c in harness.cases(req["module"], req["tier"]).values()
                ]
            elif req["op"] == "explore":
                rep = sym_job(core, eng, harness, req, seen)
            elif req["op"] == "run":
                case = harness.cases(req["module"], req["tier"])[req["case"]]
                rep = isolated(lambda: conc_run(core, case, req["assignment"], req["seconds"]))
            else:
                raise ValueError(req["op"])
            reply = {"ok": True, "reply": rep}
        except BaseException as ex:
            reply = {"ok": False, "error": traceback.format_exc()}
        out.write(json.dumps(reply) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
