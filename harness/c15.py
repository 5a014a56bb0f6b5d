"""C15: the configurations a simulation runs."""
from .common import *

VALUES = {"a": [1, "1", None], "b": [2, [3], 2.5], "c": [True, {"k": 1}, False]}


def setup(ctx, log):
    from soil import agents, environment

    class A(agents.BaseAgent):
        def step(self):
            return INF

    class Env(environment.BaseEnvironment):
        def __init__(self, **kw):
            log.append(dict(kw=dict(kw), env=self))
            super().__init__(**kw)

        def init(self):
            self.add_agent(A)

    return A, Env


RESERVED = ("id", "seed", "dir_path", "logger", "agent_reporters", "model_reporters", "tables")


def recorder(events):
    from soil import exporters

    class Rec(exporters.Exporter):
        def sim_start(self):
            events.append(("start",))

        def iteration_end(self, env, params, params_id):
            events.append(("iteration", env, dict(params), params_id))

        def sim_end(self):
            events.append(("end",))

    return Rec


def combos(ctx, nmatrix, nfixed, iters, via="sim", overlap=False, twice=False, order=False, sizes=3, shape=None):
    """every matrix of up to nmatrix parameters with 1..3 values, fixed parameters, iterations"""
    from soil import simulation

    log = []
    events = []
    A, Env = setup(ctx, log)
    names = ["a", "b", "c"]
    matrix, fixed = {}, {}
    if shape:  # larger matrices, of fixed sizes
        for i, size in enumerate(shape):
            matrix["wxyzuvts"[i]] = [[j, "v%d" % j, [j], j + 0.5][i % 4] for j in range(size)]
    else:
        nm = ctx.choice("nmatrix", nmatrix + 1)
        for i in range(nm):
            size = 1 + ctx.choice("size", sizes)
            matrix[names[i]] = VALUES[names[i]][:size]
    nf = ctx.choice("nfixed", nfixed + 1)
    for i in range(nf):
        fixed["abc"[i] if overlap else "pqr"[i]] = ctx.real("fixed")
    k = iters[ctx.choice("iterations", len(iters))] if isinstance(iters, tuple) else ctx.choice("iterations", iters) + 1
    conf = dict(parameters=dict(fixed), matrix={n: list(v) for n, v in matrix.items()}, iterations=k,
                exporters=[recorder(events)], dump=False, name="test", max_steps=2, level=50)
    kept = dict(parameters=dict(conf["parameters"]), matrix={n: list(v) for n, v in matrix.items()})

    def go():
        if via == "sim":
            sim = simulation.Simulation(model=Env, **conf)
            return sim, sim.run()
        if via == "override":
            c = dict(conf)
            over = {x: c.pop(x) for x in ("matrix", "iterations", "parameters")}
            sim = simulation.Simulation(model=Env, matrix={"z": [1, 2]}, iterations=7, **c)
            return sim, sim.run(**over)
        if via == "env":
            return None, Env.run(**conf)
        if via == "func":
            c = dict(conf)
            return None, simulation.run(Env, **c)
        raise ValueError(via)

    expected = [{}]
    for nme, vals in matrix.items():
        expected = [dict(e, **{nme: v}) for e in expected for v in vals]
    expected = [dict(fixed, **e) for e in expected]

    def matches(kw, want):
        got = {x: v for x, v in kw.items() if x not in RESERVED}
        if set(got) != set(want):
            return False
        return And([_is(got[x], want[x]) for x in want]) if want else True

    def verify(res, lo, ev):
        runs = log[lo:]
        ctx.check(len(runs) == len(expected) * k, "number of models run")
        ctx.check(len(res) == len(runs), "number of results")
        for r in res:
            ctx.check(sum(1 for x in runs if x["env"] is r) == 1, "a result is not one of the models run, or is repeated")
        for want in expected:
            mine = [x for x in runs if bool(matches(x["kw"], want))]
            ctx.check(len(mine) == k, "a combination was not run exactly once per iteration")
            ctx.check(sorted(str(x["kw"].get("id")) for x in mine) == sorted(str(i) for i in range(k)), "ids of the iterations")
            for x in mine:
                for p, v in want.items():
                    ctx.check(_is(x["env"][p], v), "parameter of a model")
            if len(mine) == k:
                ctx.cover("combination")
        ctx.check(ev[0] == ("start",) and ev[-1] == ("end",) and len(ev) == len(runs) + 2, "what exporters were told")
        its = ev[1:-1]
        by = {}
        for e in its:
            if e[0] != "iteration":
                ctx.check(False, "exporters were told of the start or the end twice")
                continue
            _, env, params, pid = e
            x = [x for x in runs if x["env"] is env]
            ctx.check(len(x) == 1 and matches(x[0]["kw"], params), "exporters were told other parameters than the model's")
            ix = [i for i, w in enumerate(expected) if bool(matches(params, w))]
            by.setdefault(tuple(ix), set()).add(pid)
        ctx.check(all(len(v) == 1 for v in by.values()), "iterations of one combination have different parameter ids")
        ids = [next(iter(v)) for v in by.values()]
        ctx.check(len(set(ids)) == len(ids), "two combinations have the same parameter id")
        if len(expected) > 1:
            ctx.cover("several")

    sim, res = go()
    verify(res, 0, events[:])
    ctx.check(conf["parameters"] == kept["parameters"] and conf["matrix"] == kept["matrix"], "the configuration was modified by running it")
    if twice and sim is not None:
        lo, le = len(log), len(events)
        verify(sim.run(), lo, events[le:])
        ctx.cover("twice")
    ctx.observe("n", len(res))


def _is(a, b):
    if a is b:
        return True
    if type(a) is bool or type(b) is bool or a is None or b is None:
        return a is b
    if isinstance(a, (list, dict, str)) or isinstance(b, (list, dict, str)):
        return type(a) is type(b) and a == b
    return a == b


def options(ctx):
    """options given to run() are for that run; changes of a simulation are for the runs that follow"""
    from soil import simulation

    log = []
    A, Env = setup(ctx, log)
    p = ctx.real("p")
    conf = dict(name="test", parameters={"p": p}, matrix={"a": [1, 2]}, iterations=2, max_steps=3, seed="s", dump=False, exporters=[], level=50)
    sim = simulation.Simulation(model=Env, **conf)
    fields = ("name", "parameters", "matrix", "iterations", "max_steps", "max_time", "seed", "dump", "exporters", "level", "model", "dry_run", "outdir")
    was = {f: getattr(sim, f) for f in fields}

    def check(res, params, matrix, iters, seed):
        runs = log[:]
        del log[:]
        want = [dict(params, a=v) for v in matrix] if matrix else [dict(params)]
        ctx.check(len(runs) == len(res) == iters * len(want), "number of models run")
        for i, x in enumerate(runs):
            kw = {k: v for k, v in x["kw"].items() if k not in RESERVED}
            w = want[i // iters]
            ctx.check(set(kw) == set(w) and all(bool(_is(kw[k], w[k])) for k in w), "parameters of a model")
            ctx.check(x["kw"]["seed"] == "%s_iteration_%d" % (seed, i % iters), "seed of a model")

    over = [dict(iterations=3), dict(parameters={"q": 1}), dict(matrix={}), dict(seed="other"), dict(max_steps=1, iterations=1), {}][ctx.choice("options", 6)]
    given = repr(over)
    for _ in range(2):
        check(sim.run(**over), over.get("parameters", {"p": p}), over.get("matrix", {"a": [1, 2]}).get("a"), over.get("iterations", 2), over.get("seed", "s"))
        ctx.check(all(getattr(sim, f) is v or getattr(sim, f) == v for f, v in was.items()), "options given to a run changed the simulation")
        check(sim.run(), {"p": p}, [1, 2], 2, "s")
    ctx.check(repr(over) == given, "the options given were modified")
    k = ctx.choice("change", 4)
    params, matrix, iters, seed = {"p": p}, [1, 2], 2, "s"
    if k == 0:
        sim.parameters["p"] = ctx.real("p2")
        params = dict(sim.parameters)
    elif k == 1:
        sim.matrix["a"].append(3)
        matrix = [1, 2, 3]
    elif k == 2:
        sim.iterations = iters = 3
    else:
        sim.seed = seed = "new"
    check(sim.run(), params, matrix, iters, seed)
    ctx.cover("run")


def reporters(ctx, n, iters=2):
    """reporters given per combination stay in it"""
    from soil import simulation

    log = []
    A, Env = setup(ctx, log)
    vals = []
    for i in range(n):
        vals.append({"extra%d" % i: "id"} if ctx.flag("extra") else {})
    which = ["model_reporters", "agent_reporters"][ctx.choice("which", 2)]
    base = {"always": "unique_id" if which == "agent_reporters" else "id"} if ctx.flag("base") else {}
    keep = dict(base)
    params = [dict(v) for v in vals]
    sim = simulation.Simulation(model=Env, matrix={which: vals}, iterations=iters, name="test", dump=False, exporters=[],
                                max_steps=1, level=50, **{which: base})
    for go in range(2):
        res = sim.run()
        ctx.check(len(res) == n * iters, "number of models run")
        for i, env in enumerate(res):
            mine = params[i // iters]
            dc = env.datacollector
            have = set(dc.model_reporters if which == "model_reporters" else dc.agent_reporters) - {"time", "agent_count"}
            ctx.check(have == set(mine) | set(keep), "reporters of one configuration leaked into another, or were lost")
        ctx.check(base == keep, "the simulation's reporters were modified by running it")
    ctx.check(vals == params, "the matrix was modified by running it")
    if any(vals) and not all(vals):
        ctx.cover("differ")


def queued(ctx, n, via):
    """simulations queued while a file is loaded: each queued run is one combination"""
    from soil import simulation

    log = []
    A, Env = setup(ctx, log)
    matrix = {}
    for nme in ["a", "b"][: ctx.choice("nmatrix", n + 1)]:
        matrix[nme] = VALUES[nme][: 1 + ctx.choice("size", 3)]
    fixed = {"p": ctx.real("p")} if ctx.flag("fixed") else {}
    k = 1 + ctx.choice("iterations", 2)
    conf = dict(name="q", parameters=fixed, matrix=matrix, iterations=k, dump=False, exporters=[], max_steps=1, level=50)

    def go():
        out = simulation.Simulation(model=Env, **conf).run() if via == "sim" else Env.run(**conf)
        ctx.check(out == [] and not log, "a model ran although running was suspended")

    path = pyfile(ctx, "verif_hook.go()\n", go=go)
    sims = list(simulation.iter_from_py(path))
    expected = [{}]
    for nme, vals in matrix.items():
        expected = [dict(e, **{nme: v}) for e in expected for v in vals]
    expected = [dict(fixed, **e) for e in expected]
    for s in sims:
        s.run()
    ctx.check(len(log) == len(expected) * k, "number of models run by the queued simulations")
    for want in expected:
        mine = [x for x in log if {y for y in x["kw"] if y not in RESERVED} == set(want) and all(bool(_is(x["kw"][y], want[y])) for y in want)]
        ctx.check(len(mine) == k, "a queued combination was not run once per iteration")
    try:
        again = list(simulation.iter_from_py(pyfile(ctx, "x = 1\n", name="empty.py")))
        ctx.check(not again, "simulations left in the queue")
    except AttributeError:
        pass
    ctx.cover("queued")


def cases(tier):
    q = tier == "quick"
    out = []
    B = "matrices of up to %d parameters with 1..%d values, up to %d fixed parameters of any value, 1..%d iterations"
    for via in ("sim", "override", "env", "func"):
        nm, nf, it = (2, 2, 2) if q else (3, 2, 3)
        out.append(case("combos-" + via, combos, kwargs=dict(nmatrix=nm, nfixed=nf, iters=it, via=via), bounds=B % (nm, 3, nf, it),
                        covers=["combination", "several"]))
    out.append(case("overlap", combos, kwargs=dict(nmatrix=2, nfixed=2, iters=2, overlap=True), bounds=B % (2, 3, 2, 2) + ", some also in the matrix",
                    covers=["combination", "several"]))
    out.append(case("twice", combos, kwargs=dict(nmatrix=2, nfixed=1, iters=2, twice=True, sizes=2), bounds=B % (2, 2, 1, 2) + ", run twice",
                    covers=["twice"]))
    out.append(case("three", combos, kwargs=dict(nmatrix=3, nfixed=1, iters=1, sizes=2), bounds=B % (3, 2, 1, 1), covers=["several"]))
    for via in ("sim", "env"):
        for shape, its in (((12,), (1, 11)), ((5, 4), (2,)), ((2, 1, 2, 1, 2, 2), (1, 2)), ((), (12, 23))):
            out.append(case("wide-%s-%s" % (via, "x".join(map(str, shape)) or "none"), combos,
                            kwargs=dict(nmatrix=0, nfixed=1, iters=its, via=via, shape=shape),
                            bounds="matrix of sizes %s, %s iterations, up to 1 fixed parameter of any value" % (shape, "/".join(map(str, its))), covers=["combination"]))
    out.append(case("reporters", reporters, kwargs=dict(n=3 if q else 4), bounds="3-4 configurations, each with or without its own reporters", covers=["differ"]))
    out.append(case("options", options, bounds="6 sets of options for a run, twice, and 4 changes of the simulation; any values of the parameter", covers=["run"]))
    for via in ("sim", "env"):
        out.append(case("queued-" + via, queued, kwargs=dict(n=2, via=via), bounds="matrices of up to 2 parameters, queued", covers=["queued"]))
    return out
