"""C20: simulation files and the command line."""
import contextlib
import io
import os
import sys

from .common import *
from symx.core import untoken
from .c17 import tree, inside


def world(ctx, log, stop=4, net=False):
    from soil import agents, environment

    class A(agents.NetworkAgent if net else agents.BaseAgent):
        def step(self):
            if self.model.schedule.steps + 1 >= stop:
                self.model.running = False
            return 1

    class Env(environment.Environment):
        def __init__(self, *a, **kw):
            log.append((self, dict(kw)))
            super().__init__(*a, **kw)

        def init(self):
            if net:
                self.create_network(generator="path_graph", n=2)
                self.populate_network([A])
            else:
                self.add_agent(A)

    return Env


def text(v):
    """as typed in a command line"""
    return repr(v)


def command(ctx, args, cfg=None, **kw):
    import soil

    old = sys.argv
    path = list(sys.path)
    lvl = soil.logger.level if hasattr(soil, "logger") else None
    sys.argv = ["soil"] + args
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            if cfg is None:
                return soil.main(**kw), out.getvalue()
            return soil.main(cfg, **kw), out.getvalue()
    finally:
        sys.argv = old
        sys.path[:] = path


def define(ctx, kind, Env, confs, d):
    """a file with the given simulations"""
    from soil import simulation

    hooks = dict(Env=Env, confs=confs, Simulation=simulation.Simulation)
    if kind == "py":
        body = "".join("s%d = verif_hook.Simulation(model=verif_hook.Env, **verif_hook.confs[%d])\n" % (i, i) for i in range(len(confs)))
    elif kind == "queue":
        body = "".join("verif_hook.Simulation(model=verif_hook.Env, **verif_hook.confs[%d]).run()\n" % i for i in range(len(confs)))
    elif kind == "run":
        body = "for c in verif_hook.confs:\n    verif_hook.Env.run(**c)\n"
    elif kind == "class":
        body = "class Mine(verif_hook.Env):\n    pass\n"
    elif kind == "yml":
        import yaml
        m = pyfile(ctx, "", **hooks)
        with open(os.path.join(d, "models.py"), "w") as f:
            f.write("import verif_hook\nEnv = verif_hook.Env\n")
        p = os.path.join(d, "conf.yml")
        with open(p, "w") as f:
            f.write("---\n".join(yaml.dump(dict(c, model="Env", source_file="models.py")) for c in confs))
        return p
    return pyfile(ctx, body, name="sim_file.py", **hooks)


def effective(given, cli):
    return cli if cli is not None else given


def limits(ctx, kind):
    """limits in the file, overridden in the command line, or neither"""
    from soil import simulation

    d = scratch(ctx)
    inside(ctx, d)
    log = []
    Env = world(ctx, log)
    conf = dict(name="n", level=50)
    args = ["--no-dump", "--level", "critical"]
    lim = {}
    for k in ("max_time", "max_steps"):
        a = b = None
        if kind != "class" and ctx.flag("file " + k):
            a = (ctx.real if k == "max_time" else ctx.int)("file_" + k, 0, 3)
            conf[k] = a
        if ctx.flag("cli " + k):
            b = (ctx.real if k == "max_time" else ctx.int)("cli_" + k, 0, 3)
            args += ["--" + k, text(b)]
            ctx.cover("overridden")
        elif a is not None:
            ctx.cover("kept")
        lim[k] = effective(a, b)
    if kind == "sim":
        sim = simulation.Simulation(model=Env, **conf)
        res, _ = command(ctx, args, cfg=sim)
    else:
        p = define(ctx, kind, Env, [conf], d)
        if ctx.flag("as default"):
            res, _ = command(ctx, args, cfg=p)
        else:
            res, _ = command(ctx, [p] + args)
    ctx.check(len(log) == 1 and len(res) == 1 and len(res[0]) == 1 and res[0][0] is log[0][0], "models run")
    env = log[0][0]
    n = env.schedule.steps

    def done(t, s):
        c = [s >= 4]
        if lim["max_time"] is not None:
            c.append(t >= lim["max_time"])
        if lim["max_steps"] is not None:
            c.append(s >= lim["max_steps"])
        return Or(c)

    ctx.check(done(n, n), "a run ended before its limits")
    if n:
        ctx.check(Not(done(n - 1, n - 1)), "a run went beyond its limits")


def easy(ctx, kind):
    """easy() runs a simulation, or the first one of a file, and gives its models"""
    import soil
    from soil import simulation

    d = scratch(ctx)
    inside(ctx, d)
    log = []
    Env = world(ctx, log, stop=1)
    its = 1 + ctx.choice("iterations", 2)
    p = ctx.real("p")
    conf = dict(name="n", level=50, iterations=its, parameters=dict(p=p))
    if kind == "sim":
        cfg = simulation.Simulation(model=Env, **conf)
    else:
        cfg = define(ctx, kind, Env, [conf], d)
    old, path = sys.argv, list(sys.path)
    sys.argv = ["soil", "--no-dump", "--level", "critical"]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            res = soil.easy(cfg)
    finally:
        sys.argv = old
        sys.path[:] = path
    ctx.check(isinstance(res, list) and len(res) == its == len(log) and all(a is b for a, (b, _) in zip(res, log)), "models returned by easy()")
    ctx.check(all(kw.get("p") is p for _, kw in log), "parameters given to the model")
    ctx.cover("run")


def settings(ctx, kind):
    """iterations, seed and parameters in the file and in the command line"""
    from soil import simulation

    d = scratch(ctx)
    inside(ctx, d)
    log = []
    Env = world(ctx, log, stop=1)
    params = {}
    if kind != "yml" and ctx.flag("p"):
        params["p"] = ctx.real("p")
    elif kind == "yml" and ctx.flag("p"):
        params["p"] = 1.5
    if ctx.flag("nested"):
        params["deep"] = {"a": 1, "b": {"c": "x"}}
    conf = dict(name="n", parameters=params)
    if kind == "class":
        conf = {}
        params = {}
    args = ["--no-dump", "--level", "critical"]
    its, seed = 1, "default"
    if kind != "class" and ctx.flag("file iterations"):
        its = conf["iterations"] = 2
    if ctx.flag("cli iterations"):
        its = 3 - ctx.choice("cli_iterations", 3)
        args += ["--iterations", str(its)]
    if kind != "class" and ctx.flag("file seed"):
        seed = conf["seed"] = "mine"
    if ctx.flag("cli seed"):
        seed = ["0", "other", ""][ctx.choice("cli_seed", 3)]
        args += ["--seed", seed]
    want = dict(params)
    s = ctx.choice("set", 5 if "deep" in params else 3)
    if s == 1:
        args += ["--set", "p=[1, 'two']"]
        want["p"] = [1, "two"]
    elif s == 2:
        args += ["--set", "q='a=b'", "--set", "p=-2.5"]
        want["q"] = "a=b"
        want["p"] = -2.5
    elif s == 3:
        args += ["--set", "deep.a=7"]
        want["deep"] = {"a": 7, "b": {"c": "x"}}
    elif s == 4:
        args += ["--set", "deep.b.c=None"]
        want["deep"] = {"a": 1, "b": {"c": None}}
    if s:
        ctx.cover("set")
    if kind == "sim":
        sim = simulation.Simulation(model=Env, **conf)
        res, _ = command(ctx, args, cfg=sim)
    else:
        res, _ = command(ctx, [define(ctx, kind, Env, [conf], d)] + args)
    ctx.check(len(log) == its and len(res) == 1 and len(res[0]) == its, "number of iterations")
    for i, (env, kw) in enumerate(log):
        got = {k: v for k, v in kw.items() if k in ("p", "q", "deep")}
        ctx.check(list(sorted(got)) == list(sorted(want)), "parameters given to the model")
        for k, v in want.items():
            ctx.check(got.get(k) == v, "value of a parameter")
        # the seed decides the draws: compare with a model run with that seed by hand
        ref = simulation.Simulation(model=Env, name="n", seed=seed, parameters=dict(want), iterations=its, exporters=[], level=50).run()[i]
        ctx.check(ref.random.random() == env.random.random(), "seed")
        break
    ctx.cover("run")


def output(ctx, opt):
    """where results go, and which"""
    d = scratch(ctx)
    inside(ctx, d)
    log = []
    Env = world(ctx, log, stop=1, net=True)
    conf = dict(name="sim", level=50)
    args = ["--level", "critical"]
    where = "soil_output"
    if ctx.flag("output"):
        where = "elsewhere"
        args += [["-o", "--output"][ctx.choice("spelling", 2)], where]
    dump, dry, conv = True, False, False
    if ctx.flag("no-dump"):
        args.append("--no-dump")
        dump = False
    if ctx.flag("dry"):
        args.append(["--dry-run", "--dry"][ctx.choice("spelling", 2)])
        dry = True
    if ctx.flag("convert"):
        args.append("--only-convert")
        conv = True
    want = {"sqlite", "yml"}
    extra = ["dummy", "csv", "gexf"]
    for flag, ext in (("--csv", "csv"), ("--graph", "gexf"), ("-e", None)):
        if ctx.flag(flag):
            if ext is None:
                ext = extra[ctx.choice("exporter", 3)]
            args += [flag] + ([ext] if flag == "-e" else [])
            want.add(ext)
    p = define(ctx, "py", Env, [conf], d)
    before = tree(d)
    res, shown = command(ctx, [p] + args)
    new = {k: v for k, v in tree(d).items() if k not in before}
    files = [k for k, v in new.items() if v is not None]
    if conv:
        ctx.check(not log and not files, "converting a configuration ran it")
        ctx.check("name: sim" in shown, "the configuration was not shown")
        ctx.cover("converted")
        return
    if dry:
        ctx.check(not log, "a dry run ran the model")
    else:
        ctx.check(len(log) == 1, "number of models run")
    if not dump or dry:
        ctx.check(not files, "files were written although they should not")
        ctx.cover("quiet")
        return
    ctx.check(all(f.startswith(os.path.join(where, "sim") + os.sep) for f in files), "results were written elsewhere")
    got = {os.path.splitext(f)[1].lstrip(".") or os.path.basename(f) for f in files}
    ctx.check(got == want, "kinds of results written")
    for f in files:
        if f.endswith(".env.csv"):
            rows = [l for l in new[f].decode().splitlines() if l]
            ctx.check(len(rows) == len(set(rows)), "results were written twice")
    ctx.cover("written")


def several(ctx, kind, via, n):
    """every simulation of every file is run once, with its own configuration"""
    from soil import simulation

    d = scratch(ctx)
    inside(ctx, d)
    log = []
    Env = world(ctx, log, stop=1)
    k = ctx.choice("n", n) + 1
    confs = []
    for i in range(k):
        c = dict(name="sim%d" % i, parameters={"which": i}, level=50)
        if ctx.flag("two"):
            c["iterations"] = 2
        if ctx.flag("matrix"):
            c["matrix"] = {"m": [1, 2]}
        confs.append(c)
    p = define(ctx, kind, Env, confs, d)
    over = {}
    if ctx.flag("override"):
        over = dict(seed="given")
    quiet = dict(exporters=[], dump=False)
    if via == "from_file":
        for s in simulation.from_file(p, **over, **quiet):
            s.run()
    elif via == "run_from_file":
        simulation.run_from_file(p, **over, **quiet)
    elif via == "from_py":
        for s in simulation.iter_from_py(p, **over, **quiet):
            s.run()
    elif via == "cli":
        command(ctx, [p, "--no-dump", "--level", "critical"] + (["--seed", "given"] if over else []))
    total = 0
    for i, c in enumerate(confs):
        its = c.get("iterations", 1)
        for m in c.get("matrix", {}).get("m", [None]):
            mine = [kw for (_, kw) in log if kw.get("which") == i and kw.get("m") == m]
            ctx.check(len(mine) == its, "a simulation of the file was not run as often as it says")
            total += its
            for kw in mine:
                ctx.check(("given" in str(kw["seed"])) == bool(over), "an option given when loading")
    ctx.check(len(log) == total, "number of models run")
    ctx.check(not simulation._AVOID_RUNNING if hasattr(simulation, "_AVOID_RUNNING") else True, "running is still suspended")
    ctx.cover("run")
    if over:
        ctx.cover("override")


def broken(ctx, n):
    """files that fail leave nothing behind"""
    from soil import simulation

    d = scratch(ctx)
    log = []
    Env = world(ctx, log, stop=1)
    path0, mods0 = list(sys.path), set(sys.modules)
    for i in range(n):
        kind = ctx.choice("kind", 5)
        conf = dict(name="bad", parameters={"which": "bad"}, exporters=[], dump=False, level=50)
        hooks = dict(Env=Env, conf=conf, Simulation=simulation.Simulation)
        body = ["1 / 0\n",
                "verif_hook.Simulation(model=verif_hook.Env, **verif_hook.conf).run()\n1 / 0\n",
                "s = verif_hook.Simulation(model=verif_hook.Env, **verif_hook.conf)\nraise KeyError('x')\n",
                "x = 1\n",
                "def broken(:\n"][kind]
        p = pyfile(ctx, body, name="bad%d.py" % i, **hooks)
        failed = False
        try:
            for s in simulation.iter_from_py(p):
                s.run()
        except Exception:
            failed = True
        ctx.check(failed, "a broken file was accepted")
    ctx.check(not log, "a simulation of a broken file was run")
    ctx.check(sys.path == path0, "a broken file changed the module path")
    good = dict(name="good", parameters={"which": "good"}, exporters=[], dump=False, level=50)
    if ctx.flag("direct"):
        simulation.Simulation(model=Env, **good).run()
    else:
        p = define(ctx, ["py", "queue"][ctx.choice("good", 2)], Env, [good], d)
        for s in simulation.from_file(p):
            s.run()
    ctx.check([kw.get("which") for (_, kw) in log] == ["good"], "a file that failed affected a later simulation")
    ctx.cover("good")


def again(ctx, kind, times):
    """commands in sequence: the options of one are not for the next, and files are read as they are"""
    d = scratch(ctx)
    inside(ctx, d)
    log = []
    Env = world(ctx, log, stop=9)
    conf = dict(name="n", level=50, max_steps=3, parameters={"p": 1, "deep": {"a": 1}})
    for t in range(times):
        steps, its, want, seed, dump = 3, 1, {"p": 1, "deep": {"a": 1}}, "default", False
        args = ["--level", "critical"]
        o = ctx.choice("options", 7)
        if o == 1:
            steps = 1
            args += ["--max_steps", "1"]
        elif o == 2:
            its = 2
            args += ["--iterations", "2"]
        elif o == 3:
            want = {"p": 2, "deep": {"a": 1}}
            args += ["--set", "p=2"]
        elif o == 4:
            want = {"p": 1, "deep": {"a": 5}, "q": [1]}
            args += ["--set", "deep.a=5", "--set", "q=[1]"]
        elif o == 5:
            seed = "other"
            args += ["--seed", "other"]
        elif o == 6:
            dump = True
        if not dump:
            args.append("--no-dump")
        mine = dict(conf, parameters={"p": 1, "deep": {"a": 1}})
        if t and ctx.flag("change"):
            mine["parameters"]["q"] = "x" * t
            want = dict({"q": "x" * t}, **want)
            ctx.cover("changed")
        p = define(ctx, kind, Env, [mine], d)
        had = {k for k, v in tree(d).items() if v is not None}
        del log[:]
        res, _ = command(ctx, [p] + args)
        ctx.check(len(log) == its and len(res) == 1 and len(res[0]) == its, "number of iterations")
        for env, kw in log:
            ctx.check(env.schedule.steps == steps, "limit of an earlier command, or of the file")
            ctx.check({k: v for k, v in kw.items() if k in ("p", "q", "deep")} == want, "parameters of an earlier command, or of the file")
            ctx.check(str(kw["seed"]) == "%s_iteration_%s" % (seed, env.id), "seed")
        new = {k for k, v in tree(d).items() if v is not None and k.startswith("soil_output")} - had
        ctx.check(dump or not new, "files were written although they should not")
    ctx.cover("run")


def cases(tier):
    q = tier == "quick"
    out = []
    for kind in ("py", "queue", "sim", "class"):
        out.append(case("limits-" + kind, limits, kwargs=dict(kind=kind), bounds="each limit in the file or not, in the command line or not; any max_time in [0,3], max_steps 0..3",
                        covers=["overridden"] + (["kept"] if kind != "class" else [])))
    for kind in ("py", "queue", "sim", "yml"):
        out.append(case("settings-" + kind, settings, kwargs=dict(kind=kind), bounds="iterations, seed and parameters in the file or not, in the command line or not",
                        covers=["set", "run"]))
    for kind in ("py", "queue", "sim"):
        out.append(case("easy-" + kind, easy, kwargs=dict(kind=kind), bounds="1-2 iterations, any parameter", covers=["run"]))
    out.append(case("output", output, kwargs=dict(opt=0), bounds="every combination of --output, --no-dump, --dry-run, --only-convert, --csv, --graph, -e",
                    covers=["written", "quiet", "converted"]))
    for kind in ("py", "queue", "run", "yml"):
        for via in ("from_file", "run_from_file", "from_py", "cli"):
            if kind == "yml" and via == "from_py":
                continue
            out.append(case("several-%s-%s" % (kind, via), several, kwargs=dict(kind=kind, via=via, n=2 if q else 3),
                            bounds="1-2 simulations per file, each with or without a matrix and 2 iterations", covers=["run", "override"]))
    for kind in ("py", "queue", "yml"):
        out.append(case("again-" + kind, again, kwargs=dict(kind=kind, times=2 if q else 3), bounds="every sequence of 2-3 commands with 7 kinds of options; the file changes or not", covers=["run", "changed"]))
    out.append(case("broken", broken, kwargs=dict(n=1 if q else 2), bounds="5 kinds of broken files, then a good one", covers=["good"]))
    return out
