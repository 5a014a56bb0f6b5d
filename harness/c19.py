"""C19: configurations survive being dumped and loaded again."""
import os
import sys
import types

from .common import *
from symx.core import untoken

STRINGS = ["plain", "", "1", "yes", "null", "a: b", "- x", "3.5e1", "[1, 2]", "{}", " lead", "two\nlines", "#c", "'q'", '"d"', "ñ→", "None", "True", "~"]


NUMBERS = [1e-05, 1e22, 0.1 + 0.2, 1e-300, float("inf"), float("-inf"), -0.0, 10 ** 30, 2.0, True, 0, (1, 2), (), ("a", ("b", 2.5)), (("a", 1), ("b", 2)), {1, "x"}]


def value(ctx, depth, n=2):
    """an arbitrary plain value"""
    kinds = ["real", "str", "none", "bool", "int", "list", "dict"] if depth else ["real", "str", "none"]
    k = kinds[ctx.choice("kind", len(kinds))]
    if k == "real":
        return ctx.real("v")
    if k == "int":
        return ctx.int("v")
    if k == "str":
        return STRINGS[ctx.choice("str", 3)] if depth else "1"
    if k == "none":
        return None
    if k == "bool":
        return ctx.flag("b")
    if k == "list":
        return [value(ctx, depth - 1, n) for _ in range(ctx.choice("len", n + 1))]
    return {"k%d" % i: value(ctx, depth - 1, n) for i in range(ctx.choice("len", n + 1))}


def same(a, b):
    """deep equality as a condition; the text of a symbolic number stands for it"""
    a = untoken(a)
    if isinstance(b, dict):
        if not isinstance(a, dict) or list(a) != list(b) and set(a) != set(b):
            return False
        return And([same(a[k], b[k]) for k in b]) if b else True
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return False
        return And([same(x, y) for x, y in zip(a, b)]) if b else True
    if isinstance(b, (tuple, set)):
        return type(a) is type(b) and a == b and repr(a) == repr(b)
    if b is None or isinstance(b, (bool, str)):
        return type(a) is type(b) and a == b
    if a is None or isinstance(a, (bool, str, list, dict)):
        return False
    if not is_sym(b) and type(a) is not type(b):
        return False
    return a == b


def world(ctx):
    """a module of the user's, with a model"""
    from soil import environment, agents
    import soil

    if ctx.symbolic:
        import yaml
        yaml.add_representer(SymNum, lambda d, v: d.represent_str(repr(v)))
    m = types.ModuleType("verif_models")
    sys.modules["verif_models"] = m
    ctx.cleanup.append(lambda: sys.modules.pop("verif_models", None))
    # serialization remembers modules
    from soil import serialization
    known = dict(serialization.KNOWN_MODULES)

    def restore():
        serialization.KNOWN_MODULES.clear()
        serialization.KNOWN_MODULES.update(known)

    ctx.cleanup.append(restore)
    for n in ("Env", "Environment", "Agent", "Simulation", "filter"):
        c = type(n, (environment.Environment,), {"__module__": "verif_models"})
        setattr(m, n, c)
    return m


PLAIN = ("version", "source_file", "name", "description", "group", "backup", "overwrite", "dry_run", "dump", "seed", "dir_path", "max_time",
         "max_steps", "iterations", "num_processes", "outdir", "exporter_params", "level", "skip_test", "debug", "parameters", "matrix")


def load(ctx, sim, how):
    from soil import simulation

    if how == "dict":
        return simulation.from_config(sim.to_dict())
    if how == "yaml":
        p = os.path.join(scratch(ctx), "c.yml")
        with open(p, "w") as f:
            f.write(sim.to_yaml())
        return simulation.from_config(p)
    if how == "file":
        p = os.path.join(scratch(ctx), "c.yml")
        with open(p, "w") as f:
            f.write(sim.to_yaml())
        (s,) = simulation.from_file(p)
        return s
    if how == "exporter":
        from soil import exporters
        d = scratch(ctx)
        e = exporters.YAML(sim, outdir=d)
        e.sim_start()
        (f,) = [os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs]
        return simulation.from_config(f)
    raise ValueError(how)


def compare(ctx, sim, back, was):
    for k in PLAIN:
        ctx.check(same(getattr(back, k), was[k]), "%s of the simulation that was loaded" % k)
        ctx.check(same(getattr(sim, k), was[k]), "dumping the configuration changed %s" % k)
    ctx.check(back.model is sim.model, "model of the simulation that was loaded")


def roundtrip(ctx, how, depth, where):
    """parameters (or matrix) of any shape"""
    from soil import simulation

    m = world(ctx)
    params, matrix = {}, {}
    if where == "params":
        for i in range(1 + ctx.choice("n", 1)):
            params["p%d" % i] = value(ctx, depth)
    else:
        for i in range(1 + ctx.choice("n", 1)):
            matrix["m%d" % i] = [value(ctx, depth - 1) for _ in range(1 + ctx.choice("len", 2))]
    sim = simulation.Simulation(model=m.Env, parameters=params, matrix=matrix, level=50)
    import copy
    was = {k: copy.deepcopy(getattr(sim, k)) for k in PLAIN}
    back = load(ctx, sim, how)
    compare(ctx, sim, back, was)
    ctx.check(same(back.to_dict()["parameters"], was["parameters"]), "parameters dumped again")
    ctx.cover("loaded")
    if params:
        back.parameters["new"] = 1
        ctx.check("new" not in sim.parameters, "the loaded simulation shares its parameters with the dumped one")


def nested(ctx, how):
    """lists and dictionaries within each other, in every order, four levels deep"""
    from soil import simulation
    import copy

    m = world(ctx)

    def wrap(v, depth):
        if not depth:
            return v
        v = wrap(v, depth - 1)
        k = ctx.choice("shape", 4)
        return ([v], {"a": v}, [None, v, "1"], {"k": 2.5, "a": v, "z": []})[k]

    leaf = (ctx.real("v"), {}, [], "1")[ctx.choice("leaf", 4)]
    v = wrap(leaf, 4 if how == "yaml" else 3)
    params, matrix = ({"p": v}, {}) if ctx.flag("params") else ({}, {"m": [v]})
    sim = simulation.Simulation(model=m.Env, parameters=params, matrix=matrix, level=50)
    was = {k: copy.deepcopy(getattr(sim, k)) for k in PLAIN}
    compare(ctx, sim, load(ctx, sim, how), was)
    ctx.cover("loaded")


def options(ctx, how):
    """every other option"""
    from soil import simulation

    m = world(ctx)
    opt = {}
    for k, v in (("name", "given"), ("description", "some: text"), ("group", "g"), ("seed", "a seed"), ("version", "2")):
        if ctx.flag(k):
            opt[k] = v
    names = ["backup", "overwrite", "dry_run", "dump", "skip_test"]
    k = ctx.choice("flag", len(names) + 1)
    if k < len(names):
        opt[names[k]] = True
    if ctx.flag("max_time"):
        opt["max_time"] = ctx.real("mt", 0)
    if ctx.flag("max_steps"):
        opt["max_steps"] = ctx.int("ms", 0)
    if ctx.flag("iterations"):
        opt["iterations"] = ctx.int("it", 1)
    sim = simulation.Simulation(model=m.Env, level=50, **opt)
    import copy
    was = {k: copy.deepcopy(getattr(sim, k)) for k in PLAIN}
    for k, v in opt.items():
        ctx.check(same(was[k], v), "option " + k)
    compare(ctx, sim, load(ctx, sim, how), was)
    ctx.cover("loaded")


def strings(ctx, how):
    """text of any kind stays that text"""
    from soil import simulation

    m = world(ctx)
    alls = STRINGS + NUMBERS
    s = alls[ctx.choice("s", len(alls))]
    shape = ctx.choice("shape", 4)
    params = {"p": [s, [s], {"a": s}, {"a": [s, {"b": s}]}][shape]}
    sim = simulation.Simulation(model=m.Env, parameters=params, level=50, name="n", description=s if isinstance(s, str) else "some text",
                                matrix={"m": [s]} if shape == 1 else {})
    import copy
    was = {k: copy.deepcopy(getattr(sim, k)) for k in PLAIN}
    compare(ctx, sim, load(ctx, sim, how), was)
    ctx.cover("loaded")


def texts(ctx):
    """a value turned into text and its type, and back"""
    from soil import serialization

    world(ctx)
    alls = STRINGS + [x for x in NUMBERS if x not in (float("inf"), float("-inf"))] + [None, False, b"ab", {"a": [1, None]}, [{}, []], set(), 1 + 2j]
    v = alls[ctx.choice("s", len(alls))]
    text, kind = serialization.serialize(v)
    ctx.check(isinstance(text, str) and isinstance(kind, str), "a serialized value is not text")
    back = serialization.deserialize(kind, text)
    ctx.check(type(back) is type(v) and repr(back) == repr(v), "a value turned into text and back")
    ctx.cover("back")


def models(ctx, how):
    """models of the library, of a module, of a source file, with any name"""
    from soil import simulation, environment, serialization

    m = world(ctx)
    k = ctx.choice("model", 8)
    kw = {}
    if k < 5:
        want = model = getattr(m, ("Env", "Environment", "Agent", "Simulation", "filter")[k])
    elif k == 5:
        want = model = environment.Environment
    elif k == 6:
        model, want = "soil.Environment", environment.Environment
    else:
        d = scratch(ctx)
        p = os.path.join(d, "user_models.py")
        with open(p, "w") as f:
            f.write("import soil\nclass Mine(soil.Environment):\n    tag = 'mine'\n")
        model, kw = "Mine", dict(source_file=p)
        want = None
    sim = simulation.Simulation(model=model, level=50, **kw)
    back = load(ctx, sim, how)
    if want is not None:
        ctx.check(sim.model is want, "model of a simulation")
        ctx.check(back.model is want, "model of the simulation that was loaded")
    else:
        ctx.check(sim.model.tag == "mine" and back.model.tag == "mine", "model of a source file")
        ctx.cover("source")
    if want is not None:
        ctx.check(serialization.deserialize(serialization.name(want)) is want, "the name of a class leads to another class")
    ctx.cover("loaded")


def classes(ctx, how):
    """classes among the parameters are dumped as names that lead back to them"""
    from soil import simulation, environment, agents, serialization
    from soil.agents.geo import Geo

    m = world(ctx)
    m.Walker = type("Walker", (agents.BaseAgent,), {"__module__": "verif_models", "step": lambda self: 1})
    pool = [m.Walker, m.Agent, m.Environment, agents.BaseAgent, Geo, environment.NetworkEnvironment, agents.CounterModel]
    c = pool[ctx.choice("class", len(pool))]
    key = ("agent_class", "model", "p", "agents", "cls")[ctx.choice("key", 5)]
    shape = ctx.choice("shape", 6)
    v = [c, [c], {key: c}, [{key: c}, 1], [["x", c]], {"k": [c, {"z": c}]}][shape]
    params, matrix = ({key: v, "other": 1}, {}) if ctx.flag("params") else ({}, {key: [v]})
    sim = simulation.Simulation(model=m.Env, parameters=params, matrix=matrix, level=50)
    back = load(ctx, sim, how)

    def check(a, b):
        if isinstance(b, type):
            ctx.check(isinstance(a, (str, type)) and serialization.deserialize(a) is b, "a class among the parameters")
            ctx.check(how == "dict" or isinstance(a, str), "a class in a file")
        elif isinstance(b, dict):
            ctx.check(isinstance(a, dict) and set(a) == set(b), "parameters with classes")
            for k in b:
                if isinstance(a, dict) and k in a:
                    check(a[k], b[k])
        elif isinstance(b, list):
            ctx.check(isinstance(a, list) and len(a) == len(b), "lists with classes")
            for x, y in zip(a, b):
                check(x, y)
        else:
            ctx.check(a == b, "other parameters")

    check(back.parameters, params)
    check(back.matrix, matrix)
    ctx.check(sim.parameters == params and sim.matrix == matrix, "dumping the configuration changed it")
    ctx.cover("loaded")


def paths(ctx):
    """relative paths are relative to the configuration"""
    from soil import simulation

    world(ctx)
    d = scratch(ctx)
    old = os.getcwd()
    ctx.cleanup.insert(0, lambda: os.chdir(old))
    for sub in ("cwd", "conf", "dir"):
        os.makedirs(os.path.join(d, sub, "src"))
        with open(os.path.join(d, sub, "src", "models.py"), "w") as f:
            f.write("import soil\nclass Mine(soil.Environment):\n    tag = %r\n" % sub)
    os.chdir(os.path.join(d, "cwd"))
    cfg = dict(model="Mine", source_file=os.path.join("src", "models.py"))
    want = "conf"
    how = ctx.choice("how", 3)
    if ctx.flag("dir_path"):
        cfg["dir_path"] = os.path.join(d, "dir")
        want = "dir"
    if how == 0:
        if want == "conf":
            want = "cwd"
        sim = simulation.from_config(dict(cfg))
    else:
        import yaml
        p = os.path.join(d, "conf", "c.yml")
        with open(p, "w") as f:
            f.write(yaml.dump(cfg))
        sim = simulation.from_config(p) if how == 1 else simulation.from_file(p)[0]
    ctx.check(sim.model.tag == want, "a relative path was resolved against another directory")
    ctx.check(os.path.isabs(sim.source_file), "source file")
    ctx.cover("loaded")


def again(ctx, how, times):
    """what was dumped or loaded before does not matter to what is dumped or loaded now"""
    from soil import simulation
    import copy

    m = world(ctx)
    sim = simulation.Simulation(model=m.Env, name="n", parameters={"p": ctx.real("p"), "d": {"x": [1]}}, matrix={"m": [1]}, level=50)
    for t in range(times):
        back = None
        k = ctx.choice("change", 8) if t else 7
        if k == 0:
            sim.parameters["p"] = ctx.real("p")
        elif k == 1:
            sim.parameters["d"]["x"].append(ctx.real("x"))
        elif k == 2:
            sim.matrix["m"].append(ctx.real("m"))
        elif k == 3:
            sim.parameters.pop("p", None)
        elif k == 4:
            sim.model = m.Environment
        elif k == 5:
            sim.description = "text %d" % t
            sim.max_steps = ctx.int("ms", 0)
        elif k == 6:
            back = load(ctx, sim, how)  # and what was loaded is changed
            back.parameters["new"] = 1
            back.matrix["m"].append("new")
            if "d" in back.parameters:
                back.parameters["d"]["x"].append("new")
        was = {f: copy.deepcopy(getattr(sim, f)) for f in PLAIN}
        if k == 6:
            ctx.check("new" not in sim.parameters and "new" not in list(map(str, sim.matrix["m"])), "a loaded simulation shares its parameters with the dumped one")
            ctx.check("new" not in list(map(str, sim.parameters["d"]["x"])), "a loaded simulation shares its parameters with the dumped one")
        compare(ctx, sim, load(ctx, sim, how), was)
    ctx.cover("again")


def sources(ctx, how):
    """a source file that has changed, or several with the same names in them"""
    from soil import simulation

    world(ctx)
    d = scratch(ctx)
    a, b = os.path.join(d, "user_models.py"), os.path.join(d, "other_models.py")

    def write(p, tag):
        with open(p, "w") as f:
            f.write("import soil\nclass Mine(soil.Environment):\n    tag = %r\n" % tag)

    write(a, "a" * 1)
    write(b, "b" * 7)
    tags = {a: "a", b: "b" * 7}
    old = []
    for t in range(3):
        k = ctx.choice("op", 3)
        p = a if k != 1 else b
        if k == 2:
            tags[a] = "changed" * (t + 2)
            write(a, tags[a])
        sim = simulation.Simulation(model="Mine", source_file=p, level=50)
        back = load(ctx, sim, how)
        ctx.check(sim.model.tag == tags[p] and back.model.tag == tags[p], "the model is not the one in its source file")
        ctx.check(sim.source_file == back.source_file == p, "source file of a simulation")
        old.append((sim, back, tags[p]))
        ctx.check(all(x.model.tag == y.model.tag == z for x, y, z in old), "the model of another simulation changed")
    ctx.cover("loaded")


def folders(ctx, n):
    """configurations of several folders, loaded at once"""
    import yaml
    from soil import simulation

    world(ctx)
    d = scratch(ctx)
    old = os.getcwd()
    ctx.cleanup.insert(0, lambda: os.chdir(old))
    os.chdir(d)
    want = []
    files = []
    for i in range(n):
        f = os.path.join(d, "conf%d" % i)
        os.mkdir(f)
        docs = []
        for j in range(1 + ctx.choice("docs", 2)):
            with open(os.path.join(f, "m%d.py" % j), "w") as h:
                h.write("import soil\nclass Mine(soil.Environment):\n    tag = %r\n" % ("%d-%d" % (i, j)))
            c = dict(name="s%d%d" % (i, j), model="Mine", source_file="m%d.py" % j, parameters=dict(p=i))
            tag = "%d-%d" % (i, j)
            if i == 0 and j == 0 and n > 1 and ctx.flag("dir_path"):
                c["dir_path"] = os.path.join(d, "conf%d" % (n - 1))
                tag = "%d-0" % (n - 1)
            docs.append(yaml.dump(c))
            want.append((c["name"], tag, i))
        files.append(os.path.join(f, "c.yml"))
        with open(files[-1], "w") as h:
            h.write("---\n".join(docs))
    via = ctx.choice("via", 4)
    opts = dict(iterations=2) if ctx.flag("options") else {}
    if via == 0:
        sims = list(simulation.iter_from_config(os.path.join(d, "*", "c.yml"), **opts))
    elif via == 1:
        sims = list(simulation.iter_from_config(*files, **opts))
    elif via == 2:
        sims = simulation.from_file(*files, **opts)
    else:
        sims = list(simulation.iter_from_file(os.path.join("*", "c.yml"), **opts))
    ctx.check(sorted((s.name, s.model.tag, s.parameters["p"]) for s in sims) == sorted(want), "simulations of several folders")
    ctx.check(all(s.iterations == opts.get("iterations", 1) for s in sims), "options given when loading")
    ctx.cover("loaded")


def cases(tier):
    q = tier == "quick"
    out = []
    for how in ("dict", "yaml", "file", "exporter"):
        out.append(case("params-" + how, roundtrip, kwargs=dict(how=how, depth=2 if how == "yaml" or not q else 1, where="params"),
                        bounds="plain values nested up to 2-3 levels, up to 2 items each, any numbers", covers=["loaded"]))
        out.append(case("matrix-" + how, roundtrip, kwargs=dict(how=how, depth=2 if how == "yaml" or not q else 1, where="matrix"),
                        bounds="plain values nested up to 2-3 levels, up to 2 items each, any numbers", covers=["loaded"]))
        out.append(case("nested-" + how, nested, kwargs=dict(how=how), bounds="every nesting of lists and dictionaries 3-4 levels deep, any number at its bottom", covers=["loaded"]))
        out.append(case("options-" + how, options, kwargs=dict(how=how), bounds="every option given or not", covers=["loaded"]))
        out.append(case("strings-" + how, strings, kwargs=dict(how=how), bounds="%d strings and %d other values in 4 places" % (len(STRINGS), len(NUMBERS)), covers=["loaded"]))
        out.append(case("classes-" + how, classes, kwargs=dict(how=how), bounds="7 classes in 6 places under 5 names", covers=["loaded"]))
        out.append(case("models-" + how, models, kwargs=dict(how=how), bounds="8 kinds of models", covers=["loaded", "source"]))
    for how in ("dict", "yaml", "file", "exporter"):
        out.append(case("again-" + how, again, kwargs=dict(how=how, times=3), bounds="one simulation, dumped and loaded 3 times with 8 kinds of changes in between", covers=["again"]))
        out.append(case("sources-" + how, sources, kwargs=dict(how=how), bounds="every sequence of 3 uses of two source files, with or without changes", covers=["loaded"]))
    out.append(case("folders", folders, kwargs=dict(n=2 if q else 3), bounds="1-2 configurations in each of 2-3 folders, 4 ways of loading them at once", covers=["loaded"]))
    out.append(case("texts", texts, bounds="%d plain values" % (len(STRINGS) + len(NUMBERS) + 5), covers=["back"]))
    out.append(case("paths", paths, bounds="3 ways of loading, dir_path or not", covers=["loaded"]))
    return out
