"""C27: looking at a simulation neither changes nor breaks it.

Self-composition: a model is run twice with the same draws, delays and values (all
arbitrary); in the second run it is observed in every way the library offers, and
logs at any level.  The two runs must be the same."""
from .common import *
from .c16 import Tape, envclass


def alike(a, b):
    """deep equality as one condition"""
    if a is b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return And([alike(x, y) for x, y in zip(a, b)]) if len(a) == len(b) and len(a) else len(a) == len(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return (And([alike(a[k], b[k]) for k in a]) if a else True) if list(a) == list(b) else False
    if isinstance(a, SymNum) and isinstance(b, SymNum) and a.t.eq(b.t):
        return True
    return a == b


class Capture:
    """what reaches the log"""

    def __init__(self, ctx, level):
        import logging
        import soil.utils

        log = soil.utils.logger
        self.records = []
        cap = self

        class H(logging.Handler):
            def emit(self, record):
                cap.records.append((record.levelno, record.getMessage()))

        saved = (log.level, list(log.handlers), log.propagate, logging.root.manager.disable)
        known = set(logging.root.manager.loggerDict)

        def restore():
            log.setLevel(saved[0])
            log.handlers[:] = saved[1]
            log.propagate = saved[2]
            logging.disable(saved[3])
            for k in set(logging.root.manager.loggerDict) - known:
                if k.startswith("soil."):
                    logging.root.manager.loggerDict.pop(k)

        ctx.cleanup.append(restore)
        logging.disable(logging.NOTSET)
        log.handlers[:] = [H()]
        log.propagate = False
        log.setLevel(level)


def silence(ctx):
    import logging
    logging.disable(logging.CRITICAL)


def watch(ctx, how, env, a):
    """one way of looking at a model and an agent"""
    import contextlib
    import io
    import logging

    if how == "text":
        str(a), repr(a), a.to_str(pretty=True), a.to_str(keys=["unique_id"])
        a.to_str(skip=["name"]), a.to_str(skip=list(a.keys()), pretty=True), a.to_str(keys=["unique_id", "name"], skip=["name"])
        a.to_str(skip=list(vars(a))), a.to_str(keys=[]), a.to_str(skip=[])
        str(env), repr(env)
    elif how == "mapping":
        list(a.keys()), list(a.items()), list(a.items(keys=list(vars(a)), skip=["x"])), list(a.items(skip=list(vars(a)))), a.get("nothing"), "x" in a, len(a), list(a.values()), a == a, dict(a)
        list(env.keys()), env.get("nothing"), "x" in env, len(env), list(env)
        env.get("nowhere", 3), a.get("nowhere", 3), a.get("nothing", []), env.get("nothing", "x")
    elif how == "frames":
        env.model_df(), env.model_df(steps=True), env.agent_df(), env.agent_df(steps=True)
        df = env.model_df()
        df["new"] = 1
        df.iloc[:, :] = 0
        adf = env.agent_df()
        adf["v"] = 99
    elif how == "select":
        env.count_agents(), list(env.get_agents()), list(env.get_agents(x=1)), env.agent(unique_id=a.unique_id), len(env.get_agents), list(env.get_agents.filter(x=1))
        list(env.agents) if hasattr(type(env), "agents") else None
        a.count_agents(), a.get_agents(), list(a.iter_agents(limit=1))
        list(env.network_agents) if hasattr(env, "network_agents") else None
        if hasattr(a, "count_neighbors"):
            a.count_neighbors(), a.get_neighbors(limit=1), a.subgraph(), a.subgraph(limit_neighbors=False, center=True)
            a.count_neighbors(state_id="one"), list(a.iter_neighbors()), list(a.iter_neighbors(agent_class=type(a))), a.subgraph(limit_neighbors=True), a.node
            a.get_agents(limit_neighbors=True), a.get_neighbors(unique_id=[0, 1]), env.agent_for_node_id(a.node_id) if a.node_id is not None else None
        if hasattr(a, "geo_search") and a.node_id is not None:
            a.geo_search(2), a.geo_search(0.5, center=True), a.geo_search(100, limit_neighbors=True)
        view = env.get_agents
        str(view), repr(view), a.unique_id in view, -1 in view, view[a.unique_id], view(limit=1), view.one()
    elif how == "log":
        a.log("message", 3), a.debug("debug"), a.info("info", x=a, y=[1]), a.log("warn", level=logging.WARNING, k=None)
        a.log(a, env), env.log(a, env), env.log(None)
        env.log("message", 3), env.log("message", level=logging.DEBUG, k=1)
    elif how == "export":
        from soil import exporters, simulation
        sim = simulation.Simulation(model=type(env), name="n", level=50, model_reporters={}, exporters=[])
        with contextlib.redirect_stdout(io.StringIO()):
            for c in ("csv", "summary", "gexf", "SQLite", "YAML", "default", "dummy"):
                e = getattr(exporters, c)(sim, dump=False, outdir="/nonexistent")
                e.sim_start()
                e.iteration_end(env, {}, "p")
                e.sim_end()
    elif how == "yaml":
        from soil import simulation
        sim = simulation.Simulation(model="soil.Environment", name="n", level=50)
        sim.to_dict(), sim.to_yaml()
    elif how == "clock":
        a.now, env.now, a.delay(3), a.at(env.now + 1)
        if hasattr(type(a), "states"):
            type(a).states(), a.state_id
    elif how != "nothing":
        raise ValueError(how)


WAYS = ("text", "mapping", "frames", "select", "log", "export", "yaml", "clock")


def scenario(ctx, kind, sched, steps, tape, values, watcher, ret=None):
    """values(agent, k): the k-th arbitrary number of an agent, the same in both runs"""
    import networkx as nx
    from soil import agents, environment

    trace = []
    kw = {}
    if kind == "network":
        kw["topology"] = nx.path_graph(2)
    n = 2
    if kind == "rich":
        n = 4
        g = kw["topology"] = nx.complete_graph(n)
        for i in g:
            g.nodes[i]["pos"] = (i, i * i)

    class Env(envclass(ctx, tape, environment.Environment)):
        def __init__(self, *a, **k):
            self.extra = ret
            super().__init__(*a, **k)

        def init(self):
            for i in range(n):
                self.add_agent(A, **(dict(node_id=i) if kind == "rich" else {}))

    count = {}

    def act(self):
        k = count[self.unique_id] = count.get(self.unique_id, 0) + 1
        v = values(self.unique_id, k)
        luck = self.prob(0.5)
        trace.append((self.unique_id, self.now, v, luck, getattr(self, "state_id", None), str(getattr(self, "node_id", None))))
        self.v = v
        watcher("agent", env, self)
        return v, luck

    if kind == "fsm":
        class A(agents.Agent):
            v = 0

            @agents.default_state
            @agents.state
            def one(self):
                v, luck = act(self)
                return (self.two if luck else self.one), v

            @agents.state
            def two(self):
                v, luck = act(self)
                yield v
                v, luck = act(self)
                return self.one
    elif kind == "events":
        class A(agents.EventedAgent):
            v = 0

            def on_receive(self, msg, sender=None):
                trace.append(("msg", self.unique_id, msg, self.now))

            def step(self):
                self.process_messages()
                v, luck = act(self)
                if luck:
                    self.model.broadcast(v, sender=self)
                return v
    elif kind == "rich":
        from soil.agents.geo import Geo

        class A(Geo, agents.Agent):
            v = 0

            def on_receive(self, msg, sender=None):
                trace.append(("msg", self.unique_id, msg, self.now))
                return msg

            @agents.default_state
            @agents.state
            def one(self):
                self.process_messages()
                if self.unique_id:
                    watcher("agent", env, self)
                    trace.append((self.unique_id, self.now, [a.unique_id for a in self.get_neighbors()], self.geo_search(3)))
                    return self.two
                v, luck = act(self)
                self.model.broadcast(v, sender=self)
                trace.append(self.random.random())
                return (self.two if luck else None), 2

            @agents.state
            def two(self):
                self.process_messages()
                watcher("agent", env, self)
                trace.append((self.unique_id, self.now, self.count_neighbors(state_id="two"), sorted(self.subgraph(state_id="one").nodes)))
                yield 1
                trace.append((self.unique_id, self.now, self.random.random() if self.unique_id == 1 else None))
                return "one"
    elif kind == "network":
        class A(agents.NetworkAgent):
            v = 0

            def step(self):
                v, luck = act(self)
                trace.append([a.unique_id for a in self.get_neighbors()])
                if luck and self.count_neighbors():
                    self.get_neighbors()[0].die(remove=False)
                return v
    else:
        class A(agents.BaseAgent):
            v = 0

            def step(self):
                v, luck = act(self)
                return self.die() if luck else v

    env = Env(schedule_class=scheduler(sched), agent_reporters={"v": "v", "extra": lambda a: ret}, model_reporters={"extra": "extra", "total": lambda m: m.count_agents()}, **kw)
    for _ in range(steps):
        if not env.running:
            break
        ags = list(env.get_agents())
        if ags:
            watcher("between", env, ags[-1])
        env.step()
        trace.append(("time", env.now, env.schedule.steps, sorted(a.unique_id for a in env.get_agents()), sorted(map(str, env.G.edges))))
    dc = env.datacollector
    trace.append({k: list(v) for k, v in sorted(dc.model_vars.items())})
    rec = getattr(dc, "_agent_records", {})
    trace.append([(k, [tuple(r) for r in v]) for k, v in rec.items()])
    trace.append([sorted(k for k in a.keys()) for a in env.get_agents()])
    trace.append(sorted(k for k in env.keys()))
    trace.append(len(tape))
    return trace


def observed(ctx, kind, sched, steps, ways, rets=(None,), levels=3, deep=False):
    import logging

    tape, cache = [], {}
    how = ways[ctx.choice("how", len(ways))]

    def values(i, k):
        if (i, k) not in cache:
            # data frames need numbers that can be hashed
            exact = how in ("frames", "export")
            cache[i, k] = (1.0, 0.5, 0.25)[ctx.choice("v%d" % i, 2) if deep else (i + k) % 3] if exact else ctx.real("v%d" % i, 0, lo_open=True)
        return cache[i, k]

    ret = rets[ctx.choice("reported", len(rets))]
    silence(ctx)
    cap = None
    first = scenario(ctx, kind, sched, steps, tape, values, lambda *a: None, ret)
    level = [logging.DEBUG, logging.ERROR, logging.INFO][ctx.choice("level", levels)]
    where = ["agent", "between"][ctx.choice("where", 2)]
    Capture(ctx, level)

    def watcher(place, env, a):
        if place == where:
            watch(ctx, how, env, a)
            ctx.cover(how)

    second = scenario(ctx, kind, sched, steps, tape, values, watcher, ret)
    silence(ctx)
    ctx.check(len(first) == len(second), "a model that is observed does more or less")
    ctx.check(alike(first, second), "a model that is observed runs differently")
    ctx.cover("run")


def messages(ctx, who):
    """a message reaches the log if and only if its level is enabled, with all its parts"""
    import logging
    from soil import agents, environment

    levels = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR]
    lv = levels[ctx.choice("enabled", 4)]
    cap = Capture(ctx, lv)
    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment)

    class A(agents.EventedAgent):
        def step(self):
            pass

    a = env.add_agent(A)
    subject = a if who == "agent" else env
    cap.records.clear()
    how = ctx.choice("how", 3 if who == "agent" else 1)
    args = [["some text", "100% {of} %s", 5, None][ctx.choice("text", 4)]] + [[], [7], [None, [1]]][ctx.choice("args", 3)]
    kw = [{}, {"key": "value"}, {"a1": 1.5, "b2": None}][ctx.choice("kwargs", 3)]
    if how == 0:
        at = levels[ctx.choice("level", 4)]
        given = dict(kw, level=at)
        if at == logging.INFO and ctx.flag("default"):
            given.pop("level")
        subject.log(*args, **given)
    else:
        at = [logging.DEBUG, logging.INFO][how - 1]
        [subject.debug, subject.info][how - 1](*args, **kw)
    if at >= lv:
        ctx.check(len(cap.records) == 1, "a message that should be logged was not, or not once")
        for (l, m) in cap.records:
            ctx.check(l == at, "level of a message")
            for x in args:
                ctx.check(str(x) in m, "the text of a message is incomplete")
            if who == "agent":
                ctx.check(" ".join(map(str, args)) in m, "the text of an agent's message")
            for k, v in kw.items():
                ctx.check("%s=%s" % (k, v) in m, "the keyword arguments of a message are incomplete")
        ctx.cover("logged")
    else:
        ctx.check(not cap.records, "a message was logged although its level is disabled")
        ctx.cover("dropped")


def cases(tier):
    q = tier == "quick"
    out = []
    for kind in ("plain", "fsm", "events", "network"):
        ways = list(WAYS)
        out.append(case("observed-" + kind, observed, kwargs=dict(kind=kind, sched="ordered", steps=2 if q else 3, ways=ways, deep=not q, levels=2 if q and kind != "plain" else 3), covers=ways + ["run"],
                        bounds="2 agents, 2-3 steps, any delays and draws, 3 levels of logging, %d ways of looking, in or between steps" % len(ways)))
    out.append(case("observed-rich", observed, kwargs=dict(kind="rich", sched="ordered", steps=4, ways=list(WAYS), levels=2), covers=list(WAYS) + ["run"],
                    bounds="4 agents with states, positions and messages in a complete network, 4 steps, any draws, 2 levels of logging, %d ways of looking, in or between steps" % len(WAYS)))
    for s in ("timed", "pqueue-ordered"):
        out.append(case("observed-" + s, observed, kwargs=dict(kind="plain", sched=s, steps=2, ways=["select", "log", "frames"]), covers=["run"],
                        bounds="2 agents, 2 steps, any delays, draws and shuffles"))
    out.append(case("reported", observed, kwargs=dict(kind="plain", sched="ordered", steps=1 if q else 2, levels=1 if q else 2, ways=["nothing", "frames", "text", "export"], rets=[None, [1, 2], {"k": [1]}, "txt", float("nan"), (1,), float("inf"), True]),
                    covers=["run"], bounds="8 kinds of values reported by model and agents"))
    for who in ("agent", "environment"):
        out.append(case("messages-" + who, messages, kwargs=dict(who=who), covers=["logged", "dropped"], bounds="4 levels enabled, 4 levels used, 3 lists of arguments, 3 of keyword arguments"))
    return out
