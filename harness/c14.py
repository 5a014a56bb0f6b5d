"""C14: data collection."""
from .common import *


def collected(ctx, sched, n, steps, births=False, deaths=False, rng="fixed", later=False, delays=(1, 2), where="init", kind="base"):
    """model_df()/agent_df() against snapshots taken at every collection"""
    from soil import agents, environment
    from soil.decorators import report

    snaps = []
    seen = {}

    class A(agents.BaseAgent):
        x = 0

        def step(self):
            self.x = ctx.real("x%d" % self.idx)
            if births and self.idx == 0 and ctx.flag("birth"):
                spawn(self.model, len(seen))
                ctx.cover("born")
            if deaths and (self.idx == 1 or deaths == "all") and ctx.flag("death"):
                ctx.cover("died")
                return self.die()
            self.model.level = self.model.level + self.x
            return delays[ctx.choice("delay", len(delays))]

    class B(A):
        pass

    def spawn(env, i):
        kw = {}
        a = env.add_agent(B if i % 2 else A, idx=i, y=10 * i)
        seen[i] = a
        return a

    class Env(environment.BaseEnvironment):
        level = 0

        def init(self):
            if where == "init":
                for i in range(n):
                    spawn(self, i)

        @report
        @property
        def doubled(self):
            return self.level + self.level

        @property
        def unreported(self):
            return 1

    env = make_env(ctx, sched, rng=rng, base=Env,
                   model_reporters={"level": "level", "plus": lambda m: m.level + 1},
                   agent_reporters={"x": "x", "half": lambda a: a.x - a.y})

    def snap():
        snaps.append(dict(
            time=env.now, level=env.level,
            agents={a.unique_id: (a.x, a.y, isinstance(a, B)) for a in env.get_agents()}))

    snap()
    if where != "init":
        for i in range(n):
            if later and i == 0:
                a = A(unique_id=env.next_id(), model=env, idx=i, y=10 * i)
                seen[i] = a
                env.schedule.add(a, when=5)
            else:
                spawn(env, i)
    for _ in range(steps):
        env.step()
        snap()
        if not env.running:
            ctx.cover("ended")
            break
    m = env.model_df()
    ms = env.model_df(steps=True)
    for df, label in ((m, "model_df()"), (ms, "model_df(steps=True)")):
        ctx.check(len(df) == len(snaps), "number of rows of " + label)
        for col in ("level", "plus", "doubled", "agent_count"):
            ctx.check(col in df.columns, "missing column in " + label)
        ctx.check("unreported" not in df.columns, "a column nobody asked for")
        if len(df) == len(snaps):
            for i, s in enumerate(snaps):
                row = df.iloc[i]
                ctx.check(row["level"] == s["level"], "value of an attribute reporter")
                ctx.check(row["plus"] == s["level"] + 1, "value of a function reporter")
                ctx.check(row["doubled"] == s["level"] + s["level"], "value of a @report property")
                ctx.check(row["agent_count"] == len(s["agents"]), "agent_count")
    if len(m) == len(snaps):
        ctx.check(list(m.index) == [s["time"] for s in snaps], "times of model_df()")
        ctx.check(m.index.name == "time", "index of model_df()")
        ctx.check(list(ms["time"]) == [s["time"] for s in snaps], "time column of model_df(steps=True)")
        ctx.check(list(m["step"]) == list(range(len(snaps))), "step column of model_df()")
    want = [(k, s["time"], uid, v) for k, s in enumerate(snaps) for uid, v in sorted(s["agents"].items())]
    for steps_ in (False, True):
        a = env.agent_df(steps=True) if steps_ else env.agent_df()
        label = "agent_df(steps=True)" if steps_ else "agent_df()"
        ctx.check(list(a.index.names) == ["step" if steps_ else "time", "agent_id"], "index of " + label)
        ctx.check(len(a) == len(want), "number of records in " + label)
        if len(a) != len(want):
            continue
        rows = list(zip(a.index, a["x"], a["half"]))
        # rows of one collection may come in any order of the agents
        got = {}
        for k, s in enumerate(snaps):
            chunk = rows[: len(s["agents"])]
            rows = rows[len(s["agents"]):]
            key = k if steps_ else s["time"]
            for (idx, x, half) in chunk:
                ctx.check(idx[0] == key, "time or step of an agent's record")
                ctx.check(idx[1] in s["agents"], "record of an agent that was not there")
                if idx[1] in s["agents"]:
                    (x0, y0, _) = s["agents"][idx[1]]
                    ctx.check(x == x0, "value of an agent's attribute")
                    ctx.check(half == x0 - y0, "value of an agent function")
            ctx.check(len({idx[1] for (idx, _, _) in chunk}) == len(chunk), "two records of one agent at one time")
    if len(snaps) > 2:
        ctx.cover("rows")
    if len({float(s["time"]) for s in snaps}) < len(snaps):
        ctx.cover("repeated time")
    ctx.observe("rows", [s["time"] for s in snaps], len(want))


def reporters(ctx, steps=2):
    """reporters added one by one, restricted to a type or not; the caller's dictionaries stay as they were"""
    from soil import agents, environment

    given_m, given_a = {"base": "x"}, {"ident": "unique_id"}
    keep_m, keep_a = dict(given_m), dict(given_a)
    x0 = ctx.real("x")

    class A(agents.BaseAgent):
        v = 0
        taken = 5

        def step(self):
            self.v = ctx.real("v")

    class B(A):
        pass

    class C(agents.BaseAgent):
        w = 3

        def step(self):
            pass

    form = ctx.choice("form", 5)
    restrict = ctx.choice("restrict", 5)
    typ = [None, A, B, C, (B, C)][restrict]
    mform = ctx.choice("mform", 4)

    class Env(environment.BaseEnvironment):
        x = x0
        taken = 7
        v = 99  # an attribute that some agents do not have

        def init(self):
            kw = {} if typ is None else dict(agent_type=typ)
            if form == 0:
                self.add_agent_reporter("v", **kw)
            elif form == 1:
                self.add_agent_reporter("v", "v", **kw)
            elif form == 2:
                self.add_agent_reporter("v", lambda a: getattr(a, "v", None), **kw)
            elif form == 4:
                self.add_agent_reporter("taken", "v", **kw)
            else:
                self.add_agent_reporter("other", lambda a: a.unique_id, **kw)
            if mform == 0:
                self.add_model_reporter("x")
            elif mform == 1:
                self.add_model_reporter("named", "x")
            elif mform == 2:
                self.add_model_reporter("named", lambda m: m.x)
            else:
                self.add_model_reporter("taken", "x")
            for c in (A, B, C):
                self.add_agent(c)

    env = make_env(ctx, "ordered", rng="fixed", base=Env, model_reporters=given_m, agent_reporters=given_a)
    snaps = [{a.unique_id: a for a in env.get_agents()}]
    vals = [{a.unique_id: getattr(a, "v", None) for a in env.get_agents()}]
    for _ in range(steps):
        env.step()
        vals.append({a.unique_id: getattr(a, "v", None) for a in env.get_agents()})
    df = env.agent_df(steps=True)
    col = {3: "other", 4: "taken"}.get(form, "v")
    ctx.check(col in df.columns and "ident" in df.columns, "missing agent reporter")
    ctx.check(len(df) == 3 * (steps + 1), "number of agent records")
    import pandas as pd
    for (step, uid), val, ident in zip(df.index, df[col], df["ident"]):
        a = snaps[0][uid]
        ctx.check(ident == uid, "reporter given to the environment")
        if typ is not None and not isinstance(a, typ):
            want = None
            ctx.cover("excluded")
        elif form == 3:
            want = uid
        else:
            want = vals[step][uid]
        if want is None:
            ctx.check(val is None or val != val, "a restricted reporter reported another type of agent")
        else:
            ctx.check(val is not None, "value missing")
            if val is not None:
                ctx.check(val == want, "value of an agent reporter")
    m = env.model_df(steps=True)
    name = {0: "x", 3: "taken"}.get(mform, "named")
    ctx.check(name in m.columns and "base" in m.columns, "missing model reporter")
    for i in range(len(m)):
        ctx.check(m[name].iloc[i] == x0, "value of a model reporter")
        ctx.check(m["base"].iloc[i] == x0, "value of a model reporter given to the environment")
    ctx.check(given_m == keep_m and given_a == keep_a, "the dictionaries of reporters given were modified")


def cases(tier):
    q = tier == "quick"
    out = []

    def add(name, covers=("rows",), **kw):
        out.append(case(name, collected, kwargs=kw, covers=list(covers),
                        bounds="%d agents, %d steps, arbitrary values of every attribute, delays 1 or 2" % (kw["n"], kw["steps"])))

    for s in ("timed", "ordered", "pqueue-ordered"):
        add("plain-" + s, sched=s, n=2, steps=3 if q else 4)
        add("births-" + s, sched=s, n=1, steps=3 if q else 4, births=True, covers=["rows", "born"] + ([] if s.startswith("pq") else ["repeated time"]))
        add("deaths-" + s, sched=s, n=2, steps=3, deaths=True, covers=["rows", "died"])
        add("ending-" + s, sched=s, n=2, steps=3, deaths="all", delays=(1, INF), covers=["rows", "died", "ended"])
        add("outside-" + s, sched=s, n=1, steps=3, where="outside")
        add("later-" + s, sched=s, n=2, steps=3 if q else 4, where="outside", later=True)
        add("only-later-" + s, sched=s, n=1, steps=3, where="outside", later=True)
    add("shuffled", sched="timed", n=2, steps=2 if q else 3, rng="any", covers=[] if q else ["rows"])
    add("both-timed", sched="timed", n=2, steps=2 if q else 3, births=True, deaths=True, covers=["born", "died"])
    for s in ("timed", "pqueue-ordered"):
        add("long-" + s, sched=s, n=2, steps=12 if q else 25, delays=(1,))
        add("wide-" + s, sched=s, n=12, steps=3 if q else 4, delays=(1,), births=True, deaths=True, covers=["rows", "born", "died"])
    out.append(case("reporters", reporters, bounds="every form of reporter and restriction, arbitrary values", covers=["excluded"]))
    return out
