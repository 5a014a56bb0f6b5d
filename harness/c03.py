"""C03: agents added before, between or during steps, with or without a start time."""
from . import timed
from .common import *


def adding(ctx, sched, where, how, steps=3, spawn_style="num", rng="any", chain=False):
    import soil
    from soil import agents

    t0 = ctx.real("T0")
    env = make_env(ctx, sched, rng=rng, T0=t0)
    acts = {}  # key -> list of (time, delay)
    first = {}  # key -> expected first activation
    made = []
    count = [0]

    def note(key):
        count[0] += 1
        if count[0] > 4 * (steps + 2) * (len(first) + 1):
            ctx.check(False, "agents are activated without bound")
            raise StopCase()
        d = ctx.real("d_" + key, 0, lo_open=True)
        acts[key].append((env.now, d))
        return d

    def cls_for(key, hook=None, style="num"):
        acts[key] = []

        if style == "gen":
            class A(agents.BaseAgent):
                def step(self):
                    while True:
                        d = note(key)
                        if hook:
                            hook(len(acts[key]))
                        yield d
        elif style == "fsm":
            class A(agents.FSM):
                @agents.default_state
                @agents.state
                def only(self):
                    d = note(key)
                    if hook:
                        hook(len(acts[key]))
                    return self.only.delay(d)
        else:
            class A(agents.BaseAgent):
                def step(self):
                    d = note(key)
                    if hook:
                        hook(len(acts[key]))
                    return d
        return A

    def spawn(key, how):
        hook = None
        if chain and key == "n0":
            def hook(n):
                if n == 1:
                    spawn("n1", "now")
        if how == "now":
            first[key] = env.now
            made.append(env.add_agent(cls_for(key, hook, spawn_style)))
        elif how == "when":
            w = ctx.real("when_" + key, 0)
            ctx.assume(w >= env.now)
            first[key] = w
            a = cls_for(key, hook, spawn_style)(unique_id=env.next_id(), model=env)
            env.schedule.add(a, when=w)
            made.append(a)
        elif how == "many":
            cls = []
            for j in range(2):
                first[key + str(j)] = env.now
            shared = iter((key + "0", key + "1"))
            acts[key + "0"], acts[key + "1"] = [], []

            class B(agents.BaseAgent):
                def init(self):
                    self.key = next(shared)
                    made.append(self)

                def step(self):
                    return note(self.key)

            env.add_agents([B], k=2)
        ctx.cover("added")

    def hookA(n):
        if where == "during%d" % n:
            spawn("n0", how)

    n0 = 1
    if where == "later":
        spawn("n9", "when")
    else:
        first["a"] = env.now
        made.append(env.add_agent(cls_for("a", hookA)))
    if where != "alone" and where != "later":
        first["b"] = env.now
        made.append(env.add_agent(cls_for("b", None)))
    if where in ("before", "later"):
        spawn("n0", how)
    for k in range(steps):
        if where == "between%d" % k:
            spawn("n0", how)
        t = env.now
        env.step()
        ctx.check(env.now >= t, "clock went backwards")
    # nothing may be skipped: run on until the clock has passed the last instant seen
    for key in acts:
        exp = first[key]
        for (t, d) in acts[key]:
            ctx.check(t == exp, "agent activated at another time than its start time plus its delays")
            exp = t + d
        ctx.check(exp >= env.now, "an agent's due activation was skipped")
        if len(acts[key]) > 1 and key.startswith("n"):
            ctx.cover("new agent reactivated")
        if acts[key] and key.startswith("n"):
            ctx.cover("new agent activated")
    ctx.check(env.schedule.get_agent_count() == len(made), "agent count differs from the number of agents added")
    ids = [a.unique_id for a in made]
    ctx.check(len(set(ids)) == len(ids), "two agents share a unique id")
    got = [a.unique_id for a in env.get_agents()]
    ctx.check(sorted(got) == sorted(ids), "the environment does not list exactly the agents added")
    ctx.check(sorted(a.unique_id for a in env.schedule.agents) == sorted(ids), "the scheduler does not list exactly the agents added")
    ctx.observe("acts", {k: [t for (t, _) in v] for k, v in acts.items()})


def cases(tier):
    q = tier == "quick"
    out = timed.pendings(tier, "start time")

    def add(sched, where, how, steps, **kw):
        out.append(case(
            "%s-%s-%s-%d%s%s%s" % (sched, where, how, steps, "-" + kw["spawn_style"] if "spawn_style" in kw else "",
                               "-chain" if kw.get("chain") else "", "-" + kw["rng"] if "rng" in kw else ""), adding,
            kwargs=dict(sched=sched, where=where, how=how, steps=steps, **kw),
            bounds="2 agents + 1 or 2 added (%s, %s), %d steps, delays any real > 0, start time any real >= now, any shuffle" % (where, how, steps),
            covers=["added"] + (["new agent activated"] if not where.startswith("between2") else [])))

    for s in ("timed", "ordered", "pqueue", "pqueue-ordered"):
        rnd = s in ("timed", "pqueue")
        n = 2 if rnd else 3
        if not q:
            n += 1
        for how in ("now", "when"):
            add(s, "before", how, n if not rnd else 2)
            add(s, "during1", how, n)
            add(s, "between1", how, n)
            if not rnd:
                add(s, "during2", how, n)
        add(s, "later", "when", n)
        if s != "pqueue":
            add(s, "during1", "many", 2 if rnd or q else 3)
        if s != "pqueue" or not q:
            add(s, "between1", "many", 2, **({"rng": "fixed"} if s == "timed" and q else {}))
        add(s, "during1", "now", n, spawn_style="gen")
        add(s, "during1", "when", n, spawn_style="fsm")
        if not rnd:
            add(s, "during1", "now", n - 1 if q and s != "ordered" else n, chain=True)
            add(s, "during1", "when", n - 1 if q and s != "ordered" else n, chain=True)
    out += whole([c for c in out if not c["name"].endswith("chain")], "ordered-during1-now-3-gen", "ordered-between1-now")
    out += timed.crowds(tier, "births")
    return out
