"""C21: fixed-interval stepping over a discrete-event scheduler."""
from .common import *


def lockstep(ctx, sched, n, steps, style="num", cap=2, rng="any", default_interval=False, unit=False, multiples=None, births=0):
    from soil import agents, time as st

    t0 = ctx.real("T0")
    env = make_env(ctx, sched, rng=rng, T0=t0)
    if unit:
        L = 1
    else:
        L = ctx.real("L", 0, lo_open=True)
    unit_ = L
    if multiples:  # a larger case: everything is a multiple of one unit of any length
        L = unit_ * multiples
    acts = []  # (lockstep, agent, expected time)
    nxt = {i: t0 for i in range(n)}
    dead = set()
    born = []
    cur = [0]

    def note(i):
        ctx.check(i not in dead, "an agent was activated although it asked not to be")
        ctx.check(env.now == nxt[i], "time seen by an agent")
        acts.append((cur[0], i, nxt[i]))
        if len(acts) > (cap + 1) * (n + births) * (steps + 1):
            ctx.check(False, "agents are activated without bound")
            raise StopCase()
        k = ctx.choice("ret", 3) if style == "mix" else 0
        if k == 2:
            dead.add(i)
            nxt[i] = None
            return INF
        if multiples:
            d = unit_ * (1 + (i * 3 + len(acts)) % (2 * multiples + 1))
        else:
            d = ctx.real("d", 0, lo_open=True)
            ctx.assume(d * cap >= L)
        nxt[i] = nxt[i] + d
        if births and not born and ctx.flag("birth"):
            born.append(1)
            for _ in range(births):
                j = len(nxt)
                nxt[j] = env.now
                env.add_agent(A, idx=j)
            ctx.cover("born")
        if k == 1:
            return "at", nxt[i]
        return d

    class A(agents.BaseAgent):
        idx = 0
        if style == "gen":
            def step(self):
                while True:
                    yield note(self.idx)
        else:
            def step(self):
                r = note(self.idx)
                if isinstance(r, tuple):
                    return self.at(r[1])
                return r

    for i in range(n):
        env.add_agent(A, idx=i)
    env.schedule = st.Lockstepper(env.schedule) if unit else st.Lockstepper(env.schedule, interval=L)
    ctx.check(env.now == t0 and env.schedule.steps == 0, "clock of a new lockstep scheduler")
    ctx.check(env.count_agents() == n, "agents of the scheduler")
    for k in range(steps):
        cur[0] = k
        lo, hi = t0 + L * k, t0 + L * (k + 1)
        before = len(acts)
        env.step()
        ctx.check(env.now == hi, "a step does not end one interval later")
        ctx.check(env.schedule.steps == k + 1, "number of steps")
        mine = acts[before:]
        for (_, i, t) in mine:
            ctx.check(And(t >= lo, t < hi), "an agent was activated in another interval than the one it asked for")
        for i in nxt:
            if nxt[i] is not None:
                ctx.check(nxt[i] >= hi, "an activation due within the interval was left out")
        for (_, i, t), (_, j, u) in zip(mine, mine[1:]):
            ctx.check(u >= t, "activations out of order")
        if len(mine) > n:
            ctx.cover("twice in a step")
        if not mine:
            ctx.cover("idle step")
    ctx.observe("acts", [(k, i) for (k, i, _) in acts], env.now)


def cases(tier):
    q = tier == "quick"
    out = []
    for s in ("timed", "ordered", "pqueue", "pqueue-ordered"):
        def add(name, covers=("twice in a step", "idle step"), **kw):
            out.append(case("%s-%s" % (s, name), lockstep, kwargs=dict(sched=s, **kw), covers=list(covers),
                            bounds="%d agents, %d intervals of any length, delays any real of at least 1/%d of it" % (kw["n"], kw["steps"], kw.get("cap", 2))))
        add("0", n=0, steps=2, covers=["idle step"])
        add("1", n=1, steps=3 if q else 4)
        add("1-mix", n=1, steps=3, style="mix")
        add("1-gen", n=1, steps=2 if q else 3, style="gen", covers=["twice in a step"])
        add("1-default", n=1, steps=2 if q else 3, unit=True)
        for n, k, m, st in ((11, 4, 3, "num"), (3, 12, 2, "gen"), (2, 14, 1, "num")) if q else ((23, 6, 3, "num"), (11, 12, 4, "gen"), (3, 30, 2, "gen"), (2, 30, 1, "num")):
            out.append(case("%s-wide-%d-%d" % (s, n, k), lockstep, kwargs=dict(sched=s, n=n, steps=k, style=st, cap=2 * m, rng="plain", multiples=m),
                            bounds="%d agents, %d intervals, delays and interval multiples of one unit of any length, one shuffle" % (n, k),
                            covers=["twice in a step"] if m > 1 else [], max_depth=4000))
        add("births", n=1, steps=3, births=2, cap=6, multiples=3, rng="fixed", covers=["born"])
        if s in ("ordered", "pqueue-ordered"):
            add("2", n=2, steps=2, covers=["twice in a step"])
        else:
            add("2", n=2, steps=1 if q else 2, covers=["twice in a step"])
    return out
