"""C01 / C02: exact activation times and the simulation clock.

A population of agents, each of a fixed style (how it asks for its next
activation), with symbolic delays, symbolic start time and an arbitrary shuffle,
is run on the real schedulers for a bounded number of steps."""
from .common import *

STYLES = ("num", "delay", "at", "none", "gen", "gendelay", "async", "fsm", "fsmat", "fsmgen", "genret")


class Log:
    def __init__(self, ctx, env, limit):
        self.ctx, self.env, self.limit = ctx, env, limit
        self.events = []  # (agent index, time, delay requested)
        self.total = 0

    def activate(self, i, style, d=None):
        ctx = self.ctx
        now = self.env.now
        if d is None:
            d = self.delay(i, style)
        self.events.append((i, now, d))
        self.total += 1
        if self.total > self.limit + 8:
            ctx.check(False, "agents are activated without bound within the steps allowed")
            raise StopCase()
        return d

    def delay(self, i, style):
        if style in ("none", "fsmnone", "zero"):
            return None
        if style == "inf":
            return INF
        return self.ctx.real("d%d" % i, 0, lo_open=True)


def agent_class(style, log, i):
    from soil import agents, time as st

    B = agents.BaseAgent
    if style == "num":
        class A(B):
            def step(self):
                return log.activate(i, style)
    elif style == "zero":
        class A(B):
            def step(self):
                log.activate(i, style)
                return 0
    elif style == "inf":
        class A(B):
            def step(self):
                return log.activate(i, style)
    elif style == "delay":
        class A(B):
            def step(self):
                return self.delay(log.activate(i, style))
    elif style == "at":
        class A(B):
            def step(self):
                d = log.activate(i, style)
                return self.at(self.now + d)
    elif style == "none":
        class A(B):
            def step(self):
                log.activate(i, style)
    elif style == "gen":
        class A(B):
            def step(self):
                while True:
                    yield log.activate(i, style)
    elif style == "gendelay":
        class A(B):
            def step(self):
                while True:
                    yield self.delay(log.activate(i, style))
                    yield self.at(self.now + log.activate(i, style))
    elif style == "genret":
        class A(B):
            def step(self):
                yield log.activate(i, style)
                return log.activate(i, style)
    elif style == "async":
        class A(B):
            async def step(self):
                while True:
                    await self.delay(log.activate(i, style))
    elif style == "fsm":
        class A(agents.FSM):
            @agents.default_state
            @agents.state
            def one(self):
                return self.two.delay(log.activate(i, style))

            @agents.state
            def two(self):
                return "one", log.activate(i, style)
    elif style == "fsmat":
        class A(agents.FSM):
            @agents.default_state
            @agents.state
            def one(self):
                d = log.activate(i, style)
                return self.one.at(self.now + d)
    elif style == "fsmnone":
        class A(agents.FSM):
            @agents.default_state
            @agents.state
            def one(self):
                log.activate(i, style)
                return self.two

            @agents.state
            def two(self):
                log.activate(i, style)
                return "one"
    elif style == "fsmgen":
        class A(agents.FSM):
            @agents.default_state
            @agents.state
            def one(self):
                yield log.activate(i, style)
                return self.two.delay(log.activate(i, style))

            @agents.state
            async def two(self):
                await self.delay(log.activate(i, style))
                return self.one, log.activate(i, style)
    else:
        raise ValueError(style)
    return A


def population(ctx, sched, styles, steps, rng="any", interval=False, T0=True, which="both"):
    import soil
    from soil import environment

    base = environment.BaseEnvironment
    if interval:
        di = ctx.real("interval", 0, lo_open=True)

        class WithInterval(environment.BaseEnvironment):
            default_interval = di

        base = WithInterval
    else:
        di = 1
    t0 = ctx.real("T0") if T0 else 0
    env = make_env(ctx, sched, base=base, rng=rng, T0=t0 if T0 else None)
    log = Log(ctx, env, steps * len(styles))
    for i, s in enumerate(styles):
        env.add_agent(agent_class(s, log, i))
    nxt = {i: t0 for i in range(len(styles))}
    agents_check = which in ("both", "agents")
    clock_check = which in ("both", "clock")
    nsteps0 = env.schedule.steps
    for k in range(steps):
        before = len(log.events)
        t = env.now
        env.step()
        new = log.events[before:]
        after = env.now
        count = {i: 0 for i in nxt}
        for (i, when, d) in new:
            count[i] += 1
            if agents_check:
                ctx.check(when == nxt[i], "agent activated at another time than it asked for")
            if clock_check:
                ctx.check(when == t, "time seen inside a step differs from the step's time")
        for i in nxt:
            if agents_check:
                ctx.check(count[i] <= 1, "agent activated twice at the same instant")
                ctx.check(iff(count[i] == 1, nxt[i] == t),
                          "agent due at this instant not activated (or activated early)")
        for (i, when, d) in new:
            nxt[i] = INF if d is INF else when + (di if d is None else d)
        pend = [v for v in nxt.values() if v is not INF]
        if clock_check:
            ctx.check(after >= t, "clock went backwards")
            if pend:
                ctx.check(after == Min(pend), "clock is not at the earliest pending activation")
            ctx.check(env.schedule.steps == nsteps0 + k + 1, "step counter")
        ctx.observe("step", t, after, [i for (i, _, _) in new])
        if len(new) > 1:
            ctx.cover("simultaneous")
        if not pend:
            if clock_check:
                ctx.check(after == INF, "clock finite although nothing is pending")
            ctx.cover("nothing-left")
            break
    if any(sum(1 for e in log.events if e[0] == i) > 1 for i in nxt):
        ctx.cover("reactivated")


def wide(ctx, sched, n, steps, which, rng="plain"):
    """many agents: delays that are different multiples of an arbitrary unit"""
    from soil import agents

    t0 = ctx.real("T0")
    u = ctx.real("unit", 0, lo_open=True)
    env = make_env(ctx, sched, rng=rng, T0=t0)
    events = []

    class A(agents.BaseAgent):
        k = 1

        def step(self):
            events.append((self.unique_id, self.now))
            return self.k * u

    class G(agents.BaseAgent):
        k = 1

        def step(self):
            while True:
                events.append((self.unique_id, self.now))
                yield self.delay(self.k * u)

    ks = [(i * 7) % n + 2 for i in range(n)]
    ids = [env.add_agent(G if i % 3 == 2 else A, k=k).unique_id for i, k in enumerate(ks)]
    nxt = {a: 0 for a in ids}  # in units after T0
    for s in range(steps):
        m = min(nxt.values())
        due = {a for a in ids if nxt[a] == m}
        del events[:]
        env.step()
        for a in due:
            nxt[a] += ks[ids.index(a)]
        if which == "agents":
            ctx.check(sorted(a for a, _ in events) == sorted(due), "the agents activated are not those due")
            for a, t in events:
                ctx.check(t == t0 + m * u, "agent activated at another time than it asked for")
        else:
            ctx.check(And([t == t0 + m * u for a, t in events]), "time seen inside a step differs from the step's time")
            ctx.check(env.now == t0 + min(nxt.values()) * u, "clock is not at the earliest pending activation")
            ctx.check(env.schedule.steps == s + 1, "step counter")
            ctx.check(env.running, "the model stopped although agents are pending")
        ctx.observe("step", m, sorted(due))
    ctx.cover("many")


def crowd(ctx, sched, n, steps, births=(), deaths=(), rng="plain", network=False, start=()):
    """Many agents whose delays are multiples of an arbitrary unit, some of which are
    born (births: (parent, activation, multiple, start)) or killed (deaths: (killer,
    activation, victim)) on the way.  start: multiples at which some agents start."""
    import networkx as nx
    from soil import agents, environment

    t0 = ctx.real("T0")
    u = ctx.real("unit", 0, lo_open=True)
    kw = dict(base=environment.Environment, topology=nx.complete_graph(n)) if network else {}
    env = make_env(ctx, sched, rng=rng, T0=t0, **kw)
    log = []      # (what, agent) in order, of this step
    acted, ks, obj, nxt = {}, {}, {}, {}
    now = [0]     # current time, in units after T0

    class A(agents.NetworkAgent if network else agents.BaseAgent):
        def step(self):
            me = self.key
            log.append(("act", me, self.now))
            acted[me] = acted.get(me, 0) + 1
            for (parent, at, k, start) in births:
                if (parent, at) == (me, acted[me]):
                    new = max(obj) + 1
                    spawn(new, k, None if start is None else now[0] + start)
                    log.append(("born", new, None))
            back = self.k * u
            for (killer, at, victim) in deaths:
                if (killer, at) == (me, acted[me]) and victim in obj:
                    r = obj[victim].die()
                    log.append(("die", victim, None))
            return back

    def spawn(key, k, when=None):
        ks[key] = k
        nxt[key] = now[0] if when is None else when
        if when is None:
            obj[key] = env.add_agent(A, key=key, k=k)
        else:
            obj[key] = A(unique_id=env.next_id(), model=env, key=key, k=k)
            env.schedule.add(obj[key], when=t0 + when * u)

    start = dict(start)
    for i in range(n):
        spawn(i, (i * 7) % n + 2, start.get(i))
    dead = set()
    for s in range(steps):
        m = now[0]
        due = {a for a in nxt if nxt[a] == m and a not in dead}
        del log[:]
        before = env.schedule.steps
        env.step()
        acts, died = [], set()
        for what, a, t in log:
            if what == "act":
                ctx.check(a not in dead and a not in died, "an agent was activated after it died")
                ctx.check(nxt.get(a) == m and t == t0 + m * u, "agent activated at another time than it asked for")
                ctx.check(a not in acts, "agent activated twice at the same instant")
                acts.append(a)
            elif what == "die":
                died.add(a)
        for a in due:
            ctx.check(a in acts or a in died, "an agent due at this instant was not activated")
        for a in acts:
            nxt[a] = m + ks[a]
        dead |= died
        alive = [a for a in nxt if a not in dead]
        if due:
            ctx.check(env.schedule.steps == before + 1, "step counter")
        if not alive:
            ctx.check(env.now == INF and not env.running, "the model goes on although nobody is left")
            ctx.cover("nobody left")
            break
        now[0] = min(nxt[a] for a in alive)
        ctx.check(env.now == t0 + now[0] * u, "clock is not at the earliest pending activation")
        ids = sorted(obj[a].unique_id for a in alive)
        ctx.check(len(set(ids)) == len(ids), "two agents share a unique id")
        ctx.check(sorted(a.unique_id for a in env.get_agents()) == ids, "the environment does not list exactly the agents alive")
        ctx.check(sorted(a.unique_id for a in env.schedule.agents) == ids, "the scheduler does not list exactly the agents alive")
        ctx.check(env.count_agents() == len(ids) and env.schedule.get_agent_count() == len(ids), "count of agents")
        for a in obj:
            ctx.check(bool(obj[a].alive) == (a not in dead), "alive flag")
        if network:
            nodes = {obj[a].node_id for a in alive}
            ctx.check(len(nodes) == len(alive) and nodes == set(env.G.nodes), "nodes of the network")
            ctx.check(all(env.G.nodes[obj[a].node_id]["agent"] is obj[a] for a in alive), "the node leads to its agent")
        ctx.observe("step", m, sorted(acts), sorted(died))
    if any(a >= n for a in acted):
        ctx.cover("new agents activated")
    if dead:
        ctx.cover("died")


def pending(ctx, sched, n, start, kind="delay"):
    """many instants are pending, and agents with arbitrary delays (or start times) fall among them"""
    from soil import agents

    env = make_env(ctx, sched, rng="plain")
    acts = []

    class A(agents.BaseAgent):
        d = 1

        def step(self):
            acts.append((self.key, self.now))
            return self.d if sum(1 for k, _ in acts if k == self.key) == 1 else INF

    due = {}

    def add(key, d):
        if kind == "delay":
            env.add_agent(A, key=key, d=d)
            due[key] = [0, d]
        else:
            env.schedule.add(A(unique_id=env.next_id(), model=env, key=key, d=INF), when=d)
            due[key] = [d]

    # probes: anywhere from some instant on
    p = ctx.real("p", start, lo_open=True)
    ctx.assume(p < n + 2)
    for i in range(1, n + 1):
        add(i, i)
    add("p", p)
    add("q", ctx.choice("q", 3) * (n // 2) + 0.5)
    last = 0
    for _ in range(n + 6):
        if not env.running:
            break
        env.step()
        ctx.check(env.now >= last, "clock went backwards")
        last = env.now
    ctx.check(all(x[1] <= y[1] for x, y in zip(acts, acts[1:])), "agents are not activated in the order of their times")
    ctx.check(len(acts) == sum(map(len, due.values())), "number of activations")
    for k, ts in due.items():
        got = [t for key, t in acts if key == k]
        ctx.check(len(got) == len(ts) and And([a == b for a, b in zip(got, ts)]), "an agent was activated at another time than it asked for")
    ctx.cover("many")


def pendings(tier, kind):
    q = tier == "quick"
    out = []
    for s in ("timed", "pqueue"):
        for n, start in ((20, 0), (70, 55), (150, 145)) if q else ((40, 0), (150, 130), (600, 590), (600, 0.5)):
            out.append(case("pending-%s-%s-%d-%d" % (kind, s, n, start), pending, kwargs=dict(sched=s, n=n, start=start, kind=kind), covers=["many"], max_depth=200000, path_seconds=300.0,
                            bounds="%d agents due at different instants, one with any real %s from the instant %s on, another at one of three" % (n, kind, start)))
    return out


def crowds(tier, what, scheds=("timed", "ordered", "pqueue", "pqueue-ordered")):
    q = tier == "quick"
    n, k = (9, 24) if q else (17, 80)
    births = [(0, 1, 3, None), (0, 2, 1, 4), (1, 1, 2, None), (1, 1, 5, 0), (4, 2, 3, 1), (9, 2, 4, 2), (6, 1, 7, 11), (9, 3, 2, None), (5, 2, 2, 6)]
    deaths = [(2, 1, 7), (3, 1, 3), (1, 2, 5), (6, 2, 1), (0, 3, 4), (2, 3, 8), (2, 3, 6), (0, 4, 0)]
    out = []

    def add(name, covers, **kw):
        for s in scheds:
            out.append(case("crowd-%s-%s" % (name, s), crowd, kwargs=dict(sched=s, n=n, steps=k, **kw), covers=covers, max_depth=200000, path_seconds=300.0,
                            bounds="%d agents whose delays are fixed, different multiples of any unit, any start time, %s; %d steps, one shuffle" % (n, name, k)))

    if what in ("births", "both"):
        add("births", ["new agents activated"], births=births, start=[(2, 3), (5, 1), (7, 8)])
    if what in ("deaths", "both"):
        add("deaths", ["died"], deaths=deaths)
        add("extinction", ["died", "nobody left"], deaths=[(i, 2, i) for i in range(n)])
    if what == "both":
        add("mixed", ["died", "new agents activated"], births=births, deaths=deaths, start=[(8, 5)])
    if what == "network":
        add("network", ["died", "new agents activated"], births=[b for b in births if b[3] is None], deaths=deaths, network=True)
    return out


def make(tier, which):
    out = []
    for s in ("timed", "ordered", "pqueue", "pqueue-ordered"):
        n, k = (11, 30) if tier == "quick" else (23, 120)
        out.append(case("wide-%s-%d" % (s, n), wide, kwargs=dict(sched=s, n=n, steps=k, which=which), covers=["many"], max_depth=100000, path_seconds=300.0,
                        bounds="%d agents whose delays are fixed, different multiples of any unit, %d steps, one shuffle, any start time" % (n, k)))

    def add(sched, styles, steps, **kw):
        covers = kw.pop("covers", ["reactivated"] if "inf" not in styles else [])
        name = "%s-%s-%d%s%s" % (sched, "+".join(styles), steps,
                                 "-interval" if kw.get("interval") else "", "" if kw.get("T0", True) else "-zero")
        out.append(case(
            name, population, kwargs=dict(sched=sched, styles=list(styles), steps=steps, which=which, **kw),
            bounds="%d agents (%s), %d steps, delays any real > 0, start time any real >= 0, every shuffle" % (
                len(styles), ", ".join(styles), steps),
            covers=covers))

    q = tier == "quick"
    scheds = ("timed", "ordered", "pqueue", "pqueue-ordered")
    for s in scheds:
        # the shuffle / the tie-breaking draw multiplies the paths: fewer steps there
        rnd = s in ("timed", "pqueue")
        two = (3 if rnd else 4) if q else (5 if rnd else 6)
        add(s, ("num", "num"), two)
        if s != "pqueue":
            add(s, ("num", "none", "at"), (2 if rnd else 3) if q else 3, covers=["simultaneous"])
        elif not q:
            add(s, ("num", "none", "at"), 2, covers=["simultaneous"])
        add(s, ("delay", "fsm"), two)
        add(s, ("gen", "async"), two)
        add(s, ("gendelay", "fsmat"), two)
        add(s, ("fsmgen", "genret"), two)
        add(s, ("none", "zero"), 3 if rnd else 4, interval=True)
        add(s, ("fsmnone", "num"), two, interval=True)
        add(s, ("inf", "num", "none"), (2 if rnd else 3) if q else 3, covers=[])
        add(s, ("inf", "inf"), 2, covers=["nothing-left"])
    add("shuffled", ("num", "num"), 3 if q else 5)
    add("timed", ("num",), 6 if q else 10)
    add("timed", ("num", "num"), 3 if q else 6, T0=False)
    add("timed", ("num", "num", "num"), 3 if q else 4, rng="fixed")
    if not q:
        add("timed", ("num", "num", "delay"), 3)
        add("ordered", ("num", "num", "num", "num"), 3)
        add("pqueue-ordered", ("num", "num", "num", "gen"), 3)
    out += whole(out, "ordered-num+num-", "ordered-delay+fsm", "ordered-gen+async", "ordered-gendelay+fsmat", "ordered-fsmgen+genret", "shuffled-num+num", "ordered-fsmnone+num")
    return out
