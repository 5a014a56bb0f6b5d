"""C04: dead agents."""
from . import timed
from .common import *

KINDS = ("base", "gen", "fsm", "net", "agent", "event")


def death(ctx, sched, kind, manner, steps=3, rng="any", graph=False, others=1):
    """One victim of the given kind, and other agents with symbolic delays.
    manner: how it dies: 'self' (returns die()), 'selfnoret' (calls die(), returns a
    delay / None), 'raise' (dies, then raises DeadAgent), 'killed' (by another agent), 'outside' (between steps), 'twice'."""
    import networkx as nx
    import soil
    from soil import agents, environment

    t0 = ctx.real("T0")
    n = 1 + others
    network = kind in ("net", "agent")
    kw = {}
    if network:
        G = nx.Graph()
        G.add_nodes_from(range(n))
        for i in range(n):
            for j in range(i):
                G.add_edge(i, j)
        kw["topology"] = G
    env = make_env(ctx, sched, rng=rng, T0=t0, base=environment.Environment, **kw)
    acts = {}
    dead_at = {}
    obj = {}
    total = [0]

    def note(i):
        total[0] += 1
        if total[0] > 40:
            ctx.check(False, "agents are activated without bound")
            raise StopCase()
        ctx.check(i not in dead_at, "an agent was activated after it died")
        d = ctx.real("d%d" % i, 0, lo_open=True)
        acts[i].append((env.now, d))
        return d

    def kill(v):
        """with a reason, or removing the node explicitly, in some cases"""
        if not asked[0]:
            return v.die()
        return v.die(remove=True) if network else v.die("a reason")

    asked = [False]
    die_on = ctx.choice("die_on", 2) + 1  # which activation triggers the death

    def mark(i):
        if i not in dead_at:
            dead_at[i] = env.now
            ctx.cover("died")

    def victim_body(self):
        d = note(0)
        if manner in ("self", "selfnoret", "twice", "raise") and len(acts[0]) == die_on:
            mark(0)
            r = kill(self)
            if manner == "raise":
                raise soil.time.DeadAgent(self.unique_id)
            if manner == "twice":
                self.die()
            if manner in ("self",):
                return ("die", r)
            return ("delay", d)
        return ("delay", d)

    if kind == "gen":
        class V(agents.BaseAgent):
            def step(self):
                while True:
                    yield victim_body(self)[1]
    elif kind == "fsm":
        class V(agents.FSM):
            @agents.default_state
            @agents.state
            def only(self):
                k, r = victim_body(self)
                return r if k == "die" else self.only.delay(r)
    elif kind == "agent":
        class V(agents.Agent):
            @agents.default_state
            @agents.state
            def only(self):
                k, r = victim_body(self)
                return r if k == "die" else self.only.delay(r)
    elif kind == "net":
        class V(agents.NetworkAgent):
            def step(self):
                return victim_body(self)[1]
    elif kind == "event":
        class V(agents.EventedAgent):
            def step(self):
                return victim_body(self)[1]
    else:
        class V(agents.BaseAgent):
            def step(self):
                return victim_body(self)[1]

    def other_body(self, i):
        d = note(i)
        if manner in ("killed", "killedtwice") and i == 1 and len(acts[1]) == die_on:
            kill(obj[0])
            mark(0)
            if manner == "killedtwice":
                obj[0].die()
        return d

    Base = agents.NetworkAgent if network else agents.BaseAgent

    class O(Base):
        def step(self):
            return other_body(self, self.idx)

    acts[0] = []
    opts = dict(node_id=0) if network else {}
    first = ctx.flag("victim_first") if others else True
    asked[0] = (die_on == 1) == first
    if first:
        obj[0] = env.add_agent(V, **opts)
    for i in range(1, n):
        acts[i] = []
        obj[i] = env.add_agent(O, idx=i, **(dict(node_id=i) if network else {}))
    if not first:
        obj[0] = env.add_agent(V, **opts)

    def verify():
        alive = [obj[i] for i in range(n) if i not in dead_at]
        ids = sorted(a.unique_id for a in alive)
        ctx.check(sorted(a.unique_id for a in env.get_agents()) == ids, "dead agents are still listed (or live ones missing)")
        ctx.check(env.count_agents() == len(ids), "count of agents")
        ctx.check(env.schedule.get_agent_count() == len(ids), "scheduler's agent count")
        for i in range(n):
            ctx.check(bool(obj[i].alive) == (i not in dead_at), "alive flag")
        if alive:
            seen = sorted(a.unique_id for a in alive[0].get_agents())
            ctx.check(seen == ids, "an agent still sees dead agents (or misses live ones)")
        if network:
            want = set(range(n)) - set(dead_at)
            ctx.check(set(env.G.nodes) == want, "node of a dead agent not removed (or another node gone)")
            ctx.check(set(map(frozenset, env.G.edges)) == {frozenset((a, b)) for a in want for b in want if a != b},
                      "edges changed other than those of the dead agent")
            ctx.check(sorted(a.unique_id for a in env.network_agents) == ids, "network agents")
            for a in alive:
                ctx.check(sorted(x.unique_id for x in a.get_neighbors()) == sorted(x for x in ids if x != a.unique_id),
                          "a dead agent is still somebody's neighbour")

    kill_before = ctx.choice("kill_before_step", steps) if manner == "outside" else None
    for k in range(steps):
        if kill_before == k:
            if asked[0]:
                env.running = False
            kill(obj[0])
            mark(0)
        verify()
        t = env.now
        if t == INF:
            break
        env.step()
        ctx.check(env.now >= t, "clock went backwards")
    verify()
    for i in range(n):
        exp = t0
        for (t, d) in acts[i]:
            ctx.check(t == exp, "activation times of an agent disturbed by a death")
            exp = t + d
        if i not in dead_at:
            ctx.check(exp >= env.now, "a live agent's activation was skipped")
    if dead_at and others and acts[1]:
        ctx.cover("others go on")
    ctx.observe("acts", {k: [t for (t, _) in v] for k, v in acts.items()}, sorted(dead_at))


def removal(ctx, sched, kind, manner, steps, rng="any"):
    """an agent is taken out of the scheduler, by itself, by another or from outside"""
    import mesa
    from soil import agents

    t0 = ctx.real("T0")
    env = make_env(ctx, sched, rng=rng, T0=t0)
    acts = {0: [], 1: []}
    gone = []
    when = ctx.choice("when", 2) + 1

    def body(i):
        if sum(map(len, acts.values())) > 20:
            ctx.check(False, "agents are activated without bound")
            raise StopCase()
        if i == 0:
            ctx.check(not gone, "an agent was activated after it was removed")
        d = ctx.real("d%d" % i, 0, lo_open=True)
        acts[i].append((env.now, d))
        if not gone and manner == ("self", "other")[i] and len(acts[i]) == when:
            gone.append(env.now)
            env.schedule.remove(pop[0])
            ctx.cover("removed")
        return d

    Base = {"mesa": mesa.Agent, "soil": agents.BaseAgent}[kind]

    class A(Base):
        def step(self):
            return body(self.idx)

    pop = {}
    for i in ([0, 1] if ctx.flag("first") else [1, 0]):
        if kind == "mesa":
            pop[i] = A(env.next_id(), env)
            pop[i].idx = i
            env.schedule.add(pop[i])
        else:
            pop[i] = env.add_agent(A, idx=i)
    out_at = ctx.choice("before", steps) if manner == "outside" else None
    for k in range(steps):
        if k == out_at:
            env.schedule.remove(pop[0])
            gone.append(env.now)
            ctx.cover("removed")
        env.step()
        ids = [pop[i].unique_id for i in (0, 1) if i or not gone]
        ctx.check(sorted(a.unique_id for a in env.schedule.agents) == sorted(ids), "agents of the scheduler")
    for i in (0, 1):
        exp = t0
        for (t, d) in acts[i]:
            ctx.check(t == exp, "activation times of an agent disturbed by a removal")
            exp = t + d
        if i or not gone:
            ctx.check(exp >= env.now, "a live agent's activation was skipped")
    ctx.observe("acts", {k: [t for (t, _) in v] for k, v in acts.items()})


def stillborn(ctx, sched, kind, steps):
    """agents that die in their init, before they are added anywhere"""
    import networkx as nx
    from soil import agents, environment

    network = kind in ("net", "agent")
    G = nx.path_graph(4)
    env = make_env(ctx, sched, rng="fixed", T0=ctx.real("T0"), base=environment.Environment, topology=G)
    log, dead, want = [], [], []

    class Other(agents.NetworkAgent):
        def step(self):
            log.append(env.now)
            d = ctx.real("d", 0, lo_open=True)
            want.append(env.now + d)
            if born == 1 and len(log) == 1:
                create()
            return d

    def init(self):
        self.reached = True
        if ctx.flag("dies") if not dead else len(dead) < 2:
            dead.append(self)
            ret = self.die()
            ctx.check(ret is not None, "what die() returns")
            ctx.cover("died")

    def act(self):
        ctx.check(self not in dead, "an agent was activated after it died")
        ctx.cover("lived")
        return self.delay(INF)

    if kind in ("fsm", "agent"):
        @agents.default_state
        @agents.state
        def one(self):
            return act(self)

        V = type("V", (agents.FSM if kind == "fsm" else agents.Agent,), dict(init=init, one=one))
    else:
        V = type("V", ({"base": agents.BaseAgent, "net": agents.NetworkAgent, "event": agents.EventedAgent}[kind],), dict(init=init, step=act))
    made = []
    others = [env.add_agent(Other, node_id=1)]
    how = ctx.choice("how", 4 if network else 2)

    def create():
        before = list(env.G)
        if how == 0:
            made.append((env.add_agent(V), None))
        elif how == 1 and not network:
            env.add_agents([V], k=2)
            return
        elif how == 1:
            made.append((env.add_agent(V, node_id=2), 2))
        elif how == 2:
            made.append((env.add_node(V, node_id="new"), "new"))
        else:
            env.populate_network(V)
            made.extend((a, None) for a in dead)

    def look():
        alive = list(env.get_agents)
        ctx.check(all(a not in alive and not a.alive for a in dead), "a dead agent is still listed")
        ctx.check(env.count_agents() == len(alive) == len(others[0].get_agents()), "number of agents")
        ctx.check(all(any(x is o for x in alive) for o in others), "another agent is missing")
        ctx.check(all(any(x is a for x in alive) == a.alive for a, _ in made), "agents that live are listed")
        if network:
            ctx.check(len(env.G) == len({a.node_id for a in env.network_agents}) + sum(1 for _, d in env.G.nodes(data=True) if d.get("agent") is None), "nodes of the network")
            ctx.check(all(d.get("agent") is None or d["agent"] not in dead for _, d in env.G.nodes(data=True)), "the node of a dead agent remains")
            for a, node in made:
                if node is not None:
                    ctx.check((node in env.G) == a.alive, "node of an agent that died in its init")
                    ctx.check(not a.alive or env.agent_for_node_id(node) is a, "node of an agent")

    born = ctx.choice("born", 2)
    if born == 0:
        create()
        look()
    for _ in range(steps):
        n = len(want)
        env.step()
        look()
    for x, t in zip(log[1:], want):
        ctx.check(x == t, "another agent was activated at another time")


def cases(tier):
    q = tier == "quick"
    out = []
    for sched in ("timed", "ordered", "pqueue", "pqueue-ordered"):
        for kind in ("mesa", "soil"):
            for manner in ("self", "other", "outside"):
                out.append(case("removed-%s-%s-%s" % (sched, kind, manner), removal, kwargs=dict(sched=sched, kind=kind, manner=manner, steps=2 if q else 3),
                                bounds="2 agents, 2-3 steps, removal at the 1st or 2nd activation / before any step, delays any real > 0", covers=["removed"]))

    for sched in ("timed", "pqueue"):
        for kind in ("base", "net", "fsm", "agent", "event"):
            out.append(case("init-%s-%s" % (sched, kind), stillborn, kwargs=dict(sched=sched, kind=kind, steps=2 if q else 3),
                            bounds="1-3 agents created in 2-4 ways, before any step or by another agent, that die in their init or not; 2-3 steps, any delays", covers=["died", "lived"]))

    def add(sched, kind, manner, steps, others=1, rng="any", covers=("died",)):
        out.append(case(
            "%s-%s-%s-%d-%d" % (sched, kind, manner, steps, others), death,
            kwargs=dict(sched=sched, kind=kind, manner=manner, steps=steps, others=others, rng=rng),
            bounds="1 victim (%s, dies: %s) and %d others, %d steps, death at the 1st or 2nd activation / before any step, delays any real > 0, any shuffle, both insertion orders" % (kind, manner, others, steps),
            covers=list(covers)))

    for kind in KINDS:
        for manner in ("self", "selfnoret", "killed", "outside"):
            add("timed", kind, manner, 2 if q else 3)
    for kind in ("base", "agent"):
        add("timed", kind, "twice", 2 if q else 3)
        add("timed", kind, "killedtwice", 2 if q else 3)
        for manner in ("self", "killed", "outside"):
            add("ordered", kind, manner, 3 if q else 4)
            add("pqueue-ordered", kind, manner, 3 if q else 4)
            add("pqueue", kind, manner, 2 if q else 3)
    for kind in ("base", "gen", "fsm"):
        add("timed", kind, "raise", 2 if q else 3)
        add("pqueue", kind, "raise", 2 if q else 3)
        add("ordered", kind, "raise", 2 if q else 3, others=2)
    add("pqueue-ordered", "base", "raise", 2 if q else 3, others=2)
    add("pqueue", "gen", "killed", 2 if q else 3)
    add("pqueue", "fsm", "selfnoret", 2 if q else 3)
    add("ordered", "base", "killed", 2 if q else 3, others=2)
    for manner in ("self", "killed", "outside"):
        add("ordered", "net", manner, 2 if q else 3, others=2)
    add("ordered", "agent", "self", 2 if q else 3, others=3, rng="fixed")
    add("timed", "base", "self", 3 if q else 5, others=0)
    add("timed", "agent", "selfnoret", 3 if q else 5, others=0)
    out += timed.crowds(tier, "deaths")
    out += timed.crowds(tier, "both", ("timed", "pqueue"))[-2:]
    return out
