"""C22: the bundled models behave as their settings say."""
from .common import *

SISA = ("neutral_discontent_spon_prob", "neutral_discontent_infected_prob", "neutral_content_spon_prob",
        "neutral_content_infected_prob", "discontent_neutral", "discontent_content", "content_discontent", "content_neutral")
VAR = {"discontent_content": "variance_d_c", "content_discontent": "variance_c_d"}


class Normal:
    """Stand-in for numpy's generator: normal() gives the mean when the deviation is
    zero, any value otherwise."""

    def __init__(self, ctx, calls):
        self.ctx, self.calls = ctx, calls

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is not None:
            return [self.normal(loc, scale) for _ in range(size)]
        if isinstance(loc, (list, tuple)):
            return [self.normal(m, s) for m, s in zip(loc, scale if isinstance(scale, (list, tuple)) else [scale] * len(loc))]
        if not is_sym(scale) and scale == 0:
            v = loc
        else:
            v = self.ctx.real("normal", -1, 2)
        self.calls.append((loc, scale, v))
        return v


def numpy_rng(ctx):
    import numpy
    from soil.agents import SISaModel as mod

    calls = []
    real = numpy.random.default_rng

    def stub(*a, **k):
        return Normal(ctx, calls)

    numpy.random.default_rng = stub
    ctx.cleanup.append(lambda: setattr(numpy.random, "default_rng", real))
    import sys
    m = sys.modules.get("soil.agents.SISaModel")
    for k, v in list(vars(m).items()) if m else []:
        if v is real:
            setattr(m, k, stub)
            ctx.cleanup.append(lambda k=k: setattr(m, k, real))
    return calls


def star(ctx, env_kw, k, edges=True):
    """a centre and k other nodes, adjacent to it or not"""
    import networkx as nx
    from soil import environment

    G = nx.Graph()
    G.add_nodes_from(range(k + 1))
    adj = []
    for i in range(1, k + 1):
        adj.append(ctx.flag("edge%d" % i) if edges else True)
        if adj[-1]:
            G.add_edge(0, i)
        elif i > 1:
            G.add_edge(i - 1, i)
    env = make_env(ctx, "timed", rng="any", base=environment.Environment, topology=G, **env_kw)
    return env, adj


def not_drawn(qs, draws):
    """each transition has a draw of its own that rules it out, or is impossible"""
    import itertools

    if len(draws) < len(qs):
        draws = list(draws) + [None] * (len(qs) - len(draws))
    return Or([And([Or(q <= 0, False if r is None else r >= q) for q, r in zip(qs, perm)])
               for perm in itertools.permutations(draws, len(qs))])


def sisa(ctx, start, k, variance, drive, many=False):
    from soil.agents import SISaModel
    calls = numpy_rng(ctx)
    p = {}
    for i, s in enumerate(SISA):
        p[s] = 0.01 * (i + 1) if variance else ctx.real(s, 0, 1)
    p["standard_variance"] = 0.5 if variance else 0
    p["variance_d_c"] = 0.25 if variance else 0
    p["variance_c_d"] = 0.125 if variance else 0
    env, adj = star(ctx, p, k, edges=not many)
    cls = SISaModel if isinstance(SISaModel, type) else SISaModel.SISaModel
    a = env.add_agent(cls, node_id=0, **({} if start == "neutral" and ctx.flag("implicit") else dict(state_id=start)))
    ctx.check(a.state_id == start, "initial state")
    mine = list(calls)
    n = {"neutral": 0, "content": 0, "discontent": 0}
    others = []

    class Still(cls):  # only the centre acts
        def step(self):
            return INF

    # many: all of them adjacent, the first ones in one state and the rest in another
    if many:
        split, first = ctx.choice("split", k + 1), ctx.choice("first", 3)
        second = ctx.choice("second", 3)
    for i in range(1, k + 1):
        which = (first if i <= split else second) if many else ctx.choice("state", 3)
        st = ["neutral", "content", "discontent"][which]
        o = env.add_agent(Still, node_id=i, state_id=st)
        others.append((o, st))
        if adj[i - 1]:
            n[st] += 1
            if n[st] > 1:
                ctx.cover("several")
    if variance:
        eff = {}
        for s in SISA:
            eff[s] = getattr(a, s)
            want = p[VAR.get(s, "standard_variance")]
            hit = [(m, d) for (m, d, v) in mine if v is eff[s]]
            if hit:
                ctx.check(hit[0] == (p[s], want), "mean and deviation of a setting")
    else:
        eff = {s: p[s] for s in SISA}
    trans = {
        "neutral": [("discontent", eff["neutral_discontent_spon_prob"]), ("content", eff["neutral_content_spon_prob"]),
                    ("discontent", n["discontent"] * eff["neutral_discontent_infected_prob"]),
                    ("content", n["content"] * eff["neutral_content_infected_prob"])],
        "discontent": [("neutral", eff["discontent_neutral"]), ("content", n["content"] * eff["discontent_content"])],
        "content": [("neutral", eff["content_neutral"]), ("discontent", n["discontent"] * eff["content_discontent"])],
    }[start]
    before = len(env.random.draws)
    if drive == "step":
        a.step()
    else:
        env.step()
        ctx.check(env.now == 1, "an agent acts once per unit of time")
    draws = [v for (w, v) in env.random.draws[before:] if w == "random"]
    new = a.state_id
    for (o, st) in others:
        ctx.check(o.state_id == st, "an agent changed the state of another")
    ps = {}
    for to, q in trans:
        ps.setdefault(to, []).append(q)
    if new == start:
        ctx.cover("stays")
        for to, q in trans:
            ctx.check(q < 1, "a certain transition did not happen")
        ctx.check(not_drawn([q for to, q in trans], draws), "an agent stays although a transition was drawn")
    else:
        ctx.cover("to " + new)
        ctx.check(new in ps, "a transition that does not exist")
        ctx.check(Or([q > 0 for q in ps.get(new, [])] or [False]), "an impossible transition happened")
        ctx.check(Or([r < q for q in ps.get(new, []) for r in draws] or [False]), "a transition that was not drawn")
    ctx.observe(new, len(draws))


def bass(ctx, start, k, how, many=False):
    from soil import agents
    from soil.agents import BassModel

    cls = BassModel if isinstance(BassModel, type) else BassModel.BassModel
    pi, pm = ctx.real("innovation_prob", 0, 1), ctx.real("imitation_prob", 0, 1)
    env, adj = star(ctx, {}, k, edges=not many)
    kw = dict(innovation_prob=pi, imitation_prob=pm)
    if how == "class":
        class Mine(cls):
            innovation_prob = pi
            imitation_prob = pm
        cls, kw = Mine, {}
    a = env.add_agent(cls, node_id=0, **kw, **(dict(state_id="aware") if start == "aware" else {}))
    naware = 0
    others = []
    split = ctx.choice("split", k + 1) if many else None
    for i in range(1, k + 1):
        st = ["innovation", "aware"][i <= split if many else ctx.choice("state", 2)]
        others.append((env.add_agent(cls, node_id=i, state_id=st, **kw), st))
        naware += st == "aware" and adj[i - 1]
    before = len(env.random.draws)
    a.step()
    draws = [v for (w, v) in env.random.draws[before:] if w == "random"]
    for (o, st) in others:
        ctx.check(o.state_id == st, "an agent changed the state of another")
    if start == "aware":
        ctx.check(a.state_id == "aware", "an agent is not aware any more")
        ctx.cover("aware")
        return
    qs = [pi, pm * naware]
    if a.state_id == "aware":
        ctx.check(Or([q > 0 for q in qs]), "an agent that cannot be aware is aware")
        ctx.check(Or([r < q for q in qs for r in draws] or [False]), "an agent is aware although it was not drawn")
        ctx.check(a.sentimentCorrelation == 1, "sentimentCorrelation of an aware agent")
        ctx.cover("aware")
    else:
        ctx.check(a.state_id == "innovation", "state")
        for q in qs:
            ctx.check(q < 1, "a certain transition did not happen")
        ctx.check(not_drawn(qs, draws), "an agent is not aware although it was drawn")
        ctx.check(a.sentimentCorrelation == 0, "sentimentCorrelation of an agent that is not aware")
        ctx.cover("not aware")


def bass_run(ctx, n, steps, sched):
    """whole runs: who is aware stays so, and acts no more"""
    from soil import environment
    from soil.agents import BassModel
    import networkx as nx

    cls = BassModel if isinstance(BassModel, type) else BassModel.BassModel
    pi, pm = ctx.real("innovation_prob", 0, 1), ctx.real("imitation_prob", 0, 1)
    G = nx.path_graph(n)
    env = make_env(ctx, sched, rng="any", base=environment.Environment, topology=G)
    pop = [env.add_agent(cls, node_id=i, innovation_prob=pi, imitation_prob=pm) for i in range(n)]
    aware = set()
    t = 0
    while env.running and t < steps:
        env.step()
        t += 1
        now = {a.unique_id for a in pop if a.state_id == "aware"}
        ctx.check(aware <= now, "an agent is not aware any more")
        if now - aware:
            ctx.check(Or(pi > 0, And(pm > 0, bool(aware))), "agents became aware by themselves")
            ctx.cover("spread")
        if len(now) < n:
            ctx.check(env.running and env.now == t, "agents that are not aware act at every unit of time")
            ctx.check(pi < 1, "an agent that was to be aware is not")
        aware = now
        ctx.check(env.count_agents() == n and env.count_agents(state_id="aware") == len(aware), "agents counted")
        for a in pop:
            ctx.check(a.sentimentCorrelation == (1 if a.state_id == "aware" else 0), "sentimentCorrelation")


def counters(ctx, n, steps, which):
    """counting agents report the network as it is"""
    import networkx as nx
    from soil import environment, agents

    G = nx.Graph()
    G.add_nodes_from(range(n))
    deg = [0] * n
    for i in range(n):
        for j in range(i):
            if ctx.flag("edge"):
                G.add_edge(i, j)
                deg[i] += 1
                deg[j] += 1
    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment, topology=G)
    cls = getattr(agents, which)
    pop = [env.add_agent(cls, node_id=i) for i in range(n)]
    extra = ctx.choice("extra", 2)
    for _ in range(extra):
        env.add_agent(agents.Ticker)
    tot = [[0, 0] for _ in range(n)]
    for a in pop:
        ctx.check(And(a.times == 0, a.neighbors == 0, a.total == 0), "counts before the first activation")
    born = 0
    nadj = dict((i, {j for j in G.adj[i]}) for i in range(n))
    for s in range(steps):
        env.step()
        total = n + extra + born
        for i, a in enumerate(pop):
            ctx.check(a.times == s + 1, "times")
            if which == "CounterModel":
                ctx.check(And(a.neighbors == len(nadj[i]), a.total == total), "neighbors and total")
            else:
                tot[i][0] += len(nadj[i])
                tot[i][1] += total
                ctx.check(And(a.neighbors == tot[i][0], a.total == tot[i][1]), "aggregated neighbors and total")
            ctx.check(And(a["times"] == a.times, a["neighbors"] == a.neighbors), "state of the agent")
        for a in env.get_agents(agent_class=agents.Ticker):
            ctx.check(a.times == s + 1 - a.get("late", 0), "times of a ticker")
        if s == 0 and ctx.flag("change"):
            ctx.cover("change")
            i, j = 0, n - 1
            env.G.add_edge(i, j)
            nadj[i].add(j)
            nadj[j].add(i)
            if ctx.flag("birth"):
                env.add_agent(agents.Ticker, late=1)
                born += 1


def cases(tier):
    q = tier == "quick"
    out = []
    k = 2 if q else 3
    for st, to in (("neutral", ["to content", "to discontent"]), ("content", ["to neutral", "to discontent"]), ("discontent", ["to neutral", "to content"])):
        for drive in ("step", "run"):
            out.append(case("sisa-%s-%s" % (st, drive), sisa, kwargs=dict(start=st, k=k if drive == "step" else 1, variance=False, drive=drive),
                            bounds="all probabilities in [0,1], all draws, up to %d other agents in any state, adjacent or not" % k,
                            covers=["stays"] + to + (["several"] if drive == "step" else [])))
        m = 4 if q else 6
        out.append(case("sisa-%s-many" % st, sisa, kwargs=dict(start=st, k=m, variance=False, drive="step", many=True),
                        bounds="all probabilities in [0,1], all draws, %d neighbours in any two states" % m, covers=["stays", "several"] + to))
        out.append(case("sisa-%s-variance" % st, sisa, kwargs=dict(start=st, k=1, variance=True, drive="step"),
                        bounds="all values of the settings drawn, 1 other agent", covers=["stays"] + to))
    for how in ("args", "class"):
        out.append(case("bass-" + how, bass, kwargs=dict(start="innovation", k=k, how=how), bounds="all probabilities and draws, %d other agents" % k, covers=["aware", "not aware"]))
    out.append(case("bass-many", bass, kwargs=dict(start="innovation", k=4 if q else 6, how="args", many=True), bounds="all probabilities and draws, 4-6 neighbours, any number of them aware", covers=["aware", "not aware"]))
    out.append(case("bass-aware", bass, kwargs=dict(start="aware", k=1, how="args"), bounds="all probabilities and draws, 1 other agent", covers=["aware"]))
    for s in ("timed", "pqueue"):
        out.append(case("bass-run-" + s, bass_run, kwargs=dict(n=2, steps=2 if q else 3, sched=s), bounds="2 agents, 2-3 steps, all probabilities, draws and orders", covers=["spread"]))
    for w in ("CounterModel", "AggregatedCounter"):
        out.append(case(w, counters, kwargs=dict(n=3 if q else 4, steps=2, which=w), bounds="every graph of 3-4 nodes, 2 steps, an edge and an agent added in between", covers=["change"]))
    return out
