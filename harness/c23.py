"""C23: probabilities and random populations."""
from .common import *


def probability(ctx, via):
    """an event of probability p happens iff the draw says so"""
    from soil import agents

    env = make_env(ctx, "timed", rng="any")
    p = ctx.real("p")

    class A(agents.BaseAgent):
        def step(self):
            return None

    a = env.add_agent(A)
    n = len(env.random.draws)
    if via == "agent":
        r = a.prob(p)
    else:
        r = agents.prob(p, env.random)
    draws = [v for (w, v) in env.random.draws[n:] if w == "random"]
    if r:
        ctx.check(p > 0, "an impossible event happened")
        ctx.check(And([v < p for v in draws]), "an event happened although it was not drawn")
        ctx.cover("yes")
    else:
        ctx.check(p < 1, "a certain event did not happen")
        ctx.check(And([v >= p for v in draws]), "an event did not happen although it was drawn")
        ctx.cover("no")
    ctx.check(len(draws) <= 1, "one event takes several draws")


def distribution(ctx, n, default):
    """thresholds split [0, 1] in proportion to the weights"""
    from soil import agents

    entries, w = [], []
    if default == "class":
        got = agents.calculate_distribution(agent_class="X")
        ctx.check(len(got) == 1 and got[0]["agent_class"] == "X", "distribution of a single class")
        ctx.check(And(got[0]["threshold"][0] == 0, got[0]["threshold"][1] == 1), "thresholds of a single class")
        ctx.cover("done")
        return
    for i in range(n):
        e = dict(agent_class="c%d" % i, state=dict(id=i))
        if ctx.flag("given"):
            e["weight"] = ctx.real("w", 0, lo_open=True) if ctx.flag("real") else ctx.int("w", 1)
            w.append(e["weight"])
        else:
            w.append(1)
        entries.append(e)
    before = [dict(e, state=dict(e["state"])) for e in entries]
    got = agents.calculate_distribution(entries)
    ctx.check(len(entries) == n and all(sorted(a) == sorted(b) for a, b in zip(entries, before)), "the distribution given was modified")
    ctx.check(And([a[k] == b[k] for a, b in zip(entries, before) for k in b]), "the distribution given was modified")
    ctx.check([g["agent_class"] for g in got] == [e["agent_class"] for e in entries], "classes")
    ctx.check([g["state"] for g in got] == [e["state"] for e in entries], "states")
    total = sum(w)
    acc = 0
    for g, x in zip(got, w):
        lo, hi = g["threshold"]
        ctx.check(lo == acc, "a threshold does not start where the previous ends")
        ctx.check((hi - lo) * total == x, "the share of a class is not its weight")
        acc = hi
    ctx.check(acc == 1, "thresholds do not cover everything")
    got[0]["state"]["id"] = "changed"
    ctx.check(entries[0]["state"]["id"] == 0, "the distribution shares its states with the one given")
    ctx.cover("done")


def population(ctx, how, nclasses, k):
    """classes are taken from those given, with positive weight, as many as asked for"""
    import networkx as nx
    from soil import agents, environment

    class A(agents.NetworkAgent):
        def step(self):
            return None

    classes = [type("K%d" % i, (A,), {}) for i in range(nclasses)]
    n = ctx.choice("n", k) + 1
    weights = None
    if ctx.flag("weights"):
        weights = [ctx.real("w", 0) for _ in classes]
        ctx.assume(Or([x > 0 for x in weights]))
    wcopy = None if weights is None else list(weights)
    ccopy = list(classes)
    given = classes
    form = ctx.choice("form", 2)
    if nclasses == 1 and form:
        given = classes[0]
    elif form:
        given = tuple(classes)
    kw = dict(x=ctx.real("x"))
    sel = {}
    if how == "populate":
        env = make_env(ctx, "timed", base=environment.Environment, topology=nx.path_graph(n))
        taken = ctx.choice("taken", min(2, n))
        for i in range(taken):
            env.add_agent(A, node_id=i)
        env.populate_network(given, **({} if weights is None else dict(weights=weights)), **kw)
        want = n - taken
        old = taken
    else:
        env = make_env(ctx, "timed", base=environment.Environment, topology=nx.path_graph(n))
        old = 0
        if how == "add":
            m = ctx.choice("k", k + 1)
            env.add_agents(given, k=m, **({} if weights is None else dict(weights=weights)), **kw)
            want = m
        else:
            env.add_agents(given, **({} if weights is None else dict(weights=weights)), **kw)
            want = n
    new = [a for a in env.get_agents() if type(a) is not A]
    ctx.check(len(new) == want and env.count_agents() == want + old, "number of agents created")
    for a in new:
        ctx.check(type(a) in ccopy, "class of an agent")
        ctx.check(a.x == kw["x"], "attributes given to the agents")
        if weights is not None and type(a) in ccopy:
            ctx.check(wcopy[ccopy.index(type(a))] > 0, "an agent of a class without weight")
    ctx.check(list(classes) == ccopy and (weights is None or same_seq(weights, wcopy)), "classes or weights given were modified")
    kinds = {type(a) for a in new}
    if len(kinds) > 1:
        ctx.cover("mixed")
    ctx.cover("done")


def weighted(ctx, how):
    """the weights given are those that decide: what the generator is asked for"""
    import networkx as nx
    from soil import agents, environment

    class A(agents.NetworkAgent):
        def step(self):
            return None

    classes = [type("K%d" % i, (A,), {}) for i in range(3)]
    weights = [ctx.real("w", 0, lo_open=True) for _ in classes]
    env = make_env(ctx, "timed", base=environment.Environment, topology=nx.path_graph(2))
    asked = []
    real = env.random.choices

    def choices(population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        w = list(weights) if weights is not None else None
        if w is None and cum_weights is not None:
            c = list(cum_weights)
            w = [c[0]] + [b - a for a, b in zip(c, c[1:])]
        asked.append((pop, w))
        return real(population, weights, cum_weights=cum_weights, k=k)

    env.random.choices = choices
    uniform = ctx.flag("uniform")
    kw = {} if uniform else dict(weights=weights)
    if how == "populate":
        env.populate_network(classes, **kw)
    else:
        env.add_agents(classes, k=2, **kw)
    ctx.check(env.count_agents() == 2, "number of agents")
    for pop, w in asked:
        # in proportion to the weights, wherever each class is
        ws = [1, 1, 1] if uniform else weights
        if w is None:
            w = [1] * len(pop)
        if sorted(map(str, pop)) != sorted(map(str, classes)):
            continue
        tot, mine = sum(ws), sum(w)
        for c, x in zip(pop, w):
            ctx.check(x * tot == ws[classes.index(c)] * mine, "the weights of the classes are not the ones given")
        ctx.cover("asked")
    ctx.cover("done")


def cases(tier):
    q = tier == "quick"
    out = []
    for via in ("agent", "function"):
        out.append(case("prob-" + via, probability, kwargs=dict(via=via), bounds="any real probability, any draw", covers=["yes", "no"]))
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append(case("distribution-%d" % n, distribution, kwargs=dict(n=n, default=None), bounds="%d entries with any positive weight, or none" % n, covers=["done"]))
    out.append(case("distribution-class", distribution, kwargs=dict(n=1, default="class"), bounds="a single class", covers=["done"]))
    for how in ("populate", "add", "add-all"):
        for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
            out.append(case("%s-%d" % (how, n), population, kwargs=dict(how=how, nclasses=n, k=(2 if n < 3 else 1) if q else (3 if n < 4 else 1)),
                            bounds="%d classes, any weights >= 0 (some positive), 1-3 nodes, 0-3 agents, any draws" % n, covers=["done"] + (["mixed"] if n == 2 else [])))
        if how != "add-all":
            out.append(case("weights-" + how, weighted, kwargs=dict(how=how), bounds="3 classes, any positive weights", covers=["done"]))
    return out
