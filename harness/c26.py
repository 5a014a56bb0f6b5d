"""C26: geographic search."""
from .common import *


class Tree:
    """scipy's KD-tree by its documentation: query_ball_point gives the indices of the
    points at distance <= r"""

    def __init__(self, data, *a, **k):
        self.data = [tuple(p) for p in data]
        self.n = len(self.data)

    def query_ball_point(self, x, r, p=2.0, eps=0, workers=1, return_sorted=None, return_length=False):
        if len(x) and hasattr(x[0], "__len__"):
            return [self.query_ball_point(y, r, p, eps, workers, return_sorted, return_length) for y in x]
        if eps:
            # a tree of one leaf, as those of these cases: every point is given if the farthest
            # corner of the box around them is nearer than r * (1 + eps)
            assert p == 2 and self.n <= 10
            far = 0
            for k, c in enumerate(x):
                lo, hi = Min([q[k] for q in self.data]), Max([q[k] for q in self.data])
                far = far + Max([(c - lo) * (c - lo), (c - hi) * (c - hi)])
            if far < r * r * (1 + eps) * (1 + eps):
                return self.n if return_length else list(range(self.n))
        out = []
        for i, q in enumerate(self.data):
            ds = [u - v for u, v in zip(q, x)]
            if p == 2:
                near = sum(d * d for d in ds) <= r * r
            elif p == 1:
                near = sum(abs(d) for d in ds) <= r
            elif p == float("inf"):
                near = And([And(d <= r, -d <= r) for d in ds])
            else:
                near = sum(abs(d) ** int(p) for d in ds) <= r ** int(p)
            if near:
                out.append(i)
        return len(out) if return_length else out

    def query_ball_tree(self, other, r, p=2.0, eps=0):
        return [other.query_ball_point(q, r, p, eps) for q in self.data]

    def query_pairs(self, r, p=2.0, eps=0):
        return {(i, j) for i, q in enumerate(self.data) for j in self.query_ball_point(q, r, p, eps) if i < j}

    def __len__(self):
        return self.n


def tree(ctx):
    """in the symbolic run the tree is its documentation; in replays, the real one"""
    if not ctx.symbolic:
        import soil.agents.geo
        return
    import scipy.spatial
    import soil.agents.geo as geo

    real = {scipy.spatial.cKDTree, scipy.spatial.KDTree}
    for mod in (geo, scipy.spatial):
        for k, v in list(vars(mod).items()):
            if isinstance(v, type) and v in real:
                setattr(mod, k, Tree)
                ctx.cleanup.append(lambda mod=mod, k=k, v=v: setattr(mod, k, v))


def nowhere(ctx, n):
    """the agent that searches is in a place, but no node selected has one; or no node at all has"""
    import networkx as nx
    from soil import environment
    tree(ctx)
    from soil.agents.geo import Geo

    G = nx.Graph()
    G.add_nodes_from(range(n))
    if ctx.flag("edges"):
        nx.add_path(G, range(n))
    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment, topology=G)

    class A(Geo):
        x = 0

        def step(self):
            return 1

    for i in range(n):
        if i == 0 or ctx.flag("agent"):
            env.add_agent(A, node_id=i)
    kw = [{}, {"x": 0}, {"x": 1}, {"center": True}][ctx.choice("criteria", 4)]
    got = env.agent_for_node_id(0).geo_search(ctx.real("r", 0), **kw)
    ctx.check(list(got) == [], "a node without a position was found")
    ctx.cover("nowhere")


def moving(ctx, n, moves):
    """the same search after nodes have moved, agents have died or changed"""
    import networkx as nx
    from soil import environment
    tree(ctx)
    from soil.agents.geo import Geo

    G = nx.Graph()
    pos = {i: (ctx.real("p"), 0) for i in range(n)}
    for i in range(n):
        G.add_node(i, pos=pos[i])
    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment, topology=G)

    class A(Geo):
        x = 0

        def step(self):
            return 1

    pop = {i: env.add_agent(A, node_id=i) for i in range(n)}
    r = ctx.real("r", 0)

    def look(crit):
        got = list(pop[0].geo_search(r, **({"x": 0} if crit else {})))
        ctx.check(len(set(got)) == len(got) and set(got) <= set(pop), "a node was found twice, or an unknown one was")
        for i in pop:
            if i == 0:
                ctx.check(0 not in got, "the node of the agent itself")
                continue
            d = pos[i][0] - pos[0][0]
            if not ctx.symbolic and abs(abs(float(d)) - float(r)) < 1e-6:
                continue
            cond = And(d <= r, -d <= r)
            if crit and pop[i].x or pos[i][1] is None:
                cond = False
            ctx.check(iff(i in got, cond), "nodes found after a change")

    crit = ctx.flag("criteria")
    look(crit)
    for _ in range(moves):
        op = ctx.choice("op", 6)
        who = [0, n - 1][ctx.choice("who", 2)]
        if op == 0:
            pos[who] = (ctx.real("p"), 0)
            env.G.nodes[who]["pos"] = pos[who] if who in pop else None
        elif op == 1 and who:
            if who in pop:
                pop.pop(who).die()
        elif op == 2 and who and who in pop:
            pop[who].x = 1 - pop[who].x
        elif op == 3:
            env.step()
        elif op == 4 and who and who in pop and "pos" in pop[who].node:
            del pop[who].node["pos"]
            pos[who] = (0, None)
        elif op == 5:
            r = ctx.real("r", 0)
        look(crit)
    ctx.cover("looked")


def search(ctx, n, dims, crit, center):
    import networkx as nx
    from soil import environment, agents
    tree(ctx)
    from soil.agents.geo import Geo

    G = nx.Graph()
    pos = {}
    for i in range(n):
        l = "n%d" % i
        if i == 0 or ctx.flag("pos"):
            pos[i] = tuple(ctx.real("c%d" % k) for k in range(dims))
            G.add_node(l, pos=pos[i])
        else:
            G.add_node(l)
            ctx.cover("nowhere")
    if n > 1 and ctx.flag("edge"):
        G.add_edge("n0", "n1")
    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment, topology=G)

    class A(Geo):
        x = 0

        def step(self):
            return 1

    class B(A):
        pass

    pop = {}
    for i in range(n):
        if i and ctx.flag("vacant"):
            continue
        kind = ctx.choice("class", 2) if crit == "class" and i else 0
        x = ctx.int("x", 0, 2) if crit == "attr" else 0
        pop[i] = (env.add_agent((A, B)[kind], node_id="n%d" % i, x=x), kind, x)
    me = pop[0][0]
    if crit == "death" and 1 in pop and ctx.flag("death"):
        pop.pop(1)[0].die()
        ctx.cover("death")
    r = ctx.real("r", 0)
    kw = {}
    if crit == "class":
        kw["agent_class"] = B
    want_x = None
    if crit == "attr":
        want_x = kw["x"] = ctx.int("wx", 0, 2)
    if center is not None:
        kw["center"] = center
    got = me.geo_search(r, **kw)
    got = list(got)
    ctx.check(len(set(got)) == len(got), "a node was found twice")
    for i in range(n):
        l = "n%d" % i
        there = l in got
        if i == 0:
            ctx.check(there == bool(center), "the node of the agent itself")
            continue
        if i not in pop or i not in pos:
            ctx.check(not there, "a node without a position or an agent was found")
            continue
        d2 = sum((a - b) * (a - b) for a, b in zip(pos[0], pos[i]))
        if not ctx.symbolic and abs(float(d2) ** 0.5 - float(r)) < 1e-6:
            continue
        cond = d2 <= r * r
        if crit == "class" and pop[i][1] != 1:
            cond = False
        if crit == "attr":
            cond = And(cond, pop[i][2] == want_x)
        if there:
            ctx.check(cond, "a node that is not within the radius, or not selected, was found")
            ctx.cover("found")
        else:
            ctx.check(Not(cond), "a node within the radius was not found")
            ctx.cover("not found")
    ctx.check(set(got) <= {"n%d" % i for i in range(n)}, "an unknown node was found")


SPOTS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (3, 4, 0), (0, 3, 4), (-2, -2, -2), (2, 2, 2), (0, 0, 0), (5, 0, 0)]


def spots(ctx, dims):
    """more nodes, in fixed places but for the scale, in a network that links them; any radius"""
    import networkx as nx
    from soil import environment
    tree(ctx)
    from soil.agents.geo import Geo

    u = ctx.real("unit", 0, lo_open=True)
    G = nx.Graph()
    for i, s in enumerate(SPOTS):
        G.add_node(i, pos=[c * u for c in s[:dims]])
    nx.add_path(G, range(len(SPOTS)))
    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment, topology=G)

    class A(Geo):
        def step(self):
            return 1

    for i in range(len(SPOTS)):
        env.add_agent(A, node_id=i, half=i % 2)
    r = ctx.real("r", 0)
    only = ctx.flag("selected")
    i = ctx.choice("who", len(SPOTS))
    center = ctx.flag("center")
    me = env.agent_for_node_id(i)
    got = list(me.geo_search(r, center=center, **(dict(half=1) if only else {})))
    ctx.check(len(set(got)) == len(got) and set(got) <= set(range(len(SPOTS))), "a node was found twice, or an unknown one was")
    for j in range(len(SPOTS)):
        d2 = sum((a - b) ** 2 for a, b in zip(SPOTS[i][:dims], SPOTS[j][:dims])) * u * u
        if j == i:
            ctx.check((j in got) == center, "the node of the agent itself")
            continue
        if not ctx.symbolic and abs(float(d2) ** 0.5 - float(r)) < 1e-6:
            continue
        cond = d2 <= r * r if not only or j % 2 else False
        if j in got:
            ctx.check(cond, "a node that is not within the radius, or not selected, was found")
            ctx.cover("found")
        else:
            ctx.check(Not(cond), "a node within the radius was not found")
            ctx.cover("not found")


def cases(tier):
    q = tier == "quick"
    out = []
    for dims in (1, 2, 3):
        out.append(case("spots-%d" % dims, spots, kwargs=dict(dims=dims), bounds="10 agents at fixed multiples of any unit in %d dimensions, any radius, each of them searching" % dims, covers=["found", "not found"]))
    for dims in (1, 3):
        out.append(case("dims-%d" % dims, search, kwargs=dict(n=2, dims=dims, crit="none", center=None), bounds="2 nodes in %d dimensions, any coordinates and radius" % dims, covers=["found", "not found"]))
    for crit in ("none", "class", "attr", "death"):
        for c in (None, True, False):
            out.append(case("%s-%s" % (crit, c), search, kwargs=dict(n=3, dims=2 if crit != "none" or q else 3, crit=crit, center=c),
                            bounds="3 nodes with or without agent and position, any coordinates and radius", covers=["found", "not found", "nowhere"]))
    out.append(case("moving", moving, kwargs=dict(n=3, moves=1 if q else 2), bounds="3 agents on a line at any places; any radius; 1-2 moves, deaths, changes of an attribute, positions removed, steps, other radii", covers=["looked"]))
    out.append(case("nowhere", nowhere, kwargs=dict(n=2 if q else 3), bounds="2-3 nodes, none of them with a position, any radius", covers=["nowhere"]))
    if not q:
        out.append(case("four", search, kwargs=dict(n=4, dims=2, crit="none", center=None), bounds="4 nodes", covers=["found", "not found"]))
    return out
