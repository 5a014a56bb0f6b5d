"""C11: neighbours, subgraphs and edges of network agents."""
from .common import *


def build(ctx, n, directed=False, vacant=True, names="int", loops=False):
    """A graph with an arbitrary set of edges, whose nodes hold an agent or not."""
    import networkx as nx
    from soil import agents, environment

    labels = {"int": list(range(n)), "off": [5 * i + 3 for i in range(n)], "str": ["n%d" % i for i in range(n)]}[names]
    G = nx.DiGraph() if directed else nx.Graph()
    G.add_nodes_from(labels)
    edge = {}
    for i in range(n):
        for j in range(n):
            if (i < j) or (directed and i != j) or (loops and i == j and i < 2):
                edge[i, j] = ctx.flag("edge%d%d" % (i, j))
                if edge[i, j]:
                    G.add_edge(labels[i], labels[j])
    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment, topology=G)

    class A(agents.Agent):
        @agents.default_state
        @agents.state
        def idle(self):
            pass

        @agents.state
        def busy(self):
            pass

    class B(A):
        pass

    pop = []
    # ids deliberately differ from node labels
    order = list(reversed(range(n)))
    for i in order:
        if vacant and i > 0 and ctx.flag("vacant%d" % i):
            continue
        pop.append(dict(node=i, label=labels[i]))
    for p in pop:
        p["kind"] = 0
        p["agent"] = None
    adj = lambda i, j: bool(edge.get((i, j), False) or (not directed and edge.get((j, i), False)))
    return env, (A, B), pop, labels, adj


def neighbours(ctx, n, what, directed=False, names="int", death=False, edges=False, vacant=True, loops=False):
    env, (A, B), pop, labels, adj0 = build(ctx, n, directed, vacant, names, loops)
    extra = set()

    def adj(i, j):
        return adj0(i, j) or (i, j) in extra or (not directed and (j, i) in extra)

    for p in pop:
        kw = {}
        p["kind"] = ctx.choice("kind", 2) if "class" in what else 0
        p["state"] = "idle"
        if "state" in what and ctx.flag("busy"):
            p["state"] = kw["state_id"] = "busy"
        if "attr" in what:
            p["x"] = kw["x"] = ctx.int("x", 0, 2)
        p["agent"] = env.add_agent((A, B)[p["kind"]], node_id=p["label"], **kw)
        p["uid"] = p["agent"].unique_id
        p["dead"] = False
    me = pop[-1]  # node 0
    a = me["agent"]
    for p in pop:
        ctx.check(p["agent"].node_id == p["label"], "agent placed on another node than the one given")
        ctx.check(env.agent_for_node_id(p["label"]) is p["agent"], "node does not lead to its agent")
    if edges:
        o = pop[ctx.choice("other", len(pop))]
        if o is not me or loops:
            form = ctx.choice("form", 3)
            w = ctx.real("weight")
            if form == 0:
                a.add_edge(o["agent"])
            elif form == 1:
                a.add_edge(o["agent"], {"weight": w})
            else:
                a.add_edge(o["agent"], weight=w)
            extra.add((0, o["node"]))
            data = dict(env.G.edges[me["label"], o["label"]])
            if form:
                ctx.check("weight" in data and len(data) == 1, "attributes of a new edge")
                if "weight" in data:
                    ctx.check(data["weight"] == w, "value of an edge attribute")
            else:
                ctx.check(not data, "attributes of a new edge")
            ctx.cover("edge added")
    if death:
        v = ctx.choice("victim", len(pop))
        if pop[v] is not me:
            remove = ctx.flag("remove")
            pop[v]["agent"].die(remove=remove)
            pop[v]["dead"] = True
            ctx.check((pop[v]["label"] in env.G) == (not remove), "node of a dead agent")
            ctx.cover("died")
    near = [p for p in pop if not p["dead"] and adj(0, p["node"])]
    kw = {}
    sel = {id(p): True for p in pop}

    def narrow(f):
        for p in pop:
            sel[id(p)] = And(sel[id(p)], f(p))

    if "class" in what and ctx.flag("byclass"):
        kw["agent_class"] = B
        narrow(lambda p: p["kind"] == 1)
    if "state" in what and ctx.flag("bystate"):
        kw["state_id"] = "busy"
        narrow(lambda p: p["state"] == "busy")
    if "attr" in what:
        v = ctx.int("want", 0, 2)
        kw["x"] = v
        narrow(lambda p: p["x"] == v)
    if "id" in what:
        w = ctx.choice("ids", 3)
        if w == 1:
            t = pop[ctx.choice("target", len(pop))]
            kw["unique_id"] = t["uid"]
            narrow(lambda p: p is t)
        elif w == 2:
            picks = [p for p in pop if ctx.flag("pick")]
            kw["unique_id"] = [p["uid"] for p in picks]
            narrow(lambda p: any(p is q for q in picks))
    # neighbours
    for how in ("get", "iter", "limit", "count"):
        if how == "get":
            r = a.get_neighbors(**kw)
        elif how == "iter":
            r = list(a.iter_neighbors(**kw))
        elif how == "limit":
            r = a.get_agents(limit_neighbors=True, **kw)
        else:
            c = a.count_neighbors(**kw)
            ctx.check(c == Count([sel[id(p)] for p in near]), "number of neighbours")
            ctx.observe("count", c)
            continue
        ctx.check(len(r) == len(set(id(x) for x in r)), "a neighbour was returned twice")
        for x in r:
            ps = [p for p in near if p["agent"] is x]
            ctx.check(len(ps) == 1, "an agent that is no (live) neighbour was returned")
            for p in ps:
                ctx.check(sel[id(p)], "a neighbour was returned that does not meet every criterion")
        for p in near:
            if not any(x is p["agent"] for x in r):
                ctx.check(Not(sel[id(p)]), "a neighbour meeting every criterion was left out")
        ctx.observe(how, sorted(x.unique_id for x in r))
        if r:
            ctx.cover("neighbours")
    # at most some of them
    for l in range(3):
        r = a.get_neighbors(limit=l, **kw)
        c = Count([sel[id(p)] for p in near])
        ctx.check(And(len(r) == Ite(c > l, l, c), len(r) == len(set(id(x) for x in r))), "number of neighbours, with a limit")
        for x in r:
            ps = [p for p in near if p["agent"] is x]
            ctx.check(len(ps) == 1 and And([sel[id(p)] for p in ps]), "a neighbour that does not meet every criterion, with a limit")
    # subgraphs
    live = [p for p in pop if not p["dead"]]
    for lim in (True, False, None):
        for center in (True, False):
            how = dict(kw) if lim is None else dict(kw, limit_neighbors=lim)
            if not center or lim is not None:
                how["center"] = center
            S = a.subgraph(**how)
            base = near if lim else live
            nodes = set(S.nodes)
            for p in pop:
                want = And(any(p is q for q in base), sel[id(p)])
                if p is me and center:
                    want = True
                ctx.check(iff(p["label"] in nodes, want), "nodes of a subgraph")
            ctx.check(nodes <= {p["label"] for p in pop}, "a subgraph has a node without a selected agent")
            for p in pop:
                for r in pop:
                    if p["label"] in nodes and r["label"] in nodes:
                        ctx.check(S.has_edge(p["label"], r["label"]) == adj(p["node"], r["node"]), "edges of a subgraph")
    # network-wide view
    na = list(env.network_agents)
    ctx.check(len(na) == len(live) and all(any(x is p["agent"] for x in na) for p in live),
              "agents of the network differ from those alive and on a node")


def symmetric(ctx, n):
    """in an undirected network, being neighbours is mutual; edges count towards both counts"""
    env, (A, B), pop, labels, adj = build(ctx, n, vacant=False)
    for p in pop:
        p["agent"] = env.add_agent(A, node_id=p["label"])
    total = 0
    for p in pop:
        c = p["agent"].count_neighbors()
        total += c
        for r in pop:
            if p is not r:
                x = any(y is r["agent"] for y in p["agent"].get_neighbors())
                y = any(y is p["agent"] for y in r["agent"].get_neighbors())
                ctx.check(x == y, "being neighbours is not mutual")
    ctx.check(total == 2 * env.G.number_of_edges(), "neighbour counts do not add up to the edges")
    ctx.cover("counted")


def changing(ctx, n, directed, length):
    """neighbours and subgraphs, asked for again after every change of the network"""
    import networkx as nx
    from soil import agents, environment

    G = nx.DiGraph() if directed else nx.Graph()
    G.add_nodes_from(range(n))
    nx.add_path(G, range(n))
    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment, topology=G)

    class A(agents.NetworkAgent):
        x = 0

        def step(self):
            look()
            return 1

    arcs = {(i, i + 1) for i in range(n - 1)}
    at = {i: env.add_agent(A, node_id=i) for i in range(n)}
    hot = set()

    def linked(i, j):
        return (i, j) in arcs or (not directed and (j, i) in arcs)

    def look():
        for i, a in at.items():
            near = {j for j in at if linked(i, j)}
            ctx.check(sorted((x.node_id for x in a.get_neighbors()), key=str) == sorted(near, key=str), "neighbours after a change of the network")
            ctx.check(a.count_neighbors() == len(near), "number of neighbours after a change of the network")
            ctx.check(sorted((x.node_id for x in a.get_neighbors(x=1)), key=str) == sorted(near & hot, key=str), "selected neighbours after a change")
            S = a.subgraph(limit_neighbors=True)
            ctx.check(set(S.nodes) == near | {i} and all(S.has_edge(j, k) == linked(j, k) for j in S for k in S), "subgraph after a change")
        S = at[next(iter(at))].subgraph()
        ctx.check(set(S.nodes) == set(at) and all(S.has_edge(j, k) == linked(j, k) for j in at for k in at), "the whole network after a change")

    look()
    for _ in range(length):
        op = ctx.choice("op", 7)
        i, j = [(0, n - 1), (1, 0), (1, 2)][ctx.choice("who", 3)]
        if op == 5:
            env.step()
        elif i not in at or (op != 3 and op != 4 and j not in at):
            continue
        elif op == 0:
            at[i].add_edge(at[j])
            arcs.add((i, j))
        elif op == 1:
            if not linked(i, j):
                continue
            env.G.remove_edge(i, j)
            arcs -= {(i, j)} if directed else {(i, j), (j, i)}
        elif op == 2:
            if len(at) > 2:
                at.pop(i).die()
                arcs = {e for e in arcs if i not in e}
                hot.discard(i)
        elif op == 3:
            at[i].x = 1 - at[i].x
            hot ^= {i}
        elif op == 4:
            b = env.add_node(A)
            at[b.node_id] = b
            b.add_edge(at[i])
            arcs.add((b.node_id, i))
        else:  # an edge moves: as many edges as before
            if not linked(i, j):
                continue
            k = [x for x in at if x not in (i, j) and not linked(i, x)]
            if not k:
                continue
            env.G.remove_edge(i, j)
            arcs -= {(i, j)} if directed else {(i, j), (j, i)}
            at[i].add_edge(at[k[0]])
            arcs.add((i, k[0]))
        look()
    ctx.cover("changed")


def wide(ctx, n, directed, names):
    """a larger network of fixed shape: any centre, any wanted attribute, class or state, any number of deaths"""
    import networkx as nx
    from soil import agents, environment

    labels = {"int": list(range(n)), "off": [7 * i + 2 for i in range(n)], "str": ["n%d" % i for i in range(n)]}[names]
    G = nx.DiGraph() if directed else nx.Graph()
    G.add_nodes_from(labels)
    arcs = set()
    for i in range(n):
        for k in (1, 3, n // 2):
            j = (i + k) % n
            if i != j and (i + k) % 4:
                arcs.add((i, j))
                if not directed:
                    arcs.add((j, i))
                G.add_edge(labels[i], labels[j])
    for j in range(1, n):  # a hub
        arcs.add((0, j))
        if not directed:
            arcs.add((j, 0))
        G.add_edge(labels[0], labels[j])
    env = make_env(ctx, "timed", rng="plain", base=environment.Environment, topology=G)

    class A(agents.Agent):
        @agents.default_state
        @agents.state
        def idle(self):
            pass

        @agents.state
        def busy(self):
            pass

    class B(A):
        pass

    pop = []
    for i in reversed(range(n)):
        if i % 7 == 5:
            continue  # a vacant node
        kw = {"state_id": "busy"} if i % 3 == 0 else {}
        p = dict(node=i, label=labels[i], kind=i % 2, x=i % 5, state="busy" if i % 3 == 0 else "idle", dead=False)
        p["agent"] = env.add_agent((A, B)[p["kind"]], node_id=labels[i], x=p["x"], **kw)
        p["uid"] = p["agent"].unique_id
        pop.append(p)
    centre = ctx.choice("centre", 3)
    me = pop[[-1, 0, len(pop) // 2][centre]]
    a = me["agent"]
    dead = ctx.choice("deaths", 4)
    remove = ctx.flag("remove") if dead else False
    for p in [p for p in pop if p is not me][:dead * 3]:
        p["agent"].die(remove=remove)
        p["dead"] = True
        ctx.cover("died")
    live = [p for p in pop if not p["dead"]]
    near = [p for p in live if (me["node"], p["node"]) in arcs]
    kw = {}
    sel = {id(p): True for p in pop}
    w = ctx.choice("criterion", 5)
    if w == 1:
        v = ctx.int("want", -1, 6)
        kw["x"] = v
        sel = {id(p): p["x"] == v for p in pop}
    elif w == 2:
        kw["agent_class"] = B
        sel = {id(p): p["kind"] == 1 for p in pop}
    elif w == 3:
        kw["state_id"] = "busy"
        sel = {id(p): p["state"] == "busy" for p in pop}
    elif w == 4:
        ids = [p["uid"] for p in pop if p["node"] % 2 == 0]
        kw["unique_id"] = ids
        sel = {id(p): p["node"] % 2 == 0 for p in pop}
    r = a.get_neighbors(**kw)
    ctx.check(len(r) == len(set(id(x) for x in r)), "a neighbour was returned twice")
    for p in pop:
        ctx.check(iff(any(x is p["agent"] for x in r), And(sel[id(p)], any(p is q for q in near))), "neighbours of the agent")
    ctx.check(all(any(x is p["agent"] for p in near) for x in r), "something that is no neighbour was returned")
    ctx.check(a.count_neighbors(**kw) == Count([sel[id(p)] for p in near]), "number of neighbours")
    if r:
        ctx.cover("neighbours")
    ctx.observe("neighbours", sorted(x.unique_id for x in r))
    for lim, center in ((True, True), (False, False)):
        S = a.subgraph(center=center, limit_neighbors=lim, **kw)
        base = near if lim else live
        nodes = set(S.nodes)
        ctx.check(nodes <= {p["label"] for p in live}, "a subgraph has a node without a selected agent")
        for p in live:
            want = And(any(p is q for q in base), sel[id(p)])
            if p is me and center:
                want = True
            ctx.check(iff(p["label"] in nodes, want), "nodes of a subgraph")
        ctx.check(all(S.has_edge(p["label"], t["label"]) == ((p["node"], t["node"]) in arcs)
                      for p in live for t in live if p["label"] in nodes and t["label"] in nodes), "edges of a subgraph")
    na = list(env.network_agents)
    ctx.check(len(na) == len(live) and all(any(x is p["agent"] for x in na) for p in live),
              "agents of the network differ from those alive and on a node")


def cases(tier):
    q = tier == "quick"
    out = []

    def add(name, covers=("neighbours",), **kw):
        out.append(case(name, neighbours, kwargs=kw, covers=list(covers),
                        bounds="every %s graph on %d nodes, occupied or not, criteria: %s%s%s" % (
                            "directed" if kw.get("directed") else "undirected", kw["n"], "/".join(kw["what"]) or "none",
                            ", any death" if kw.get("death") else "", ", any added edge" if kw.get("edges") else "") + (", loops" if kw.get("loops") else "")))

    add("plain-3", n=3, what=[])
    add("plain-4", n=4, what=[], vacant=not q)
    add("plain-str", n=3, what=[], names="str")
    add("plain-offset", n=3, what=[], names="off")
    add("directed-3", n=3, what=[], directed=True, vacant=not q)
    add("state-3", n=3, what=["state"])
    add("class-attr-3", n=3, what=["class", "attr"], vacant=not q)
    add("ids-3", n=3, what=["id"])
    add("ids-attr-2", n=2, what=["id", "attr", "state"])
    add("death-3", n=3, what=[], death=True, covers=["neighbours", "died"], vacant=not q)
    add("edges-3", n=3, what=[], edges=True, covers=["neighbours", "edge added"])
    add("edges-directed-2", n=2, what=["attr"], edges=True, directed=True, covers=["neighbours", "edge added"])
    add("loops-2", n=2, what=["attr"], loops=True)
    add("loops-edges-2", n=2, what=[], loops=True, edges=True, covers=["neighbours", "edge added"])
    add("loops-directed-3", n=3, what=[], loops=True, directed=True, vacant=False)
    out.append(case("mutual-%d" % (3 if q else 4), symmetric, kwargs=dict(n=3 if q else 4), covers=["counted"],
                    bounds="every undirected graph on 3-4 nodes"))
    for d in (False, True):
        out.append(case("changing-" + ("directed" if d else "undirected"), changing, kwargs=dict(n=4, directed=d, length=2 if q else 3), covers=["changed"],
                        bounds="a path of 4 nodes and every sequence of 2-3 changes: edges added, removed or moved, births, deaths, attributes, steps"))
    for d in (False, True):
        for names in ("int", "str") if not q else ("off" if d else "int",):
            n = 14 if q else 26
            out.append(case("wide-%s-%s" % ("directed" if d else "undirected", names), wide, kwargs=dict(n=n, directed=d, names=names),
                            covers=["neighbours", "died"], max_depth=400,
                            bounds="one %s network of %d nodes (vacant ones included), 3 centres, up to 9 deaths, any wanted attribute" % ("directed" if d else "undirected", n)))
    if not q:
        add("death-edges-3", n=3, what=["state"], death=True, edges=True, covers=["neighbours", "died", "edge added"])
        add("state-4", n=4, what=["state"], vacant=False)
    return out
