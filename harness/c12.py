"""C12: agents and the nodes of the network."""
from . import timed
from .common import *

LABELS = {"int": [0, 1, 2, 3], "one": [1, 2, 3, 4], "gap": [3, 1, 7, 4], "str": ["a", "b", "c", "d"], "mix": ["x", 1, ("t", 2), 2],
          "blank": ["", 0, (), 0.5]}


def graph(labels, directed=False):
    import networkx as nx

    G = nx.DiGraph() if directed else nx.Graph()
    G.add_nodes_from(labels)
    for a, b in zip(labels, labels[1:]):
        G.add_edge(a, b, weight=2)
    for l in labels:
        G.nodes[l]["colour"] = "c%s" % (l,)
    return G


class Model:
    """the oracle: which node every agent sits on"""

    def __init__(self, ctx, env, labels):
        self.ctx, self.env = ctx, env
        self.original = list(labels)
        self.at = []  # (agent, node) of live agents
        self.kept = set()  # nodes of agents that died and left their node in place
        self.nodes = set(labels)

    def free(self):
        used = {n for (_, n) in self.at} | self.kept
        return [n for n in self.nodes if n not in used]

    def placed(self, agent, node=None, label="placed"):
        ctx, env = self.ctx, self.env
        here = agent.node_id
        ctx.check(here is not None and here in env.G, "an agent's node is not in the network")
        ctx.check(all(m != here for (_, m) in self.at), "two agents share a node")
        if node is not None:
            ctx.check(here == node, "an agent was put on another node than the one given")
        else:
            free = self.free()
            if free:
                ctx.check(here in free or here in self.kept, "an automatic placement did not use a free node")
                ctx.cover("free node used")
            elif not self.kept:
                ctx.check(here not in self.nodes, "an automatic placement took an occupied node")
                ctx.cover("node added")
        self.kept.discard(here)
        self.nodes.add(here)
        self.at.append((agent, here))

    def died(self, agent, removed):
        node = [n for (a, n) in self.at if a is agent][0]
        self.at = [(a, n) for (a, n) in self.at if a is not agent]
        if removed:
            self.nodes.discard(node)
            self.original = [n for n in self.original if n != node]
        else:
            self.kept.add(node)

    def verify(self):
        ctx, env = self.ctx, self.env
        ctx.check(set(env.G.nodes) == self.nodes, "nodes were added to or lost from the network")
        ctx.check(len(self.nodes) == len(env.G), "number of nodes")
        for (a, n) in self.at:
            ctx.check(a.node_id == n, "an agent's node changed")
            ctx.check(env.agent_for_node_id(n) is a, "an agent's node leads to another agent")
            ctx.check(a.node is env.G.nodes[n], "node data of an agent")
        taken = {n for (_, n) in self.at}
        for n in self.nodes - taken - self.kept:
            ctx.check(env.agent_for_node_id(n) is None, "a free node has an agent")
        na = list(env.network_agents)
        ctx.check(len(na) == len(self.at) and all(any(x is a for x in na) for (a, _) in self.at),
                  "agents on the network differ from those placed")
        for l in self.original:
            if l in env.G:
                ctx.check(env.G.nodes[l].get("colour") == "c%s" % (l,), "data of a node lost")


def classes(ctx, base="NetworkAgent", falsy=False):
    from soil import agents

    class A(getattr(agents, base)):
        def step(self):
            pass

    if falsy:  # an agent may well be a false value
        A.__len__ = lambda self: 0

    class B(A):
        def init(self):
            self.started = True

    return A, B


def sequence(ctx, labels, n, ops, length, rng="any", base="NetworkAgent", falsy=False):
    """every sequence of placements and deaths"""
    from soil import environment

    labels = LABELS[labels][:n]
    G = graph(labels)
    env = make_env(ctx, "timed", rng=rng, base=environment.NetworkEnvironment, topology=G)
    A, B = classes(ctx, base, falsy)
    kids = []

    class Mother(A):
        def init(self):
            kids.append(self.model.add_agent(A))

    m = Model(ctx, env, labels)
    m.verify()
    for k in range(length):
        op = ops[ctx.choice("op", len(ops))]
        if op == "auto":
            m.placed(env.add_agent(A))
        elif op == "topology":
            m.placed(env.add_agent(A, topology=env.G))
        elif op == "mother":
            a = env.add_agent(Mother)
            m.placed(a)
            m.placed(kids.pop())
            ctx.cover("created another")
        elif op == "given":
            free = sorted(m.free(), key=str)
            if not free:
                continue
            node = free[ctx.choice("node", len(free))]
            m.placed(env.add_agent(A, node_id=node), node)
        elif op == "node":
            a = env.add_node(A)
            m.placed(a)
            ctx.check(a.visible is True, "add_node did not mark its agent as visible")
        elif op == "nodegiven":
            free = sorted(m.free(), key=str)
            if not free:
                continue
            node = free[ctx.choice("node", len(free))]
            m.placed(env.add_node(A, node_id=node), node)
        elif op == "newnode":
            m.nodes.add("new%d" % k)
            m.placed(env.add_node(A, node_id="new%d" % k, unique_id=100 + k), "new%d" % k)
        elif op == "agents":
            before = [a for (a, _) in m.at]
            had = set(a.unique_id for a in env.get_agents())
            env.add_agents([A, B], k=2)
            new = sorted((a for a in env.get_agents() if a.unique_id not in had), key=lambda a: a.unique_id)
            ctx.check(len(new) == 2, "number of agents added")
            for a in new:
                m.placed(a)
        elif op == "populate":
            free = sorted(m.free(), key=str)
            if not m.nodes or not (free or m.at):
                continue
            had = set(a.unique_id for a in env.get_agents())
            env.populate_network([A, B])
            new = [a for a in env.get_agents() if a.unique_id not in had]
            ctx.check(len(new) == len(free), "populate_network() did not add one agent per free node")
            ctx.check(sorted((str(a.node_id) for a in new)) == [str(f) for f in free], "populate_network() used other nodes than the free ones")
            for a in new:
                m.placed(a, a.node_id)
            ctx.cover("populated")
        elif op in ("back", "gone"):
            if op == "back":  # a node that was there before, or a new one
                was = [l for l in labels if l not in m.nodes]
                new = was[0] if was else "again%d" % k
                env.G.add_node(new, colour="c%s" % (new,))
                m.nodes.add(new)
                m.original.append(new)
            else:  # a free node is removed
                free = sorted(m.free(), key=str)
                if not free:
                    continue
                env.G.remove_node(free[0])
                m.nodes.discard(free[0])
                m.original = [x for x in m.original if x != free[0]]
            ctx.cover("network changed")
        elif op in ("die", "diekeep"):
            if not m.at:
                continue
            a = m.at[ctx.choice("victim", len(m.at))][0]
            a.die(remove=op == "die")
            m.died(a, op == "die")
        m.verify()
    ctx.check(all("agent" not in d for _, d in G.nodes(data=True)), "the graph given by the caller was modified")
    ctx.check(sorted(G.nodes, key=str) == sorted(labels, key=str) and G.number_of_edges() == n - 1, "nodes or edges of the caller's graph changed")
    ctx.observe("at", [(a.unique_id, str(x)) for (a, x) in m.at])


def creation(ctx, how, n, labels="int", rng="fixed"):
    """the environment's own placement at construction; two environments of one graph are independent"""
    from soil import environment

    labels = LABELS[labels][:n]
    directed = ctx.flag("directed")
    G = graph(labels, directed)
    A, B = classes(ctx)

    class Env(environment.NetworkEnvironment):
        def init(self):
            if how == "init":
                self.populate_network(A)
            elif how == "initweights":
                self.populate_network([A, B], [ctx_w, 1])

    ctx_w = ctx.real("weight", 0) if how == "initweights" else 1
    kw = {}
    if how == "agent_class":
        kw["agent_class"] = [A, A, B]
    elif how == "agents":
        kw["agents"] = dict(agent_classes=[A], k=n)
    envs = []
    for i in range(2):
        env = make_env(ctx, "timed", rng=rng, base=Env, topology=G, **kw)
        envs.append(env)
    for env in envs:
        ctx.check(set(env.G.nodes) == set(labels), "nodes of the network differ from those of the graph given")
        ctx.check(env.G.number_of_edges() == n - 1 and all(env.G.has_edge(a, b) for a, b in zip(labels, labels[1:])),
                  "edges of the network differ from those of the graph given")
        ctx.check(env.G.is_directed() == directed, "direction of the network")
        ags = list(env.network_agents)
        ctx.check(len(ags) == n and len(set(id(a) for a in ags)) == n, "not one agent per node")
        ctx.check(env.count_agents() == n, "number of agents in the environment")
        for l in labels:
            a = env.agent_for_node_id(l)
            ctx.check(a is not None and a.node_id == l and a.model is env, "node without an agent of its environment")
        for a, b in zip(labels, labels[1:]):
            ctx.check(env.G.edges[a, b].get("weight") == 2, "edge data lost")
    env1, env2 = envs
    v = env1.agent_for_node_id(labels[0])
    v.die()
    ctx.check(labels[0] in env2.G and env2.agent_for_node_id(labels[0]).alive, "two environments share a network")
    ctx.check(labels[0] in G, "a death changed the caller's graph")
    ctx.cover("created")
    ctx.observe("classes", [type(env1.agent_for_node_id(l)).__name__ for l in labels[1:]])


def spawn(ctx, n, rng="any"):
    """agents that create other agents while the network is being populated"""
    from soil import environment, agents

    labels = LABELS["int"][:n]
    env = make_env(ctx, "timed", rng=rng, base=environment.NetworkEnvironment, topology=graph(labels))
    kids = []

    class Kid(agents.NetworkAgent):
        def step(self):
            pass

    class A(agents.NetworkAgent):
        def init(self):
            near = self.get_neighbors()
            for where, ags in (("network", list(self.model.network_agents)), ("neighbours", near)):
                ctx.check(all(isinstance(a, agents.NetworkAgent) for a in ags), "something else than agents in the network")
                ctx.check(len(ags) == len(set(map(id, ags))), "an agent is in the network twice")
            older = list(self.model.get_agents())
            ctx.check(all(any(a is b for b in self.model.network_agents) for a in older), "an agent is missing in the network")
            ctx.check(sorted(a.unique_id for a in near if a is not self) == sorted(a.unique_id for a in older if self.G.has_edge(a.node_id, self.node_id)), "neighbours while the network is populated")
            if ctx.flag("spawn"):
                kids.append(self.model.add_agent(Kid))

        def step(self):
            pass

    env.populate_network(A)
    seen = {}
    for a in env.get_agents():
        ctx.check(a.node_id in env.G, "an agent's node is not in the network")
        ctx.check(a.node_id not in seen, "two agents share a node")
        seen[a.node_id] = a
        ctx.check(env.agent_for_node_id(a.node_id) is a, "an agent's node leads to another agent")
    ctx.check(env.count_agents() == n + len(kids), "number of agents")
    ctx.check(all(l in seen for l in labels), "node without an agent")
    if kids:
        ctx.cover("spawned")


def crammed(ctx, n, labels):
    """the environment is asked for several agents, all of them on one node"""
    from soil import environment

    labels = LABELS[labels][:n]
    A, _ = classes(ctx)
    k = ctx.choice("k", 3) + 1
    node = labels[ctx.choice("node", n)]
    try:
        env = make_env(ctx, "timed", rng="fixed", base=environment.NetworkEnvironment, topology=graph(labels),
                       agents=dict(agent_classes=[A], k=k, node_id=node))
    except Exception:
        ctx.check(k > 1, "an agent could not be placed on a free node at creation")
        ctx.cover("rejected")
        return
    ctx.check(k == 1, "an environment was created with several agents on one node")
    a, = env.get_agents()
    ctx.check(a.node_id == node and env.agent_for_node_id(node) is a, "agent placed at creation")
    ctx.cover("placed")


def linked(ctx, n):
    """nodes that name their agent by id"""
    from soil import environment, agents

    labels = LABELS["str"][:n]
    G = graph(labels)
    perm = ctx.permutation("who", n)
    linked = [ctx.flag("linked") for _ in range(n)]
    for l, u, k in zip(labels, perm, linked):
        if k:
            G.nodes[l]["agent_id"] = u

    class A(agents.BaseAgent):
        def step(self):
            pass

    env = make_env(ctx, "timed", rng="fixed", base=environment.NetworkEnvironment, topology=G,
                   agents=dict(agent_classes=[A], k=n))
    for l, u, k in zip(labels, perm, linked):
        a = env.agent_for_node_id(l)
        if k:
            ctx.check(a is env.agent(u) and a.node_id == l, "a node is not linked to the agent it names")
            ctx.cover("linked")
        else:
            ctx.check(a is None, "a node without an agent has one")


def cases(tier):
    q = tier == "quick"
    out = []

    def seq(name, labels, n, ops, length, covers, **kw):
        out.append(case(name, sequence, kwargs=dict(labels=labels, n=n, ops=ops, length=length, **kw), covers=covers,
                        bounds="%d nodes (%s), every sequence of %d of: %s; every shuffle" % (n, labels, length, ", ".join(ops))))

    both = ["free node used", "node added"]
    for lab in ("int", "one", "gap", "str", "mix", "blank"):
        seq("auto-" + lab, lab, 2, ["auto", "given"], 3, both)
    seq("auto-3", "one", 3, ["auto", "given"], 3 if q else 4, ["free node used"] + ([] if q else ["node added"]))
    seq("nodes", "int", 2, ["node", "auto", "newnode"], 3, both)
    for lab in ("int", "blank"):
        seq("nodes-given-" + lab, lab, 3, ["nodegiven", "given", "auto"], 2, ["free node used"])
    seq("topology", "one", 2, ["topology", "given", "auto"], 2 if q else 3, ["free node used"])
    seq("agents", "gap", 2, ["agents", "given"], 2 if q else 3, both)
    seq("populate", "int", 3 if not q else 2, ["populate", "given", "auto"], 2 if q else 3, ["populated"])
    seq("deaths", "int", 2, ["auto", "die", "diekeep", "given"], 3 if q else 4, both)
    seq("deaths-nodes", "one", 2, ["node", "die", "auto"], 3 if q else 4, both)
    seq("deaths-new", "one", 1, ["node", "die"], 4 if q else 5, both)
    seq("deaths-auto", "one", 1, ["auto", "die"], 4 if q else 5, both)
    seq("agent-class", "int", 2, ["auto", "given", "die"], 3, both, base="NetAgent")
    seq("changing", "one", 2, ["auto", "die", "back", "gone"], 4 if q else 5, both + ["network changed"], rng="fixed")
    seq("changing-one", "one", 1, ["auto", "die", "back"], 4 if q else 6, both + ["network changed"], rng="fixed")
    seq("changing-nodes", "str", 2, ["node", "die", "back"], 4 if q else 5, both + ["network changed"], rng="fixed")
    seq("changing-populate", "int", 2, ["populate", "die", "back", "gone"], 4, ["populated", "network changed"], rng="fixed")
    seq("mothers", "one", 3, ["mother", "given", "auto"], 2 if q else 3, ["created another"])
    seq("false-values", "int", 2, ["populate", "given", "auto", "die"], 2 if q else 3, ["populated"], falsy=True)
    seq("blank-nodes", "blank", 3, ["populate", "given", "die", "node"], 2, ["populated"])
    seq("blank-topology", "blank", 3, ["topology", "given", "auto"], 2, ["free node used"])
    seq("populate-deaths", "int", 2, ["populate", "die", "diekeep"], 3, ["populated"])
    for how in ("agent_class", "init", "initweights", "agents"):
        for lab in ("int", "gap"):
            out.append(case("create-%s-%s" % (how, lab), creation, kwargs=dict(how=how, n=2 if q else 3, labels=lab, rng="any"),
                            bounds="2-3 nodes, directed or not, every outcome of the random draws", covers=["created"]))
    out.append(case("spawn", spawn, kwargs=dict(n=2 if q else 3), bounds="2-3 nodes, any of the agents creates another", covers=["spawned"]))
    for lab in ("int", "str"):
        out.append(case("crammed-" + lab, crammed, kwargs=dict(n=2, labels=lab), bounds="2 nodes, 1-3 agents for one of them", covers=["rejected", "placed"]))
    out.append(case("linked", linked, kwargs=dict(n=2 if q else 3), bounds="2-3 nodes, any assignment of agent ids", covers=["linked"]))
    out += timed.crowds(tier, "network")
    return out
