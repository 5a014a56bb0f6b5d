"""C24: networks are created as they were described."""
import os

from .common import *


def graph(ctx, n, directed, values, labels=int, multi=False):
    """an arbitrary graph; values(): the value of an attribute"""
    import networkx as nx

    G = {(0, 0): nx.Graph, (1, 0): nx.DiGraph, (0, 1): nx.MultiGraph, (1, 1): nx.MultiDiGraph}[int(directed), int(multi)]()
    ls = [labels(7 * i + 2) for i in range(n)]
    for i, l in enumerate(ls):
        if i == 0 and ctx.flag("attr"):
            G.add_node(l, size=values("size"))
            ctx.cover("attribute")
        else:
            G.add_node(l)
    for i in range(n):
        for j in range(n):
            if (i < j or (directed and i > j)) and ctx.flag("edge"):
                if (i, j) == (0, 1):
                    G.add_edge(ls[i], ls[j], weight=values("weight"))
                    ctx.cover("edge")
                else:
                    G.add_edge(ls[i], ls[j])
    return G


def same_graph(ctx, G, H, key=lambda x: x, exact=False, isolated=True, attrs=True):
    """H is what G says"""
    if isolated:
        ctx.check(sorted(map(str, H.nodes)) == sorted(str(x) for x in G.nodes), "nodes of the network")
    else:
        ctx.check(set(map(str, H.nodes)) == {str(x) for x in G.nodes if G.degree(x)}, "nodes of the network")
    ctx.check(all(x in H for x in map(key, G.nodes) if isolated), "labels of the nodes")
    ctx.check(H.is_directed() == G.is_directed(), "direction of the network")
    ctx.check(H.number_of_edges() == G.number_of_edges(), "number of edges")
    for a, b, *n, d in (G.edges(data=True, keys=True) if G.is_multigraph() else G.edges(data=True)):
        ok = H.has_edge(key(a), key(b), *n)
        ctx.check(ok, "an edge is missing")
        if ok and attrs:
            got = H.get_edge_data(key(a), key(b))
            if H.is_multigraph():
                got = got[n[0]] if n else list(got.values())[0]
            for k, v in d.items():
                ctx.check(k in got, "attribute of an edge is missing")
                ctx.check(got.get(k) == v, "attribute of an edge")
            if exact:
                ctx.check(set(got) == set(d), "attributes of an edge")
    if attrs:
        for a, d in G.nodes(data=True):
            for k, v in d.items():
                got = H.nodes[key(a)]
                ctx.check(k in got, "attribute of a node is missing")
                ctx.check(got.get(k) == v, "attribute of a node")
            if exact:
                ctx.check(set(H.nodes[key(a)]) - {"agent"} == set(d), "attributes of a node")


FORMATS = dict(
    gexf=dict(key=int, attrs=True), gml=dict(key=str, attrs=True), graphml=dict(key=str, attrs=True),
    edgelist=dict(key=str, isolated=False, attrs=True, nodeattr=False, directed=False),
    adjlist=dict(key=str, attrs=False, directed=False), pajek=dict(key=str, attrs=False, multi=True),
)


def obtain(ctx, what, where, via, **kw):
    """the network of an environment, or of the function that creates it"""
    from soil import network, environment

    if via == "function":
        return network.from_topology(what, dir_path=where), None
    if via == "env":
        env = make_env(ctx, "timed", base=environment.Environment, topology=what, dir_path=where)
        return env.G, env
    env = make_env(ctx, "timed", base=environment.Environment, dir_path=where)
    if via == "create":
        env.create_network(topology=what)
    elif via == "path":
        env.create_network(path=what)
    return env.G, env


def files(ctx, fmt, n):
    import networkx as nx

    o = FORMATS[fmt]
    directed = o.get("directed", True) and ctx.flag("directed")
    val = {"size": 3, "weight": 0.25}
    G = graph(ctx, n, directed, lambda k: val[k], labels=int)
    d = scratch(ctx)
    sub = os.path.join(d, "nets")
    os.mkdir(sub)
    name = "mine." + fmt
    path = os.path.join(sub, name)
    W = G
    if fmt == "pajek":
        W = nx.relabel_nodes(G, str)
        for x in W.nodes:
            W.nodes[x].clear()
    getattr(nx.readwrite, "write_" + fmt)(W, path)
    # another network of that name, elsewhere
    getattr(nx.readwrite, "write_" + fmt)(nx.relabel_nodes(nx.complete_graph(5), str), os.path.join(d, name))
    old = os.getcwd()
    ctx.cleanup.insert(0, lambda: os.chdir(old))
    os.chdir(d)
    how = ctx.choice("how", 5)
    if how == 3:  # in a folder of that directory
        what, where = os.path.join("nets", name), d
        os.chdir("/")
    elif how == 4:
        os.mkdir(os.path.join(d, "other"))
        what, where = os.path.join("..", "nets", name), os.path.join(d, "other")
    elif how == 0:
        what, where = path, None
    elif how == 1:
        what, where = name, sub
        ctx.cover("relative")
    else:
        what, where = path, "/nonexistent"
    via = ["function", "env", "create", "path"][ctx.choice("via", 4)]
    H, env = obtain(ctx, what, where, via)
    if not o.get("nodeattr", True):
        for x in G.nodes:
            G.nodes[x].clear()
    same_graph(ctx, G, H, key=o["key"], isolated=o.get("isolated", True), attrs=o["attrs"])
    ctx.observe(fmt, sorted(map(str, H.nodes)), sorted(map(str, H.edges)))


def objects(ctx, n, form):
    """graphs and node-link dictionaries"""
    import networkx as nx

    directed = ctx.flag("directed")
    multi = ctx.flag("multi")
    lab = [int, str][ctx.choice("labels", 2)]
    n -= ctx.choice("fewer", n + 1)
    G = graph(ctx, n, directed, lambda k: ctx.real(k), labels=lab, multi=multi)
    if not n:
        ctx.cover("empty")
    elif ctx.flag("loop"):
        G.add_edge(lab(2), lab(2), weight=ctx.real("loop"))
    if multi and n > 1 and ctx.flag("parallel"):
        G.add_edge(lab(2), lab(9))
    G.graph["title"] = ctx.int("title")
    what = G if form == "graph" else nx.node_link_data(G)
    via = ["function", "env", "create"][ctx.choice("via", 3)]
    H, env = obtain(ctx, what, None, via)
    same_graph(ctx, G, H, exact=True)
    ctx.check(type(H) is type(G), "kind of network")
    ctx.check(H.graph.get("title") == G.graph["title"], "attributes of the network")
    ctx.check(H is not G, "the network given is used, instead of a copy")
    H.add_node("another")
    ctx.check("another" not in G and len(G) == n, "the network given was modified")


def handwritten(ctx):
    """dictionaries that say the least possible"""
    links = []
    for i in range(1 + ctx.choice("links", 3)):
        l = dict(source=ctx.choice("source", 2), target=[1, 2][ctx.choice("target", 2)])
        if ctx.flag("weight"):
            l["weight"] = ctx.real("weight")
        links.append(l)
    nodes = [dict(id=0), dict(id=1, size=ctx.real("size")), dict(id=2)]
    what = dict(nodes=[dict(x) for x in nodes], links=[dict(l) for l in links])
    directed = ctx.flag("directed")
    if directed:
        what["directed"] = True
    if ctx.flag("graph"):
        what["graph"] = {"title": "t"}
    via = ["function", "env", "create"][ctx.choice("via", 3)]
    H, env = obtain(ctx, what, None, via)
    ctx.check(H.is_directed() == directed, "direction of the network")
    ctx.check(list(H.nodes) == [0, 1, 2] and H.nodes[1].get("size") == nodes[1]["size"], "nodes of the network")
    ctx.check(H.number_of_edges() == len(links), "number of edges")
    left = list(links)
    for (a, b, d) in H.edges(data=True):
        ok = False
        for (i, l) in enumerate(left):
            ends = (l["source"], l["target"])
            if ((a, b) == ends or (not directed and (b, a) == ends)) and set(d) == set(l) - {"source", "target"} and (
                    d["weight"] == l["weight"] if "weight" in l else True):
                del left[i]
                ok = True
                break
        ctx.check(ok, "an edge that was not given")
    ctx.cover("read")


def generators(ctx, kind):
    """networks from a generator get its parameters, and the model's random numbers if it uses them"""
    import networkx as nx
    import sys
    from soil import environment

    calls = []
    p = ctx.real("p")
    d = scratch(ctx)

    def plain(n, p=None):
        calls.append(dict(n=n, p=p))
        return nx.path_graph(n)

    def seeded(n, p=None, seed=None):
        calls.append(dict(n=n, p=p, seed=seed))
        return nx.cycle_graph(n)

    def anything(**kw):
        calls.append(kw)
        return nx.star_graph(kw["n"])

    gens = dict(plain=plain, seeded=seeded, anything=anything)
    params = dict(n=3)
    if ctx.flag("p"):
        params["p"] = p
    if kind in gens:
        g = gens[kind]
    elif kind == "file":
        pyfile(ctx, "", **gens)
        with open(os.path.join(d, "mygen_verif.py"), "w") as f:
            f.write("import verif_hook\ndef make(n, p=None):\n    return verif_hook.plain(n, p)\n")
        sys.modules.pop("mygen_verif", None)
        g = "mygen_verif.make"
        path0 = list(sys.path)

        def clean():
            sys.path[:] = path0
            sys.modules.pop("mygen_verif", None)
            from soil import serialization
            serialization.KNOWN_MODULES.pop("mygen_verif", None)

        ctx.cleanup.append(clean)
    elif kind == "named":
        i = ctx.choice("name", 5)
        params.pop("p", None)
        g, want = [("path_graph", nx.path_graph(3)), ("complete_graph", nx.complete_graph(3)), ("networkx.star_graph", nx.star_graph(3)),
                   ("networkx.generators.classic.cycle_graph", nx.cycle_graph(3)), (nx.empty_graph, nx.empty_graph(3))][i]
    base = environment.Environment
    pcopy = dict(params)
    if ctx.flag("constructor"):
        env = make_env(ctx, "timed", base=base, dir_path=d, network_generator=g, network_params=params)
    else:
        env = make_env(ctx, "timed", base=base, dir_path=d)
        env.create_network(generator=g, **params)
    ctx.check(sorted(params) == sorted(pcopy), "the parameters given were modified")
    if kind == "named":
        ctx.check(set(env.G.nodes) == set(want.nodes) and set(map(frozenset, env.G.edges)) == set(map(frozenset, want.edges)), "network generated")
    else:
        ctx.check(len(calls) == 1, "number of calls to the generator")
        got = calls[-1]
        ctx.check(got["n"] == 3 and got.get("p") is params.get("p"), "parameters of the generator")
        if kind != "plain" and kind != "file":
            ctx.check(got.get("seed") is env.random, "the generator does not use the random numbers of the model")
        ctx.check(set(got) <= {"n", "p", "seed"}, "unknown parameters given to the generator")
        want = dict(plain=nx.path_graph(3), file=nx.path_graph(3), seeded=nx.cycle_graph(3), anything=nx.star_graph(3))[kind]
        ctx.check(set(env.G.nodes) == set(want.nodes) and set(map(frozenset, env.G.edges)) == set(map(frozenset, want.edges)), "network generated")
    ctx.cover("done")


def rejected(ctx):
    """what cannot be a network is rejected"""
    from soil import network, environment

    d = scratch(ctx)
    k = ctx.choice("kind", 6)
    name = os.path.join(d, ["net.unknown", "net", "missing.gml", "bad.graphml", "x", "x"][k])
    if k in (0, 1, 3):
        with open(name, "w") as f:
            f.write("1 2\n")
    what = [name, name, name, name, {"no": "graph"}, {"nodes": [{"no": 1}], "links": [{"source": 1}]}][k]
    via = ["function", "create", "env"][ctx.choice("via", 3)]
    failed = None
    try:
        obtain(ctx, what, None, via)
    except Exception as ex:
        failed = ex
    ctx.check(failed is not None, "something that is not a network was accepted")
    if k in (0, 1):
        ctx.check(isinstance(failed, AttributeError), "an unknown format is reported as such")
    if k in (4, 5):
        ctx.check(isinstance(failed, ValueError), "an unknown format is reported as such")
    ctx.cover("rejected")


def repeated(ctx, form, n, times):
    """a description that was used before, and has changed since, describes another network"""
    import networkx as nx
    from soil import environment

    d = scratch(ctx)
    path = os.path.join(d, "net.gml")
    via = ["function", "env", "create", "same"][ctx.choice("via", 4)]
    one = make_env(ctx, "timed", base=environment.Environment, dir_path=d) if via == "same" else None
    D = nx.DiGraph() if ctx.flag("directed") else nx.Graph()
    D.add_nodes_from(range(n))
    what = {"graph": D, "dict": {}, "file": path, "relative": "net.gml", "generator": None}[form]
    before = []

    def make(edges=()):
        G = type(D)()
        G.add_nodes_from(range(n))
        G.add_edges_from(edges)
        return G

    for t in range(times):
        op = ctx.choice("change", 4) if t else 0
        if op == 0:
            D.add_edge(*[(0, 1), (1, 2)][ctx.choice("edge", 2)])
        elif op == 1:
            D.remove_edge(*list(D.edges)[0]) if len(D.edges) else None
        elif op == 2:
            D.nodes[0]["size"] = t
        if form == "dict":
            what.clear()
            what.update(nx.node_link_data(D))
        elif form in ("file", "relative"):
            nx.write_gml(D, path)
        if form == "generator":
            env = one or make_env(ctx, "timed", base=environment.Environment)
            env.create_network(generator=make, edges=list(D.edges))
            H = env.G
            want = make(D.edges)
        elif one is not None:
            one.create_network(topology=what)
            H, want = one.G, D.copy()
        else:
            H, want = obtain(ctx, what, d, via)[0], D.copy()
        before.append((H, want))
        for (H, W) in before:
            same_graph(ctx, W, H, key=str if form in ("file", "relative") else lambda x: x, exact=form not in ("file", "relative"))
    ctx.check(len({id(H) for H, _ in before}) == times, "one network for several environments")
    ctx.cover("again")


def cases(tier):
    q = tier == "quick"
    out = []
    for f in sorted(FORMATS):
        out.append(case("file-" + f, files, kwargs=dict(fmt=f, n=2 if q else 3), bounds="every graph of 2-3 nodes (directed or not where the format keeps it), absolute and relative paths, 4 ways of loading",
                        covers=["edge", "relative"]))
    for f in ("graph", "dict"):
        out.append(case(f, objects, kwargs=dict(n=2 if q else 3, form=f), bounds="every graph of 0..2 (thorough: 3) nodes (directed, multiple edges), any attributes; loops, parallel edges, the empty graph", covers=["edge", "attribute", "empty"]))
    out.append(case("handwritten", handwritten, bounds="dictionaries of 3 nodes and 1..3 links, perhaps parallel, with or without weights, directed or not", covers=["read"]))
    for k in ("plain", "seeded", "anything", "file", "named"):
        out.append(case("generator-" + k, generators, kwargs=dict(kind=k), bounds="any parameter value, 2 ways", covers=["done"]))
    for k in ("graph", "dict", "file", "relative", "generator"):
        out.append(case("repeated-" + k, repeated, kwargs=dict(form=k, n=3, times=3 if q else 4), bounds="one description, changed and used 3-4 times: edges added and removed, attributes; 4 ways", covers=["again"]))
    out.append(case("rejected", rejected, bounds="6 kinds, 3 ways", covers=["rejected"]))
    return out
