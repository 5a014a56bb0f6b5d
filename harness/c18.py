"""C18: exported results are the results."""
import csv as _csv
import os
import sqlite3

from .common import *
from symx.core import untoken


def _bind(ctx):
    if ctx.symbolic:
        import yaml

        sqlite3.register_adapter(SymNum, repr)
        yaml.add_representer(SymNum, lambda d, v: d.represent_str(repr(v)))


class Snap:
    """one model run: what was there at each record"""

    def __init__(self, env, params, tables=False):
        self.env, self.params, self.rows = env, params, []
        self.table = [] if tables else None

    def take(self):
        e = self.env
        self.rows.append(dict(time=e.now, level=e.level, agents={a.unique_id: a.x for a in e.agents}))


EXACT = [0.1 + 0.2, 1 / 3, 1e-17, 123456789.123456789, -1.5e300, 2 ** 50 + 1, 1e22]
TEXTS = ["plain", 'with, a comma and "quotes"', "two\nlines", "\u00e1\u00f1", "007"]


def model(ctx, runs, steps, nagents, net, reps, births, tables=False, gaps=False, attrs=False):
    from soil import agents, environment

    base = []

    def any_value(name):
        """a number or, with gaps, perhaps nothing at all or a text"""
        if gaps:
            if gaps == "exact":
                ctx.cover("exact")
                if not base:
                    base.append(ctx.choice("exact", len(EXACT)))
                base[0] += 1
                return EXACT[base[0] % len(EXACT)]
            w = ctx.choice(name + "kind", 2 + (len(TEXTS) if gaps == "text" else 0))
            if w == 1:
                ctx.cover("nothing")
                return None
            if w:
                ctx.cover("text")
                return TEXTS[w - 2]
        return ctx.real(name)

    class A(agents.BaseAgent):
        x = None

        def init(self):
            self.x = any_value("x")

        def step(self):
            self.x = any_value("x")
            if self.model.snap.table is not None:
                if ctx.flag("event"):
                    self.model.snap.table.append((self.unique_id, self.x))
                    self.model.datacollector.add_table_row("events", {"who": self.unique_id, "what": self.x})
                    ctx.cover("event")
            if births and self.model.schedule.steps == 0 and ctx.flag("birth"):
                self.model.add_agent(A)
                ctx.cover("birth")
            return self.model.interval

    class Env(environment.Environment):
        def __init__(self, *a, **kw):
            self.snap = Snap(self, {k: v for k, v in kw.items() if k in "pqm"}, tables)
            runs.append(self.snap)
            super().__init__(*a, **kw)
            self.snap.take()

        def init(self):
            self.level = any_value("level") if gaps == "exact" else ctx.real("level")
            self.interval = ctx.real("interval", 0, lo_open=True)
            if net:
                import networkx as nx
                G = nx.DiGraph() if attrs and ctx.flag("directed") else nx.Graph()
                G.add_nodes_from(["n%d" % i for i in range(net)])
                for i in range(net):
                    if attrs:
                        G.nodes["n%d" % i].update([{}, {"kind": "a", "size": 0.0}, {"kind": "b & <c>"}, {"size": 0.1 + 0.2}][ctx.choice("attrs", 4)])
                    for j in range(i):
                        if ctx.flag("edge"):
                            G.add_edge("n%d" % i, "n%d" % j)
                            if attrs and not G.is_directed():
                                G.edges["n%d" % i, "n%d" % j]["since"] = 1.5
                        elif attrs and G.is_directed():
                            G.add_edge("n%d" % j, "n%d" % i)
                self.create_network(topology=G)

                class N(agents.NetworkAgent, A):
                    pass

                self.populate_network([N])
            for i in range(nagents):
                self.add_agent(A)
            self.add_model_reporter("level")
            if reps:
                self.add_agent_reporter("x")

        def step(self):
            self.level = any_value("level") if gaps else ctx.real("level")
            super().step()
            self.snap.take()

    return Env


def num(v):
    v = untoken(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            return v
    return v


def same(a, b):
    """numbers survive the text form of a file exactly; what is missing stays so"""
    if b is None:
        return a is None or (isinstance(a, str) and a == "") or (isinstance(a, float) and a != a)
    if isinstance(b, str):
        return str(a) == b
    if a is None:
        return False
    return num(a) == b


def rows_of(db, table):
    con = sqlite3.connect(db)
    con.row_factory = sqlite3.Row
    try:
        have = [r[0] for r in con.execute("select name from sqlite_master where type='table'")]
        if table not in have:
            return None
        return [dict(r) for r in con.execute('select * from "%s"' % table)]
    finally:
        con.close()


def csv_rows(ctx, path):
    with open(path, newline="") as f:
        rd = list(_csv.reader(f))
    ctx.check(rd and len(set(rd[0])) == len(rd[0]), "header of a CSV file")
    out = []
    for r in rd[1:]:
        ctx.check(len(r) == len(rd[0]), "shape of a CSV row")
        out.append(dict(zip(rd[0], r)))
    return out


def check_env_rows(ctx, rows, groups, simid, what):
    """groups: {(params_id, iteration id): Snap}"""
    want = sum(len(s.rows) for s in groups.values())
    ctx.check(len(rows) == want, "number of rows in " + what)
    seen = set()
    for r in rows:
        key = (str(r["params_id"]), str(r["iteration_id"]))
        ctx.check(r["simulation_id"] == simid, "simulation of a row in " + what)
        ctx.check(key in groups, "a row of an unknown run in " + what)
        if key not in groups:
            continue
        k = int(r["step"])
        ctx.check((key, k) not in seen and 0 <= k < len(groups[key].rows), "step of a row in " + what)
        if (key, k) in seen or not 0 <= k < len(groups[key].rows):
            continue
        seen.add((key, k))
        s = groups[key].rows[k]
        ctx.check(same(r["level"], s["level"]), "value in " + what)
        ctx.check(same(r["time"], s["time"]), "time in " + what)
        ctx.check(int(r["agent_count"]) == len(s["agents"]), "number of agents in " + what)
    ctx.cover("env rows")


def check_agent_rows(ctx, rows, groups, simid, what):
    want = sum(len(x["agents"]) for s in groups.values() for x in s.rows)
    ctx.check(len(rows) == want, "number of rows in " + what)
    seen = set()
    for r in rows:
        key = (str(r["params_id"]), str(r["iteration_id"]))
        ctx.check(r["simulation_id"] == simid, "simulation of a row in " + what)
        k, aid = int(r["step"]), int(r["agent_id"])
        ok = key in groups and 0 <= k < len(groups[key].rows) and aid in groups[key].rows[k]["agents"] and (key, k, aid) not in seen
        ctx.check(ok, "a row of an unknown agent or step, or a repeated one, in " + what)
        if not ok:
            continue
        seen.add((key, k, aid))
        ctx.check(same(r["x"], groups[key].rows[k]["agents"][aid]), "value in " + what)
    ctx.cover("agent rows")


def check_table(ctx, rows, groups, simid, what):
    for key, snap in groups.items():
        mine = [r for r in rows if (str(r["params_id"]), str(r["iteration_id"])) == key]
        ctx.check(len(mine) == len(snap.table), "number of rows of a table in " + what)
        if len(mine) == len(snap.table):
            for r, (who, x) in zip(mine, snap.table):
                ctx.check(int(r["who"]) == who and same(r["what"], x), "row of a table in " + what)
    ctx.check(len(rows) == sum(len(s.table) for s in groups.values()), "number of rows of a table in " + what)


KINDS = [None, "", "None", "0", False, True, 0, [], [1, "a", None], {}, {"a": [1.5]}, (), (1,), b"x"]


def same_param(text, v):
    """whether the text stored for a parameter is that of its value"""
    if isinstance(v, str):
        return text == v
    if v is None or isinstance(v, (bool, list, dict, tuple, bytes)):
        import ast
        try:
            got = ast.literal_eval(text)
        except (ValueError, SyntaxError, TypeError):
            return False
        return type(got) is type(v) and got == v
    return num(text) == v


def export(ctx, which, steps=2, nagents=1, net=0, reps=True, births=False, nmatrix=2, nfixed=1, iters=2, twice=False, group=False, api=True, tables=False, gaps=False, attrs=False, byname=False):
    """the files written against the models that were run"""
    from soil import simulation, analysis
    import networkx as nx

    _bind(ctx)
    out = scratch(ctx)
    if byname:
        old = os.getcwd()
        ctx.cleanup.insert(0, lambda: os.chdir(old))
        os.chdir(out)
        out = os.path.join(out, "soil_output") if ctx.flag("outdir") else None
    runs = []
    Env = model(ctx, runs, steps, nagents, net, reps, births, tables, gaps, attrs)
    k = iters[ctx.choice("iterations", len(iters))] if isinstance(iters, tuple) else ctx.choice("iterations", iters) + 1
    nf = ctx.choice("nfixed", nfixed + 1)
    fixed = {"p": EXACT[ctx.choice("pexact", len(EXACT))] if gaps == "exact" else KINDS[ctx.choice("pkind", len(KINDS))] if gaps == "kinds" else ctx.real("p")} if nf else {}
    m = ctx.choice("matrix", nmatrix + 1)
    matrix = {"m": [" one, \"1\"\n", 2.5, 3][:m]} if m else {}
    notes = []
    from soil import exporters as ex

    class Note(ex.Exporter):
        def iteration_end(self, env, params, params_id):
            notes.append((env, dict(params), params_id))

    total = []
    for rnd in range(2 if twice else 1):
        lo, ln = len(runs), len(notes)
        sim = simulation.Simulation(model=Env, name="result", group="grp" if group else None, outdir=out, dump=True,
                                    parameters=dict(fixed), matrix=dict(matrix), iterations=k, max_steps=steps,
                                    exporters=list(which) + [Note], level=50,
                                    tables={"events": ["who", "what"]} if tables else {})
        sim.run()
        groups = {}
        for (env, params, pid) in notes[ln:]:
            groups[(str(pid), str(env.id))] = env.snap
        ctx.check(len(groups) == len(runs) - lo == k * max(m, 1), "number of runs")
        total.append((sim, groups, notes[ln:]))
        if twice and api and "SQLite" in which:  # what is read now is not what is read later
            early = analysis.read_sql(os.path.join(out, "grp" if group else "", "result", "result.sqlite"))
            ctx.check(set(early.env.reset_index()["simulation_id"]) == {s.id for s, _, _ in total}, "simulations in read_sql()")
    if out is None:
        out = os.path.join(os.getcwd(), "soil_output")
    d = os.path.join(out, "grp", "result") if group else os.path.join(out, "result")
    if "SQLite" in which or "default" in which:
        db = os.path.join(d, "result.sqlite")
        ctx.check(os.path.exists(db), "no database was written")
        frames = None
        if api:
            frames = analysis.read_sql(name="result") if byname else analysis.read_sql(db)
        for (sim, groups, nt) in total:
            def mine(rows):
                return [r for r in rows if r["simulation_id"] == sim.id]
            ctx.check(len({r["simulation_id"] for r in rows_of(db, "env")}) == len(total), "simulations in the database")
            check_env_rows(ctx, mine(rows_of(db, "env")), groups, sim.id, "the database")
            ag = rows_of(db, "agents")
            if reps:
                check_agent_rows(ctx, mine(ag), groups, sim.id, "the database")
            else:
                ctx.check(not ag, "agents in the database")
            if tables:
                check_table(ctx, mine(rows_of(db, "events") or []), groups, sim.id, "the database")
            ctx.check(len(mine(rows_of(db, "configuration"))) == 1, "configuration in the database")
            par = mine(rows_of(db, "parameters"))
            ctx.check(len(par) == sum(len(p) for (_, p, _) in nt), "number of parameters in the database")
            for (env, params, pid) in nt:
                for (name, v) in params.items():
                    got = [r["value"] for r in par if str(r["params_id"]) == str(pid) and str(r["iteration_id"]) == str(env.id) and r["key"] == name]
                    ctx.check(len(got) == 1, "a parameter is missing in the database, or repeated")
                    if len(got) == 1:
                        ctx.check(same_param(got[0], v), "a parameter in the database")
                        ctx.cover("parameters")
            if frames is not None:
                e = frames.env.reset_index()
                e = e[e["simulation_id"] == sim.id]
                check_env_rows(ctx, e.to_dict("records"), groups, sim.id, "read_sql().env")
                if reps:
                    a = frames.agents.reset_index()
                    a = a[a["simulation_id"] == sim.id]
                    check_agent_rows(ctx, a.to_dict("records"), groups, sim.id, "read_sql().agents")
                else:
                    ctx.check(len(frames.agents) == 0, "agents in read_sql()")
                ctx.check(sim.id in list(frames.config.index), "configuration in read_sql()")
                if len(par):
                    pv = frames.parameters
                    ix = list(pv.index.names)
                    recs = pv.reset_index().to_dict("records")
                    for (env, params, pid) in nt:
                        for (name, v) in params.items():
                            got = [r[name] for r in recs if str(r["params_id"]) == str(pid) and str(r["iteration_id"]) == str(env.id)
                                   and r["simulation_id"] == sim.id]
                            ctx.check(len(got) == 1 and (same_param(got[0], v)), "a parameter in read_sql()")
                    ctx.cover("read back")
    if "csv" in which:
        for kind, chk in (("env", check_env_rows), ("agents", check_agent_rows)) + ((("events", check_table),) if tables else ()):
            if kind == "agents" and not reps:
                ctx.check(not any(f.endswith("agents.csv") for f in os.listdir(d)), "a file of agents")
                continue
            rows = []
            for i in range(k):
                p = os.path.join(d, "%d.%s.csv" % (i, kind))
                ctx.check(os.path.exists(p), "a CSV file is missing")
                got = csv_rows(ctx, p)
                ctx.check(all(r["iteration_id"] == str(i) for r in got), "a CSV file holds rows of another iteration")
                rows += got
            for (sim, groups, nt) in total:
                chk(ctx, [r for r in rows if r["simulation_id"] == sim.id], groups, sim.id, "CSV files")
            ctx.check(all(any(r["simulation_id"] == s.id for (s, _, _) in total) for r in rows), "a CSV row of no simulation")
    if "gexf" in which:
        files = [f for f in os.listdir(d) if f.endswith(".gexf")]
        for (sim, groups, nt) in total:
            ctx.check(len(files) == len(groups), "number of GEXF files")
            got = []
            for f in files:
                G = nx.read_gexf(os.path.join(d, f))
                got.append(described(G))
            want = [described(env.G) for (env, _, _) in nt]
            ctx.check(sorted(got) == sorted(want), "networks in the GEXF files")
            ctx.cover("networks")
            for (env, params, pid) in nt:
                ctx.check(all(env.agent_for_node_id(n) is not None for n in env.G), "exporting changed the network")
    ctx.observe("runs", len(runs))


def described(G):
    """what of a network a GEXF file has to hold, in some order"""
    nodes = sorted((n, sorted((k, repr(v)) for (k, v) in d.items() if k not in ("agent", "label"))) for (n, d) in G.nodes(data=True))
    edges = sorted((list((a, b) if G.is_directed() else sorted((a, b))), sorted((k, repr(v)) for (k, v) in d.items() if k != "id"))
                   for (a, b, d) in G.edges(data=True))
    return (str(G.is_directed()) if edges else "", nodes, edges)


def geometric(ctx, n):
    """network.dump_gexf"""
    import copy
    import io
    import networkx as nx
    from soil import environment, network

    G = nx.Graph()
    for i in range(n):
        G.add_node("n%d" % i, **({"pos": (0.1 + 0.2, float(i))} if ctx.flag("pos") else {}), **({"size": 0.1 * i} if ctx.flag("size") else {}))
        for j in range(i):
            if ctx.flag("edge"):
                G.add_edge("n%d" % i, "n%d" % j)
    env = environment.Environment(topology=G)
    before = (copy.deepcopy(dict(env.G.nodes(data=True))), copy.deepcopy(list(env.G.edges(data=True))))
    for _ in range(1 + ctx.choice("again", 2)):
        f = io.BytesIO()
        network.dump_gexf(env.G, f)
        ctx.check((dict(env.G.nodes(data=True)), list(env.G.edges(data=True))) == before, "writing a network changed it")
        f.seek(0)
        H = nx.read_gexf(f)
        ctx.check(set(H.nodes) == set(G.nodes) and {frozenset(e) for e in H.edges} == {frozenset(e) for e in G.edges}, "network in a GEXF file")
        for (k, d) in H.nodes(data=True):
            pos = G.nodes[k].get("pos")
            if pos:
                p = (d.get("viz") or {}).get("position") or {}
                ctx.check(p.get("x") == pos[0] and p.get("y") == pos[1], "position of a node in a GEXF file")
            ctx.check(d.get("size") == G.nodes[k].get("size"), "attribute of a node in a GEXF file")
        ctx.cover("dumped")


def cases(tier):
    q = tier == "quick"
    out = []

    def add(name, covers, **kw):
        out.append(case(name, export, kwargs=kw, covers=covers,
                        bounds="up to 2 iterations, 0..%d values in the matrix, 0..1 fixed parameters, %d steps; every value, time and delay any real; network of %d nodes with any edges" % (
                            kw.get("nmatrix", 2), kw.get("steps", 2), kw.get("net", 0))))

    n = 2 if q else 3
    add("sqlite", ["env rows", "agent rows", "parameters", "read back"], which=["SQLite"], nmatrix=n, steps=n)
    add("sqlite-births", ["birth", "agent rows"], which=["SQLite"], nmatrix=1, nfixed=0, births=True, nagents=2, steps=2)
    add("sqlite-no-agents", ["env rows"], which=["SQLite"], reps=False, nmatrix=2)
    add("sqlite-twice", ["env rows", "agent rows"], which=["SQLite"], twice=True, nmatrix=2, iters=1 if q else 2)
    add("default-group", ["env rows", "agent rows"], which=["default"], nmatrix=1, group=True)
    add("csv", ["env rows", "agent rows"], which=["csv"], nmatrix=n, steps=n)
    add("csv-births", ["birth", "agent rows"], which=["csv"], nmatrix=1, nfixed=0, births=True, nagents=2, steps=2)
    add("csv-no-agents", ["env rows"], which=["csv"], reps=False, nmatrix=2)
    add("csv-twice", ["env rows", "agent rows"], which=["csv"], twice=True, nmatrix=2, iters=1 if q else 2)
    add("sqlite-table", ["event"], which=["SQLite"], tables=True, nmatrix=2, iters=1, nfixed=0, steps=2)
    add("csv-table", ["event"], which=["csv"], tables=True, nmatrix=2, iters=1, nfixed=0, steps=2)
    add("sqlite-wide", ["env rows", "agent rows", "parameters", "read back"], which=["SQLite"], nmatrix=3, nfixed=1, iters=(12,), nagents=2, steps=1)
    add("csv-wide", ["env rows", "agent rows"], which=["csv"], nmatrix=3, nfixed=0, iters=(12,), nagents=2, steps=1)
    add("csv-many-agents", ["env rows", "agent rows"], which=["csv", "SQLite"], nmatrix=0, nfixed=0, iters=1, nagents=12, steps=2)
    add("csv-long", ["env rows", "agent rows"], which=["csv", "SQLite"], nmatrix=0, nfixed=0, iters=1, nagents=1, steps=12)
    for s in ("SQLite", "csv"):
        add(s.lower() + "-gaps", ["nothing", "env rows", "agent rows"], which=[s], gaps=True, nmatrix=0, nfixed=0, iters=1, nagents=2 if not q else 1, steps=2)
        add(s.lower() + "-texts", ["text", "nothing", "env rows", "agent rows"], which=[s], gaps="text", nmatrix=0, nfixed=0, iters=1, nagents=1, steps=1)
        add(s.lower() + "-exact", ["exact", "env rows", "agent rows"], which=[s], gaps="exact", nmatrix=0, nfixed=1, iters=1, nagents=1, steps=1)
    add("sqlite-kinds", ["parameters", "read back"], which=["SQLite"], gaps="kinds", nmatrix=1, nfixed=1, iters=1, nagents=1, steps=1, reps=False)
    add("sqlite-by-name", ["env rows", "agent rows", "read back"], which=["SQLite"], byname=True, nmatrix=2, steps=1, iters=1)
    add("gexf-attributes", ["networks"], which=["gexf"], net=2, nagents=0, nmatrix=0, nfixed=0, steps=0, iters=1, attrs=True, reps=False)
    out.append(case("geometric", geometric, kwargs=dict(n=2 if q else 3), bounds="up to %d nodes with any edges, with or without position" % (2 if q else 3), covers=["dumped"]))
    add("gexf-wide", ["networks"], which=["gexf"], net=1, nagents=0, nmatrix=0, nfixed=0, steps=1, iters=(11,))
    add("gexf", ["networks"], which=["gexf"], net=2, nagents=0, nmatrix=2, nfixed=0, steps=1)
    add("gexf-3", ["networks"], which=["gexf"], net=3, nagents=0, nmatrix=0, nfixed=0, steps=1, iters=1 if q else 2)
    add("all", ["env rows", "agent rows", "networks"], which=["SQLite", "csv", "gexf"], net=2, nagents=0, nmatrix=2, nfixed=0, iters=1, steps=1)
    return out
