"""C16: same seed, same results.

Self-composition: a scenario is run twice.  Both runs see the same draws of the
model's own random generator (a tape of arbitrary values); everything else a
result might wrongly depend on (the global random generators, the wall clock, the
hash order of node labels, other models in the process) is arbitrary and
independent in the two runs.  The traces must be equal for all values."""
import os

from .common import *


class Tape(SymRandom):
    """The model's generator: the first reader extends the tape, later ones replay it."""

    def __init__(self, ctx, tape, mode="any", tag="rng"):
        super().__init__(ctx, mode, tag)
        self.tape = tape
        self.pos = 0

    def _next(self, what, n, make):
        if self.pos < len(self.tape):
            w, m, v = self.tape[self.pos]
            if (w, m) != (what, n):
                self.ctx.check(False, "the two runs ask the model's generator for different numbers")
                raise StopCase()
        else:
            v = make()
            if what == "random" and self.ctx.symbolic:
                for (w, _, p) in self.tape:
                    if w == "random":
                        self.ctx.assume(v != p)
            self.tape.append((what, n, v))
        self.pos += 1
        return v

    def _c(self, what, n):
        if n <= 0:
            raise IndexError("cannot choose from an empty sequence")
        return self._next(what, n, lambda: super(Tape, self)._c(what, n))

    def random(self):
        return self._next("random", None, lambda: super(Tape, self).random())

    def getrandbits(self, k):
        return self._next("bits", k, lambda: super(Tape, self).getrandbits(k))


class Stream:
    """a generator of numpy: its draws, in order, are those of a tape"""

    def __init__(self, ctx, tape, tag):
        self.ctx, self.tape, self.tag, self.pos = ctx, tape, tag, 0

    def _draw(self, *what):
        if self.pos < len(self.tape) and self.tape[self.pos][0] == what:
            v = self.tape[self.pos][1]
        else:
            v = self.ctx.real(self.tag)
            self.tape[self.pos:] = [(what, v)]
        self.pos += 1
        return v

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is not None:
            return [self.normal(loc, scale) for _ in range(size)]
        return self._draw("normal", loc, scale)

    def uniform(self, low=0.0, high=1.0):
        return self._draw("uniform", low, high)

    def random(self):
        return self._draw("random")


class Label:
    """A node label whose hash (as that of strings in Python) changes from run to run."""

    def __init__(self, name, h):
        self.name, self.h = name, h

    def __eq__(self, o):
        return isinstance(o, Label) and self.name == o.name

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "L" + self.name

    def __deepcopy__(self, memo):
        return self


NAMES = ("random", "shuffle", "choice", "choices", "sample", "randint", "randrange", "uniform", "getrandbits")


def _fixed(x):
    """does the hash of this value stay the same from process to process?"""
    if isinstance(x, (str, bytes)):
        return False
    if isinstance(x, (tuple, frozenset)):
        return all(map(_fixed, x))
    return type(x).__hash__ not in (object.__hash__, type.__hash__)


AMBIENT = [None]


def _again(name):
    def op(self, *a):
        r = getattr(set, name)(self, *a)
        return AnySet(r) if type(r) is set else r

    return op


class _AnySet(type):
    def __instancecheck__(cls, x):
        return isinstance(x, set)


class AnySet(set, metaclass=_AnySet):
    """a set that goes through its texts and objects in the order of hashes which are
    those of some process"""

    def __iter__(self):
        xs = list(set.__iter__(self))
        odd = [x for x in xs if not _fixed(x)]
        if len(odd) > 1 and AMBIENT[0] is not None:
            odd = AMBIENT[0].order(odd)
            return iter([x for x in xs if _fixed(x)] + odd)
        return iter(xs)

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError("pop from an empty set")

    def copy(self):
        return AnySet(set.copy(self))

    def __reduce__(self):
        return (set, (list(set.__iter__(self)),))


for _n in ("__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__", "union", "intersection", "difference", "symmetric_difference"):
    setattr(AnySet, _n, _again(_n))

_SWAP = []


def _swaps():
    """functions of soil that have set displays, and what they would be with set(...)"""
    import ast
    import gc
    import sys
    import types

    if _SWAP:
        return _SWAP[0]

    class T(ast.NodeTransformer):
        n = 0

        def visit_Set(self, node):
            self.generic_visit(node)
            self.n += 1
            return ast.copy_location(ast.Call(ast.Name("set", ast.Load()), [ast.List(node.elts, ast.Load())], []), node)

        def visit_SetComp(self, node):
            self.generic_visit(node)
            self.n += 1
            return ast.copy_location(ast.Call(ast.Name("set", ast.Load()), [ast.ListComp(node.elt, node.generators)], []), node)

    codes = {}

    def collect(c):
        codes[c.co_filename, c.co_firstlineno, c.co_name] = c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                collect(k)

    for name, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if (name == "soil" or name.startswith("soil.")) and f and os.path.exists(f):
            with open(f) as src:
                text = src.read()
            t = T()
            try:
                tree = ast.fix_missing_locations(t.visit(ast.parse(text)))
                if t.n:
                    collect(compile(tree, f, "exec", dont_inherit=True))
            except SyntaxError:
                continue
    out = []
    if codes:
        for f in [x for x in gc.get_objects() if isinstance(x, types.FunctionType)]:
            new = codes.get((f.__code__.co_filename, f.__code__.co_firstlineno, f.__code__.co_name))
            if new is not None and new.co_freevars == f.__code__.co_freevars:
                out.append((f, f.__code__, new))
    _SWAP.append(out)
    return out


class ambient:
    """Everything outside the model that is random: arbitrary in each run."""

    def __init__(self, ctx, run, seeded=None):
        self.ctx, self.run = ctx, run
        self.seeded = seeded if seeded is not None else []
        self.hashes = {}
        self.up, self.seen, self.addresses = None, [], []

    def hash(self, x):
        """that of a text changes from process to process"""
        if isinstance(x, (str, bytes)):
            if x not in self.hashes:
                self.hashes[x] = self.ctx.int("hash%d" % self.run)
            return self.hashes[x]
        return hash(x)

    def order(self, xs):
        """of a set: that of this process, or its contrary"""
        if self.up is None:
            self.up = self.run == 0 or not self.ctx.flag("order%d" % self.run)
        for x in xs:
            if not any(x is y or (isinstance(x, (str, bytes, tuple)) and x == y) for y in self.seen):
                self.seen.append(x)
        ix = {}
        for (i, y) in enumerate(self.seen):
            ix[y if isinstance(y, (str, bytes, tuple)) else id(y)] = i
        return sorted(xs, key=lambda x: ix[x if isinstance(x, (str, bytes, tuple)) else id(x)], reverse=not self.up)

    def address(self, x):
        """id(): objects are anywhere in memory"""
        for (y, v) in self.addresses:
            if y is x:
                return v
        v = self.ctx.int("address%d" % self.run)
        for (_, w) in self.addresses:
            self.ctx.assume(v != w)
        self.addresses.append((x, v))
        return v

    def generator(self, seed=None):
        """numpy's generators: decided by their seed, arbitrary without one"""
        if seed is None:
            return Stream(self.ctx, [], "fresh")
        for (s, t) in self.seeded:
            if s == seed:
                return Stream(self.ctx, t, "seeded")
        self.seeded.append((seed, []))
        return Stream(self.ctx, self.seeded[-1][1], "seeded")

    def __enter__(self):
        import random
        import sys
        import time

        self.saved = []
        self.added = []
        g = SymRandom(self.ctx, "any", "ambient%d" % self.run)
        self.g = g
        for n in NAMES:
            self._set(random, n, getattr(g, n))
        try:
            import numpy as np

            self._set(np.random, "rand", lambda *a: g.random())
            self._set(np.random, "random", lambda *a: g.random())
            self._set(np.random, "choice", lambda seq, *a, **k: g.choice(list(seq)))
            self._set(np.random, "shuffle", g.shuffle)
            self._set(np.random, "default_rng", self.generator)
            self._set(np.random, "RandomState", self.generator)
        except ImportError:
            pass
        self.swapped = _swaps()
        for (f, old, new) in self.swapped:
            f.__code__ = new
        AMBIENT[0] = self
        clock = 1.0e9 + self.run * 12345.678
        for name, m in list(sys.modules.items()):
            if name == "soil" or name.startswith("soil."):
                for (n, v) in (("hash", self.hash), ("set", AnySet), ("id", self.address)):
                    if n not in m.__dict__:
                        setattr(m, n, v)
                        self.added.append((m, n))
                if hasattr(m, "current_time"):
                    self._set(m, "current_time", lambda: clock)
        return self

    def _set(self, m, n, v):
        self.saved.append((m, n, getattr(m, n)))
        setattr(m, n, v)

    def __exit__(self, *exc):
        for m, n, v in reversed(self.saved):
            setattr(m, n, v)
        for (m, n) in self.added:
            delattr(m, n)
        for (f, old, new) in self.swapped:
            f.__code__ = old
        AMBIENT[0] = None
        return False


def labels(ctx, run, n, mode):
    if mode == "int":
        return list(range(n))
    order = list(range(n)) if run == 0 else ctx.permutation("hash", n)
    return [Label("n%d" % i, order[i]) for i in range(n)]


def envclass(ctx, tape, base, mode="any"):
    class Env(base):
        def __new__(c, *a, **k):
            self = super().__new__(c, *a, **k)
            self.random = Tape(ctx, tape, mode)
            return self

    return Env


def same(ctx, a, b, label):
    """deep equality of two traces, as conditions"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        ctx.check(len(a) == len(b), label + " (length)")
        if len(a) == len(b):
            for x, y in zip(a, b):
                same(ctx, x, y, label)
        return
    if isinstance(a, dict) and isinstance(b, dict):
        ctx.check(list(a) == list(b), label + " (keys)")
        if list(a) == list(b):
            for k in a:
                same(ctx, a[k], b[k], label)
        return
    ctx.check(a == b, label)


# ------------------------------------------------------------------ scenarios
# each takes (ctx, tape, run, nlabels) and returns a trace


def s_sched(ctx, tape, run, sched="timed", n=2, steps=3, kind="base"):
    from soil import agents, environment

    trace = []
    Env = envclass(ctx, tape, environment.BaseEnvironment)

    class A(agents.BaseAgent):
        def step(self):
            r = self.random.random()
            luck = self.prob(0.5)
            trace.append((self.unique_id, self.now, r, luck))
            return 1 if luck else 2

    class G(agents.BaseAgent):
        def step(self):
            while True:
                trace.append((self.unique_id, self.now, self.model.random.random()))
                yield 2

    env = Env(schedule_class=scheduler(sched))
    for i in range(n):
        env.add_agent(G if kind == "gen" and i else A)
    for _ in range(steps):
        env.step()
        trace.append(("time", env.now, env.count_agents()))
    return trace


def s_network(ctx, tape, run, n=3, lab="label", how="populate", steps=1):
    import networkx as nx
    from soil import agents, environment

    trace = []
    Env = envclass(ctx, tape, environment.Environment)
    ls = labels(ctx, run, n, lab)
    G = nx.Graph()
    G.add_nodes_from(ls)
    for a, b in zip(ls, ls[1:]):
        G.add_edge(a, b)

    class A(agents.Agent):
        @agents.default_state
        @agents.state
        def one(self):
            trace.append((self.unique_id, str(self.node_id), self.now, [a.unique_id for a in self.get_neighbors()],
                          [a.unique_id for a in self.get_agents(limit_neighbors=True, limit=1)]))
            if self.prob(0.5):
                return self.two
            return None

        @agents.state
        def two(self):
            trace.append((self.unique_id, "two", self.count_neighbors(state_id="two")))

    class B(A):
        pass

    if how == "generator":
        def gen(seed=None, k=n):
            if seed is None:
                import random as seed
            H = nx.Graph()
            H.add_nodes_from(ls)
            for a, b in zip(ls, ls[1:]):
                if seed.random() < 0.5:
                    H.add_edge(a, b)
            return H

        env = Env(network_generator=gen, network_params=dict(k=n), schedule_class=scheduler("ordered"))
        env.populate_network(A)
    else:
        env = Env(topology=G, schedule_class=scheduler("ordered"))
        if how == "populate":
            env.populate_network([A, B])
        elif how == "auto":
            for i in range(n + 1):
                env.add_agent(A)
        elif how == "nodes":
            for i in range(n + 1):
                env.add_node(A)
        elif how == "agents":
            env.add_agents([A, B], k=2, weights=[1, 2])
    trace.append([(type(a).__name__, a.unique_id, str(a.node_id)) for a in env.get_agents()])
    trace.append([str(x) for x in env.G.nodes])
    trace.append([(str(a), str(b)) for a, b in env.G.edges])
    trace.append([a.unique_id for a in env.network_agents])
    for _ in range(steps):
        env.step()
    trace.append([str(x) for x in env.agent(0).subgraph(limit_neighbors=True).nodes] if lab == "int" else None)
    return trace


def s_events(ctx, tape, run, steps=2, n=2):
    from soil import agents, environment

    trace = []
    Env = envclass(ctx, tape, environment.EventedEnvironment)

    class A(agents.EventedAgent):
        def step(self):
            self.process_messages()
            self.model.broadcast(("hi", self.unique_id), sender=self, ttl=5)
            yield 1
            self.process_messages()

        def on_receive(self, msg, sender=None):
            trace.append((self.unique_id, msg, sender.unique_id, self.now))

    env = Env()
    for i in range(n):
        env.add_agent(A)
    for _ in range(steps):
        env.step()
    return trace


def s_simulation(ctx, tape, run, iters=2, steps=2):
    """a whole Simulation, results included; the generator of iteration i is a tape of its own"""
    from soil import agents, environment, simulation

    trace = []
    tapes = tape

    class A(agents.BaseAgent):
        value = 0

        def step(self):
            self.value = self.random.random()
            trace.append((self.model.id, self.unique_id, self.now, self.value))

    class Env(environment.BaseEnvironment):
        def __new__(c, *a, **k):
            self = super().__new__(c, *a, **k)
            t = [x for x in tapes if x[0] == k.get("seed")]
            if not t:
                t = [(k.get("seed"), [])]
                tapes.append(t[0])
            self.random = Tape(ctx, t[0][1])
            return self

        def init(self):
            self.add_agent(A)
            self.add_agent(A)

    res = simulation.Simulation(model=Env, iterations=iters, max_steps=steps, name="repro", dump=False, exporters=[],
                                agent_reporters={"value": "value"}, level=50, seed="seed").run()
    for env in res:
        d = env.agent_df(steps=True)
        trace.append([tuple(i) for i in d.index])
        trace.append(list(d["value"]))
        trace.append(env.id)
    return trace


SISA = ("neutral_discontent_spon_prob", "neutral_discontent_infected_prob", "neutral_content_spon_prob",
        "neutral_content_infected_prob", "discontent_neutral", "discontent_content", "variance_d_c",
        "content_discontent", "variance_c_d", "content_neutral", "standard_variance")


def s_library(ctx, tape, run, which="SISaModel", steps=1, seed="text", spread={}):
    """the agents soil comes with, whatever generators they use"""
    import networkx as nx
    from soil import agents, environment

    Env = envclass(ctx, tape, environment.Environment)
    params = {}
    if which == "SISaModel":
        params = {k: 0.5 for k in SISA}
        params.update(spread)
    elif which == "BassModel":
        params = dict(innovation_prob=0.5, imitation_prob=0.5)
    elif which == "IndependentCascadeModel":
        params = dict(innovation_prob=0.5, imitation_prob=0.5)
    cls = getattr(agents, which)
    env = Env(topology=nx.path_graph(2), seed={"text": "hello", "bytes": b"hello", "int": 5}[seed],
              schedule_class=scheduler("ordered"), **params)
    env.populate_network(cls.w(**params) if which == "BassModel" else cls)
    trace = []
    for _ in range(steps + 1):
        for a in env.agents:
            trace.append((a.unique_id, str(a.node_id), a.get("state_id"),
                          [a.get(k) for k in SISA if which == "SISaModel" and k in a.keys()]))
        env.step()
    return trace


SCENARIOS = dict(sched=s_sched, network=s_network, events=s_events, simulation=s_simulation, library=s_library)


def compose(ctx, scenario, **kw):
    tape = []
    traces = []
    seeded = []
    for run in range(2):
        with ambient(ctx, run, seeded):
            traces.append(SCENARIOS[scenario](ctx, tape, run, **kw))
    same(ctx, traces[0], traces[1], "two runs with the same random draws differ")
    ctx.cover("compared")
    ctx.observe("events", len(traces[0]))


def isolated(ctx, scenario, **kw):
    """a run alone, and a run among other models of the process that draw and step in between"""
    from soil import agents, environment

    tape = []
    with ambient(ctx, 0):
        alone = SCENARIOS[scenario](ctx, tape, 0, **kw)
    other = []

    class Noise(agents.BaseAgent):
        def step(self):
            other.append(self.random.random())

    class NoiseEnv(environment.BaseEnvironment):
        def init(self):
            self.add_agent(Noise)

    noise = NoiseEnv()
    hooked = environment.BaseEnvironment.step

    def step(self, *a, **k):
        if not isinstance(self, NoiseEnv):
            if ctx.flag("interleave"):
                noise.step()
                noise.add_agent(Noise)
                ctx.cover("interleaved")
        return hooked(self, *a, **k)

    environment.BaseEnvironment.step = step
    try:
        with ambient(ctx, 1):
            among = SCENARIOS[scenario](ctx, tape, 0 if kw.get("lab") != "label" else 1, **kw)
    finally:
        environment.BaseEnvironment.step = hooked
    same(ctx, alone, among, "a run is affected by another model in the process")


def seeds(ctx, n):
    """the generator of an iteration is decided by the simulation's seed and the iteration"""
    from soil import agents, environment, simulation

    class A(agents.BaseAgent):
        def step(self):
            self.first.append(self.random.random())

        def init(self):
            self.first = []

    class Env(environment.BaseEnvironment):
        def init(self):
            self.draw = [self.random.random() for _ in range(3)]
            self.add_agent(A)

    menu = ["default", "other", "", "x_iteration_1"]
    def run(seed, iters, run_, **kw):
        k = dict(seed=menu[seed]) if seed is not None else {}
        with_clock = 1.0e9 * (1 + run_)
        import soil.simulation as ss
        old = ss.current_time
        ss.current_time = lambda: with_clock
        try:
            return simulation.Simulation(model=Env, iterations=iters, max_steps=1, name="seeds", dump=False, exporters=[], level=50, **k, **kw).run()
        finally:
            ss.current_time = old

    s1 = ctx.choice("seed", len(menu))
    s2 = ctx.choice("seed2", len(menu))
    n1 = 1 + ctx.choice("iterations", n)
    n2 = 1 + ctx.choice("iterations2", n)
    extra = dict(matrix={"extra": [1, 2]}) if ctx.flag("matrix") else {}
    import random
    st = random.getstate()
    try:
        random.seed(1)
        a = run(s1, n1, 0)
        random.seed(2)
        b = run(s2, n2, 1, **extra)
    finally:
        random.setstate(st)
    for ea in a:
        for eb in b:
            if s1 == s2 and ea.id == eb.id:
                ctx.check(ea.draw == eb.draw and ea.agent(0).first == eb.agent(0).first, "the same seed and iteration gave different draws")
                ctx.cover("same")
            elif ea.id != eb.id and s1 == s2:
                ctx.check(ea.draw != eb.draw, "two iterations have the same draws")
                ctx.cover("different")
            elif ea.id == eb.id:
                ctx.check(ea.draw != eb.draw, "two seeds give the same draws")
    ctx.check(len({tuple(e.draw) for e in a}) == len(a), "two iterations of one run have the same draws")


def direct(ctx):
    """environments created by hand"""
    from soil import environment

    import random
    menu = [None, 1, "a", "b"]
    i, j = ctx.choice("s1", 4), ctx.choice("s2", 4)

    def mk(k, g):
        st = random.getstate()
        random.seed(g)
        try:
            e = environment.Environment(**({} if menu[k] is None else dict(seed=menu[k])))
        finally:
            random.setstate(st)
        return [e.random.random() for _ in range(3)]

    x, y = mk(i, 5), mk(j, 6)
    ctx.check((x == y) == (i == j), "draws are not decided by the seed")
    ctx.cover("direct")


def cases(tier):
    q = tier == "quick"
    out = []

    def add(name, scenario, bounds, fn=compose, covers=("compared",), **kw):
        out.append(case(name, fn, kwargs=dict(scenario=scenario, **kw), bounds=bounds + "; every draw of every generator, every hash order", covers=list(covers)))

    for s in ("timed", "ordered", "pqueue", "pqueue-ordered"):
        add("sched-" + s, "sched", "2 agents, 3 steps", sched=s, n=2, steps=(2 if s == "pqueue" else 3) if q else 3)
        add("sched-gen-" + s, "sched", "2 agents, 2 steps", sched=s, n=2, steps=2 if q else 3, kind="gen")
    for how in ("populate", "auto", "nodes", "agents", "generator"):
        n = 2 if q else 3
        add("network-%s-label" % how, "network", "%d nodes with run-dependent hashes" % n, n=n if how != "generator" else 3, lab="label", how=how)
        add("network-%s-int" % how, "network", "2 nodes", n=2, lab="int", how=how)
    add("events", "events", "2 agents, 2 steps", n=2, steps=2 if q else 3)
    add("simulation", "simulation", "2 iterations of 2 steps", iters=2, steps=2 if q else 3)
    for seed in ("text", "bytes", "int"):
        add("library-SISaModel-" + seed, "library", "2 nodes, %d steps" % (0 if q else 1), which="SISaModel", seed=seed, steps=0 if q else 1)
    for (k, v) in dict(none=dict(standard_variance=0), zero=dict.fromkeys(SISA, 0), one=dict.fromkeys(SISA, 1)).items():
        add("library-SISaModel-" + k, "library", "2 nodes, initial states", which="SISaModel", steps=0, spread=v)
    for w in ("BassModel", "IndependentCascadeModel", "CounterModel"):
        add("library-" + w, "library", "2 nodes, 2 steps", which=w, steps=1)
    add("isolated-sched", "sched", "2 agents, 3 steps", fn=isolated, covers=["interleaved"], sched="timed", n=2, steps=3 if q else 4)
    add("isolated-network", "network", "2 nodes", fn=isolated, covers=["interleaved"], n=2, lab="label", how="auto", steps=2)
    add("isolated-events", "events", "2 agents", fn=isolated, covers=["interleaved"], n=2, steps=2)
    out.append(case("seeds", seeds, kwargs=dict(n=2 if q else 3), bounds="4 seeds, 1-3 iterations, with and without a matrix", covers=["same", "different"]))
    out.append(case("direct", direct, bounds="4 seeds", covers=["direct"]))
    return out
