"""C13: the initial state of agents and environments, and their mapping interface."""
from .common import *


def _val(ctx, name):
    return ctx.int(name, -1, 2)


def precedence(ctx, base, inherit, n=2, how="attr", late=False):
    """Each attribute may or may not be declared in the base class, in the class, set in
    the model (possibly to None), and given at creation."""
    import networkx as nx
    from soil import agents, environment

    kw_net = {}
    if base in ("NetworkAgent", "Agent"):
        G = nx.Graph()
        G.add_nodes_from(range(n))
        kw_net = dict(topology=G)
    names = ["alpha"] if inherit else ["alpha", "beta"]
    decl_base, decl_sub, in_model, given = {}, {}, {}, {}
    for nm in names:
        if inherit:
            if ctx.flag("base_" + nm):
                decl_base[nm] = _val(ctx, "b_" + nm)
            if ctx.flag("sub_" + nm):
                decl_sub[nm] = _val(ctx, "s_" + nm) if ctx.flag("subval_" + nm) else None
        else:
            decl_sub[nm] = _val(ctx, "s_" + nm)
        m = ctx.choice("model_" + nm, 3)
        if m:
            in_model[nm] = _val(ctx, "m_" + nm) if m == 1 else None
    body_base = dict(decl_base)
    body_sub = dict(decl_sub)
    if how == "defaults":
        body_base = {"defaults": dict(decl_base)}
        body_sub = {"defaults": dict(decl_sub)}
    root = getattr(agents, base)
    Base = type("Base", (root,), dict(body_base, step=lambda self: None))
    Sub = type("Sub", (Base,), body_sub)
    if how == "w":
        Sub = Base.w(**decl_sub)
    envbase = environment.Environment if base in ("NetworkAgent", "Agent") else environment.BaseEnvironment
    env = make_env(ctx, "timed", rng="fixed", base=envbase, **in_model, **kw_net)
    for nm in names:
        if nm in in_model:
            ctx.check(nm in env and env[nm] is in_model[nm] and env.get(nm) is in_model[nm], "parameter of the environment")
        else:
            ctx.check(nm not in env and env.get(nm, "dflt") == "dflt", "attribute appeared in the environment")
    ags = []
    for i in range(n):
        kw = {}
        for nm in names:
            g = ctx.choice("given%d_%s" % (i, nm), 3 if i == 0 else 2)
            if g:
                kw[nm] = _val(ctx, "g_" + nm) if g == 1 else None
        ags.append((env.add_agent(Sub, **kw), kw))
    missing = object()
    for a, kw in ags:
        for nm in names:
            declared = nm in decl_base or nm in decl_sub
            dflt = decl_sub.get(nm, decl_base.get(nm, missing)) if nm in decl_sub or nm in decl_base else missing
            if nm in kw:
                want = kw[nm]
                ctx.cover("given")
            elif declared and in_model.get(nm) is not None:
                want = in_model[nm]
                ctx.cover("from the model")
            elif declared:
                want = dflt
                ctx.cover("default")
            else:
                want = missing
            if want is missing:
                ctx.check(not hasattr(a, nm) and nm not in a, "an undeclared attribute appeared in the agent")
                ctx.check(nm not in list(a.keys()), "an undeclared attribute appeared in the agent's keys")
                got = a.get(nm, "dflt")
                if nm in in_model:
                    ctx.check(got is in_model[nm], "get() does not fall back to the environment")
                else:
                    ctx.check(got == "dflt", "get() does not fall back to its default")
                continue
            got = getattr(a, nm, missing)
            ctx.check(got is not missing, "a declared attribute is missing")
            if got is missing:
                continue
            if want is None or got is None:
                ctx.check(want is got, "initial value of an attribute")
            else:
                ctx.check(got == want, "initial value of an attribute")
            ctx.check(nm in a and a[nm] is got and a.get(nm, 7) is got, "mapping access to an attribute")
            ctx.check(nm in list(a.keys()), "an attribute is missing from the agent's keys")
            ctx.observe("value", got)


def diamond(ctx, base, how):
    """several base classes: the first one that declares an attribute, in the method resolution order, wins"""
    from soil import agents, environment

    root = getattr(agents, base)

    def mk(name, parents, body=()):
        body = dict(body)
        return type(name, parents, {"defaults": body} if how == "defaults" and body else body)

    Root = type("Root", (root,), dict(step=lambda self: None))
    want = {}
    classes = {}
    joined = ctx.flag("joined")
    for nm, parents in (("Top", (Root,)), ("Right", ("Top",)), ("Left", ("Top",) if joined else (Root,)), ("Bottom", ("Left", "Right"))):
        body = {}
        for attr in ("x", "y"):
            if (nm == "Top" or attr == "x") and ctx.flag(nm + attr):
                body[attr] = want[attr] = _val(ctx, "v" + nm)
                ctx.cover("declared")
        classes[nm] = mk(nm, tuple(classes.get(p, p) if isinstance(p, str) else p for p in parents), body)
    env = make_env(ctx, "timed", rng="fixed", base=environment.BaseEnvironment)
    a = env.add_agent(classes["Bottom"])
    for attr in ("x", "y"):
        ctx.check((attr in a) == (attr in want) and (attr in list(a.keys())) == (attr in want), "attributes of an agent with several base classes")
        if attr in want and attr in a:
            ctx.check(a[attr] == want[attr], "value of an attribute of an agent with several base classes")
    for nm, c in classes.items():
        if nm != "Bottom":
            env.add_agent(c)
    ctx.check(all(a[k] == want[k] for k in want), "creating other agents changed this one")


def chain(ctx, base, how, depth):
    """a long line of classes: the most derived declaration wins, whatever the values' types; siblings stay apart"""
    from soil import agents, environment

    root = getattr(agents, base)
    VALUES = [0, "", False, None, 1.5, "text", (), True]
    cls = type("K0", (root,), dict(step=lambda self: None))
    want = {}
    line = [(cls, {})]
    for i in range(depth):
        body = {}
        if ctx.flag("declares%d" % i):
            body["x"] = ctx.int("x%d" % i, -1, 2)
            ctx.cover("declared")
        body["y%d" % i] = VALUES[i % len(VALUES)]
        if i % 3 == 0:
            body["z"] = VALUES[(i + 1) % len(VALUES)]
        if how == "w":
            cls = cls.w(**body)
        else:
            cls = type("K%d" % (i + 1), (cls,), {"defaults": dict(body)} if how == "defaults" else dict(body))
        want = dict(want, **body)
        line.append((cls, want))
    env = make_env(ctx, "timed", rng="fixed", base=environment.BaseEnvironment)
    made = [(env.add_agent(c), w) for c, w in (line if ctx.flag("downwards") else line[::-1])]
    names = sorted(set(k for k in want))
    for a, w in made:
        for nm in names:
            ctx.check((nm in a) == (nm in w) and (nm in list(a.keys())) == (nm in w), "attributes of an agent of a derived class")
            if nm in w and nm in a:
                v = a[nm]
                ctx.check(v is w[nm] if nm != "x" else v == w[nm], "value of an attribute of an agent of a derived class")


SHAPES = {
    "list": lambda v: [v], "dict": lambda v: {"k": v}, "nested": lambda v: {"k": [v]},
    "deep": lambda v: [[{"k": [v]}]], "set": lambda v: {7},
    "deque": lambda v: __import__("collections").deque([v]), "bytearray": lambda v: bytearray(b"7"),
    "counter": lambda v: __import__("collections").Counter(a=3), "object": lambda v: Box([v]),
    "in-tuple": lambda v: ([v], 3), "subclass": lambda v: Strange([v]), "defaultdict": lambda v: __import__("collections").defaultdict(list, k=[v]),
}


class Box:
    def __init__(self, inner):
        self.inner = inner

    def __eq__(self, other):
        return isinstance(other, Box) and self.inner == other.inner


class Strange(list):
    pass


def _mutate(o):
    """change every mutable container inside"""
    if isinstance(o, list):
        for x in list(o):
            _mutate(x)
        o.append(99)
    elif isinstance(o, dict):
        for x in list(o.values()):
            _mutate(x)
        o["new"] = 99
    elif isinstance(o, set):
        o.add(99)
    elif isinstance(o, bytearray) or hasattr(o, "appendleft"):
        o.append(99)
    elif isinstance(o, Box):
        _mutate(o.inner)
    elif isinstance(o, tuple):
        for x in o:
            _mutate(x)


def _same(a, b):
    """deep equality as a condition"""
    if isinstance(a, (list, tuple)) and isinstance(b, type(a)):
        return And([_same(x, y) for x, y in zip(a, b)]) if len(a) == len(b) and a else len(a) == len(b)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return And([_same(a[k], b[k]) for k in a]) if a else True
    if isinstance(a, Box) and isinstance(b, Box):
        return _same(a.inner, b.inner)
    if hasattr(a, "appendleft") and hasattr(b, "appendleft"):
        return _same(list(a), list(b))
    return a == b


def isolation(ctx, base, how, shape, inherit=False):
    """mutable defaults: private to each agent, in any order of creation and mutation"""
    import networkx as nx
    from soil import agents, environment

    v = _val(ctx, "v")
    mk = SHAPES[shape]
    source = mk(v)
    body = dict(step=lambda self: None)
    if how == "defaults":
        body["defaults"] = {"data": source}
    elif how == "attr":
        body["data"] = source
    root = getattr(agents, base)
    A = type("A", (root,), body)
    if how == "w":
        A = A.w(data=source)
    B = type("B", (A,), {}) if inherit else A
    kw = {}
    envbase = environment.BaseEnvironment
    if base in ("NetworkAgent", "Agent"):
        envbase = environment.Environment
        G = nx.Graph()
        G.add_nodes_from(range(3))
        kw["topology"] = G
    env = make_env(ctx, "timed", rng="fixed", base=envbase, **kw)
    ags = []
    expect = []
    for i in range(3):
        a = env.add_agent(B if i else A)
        ctx.check(_same(a.data, mk(v)), "a new agent does not start from the declared default")
        ags.append(a)
        expect.append(mk(v))
        j = ctx.choice("mutate", 3)
        if j < len(ags):
            _mutate(ags[j].data)
            _mutate(expect[j])
            ctx.cover("mutated")
        for a, e in zip(ags, expect):
            ctx.check(_same(a.data, e), "changing one agent's state changed another's")
    env2 = make_env(ctx, "timed", rng="fixed", base=envbase, **kw)
    ctx.check(_same(env2.add_agent(B).data, mk(v)), "agents of a later environment start from a changed default")


def mapping(ctx, base, length):
    """the mapping interface: every sequence of sets and deletions"""
    from soil import agents, environment

    env = make_env(ctx, "timed", rng="fixed", base=environment.BaseEnvironment, shared=_val(ctx, "shared"))

    class A(getattr(agents, base, agents.BaseAgent)):
        x = 1

        def step(self):
            pass

    if base == "FSM":
        class A(agents.FSM):
            x = 1

            @agents.default_state
            @agents.state
            def one(self):
                pass

    subject = env.add_agent(A) if base != "Environment" else env
    if base == "Environment":
        subject.x = 1
    names = ["x", "y", "shared"]
    own = {"x": 1}
    if base == "Environment":
        own["shared"] = env.shared
    for k in range(length):
        nm = names[ctx.choice("name", 3)]
        op = ctx.choice("op", 3)
        if op == 0:
            own[nm] = v = _val(ctx, "new")
            subject[nm] = v
        elif op == 1:
            own[nm] = v = _val(ctx, "new")
            setattr(subject, nm, v)
        elif nm in own:
            del subject[nm]
            del own[nm]
        else:
            continue
        for m in names:
            if m in own:
                ctx.check(m in subject and subject[m] == own[m] and getattr(subject, m) == own[m] and subject.get(m) == own[m],
                          "attribute and item differ")
                ctx.check(list(subject.keys()).count(m) == 1, "keys()")
                if base != "Environment":
                    ctx.check(dict(subject.items())[m] == own[m], "items()")
            else:
                ctx.check(m not in subject and m not in list(subject.keys()), "a deleted item is still there")
                try:
                    subject[m]
                    ctx.check(False, "a missing item has a value")
                except KeyError:
                    ctx.cover("missing")
                want = env.shared if m == "shared" and base != "Environment" else "d"
                ctx.check(subject.get(m, "d") == want, "get() of a missing item")
        ctx.check(len(subject) == len(list(subject.keys())), "len()")
        if base != "Environment":
            ks = list(subject.keys())
            ctx.check(list(iter(subject)) == ks, "iteration")
            vs = list(subject.values())
            ctx.check(len(vs) == len(ks) and all(v is subject[k] for k, v in zip(ks, vs)), "values()")
            ctx.check(sorted(k for k, v in subject.items(skip=["x", "name"])) == sorted(k for k in ks if k not in ("x", "name")), "items() without some keys")
            ctx.check([(k, v is subject.get(k)) for k, v in subject.items(keys=["y", "x"])] == [("y", True), ("x", True)], "items() of some keys")
            t = [subject.to_str(keys=["x", "y"], skip=["y"]), subject.to_str(keys=["x"]), subject.to_str(skip=[k for k in ks if k != "x"])]
            ctx.check("'x'" in t[0] and "'y'" not in t[0], "text without some keys")
            ctx.check("'x'" in t[1], "text with some keys")
            ctx.check(("'x'" in t[2]) == ("x" in own) and "'name'" not in t[2] and str(subject).startswith(repr(subject)), "text without some keys")
        ctx.check(all(not k.startswith("_") for k in subject.keys()), "private attributes in keys()")


def changes(ctx, base, n):
    """agents start from what the model and their class say when they are created"""
    from soil import agents, environment
    import networkx as nx

    net = base in ("NetworkAgent", "Agent")
    kw = dict(topology=nx.path_graph(n + 2)) if net else {}
    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment if net else environment.BaseEnvironment, alpha=_val(ctx, "m"), **kw)
    other = make_env(ctx, "timed", rng="fixed", base=environment.Environment if net else environment.BaseEnvironment, **kw)
    dflt = _val(ctx, "b")
    Base = type("Base", (getattr(agents, base),), dict(alpha=dflt, step=lambda self: None))
    Sub = type("Sub", (Base,), {})
    born = []
    model = {"alpha": env.alpha}
    for i in range(n):
        k = ctx.choice("change", 5)
        if k == 0:
            model["alpha"] = env.alpha = _val(ctx, "m")
        elif k == 1:
            model["alpha"] = env["alpha"] = None
        elif k == 2 and born:
            a = born[-1][0]
            a.alpha = _val(ctx, "own")
            born[-1] = (a, a.alpha)
        elif k == 3:
            born.append((other.add_agent(Sub), dflt))
        given = {"alpha": _val(ctx, "g")} if ctx.flag("given") else {}
        a = env.add_agent([Base, Sub][ctx.choice("class", 2)], **given)
        born.append((a, given["alpha"] if given else model["alpha"] if model["alpha"] is not None else dflt))
        for (x, v) in born:
            ctx.check(x.alpha is v or x.alpha == v, "attribute of an agent after changes of the model, or of other agents")
    ctx.cover("born")


def identity(ctx, n):
    """ids: unique, consecutive when automatic; given ids and names are kept"""
    from soil import agents

    env = make_env(ctx, "timed", rng="fixed")

    class A(agents.BaseAgent):
        def step(self):
            pass

    ids, nxt = [], 0
    for i in range(n):
        w = ctx.choice("how", 3)
        if w == 0:
            a = env.add_agent(A)
            ctx.check(a.unique_id not in ids, "two agents have the same id")
            ctx.check(a.name == "A[%d]" % a.unique_id, "default name")
        elif w == 1:
            a = env.add_agent(A, unique_id=50 + i, name="bob")
            ctx.check(a.unique_id == 50 + i and a.name == "bob", "given id or name")
        else:
            a = env.add_agent(A, name="eve%d" % i)
            ctx.check(a.unique_id not in ids and a.name == "eve%d" % i, "given name")
        ids.append(a.unique_id)
        ctx.check(a.model is env and a.alive is True and a.random is env.random, "a new agent's model, life or generator")
        ctx.check(env.agent(a.unique_id) is a, "a new agent is not found by its id")
    ctx.cover("named")
    ctx.observe("ids", ids)


def initcalls(ctx, base):
    """init() runs exactly once, when the state (node and arguments included) is complete"""
    import networkx as nx
    from soil import agents, environment

    G = nx.Graph()
    G.add_nodes_from(["p", "q"])
    env = make_env(ctx, "timed", rng="any", base=environment.Environment, topology=G, gamma=_val(ctx, "gamma"))
    calls = []

    class Mixin:
        pass

    def init(self):
        calls.append((self, self.delta, self.gamma, getattr(self, "node_id", None), getattr(self, "state_id", None)))

    body = dict(delta=1, gamma=0, init=init, step=lambda self: None)
    if base in ("FSM", "Agent"):
        body.pop("step")
        body["one"] = agents.default_state(agents.state(lambda self: None))
        body["one"].name = "one"
    A = type("A", (getattr(agents, base),), body)
    v = _val(ctx, "delta")
    kw = dict(delta=v) if ctx.flag("given") else {}
    if base in ("NetworkAgent", "Agent") and ctx.flag("placed"):
        kw["node_id"] = "q"
    a = env.add_agent(A, **kw)
    ctx.check(len(calls) == 1, "init() ran a number of times other than once")
    if calls:
        (who, d, g, node, st) = calls[0]
        ctx.check(who is a and d == kw.get("delta", 1) and g == env.gamma, "init() ran before the state was complete")
        if base in ("NetworkAgent", "Agent"):
            ctx.check(node is not None and node == a.node_id and env.agent_for_node_id(node) is a, "init() ran before the agent had its node")
        ctx.cover("called")
    ctx.check(a.delta == kw.get("delta", 1), "given attribute")


def anything(ctx, base):
    """values of every kind, given at creation or in the model"""
    from soil import agents, environment
    import numpy as np

    class Thing:
        pass

    class Never:
        """equal to nothing, and false"""

        def __eq__(self, o):
            return False

        def __bool__(self):
            return False

        __hash__ = object.__hash__

    thing = Thing()
    values = [len, int, Thing, (lambda: 1), "text", "", b"x", (), (1,), [], [1], {}, {"a": 1}, set(), 0, 0.0, -1, True, False, thing, Never(), range(2),
              float("nan"), float("inf"), np.float64(2), ctx.real("r")]
    v = values[ctx.choice("value", len(values))]
    where = ctx.choice("where", 3)
    default = [None, 5, "d", []][ctx.choice("default", 4)]
    Sub = type("Sub", (getattr(agents, base),), dict(alpha=default, step=lambda self: None))
    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment if base == "Agent" else environment.BaseEnvironment,
                   **({"alpha": v} if where else {}))
    if where:
        ctx.check(env.alpha is v and env["alpha"] is v and env.get("alpha") is v and "alpha" in env, "parameter of the environment")
    other = Thing()
    a = env.add_agent(Sub, **({"alpha": v} if where == 0 else {"alpha": other} if where == 2 else {}))
    want = other if where == 2 else v
    ctx.check(a.alpha is want and a["alpha"] is want and a.get("alpha") is want, "an attribute is another object than the one given")
    ctx.check("alpha" in a and "alpha" in list(a.keys()), "an attribute is missing")
    ctx.check(dict(a.items())["alpha"] is want, "items of an agent")
    b = env.add_agent(Sub)
    if where:
        ctx.check(b.alpha is v, "an attribute of the model did not reach an agent")
    else:
        ctx.check(b.alpha == default and type(b.alpha) is type(default), "the default of the class")
    ctx.cover("done")


def cases(tier):
    q = tier == "quick"
    out = []
    for base in ("BaseAgent", "FSM", "NetworkAgent", "EventedAgent", "Agent"):
        for how in ("attr", "defaults", "w"):
            if q and base not in ("BaseAgent", "Agent") and how != "attr":
                continue
            n = 1
            if q and base != "BaseAgent":
                n = 1
            out.append(case("precedence-%s-%s" % (base, how), precedence, kwargs=dict(base=base, inherit=False, how=how, n=n),
                            bounds="1 agent, 2 attributes, each from class / model (value, None, absent) / arguments",
                            covers=["given", "from the model", "default"]))
            out.append(case("inherit-%s-%s" % (base, how), precedence, kwargs=dict(base=base, inherit=True, how=how, n=2 if base == "BaseAgent" else 1),
                            bounds="2 agents, 1 attribute declared in the class, its base, both or neither",
                            covers=["given", "from the model", "default"]))
    for base in ("BaseAgent", "FSM", "Agent") if q else ("BaseAgent", "FSM", "NetworkAgent", "EventedAgent", "Agent"):
        for how in ("attr", "defaults", "w"):
            for shape in SHAPES:
                if base == "FSM" and how != "attr":
                    continue
                out.append(case("private-%s-%s-%s" % (base, how, shape), isolation, kwargs=dict(base=base, how=how, shape=shape, inherit=shape != "list"),
                                bounds="3 agents, any mutation after each creation", covers=["mutated"]))
    for base in ("BaseAgent", "FSM", "EventedAgent", "Environment"):
        out.append(case("mapping-%s" % base, mapping, kwargs=dict(base=base, length=2 if q else 3), bounds="every 2-3 operations on 3 names",
                        covers=["missing"]))
    for base in ("BaseAgent", "EventedAgent"):
        for how in ("attr", "defaults"):
            out.append(case("diamond-%s-%s" % (base, how), diamond, kwargs=dict(base=base, how=how), bounds="4 classes that inherit from each other in two ways, 2 attributes declared in any of them",
                            covers=["declared"]))
    for base, how in (("BaseAgent", "attr"), ("BaseAgent", "defaults"), ("BaseAgent", "w"), ("FSM", "attr"), ("EventedAgent", "w")):
        out.append(case("chain-%s-%s" % (base, how), chain, kwargs=dict(base=base, how=how, depth=5 if q else 7),
                        bounds="a line of 5-7 classes, an attribute declared in any subset of them", covers=["declared"]))
    for base in ("BaseAgent", "Agent"):
        out.append(case("anything-" + base, anything, kwargs=dict(base=base), bounds="26 kinds of values (functions, classes, false values, values equal to nothing...), in 3 places", covers=["done"]))
    for base in ("BaseAgent", "EventedAgent", "NetworkAgent"):
        out.append(case("changes-" + base, changes, kwargs=dict(base=base, n=3), bounds="3-6 agents of 2 classes in 2 environments, with changes of the model's and the agents' attributes in between", covers=["born"]))
    out.append(case("identity", identity, kwargs=dict(n=3), bounds="3 agents, ids and names given or not", covers=["named"]))
    for base in ("BaseAgent", "FSM", "NetworkAgent", "EventedAgent", "Agent"):
        out.append(case("init-%s" % base, initcalls, kwargs=dict(base=base), bounds="attributes and node given or not", covers=["called"]))
    return out
