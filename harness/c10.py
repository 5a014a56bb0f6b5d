"""C10: selecting agents by id, class, state and attributes."""
from .common import *


def build(ctx, n, network=False, states=True):
    """n agents of chosen kinds, with symbolic attributes x and y and a chosen state."""
    import networkx as nx
    from soil import agents, environment

    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment if network else None)

    class Plain(agents.NetworkAgent if network else agents.BaseAgent):
        def step(self):
            pass

    class Machine(agents.Agent if network else agents.FSM):
        @agents.default_state
        @agents.state
        def idle(self):
            pass

        @agents.state
        def busy(self):
            pass

    class Special(Machine):
        own = 1

        def init(self):
            self.started = True

        @agents.state
        def resting(self):
            pass

        def helper(self):
            return None

    classes = [Plain, Machine, Special]
    pop = []
    for i in range(n):
        k = ctx.choice("kind", 3)
        kw = {}
        st = None
        if k:
            st = "idle"
            if states and ctx.flag("busy"):
                st = kw["state_id"] = "busy"
        a = env.add_agent(classes[k], **kw)
        pop.append(dict(agent=a, kind=k, state=st, uid=a.unique_id))
    return env, classes, pop


def value(ctx, sort, name):
    if sort == "opt":
        return ctx.int(name, -2, 3) if ctx.flag("wanted") else None
    if sort == "int":
        return ctx.int(name, -2, 3)
    if sort == "real":
        return ctx.real(name)
    return ["red", "blue", None][ctx.choice(name, 3)]


def result(ctx, env, pop, how, args, kw):
    """the agents selected through one of the public entry points"""
    asker = pop[0]["agent"]
    if how == "env":
        r = env.get_agents(*args, **kw)
    elif how == "view":
        r = list(env.get_agents.filter(*args, **kw))
    elif how == "agent":
        r = asker.get_agents(*args, **kw)
    elif how == "iter":
        r = list(asker.iter_agents(*args, **kw))
    elif how == "count":
        r = env.count_agents(*args, **kw)
    elif how == "agentcount":
        r = asker.count_agents(**kw)
    elif how == "one":
        try:
            r = [env.agent(*args, **kw)]
        except StopIteration:
            r = []
    else:
        raise ValueError(how)
    return r


def verify(ctx, pop, sel, r, how, limit=None):
    """sel: condition per agent; r: what was returned."""
    n = len(pop)
    if how in ("count", "agentcount"):
        want = Count(sel)
        if limit is not None:
            want = Ite(want > limit, limit, want)
        ctx.check(r == want, "number of agents counted")
        ctx.observe("count", r)
        return
    pos = []
    for a in r:
        ix = [i for i in range(n) if pop[i]["agent"] is a]
        ctx.check(len(ix) == 1, "something that is no agent of the environment was selected")
        pos += ix
    ctx.check(len(set(pos)) == len(pos), "an agent was selected twice")
    for i in pos:
        ctx.check(sel[i], "an agent was selected that does not meet every criterion")
    if how == "one":
        ctx.check(iff(len(pos) == 1, Or(sel) if sel else False), "agent() found nobody although one agent matches")
    elif limit is None:
        for i in range(n):
            if i not in pos:
                ctx.check(Not(sel[i]), "an agent meeting every criterion was left out")
    else:
        want = Count(sel)
        ctx.check(len(pos) == Ite(want > limit, limit, want), "limit")
    if pos:
        ctx.cover("selected")
    if len(pos) < n:
        ctx.cover("left out")
    ctx.observe("selected", pos)


def attributes(ctx, how, n, sorts, form="kwargs", limit=False, lists=False, network=False):
    """every combination of attribute criteria with arbitrary values"""
    env, classes, pop = build_simple(ctx, n, network)
    names = ["x", "y", "z"][: len(sorts)]
    for p in pop:
        for nm, s in zip(names, sorts):
            if s == "opt" and not ctx.flag("has"):
                p[nm] = None
                continue
            v = value(ctx, "int" if s == "opt" else s, nm)
            p[nm] = v
            p["agent"][nm] = v
    crit = {}
    wanted = {}
    for nm, s in zip(names, sorts):
        if lists and nm == names[0]:
            vs = [value(ctx, s, "want_" + nm) for _ in range(ctx.choice("nvalues", 3))]
            crit[nm] = vs
        else:
            v = value(ctx, s, "want_" + nm)
            crit[nm] = v
            vs = [v]
        wanted[nm] = vs
    kw = {}
    given = None
    if form == "kwargs":
        kw.update(crit)
    elif form == "state":
        kw["state"] = given = dict(crit)
    else:  # both
        kw["state"] = given = {names[0]: crit[names[0]]}
        kw.update({k: crit[k] for k in names[1:]})
    before = dict(given) if given is not None else None
    lim = None
    if limit:
        lim = ctx.int("limit", 0, n + 1)
        kw["limit"] = lim
    r = result(ctx, env, pop, how, (), kw)
    sel = [And([Or([p[nm] == v for v in wanted[nm]]) if wanted[nm] else False for nm in names]) for p in pop]
    verify(ctx, pop, sel, r, how, lim)
    if given is not None:
        ctx.check(set(given) == set(before) and all(given[k] is before[k] for k in before),
                  "the caller's dictionary was modified")


def build_simple(ctx, n, network=False):
    from soil import agents, environment

    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment if network else None)

    class Plain(agents.NetworkAgent if network else agents.BaseAgent):
        def step(self):
            pass

    pop = []
    for i in range(n):
        a = env.add_agent(Plain)
        pop.append(dict(agent=a, uid=a.unique_id))
    return env, [Plain], pop


def structured(ctx, how, n, network=False, states=True, ids=True, attr=True):
    """ids, classes, states and one attribute together"""
    env, classes, pop = build(ctx, n, network, states)
    kw, args = {}, ()
    sel = [True] * n

    def narrow(conds):
        for i in range(n):
            sel[i] = And(sel[i], conds[i])

    if ids:
        w = ctx.choice("ids", 5 if how == "agentcount" or (network and how in ("agent", "iter")) else 6)
        pick = [ctx.flag("id%d" % i) for i in range(n)] if w in (2, 3, 5) else None
        extra = [99]
        if w == 1:
            one = ctx.choice("which", n)
            kw["unique_id"] = pop[one]["uid"]
            narrow([i == one for i in range(n)])
        elif w == 2:
            kw["unique_id"] = [pop[i]["uid"] for i in reversed(range(n)) if pick[i]] + extra
            if ctx.flag("twice"):
                kw["unique_id"] += kw["unique_id"]
            narrow(pick)
        elif w == 3 and how not in ("agentcount",):
            lst = [pop[i]["uid"] for i in range(n) if pick[i]]
            if network and how in ("agent", "iter"):
                kw["unique_id"] = lst
                narrow(pick)
            elif lst:
                args = tuple(lst)
                narrow(pick)
        elif w == 4:
            kw["unique_id"] = []
            narrow([False] * n)
        elif w == 5:  # some ids as arguments, others as a keyword: any of them
            args = (pop[0]["uid"],) * (1 + ctx.choice("again", 2))
            kw["unique_id"] = [pop[i]["uid"] for i in range(n) if pick[i]]
            narrow([i == 0 or pick[i] for i in range(n)])
            ctx.cover("both ways")
    c = ctx.choice("class", 5)
    if c == 1:
        kw["agent_class"] = classes[1]
        narrow([p["kind"] >= 1 for p in pop])
    elif c == 2:
        kw["agent_class"] = classes[2]
        narrow([p["kind"] == 2 for p in pop])
    elif c == 3:
        kw["agent_class"] = [classes[0], classes[2]] if ctx.flag("aslist") else (classes[0], classes[2])
        narrow([p["kind"] in (0, 2) for p in pop])
    elif c == 4:
        kw["agent_class"] = "soil.agents.FSM"
        narrow([p["kind"] >= 1 for p in pop])
    if states:
        s = ctx.choice("state", 4)
        if s:
            want = [None, ("idle",), ("busy",), ("idle", "busy")][s]
            kw["state_id"] = want[0] if len(want) == 1 else (list(want) if ctx.flag("slist") else want)
            narrow([p["state"] in want for p in pop])
    if attr:
        for p in pop:
            p["agent"].x = p["x"] = ctx.int("x", 0, 2)
        v = ctx.int("want_x", 0, 3)
        kw["x"] = v
        narrow([p["x"] == v for p in pop])
    keep = {k: list(v) for k, v in kw.items() if isinstance(v, list)}
    r = result(ctx, env, pop, how, args, kw)
    verify(ctx, pop, sel, r, how)
    for k, v in keep.items():
        ctx.check(kw[k] == v, "a list given by the caller was modified")


def view(ctx, n):
    """the collection of agents itself: iteration, size, membership, access by id; deaths and births included"""
    env, classes, pop = build(ctx, n, states=False)
    dead = ctx.choice("dead", n + 1)
    if dead < n:
        pop[dead]["agent"].die()
    born = None
    if ctx.flag("born"):
        born = env.add_agent(classes[0])
    live = [p["agent"] for i, p in enumerate(pop) if i != dead] + ([born] if born else [])
    v = env.get_agents
    got = list(v)
    ctx.check(len(got) == len(live) and all(any(a is b for b in got) for a in live), "agents iterated over differ from those alive")
    ctx.check(len(v) == len(live), "size of the collection of agents")
    ctx.check(len(list(env)) == len(live), "iterating over the environment")
    ctx.check(env.count_agents() == len(live), "count_agents() without criteria")
    for i, p in enumerate(pop):
        ctx.check((p["uid"] in v) == (i != dead), "membership by id")
        if i != dead:
            ctx.check(v[p["uid"]] is p["agent"], "access by id")
        else:
            try:
                v[p["uid"]]
                ctx.check(False, "access by the id of a dead agent succeeded")
            except (ValueError, KeyError):
                ctx.cover("absent")
    ctx.observe("ids", sorted(a.unique_id for a in got))


def wide(ctx, how, n, network=False, limit=False, hole=True):
    """a larger population: fixed attributes (a third of the agents lack one of them),
    any wanted value, any limit, a class and a state criterion"""
    from soil import agents, environment

    env = make_env(ctx, "timed", rng="plain", base=environment.Environment if network else None)

    class Plain(agents.NetworkAgent if network else agents.BaseAgent):
        def step(self):
            pass

    class Machine(agents.Agent if network else agents.FSM):
        @agents.default_state
        @agents.state
        def idle(self):
            pass

        @agents.state
        def busy(self):
            pass

    pop = []
    for i in range(n):
        k = i % 2
        st = None
        kw = {}
        if k:
            st = "idle" if i % 3 else "busy"
            kw["state_id"] = st
        a = env.add_agent(Machine if k else Plain, **kw)
        p = dict(agent=a, kind=k, state=st, uid=a.unique_id, x=i % 5, y=None)
        a["x"] = p["x"]
        if i % 3:
            a["y"] = p["y"] = [0, "", False, 0.5][i % 4]
        pop.append(p)
    if hole:  # some of them leave
        for i in (1, n // 2):
            pop[i]["agent"].die()
        pop = [p for i, p in enumerate(pop) if i not in (1, n // 2)]
    n = len(pop)
    sel = [True] * n
    kw = {}

    def narrow(conds):
        for i in range(n):
            sel[i] = And(sel[i], conds[i])

    w = ctx.choice("criterion", 5)
    if w == 0:
        v = ctx.int("want_x", -1, 6)
        kw["x"] = v
        narrow([p["x"] == v for p in pop])
    elif w == 1:
        v = [0, "", False, 0.5, None][ctx.choice("want_y", 5)]
        kw["y"] = v
        narrow([p["y"] == v for p in pop])
    elif w == 2:
        kw["agent_class"] = Machine
        narrow([p["kind"] == 1 for p in pop])
        if ctx.flag("state too"):
            kw["state_id"] = "busy"
            narrow([p["state"] == "busy" for p in pop])
    elif w == 3:
        lo = ctx.choice("from", n)
        kw["unique_id"] = [p["uid"] for p in pop[lo:]][::-1]
        narrow([i >= lo for i in range(n)])
    lim = None
    if limit:
        lim = ctx.int("limit", 0, n + 2)
        kw["limit"] = lim
    r = result(ctx, env, pop, how, (), kw)
    verify(ctx, pop, sel, r, how, lim)


def odd_states(ctx, how, n):
    """state ids that are not texts"""
    from soil import agents

    env = make_env(ctx, "timed", rng="fixed")

    class P(agents.BaseAgent):
        def step(self):
            pass

    ids = [3, 0, "", "busy", 2.5, False]
    pop = []
    for i in range(n):
        s = ids[ctx.choice("state", len(ids))]
        pop.append(dict(agent=env.add_agent(P, state_id=s), s=s))
    k = ctx.choice("form", 3)
    w = ids[ctx.choice("wanted", len(ids))]
    crit = [w, [w], (w, "busy")][k]
    sel = [p["s"] == w or (k == 2 and p["s"] == "busy") for p in pop]
    if any(sel):
        ctx.cover("selected")
    verify(ctx, pop, sel, result(ctx, env, pop, how, [], dict(state_id=crit)), how)


def odd_values(ctx, how, n):
    """attributes of every kind: a list gives alternatives, anything else is a value"""
    from soil import agents

    env = make_env(ctx, "timed", rng="fixed")

    class P(agents.BaseAgent):
        def step(self):
            pass

    vals = [(1, 2), 1, [1, 2], "ab", "a", {"k": 1}, {1, 2}, 0, (), b"ab", 1.5, frozenset([1])]
    pop = []
    for i in range(n):
        s = vals[ctx.choice("value", len(vals))]
        a = env.add_agent(P)
        a.v = s
        pop.append(dict(agent=a, s=s))
    w = vals[ctx.choice("wanted", len(vals))]
    alts = w if isinstance(w, list) else [w]
    crit = w
    form = ctx.choice("form", 3)
    if form == 1:
        alts = crit = [w, "a"]
    sel = [any(p["s"] == x for x in alts) for p in pop]
    if any(sel):
        ctx.cover("selected")
    kept = repr(crit)
    verify(ctx, pop, sel, result(ctx, env, pop, how, [], dict(v=crit) if form < 2 else dict(state=dict(v=crit))), how)
    ctx.check(repr(crit) == kept, "the criteria given were modified")


def history(ctx, how, length):
    """the same selection, again and again, while attributes, states and agents change"""
    from soil import agents

    env = make_env(ctx, "timed", rng="fixed")

    class Base(agents.FSM):
        x = 0

        @agents.default_state
        @agents.state
        def idle(self):
            return None

        @agents.state
        def busy(self):
            return None

    kinds = [type("K%d" % i, (Base,), {}) for i in range(5)]
    pop = []

    def born(k):
        v = ctx.int("x", 0, 1) if w == 1 and k in (1, 2) else 0
        a = env.add_agent(kinds[k], x=v)
        pop.append(dict(agent=a, kind=k, x=v, state="idle", uid=a.unique_id))

    w = ctx.choice("criterion", 5)
    for k in range(5):
        born(k)
    lo = 0 if w in (1, 2) else ctx.choice("from", 2)
    hi = 5
    wanted = ctx.int("wanted", 0, 1) if w == 1 else 0
    kw = [dict(agent_class=kinds[lo:hi]), dict(x=wanted), dict(state_id="busy"), dict(unique_id=[p["uid"] for p in pop[lo:hi]] + [5, 6]), dict(agent_class=tuple(kinds[lo:hi]), state_id=["idle", "other"])][w]
    keep = repr(kw)

    def look():
        sel = [[lo <= p["kind"] < hi, p["x"] == wanted, p["state"] == "busy", p["uid"] in kw.get("unique_id", ()), lo <= p["kind"] < hi and p["state"] == "idle"][w] for p in pop]
        verify(ctx, pop, sel, result(ctx, env, pop, how, [], dict(kw)), how)

    look()
    for _ in range(length):
        op = ctx.choice("op", 5)
        i = 1 + ctx.choice("who", 2)
        if op == 0:
            pop[i]["x"] = pop[i]["agent"].x = ctx.int("x", 0, 1) if w == 1 else 1
        elif op == 1:
            pop[i]["state"] = ["idle", "busy"][pop[i]["state"] == "idle"]
            pop[i]["agent"]._set_state(pop[i]["state"]) if env.now > 0 else pop[i]["agent"].set_state(pop[i]["state"])
        elif op == 2:
            born(i)
        elif op == 3:
            pop.pop(i)["agent"].die()
        else:
            env.step()
        look()
    ctx.check(repr(kw) == keep, "the criteria given were modified")
    ctx.cover("done")


def cases(tier):
    q = tier == "quick"
    out = []
    hows = ("env", "view", "agent", "iter", "count", "agentcount", "one")

    def cov(h):
        return ["selected", "left out"] if h not in ("count", "agentcount") else []

    for h in hows:
        n = 3 if q else 4
        out.append(case("attrs-%s" % h, attributes, kwargs=dict(how=h, n=n if not q or h == "env" else 2, sorts=["int", "real"]),
                        bounds="2-3 agents, two numeric attributes with any values, one wanted value each", covers=cov(h)))
        out.append(case("ids-classes-%s" % h, structured, kwargs=dict(how=h, n=2, states=False, attr=h in ("env", "agent")),
                        bounds="2 agents of 3 classes, every id selection, 5 class criteria", covers=cov(h)))
    for h in ("env", "agent"):
        out.append(case("states-%s" % h, structured, kwargs=dict(how=h, n=2 if q else 3, ids=False, attr=not q),
                        bounds="2-3 agents of 3 classes in 2 states, 5 class and 4 state criteria", covers=cov(h)))
        out.append(case("network-%s" % h, structured, kwargs=dict(how=h, n=2, ids=True, attr=False, network=True, states=not q),
                        bounds="2 network agents of 3 classes, every id selection, 5 class criteria", covers=cov(h)))
        out.append(case("limit-%s" % h, attributes, kwargs=dict(how=h, n=3, sorts=["int"], limit=True),
                        bounds="3 agents, one attribute, any limit", covers=cov(h)))
        out.append(case("lists-%s" % h, attributes, kwargs=dict(how=h, n=2 if q else 3, sorts=["int", "int"], lists=True),
                        bounds="2-3 agents, two attributes, 0..2 accepted values", covers=cov(h)))
        out.append(case("state-dict-%s" % h, attributes, kwargs=dict(how=h, n=2, sorts=["int", "real"], form="state"),
                        bounds="2 agents, criteria in the state dictionary", covers=cov(h)))
        out.append(case("both-%s" % h, attributes, kwargs=dict(how=h, n=2, sorts=["int", "str", "real"], form="both"),
                        bounds="2 agents, three criteria, dictionary and keywords", covers=cov(h)))
    for h in ("env", "agent", "count"):
        out.append(case("missing-%s" % h, attributes, kwargs=dict(how=h, n=2 if q else 3, sorts=["opt", "int"]),
                        bounds="2-3 agents that may lack the attribute", covers=cov(h)))
    for h in hows:
        if h == "one":
            continue
        out.append(case("wide-%s" % h, wide, kwargs=dict(how=h, n=14 if q else 23, network=h in ("agent", "view"), limit=h in ("env", "count")),
                        bounds="12 (thorough: 21) live agents with fixed attributes, any wanted value, class, state, suffix of ids, any limit", covers=cov(h)))
    for h in ("env", "agent", "count"):
        out.append(case("odd-states-" + h, odd_states, kwargs=dict(how=h, n=2), bounds="2 agents, 6 state ids of different types, 3 forms of criteria", covers=["selected"]))
        out.append(case("odd-values-" + h, odd_values, kwargs=dict(how=h, n=2 if q else 3), bounds="2-3 agents, 12 values of different types, 3 forms of criteria", covers=["selected"]))
    out.append(case("limit-count", attributes, kwargs=dict(how="count", n=3, sorts=["int"], limit=True), bounds="3 agents, any limit"))
    for h in ("env", "agent", "count") if q else hows:
        out.append(case("history-" + h, history, kwargs=dict(how=h, length=2), bounds="5 agents of 5 classes, any values, 5 selections (of 3-5 classes, by attribute, state, ids) repeated after each of 2 changes, births, deaths or steps", covers=["done"]))
    out.append(case("view", view, kwargs=dict(n=2 if q else 3), bounds="2-3 agents, any death, a birth", covers=["absent"]))
    return out
