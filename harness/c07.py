"""C07: finite state machine agents."""
from .common import *

# the ways a state function can say what comes next: (name, has target, has delay)
FORMS = {
    "none": (False, False),
    "state": (True, False),
    "id": (True, False),
    "tuple": (True, True),
    "idtuple": (True, True),
    "delay": (True, True),
    "at": (True, True),
    "num": (False, True),
    "delayobj": (False, True),
    "nonetuple": (False, True),
}


def fsm(ctx, forms, steps=3, n=1, sched="timed", kind="plain", sub=False, base="FSM", start=None, ids="long"):
    """An FSM whose every activation picks an arbitrary form, target state and delay."""
    from soil import agents, environment

    env = make_env(ctx, sched, rng="fixed", base=environment.BaseEnvironment if base == "FSM" else None)
    log = {}  # idx -> list of events
    names = {"long": ("one", "two", "three"), "short": ("ab", "b", "cd")}[ids]

    def decide(self, here, version):
        i = self.idx
        f = forms[ctx.choice("form%d" % i, len(forms))]
        has_t, has_d = FORMS[f]
        tgt = names[ctx.choice("target%d" % i, len(names))] if has_t else here
        d = ctx.real("d%d" % i, 0, lo_open=True) if has_d else None
        log[i].append(dict(state=here, version=version, time=self.now, sid=self.state_id, next=tgt, delay=d, form=f))
        if len(log[i]) > 3 * steps + 2:
            ctx.check(False, "agents are activated without bound")
            raise StopCase()
        if f == "none":
            return None
        if f == "state":
            return getattr(self, tgt)
        if f == "id":
            return tgt
        if f == "tuple":
            return getattr(self, tgt), d
        if f == "idtuple":
            return tgt, d
        if f == "delay":
            return getattr(self, tgt).delay(d)
        if f == "at":
            return getattr(self, tgt).at(self.now + d)
        if f == "num":
            return d
        if f == "delayobj":
            return self.delay(d)
        if f == "nonetuple":
            return None, d

    def pause(self, here, version):
        d = ctx.real("p%d" % self.idx, 0, lo_open=True)
        log[self.idx].append(dict(state=here, version=version, time=self.now, sid=self.state_id, next=None, delay=d, form="pause"))
        return d

    B = getattr(agents, base)

    def mk(name, version, default=False, kind=kind):
        if kind == "plain":
            def f(self):
                return decide(self, name, version)
        elif kind == "gen":
            def f(self):
                yield pause(self, name, version)
                return decide(self, name, version)
        elif kind == "async":
            async def f(self):
                await self.delay(pause(self, name, version))
                return decide(self, name, version)
        f.__name__ = name
        s = agents.state(f)
        return agents.default_state(s) if default else s

    ns = {names[0]: mk(names[0], "base", default=True), names[1]: mk(names[1], "base"), names[2]: mk(names[2], "base")}
    A = type(B)("Machine", (B,), dict(ns))
    version = {nm: "base" for nm in names}
    if sub == "override":
        A = type(B)("Sub", (A,), {names[1]: mk(names[1], "sub")})
        version[names[1]] = "sub"
    elif sub == "overridedefault":
        A = type(B)("Sub", (A,), {names[0]: mk(names[0], "sub")})
        version[names[0]] = "sub"
    elif sub == "newdefault":
        A = type(B)("Sub", (A,), {names[2]: mk(names[2], "sub", default=True)})
        version[names[2]] = "sub"
    elif sub == "plain":
        A = type(B)("Sub", (A,), {})
    initial = names[2] if sub == "newdefault" else names[0]
    if sub in ("diamond", "mixin"):
        # several base classes: the first one in the method resolution order wins
        made = {}
        for c, parents in (("R", (A,)), ("L", (A,) if sub == "diamond" else (B,)), ("D", None)):
            own = {}
            for nm in names[:2] if c != "D" else names[:1]:
                k = ctx.choice(c, 3)
                if k:
                    own[nm] = mk(nm, c, default=k == 2)
                    version[nm] = c
                    if k == 2:
                        initial = nm
                    ctx.cover("redefined")
                    break
            made[c] = type(B)(c, parents or (made["L"], made["R"]), own)
        A = made["D"]
    ags = []
    cur = {}
    for i in range(n):
        log[i] = []
        kw = {}
        cur[i] = initial
        if start and i == 0:
            cur[i] = names[ctx.choice("start", 3)]
            if start == "kw":
                kw["state_id"] = cur[i]
        if start == "set" and i == 0:
            a = env.add_agent(A, idx=i)
            a.set_state(cur[i])
        else:
            a = env.add_agent(A, idx=i, **kw)
        ags.append(a)
        ctx.check(a.state_id == cur[i], "initial state")
    mid = {i: False for i in range(n)}
    exp = {i: env.now for i in range(n)}
    done = {i: 0 for i in range(n)}
    for k in range(steps):
        env.step()
        for i in range(n):
            for e in log[i][done[i]:]:
                ctx.check(e["state"] == cur[i], "another state than the current one was executed")
                ctx.check(e["version"] == version[cur[i]], "an overridden state was executed")
                ctx.check(e["sid"] == cur[i], "state_id during the step")
                ctx.check(e["time"] == exp[i], "activation time of a state")
                if e["form"] == "pause":
                    ctx.check(not mid[i], "a state was restarted although it was paused")
                    mid[i] = True
                else:
                    ctx.check(mid[i] == (kind != "plain"), "a paused state was not resumed")
                    mid[i] = False
                    cur[i] = e["next"]
                    if e["next"] != e["state"]:
                        ctx.cover("transition")
                exp[i] = e["time"] + (1 if e["delay"] is None else e["delay"])
            done[i] = len(log[i])
            ctx.check(ags[i].state_id == cur[i], "state_id after the step")
            ctx.check(exp[i] >= env.now, "a state was not executed in time")
    ctx.observe("log", {i: [(e["state"], e["time"]) for e in log[i]] for i in log})


def invalid(ctx, how):
    """ids that are no states are rejected"""
    from soil import agents

    env = make_env(ctx, "timed", rng="fixed")
    bad = ctx.choice("bad", 3)
    val = ["nope", "zz", 3][bad]

    class A(agents.FSM):
        @agents.default_state
        @agents.state
        def one(self):
            if how == "returned":
                ctx.cover("bad")
                return (val, 2) if tup else val

        @agents.state
        def two(self):
            pass

    tup = ctx.flag("tuple")
    try:
        if how == "ctor":
            a = env.add_agent(A, state_id=val)
        elif how == "set":
            a = env.add_agent(A)
            a.set_state(val)
        elif how == "late":
            a = env.add_agent(A)
            T = ctx.real("T", 0, lo_open=True)
            env.schedule.time = T
            val = "two"
            ctx.cover("bad")
            a.set_state("two")
        else:
            a = env.add_agent(A)
            if val == 3 and not tup:
                raise ValueError("a number is a delay, not a state")
            env.step()
    except ValueError:
        ctx.cover("bad")
        return
    ctx.check(False, "an unknown state was accepted")


def declared(ctx):
    """an initial state that is declared by the class, as any other attribute"""
    from soil import agents

    env = make_env(ctx, "timed", rng="fixed")

    class A(agents.FSM):
        @agents.default_state
        @agents.state
        def one(self):
            pass

        @agents.state
        def two(self):
            pass

    want = ["one", "two"][ctx.choice("which", 2)]
    cls = A.w(state_id=want) if ctx.flag("w") else type("B", (A,), {"state_id": want})
    a = env.add_agent(cls)
    ctx.cover("created")
    ctx.check(a.state_id == want, "the initial state declared by the class was ignored")
    b = env.add_agent(cls, state_id="two")
    ctx.check(b.state_id == "two", "explicit initial state")


def nodefault(ctx):
    from soil import agents

    env = make_env(ctx, "timed", rng="fixed")

    class A(agents.FSM):
        @agents.state
        def one(self):
            pass

        @agents.state
        def two(self):
            pass

    try:
        env.add_agent(A)
    except ValueError:
        ctx.cover("rejected")
    else:
        ctx.check(False, "a machine without default state was accepted")
    a = env.add_agent(A, state_id=["one", "two"][ctx.choice("which", 2)])
    ctx.check(a.state_id in ("one", "two"), "explicit initial state")


def ring(ctx, n, states, steps, kind="FSM", named=False):
    """many states in a ring, several agents that start in different states, every way of going on"""
    from soil import agents, environment

    u = ctx.real("unit", 0, lo_open=True)
    env = make_env(ctx, "timed", rng="plain", base=environment.Environment)
    log = []
    B = getattr(agents, kind)

    def target(j):
        return "s%d" % (j % states)

    def mk(j):
        def f(self):
            log.append((self.idx, "s%d" % j, self.now, self.state_id))
            nxt = target(j + self.idx + 1)
            st = getattr(self, nxt)
            form = (j + self.idx) % 6
            d = (j % 3 + 1) * u
            if form == 0:
                return st.delay(d)
            if form == 1:
                return nxt, d
            if form == 2:
                return st.at(self.now + d)
            if form == 3:
                return st, self.delay(d)
            if form == 4:
                return st, d
            return d  # stays
        f.__name__ = "s%d" % j
        if named:
            f.__name__ = "f%d" % j
            s = agents.state("s%d" % j)(f)
            return agents.default_state(s) if j == 1 else s
        return agents.state(default=True)(f) if j == 1 else agents.state(f)

    # half of the states are inherited
    Base = type(B)("Half", (B,), {("f%d" if named else "s%d") % j: mk(j) for j in range(states // 2)})
    A = type(B)("Whole", (Base,), {("f%d" if named else "s%d") % j: mk(j) for j in range(states // 2, states)})
    cur, nxt, pop = {}, {}, {}
    for i in range(n):
        kw = {}
        cur[i] = "s1"
        if i:
            cur[i] = target(i)
            kw["state_id"] = cur[i]
        pop[i] = env.add_agent(A, idx=i, **kw)
        ctx.check(pop[i].state_id == cur[i], "initial state")
        nxt[i] = 0
    for _ in range(steps):
        m = min(nxt.values())
        due = [i for i in nxt if nxt[i] == m]
        del log[:]
        env.step()
        ctx.check(sorted(e[0] for e in log) == due, "the agents activated are not those due")
        for (i, st, t, sid) in log:
            ctx.check(st == cur[i] and sid == cur[i], "another state than the current one was executed")
            ctx.check(t == m * u, "activation time of a state")
        for i in due:
            j = int(cur[i][1:])
            if (j + i) % 6 != 5:
                cur[i] = target(j + i + 1)
                ctx.cover("transition")
            nxt[i] = m + j % 3 + 1
        for i in pop:
            ctx.check(pop[i].state_id == cur[i], "state_id after the step")
        for st in set(cur.values()):
            ctx.check(sorted(a.idx for a in env.get_agents(state_id=st)) == [i for i in cur if cur[i] == st], "agents selected by state")
        ctx.observe("step", m, sorted(cur.items()))
    ctx.check(sorted(A.states()) == sorted([target(j) for j in range(states)] + ["dead"]), "states of the class")


def called(ctx):
    """states are no functions: calling them is an error, and changes nothing"""
    from soil import agents

    env = make_env(ctx, "timed", rng="fixed")
    ran = []

    class A(agents.FSM):
        @agents.default_state
        @agents.state
        def one(self):
            ran.append("one")

        @agents.state
        def two(self):
            ran.append("two")

    a = env.add_agent(A)
    st = [a.one, a.two][ctx.choice("which", 2)]
    try:
        st()
        ctx.check(False, "a state was called as a function")
    except Exception as ex:
        if isinstance(ex, StopCase):
            raise
        ctx.cover("rejected")
    ctx.check(a.state_id == "one" and not ran, "calling a state changed the agent")
    env.step()
    ctx.check(ran == ["one"], "the current state runs")


def cases(tier):
    q = tier == "quick"
    out = []
    F = list(FORMS)

    def add(name, **kw):
        kw.setdefault("steps", 2 if q else 3)
        out.append(case(name, fsm, kwargs=kw, covers=["transition"],
                        bounds="3-state machine, every sequence of %d activations over return forms %s and all targets, delays any real > 0" % (kw["steps"], kw["forms"])))

    S = ["state", "id", "idtuple", "delay"]
    add("all-forms", forms=F)
    add("all-forms-ordered", forms=F, sched="ordered")
    add("pqueue", forms=S + ["none", "num"], sched="pqueue-ordered")
    add("gen", forms=F, kind="gen", steps=4 if q else 5)
    add("async", forms=F, kind="async", steps=4 if q else 5)
    add("two-agents", forms=["id", "delay"], n=2)
    add("two-agents-gen", forms=["state", "none"], n=2, kind="gen", steps=3 if q else 5)
    for sub in ("override", "overridedefault", "newdefault", "plain"):
        add("sub-" + sub, forms=S + ["none"], sub=sub)
    add("sub-diamond", forms=["none", "idtuple"], sub="diamond")
    add("sub-mixin", forms=["none", "idtuple"], sub="mixin")
    add("start-kw", forms=S, start="kw")
    add("start-set", forms=S, start="set")
    add("two-start", forms=["id", "state"], n=2, start="kw")
    add("short-ids", forms=["id", "idtuple", "state"], ids="short")
    add("forms-whole", forms=[f for f in F if FORMS[f][1]], steps=1 if q else 2)
    out[-1]["ints"] = True
    out += whole(out, "start-kw")
    for how in ("ctor", "set", "returned", "late"):
        out.append(case("invalid-" + how, invalid, kwargs=dict(how=how), covers=["bad"], bounds="3 invalid ids"))
    out.append(case("declared-start", declared, covers=["created"], bounds="2 states, 2 ways of declaring"))
    out.append(case("no-default", nodefault, covers=["rejected"], bounds="2 states"))
    for kind in ("FSM", "Agent"):
        for named in (False, True):
            n, st, k = (7, 8, 30) if q else (11, 13, 120)
            out.append(case("ring-%s%s" % (kind, "-named" if named else ""), ring, kwargs=dict(n=n, states=st, steps=k, kind=kind, named=named), covers=["transition"],
                            max_depth=200000, path_seconds=300.0,
                            bounds="%d agents, %d states, half of them inherited, one arbitrary unit of delay, %d steps" % (n, st, k)))
    out.append(case("called", called, covers=["rejected"], bounds="2 states"))
    return out
