"""C06: generator and async behaviours."""
from .common import *


def genagents(ctx, sched, style, n, steps, same_class=True, rng="fixed", T0=False, end=None):
    """Agents whose step is a generator / coroutine of an arbitrary number of
    segments (chosen anew for each run of the body), with arbitrary delays."""
    from soil import agents

    env = make_env(ctx, sched, rng=rng, T0=ctx.real("T0") if T0 else None)
    log = {}  # agent index -> list of dict(run, seg, time, delay)
    nested = style.startswith("nested")

    def plan(i):
        """number of pauses of the next run of the body"""
        return ctx.choice("pauses%d" % i, 3)

    def seg(self, run, k, n_p):
        i = self.idx
        if len(log[i]) > 3 * steps + 3:
            ctx.check(False, "agents are activated without bound")
            raise StopCase()
        kind = "none" if style.endswith("none") else "d"
        if k == n_p and end == "none":
            kind = "none"  # the body ends without saying when it wants to be activated again
        elif end == "any" and (k == n_p or style.startswith("gen")):
            kind = "none" if ctx.choice("none%d" % i, 2) else "d"
        d = None if kind == "none" else ctx.real("d%d" % i, 0, lo_open=True)
        log[i].append(dict(run=run, seg=k, of=n_p, time=self.now, delay=d, private=self.private))
        return d

    class Common(agents.BaseAgent):
        def init(self):
            self.runs = 0
            self.private = 0
            log[self.idx] = []

    def body_gen(self):
        self.runs += 1
        run, n_p = self.runs, plan(self.idx)
        local = 0
        for k in range(n_p):
            d = seg(self, run, k, n_p)
            local += 1
            self.private += 1
            if style == "gendelay":
                got = yield self.delay(d)
            else:
                got = yield d
            ctx.check(got is None, "a pause returned a value")
            ctx.check(local == k + 1, "local state lost across a pause")
        d = seg(self, run, n_p, n_p)
        self.private += 1
        return d

    if style in ("gen", "gendelay", "gennone"):
        class A(Common):
            def step(self):
                return (yield from body_gen(self))
    elif style == "genplain":
        class A(Common):
            def step(self):
                self.runs += 1
                run, n_p = self.runs, plan(self.idx)
                for k in range(n_p):
                    d = seg(self, run, k, n_p)
                    self.private += 1
                    yield d
                d = seg(self, run, n_p, n_p)
                self.private += 1
                return d
    elif style == "async":
        class A(Common):
            async def step(self):
                self.runs += 1
                run, n_p = self.runs, plan(self.idx)
                for k in range(n_p):
                    d = seg(self, run, k, n_p)
                    self.private += 1
                    await self.delay(d)
                d = seg(self, run, n_p, n_p)
                self.private += 1
                return d
    elif style == "nestedasync":
        class A(Common):
            async def pause(self, d):
                await self.delay(d)
                return "resumed"

            async def step(self):
                self.runs += 1
                run, n_p = self.runs, plan(self.idx)
                for k in range(n_p):
                    d = seg(self, run, k, n_p)
                    self.private += 1
                    r = await self.pause(d)
                    ctx.check(r == "resumed", "result of an awaited coroutine lost")
                d = seg(self, run, n_p, n_p)
                self.private += 1
                return d if d is None else self.delay(d)
    else:
        raise ValueError(style)

    classes = [A] * n
    if not same_class:
        classes = [type("A%d" % i, (A,), {}) for i in range(n)]
    for i in range(n):
        env.add_agent(classes[i], idx=i)
    t0 = env.now
    per_step = []
    for k in range(steps):
        before = {i: len(log[i]) for i in log}
        t = env.now
        env.step()
        for i in log:
            ctx.check(len(log[i]) - before[i] <= 1, "more than one segment executed in one activation")
    for i in log:
        exp = t0
        run, sg = 1, 0
        for j, e in enumerate(log[i]):
            ctx.check(e["run"] == run and e["seg"] == sg, "behaviour did not resume where it paused (or did not restart after finishing)")
            ctx.check(e["private"] == j, "agent attribute lost across a pause, or shared between agents")
            ctx.check(e["time"] == exp, "resumed at another time than it asked for")
            exp = e["time"] + (1 if e["delay"] is None else e["delay"])
            if sg == e["of"]:
                run, sg = run + 1, 0
                ctx.cover("finished")
            else:
                sg += 1
                ctx.cover("paused")
            if run > 1 and sg == 0 and j > 0:
                ctx.cover("restarted")
        ctx.check(exp >= env.now, "a paused behaviour was not resumed in time")
    ctx.observe("log", {i: [(e["run"], e["seg"], e["time"]) for e in log[i]] for i in log})


def equivalent(ctx, sched, steps, style):
    """A plain step returning d1, d2, ... and a generator yielding d1, d2, ... behave the same."""
    from soil import agents

    ds = [ctx.real("d", 0, lo_open=True) for _ in range(steps + 1)]
    shift = ctx.choice("shift", 2)
    res = []
    for kind in ("plain", style):
        env = make_env(ctx, sched, rng="fixed")
        times = []
        other = []

        class Plain(agents.BaseAgent):
            def step(self):
                times.append(self.now)
                return ds[len(times) - 1] if len(times) <= steps else INF

        class Gen(agents.BaseAgent):
            def step(self):
                for d in ds[: 1 + shift]:
                    times.append(self.now)
                    yield d
                while len(times) < steps:
                    times.append(self.now)
                    yield self.delay(ds[len(times) - 1])
                yield INF

        class Async(agents.BaseAgent):
            async def step(self):
                while len(times) < steps:
                    times.append(self.now)
                    await self.delay(ds[len(times) - 1])
                await self.delay(INF)

        class FsmGen(agents.FSM):
            @agents.default_state
            @agents.state
            def one(self):
                times.append(self.now)
                yield ds[len(times) - 1]
                times.append(self.now)
                return self.two.delay(ds[len(times) - 1])

            @agents.state
            async def two(self):
                times.append(self.now)
                await self.delay(ds[len(times) - 1])
                times.append(self.now)
                return "one", ds[len(times) - 1]

        class Other(agents.BaseAgent):
            def step(self):
                other.append(self.now)

        env.add_agent(dict(plain=Plain, gen=Gen, fsm=FsmGen)[kind] if kind != "async" else Async)
        env.add_agent(Other)
        for _ in range(steps):
            env.step()
        res.append((list(times), list(other), env.now))
    (ta, oa, na), (tb, ob, nb) = res
    ctx.check(same_seq(ta[:steps], tb[:steps]), "activation times differ from those of the equivalent plain step")
    ctx.check(same_seq(oa, ob), "another agent's times differ")
    ctx.check(na == nb, "final time differs")
    ctx.cover("compared")
    ctx.observe("times", ta, tb)


def crowd(ctx, sched, n, steps, rng="plain"):
    """many agents with long behaviours of every kind; delays are multiples of an arbitrary unit"""
    from soil import agents

    t0 = ctx.real("T0")
    u = ctx.real("unit", 0, lo_open=True)
    env = make_env(ctx, sched, rng=rng, T0=t0)
    log = []

    def mark(self, k):
        log.append((self.idx, k, self.now))

    class Gen(agents.BaseAgent):
        def step(self):
            for k in range(self.idx + 1):
                mark(self, k)
                yield (k % 3 + 1) * u
            mark(self, self.idx + 1)
            return self.at(self.now + 2 * u)

    class Delegated(agents.BaseAgent):
        def part(self, ks):
            for k in ks:
                mark(self, k)
                yield self.at(self.now + (k % 3 + 1) * u)
            return "part"

        def step(self):
            h = self.idx // 2
            r = yield from self.part(range(h))
            ctx.check(r == "part", "result of a part of a behaviour lost")
            yield from self.part(range(h, self.idx + 1))
            mark(self, self.idx + 1)
            return 2 * u

    class Async(agents.BaseAgent):
        async def part(self, k):
            await self.delay((k % 3 + 1) * u)
            return k

        async def step(self):
            for k in range(self.idx + 1):
                mark(self, k)
                if k % 2:
                    r = await self.part(k)
                    ctx.check(r == k, "result of an awaited coroutine lost")
                else:
                    await self.at(self.now + (k % 3 + 1) * u)
            mark(self, self.idx + 1)
            return self.delay(2 * u)

    class Inherited(Gen):
        pass

    class Machine(agents.FSM):
        @agents.default_state
        @agents.state
        def one(self):
            for k in range(self.idx + 1):
                mark(self, k)
                yield (k % 3 + 1) * u
            mark(self, self.idx + 1)
            return self.two.delay(2 * u)

        @agents.state
        async def two(self):
            for k in range(self.idx + 1):
                mark(self, k)
                await self.delay((k % 3 + 1) * u)
            mark(self, self.idx + 1)
            return "one", 2 * u

    kinds = [Gen, Async, Inherited, Delegated, Machine]
    for i in range(n):
        env.add_agent(kinds[i % 5], idx=i)
    nxt = {i: (0, 0) for i in range(n)}  # time in units, segment
    for s in range(steps):
        m = min(t for t, _ in nxt.values())
        due = {i: k for i, (t, k) in nxt.items() if t == m}
        del log[:]
        env.step()
        ctx.check(sorted((i, k) for i, k, _ in log) == sorted(due.items()), "the segments executed are not those that are next")
        for i, k, t in log:
            ctx.check(t == t0 + m * u, "resumed at another time than it asked for")
        for i, k in due.items():
            if k == i + 1:
                nxt[i] = (m + 2, 0)
                ctx.cover("restarted")
            else:
                nxt[i] = (m + k % 3 + 1, k + 1)
        ctx.observe("step", m, sorted(due.items()))


def cases(tier):
    q = tier == "quick"
    out = []
    for s in ("timed", "ordered", "pqueue-ordered", "pqueue"):
        for st in ("gen", "gendelay", "gennone", "genplain", "async", "nestedasync"):
            if s != "timed" and st in ("gendelay", "genplain", "gennone"):
                continue
            out.append(case("%s-%s-1" % (s, st), genagents, kwargs=dict(sched=s, style=st, n=1, steps=5 if q else 7, T0=True),
                            bounds="1 agent, 5 activations, 0..2 pauses per run of the body, delays any real > 0",
                            covers=["finished", "paused", "restarted"]))
            out.append(case("%s-%s-2" % (s, st), genagents, kwargs=dict(sched=s, style=st, n=2, steps=(2 if s == "pqueue" else 3 if st.endswith("none") else 2) if q else 3),
                            bounds="2 agents of one class, 2-3 steps, 0..2 pauses per run of the body, delays any real > 0",
                            covers=["finished", "paused", "restarted"]))
    out.append(case("timed-gen-2-classes", genagents, kwargs=dict(sched="timed", style="gen", n=2, steps=2, same_class=False),
                    bounds="2 agents of two subclasses of one class", covers=["finished", "paused"]))
    out.append(case("timed-async-2-shuffle", genagents, kwargs=dict(sched="timed", style="async", n=2, steps=2, rng="any"),
                    bounds="2 agents, every shuffle", covers=["finished", "paused"]))
    for s in ("timed", "pqueue-ordered"):
        for st in ("gen", "async", "fsm"):
            out.append(case("equiv-%s-%s" % (s, st), equivalent, kwargs=dict(sched=s, steps=4 if q else 5, style=st),
                            bounds="4 activations, delays any real > 0, a second agent with the default interval", covers=["compared"]))
    for s in ("timed", "pqueue-ordered"):
        for st in ("gen", "async", "nestedasync"):
            for e in ("none", "any") if s == "timed" else ("none",):
                for n in (1, 2):
                    out.append(case("%s-%s-end-%s-%d" % (s, st, e, n), genagents,
                                    kwargs=dict(sched=s, style=st, n=n, steps=(4 if n == 1 else 2) if q else (6 if n == 1 else 3), end=e, T0=n == 1),
                                    bounds="%d agents, 0..2 pauses per run of the body, delays any real > 0, the body ends without a delay (none) or with or without one (any)" % n,
                                    covers=["finished", "paused", "restarted"]))
    out += whole(out, "timed-gen-1", "timed-genplain-1", "timed-async-1", "timed-nestedasync-1", "pqueue-ordered-gen-1", "pqueue-ordered-async-1", "equiv-")
    for s in ("timed", "ordered", "pqueue", "pqueue-ordered"):
        n, k = (10, 30) if q else (15, 100)
        out.append(case("crowd-%s" % s, crowd, kwargs=dict(sched=s, n=n, steps=k), covers=["restarted"], max_depth=200000, path_seconds=300.0,
                        bounds="%d agents with behaviours of up to %d segments (generators, coroutines, delegation, inheritance, states), delays fixed multiples of any unit, %d steps, one shuffle" % (n, n + 1, k)))
    return out
