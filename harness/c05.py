"""C05: run limits and termination of Simulation / Environment.run."""
from .common import *


def limits(ctx, sched, mt, ms, via="sim", n=1, kmax=3, stop=False, style="num"):
    import soil
    from soil import agents, environment, simulation

    max_time = ctx.real("max_time", 0) if mt else None
    max_steps = ctx.int("max_steps", 0, kmax + 1) if ms else None
    stop_on = ctx.choice("stop_on", kmax + 1) if stop else None
    began = []  # (time, steps, running) at the start of each model step
    acts = []
    stopped = []

    def note(self, i):
        acts.append((i, self.now))
        mine = sum(1 for a in acts if a[0] == i)
        if mine > kmax + 1:
            ctx.check(False, "an agent that returned INFINITY was activated again")
            raise StopCase()
        if stop and stop_on == len(acts):
            self.model.running = False
            stopped.append(len(began))
            ctx.cover("model stopped")
        if mine >= kmax:
            return INF
        return ctx.real("d%d" % i, 0, lo_open=True)

    if style == "num":
        class A(agents.BaseAgent):
            def step(self):
                r = note(self, self.idx)
                return r
    else:
        class A(agents.BaseAgent):
            def step(self):
                while True:
                    yield note(self, self.idx)

    class Env(environment.BaseEnvironment):
        schedule_class = staticmethod(scheduler(sched))

        def __new__(c, *a, **k):
            self = super().__new__(c, *a, **k)
            self.random = DistinctRandom(ctx, "any")
            return self

        def init(self):
            for i in range(n):
                self.add_agent(A, idx=i)

        def step(self):
            began.append((self.schedule.time, self.schedule.steps, self.running))
            if len(began) > (kmax + 2) * (n + 1):
                ctx.check(False, "the simulation goes on although nothing is left to activate")
                raise StopCase()
            super().step()

    opts = dict(dump=False, exporters=[], level=50)
    if via == "sim":
        (env,) = simulation.Simulation(model=Env, max_time=max_time, max_steps=max_steps, **opts).run()
    elif via == "simrun":
        lim = {}
        if mt:
            lim["max_time"] = max_time
        if ms:
            lim["max_steps"] = max_steps
        (env,) = simulation.Simulation(model=Env, **opts).run(**lim)
    elif via == "envrun":
        (env,) = Env.run(max_time=max_time, max_steps=max_steps, **opts)
    else:
        (env,) = simulation.run(Env, max_time=max_time, max_steps=max_steps, exporters=[])
    for at in stopped:
        ctx.check(len(began) == at and not env.running, "a step was executed after an agent stopped the model")
    for (t, s, running) in began:
        ctx.check(running, "a step was executed although the model had stopped running")
        if mt:
            ctx.check(t < max_time, "a step was executed at or after max_time")
        if ms:
            ctx.check(s < max_steps, "more than max_steps steps were executed")
    for (i, t) in acts:
        if mt:
            ctx.check(t < max_time, "an agent was activated at or after max_time")
    done = [Not(env.running)]
    if mt:
        done.append(env.schedule.time >= max_time)
    if ms:
        done.append(env.schedule.steps >= max_steps)
    ctx.check(Or(done), "the simulation ended although no limit was reached and it was still running")
    if not mt and not ms and not stop:
        ctx.check(len(acts) == kmax * n, "the simulation ended before all agents were done")
    if not stop:
        # it may stop running only because nothing is left
        if not env.running:
            ctx.check(all(sum(1 for a in acts if a[0] == i) == kmax for i in range(n)),
                      "the model stopped running although agents were still due")
            ctx.cover("ran to exhaustion")
        else:
            ctx.cover("ran into a limit")
    ctx.observe("run", len(began), [t for (_, t) in acts])


def several(ctx, mt, ms, iterations=2):
    """every iteration obeys the limits"""
    from soil import agents, environment, simulation

    max_time = ctx.real("max_time", 0) if mt else None
    max_steps = ctx.int("max_steps", 0, 3) if ms else None
    per_env = {}

    class A(agents.BaseAgent):
        def step(self):
            l = per_env.setdefault(self.model.id, [])
            l.append(self.now)
            return INF if len(l) >= 3 else ctx.real("d" + self.model.id, 0, lo_open=True)

    class Env(environment.BaseEnvironment):
        def init(self):
            self.add_agent(A)

    envs = simulation.Simulation(model=Env, max_time=max_time, max_steps=max_steps, iterations=iterations,
                                 dump=False, exporters=[], level=50).run()
    ctx.check(len(envs) == iterations, "number of iterations")
    for e in envs:
        l = per_env.get(e.id, [])
        for t in l:
            if mt:
                ctx.check(t < max_time, "an agent was activated at or after max_time")
        done = [Not(e.running)]
        if mt:
            done.append(e.schedule.time >= max_time)
        if ms:
            ctx.check(e.schedule.steps <= max_steps, "more than max_steps steps were executed")
            done.append(e.schedule.steps >= max_steps)
        ctx.check(Or(done), "an iteration ended although no limit was reached")
        if len(l) == 3:
            ctx.cover("exhausted")


def long_run(ctx, sched, mt, ms, n, kmax, iterations, via):
    """longer runs and more iterations: delays are multiples of an arbitrary unit"""
    from soil import agents, environment, simulation

    u = ctx.real("unit", 0, lo_open=True)
    max_time = ctx.real("max_time", 0) if mt else None
    max_steps = ctx.int("max_steps", 0, n * kmax + 1) if ms else None
    runs = {}
    total = [0]

    class A(agents.BaseAgent):
        def step(self):
            total[0] += 1
            if total[0] > iterations * n * kmax:
                ctx.check(False, "agents are activated more often than they asked for")
                raise StopCase()
            acts = runs.setdefault(self.model.id, [])
            acts.append((self.idx, self.now))
            if sum(1 for a in acts if a[0] == self.idx) >= kmax:
                return self.die() if self.idx % 2 else INF
            return (self.idx + 2) * u

    class Env(environment.BaseEnvironment):
        schedule_class = staticmethod(scheduler(sched))

        def init(self):
            for i in range(n):
                self.add_agent(A, idx=i)

    opts = dict(dump=False, exporters=[], level=50, max_time=max_time, max_steps=max_steps, iterations=iterations)
    if via == "sim":
        envs = simulation.Simulation(model=Env, **opts).run()
    else:
        envs = Env.run(**opts)
    ctx.check([e.id for e in envs] == [str(i) for i in range(iterations)], "iterations")
    # the schedule in units
    times = sorted({(i + 2) * j for i in range(n) for j in range(kmax)})
    for e in envs:
        acts = runs.get(e.id, [])
        done = 0
        for s, m in enumerate(times):
            stop = []
            if mt:
                stop.append(m * u >= max_time)
            if ms:
                stop.append(s >= max_steps)
            if stop and Or(stop):
                break
            for i in range(n):
                if m % (i + 2) == 0 and m // (i + 2) < kmax:
                    done += 1
                    ctx.check(Or([And(j == i, t == m * u) for (j, t) in acts]), "an activation before the limits is missing")
        else:
            ctx.check(not e.running, "the model runs although nothing is left")
            ctx.cover("exhausted")
        if done < n * kmax:
            ctx.cover("limited")
            ctx.check(e.running, "the model stopped running although agents were still due")
        ctx.check(len(acts) == done, "an agent was activated beyond the limits")
    ctx.observe("n", total[0])


def eager(ctx, sched, mt, ms):
    """models that take some steps in their init"""
    from soil import agents, environment, simulation

    max_time = ctx.real("max_time", 0) if mt else None
    max_steps = ctx.int("max_steps", 0, 5) if ms else None
    early = ctx.choice("early", 3)
    runs = {}

    class A(agents.BaseAgent):
        def step(self):
            l = runs.setdefault(self.model.id, [])
            l.append(self.now)
            return ctx.real("d", 0, lo_open=True) if len(l) < 4 else INF

    class Env(environment.BaseEnvironment):
        schedule_class = staticmethod(scheduler(sched))

        def init(self):
            self.add_agent(A)
            for _ in range(early):
                self.step()

    its = 1 + ctx.choice("iterations", 2)
    envs = simulation.Simulation(model=Env, max_time=max_time, max_steps=max_steps, iterations=its, dump=False, exporters=[], level=50).run()
    ctx.check(len(envs) == its, "iterations")
    for e in envs:
        l = runs.get(e.id, [])
        n = e.schedule.steps
        ctx.check(n == len(l) >= early, "steps of a model")
        stop = [Not(e.running)]
        if mt:
            stop.append(e.schedule.time >= max_time)
            ctx.check(And([t < max_time for t in l[early:]]), "an agent was activated beyond max_time")
        if ms:
            stop.append(n >= max_steps)
            ctx.check(Or(n <= max_steps, n == early), "more than max_steps steps were executed")
        ctx.check(Or(stop), "an iteration ended although no limit was reached")
    ctx.cover("run")


def cases(tier):
    q = tier == "quick"
    out = []

    def add(sched, mt, ms, **kw):
        lim = ("time" if mt else "") + ("steps" if ms else "") or "nolimit"
        covers = []
        if not kw.get("stop"):
            covers.append("ran to exhaustion")
            if mt or ms:
                covers.append("ran into a limit")
        else:
            covers.append("model stopped")
        out.append(case("%s-%s-%s" % (sched, lim, "-".join("%s=%s" % i for i in sorted(kw.items()))), limits,
                        kwargs=dict(sched=sched, mt=mt, ms=ms, **kw), covers=covers,
                        bounds="%d agents of at most %d activations, delays any real > 0, max_time any real >= 0, max_steps any int in 0..%d" % (
                            kw.get("n", 1), kw.get("kmax", 3), kw.get("kmax", 3) + 1)))

    for mt in (0, 1):
        for ms in (0, 1):
            for s in ("timed", "ordered", "pqueue-ordered"):
                rnd = s == "timed"
                add(s, mt, ms, n=1, kmax=3 if q else 5)
                add(s, mt, ms, n=2, kmax=2 if (rnd and q) else 3 if rnd or q else 4)
            add("timed", mt, ms, n=1, kmax=3, stop=True)
            add("pqueue", mt, ms, n=1, kmax=3, stop=True)
            add("timed", mt, ms, n=1, kmax=3, via="simrun")
            add("timed", mt, ms, n=1, kmax=3, via="envrun", style="gen")
            add("pqueue", mt, ms, n=2, kmax=2, via="run")
            out.append(case("iterations-%d%d" % (mt, ms), several, kwargs=dict(mt=mt, ms=ms),
                            covers=["exhausted"], bounds="2 iterations, 1 agent, at most 3 activations"))
            for sc in ("timed", "pqueue"):
                out.append(case("eager-%s-%d%d" % (sc, mt, ms), eager, kwargs=dict(sched=sc, mt=mt, ms=ms), covers=["run"], bounds="models that take 0..2 steps in their init, 1-2 iterations, 1 agent, at most 4 activations, any delays and limits"))
    out += whole(out, "-time-n=1", "steps-kmax=3-n=1", "simrun")
    for s in ("timed", "ordered", "pqueue", "pqueue-ordered"):
        for (mt, ms) in ((1, 0), (0, 1), (1, 1), (0, 0)):
            k = dict(n=2, kmax=7, iterations=2) if q else dict(n=3, kmax=12, iterations=3)
            if s == "timed" and mt + ms == 1:
                k["iterations"] = 11
            out.append(case("long-%s-%d%d" % (s, mt, ms), long_run, kwargs=dict(sched=s, mt=mt, ms=ms, via="sim" if ms else "env", **k),
                            covers=["exhausted"] + (["limited"] if mt or ms else []), max_depth=100000, path_seconds=300.0,
                            bounds="%(n)d agents of %(kmax)d activations, delays fixed multiples of any unit, any limits, %(iterations)d iterations" % k))
    return out
