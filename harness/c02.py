"""C02: the simulation clock (see timed.py for agents that only return delays)."""
from .common import *
from . import timed


def clock(ctx, sched, n, steps, ops, rng="fixed", late=False):
    """agents that also die, kill and create others: the clock follows the agents that are left"""
    from soil import agents

    t0 = ctx.real("T0")
    env = make_env(ctx, sched, rng=rng, T0=t0)
    pend = {}  # agent index -> time of its next activation
    all_ = {}
    seen = []

    class A(agents.BaseAgent):
        def step(self):
            i, now = self.idx, self.now
            seen.append((i, now))
            if i in pend:
                ctx.check(pend[i] == now, "an agent that is not due was activated")
            if len(seen) > steps * (n + steps) + 4:
                ctx.check(False, "agents are activated without bound")
                raise StopCase()
            op = ops[ctx.choice("op", len(ops))]
            if op == "die":
                pend.pop(i, None)
                ctx.cover("died")
                return self.die()
            if op == "diequietly":
                pend.pop(i, None)
                self.die()
                ctx.cover("died")
                return ctx.real("d%d" % i, 0, lo_open=True)
            if op == "kill":
                live = sorted(j for j in pend if j != i)
                if live:
                    j = live[ctx.choice("victim", len(live))]
                    pend.pop(j)
                    all_[j].die()
                    ctx.cover("killed")
            if op == "spawn" and len(all_) < n + 1:
                create(now + ctx.real("later", 0, lo_open=True))
                ctx.cover("born")
            if op == "inf":
                pend.pop(i, None)
                return INF
            d = ctx.real("d%d" % i, 0, lo_open=True)
            pend[i] = now + d
            return d

    def create(when):
        i = len(all_)
        a = all_[i] = A(unique_id=env.next_id(), model=env, idx=i)
        if when is None:
            pend[i] = env.now
            env.schedule.add(a)
        else:
            pend[i] = when
            env.schedule.add(a, when=when)

    for i in range(n):
        create(t0 + ctx.real("start", 0) if late else None)
    count = env.schedule.steps
    for _ in range(steps):
        t = env.now
        lo = len(seen)
        env.step()
        now = env.now
        for (i, when) in seen[lo:]:
            ctx.check(when == t, "time seen inside a step differs from the step's time")
        ctx.check(now >= t, "clock went backwards")
        if pend:
            ctx.check(now == Min(list(pend.values())), "clock is not at the earliest pending activation")
            ctx.check(env.running, "a model with pending activations is not running")
        else:
            if n:  # without agents from the start, the clock may also stay where it was
                ctx.check(now == INF, "clock finite although nothing is pending")
            else:
                ctx.check(Or(now == INF, now == t), "the clock of a model without agents")
            ctx.check(not env.running, "a model with nothing pending is running")
            ctx.cover("nothing-left")
        if len(seen) > lo:
            count = count + 1
            ctx.check(env.schedule.steps == count, "step counter")
        count = env.schedule.steps
        ctx.observe("clock", now, [i for (i, _) in seen[lo:]])
        if not pend:
            if n:
                after = env.schedule.steps
                for _ in range(2):
                    env.step()
                ctx.check(env.now == INF and env.schedule.steps == after and not env.running, "a step after the end changed the clock or the counter of steps")
            break


def cases(tier):
    q = tier == "quick"
    out = timed.make(tier, "clock")

    def add(sched, n, steps, ops, covers, **kw):
        out.append(case("clock-%s-%d-%s%s" % (sched, n, "+".join(ops), "-late" if kw.get("late") else ""), clock,
                        kwargs=dict(sched=sched, n=n, steps=steps, ops=list(ops), **kw), covers=covers,
                        bounds="%d agents, %d steps, each activation one of: %s; delays, start and initial times any real" % (n, steps, ", ".join(ops))))

    for s in ("timed", "ordered", "pqueue-ordered"):
        add(s, 2, 3 if q else 4, ("go", "die", "kill"), ["died", "killed", "nothing-left"])
        add(s, 2, 2 if q else 3, ("diequietly", "spawn", "inf"), ["died", "born", "nothing-left"])
        add(s, 2, 3 if q else 4, ("go", "die"), ["died", "nothing-left"], late=True)
    for s in ("timed", "ordered", "pqueue", "pqueue-ordered"):
        add(s, 0, 2, ("go",), ["nothing-left"])
    add("ordered", 3, 2 if q else 3, ("go", "kill"), ["killed"])
    add("timed", 2, 2, ("go", "kill", "die"), ["died", "killed"], rng="any")
    out += timed.crowds(tier, "both")
    return out
