"""C09: waiting for replies (ask) and for messages (received) with deadlines."""
from .common import *

REPLIES = [None, "yes", 0, False, "", 7]


def ask(ctx, limit, style="gen", steps=4, sched="ordered", rng="any", asker_first=True, nrep=6):
    from soil import agents, environment
    from soil.events import TimedOut

    env = make_env(ctx, sched, rng=rng, base=environment.EventedEnvironment, T0=ctx.real("T0"))
    t0 = env.now
    d = ctx.real("poll", 0, lo_open=True)
    reply = REPLIES[ctx.choice("reply", nrep)]
    kw = dict(delay=d)
    deadline = INF
    if limit == "timeout":
        to = ctx.real("timeout", 0)
        kw["timeout"] = to
        deadline = t0 + to
    elif limit == "expiration":
        deadline = ctx.real("expiration", 0)
        kw["expiration"] = deadline
    res = []
    handled = []

    class Target(agents.EventedAgent):
        def step(self):
            self.process_messages()
            return ctx.real("db", 0, lo_open=True)

        def on_receive(self, msg, sender=None):
            ctx.check(msg == "question", "payload of the question")
            handled.append(self.now)
            return reply

    def outcome(kind, val, now):
        res.append((kind, val, now))

    if style == "gen":
        class Asker(agents.EventedAgent):
            def step(self):
                try:
                    r = yield from tgt.ask("question", **kw)
                except TimedOut:
                    outcome("timeout", None, self.now)
                else:
                    outcome("reply", r, self.now)
                yield INF
    elif style == "async":
        class Asker(agents.EventedAgent):
            async def step(self):
                try:
                    r = await tgt.ask("question", **kw)
                except TimedOut:
                    outcome("timeout", None, self.now)
                else:
                    outcome("reply", r, self.now)
                await self.delay(INF)
    else:
        class Asker(agents.FSM, agents.EventedAgent):
            @agents.default_state
            @agents.state
            async def only(self):
                try:
                    r = await tgt.ask("question", **kw)
                except TimedOut:
                    outcome("timeout", None, self.now)
                else:
                    outcome("reply", r, self.now)
                return self.die()

    if asker_first:
        env.add_agent(Asker)
        tgt = env.add_agent(Target)
    else:
        tgt = env.add_agent(Target)
        env.add_agent(Asker)
    for _ in range(steps):
        env.step()
        ctx.check(len(handled) <= 1, "the question was delivered more than once")
    ctx.check(len(res) <= 1, "the question was answered more than once")
    useful = handled and reply is not None
    if res:
        kind, val, tau = res[0]
        # the asker looks at t0, t0 + d, t0 + 2d, ...
        k = (tau - t0) / d
        if kind == "reply":
            ctx.cover("reply")
            ctx.check(bool(useful), "a reply was returned although nobody replied")
            if useful:
                ctx.check(val is reply or val == reply, "another value than the reply was returned")
                ctx.check(type(val) is type(reply), "another value than the reply was returned")
                ctx.check(tau < deadline, "a reply was returned after the deadline")
                ctx.check(And(tau >= handled[0], tau - d <= handled[0]), "the reply was not returned at the first opportunity")
        else:
            ctx.cover("timeout")
            ctx.check(tau >= deadline, "timed out before the deadline")
            ctx.check(Or(tau == t0, tau - d < deadline), "timed out later than the first look after the deadline")
            if useful:
                ctx.check(Or(tau == t0, handled[0] >= tau - d), "timed out although the reply was there before the deadline")
    else:
        # still waiting: no look so far can have found a reply or passed the deadline
        last = env.now  # every look strictly before this instant has happened
        if useful:
            ctx.check(handled[0] + d >= last, "still waiting although the reply has been there for a whole polling interval")
        if deadline is not INF:
            ctx.check(deadline + d >= last, "still waiting although the deadline has passed")
        ctx.cover("waiting")
    ctx.observe("res", [(k, repr(v), t) for (k, v, t) in res], handled)


def received(ctx, limit, style="gen", steps=4, sched="ordered", rng="any", first=True, nmsg=2, process=True):
    from soil import agents, environment
    from soil.events import TimedOut

    env = make_env(ctx, sched, rng=rng, base=environment.EventedEnvironment, T0=ctx.real("T0"))
    t0 = env.now
    d = ctx.real("poll", 0, lo_open=True)
    kw = dict(delay=d)
    if limit == "timeout":
        to = ctx.real("timeout", 0)
        kw["timeout"] = to
        deadline = t0 + to
    elif limit == "expiration":
        deadline = ctx.real("expiration", 0)
        kw["expiration"] = deadline
    else:
        deadline = t0 + 60
    if not process:
        kw["process"] = False
    sent, handled, res = [], [], []

    def outcome(kind, val, now):
        res.append((kind, val, now, len(sent)))

    class Waiter(agents.EventedAgent):
        def on_receive(self, msg, sender=None):
            handled.append((msg, self.now))

    if style == "gen":
        class W(Waiter):
            def step(self):
                try:
                    r = yield from self.received(**kw)
                except TimedOut:
                    outcome("timeout", None, self.now)
                else:
                    outcome("msgs", [m.payload for m in r], self.now)
                yield INF
    else:
        class W(Waiter):
            async def step(self):
                try:
                    r = await self.received(**kw)
                except TimedOut:
                    outcome("timeout", None, self.now)
                else:
                    outcome("msgs", [m.payload for m in r], self.now)
                await self.delay(INF)

    class Sender(agents.EventedAgent):
        def step(self):
            # the first activation only waits; then one message per activation
            if self.quiet:
                self.quiet = False
                return ctx.real("first", 0, lo_open=True)
            n = len(sent)
            if n < nmsg:
                w.tell(n, sender=self)
                sent.append((n, self.now))
            return ctx.real("ds", 0, lo_open=True)

    quiet = ctx.flag("quiet")
    if first:
        w = env.add_agent(W)
        env.add_agent(Sender, quiet=quiet)
    else:
        env.add_agent(Sender, quiet=quiet)
        w = env.add_agent(W)
    for _ in range(steps):
        env.step()
    ctx.check(len(res) <= 1, "returned more than once")
    if res:
        kind, val, tau, nsent = res[0]
        if kind == "msgs":
            ctx.cover("messages")
            ctx.check(val == [p for (p, _) in sent[:nsent]], "the messages returned are not those waiting, in order")
            if process:
                ctx.check([p for (p, _) in handled] == val, "the messages returned are not those handled")
            else:
                ctx.check(not handled, "messages were handled although they should only be returned")
                w.process_messages()
                ctx.check([p for (p, _) in handled] == [p for (p, _) in sent], "messages that were returned unhandled are not kept")
            ctx.check(len(val) > 0, "returned without any message")
            ctx.check(tau < deadline, "returned messages after the deadline")
            if nsent:
                ctx.check(And(tau >= sent[0][1], tau - d <= sent[0][1]), "messages were not returned at the first opportunity")
        else:
            ctx.cover("timeout")
            ctx.check(tau >= deadline, "timed out before the deadline")
            ctx.check(Or(tau == t0, tau - d < deadline), "timed out later than the first look after the deadline")
            if nsent:
                ctx.check(Or(tau == t0, sent[0][1] >= tau - d), "timed out although a message was there before the deadline")
    else:
        last = env.now
        if sent:
            ctx.check(sent[0][1] + d >= last, "still waiting although a message has been there for a whole polling interval")
        ctx.check(deadline + d >= last, "still waiting although the deadline has passed")
        ctx.cover("waiting")
    ctx.observe("res", [(k, v, t) for (k, v, t, _) in res], [t for (_, t) in sent])


def several(ctx, n, rounds, style, limit):
    """several agents that ask the same one, one question after another; the replies tell them apart"""
    from soil import agents, environment
    from soil.events import TimedOut

    env = make_env(ctx, "ordered", rng="fixed", base=environment.EventedEnvironment, T0=ctx.real("T0"))
    u = ctx.real("poll", 0, lo_open=True)
    w = ctx.real("work", 0, lo_open=True)
    res = {i: [] for i in range(n)}
    asked = {i: [] for i in range(n)}
    handled = []
    kw = dict(timeout=ctx.real("timeout", 0)) if limit else {}

    class Target(agents.EventedAgent):
        def step(self):
            self.process_messages()
            return w

        def on_receive(self, msg, sender=None):
            handled.append((msg, self.now))
            return ("re", msg) if msg[1] % 3 != 1 else msg[1] - 1

    def question(self, k):
        asked[self.idx].append(self.now)
        return tgt.ask((self.idx, k), delay=(self.idx + 1) * u, **kw)

    if style == "gen":
        class Asker(agents.EventedAgent):
            def step(self):
                for k in range(rounds):
                    try:
                        r = yield from question(self, k)
                    except TimedOut:
                        r = TimedOut
                    res[self.idx].append((r, self.now))
                yield INF
    else:
        class Asker(agents.FSM, agents.EventedAgent):
            @agents.default_state
            @agents.state
            async def only(self):
                for k in range(rounds):
                    try:
                        r = await question(self, k)
                    except TimedOut:
                        r = TimedOut
                    res[self.idx].append((r, self.now))
                return self.die()

    for i in range(n):
        env.add_agent(Asker, idx=i)
    tgt = env.add_agent(Target)
    for _ in range(rounds * 2 + 2):
        env.step()
    for i in range(n):
        d = (i + 1) * u
        for k, (r, t) in enumerate(res[i]):
            at = [x for (m, x) in handled if m == (i, k)]
            ctx.check(len(at) <= 1, "the question was delivered more than once")
            deadline = asked[i][k] + kw["timeout"] if limit else INF
            if r is TimedOut:
                ctx.cover("timeout")
                ctx.check(And(t >= deadline, Or(t == asked[i][k], t - d < deadline)), "timed out at another time than the first look after the deadline")
                if at:
                    ctx.check(Or(t == asked[i][k], at[0] >= t - d), "timed out although the reply was there before the deadline")
            else:
                ctx.check(len(at) == 1 and r == (("re", (i, k)) if k % 3 != 1 else k - 1), "another value than the reply was returned")
                if at:
                    ctx.check(And(t >= at[0], t - d <= at[0], t < deadline), "the reply was not returned at the first opportunity")
                ctx.cover("reply")
                if k:
                    ctx.cover("another reply")
    ctx.observe("res", {i: [(repr(r), t) for r, t in v] for i, v in res.items()})


def cases(tier):
    q = tier == "quick"
    out = []
    for limit in ("none", "timeout", "expiration"):
        cov = ["reply"] + (["timeout"] if limit != "none" else ["waiting"])
        for first in (True, False):
            for style in ("gen", "async", "fsm"):
                if style == "fsm" and not first:
                    continue
                out.append(case("ask-%s-%s-%s" % (limit, style, "first" if first else "second"), ask,
                                kwargs=dict(limit=limit, style=style, asker_first=first, steps=3 if q else 5, nrep=6 if style == "gen" else 3),
                                covers=cov, bounds="1 asker, 1 target with arbitrary delays, 6 kinds of reply, any polling delay and deadline, 3 steps"))
        out.append(case("ask-%s-shuffled" % limit, ask, kwargs=dict(limit=limit, sched="timed", steps=3 if q else 4, nrep=3), covers=cov,
                        bounds="as above, every shuffle, 3 kinds of reply"))
    for limit in ("default", "timeout", "expiration"):
        cov = ["messages", "timeout"]
        for first in (True, False):
            for style in ("gen", "async"):
                out.append(case("received-%s-%s-%s" % (limit, style, "first" if first else "second"), received,
                                kwargs=dict(limit=limit, style=style, first=first, steps=4 if q else 5), covers=cov,
                                bounds="1 waiter, 1 sender of up to 2 messages at arbitrary times, any polling delay and deadline, 4 steps"))
        out.append(case("received-%s-unhandled" % limit, received, kwargs=dict(limit=limit, process=False, steps=3 if q else 4, first=False), covers=["messages"],
                        bounds="1 waiter that leaves the messages unhandled, 1 sender, 3 steps"))
        out.append(case("received-%s-shuffled" % limit, received, kwargs=dict(limit=limit, sched="timed", steps=3 if q else 4), covers=["messages"],
                        bounds="as above, every shuffle, 3 steps"))
    for style in ("gen", "fsm"):
        for limit in (False, True):
            out.append(case("several-%s%s" % (style, "-timeout" if limit else ""), several, kwargs=dict(n=2, rounds=2 if q else 3, style=style, limit=limit),
                            covers=["reply"] + ([] if limit and q else ["another reply"]) + (["timeout"] if limit else []),
                            bounds="2 agents that ask 2-3 questions each of a third one, any polling interval, pace of the other and time-out"))
    return out
