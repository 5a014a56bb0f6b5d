"""C08: tell / broadcast delivery."""
from .common import *


FALSY = [0, "", None, False, (), 0.0]


def script(ctx, n, ops, length, cls="EventedAgent", envcls="EventedEnvironment", falsy=False):
    """An arbitrary sequence of sends and message processings at arbitrary,
    non-decreasing times, then everybody processes the inbox."""
    from soil import agents, environment

    env = make_env(ctx, "timed", rng="fixed", base=getattr(environment, envcls))
    got = {}  # receiver -> list of (payload, sender, time)

    class A(getattr(agents, cls)):
        def step(self):
            pass

        def on_receive(self, msg, sender=None):
            got[self.idx].append((msg, sender, self.now))

    ags = []
    for i in range(n):
        got[i] = []
        ags.append(env.add_agent(A, idx=i))
    sent = {i: [] for i in range(n)}  # pending: (payload, sender, expiration)
    want = {i: [] for i in range(n)}
    serial = 0
    menu = []
    for o in ops:
        if o == "tell":
            menu += [("tell", i, s) for i in range(n) for s in (None, (i + 1) % n)]
        elif o == "bcast":
            menu += [("bcast", s, None) for s in [None] + list(range(n))]
        elif o == "bcastttl":
            menu += [("bcast", s, "ttl") for s in (None, 0)]
        elif o == "bcastexp":
            menu += [("bcast", s, "exp") for s in (None, n - 1)]
        elif o == "process":
            menu += [("process", i, None) for i in range(n)]

    def process(i):
        t = env.now
        valid = ags[i].process_messages()
        exp_valid = []
        for (p, s, e) in sent[i]:
            if e is not None and e < t:
                ctx.cover("expired")
                continue
            exp_valid.append((p, s, t))
            ctx.cover("delivered")
        want[i].extend(exp_valid)
        sent[i] = []
        ctx.check(len(valid) == len(exp_valid), "number of messages processed")
        if len(valid) == len(exp_valid):
            ctx.check(all(m.payload is p for m, (p, _, _) in zip(valid, exp_valid)), "messages returned out of order")
            ctx.check(all(m.sender is s for m, (_, s, _) in zip(valid, exp_valid)), "sender of a message")

    for k in range(length):
        dt = ctx.real("dt", 0)
        env.schedule.time = env.schedule.time + dt
        op = menu[ctx.choice("op", len(menu))]
        serial += 1
        payload = "again" if falsy == "same" else FALSY[(serial - 1) % len(FALSY)] if falsy else "m%d" % serial
        if op[0] == "tell":
            snd = (FALSY[serial % len(FALSY)] if falsy is True else None) if op[2] is None else ags[op[2]]
            ags[op[1]].tell(payload, sender=snd)
            sent[op[1]].append((payload, snd, None))
        elif op[0] == "bcast":
            snd = None if op[1] is None else ags[op[1]]
            kw = {}
            e = None
            if op[2] == "ttl":
                ttl = ctx.real("ttl", 0)
                kw["ttl"] = ttl
                e = env.now + ttl
            elif op[2] == "exp":
                e = ctx.real("exp", 0)
                kw["expiration"] = e
            env.broadcast(payload, sender=snd, **kw)
            for i in range(n):
                if ags[i] is not snd:
                    sent[i].append((payload, snd, e))
        else:
            process(op[1])
    env.schedule.time = env.schedule.time + ctx.real("dt", 0)
    for i in range(n):
        process(i)
    env.schedule.time = env.schedule.time + ctx.real("dt", 0)
    for i in range(n):
        ctx.check(not ags[i].process_messages(), "a message was delivered twice")
        ctx.check(len(got[i]) == len(want[i]), "messages lost, duplicated or delivered after they expired")
        if len(got[i]) == len(want[i]):
            for (p, s, t), (q, r, u) in zip(got[i], want[i]):
                ctx.check(p is q, "messages handled out of order")
                ctx.check(s is r, "handler got the wrong sender")
                ctx.check(t == u, "handler called at another time")
    ctx.observe("got", {i: [p for (p, _, _) in got[i]] for i in got})


def targets(ctx, n=3):
    """who gets a broadcast: agents selected by the filters, alive, with an inbox, not the sender"""
    import networkx as nx
    from soil import agents, environment

    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment)
    got = []

    class R(agents.EventedAgent):
        def step(self):
            pass

        def on_receive(self, msg, sender=None):
            got.append((self.unique_id, msg))

    class S(R):
        pass

    class Deaf(agents.BaseAgent):
        def step(self):
            pass

    kinds = []
    ags = []
    for i in range(n):
        k = ctx.choice("kind", 3)
        kinds.append(k)
        # the first two have the same name: it identifies nobody
        ags.append(env.add_agent([R, S, Deaf][k], group=ctx.choice("group", 2), **({} if i > 1 else dict(name="twin"))))
    dead = ctx.choice("dead", n + 1)
    if dead < n:
        ags[dead].die()
    snd = ctx.choice("sender", n + 1)
    filt = ctx.choice("filter", 5)
    kw = [dict(), dict(agent_class=S), dict(group=1), dict(unique_id=[ags[0].unique_id, ags[1].unique_id]), dict(agent_class=R, limit=1)][filt]
    env.broadcast("hello", sender=ags[snd] if snd < n else None, **kw)
    match = []
    for i in range(n):
        if i == dead:
            continue
        if filt == 1 and kinds[i] != 1:
            continue
        if filt == 2 and ags[i].group != 1:
            continue
        if filt == 3 and i > 1:
            continue
        if filt == 4 and kinds[i] == 2:
            continue
        match.append(i)
    if filt == 4:
        match = match[:1]
    exp = sorted(ags[i].unique_id for i in match if i != snd and kinds[i] != 2)
    for i in range(n):
        if kinds[i] != 2:
            ags[i].process_messages()
    ctx.check(sorted(i for (i, _) in got) == exp, "a broadcast reached other agents than those addressed")
    if exp:
        ctx.cover("reached")
    ctx.observe("got", sorted(i for (i, _) in got))


def reactive(ctx, length=3):
    """handlers that send messages themselves"""
    from soil import agents, environment

    env = make_env(ctx, "timed", rng="fixed", base=environment.EventedEnvironment)
    got = {0: [], 1: []}
    sent = {0: [], 1: []}
    ags = []
    fuel = [ctx.choice("fuel", 4)]
    serial = [0]

    class A(agents.EventedAgent):
        def step(self):
            pass

        def on_receive(self, msg, sender=None):
            got[self.idx].append(msg)
            if fuel[0] > 0:
                fuel[0] -= 1
                send(self, ctx.choice("react", 4))

    def send(me, how):
        serial[0] += 1
        p = serial[0]
        if how == 0:
            me.tell(p, sender=me)
            sent[me.idx].append(p)
            ctx.cover("to itself")
        elif how == 1:
            o = ags[1 - me.idx]
            o.tell(p, sender=me)
            sent[o.idx].append(p)
        elif how == 2:
            env.broadcast(p, sender=me)
            sent[1 - me.idx].append(p)
        else:
            env.broadcast(p)
            sent[0].append(p)
            sent[1].append(p)
            ctx.cover("to itself")

    for i in range(2):
        ags.append(env.add_agent(A, idx=i))
    for k in range(length):
        send(ags[0], 1 + ctx.choice("initial", 3))
        ags[ctx.choice("who", 2)].process_messages()
    for _ in range(5):
        for a in ags:
            a.process_messages()
    for i in range(2):
        ctx.check(got[i] == sent[i], "messages sent while others were being processed were lost, duplicated or reordered")
    ctx.observe("got", got)


def newborn(ctx, cls, n=2):
    """messages sent to an agent while it is being created"""
    from soil import agents, environment

    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment)
    got, sent = {}, {}
    serial = [0]

    class A(getattr(agents, cls)):
        if cls == "Agent":
            @agents.default_state
            @agents.state
            def idle(self):
                pass
        else:
            def step(self):
                pass

        def init(self):
            got[self.idx], sent[self.idx] = [], []
            for _ in range(2):
                how = ctx.choice("how", 4)
                serial[0] += 1
                p = serial[0]
                if how == 1:
                    self.tell(p, sender=self)
                    sent[self.idx].append((p, self))
                    ctx.cover("itself")
                elif how == 2 and older:
                    older[0].tell(p, sender=self)
                    sent[0].append((p, self))
                    ctx.cover("older")
                elif how == 3:
                    self.process_messages()
                    ctx.check([x for (x, s) in got[self.idx]] == [x for (x, s) in sent[self.idx]], "messages handled while an agent is initialised")

        def on_receive(self, msg, sender=None):
            got[self.idx].append((msg, sender))

    older = []
    for i in range(n):
        older.append(env.add_agent(A, idx=i))
    for _ in range(2):
        for a in older:
            a.process_messages()
    for i in range(n):
        ctx.check([p for p, _ in got[i]] == [p for p, _ in sent[i]], "messages sent while an agent is initialised were lost, duplicated or reordered")
        ctx.check(all(s is r for (_, s), (_, r) in zip(got[i], sent[i])), "sender of a message")


def scheduled(ctx, steps=3, sched="timed", rng="any"):
    """agents that send and process within their own steps"""
    from soil import agents, environment

    env = make_env(ctx, sched, rng=rng, base=environment.EventedEnvironment)
    log = []  # ('send', id, to, time, exp) / ('recv', i, id, time)
    serial = [0]
    ttl = ctx.real("ttl", 0)

    class Sender(agents.EventedAgent):
        def step(self):
            serial[0] += 1
            self.model.broadcast(serial[0], sender=self, ttl=ttl)
            log.append(("send", serial[0], self.now))
            self.process_messages()
            return ctx.real("ds", 0, lo_open=True)

        def on_receive(self, msg, sender=None):
            ctx.check(False, "the sender got its own broadcast")

    class Receiver(agents.EventedAgent):
        def step(self):
            self.process_messages()
            log.append(("processed", None, self.now))
            return ctx.real("dr", 0, lo_open=True)

        def on_receive(self, msg, sender=None):
            ctx.check(sender is snd, "sender of a broadcast")
            log.append(("recv", msg, self.now))

    snd = env.add_agent(Sender)
    env.add_agent(Receiver)
    for _ in range(steps):
        env.step()
    # oracle: replay the log
    pending, seen = [], []
    expected = []
    batch = []
    for (what, ident, t) in log:
        if what == "send":
            pending.append((ident, t))
        elif what == "recv":
            batch.append((ident, t))
        else:
            want = []
            for (i, ts) in pending:
                if ts + ttl >= t:
                    want.append(i)
                    ctx.cover("delivered")
                else:
                    ctx.cover("expired")
            ctx.check([i for (i, _) in batch] == want, "messages delivered differ from those sent and not expired")
            pending, batch = [], []
    ctx.observe("log", [(w, i, t) for (w, i, t) in log])


def traffic(ctx, n, rounds, cls="EventedAgent"):
    """many agents and messages: everybody sends and handles in turns; expirations are multiples of an arbitrary unit"""
    from soil import agents, environment

    u = ctx.real("unit", 0, lo_open=True)
    env = make_env(ctx, "ordered", rng="plain", base=environment.Environment)
    got = {i: [] for i in range(n)}
    inbox = {i: [] for i in range(n)}  # (payload, sender, expiration in units)
    dead = set()

    class A(getattr(agents, cls)):
        if cls == "Agent":
            @agents.default_state
            @agents.state
            def idle(self):
                return self.turn()
        else:
            def step(self):
                return self.turn()

        def turn(self):
            i, m = self.idx, now[0]
            if (i + m) % 3 == 0:
                before = len(got[i])
                valid = self.process_messages()
                want = [(p, s) for (p, s, e) in inbox[i] if e is None or e >= m]
                ctx.check(got[i][before:] == want, "messages handled differ from those sent and not expired, in order")
                ctx.check([v.payload for v in valid] == [p for p, _ in want], "messages returned")
                if len(want) < len(inbox[i]):
                    ctx.cover("expired")
                if want:
                    ctx.cover("delivered")
                inbox[i] = []
            k = (2 * i + m) % 4
            p = (i, m)
            if k == 0:
                j = (i * 3 + m) % n
                if j not in dead:
                    pop[j].tell(p, sender=self)
                    inbox[j].append((p, i, None))
            elif k == 1:
                env.broadcast(p, sender=self, ttl=(i % 3) * u)
                post(p, i, m + i % 3, lambda j: True)
            elif k == 2:
                env.broadcast(p, sender=self, expiration=(m + 2) * u, group=m % 2)
                post(p, i, m + 2, lambda j: j % 2 == m % 2)
            else:
                ids = [(i + d) % n for d in (0, 2, 5)]
                env.broadcast(p, sender=self, unique_id=[pop[j].unique_id for j in ids])
                post(p, i, None, lambda j: j in ids)
            if (i, m) == (n - 2, 4):
                pop[1].die()
                dead.add(1)
            return u

        def on_receive(self, msg, sender=None):
            got[self.idx].append((msg, None if sender is None else sender.idx))

    def post(p, sender, e, cond):
        for j in range(n):
            if j != sender and j not in dead and cond(j):
                inbox[j].append((p, sender, e))

    now = [0]
    pop = [env.add_agent(A, idx=i, group=i % 2) for i in range(n)]
    for r in range(rounds):
        now[0] = r
        env.step()
    ctx.observe("got", {i: len(got[i]) for i in got})


def crowded(ctx, n, cls):
    """many messages wait in one inbox; some of them, at any moment, have expired"""
    from soil import agents, environment

    env = make_env(ctx, "timed", rng="fixed", base=environment.Environment)
    got = []

    class A(getattr(agents, cls)):
        if cls == "Agent":
            @agents.default_state
            @agents.state
            def idle(self):
                return self.turn()
        else:
            def step(self):
                return self.turn()

        def turn(self):
            if self.now > 0:
                got.append("|")
                self.process_messages()
            return late

        def on_receive(self, msg, sender=None):
            got.append(msg)

    late = ctx.real("late", 0, lo_open=True)
    ttl = ctx.real("ttl", 0)
    a = env.add_agent(A)
    env.step()
    t = env.now - late
    want = []
    start = ctx.choice("start", 2)
    for i in range(n):
        k = (i + start) % 3
        if k == 0:
            a.tell(i)
            want.append(i)
        elif k == 1:
            env.broadcast(i)
            want.append(i)
        else:
            env.broadcast(i, ttl=ttl)
            want.append(i)
    ctx.check(env.now == t + late, "time")
    env.step()
    ctx.check(got == ["|"] + want, "messages waiting in a crowded inbox were lost, or came in another order")
    ctx.cover("delivered")


def cases(tier):
    q = tier == "quick"
    B = "%d agents, every sequence of %d operations (%s) at any non-decreasing times, any expirations"
    out = []

    def add(name, n, ops, length, covers=("delivered",), **kw):
        out.append(case(name, script, kwargs=dict(n=n, ops=ops, length=length, **kw), covers=list(covers),
                        bounds=B % (n, length, ", ".join(ops))))

    add("mix-2", 2, ["tell", "bcast", "bcastttl", "process"], 3, covers=["delivered", "expired"])
    add("expiry-2", 2, ["bcastttl", "bcastexp", "process"], 3 if q else 4, covers=["delivered", "expired"])
    add("tells-2", 2, ["tell", "process"], 4 if q else 5)
    add("mix-3", 3, ["tell", "bcast", "bcastexp", "process"], 2 if q else 3, covers=["delivered"])
    add("agent-2", 2, ["bcast", "tell"], 2, cls="EventedAgent", envcls="Environment")
    out.append(case("targets", targets, kwargs=dict(n=2 if q else 3), covers=["reached"],
                    bounds="2-3 agents of 3 kinds, any dead one, any sender, 5 filters"))
    out.append(case("reactive", reactive, kwargs=dict(length=2 if q else 3), covers=["to itself"],
                    bounds="2 agents, up to 3 messages sent from handlers (to self, to the other, broadcast)"))
    for c in ("EventedAgent", "Agent"):
        out.append(case("newborn-" + c, newborn, kwargs=dict(cls=c), covers=["itself", "older"], bounds="2 agents that send up to 2 messages each in their init"))
    out.append(case("scheduled", scheduled, kwargs=dict(steps=3 if q else 4), covers=["delivered", "expired"],
                    bounds="a broadcaster and a receiver with arbitrary delays and ttl, 3 steps, every shuffle"))
    out.append(case("scheduled-ordered", scheduled, kwargs=dict(steps=4 if q else 5, sched="ordered"), covers=["delivered", "expired"],
                    bounds="a broadcaster and a receiver with arbitrary delays and ttl, 4 steps"))
    add("repeated-1", 1, ["tell", "bcast", "bcastttl", "process"], 3 if q else 4, falsy="same")
    add("repeated-2", 2, ["tell", "bcast", "process"], 3, falsy="same")
    add("falsy-2", 2, ["tell", "bcast", "process"], 3 if q else 4, falsy=True)
    for c in ("EventedAgent", "Agent"):
        n = 300 if q else 1200
        out.append(case("crowded-" + c, crowded, kwargs=dict(n=n, cls=c), covers=["delivered"], max_depth=200000, path_seconds=300.0,
                        bounds="%d messages waiting in one inbox, any delay and ttl" % n))
    for c in ("EventedAgent", "Agent"):
        n, r = (8, 12) if q else (13, 40)
        out.append(case("traffic-" + c, traffic, kwargs=dict(n=n, rounds=r, cls=c), covers=["delivered", "expired"], max_depth=200000, path_seconds=300.0,
                        bounds="%d agents that send and handle messages in turns (told, broadcast with ttl, expiration or criteria), %d rounds of any length, one death" % (n, r)))
    return out
