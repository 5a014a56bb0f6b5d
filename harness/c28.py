"""C28: asking for several processes does not change the results.

The pools of processes of the standard library are replaced with their documentation: each
task is run once, and those of the interfaces that promise no order finish in an arbitrary
one, which the solver chooses."""
from .common import *


class Result:
    def __init__(self, call):
        self.call, self.done = call, False

    def _do(self):
        if not self.done:
            self.done = True
            self.error = self.value = None
            try:
                self.value = self.call()
            except Exception as ex:
                self.error = ex

    def get(self, timeout=None):
        self._do()
        if self.error is not None:
            raise self.error
        return self.value

    result = get

    def exception(self, timeout=None):
        self._do()
        return self.error

    def wait(self, timeout=None):
        self._do()

    def ready(self):
        return self.done

    def successful(self):
        return self.done and self.error is None

    def done_(self):
        return True

    def add_done_callback(self, f):
        self._do()
        f(self)


def pools(ctx):
    """install the stand-ins; returns the number of tasks given to them"""
    import concurrent.futures as cf
    import multiprocessing
    import multiprocessing.pool
    import sys
    used = []

    class Pool:
        def __init__(self, *a, **k):
            used.append("pool")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self, *a, **k):
            pass

        join = terminate = shutdown = close

        def _ordered(self, f, *its):
            rs = [Result(lambda args=args: f(*args)) for args in zip(*[list(i) for i in its])]
            for i in ctx.permutation("order", len(rs)):
                rs[i]._do()
                used.append("task")
            return rs

        def map(self, f, *its, chunksize=None, timeout=None):
            if its and len(its) > 1 and isinstance(its[-1], int):
                its = its[:-1]
            return [r.get() for r in self._ordered(f, *its)]

        def imap(self, f, it, chunksize=1):
            return iter([r.get() for r in self._ordered(f, it)])

        def imap_unordered(self, f, it, chunksize=1):
            rs = [Result(lambda x=x: f(x)) for x in it]
            for i in ctx.permutation("order", len(rs)):
                used.append("task")
                yield rs[i].get()

        def starmap(self, f, it, chunksize=None):
            return [r.get() for r in self._ordered(lambda a: f(*a), it)]

        def apply(self, f, args=(), kwds={}):
            used.append("task")
            return f(*args, **kwds)

        def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
            used.append("task")
            return Result(lambda: f(*args, **kwds))

        def map_async(self, f, it, *a, **k):
            return Result(lambda: self.map(f, it))

        def starmap_async(self, f, it, *a, **k):
            return Result(lambda: self.starmap(f, it))

        def submit(self, f, *a, **k):
            used.append("task")
            return Result(lambda: f(*a, **k))

    def as_completed(fs, timeout=None):
        fs = list(fs)
        for i in ctx.permutation("order", len(fs)):
            fs[i]._do()
            yield fs[i]

    mp = {multiprocessing.Pool: lambda *a, **k: Pool(), multiprocessing.pool.Pool: Pool, multiprocessing.pool.ThreadPool: Pool,
          cf.ProcessPoolExecutor: Pool, cf.ThreadPoolExecutor: Pool, cf.as_completed: as_completed}

    def put(m, k, v):
        old = getattr(m, k)
        setattr(m, k, v)
        ctx.cleanup.append(lambda: setattr(m, k, old))

    put(cf, "ProcessPoolExecutor", Pool)
    put(cf, "ThreadPoolExecutor", Pool)
    put(cf, "as_completed", as_completed)
    put(multiprocessing, "Pool", lambda *a, **k: Pool())
    put(multiprocessing.pool, "Pool", Pool)
    put(multiprocessing.pool, "ThreadPool", Pool)
    for name, m in list(sys.modules.items()):
        if name == "soil" or name.startswith("soil."):
            for k, v in list(vars(m).items()):
                for old, new in mp.items():
                    if v == old if not isinstance(v, SymNum) else False:
                        put(m, k, new)
    return used


def processes(ctx, iters, nmatrix, fails, via):
    from soil import agents, environment, exporters, simulation

    pools(ctx)
    x0 = ctx.real("x")
    values = [ctx.real("p") for _ in range(nmatrix)]
    bad = ctx.choice("bad", iters + 1) if fails else iters

    class A(agents.BaseAgent):
        x = x0

        def step(self):
            self.x = self.x + self.model.p
            return 1 if self.model.random.random() < 0.7 else 2

    class Env(environment.BaseEnvironment):
        p = 1

        def init(self):
            if self.id == str(bad):
                raise RuntimeError("this iteration fails")
            self.add_agent(A)
            self.draw = self.random.random()
            self.add_agent_reporter("x")
            self.add_model_reporter("draw")

    def run(n):
        told = []

        class Note(exporters.Exporter):
            def sim_start(self):
                told.append("start")

            def iteration_end(self, env, params, params_id):
                told.append((env, dict(params), params_id))

            def sim_end(self):
                told.append("end")

        kw = dict(iterations=iters, max_steps=2, name="many", dump=False, exporters=[Note], level=50, num_processes=n,
                  matrix={"p": list(values)} if nmatrix else {})
        try:
            if via == "env":
                res = Env.run(**kw)
            elif via == "function":
                res = simulation.run(Env, **kw)
            else:
                res = simulation.Simulation(model=Env, **kw).run()
        except RuntimeError as ex:
            return str(ex), None, None
        return None, res, told

    k = [2, 3, 8][ctx.choice("processes", 3)]
    (e1, r1, t1), (e2, r2, t2) = run(1), run(k)
    ctx.check(e1 == e2, "an iteration that fails is noticed or not depending on the number of processes")
    if e1 is not None:
        ctx.cover("failed")
        return
    if e2 is not None:
        return
    ctx.check(len(r1) == len(r2) == iters * max(nmatrix, 1), "number of results")
    ctx.check(len(t1) == len(t2) and t1[0] == t2[0] == "start" and t1[-1] == t2[-1] == "end", "notifications to exporters")
    if len(r1) != len(r2) or len(t1) != len(t2):
        return
    for a, b in zip(r1, r2):
        ctx.check(a.id == b.id and a.draw == b.draw, "results come in another order, or are others")
        ctx.check(a.p == b.p, "parameters of a result")
        ctx.check(a.now == b.now and a.schedule.steps == b.schedule.steps, "course of a run")
        ctx.check(same_seq([v.x for v in a.get_agents()], [v.x for v in b.get_agents()]), "state of the agents")
        ctx.check(same_seq(list(a.agent_df()["x"]), list(b.agent_df()["x"])), "data collected")
    for u, v in zip(t1[1:-1], t2[1:-1]):
        if isinstance(u, str) or isinstance(v, str):
            ctx.check(u == v, "notifications to exporters")
            continue
        ctx.check(u[0].id == v[0].id and u[2] == v[2], "order of the notifications to exporters")
        ctx.check(set(u[1]) == set(v[1]) and And([u[1][key] == v[1][key] for key in u[1]]) if u[1] else not v[1], "parameters told to exporters")
    ctx.cover("compared")
    ctx.observe("results", [e.id for e in r1])


def cases(tier):
    q = tier == "quick"
    out = []
    for via in ("simulation", "env", "function"):
        for nm in (0, 2):
            out.append(case("%s-%d" % (via, nm), processes, kwargs=dict(iters=3 if q else 4, nmatrix=nm, fails=False, via=via), covers=["compared"],
                            bounds="3-4 iterations, %d values in the matrix, 2, 3 or 8 processes; any values, any order of the tasks" % nm))
    out.append(case("failing", processes, kwargs=dict(iters=3, nmatrix=0, fails=True, via="simulation"), covers=["compared", "failed"],
                    bounds="3 iterations, any of them fails or none"))
    out.append(case("many", processes, kwargs=dict(iters=11, nmatrix=0, fails=False, via="simulation"), covers=["compared"],
                    bounds="11 iterations"))
    return out
