"""C17: nothing is written unless asked to, and nothing is lost when asked to keep it."""
import io
import os
import sqlite3

from .common import *


def tree(d):
    out = {}
    for p, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(p, x), d) + "/"] = None
        for x in files:
            with open(os.path.join(p, x), "rb") as f:
                out[os.path.relpath(os.path.join(p, x), d)] = f.read()
    return out


def inside(ctx, d):
    """work inside a directory of this path"""
    old = os.getcwd()
    os.chdir(d)
    ctx.cleanup.insert(0, lambda: os.chdir(old))


def stamps(ctx, options):
    """creation times of files are arbitrary"""
    if not options:
        return
    real = os.path.getctime
    known = {}

    def getctime(p):
        key = (os.path.abspath(p), os.stat(p).st_ino)
        if key not in known:
            known[key] = [1700000000.25, 1700000000.75, 1700000001.5][ctx.choice("ctime", options)]
        return known[key]

    os.path.getctime = getctime
    ctx.cleanup.append(lambda: setattr(os.path, "getctime", real))


def simple(ctx, log=None):
    from soil import agents, environment

    class A(agents.NetworkAgent):
        x = 0

        def step(self):
            self.x += 1
            return 1

    class Env(environment.Environment):
        def init(self):
            if log is not None:
                log.append(self)
            self.create_network(generator="path_graph", n=2)
            self.populate_network([A])
            self.add_agent_reporter("x")

    return Env


EXPORTERS = ["default", "SQLite", "csv", "gexf", "YAML", "dummy", "summary"]


def nowrite(ctx, exporter, previous):
    """no file appears, changes or disappears unless results are to be dumped"""
    from soil import simulation

    d = scratch(ctx)
    inside(ctx, d)
    out = os.path.join(d, "out")
    log = []
    Env = simple(ctx, log)
    sink = io.StringIO()
    group = "grp" if ctx.flag("group") else None
    if previous and ctx.flag("previous"):
        simulation.Simulation(model=Env, name="result", group=group, outdir=out, dump=True, exporters=["default", "csv", "gexf", "dummy"],
                              max_steps=1, level=50).run()
        ctx.cover("previous")
    del log[:]
    before = tree(d)
    dump = ctx.flag("dump")
    dry = ctx.flag("dry_run")
    conf = dict(dump=dump, dry_run=dry, backup=ctx.flag("backup"), overwrite=ctx.flag("overwrite"))
    if ctx.flag("default outdir"):
        where = {}
    else:
        where = dict(outdir=out)
    how = ctx.choice("how", 2)
    rest = dict(name="result", group=group, exporters=[exporter], exporter_params=dict(copy_to=sink), max_steps=1, level=50,
                iterations=1 + ctx.choice("iterations", 2), matrix={"m": [1, 2]} if ctx.flag("matrix") else {}, **where)
    if how == 0:
        res = simulation.Simulation(model=Env, **conf, **rest).run()
    else:
        res = simulation.Simulation(model=Env, **rest).run(**conf)
    after = tree(d)
    n = rest["iterations"] * (2 if rest["matrix"] else 1)
    if dry:
        ctx.check(res == [] and not log, "a dry run ran the model")
    else:
        ctx.check(len(res) == n == len(log), "number of models run")
    if not dump or dry:
        ctx.check(before == after, "a file was written, changed or removed although nothing was to be dumped")
        ctx.cover("quiet")
    elif exporter != "summary" and not before:
        ctx.check(any(v is not None for v in after.values()), "nothing was written although results were to be dumped")
        ctx.cover("written")


def ids(db):
    con = sqlite3.connect(db)
    try:
        conf = sorted(r[0] for r in con.execute("select simulation_id from configuration"))
        rows = {}
        for t in ("env", "agents"):
            for r in con.execute("select simulation_id from %s" % t):
                rows.setdefault(r[0], {}).setdefault(t, 0)
                rows[r[0]][t] += 1
        return conf, rows
    finally:
        con.close()


def history(ctx, runs, options, first=0):
    """several runs into one database: what is in it, and in the backups"""
    from soil import simulation

    d = scratch(ctx)
    inside(ctx, d)
    stamps(ctx, options)
    Env = simple(ctx)
    current, backups = [], []
    for r in range(first + runs):
        if r < first:  # many replaced databases before the runs of interest
            backup, overwrite = True, r % 3 == 1
        else:
            backup, overwrite = ctx.flag("backup"), ctx.flag("overwrite")
        sim = simulation.Simulation(model=Env, name="result", outdir=d, dump=True, exporters=["SQLite"], max_steps=1, level=50,
                                    backup=backup, overwrite=overwrite)
        sim.run()
        if backup and current:
            backups.append(sorted(current))
            current = []
        if overwrite:
            current = []
        current.append(sim.id)
        conf, rows = ids(os.path.join(d, "result", "result.sqlite"))
        ctx.check(conf == sorted(current), "simulations in the database")
        for s in current:
            ctx.check(rows.get(s) == dict(env=2, agents=4), "rows of a simulation in the database")
        ctx.check(set(rows) == set(current), "rows of a simulation that should not be in the database")
        bd = os.path.join(d, "result", "backup")
        got = []
        for f in sorted(os.listdir(bd)) if os.path.exists(bd) else []:
            c, rr = ids(os.path.join(bd, f))
            got.append(c)
            for s in c:
                ctx.check(rr.get(s) == dict(env=2, agents=4), "rows of a simulation in a backup")
        ctx.check(sorted(got) == sorted(backups), "the backups do not hold every database that was replaced")
        if len(backups) > 1:
            ctx.cover("several backups")
        if overwrite and not backup:
            ctx.cover("overwritten")


def outputs(ctx, ops, options, api, first=0, names=("one.txt", os.path.join("sub", "two.txt"))):
    """exporters that write files of their own"""
    from soil import simulation, exporters, utils

    d = scratch(ctx)
    inside(ctx, d)
    stamps(ctx, options)
    Env = simple(ctx)
    backup = True if first else ctx.flag("backup")
    dump = ctx.flag("dump") if api == "exporter" else True
    sink = io.StringIO()
    out = os.path.join(d, "o")
    want, lost, printed = {}, [], []
    if api == "exporter":
        sim = simulation.Simulation(model=Env, name="result", backup=backup, level=50)
        e = exporters.Exporter(sim, outdir=out, dump=dump, copy_to=sink)
        base = os.path.join(out, "result")
    else:
        base = os.path.join(out, "deep")
    for i in range(first + ops):
        if i < first:
            name, mode = names[0], "w"
        else:
            name = names[ctx.choice("file", 2)]
            mode = ["w", "a", "wb", "w+"][ctx.choice("mode", 4)]
        path = os.path.join(base, name)
        arg = name
        if api != "exporter" or (i >= first and ctx.flag("absolute")):
            arg = path
        text = "text %d\n" % i
        data = text.encode() if "b" in mode else text
        if api == "exporter":
            with e.output(arg, mode=mode) as f:
                f.write(data)
        elif api == "open":
            with utils.safe_open(arg, mode=mode, backup=backup) as f:
                f.write(data)
        if not dump:
            printed.append(text.strip())
            continue
        if "w" in mode:
            if path in want:
                lost.append((path, want[path]))
                ctx.cover("replaced")
            want[path] = text
        else:
            want[path] = want.get(path, "") + text
    have = tree(d)
    if not dump:
        ctx.check(not have, "something was written although nothing was to be dumped")
        for t in printed:
            ctx.check(t in sink.getvalue(), "text not shown")
        ctx.cover("quiet")
        return
    for p, t in want.items():
        ctx.check(have.get(os.path.relpath(p, d)) == t.encode(), "contents of a file")
    bks = [(p, c) for p, c in have.items() if c is not None and os.path.join(d, p) not in want]
    if not backup:
        ctx.check(not bks, "a backup was made although none was asked for")
    else:
        left = list(bks)
        for (p, t) in lost:
            hit = [b for b in left if b[1] == t.encode() and os.path.basename(p) in b[0]]
            ctx.check(bool(hit), "contents that were replaced are in no backup")
            if hit:
                left.remove(hit[0])


def cases(tier):
    q = tier == "quick"
    out = []
    for e in EXPORTERS:
        out.append(case("dump-" + e, nowrite, kwargs=dict(exporter=e, previous=True),
                        bounds="every combination of dump, dry_run, backup, overwrite, group, matrix, 1-2 iterations, output directory, earlier results",
                        covers=["quiet", "previous"] + (["written"] if e != "summary" else [])))
    out.append(case("runs-many", history, kwargs=dict(runs=2, options=1, first=12), bounds="12 runs with backups in one second, then 2 with every combination of backup and overwrite",
                    covers=["several backups"], path_seconds=120))
    for api in ("exporter", "open"):
        out.append(case("files-many-" + api, outputs, kwargs=dict(ops=1, options=1, api=api, first=13), covers=["replaced"],
                        bounds="13 replacements of one file in one second, then any operation"))
    out.append(case("runs-same-second", history, kwargs=dict(runs=3 if q else 4, options=1), bounds="3-4 runs, every combination of backup and overwrite, files of one second",
                    covers=["several backups", "overwritten"]))
    out.append(case("runs", history, kwargs=dict(runs=2 if q else 3, options=3), bounds="2-3 runs, every combination of backup and overwrite, creation times equal, in the same second, or later",
                    covers=["overwritten"]))
    for api in ("exporter", "open"):
        out.append(case("files-" + api, outputs, kwargs=dict(ops=3, options=1, api=api), covers=["replaced"],
                        bounds="every 3 writes (w, a, wb, w+) to 2 files, backup or not"))
        out.append(case("files-named-" + api, outputs, kwargs=dict(ops=2 if q else 3, options=1, api=api, names=["dummy", os.path.join("sub.dir", ".two words@1.tar.gz")]), covers=["replaced"],
                        bounds="every 2-3 writes to files without extension, with several, with spaces"))
        out.append(case("files-times-" + api, outputs, kwargs=dict(ops=2 if q else 3, options=2, api=api), covers=["replaced"],
                        bounds="every 2-3 writes, creation times arbitrary"))
    return out
