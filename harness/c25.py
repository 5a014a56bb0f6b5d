"""C25: templates expand to every combination of their variables."""
import os

from .common import *
from symx.core import untoken


def build(ctx, nb, nl, rows, form):
    """a template with nb sampled variables, nl lists of values, and `rows` samples"""
    samples = [[ctx.real("s") for _ in range(nb)] for _ in range(rows)]
    bounds = {"b%d" % (9 - i): [ctx.int("lo", 0, 3), ctx.int("hi", 4, 9)] for i in range(nb)}
    lists = {}
    for i in range(nl):
        m = ctx.choice("len", 2) + 1
        lists[("z%d", "a%d")[i % 2] % i] = [ctx.real("v") for _ in range(m)]
    seen = []

    def sampler(problem, **kw):
        seen.append((problem, kw))
        return [list(r) for r in samples]

    params = {k: "{{ %s }}" % k for k in list(bounds) + list(lists)}
    template = dict(group="grp", parameters=dict(params, fixed=5))
    if form == "text":
        template = "group: grp\nparameters:\n  fixed: 5\n" + "".join("  %s: {{ %s }}\n" % (k, k) for k in params)
    conf = dict(template=template, vars=dict(bounds=bounds), sampler=dict(method="verif_hook.sampler", N=4, extra="x"))
    if nl or ctx.flag("empty lists"):
        conf["vars"]["lists"] = lists
    return conf, samples, bounds, lists, sampler, seen


def num(x):
    """a value as the configuration shows it: text that stands for a number, or the number"""
    x = untoken(x)
    if isinstance(x, str):
        return float(x)
    return x


def agree(ctx, got, samples, bounds, lists):
    """one configuration per sample and combination of the lists, and nothing else"""
    import itertools

    want = []
    for comb in itertools.product(*lists.values()):
        for row in samples:
            e = dict(zip(lists, comb))
            e.update(zip(bounds, row))
            want.append(e)
    ctx.check(len(got) == len(want), "number of configurations")
    left = list(got)
    for w in want:
        # values are arbitrary: compare one by one, in the order given
        g = left.pop(0) if left else None
        if g is None:
            return
        ps = g["parameters"]
        ctx.check(set(ps) == set(w) | {"fixed"} and ps["fixed"] == 5 and g["group"] == "grp", "contents of a configuration")
        for k, v in w.items():
            if k in ps:
                ctx.check(num(ps[k]) == v, "value of a variable in a configuration")
    ctx.cover("expanded")


def frozen(x):
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [frozen(v) for v in x]
    return x


def expand(ctx, nb, nl, rows, form, times):
    from soil import serialization

    conf, samples, bounds, lists, sampler, seen = build(ctx, nb, nl, rows, form)
    pyfile(ctx, "", sampler=sampler)
    before = frozen(conf)
    for t in range(times):
        got = list(serialization.expand_template(conf))
        agree(ctx, got, samples, bounds, lists)
        ctx.check(len(seen) == t + 1, "the sampler given was not used once")
        pr, kw = seen[-1]
        ctx.check(pr["num_vars"] == nb and list(pr["names"]) == list(bounds), "variables given to the sampler")
        ctx.check(And([And(a[0] == b[0], a[1] == b[1]) for a, b in zip(pr["bounds"], bounds.values())]) and len(pr["bounds"]) == nb, "bounds given to the sampler")
        ctx.check(kw == dict(N=4, extra="x"), "options given to the sampler")
    ctx.check(frozen(conf) == before if not lists and not nb else str(frozen(conf)) == str(before), "the template was modified")


NUMBERS = [1e-05, -1e-05, 1e22, -3e300, 2e-07, 5e-324, 1 / 3, 0.1 + 0.2, 123456789.123456789, 1.5e-07, 0.0, 12, 10 ** 30, -7]


def numbers(ctx, where):
    """numbers that are written in unusual ways are numbers in the configurations"""
    from soil import serialization

    v = NUMBERS[ctx.choice("number", len(NUMBERS))]
    w = [2.5, v][ctx.choice("other", 2)]
    pyfile(ctx, "", sampler=lambda problem, **kw: [[v] if where == "sample" else [w]])
    conf = dict(template="group: grp\nparameters:\n  a: {{ a }}\n  b: [{{ b }}, {{ a }}]\n  half: {{ a / 2 }}\n",
                vars=dict(bounds={"a": [0, 1]}, lists={"b": [w if where == "sample" else v]}), sampler=dict(method="verif_hook.sampler"))
    if ctx.flag("numpy"):
        import numpy
        pyfile(ctx, "", sampler=lambda problem, **kw: numpy.array([[float(v)] if where == "sample" else [float(w)]]))
    a, b = (v, w) if where == "sample" else (w, v)
    got = list(serialization.expand_template(conf))
    ctx.check(len(got) == 1, "number of configurations")
    for g in got:
        p = g["parameters"]
        for x, y in ((p["a"], a), (p["b"][0], b), (p["b"][1], a), (p["half"], a / 2)):
            ctx.check(isinstance(x, (int, float)) and (x == y or x == float(y)), "a number in a template is another one, or none")
    ctx.cover("expanded")


KINDS = [[1, 2], [[1], []], {"a": 1, "b": [2, 3]}, "some text", "x", True, False, 0, [], {}, [0.5], "two words: no", ["a", "b"]]


def kinds(ctx, form, m):
    """values of any kind in the lists; variables anywhere in the template, more than once or not at all"""
    import itertools
    from soil import serialization

    # a template that is not a text is written as YAML, with its variables in quotes
    ok = [k for k in KINDS if form == "text" or "'" not in str(k)]
    ks = [ok[ctx.choice("kind", len(ok))]] + ok[1:m]
    other = [["u"], ["u", "v"]][ctx.choice("other", 2)]
    unused = ctx.flag("unused")
    pyfile(ctx, "", sampler=lambda problem, **kw: [[0.5], [0.25]])
    lists = dict(val=ks, other=other)
    if unused:
        lists["unused"] = ["p", "q"]
    if form == "text":
        template = "group: grp-{{ other }}\ndescription: a {{ other }} of {{ b }}\nparameters:\n  one: {{ val | tojson }}\n  {{ other }}: [{{ b }}, {{ val | tojson }}]\n  deep: {x: {y: {{ b }}}}\n"
    else:
        template = dict(group="grp-{{ other }}", description="a {{ other }} of {{ b }}", parameters={"one": "{{ val | string | length }}", "{{ other }}": ["{{ b }}", "{{ val }}"], "deep": {"x": {"y": "{{ b }}"}}})
    conf = dict(template=template, vars=dict(bounds=dict(b=[0, 1]), lists=lists), sampler=dict(method="verif_hook.sampler"))
    got = list(serialization.expand_template(conf))
    want = []
    for comb in itertools.product(*lists.values()):
        v, o = comb[:2]
        for b in (0.5, 0.25):
            t = (lambda x: x) if form == "text" else str
            want.append(dict(group="grp-" + o, description="a %s of %s" % (o, b), parameters={"one": v if form == "text" else str(len(str(v))), o: [t(b), t(v)], "deep": {"x": {"y": t(b)}}}))
    ctx.check(sorted(map(repr, map(norm, got))) == sorted(map(repr, map(norm, want))), "configurations with values of other kinds")
    ctx.cover("expanded")


def norm(x):
    if isinstance(x, dict):
        return sorted(((k, norm(v)) for k, v in x.items()), key=repr)
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def plain(ctx):
    """configurations that are not templates are left as they are"""
    from soil import serialization

    k = ctx.choice("kind", 4)
    if k == 0:
        c = dict(name="n", parameters=dict(a=ctx.real("a")), vars=dict(bounds={"a": [1, 2]}))
        got = list(serialization.expand_template(c))
        ctx.check(len(got) == 1 and got[0]["parameters"]["a"] is c["parameters"]["a"] and set(got[0]) == set(c), "configuration that is not a template")
    else:
        c = dict(template=dict(group="x")) if k == 1 else dict(template="a: {{ a }}\n---\na: {{ a }}\n", vars=dict(bounds={"a": [1, 2]}), sampler=dict(method="verif_hook.sampler")) if k == 3 else dict(template=dict(name="x", group="y"), vars=dict(bounds={"a": [1, 2]}), sampler=dict(method="verif_hook.sampler"))
        pyfile(ctx, "", sampler=lambda problem: [[1], [2]])
        failed = False
        try:
            list(serialization.expand_template(c))
        except ValueError:
            failed = True
        ctx.check(failed, "a template without variables, with a name, or for several configurations was accepted")
    ctx.cover("done")


def from_file(ctx, docs):
    """files with templates and plain configurations run every one of them"""
    import yaml
    from soil import simulation, environment, agents

    log = []

    class A(agents.BaseAgent):
        def step(self):
            return INF

    class Env(environment.Environment):
        def __init__(self, *a, **kw):
            log.append({k: v for k, v in kw.items() if k in ("b", "l", "name")})
            super().__init__(*a, **kw)

        def init(self):
            self.add_agent(A)

    samples = [[0.5], [0.25]]
    d = scratch(ctx)
    pyfile(ctx, "", sampler=lambda problem, **kw: samples, Env=Env)
    with open(os.path.join(d, "models.py"), "w") as f:
        f.write("import verif_hook\nEnv = verif_hook.Env\n")
    confs, want = [], []
    for i in range(docs):
        if ctx.flag("template"):
            ls = [["x", "y"], ["z"]][ctx.choice("list", 2)]
            confs.append(dict(template=dict(model="Env", source_file="models.py", level=50, parameters=dict(b="{{ b }}", l="{{ l }}")),
                              vars=dict(bounds=dict(b=[0, 1]), lists=dict(l=ls)), sampler=dict(method="verif_hook.sampler")))
            want += [dict(b=str(s[0]), l=l) for l in ls for s in samples]
            ctx.cover("template")
        else:
            confs.append(dict(name="plain%d" % i, model="Env", source_file="models.py", level=50, parameters=dict(b=i)))
            want.append(dict(b=str(i)))
            ctx.cover("plain")
    p = os.path.join(d, "conf.yml")
    with open(p, "w") as f:
        f.write("---\n".join(yaml.dump(c) for c in confs))
    for s in simulation.from_file(p, exporters=[], dump=False):
        s.run()
    got = [dict(x, b=str(x["b"])) for x in log]
    ctx.check(sorted(map(str, got)) == sorted(map(str, want)), "simulations run from a file with templates")


def sequence(ctx, times):
    """templates that were expanded before, and have changed since"""
    from soil import serialization

    calls = []

    def one(problem, **kw):
        calls.append("one")
        return [[ctx_vals[-1]]]

    def two(problem, N=0, **kw):
        calls.append("two")
        return [[ctx_vals[-1]], [N]]

    pyfile(ctx, "", one=one, two=two)
    ctx_vals = [ctx.real("s")]
    conf = dict(template="group: grp\nparameters:\n  a: {{ a }}\n  l: {{ l }}\n", vars=dict(bounds={"a": [0, 1]}, lists={"l": [1, 2]}), sampler=dict(method="verif_hook.one"))
    extra, method, N = "", "one", 0
    for t in range(times):
        k = ctx.choice("change", 6) if t else 5
        if k == 0:
            extra = "  e%d: [{{ l }}]\n" % t
            conf["template"] += extra
        elif k == 1:
            conf["vars"]["lists"]["l"].append(ctx.real("l"))
        elif k == 2:
            method, N = "two", t
            conf["sampler"] = dict(method="verif_hook.two", N=t)
        elif k == 3:
            ctx_vals.append(ctx.real("s"))
        elif k == 4:
            conf = dict(conf, vars=dict(bounds={"a": [0, 1]}, lists={"l": [7]}))
        n = len(calls)
        got = list(serialization.expand_template(conf))
        ctx.check(calls[n:] == [method], "sampler of a template")
        rows = [ctx_vals[-1]] + ([N] if method == "two" else [])
        want = [(l, a) for l in conf["vars"]["lists"]["l"] for a in rows]
        ctx.check(len(got) == len(want), "number of configurations")
        for g, (l, a) in zip(got, want):
            ps = g["parameters"]
            ctx.check(And(num(ps["a"]) == a, num(ps["l"]) == l), "value of a variable in a configuration")
            more = {x for x in ps if x not in ("a", "l")}
            ctx.check(more == {x.strip()[:2] for x in conf["template"].splitlines() if x.startswith("  e")}, "contents of a configuration")
    ctx.cover("expanded")


def cases(tier):
    q = tier == "quick"
    out = []
    for form in ("dict", "text"):
        for nb, nl, rows in ((1, 0, 2), (1, 1, 1), (2, 1, 2), (1, 2, 2)) + (() if q else ((2, 2, 3), (3, 2, 2))):
            out.append(case("%s-%d-%d-%d" % (form, nb, nl, rows), expand, kwargs=dict(nb=nb, nl=nl, rows=rows, form=form, times=2),
                            bounds="%d sampled variables, %d lists of 1-2 values, %d samples, any numbers; expanded twice" % (nb, nl, rows), covers=["expanded"]))
    for where in ("sample", "list"):
        out.append(case("numbers-" + where, numbers, kwargs=dict(where=where), bounds="%d numbers" % len(NUMBERS), covers=["expanded"]))
    for form in ("text", "dict"):
        for m in (1, 3):
            out.append(case("kinds-%s-%d" % (form, m), kinds, kwargs=dict(form=form, m=m), bounds="%d values in a list, one of them of each of %d kinds; 1-2 in another, and one that is not used" % (m, len(KINDS)), covers=["expanded"]))
    out.append(case("sequence", sequence, kwargs=dict(times=3 if q else 4), bounds="one configuration expanded 3-4 times, with changes of its template, lists, sampler and samples; any numbers", covers=["expanded"]))
    out.append(case("plain", plain, bounds="4 kinds", covers=["done"]))
    out.append(case("file", from_file, kwargs=dict(docs=2 if q else 3), bounds="2-3 documents, templates or not", covers=["template", "plain"]))
    return out
