"""Shared pieces of the harnesses.  Harness code runs unchanged in symbolic and
in concrete (replay) mode; soil is imported from /repo by whichever loader the
worker installed."""
import math

from symx.core import (And, Or, Not, Implies, Ite, Min, Max, Count, StopCase, SymRandom,
                       is_sym, SymBool, SymNum)

INF = float("inf")


def case(name, fn, bounds="", covers=(), **opts):
    kwargs = opts.pop("kwargs", {})
    d = dict(name=name, fn=fn, kwargs=kwargs, bounds=bounds, covers=list(covers))
    d.update(opts)
    return d


def whole(cases, *names):
    """the cases named, again, with delays that are integers"""
    return [dict(c, name=c["name"] + "-whole", ints=True, bounds=c["bounds"].replace("any real > 0", "any integer > 0"))
            for c in cases if any(n in c["name"] for n in names)]


def iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def eq(a, b):
    """equality as a condition (no fork)"""
    if a is b:
        return True
    r = a == b
    return r


def same_seq(xs, ys):
    """elementwise equality of two sequences as one condition"""
    xs, ys = list(xs), list(ys)
    if len(xs) != len(ys):
        return False
    return And([eq(x, y) for x, y in zip(xs, ys)]) if xs else True


def scheduler(kind):
    from soil import time as st

    return {
        "timed": lambda m: st.TimedActivation(m),
        "shuffled": lambda m: st.ShuffledTimedActivation(m),
        "ordered": lambda m: st.OrderedTimedActivation(m),
        "pqueue": lambda m: st.PQueueActivation(m),
        "pqueue-ordered": lambda m: st.PQueueActivation(m, shuffle=False),
    }[kind]


def with_rng(ctx, cls, mode="any", tag="rng"):
    """Subclass of an environment class whose random generator is an arbitrary one
    from the very start of its construction."""

    class Env(cls):
        def __new__(c, *a, **k):
            self = super().__new__(c, *a, **k)
            if mode == "plain":  # one generator, for cases whose size leaves no room for every draw
                import random

                self.random = random.Random(7)
            else:
                self.random = DistinctRandom(ctx, mode, tag)
            return self

    Env.__name__ = Env.__qualname__ = cls.__name__
    return Env


class DistinctRandom(SymRandom):
    """As SymRandom, but two random() draws of one run are never exactly equal
    (the generator has 2**53 values; ties are outside the claim)."""

    def random(self):
        prev = [v for (w, v) in self.draws if w == "random"]
        v = super().random()
        if self.ctx.symbolic:
            for p in prev:
                self.ctx.assume(v != p)
        return v


def make_env(ctx, sched="timed", base=None, rng="any", T0=None, init=True, **kw):
    """An environment with the given scheduler, whose clock starts at T0."""
    import soil
    from soil import environment

    base = base or environment.BaseEnvironment
    cls = with_rng(ctx, base, rng)
    env = cls(schedule_class=scheduler(sched), init=init, **kw)
    if T0 is not None:
        env.schedule.time = T0
    return env


def scratch(ctx):
    """A directory of this path only, removed at its end."""
    import shutil
    import tempfile

    d = tempfile.mkdtemp(prefix="verif-")
    ctx.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def pyfile(ctx, body, name="model_file.py", **hooks):
    """A Python file that can reach the harness through the module 'verif_hook'."""
    import os
    import sys
    import types

    m = types.ModuleType("verif_hook")
    m.__dict__.update(hooks)
    sys.modules["verif_hook"] = m
    def forget():
        sys.modules.pop("verif_hook", None)
        ser = sys.modules.get("soil.serialization")
        getattr(ser, "KNOWN_MODULES", {}).pop("verif_hook", None)

    forget()
    sys.modules["verif_hook"] = m
    ctx.cleanup.append(forget)
    p = os.path.join(scratch(ctx), name)
    with open(p, "w") as f:
        f.write("import verif_hook\n" + body)
    return p
