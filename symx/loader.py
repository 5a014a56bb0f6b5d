"""Import soil from /repo's working tree so that its modules see builtins that
accept symbolic numbers (`float(x)`, `int(x)`, `isinstance(x, float)` ...).
Nothing else of the source is changed: CPython executes the real bytecode."""
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys

from . import core
from .core import SymBool, SymNum

REPO = os.environ.get("VERIF_REPO", "/repo")


class _TypeProxy:
    """Behaves like the builtin type for calls, isinstance, subclassing and ==."""

    def __init__(self, real):
        object.__setattr__(self, "_real", real)

    def __instancecheck__(self, x):
        return self._inst(x)

    def __subclasscheck__(self, c):
        if isinstance(c, _TypeProxy):
            c = c._real
        return issubclass(c, self._real)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __getattr__(self, n):
        return getattr(self._real, n)

    def __eq__(self, o):
        return o is self or o is self._real

    def __hash__(self):
        return hash(self._real)

    def __repr__(self):
        return repr(self._real)

    def __or__(self, o):
        return self._real | (o._real if isinstance(o, _TypeProxy) else o)

    def __ror__(self, o):
        return o | self._real

    def __reduce__(self):
        return (getattr, (builtins, self._real.__name__))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class _Float(_TypeProxy):
    def _inst(self, x):
        return isinstance(x, float) or (isinstance(x, SymNum) and x.is_real)

    def __call__(self, *a):
        if len(a) == 1:
            x = core.untoken(a[0])
            if isinstance(x, SymBool):
                x = x._num()
            if isinstance(x, SymNum):
                return x if x.is_real else SymNum(core.z3.ToReal(x.t), True)
            m = getattr(type(x), "__float__", None)
            if m is not None and not isinstance(x, (int, float)):
                r = m(x)
                if isinstance(r, SymNum):
                    return self(r)
        return float(*a)


class _Int(_TypeProxy):
    def _inst(self, x):
        return isinstance(x, (int, SymBool)) or (
            isinstance(x, SymNum) and not x.is_real
        )

    def __call__(self, *a, **k):
        if len(a) == 1 and not k:
            x = core.untoken(a[0])
            if isinstance(x, SymBool):
                return x._num()
            if isinstance(x, SymNum):
                return x.__trunc__()
        return int(*a, **k)


class _Bool(_TypeProxy):
    def _inst(self, x):
        return isinstance(x, (bool, SymBool))

    def __call__(self, *a):
        return bool(*a)


def sym_builtins():
    d = dict(builtins.__dict__)
    d["float"] = _Float(float)
    d["int"] = _Int(int)
    return d


class _Loader(importlib.machinery.SourceFileLoader):
    SYM = None

    def exec_module(self, module):
        code = self.get_code(module.__name__)
        module.__dict__["__builtins__"] = _Loader.SYM
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "soil" and not name.startswith("soil."):
            return None
        base = os.path.join(REPO, *name.split("."))
        for f, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.exists(f):
                loader = _Loader(name, f)
                return importlib.util.spec_from_file_location(
                    name,
                    f,
                    loader=loader,
                    submodule_search_locations=[base] if pkg else None,
                )
        return None


def _wrap_math():
    def w1(name, f):
        real = getattr(math, name)

        def g(x, *a):
            if isinstance(x, SymNum):
                return f(x)
            return real(x, *a)

        g.__name__ = name
        setattr(math, name, g)

    w1("isinf", lambda x: False)
    w1("isnan", lambda x: False)
    w1("isfinite", lambda x: True)
    w1("fabs", abs)

    w1("sqrt", core.sqrt)

    def many(name, f):
        real = getattr(math, name)

        def g(*a, **k):
            flat = [y for x in a for y in (x if isinstance(x, (list, tuple)) else [x])]
            if any(isinstance(x, SymNum) for x in flat):
                return f(*a, **k)
            return real(*a, **k)

        g.__name__ = name
        setattr(math, name, g)

    def root(x):
        return core.sqrt(x) if isinstance(x, SymNum) else math.sqrt(x)

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not all(isinstance(x, SymNum) or math.isfinite(x) for x in (a, b)):
            return False
        return abs(a - b) <= core.Max([rel_tol * core.Max([abs(a), abs(b)]), abs_tol])

    many("isclose", isclose)
    many("hypot", lambda *a: root(sum(x * x for x in a)))
    many("dist", lambda p, q: root(sum((x - y) * (x - y) for x, y in zip(p, q))))
    many("fsum", lambda xs: sum(xs))


def install():
    core.load_z3()
    _Loader.SYM = sym_builtins()
    sys.meta_path.insert(0, _Finder())
    _wrap_math()


def plain():
    """Concrete mode: make sure soil comes from REPO, unpatched."""
    sys.path.insert(0, REPO)
