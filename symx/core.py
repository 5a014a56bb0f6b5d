"""Symbolic execution core.

The real soil code (imported from /repo's working tree) is executed by CPython
with *symbolic* inputs: SymNum / SymBool objects wrapping z3 terms.  Whenever
the code under test branches on a symbolic condition, `Engine.fork` asks z3
which sides are feasible under the current path condition and the exploration
visits every feasible side (depth-first, by re-execution along a decision
prefix).  A property is an assertion over the symbolic values: on each path
the solver decides `path condition AND NOT property`; unsat on every path of a
case means the property holds for every value within the case's bounds, sat is
a counterexample, which the runner replays on the unpatched code.

`Ctx` is what harnesses see.  The same harness runs in concrete mode (replay /
witness validation): inputs are then plain Python numbers.
"""
import builtins
import fractions
import hashlib
import math
import numbers
import operator
import os
import random as _random
import signal
import sys
import time

Fraction = fractions.Fraction

z3 = None  # set by load_z3 (never needed in concrete mode)


def load_z3():
    global z3
    if z3 is None:
        try:
            import z3 as _z3
        except ImportError:
            sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
            import z3 as _z3
        z3 = _z3
    return z3


class PathStop(BaseException):
    """Base of the engine's own control-flow exceptions (never caught by code under test)."""

    def __init__(self, *args):
        super().__init__(*args)
        # C code may turn an exception into another one (itertools.islice does): the
        # worker looks here for what really ended the path
        if ENGINE is not None and not isinstance(self, StopCase):
            ENGINE.stopped = self


class Infeasible(PathStop):
    pass


class PathLimit(PathStop):
    """Decision depth / time limit on one path was hit (possible non-termination)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Abandon(PathStop):
    """A value had to be concretised more often than the cap allows."""


class Diverged(PathStop):
    """Re-execution took a different course than recorded (state leaked between paths)."""


class StopCase(PathStop):
    """Raised by a harness to end a path normally."""


ENGINE = None  # the active symbolic engine, if any


# ---------------------------------------------------------------- symbolic values


def _lift(x):
    """Return (z3 term, is_real) for a number, or None if x is not a finite number."""
    if isinstance(x, SymNum):
        return x.t, x.is_real
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), False
    if isinstance(x, bool):
        return z3.IntVal(int(x)), False
    if isinstance(x, int):
        return z3.IntVal(x), False
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        f = Fraction(x)
        return z3.RealVal(f), True
    if isinstance(x, Fraction):
        return z3.RealVal(x), True
    try:
        import numpy as np

        if isinstance(x, np.floating):
            return _lift(float(x))
        if isinstance(x, np.integer):
            return _lift(int(x))
    except ImportError:
        pass
    return NotImplemented


def _pair(a, b):
    ta, ra = a.t, a.is_real
    lb = _lift(b)
    if lb is None or lb is NotImplemented:
        return lb
    tb, rb = lb
    if ra and not rb:
        tb = z3.ToReal(tb)
    elif rb and not ra:
        ta = z3.ToReal(ta)
    return ta, tb, (ra or rb)


def _binop(name, op):
    def f(self, other):
        p = _pair(self, other)
        if p is NotImplemented:
            return NotImplemented
        if p is None:  # inf / nan
            return op(0.0, float(other)) if name != "mul" else _mul_inf(self, other)
        a, b, r = p
        return SymNum(op(a, b), r)

    def rf(self, other):
        p = _pair(self, other)
        if p is NotImplemented:
            return NotImplemented
        if p is None:
            return op(float(other), 0.0) if name != "mul" else _mul_inf(self, other)
        a, b, r = p
        return SymNum(op(b, a), r)

    return f, rf


def _mul_inf(self, other):
    if self == 0:
        return float("nan")
    return float(other) if self > 0 else -float(other)


def _cmp(op, inf_result):
    def f(self, other):
        p = _pair(self, other)
        if p is NotImplemented:
            return NotImplemented
        if p is None:
            return inf_result(float(other))
        a, b, _ = p
        return mkbool(op(a, b))

    return f


class SymNum:
    """A symbolic finite number (int: z3 Int; float: z3 Real)."""

    __slots__ = ("t", "is_real")
    __array_priority__ = 1000

    def __init__(self, t, is_real):
        self.t = t
        self.is_real = is_real

    __add__, __radd__ = _binop("add", operator.add)
    __sub__, __rsub__ = _binop("sub", operator.sub)
    __mul__, __rmul__ = _binop("mul", operator.mul)

    __lt__ = _cmp(operator.lt, lambda o: 0.0 < o)
    __le__ = _cmp(operator.le, lambda o: 0.0 <= o)
    __gt__ = _cmp(operator.gt, lambda o: 0.0 > o)
    __ge__ = _cmp(operator.ge, lambda o: 0.0 >= o)

    def __eq__(self, other):
        p = _pair(self, other)
        if p is NotImplemented:
            return NotImplemented
        if p is None:
            return False
        return mkbool(p[0] == p[1])

    def __ne__(self, other):
        p = _pair(self, other)
        if p is NotImplemented:
            return NotImplemented
        if p is None:
            return True
        return mkbool(p[0] != p[1])

    @staticmethod
    def _div(a, b, zero):
        if ENGINE.fork(b == zero):
            raise ZeroDivisionError("division by zero")
        return a / b

    def __truediv__(self, other):
        p = _pair(self, other)
        if p is NotImplemented:
            return NotImplemented
        if p is None:
            return 0.0
        a, b, r = p
        if not r:
            a, b = z3.ToReal(a), z3.ToReal(b)
        return SymNum(self._div(a, b, z3.RealVal(0)), True)

    def __rtruediv__(self, other):
        o = _lift(other)
        if o is NotImplemented:
            return NotImplemented
        if o is None:
            return float(other) if self > 0 else -float(other)
        return SymNum(o[0], o[1]).__truediv__(self)

    def __floordiv__(self, other):
        q = self.__truediv__(other)
        if q is NotImplemented:
            return q
        if not isinstance(q, SymNum):
            return q
        fl = z3.ToInt(q.t)
        o = _lift(other)
        if self.is_real or o[1]:
            return SymNum(z3.ToReal(fl), True)
        return SymNum(fl, False)

    def __rfloordiv__(self, other):
        o = _lift(other)
        if o is NotImplemented or o is None:
            return NotImplemented
        return SymNum(o[0], o[1]).__floordiv__(self)

    def __mod__(self, other):
        q = self.__floordiv__(other)
        if q is NotImplemented:
            return q
        return self - q * other

    def __rmod__(self, other):
        o = _lift(other)
        if o is NotImplemented or o is None:
            return NotImplemented
        return SymNum(o[0], o[1]).__mod__(self)

    def __divmod__(self, other):
        return self // other, self % other

    def __pow__(self, other):
        if isinstance(other, int) and 0 <= other <= 4:
            r = 1
            for _ in range(other):
                r = r * self
            return r
        if other == 0.5:
            return sqrt(self)
        return ENGINE.concretise(self) ** other

    def conjugate(self):
        return self

    def sqrt(self):  # numpy asks the elements of its arrays of objects for it
        return sqrt(self)

    def __rpow__(self, other):
        return other ** ENGINE.concretise(self)

    def __neg__(self):
        return SymNum(-self.t, self.is_real)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.t >= 0, self.t, -self.t), self.is_real)

    def __bool__(self):
        return ENGINE.fork(self.t != (z3.RealVal(0) if self.is_real else z3.IntVal(0)))

    def __floor__(self):
        return SymNum(z3.ToInt(self.t), False) if self.is_real else self

    def __ceil__(self):
        return SymNum(-z3.ToInt(-self.t), False) if self.is_real else self

    def __trunc__(self):
        if not self.is_real:
            return self
        return SymNum(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)), False)

    def __round__(self, n=None):
        if not self.is_real:
            return self
        if n is None or n == 0:
            fl = z3.ToInt(self.t)
            d = self.t - z3.ToReal(fl)
            half = z3.RealVal("1/2")
            up = z3.Or(d > half, z3.And(d == half, fl % 2 == 1))
            r = z3.If(up, fl + 1, fl)
            return SymNum(r, False) if n is None else SymNum(z3.ToReal(r), True)
        return round(ENGINE.concretise(self), n)

    # C code that needs a machine number: concretise (bounded forking on the value)
    def __float__(self):
        return float(ENGINE.concretise(self))

    def __int__(self):
        if self.is_real:
            return int(ENGINE.concretise(self.__trunc__()))
        return int(ENGINE.concretise(self))

    def __index__(self):
        if self.is_real:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(ENGINE.concretise(self))

    def __hash__(self):
        v = _const_value(z3.simplify(self.t))
        if v is not None:
            return hash(v)
        if self.is_real or ENGINE.hash_free:
            # every unknown time hashes alike, so that a dict or set forks on ==; a key that
            # is a known number may be missed, hence such paths do not count as exhaustive
            ENGINE.hashed_here = True
            return 0
        return hash(ENGINE.concretise(self))

    def is_integer(self):
        if not self.is_real:
            return True
        return bool(mkbool(z3.ToReal(z3.ToInt(self.t)) == self.t))

    def __repr__(self):
        # the text stands for the value: untoken() leads back to it, so values that are
        # written to a file or database and read again stay symbolic
        s = z3.simplify(self.t).sexpr()
        # as a number, the text has a dot if it is real, and no exponent
        k = "<sym%s%012d>" % ("R:1." if self.is_real else "I:", int(hashlib.md5(s.encode()).hexdigest()[:10], 16))
        ENGINE.tokens[k] = self
        return k

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic values cannot be pickled")


def sqrt(x):
    """the root of a symbolic number: a number >= 0 whose square it is"""
    t = z3.simplify(x.t)
    if not x.is_real:
        t = z3.ToReal(t)
    v = _const_value(z3.simplify(t))
    if v is not None:
        return math.sqrt(v)
    for (u, r) in ENGINE.roots:
        if u.eq(t):
            return SymNum(r, True)
    if ENGINE.fork(t < 0):
        raise ValueError("math domain error")
    r = z3.Real("!root%d" % len(ENGINE.roots))
    ENGINE.roots.append((t, r))
    ENGINE.assert_(z3.And(r >= 0, r * r == t))
    return SymNum(r, True)


numbers.Number.register(SymNum)
numbers.Real.register(SymNum)


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENGINE.fork(self.t)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, _bt(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return Not(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == _bt(o))
        if isinstance(o, (int, float, SymNum)):
            return SymNum(_lift(self)[0], False) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def _num(self):
        return SymNum(_lift(self)[0], False)

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<symB>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _bv(t):
    """1 / -1 / 0: literally true / literally false / neither"""
    return z3.Z3_get_bool_value(t.ctx_ref(), t.as_ast())


def mkbool(t):
    v = _bv(t)
    if v == 0:
        return SymBool(t)
    return v == 1


def _bt(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, SymNum):
        return x.t != 0
    return z3.BoolVal(bool(x))


# Boolean connectives that do not fork (and work in concrete mode)
def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    ts = []
    for x in xs:
        if isinstance(x, (SymBool, SymNum)):
            ts.append(_bt(x))
        elif not x:
            return False
    if not ts:
        return True
    return mkbool(z3.And(*ts) if len(ts) > 1 else ts[0])


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    ts = []
    for x in xs:
        if isinstance(x, (SymBool, SymNum)):
            ts.append(_bt(x))
        elif x:
            return True
    if not ts:
        return False
    return mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def Not(x):
    if isinstance(x, (SymBool, SymNum)):
        return mkbool(z3.Not(_bt(x)))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if isinstance(c, SymBool):
        la, lb = _lift(a), _lift(b)
        ta, tb = la[0], lb[0]
        if la[1] and not lb[1]:
            tb = z3.ToReal(tb)
        if lb[1] and not la[1]:
            ta = z3.ToReal(ta)
        return SymNum(z3.If(c.t, ta, tb), la[1] or lb[1])
    return a if c else b


def Min(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x < r, x, r)
    return r


def Max(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = Ite(x > r, x, r)
    return r


def Count(xs):
    """number of true conditions, without forking"""
    r = 0
    for x in xs:
        r = r + (x._num() if isinstance(x, SymBool) else int(bool(x)))
    return r


def untoken(x):
    """the value a text stands for, if it is the text of a symbolic number"""
    if isinstance(x, str) and x.startswith("<sym") and ENGINE is not None:
        return ENGINE.tokens.get(x, x)
    return x


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


# ---------------------------------------------------------------- engine


class Engine:
    """Executes one path per `run_path` call, following a decision prefix."""

    MAX_CONCRETISE = 6

    def __init__(self, max_depth=600, path_seconds=30.0, solver_ms=20000):
        load_z3()
        self.max_depth = max_depth
        self.path_seconds = path_seconds
        self.solver_ms = solver_ms
        self.stats = dict(
            paths=0,
            branches=0,
            queries=0,
            obligations=0,
            trivial_obligations=0,
            solver_s=0.0,
            unknown=0,
            concretised=0,
            abandoned=0,
            infeasible=0,
        )
        self._reset("")

    # -- per path
    def _reset(self, prefix):
        # a prefix is "decisions:fingerprint"; the fingerprint is the hash of the
        # condition at its last decision (detects nondeterministic re-execution)
        prefix, _, fp = prefix.partition(":")
        self.prefix = prefix
        self.fingerprint = int(fp) if fp else None
        self.diverged = False
        self.trace = []  # chars: 1/0 real branch, T/F forced
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.solver_ms)
        self.pc = []
        self.model = None
        self.vars = {}  # name -> z3 const
        self.kinds = {}
        self.pending = []  # (cond term, label)
        self.concretised_here = False
        self.hashed_here = False
        self.roots = []
        self.stopped = None
        self.tokens = {}

    def _check(self, *extra):
        t0 = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.perf_counter() - t0
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def assert_(self, t):
        self.pc.append(t)
        self.solver.add(t)
        if self.model is not None and _bv(self.model.eval(t, model_completion=True)) != 1:
            self.model = None

    def _have_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self.solver.model()
        return self.model

    def fork(self, t):
        t = z3.simplify(t)
        v = _bv(t)
        if v:
            return v == 1
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append(c)
            if (
                i == len(self.prefix) - 1
                and self.fingerprint is not None
                and t.hash() != self.fingerprint
            ):
                self.diverged = True
                raise Diverged()
            if c == "1":
                self.assert_(t)
                return True
            if c == "0":
                self.assert_(z3.Not(t))
                return False
            return c == "T"
        if i >= self.max_depth:
            raise PathLimit("depth")
        nt = z3.Not(t)
        m = self._have_model()
        if m is None:  # solver said unknown: explore both sides
            can_t = can_f = True
        elif _bv(m.eval(t, model_completion=True)) == 1:
            can_t = True
            r = self._check(nt)
            can_f = r != z3.unsat
        else:
            can_f = True
            r = self._check(t)
            can_t = r != z3.unsat
            if can_t and r == z3.sat:
                self.model = self.solver.model()
            elif can_t:
                self.model = None
        if can_t and can_f:
            self.stats["branches"] += 1
            self.alternatives.append("%s0:%d" % ("".join(self.trace), t.hash()))
            self.trace.append("1")
            self.assert_(t)
            return True
        if can_t:
            self.trace.append("T")
            return True
        self.trace.append("F")
        return False

    def concretise(self, x):
        """Pin a symbolic number to one concrete value per explored branch."""
        t = z3.simplify(x.t)
        v = _const_value(t)
        if v is not None:
            return v if not x.is_real else float(v)
        self.concretised_here = True
        self.stats["concretised"] += 1
        for _ in range(self.MAX_CONCRETISE if x.is_real else 64):
            # the candidate value must be reproducible on re-execution: minimise it
            v = self._pick(x)
            if x.is_real and Fraction(float(v)) != v:
                break  # no machine number of this value
            if self.fork(x.t == _val(v, x.is_real)):
                return float(v) if x.is_real else int(v)
        self.stats["abandoned"] += 1
        raise Abandon()

    def _pick(self, x):
        # deterministic: smallest feasible |value| found by a fresh solver over the pc
        # (a fresh solver gives the same model for the same constraints)
        s = z3.Solver()
        s.set("timeout", self.solver_ms)
        s.add(*self.pc)
        t0 = time.perf_counter()
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t0
        if r != z3.sat:
            raise Infeasible() if r == z3.unsat else Abandon()
        v = _const_value(s.model().eval(x.t, model_completion=True))
        if not x.is_real:
            # the value closest to zero (a canonical choice: it must be the same one
            # whenever this path is executed again)
            def near(lo):  # is there a value with |value| <= lo ?
                r = s.check(x.t <= lo, x.t >= -lo)
                self.stats["queries"] += 1
                return abs(_const_value(s.model().eval(x.t, model_completion=True))) if r == z3.sat else None

            lo, hi = 0, abs(v)
            while lo < hi:
                mid = (lo + hi) // 2
                a = near(mid)
                if a is None:
                    lo = mid + 1
                else:
                    hi = a
            v = hi
            if hi and s.check(x.t == hi) != z3.sat:
                v = -hi
        else:
            # a value that a machine number can hold exactly, if there is one
            k = z3.Int("!pick")
            for j in (0, 3, 8):
                r2 = s.check(x.t * 2 ** j == z3.ToReal(k))
                self.stats["queries"] += 1
                if r2 == z3.sat:
                    v = _const_value(s.model().eval(x.t, model_completion=True))
                    break
            else:
                for j in range(10, 40, 2):
                    c = Fraction(round(v * 2 ** j), 2 ** j)
                    self.stats["queries"] += 1
                    if s.check(x.t == _val(c, True)) == z3.sat:
                        v = c
                        break
        return v

    # -- inputs
    def new_var(self, name, kind):
        if name in self.vars:
            raise AssertionError("duplicate input name " + name)
        if kind == "real":
            v = z3.Real(name)
        elif kind == "int":
            v = z3.Int(name)
        else:
            v = z3.Bool(name)
        self.vars[name] = v
        self.kinds[name] = kind
        return v

    # -- obligations
    def oblige(self, cond, label):
        if isinstance(cond, SymBool):
            t = z3.simplify(cond.t)
            if z3.is_true(t):
                self.stats["trivial_obligations"] += 1
                return True
            self.pending.append((t, label))
            self.stats["obligations"] += 1
            return True
        if cond:
            self.stats["trivial_obligations"] += 1
            return True
        self.pending.append((z3.BoolVal(False), label))
        self.stats["obligations"] += 1
        return False

    def discharge(self):
        """Decide all pending obligations under the path condition.

        Returns None if they all hold for every value on this path, else
        (label, assignment)."""
        if not self.pending:
            return None
        neg = [z3.Not(t) for t, _ in self.pending]
        self.solver.push()
        try:
            self.solver.add(z3.Or(*neg) if len(neg) > 1 else neg[0])
            r = self._check()
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                return ("UNKNOWN", None, None)
            m = self.solver.model()
            label = next(
                (
                    l
                    for (t, l) in self.pending
                    if not _bv(m.eval(t, model_completion=True)) == 1
                ),
                self.pending[0][1],
            )
            asg, m2 = self.assignment(want=label)
            return (label, asg, m2)
        finally:
            self.solver.pop()

    def assignment(self, want=None):
        """Concrete input values from a model of the solver's current assertions.

        Real inputs are asked to be multiples of 1/8 (exact in binary floating point)."""
        reals = [v for n, v in self.vars.items() if self.kinds[n] == "real"]
        m = None
        for scale in (8, 64):
            if not reals:
                break
            self.solver.push()
            self.solver.set("timeout", 1500)
            for i, v in enumerate(reals):
                self.solver.add(v * scale == z3.ToReal(z3.Int("!d%d" % i)))
            t0 = time.perf_counter()
            r = self.solver.check()
            self.stats["solver_s"] += time.perf_counter() - t0
            self.stats["queries"] += 1
            if r == z3.sat:
                m = self.solver.model()
            self.solver.pop()
            self.solver.set("timeout", self.solver_ms)
            if m is not None:
                break
        if m is None:
            r = self._check()
            if r != z3.sat:
                return None, None
            m = self.solver.model()
        out = {}
        for n, v in self.vars.items():
            c = m.eval(v, model_completion=True)
            if self.kinds[n] == "bool":
                out[n] = bool(z3.is_true(c))
            else:
                val = _const_value(c)
                if self.kinds[n] == "int":
                    out[n] = int(val)
                else:
                    out[n] = [val.numerator, val.denominator]
        return out, m


def _const_value(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_algebraic_value(t):
        a = t.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def _val(v, is_real):
    return z3.RealVal(Fraction(v)) if is_real else z3.IntVal(int(v))


# ---------------------------------------------------------------- harness context


class Ctx:
    """What a harness sees.  symbolic=True: inputs are z3 terms; else plain values."""

    int_delays = False  # whole delays only (cases with ints=True)

    def __init__(self, engine=None, assignment=None):
        self.engine = engine
        self.symbolic = engine is not None
        self.assignment = assignment or {}
        self.counts = {}
        self.log = []
        self.failures = []
        self.covers = set()
        self.cleanup = []

    # -- naming
    def _name(self, name):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    # -- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if self.int_delays and lo == 0 and lo_open and hi is None:
            return self.int(name, 1)
        name = self._name(name)
        if self.symbolic:
            v = self.engine.new_var(name, "real")
            if lo is not None:
                b = z3.RealVal(Fraction(lo))
                self.engine.assert_(v > b if lo_open else v >= b)
            if hi is not None:
                b = z3.RealVal(Fraction(hi))
                self.engine.assert_(v < b if hi_open else v <= b)
            return SymNum(v, True)
        val = self.assignment.get(name)
        if val is None:
            x = lo if lo is not None else 0
            if lo_open:
                x = x + 0.125
            return float(x)
        f = Fraction(val[0], val[1])
        return f.numerator / f.denominator

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        if self.symbolic:
            v = self.engine.new_var(name, "int")
            if lo is not None:
                self.engine.assert_(v >= lo)
            if hi is not None:
                self.engine.assert_(v <= hi)
            return SymNum(v, False)
        val = self.assignment.get(name)
        if val is None:
            return lo if lo is not None else 0
        return int(val)

    def bool(self, name):
        name = self._name(name)
        if self.symbolic:
            return SymBool(self.engine.new_var(name, "bool"))
        return bool(self.assignment.get(name, False))

    def flag(self, name):
        """a symbolic boolean, decided (forked on) right here"""
        return bool(self.bool(name))

    def choice(self, name, n):
        """an arbitrary int in range(n), forked on right here"""
        if n <= 0:
            raise ValueError("empty choice")
        if n == 1:
            return 0
        x = self.int(name, 0, n - 1)
        if not self.symbolic:
            return x
        for i in range(n - 1):
            if self.engine.fork(x.t == i):
                return i
        return n - 1

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.engine.assert_(cond.t)
            # make sure the path is still feasible before going on
            self.engine._have_model()
        elif not cond:
            raise Infeasible()

    # -- outputs
    def check(self, cond, label):
        if self.symbolic:
            if not self.engine.oblige(cond, label):
                raise StopCase()
        else:
            if not cond:
                self.failures.append(label)

    def observe(self, label, *values):
        self.log.append((label, values))

    def cover(self, label):
        self.covers.add(label)

    # mode-independent helpers
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    Implies = staticmethod(Implies)
    Min = staticmethod(Min)
    Max = staticmethod(Max)
    Count = staticmethod(Count)
    Ite = staticmethod(Ite)

    def permutation(self, name, n):
        left = list(range(n))
        out = []
        while left:
            out.append(left.pop(self.choice(name, len(left))))
        return out


class SymRandom(_random.Random):
    """Stand-in for the model's random generator.

    Every draw is an arbitrary value allowed by the documented contract of
    random.Random: random() in [0,1), shuffle any permutation, choices any
    element of positive weight, sample any sequence of distinct positions...
    mode: 'any' explores every outcome; 'fixed' takes the first one (identity
    permutation / first element / symbolic random()) to cut the state space.
    """

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, ctx, mode="any", tag="rng", record=None):
        super().__init__(0)
        self.ctx = ctx
        self.mode = mode
        self.tag = tag
        self.draws = record if record is not None else []

    def _c(self, what, n):
        if n <= 0:
            raise IndexError("cannot choose from an empty sequence")
        if self.mode == "fixed":
            return 0
        v = self.ctx.choice("%s.%s" % (self.tag, what), n)
        self.draws.append((what, v))
        return v

    def random(self):
        v = self.ctx.real(self.tag + ".random", 0, 1, hi_open=True)
        self.draws.append(("random", v))
        return v

    def getrandbits(self, k):
        return self.ctx.int(self.tag + ".bits", 0, (1 << k) - 1)

    def seed(self, *a, **k):
        return None

    def getstate(self):
        return ("sym", len(self.draws))

    def setstate(self, s):
        pass

    def shuffle(self, x):
        items = list(x)
        for i in range(len(x)):
            x[i] = items.pop(self._c("shuffle", len(items)))

    def sample(self, population, k, *, counts=None):
        items = list(population)
        if k > len(items):
            raise ValueError("Sample larger than population or is negative")
        return [items.pop(self._c("sample", len(items))) for _ in range(int(k))]

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self._c("choice", len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        w = None
        if weights is not None:
            w = list(weights)
            if len(w) != len(pop):
                raise ValueError("The number of weights does not match the population")
        elif cum_weights is not None:
            cw = list(cum_weights)
            w = [cw[0]] + [b - a for a, b in zip(cw, cw[1:])]
        ok = list(range(len(pop)))
        if w is not None:
            ok = [i for i in ok if w[i] > 0]
            if not ok:
                raise ValueError("Total of weights must be greater than zero")
        return [pop[ok[self._c("choices", len(ok))]] for _ in range(int(k))]

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        r = range(int(start), int(stop), int(step))
        return r[self._c("randrange", len(r))]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def expovariate(self, lambd=1.0):
        v = self.ctx.real(self.tag + ".expo", 0)
        self.draws.append(("expo", v))
        return v

    def gauss(self, mu=0.0, sigma=1.0):
        v = self.ctx.real(self.tag + ".gauss")
        self.draws.append(("gauss", v))
        return v

    normalvariate = gauss

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_random.Random, ())


class alarm:
    """CPU-time limit on one path (detects code that loops without branching)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def h(*_):
            raise PathLimit("time")

        # CPU time, so that a loaded machine does not look like a hang
        self.old = signal.signal(signal.SIGPROF, h)
        signal.setitimer(signal.ITIMER_PROF, self.seconds, 1.0)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        return False
