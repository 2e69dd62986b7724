"""
Dynamic symbolic execution of the real GerryChain code.

The code under test is imported from /repo and *executed by CPython*, but its numeric inputs,
its district labels and its random draws are `Sym` proxies that carry z3 terms.  Arithmetic on a
proxy builds a term; a comparison (which is where Python needs a truth value) asks the solver
which outcomes are possible under the path condition, takes one and queues the other.  The
explorer therefore visits every feasible path of the harness; on each path the harness states
its property as a z3 formula, and the path is discharged only when the solver answers `unsat` to
`path condition AND NOT property`.  A `sat` answer is turned into a concrete witness (see Ctx
mode "conc") and replayed on the real code by symex/replay.py before it is reported.

Nothing here knows how the code is written, only what it does.
"""

import math
import os
import signal
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    import z3

    sys.path.remove(_VT)

z3.set_param("smt.random_seed", 1)

CUR = None  # the active Ctx (symbolic or concrete), or None


# --------------------------------------------------------------------------------------------
# control flow (BaseException: the code under test must not be able to swallow these)
# --------------------------------------------------------------------------------------------
class Control(BaseException):
    pass


class Prune(Control):
    """The path is outside the stated bound or precondition."""


class PropertyViolation(Control):
    def __init__(self, msg):
        self.msg = msg


class PathTimeout(Control):
    pass


class Divergence(Control):
    """A concrete re-execution asked for something the witness does not contain."""


class EngineError(Control):
    pass


# --------------------------------------------------------------------------------------------
# proxies
# --------------------------------------------------------------------------------------------
def _num(x):
    """Normalise a concrete number to int/Fraction, or return None when not a finite number."""
    if type(x) is Sym:
        return None
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if math.isfinite(x):
            return rational(x)
        return None
    item = getattr(x, "item", None)
    if item is not None and getattr(x, "dtype", None) is not None and getattr(x, "shape", 1) == ():
        return _num(x.item())
    return None


_RCACHE = {}


def rational(x):
    """The number a float stands for in real arithmetic: the simplest fraction that rounds to it
    when there is a simple one (0.1 is 1/10, 1/3 is 1/3), its binary value otherwise."""
    r = _RCACHE.get(x)
    if r is None:
        f = Fraction(x)
        if f.denominator > 1:
            g = f.limit_denominator(10**6)
            if float(g) == x:
                f = g
        r = f
        if len(_RCACHE) < 100000:
            _RCACHE[x] = r
    return r


_ICACHE = {}


def _val(x):
    r = _ICACHE.get(x)
    if r is None or r[0] is not type(x):
        if isinstance(x, int):
            e = z3.IntVal(x)
        else:
            e = z3.RealVal(str(x.numerator) + "/" + str(x.denominator))
        r = _ICACHE[x] = (type(x), e)
    return r[1]


def lift(x):
    """z3 term of a number or proxy; None when x is not a finite number."""
    if type(x) is Sym:
        return x.e
    n = _num(x)
    if n is None:
        return None
    return _val(n)


def _pair(a, b):
    """Bring two arithmetic terms to one sort."""
    ai, bi = a.is_int(), b.is_int()
    if ai and not bi:
        a = z3.ToReal(a)
    elif bi and not ai:
        b = z3.ToReal(b)
    return a, b


def _nonfinite(x):
    """float nan / +inf / -inf (also numpy scalars), else None"""
    if type(x) is Sym:
        return None
    try:
        if isinstance(x, float) or (getattr(x, "dtype", None) is not None and getattr(x, "shape", 1) == ()):
            f = float(x)
            if not math.isfinite(f):
                return f
    except (TypeError, ValueError):
        pass
    return None


def _real(t):
    return z3.ToReal(t) if t.is_int() else t


class Sym:
    """A number whose value is the z3 term `e` (sort Int or Real)."""

    __slots__ = ("e", "i")

    def __init__(self, e):
        self.e = e
        self.i = e.is_int()

    # isinstance(x, int) / isinstance(x, float) answer as for the number it stands for
    # (type(x) is Sym still works: type(x) is consulted first)
    @property
    def __class__(self):
        return int if self.i else float

    # -- arithmetic ---------------------------------------------------------------------------
    def _bin(self, other, op, nf):
        o = lift(other)
        if o is None:
            f = _nonfinite(other)
            if f is None:
                return NotImplemented
            return nf(f)
        a, b = _pair(self.e, o)
        return Sym(op(a, b))

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b, lambda f: f)

    def __radd__(self, o):
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: b + a, lambda f: f)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda f: -f)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda f: f)

    def __mul__(self, o):
        if type(o) is not Sym and _num(o) is None and _nonfinite(o) is None:
            return NotImplemented
        return self._bin(o, lambda a, b: a * b, self._mulinf)

    def __rmul__(self, o):
        if type(o) is not Sym and _num(o) is None and _nonfinite(o) is None:
            return NotImplemented
        return self._bin(o, lambda a, b: b * a, self._mulinf)

    def _mulinf(self, f):
        if math.isnan(f):
            return f
        if self == 0:
            return math.nan
        return f if self > 0 else -f

    def __truediv__(self, o):
        b = lift(o)
        if b is None:
            f = _nonfinite(o)
            if f is None:
                return NotImplemented
            return math.nan if f != f else 0
        return _div(self.e, b)

    def __rtruediv__(self, o):
        a = lift(o)
        if a is None:
            f = _nonfinite(o)
            if f is None:
                return NotImplemented
            if self == 0:
                raise ZeroDivisionError("float division by zero")
            return f if (f != f or self > 0) else -f
        return _div(a, self.e)

    def __floordiv__(self, o):
        b = lift(o)
        return NotImplemented if b is None else _floordiv(self.e, b)

    def __rfloordiv__(self, o):
        a = lift(o)
        return NotImplemented if a is None else _floordiv(a, self.e)

    def __mod__(self, o):
        b = lift(o)
        return NotImplemented if b is None else _mod(self.e, b)

    def __rmod__(self, o):
        a = lift(o)
        return NotImplemented if a is None else _mod(a, self.e)

    def __rshift__(self, o):
        return self // (1 << o)

    def __lshift__(self, o):
        return self * (1 << o)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, mod=None):
        n = _num(o)
        if n is None or n != int(n):
            if n is not None and n == Fraction(1, 2):
                return sym_sqrt(self)
            return _concretize(self) ** (_concretize(o) if type(o) is Sym else o)
        n = int(n)
        r = 1
        for _ in range(abs(n)):
            r = self * r
        if n < 0:
            return 1 / r
        return r

    def __rpow__(self, o):
        return o ** _concretize(self)

    def __neg__(self):
        return Sym(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(z3.If(self.e >= 0, self.e, -self.e))

    # -- comparison: forks --------------------------------------------------------------------
    def _cmp(self, other, op, nf):
        if other is self:
            return op == "==" or op == "<="
        t = _relterm(self, other, op)
        if t is None:
            f = _nonfinite(other)
            if f is None:
                return NotImplemented
            return nf(f)
        return CUR.branch(t)

    def __eq__(self, o):
        r = self._cmp(o, "==", lambda f: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "==", lambda f: False)
        return True if r is NotImplemented else not r

    def __lt__(self, o):
        return self._cmp(o, "<", lambda f: f > 0)

    def __le__(self, o):
        return self._cmp(o, "<=", lambda f: f > 0)

    def __gt__(self, o):
        r = self._cmp(o, "<=", lambda f: not f < 0)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._cmp(o, "<", lambda f: not f < 0)
        return r if r is NotImplemented else not r

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __hash__(self):
        # every proxy lands in the same bucket; dict/set then decide membership with __eq__,
        # i.e. by forking on symbolic equality
        return 0x5EED

    # -- conversions --------------------------------------------------------------------------
    def __floor__(self):
        return self if self.e.is_int() else Sym(z3.ToInt(self.e))

    def __ceil__(self):
        return self if self.e.is_int() else Sym(-z3.ToInt(-self.e))

    def __trunc__(self):
        if self.e.is_int():
            return self
        return Sym(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, n=None):
        if self.e.is_int():
            return self
        if n:
            scale = 10**n
            return Sym(z3.ToReal((self * scale).__round__().e)) / scale
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        up = z3.Or(d > half, z3.And(d == half, f % 2 != 0))
        return Sym(z3.If(up, f + 1, f))

    def __index__(self):
        if not self.e.is_int():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(_split_value(self))

    def __int__(self):
        return int(_split_value(math.trunc(self)))

    def __float__(self):
        return float(_concretize(self))

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def is_integer(self):
        if self.e.is_int():
            return True
        return CUR.branch(z3.IsInt(self.e))

    def item(self):
        return self


def _relterm(a, b, op):
    """The z3 formula `a op b` (op in ==, <, <=), one shared object per pair on a path."""
    cache = CUR.terms
    kb = id(b) if type(b) is Sym else (type(b), b) if isinstance(b, (int, float)) else None
    if kb is not None:
        key = (id(a), kb, op)
        hit = cache.get(key)
        if hit is not None:
            return hit[0]
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return None
    x, y = _pair(x, y)
    t = (x == y) if op == "==" else (x < y) if op == "<" else (x <= y)
    if kb is not None:
        cache[key] = (t, a, b)
        if op == "==" and type(b) is Sym:
            cache[(id(b), id(a), op)] = (t, a, b)
    return t


def _known(t):
    """A formula already decided on this path becomes its truth value."""
    hit = CUR.memo.get(id(t))
    return t if hit is None else hit[0]


def _div(a, b):
    a, b = _real(a), _real(b)
    bs = z3.simplify(b)
    if z3.is_rational_value(bs):
        if bs.numerator_as_long() == 0:
            raise ZeroDivisionError("division by zero")
    elif CUR.branch(b == 0):
        raise ZeroDivisionError("division by zero")
    return Sym(a / b)


def _floordiv(a, b):
    if Sym(b) == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if a.is_int() and b.is_int():
        if not (Sym(b) > 0):
            a, b = -a, -b
        return Sym(a / b)  # z3 integer division is floor for a positive divisor
    a, b = _real(a), _real(b)
    return Sym(z3.ToReal(z3.ToInt(a / b)))


def _mod(a, b):
    if Sym(b) == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if a.is_int() and b.is_int():
        if Sym(b) > 0:
            return Sym(a % b)
        return Sym(-((-a) % (-b)))
    a, b = _real(a), _real(b)
    return Sym(a - b * z3.ToReal(z3.ToInt(a / b)))


def _split_value(s):
    """Exact case split of an integer proxy over its feasible values (solver-driven)."""
    e = z3.simplify(s.e)
    if z3.is_int_value(e):
        return e.as_long()
    for _ in range(64):
        v = CUR.model_value(s)
        if CUR.branch(s.e == v):
            return v
    raise EngineError("integer proxy with too many values used as an index")


def _concretize(s):
    """The value leaves the reach of the proxies (C code wanting a float).  Continue with one
    feasible value and record that the path no longer covers the others."""
    if type(s) is not Sym:
        return s
    e = z3.simplify(s.e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    v = CUR.model_value(s)
    CUR.concretised += 1
    CUR.assume(s.e == _val(v if isinstance(v, int) else Fraction(v)))
    return v


def sym_sqrt(s):
    """A fresh r >= 0 with r*r == s."""
    if CUR.branch(s.e < 0):
        raise ValueError("math domain error")
    key = ("sqrt", z3.simplify(s.e).get_id())
    r = CUR.aux.get(key)
    if r is None:
        v = z3.FreshReal("sqrt")
        CUR.assume(z3.And(v >= 0, v * v == _real(s.e)))
        r = CUR.aux[key] = Sym(v)
        CUR.keep.append(s)
    return r


EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())


def sym_exp(s):
    t = z3.simplify(_real(s.e))
    if CUR.branch(t > z3.Q(70978, 100)):
        raise OverflowError("math range error")
    y = EXP(t)
    CUR.assume(
        z3.And(
            y > 0,
            z3.Implies(t == 0, y == 1),
            z3.Implies(t < 0, y < 1),
            z3.Implies(t > 0, y > 1),
        )
    )
    return Sym(y)


def sym_log(s):
    if CUR.branch(s.e <= 0):
        raise ValueError("math domain error")
    t = z3.simplify(_real(s.e))
    y = LOG(t)
    CUR.assume(
        z3.And(
            z3.Implies(t == 1, y == 0),
            z3.Implies(t < 1, y < 0),
            z3.Implies(t > 1, y > 0),
        )
    )
    return Sym(y)


# --------------------------------------------------------------------------------------------
# oracle language: build formulas without forking; degrade to Python on concrete values
# --------------------------------------------------------------------------------------------
def issym(x):
    return type(x) is Sym or isinstance(x, z3.ExprRef)


_TOL = 1e-9


def _fl(a, b):
    return isinstance(a, float) or isinstance(b, float)


def _flt(x):
    if type(x) is Sym:
        return x
    if isinstance(x, (bool, int, Fraction, float)):
        return x
    try:
        if getattr(x, "dtype", None) is not None:
            return x.item()
    except Exception:
        pass
    return x


def eq(a, b):
    if a is b and type(a) is Sym:
        return True
    if type(a) is Sym or type(b) is Sym:
        # a float that the code computed natively is rounded: compare up to the same tolerance as
        # two floats
        x, s = (a, b) if type(b) is Sym else (b, a)
        if type(x) is not Sym:
            x = _flt(x)
            if type(x) is float and math.isfinite(x) and not x.is_integer() and not s.i:
                q = rational(x)
                if q.denominator > 10**6:
                    d = Fraction(_TOL) * max(1, abs(q))
                    return And(_relterm(s, q + d, "<="), Not(_relterm(s, q - d, "<")))
        t = _relterm(a, b, "==") if type(a) is Sym else _relterm(b, a, "==")
        return False if t is None else _known(t)
    a, b = _flt(a), _flt(b)
    if _fl(a, b) and isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        fa, fb = float(a), float(b)
        if math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        return math.isclose(fa, fb, rel_tol=_TOL, abs_tol=_TOL)
    return bool(a == b)


def ne(a, b):
    return Not(eq(a, b))


def _rel(a, b, op, tolsign):
    if type(a) is Sym or type(b) is Sym:
        x, y = lift(a), lift(b)
        if x is None or y is None:
            fa = _nonfinite(a)
            fb = _nonfinite(b)
            if (fa is not None and fa != fa) or (fb is not None and fb != fb):
                return False
            return bool(op(fa if fa is not None else 0, fb if fb is not None else 0))
        if type(a) is Sym:
            return _known(_relterm(a, b, tolsign))
        x, y = _pair(x, y)
        return op(x, y)
    a, b = _flt(a), _flt(b)
    if CUR is not None and (type(a) is float or type(b) is float):
        fa, fb = float(a), float(b)
        if a != b and math.isfinite(fa) and math.isfinite(fb) and math.isclose(fa, fb, rel_tol=_TOL, abs_tol=_TOL):
            # equal up to rounding, but not equal: which side it falls on is an artefact of floats
            CUR.borderline = True
    return bool(op(a, b))


def le(a, b):
    return _rel(a, b, lambda x, y: x <= y, "<=")


def lt(a, b):
    return _rel(a, b, lambda x, y: x < y, "<")


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def _flat(args):
    for a in args:
        if isinstance(a, (list, tuple, set)) or hasattr(a, "__next__"):
            yield from _flat(a)
        else:
            yield a


def And(*args):
    out = []
    for a in _flat(args):
        if isinstance(a, z3.ExprRef):
            out.append(a)
        elif not a:
            return False
    if not out:
        return True
    return z3.And(out) if len(out) > 1 else out[0]


def Or(*args):
    out = []
    for a in _flat(args):
        if isinstance(a, z3.ExprRef):
            out.append(a)
        elif a:
            return True
    if not out:
        return False
    return z3.Or(out) if len(out) > 1 else out[0]


def Not(a):
    return z3.Not(a) if isinstance(a, z3.ExprRef) else (not a)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        if not isinstance(a, z3.ExprRef):
            return b if a else z3.Not(b)
        if not isinstance(b, z3.ExprRef):
            return a if b else z3.Not(a)
        return a == b
    return bool(a) == bool(b)


def Ite(c, a, b):
    if not isinstance(c, z3.ExprRef):
        return a if c else b
    x, y = lift(a), lift(b)
    if x is None or y is None:
        raise EngineError("Ite over non-numbers")
    x, y = _pair(x, y)
    return Sym(z3.If(c, x, y))


def Sum(xs):
    """Sum without forking."""
    t = 0
    for x in xs:
        t = t + x
    return t


def Count(conds):
    """Number of true formulas, as a number."""
    return Sum(Ite(c, 1, 0) if isinstance(c, z3.ExprRef) else (1 if c else 0) for c in conds)


def Max(xs):
    xs = list(xs)
    m = xs[0]
    for x in xs[1:]:
        m = Ite(ge(x, m), x, m)
    return m


def Min(xs):
    xs = list(xs)
    m = xs[0]
    for x in xs[1:]:
        m = Ite(le(x, m), x, m)
    return m


def Abs(x):
    return abs(x)


def Rat(p, q=1):
    """The rational constant p/q, usable on either side of a proxy."""
    if CUR is not None and CUR.symbolic:
        return Sym(z3.RealVal(f"{p}/{q}"))
    return Fraction(p, q)


def Div(a, b):
    """a / b as a total function (no ZeroDivision fork); the caller guards b != 0."""
    if type(a) is Sym or type(b) is Sym:
        return Sym(_real(lift(a)) / _real(lift(b)))
    if isinstance(a, int) and isinstance(b, int):
        return Fraction(a, b)
    return a / b


# --------------------------------------------------------------------------------------------
# contexts
# --------------------------------------------------------------------------------------------
class Stats:
    FIELDS = (
        "paths", "pruned", "decisions", "choices", "forced", "queries", "solver_s", "claims",
        "unknown", "concretised", "validated", "validation_mismatch", "timeouts",
        "cut", "unsupported",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.covers = {}
        self.mass = {}  # label -> probability of the paths that show it (discrete draws only)
        self.real_draws = 0
        self.functions = set()
        self.samples = []
        self.max_depth = 0
        self.slowest_query = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d.update(
            covers=self.covers, mass=self.mass, real_draws=self.real_draws, functions=sorted(self.functions), samples=self.samples,
            max_depth=self.max_depth, slowest_query=self.slowest_query,
        )
        return d

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])
        for k, v in d["covers"].items():
            self.covers[k] = self.covers.get(k, 0) + v
        for k, v in d["mass"].items():
            self.mass[k] = self.mass.get(k, 0) + v
        self.real_draws += d["real_draws"]
        self.functions.update(d["functions"])
        if len(self.samples) < 12:
            self.samples.extend(d["samples"][: 12 - len(self.samples)])
        self.max_depth = max(self.max_depth, d["max_depth"])
        self.slowest_query = max(self.slowest_query, d["slowest_query"])


class BaseCtx:
    symbolic = False
    borderline = False

    def __init__(self):
        self.names = {}
        self.terms = {}
        self.memo = {}
        self.observed = []
        self.covered = []
        self.aux = {}
        self.keep = []
        self.prob = Fraction(1)  # probability of this path's discrete random draws
        self.draws = []  # every real drawn from `random`, in order
        self.rnd = 0
        self.rnd_limit = 400  # random draws on one path; more is outside the bound

    def _name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}@{k}"

    # convenience shared by both modes
    def flag(self, name):
        return bool(self.pick(name, 2))

    def choose(self, name, seq):
        seq = list(seq)
        return seq[self.pick(name, len(seq))]

    def nums(self, prefix, n, lo=None, hi=None):
        return [self.num(f"{prefix}{i}", lo, hi) for i in range(n)]

    def cover(self, label):
        self.covered.append(label)

    def observe(self, name, value):
        self.observed.append((name, value))

    def checks(self, pairs):
        raise NotImplementedError

    def check(self, cond, msg):
        self.checks([(cond, msg)])

    def fail(self, msg):
        self.checks([(False, msg)])

    def raises(self, excs, fn, msg):
        """fn() must raise one of excs"""
        try:
            fn()
        except excs:
            return
        self.fail(msg)

    def prune(self):
        raise Prune()

    def _draw(self):
        k = self.rnd
        self.rnd = k + 1
        if k >= self.rnd_limit:
            self.cut = True
            raise Prune()
        return k

    cut = False

    # random source used by the patched `random` module
    recording = None  # draws made since record(), as (kind, value)
    playing = None  # draws to be made again, in order
    scripted = None  # a fixed pseudo-random stream, for what happens between two runs

    def record(self):
        self.recording = []

    def play(self, tape):
        """The next draws are those on the tape; other questions than those recorded are a
        failure to repeat the run."""
        self.recording, self.playing = None, list(tape)

    def free(self):
        """Draws are free again; returns the draws of the tape that were not asked for."""
        left, self.playing, self.recording = self.playing, None, None
        return left

    def script(self, seed, length=500):
        self.scripted = None if seed is None else seed * 7919 + 12345
        self.script_left = length

    def _scripted(self):
        self.script_left -= 1
        if self.script_left < 0:
            raise RuntimeError("the fixed stream of draws is used up")
        self.scripted = (self.scripted + 0x9E3779B97F4A7C15) % 2**64
        z = self.scripted
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9 % 2**64
        z = (z ^ (z >> 27)) * 0x94D049BB133111EB % 2**64
        return (z ^ (z >> 31)) >> 8

    def stream(self, count, length=10**6):
        """All draws from one of `count` fixed streams (for inputs too large to vary the draws)."""
        self.rnd_limit = length
        self.script(self.pick("stream", count), length)

    def _again(self, kind):
        if not self.playing:
            self.fail("the repeated run makes more random draws than the first")
        k, v = self.playing.pop(0)
        if k != kind:
            self.fail("the repeated run makes other random draws than the first")
        return v

    def random_real(self):
        if self.playing is not None:
            return self._again("real")
        if self.scripted is not None:
            r = (self._scripted() % 1048576) / 1048576
            self.draws.append(r)
            return r
        k = self._draw()
        r = self.real(f"rnd{k}", 0, 1, hi_strict=True)
        self.draws.append(r)
        if self.recording is not None:
            self.recording.append(("real", r))
        return r

    def random_below(self, n):
        if self.playing is not None:
            return self._again(n)
        if self.scripted is not None:
            return self._scripted() % n
        k = self._draw()
        if n > 1:
            self.prob /= n
        r = self.pick(f"rnd{k}", n)
        if self.recording is not None:
            self.recording.append((n, r))
        return r

    def reseeded(self):
        pass


# kinds of trail entries; a choice among n alternatives has kind n + 10
FREE, FORCED, ASSUME = 0, 1, 2


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, explorer, prefix, keep_from, model):
        super().__init__()
        self.x = explorer
        self.prefix = prefix
        self.keep_from = keep_from  # trail positions < keep_from are already in the solver
        self.trail = []  # (kind, value, forced)
        self.vars = {}
        self.picks = {}
        self.model = model
        self.concretised = 0
        self.native = False

    # -- inputs -------------------------------------------------------------------------------
    def pick(self, name, n):
        """Unconstrained environment choice among n alternatives."""
        if n <= 0:
            raise IndexError("Cannot choose from an empty sequence")
        name = self._name(name)
        pos = len(self.trail)
        if n == 1:
            v = 0
        elif pos < len(self.prefix):
            v, kind = self.prefix[pos]
            if kind != n + 10:
                raise EngineError("replay of a prefix diverged (choice)")
            self.trail.append((v, kind))
        else:
            base = list(self.trail)
            for alt in range(n - 1, 0, -1):
                self.x.push_alternative(base + [(alt, n + 10)], self.model)
            v = 0
            self.trail.append((0, n + 10))
        self.x.st.choices += 1
        self.picks[name] = v
        return v

    def _var(self, name, e, cons):
        self.vars[name] = e
        if cons:
            self.assume(z3.And(cons) if len(cons) > 1 else cons[0])
        return Sym(e)

    def num(self, name, lo=None, hi=None):
        """An integer datum (population, votes, ...)."""
        name = self._name(name)
        e = z3.Int(name)
        cons = []
        if lo is not None:
            cons.append(e >= lift(lo))
        if hi is not None:
            cons.append(e <= lift(hi))
        return self._var(name, e, cons)

    label = num  # an integer label

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        name = self._name(name)
        e = z3.Real(name)
        cons = []
        if lo is not None:
            lo = _real(lift(lo))
            cons.append(e > lo if lo_strict else e >= lo)
        if hi is not None:
            hi = _real(lift(hi))
            cons.append(e < hi if hi_strict else e <= hi)
        return self._var(name, e, cons)

    # -- path condition -----------------------------------------------------------------------
    def _push(self, e):
        self.x.solver.push()
        self.x.solver.add(e)
        self.x.pushed.append(len(self.trail))

    def get_model(self):
        if self.model is None:
            r = self.x.check_sat()
            if r == z3.sat:
                self.model = self.x.solver.model()
            elif r == z3.unsat:
                raise Prune()
            else:
                raise EngineError("solver: unknown on a path condition")
        return self.model

    def model_value(self, s):
        v = self.get_model().eval(s.e, model_completion=True)
        return _pyval(v)

    def assume(self, cond):
        if not isinstance(cond, z3.ExprRef):
            if not cond:
                raise Prune()
            return
        pos = len(self.trail)
        replay = pos < len(self.prefix)
        if pos >= self.keep_from:
            self._push(cond)
        if replay and self.prefix[pos] != (0, ASSUME):
            raise EngineError("replay of a prefix diverged (assumption)")
        self.trail.append((0, ASSUME))
        if not replay:
            if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
                return
            self.model = None
            self.get_model()

    def branch(self, e):
        if isinstance(e, bool):
            return e
        hit = self.memo.get(id(e))
        if hit is not None:
            return hit[0]
        raw = e
        e = z3.simplify(e)
        if z3.is_true(e):
            self.memo[id(raw)] = (True, raw)
            return True
        if z3.is_false(e):
            self.memo[id(raw)] = (False, raw)
            return False
        key = ("ast", e.get_id())
        hit = self.memo.get(key)
        if hit is not None:
            self.memo[id(raw)] = (hit[0], raw)
            return hit[0]
        pos = len(self.trail)
        st = self.x.st
        if pos < len(self.prefix):
            v, kind = self.prefix[pos]
            if kind not in (FREE, FORCED):
                raise EngineError("replay of a prefix diverged (branch)")
            if kind == FREE and pos >= self.keep_from:
                self._push(e if v else z3.Not(e))
            self.trail.append((v, kind))
        else:
            v = z3.is_true(self.get_model().eval(e, model_completion=True))
            other = z3.Not(e) if v else e
            r, m = self.x.check_with(other)
            if r == z3.unsat:
                st.forced += 1
                self.trail.append((v, FORCED))
            else:
                if r == z3.unknown:
                    st.unknown += 1
                st.decisions += 1
                self.x.push_alternative(self.trail + [(not v, FREE)], m)
                self._push(e if v else z3.Not(e))
                self.trail.append((v, FREE))
        self.memo[id(raw)] = (v, raw)
        self.memo[key] = (v, e)
        if z3.is_not(e):
            c = e.arg(0)
        else:
            c = z3.simplify(z3.Not(e))
        self.memo[("ast", c.get_id())] = (not v, c)
        return v

    # -- assertions ---------------------------------------------------------------------------
    def checks(self, pairs):
        pairs = list(pairs)
        todo = []
        for cond, msg in pairs:
            self.x.st.claims += 1
            if isinstance(cond, z3.ExprRef):
                todo.append((cond, msg))
            elif not cond:
                self.get_model()
                raise PropertyViolation(msg() if callable(msg) else msg)
        if not todo:
            return
        neg = z3.simplify(z3.Not(z3.And([c for c, _ in todo])))
        if z3.is_false(neg):
            return
        r, m = self.x.check_with(neg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            # one by one, with a fresh solver
            for c, msg in todo:
                r1, m1 = self.x.check_hard(z3.Not(c))
                if r1 == z3.unsat:
                    continue
                if r1 == z3.sat:
                    self.model = m1
                    self.failing = z3.Not(c)
                    raise PropertyViolation(msg() if callable(msg) else msg)
                self.x.st.unknown += 1
                self.x.inconclusive.append(str(msg() if callable(msg) else msg))
            return
        self.model = m
        for c, msg in todo:
            if not z3.is_true(m.eval(c, model_completion=True)):
                self.failing = z3.Not(c)
                raise PropertyViolation(msg() if callable(msg) else msg)
        raise PropertyViolation(todo[0][1] if not callable(todo[0][1]) else todo[0][1]())

    def is_possible(self, cond):
        """Is cond satisfiable on this path?  (for reachability witnesses)"""
        if not isinstance(cond, z3.ExprRef):
            return bool(cond)
        return self.x.check_with(cond)[0] == z3.sat

    failing = None

    def nice_model(self):
        """A model of the counterexample whose real inputs are short binary fractions, so that
        floats carry it without rounding, and whose numbers are of similar, small size, so that
        no difference drowns in a relative tolerance; None when there is none at hand."""
        reals = [e for e in self.vars.values() if not e.is_int()]
        whole = [e for e in self.vars.values() if e.is_int()]
        for scale, top in ((4, 64), (64, 1024), (4096, 2**18), (4, 2**28)) if reals else ((1, 1000),):
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*self.x.solver.assertions())
            if self.failing is not None:
                s.add(self.failing)
            for k, e in enumerate(reals):
                i = z3.Int(f"nice!{k}")
                s.add(e * scale == z3.ToReal(i), i <= top * scale, i >= -top * scale)
            if top < 2**28:
                s.add(*[z3.And(e <= top, e >= -top) for e in whole])
            if s.check() == z3.sat:
                return s.model()
        return None

    def witness(self, nice=False):
        m = self.get_model()
        if nice:
            m = self.nice_model() or m
        out = {}
        for name, e in self.vars.items():
            out[name] = str(_pyval(m.eval(e, model_completion=True)))
        return {"vars": out, "picks": dict(self.picks)}


def _pyval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return f
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise EngineError(f"no value for {v}")


class ConcCtx(BaseCtx):
    """Concrete re-execution of a harness from a witness, on the real code, without proxies.
    native=False: exact rationals (the semantics the proxies model);
    native=True: plain int/float, as a user would pass them."""

    symbolic = False

    def __init__(self, witness, native=False):
        super().__init__()
        self.w = witness
        self.native = native
        self.apart = native == "apart"  # equal labels are distinct objects (no small-int sharing)
        self.concretised = 0

    def pick(self, name, n):
        if n <= 0:
            raise IndexError("Cannot choose from an empty sequence")
        name = self._name(name)
        if n == 1 and name not in self.w["picks"]:
            return 0
        if name not in self.w["picks"]:
            raise Divergence(name)
        v = self.w["picks"][name]
        if v >= n:
            raise Divergence(name)
        return v

    def _get(self, name):
        name = self._name(name)
        if name not in self.w["vars"]:
            raise Divergence(name)
        return Fraction(self.w["vars"][name])

    def num(self, name, lo=None, hi=None):
        v = self._get(name)
        return int(v) if self.native else v

    def label(self, name, lo=None, hi=None):
        v = int(self._get(name))
        if self.apart and lo is None and hi is None:
            return int(str(v + 100000))
        return v

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        v = self._get(name)
        return float(v) if self.native else v

    def assume(self, cond):
        if not cond:
            raise Divergence("assumption")

    def branch(self, e):
        return bool(e)

    def checks(self, pairs):
        for cond, msg in pairs:
            if not cond:
                if self.borderline:
                    raise Divergence("rounding")
                raise PropertyViolation(msg() if callable(msg) else msg)

    def is_possible(self, cond):
        return bool(cond)


class SampleCtx(ConcCtx):
    """Plain random execution of a harness.  Only used as a second opinion before an outcome the
    solver found unreachable is reported."""

    def __init__(self, rng):
        super().__init__({"vars": {}, "picks": {}}, native=True)
        self.rng = rng
        self.spread = rng.choice((1, 2, 5, 5, 20, 100))
        self.extreme = rng.choice((0, 0.3, 0.7))

    # a second opinion is not bound by the exploration's draw limit (but by time)
    rnd_limit = property(lambda self: 10**7, lambda self, v: None)

    def pick(self, name, n):
        if n <= 0:
            raise IndexError("Cannot choose from an empty sequence")
        return self.rng.randrange(n)

    def num(self, name, lo=None, hi=None):
        lo = 0 if lo is None else math.ceil(lo)
        hi = lo + self.spread if hi is None else math.floor(hi)
        if self.rng.random() < self.extreme:
            return self.rng.choice((lo, hi))
        return self.rng.randint(lo, hi)

    label = num

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        lo = 0.0 if lo is None else float(lo)
        hi = lo + 1.0 if hi is None else float(hi)
        return self.rng.uniform(lo, hi)


def sample(fn, rng, limit=2.0):
    """One random run, given up after `limit` seconds."""
    import signal

    global CUR
    ctx = SampleCtx(rng)

    def onalarm(sig, frm):
        raise PathTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    CUR = ctx
    try:
        fn(ctx)
    except (Control, Exception):
        pass
    finally:
        CUR = None
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return ctx


# --------------------------------------------------------------------------------------------
# explorer
# --------------------------------------------------------------------------------------------
class Explorer:
    def __init__(self, query_timeout_ms=20000):
        self.query_timeout_ms = query_timeout_ms
        self.st = Stats()
        self.inconclusive = []
        self._new_solver()
        self.stack = []  # (prefix, model)
        self.last_trail = []

    def _new_solver(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_timeout_ms)
        self.pushed = []

    def push_alternative(self, prefix, model):
        self.stack.append((prefix, model))

    def _timed(self, solver, *a):
        t = time.perf_counter()
        r = solver.check(*a)
        dt = time.perf_counter() - t
        self.st.queries += 1
        self.st.solver_s += dt
        if dt > self.st.slowest_query:
            self.st.slowest_query = dt
        return r

    def check_sat(self):
        r = self._timed(self.solver)
        if r == z3.unknown:
            r, m = self.check_hard(z3.BoolVal(True))
        return r

    def check_with(self, e):
        s = self.solver
        s.push()
        try:
            s.add(e)
            r = self._timed(s)
            m = s.model() if r == z3.sat else None
        finally:
            s.pop()
        if r == z3.unknown:
            r, m = self.check_hard(e)
        return r, m

    def check_hard(self, e):
        """Second attempt: a fresh, non-incremental solver (nlsat and the tactic portfolio)."""
        s2 = z3.Solver()
        s2.set("timeout", self.query_timeout_ms)
        s2.add(*self.solver.assertions())
        s2.add(e)
        r = self._timed(s2)
        return r, (s2.model() if r == z3.sat else None)

    def run_path(self, fn, prefix, model):
        global CUR
        # reuse the solver stack up to the common prefix with the previous path
        c = 0
        lt_ = self.last_trail
        n = min(len(lt_), len(prefix))
        while c < n and lt_[c] == prefix[c]:
            c += 1
        while self.pushed and self.pushed[-1] >= c:
            self.solver.pop()
            self.pushed.pop()
        ctx = SymCtx(self, prefix, c, model)
        CUR = ctx
        exc = None
        try:
            fn(ctx)
        except Control as e:
            exc = e
        except Exception as e:
            exc = e
        finally:
            CUR = None
            self.last_trail = ctx.trail
            self.st.concretised += ctx.concretised
            if len(ctx.trail) > self.st.max_depth:
                self.st.max_depth = len(ctx.trail)
        return ctx, exc


def run_concrete(fn, witness, native):
    """Re-execute a harness on the real code with the witness's values; returns (ctx, exc)."""
    global CUR
    ctx = ConcCtx(witness, native)
    CUR = ctx
    exc = None
    try:
        fn(ctx)
    except Control as e:
        exc = e
    except Exception as e:
        exc = e
    finally:
        CUR = None
    return ctx, exc
