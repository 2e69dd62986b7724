"""
Must be imported before networkx / numpy users / gerrychain.

Redirects the two places where the environment enters the code under test as plain C functions:
the `random` module (every draw becomes a symbolic variable or a free choice) and a few `math`
functions that would otherwise force a proxy to a float.  With no context active everything
behaves as in the standard library.  /repo itself is not modified.
"""

import builtins
import math
import random
import sys

from . import engine as E

REPO = "/repo"


class SymRandom(random.Random):
    def random(self):
        c = E.CUR
        if c is None:
            return super().random()
        return c.random_real()

    def seed(self, *a, **k):
        c = E.CUR
        if c is not None:
            return c.reseeded()
        return super().seed(*a, **k)

    def getrandbits(self, k):
        c = E.CUR
        if c is None:
            return super().getrandbits(k)
        return c.random_below(1 << k)

    def _randbelow(self, n):
        c = E.CUR
        if c is None:
            return super()._randbelow_with_getrandbits(n)
        return c.random_below(n)


_inst = SymRandom(1)


def install_random():
    random._inst = _inst
    for name in (
        "seed random uniform triangular randint choice randrange sample shuffle choices "
        "normalvariate lognormvariate expovariate vonmisesvariate gammavariate gauss "
        "betavariate binomialvariate paretovariate weibullvariate getstate setstate "
        "getrandbits randbytes"
    ).split():
        if hasattr(_inst, name):
            setattr(random, name, getattr(_inst, name))


_M = {k: getattr(math, k) for k in
      ("isnan", "isinf", "isfinite", "sqrt", "exp", "log", "fsum", "isclose", "pow", "fabs", "log2", "log10", "prod")}


def _is(x):
    return type(x) is E.Sym


def install_math():
    def isnan(x):
        return False if _is(x) else _M["isnan"](x)

    def isinf(x):
        return False if _is(x) else _M["isinf"](x)

    def isfinite(x):
        return True if _is(x) else _M["isfinite"](x)

    def sqrt(x):
        return E.sym_sqrt(x) if _is(x) else _M["sqrt"](x)

    def exp(x):
        return E.sym_exp(x) if _is(x) else _M["exp"](x)

    def log(x, *base):
        if _is(x):
            r = E.sym_log(x)
            return r / _M["log"](base[0]) if base else r
        return _M["log"](x, *base)

    def fsum(xs):
        xs = list(xs)
        if any(_is(x) for x in xs):
            return E.Sum(xs)
        return _M["fsum"](xs)

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if _is(a) or _is(b):
            if a == b:
                return True
            d = abs(a - b)
            return bool(d <= rel_tol * abs(a)) or bool(d <= rel_tol * abs(b)) or bool(d <= abs_tol)
        return _M["isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def pow_(a, b):
        if _is(a) or _is(b):
            return a**b
        return _M["pow"](a, b)

    def fabs(a):
        return abs(a) if _is(a) else _M["fabs"](a)

    for name, f in dict(isnan=isnan, isinf=isinf, isfinite=isfinite, sqrt=sqrt, exp=exp, log=log,
                        fsum=fsum, isclose=isclose, pow=pow_, fabs=fabs).items():
        setattr(math, name, f)


# `float(x)` and `int(x)` inside gerrychain keep a proxy symbolic
class _FloatMeta(type):
    def __instancecheck__(cls, obj):
        return builtins.isinstance(obj, builtins.float)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, builtins.float)

    def __eq__(cls, other):
        return cls is other or other is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class FloatShim(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if _is(x):
            return E.Sym(E._real(x.e))
        if type(x) is E.Fraction:
            c = E.CUR
            if c is not None and not c.symbolic and not c.native:
                return x
        return builtins.float(x)


class _IntMeta(_FloatMeta):
    def __instancecheck__(cls, obj):
        return builtins.isinstance(obj, builtins.int)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, builtins.int)

    def __eq__(cls, other):
        return cls is other or other is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class IntShim(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if _is(x):
            return math.trunc(x)
        return builtins.int(x, *a)


def install_shims():
    for name, mod in list(sys.modules.items()):
        if (name == "gerrychain" or name.startswith("gerrychain.")) and ".vendor" not in name and not name.endswith("_version"):
            g = vars(mod)
            g.setdefault("float", FloatShim)
            g.setdefault("int", IntShim)


def load():
    """Install the redirections and import gerrychain from /repo's working tree."""
    import warnings

    install_random()
    install_math()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import gerrychain

    f = gerrychain.__file__
    if not f.startswith(REPO + "/"):
        raise E.EngineError(f"gerrychain imported from {f}, not from {REPO}")
    import pkgutil, importlib

    for m in pkgutil.walk_packages(gerrychain.__path__, "gerrychain."):
        if ".vendor" not in m.name:
            importlib.import_module(m.name)
    install_shims()
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    random.seed(1)
    return gerrychain
