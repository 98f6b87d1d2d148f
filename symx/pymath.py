"""math.* on symbolic numbers (installed before the code under test is imported)."""
import builtins
import functools
import math
from . import terms as tm
from .shadow import SReal, is_sym

_done = False


def _m(x):
    return x if is_sym(x) else None


def install():
    global _done
    if _done:
        return
    _done = True

    # int(v) / float(v) in the code under test (see checks.runner)
    builtins.__symx_int__ = lambda v: v.to_int() if is_sym(v) else int(v)
    builtins.__symx_float__ = lambda v: v.to_float() if is_sym(v) else float(v)

    def unary(name, f):
        real = getattr(math, name)

        @functools.wraps(real)
        def g(x, *a):
            return f(x, *a) if is_sym(x) else real(x, *a)
        setattr(math, name, g)
    for n in ("exp", "sqrt", "sin", "cos", "tan", "degrees", "radians", "fabs", "log10", "log2", "exp2"):
        if hasattr(math, n):
            unary(n, lambda x, n=n: getattr(x, n)())
    unary("atan", lambda x: x.arctan())
    unary("log", lambda x, b=None: x.log() if b is None else x.log() / math.log(b))
    rp = math.pow
    math.pow = lambda a, b: a ** b if is_sym(a) or is_sym(b) else rp(a, b)
    rh = math.hypot
    math.hypot = lambda *a: sum((x * x for x in a), 0) ** 0.5 if any(map(is_sym, a)) else rh(*a)
    ra = math.atan2

    def atan2(y, x):
        if not (is_sym(y) or is_sym(x)):
            return ra(y, x)
        if x > 0:
            return (y / x).arctan() if is_sym(y / x) else math.atan(y / x)
        if x < 0:
            q = (y / x).arctan()
            return q + math.pi if y >= 0 else q - math.pi
        return math.pi / 2 if y > 0 else (-math.pi / 2 if y < 0 else 0.0)
    math.atan2 = atan2
    rf = math.fsum
    math.fsum = lambda xs: (lambda l: sum(l, 0) if any(map(is_sym, l)) else rf(l))(list(xs))
    for n, bad in (("isnan", False), ("isinf", False), ("isfinite", True)):
        unary(n, lambda x, bad=bad: bad)
