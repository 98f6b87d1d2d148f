"""
Hash-consed symbolic terms.

An *element* is either a plain Python number (int, bool, Fraction; float only for
inf/nan) or a ``T``.  Numeric terms are kept in a polynomial normal form (``lin``:
constant + sum of coef * atom, atoms may be monomials); everything else (ite, div,
uninterpreted functions, ...) is an atom.  All arithmetic here is exact.
"""
from fractions import Fraction
import math
import numpy as np

EXPAND_CAP = 6000


class Unsupported(BaseException):
    """The engine cannot encode something; never swallowed by code under test."""


class T:
    __slots__ = ("op", "args", "sort", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    # arithmetic (used by numpy object arrays)
    def __add__(self, o): return add(self, o) if _num(o) else NotImplemented
    def __radd__(self, o): return add(o, self) if _num(o) else NotImplemented
    def __sub__(self, o): return sub(self, o) if _num(o) else NotImplemented
    def __rsub__(self, o): return sub(o, self) if _num(o) else NotImplemented
    def __mul__(self, o): return mul(self, o) if _num(o) else NotImplemented
    def __rmul__(self, o): return mul(o, self) if _num(o) else NotImplemented
    def __truediv__(self, o): return div(self, o) if _num(o) else NotImplemented
    def __rtruediv__(self, o): return div(o, self) if _num(o) else NotImplemented
    def __neg__(self): return neg(self)
    def __abs__(self): return absv(self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)


def _num(o):
    return isinstance(o, (T, int, float, Fraction, np.integer, np.floating))


_table = {}


def _mk(op, args, sort):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = len(_table)
        _table[key] = t
    return t


def reset():
    _table.clear()
    _by_id.clear()
    _factors.clear()
    GROUND.clear()
    NONNEG.clear()


GROUND = {}             # powers of plain numbers met so far: (base, exponent) -> value

NONNEG = set()         # names of variables declared with a lower bound of at least zero

_by_id = {}


def norm(c):
    """normalise a plain number: int where integral, Fraction otherwise, float for inf/nan"""
    if type(c) is int:
        return c
    if type(c) is bool:
        return c
    if isinstance(c, Fraction):
        return c.numerator if c.denominator == 1 else c
    if isinstance(c, (bool, np.bool_)):
        return bool(c)
    if isinstance(c, np.integer):
        return int(c)
    if isinstance(c, (float, np.floating)):
        c = float(c)
        if math.isinf(c) or math.isnan(c):
            return c
        f = Fraction(c)
        return f.numerator if f.denominator == 1 else f
    if isinstance(c, int):
        return int(c)
    raise Unsupported(f"not a number: {c!r}")


def is_t(x):
    return isinstance(x, T)


def var(name, sort):
    return _mk("var", (name, sort), sort)


def _special(c):
    return isinstance(c, float) and (math.isinf(c) or math.isnan(c))


def as_num(x):
    """bool-sorted elements in numeric position become 0/1"""
    if isinstance(x, bool):
        return int(x)
    if is_t(x):
        if x.sort == "B":
            return ite(x, 1, 0)
        return x
    return norm(x)


def _lin(c, d):
    """build from constant and dict atom->coef (no zero coefs)"""
    if not d:
        return norm(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    items = tuple(sorted(((a.id, k) for a, k in d.items())))
    for a in d:
        _by_id[a.id] = a
    sort = "I" if (type(c) is int and all(a.sort == "I" and type(k) is int for a, k in d.items())) else "R"
    return _mk("lin", (c, items), sort)


def _parts(x):
    """element -> (const, dict)"""
    if not is_t(x):
        return x, {}
    if x.op == "lin":
        return x.args[0], {_by_id[i]: k for i, k in x.args[1]}
    return 0, {x: 1}


def add(a, b):
    a, b = as_num(a), as_num(b)
    ta, tb = is_t(a), is_t(b)
    if not ta and not tb:
        return norm(a + b)
    if _special(a) or _special(b):
        return a if _special(a) else b      # finite + inf/nan
    if not ta and a == 0:
        return b
    if not tb and b == 0:
        return a
    ca, da = _parts(a)
    cb, db = _parts(b)
    d = dict(da)
    for k, v in db.items():
        s = d.get(k, 0) + v
        if s == 0:
            d.pop(k, None)
        else:
            d[k] = norm(s)
    return _lin(norm(ca + cb), d)


def scale(a, k):
    if not is_t(a):
        return norm(a * k)
    if k == 0:
        return 0
    if k == 1:
        return a
    c, d = _parts(a)
    return _lin(norm(c * k), {x: norm(v * k) for x, v in d.items()})


def neg(a):
    return scale(as_num(a), -1)


def sub(a, b):
    return add(a, neg(b))


def sum_terms(xs):
    """sum of many elements, linear time"""
    c, d, sp = 0, {}, None
    for x in xs:
        x = as_num(x)
        if _special(x):
            sp = x if sp is None else sp + x
            continue
        cx, dx = _parts(x)
        c = c + cx
        for k, v in dx.items():
            s = d.get(k, 0) + v
            if s == 0:
                d.pop(k, None)
            else:
                d[k] = norm(s)
    if sp is not None:
        return sp
    return _lin(norm(c), d)


def _mono_parts(a):
    if a.op == "mono":
        return {_by_id[i]: p for i, p in a.args}
    return {a: 1}


def _mono_mul(a, b):
    d = _mono_parts(a)
    for k, p in _mono_parts(b).items():
        d[k] = d.get(k, 0) + p
    for k in d:
        _by_id[k.id] = k
    # s * (n / s) is not simplified: division is kept opaque
    items = tuple(sorted((k.id, p) for k, p in d.items()))
    sort = "I" if all(k.sort == "I" for k in d) else "R"
    return _mk("mono", items, sort)


def _opaque(a):
    return a


def mul(a, b):
    a, b = as_num(a), as_num(b)
    if not is_t(a):
        if is_t(b):
            if _special(a):
                raise Unsupported("inf/nan times symbolic value")
            return scale(b, a)
        return norm(a * b)
    if not is_t(b):
        if _special(b):
            raise Unsupported("inf/nan times symbolic value")
        return scale(a, b)
    ca, da = _parts(a)
    cb, db = _parts(b)
    if (len(da) + 1) * (len(db) + 1) > EXPAND_CAP:
        k1, f1 = _factors_of(a)
        k2, f2 = _factors_of(b)
        m = None
        for f in f1 + f2:
            m = f if m is None else _mono_mul(m, f)
        return scale(m, norm(Fraction(k1) * Fraction(k2)))
    d = {}

    def acc(k, v):
        s = d.get(k, 0) + v
        if s == 0:
            d.pop(k, None)
        else:
            d[k] = norm(s)
    if cb != 0:
        for k, v in da.items():
            acc(k, v * cb)
    if ca != 0:
        for k, v in db.items():
            acc(k, v * ca)
    for k1, v1 in da.items():
        for k2, v2 in db.items():
            acc(_mono_mul(k1, k2), v1 * v2)
    r = _lin(norm(ca * cb), d)
    if is_t(r) and r.op == "lin" and (len(da) > 1 or ca != 0 or len(db) > 1 or cb != 0):
        _remember_factors(r, a, b)
    return r


# expanded product (leading coefficient 1) -> (constant, factors with leading coefficient 1)
_factors = {}


def _factors_of(x):
    k, y = _lead(x)
    f = _factors.get(y.id)
    if f is None:
        return k, (y,)
    return k * f[0], f[1]


def _remember_factors(r, a, b):
    kr, y = _lead(r)
    if y.id in _factors:
        return
    k1, f1 = _factors_of(a)
    k2, f2 = _factors_of(b)
    _factors[y.id] = (Fraction(k1) * Fraction(k2) / Fraction(kr), f1 + f2)


def div(a, b):
    """real division; a symbolic divisor is assumed nonzero only where the harness says so"""
    a, b = as_num(a), as_num(b)
    if not is_t(b):
        if _special(b):
            raise Unsupported("division by inf/nan")
        if b == 0:
            if is_t(a):
                raise Unsupported("symbolic value divided by constant zero")
            if a == 0 or _special(a):
                return float("nan")
            return float("inf") if a > 0 else float("-inf")
        if not is_t(a):
            if _special(a):
                return a if b > 0 else -a
            return norm(Fraction(a) / Fraction(b))
        return scale(a, norm(Fraction(1) / Fraction(b)))
    return mul(a, _inv(b)) if is_t(a) or a != 0 else scale(_inv(b), 0)


def _inv(b):
    """1/b in a canonical form: numeric factors and factors of products are inverted separately"""
    if b.op == "lin" and b.args[0] == 0 and len(b.args[1]) == 1:
        i, k = b.args[1][0]
        return scale(_inv(_by_id[i]), norm(Fraction(1) / Fraction(k)))
    k, y = _lead(b)
    if y.id in _factors:
        c, fs = _factors[y.id]
        r = None
        for f in fs:
            g = _inv(f)
            r = g if r is None else mul(r, g)
        return scale(r, norm(Fraction(1) / (Fraction(k) * Fraction(c))))
    if k != 1:
        return scale(_inv(y), norm(Fraction(1) / Fraction(k)))
    if b.op == "mono":
        r = None
        for i, p in b.args:
            f = _inv(_by_id[i])
            for _ in range(p):
                r = f if r is None else mul(r, f)
        return r
    if b.op == "inv":
        return b.args[0]
    return _mk("inv", (b,), "R")


def clear_inverses(d, cap=20000):
    """d (normal form) times the inverted subterms it contains, inverses cancelled: (numerator, denominators);
    None when there is nothing to clear or it does not expand.  Equivalent to d only where no denominator is zero."""
    dens = []
    for _ in range(12):
        c, parts = _parts(d)
        pmax = {}
        for a in parts:
            for k, p in _mono_parts(a).items():
                if k.op == "inv":
                    pmax[k] = max(pmax.get(k, 0), p)
        if not pmax:
            return (d, dens) if dens else None
        q, pm = max(pmax.items(), key=lambda kv: kv[0].id)      # outermost inverse first
        den = q.args[0]
        pows = [1]
        for _ in range(pm):
            pows.append(mul(pows[-1], den))
        by = {}
        for a, k in list(parts.items()) + ([(None, c)] if c != 0 else []):
            p, rest = 0, 1
            if a is not None:
                for m, e in _mono_parts(a).items():
                    if m is q:
                        p = e
                    else:
                        for _ in range(e):
                            rest = mul(rest, m)
            by.setdefault(pm - p, []).append(scale(rest, k))
        out = []
        size = 0
        for e, xs in by.items():
            x = sum_terms(xs)
            size += (len(_parts(x)[1]) + 1) * (len(_parts(pows[e])[1]) + 1)
            if size > cap:
                return None
            out.append(mul(pows[e], x))
        d = sum_terms(out)
        dens.append(den)
        if not is_t(d):
            return d, dens
    return None


def split_by_inverses(d):
    """d as a sum of parts no two of which share an inverted subterm"""
    c, parts = _parts(d)
    root = {}

    def find(i):
        while root.setdefault(i, i) != i:
            i = root[i]
        return i
    keys = []
    for a, k in parts.items():
        inv = [m.id for m in _mono_parts(a) if m.op == "inv"]
        for i in inv[1:]:
            root[find(i)] = find(inv[0])
        keys.append((inv[0] if inv else None, a, k))
    groups = {}
    for i, a, k in keys:
        groups.setdefault(None if i is None else find(i), {})[a] = k
    out = [_lin(0, g) for i, g in groups.items() if i is not None]
    rest = _lin(c, groups.get(None, {}))
    return out + ([rest] if is_t(rest) or rest != 0 else [])


def _lead(x):
    """split x = k * y with y having leading coefficient 1"""
    if x.op == "lin":
        k = x.args[1][0][1]
        if k != 1:
            return k, scale(x, norm(Fraction(1) / Fraction(k)))
    return 1, x


def product_of(x):
    """(k, [(factor, power)]) when x is a number times a proper product, else (1, None)"""
    k = 1
    if x.op == "lin":
        if x.args[0] == 0 and len(x.args[1]) == 1:
            i, k = x.args[1][0]
            x = _by_id[i]
        else:
            c, y = _lead(x)
            f = _factors.get(y.id)
            if f is None:
                return 1, None
            d = {}
            for g in f[1]:
                d[g] = d.get(g, 0) + 1
            return norm(Fraction(c) * Fraction(f[0])), list(d.items())
    if x.op == "mono":
        fs = []
        for i, p in x.args:
            f = _by_id[i]
            fs.append((f.args[0], -p) if f.op == "inv" else (f, p))
        return k, fs
    if x.op == "inv":
        return k, [(x.args[0], -1)]
    if k != 1:
        return k, [(x, 1)]
    return 1, None


def expand_logs(d):
    """
    Linear combination of logarithms with products, quotients and numeric factors taken apart:
    (equivalent term, factors that have to be positive for the equivalence), or None when nothing expands.
    """
    c, parts = _parts(d)
    if not any(a.op == "fn" and a.args[0] == "log" and is_t(a.args[1]) for a in parts):
        return None
    out, need, changed = [c], {}, False
    for a, k in parts.items():
        if not (a.op == "fn" and a.args[0] == "log" and is_t(a.args[1])):
            out.append(scale(a, k))
            continue
        todo, consts, facs = [(a.args[1], 1)], [], []
        while todo:
            x, p = todo.pop()
            if x.op == "fn" and x.args[0] == "sqrt":
                todo.append((x.args[1], Fraction(p) / 2))
                continue
            if x.op == "fn" and x.args[0] == "pow" and not is_t(x.args[2]):
                todo.append((x.args[1], Fraction(p) * Fraction(x.args[2])))
                continue
            kk, fs = product_of(x)
            if fs is not None and not (len(fs) == 1 and fs[0][0] is x):
                consts.append((kk, p))
                for f, q in fs:
                    if q % 2 == 0 and not _nonneg(f):
                        facs.append((mul(f, f), Fraction(p * q) / 2))        # the sign of f is not known
                    else:
                        todo.append((f, p * q))
                continue
            kk, y = _lead(x)
            if kk < 0:
                kk, y = -kk, neg(y)
            consts.append((kk, p))
            facs.append((y, p))
        if any(kk <= 0 for kk, _ in consts):
            return None
        consts = [(kk, p) for kk, p in consts if kk != 1]
        if not consts and facs == [(a.args[1], 1)]:
            out.append(scale(a, k))
            need[a.args[1].id] = a.args[1]
            continue
        changed = True
        for kk, p in consts:
            out.append(norm(Fraction(log(norm(kk))) * Fraction(p) * Fraction(k)))
        for y, p in facs:
            need[y.id] = y
            out.append(scale(log(y), norm(Fraction(k) * p)))
    if not changed:
        return None
    out = [x if is_t(x) or x != 0 else 0 for x in out]
    return sum_terms(out), list(need.values())


def small_logs(d, cut):
    """(d without logarithm parts whose coefficients are below cut, sum of those coefficients)"""
    c, parts = _parts(d)
    keep, small = {}, 0
    for a, k in parts.items():
        if a.op == "fn" and a.args[0] == "log" and abs(k) <= cut:
            small += abs(Fraction(k))
        else:
            keep[a] = k
    return _lin(c, keep), small


def power(a, p):
    a, p = as_num(a), as_num(p)
    if not is_t(p):
        if isinstance(p, int):
            if p == 0:
                return 1
            neg_p, n = p < 0, abs(p)
            if not is_t(a):
                if a == 0 and neg_p:
                    return float("inf")
                if _special(a):
                    return norm(float(a) ** p)
                return norm(Fraction(a) ** p)
            if n > 64:
                raise Unsupported("large power")
            r = a
            for _ in range(n - 1):
                r = mul(r, a)
            return div(1, r) if neg_p else r
        if p == Fraction(1, 2):
            return sqrt(a)
        if p == Fraction(-1, 2):
            return div(1, sqrt(a))
        if not is_t(a):
            if _special(a) or a < 0 or (a == 0 and p < 0):
                return norm(float(np.float64(float(a)) ** np.float64(float(p))))
            r = norm(float(a) ** float(p))
            GROUND[(a, p)] = r
            return r
    elif not is_t(a) and a == 1:
        return 1
    return fn("pow", a, p)


def sqrt(a):
    a = as_num(a)
    if not is_t(a):
        if _special(a):
            return float(np.sqrt(a))
        if a < 0:
            return float("nan")
        f = Fraction(a)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return norm(Fraction(n, d))
        return norm(math.sqrt(a))
    c, parts = _parts(a)
    if c == 0 and len(parts) == 1:
        (m, k), = parts.items()
        if k > 0 and m.op == "mono" and all(p % 2 == 0 and _nonneg(_by_id[i]) for i, p in m.args):
            r = sqrt(k)
            for i, p in m.args:
                for _ in range(p // 2):
                    r = mul(r, _by_id[i])
            return r
    return fn("sqrt", a)


def _nonneg(x):
    if x.op == "var":
        return x.args[0] in NONNEG
    if x.op == "inv":
        return _nonneg(x.args[0])
    return x.op == "fn" and x.args[0] in ("sqrt", "exp")


_FN = {
    "sqrt": lambda a: math.sqrt(a) if a >= 0 else math.nan,
    "exp": math.exp,
    "log": lambda a: math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan),
    "atan": math.atan, "sin": math.sin, "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "erf": math.erf,
    "pow": lambda a, p: float(np.float64(a) ** np.float64(p)),
    "atan2": math.atan2,
}


def fn(name, *args):
    args = tuple(as_num(a) for a in args)
    if not any(is_t(a) for a in args):
        if name == "exp" and args[0] == 0:
            return 1
        if name == "log" and args[0] == 1:
            return 0
        try:
            return norm(_FN[name](*[float(a) for a in args]))
        except OverflowError:
            return math.inf
    return _mk("fn", (name,) + args, "R")


def exp(a): return fn("exp", a)
def log(a): return fn("log", a)


# ---------------------------------------------------------------- booleans
def lt(a, b):
    a, b = as_num(a), as_num(b)
    if not is_t(a) and not is_t(b):
        return bool(a < b)
    if _special(a) or _special(b):
        x = a if _special(a) else b
        if math.isnan(x):
            return False
        return (a < 0) if x is a else (b > 0)
    d = sub(a, b)
    if not is_t(d):
        return bool(d < 0)
    return _mk("lt0", (d,), "B")


def le(a, b):
    a, b = as_num(a), as_num(b)
    if not is_t(a) and not is_t(b):
        return bool(a <= b)
    if _special(a) or _special(b):
        return lt(a, b)
    d = sub(a, b)
    if not is_t(d):
        return bool(d <= 0)
    return _mk("le0", (d,), "B")


def eq(a, b):
    if (is_t(a) and a.sort == "B") or isinstance(a, bool):
        if (is_t(b) and b.sort == "B") or isinstance(b, bool):
            if a is b:
                return True
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                return a if b else not_(a)
            return _mk("iff", (a, b) if a.id < b.id else (b, a), "B")
    a, b = as_num(a), as_num(b)
    if not is_t(a) and not is_t(b):
        return bool(a == b)
    if _special(a) or _special(b):
        return False
    d = sub(a, b)
    if not is_t(d):
        return bool(d == 0)
    return _mk("eq0", (d,), "B")


def not_(a):
    if isinstance(a, bool):
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "lt0":
        return _mk("le0", (neg(a.args[0]),), "B")
    if a.op == "le0":
        return _mk("lt0", (neg(a.args[0]),), "B")
    return _mk("not", (a,), "B")


def to_bool(x):
    if isinstance(x, bool):
        return x
    if is_t(x):
        return x if x.sort == "B" else not_(eq(x, 0))
    return bool(x != 0)


def and_(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), "B")


def or_(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out), "B")


def xor_(a, b):
    return not_(eq(to_bool(a), to_bool(b)))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if not is_t(a) and isinstance(a, bool) or (is_t(a) and a.sort == "B"):
        if not is_t(b) and isinstance(b, bool) or (is_t(b) and b.sort == "B"):
            return or_(and_(c, a), and_(not_(c), b))
    a, b = as_num(a), as_num(b)
    if a is b or (not is_t(a) and not is_t(b) and a == b):
        return a
    if _special(a) or _special(b):
        raise Unsupported("inf/nan under a symbolic condition")
    sa = a.sort if is_t(a) else ("I" if isinstance(a, int) else "R")
    sb = b.sort if is_t(b) else ("I" if isinstance(b, int) else "R")
    return _mk("ite", (c, a, b), "I" if sa == sb == "I" else "R")


def absv(a):
    a = as_num(a)
    if not is_t(a):
        return norm(abs(a))
    if _lead(a)[0] < 0:             # |a - b| and |b - a| look the same
        a = neg(a)
    return ite(lt(a, 0), neg(a), a)


def maxv(a, b): 
    return ite(lt(a, b), b, a)


def minv(a, b):
    return ite(lt(b, a), b, a)


def floor(a):
    a = as_num(a)
    if not is_t(a):
        return a if _special(a) else norm(math.floor(a))
    if a.sort == "I":
        return a
    return _mk("floor", (a,), "I")


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    a = as_num(a)
    if not is_t(a):
        return a if _special(a) else norm(math.trunc(a))
    if a.sort == "I":
        return a
    return ite(lt(a, 0), ceil(a), floor(a))


def roundv(a):
    """round half to even"""
    a = as_num(a)
    if not is_t(a):
        return a if _special(a) else norm(round(Fraction(a)))
    if a.sort == "I":
        return a
    f = floor(a)
    r = sub(a, f)
    half = Fraction(1, 2)
    even = eq(imod(f, 2), 0)
    return ite(lt(r, half), f, ite(lt(half, r), add(f, 1), ite(even, f, add(f, 1))))


def idiv(a, b):
    """Python floor division on integers (or reals)"""
    a, b = as_num(a), as_num(b)
    if not is_t(a) and not is_t(b):
        if b == 0:
            raise ZeroDivisionError
        return norm(a // b)
    sa = a.sort if is_t(a) else ("I" if isinstance(a, int) else "R")
    sb = b.sort if is_t(b) else ("I" if isinstance(b, int) else "R")
    if sa == sb == "I":
        if b == 1:
            return a
        return _mk("idiv", (a, b), "I")
    return floor(div(a, b))


def imod(a, b):
    a, b = as_num(a), as_num(b)
    if not is_t(a) and not is_t(b):
        if b == 0:
            raise ZeroDivisionError
        return norm(a % b)
    return sub(a, mul(b, idiv(a, b)))


def sign(a):
    a = as_num(a)
    if not is_t(a):
        return (a > 0) - (a < 0)
    return ite(lt(0, a), 1, ite(lt(a, 0), -1, 0))


def sort_elems(xs):
    """sorting network (odd-even transposition) over elements: list of ite terms, ascending"""
    xs = list(xs)
    n = len(xs)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            a, b = xs[i], xs[i + 1]
            if not is_t(a) and not is_t(b):
                if b < a:
                    xs[i], xs[i + 1] = b, a
            else:
                c = lt(b, a)
                xs[i], xs[i + 1] = ite(c, b, a), ite(c, a, b)
    return xs


# ---------------------------------------------------------------- evaluation
def ev(t, model, memo=None):
    """evaluate under model (var name -> number); exact Fractions where possible"""
    if not is_t(t):
        return t
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        kids = children(x)
        todo = [k for k in kids if k.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x.id] = _ev1(x, memo, model)
        stack.pop()
    return memo[t.id]


def subst(t, pins):
    """t with variables replaced by numbers: pins maps a variable's name to its value"""
    return rebuild(t, {}, lambda x: pins.get(x.args[0], x))


REL = Fraction(1, 10 ** 12)


def _close(a, b):
    return abs(a - b) <= REL * max(abs(a), abs(b))


def merge_close(t, memo, reps):
    """t with arguments of functions, cases, comparisons and divisors that differ only by rounding of their coefficients made the same"""
    def arg(x):
        if not is_t(x) or x.op != "lin":
            return x
        c, items = x.args
        if isinstance(c, float):
            return x
        for y in reps.setdefault(tuple(i for i, _ in items), []):
            c2, it2 = y.args
            if _close(c, c2) and all(_close(k, k2) for (_, k), (_, k2) in zip(items, it2)):
                return y
        reps[tuple(i for i, _ in items)].append(x)
        return x
    return rebuild(t, memo, None, arg)


def sub_close(x, y):
    """x - y, leaving out what is only rounding of a coefficient"""
    cx, dx = _parts(x)
    cy, dy = _parts(y)
    d = {}
    for a in list(dx) + [a for a in dy if a not in dx]:
        kx, ky = dx.get(a, 0), dy.get(a, 0)
        if not _close(kx, ky):
            d[a] = norm(kx - ky)
    return _lin(0 if _close(cx, cy) else norm(cx - cy), d)


def square_roots(t):
    """even powers of square roots multiplied out: (term, what has to be nonnegative for that)"""
    need = {}

    def mono(items):
        r = 1
        for b, p in items:
            if is_t(b) and b.op == "fn" and b.args[0] == "sqrt" and p >= 2:
                need[b.args[1].id] = b.args[1]
                for _ in range(p // 2):
                    r = mul(r, b.args[1])
                p %= 2
            for _ in range(p):
                r = mul(r, b)
        return r
    return rebuild(t, {}, None, None, mono), list(need.values())


def rebuild(t, memo, leaf=None, arg=None, mono=None):
    if not is_t(t):
        return t
    stack = [t]

    def g(a):
        return memo[a.id] if isinstance(a, T) else a
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [k for k in children(x) if k.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        op = x.op
        if op == "var":
            r = leaf(x) if leaf else x
        elif mono and op == "mono":
            r = mono([(memo[i], p) for i, p in x.args])
        elif all(memo[k.id] is k for k in children(x)) and not (arg and op in ("fn", "inv", "ite", "lt0", "le0")):
            r = x
        elif op == "lin":
            r = sum_terms([x.args[0]] + [mul(k, memo[i]) for i, k in x.args[1]])
        elif op == "mono":
            r = 1
            for i, p in x.args:
                for _ in range(p):
                    r = mul(r, memo[i])
        else:
            a = [g(v) for v in x.args]
            if arg and op in ("fn", "inv", "ite", "lt0", "le0"):
                b = [arg(v) for v in a]
                if all(u is v for u, v in zip(b, x.args)):
                    memo[x.id] = x
                    continue
                a = b
            r = {"inv": lambda: div(1, a[0]), "ite": lambda: ite(*a), "fn": lambda: fn(*a) if a[0] != "sqrt" else sqrt(a[1]),
                 "lt0": lambda: lt(a[0], 0), "le0": lambda: le(a[0], 0), "eq0": lambda: eq(a[0], 0), "iff": lambda: eq(*a),
                 "not": lambda: not_(a[0]), "and": lambda: and_(*a), "or": lambda: or_(*a), "floor": lambda: floor(a[0]),
                 "idiv": lambda: idiv(*a)}[op]()
        memo[x.id] = r
    return memo[t.id]


def children(x):
    op = x.op
    if op in ("lin", "mono"):
        its = x.args[1] if op == "lin" else x.args
        return [_by_id[i] for i, _ in its]
    if op == "var":
        return ()
    return [a for a in x.args if isinstance(a, T)]


def _ev1(x, memo, model):
    op = x.op

    def g(a):
        return memo[a.id] if isinstance(a, T) else a
    if op == "var":
        return model[x.args[0]]
    if op == "lin":
        s = x.args[0]
        for i, k in x.args[1]:
            v = memo[i]
            if isinstance(v, float) and not isinstance(s, float):
                s = float(s)
            s = s + (float(k) * v if isinstance(v, float) else k * v)
        return s
    if op == "mono":
        s = 1
        for i, p in x.args:
            v = memo[i]
            s = s * v ** p if not (isinstance(v, float) and isinstance(s, Fraction)) else float(s) * v ** p
        return s
    if op == "inv":
        b = g(x.args[0])
        if b == 0:
            return math.nan
        return 1.0 / b if isinstance(b, float) else norm(Fraction(1) / Fraction(b))
    if op == "ite":
        return g(x.args[1]) if g(x.args[0]) else g(x.args[2])
    if op == "fn":
        vals = [g(a) for a in x.args[1:]]
        if x.args[0] == "sqrt" and not isinstance(vals[0], float):
            return sqrt(vals[0])
        try:
            return _FN[x.args[0]](*[float(v) for v in vals])
        except (OverflowError, ValueError):
            return math.nan
    if op == "lt0":
        return g(x.args[0]) < 0
    if op == "le0":
        return g(x.args[0]) <= 0
    if op == "eq0":
        return g(x.args[0]) == 0
    if op == "iff":
        return g(x.args[0]) == g(x.args[1])
    if op == "not":
        return not g(x.args[0])
    if op == "and":
        return all(g(a) for a in x.args)
    if op == "or":
        return any(g(a) for a in x.args)
    if op == "floor":
        v = g(x.args[0])
        return math.floor(v) if not _special(v) else v
    if op == "idiv":
        a, b = g(x.args[0]), g(x.args[1])
        return a // b if b != 0 else 0
    raise Unsupported("ev " + op)


def gradient(y, xs):
    """partial derivatives of the term y with respect to the variables xs (away from branch boundaries)"""
    memo = {}
    return [_diff(y, x, memo) for x in xs]


def _diff(t, x, memo):
    if not is_t(t):
        return 0
    key = (t.id, x.id)
    stack = [t]
    while stack:
        u = stack[-1]
        k = (u.id, x.id)
        if k in memo:
            stack.pop()
            continue
        kids = [c for c in children(u) if c.sort != "B"]
        todo = [c for c in kids if (c.id, x.id) not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[k] = _diff1(u, x, memo)
        stack.pop()
    return memo[key]


def _diff1(u, x, memo):
    g = lambda a: memo[(a.id, x.id)] if is_t(a) else 0
    if u is x:
        return 1
    if u.op == "var":
        return 0
    if u.op == "lin":
        return sum_terms([scale(g(_by_id[i]), k) for i, k in u.args[1]])
    if u.op == "mono":
        out = []
        for i, p in u.args:
            d = g(_by_id[i])
            if not is_t(d) and d == 0:
                continue
            for j, q in u.args:
                for _ in range(q - (1 if j == i else 0)):
                    d = mul(d, _by_id[j])
            out.append(scale(d, p))
        return sum_terms(out)
    if u.op == "inv":
        d = g(u.args[0])
        return 0 if not is_t(d) and d == 0 else neg(mul(d, mul(u, u)))
    if u.op == "ite":
        return ite(u.args[0], g(u.args[1]), g(u.args[2]))
    if u.op == "floor":
        return 0
    if u.op == "fn":
        f, a = u.args[0], u.args[1]
        d = g(a)
        if f == "pow" and is_t(u.args[2]) and is_t(g(u.args[2])):
            raise Unsupported("derivative in the exponent")
        if not is_t(d) and d == 0:
            return 0
        if f == "sqrt":
            return div(d, scale(u, 2))
        if f == "exp":
            return mul(d, u)
        if f == "log":
            return div(d, a)
        if f == "pow" and not is_t(u.args[2]):
            p = u.args[2]
            return mul(d, scale(power(a, norm(float(p) - 1.0)), p))
        if f == "atan":
            return div(d, add(1, mul(a, a)))
    raise Unsupported(f"derivative of {u.op} {u.args[0] if u.op == 'fn' else ''}")


def boundaries(ts):
    """the quantities at whose zeros some ite inside ts switches"""
    seen, out, stack = set(), {}, [t for t in ts if is_t(t)]
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ("lt0", "le0", "eq0"):
            out[u.args[0].id] = u.args[0]
        if u.op != "var":
            stack.extend(children(u))
    return list(out.values())


_POLY = {"lin", "mono", "lt0", "le0", "eq0", "not", "and", "or", "iff"}


def polynomial(t):
    """only polynomials over real variables and Boolean structure"""
    if not is_t(t):
        return True
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            if x.args[1] != "R":
                return False
        elif x.op in _POLY:
            stack.extend(children(x))
        else:
            return False
    return True


def linear(t):
    """no products of unknowns"""
    if not is_t(t):
        return True
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("mono", "inv", "fn", "idiv", "floor"):
            return False
        if x.op != "var":
            stack.extend(children(x))
    return True


def inner_condition(t):
    """a comparison that some conditional inside t switches on and that holds no conditional itself"""
    if not is_t(t):
        return None
    seen, stack = {}, [t]           # id -> holds an ite
    while stack:
        x = stack[-1]
        if x.id in seen:
            stack.pop()
            continue
        todo = [k for k in children(x) if k.id not in seen]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if x.op == "ite" and is_t(x.args[0]) and not seen[x.args[0].id]:
            c = x.args[0]
            while c.op in ("and", "or", "not", "iff"):
                c = next(k for k in children(c))
            return c
        seen[x.id] = x.op == "ite" or any(seen[k.id] for k in children(x))
    return None


def vars_of(ts):
    seen, out = set(), {}
    stack = [t for t in ts if is_t(t)]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            out[x.args[0]] = x
        else:
            stack.extend(children(x))
    return out


def show(t, depth=0):
    if not is_t(t):
        return str(t)
    if depth > 4:
        return "..."
    s = lambda a: show(a, depth + 1)
    if t.op == "var":
        return t.args[0]
    if t.op == "lin":
        parts = [f"{k}*{s(_by_id[i])}" if k != 1 else s(_by_id[i]) for i, k in t.args[1][:8]]
        if len(t.args[1]) > 8:
            parts.append("...")
        if t.args[0] != 0:
            parts.append(str(t.args[0]))
        return "(" + " + ".join(parts) + ")"
    if t.op == "mono":
        return "*".join(s(_by_id[i]) + (f"^{p}" if p != 1 else "") for i, p in t.args)
    return t.op + "(" + ", ".join(s(a) if isinstance(a, (T, int, Fraction)) else str(a) for a in t.args[:6]) + ")"


# numpy helpers over object arrays
def _uf(f, nin):
    u = np.frompyfunc(f, nin, 1)

    def g(*a):
        r = u(*a)
        return r if isinstance(r, np.ndarray) else obj(r)
    return g


def obj(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


vadd, vsub, vmul, vdiv = _uf(add, 2), _uf(sub, 2), _uf(mul, 2), _uf(div, 2)
vlt, vle, veq = _uf(lt, 2), _uf(le, 2), _uf(eq, 2)
vnot, vite = _uf(not_, 1), _uf(ite, 3)
