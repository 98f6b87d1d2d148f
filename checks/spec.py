"""Executable definitions of the documented behaviour, over object arrays of elements
(solver terms or plain numbers).  Written from the documentation, independently of the code."""
import itertools
from fractions import Fraction
import numpy as np
from symx import terms as tm

INDEX_MODES = ("replicate", "circular", "symmetric", "reflect", "periodize")
LINEAR_MODES = ("antisymmetric", "odd_reflect", "odd_symmetric", "smooth", "linear_ramp")
FILL_MODES = ("constant", "zeros", "maximum", "mean", "median", "minimum")


def vec(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def stat(mode, xs):
    if mode == "mean":
        return tm.div(tm.sum_terms(xs), len(xs))
    s = tm.sort_elems(xs)
    if mode == "maximum":
        return s[-1]
    if mode == "minimum":
        return s[0]
    return s[(len(s) - 1) // 2]


def pad1(xs, before, after, mode, cv=(0, 0), ev=(0, 0), sl=(None, None)):
    """extend one signal; xs list of elements -> list of elements"""
    n = len(xs)
    if before == after == 0:
        return list(xs)
    if mode == "periodize" and n % 2 == 1:
        xs = list(xs) + [xs[-1]]
        n += 1
    sub, mul, add = tm.sub, tm.mul, tm.add
    a, d = xs[0], xs[-1]

    def at(k):
        if 0 <= k < n:
            return xs[k]
        if mode == "replicate":
            return xs[min(max(k, 0), n - 1)]
        if mode in ("circular", "periodize"):
            return xs[k % n]
        if mode in ("symmetric", "antisymmetric"):
            m = k % (2 * n)
            if m < n:
                return xs[m]
            return tm.neg(xs[2 * n - 1 - m]) if mode == "antisymmetric" else xs[2 * n - 1 - m]
        if mode == "reflect":
            if n == 1:
                return xs[0]
            m = k % (2 * n - 2)
            return xs[m] if m < n else xs[2 * n - 2 - m]
        if mode == "odd_reflect":
            if n == 1:
                return xs[0]
            q, m = divmod(k, 2 * n - 2)
            base = xs[m] if m < n else sub(mul(2, d), xs[2 * n - 2 - m])
            return add(base, mul(2 * q, sub(d, a)))
        if mode == "odd_symmetric":
            q, m = divmod(k, 2 * n)
            base = xs[m] if m < n else sub(mul(2, d), xs[2 * n - 1 - m])
            return add(base, mul(2 * q, sub(d, a)))
        if mode == "smooth":
            if n == 1:
                return xs[0]
            if k < 0:
                return add(a, mul(k, sub(xs[1], a)))
            return add(d, mul(k - n + 1, sub(d, xs[-2])))
        if mode == "linear_ramp":
            e, w, j = (ev[0], before, -k) if k < 0 else (ev[1], after, k - n + 1)
            edge = a if k < 0 else d
            return add(edge, mul(Fraction(j, w), sub(e, edge)))
        if mode == "zeros":
            return 0
        if mode == "constant":
            return cv[0] if k < 0 else cv[1]
        if mode in ("maximum", "mean", "median", "minimum"):
            L = sl[0] if k < 0 else sl[1]
            L = n if L is None else min(n, max(1, L))
            return stat(mode, xs[:L] if k < 0 else xs[n - L:])
        raise KeyError(mode)
    return [at(k) for k in range(-before, n + after)]


def along(a, axis, f):
    """apply f: list -> list to every line of an object array along axis"""
    b = np.moveaxis(a, axis, -1)
    lead = b.shape[:-1]
    rows = {i: f(list(b[i])) for i in np.ndindex(*lead)}
    m = len(next(iter(rows.values())))
    o = np.empty(lead + (m,), dtype=object)
    for i, r in rows.items():
        for k, v in enumerate(r):
            o[i + (k,)] = v
    return np.moveaxis(o, -1, axis)


def padn(a, plan):
    """plan: ordered list of (axis, dict(before, after, mode, ...))"""
    for axis, kw in plan:
        a = along(a, axis, lambda xs: pad1(xs, **kw))
    return a


def corr1(xs, k, stride=1, dilation=1):
    n, m = len(xs), len(k)
    out, p = [], 0
    while p + dilation * (m - 1) < n:
        out.append(tm.sum_terms([tm.mul(xs[p + dilation * j], k[j]) for j in range(m)]))
        p += stride
    return out


def corr_axis(a, axis, k, stride=1, dilation=1):
    return along(a, axis, lambda xs: corr1(xs, k, stride, dilation))


def same_width(k, stride=1, n=None):
    """total padding so that ceil(n/stride) windows cover everything; the larger half goes first"""
    if stride == 1:
        t = max(k - 1, 0)
    else:
        out = -(-n // stride)
        t = max((out - 1) * stride + k - n, 0)
    return t - t // 2, t // 2


def same_filter(a, axis_kernels, mode, pad_order=None):
    """stride-1 same-padded separable filter: pad every axis in order, then correlate each"""
    for axis, k in axis_kernels:
        b, c = same_width(len(k))
        if mode is not None:
            a = along(a, axis, lambda xs: pad1(xs, b, c, mode))
    for axis, k in axis_kernels:
        a = corr_axis(a, axis, k)
    return a


def emap(f, *arrs):
    u = np.frompyfunc(f, len(arrs), 1)
    r = u(*arrs)
    if not isinstance(r, np.ndarray):
        o = np.empty((), dtype=object)
        o[()] = r
        return o
    return r


def mean_over(a, axes):
    axes = tuple(x % a.ndim for x in axes)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes)).reshape(tuple(a.shape[i] for i in rest) + (-1,))
    o = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        o[i] = tm.div(tm.sum_terms(list(b[i])), b.shape[-1])
    return o


def sum_over(a, axes):
    axes = tuple(x % a.ndim for x in axes)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes)).reshape(tuple(a.shape[i] for i in rest) + (-1,))
    o = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        o[i] = tm.sum_terms(list(b[i]))
    return o
