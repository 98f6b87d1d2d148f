import itertools
import math
from fractions import Fraction
import numpy as np
import torch
from symx import terms as tm
from . import spec
from .spec import emap
from .pooling import _axes_arg, _norm_axes

IMPORTS = ("torchimage.misc", "torchimage.misc.polynomial", "torchimage.misc.power", "torchimage.misc.outer", "torchimage.misc.stats",
           "torchimage.random", "torchimage.metrics.hdrvdp.pixels_per_degree", "torchimage.utils")
DT = {"f16": torch.float16, "f32": torch.float32, "f64": torch.float64, "int": torch.int64, "i32": torch.int32}


# ---------------------------------------------------------------- polynomials
def h_poly(ctx, cfg):
    from torchimage.misc import poly1d
    n, shape, dt = cfg["n"], tuple(cfg["shape"]), DT[cfg.get("dt", "f64")]
    lo, hi = (-3, 3) if dt == torch.int64 else (-cfg["box"], cfg["box"]) if "box" in cfg else (None, None)
    x = ctx.tensor("x", shape, lo, hi, dtype=dt)
    X = ctx.inputs["x"][1]
    if cfg["w"] == "sym":
        ws = [ctx.real(f"w{i}") for i in range(n)]
        W = [ctx.term(w) for w in ws]
    elif cfg["w"] == "int":
        ws = [int(ctx.int(f"w{i}", -1, 1)) for i in range(n)]
        W = ws
    else:
        ws = ([1.5, -0.25, 2.0, 0.0, -3.0, 0.125, 1.0] * 3)[:n]
        W = [tm.norm(w) for w in ws]
    seq = {"list": list, "tuple": tuple, "numpy": np.asarray}[cfg.get("seq", "list")]
    keep = list(ws)
    y = poly1d(x, seq(ws))

    def val(v):
        acc = 0
        for w in W:
            acc = tm.add(tm.mul(acc, v), w)
        return acc
    want = emap(val, X)
    ctx.equal(y, want, "polynomial")
    ctx.unchanged(x, "x", "input unchanged")
    ctx.check(all(a is b for a, b in zip(keep, ws)), "weights unchanged")
    if cfg.get("twice"):
        y.mul_(0)
        ctx.unchanged(x, "x", "changing the result leaves the input alone")
        ctx.equal(poly1d(x, seq(ws)), want, "second evaluation")


# ---------------------------------------------------------------- safe power
def h_pow(ctx, cfg):
    from torchimage.misc import safe_power
    dt = DT[cfg.get("dt", "f64")]
    xs, es = cfg["x"], cfg["e"]           # shape, or None for a Python scalar
    isint = dt in (torch.int64, torch.int32)
    box = (-4, 4) if isint else (-8, 8)
    if xs is None:
        x = ctx.int("x", -4, 4) if cfg.get("xint") else ctx.real("x", -8, 8)
        x = int(x) if cfg.get("xint") else x
        X = np.array(ctx.term(x), dtype=object)
    else:
        x = ctx.tensor("x", tuple(xs), *box, dtype=dt)
        X = ctx.inputs["x"][1]
    vals = cfg["E"]
    edt = DT[cfg["edt"]] if "edt" in cfg else torch.float64 if not isint else torch.float32
    if es is None:
        e = vals[int(ctx.int("e", 0, len(vals) - 1))] if len(vals) > 1 else vals[0]
        E = np.array(tm.norm(e), dtype=object)
    else:
        n = int(np.prod(es))
        ev = [vals[int(ctx.int(f"e{i}", 0, len(vals) - 1))] for i in range(n)] if cfg.get("pick") else [vals[i % len(vals)] for i in range(n)]
        e = torch.tensor(ev, dtype=edt).reshape(es)
        E = np.array([tm.norm(v) for v in ev], dtype=object).reshape(es)
    kw, eps = {}, Fraction(float(1e-6))
    if cfg.get("eps") == "sym":
        kw["epsilon"] = ctx.real("eps", Fraction(1, 1000), 1)
        eps = ctx.term(kw["epsilon"])
    elif "eps" in cfg:
        kw["epsilon"] = cfg["eps"]
        eps = tm.norm(cfg["eps"])
    shape = np.broadcast_shapes(X.shape, E.shape)
    Xb, Eb = np.broadcast_to(X, shape), np.broadcast_to(E, shape)
    for v, p in zip(Xb.reshape(-1), Eb.reshape(-1)):
        if Fraction(p) < 0:
            # an exact zero has no negative whole power; tiny bases are excluded from the tolerance below
            ctx.assume(tm.le(Fraction(1, 64), tm.absv(v)) if Fraction(p).denominator == 1 else
                       tm.or_(tm.eq(v, 0), tm.le(Fraction(1, 64), tm.absv(v))))

    def val(v, p):
        if Fraction(p).denominator == 1:
            return tm.power(v, p)
        if not tm.is_t(v):
            if v == 0:
                v = eps
            return tm.neg(tm.power(tm.neg(v), p)) if not tm.is_t(v) and v < 0 else tm.power(v, p)
        z = ctx.decide(tm.eq(v, 0))
        if z:
            return tm.power(eps, p) if not (not tm.is_t(eps) and eps == 0) else (0 if Fraction(p) > 0 else math.inf)
        return tm.neg(tm.power(tm.neg(v), p)) if ctx.decide(tm.lt(v, 0)) else tm.power(v, p)
    want = emap(val, Xb, Eb)
    y = safe_power(x, e, **kw)
    ctx.equal(y, want, "signed power", tol=1e-6 if not cfg.get("tol") else cfg["tol"])
    ctx.equal(safe_power(x, e, **kw), want, "second call", tol=1e-6 if not cfg.get("tol") else cfg["tol"])
    if xs is not None:
        ctx.unchanged(x, "x", "base unchanged")
        if not isint and es is None:
            ctx.check(y.dtype == x.dtype, "element type kept")
    if es is not None:
        ctx.equal(e, E, "exponent unchanged")


def h_pow_grad(ctx, cfg):
    from torchimage.misc import safe_power
    x = ctx.tensor("x", tuple(cfg["shape"]), -8, 8, requires_grad=True)
    X = ctx.inputs["x"][1]
    p = cfg["e"]
    P = tm.norm(p)
    eps = tm.norm(cfg.get("eps", 1e-6))
    whole = Fraction(P).denominator == 1
    for v in X.reshape(-1):
        ctx.assume(tm.or_(tm.eq(v, 0), tm.le(Fraction(1, 64), tm.absv(v))) if not whole or P > 0 else tm.le(Fraction(1, 64), tm.absv(v)))
    sgn = [0 if ctx.decide(tm.eq(v, 0)) else (-1 if ctx.decide(tm.lt(v, 0)) else 1) for v in X.reshape(-1)]
    kw = {"epsilon": cfg["eps"]} if "eps" in cfg else {}
    y = safe_power(x, p, **kw)
    ctx.backward(y.sum())
    out = []
    for v, s in zip(X.reshape(-1), sgn):
        if whole:
            out.append(tm.mul(P, tm.power(v, P - 1)) if P != 0 else 0)
        else:
            b = eps if s == 0 else (v if s > 0 else tm.neg(v))
            out.append(tm.mul(P, tm.power(b, tm.norm(float(p) - 1.0))))
    want = np.array(out, dtype=object).reshape(X.shape)
    ctx.equal(x.grad, want, "gradient", tol=1e-6)


# ---------------------------------------------------------------- outer
def h_outer(ctx, cfg):
    from torchimage.misc import outer
    a, b = tuple(cfg["a"]), tuple(cfg["b"])
    dt = DT[cfg.get("dt", "f64")]
    u, v = ctx.tensor("u", a, dtype=dt), ctx.tensor("v", b, dtype=dt)
    U, V = ctx.inputs["u"][1], ctx.inputs["v"][1]
    if cfg.get("t"):
        u, U = u.transpose(0, -1), np.swapaxes(U, 0, -1)
        v, V = v.transpose(0, -1), np.swapaxes(V, 0, -1)
    want = np.empty(U.shape + V.shape, dtype=object)
    for i in np.ndindex(*U.shape):
        for j in np.ndindex(*V.shape):
            want[i + j] = tm.mul(U[i], V[j])
    ctx.equal(outer(u, v), want, "outer product")
    if not cfg.get("t"):
        ctx.unchanged(u, "u", "input unchanged")
        ctx.unchanged(v, "v", "input unchanged")


def h_outer_np(ctx, cfg):
    """arrays: integer entries enumerated symbolically through a tensor's values"""
    from torchimage.misc import outer
    u = np.array([int(ctx.int(f"u{i}", -1, 2)) for i in range(2)]).reshape(2, 1)
    v = np.array([[int(ctx.int("v0", -1, 2)), 3]])
    w = outer(u, v)
    ctx.check(w.shape == (2, 1, 1, 2), "shape")
    ctx.check(all(w[i, 0, 0, j] == u[i, 0] * v[0, j] for i in range(2) for j in range(2)), "outer product of arrays")


# ---------------------------------------------------------------- describe
def h_describe(ctx, cfg):
    from torchimage.misc import describe
    shape = tuple(cfg["shape"])
    x = ctx.tensor("x", shape, -cfg.get("box", 4), cfg.get("box", 4))
    X = ctx.inputs["x"][1]
    if cfg.get("mostly"):          # few symbolic elements among many fixed ones
        n0 = cfg["mostly"]
        fixed = torch.tensor([((7 * i) % 11 - 5) * 0.75 for i in range(n0)], dtype=torch.float64)
        X = np.array(list(X.reshape(-1)[:1]) + [tm.norm(v) for v in fixed.tolist()] + list(X.reshape(-1)[1:]), dtype=object)
        x = torch.cat([x.reshape(-1)[:1], fixed, x.reshape(-1)[1:]])
        if cfg.get("as"):
            x, X = x.reshape(cfg["as"]), X.reshape(cfg["as"])
    if cfg.get("t"):
        x = x.transpose(0, -1)
    d = describe(x)
    n = X.size
    flat = list(X.reshape(-1))
    mean = tm.div(tm.sum_terms(flat), n)
    var = tm.div(tm.sum_terms([tm.mul(tm.sub(v, mean), tm.sub(v, mean)) for v in flat]), n - 1) if n > 1 else None
    ctx.check(list(d) == ["mean", "std", "min", "25%", "50%", "75%", "max"] or set(d) == {"mean", "std", "min", "25%", "50%", "75%", "max"}, "entries")
    got = {k: ctx.term(v) for k, v in d.items()}
    tolc = dict(tol=None if ctx.symbolic else 1e-9)
    eqs = lambda k, w: ctx.equal(spec.vec([got[k]]), spec.vec([w]), k, tol=1e-9)
    eqs("mean", mean)
    if n > 1:
        sd = got["std"]
        ctx.equal(spec.vec([tm.mul(sd, sd)]), spec.vec([var]), "squared deviation", tol=1e-9)
        ctx.check(tm.le(0, sd) if ctx.symbolic else sd >= -1e-12, "deviation not negative")
    # the rest by what they mean, not by a sort
    s = tm.sort_elems(flat)
    eqs("min", s[0])
    eqs("max", s[-1])
    for k, q in (("25%", Fraction(1, 4)), ("50%", Fraction(1, 2)), ("75%", Fraction(3, 4))):
        pos = q * (n - 1)
        i = math.floor(pos)
        f = pos - i
        w = s[i] if f == 0 else tm.add(tm.mul(tm.norm(1 - f), s[i]), tm.mul(tm.norm(f), s[i + 1]))
        eqs(k, w)
    if not cfg.get("t") and not cfg.get("mostly"):
        ctx.unchanged(x, "x", "input unchanged")


# ---------------------------------------------------------------- random
def _window(X, axes, beg, length):
    idx = [slice(None)] * X.ndim
    for a, b, l in zip(axes, beg, length):
        if l is not None:
            idx[a] = slice(b, b + l)
    return X[tuple(idx)]


def drawn(ctx, cfg, f):
    """f(generator=...) where the configuration asks for one: it must supply every draw, the global state stays as it is"""
    if not cfg.get("gen"):
        return f()
    from torch.utils._python_dispatch import _disable_current_modes
    state = torch.random.get_rng_state
    gen = torch.Generator()
    with _disable_current_modes():
        a, b = state().tolist(), gen.get_state().tolist()
    y = f(generator=gen)
    with _disable_current_modes():
        a, b = a == state().tolist(), b == gen.get_state().tolist()
    ctx.check(a, "no draw comes from another generator")
    ctx.check(not b, "draws come from the given generator")
    return y


def h_crop_bad(ctx, cfg):
    """a window longer than the axis does not exist"""
    from torchimage.random import random_crop
    x = ctx.tensor("x", cfg["shape"])
    ctx.raises(Exception, lambda: random_crop(x, _axes_arg(cfg["axes"]), cfg["size"]), "a window that does not fit")


def h_crop(ctx, cfg):
    from torchimage.random import random_crop
    shape = tuple(cfg["shape"])
    x = ctx.tensor("x", shape)
    X = ctx.inputs["x"][1]
    axes = _norm_axes(cfg["axes"], len(shape))
    size = cfg["size"]
    lens = [size] * len(axes) if size is None or isinstance(size, int) else list(size)
    y = drawn(ctx, cfg, lambda **g: random_crop(x, _axes_arg(cfg["axes"]), size, **g))
    Y = ctx.elems(y)
    want = list(shape)
    for a, l in zip(axes, lens):
        if l is not None:
            want[a] = l
    ctx.check(tuple(Y.shape) == tuple(want), "shape of the crop")
    ranges = [range(shape[a] - l + 1) if l is not None else [0] for a, l in zip(axes, lens)]
    hits = []
    for beg in itertools.product(*ranges):
        w = _window(X, axes, beg, lens)
        hits.append(tm.and_(*[tm.eq(u, v) for u, v in zip(Y.reshape(-1), w.reshape(-1))]))
    ctx.check(tm.or_(*hits), "the crop is a window of the input")
    ctx.unchanged(x, "x", "input unchanged")


def h_crop_reach(ctx, cfg):
    """for every offset that fits there is a draw that produces it (the solver searches the draws)"""
    from torchimage.random import random_crop
    shape = tuple(cfg["shape"])
    axes = _norm_axes(cfg["axes"], len(shape))
    size = cfg["size"]
    lens = [size] * len(axes) if isinstance(size, int) else list(size)
    x = torch.arange(int(np.prod(shape)), dtype=torch.float64).reshape(shape)
    every = list(itertools.product(*[range(shape[a] - l + 1) for a, l in zip(axes, lens)]))

    def draw():
        y = random_crop(x, _axes_arg(cfg["axes"]), size)
        off = np.unravel_index(int(y.reshape(-1)[0].item()), shape)
        return tuple(int(off[a]) for a in axes)
    ctx.reach("crop offsets", draw() if ctx.symbolic else draw, every)


def h_gauss_noise(ctx, cfg):
    from torchimage.random import add_gauss_noise
    shape, dt = tuple(cfg["shape"]), DT[cfg.get("dt", "f64")]
    x = ctx.tensor("x", shape, -8, 8, dtype=dt)
    X = ctx.inputs["x"][1]
    if cfg.get("t"):
        x, X = x.transpose(0, -1), np.swapaxes(X, 0, -1)
    s = ctx.real("sigma", 0, 4) if cfg["sigma"] == "sym" else cfg["sigma"]
    S = ctx.term(s)
    y = drawn(ctx, cfg, lambda **g: add_gauss_noise(x, s, **g))
    Z = np.array(ctx.draws("normal", X.size), dtype=object).reshape(X.shape)
    ctx.equal(y, emap(lambda v, z: tm.add(v, tm.mul(S, z)), X, Z), "noisy image", tol=1e-9 if dt == torch.float64 else 1e-5)
    ctx.check(y.dtype == x.dtype, "element type kept")
    if not cfg.get("t"):
        ctx.unchanged(x, "x", "input unchanged")
    y.zero_()
    if not cfg.get("t"):
        ctx.unchanged(x, "x", "the result is no alias of the input")


def h_poisson_noise(ctx, cfg):
    from torchimage.random import add_poisson_gauss_noise
    shape, dt = tuple(cfg["shape"]), DT[cfg.get("dt", "f64")]
    x = ctx.tensor("x", shape, 0, 8, dtype=dt)
    X = ctx.inputs["x"][1]
    if cfg.get("t"):
        x, X = x.transpose(0, -1), np.swapaxes(X, 0, -1)
    s = ctx.real("sigma", 0, 4) if cfg["sigma"] == "sym" else cfg["sigma"]
    k = ctx.real("k", Fraction(1, 16), 4) if cfg["k"] == "sym" else cfg["k"]
    S, K = ctx.term(s), ctx.term(k)
    y = drawn(ctx, cfg, lambda **g: add_poisson_gauss_noise(x, k, s, **g))
    n = X.size
    Z = np.array(ctx.draws("normal", n), dtype=object).reshape(X.shape)
    P = np.array(ctx.draws("poisson", n), dtype=object).reshape(X.shape)
    P = emap(lambda p, v: tm.ite(tm.eq(v, 0), 0, p), P, X)
    ctx.equal(y, emap(lambda p, z: tm.add(tm.mul(K, p), tm.mul(S, z)), P, Z), "noisy image", tol=1e-9 if dt == torch.float64 else 1e-4)
    rates = ctx.stub_args("poisson", n)
    if rates is not None:
        ctx.equal(spec.vec([r for r in rates]), spec.vec([tm.div(v, K) for v in X.reshape(-1)]), "Poisson rates", tol=1e-9 if dt == torch.float64 else 1e-5)
    ctx.check(y.dtype == x.dtype, "element type kept")
    if not cfg.get("t"):
        ctx.unchanged(x, "x", "input unchanged")
        y.zero_()
        ctx.unchanged(x, "x", "the result is no alias of the input")


# ---------------------------------------------------------------- pixels per degree
def h_ppd(ctx, cfg):
    from torchimage.metrics.hdrvdp.pixels_per_degree import pixels_per_degree
    h, w = cfg["res"]
    d, v = ctx.real("diagonal", 10, 5000), ctx.real("distance", Fraction(1, 10), 20)
    D, V = ctx.term(d), ctx.term(v)
    y = ctx.term(pixels_per_degree(d, h, w, v))
    ar = w / h
    mm = tm.sqrt(tm.mul(tm.mul(D, D), tm.norm(Fraction(1) / Fraction(1 + ar ** 2)))) if ctx.symbolic else (D * D / (1 + ar ** 2)) ** 0.5
    at = tm.fn("atan", tm.div(tm.mul(mm, Fraction(1, 2)), tm.mul(V, 1000)))
    deg = tm.mul(tm.mul(2, at), tm.norm(180 / math.pi))
    # resolution = result * visual angle
    ctx.equal(spec.vec([y]), spec.vec([tm.div(h, deg)]), "pixels per degree", tol=Fraction(1, 10 ** 6))
    ctx.check(tm.lt(0, y) if ctx.symbolic else y > 0, "positive")
    if cfg.get("scale"):
        k = cfg["scale"]
        ctx.equal(spec.vec([ctx.term(pixels_per_degree(d * k, h, w, v * k))]), spec.vec([y]), "scaled display", tol=Fraction(1, 10 ** 6))


HARNESS = {f.__name__: f for f in (h_poly, h_pow, h_pow_grad, h_outer, h_outer_np, h_describe, h_crop, h_crop_bad, h_crop_reach, h_gauss_noise,
                                   h_poisson_noise, h_ppd)}


def x01(tier):
    out = []
    top = 6 if tier == "quick" else 7
    for n in range(1, top + 1):
        out.append(dict(h="h_poly", n=n, shape=[3], w="sym" if n < 5 else "num", twice=True))
        out.append(dict(h="h_poly", n=n, shape=[2, 2], w="num", seq="tuple"))
        out.append(dict(h="h_poly", n=n, shape=[2], w="num", seq="numpy", dt="f32"))
        if n <= 3:
            out.append(dict(h="h_poly", n=n, shape=[2], w="int"))
            out.append(dict(h="h_poly", n=n, shape=[2], w="int", dt="int"))
            out.append(dict(h="h_poly", n=n, shape=[], w="sym"))
            out.append(dict(h="h_poly", n=n, shape=[2], w="num", dt="int"))
    for n in range(top + 1, 15):
        out.append(dict(h="h_poly", n=n, shape=[1], w="num", twice=n % 2 == 0, box=2))
        out.append(dict(h="h_poly", n=n, shape=[1, 1], w="num", seq="tuple", box=2))
    for n in (5, 6, 8, 9):
        out.append(dict(h="h_poly", n=n, shape=[1], w="sym", box=2))
    out.append(dict(h="h_poly", n=21, shape=[1], w="num", box=1))
    out.append(dict(h="h_poly", n=3, shape=[40], w="num"))
    out.append(dict(h="h_poly", n=4, shape=[1, 2, 1, 2, 1], w="num"))
    if tier == "thorough":
        out += [dict(h="h_poly", n=n, shape=[2, 3], w="sym", twice=True) for n in range(1, 8)]
    return out


def x02(tier):
    out = []
    S = lambda x, e, E, **k: out.append(dict(h="h_pow", x=x, e=e, E=E, **k))
    whole, frac = [0.0, 1.0, 2.0, 3.0, -1.0, -2.0, 5.0], [0.5, 1.5, -0.5, 2.25, 1 / 3, -1.75]
    for sh in ([], [2], [2, 1]):
        S(sh, None, whole)
        S(sh, None, frac)
        S(sh, None, [0, 1, 2, -1, 4])
    S([2], None, [0.5, 1.5], eps="sym")
    S([2], None, [0.5, 1.5], eps=0.25)
    S([2], None, [0.5, 1.5], eps=0)
    S([2], None, [0.5], dt="f32", tol=1e-3)
    S(None, [2], [0.5, 2.0])
    S(None, [3], [0.5, 2.0, -1.5], tol=1e-6)
    S(None, [2, 2], whole[:4])
    S([2], [2], [0.5, 2.0, 3.0, -0.5], pick=True)
    S([2, 1], [2], [0.5, 2.0])
    S([2], [2, 1], [1.5, 3.0])
    S([1], [3], [0.5, 1.0, 2.5])
    S([3], [], [0.75])
    S([2], None, [0.5, 2, 1.5, 3.0], dt="int")
    S([2], None, [2.5], dt="i32")
    S([2], [2], [0.5, 2.0], dt="int")
    S([], [2], [2.0, 0.5], dt="int")
    S(None, [2], [2, 3], edt="int")
    S(None, [2], [2, 3], edt="int", xint=True)
    S([1], None, [7.0, 8.0, 10.0, 13.0, -5.0, 12])
    S([1], None, [3.5, 4.75, 7.25, -2.5])
    S([2], None, [0.01, 0.99, 1.01])
    S([1], None, [3.001, 2.9999, 1e-3, -1.0001, 1.00000095367431640625, 0.9999, 100.5])
    S([2], [2], [2.0001, 2.0, 1.9999])
    S([30], None, [3.0])
    S([30], [30], [3.0, 2.0])
    S([2, 1, 1, 2, 1], None, [0.5, 2.0])
    S([1, 2, 1, 1, 2], [2, 1, 1], [2.0, 0.5])
    S([3], None, [0.5, 3.0, 2.0], dt="f16", tol=1e-2)
    S([2], None, [2.0, 3], dt="i32")
    for e in (0.5, 1.5, -0.5, 2.0, 3, 1, 1 / 3, 5, 0.25, 2.5, -1.0):
        out.append(dict(h="h_pow_grad", shape=[2], e=e))
    out.append(dict(h="h_pow_grad", shape=[3], e=0.5, eps=0.25))
    if tier == "thorough":
        S([3], None, whole + frac)
        S([2, 2], [2, 2], [0.5, 2.0, -0.5, 1.0])
        S([3], [3], [0.5, 2.0, 3.0, -0.5, 1 / 3], pick=True)
        for e in frac + whole[1:]:
            out.append(dict(h="h_pow_grad", shape=[3], e=e))
    return out


def x03(tier):
    out = []
    shapes = [[], [1], [2], [3], [2, 3], [1, 2, 2], [2, 1]]
    for a, b in itertools.product(shapes, repeat=2):
        out.append(dict(h="h_outer", a=a, b=b))
    out.append(dict(h="h_outer", a=[2, 3], b=[3, 2], t=True))
    out.append(dict(h="h_outer", a=[2], b=[2, 2], dt="int"))
    out.append(dict(h="h_outer", a=[2], b=[2, 2], dt="f32"))
    out.append(dict(h="h_outer_np"))
    for a, b in (([70], [3]), ([3], [70]), ([1, 2, 1, 2, 1], [2]), ([2], [1, 2, 1, 2, 2]), ([9, 2], [2, 9]), ([2, 1, 2, 1], [1, 3, 1, 2]), ([0], [2]), ([2, 2], [0, 3])):
        out.append(dict(h="h_outer", a=a, b=b))
    out += [dict(h="h_outer", a=[2, 2], b=[3], dt=d) for d in ("f16", "i32")]
    out.append(dict(h="h_outer", a=[3, 1, 2], b=[2, 2, 2], t=True))
    if tier == "thorough":
        out += [dict(h="h_outer", a=a, b=b) for a in ([2, 3, 4], [5], [2, 2, 2, 2]) for b in ([3, 2], [2, 2, 3], [7])]
    return out


def x04(tier):
    out = [dict(h="h_describe", shape=s) for s in ([2], [3], [4], [5], [2, 2], [2, 1, 2], [6], [1, 3])]
    out += [dict(h="h_describe", shape=[2, 2], t=True)]
    out += [dict(h="h_describe", shape=[3], box=1000), dict(h="h_describe", shape=[1, 2, 1, 1, 2])]
    for n in (5, 8, 13, 30, 61):
        out.append(dict(h="h_describe", shape=[2 if n < 60 else 1], mostly=n))
    out.append(dict(h="h_describe", shape=[2], mostly=18, **{"as": [4, 5]}))
    out.append(dict(h="h_describe", shape=[1], mostly=23, **{"as": [2, 3, 4]}))
    if tier == "thorough":
        out += [dict(h="h_describe", shape=s) for s in ([7], [2, 4], [3, 3])]
    return out


def x05(tier):
    out = []
    S = lambda shape, axes, size, **k: out.append(dict(h="h_crop", shape=shape, axes=axes, size=size, **k))
    for size in (1, 2, 3, 4):
        S([4], 0, size)
        S([2, 4], -1, size)
        out.append(dict(h="h_crop_reach", shape=[4], axes=0, size=size))
    S([2, 3, 3], {"slice": [1, None]}, 2)
    S([2, 3, 4], [2, 1], [2, 3])
    S([2, 3, 4], [1, 2], [3, 4])
    S([3, 2, 3], [0, 2], [None, 2])
    S([3, 2, 3], [-1, 0], [1, None])
    S([3, 3], None, 1, gen=True)
    S([3, 3], None, [2, 2], gen=True)
    S([2, 3], None, None)
    S([2, 3], [1], [0])
    S([2, 3], None, [1, 0], gen=True)
    S([3], 0, 0)
    S([2, 3, 2], [1, -1], [2, 1], gen=True)
    for shape, axes, size in (([3], 0, 4), ([2, 3], None, [2, 4]), ([2, 3], [0], 3), ([4, 1], [1, 0], [2, 4]), ([2, 2], None, 40)):
        out.append(dict(h="h_crop_bad", shape=shape, axes=axes, size=size))
    S([300], 0, 290)
    S([300], 0, 300)
    S([2, 40], -1, 31)
    S([1, 2, 1, 2, 5], [4, 1], [3, 1])
    S([2, 1, 3, 1, 2, 3], {"slice": [4, None]}, 2)
    S([12, 11], None, [5, 9])
    out.append(dict(h="h_crop_reach", shape=[12], axes=0, size=3))
    out.append(dict(h="h_crop_reach", shape=[70], axes=0, size=67))
    out.append(dict(h="h_crop_reach", shape=[3, 4], axes=None, size=2))
    out.append(dict(h="h_crop_reach", shape=[3, 4], axes=[1, 0], size=[3, 2]))
    out.append(dict(h="h_crop_reach", shape=[2, 3, 3], axes={"slice": [1, None]}, size=3))
    if tier == "thorough":
        for n in (5, 6, 7):
            for size in range(1, n + 1):
                S([n], 0, size)
                out.append(dict(h="h_crop_reach", shape=[n], axes=0, size=size))
        S([2, 4, 5, 3], [1, 2, 3], [2, 3, 2])
        out.append(dict(h="h_crop_reach", shape=[4, 5, 3], axes=None, size=[2, 3, 2]))
    return out


def x06(tier):
    out = []
    for h in ("h_gauss_noise", "h_poisson_noise"):
        for shape in ([3], [2, 2], []):
            for sg in ("sym", 0.25, 0, 1.5):
                for k in (("sym", 0.5, 1) if h == "h_poisson_noise" else (None,)):
                    out.append(dict(h=h, shape=shape, sigma=sg, k=k))
        out.append(dict(h=h, shape=[2, 3], sigma=0.5, k=0.25, t=True))
        out.append(dict(h=h, shape=[2], sigma=0.5, k=0.25, dt="f32"))
        out.append(dict(h=h, shape=[2], sigma="sym", k="sym", gen=True))
        out.append(dict(h=h, shape=[2, 3], sigma=0.5, k=2.0, gen=True))
        out.append(dict(h=h, shape=[2], sigma="sym", k=1, dt="f16" if h == "h_gauss_noise" else "f32", tol=1e-2 if h == "h_gauss_noise" else 1e-4, gen=True))
        for shape in ([70], [5, 7], [1, 2, 1, 2, 3], [3, 1, 2, 2]):
            out.append(dict(h=h, shape=shape, sigma="sym", k="sym"))
            out.append(dict(h=h, shape=shape, sigma=2.0, k=2.5))
    if tier == "thorough":
        out += [dict(h=h, shape=[3, 4], sigma="sym", k="sym") for h in ("h_gauss_noise", "h_poisson_noise")]
    return out


def x07(tier):
    out = [dict(h="h_ppd", res=r) for r in ([1024, 768], [1080, 1920], [1, 1], [3, 4], [2160, 3840], [600, 800])]
    out += [dict(h="h_ppd", res=r, scale=k) for r in ([3, 4], [1080, 1920]) for k in (2, 0.5)]
    if tier == "thorough":
        out += [dict(h="h_ppd", res=[h, w]) for h in (1, 2, 100, 768, 4320) for w in (1, 3, 640, 7680)]
    return out


PROPS = {"X01": x01, "X02": x02, "X03": x03, "X04": x04, "X05": x05, "X06": x06, "X07": x07}
META = {
    "X01": dict(bounds="1 to 6 (thorough 7) weights, symbolic up to 4 (thorough 7), tensors of up to 4 (6) elements, three element types" + "; long axes: degrees to 20, tensors of 40 elements",
                outside="more weights"),
    "X02": dict(bounds="tensors of up to 4 elements in [-8,8] (integers in [-4,4]), thirteen exponents, scalar and broadcast, epsilon symbolic in [1/1000,1] or fixed; "
                       "fractional powers are an uninterpreted function" + "; long axes: thirty elements, more exponents",
                outside="a base in (0,1/64) under a negative exponent; both arguments plain numbers"),
    "X03": dict(bounds="shapes of 0..3 dimensions with sides up to 3 (thorough 5)" + "; long axes: seventy elements, five axes",
                outside="larger"),
    "X04": dict(bounds="2 to 6 (thorough 9) elements in [-4,4]" + "; long axes: to 100 elements of which one or two symbolic",
                outside="more elements; a single element, whose deviation is undefined"),
    "X05": dict(bounds="tensors of up to 3 dimensions with sides up to 4 (thorough 7), every crop length and listed axis choice" + "; long axes: to 300 samples, six axes",
                outside="distribution of the draws"),
    "X06": dict(bounds="up to 4 (thorough 12) elements in [-8,8] ([0,8] for Poisson), sigma in [0,4], k in [1/16,4], normal draws in [-8,8], Poisson draws in 0..50" + "; long axes: seventy elements, five axes",
                outside="the distributions of torch's generators, which are stood for by arbitrary draws; negative sigma"),
    "X07": dict(bounds="diagonals 10..5000 mm, distances 0.1..20 m, six resolutions (thorough 26); atan is uninterpreted with its bounds, monotony and slope", outside="other resolutions"),
}
