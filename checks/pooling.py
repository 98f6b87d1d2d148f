import itertools
import math
import numpy as np
import torch
from symx import terms as tm
from . import spec
from .spec import pad1, padn, corr_axis, same_width

IMPORTS = ("torchimage.pooling", "torchimage.pooling.base", "torchimage.pooling.gaussian", "torchimage.pooling.operator",
           "torchimage.pooling.uniform", "torchimage.padding", "torchimage.filtering")
TOL = 1e-6
MODES = spec.INDEX_MODES + spec.LINEAR_MODES + spec.FILL_MODES


def _dt(cfg):
    return {"f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16}.get(cfg.get("dtype"), torch.float64)


def pool_ref(a, axes, kernels, strides, mode, cv=None):
    """same-pad the listed axes in order, then correlate along each in order"""
    if mode is not None:
        plan = []
        modes = [mode] * len(axes) if isinstance(mode, str) else mode
        for ax, k, s, m in zip(axes, kernels, strides, modes):
            b, c = same_width(len(k), s, a.shape[ax])
            kw = dict(cv=cv) if m == "constant" and cv else {}
            plan.append((ax, dict(before=b, after=c, mode=m, **kw)))
        a = padn(a, plan)
    for ax, k, s in zip(axes, kernels, strides):
        if len(k) == 0:
            continue
        if a.shape[ax] < len(k):
            return None
        a = corr_axis(a, ax, k, s)
    return a


def _axes_arg(axes):
    if isinstance(axes, dict):
        return slice(*axes["slice"])
    return axes if axes is None or isinstance(axes, int) else tuple(axes)


def _norm_axes(axes, nd):
    if axes is None:
        return list(range(nd))
    if isinstance(axes, dict):
        return list(range(nd))[slice(*axes["slice"])]
    if isinstance(axes, int):
        return [axes % nd]
    return [a % nd for a in axes]


def h_pool(ctx, cfg):
    from torchimage.pooling import SeparablePoolNd
    from torchimage.padding import Padder
    shape = tuple(cfg["shape"])
    x = ctx.tensor("x", shape, *((-4, 4) if cfg.get("box") else ()), dtype=_dt(cfg))
    axes = _norm_axes(cfg["axes"], len(shape))
    m = len(axes)
    lens = cfg["lens"]                       # int: one shared kernel; list: one per axis
    kinds = cfg.get("kinds", "sym")

    def kern(i, n):
        if kinds == "sym":
            return [ctx.real(f"k{i}_{j}", -4, 4) for j in range(n)]
        if kinds == "tensor":
            return ctx.tensor(f"k{i}", (n,), -4, 4)
        return [((3 * i + 2 * j) % 5) - 1.5 for j in range(n)]
    if isinstance(lens, int):
        kernel = kern(0, lens)
        ks = [list(ctx.elems(kernel)) if lens else []] * m
    else:
        kernel = [kern(i, n) for i, n in enumerate(lens)]
        ks = [list(ctx.elems(k)) if len(k) else [] for k in kernel]
    st = cfg["stride"]
    if st == "sym":
        st = [int(ctx.int(f"s{i}", 1, cfg.get("S", 3))) for i in range(m)] if not isinstance(lens, int) else \
            int(ctx.int("s", 1, cfg.get("S", 3)))
    strides = [None] * m if st is None else ([st] * m if isinstance(st, int) else list(st))
    strides = [max(len(k), 1) if s is None else s for s, k in zip(strides, ks)]
    mode = cfg.get("mode")
    cv = None
    pad = mode
    if mode == "constant" and cfg.get("cv"):
        u = (ctx.real("cva"), ctx.real("cvb"))
        pad = Padder(mode=mode, constant_values=u)
        cv = tuple(ctx.term(v) for v in u)
    elif cfg.get("padder") and mode:
        pad = Padder(pad_width=5, mode=mode)
    elif isinstance(mode, list):
        pad = Padder(mode=mode)
    f = SeparablePoolNd(kernel=kernel, stride=st, same_padder=pad)
    want = pool_ref(ctx.inputs["x"][1], axes, ks, strides, mode, cv)
    if want is None:
        return ctx.check(True, "no window fits")
    y = f.forward(x, axes=_axes_arg(cfg["axes"])) if not cfg.get("default_axes") else f.forward(x)
    tol = TOL if (kinds == "num" or mode in ("linear_ramp", "mean") or isinstance(mode, list)) else None
    tol = {"f32": 1e-4, "f16": 0.1, "bf16": 0.5}.get(cfg.get("dtype"), tol)
    ctx.equal(y, want, f"separable pooling along {axes}", tol=tol)
    ctx.check(y.dtype == x.dtype, "element type preserved")
    ctx.unchanged(x, "x", "input unchanged")


def h_conv(ctx, cfg):
    from torchimage.pooling.operator import any_conv_1d
    shape = tuple(cfg["shape"])
    dim = cfg["dim"]
    x = ctx.tensor("x", shape)
    w = ctx.tensor("w", (cfg["k"],))
    s, d = int(ctx.int("s", 1, cfg["S"])), int(ctx.int("d", 1, cfg["D"]))
    n = shape[dim % len(shape)]
    if d * (cfg["k"] - 1) + 1 > n:
        return ctx.check(True, "no window fits")
    y = any_conv_1d(x, w, dim=dim, stride=s, dilation=d)
    W = list(ctx.inputs["w"][1])
    ctx.equal(y, corr_axis(ctx.inputs["x"][1], dim % len(shape), W, s, d), "convolution along one axis")
    ctx.unchanged(x, "x", "input unchanged")
    ctx.unchanged(w, "w", "kernel unchanged")


def h_avg(ctx, cfg):
    from torchimage.pooling import AvgPoolNd
    from torchimage.padding import Padder
    shape = tuple(cfg["shape"])
    nd = len(shape)
    axes = _norm_axes(cfg["axes"], nd)
    m = len(axes)
    x = ctx.tensor("x", shape, -8, 8, dtype=_dt(cfg))
    kmax, smax = cfg.get("K"), cfg.get("S")
    if cfg.get("k0"):
        ks, ss = cfg["k0"], cfg["s0"]
        ka, sa = list(ks), list(ss)
    elif cfg.get("shared"):
        k = int(ctx.int("k", 1, kmax))
        s = int(ctx.int("s", 0, smax)) or None
        ks, ss, ka, sa = [k] * m, [s or k] * m, k, s
    else:
        ks = [int(ctx.int(f"k{i}", 1, kmax)) for i in range(m)]
        sa = [int(ctx.int(f"s{i}", 0 if cfg.get("none") else 1, smax)) or None for i in range(m)]
        ss = [s or k for s, k in zip(sa, ks)]
        ka = list(ks)
    mode = cfg.get("mode")
    incl = cfg["include"]
    kw = {} if cfg.get("default") else {"count_include_pad": incl}
    f = AvgPoolNd(ka, stride=sa, same_padder=(Padder(mode="constant", constant_values=0) if mode == "constant" else mode), **kw)
    X = ctx.inputs["x"][1]
    if mode is None and any(shape[a] < k for a, k in zip(axes, ks)):
        return ctx.check(True, "no window fits")
    y = f.forward(x, axes=_axes_arg(cfg["axes"]))
    if incl or mode is None:
        from fractions import Fraction
        want = pool_ref(X, axes, [[Fraction(1, k)] * k for k in ks], ss, mode)
    else:
        # mean of the real elements in each window
        want = X
        cnt = {}
        for a, k, s in zip(axes, ks, ss):
            b, c = same_width(k, s, shape[a])
            want = spec.along(want, a, lambda xs: [tm.div(tm.sum_terms(w), len(w)) for w in
                                                   [[xs[j - b] for j in range(p, p + k) if b <= j < b + len(xs)]
                                                    for p in range(0, len(xs) + b + c - k + 1, s)]])
    ctx.equal(y, want, "average pooling", tol={"f32": 1e-4, "f16": 0.1, "bf16": 0.5}.get(cfg.get("dtype"), TOL))
    ctx.check(y.dtype == x.dtype, "element type preserved")
    ctx.unchanged(x, "x", "input unchanged")


def gauss_ref(n, sigma, order, center=None):
    """exp(-x^2/2s^2)-weights of the odd support, first n of the reversed support, as elements"""
    r = n // 2
    s2 = tm.mul(sigma, sigma)
    xs = list(range(-r, r + 1))
    w = [tm.exp(tm.div(tm.neg(tm.norm(x * x)), tm.mul(2, s2))) for x in xs]
    tot = tm.sum_terms(w)
    return xs, w, tot, s2


def deriv_poly(x, s2, order):
    """q with d^n/dx^n exp(-x^2/2s2) = q(x) exp(-x^2/2s2) (by hand up to 4, three-term Hermite recursion beyond)"""
    inv = tm.div(1, s2)
    if order == 0:
        return 1
    if order == 1:
        return tm.mul(-x, inv)
    if order == 2:
        return tm.sub(tm.mul(x * x, tm.mul(inv, inv)), inv)
    if order == 3:
        return tm.add(tm.mul(3 * x, tm.mul(inv, inv)), tm.mul(-x ** 3, tm.mul(inv, tm.mul(inv, inv))))
    if order > 4:
        a, b = deriv_poly(x, s2, order - 1), deriv_poly(x, s2, order - 2)
        return tm.neg(tm.mul(inv, tm.add(tm.mul(x, a), tm.mul(order - 1, b))))
    i2 = tm.mul(inv, inv)
    return tm.add(tm.sub(tm.mul(x ** 4, tm.mul(i2, i2)), tm.mul(6 * x * x, tm.mul(i2, inv))), tm.mul(3, i2))


def h_gauss(ctx, cfg):
    """order 0: all the shape facts for every sigma"""
    from torchimage.pooling.gaussian import gaussian_kernel_1d
    n, order = cfg["n"], cfg.get("order", 0)
    sg = ctx.real("sigma", *cfg["range"])
    s = ctx.term(sg)
    k = gaussian_kernel_1d(kernel_size=n, sigma=sg, order=order)
    ctx.check(len(k) == n, "kernel length")
    K = [ctx.term(v) for v in k]
    xs, w, tot, s2 = gauss_ref(n, s, order)
    if order == 0:
        sup = w[::-1][:n]
        z = tm.sum_terms(sup)
        # cross-multiplied: weight_i * sum = gaussian_i
        for i in range(n):
            ctx.equal(spec.vec([K[i]]), spec.vec([tm.div(sup[i], z)]), f"weight {i}", tol=None if not cfg.get("tol") else cfg["tol"])
        ctx.equal(spec.vec([tm.sum_terms(K)]), spec.vec([1]), "weights sum to one", tol=1e-9)
        for v in K:
            ctx.check(tm.lt(0, v), "positive weight")
        c = n // 2                               # centre of the (reversed) support
        for i in range(n):
            if 0 <= 2 * c - i < n:
                ctx.equal(spec.vec([K[i]]), spec.vec([K[2 * c - i]]), "symmetric about the centre")
            if i < c:
                ctx.check(tm.lt(K[i], K[i + 1]), "increasing towards the centre")
    else:
        phi = [tm.div(v, tot) for v in w]
        want = [tm.mul(deriv_poly(x, s2, order), p) for x, p in zip(xs, phi)][::-1][:n]
        ctx.equal(spec.vec(K), spec.vec(want), f"derivative kernel of order {order}", tol=cfg.get("tol"))
        for i in range(n):
            j = 2 * (n // 2) - i
            if 0 <= j < n:
                sgn = -1 if order % 2 else 1
                ctx.equal(spec.vec([K[i]]), spec.vec([tm.mul(sgn, K[j])]), "parity of the derivative", tol=1e-9)


def h_gauss_num(ctx, cfg):
    """numeric sigma: the kernel the layer applies, on every image"""
    from torchimage.pooling import GaussianPoolNd
    shape = tuple(cfg["shape"])
    x = ctx.tensor("x", shape, -8, 8)
    ks, sg, od = cfg["ks"], cfg["sigma"], cfg["order"]
    m = len(shape)
    f = GaussianPoolNd(ks, sg, od, stride=1, same_padder=cfg.get("mode", "reflect"))
    y = f.forward(x, axes=None)
    L = lambda v: v if isinstance(v, list) else [v] * m
    kern = [gauss_list(n, s, o) for n, s, o in zip(L(ks), L(sg), L(od))]
    want = pool_ref(ctx.inputs["x"][1], list(range(m)), kern, [1] * m, cfg.get("mode", "reflect"))
    ctx.equal(y, want, "Gaussian filtering", tol=TOL)


def h_gauss_seq(ctx, cfg):
    """history: kernels asked for earlier leave later ones alone"""
    from torchimage.pooling.gaussian import gaussian_kernel_1d
    from torchimage.pooling import GaussianPoolNd
    sets = cfg["sets"]
    steps = [ctx.choice(f"c{i}", list(range(len(sets)))) for i in range(cfg["steps"])]
    x = ctx.tensor("x", (cfg["n"],), -8, 8)
    for j in steps[:-1]:
        n, s, o = sets[j]
        k = gaussian_kernel_1d(kernel_size=n, sigma=s, order=o)
        GaussianPoolNd(n, s, o, same_padder="reflect").forward(x, axes=None)
        if cfg.get("spoil"):
            for i in range(len(k)):                # the caller owns what it got
                k[i] = 0.0
    n, s, o = sets[steps[-1]]
    kern = gauss_list(n, s, o)
    k = gaussian_kernel_1d(kernel_size=n, sigma=s, order=o)
    ctx.equal(spec.vec(list(ctx.elems(k))), spec.vec(kern), "kernel after earlier calls", tol=1e-9)
    y = GaussianPoolNd(n, s, o, stride=1, same_padder="reflect").forward(x, axes=None)
    ctx.equal(y, pool_ref(ctx.inputs["x"][1], [0], [kern], [1], "reflect"), "filtering after earlier calls", tol=TOL)


def gauss_list(n, s, o):
    r = n // 2
    e = [math.exp(-t * t / (2 * s * s)) for t in range(-r, r + 1)]
    z = sum(e)
    q = [v / z * float(deriv_poly(t, s * s, o)) for t, v in zip(range(-r, r + 1), e)][::-1][:n]
    if o == 0 and len(q) < len(e):
        q = [v / sum(q) for v in q]
    return [tm.norm(v) for v in q]


def h_gauss_bad(ctx, cfg):
    from torchimage.pooling.gaussian import gaussian_kernel_1d
    o = int(ctx.int("o", -3, -1))
    ctx.raises(ValueError, lambda: gaussian_kernel_1d(kernel_size=3, sigma=1.0, order=o), "negative derivative order")


def h_stride(ctx, cfg):
    """default and explicit strides; filters keep the size"""
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    from torchimage.padding import Padder
    kind, nd = cfg["kind"], cfg["nd"]
    if kind == "invalid":
        s = int(ctx.int("s", -3, 0))
        arg = s if nd == 1 else [1, s]
        return ctx.raises(ValueError, lambda: AvgPoolNd(2, stride=arg), "non-positive stride")
    shape = [int(ctx.int(f"n{i}", 1, cfg["N"])) for i in range(nd)]
    k = [int(ctx.int(f"k{i}", 1, cfg["K"])) for i in range(nd)]
    if cfg.get("shared"):
        k = [k[0]] * nd
    ka = k[0] if cfg.get("shared") else k
    x = ctx.tensor("x", shape, -4, 4)

    def make(stride, same_padder=None):
        if cfg["layer"] == "avg":
            return AvgPoolNd(ka, stride=stride, same_padder=same_padder)
        if cfg["layer"] == "gauss":
            return GaussianPoolNd(ka, 1.0, stride=stride, same_padder=same_padder)
        ker = [1.0] * k[0] if cfg.get("shared") else [[1.0] * n for n in k]
        return SeparablePoolNd(ker, stride=stride, same_padder=same_padder)
    if kind == "default":
        if any(n < q for n, q in zip(shape, k)):
            return ctx.check(True, "no window fits")
        y = make(None).forward(x, axes=None)
        ctx.check(list(y.shape) == [(n - q) // q + 1 for n, q in zip(shape, k)], "one window per kernel length")
        y = make(None, "replicate").forward(x, axes=None)
        ctx.check(list(y.shape) == [-(-n // q) for n, q in zip(shape, k)], "same padding covers every element")
        z = make(list(k) if not cfg.get("shared") else k[0], "replicate").forward(x, axes=None)
        ctx.equal(y, ctx.elems(z), "default stride is the kernel size")
    else:
        mode = cfg.get("mode", "symmetric")
        f = make(ctx.choice("st", [None, 2]), ctx.choice("pre", [None, "replicate"]))
        g = f.to_filter(mode if cfg.get("str", True) else Padder(mode=mode))
        ctx.check(g is f, "converted in place")
        y = g.forward(x, axes=None)
        ctx.check(tuple(y.shape) == tuple(shape), "a filter keeps the size")
        h = make(1, mode)
        ctx.equal(y, ctx.elems(h.forward(x, axes=None)), "a filter is the layer with stride one", tol=TOL)
        pre = make(2, mode).to_filter()
        ctx.equal(pre.forward(x, axes=None), ctx.elems(y), "without a new padder the old one stays", tol=TOL)


def h_reuse(ctx, cfg):
    """history: earlier calls on other shapes and axes, shared padders"""
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    from torchimage.filtering import EdgeFilter, Sobel, UnsharpMask, Laplace
    from torchimage.padding import Padder
    kind = cfg["kind"]
    mode = cfg.get("mode", "symmetric")

    def fresh(padder=None):
        p = padder if padder is not None else Padder(mode=mode)
        if kind == "sep":
            return SeparablePoolNd([1.0, 2.0, -1.0], stride=2, same_padder=p)
        if kind == "sep_default":
            return SeparablePoolNd([1.0, 2.0], same_padder=p)
        if kind == "avg":
            return AvgPoolNd(3, stride=2, same_padder=p, count_include_pad=False)
        if kind == "gauss":
            return GaussianPoolNd(3, 1.0, stride=1, same_padder=p)
        if kind == "sobel":
            return Sobel(same_padder=p)
        if kind == "edge":
            return EdgeFilter([1.0, -1.0, 2.0, 0.5], [1.0, 2.0], same_padder=p)
        if kind == "laplace":
            return Laplace(same_padder=p)
        if kind == "unsharp":
            return UnsharpMask(GaussianPoolNd(3, 1.0), padder=p)
        if kind == "padder":
            return Padder(pad_width=(1, 2), mode=mode)

    def call(f, t, axes):
        if kind in ("sobel", "edge"):
            return f.component(t, axes[0], axes[1:])
        return f.forward(t, axes=tuple(axes))
    x = ctx.tensor("x", cfg["shape"], -4, 4)
    h = [ctx.tensor(f"h{i}", s, -4, 4) for i, s in enumerate(cfg["before"])]
    shared = Padder(mode=mode)
    f = fresh(shared if cfg.get("share") else None)
    if cfg.get("share"):
        other = AvgPoolNd(2, stride=2, same_padder=shared)
    n = len(h)
    steps = int(ctx.int("steps", 0, n))
    for i in range(steps):
        j = int(ctx.int(f"which{i}", 0, n - 1))
        if cfg.get("share"):
            other.forward(h[j], axes=None)
        call(f, h[j], cfg["haxes"][j])
    got = call(f, x, cfg["axes"])
    want = call(fresh(), x, cfg["axes"])
    ctx.equal(got, ctx.elems(want), "a used layer behaves like a fresh one")
    again = call(f, x, cfg["axes"])
    ctx.equal(again, ctx.elems(want), "the same call twice gives the same result")


HARNESS = {f.__name__: f for f in (h_pool, h_conv, h_avg, h_gauss, h_gauss_num, h_gauss_seq, h_gauss_bad, h_stride, h_reuse)}


def k01(tier):
    out = []
    for mode in (None,) + MODES:
        out.append(dict(h="h_pool", shape=[3, 4], axes=[0, 1], lens=[2, 3], stride=None, mode=mode, kinds="num", box=True))
        out.append(dict(h="h_pool", shape=[4, 3], axes=[1, 0], lens=2, stride=1, mode=mode, box=True,
                        kinds="num" if mode in ("maximum", "minimum", "median") else "sym"))
    for mode in (None, "replicate", "reflect", "constant", "symmetric", "circular"):
        out.append(dict(h="h_pool", shape=[5, 4], axes=[0, 1], lens=[3, 2], stride="sym", mode=mode, weight=4))
        out.append(dict(h="h_pool", shape=[5, 2], axes=0, lens=3, stride="sym", mode=mode, padder=True))
        out.append(dict(h="h_pool", shape=[2, 1, 4, 3], axes={"slice": [2, None]}, default_axes=True, lens=2, stride=1, mode=mode))
        out.append(dict(h="h_pool", shape=[2, 3, 3], axes=[2, 0], lens=[3, 2], stride=[1, 2], mode=mode, kinds="tensor"))
        out.append(dict(h="h_pool", shape=[3, 3], axes=[-1, -2], lens=[0, 3], stride=1, mode=mode))
        out.append(dict(h="h_pool", shape=[3, 3], axes=[0, 1], lens=[2, 0], stride=1, mode=mode))
        out.append(dict(h="h_pool", shape=[3, 2], axes=[0, 1], lens=1, stride="sym", mode=mode))
        out.append(dict(h="h_pool", shape=[3, 2], axes=[1, 0], lens=[1, 2], stride=1, mode=mode))
        out.append(dict(h="h_pool", shape=[2, 3], axes=[1, 0], lens=[2, 1], stride=[1, 1], mode=mode, kinds="tensor"))
        out.append(dict(h="h_pool", shape=[3, 3], axes=[0, 1], lens=[3, 3], stride=[2, 2], mode=mode, kinds="num"))
    out.append(dict(h="h_pool", shape=[3, 3], axes=[0, 1], lens=0, stride=1, mode="reflect"))
    out.append(dict(h="h_pool", shape=[6, 2], axes=[0, 0], lens=[2, 3], stride=1, mode=None))
    out.append(dict(h="h_pool", shape=[7], axes=None, lens=[4], stride="sym", mode="constant", cv=True))
    out.append(dict(h="h_pool", shape=[4, 3], axes=[0, 1], lens=[3, 2], stride=1, mode="constant", cv=True))
    for dt in ("f32", "f16", "bf16"):
        out.append(dict(h="h_pool", shape=[4, 3], axes=[0, 1], lens=[3, 2], stride=[2, 1], mode="reflect", dtype=dt, kinds="num", box=True))
    # long axes, long kernels, strides beyond the kernel
    for mode in (None, "reflect", "circular"):
        out.append(dict(h="h_pool", shape=[300], axes=[0], lens=3, stride=1, mode=mode, kinds="num"))
        out.append(dict(h="h_pool", shape=[210], axes=[0], lens=[3], stride=2, mode=mode))
        out.append(dict(h="h_pool", shape=[2, 150], axes=[1, 0], lens=[31, 2], stride=[7, 1], mode=mode, kinds="num"))
        out.append(dict(h="h_pool", shape=[90, 2], axes=[0], lens=[2], stride=[5], mode=mode))
        out.append(dict(h="h_pool", shape=[140], axes=[0], lens=[130], stride=[1] if mode else [3], mode=mode, kinds="num"))
        out.append(dict(h="h_pool", shape=[17, 13], axes=[0, 1], lens=[5, 4], stride=[2, 3], mode=mode, kinds="num"))
    # different padding along every axis
    for modes in (["reflect", "zeros"], ["constant", "circular"], ["periodize", "replicate"], ["linear_ramp", "odd_reflect"]):
        out.append(dict(h="h_pool", shape=[3, 4], axes=[0, 1], lens=[2, 3], stride=[1, 2], mode=modes, kinds="num", box=True))
        out.append(dict(h="h_pool", shape=[3, 4], axes=[1, 0], lens=3, stride=1, mode=modes, kinds="num", box=True))
    out.append(dict(h="h_pool", shape=[2, 2, 3], axes=[2, 0, 1], lens=[3, 2, 2], stride=1, mode=["zeros", "reflect", "symmetric"], kinds="num"))
    out.append(dict(h="h_pool", shape=[1, 1, 2, 2, 2, 2], axes=[5, 3, 1], lens=[2, 2, 1], stride=1, mode="replicate"))
    if tier == "thorough":
        for k in range(1, 7):
            for n in (1, 2, 3, 5, 8):
                out.append(dict(h="h_pool", shape=[n], axes=[0], lens=k, stride="sym", S=6, mode="symmetric"))
                out.append(dict(h="h_pool", shape=[n, 2], axes=[0], lens=k, stride="sym", S=6, mode=None))
        for mode in MODES:
            if mode == "maximum":
                continue
            out.append(dict(h="h_pool", shape=[3, 2, 3], axes=[2, 0, 1], lens=[2, 3, 2], stride="sym", S=2, mode=mode, kinds="num", box=True, weight=9))
    return out


def k02(tier):
    out = []
    for shape in ([5], [2, 5], [5, 2], [2, 4, 3], [2, 2, 5], [2, 2, 2, 3], [4, 4], [3, 3, 3], [2, 3, 3], [3, 2, 3], [1, 4], [4, 1]):
        for dim in range(-len(shape), len(shape)):
            for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                if k <= shape[dim]:
                    out.append(dict(h="h_conv", shape=shape, dim=dim, k=k, S=3, D=2 if tier == "quick" else 4))
    for shape, dim, k in (([180], 0, 3), ([2, 140], -1, 5), ([140, 2], 0, 5), ([2, 70, 2], 1, 4), ([80], 0, 66), ([17, 19], 0, 6)):
        out.append(dict(h="h_conv", shape=shape, dim=dim, k=k, S=2, D=2, weight=5))
    out.append(dict(h="h_conv", shape=[1, 2, 1, 2, 3, 2], dim=4, k=2, S=2, D=1))
    return out


def k03(tier):
    out = []
    for axes in ([0, 1], [1, 0], [-1, -2], None):
        out.append(dict(h="h_avg", shape=[4, 3], axes=axes, K=3, S=2, include=False, mode="constant", weight=4))
        out.append(dict(h="h_avg", shape=[4, 3], axes=axes, K=3, S=2, include=True, mode="constant", none=True, weight=4))
    for mode in ("constant", "zeros"):
        out.append(dict(h="h_avg", shape=[6, 2], axes=[0], K=5, S=4, include=False, mode=mode, none=True))
        out.append(dict(h="h_avg", shape=[2, 7], axes=1, K=4, S=3, include=False, mode=mode, none=True))
        out.append(dict(h="h_avg", shape=[3, 4], axes=[1, 0], K=4, S=3, include=False, mode=mode, shared=True))
    out.append(dict(h="h_avg", shape=[2, 3, 4], axes=[2, 1], K=2, S=2, include=False, mode="constant", none=True, weight=4))
    out.append(dict(h="h_avg", shape=[3, 2, 4], axes=[2, 0, 1], K=2, S=2, include=False, mode="constant", weight=8, shared=True))
    out.append(dict(h="h_avg", shape=[1, 2, 4, 3], axes={"slice": [2, None]}, K=3, S=2, include=False, mode="constant", shared=True))
    for incl in (True, False):
        out.append(dict(h="h_avg", shape=[4, 5], axes=[1, 0], K=3, S=3, include=incl, mode=None, none=True, weight=4))
    for mode in ("reflect", "replicate", "circular") + (("median",) if tier == "thorough" else ()):
        out.append(dict(h="h_avg", shape=[4, 3], axes=[0, 1], K=3, S=2, include=True, mode=mode, default=True, shared=True))
    for dt in ("f32", "f16", "bf16"):
        out.append(dict(h="h_avg", shape=[4, 3], axes=[1, 0], K=3 if dt == "f32" else 2, S=2, include=False, mode="constant", dtype=dt, shared=True))
        out.append(dict(h="h_avg", shape=[4, 3], axes=[1, 0], K=2, S=1, include=True, mode="reflect", dtype=dt, shared=True))
    for incl in (False, True):
        out.append(dict(h="h_avg", shape=[160], axes=[0], k0=[7], s0=[3], include=incl, mode="zeros"))
        out.append(dict(h="h_avg", shape=[150, 2], axes=[0, 1], k0=[12, 2], s0=[12, 1], include=incl, mode="constant"))
        out.append(dict(h="h_avg", shape=[14, 11], axes=[1, 0], k0=[5, 6], s0=[2, 7], include=incl, mode="zeros"))
        out.append(dict(h="h_avg", shape=[9], axes=[0], k0=[30], s0=[1], include=incl, mode="zeros"))
        out.append(dict(h="h_avg", shape=[2, 3, 2, 3, 2], axes=[4, 1, 3], k0=[2, 3, 2], s0=[1, 2, 2], include=incl, mode="zeros"))
    if tier == "thorough":
        for axes in ([0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]):
            out.append(dict(h="h_avg", shape=[3, 2, 4], axes=axes, K=2, S=2, include=False, mode="constant", weight=20))
        out.append(dict(h="h_avg", shape=[5, 4], axes=[1, 0], K=5, S=4, include=False, mode="constant", none=True, weight=30))
        for n in range(1, 11):
            out.append(dict(h="h_avg", shape=[n], axes=[0], K=8, S=8, include=False, mode="constant", none=True))
    return out


def k04(tier):
    out = []
    top = 7 if tier == "quick" else 9
    for n in range(1, top + 1):
        out.append(dict(h="h_gauss", n=n, order=0, range=[0.125, 64]))
    for n in (1, 2, 3, 4, 5, 6, 7):
        for o in (1, 2) if tier == "quick" else (1, 2, 3, 4):
            if tier == "thorough" or n <= 5:
                out.append(dict(h="h_gauss", n=n, order=o, range=[0.25, 8]))
    for n, o in ((5, 3), (4, 3), (5, 4), (7, 3), (7, 4), (5, 5), (6, 5), (7, 6), (9, 1), (9, 2), (12, 1), (11, 2)):
        out.append(dict(h="h_gauss", n=n, order=o, range=[0.25, 8], slow=1))
    for n in (9, 12, 15) if tier == "quick" else (10, 11, 12, 15, 21):
        out.append(dict(h="h_gauss", n=n, order=0, range=[0.5, 16]))
    out.append(dict(h="h_gauss_bad"))
    sets = [[5, 1.0, 0], [4, 1.0, 0], [5, 1.0, 1], [3, 1.0, 0], [5, 1.5, 0]]
    out.append(dict(h="h_gauss_seq", sets=sets, steps=3, n=4, weight=5))
    out.append(dict(h="h_gauss_seq", sets=sets, steps=2, n=3, spoil=True))
    if tier == "thorough":
        out.append(dict(h="h_gauss_seq", sets=sets, steps=4, n=3, weight=20))
    for ks, sg, od in ((3, 1.0, 0), (4, 1.5, 0), ([3, 5], [0.8, 2.0], [1, 0]), (5, 1.2, 2), ([2, 3], 0.7, [0, 2]), (3, 0.55, 2)):
        out.append(dict(h="h_gauss_num", shape=[3, 4], ks=ks, sigma=sg, order=od))
    out.append(dict(h="h_gauss_num", shape=[3, 2, 2], ks=[3, 1, 2], sigma=[1.0, 2.0, 0.5], order=[1, 0, 0], mode="symmetric"))
    return out


def k05(tier):
    out = [dict(h="h_stride", kind="invalid", nd=1), dict(h="h_stride", kind="invalid", nd=2)]
    for layer in ("sep", "avg", "gauss"):
        for kind in ("default", "filter"):
            out.append(dict(h="h_stride", kind=kind, layer=layer, nd=1, N=6, K=5 if tier == "quick" else 6))
            out.append(dict(h="h_stride", kind=kind, layer=layer, nd=2, N=2 if tier == "quick" else 3, K=3, weight=5))
            out.append(dict(h="h_stride", kind=kind, layer=layer, nd=2, N=2 if tier == "quick" else 3, K=4, shared=True, str=False))
    return out


def k06(tier):
    out = []
    bef3 = [[5, 4], [2, 6], [3, 3, 2]]
    hax3 = [[0, 1], [1, 0], [2, 0]]
    for kind in ("sep", "sep_default", "avg", "gauss", "sobel", "edge", "laplace", "unsharp", "padder"):
        m = "constant" if kind == "avg" else "symmetric"
        bef, hax = (bef3[1:], hax3[1:]) if tier == "quick" else (bef3, hax3)
        out.append(dict(h="h_reuse", kind=kind, shape=[4, 3], axes=[0, 1], before=bef, haxes=hax, mode=m))
        out.append(dict(h="h_reuse", kind=kind, shape=[2, 4, 3], axes=[2, 1], before=bef, haxes=hax, mode=m))
        if kind not in ("padder",):
            out.append(dict(h="h_reuse", kind=kind, shape=[4, 3], axes=[1, 0], before=bef, haxes=hax, share=True, mode=m))
    for kind in ("sep", "avg", "gauss"):
        out.append(dict(h="h_reuse", kind=kind, shape=[5], axes=[0], before=[[4, 3], [6]], haxes=[[0, 1], [0]], mode="constant"))
    if tier == "thorough":
        for kind in ("sep", "sobel", "gauss", "laplace", "edge"):
            for m in MODES:
                if m == "periodize" and kind == "laplace":      # odd sides grow, components differ in shape
                    continue
                out.append(dict(h="h_reuse", kind=kind, shape=[4, 3], axes=[1, 0], before=bef, haxes=hax, share=True, mode=m))
    return out


PROPS = {"K01": k01, "K02": k02, "K03": k03, "K04": k04, "K05": k05, "K06": k06}
META = {
    "K01": dict(bounds="tensors of up to 4 dimensions with axes of length 1..7, kernels of 0..4 (thorough ..6) symbolic weights in [-4,4], strides 1..3 (..6), "
                       "all 16 padding modes" + "; long axes: to 180 samples, six axes",
                outside="longer kernels and tensors"),
    "K02": dict(bounds="tensors of up to 4 dimensions with axes of length up to 5, kernels of 1..3 (thorough ..4), strides 1..3, dilations 1..2 (..4)" + "; long axes: to 180 samples, six axes",
                outside="larger"),
    "K03": dict(bounds="tensors of up to 4 dimensions with axes of length up to 7 (thorough 10), kernel sizes 1..5 (..8), strides default and 1..4 (..8), "
                       "elements in [-8,8]; excluding padding is claimed for zero padding" + "; long axes: to 160 samples, five axes, three narrower element types",
                outside="larger"),
    "K04": dict(bounds="sigma symbolic in [0.25, 8], kernel sizes 1..7 (thorough ..9), derivative orders 0..3 (..4); exp is an "
                       "uninterpreted positive strictly increasing function" + "; long axes: sigma in [0.125,64] and up to 15 taps",
                outside="sigma outside the range"),
    "K05": dict(bounds="one axis of length 1..6 with kernels 1..5, two axes of length 1..2 (thorough ..3) with kernels 1..4", outside="larger"),
    "K06": dict(bounds="up to two (thorough three) earlier calls chosen among two (three) shapes, nine kinds of layer", outside="longer histories"),
}
