import itertools
import math
from fractions import Fraction
import numpy as np
import torch
from symx import terms as tm
from . import spec
from .spec import emap, mean_over, sum_over, corr_axis, same_width, along, pad1
from .pooling import _axes_arg, _norm_axes
from .filtering import pad_along

IMPORTS = ("torchimage.metrics", "torchimage.metrics.ssim", "torchimage.metrics.base", "torchimage.metrics.mse", "torchimage.metrics.psnr",
           "torchimage.contrib.edge_loss", "torchimage.filtering", "torchimage.pooling", "torchimage.padding")


def two(ctx, shape, lo=None, hi=None, dtype=torch.float64):
    return ctx.tensor("p", shape, lo, hi, dtype=dtype), ctx.tensor("t", shape, lo, hi, dtype=dtype)


def arrs(ctx):
    return ctx.inputs["p"][1], ctx.inputs["t"][1]


def mred(a, axes):
    return mean_over(a, axes) if len(axes) else a


def h_mse(ctx, cfg):
    from torchimage.metrics import MSE
    shape = tuple(cfg["shape"])
    p, t = two(ctx, shape, dtype=torch.float32 if cfg.get("f32") else torch.float64)
    P, Q = arrs(ctx)
    axes = _norm_axes(cfg["axes"], len(shape))
    f = MSE(reduction=cfg["red"]) if cfg["red"] != "default" else MSE()
    sq = emap(lambda a, b: tm.mul(tm.sub(a, b), tm.sub(a, b)), P, Q)
    want = {"mean": lambda: mred(sq, axes), "default": lambda: mred(sq, axes), "none": lambda: sq,
            "sum": lambda: sum_over(sq, axes) if axes else sq}[cfg["red"]]()
    kw = {} if cfg.get("noaxes") else {"reduce_axes": _axes_arg(cfg["axes"])}
    y = f.forward(p, t, **kw)
    tol = 1e-9 if cfg.get("f32") else None
    ctx.equal(y, want, "mean squared error")
    ctx.equal(f.forward(t, p, **kw), want, "symmetric")
    ctx.equal(f.forward(p, p, **kw), np.full(want.shape, 0, dtype=object), "zero for equal images")
    if P.size <= 20:           # beyond, these follow from the definition just established
        ctx.within(y, 0, None, "non-negative")
        tot = tm.sum_terms(list(ctx.elems(y).reshape(-1)))
        same = tm.and_(*[tm.eq(a, b) for a, b in zip(P.reshape(-1), Q.reshape(-1))])
        if ctx.symbolic:
            ctx.check(tm.or_(tm.not_(tm.eq(tot, 0)), same), "zero only for equal images")
        else:
            ctx.check(not (tot == 0) or bool(same) or max(abs(a - b) for a, b in zip(P.reshape(-1), Q.reshape(-1))) < 1e-150,
                      "zero only for equal images")
    ctx.unchanged(p, "p", "prediction unchanged")
    ctx.unchanged(t, "t", "truth unchanged")


def h_mse_bad(ctx, cfg):
    from torchimage.metrics import MSE, PSNR, SSIM
    a, b = ctx.tensor("a", (2, 3)), ctx.tensor("b", (2, 2))
    cls = ctx.choice("cls", [MSE, PSNR, SSIM])
    ctx.raises(AssertionError, lambda: cls().forward(a, b), "images of different shapes")
    red = ctx.choice("red", ["max", "", None])
    ctx.raises(ValueError, lambda: MSE(reduction=red).forward(a, a), "unknown reduction")


def h_psnr(ctx, cfg):
    from torchimage.metrics import PSNR
    shape = tuple(cfg["shape"])
    p, t = two(ctx, shape, -cfg.get("box", 2), cfg.get("box", 2))
    P, Q = arrs(ctx)
    axes = _norm_axes(cfg["axes"], len(shape))
    mx = ctx.real("max", Fraction(1, 4), 256) if cfg.get("max") == "sym" else cfg.get("max", 1)
    ep = ctx.real("eps", 0, 1) if cfg.get("eps") == "sym" else cfg.get("eps", 0.0)
    kw = {}
    if "max" in cfg:
        kw["max_value"] = mx
    if "eps" in cfg:
        kw["eps"] = ep
    red = cfg.get("red", "mean")
    f = PSNR(reduction=red, **kw) if red != "mean" else PSNR(**kw)
    sq = emap(lambda a, b: tm.mul(tm.sub(a, b), tm.sub(a, b)), P, Q)
    m = {"mean": lambda: mred(sq, axes), "none": lambda: sq, "sum": lambda: sum_over(sq, axes) if axes else sq}[red]()
    E = ctx.term(ep)
    for v in m.reshape(-1):
        ctx.assume(tm.lt(Fraction(1, 10 ** 6), tm.add(v, E)))
    lg = lambda v: tm.div(tm.log(v), tm.log(10))
    want = emap(lambda v: tm.sub(tm.mul(20, lg(ctx.term(mx))), tm.mul(10, lg(tm.add(v, E)))), m)
    ra = {} if cfg.get("noaxes") else {"reduce_axes": _axes_arg(cfg["axes"])}
    y = f.forward(p, t, **ra)
    ctx.equal(y, want, "peak signal-to-noise ratio", tol=1e-6)
    ctx.equal(f.forward(t, p, **ra), ctx.elems(y), "symmetric")
    ctx.unchanged(p, "p", "prediction unchanged")


def make_blur(cfg, m):
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd
    w = cfg["win"]
    if isinstance(w, int):
        return AvgPoolNd(w), [[Fraction(1, w)] * w] * m
    if isinstance(w[0], list):
        return SeparablePoolNd(w), [[tm.norm(v) for v in k] for k in w]
    return SeparablePoolNd(w), [[tm.norm(v) for v in w]] * m


def filt(a, axes, ks, mode):
    for ax, k in zip(axes, ks):
        a = pad_along(a, ax, k, mode)
    for ax, k in zip(axes, ks):
        a = corr_axis(a, ax, k)
    return a


def moments(X, Y, axes, ks, mode, sample):
    F = lambda a: filt(a, axes, ks, mode)
    M = lambda a, b: emap(tm.mul, a, b)
    m1, m2 = F(X), F(Y)
    n = 1
    for k in ks:
        n *= len(k)
    f = tm.norm(n / (n - 1)) if sample else 1
    cov = lambda a, b, ma, mb: emap(lambda e, u, v: tm.mul(f, tm.sub(e, tm.mul(u, v))), F(M(a, b)), ma, mb)
    return m1, m2, cov(X, X, m1, m1), cov(Y, Y, m2, m2), cov(X, Y, m1, m2)


def ssim_ref(X, Y, axes, ks, mode, sample, c1, c2, part="ssim"):
    m1, m2, v1, v2, v12 = moments(X, Y, axes, ks, mode, sample)

    def cs(a, b, c):
        return tm.add(tm.mul(2, c), c2), tm.add(tm.add(a, b), c2)

    def both(u, v, a, b, c):
        n, d = cs(a, b, c)
        ln, ld = tm.add(tm.mul(2, tm.mul(u, v)), c1), tm.add(tm.add(tm.mul(u, u), tm.mul(v, v)), c1)
        return tm.div(tm.mul(ln, n), tm.mul(ld, d))
    return emap(lambda *k: tm.div(*cs(*k)), v1, v2, v12) if part == "cs" else emap(both, m1, m2, v1, v2, v12)


def crop(a, axes, ks, mode, on):
    if mode is None or not on:
        return a
    idx = [slice(None)] * a.ndim
    for ax, k in zip(axes, ks):
        b, c = same_width(len(k))
        idx[ax] = slice(b, a.shape[ax] - c)
    return a[tuple(idx)]


def consts(ctx, cfg):
    if cfg.get("K") == "sym":
        k1, k2 = ctx.real("K1", Fraction(1, 64), 1), ctx.real("K2", Fraction(1, 64), 1)
        kw = dict(K1=k1, K2=k2)
        c1, c2 = (tm.mul(ctx.term(k), ctx.term(k)) for k in (k1, k2))
    elif cfg.get("K"):
        kw = dict(K1=cfg["K"][0], K2=cfg["K"][1])
        c1, c2 = tm.norm(cfg["K"][0] ** 2), tm.norm(cfg["K"][1] ** 2)
    else:
        kw, c1, c2 = {}, tm.norm(0.01 ** 2), tm.norm(0.03 ** 2)
    return kw, c1, c2


def h_ssim(ctx, cfg):
    from torchimage.metrics import SSIM
    from torchimage.padding import Padder
    shape = tuple(cfg["shape"])
    nd = len(shape)
    p, t = two(ctx, shape, -cfg.get("box", 2), cfg.get("box", 2))
    P, Q = arrs(ctx)
    ca = cfg.get("content", {"slice": [2, None]})
    ra = cfg.get("reduce", {"slice": [1, None]})
    cax, rax = _norm_axes(ca, nd), _norm_axes(ra, nd)
    mode = cfg.get("mode")
    blur, ks = make_blur(cfg, len(cax))
    kw, c1, c2 = consts(ctx, cfg)
    sample = cfg.get("sample")
    cr = cfg.get("crop")
    if sample is not None:
        kw["use_sample_covariance"] = sample
    if cr is not None:
        kw["crop_border"] = cr
    sample, cr = sample is not False, cr is not False
    f = SSIM(blur=blur, padder=Padder(mode=mode) if cfg.get("padder") and mode else mode, **kw)
    if cfg.get("history"):
        h = ctx.tensor("h", cfg["history"], -2, 2)
        f.forward(h, h, _axes_arg(cfg.get("hcontent", ca)), None)
    call = {}
    if "content" in cfg:
        call["content_axes"] = _axes_arg(ca)
    if "reduce" in cfg:
        call["reduce_axes"] = _axes_arg(ra)
    full = ssim_ref(P, Q, cax, ks, mode, sample, c1, c2)
    want = mred(crop(full, cax, ks, mode, cr), rax)
    s, g = f.forward(p, t, full=True, **call)
    tol = cfg.get("tol")
    ctx.equal(g, full, "similarity map", tol=tol)
    ctx.equal(s, want, "similarity score", tol=tol)
    ctx.equal(f.forward(p, t, **call), want, "score without the map", tol=tol)
    ctx.unchanged(p, "p", "prediction unchanged")
    ctx.unchanged(t, "t", "truth unchanged")


def h_ssim_sym(ctx, cfg):
    from torchimage.metrics import SSIM, MS_SSIM
    shape = tuple(cfg["shape"])
    p, t = two(ctx, shape, -cfg.get("box", 2), cfg.get("box", 2))
    blur, ks = make_blur(cfg, 1)
    kw, c1, c2 = consts(ctx, cfg)
    for k in ("use_sample_covariance", "crop_border", "use_prod", "weights"):
        if k in cfg:
            kw[k] = cfg[k]
    mode = cfg.get("mode")
    f = (MS_SSIM if cfg["ms"] else SSIM)(blur=blur, padder=mode, **kw)
    ra = {"reduce_axes": _axes_arg(cfg["reduce"])} if "reduce" in cfg else {}
    if cfg["what"] == "swap":
        if cfg["ms"]:
            ctx.equal(f.forward(p, t, **ra), ctx.elems(f.forward(t, p, **ra)), "swapping the images")
        else:
            a, g = f.forward(p, t, full=True, **ra)
            b, h = f.forward(t, p, full=True, **ra)
            ctx.equal(a, ctx.elems(b), "swapping the images")
            ctx.equal(g, ctx.elems(h), "swapping the images (map)")
    else:
        q = p if cfg["what"] == "same" else p.clone()
        if cfg["ms"]:
            y = f.forward(p, q, **ra)
            if ctx.symbolic:
                X, n = ctx.inputs["p"][1], len(cfg["weights"])
                cax = tuple(range(2, len(shape)))
                for i in range(n):
                    m = ssim_ref(X, X, cax, ks, mode, cfg.get("use_sample_covariance", True), c1, c2, "ssim" if i == n - 1 else "cs")
                    ctx.equal(m, np.full(m.shape, 1, dtype=object), "lemma: similarity of equal images in the definition", use=True)
                    X = corr_axis(X, 2, [Fraction(1, 2)] * 2, 2)
        else:
            y, g = f.forward(p, q, full=True, **ra)
            ctx.equal(g, np.full(tuple(g.shape), 1, dtype=object), "an image is everywhere similar to itself", use=ctx.symbolic,
                      tol=None if ctx.symbolic else 1e-9)
        ctx.equal(y, np.full(tuple(y.shape), tm.norm(cfg.get("one", 1)), dtype=object), "an image compared with itself", tol=1e-9)


def h_ssim_named(ctx, cfg):
    """the built-in windows are the documented layers; MS default weights are the published ones"""
    from torchimage.metrics import SSIM, MS_SSIM
    from torchimage.pooling import GaussianPoolNd, AvgPoolNd
    shape = tuple(cfg["shape"])
    p, t = two(ctx, shape, -cfg.get("box", 2), cfg.get("box", 2))
    b = GaussianPoolNd(kernel_size=11, sigma=1.5) if cfg["blur"] in ("gaussian", None) else AvgPoolNd(kernel_size=11)
    kw = {} if cfg["blur"] is None else {"blur": cfg["blur"]}
    cls = MS_SSIM if cfg.get("ms") else SSIM
    f = cls(padder=cfg["mode"], crop_border=False, **kw)
    kw2 = dict(weights=(0.0448, 0.2856, 0.3001, 0.2363, 0.1333), use_prod=True, eps=1e-8) if cfg.get("ms") else {}
    g = cls(blur=b, padder=cfg["mode"], crop_border=False, K1=0.01, K2=0.03, use_sample_covariance=True, **kw2)
    ctx.equal(f.forward(p, t), ctx.elems(g.forward(p, t)), "named window and documented defaults")


def ms_ref(P, Q, cax, rax, ks, mode, sample, cr, c1, c2, W, prod, eps):
    tot = None
    for i, w in enumerate(W):
        last = i == len(W) - 1
        m = ssim_ref(P, Q, cax, ks, mode, sample, c1, c2, "ssim" if last else "cs")
        m = crop(m, cax, ks, mode, cr)
        s = mean_over(m, cax)
        for ax in sorted(cax):
            s = np.expand_dims(s, ax)
        w = w if tm.is_t(w) else tm.norm(w)
        s = emap(lambda v: tm.power(tm.maxv(v, tm.norm(eps)), w), s) if prod else emap(lambda v: tm.mul(v, w), s)
        tot = s if tot is None else emap(tm.mul if prod else tm.add, tot, s)
        if not last:
            for ax in cax:
                P = corr_axis(P, ax, [Fraction(1, 2)] * 2, 2)
                Q = corr_axis(Q, ax, [Fraction(1, 2)] * 2, 2)
    return mred(tot, rax)


def h_ms(ctx, cfg):
    from torchimage.metrics import MS_SSIM
    shape = tuple(cfg["shape"])
    nd = len(shape)
    p, t = two(ctx, shape, -cfg.get("box", 2), cfg.get("box", 2))
    P, Q = arrs(ctx)
    ca = cfg.get("content", {"slice": [2, None]})
    ra = cfg.get("reduce", {"slice": [1, None]})
    cax, rax = _norm_axes(ca, nd), _norm_axes(ra, nd)
    mode = cfg.get("mode")
    blur, ks = make_blur(cfg, len(cax))
    kw, c1, c2 = consts(ctx, cfg)
    W = cfg["W"]
    if W == "sym":
        W = [ctx.real(f"w{i}", 0, 2) for i in range(cfg["L"])]
    prod = cfg["prod"]
    if not prod:
        kw["use_prod"] = False
    elif cfg.get("pass_prod"):
        kw["use_prod"] = True
    eps = cfg.get("eps", 1e-8)
    if "eps" in cfg:
        kw["eps"] = eps
    sample, cr = cfg.get("sample", True), cfg.get("crop", True)
    f = MS_SSIM(weights=W if not cfg.get("tup") else tuple(W), blur=blur, padder=mode, use_sample_covariance=sample, crop_border=cr, **kw)
    call = {}
    if "content" in cfg:
        call["content_axes"] = _axes_arg(ca)
    if "reduce" in cfg:
        call["reduce_axes"] = _axes_arg(ra)
    y = f.forward(p, t, **call)
    want = ms_ref(P, Q, cax, rax, ks, mode, sample, cr, c1, c2, [ctx.term(w) for w in W], prod, eps)
    ctx.equal(y, want, "multi-scale similarity")
    ctx.unchanged(p, "p", "prediction unchanged")
    ctx.unchanged(t, "t", "truth unchanged")


def h_ms_size(ctx, cfg):
    from torchimage.metrics import MS_SSIM
    from torchimage.pooling import AvgPoolNd
    L = cfg["L"]
    k = [int(ctx.int("k0", 2, 3)), int(ctx.int("k1", 2, 3))]
    n = [int(ctx.int("n0", 1, cfg["N"])), int(ctx.int("n1", max(1, cfg["N"] - 2), cfg["N"]))]
    x = torch.zeros((1, 1) + tuple(n), dtype=torch.float64) + 0.5
    f = MS_SSIM(weights=[1.0] * L, blur=AvgPoolNd(k), padder="replicate", use_prod=False)
    if all(a > b * 2 ** (L - 1) for a, b in zip(n, k)):
        ctx.equal(f.forward(x, x), np.full((1,), L, dtype=object), "large enough images are accepted", tol=1e-6)
    else:
        ctx.raises(AssertionError, lambda: f.forward(x, x), "too small images")


def h_loss(ctx, cfg):
    from torchimage.contrib import edge_loss as el
    from torchimage.filtering import GaussianGrad
    shape = tuple(cfg["shape"])
    p, t = two(ctx, shape, -cfg.get("box", 2), cfg.get("box", 2))
    kind = cfg["kind"]
    f = getattr(el, kind)(kernel_size=cfg["ks"], sigma=cfg["sigma"], order=cfg["order"])
    g = GaussianGrad(kernel_size=cfg["ks"], sigma=cfg["sigma"], edge_order=cfg["order"], same_padder="reflect")
    ep = [ctx.elems(g.component(p, a, o)) for a, o in ((2, 3), (3, 2))]
    et = [ctx.elems(g.component(t, a, o)) for a, o in ((2, 3), (3, 2))]
    if cfg["what"] == "same":
        q = p.clone() if cfg.get("clone") else p
        if kind == "WeightedDiv":
            for a in ep:
                for v in a.reshape(-1):
                    ctx.assume(tm.lt(Fraction(1, 64), tm.absv(v)))
        y = f.forward(p, q)
        return ctx.equal(y, spec.vec([0]).reshape(()), "equal images", tol=1e-12)
    n = sum(a.size for a in ep)
    pairs = [(u, v) for a, b in zip(ep, et) for u, v in zip(a.reshape(-1), b.reshape(-1))]
    if kind == "GaussianEdgeLoss":
        want = tm.div(tm.sum_terms([tm.absv(tm.sub(u, v)) for u, v in pairs]), n)
    elif kind == "WeightedMul":
        want = tm.div(tm.sum_terms([tm.mul(tm.absv(tm.sub(v, u)), v) for u, v in pairs]), n)
    elif kind == "WeightedDiv":
        for u, v in pairs:
            ctx.assume(tm.lt(Fraction(1, 64), tm.absv(v)))
        want = tm.div(tm.sum_terms([tm.div(tm.absv(tm.sub(v, u)), v) for u, v in pairs]), n)
    else:
        A = lambda a: mean_over(emap(tm.absv, a), (2, 3))
        d = [tm.absv(tm.sub(u, v)) for a, b in zip(ep, et) for u, v in zip(A(b).reshape(-1), A(a).reshape(-1))]
        want = tm.div(tm.sum_terms(d), len(d))
    y = f.forward(y_pred=p, y_true=t) if cfg.get("kw") else f.forward(p, t)
    ctx.equal(y, spec.vec([want]).reshape(()), kind, tol=1e-9)
    ctx.unchanged(p, "p", "prediction unchanged")
    ctx.unchanged(t, "t", "truth unchanged")


def h_err_rank(ctx, cfg):
    """squared error and PSNR as measures of distance"""
    from torchimage.metrics import MSE, PSNR
    shape = tuple(cfg["shape"])
    p, t = two(ctx, shape, -cfg.get("box", 2), cfg.get("box", 2))
    q = ctx.tensor("q", shape, -2, 2)
    P, Q = arrs(ctx)
    R = ctx.inputs["q"][1]
    kw = {"reduce_axes": _axes_arg(cfg["axes"])}
    mse = MSE(reduction=cfg.get("red", "mean"))
    a, b = mse.forward(p, t, **kw), mse.forward(q, t, **kw)
    A, B = ctx.elems(a).reshape(-1), ctx.elems(b).reshape(-1)
    ctx.within(a, 0, None, "non-negative error")
    c = cfg.get("scale", 3.0)
    ctx.equal(mse.forward(c * p, c * t, **kw), emap(lambda v: tm.mul(tm.norm(c * c), v), ctx.elems(a)), "error of scaled images")
    ctx.equal(mse.forward(p + c, t + c, **kw), ctx.elems(a), "error of shifted images", tol=None if ctx.symbolic else 1e-9)
    ep, top = cfg.get("eps", 0.25), cfg.get("max", 2)
    f = PSNR(max_value=top, eps=ep, reduction=cfg.get("red", "mean"))
    if not ep:
        for v in list(A) + list(B):
            ctx.assume(tm.lt(Fraction(1, 10 ** 6), v))
    x, y = f.forward(p, t, **kw), f.forward(q, t, **kw)
    X, Y = ctx.elems(x).reshape(-1), ctx.elems(y).reshape(-1)
    for u, v, m, n in zip(X, Y, A, B):
        if ctx.symbolic:
            ctx.check(tm.or_(tm.not_(tm.lt(m, n)), tm.lt(v, u)), "a smaller error has a larger ratio")
        else:
            ctx.check(not m < n - 1e-9 or v < u, "a smaller error has a larger ratio")
    if ep:
        best = ctx.elems(f.forward(p, p, **kw)).reshape(-1)
        ceil = 20 * math.log10(top) - 10 * math.log10(ep)
        ctx.equal(best, np.full(best.shape, tm.norm(ceil), dtype=object), "ratio of identical images", tol=1e-6)
    else:
        g = PSNR(max_value=top * c, reduction=cfg.get("red", "mean"))
        ctx.equal(g.forward(c * p, c * t, **kw), ctx.elems(x), "ratio of images in other units", tol=1e-6)


def h_sim_range(ctx, cfg):
    """similarity lies in [-1, 1] and is one only where the two windows agree"""
    from torchimage.metrics import SSIM, MS_SSIM
    shape = tuple(cfg["shape"])
    p, t = two(ctx, shape, -cfg.get("box", 2), cfg.get("box", 2))
    P, Q = arrs(ctx)
    cax = tuple(range(2, len(shape)))
    blur, ks = make_blur(cfg, len(cax))
    kw, c1, c2 = consts(ctx, cfg)
    mode, sample = cfg.get("mode"), cfg.get("sample", True)
    kw["use_sample_covariance"] = sample
    what = "similarity"
    slack = Fraction(1, 10 ** 9)
    fine = lambda v, lo=-1: tm.and_(tm.le(tm.norm(lo - slack), v), tm.le(v, 1 + slack))

    def lemmas(P, Q, part):
        m1, m2, v1, v2, v12 = moments(P, Q, cax, ks, mode, sample)
        for i in np.ndindex(m1.shape):
            n, d = tm.add(tm.mul(2, v12[i]), c2), tm.add(tm.add(v1[i], v2[i]), c2)
            ln, ld = tm.add(tm.mul(2, tm.mul(m1[i], m2[i])), c1), tm.add(tm.add(tm.mul(m1[i], m1[i]), tm.mul(m2[i], m2[i])), c1)
            for u, v in ((n, d), (ln, ld))[: 2 if part == "ssim" else 1]:
                ctx.check(tm.lt(0, v), "lemma: positive denominator")
                ctx.check(tm.and_(tm.le(u, v), tm.le(tm.neg(v), u)), "lemma: numerator at most the denominator")

    if not cfg.get("ms"):
        f = SSIM(blur=blur, padder=mode, crop_border=cfg.get("crop", True), **kw)
        score, full = f.forward(p, t, full=True)
        ref = ssim_ref(P, Q, cax, ks, mode, sample, c1, c2)
        if ctx.symbolic and ctx.matches(full, ref):
            lemmas(P, Q, "ssim")
            a, b, c, d = [ctx.term(ctx.real(f"l{i}", -100, 100)) for i in range(4)]
            hyp = tm.and_(tm.lt(0, b), tm.lt(0, d), tm.le(tm.absv(a), b), tm.le(tm.absv(c), d))
            n, m = tm.mul(a, c), tm.mul(b, d)
            ctx.check(tm.or_(tm.not_(hyp), tm.and_(tm.le(n, m), tm.le(tm.neg(m), n))), "lemma: a product of such fractions is one")
        else:
            ctx.within(full, -1 - slack, 1 + slack, "similarity map")
        G = ctx.elems(full)
        want = mred(crop(G, cax, ks, mode, cfg.get("crop", True)), tuple(range(1, len(shape))))
        if ctx.symbolic and ctx.matches(score, want):
            k = G[0].size
            vs = [ctx.term(ctx.real(f"s{i}", -1, 1)) for i in range(k)]
            ctx.check(fine(tm.div(tm.sum_terms(vs), k)), "lemma: mean of such values")
        else:
            ctx.within(score, -1 - slack, 1 + slack, "similarity score")
        return
    W, prod, eps = cfg["W"], cfg["prod"], 1e-8
    if W == "sym":
        W = [ctx.real(f"w{i}", 0, 2) for i in range(2)]
    f = MS_SSIM(weights=W, use_prod=prod, blur=blur, padder=mode, crop_border=cfg.get("crop", True), **kw)
    y = f.forward(p, t)
    wt = [ctx.term(w) for w in W]
    top = 1 if prod else tm.sum_terms(wt)
    want = ms_ref(P, Q, cax, tuple(range(1, len(shape))), ks, mode, sample, cfg.get("crop", True), c1, c2, wt, prod, eps)
    if ctx.symbolic and ctx.matches(y, want):
        A, B = P, Q
        for i in range(len(W)):
            lemmas(A, B, "ssim" if i == len(W) - 1 else "cs")
            for ax in cax:
                A, B = corr_axis(A, ax, [Fraction(1, 2)] * 2, 2), corr_axis(B, ax, [Fraction(1, 2)] * 2, 2)
        s = [ctx.term(ctx.real(f"s{i}", -1, 1)) for i in range(len(W))]
        if prod:
            fs = [tm.power(tm.maxv(v, tm.norm(eps)), w) for v, w in zip(s, wt)]
            for v in fs:
                ctx.check(tm.and_(tm.lt(0, v), tm.le(v, 1)), "lemma: a power of a scale's similarity")
            u = [ctx.term(ctx.real(f"u{i}", 0, 1)) for i in range(len(W))]
            tot = u[0]
            for v in u[1:]:
                tot = tm.mul(tot, v)
            ctx.check(fine(tot, 0), "lemma: product of such powers")
        else:
            tot = tm.sum_terms([tm.mul(v, w) for v, w in zip(s, wt)])
            ctx.check(tm.and_(tm.le(tot, tm.add(top, slack)), tm.le(tm.sub(tm.neg(top), slack), tot)), "lemma: weighted sum")
    elif not tm.is_t(top):
        ctx.within(y, (0 if prod else -top) - slack, top + slack, "multi-scale score")
    else:
        for v in ctx.elems(y).reshape(-1):
            ctx.check(tm.and_(tm.le(v, tm.add(top, slack)), tm.le(tm.sub(tm.neg(top), slack), v)), "multi-scale score")


HARNESS = {f.__name__: f for f in (h_mse, h_mse_bad, h_psnr, h_ssim, h_ssim_sym, h_ssim_named, h_ms, h_ms_size, h_loss, h_err_rank, h_sim_range)}
HALF, TRI, ASYM = [0.5, 0.5], [0.25, 0.5, 0.25], [0.25, 0.75]


def m01(tier):
    out = []
    for red in ("mean", "sum", "none", "default"):
        for shape, axes in (([3, 2], None), ([2, 3], 1), ([2, 3], 0), ([2, 3], [-1]), ([2, 2, 2], {"slice": [1, None]}),
                            ([2, 2, 2], [2, 0]), ([2, 2], []), ([2, 2], {"slice": [2, None]}), ([4], None), ([1, 2, 2, 2], [1, 2, 3])):
            out.append(dict(h="h_mse", shape=shape, axes=axes, red=red))
    out.append(dict(h="h_mse", shape=[2, 2], axes=None, red="default", noaxes=True))
    out.append(dict(h="h_mse", shape=[2, 2], axes=0, red="mean", f32=True))
    out.append(dict(h="h_mse_bad"))
    for shape, axes in (([2, 2], None), ([2, 2], 1), ([2, 1, 2], {"slice": [1, None]}), ([2], [])):
        for kw in ({}, {"max": 255}, {"max": "sym"}, {"eps": "sym"}, {"max": "sym", "eps": 0.25}, {"red": "sum"}, {"red": "none", "eps": 0.5}):
            out.append(dict(h="h_psnr", shape=shape, axes=axes, **kw))
    out.append(dict(h="h_psnr", shape=[2, 2], axes=None, noaxes=True))
    for red in ("mean", "sum", "none"):
        for shape, axes in (([3, 50], None), ([50, 3], [0]), ([300], None), ([1, 2, 1, 2, 2], [4, 1]), ([2, 1, 1, 2, 1, 2], {"slice": [2, None]}), ([9, 1, 2], {"slice": [1, None]})):
            out.append(dict(h="h_mse", shape=shape, axes=axes, red=red))
        for shape, axes in (([2, 20], [1]), ([12, 2], None), ([1, 2, 1, 2, 2], [4, 1])):
            out.append(dict(h="h_psnr", shape=shape, axes=axes, red=red, max=255, box=300))
            out.append(dict(h="h_psnr", shape=shape, axes=axes, red=red, max=0.5, eps=0.25))
    out.append(dict(h="h_psnr", shape=[2, 2], axes=None, max=1000, box=1000))
    out.append(dict(h="h_psnr", shape=[2, 2], axes=1, max=0.125, eps=0.0))
    if tier == "thorough":
        for red in ("mean", "sum", "none"):
            for r in (1, 2, 3):
                for ax in itertools.permutations(range(3), r):
                    out.append(dict(h="h_mse", shape=[2, 3, 2], axes=list(ax), red=red))
                    out.append(dict(h="h_psnr", shape=[2, 1, 2], axes=list(ax), red=red, max="sym", eps="sym"))
    return out


def m02(tier):
    out = []
    S = lambda **k: out.append(dict(h="h_ssim", **k))
    for mode in ("reflect", "replicate", "symmetric", "constant", None):
        for sample in (None, False):
            for cr in (None, False):
                S(shape=[1, 1, 3], win=HALF, mode=mode, sample=sample, crop=cr, K="sym")
                S(shape=[1, 1, 4], win=TRI, mode=mode, sample=sample, crop=cr)
        S(shape=[1, 1, 3, 2], win=HALF, mode=mode, K=[0.25, 0.5])
        S(shape=[1, 1, 3, 2], win=2, mode=mode, K=[0.25, 0.5], padder=True)
        S(shape=[1, 1, 4, 3], win=[TRI, HALF], mode=mode, sample=False)
        S(shape=[2, 2, 3], win=ASYM, mode=mode)
        S(shape=[2, 2, 3], win=ASYM, mode=mode, reduce=None)
        S(shape=[2, 2, 3], win=ASYM, mode=mode, reduce=[2, 1], K="sym")
        S(shape=[3, 2, 3], win=[HALF, TRI], mode=mode, content=[0, 2], reduce=None)
        S(shape=[3, 2, 3], win=[HALF, TRI], mode=mode, content=[2, 0], reduce=[0, 2], K=[0.125, 0.25])
        S(shape=[4, 2], win=TRI, mode=mode, content=0, reduce=0)
        S(shape=[2, 3], win=HALF, mode=mode, content=[-1], reduce=[])
    for mode in ("reflect", None):
        S(shape=[1, 1, 16], win=5, mode=mode, sample=True)
        S(shape=[1, 1, 24], win=HALF, mode=mode, sample=False)
        S(shape=[1, 1, 14], win=[v / 64 for v in (1, 2, 4, 8, 16, 2, 16, 8, 4, 2, 1)], mode=mode)
        S(shape=[1, 1, 6, 7], win=HALF, mode=mode)
        S(shape=[1, 1, 3, 8], win=[TRI, HALF], mode=mode, crop=False)
        S(shape=[1, 1, 3], win=HALF, mode=mode, box=300)
        S(shape=[1, 1, 5], win=TRI, mode=mode, box=300, K="sym")
        S(shape=[2, 1, 2, 2, 1], win=[HALF, HALF, [1.0]], mode=mode, content=[2, 3, 4], reduce=[2, 3, 4])
        S(shape=[5, 3, 3], win=HALF, mode=mode, reduce=[0])
        S(shape=[2, 1, 2, 1, 3], win=HALF, mode=mode, content=[-1], reduce={"slice": [2, None]})
    S(shape=[1, 1, 4, 2], win=HALF, mode="reflect", history=[1, 1, 6], hcontent={"slice": [2, None]})
    S(shape=[1, 1, 4], win=[0.25, 0.25, 0.25, 0.25], mode="reflect")
    S(shape=[3, 4], win=[HALF, TRI], mode="replicate", content=[1, 0], reduce=None, history=[5, 5], hcontent=[0, 1])
    for mode in ("reflect", "replicate"):
        out.append(dict(h="h_ssim_named", shape=[1, 1, 7], blur="gaussian", mode="replicate"))
        out.append(dict(h="h_ssim_named", shape=[1, 1, 7], blur="mean", mode="symmetric"))
        out.append(dict(h="h_ssim_named", shape=[1, 1, 2], blur=None, mode=mode))
    if tier == "thorough":
        for mode in ("antisymmetric", "odd_reflect", "odd_symmetric", "smooth", "circular", "zeros", "mean"):
            S(shape=[1, 1, 4], win=TRI, mode=mode, K="sym")
            S(shape=[1, 1, 3, 2], win=HALF, mode=mode)
        S(shape=[1, 1, 5, 4], win=HALF, mode="reflect", K="sym", weight=5)
        S(shape=[1, 1, 4, 4], win=TRI, mode="reflect", weight=9)
        S(shape=[2, 2, 5, 3], win=[[0.125, 0.25, 0.25, 0.25, 0.125], HALF], mode="symmetric", weight=5)
    return out


def m03(tier):
    out = []
    S = lambda **k: out.append(dict(h="h_ssim_sym", **k))
    for mode in ("reflect", "replicate", "constant", None):
        for o in ({}, {"use_sample_covariance": False}, {"crop_border": False}, {"K": "sym"}, {"reduce": None}):
            S(shape=[1, 2, 3], win=HALF, mode=mode, ms=False, what="swap", **o)
            S(shape=[1, 1, 3], win=TRI, mode=mode, ms=False, what="swap", **o)
        for what in ("same", "clone"):
            S(shape=[1, 1, 3], win=HALF, mode=mode, ms=False, what=what)
            S(shape=[1, 1, 3], win=TRI, mode=mode, ms=False, what=what, use_sample_covariance=False)
            S(shape=[1, 1, 3], win=ASYM, mode=mode, ms=False, what=what, K="sym")
        S(shape=[1, 1, 3, 2], win=[HALF, [1.0]], mode=mode, ms=False, what="same", use_sample_covariance=False)
    S(shape=[1, 1, 2, 2], win=HALF, mode="replicate", ms=False, what="same", crop_border=False)
    S(shape=[1, 1, 3, 3], win=HALF, mode="reflect", ms=False, what="swap")
    for prod in (True, False):
        for mode in ("reflect", None):
            S(shape=[1, 1, 6], win=HALF, mode=mode, ms=True, what="swap", use_prod=prod, weights=[0.5, 0.25])
            S(shape=[1, 2, 6], win=ASYM, mode=mode, ms=True, what="swap", use_prod=prod, weights=[0.3, 0.7], use_sample_covariance=False)
            S(shape=[1, 1, 6], win=HALF, mode=mode, ms=True, what="same", use_prod=prod, weights=[0.25, 0.75])
    if tier == "thorough":
        S(shape=[1, 1, 4, 4], win=HALF, mode="reflect", ms=False, what="swap", weight=9)
        S(shape=[1, 1, 10], win=HALF, mode="reflect", ms=True, what="swap", use_prod=True, weights=[0.5, 0.25, 0.5], weight=9)
        S(shape=[1, 1, 3, 3], win=HALF, mode="replicate", ms=False, what="same", weight=9)
    return out


def m04(tier):
    out = []
    S = lambda **k: out.append(dict(h="h_ms", **k))
    for prod in (True, False):
        for mode in ("reflect", "replicate", None):
            S(shape=[1, 1, 6], win=HALF, mode=mode, prod=prod, W=[0.5, 0.25])
            S(shape=[1, 2, 7], win=ASYM, mode=mode, prod=prod, W=[0.3, 0.7], tup=True, sample=False)
            S(shape=[2, 1, 6], win=HALF, mode=mode, prod=prod, W="sym", L=2, K=[0.25, 0.5])
            S(shape=[1, 2, 6], win=HALF, mode=mode, prod=prod, W=[2.0, 1.0], reduce=None, crop=False, eps=0.25)
            S(shape=[1, 1, 4], win=HALF, mode=mode, prod=prod, W=[1.5], pass_prod=True)
            S(shape=[6, 2], win=HALF, mode=mode, prod=prod, W=[0.5, 2.0], content=0, reduce=[])
        S(shape=[1, 1, 10], win=HALF, mode="replicate", prod=prod, W=[0.5, 0.25, 0.125], weight=4)
        S(shape=[1, 1, 9], win=TRI, mode="reflect", prod=prod, W=[0.5, 0.25], box=300, weight=4)
        S(shape=[3, 1, 7], win=HALF, mode=None, prod=prod, W=[0.5, 0.25], reduce=None, weight=4)
        S(shape=[1, 1, 16], win=HALF, mode="symmetric", prod=prod, W=[0.25, 0.5], weight=4)
        S(shape=[1, 1, 18], win=HALF, mode="reflect", prod=prod, W=[0.5, 0.25, 0.125, 0.5], weight=9)
        S(shape=[1, 1, 6, 3], win=[HALF, [1.0]], mode="replicate", prod=prod, W=[0.5, 0.25], sample=False, K=[0.25, 0.5], weight=4)
    for L in (1, 2, 3):
        out.append(dict(h="h_ms_size", L=L, N={1: 5, 2: 8, 3: 13}[L]))
    if tier == "thorough":
        for prod in (True, False):
            S(shape=[1, 1, 6, 6], win=HALF, mode="reflect", prod=prod, W=[0.5, 0.25], weight=9)
            S(shape=[1, 1, 18], win=HALF, mode="reflect", prod=prod, W=[0.5, 0.25, 0.125, 0.5], weight=9)
            S(shape=[1, 1, 8], win=TRI, mode="symmetric", prod=prod, W="sym", L=2, weight=9)
    return out


def m05(tier):
    out = []
    for kind in ("GaussianEdgeLoss", "WeightedMul", "WeightedSum"):
        for ks, s, o in ((3, 1.0, 1), (3, 0.55, 2), (5, 0.8, 1)):
            out.append(dict(h="h_loss", kind=kind, shape=[1, 1, 2, 3], ks=ks, sigma=s, order=o, what="formula", kw=o == 2))
        out.append(dict(h="h_loss", kind=kind, shape=[2, 2, 2, 2], ks=3, sigma=1.0, order=1, what="formula"))
        out.append(dict(h="h_loss", kind=kind, shape=[1, 2, 2, 3], ks=3, sigma=1.0, order=1, what="same"))
        out.append(dict(h="h_loss", kind=kind, shape=[1, 1, 3, 2], ks=3, sigma=1.0, order=2, what="same", clone=True))
    # dividing by a true edge: reflected borders make first derivatives vanish there, so second derivatives only
    for shape, ks, s in (([1, 1, 2, 2], 3, 1.0), ([1, 1, 2, 3], 3, 0.55), ([2, 1, 2, 2], 3, 1.0), ([1, 2, 2, 2], 3, 1.5)):
        out.append(dict(h="h_loss", kind="WeightedDiv", shape=shape, ks=ks, sigma=s, order=2, what="formula", kw=ks == 5))
    out.append(dict(h="h_loss", kind="WeightedDiv", shape=[1, 1, 2, 2], ks=3, sigma=1.0, order=2, what="same"))
    out.append(dict(h="h_loss", kind="WeightedDiv", shape=[1, 1, 2, 3], ks=3, sigma=1.0, order=2, what="same", clone=True))
    if tier == "thorough":
        for kind in ("GaussianEdgeLoss", "WeightedMul", "WeightedSum"):
            out.append(dict(h="h_loss", kind=kind, shape=[2, 3, 4, 4], ks=5, sigma=1.1, order=1, what="formula"))
    return out


def m06(tier):
    out = []
    for red in ("mean", "sum", "none"):
        for shape, axes in (([1, 2], None), ([2, 2], [1]), ([3], None)):
            for e, m in ((0.25, 2), (0.0, 1), (1.0, 255), (0.0, 0.5), (0.0625, 0.125)):
                out.append(dict(h="h_err_rank", shape=shape, axes=axes, red=red, eps=e, max=m, scale=2.0 if m in (1, 0.5) else 4.0))
    S = lambda **k: out.append(dict(h="h_sim_range", **k))
    for mode in ("reflect", "replicate", "symmetric", "constant", None):
        for sample in (True, False):
            S(shape=[1, 1, 3], win=HALF, mode=mode, sample=sample, K="sym")
            S(shape=[1, 1, 4], win=TRI, mode=mode, sample=sample)
            S(shape=[2, 1, 3], win=ASYM, mode=mode, sample=sample, crop=False)
            S(shape=[1, 1, 2, 2], win=HALF, mode=mode, sample=sample)
            for prod in (True, False):
                S(shape=[1, 1, 6], win=HALF, mode=mode, sample=sample, ms=True, prod=prod, W="sym", K=[0.25, 0.5])
                S(shape=[1, 2, 6], win=ASYM, mode=mode, sample=sample, ms=True, prod=prod, W=[0.25, 0.75], crop=False)
    if tier == "thorough":
        for mode in ("reflect", None):
            S(shape=[1, 1, 3, 3], win=HALF, mode=mode, K="sym", weight=5)
            S(shape=[1, 1, 5, 4], win=HALF, mode=mode, weight=5)
            S(shape=[1, 1, 6], win=[0.125, 0.25, 0.25, 0.25, 0.125], mode=mode, weight=5)
            for prod in (True, False):
                S(shape=[1, 1, 10], win=HALF, mode=mode, ms=True, prod=prod, W=[0.5, 0.25, 0.125], weight=5)
    return out


PROPS = {"M06": m06, "M01": m01, "M02": m02, "M03": m03, "M04": m04, "M05": m05}
META = {
    "M06": dict(bounds="images of up to 6 elements per channel (thorough 20) in [-2,2], windows of 2 and 3 taps (thorough 5), symbolic K1 and K2 in [1/64,1] and scale weights in [0,2]",
                outside="windows with negative weights; fractional powers are an uninterpreted function known to map (0,1] into (0,1]"),
    "M01": dict(bounds="images of up to 4 dimensions and 8 elements, every axis choice listed incl. none, symbolic maximum in [1/4,256] and epsilon in [0,1]; "
                       "log is an uninterpreted increasing function", outside="a mean squared error plus epsilon below 1e-6 for PSNR"),
    "M02": dict(bounds="images of up to 4 dimensions with content sides up to 4, elements in [-2,2], windows of 2..4 taps per axis with exact weights, "
                       "symbolic K1 and K2 in [1/64,1], five padding choices (thorough: twelve)",
                outside="larger windows, except that the named ones are compared with their documented layers"),
    "M03": dict(bounds="content sides up to 6 (self-similarity up to 3), elements in [-2,2], windows of 2..3 taps", outside="larger images and windows"),
    "M04": dict(bounds="one to three scales, content sides up to 10 (thorough 18 and four scales), elements in [-2,2], windows of 2 (3) taps, "
                       "symbolic weights in [0,2]; fractional powers are an uninterpreted function", outside="larger"),
    "M05": dict(bounds="batches up to 2x2x2x2 and 1x1x2x3 (thorough 2x3x4x4), elements in [-2,2]",
                outside="dividing by true edges smaller than 1/64 in absolute value"),
}
