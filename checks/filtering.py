import itertools
from fractions import Fraction
import numpy as np
import torch
from symx import terms as tm
from . import spec
from .spec import pad1, corr_axis, same_width, along, emap
from .pooling import MODES, _axes_arg, _norm_axes, deriv_poly

IMPORTS = ("torchimage.filtering", "torchimage.filtering.edges", "torchimage.filtering.sharpen", "torchimage.pooling",
           "torchimage.padding")
TOL = 1e-6
BOX = 300
KERNELS = {   # published weights (edge, smooth)
    "Sobel": ([-1, 0, 1], [1, 2, 1]),
    "Prewitt": ([-1, 0, 1], [1, 1, 1]),
    "Scharr": ([-1, 0, 1], [3, 10, 3]),
    "Farid": ([-0.109603762960254, -0.276690988455557, 0, 0.276690988455557, 0.109603762960254],
              [0.0376593171958126, 0.249153396177344, 0.426374573253687, 0.249153396177344, 0.0376593171958126]),
}


def _fr(k):
    return [Fraction(str(v)) if isinstance(v, float) else tm.norm(v) if not tm.is_t(v) else v for v in k]


def pad_along(a, ax, k, mode):
    if mode is None:
        return a
    b, c = same_width(len(k))
    return along(a, ax, lambda xs: pad1(xs, b, c, mode))


def comp_ref(a, edge_axis, smooth_axes, ek, sks, mode):
    """the edge kernel along one axis, then the smoothing kernels along the others"""
    a = corr_axis(pad_along(a, edge_axis, ek, mode), edge_axis, ek) if len(ek) else a
    for ax, k in zip(smooth_axes, sks):
        a = pad_along(a, ax, k, mode)
    for ax, k in zip(smooth_axes, sks):
        if len(k):
            a = corr_axis(a, ax, k)
    return a


def sub_axes(axes, e):
    return [x for x in axes if x != e]


def gauss_num(n, s, order):
    import math
    r = n // 2
    e = [math.exp(-t * t / (2 * s * s)) for t in range(-r, r + 1)]
    z = sum(e)
    q = [v / z * float(deriv_poly(t, s * s, order)) for t, v in zip(range(-r, r + 1), e)][::-1][:n]
    if order == 0:
        q = [v / sum(q) for v in q]
    return [tm.norm(v) for v in q]


def h_comp(ctx, cfg):
    from torchimage.filtering import EdgeFilter
    from torchimage.padding import Padder
    shape = tuple(cfg["shape"])
    nd = len(shape)
    mode = cfg.get("mode")
    x = ctx.tensor("x", shape, -BOX, BOX)
    if cfg["edge"] == "sym":
        ek = [ctx.real(f"e{j}", -4, 4) for j in range(cfg["ne"])]
        E = [ctx.term(v) for v in ek]
    else:
        ek = cfg["edge"]
        E = _fr(ek)
    if cfg["smooth"] == "sym":
        sk = [ctx.real(f"m{j}", -4, 4) for j in range(cfg["ns"])]
        S = [ctx.term(v) for v in sk]
    else:
        sk = cfg["smooth"]
        S = _fr(sk) if not (sk and isinstance(sk[0], list)) else [_fr(k) for k in sk]
    f = EdgeFilter(ek, sk, same_padder=Padder(mode=mode) if cfg.get("padder") and mode else mode)
    e = cfg["edge_axis"]
    sm = cfg["smooth_axes"]
    ea = e % nd
    sa = sub_axes(_norm_axes(sm, nd), ea)
    sks = S if (S and isinstance(S[0], list)) else [S] * len(sa)
    X = ctx.inputs["x"][1]
    want = comp_ref(X, ea, sa, E, sks, mode)
    tol = TOL if cfg["edge"] != "sym" or cfg["smooth"] != "sym" else None
    y = f.component(x, e if not cfg.get("tup") else (e,), _axes_arg(sm))
    ctx.equal(y, want, "edge component", tol=tol)
    if mode not in (None, "periodize"):
        ctx.check(tuple(y.shape) == shape, "same size")
    ctx.unchanged(x, "x", "input unchanged")


def h_hv(ctx, cfg):
    import torchimage.filtering as F
    shape = tuple(cfg["shape"])
    nd = len(shape)
    x = ctx.tensor("x", shape, -BOX, BOX)
    if cfg["op"] == "EdgeFilter":
        E, S = [1, -3, 2], [2, 1, 5]
        f = F.EdgeFilter(E, S, same_padder=cfg["mode"])
        mode = cfg["mode"]
    else:
        f = getattr(F, cfg["op"])()
        E, S = KERNELS[cfg["op"]]
        mode = "reflect"
    X = ctx.inputs["x"][1]
    E, S = _fr(E), _fr(S)
    ctx.equal(f.horizontal(x), comp_ref(X, nd - 2, [nd - 1], E, [S], mode), "horizontal response", tol=TOL)
    ctx.equal(f.vertical(x), comp_ref(X, nd - 1, [nd - 2], E, [S], mode), "vertical response", tol=TOL)
    axes = cfg["axes"]
    na = _norm_axes(axes, nd)
    cs = f.all_components(x, _axes_arg(axes))
    ctx.check(len(cs) == len(na), "one component per axis")
    for c, a in zip(cs, na):
        o = sub_axes(na, a)
        ctx.equal(c, comp_ref(X, a, o, E, [S] * len(o), mode), f"component along {a}", tol=TOL)
    ctx.unchanged(x, "x", "input unchanged")


def h_bad_axes(ctx, cfg):
    from torchimage.filtering import Sobel
    x = ctx.tensor("x", (3, 3), -4, 4)
    f = Sobel()
    a = ctx.choice("a", [(0, 1), ()])
    ctx.raises(ValueError, lambda: f.component(x, a, 1), "not exactly one edge axis")
    b = ctx.choice("b", [(0,), (), 1])
    ctx.raises(ValueError, lambda: f.all_components(x, b), "fewer than two axes")
    ctx.raises(ValueError, lambda: f.magnitude(x, b), "fewer than two axes")


def h_named(ctx, cfg):
    import torchimage.filtering as F
    op, norm = cfg["op"], cfg["normalize"]
    shape = tuple(cfg["shape"])
    nd = len(shape)
    x = ctx.tensor("x", shape, -BOX, BOX)
    kw = {"same_padder": cfg["mode"]} if cfg.get("mode") else {}
    if norm is not None:
        kw["normalize"] = norm
    f = getattr(F, op)(**kw)
    E, S = map(_fr, KERNELS[op])
    if norm:
        t = sum(S)
        S = [s / t for s in S]
    mode = cfg.get("mode") or "reflect"
    e = int(ctx.int("edge", 0, nd - 1))
    o = sub_axes(range(nd), e)
    ctx.equal(f.component(x, e, None), comp_ref(ctx.inputs["x"][1], e, o, E, [S] * len(o), mode), f"{op} response", tol=TOL)


def h_normalize(ctx, cfg):
    """smoothing weights are divided by their sum, whatever their signs; the edge weights stay"""
    from torchimage.filtering import EdgeFilter
    shape = tuple(cfg["shape"])
    nd = len(shape)
    x = ctx.tensor("x", shape, -BOX, BOX)
    norm = cfg.get("normalize", True)
    lens = cfg["lens"]
    many = isinstance(lens, list)
    sk = [[ctx.real(f"m{i}_{j}", -4, 4) for j in range(n)] for i, n in enumerate(lens if many else [lens])]
    S = [[ctx.term(v) for v in k] for k in sk]
    for k in S:
        t = tm.sum_terms(k)
        ctx.assume(tm.or_(tm.le(Fraction(1, 4), t), tm.le(t, Fraction(-1, 4))))
    if norm:
        S = [[tm.div(v, tm.sum_terms(k)) for v in k] for k in S]
    E = [2, -1]
    f = EdgeFilter(E, sk if many else sk[0], normalize=norm, same_padder=cfg["mode"])
    e = cfg["edge_axis"]
    o = sub_axes(range(nd), e)
    ctx.equal(f.component(x, e, None), comp_ref(ctx.inputs["x"][1], e, o, E, S if many else S * len(o), cfg["mode"]),
              "response with normalised smoothing weights", tol=TOL)


def h_const(ctx, cfg):
    """constant image -> zero"""
    import torchimage.filtering as F
    op = cfg["op"]
    shape = tuple(cfg["shape"])
    c = ctx.tensor("c", (1,) * len(shape), -4, 4)
    x = c.expand(shape)
    if op == "GaussianGrad":
        f = F.GaussianGrad(cfg["ks"], cfg["sigma"], edge_order=1, same_padder=cfg["mode"])
    else:
        f = getattr(F, op)(same_padder=cfg["mode"])
    zero = np.full(shape, 0, dtype=object)
    if op == "Laplace":
        return ctx.equal(f.forward(x, axes=None), zero, "Laplacian of a constant", tol=TOL)
    for a in range(len(shape)):
        ctx.equal(f.component(x, a, None), zero, f"{op} of a constant along {a}", tol=TOL)


def h_gconst(ctx, cfg):
    """symbolic sigma: derivative of Gaussian of order one sums to zero"""
    from torchimage.filtering import GaussianGrad
    sg = ctx.real("sigma", 0.25, 8)
    f = GaussianGrad(cfg["ks"], sg, edge_order=1)
    k = [ctx.term(v) for v in f.edge_kernel[0]]
    s = [ctx.term(v) for v in f.smooth_kernel[0]]
    ctx.equal(spec.vec([tm.sum_terms(k)]), spec.vec([0]), "derivative weights sum to zero", tol=1e-9)
    ctx.equal(spec.vec([tm.sum_terms(s)]), spec.vec([1]), "smoothing weights sum to one", tol=1e-9)


def h_laplace(ctx, cfg):
    from torchimage.filtering import Laplace
    shape = tuple(cfg["shape"])
    x = ctx.tensor("x", shape, -BOX, BOX)
    mode = cfg.get("mode", "reflect")
    f = Laplace(**({} if mode == "reflect" else {"same_padder": mode}))
    axes = _norm_axes(cfg["axes"], len(shape))
    X = ctx.inputs["x"][1]
    want = None
    for a in axes:
        d = comp_ref(X, a, [], [1, -2, 1], [], mode)
        want = d if want is None else emap(tm.add, want, d)
    ctx.equal(f.forward(x, axes=_axes_arg(cfg["axes"])), want, "sum of second differences", tol=TOL)
    ctx.unchanged(x, "x", "input unchanged")


def h_log(ctx, cfg):
    from torchimage.filtering import LaplacianOfGaussian
    shape = tuple(cfg["shape"])
    x = ctx.tensor("x", shape, -BOX, BOX)
    mode = cfg.get("mode", "reflect")
    n, s = cfg["ks"], cfg["sigma"]
    f = LaplacianOfGaussian(n, s, **({} if mode == "reflect" else {"same_padder": mode}))
    axes = _norm_axes(cfg["axes"], len(shape))
    X = ctx.inputs["x"][1]
    E, S = gauss_num(n, s, 2), gauss_num(n, s, 0)
    want = None
    for a in axes:
        o = sub_axes(axes, a)
        d = comp_ref(X, a, o, E, [S] * len(o), mode)
        want = d if want is None else emap(tm.add, want, d)
    y = f.forward(x) if cfg.get("default") else f.forward(x, axes=_axes_arg(cfg["axes"]))
    ctx.equal(y, want, "Laplacian of Gaussian", tol=TOL)
    ctx.unchanged(x, "x", "input unchanged")


def h_grad(ctx, cfg):
    from torchimage.filtering import GaussianGrad
    shape = tuple(cfg["shape"])
    x = ctx.tensor("x", shape, -BOX, BOX)
    mode = cfg.get("mode", "reflect")
    n, s, o = cfg["ks"], cfg["sigma"], cfg.get("order", 1)
    kw = {}
    en, es = cfg.get("eks"), cfg.get("esigma")
    if en is not None:
        kw["edge_kernel_size"] = en
    if es is not None:
        kw["edge_sigma"] = es
    if "normalize" in cfg:
        kw["normalize"] = cfg["normalize"]
    f = GaussianGrad(n, s, edge_order=o, same_padder=mode, **kw)
    nd = len(shape)
    L = lambda v: v if isinstance(v, list) else [v] * (nd - 1)
    E = gauss_num(en or n, es or s, o)
    S = [gauss_num(a, b, 0) for a, b in zip(L(n), L(s))]
    X = ctx.inputs["x"][1]
    e = int(ctx.int("edge", 0, nd - 1))
    want = comp_ref(X, e, sub_axes(range(nd), e), E, S, mode)
    ctx.equal(f.component(x, e, None), want, "Gaussian gradient component", tol=TOL)
    ctx.unchanged(x, "x", "input unchanged")


def h_mag(ctx, cfg):
    import torchimage.filtering as F
    shape = tuple(cfg["shape"])
    x = ctx.tensor("x", shape, -BOX, BOX)
    p = cfg["p"]
    op = cfg.get("op", "custom")
    mode = cfg.get("mode", "reflect")
    if op == "custom":
        E, S = [1, -1], [1, 3]
        f = F.EdgeFilter(E, S, same_padder=mode)
    else:
        E, S = KERNELS[op]
        f = getattr(F, op)(same_padder=mode)
    E, S = _fr(E), _fr(S)
    eps = ctx.real("eps", 0, 2) if cfg.get("eps") == "sym" else cfg.get("eps", 0.0)
    axes = _norm_axes(cfg["axes"], len(shape))
    X = ctx.inputs["x"][1]
    tot = None
    for a in axes:
        o = sub_axes(axes, a)
        d = comp_ref(X, a, o, E, [S] * len(o), mode)
        d = emap(lambda v: tm.power(v, p), d) if p != 1 else d
        tot = d if tot is None else emap(tm.add, tot, d)
    tot = emap(lambda v: tm.add(v, ctx.term(eps)), tot)
    if p == 1:
        want = tot
    elif p == 2:
        want = emap(tm.sqrt, tot)
    else:
        want = emap(lambda v: tm.power(v, Fraction(1, p) if p in (4,) else 1 / p), tot)
    kw = {}
    if not (isinstance(eps, float) and eps == 0.0):
        kw["epsilon"] = eps
    if p != 2 or cfg.get("pass_p"):
        kw["p"] = p
    y = f.magnitude(x, _axes_arg(cfg["axes"]), **kw)
    if not cfg.get("again"):
        ctx.equal(y, want, "gradient magnitude", tol=cfg.get("tol"))
    else:
        z = f.magnitude(x, _axes_arg(cfg["axes"]), **kw)
        ctx.equal(z, want, "gradient magnitude again", tol=cfg.get("tol"))
    ctx.unchanged(x, "x", "input unchanged")


def h_unsharp(ctx, cfg):
    from torchimage.filtering import UnsharpMask
    from torchimage.pooling import AvgPoolNd, SeparablePoolNd, GaussianPoolNd
    shape = tuple(cfg["shape"])
    nd = len(shape)
    x = ctx.tensor("x", shape, -BOX, BOX)
    amount = ctx.real("amount", -4, 4) if cfg.get("amount") == "sym" else cfg.get("amount")
    thr = ctx.real("thr", 0, 4) if cfg.get("thr") == "sym" else cfg.get("thr")
    mode = cfg.get("mode")
    blur = cfg["blur"]
    axes = _norm_axes(cfg["axes"], nd)
    m = len(axes)
    own = cfg.get("own")
    if blur == "avg":
        b = AvgPoolNd(3, same_padder=own)
        ks = [[Fraction(1, 3)] * 3] * m
    elif blur == "gauss":
        b = GaussianPoolNd(3, 1.0, same_padder=own)
        ks = [gauss_num(3, 1.0, 0)] * m
    else:
        w = [[1.0, 2.0, 1.0], [0.5, 0.25]][:m] if m > 1 else [[1.0, 2.0, 1.0]]
        b = SeparablePoolNd(w, stride=2, same_padder=own)
        ks = [_fr(k) for k in w]
    kw = {}
    if amount is not None:
        kw["amount"] = amount
    if thr is not None:
        kw["threshold"] = thr
    f = UnsharpMask(b, padder=mode, **kw)
    X = ctx.inputs["x"][1]
    md = mode or own
    bl = X
    for a, k in zip(axes, ks):
        bl = pad_along(bl, a, k, md)
    for a, k in zip(axes, ks):
        bl = corr_axis(bl, a, k)
    A = ctx.term(amount) if amount is not None else Fraction(1, 2)
    T = ctx.term(thr) if thr is not None else 0
    D = emap(tm.sub, X, bl)
    if isinstance(amount, float) and amount == 0.0:
        want = X
    else:
        y = f.forward(x) if cfg.get("default") else f.forward(x, axes=_axes_arg(cfg["axes"]))
        Y = ctx.elems(y)
        if Y.shape != X.shape:
            ctx.fail(f"shape {Y.shape}, expected {X.shape}")
        if thr is None and blur == "sep":
            want = emap(lambda v, d: tm.add(v, tm.mul(A, d)), X, D)
            ctx.equal(y, want, "x + amount * (x - blur)", tol=TOL if amount is None else None)
        elif thr is None:
            want = emap(lambda v, d: tm.add(v, tm.mul(A, d)), X, D)
            ctx.equal(y, want, "x + amount * (x - blur)", tol=TOL)
        else:
            # away from the threshold by more than rounding
            g = 0 if blur == "sep" else tm.norm(1e-9)
            tol = tm.norm(TOL) if blur != "sep" else 0
            for i in np.ndindex(*X.shape):
                ad = tm.absv(D[i])
                small = tm.lt(ad, tm.sub(T, g))
                big = tm.le(tm.add(T, g), ad)
                e1 = tm.absv(tm.sub(Y[i], X[i]))
                e2 = tm.absv(tm.sub(Y[i], tm.add(X[i], tm.mul(A, D[i]))))
                ctx.check(tm.or_(tm.not_(small), tm.le(e1, tol)), f"detail below the threshold ignored at {i}")
                ctx.check(tm.or_(tm.not_(big), tm.le(e2, tol)), f"detail from the threshold on added at {i}")
        ctx.unchanged(x, "x", "input unchanged")
        return
    y = f.forward(x, axes=_axes_arg(cfg["axes"]))
    ctx.equal(y, want, "amount zero returns the input", tol=TOL)
    ctx.unchanged(x, "x", "input unchanged")


HARNESS = {f.__name__: f for f in (h_comp, h_hv, h_bad_axes, h_named, h_normalize, h_const, h_gconst, h_laplace, h_log, h_grad, h_mag, h_unsharp)}


def f01(tier):
    out = []
    # the edge weights are symbolic: the shortcut's selection is explored by the solver
    for mode in ("reflect", "replicate", "constant", "symmetric", None):
        out.append(dict(h="h_comp", shape=[4, 3], edge="sym", ne=3, smooth=[1, 2], edge_axis=0, smooth_axes=1, mode=mode))
        out.append(dict(h="h_comp", shape=[3, 4], edge="sym", ne=3, smooth="sym", ns=2, edge_axis=-1, smooth_axes=None, mode=mode, padder=True))
    for mode in MODES:
        for e in ([-1, 0, 1], [1, -2, 1], [-1.5, 0.25, 1.25], [1.75, -2.5, 1.125]):
            out.append(dict(h="h_comp", shape=[3, 4], edge=e, smooth=[1, 2, 1], edge_axis=1, smooth_axes=0, mode=mode))
    for n in (1, 2, 4, 5):
        out.append(dict(h="h_comp", shape=[3, 3], edge="sym", ne=n, smooth=[], edge_axis=0, smooth_axes=1, mode="reflect"))
    for e, s in ((0, [1, 2]), (1, None), (2, [0, 1, 2]), (-2, [-1]), (2, [0]), (1, [2, 0]), (0, {"slice": [1, None]}), (1, [])):
        for ek in ([-1, 0, 1], [-1.0, 0.0, 1.0], [1, -2, 1], [2, 0.5, -1], [-1, 0, 1.5], [-1, 0, 1, 0]):
            out.append(dict(h="h_comp", shape=[2, 3, 2], edge=ek, smooth=[1, 3], edge_axis=e, smooth_axes=s, mode="symmetric", tup=(e == 2)))
    out.append(dict(h="h_comp", shape=[2, 3, 3], edge=[-1, 0, 1], smooth=[[1, 2], [3, 1, 4]], edge_axis=1, smooth_axes=None, mode="reflect"))
    out.append(dict(h="h_comp", shape=[2, 3, 3], edge=[-1, 0.5, 1], smooth=[[1, 2], [3, 1, 4]], edge_axis=0, smooth_axes=[2, 1], mode="reflect"))
    # every order of the smoothing axes, the edge axis listed anywhere or not at all
    for e in range(3):
        for sm in [None] + [list(q) for r in (2, 3) for q in itertools.permutations(range(3), r)]:
            m = len(sub_axes(_norm_axes(sm, 3), e))
            smooth = [[1, 2], [3, -1]][:m] if m > 1 else [[1, 2]]
            out.append(dict(h="h_comp", shape=[2, 2, 3], edge=[1, -1, 3], smooth=smooth, edge_axis=e, smooth_axes=sm,
                            mode="linear_ramp" if e == 1 else "odd_reflect"))
    out.append(dict(h="h_comp", shape=[2, 2, 2, 2], edge=[1, -1], smooth=[[1, 2], [3, -1], [1, 5]], edge_axis=2, smooth_axes=[3, 2, 0, 1], mode="reflect"))
    for op in ("EdgeFilter", "Sobel", "Farid"):
        for shape, axes in (([4, 3], None), ([1, 2, 3, 3], {"slice": [2, None]}), ([2, 3, 2], [2, 0])):
            out.append(dict(h="h_hv", op=op, shape=shape, axes=axes, mode="symmetric"))
    out.append(dict(h="h_bad_axes"))
    # long axes, long kernels, many dimensions
    for mode in ("reflect", "circular", "mean", "odd_symmetric"):
        out.append(dict(h="h_comp", shape=[2, 40], edge=[1, -2, 0.5], smooth=[1, 3], edge_axis=1, smooth_axes=0, mode=mode))
        out.append(dict(h="h_comp", shape=[33, 2], edge=[-1, 1], smooth=[2, 5, 1], edge_axis=1, smooth_axes=None, mode=mode))
        out.append(dict(h="h_comp", shape=[3, 14], edge=[((5 * i) % 7 - 3) / 2 for i in range(17)], smooth=[((3 * i) % 5 + 1) for i in range(12)],
                        edge_axis=0, smooth_axes=1, mode=mode))
        out.append(dict(h="h_comp", shape=[16, 2], edge=[((5 * i) % 7 - 3) / 2 for i in range(24)], smooth=[((3 * i) % 5 + 1) for i in range(9)],
                        edge_axis=0, smooth_axes=1, mode=mode))
    for n in (7, 9, 11):
        out.append(dict(h="h_comp", shape=[12, 1], edge="sym", ne=n, smooth=[], edge_axis=0, smooth_axes=1, mode="replicate"))
        out.append(dict(h="h_comp", shape=[1, 12], edge=[2, -1], smooth="sym", ns=n, edge_axis=0, smooth_axes=1, mode="symmetric"))
    out.append(dict(h="h_comp", shape=[2, 1, 2, 1, 2], edge=[1, -1, 2], smooth=[1, 2], edge_axis=2, smooth_axes=None, mode="reflect"))
    out.append(dict(h="h_comp", shape=[2, 1, 2, 1, 2], edge=[1, -1, 2], smooth=[[1, 2], [3, -1]], edge_axis=-1, smooth_axes=[0, -3], mode="replicate"))
    out.append(dict(h="h_comp", shape=[1, 2, 1, 2, 1, 2], edge=[1, -1, 2], smooth=[1, 2], edge_axis=1, smooth_axes={"slice": [3, None]}, mode="symmetric"))
    out.append(dict(h="h_hv", op="EdgeFilter", shape=[1, 2, 1, 2, 3], axes=[4, 1], mode="replicate"))
    out.append(dict(h="h_hv", op="Sobel", shape=[20, 3], axes=None, mode="reflect"))
    if tier == "thorough":
        for mode in MODES:
            if mode in ("maximum", "minimum", "median"):
                continue
            out.append(dict(h="h_comp", shape=[3, 3], edge="sym", ne=3, smooth="sym", ns=3, edge_axis=0, smooth_axes=1, mode=mode))
            out.append(dict(h="h_comp", shape=[2, 3, 3], edge="sym", ne=4, smooth="sym", ns=2, edge_axis=1, smooth_axes=None, mode=mode))
    return out


def f02(tier):
    out = []
    for op in KERNELS:
        for nrm in (None, False, True):
            for mode in (None, "replicate", "circular"):
                out.append(dict(h="h_named", op=op, normalize=nrm, mode=mode, shape=[4, 3]))
        out.append(dict(h="h_named", op=op, normalize=True, shape=[2, 3, 3]))
        out.append(dict(h="h_named", op=op, normalize=False, shape=[2, 24]))
        out.append(dict(h="h_named", op=op, normalize=True, shape=[24, 2], mode="symmetric"))
        out.append(dict(h="h_named", op=op, normalize=None, shape=[2, 1, 2, 2], mode="replicate"))
        out.append(dict(h="h_named", op=op, normalize=True, shape=[1, 2, 1, 2, 2]))
        out.append(dict(h="h_const", op=op, shape=[30, 3], mode="reflect"))
        for mode in ("reflect", "replicate", "symmetric", "circular", "mean", "maximum", "odd_reflect"):
            out.append(dict(h="h_const", op=op, shape=[3, 4], mode=mode))
    for nrm in (True, False):
        out.append(dict(h="h_normalize", shape=[2, 3], lens=2, edge_axis=0, normalize=nrm, mode="reflect"))
        out.append(dict(h="h_normalize", shape=[3, 2], lens=3, edge_axis=1, normalize=nrm, mode="replicate"))
        out.append(dict(h="h_normalize", shape=[2, 2, 2], lens=[2, 1], edge_axis=1, normalize=nrm, mode="symmetric"))
        out.append(dict(h="h_normalize", shape=[2, 1, 2], lens=[2, 3], edge_axis=1, normalize=nrm, mode="symmetric"))
        out.append(dict(h="h_normalize", shape=[1, 12], lens=9, edge_axis=0, normalize=nrm, mode="reflect"))
        out.append(dict(h="h_normalize", shape=[2, 1, 1, 2], lens=[1, 2, 3], edge_axis=1, normalize=nrm, mode="replicate"))
    for mode in ("reflect", "symmetric", "smooth"):
        out.append(dict(h="h_const", op="Laplace", shape=[3, 4], mode=mode))
        out.append(dict(h="h_const", op="Laplace", shape=[2, 3, 2], mode=mode))
        for ks, s in ((3, 1.0), (5, 0.8), (7, 2.0)):
            out.append(dict(h="h_const", op="GaussianGrad", shape=[3, 4], mode=mode, ks=ks, sigma=s))
    for ks in (3, 5, 7) if tier == "quick" else (3, 5, 7, 9, 11):
        out.append(dict(h="h_gconst", ks=ks))
    return out


def f03(tier):
    out = []
    for mode in MODES:
        out.append(dict(h="h_laplace", shape=[3, 4] if mode != "periodize" else [2, 4], axes=None, mode=mode))
    for shape, axes in (([3, 4], [1, 0]), ([2, 3, 3], None), ([2, 3, 3], [2, 0]), ([1, 2, 4, 3], {"slice": [2, None]}), ([5, 2], [-2, -1])):
        out.append(dict(h="h_laplace", shape=shape, axes=axes))
        out.append(dict(h="h_log", shape=shape, axes=axes, ks=3, sigma=0.55))
        out.append(dict(h="h_log", shape=shape, axes=axes, ks=5, sigma=1.3, mode="symmetric"))
    out.append(dict(h="h_log", shape=[4, 4], axes=None, ks=3, sigma=1.0, default=True))
    for shape, axes in (([40, 2], None), ([2, 30], [1, 0]), ([1, 2, 1, 2, 3], None), ([2, 2, 2, 2], [3, 0, 1])):
        out.append(dict(h="h_laplace", shape=shape, axes=axes, mode="reflect"))
        out.append(dict(h="h_log", shape=shape, axes=axes, ks=3, sigma=0.8, mode="replicate"))
        out.append(dict(h="h_mag", shape=shape if len(shape) < 4 else [1, 2, 1, 2, 2], axes=axes if len(shape) < 4 else [1, 4], p=2, mode="reflect", eps=0.25))
    for n, s in ((9, 1.5), (11, 0.7), (13, 4.0), (8, 2.5)):
        out.append(dict(h="h_log", shape=[7, 7] if n < 11 else [8, 7], axes=None, ks=n, sigma=s))
        out.append(dict(h="h_grad", shape=[7, 4], ks=n, sigma=s, order=n % 4, mode="symmetric"))
    for s in (0.2, 12.0):
        out.append(dict(h="h_log", shape=[3, 4], axes=None, ks=5, sigma=s, mode="symmetric"))
        out.append(dict(h="h_grad", shape=[4, 3], ks=5, sigma=s, order=1, mode="symmetric"))
    out.append(dict(h="h_grad", shape=[3, 4], ks=5, sigma=1.0, order=4))
    out.append(dict(h="h_grad", shape=[3, 4], ks=5, sigma=1.5, order=5, mode="replicate"))
    for p in (5, 6):
        out.append(dict(h="h_mag", shape=[2, 2], axes=None, p=p, mode="replicate", eps=0.25))
    for ks, s in ((4, 0.9), (7, 2.0), (3, 0.6), (3, 0.5), (1, 1.0)):
        out.append(dict(h="h_log", shape=[4, 3], axes=None, ks=ks, sigma=s, mode="replicate"))
    for o in (0, 1, 2, 3):
        for ks, s in ((3, 0.55), (3, 1.0), (5, 0.7), (4, 1.1)):
            out.append(dict(h="h_grad", shape=[3, 4], ks=ks, sigma=s, order=o))
    out.append(dict(h="h_grad", shape=[3, 3], ks=3, sigma=1.0, eks=5, esigma=0.6, order=1))
    out.append(dict(h="h_grad", shape=[3, 3], ks=3, sigma=1.0, esigma=0.55, order=2, normalize=False))
    out.append(dict(h="h_grad", shape=[2, 3, 3], ks=[3, 5], sigma=[1.0, 0.7], eks=3, esigma=0.8, order=1, mode="circular"))
    for axes in (None, [1, 0], [-2, -1]):
        for p in (1, 2, 3, 4):
            out.append(dict(h="h_mag", shape=[3, 2], axes=axes, p=p, mode="replicate"))
            out.append(dict(h="h_mag", shape=[3, 2], axes=axes, p=p, mode="replicate", eps="sym"))
    for shape in ([2, 1, 2, 2], [1, 2, 2, 1, 2]):
        for p in (1, 2):
            out.append(dict(h="h_mag", shape=shape, axes=None, p=p, mode="symmetric", eps=0.25))
            out.append(dict(h="h_mag", shape=shape, axes=list(range(len(shape)))[::-1], p=p, mode="symmetric", eps=0.25))
    out.append(dict(h="h_mag", shape=[3, 2], axes=None, p=2, mode="reflect", again=True, pass_p=True))
    out.append(dict(h="h_mag", shape=[3, 2], axes=None, p=1, mode="reflect", eps=0.5, again=True))
    for op in ("Sobel", "Prewitt", "Scharr"):
        out.append(dict(h="h_mag", shape=[3, 3], axes=None, p=2, op=op))
        out.append(dict(h="h_mag", shape=[2, 3, 2], axes=None, p=2, op=op, eps=0.25))
        out.append(dict(h="h_mag", shape=[1, 1, 3, 3], axes={"slice": [2, None]}, p=1, op=op))
    return out


def f04(tier):
    out = []
    for blur in ("avg", "gauss", "sep"):
        for mode in ("reflect", "replicate", "constant", "symmetric"):
            out.append(dict(h="h_unsharp", blur=blur, shape=[3, 4], axes=[0, 1], mode=mode))
            out.append(dict(h="h_unsharp", blur=blur, shape=[3, 4], axes=[1, 0], mode=mode, amount="sym"))
            out.append(dict(h="h_unsharp", blur=blur, shape=[2, 3], axes=None, mode=mode, amount=1.5, thr=0.75))
        out.append(dict(h="h_unsharp", blur=blur, shape=[2, 2], axes=None, mode="replicate", thr="sym", amount=2.0))
        out.append(dict(h="h_unsharp", blur=blur, shape=[2, 2], axes=None, mode="replicate", thr=0.5))
        out.append(dict(h="h_unsharp", blur=blur, shape=[4], axes=0 if blur != "sep" else [0], mode="replicate", thr="sym", amount="sym"))
        out.append(dict(h="h_unsharp", blur=blur, shape=[3, 4], axes=None, mode="reflect", amount=0.0))
        out.append(dict(h="h_unsharp", blur=blur, shape=[3, 4], axes=None, own="replicate"))
        out.append(dict(h="h_unsharp", blur=blur, shape=[1, 2, 3, 3], axes={"slice": [2, None]}, default=True, mode="circular"))
        out.append(dict(h="h_unsharp", blur=blur, shape=[3, 4], axes=None, own="replicate", mode="constant"))
        out.append(dict(h="h_unsharp", blur=blur, shape=[2, 30], axes=None, mode="symmetric", amount="sym"))
        out.append(dict(h="h_unsharp", blur=blur, shape=[30, 1], axes=[0], mode="reflect", amount=3.0, thr=0.25))
        out.append(dict(h="h_unsharp", blur=blur, shape=[1, 2, 1, 2, 2], axes=[-1, 1], mode="symmetric", amount=-0.5, thr=0.125))
        out.append(dict(h="h_unsharp", blur=blur, shape=[2, 2], axes=None, mode="replicate", amount=-2.0, thr="sym"))
        out.append(dict(h="h_unsharp", blur=blur, shape=[3], axes=0 if blur != "sep" else [0], mode="symmetric", thr=3.5, amount=0.25))
        out.append(dict(h="h_unsharp", blur=blur, shape=[2, 3], axes=None, mode="symmetric", thr=0.0, amount=1.0))
    return out


PROPS = {"F01": f01, "F02": f02, "F03": f03, "F04": f04}
META = {
    "F01": dict(bounds="images of up to 4 dimensions with sides 1..4, edge kernels of 1..5 and smoothing kernels of 0..3 symbolic weights in [-4,4] "
                       "(the shortcut's selection is branched on by the solver), all 16 padding modes and none" + "; long axes: to 40 samples, 24 taps, up to six axes, elements in +-300",
                outside="larger images and kernels"),
    "F02": dict(bounds="images up to 2x3x3 and 4x3, symbolic content and level in [-4,4]; odd sizes 3..7 (thorough ..11), symbolic sigma in [0.25,8] for the "
                       "weight sums" + "; long axes: 12 samples with 9 smoothing weights",
                outside="even-sized derivative kernels (documented as not well-defined)"),
    "F03": dict(bounds="images up to 4 dimensions with sides 1..5, elements in [-4,4], all 16 padding modes, kernel sizes 1..7, listed sigmas, orders 0..3, "
                       "p in 1..4, symbolic epsilon" + "; long axes: to 40 samples, 13 taps, orders to 5, p to 6",
                outside="other sigma values for images (weights are covered for every sigma by K04)"),
    "F04": dict(bounds="images with sides 1..4, elements in [-4,4], amount in [-4,4], threshold in [0,4], three blurs" + "; long axes: to 30 samples, five axes",
                outside="for blurs with inexact weights, differences within 1e-9 of the threshold"),
}
