"""Guarantees that every operation shares: no effect on inputs, correct gradients, indifference to memory layout and precision."""
import itertools
from fractions import Fraction
import numpy as np
import torch
from torch import nn
from symx import terms as tm
from . import spec
from .pooling import MODES
from .batch import h_batch, g04, JOBS
from .symmetry import h_linear, h_geometry, g06, g07, LIN, GEO
from .local import h_local, h_same, g08, g09, LOC, SAME
from .options import h_options, h_shared, g05

IMPORTS = ("torchimage.padding", "torchimage.padding.generic_pad", "torchimage.pooling", "torchimage.pooling.base", "torchimage.filtering",
           "torchimage.filtering.edges", "torchimage.filtering.sharpen", "torchimage.metrics", "torchimage.metrics.ssim",
           "torchimage.metrics.mse", "torchimage.metrics.psnr", "torchimage.contrib.edge_loss", "torchimage.cfa", "torchimage.cfa.utils",
           "torchimage.cfa.bayer_conv.bayer_conv_2d", "torchimage.misc", "torchimage.random", "torchimage.utils", "torchimage.shapes")
BOX = (-2, 2)


class Op:
    """
    one public operation with fixed settings
    inputs: shapes; make(dtype) -> callable on tensors; other: shapes of an unrelated call
    """

    def __init__(self, inputs, make, other=None, box=BOX, grad=True, tol=None, dtypes=True, f32=1e-4, layouts=True, ints=False, nv=False,
                 away=None, dt=torch.float64, parts=1, half=True):
        self.half = half            # half precision is supported
        self.inputs, self.make, self.other, self.box = [tuple(i) for i in inputs], make, other, box
        self.grad, self.tol, self.dtypes, self.f32, self.layouts, self.ints = grad, tol, dtypes, f32, layouts, ints
        self.nv = nv                # numeric instead of symbolic output weights in the gradient check
        self.away = away            # smallest distance of |x| from zero
        self.parts = parts          # gradient questions asked for this many groups of outputs
        self.dt = dt                # element type of the plain run


STATS = ("maximum", "minimum", "median")


def _padder(mode, pw, shape, axes=None, **kw):
    def make(dt):
        from torchimage.padding import Padder
        p = Padder(pad_width=pw, mode=mode, **kw)
        return lambda x: p.forward(x, axes=axes)
    return Op([shape], make, other=[(2,) * len(shape)], ints=mode not in ("mean", "linear_ramp", "median"), nv=mode in STATS)


def _padax(mode, shape, i, axis, pw=((1, 2), (2, 0)), **kw):
    def make(dt):
        from torchimage.padding import Padder
        p = Padder(pad_width=list(pw), mode=mode, **kw)
        return lambda x: p.pad_axis(x, i=i, axis=axis)
    return Op([shape], make, other=[(2,) * len(shape)], ints=mode not in ("mean", "linear_ramp", "median"), nv=mode in STATS)


def _pool(cls, args, shape, axes=None, kw=None, **o):
    def make(dt):
        import torchimage.pooling as P
        f = getattr(P, cls)(*args, **(kw or {}))
        return lambda x: f.forward(x, axes=axes)
    return Op([shape], make, other=[tuple(s + 1 for s in shape)], **o)


def _filter(cls, args, shape, call, kw=None, **o):
    def make(dt):
        import torchimage.filtering as F
        f = getattr(F, cls)(*args, **(kw or {}))
        return lambda x: call(f, x)
    return Op([shape], make, other=[tuple(s + 1 for s in shape)], **o)


def _metric(cls, kw, shape, call=None, other=None, **o):
    def make(dt):
        import torchimage.metrics as M
        from torchimage.pooling import SeparablePoolNd
        k = dict(kw)
        if "blur" in k and isinstance(k["blur"], (list, tuple)):
            k["blur"] = SeparablePoolNd(list(k["blur"]))
        f = getattr(M, cls)(**k)
        return (lambda p, t: call(f, p, t)) if call else (lambda p, t: f.forward(p, t))
    return Op([shape, shape], make, other=other or [tuple(s + 2 for s in shape)] * 2, **o)


def _loss(cls, shape, **o):
    def make(dt):
        from torchimage.contrib import edge_loss as L
        f = getattr(L, cls)(kernel_size=3, sigma=1.0, order=1)
        return lambda p, t: f.forward(p, t)
    return Op([shape, shape], make, other=[tuple(s + 1 for s in shape)] * 2, **o)


def _fun(inputs, f, **o):
    return Op(inputs, lambda dt: f, **o)


def _cfa(name, *a):
    def f(*xs):
        import torchimage.cfa.utils as U
        return getattr(U, name)(*xs, *a)
    return f


def _last(sa):
    def f(x, y):
        from torchimage.cfa import last_step_demosaic
        return last_step_demosaic(x, y, sa)
    return f


def _demosaic(sa):
    def f(x):
        from torchimage.cfa import demosaic
        return demosaic(x, sa)
    return f


def _bayer(cls, sa):
    def make(dt):
        import torchimage.cfa as C
        f = getattr(C, cls)(1, 2, 3, True)
        with torch.no_grad():
            for i, p in enumerate(("R", "B", "GR", "GB")):
                w = f.conv_dict[p].weight
                w.copy_(torch.tensor([((5 * i + 3 * j) % 7 - 3) / 4 for j in range(w.numel())]).reshape(w.shape))
                f.conv_dict[p].bias.copy_(torch.tensor([0.5 * i, -0.25]))
        f = f.to(dt)
        for q in f.parameters():
            q.requires_grad_(False)
        return lambda x: f(x, sa)
    return make


def _misc(name, *a, **kw):
    def f(*xs):
        import torchimage.misc as M
        return getattr(M, name)(*xs, *a, **kw)
    return f


def _stats(x):
    from torchimage.misc import describe
    d = describe(x)
    return torch.stack([torch.as_tensor(d[k], dtype=x.dtype).reshape(()) for k in ("min", "25%", "50%", "75%", "max", "mean")])


def _unsharp(shape, blur="sep", **kw):
    def make(dt):
        from torchimage.filtering import UnsharpMask
        from torchimage.pooling import SeparablePoolNd, AvgPoolNd
        f = UnsharpMask(SeparablePoolNd([0.25, 0.5, 0.25]) if blur == "sep" else AvgPoolNd(3), padder="reflect", **kw)
        return lambda x: f.forward(x, axes=None)
    return Op([shape], make, other=[tuple(s + 1 for s in shape)])


def registry():
    R = {}
    for m in MODES:
        kw = {}
        if m == "constant":
            kw = dict(constant_values=(0.5, -1.25))
        if m == "linear_ramp":
            kw = dict(end_values=(0.5, -1.0))
        R[f"pad {m}"] = _padder(m, (2, 1), (2, 3) if m not in STATS else (3, 2), **kw)
        R[f"pad axis {m}"] = _padax(m, (3, 2), 1, 0, **kw)
        R[f"pad {m} order"] = _padder(m, [(1, 0), (1, 2)], (2, 2), axes=(1, 0), **kw)
        if m in ("maximum", "minimum", "mean", "median"):
            R[f"pad {m} length"] = _padder(m, (1, 2), (4,), stat_length=(2, 3))
    R["pad zero width"] = _padder("reflect", 0, (2, 2))
    R["pad mixed"] = Op([(2, 3)], _mixed, other=[(3, 2)])
    R["pool separable"] = _pool("SeparablePoolNd", ([0.5, -1.0, 0.25],), (3, 4), kw=dict(stride=2))
    R["pool separable padded"] = _pool("SeparablePoolNd", ([[0.5, 2.0], [1.0, 0.25, -1.0]],), (3, 4), kw=dict(same_padder="symmetric", stride=(1, 2)))
    R["pool separable order"] = _pool("SeparablePoolNd", ([[0.5, 2.0], [1.0, 0.25, -1.0]],), (3, 2, 3), axes=(2, 0), kw=dict(same_padder="odd_reflect"))
    R["pool identity"] = _pool("SeparablePoolNd", ([],), (2, 2))
    R["pool average"] = _pool("AvgPoolNd", (2,), (3, 4), kw=dict(stride=1))
    R["pool average padded"] = _pool("AvgPoolNd", ((2, 3),), (3, 4), kw=dict(same_padder="reflect"))
    R["pool average exclude"] = _pool("AvgPoolNd", ((2, 3),), (3, 4), kw=dict(same_padder="zeros", count_include_pad=False, stride=1))
    R["pool gaussian"] = _pool("GaussianPoolNd", (3, 1.0), (3, 4), kw=dict(same_padder="replicate"))
    R["filter gaussian"] = Op([(2, 3)], _tofilter, other=[(4, 2)])
    hor, ver = (lambda f, x: f.horizontal(x)), (lambda f, x: f.vertical(x))
    for c in ("Sobel", "Prewitt", "Scharr", "Farid"):
        R[f"{c} horizontal"] = _filter(c, (), (3, 3), hor)
    R["Sobel vertical normalised"] = _filter("Sobel", (), (3, 3), ver, dict(normalize=True))
    R["Sobel components"] = _filter("Sobel", (), (2, 3), lambda f, x: torch.stack(tuple(f.all_components(x))))
    for p in (1, 2, 3):
        R[f"Prewitt magnitude {p}"] = _filter("Prewitt", (), (2, 3), lambda f, x, p=p: f.magnitude(x, p=p, epsilon=0.25 if p > 1 else 0.0),
                                              nv=True, tol=1e-6 if p == 3 else None)
    R["Prewitt magnitude 3d"] = _filter("Prewitt", (), (2, 1, 3), lambda f, x: f.magnitude(x, epsilon=2.0 ** -10), dict(same_padder="replicate"), nv=True)
    R["EdgeFilter magnitude 4d"] = _filter("EdgeFilter", ([1.0, -1.0], [1.0, 3.0]), (1, 2, 2, 1), lambda f, x: f.magnitude(x, epsilon=2.0 ** -10), dict(same_padder="reflect"), nv=True)
    R["Prewitt magnitude epsilon zero"] = _filter("Prewitt", (), (2, 2), lambda f, x: f.magnitude(x), grad=False)
    R["GaussianGrad"] = _filter("GaussianGrad", (3, 1.0), (3, 3), hor)
    R["EdgeFilter"] = _filter("EdgeFilter", ([1.0, -2.0, 0.5], [1.0, 3.0]), (3, 3), lambda f, x: f.component(x, 1, 0), dict(same_padder="smooth"))
    R["Laplace"] = _filter("Laplace", (), (3, 3), lambda f, x: f.forward(x, axes=None))
    R["Laplace axes"] = _filter("Laplace", (), (2, 3, 2), lambda f, x: f.forward(x, axes=(2, 0)))
    R["LoG"] = _filter("LaplacianOfGaussian", (3, 1.0), (3, 3), lambda f, x: f.forward(x, axes=None))
    R["unsharp"] = _unsharp((2, 3))
    R["unsharp average"] = _unsharp((3, 2), "avg", amount=1.5)
    R["unsharp threshold"] = _unsharp((2, 3), amount=2.0, threshold=0.5)
    R["MSE"] = _metric("MSE", {}, (2, 3))
    R["MSE none"] = _metric("MSE", dict(reduction="none"), (2, 3))
    R["MSE sum axes"] = _metric("MSE", dict(reduction="sum"), (2, 3), lambda f, p, t: f.forward(p, t, reduce_axes=(1,)))
    R["PSNR"] = _metric("PSNR", dict(eps=0.25), (2, 2), tol=1e-6)
    R["PSNR axes"] = _metric("PSNR", dict(max_value=255, eps=0.5, reduction="mean"), (2, 2), lambda f, p, t: f.forward(p, t, reduce_axes=(-1,)), tol=1e-6, f32=1e-2)
    R["SSIM"] = _metric("SSIM", dict(blur=[0.5, 0.5], padder="reflect", K1=0.25, K2=0.5, crop_border=False), (1, 1, 2, 2), nv=True, f32=1e-3)
    R["SSIM 1d"] = _metric("SSIM", dict(blur=[0.5, 0.5], padder="replicate", K1=0.25, K2=0.5), (1, 1, 3), nv=True, f32=1e-3)
    R["SSIM full"] = _metric("SSIM", dict(blur=[0.25, 0.5, 0.25], padder="reflect", K1=0.25, K2=0.5), (1, 1, 3), lambda f, p, t: f.forward(p, t, full=True)[1],
                             nv=True, f32=1e-3)
    R["SSIM axes"] = _metric("SSIM", dict(blur=[0.5, 0.5], padder=None, K1=0.25, K2=0.5, use_sample_covariance=False), (3, 2),
                             lambda f, p, t: f.forward(p, t, content_axes=(0,), reduce_axes=(0,)), other=[(4, 3)] * 2, nv=True, f32=1e-3)
    R["MS_SSIM sum"] = _metric("MS_SSIM", dict(blur=[0.5, 0.5], padder="reflect", K1=0.25, K2=0.5, weights=[0.5, 0.25], use_prod=False),
                               (1, 1, 5), other=[(1, 1, 6)] * 2, nv=True, f32=1e-3)
    R["MS_SSIM product"] = _metric("MS_SSIM", dict(blur=[0.5, 0.5], padder="reflect", K1=0.25, K2=0.5, weights=[0.5, 2.0]), (1, 1, 5),
                                   other=[(1, 1, 6)] * 2, grad=False, f32=1e-3)
    for c in ("GaussianEdgeLoss", "WeightedMul", "WeightedSum"):
        R[c] = _loss(c, (1, 1, 3, 2), f32=1e-3 if c != "WeightedMul" else None)
    R["WeightedDiv"] = _loss("WeightedDiv", (1, 1, 3, 2), grad=False, dtypes=False)
    for n, s in (("bayer_1c_to_4c", (2, 1, 4, 2)), ("bayer_4c_to_1c", (2, 4, 2, 1))):
        R[n] = _fun([s], _cfa(n), ints=True)
    for sa in ("RGGB", "GBRG"):
        for n, s in (("rgb_to_1c_bayer", (3, 2, 4)), ("rgb_to_4c_bayer", (3, 2, 4)), ("downsample_1c_bayer_to_rgb", (1, 2, 4)), ("downsample_4c_bayer_to_rgb", (4, 1, 2))):
            R[f"{n} {sa}"] = _fun([s], _cfa(n, sa), ints=n.startswith("rgb"))
        R[f"last_step_demosaic {sa}"] = _fun([(1, 2, 2), (2, 2, 2)], _last(sa))
    R["demosaic"] = _fun([(1, 4, 4)], _demosaic("GRBG"), dtypes=False, dt=torch.float32, nv=True, parts=11)
    R["BayerConv2d"] = Op([(1, 1, 4, 4)], _bayer("BayerConv2d", "BGGR"), other=[(2, 1, 4, 6)], tol=1e-4)
    R["BayerConv2dUnshuffle"] = Op([(1, 1, 4, 4)], _bayer("BayerConv2dUnshuffle", "GRBG"), tol=1e-4)
    R["poly1d"] = _fun([(2, 2)], _misc("poly1d", [0.5, -2.0, 3.0, 1.0]), f32=1e-3)
    R["poly1d constant"] = _fun([(2,)], _misc("poly1d", [1.5]), grad=False)
    R["poly1d line"] = _fun([(2,)], _misc("poly1d", [1.5, 2.0]))
    R["power whole"] = _fun([(2, 2)], _misc("safe_power", 3.0), f32=1e-3)
    R["power fraction"] = _fun([(3,)], _misc("safe_power", 1.5), away=Fraction(1, 16), tol=1e-6, f32=1e-3)
    R["power half"] = _fun([(3,)], _misc("safe_power", 0.5), away=Fraction(1, 16), tol=1e-6, f32=1e-2)
    R["outer"] = _fun([(2,), (3,)], _misc("outer"), ints=True)
    R["outer 2d"] = _fun([(2, 1), (2, 2)], _misc("outer"))
    R["describe"] = _fun([(2, 2)], _stats, grad=False, half=False)
    return R


def _mixed(dt):
    from torchimage.padding import Padder
    p = Padder(pad_width=[(2, 0), (1, 1)], mode=["symmetric", "smooth"])
    return lambda x: p.forward(x, axes=None)


def _tofilter(dt):
    from torchimage.pooling import GaussianPoolNd
    f = GaussianPoolNd(3, 0.8).to_filter("circular")
    return lambda x: f.forward(x, axes=(1, 0))


def _sib_gauss(dt):
    """neighbouring settings of the same building blocks"""
    from torchimage.pooling import GaussianPoolNd, AvgPoolNd, SeparablePoolNd
    from torchimage.pooling.gaussian import gaussian_kernel_1d
    from torchimage.filtering import GaussianGrad, LaplacianOfGaussian
    z = torch.ones((4, 4), dtype=dt)
    for n in (2, 3, 4, 5):
        for s in (1.0, 0.8):
            for o in (0, 1, 2):
                gaussian_kernel_1d(n, s, o)
        GaussianPoolNd(n, 1.0, same_padder="replicate").forward(z, axes=None)
    GaussianGrad(5, 1.0).horizontal(z)
    LaplacianOfGaussian(5, 1.0).forward(z, axes=None)


def _sib_pool(dt):
    from torchimage.pooling import AvgPoolNd, SeparablePoolNd
    z = torch.ones((4, 5), dtype=dt)
    for inc in (True, False):
        AvgPoolNd((2, 3), stride=2, same_padder="zeros", count_include_pad=inc).forward(z, axes=None)
        AvgPoolNd(2, count_include_pad=inc).forward(z, axes=0)
    SeparablePoolNd([3.0, 4.0, 5.0], stride=1, same_padder="reflect").forward(z, axes=None)
    SeparablePoolNd([[1.0, 1.0], [2.0]], stride=1).forward(z, axes=None)


def _sib_filter(dt):
    import torchimage.filtering as F
    z = torch.ones((4, 5), dtype=dt)
    for c in ("Sobel", "Prewitt", "Scharr", "Farid"):
        for n in (True, False):
            getattr(F, c)(normalize=n, same_padder="replicate").all_components(z)
    F.Laplace(same_padder="constant").forward(z, axes=None)
    F.EdgeFilter([-1, 0, 1.5], [1.0, 3.0], same_padder="smooth").component(z, 0, 1)
    _sib_gauss(dt)


def _sib_pad(dt):
    from torchimage.padding import Padder
    z = torch.ones((2, 3), dtype=dt)
    Padder(pad_width=(1, 3), mode="constant", constant_values=(7, 8)).forward(z, axes=None)
    Padder(pad_width=(2, 1), mode="linear_ramp", end_values=(7.0, 8.0)).forward(z.to(torch.float64), axes=None)
    Padder(pad_width=(2, 1), mode="maximum", stat_length=1).forward(z, axes=None)
    Padder(pad_width=[(1, 1), (2, 2)], mode=["reflect", "periodize"]).forward(z, axes=None)


def _sib_metric(dt):
    import torchimage.metrics as M
    a, b = torch.ones((1, 1, 12), dtype=dt), torch.zeros((1, 1, 12), dtype=dt)
    M.MSE(reduction="sum").forward(a, b)
    M.PSNR(max_value=7).forward(a, b)
    M.SSIM(K1=0.3, K2=0.1).forward(a, b)
    _sib_gauss(dt)


def _sib_cfa(dt):
    import torchimage.cfa.utils as U
    from torchimage.cfa import demosaic
    z = torch.arange(48, dtype=dt).reshape(3, 4, 4)
    for sa in ("RGGB", "GRBG", "GBRG", "BGGR"):
        m = U.rgb_to_1c_bayer(z, sa)
        U.downsample_1c_bayer_to_rgb(m.to(torch.float32), sa)
        demosaic(m.to(torch.float32), sa)


def _siblings(n):
    out = []
    for key, fs in (("pad", [_sib_pad]), ("pool", [_sib_pool, _sib_gauss]), ("filter", [_sib_gauss]), ("SIM", [_sib_metric]), ("MSE", [_sib_metric]),
                    ("PSNR", [_sib_metric]), ("ayer", [_sib_cfa]), ("demosaic", [_sib_cfa]), ("Grad", [_sib_filter]), ("LoG", [_sib_filter]),
                    ("Sobel", [_sib_filter]), ("Prewitt", [_sib_filter]), ("Scharr", [_sib_filter]), ("Farid", [_sib_filter]), ("EdgeFilter", [_sib_filter]),
                    ("Laplace", [_sib_filter]), ("unsharp", [_sib_pool, _sib_gauss]), ("Loss", [_sib_filter]), ("Weighted", [_sib_filter])):
        if key in n:
            out += [f for f in fs if f not in out]
    return out


OPS = registry()
SIBLINGS = {n: _siblings(n) for n in OPS}
NAMES = ("a", "b", "c")


def _shares(y, xs):
    return any(y.untyped_storage().data_ptr() == x.untyped_storage().data_ptr() for x in xs)


# ---------------------------------------------------------------- inputs are left alone
def h_pure(ctx, cfg):
    op = OPS[cfg["op"]]
    dt = {"f32": torch.float32, "int": torch.int64}.get(cfg.get("dt"), op.dt)
    xs = [ctx.tensor(n, s, *op.box, dtype=dt) for n, s in zip(NAMES, op.inputs)]
    for n, x in zip(NAMES, xs):
        if op.away:
            for v in ctx.inputs[n][1].reshape(-1):
                ctx.assume(tm.le(op.away, tm.absv(v)))
    f = op.make(dt)

    def intact(when):
        for n, x in zip(NAMES, xs):
            ctx.unchanged(x, n, f"input unchanged {when}")
    y = f(*xs)
    Y = ctx.elems(y)
    intact("by the call")
    tol = None if ctx.symbolic else 1e-9
    if cfg.get("between"):
        for g in SIBLINGS.get(cfg["op"], ()):
            g(dt)
        os = [ctx.tensor("o" + n, s, *op.box, dtype=dt) for n, s in zip(NAMES, op.other or op.inputs)]
        if op.away:
            for n in NAMES[:len(os)]:
                for v in ctx.inputs["o" + n][1].reshape(-1):
                    ctx.assume(tm.le(op.away, tm.absv(v)))
        f(*os)
        ctx.equal(y, Y, "earlier result untouched by a later call", tol=tol)
    ctx.equal(f(*xs), Y, "same call again", tol=tol)
    intact("by a second call")
    if not _shares(y, xs) and 0 not in y.stride() or y.numel() == 0:
        with torch.no_grad():
            y.zero_().add_(3)
        intact("by writing to the result")
        ctx.equal(f(*xs), Y, "same call after writing to the first result", tol=tol)
    ctx.equal(op.make(dt)(*xs), Y, "fresh operator", tol=tol)


# ---------------------------------------------------------------- gradients
MARGIN = Fraction(1, 256)


def h_grad(ctx, cfg):
    op = OPS[cfg["op"]]
    xs = [ctx.tensor(n, s, *op.box, dtype=op.dt, requires_grad=True) for n, s in zip(NAMES, op.inputs)]
    ins = [ctx.inputs[n][1] for n in NAMES[:len(xs)]]
    if op.away:
        for X in ins:
            for v in X.reshape(-1):
                ctx.assume(tm.le(op.away, tm.absv(v)))
    f = op.make(op.dt)
    y = f(*xs)
    shape = tuple(y.shape)
    if op.nv:
        v = torch.tensor([((7 * j) % 5 - 1.5) / 2 for j in range(max(1, int(np.prod(shape))))], dtype=op.dt).reshape(shape)
        if op.parts > 1:
            keep = torch.arange(v.numel()) % op.parts == cfg["part"]
            v = v * keep.reshape(shape)
        V = np.array([tm.norm(float(u)) for u in v.reshape(-1)], dtype=object).reshape(shape)
    else:
        v = ctx.tensor("v", shape, -2, 2, dtype=op.dt)
        V = ctx.inputs["v"][1]
    ctx.check(bool(y.requires_grad), "the result is differentiable")
    if ctx.symbolic:
        Y = ctx.elems(y)
        conds = [e[1] for e in ctx.pc if e[0] == "d"]
        for b in tm.boundaries([y for y, w in zip(Y.reshape(-1), V.reshape(-1)) if tm.is_t(w) or w != 0] + conds):
            if b.sort == "R":
                ctx.assume(tm.or_(tm.le(MARGIN, b), tm.le(b, -MARGIN)))
    ctx.backward(y, v)
    if ctx.symbolic:
        S = tm.sum_terms([tm.mul(a, b) for a, b in zip(V.reshape(-1), Y.reshape(-1))])
        for n, x, X in zip(NAMES, xs, ins):
            want = np.array(tm.gradient(S, list(X.reshape(-1))) + [None], dtype=object)[:-1].reshape(X.shape)
            ctx.check(x.grad is not None, "a gradient reaches the input")
            ctx.equal(x.grad, want, f"gradient with respect to input {n}", tol=op.tol)
        return
    for n, x in zip(NAMES, xs):
        ctx.check(x.grad is not None, "a gradient reaches the input")
    with torch.no_grad():
        H, slack = (2 ** -13, 1e-2) if op.dt == torch.float64 else (2 ** -9, 5e-2)
        base = [x.detach().clone() for x in xs]

        def at(k, i, h):
            z = [b.clone() for b in base]
            z[k].view(-1)[i] += h
            return float((f(*z).to(torch.float64) * v).sum())
        for k, x in enumerate(xs):
            for i in range(x.numel()):
                c = at(k, i, 0.0)
                d1, d2 = [(at(k, i, h) - at(k, i, -h)) / (2 * h) for h in (H, 2 * H)]
                left, right = (c - at(k, i, -H / 64)) / (H / 64), (at(k, i, H / 64) - c) / (H / 64)
                scale = max(1.0, abs(d1))
                if abs(left - right) > slack * scale or abs(d1 - d2) > slack / 10 * scale:
                    continue                   # not smooth here
                g = float(x.grad.reshape(-1)[i])
                ctx.check(abs(g - d1) <= slack / 5 * scale + 4 * abs(d1 - d2), f"gradient with respect to input {NAMES[k]}[{i}]: got {g}, finite differences give {d1}")


# ---------------------------------------------------------------- layout and precision
def _layout(kind, shape):
    """shape of a base tensor and the view of it that has the requested shape"""
    nd = len(shape)
    if kind == "transposed":
        return shape[::-1], lambda t: t.permute(*range(nd)[::-1]) if isinstance(t, torch.Tensor) else np.transpose(t)
    if kind == "strided":
        return tuple(2 * s for s in shape), lambda t: t[tuple(slice(1, None, 2) for _ in shape)]
    if kind == "offset":
        return tuple(s + 1 for s in shape), lambda t: t[tuple(slice(1, None) for _ in shape)]
    if kind == "expanded":
        return (1,) + tuple(shape[1:]), lambda t: t.expand(shape) if isinstance(t, torch.Tensor) else np.broadcast_to(t, shape)
    if kind == "expanded last":
        return tuple(shape[:-1]) + (1,), lambda t: t.expand(shape) if isinstance(t, torch.Tensor) else np.broadcast_to(t, shape)
    if kind == "channels last":
        order = (0,) + tuple(range(2, nd)) + (1,)
        back = (0, nd - 1) + tuple(range(1, nd - 1))
        return tuple(shape[i] for i in order), lambda t: t.permute(*back) if isinstance(t, torch.Tensor) else np.transpose(t, back)
    raise AssertionError(kind)


def h_layout(ctx, cfg):
    op = OPS[cfg["op"]]
    xs, cs = [], []
    dt = torch.int64 if cfg.get("dt") == "int" else op.dt
    for n, s in zip(NAMES, op.inputs):
        bs, view = _layout(cfg["layout"], s)
        t = ctx.tensor(n, bs, *op.box, dtype=dt)
        xs.append(view(t))
        cs.append(view(t).contiguous().clone(memory_format=torch.contiguous_format))
        if op.away:
            for v in ctx.inputs[n][1].reshape(-1):
                ctx.assume(tm.le(op.away, tm.absv(v)))
    for x, s in zip(xs, op.inputs):
        assert tuple(x.shape) == s
    f = op.make(dt)
    want = ctx.elems(f(*cs))
    y = f(*xs)
    ctx.equal(y, want, f"{cfg['layout']} input", tol=None if ctx.symbolic else 1e-9)
    for n in NAMES[:len(xs)]:
        ctx.unchanged(ctx.inputs[n][0], n, "underlying memory unchanged")


def h_dtype(ctx, cfg):
    op = OPS[cfg["op"]]
    half = {"f16": torch.float16, "bf16": torch.bfloat16}.get(cfg.get("dt"))
    if half:
        xs = [ctx.tensor(n, s, *op.box, dtype=half) for n, s in zip(NAMES, op.inputs)]
        y = op.make(half)(*xs)
        return ctx.check(y.dtype == half, f"result of a {half} input is {y.dtype}")
    xs = [ctx.tensor(n, s, *op.box, dtype=torch.float32) for n, s in zip(NAMES, op.inputs)]
    if op.away:
        for n in NAMES[:len(xs)]:
            for v in ctx.inputs[n][1].reshape(-1):
                ctx.assume(tm.le(op.away, tm.absv(v)))
    y = op.make(torch.float32)(*xs)
    ctx.check(y.dtype == torch.float32, "single precision kept")
    z = op.make(torch.float64)(*[x.double() for x in xs])
    ctx.check(z.dtype == torch.float64, "double precision kept")
    if op.f32:
        ctx.equal(y, ctx.elems(z), "single precision against double precision", tol=op.f32)


HARNESS = {f.__name__: f for f in (h_pure, h_grad, h_layout, h_dtype, h_batch, h_options, h_shared, h_linear, h_geometry, h_local, h_same)}


def g01(tier):
    out = []
    for n, op in OPS.items():
        out.append(dict(h="h_pure", op=n, between=True))
        if op.ints:
            out.append(dict(h="h_pure", op=n, dt="int"))
        if tier == "thorough" and op.dtypes:
            out.append(dict(h="h_pure", op=n, dt="f32", between=True))
    return out


def g02(tier):
    return [dict(h="h_grad", op=n, **({"part": i} if op.parts > 1 else {})) for n, op in OPS.items() if op.grad for i in range(op.parts)]


def g03(tier):
    out = []
    for n, op in OPS.items():
        if op.layouts:
            nd = min(len(s) for s in op.inputs)
            kinds = ["strided", "expanded", "offset"] + (["transposed", "expanded last"] if nd > 1 else []) + (["channels last"] if nd >= 3 else [])
            out += [dict(h="h_layout", op=n, layout=k) for k in kinds]
        if op.dtypes:
            out.append(dict(h="h_dtype", op=n))
            if op.half:
                out += [dict(h="h_dtype", op=n, dt=d) for d in ("f16", "bf16")]
    return out


PROPS = {"G08": g08, "G09": g09, "G06": g06, "G07": g07, "G05": g05, "G04": g04, "G01": g01, "G02": g02, "G03": g03}
META = {
    "G08": dict(bounds=f"{len(LOC)} operations with fixed settings on images of up to 100 symbolic elements in [-2,2], one window each (at the border where both images "
                       "share it)", outside="other settings, sizes and windows; circular and periodised borders"),
    "G09": dict(bounds=f"{len(SAME)} requests with fixed settings on images of up to 18 symbolic elements in [-2,2], each written in 2 to 12 ways", outside="other settings and sizes"),
    "G06": dict(bounds=f"{len(LIN)} operations with fixed settings on images of up to 24 symbolic elements, factors and levels symbolic in [-2,2] "
                       "(factors 4 and 1/2 where only scaling is stated)", outside="other settings and sizes"),
    "G07": dict(bounds=f"{len(GEO)} operations with fixed settings on images of up to 16 symbolic elements in [-2,2]; mirrored along each axis and both, "
                       "up to two orders of the axes", outside="other settings and sizes; even kernels under same-padding, which are not centred"),
    "G05": dict(bounds="ten kinds of options as lists, tuples and arrays with symbolic numbers in [-2,2]; pairs of layers around one padder or one filter, "
                       "every order of two (thorough three) calls on images of two shapes", outside="using a padder directly after handing it to a layer (documented as modified in place)"),
    "G04": dict(bounds=f"{len(JOBS)} operations with fixed settings, batches of 1..3 images with 1..3 channels of up to 12 symbolic elements in [-2,2]", outside="other settings and sizes"),
    "G01": dict(bounds=f"{len(OPS)} operations with fixed settings on inputs of 2..18 symbolic elements in [-2,2]", outside="other settings and sizes"),
    "G02": dict(bounds="the differentiable ones among them, every point at least 1/256 away from a branch boundary (a tie, a clamp limit, a threshold); "
                       "output weights symbolic in [-2,2], fixed for magnitudes and similarity", outside="the boundaries themselves; operations whose formula "
                       "has poles (WeightedDiv) or symbolic powers of similarities (MS_SSIM product)"),
    "G03": dict(bounds="six memory layouts (transposed, every-other, offset, expanded along the first or last axis, channels last); single against double "
                       "precision over exact arithmetic with the constants each precision uses", outside="rounding inside the kernels"),
}
