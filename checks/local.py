"""Results are local (a window of the image gives that window of the result), and equivalent ways of asking give equal results."""
import itertools
import numpy as np
import torch
from fractions import Fraction
from symx import terms as tm
from .pooling import MODES
from .symmetry import _padder, _pool, _filt, _sharp, _cfa, _bayer, _metric, _loss, comps, hor, ver, BOX, TOL, _p

# modes whose border follows from the samples near it
NEAR = ("zeros", "constant", "reflect", "replicate", "symmetric", "odd_reflect", "odd_symmetric", "antireflect", "antisymmetric", "smooth")


class Loc:
    """
    shape; crops: per listed axis (start, stop); need: samples (before, after) each result depends on, per axis;
    stride: steps of the input per result along the axis; edge: at a border both images share, the result is the same up to it
    lead: result axes in front of the image's
    """

    def __init__(self, shape, make, crops, need, stride=None, edge=False, k=1, tol=None, dt=torch.float64, off=None, scale=1, short=None, crop_make=None):
        self.shape, self.make, self.crops, self.k, self.tol, self.dt, self.scale = tuple(shape), make, crops, k, tol, dt, scale
        self.need = need                        # axis -> (before, after)
        self.stride = stride or {}
        self.edge = edge
        self.off = off or {}                    # axis of the image -> axis of the result
        self.short = short or {}                # axis -> kernel size, when nothing is padded
        self.crop_make = crop_make or make


def loc_jobs():
    R = {}
    C = {0: (1, 6), 1: (2, 7)}
    for st in (1, 2, 3):
        for k in ([0.5, 2.0, -1.0], [1.0, 0.25], [1.0, -0.5, 0.25, 3.0]):
            n = 3 * st + len(k) + 2
            R[f"pool {len(k)} {st}"] = Loc((n, 2), _pool("SeparablePoolNd", k, stride=st, axes=(0,)), {0: (st, n - 1)}, {0: (0, 0)}, {0: st}, short={0: len(k)})
        R[f"average {st}"] = Loc((5, 2 * st + 4), _pool("AvgPoolNd", (2, 3), stride=(1, st), axes=None), {0: (1, 5), 1: (st, 2 * st + 4)}, {}, {1: st}, short={0: 2, 1: 3}, tol=TOL)
        R[f"gaussian {st}"] = Loc((2 * st + 5, 4), _pool("GaussianPoolNd", 3, 1.0, stride=(st, 1), axes=None), {0: (st, 2 * st + 5), 1: (0, 3)}, {}, {0: st}, short={0: 3, 1: 3}, tol=TOL)
    for m in MODES:
        if m == "periodize":
            continue
        edge = m in NEAR
        kw = {}
        S = _pool("SeparablePoolNd", [[0.5, 2.0, -1.0], [1.0, 0.25]], stride=1, same_padder=m, axes=None)
        two = {0: (1, 1), 1: (1, 1)}
        R[f"filter {m}"] = Loc((7, 8), S, {0: (1, 6), 1: (2, 7)}, two)
        five = _pool("SeparablePoolNd", [0.25, -1.0, 0.5, 2.0, 0.125], stride=1, same_padder=m, axes=(0,))
        R[f"filter five {m}"] = Loc((11, 2), five, {0: (1, 9)}, {0: (2, 2)})
        if edge:
            R[f"filter edge {m}"] = Loc((7, 8), S, {0: (0, 5), 1: (4, 8)}, two, edge=True)
            R[f"filter five edge {m}"] = Loc((11, 1), five, {0: (0, 8)}, {0: (2, 2)}, edge=True)
            R[f"filter five end {m}"] = Loc((11, 1), five, {0: (3, 11)}, {0: (2, 2)}, edge=True)
            R[f"filter rows {m}"] = Loc((4, 8), S, {1: (3, 8)}, two, edge=True)
            E = _filt("EdgeFilter", lambda f, x: f.component(x, 1, 0), [1.0, -3.0, 0.5], [2.0, 1.0, 0.25], same_padder=m)
            R[f"edge {m}"] = Loc((6, 6), E, {0: (0, 4), 1: (2, 6)}, {0: (1, 1), 1: (1, 1)}, edge=True)
    for inc in (True, False):
        A = _pool("AvgPoolNd", 3, stride=1, same_padder="zeros", count_include_pad=inc, axes=None)
        R[f"average filter {inc}"] = Loc((7, 6), A, {0: (2, 7), 1: (0, 4)}, {0: (1, 1), 1: (1, 1)}, edge=True, tol=TOL)
    one = {0: (1, 1), 1: (1, 1)}
    for c, a, kw in [(c, (), {}) for c in ("Sobel", "Prewitt", "Scharr", "Farid")] + [("Sobel", (), dict(normalize=True)), ("GaussianGrad", (5, 1.0), {}), ("GaussianGrad", (3, 0.7), dict(edge_order=2))]:
        need = one if c not in ("Farid",) and a != (5, 1.0) else {0: (2, 2), 1: (2, 2)}
        for pd in ("replicate", "reflect"):
            kw2 = dict(kw, same_padder=pd)
            n = f"{c} {len(kw)} {len(a)} {kw.get('edge_order', 1)} {pd}"
            R[f"{n} horizontal"] = Loc((7, 8), _filt(c, hor, *a, **kw2), {0: (0, 5), 1: (2, 7)}, need, edge=True, tol=TOL)
            R[f"{n} vertical"] = Loc((8, 7), _filt(c, ver, *a, **kw2), {0: (1, 7), 1: (2, 7)}, need, edge=True, tol=TOL)
        R[f"{n} magnitude"] = Loc((6, 7), _filt(c, lambda f, x: f.magnitude(x, axes=None, p=2, epsilon=0.25), *a, **kw2), {0: (1, 6), 1: (0, 5)}, need, edge=True, tol=TOL)
    L = _filt("Laplace", lambda f, x: f.forward(x, axes=None), same_padder="replicate")
    R["Laplace"] = Loc((6, 7), L, {0: (1, 6), 1: (0, 5)}, one, edge=True)
    R["Laplace 3d"] = Loc((4, 4, 4), L, {0: (0, 3), 2: (1, 4)}, {0: (1, 1), 2: (1, 1)}, edge=True)
    R["LoG"] = Loc((8, 7), _filt("LaplacianOfGaussian", lambda f, x: f.forward(x, axes=None), 5, 1.0, same_padder="symmetric"), {0: (1, 8), 1: (0, 6)}, {0: (2, 2), 1: (2, 2)}, edge=True, tol=TOL)
    for a, t in ((1.5, 0), (2.0, 0.5), (-1.0, 0.25)):
        R[f"unsharp {a} {t}"] = Loc((6, 5), _sharp([0.25, 0.5, 0.25], amount=a, threshold=t, padder="reflect"), {0: (1, 6), 1: (0, 4)}, one, edge=True)
    R["MSE none"] = Loc((4, 5), _metric("MSE", reduction="none"), {0: (1, 4), 1: (2, 3)}, {}, k=2, edge=True)
    for pd in ("reflect", "replicate", "symmetric"):
        for sc in (True, False):
            Q = _metric("SSIM", lambda f, p, t: f.forward(p, t, content_axes=(2,), full=True)[1], blur=[0.25, 0.5, 0.25], padder=pd, K1=0.25, K2=0.5, use_sample_covariance=sc)
            R[f"SSIM map {pd} {sc}"] = Loc((1, 1, 7), Q, {2: (0, 5)}, {2: (1, 1)}, k=2, edge=True)
            R[f"SSIM map end {pd} {sc}"] = Loc((1, 1, 7), Q, {2: (2, 7)}, {2: (1, 1)}, k=2, edge=True)
    Q = _metric("SSIM", lambda f, p, t: f.forward(p, t, full=True)[1], blur=[0.25, 0.5], padder="replicate", K1=0.25, K2=0.5)
    R["SSIM map 2d"] = Loc((1, 1, 4, 4), Q, {2: (0, 3), 3: (1, 4)}, {2: (1, 1), 3: (1, 1)}, k=2, edge=True)
    for n in ("poly1d", "safe_power"):
        def make(n=n):
            import torchimage.misc as M
            return (lambda x: M.poly1d(x, [1.0, -2.0, 0.5])) if n == "poly1d" else (lambda x: M.safe_power(x, 3))
        R[n] = Loc((4, 3), make, {0: (1, 3), 1: (0, 2)}, {}, edge=True)
    turn = {(0, 0): lambda s: s, (1, 0): lambda s: s[2:] + s[:2], (0, 1): lambda s: s[1] + s[0] + s[3] + s[2], (1, 1): lambda s: s[::-1]}
    for sa in ("RGGB", "GRBG", "GBRG", "BGGR"):
        for (a, b), t in turn.items():                # an odd offset turns the sensor's pattern
            w = {1: (a, a + 4), 2: (b, b + 4)}
            R[f"rgb_to_1c_bayer {sa} {a}{b}"] = Loc((3, 6, 6), _cfa("rgb_to_1c_bayer", sa), w, {}, edge=True, crop_make=_cfa("rgb_to_1c_bayer", t(sa)))
            w = {2: (a, a + 6), 3: (b, b + 6)}
            three = {2: (1, 1), 3: (1, 1)}
            R[f"BayerConv2d {sa} {a}{b}"] = Loc((1, 1, 8, 8), _bayer("BayerConv2d", sa), w, three, crop_make=_bayer("BayerConv2d", t(sa)), dt=torch.float32)
            R[f"BayerConv2dUnshuffle {sa} {a}{b}"] = Loc((1, 1, 8, 8), _bayer("BayerConv2dUnshuffle", sa), {2: (2 * a, 2 * a + 6), 3: (2 * b, 2 * b + 6)}, {2: (1, 1), 3: (1, 1)}, stride={2: 2, 3: 2}, dt=torch.float32)
            w = {2: (a, a + 8), 3: (b, b + 8)}
            R[f"demosaic {sa} {a}{b}"] = Loc((1, 1, 10, 10), _demosaic(sa), w, {2: (2, 2), 3: (2, 2)}, crop_make=_demosaic(t(sa)), dt=torch.float32, tol=1e-6)
        w = {1: (2, 4), 2: (0, 4)}
        R[f"downsample {sa}"] = Loc((1, 6, 6), _cfa("downsample_1c_bayer_to_rgb", sa), w, {}, stride={1: 2, 2: 2}, edge=True)
        R[f"downsample 4c {sa}"] = Loc((4, 3, 3), _cfa("downsample_4c_bayer_to_rgb", sa), {1: (1, 3), 2: (0, 2)}, {}, edge=True)
        R[f"rgb_to_4c_bayer {sa}"] = Loc((3, 6, 6), _cfa("rgb_to_4c_bayer", sa), w, {}, stride={1: 2, 2: 2}, edge=True)
    R["bayer_1c_to_4c"] = Loc((1, 6, 6), _cfa("bayer_1c_to_4c"), {1: (2, 6), 2: (2, 4)}, {}, stride={1: 2, 2: 2}, edge=True)
    R["bayer_4c_to_1c"] = Loc((4, 3, 4), _cfa("bayer_4c_to_1c"), {1: (1, 3), 2: (0, 3)}, {}, stride={1: Fraction(1, 2), 2: Fraction(1, 2)}, edge=True)
    return R


def _demosaic(sa):
    def make():
        from torchimage.cfa import demosaic
        return lambda x: demosaic(x, sa)
    return make


LOC = loc_jobs()


def h_local(ctx, cfg):
    job, name = LOC[cfg["job"]], cfg["job"]
    xs = [ctx.tensor(n, job.shape, *BOX, dtype=job.dt) for n in ("x", "z")[:job.k]]
    cut = tuple(slice(*job.crops.get(a, (None, None))) for a in range(len(job.shape)))
    Y = ctx.elems(job.make()(*xs))
    Z = ctx.elems(job.crop_make()(*[x[cut] for x in xs]))
    full, part = [], []
    for a, n in enumerate(job.shape):
        if a not in job.crops:
            full.append(slice(None))
            part.append(slice(None))
            continue
        b, e = job.crops[a]
        st = job.stride.get(a, 1)
        lo, hi = job.need.get(a, (0, 0))
        m = (e - b - job.short[a]) // st + 1 if a in job.short else int((e - b) / st)
        if not (job.edge and b == 0):
            b0 = lo
        else:
            b0 = 0
        e0 = m if job.edge and e == n else m - hi
        ctx.check(Z.shape[a] == m, f"{name}: the window has the size of its result")
        ctx.check(e0 > b0, f"{name}: something to compare")
        o = Fraction(b) / st
        assert o.denominator == 1
        full.append(slice(b0 + int(o), e0 + int(o)))
        part.append(slice(b0, e0))
    tol = job.tol
    if not ctx.symbolic:
        tol = max(tol or 0, 1e-9 if job.dt == torch.float64 else 1e-4)
    ctx.equal(Z[tuple(part)], Y[tuple(full)], f"{name}: the result of a window of the image", tol=tol)


# ---------------------------------------------------------------- equivalent ways of asking
class Same:
    def __init__(self, shape, first, *others, k=1, tol=None, dt=torch.float64):
        self.shape, self.first, self.others, self.k, self.tol, self.dt = tuple(shape), first, others, k, tol, dt


def _axes_forms(nd, axes):
    """ways of writing a tuple of axes"""
    out = [list(axes), tuple(a - nd for a in axes), tuple(a - nd if i % 2 else a for i, a in enumerate(axes)), np.array(axes), torch.tensor(axes), range(axes[0], axes[-1] + 1) if list(axes) == list(range(axes[0], axes[-1] + 1)) else list(axes)]
    if list(axes) == list(range(nd)):
        out += [None, slice(None), slice(0, nd), slice(0, 99)]
    if len(axes) == 1:
        out += [axes[0], axes[0] - nd]
    if list(axes) == list(range(axes[0], nd)):
        out += [slice(axes[0], None), slice(axes[0] - nd, None)]
    return out


def same_jobs():
    R = {}

    def ax(name, shape, make, call, axes, k=1, tol=None, default=None):
        mk = lambda a: (lambda: (lambda f: (lambda *x: call(f, x, a)))(make()))
        others = [mk(a) for a in _axes_forms(len(shape), axes)]
        if default is not None:
            others.append(lambda: (lambda f: (lambda *x: default(f, x)))(make()))
        R[f"axes {name} {axes}"] = Same(shape, mk(tuple(axes)), *others, k=k, tol=tol)
    import importlib
    P = lambda: importlib.import_module("torchimage.pooling")
    F = lambda: importlib.import_module("torchimage.filtering")
    M = lambda: importlib.import_module("torchimage.metrics")
    D = lambda: importlib.import_module("torchimage.padding")
    fw = lambda f, x, a: f.forward(*x, axes=a)
    for axes in ((0,), (1,), (0, 1), (1, 0)):
        shape = (4, 3)
        ax("pool", shape, lambda: P().SeparablePoolNd([0.5, 2.0, -1.0], stride=1, same_padder="replicate"), fw, axes)
        ax("pool two", (5, 3), lambda axes=axes: P().SeparablePoolNd([[0.5, 2.0], [1.0, 0.25, -1.0]][:len(axes)], stride=[2, 1][:len(axes)]), fw, axes)
        ax("average", shape, lambda: P().AvgPoolNd(2, stride=1, same_padder="zeros", count_include_pad=False), fw, axes, tol=TOL)
        ax("gaussian", shape, lambda: P().GaussianPoolNd(3, 1.0, same_padder="reflect"), fw, axes, tol=TOL)
        if len(axes) > 1:
            ax("laplace", shape, lambda: F().Laplace(), fw, axes)
            ax("log", shape, lambda: F().LaplacianOfGaussian(3, 1.0), fw, axes, tol=TOL)
        ax("unsharp", (2, 2), lambda: F().UnsharpMask(P().SeparablePoolNd([0.5, 0.25]), threshold=0.5, padder="replicate"), fw, axes)
        for m in ("symmetric", "constant", "linear_ramp", "mean"):
            ax(f"pad {m}", (2, 3), lambda m=m: D().Padder(pad_width=(2, 1), mode=m, constant_values=(0.5, 2.0), end_values=(1.0, -2.0)), fw, axes, tol=TOL)
        ax("mse", (2, 3), lambda: M().MSE(), lambda f, x, a: f.forward(*x, reduce_axes=a), axes, k=2)
        ax("mse sum", (2, 3), lambda: M().MSE(reduction="sum"), lambda f, x, a: f.forward(*x, reduce_axes=a), axes, k=2)
        ax("psnr", (2, 2), lambda: M().PSNR(max_value=2, eps=0.25), lambda f, x, a: f.forward(*x, reduce_axes=a), axes, k=2)
        if len(axes) > 1:
            ax("magnitude", (3, 3), lambda: F().Prewitt(same_padder="replicate"), lambda f, x, a: f.magnitude(x[0], a, p=2, epsilon=0.25), axes, tol=TOL)
            ax("components", (3, 3), lambda: F().Sobel(same_padder="replicate"), lambda f, x, a: torch.stack(tuple(f.all_components(x[0], a))), axes)
        else:
            ax("smooth", (3, 3), lambda: F().Scharr(same_padder="replicate"), lambda f, x, a, o=1 - axes[0]: f.component(x[0], o, a), axes)
            ax("edge", (3, 3), lambda: F().Scharr(same_padder="replicate"), lambda f, x, a, o=1 - axes[0]: f.component(x[0], a, o), axes)
    d = lambda f, x: f.forward(*x)
    n4 = (1, 2, 3, 3)
    for axes in ((2, 3), (1, 2, 3)):
        full = axes == (2, 3)
        dd = d if full else None
        ax("pool nchw", n4, lambda: P().SeparablePoolNd([0.5, 2.0], stride=1), fw, axes, default=dd)
        ax("average nchw", n4, lambda: P().AvgPoolNd(2, stride=1), fw, axes, default=dd, tol=TOL)
        ax("pad nchw", n4, lambda: D().Padder(pad_width=1, mode="reflect" if full else "replicate"), fw, axes, default=dd)
        ax("laplace nchw", n4, lambda: F().Laplace(same_padder="symmetric"), fw, axes)
        ax("unsharp nchw", (1, 1, 2, 2), lambda: F().UnsharpMask(P().SeparablePoolNd([0.5, 0.25]), padder="replicate"), fw, axes, default=dd)
    sm = lambda: M().SSIM(blur=P().SeparablePoolNd([0.25, 0.5, 0.25]), padder="replicate", K1=0.25, K2=0.5)
    for ca in ((2,), (3,), (2, 3)):
        ax(f"ssim content", (1, 1, 3, 3), sm, lambda f, x, a: f.forward(*x, content_axes=a), ca, k=2, default=d if ca == (2, 3) else None)
    for ra in ((1, 2, 3), (0, 1, 2, 3), (2, 3), (1,)):
        ax(f"ssim reduce", (2, 1, 3, 3), sm, lambda f, x, a: f.forward(*x, reduce_axes=a), ra, k=2, default=d if ra == (1, 2, 3) else None)
    ms = lambda: M().MS_SSIM(blur=P().SeparablePoolNd([0.5, 0.5]), padder="replicate", K1=0.25, K2=0.5, weights=[0.5, 0.25], use_prod=False)
    ax("ms-ssim content", (1, 1, 5), ms, lambda f, x, a: f.forward(*x, content_axes=a), (2,), k=2, default=d)
    ax("ms-ssim reduce", (1, 1, 5), ms, lambda f, x, a: f.forward(*x, reduce_axes=a), (1, 2), k=2, default=d)

    def opt(name, shape, build, *forms, call=None, k=1, tol=None, dt=torch.float64):
        """forms: (args, kwargs) of build"""
        call = call or (lambda f, x: f.forward(*x, axes=None))
        mk = lambda a, kw: (lambda: (lambda f: (lambda *x: call(f, x)))(build()(*a, **kw)))
        R[f"options {name}"] = Same(shape, *[mk(a, kw) for a, kw in forms], k=k, tol=tol, dt=dt)
    S, A, G = (lambda: P().SeparablePoolNd), (lambda: P().AvgPoolNd), (lambda: P().GaussianPoolNd)
    K = [0.5, 2.0, -1.0]
    for sp in (None, "reflect"):
        kw = dict(same_padder=sp)
        opt(f"kernel {sp}", (4, 5), S, ((K,), kw), ((tuple(K),), kw), ((np.array(K),), kw), (([K, K],), kw), (((tuple(K), tuple(K)),), kw), ((np.array([K, K]),), kw),
            ((K, 3), kw), ((K, (3, 3)), kw), ((K, [None, 3]), kw), ((K, None), kw), ((), dict(kw, kernel=K, stride=np.int64(3))))
        opt(f"stride {sp}", (5, 5), S, ((K, 2), kw), ((K, [2, 2]), kw), ((K, np.array([2, 2])), kw), (([K, K], 2), kw), (([K, K], (2, 2)), kw), ((K, 2.0), kw))
        opt(f"average {sp}", (4, 4), A, ((2,), kw), (((2, 2),), kw), (([2, 2], 2), kw), ((2, [2, None]), kw), ((2,), dict(kw, count_include_pad=True)), ((np.int64(2),), kw), tol=TOL)
        opt(f"gaussian {sp}", (4, 4), G, ((3, 1.0), kw), (((3, 3), 1.0), kw), ((3, (1.0, 1.0)), kw), ((3, 1), kw), ((3, 1.0, 0), kw), (((3, 3), [1.0, 1.0], [0, 0], [3, 3]), kw), tol=TOL)

    def padded(name, shape, *forms, tol=None):
        opt(f"pad {name}", shape, lambda: D().Padder, *[((), kw) for kw in forms], tol=tol)
    padded("width", (2, 3), dict(pad_width=2, mode="symmetric"), dict(pad_width=(2, 2), mode="symmetric"), dict(pad_width=[2, 2], mode="symmetric"),
           dict(pad_width=[(2, 2), (2, 2)], mode="symmetric"), dict(pad_width=2, mode=["symmetric", "symmetric"]), dict(pad_width=np.array([2, 2]), mode=("symmetric",) * 2),
           dict(pad_width=[(5, 5), (2, 2), (2, 2)], mode=["zeros", "symmetric", "symmetric"]))
    padded("constant", (2, 3), dict(pad_width=(1, 2), mode="constant", constant_values=0.5), dict(pad_width=(1, 2), mode="constant", constant_values=(0.5, 0.5)),
           dict(pad_width=(1, 2), mode="constant", constant_values=[(0.5, 0.5), (0.5, 0.5)]), dict(pad_width=[(1, 2)] * 2, mode="constant", constant_values=[0.5, 0.5]))
    padded("zeros", (2, 3), dict(pad_width=(1, 2), mode="zeros"), dict(pad_width=(1, 2), mode="constant"), dict(pad_width=(1, 2), mode="constant", constant_values=0),
           dict(pad_width=(1, 2), mode=["zeros", "constant"]), dict(pad_width=(1, 2)) if False else dict(pad_width=(1, 2), mode="zeros", constant_values=3.0))
    padded("ramp", (2, 3), dict(pad_width=(1, 2), mode="linear_ramp", end_values=2.0), dict(pad_width=(1, 2), mode="linear_ramp", end_values=(2.0, 2.0)),
           dict(pad_width=(1, 2), mode="linear_ramp", end_values=[(2, 2), (2.0, 2.0)]), tol=TOL)
    for m in ("mean", "maximum", "minimum", "median"):
        padded(f"stat {m}", (2, 3), dict(pad_width=(1, 2), mode=m), dict(pad_width=(1, 2), mode=m, stat_length=None), dict(pad_width=(1, 2), mode=m, stat_length=9),
               dict(pad_width=(1, 2), mode=m, stat_length=(None, 3)), dict(pad_width=(1, 2), mode=m, stat_length=[(9, 3), (None, None)]), tol=TOL)
        padded(f"length {m}", (2, 3), dict(pad_width=(1, 2), mode=m, stat_length=2), dict(pad_width=(1, 2), mode=m, stat_length=(2, 2)),
               dict(pad_width=(1, 2), mode=m, stat_length=[(2, 2), (2, 2)]), tol=TOL)

    def raw(name, shape, *makes, k=1, tol=None, dt=torch.float64):
        R[name] = Same(shape, *makes, k=k, tol=tol, dt=dt)
    for m in MODES:
        kw = {}
        raw(f"padder given by name {m}", (4, 4), lambda m=m: (lambda f: lambda x: f.forward(x, axes=None))(P().SeparablePoolNd([0.5, 2.0, -1.0], stride=2, same_padder=m)),
            lambda m=m: (lambda f: lambda x: f.forward(x, axes=None))(P().SeparablePoolNd([0.5, 2.0, -1.0], stride=2, same_padder=D().Padder(mode=m))),
            lambda m=m: (lambda f: lambda x: f.forward(x, axes=None))(P().SeparablePoolNd([0.5, 2.0, -1.0], stride=2, same_padder=D().Padder(mode=m, pad_width=7))),
            lambda m=m: (lambda f: lambda x: f.forward(x, axes=None))(P().SeparablePoolNd([0.5, 2.0, -1.0], stride=2, same_padder=D().Padder(mode=[m, m]))))
        raw(f"to_filter {m}", (4, 4), lambda m=m: (lambda f: lambda x: f.forward(x, axes=None))(P().SeparablePoolNd([0.5, 2.0, -1.0], stride=1, same_padder=m)),
            lambda m=m: (lambda f: lambda x: f.forward(x, axes=None))(P().SeparablePoolNd([0.5, 2.0, -1.0], stride=3).to_filter(m)),
            lambda m=m: (lambda f: lambda x: f.forward(x, axes=None))(P().SeparablePoolNd([0.5, 2.0, -1.0], same_padder=m).to_filter()),
            lambda m=m: (lambda f: lambda x: f.forward(x, axes=None))(P().SeparablePoolNd([0.5, 2.0, -1.0], same_padder="zeros").to_filter(padder=D().Padder(mode=m))),
            lambda m=m: (lambda f: lambda x: f.forward(x, axes=None))(P().SeparablePoolNd([0.5, 2.0, -1.0]).to_filter(m).to_filter()))
    raw("axes one after another", (4, 4), lambda: (lambda f: lambda x: f.forward(x, axes=None))(P().SeparablePoolNd([0.5, 2.0], stride=1)),
        lambda: (lambda f: lambda x: f.forward(f.forward(x, axes=0), axes=1))(P().SeparablePoolNd([0.5, 2.0], stride=1)),
        lambda: (lambda f: lambda x: f.forward(f.forward(x, axes=1), axes=0))(P().SeparablePoolNd([0.5, 2.0], stride=1)))
    raw("called", n4, lambda: (lambda f: lambda x: f.forward(x))(P().SeparablePoolNd([0.5, 2.0], stride=1)), lambda: (lambda f: lambda x: f(x))(P().SeparablePoolNd([0.5, 2.0], stride=1)),
        lambda: (lambda f: lambda x: f(x))(P().SeparablePoolNd([0.5, 2.0], stride=1).eval()), lambda: (lambda f: lambda x: f(x))(P().SeparablePoolNd([0.5, 2.0], stride=1).train()))
    B = lambda: P().SeparablePoolNd([0.25, 0.5, 0.25])
    s1 = (1, 1, 4)

    def met(name, shape, *makes, tol=None):
        raw(f"defaults {name}", shape, *[(lambda m=m: (lambda f: lambda p, t: f.forward(p, t))(m())) for m in makes], k=2, tol=tol)
    met("MSE", (2, 3), lambda: M().MSE(), lambda: M().MSE(reduction="mean"))
    met("PSNR", (2, 2), lambda: M().PSNR(eps=0.25), lambda: M().PSNR(1, 0.25), lambda: M().PSNR(max_value=1.0, eps=0.25, reduction="mean"))
    met("SSIM", s1, lambda: M().SSIM(blur=B()), lambda: M().SSIM(blur=B(), padder="reflect", K1=0.01, K2=0.03, use_sample_covariance=True, crop_border=True))
    met("SSIM padder", s1, lambda: M().SSIM(blur=B(), padder="replicate"), lambda: M().SSIM(blur=B(), padder=D().Padder(mode="replicate")))
    met("SSIM filter", s1, lambda: M().SSIM(blur=B(), padder="replicate"), lambda: M().SSIM(blur=B().to_filter("replicate"), padder=None))
    met("SSIM gaussian", (1, 1, 12), lambda: M().SSIM(), lambda: M().SSIM(blur="gaussian"), lambda: M().SSIM(blur=P().GaussianPoolNd(11, 1.5)))
    met("SSIM mean", (1, 1, 12), lambda: M().SSIM(blur="mean"), lambda: M().SSIM(blur=P().AvgPoolNd(11)))
    for c in ("Sobel", "Prewitt", "Scharr", "Farid"):
        raw(f"{c} default", (4, 4), lambda c=c: (lambda f: lambda x: comps(f, x))(getattr(F(), c)()), lambda c=c: (lambda f: lambda x: comps(f, x))(getattr(F(), c)(normalize=False, same_padder="reflect")),
            lambda c=c: (lambda f: lambda x: torch.stack((f.component(x, 0, None), f.component(x, -1, slice(None)))))(getattr(F(), c)()),
            lambda c=c: (lambda f: lambda x: torch.stack((f.horizontal(x), f.vertical(x))))(getattr(F(), c)()),
            lambda c=c: (lambda f: lambda x: torch.stack((f.component(x, 0, 1), f.component(x, 1, (0, 1)))))(getattr(F(), c)(same_padder=D().Padder(mode="reflect"))), tol=TOL)
    raw("magnitude default", (3, 3), lambda: (lambda f: lambda x: f.magnitude(x))(F().Sobel()), lambda: (lambda f: lambda x: f.magnitude(x, None, epsilon=0.0, p=2))(F().Sobel()),
        lambda: (lambda f: lambda x: f.magnitude(x, axes=(1, 0), epsilon=0))(F().Sobel()), tol=1e-6)
    raw("unsharp default", (1, 1, 3, 3), lambda: (lambda f: lambda x: f.forward(x))(F().UnsharpMask(B(), padder="reflect")), lambda: (lambda f: lambda x: f.forward(x))(F().UnsharpMask(B(), 0.5, 0, padder="reflect")),
        lambda: (lambda f: lambda x: f.forward(x))(F().UnsharpMask(blur=B().to_filter("reflect"), amount=0.5, threshold=0.0)))
    for sa in ("RGGB", "GRBG", "GBRG", "BGGR"):
        lo = sa.lower()
        for n, s in (("rgb_to_1c_bayer", (3, 2, 4)), ("rgb_to_4c_bayer", (3, 2, 4)), ("downsample_1c_bayer_to_rgb", (1, 4, 2)), ("downsample_4c_bayer_to_rgb", (4, 1, 2))):
            raw(f"{n} {sa}", s, _cfa(n, sa), _cfa(n, lo), _cfa(n, sa[:2] + lo[2:]))
        raw(f"demosaic {sa}", (1, 1, 4, 4), _demosaic(sa), _demosaic(lo), dt=torch.float32, tol=1e-6)
        raw(f"BayerConv2d {sa}", (1, 1, 4, 4), _bayer("BayerConv2d", sa), _bayer("BayerConv2d", lo), dt=torch.float32)
        raw(f"mosaics {sa}", (3, 4, 2), lambda sa=sa: _cfa("rgb_to_4c_bayer", sa)(), lambda sa=sa: (lambda a, b: lambda x: b(a(x)))(_cfa("rgb_to_1c_bayer", sa)(), _cfa("bayer_1c_to_4c")()))
        raw(f"downsampled {sa}", (1, 4, 2), lambda sa=sa: _cfa("downsample_1c_bayer_to_rgb", sa)(), lambda sa=sa: (lambda a, b: lambda x: b(a(x)))(_cfa("bayer_1c_to_4c")(), _cfa("downsample_4c_bayer_to_rgb", sa)()))

    def poly(w):
        def make():
            from torchimage.misc import poly1d
            return lambda x: poly1d(x, w)
        return make
    raw("poly1d weights", (2, 2), poly([1.0, -2.0, 0.5]), poly((1.0, -2.0, 0.5)), poly(np.array([1.0, -2.0, 0.5])), poly(torch.tensor([1.0, -2.0, 0.5], dtype=torch.float64)))
    return R


SAME = same_jobs()


def h_same(ctx, cfg):
    job, name = SAME[cfg["job"]], cfg["job"]
    xs = [ctx.tensor(n, job.shape, *BOX, dtype=job.dt) for n in ("x", "z")[:job.k]]
    y = job.first()(*xs)
    Y = ctx.elems(y)
    tol = job.tol
    if not ctx.symbolic:
        tol = max(tol or 0, 1e-9 if job.dt == torch.float64 else 1e-4)
    for i, m in enumerate(job.others):
        z = m()(*xs)
        ctx.equal(z, Y, f"{name}: way {i + 2} of asking for the same", tol=tol)
        ctx.check(z.dtype == y.dtype, f"{name}: element type of way {i + 2}")


def g08(tier):
    return [dict(h="h_local", job=j) for j in LOC]


def g09(tier):
    return [dict(h="h_same", job=j) for j in SAME]
