"""What scaling, adding, shifting, mirroring and transposing the input does to the result."""
import itertools
import numpy as np
import torch
from fractions import Fraction
from symx import terms as tm
from .pooling import MODES
from .spec import emap

BOX = (-2, 2)
TOL = 1e-9
LINEAR = [m for m in MODES if m not in ("maximum", "minimum", "median")]
KEEP = ("reflect", "replicate", "circular", "symmetric", "mean", "median", "maximum", "minimum", "smooth", "odd_reflect", "odd_symmetric", "periodize")


def _p(**kw):
    from torchimage.padding import Padder
    return Padder(**kw)


def _padder(mode, pw, axes=None, **kw):
    return lambda: (lambda x: _p(mode=mode, pad_width=pw, **kw).forward(x, axes=axes))


def _pool(cls, *a, axes=None, **kw):
    def make():
        import torchimage.pooling as P
        f = getattr(P, cls)(*a, **kw)
        return lambda x: f.forward(x, axes=axes)
    return make


def _filt(cls, call, *a, **kw):
    def make():
        import torchimage.filtering as F
        f = getattr(F, cls)(*a, **kw)
        return lambda x: call(f, x)
    return make


def _sharp(kern, **kw):
    def make():
        from torchimage.filtering import UnsharpMask
        from torchimage.pooling import SeparablePoolNd, AvgPoolNd
        f = UnsharpMask(SeparablePoolNd(kern) if kern != "avg" else AvgPoolNd(3), **kw)
        return lambda x: f.forward(x, axes=None)
    return make


def _cfa(name, *a):
    def make():
        import torchimage.cfa as C
        import torchimage.cfa.utils as U
        f = getattr(U, name, None) or getattr(C, name)
        return lambda x: f(x, *a)
    return make


def _bayer(cls, sa, k=3):
    def make():
        import torchimage.cfa as C
        f = getattr(C, cls)(1, 2, k, False)
        with torch.no_grad():
            for i, p in enumerate(("R", "B", "GR", "GB")):
                w = f.conv_dict[p].weight
                w.copy_(torch.tensor([((5 * i + 3 * j) % 7 - 3) / 4 for j in range(w.numel())]).reshape(w.shape))
        for q in f.parameters():
            q.requires_grad_(False)
        return lambda x: f(x, sa)
    return make


hor, ver = (lambda f, x: f.horizontal(x)), (lambda f, x: f.vertical(x))
comps = lambda f, x: torch.stack(tuple(f.all_components(x, axes=None)))


class Lin:
    """gain: how much a level added to the input is added to the result (None: not stated)"""

    def __init__(self, shape, make, gain=None, dt=torch.float64, add=True, scale=None, neg=True, tol=None):
        self.shape, self.make, self.gain, self.dt, self.add, self.scale, self.neg, self.tol = tuple(shape), make, gain, dt, add, scale, neg, tol


def lin_jobs():
    R = {}
    for m in MODES:
        lin = m in LINEAR
        g = 1 if m in KEEP else None
        R[f"pad {m}"] = Lin((3, 4), _padder(m, [(1, 2), (4, 3)]), g, add=lin, neg=lin)
        R[f"pad {m} wide"] = Lin((5,), _padder(m, (7, 9)), g, add=lin, neg=lin)
        if m in ("mean", "median", "maximum", "minimum"):
            R[f"pad {m} length"] = Lin((5, 2), _padder(m, [(2, 1), (0, 2)], stat_length=[(2, 3), (1, 2)]), g, add=lin, neg=lin)
    R["pad median odd"] = Lin((3, 5), _padder("median", [(2, 1), (0, 2)], stat_length=[(3, 1), (5, 3)]), 1, add=False)
    for m in LINEAR:
        g = 1 if m in KEEP else None
        R[f"pool separable {m}"] = Lin((3, 4), _pool("SeparablePoolNd", [[0.5, 2.0, -1.0], [1.0, 0.25]], stride=(1, 2), same_padder=m),
                                       None if g is None else Fraction(15, 8))
        R[f"edge {m}"] = Lin((3, 4), _filt("EdgeFilter", comps, [1.0, -3.0, 0.5], [2.0, 1.0], same_padder=m), None if g is None else Fraction(-9, 2))
    for k, s, inc in itertools.product((2, (3, 2)), (1, 2, None), (True, False)):
        R[f"pool average {k} {s} {inc}"] = Lin((4, 5), _pool("AvgPoolNd", k, stride=s, count_include_pad=inc, same_padder="zeros"), 1 if not inc else None, tol=TOL)
        R[f"pool average valid {k} {s} {inc}"] = Lin((4, 5), _pool("AvgPoolNd", k, stride=s, count_include_pad=inc), 1, tol=TOL)
    for n, s in ((3, 1.0), (5, 0.7), (4, 1.5)):
        R[f"pool gaussian {n}"] = Lin((3, 5), _pool("GaussianPoolNd", n, s, same_padder="reflect"), 1, tol=TOL)
    for c in ("Sobel", "Prewitt", "Scharr", "Farid"):
        R[c] = Lin((3, 3), _filt(c, comps), 0, tol=TOL)
        R[f"{c} normalised"] = Lin((2, 4), _filt(c, comps, normalize=True, same_padder="symmetric"), 0, tol=TOL)
    R["GaussianGrad"] = Lin((3, 4), _filt("GaussianGrad", comps, 5, 1.0), 0, tol=TOL)
    R["GaussianGrad 2"] = Lin((3, 4), _filt("GaussianGrad", comps, 5, 1.0, edge_order=2), None, tol=TOL)
    R["Laplace"] = Lin((3, 4), _filt("Laplace", lambda f, x: f.forward(x, axes=None)), 0)
    R["LoG"] = Lin((3, 4), _filt("LaplacianOfGaussian", lambda f, x: f.forward(x, axes=None), 5, 1.0), None, tol=TOL)
    for p in (1, 2):
        R[f"magnitude {p}"] = Lin((2, 3), _filt("Prewitt", lambda f, x, p=p: f.magnitude(x, axes=None, p=p)), 0, add=p == 1, scale=1, neg=p == 1, tol=1e-6)
    for a in (0.5, 2.0, -1.0):
        R[f"unsharp {a}"] = Lin((3, 4), _sharp([0.25, 0.5, 0.25], amount=a, padder="reflect"), 1)
        R[f"unsharp average {a}"] = Lin((3, 4), _sharp("avg", amount=a, padder="replicate"), 1, tol=TOL)
    R["unsharp threshold zero"] = Lin((2, 3), _sharp([0.25, 0.5, 0.25], amount=1.5, threshold=0, padder="reflect"), 1)
    R["unsharp threshold"] = Lin((2, 2), _sharp([0.25, 0.5, 0.25], amount=1.5, threshold=0.5, padder="reflect"), 1, add=False, scale=False, neg=None)
    for sa in ("RGGB", "GRBG", "GBRG", "BGGR"):
        for n, s in (("rgb_to_1c_bayer", (2, 3, 4, 2)), ("rgb_to_4c_bayer", (3, 2, 4)), ("downsample_1c_bayer_to_rgb", (1, 4, 4)), ("downsample_4c_bayer_to_rgb", (4, 2, 1))):
            R[f"{n} {sa}"] = Lin(s, _cfa(n, sa), 1)
        for c in ("BayerConv2d", "BayerConv2dUnshuffle"):
            R[f"{c} {sa}"] = Lin((1, 1, 4, 4), _bayer(c, sa), None, dt=torch.float32)
    for n, s in (("bayer_1c_to_4c", (1, 4, 2)), ("bayer_4c_to_1c", (4, 1, 3))):
        R[n] = Lin(s, _cfa(n), 1)
    return R


LIN = lin_jobs()


def h_linear(ctx, cfg):
    job = LIN[cfg["job"]]
    x = ctx.tensor("x", job.shape, *BOX, dtype=job.dt)
    f = job.make()
    y = f(x)
    Y = ctx.elems(y)
    name = cfg["job"]
    tol = job.tol
    if not ctx.symbolic:
        tol = max(tol or 0, 1e-9 if job.dt == torch.float64 else 1e-4)
    if job.add:
        z = ctx.tensor("z", job.shape, *BOX, dtype=job.dt)
        a, b = ctx.real("a", *BOX), ctx.real("b", *BOX)
        A, B = ctx.term(a), ctx.term(b)
        ctx.equal(f(a * x + b * z), emap(lambda u, v: tm.add(tm.mul(A, u), tm.mul(B, v)), Y, ctx.elems(f(z))), f"{name}: combination of two images", tol=tol)
    elif job.scale is not False:
        for k in (4, Fraction(1, 2)):
            ctx.equal(f(float(k) * x), emap(lambda v: tm.mul(k, v), Y), f"{name}: image scaled by {k}", tol=tol)
    if job.neg is None:
        ctx.equal(f(-x), emap(tm.neg, Y), f"{name}: negative image", tol=tol)
    elif not job.add and job.scale is not False:
        if job.neg:
            ctx.equal(f(-x), emap(tm.neg, Y), f"{name}: negative image", tol=tol)
        elif "magnitude 2" in name or "magnitude 4" in name:
            ctx.equal(f(-x), Y, f"{name}: negative image", tol=tol)
    for u, v in (("maximum", "minimum"), ("minimum", "maximum")):
        if name.startswith(f"pad {u}"):
            g = LIN[name.replace(u, v)].make()
            ctx.equal(g(-x), emap(tm.neg, Y), f"{name}: the other extreme of the negative image", tol=tol)
    if job.gain is not None:
        c = ctx.real("c", *BOX)
        C = ctx.term(c)
        ctx.equal(f(x + c), emap(lambda v: tm.add(v, tm.mul(tm.norm(job.gain), C)), Y), f"{name}: level added to the image", tol=tol)


# ---------------------------------------------------------------- mirroring and transposing
class Geo:
    """
    shape, k inputs; flips: (axes to mirror, maker for the mirrored image, sign);
    swaps: (permutation, maker for the permuted image); out: whether the result is an image (mirrored too) or a number
    """

    def __init__(self, shape, make, flips=(), swaps=(), image=True, k=1, tol=None, dt=torch.float64):
        self.shape, self.make, self.flips, self.swaps, self.image, self.k, self.tol, self.dt = tuple(shape), make, flips, swaps, image, k, tol, dt


def _edge(cls, call, *a, **kw):
    return _filt(cls, call, *a, **kw)


def _metric(cls, call=None, **kw):
    def make():
        import torchimage.metrics as M
        from torchimage.pooling import SeparablePoolNd
        k = dict(kw)
        if "blur" in k:
            k["blur"] = SeparablePoolNd(k["blur"])
        f = getattr(M, cls)(**k)
        return (lambda p, t: call(f, p, t)) if call else (lambda p, t: f.forward(p, t))
    return make


def _loss(cls):
    def make():
        from torchimage.contrib import edge_loss as L
        f = getattr(L, cls)(kernel_size=3, sigma=1.0, order=2)
        return lambda p, t: f.forward(p, t)
    return make


def geo_jobs():
    R = {}
    W = [(1, 2), (4, 3)]
    T = lambda w: [tuple(reversed(i)) for i in w]
    for m in MODES:
        o = {}
        back = {}
        if m == "constant":
            o, back = dict(constant_values=[(0.5, -1.0), (2.0, 0.25)]), dict(constant_values=[(-1.0, 0.5), (0.25, 2.0)])
        if m == "linear_ramp":
            o, back = dict(end_values=[(0.5, -1.0), (2.0, 0.25)]), dict(end_values=[(-1.0, 0.5), (0.25, 2.0)])
        if m in ("mean", "median", "maximum", "minimum"):
            o, back = dict(stat_length=[(2, 1), (1, 3)]), dict(stat_length=[(1, 2), (3, 1)])
        turn = lambda d: {k: v[::-1] for k, v in d.items()}
        shape = (3, 4) if m != "periodize" else (2, 4)
        R[f"pad {m}"] = Geo(shape, _padder(m, W, **o), [((0, 1), _padder(m, T(W), **back), 1)],
                            # axes are padded in the order given; with these modes the corners depend on it
                            ([((1, 0), _padder(m, W[::-1], **turn(o), axes=None))] if m not in ("constant", "linear_ramp", "median") else []) +
                            [((1, 0), _padder(m, W, axes=(1, 0), **o))],
                            tol=TOL if m == "linear_ramp" else None)
        W1 = [(2, 6)]
        R[f"pad {m} 3d"] = Geo((2, 2, 2), _padder(m, (2, 5), axes=(2, 0)), [((0, 2), _padder(m, (5, 2), axes=(2, 0)), 1), ((1,), _padder(m, (2, 5), axes=(2, 0)), 1)],
                               [((2, 0, 1), _padder(m, (2, 5), axes=(0, 1))), ((0, 2, 1), _padder(m, (2, 5), axes=(1, 0)))], tol=TOL if m == "linear_ramp" else None)
    k1, k2 = [0.5, 2.0, -1.0], [1.0, 0.25, 3.0, -0.5, 0.125]
    for m in MODES:
        if m in ("maximum", "minimum", "median"):
            continue
        shape = (3, 4) if m != "periodize" else (2, 4)
        S = lambda a, b, **kw: _pool("SeparablePoolNd", [a, b], stride=1, same_padder=m, **kw)
        R[f"pool {m}"] = Geo(shape, S(k1, k2), [((0,), S(k1[::-1], k2), 1), ((1,), S(k1, k2[::-1]), 1), ((0, 1), S(k1[::-1], k2[::-1]), 1)] if m != "periodize" else
                             [((0, 1), S(k1[::-1], k2[::-1]), 1)], [((1, 0), S(k1, k2, axes=(1, 0)))])
        E = lambda e, s, call, **kw: _filt("EdgeFilter", call, e, s, same_padder=m, **kw)
        c0, c1 = (lambda f, x: f.component(x, 0, 1)), (lambda f, x: f.component(x, 1, 0))
        if m != "periodize":
            R[f"edge {m}"] = Geo(shape, E(k1, k2, c0), [((0,), E(k1[::-1], k2, c0), 1), ((1,), E(k1, k2[::-1], c0), 1)], [((1, 0), E(k1, k2, c1))])
    for st in (1, 2, 3):
        V = lambda a, b, **kw: _pool("SeparablePoolNd", [a, b], stride=st, **kw)
        shape = (st * 1 + 3, st * 1 + 2)
        R[f"pool valid {st}"] = Geo(shape, V(k1, [2.0, -1.0]), [((0, 1), V(k1[::-1], [-1.0, 2.0]), 1)], [((1, 0), V(k1, [2.0, -1.0], axes=(1, 0)))])
    for m in ("reflect", "replicate", "zeros", "circular"):
        for inc in (True, False):
            if inc is False and m != "zeros":
                continue
            A = _pool("AvgPoolNd", 3, stride=1, same_padder=m, count_include_pad=inc)
            R[f"average {m} {inc}"] = Geo((4, 3), A, [((0,), A, 1), ((1,), A, 1)], [((1, 0), A)], tol=TOL)
        G = _pool("GaussianPoolNd", 5, 1.0, stride=1, same_padder=m)
        R[f"gaussian {m}"] = Geo((4, 3), G, [((0,), G, 1), ((1,), G, 1)], [((1, 0), G)], tol=TOL)
    for c, a, kw in [(c, (), {}) for c in ("Sobel", "Prewitt", "Scharr", "Farid")] + [("Sobel", (), dict(normalize=True, same_padder="circular")),
                                                                               ("GaussianGrad", (5, 1.0), {}), ("GaussianGrad", (3, 0.7), dict(edge_order=2))]:
        s = -1 if kw.get("edge_order") != 2 else 1
        h, v = _filt(c, hor, *a, **kw), _filt(c, ver, *a, **kw)
        R[f"{c} horizontal {len(kw)} {s}"] = Geo((4, 3), h, [((0,), h, s), ((1,), h, 1)], [((1, 0), v)], tol=TOL)
        R[f"{c} vertical {len(kw)} {s}"] = Geo((3, 4), v, [((0,), v, 1), ((1,), v, s), ((0, 1), v, s)], [((1, 0), h)], tol=TOL)
        if s < 0 and c != "Farid":
            mg = _filt(c, lambda f, x: f.magnitude(x, axes=None, p=2, epsilon=0.25), *a, **kw)
            R[f"{c} magnitude {len(kw)}"] = Geo((3, 3), mg, [((0,), mg, 1), ((1,), mg, 1)], [((1, 0), mg)], tol=TOL)
    for c in ("Sobel", "Prewitt", "Scharr"):
        for shape, perms in (((2, 2, 3), ((2, 0, 1), (1, 0, 2))), ((2, 2, 2, 2), ((3, 0, 2, 1), (1, 0, 3, 2))), ((1, 2, 1, 2, 2), ((4, 3, 2, 1, 0),))):
            mg = _filt(c, lambda f, x: f.magnitude(x, axes=None, p=2, epsilon=0.25), same_padder="replicate")
            R[f"{c} magnitude {len(shape)}d"] = Geo(shape, mg, [((0, 1), mg, 1), ((len(shape) - 1,), mg, 1)], [(q, mg) for q in perms], tol=TOL)
            last = len(shape) - 1
            co = _filt(c, lambda f, x, last=last: f.component(x, last, tuple(range(last))), same_padder="replicate")
            R[f"{c} component {len(shape)}d"] = Geo(shape, co, [((last,), co, -1), ((0, 1), co, 1)],
                                                     [(q, _filt(c, lambda f, x, q=q, last=last: f.component(x, q.index(last), tuple(q.index(i) for i in range(last))), same_padder="replicate")) for q in perms], tol=TOL)
    L = _filt("Laplace", lambda f, x: f.forward(x, axes=None))
    R["Laplace"] = Geo((3, 4), L, [((0,), L, 1), ((1,), L, 1)], [((1, 0), L)])
    R["Laplace 3d"] = Geo((3, 2, 2), L, [((0, 2), L, 1)], [((2, 0, 1), L), ((1, 0, 2), L)])
    G = _filt("LaplacianOfGaussian", lambda f, x: f.forward(x, axes=None), 5, 1.0)
    R["LoG"] = Geo((3, 4), G, [((0,), G, 1), ((1,), G, 1)], [((1, 0), G)], tol=TOL)
    for a, t in ((1.5, None), (2.0, 0.5)):
        U = _sharp([0.25, 0.5, 0.25], amount=a, threshold=t, padder="reflect") if t is not None else _sharp([0.25, 0.5, 0.25], amount=a, padder="reflect")
        R[f"unsharp {t}"] = Geo((2, 3), U, [((0,), U, 1), ((1,), U, 1)], [((1, 0), U)])
    for red in ("mean", "sum", "none"):
        Q = _metric("MSE", reduction=red)
        R[f"MSE {red}"] = Geo((2, 3, 2), Q, [((0,), Q, 1), ((1, 2), Q, 1)], [((2, 0, 1), Q)], image=red == "none", k=2)
    Q = _metric("MSE", lambda f, p, t: f.forward(p, t, reduce_axes=(1, 2)))
    R["MSE axes"] = Geo((2, 2, 3), Q, [((2,), Q, 1), ((1, 2), Q, 1)], [((0, 2, 1), Q), ((1, 2, 0), _metric("MSE", lambda f, p, t: f.forward(p, t, reduce_axes=(0, 1))))],
                        image=False, k=2)
    Q = _metric("PSNR", max_value=2, eps=0.25)
    R["PSNR"] = Geo((2, 3), Q, [((0,), Q, 1), ((1,), Q, 1)], [((1, 0), Q)], image=False, k=2, tol=1e-6)
    for m in ("reflect", "replicate", "symmetric", None):
        for cr in (True, False):
            for sc in (True, False):
                Q = _metric("SSIM", blur=[0.25, 0.5, 0.25], padder=m, K1=0.25, K2=0.5, crop_border=cr, use_sample_covariance=sc)
                R[f"SSIM {m} {cr} {sc}"] = Geo((1, 1, 4), Q, [((2,), Q, 1)], image=False, k=2)
        Q = _metric("SSIM", blur=[0.25, 0.5, 0.25], padder=m, K1=0.25, K2=0.5)
        R[f"SSIM {m} 2d"] = Geo((1, 1, 3, 3), Q, [((2,), Q, 1)], [((0, 1, 3, 2), Q)], image=False, k=2)
        Q = _metric("SSIM", lambda f, p, t: f.forward(p, t, full=True)[1], blur=[0.25, 0.5, 0.25], padder=m, K1=0.25, K2=0.5)
        R[f"SSIM map {m}"] = Geo((1, 1, 5), Q, [((2,), Q, 1)], k=2)
        for pr in (True, False):
            Q = _metric("MS_SSIM", blur=[0.25, 0.5, 0.25], padder=m, K1=0.25, K2=0.5, weights=[0.5, 0.25], use_prod=pr)
            R[f"MS_SSIM {m} {pr}"] = Geo((1, 1, 8), Q, [((2,), Q, 1)], image=False, k=2)
    for c in ("GaussianEdgeLoss", "WeightedMul", "WeightedSum"):
        Q = _loss(c)
        R[c] = Geo((1, 1, 2, 3), Q, [((2,), Q, 1), ((3,), Q, 1), ((2, 3), Q, 1)], [((0, 1, 3, 2), Q)], image=False, k=2, tol=TOL)
    for n in ("bayer_1c_to_4c",):
        pass
    return R


GEO = geo_jobs()


def h_geometry(ctx, cfg):
    job, name = GEO[cfg["job"]], cfg["job"]
    xs = [ctx.tensor(n, job.shape, *BOX, dtype=job.dt) for n in ("x", "z")[:job.k]]
    Y = ctx.elems(job.make()(*xs))
    tol = job.tol
    if not ctx.symbolic:
        tol = max(tol or 0, 1e-9)
    for axes, make, s in job.flips:
        got = make()(*[x.flip(axes) for x in xs])
        want = np.flip(Y, axes) if job.image else Y
        ctx.equal(got, want if s > 0 else emap(tm.neg, want), f"{name}: image mirrored along {axes}", tol=tol)
    for perm, make in job.swaps:
        got = make()(*[x.permute(perm) for x in xs])
        ctx.equal(got, np.transpose(Y, perm) if job.image else Y, f"{name}: axes in the order {perm}", tol=tol)


def g06(tier):
    return [dict(h="h_linear", job=j) for j in LIN]


def g07(tier):
    return [dict(h="h_geometry", job=j) for j in GEO]
