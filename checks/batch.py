"""Batches: every image and every channel of a batch is treated on its own."""
import numpy as np
import torch
from symx import terms as tm
from .pooling import MODES

BOX = (-2, 2)


class Job:
    """
    inputs: shapes with leading (n, c); make() -> callable
    kind: "nc" the result keeps both leading dimensions and each (n, c) is independent; "n" only the first is;
          "mean" / "sum" the result combines the images of the batch
    """

    def __init__(self, shape, make, kind="nc", k=1, box=BOX, dt=torch.float64, tol=None, order=True):
        self.shape, self.make, self.kind, self.k, self.box, self.dt, self.tol, self.order = tuple(shape), make, kind, k, box, dt, tol, order


def pool(cls, *a, **kw):
    def make():
        import torchimage.pooling as P
        f = getattr(P, cls)(*a, **kw)
        return lambda x: f.forward(x)
    return make


def pad(mode, pw, **kw):
    def make():
        from torchimage.padding import Padder
        p = Padder(pad_width=pw, mode=mode, **kw)
        return lambda x: p.forward(x)
    return make


def filt(cls, call, *a, **kw):
    def make():
        import torchimage.filtering as F
        f = getattr(F, cls)(*a, **kw)
        return lambda x: call(f, x)
    return make


def tofilter():
    from torchimage.pooling import GaussianPoolNd
    f = GaussianPoolNd(3, 0.8).to_filter("symmetric")
    return lambda x: f.forward(x)


def sharpen(**kw):
    def make():
        from torchimage.filtering import UnsharpMask
        from torchimage.pooling import SeparablePoolNd
        f = UnsharpMask(SeparablePoolNd([0.25, 0.5, 0.25]), padder="reflect", **kw)
        return lambda x: f.forward(x)
    return make


def metric(cls, call=None, **kw):
    def make():
        import torchimage.metrics as M
        from torchimage.pooling import SeparablePoolNd
        k = dict(kw)
        if "blur" in k:
            k["blur"] = SeparablePoolNd(list(k["blur"]))
        f = getattr(M, cls)(**k)
        return (lambda p, t: call(f, p, t)) if call else (lambda p, t: f.forward(p, t))
    return make


def loss(cls):
    def make():
        from torchimage.contrib import edge_loss as L
        f = getattr(L, cls)(kernel_size=3, sigma=1.0, order=1)
        return lambda p, t: f.forward(p, t)
    return make


def cfa(name, *a):
    def make():
        import torchimage.cfa.utils as U
        return lambda x: getattr(U, name)(x, *a)
    return make


def demo(sa):
    def make():
        from torchimage.cfa import demosaic
        return lambda x: demosaic(x, sa)
    return make


def bayer(cls, sa):
    def make():
        import torchimage.cfa as C
        f = getattr(C, cls)(1, 2, 3, True)
        with torch.no_grad():
            for i, p in enumerate(("R", "B", "GR", "GB")):
                w = f.conv_dict[p].weight
                w.copy_(torch.tensor([((5 * i + 3 * j) % 7 - 3) / 4 for j in range(w.numel())]).reshape(w.shape))
                f.conv_dict[p].bias.copy_(torch.tensor([0.5 * i, -0.25]))
        for q in f.parameters():
            q.requires_grad_(False)
        return lambda x: f(x, sa)
    return make


def misc(name, *a):
    def make():
        import torchimage.misc as M
        return lambda x: getattr(M, name)(x, *a)
    return make


def jobs():
    R = {}
    for m in MODES:
        kw = dict(constant_values=(0.5, -1.25)) if m == "constant" else dict(end_values=(0.5, -1.0)) if m == "linear_ramp" else {}
        R[f"pad {m}"] = Job((2, 2, 2, 2), pad(m, [(2, 1), (0, 2)], **kw))
        R[f"pad {m} 1d"] = Job((3, 1, 3), pad(m, (1, 4), **kw))
    R["pool separable"] = Job((2, 2, 3, 3), pool("SeparablePoolNd", [[0.5, 2.0], [1.0, 0.25, -1.0]], stride=1))
    R["pool separable padded"] = Job((2, 3, 3, 2), pool("SeparablePoolNd", [[0.5, 2.0], [1.0, 0.25, -1.0]], stride=(1, 2), same_padder="odd_reflect"))
    R["pool average"] = Job((2, 2, 4, 3), pool("AvgPoolNd", 2))
    R["pool average exclude"] = Job((2, 2, 3, 3), pool("AvgPoolNd", (2, 3), stride=1, same_padder="zeros", count_include_pad=False))
    R["pool gaussian"] = Job((2, 2, 3, 4), pool("GaussianPoolNd", 3, 1.0, same_padder="replicate"))
    R["pool 3d"] = Job((2, 2, 2, 2, 3), pool("AvgPoolNd", 2, stride=1, same_padder="symmetric"))
    R["filter gaussian"] = Job((2, 2, 3, 3), tofilter)
    hor, ver = (lambda f, x: f.horizontal(x)), (lambda f, x: f.vertical(x))
    for c in ("Sobel", "Prewitt", "Scharr", "Farid"):
        R[f"{c} horizontal"] = Job((2, 2, 3, 3), filt(c, hor))
        R[f"{c} vertical"] = Job((2, 2, 3, 3), filt(c, ver, normalize=True))
    R["components"] = Job((2, 2, 3, 2), filt("Sobel", lambda f, x: torch.stack(tuple(f.all_components(x, axes=(2, 3))), dim=2)))
    for p in (1, 2):
        R[f"magnitude {p}"] = Job((2, 2, 2, 3), filt("Prewitt", lambda f, x, p=p: f.magnitude(x, axes=slice(2, None), p=p, epsilon=0.25)))
    # with no epsilon: rows that are flat in one image must not change another
    for p in (1, 2):
        R[f"magnitude {p} exact"] = Job((2, 1, 1, 3), filt("Sobel", lambda f, x, p=p: f.magnitude(x, axes=(2, 3), p=p), same_padder="odd_reflect"))
    R["magnitude flat"] = Job((3, 1, 1, 2), filt("Scharr", lambda f, x: f.magnitude(x, axes=(2, 3), p=2), same_padder="replicate"))
    R["GaussianGrad"] = Job((2, 2, 3, 3), filt("GaussianGrad", hor, 3, 1.0))
    R["Laplace"] = Job((2, 2, 3, 3), filt("Laplace", lambda f, x: f.forward(x, axes=slice(2, None))))
    R["LoG"] = Job((2, 2, 3, 3), filt("LaplacianOfGaussian", lambda f, x: f.forward(x, axes=(2, 3)), 3, 1.0))
    R["unsharp"] = Job((2, 2, 2, 3), sharpen(amount=1.5))
    R["unsharp threshold"] = Job((2, 1, 2, 2), sharpen(amount=2.0, threshold=0.5))
    for red in ("mean", "sum", "none"):
        R[f"MSE {red}"] = Job((2, 2, 2, 2), metric("MSE", lambda f, p, t: f.forward(p, t, reduce_axes=(2, 3)), reduction=red), k=2)
    R["MSE per image"] = Job((3, 2, 1, 2), metric("MSE", lambda f, p, t: f.forward(p, t, reduce_axes=slice(1, None))), k=2, kind="n")
    R["MSE whole batch"] = Job((3, 2, 2), metric("MSE"), k=2, kind="mean")
    R["MSE sum of batch"] = Job((3, 2, 2), metric("MSE", reduction="sum"), k=2, kind="sum")
    R["PSNR per image"] = Job((2, 2, 2), metric("PSNR", lambda f, p, t: f.forward(p, t, reduce_axes=(1, 2)), max_value=2, eps=0.25), k=2, kind="n")
    S = dict(K1=0.25, K2=0.5)
    R["SSIM"] = Job((2, 2, 2, 3), metric("SSIM", lambda f, p, t: f.forward(p, t, reduce_axes=(2, 3)), blur=[0.5, 0.5], padder="reflect", crop_border=False, **S), k=2)
    R["SSIM map"] = Job((2, 2, 3), metric("SSIM", lambda f, p, t: f.forward(p, t, full=True)[1], blur=[0.25, 0.5, 0.25], padder="replicate", **S), k=2)
    R["SSIM per image"] = Job((3, 2, 3), metric("SSIM", blur=[0.5, 0.5], padder=None, **S), k=2, kind="n")
    R["SSIM whole batch"] = Job((2, 1, 3), metric("SSIM", lambda f, p, t: f.forward(p, t, reduce_axes=None), blur=[0.5, 0.5], padder=None, **S), k=2, kind="mean")
    R["MS_SSIM sum"] = Job((2, 2, 5), metric("MS_SSIM", blur=[0.5, 0.5], padder="reflect", weights=[0.5, 0.25], use_prod=False, **S), k=2, kind="n")
    R["MS_SSIM product"] = Job((3, 1, 5), metric("MS_SSIM", blur=[0.5, 0.5], padder="reflect", weights=[0.5, 2.0], **S), k=2, kind="n")
    R["MS_SSIM channels"] = Job((2, 2, 5), metric("MS_SSIM", lambda f, p, t: f.forward(p, t, reduce_axes=2), blur=[0.5, 0.5], padder="reflect", weights=[0.5, 2.0], **S), k=2)
    for c in ("GaussianEdgeLoss", "WeightedMul", "WeightedSum"):
        R[c] = Job((2, 1, 2, 3), loss(c), k=2, kind="mean")
        R[c + " channels"] = Job((1, 3, 2, 2), loss(c), k=2, kind="mean c")
    for n, s in (("bayer_1c_to_4c", (2, 2, 1, 2, 4)), ("bayer_4c_to_1c", (2, 2, 4, 1, 2))):
        R[n] = Job(s, cfa(n))
    for sa in ("RGGB", "GBRG"):
        for n, s in (("rgb_to_1c_bayer", (3, 2, 4)), ("rgb_to_4c_bayer", (3, 2, 4)), ("downsample_1c_bayer_to_rgb", (1, 2, 4)), ("downsample_4c_bayer_to_rgb", (4, 1, 2))):
            R[f"{n} {sa}"] = Job((2, 2) + s, cfa(n, sa))
        R[f"demosaic {sa}"] = Job((3, 1, 4, 4), demo(sa), kind="n", dt=torch.float32, box=(-1, 2))
        for c in ("BayerConv2d", "BayerConv2dUnshuffle"):
            R[f"{c} {sa}"] = Job((3, 1, 4, 4), bayer(c, sa), kind="n", dt=torch.float32)
    R["poly1d"] = Job((2, 2, 2), misc("poly1d", [0.5, -2.0, 3.0, 1.0]))
    R["power"] = Job((2, 2, 2), misc("safe_power", 3.0))
    R["power half"] = Job((3, 1, 1), misc("safe_power", 0.5))
    return R


JOBS = jobs()
N = ("a", "b")


def h_batch(ctx, cfg):
    job = JOBS[cfg["job"]]
    xs = [ctx.tensor(n, job.shape, *job.box, dtype=job.dt) for n in N[:job.k]]
    n, c = job.shape[:2]
    f = job.make()
    tol = job.tol if ctx.symbolic else job.tol or (1e-4 if job.dt == torch.float32 else 1e-9)
    whole = f(*xs)
    W = ctx.elems(whole)
    name = cfg["job"]
    if job.kind in ("mean", "sum", "mean c"):
        parts = [ctx.elems(f(*[x[i:i + 1] if job.kind != "mean c" else x[:, i:i + 1] for x in xs])) for i in range(n if job.kind != "mean c" else c)]
        tot = parts[0].copy()
        for idx in np.ndindex(tot.shape):
            t = tm.sum_terms([p[idx] for p in parts])
            tot[idx] = t if job.kind == "sum" else tm.div(t, len(parts))
        ctx.equal(whole, tot, f"{name}: {job.kind} of the images of the batch", tol=tol)
        return
    ctx.check(W.shape[0] == n, "one result per image")
    for i in range(n):
        ctx.equal(f(*[x[i:i + 1] for x in xs]), W[i:i + 1], f"{name}: image {i} on its own", tol=tol)
    if job.kind == "nc":
        ctx.check(W.shape[1] == c, "one result per channel")
        for j in range(c):
            ctx.equal(f(*[x[:, j:j + 1] for x in xs]), W[:, j:j + 1], f"{name}: channel {j} on its own", tol=tol)
        if job.order:
            ctx.equal(f(*[x.reshape((1, n * c) + job.shape[2:]) for x in xs]), W.reshape((1, n * c) + W.shape[2:]), f"{name}: images as channels", tol=tol)
    order = torch.tensor([n - 1] + list(range(n - 1)))
    ctx.equal(f(*[x[order] for x in xs]), W[order.numpy()], f"{name}: reordered batch", tol=tol)
    ctx.equal(f(*[torch.cat([x, x]) for x in xs]), np.concatenate([W, W]), f"{name}: repeated batch", tol=tol)


def g04(tier):
    return [dict(h="h_batch", job=j) for j in JOBS]
