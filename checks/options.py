"""What the caller passes as an option is only read; objects sharing an option do not disturb each other."""
import copy
import numpy as np
import torch
from symx import terms as tm
from . import spec

MODES = spec.INDEX_MODES + spec.LINEAR_MODES + spec.FILL_MODES


def _snap(ctx, o):
    """structure with terms at the leaves"""
    if isinstance(o, np.ndarray):
        return ("array", o.shape, str(o.dtype), [_snap(ctx, v) for v in o.reshape(-1)])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, len(o), [_snap(ctx, v) for v in o])
    if isinstance(o, dict):
        return ("dict", [(k, _snap(ctx, v)) for k, v in o.items()])
    if isinstance(o, (str, slice, type(None), bool)):
        return o
    if isinstance(o, np.generic):
        return ("np", float(o))
    return ("n", ctx.term(o))


def _same(ctx, a, b, what):
    if type(a) is not type(b):
        return ctx.check(False, what)
    if isinstance(a, (tuple, list)):
        if len(a) == 2 and a[0] == "n" and b[0] == "n":
            return ctx.check(tm.eq(a[1], b[1]) if ctx.symbolic else a[1] == b[1], what)
        ctx.check(len(a) == len(b), what)
        for u, v in zip(a, b):
            _same(ctx, u, v, what)
        return
    if isinstance(a, (str, slice, type(None), bool, int, float)):
        return ctx.check(a == b, what)
    ctx.check(a is b, what)


def _mk(kind, v):
    """the same numbers as a list, a tuple or an array"""
    if kind == "list":
        return [list(i) if isinstance(i, (list, tuple)) else i for i in v]
    if kind == "tuple":
        return tuple(tuple(i) if isinstance(i, (list, tuple)) else i for i in v)
    a = np.array(v, dtype=float)
    return a


def h_options(ctx, cfg):
    case, kind = cfg["case"], cfg["kind"]
    num = kind == "array"                     # plain numbers: numpy arrays of floats hold no symbols
    r = (lambda n, lo=-2, hi=2, d=1.0: float(d)) if num else (lambda n, lo=-2, hi=2, d=1.0: ctx.real(n, lo, hi))
    import torchimage.pooling as P
    import torchimage.filtering as F
    import torchimage.metrics as M
    from torchimage.padding import Padder
    from torchimage.misc import poly1d
    from torchimage.random import random_crop
    if case == "kernel":
        opts = [_mk(kind, [r("k0"), r("k1", d=-0.5), r("k2", d=0.25)]), _mk("tuple" if kind == "tuple" else "list", [1, 2])]
        make = lambda k, s: P.SeparablePoolNd(k, stride=s, same_padder="reflect")
        shape, call = (3, 4), lambda f, x: f.forward(x, axes=(0, 1))
    elif case == "kernels":
        opts = [_mk(kind if kind != "array" else "list", [[r("k0"), r("k1", d=-0.5)], [r("k2", d=0.25), 1.0, r("k3", d=3.0)]])]
        make = lambda k: P.SeparablePoolNd(k, same_padder="symmetric").to_filter()
        shape, call = (3, 4), lambda f, x: f.forward(x, axes=(1, 0))
    elif case == "smooth":
        opts = [_mk(kind, [-1.0, r("e1", d=0.5), 2.0]), _mk(kind, [r("s0", Fq(1, 2), 2), 1.0, r("s2", Fq(1, 2), 2, d=1.5)])]
        make = lambda e, s: F.EdgeFilter(e, s, normalize=True, same_padder="replicate")
        shape, call = (3, 3), lambda f, x: f.component(x, 0, 1)
    elif case == "average":
        opts = [_mk("tuple" if kind == "tuple" else "list", [2, 3]), _mk("tuple" if kind == "tuple" else "list", [1, 2])]
        make = lambda k, s: P.AvgPoolNd(k, stride=s, same_padder="zeros", count_include_pad=False)
        shape, call = (3, 4), lambda f, x: f.forward(x, axes=(0, 1))
    elif case == "pad":
        t = _mk if kind != "array" else (lambda k, v: _mk("list", v))
        opts = [t(kind, [(1, 2), (2, 0)]), _mk("tuple" if kind == "tuple" else "list", ["constant", "linear_ramp"]),
                t(kind, [(r("c0"), r("c1", d=2.0)), (0, 0)]), t(kind, [(0.0, 0.0), (r("v0"), r("v1", d=4.0))])]
        make = lambda w, m, c, e: Padder(pad_width=w, mode=m, constant_values=c, end_values=e)
        shape, call = (2, 3), lambda f, x: f.forward(x, axes=None)
    elif case.startswith("modes"):                # every mode name inside a list of modes
        names = list(MODES)
        names = names[int(case[5:]) % len(names):] + names[:int(case[5:]) % len(names)]
        names = names[:2]
        t = _mk if kind != "array" else (lambda k, v: _mk("list", v))
        opts = [_mk("tuple" if kind == "tuple" else "list", names), t(kind, [(r("c0"), r("c1", d=2.0))] * 2),
                t(kind, [(r("v0"), r("v1", d=4.0))] * 2)]
        make = lambda m, c, e: Padder(pad_width=[(1, 2), (2, 1)], mode=m, constant_values=c, end_values=e)
        shape, call = (2, 3), lambda f, x: f.forward(x, axes=None)
    elif case == "stat":
        t = _mk if kind != "array" else (lambda k, v: _mk("list", v))
        opts = [t(kind, [(1, 2), (2, 1)]), t(kind, [(1, 9), (2, 1)])]
        make = lambda w, s: Padder(pad_width=w, mode="mean", stat_length=s)
        shape, call = (2, 3), lambda f, x: f.forward(x, axes=None)
    elif case == "weights":
        opts = [_mk(kind, [r("w0", 0, 1, d=0.25), r("w1", 0, 1, d=0.5)])]
        make = lambda w: M.MS_SSIM(weights=w, use_prod=False, blur=P.SeparablePoolNd([0.5, 0.5]), padder="reflect", K1=0.25, K2=0.5)
        shape, call = (1, 1, 5), lambda f, x: f.forward(x, x * 0.5 + 0.25)
    elif case == "axes":
        opts = [_mk("tuple" if kind == "tuple" else "list", [-1, 0]), _mk("tuple" if kind == "tuple" else "list", [-1])]
        make = lambda a, b: (a, b)
        pool, pd, mse, lap = P.SeparablePoolNd([0.5, 2.0], stride=1), Padder(pad_width=(1, 2), mode="reflect"), M.MSE(), F.Laplace()

        def call(f, x):
            a, b = f
            y = pool.forward(pd.forward(x, axes=a), axes=a)
            return mse.forward(y, 2 * y, reduce_axes=b) + lap.forward(y, axes=a).sum(-1) + F.Sobel().component(y, 1, [0]).sum()
        shape = (3, 3)
    elif case == "poly":
        opts = [_mk(kind, [r("p0"), r("p1", d=-3.0), r("p2", d=0.5)])]
        make = lambda p: p
        shape, call = (2, 2), lambda f, x: poly1d(x, f)
    elif case == "crop":
        opts = [_mk("tuple" if kind == "tuple" else "list", [-1, 0]), _mk("tuple" if kind == "tuple" else "list", [3, 2])]
        make = lambda a, s: (a, s)
        shape, call = (2, 3), lambda f, x: random_crop(x, f[0], f[1])
    given = opts if kind != "array" else [o.copy() if isinstance(o, np.ndarray) else copy.copy(o) for o in opts]
    before = [_snap(ctx, o) for o in given]
    parts = [_snap(ctx, o) for o in given]
    x = ctx.tensor("x", shape, -2, 2)
    f = make(*given)
    for b, o in zip(before, given):
        _same(ctx, b, _snap(ctx, o), f"{case}: options unchanged by construction")
    y = call(f, x)
    Y = ctx.elems(y)
    tol = None if ctx.symbolic else 1e-9
    for b, o in zip(parts, given):
        _same(ctx, b, _snap(ctx, o), f"{case}: options unchanged by use")
    ctx.equal(call(make(*given), x), Y, f"{case}: a second object from the same options", tol=tol)
    ctx.equal(call(f, x), Y, f"{case}: the first object again", tol=tol)
    for b, o in zip(parts, given):
        _same(ctx, b, _snap(ctx, o), f"{case}: options unchanged in the end")


def Fq(a, b):
    return a / b


def _users():
    """layers built around a given padder"""
    import torchimage.pooling as P
    import torchimage.filtering as F
    import torchimage.metrics as M
    two, three = [0.5, -1.0], [0.25, 0.5, 2.0]
    return {
        "even": (lambda p: P.SeparablePoolNd(two, stride=1, same_padder=p), lambda f, x: f.forward(x, axes=None)),
        "stride": (lambda p: P.SeparablePoolNd(three, stride=2, same_padder=p), lambda f, x: f.forward(x, axes=None)),
        "average": (lambda p: P.AvgPoolNd((4, 3), stride=(2, 1), same_padder=p, count_include_pad=False), lambda f, x: f.forward(x, axes=(0, 1))),
        "gauss": (lambda p: P.GaussianPoolNd(5, 1.0, stride=1, same_padder=p), lambda f, x: f.forward(x, axes=1)),
        "edge": (lambda p: F.EdgeFilter([1.0, -1.0], [1.0, 2.0, 1.0], same_padder=p), lambda f, x: f.component(x, 1, 0)),
        "sobel": (lambda p: F.Sobel(same_padder=p), lambda f, x: f.vertical(x)),
        "laplace": (lambda p: F.Laplace(same_padder=p), lambda f, x: f.forward(x, axes=(1, 0))),
        "unsharp": (lambda p: F.UnsharpMask(P.SeparablePoolNd(three), padder=p), lambda f, x: f.forward(x, axes=None)),
        "ssim": (lambda p: M.SSIM(blur=P.SeparablePoolNd([0.25, 0.5, 0.25]), padder=p, K1=0.25, K2=0.5), lambda f, x: f.forward(x, x * 0.5 + 0.25, content_axes=1, reduce_axes=-1)),
    }


def h_shared(ctx, cfg):
    """two layers around one padder, or two users of one filter, called in any order"""
    from torchimage.padding import Padder
    import torchimage.pooling as P
    import torchimage.filtering as F
    import torchimage.metrics as M
    x = [ctx.tensor("x", (3, 3), -2, 2), ctx.tensor("z", (4, 3), -2, 2)]
    mode = cfg.get("mode", "symmetric")
    if cfg["what"] == "padder":
        U = _users()
        us = [U[n] for n in cfg["users"]]
        p = Padder(mode=mode)
        layers = [m(p) for m, _ in us]
        calls = [c for _, c in us]
        fresh = lambda i: us[i][0](Padder(mode=mode))
    else:
        k = [0.25, 0.5, 0.25]
        blur = P.SeparablePoolNd(k, same_padder=mode).to_filter()
        B = {"unsharp": (lambda b: F.UnsharpMask(b, amount=2.0), lambda f, t: f.forward(t, axes=None)),
             "ssim": (lambda b: M.SSIM(blur=b, K1=0.25, K2=0.5), lambda f, t: f.forward(t, t * 0.5 + 0.25, content_axes=1, reduce_axes=-1)),
             "ssim map": (lambda b: M.SSIM(blur=b, K1=0.25, K2=0.5, use_sample_covariance=False), lambda f, t: f.forward(t, t * 0.5 + 0.25, content_axes=(1,), full=True)[1]),
             "itself": (lambda b: b, lambda f, t: f.forward(t, axes=(1, 0)))}
        us = [B[n] for n in cfg["users"]]
        layers = [m(blur) for m, _ in us]
        calls = [c for _, c in us]
        fresh = lambda i: us[i][0](P.SeparablePoolNd(k, same_padder=mode).to_filter())
    for s in range(cfg.get("steps", 2)):
        i, j = ctx.choice(f"who{s}", [0, 1]), ctx.choice(f"on{s}", [0, 1])
        got = calls[i](layers[i], x[j])
        ctx.equal(got, ctx.elems(calls[i](fresh(i), x[j])), f"call {s + 1}: the layer that shares its {cfg['what']}", tol=None if ctx.symbolic else 1e-9)


def g05(tier):
    out = []
    for c in ("kernel", "kernels", "smooth", "average", "pad", "stat", "weights", "axes", "poly", "crop"):
        for k in ("list", "tuple") + (("array",) if c in ("kernel", "smooth", "poly", "weights") else ()):
            out.append(dict(h="h_options", case=c, kind=k))
    for i in range(len(MODES)):
        for k in ("list", "tuple"):
            out.append(dict(h="h_options", case=f"modes{i}", kind=k))
    names = ["even", "stride", "average", "gauss", "edge", "sobel", "laplace", "unsharp", "ssim"]
    pairs = [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
    if tier == "quick":
        pairs = [p for p in pairs if "stride" in p or "even" in p] + [("edge", "sobel"), ("laplace", "unsharp"), ("gauss", "ssim"), ("average", "ssim")]
    for i, p in enumerate(pairs):
        out.append(dict(h="h_shared", what="padder", users=list(p), mode=["symmetric", "zeros", "odd_reflect", "circular"][i % 4], steps=2 if tier == "quick" else 3))
    for p in (("unsharp", "ssim"), ("ssim", "ssim map"), ("unsharp", "itself"), ("itself", "ssim map")):
        out.append(dict(h="h_shared", what="blur", users=list(p), steps=2 if tier == "quick" else 3))
    return out
