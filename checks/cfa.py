import itertools
from fractions import Fraction
import numpy as np
import torch
from symx import terms as tm
from . import spec
from .spec import emap

IMPORTS = ("torchimage.cfa", "torchimage.cfa.utils", "torchimage.cfa.bayer_conv.bayer_conv_2d", "torchimage.cfa.bayer_conv.gradient_corrected")

ALIGN = ("GBRG", "GRBG", "BGGR", "RGGB")
COLOR = {"R": 0, "G": 1, "B": 2}
DT = {"f16": torch.float16, "u8": torch.uint8, "i32": torch.int32, "f32": torch.float32, "f64": torch.float64, "int": torch.int64}


def color_at(sa, r, c):
    return sa.upper()[(r % 2) * 2 + c % 2]


def pos_at(sa, r, c):
    """R, B, GR or GB: the measured colour, and for green the other colour of its row"""
    k = color_at(sa, r, c)
    return k if k != "G" else "G" + color_at(sa, r, c + 1)


def cased(sa, case):
    return {0: sa, 1: sa.lower(), 2: sa.title()}[case]


def mosaic4(x):
    return np.concatenate([x[..., r::2, c::2] for r in (0, 1) for c in (0, 1)], axis=-3)


def h_pack(ctx, cfg):
    from torchimage.cfa.utils import bayer_1c_to_4c, bayer_4c_to_1c
    lead, h, w, dt = tuple(cfg["lead"]), cfg["H"], cfg["V"], DT[cfg.get("dt", "f64")]
    x = ctx.tensor("x", lead + (1, 2 * h, 2 * w), dtype=dt)
    z = ctx.tensor("z", lead + (4, h, w), dtype=dt)
    X, Z = ctx.inputs["x"][1], ctx.inputs["z"][1]
    if cfg.get("layout") == "t":
        x, z = x.transpose(-1, -2), z.transpose(-1, -2)
        X, Z = np.swapaxes(X, -1, -2), np.swapaxes(Z, -1, -2)
    y = bayer_1c_to_4c(x)
    ctx.equal(y, mosaic4(X), "four-channel form")
    ctx.check(y.dtype == x.dtype, "element type kept")
    u = bayer_4c_to_1c(z)
    ctx.equal(bayer_1c_to_4c(u), Z, "4 -> 1 -> 4 channels")
    ctx.equal(bayer_4c_to_1c(y), X, "1 -> 4 -> 1 channels")
    ctx.no_undef(u, "one-channel form")
    ctx.check(u.dtype == z.dtype, "element type kept")
    want = np.empty(Z.shape[:-3] + (1, 2 * Z.shape[-2], 2 * Z.shape[-1]), dtype=object)
    for k in range(4):
        want[..., 0, k // 2::2, k % 2::2] = Z[..., k, :, :]
    ctx.equal(u, want, "one-channel form")
    if "x" in ctx.inputs and cfg.get("layout") != "t":
        ctx.unchanged(x, "x", "input unchanged")
        ctx.unchanged(z, "z", "input unchanged")


def h_mosaic(ctx, cfg):
    from torchimage.cfa import utils as U
    lead, h, w, dt = tuple(cfg["lead"]), cfg["H"], cfg["V"], DT[cfg.get("dt", "f64")]
    sa = ctx.choice("sa", list(ALIGN))
    name = cased(sa, ctx.choice("case", [0, 1, 2]))
    x = ctx.tensor("x", lead + (3, 2 * h, 2 * w), dtype=dt)
    X = ctx.inputs["x"][1]
    want = np.empty(lead + (1, 2 * h, 2 * w), dtype=object)
    for r in range(2 * h):
        for c in range(2 * w):
            want[..., 0, r, c] = X[..., COLOR[color_at(sa, r, c)], r, c]
    a, b = U.rgb_to_1c_bayer(x, name), U.rgb_to_4c_bayer(x, name)
    ctx.no_undef(a, "mosaic")
    ctx.equal(a, want, "one-channel mosaic")
    ctx.equal(b, mosaic4(want), "four-channel mosaic")
    ctx.check(a.dtype == b.dtype == x.dtype, "element type kept")
    ctx.unchanged(x, "x", "input unchanged")


def rgb_ref(Z, sa):
    gs = [k for k in range(4) if sa[k] == "G"]
    out = [Z[..., sa.index("R"), :, :],
           emap(lambda u, v: tm.div(tm.add(u, v), 2), Z[..., gs[0], :, :], Z[..., gs[1], :, :]),
           Z[..., sa.index("B"), :, :]]
    return np.stack(out, axis=-3)


def h_down(ctx, cfg):
    from torchimage.cfa import utils as U
    lead, h, w, dt = tuple(cfg["lead"]), cfg["H"], cfg["V"], DT[cfg.get("dt", "f64")]
    sa = ctx.choice("sa", list(ALIGN))
    name = cased(sa, ctx.choice("case", [0, 1, 2]))
    z = ctx.tensor("z", lead + (4, h, w), dtype=dt)
    x = ctx.tensor("x", lead + (1, 2 * h, 2 * w), dtype=dt)
    X, Z = ctx.inputs["x"][1], ctx.inputs["z"][1]
    ctx.equal(U.downsample_4c_bayer_to_rgb(z, name), rgb_ref(Z, sa), "downsampled four-channel mosaic")
    ctx.equal(U.downsample_1c_bayer_to_rgb(x, name), rgb_ref(mosaic4(X), sa), "downsampled one-channel mosaic")
    ctx.unchanged(x, "x", "input unchanged")
    ctx.unchanged(z, "z", "input unchanged")
    # a mosaic of a flat image downsamples to that image
    f = ctx.tensor("f", (3,), dtype=dt)
    F = ctx.inputs["f"][1]
    img = f.reshape(3, 1, 1).expand(3, 2 * h, 2 * w)
    want = np.broadcast_to(F.reshape(3, 1, 1), (3, h, w))
    ctx.equal(U.downsample_1c_bayer_to_rgb(U.rgb_to_1c_bayer(img, name), name), want, "flat image")
    ctx.equal(U.downsample_4c_bayer_to_rgb(U.rgb_to_4c_bayer(img, name), name), want, "flat image")


def mirror(i, n):
    if n == 1:
        return 0
    p = 2 * (n - 1)
    i = i % p
    return i if i < n else p - i


def conv_ref(X, sa, W, B, k):
    """X (C,H,W) elements; W[pos] (O,C,k,k); B[pos] (O,) or None"""
    C, H, V = X.shape
    O = W["R"].shape[0]
    out = np.empty((O, H, V), dtype=object)
    for o in range(O):
        for r in range(H):
            for c in range(V):
                p = pos_at(sa, r, c)
                ts = [tm.mul(W[p][o, q, u, v], X[q, mirror(r - k // 2 + u, H), mirror(c - k // 2 + v, V)])
                      for q in range(C) for u in range(k) for v in range(k)]
                if B is not None:
                    ts.append(B[p][o])
                out[o, r, c] = tm.sum_terms(ts)
    return out


def h_conv(ctx, cfg):
    from torchimage.cfa import BayerConv2d, BayerConv2dUnshuffle
    n, ci, co, h, w, k = cfg["n"], cfg["ci"], cfg["co"], cfg["H"], cfg["V"], cfg["k"]
    bias = cfg["bias"]
    sa = ctx.choice("sa", list(ALIGN))
    name = cased(sa, ctx.choice("case", [0, 1])) if cfg.get("case") else sa
    f = BayerConv2d(in_channels=ci, out_channels=co, kernel_size=k, bias=bias)
    g = BayerConv2dUnshuffle(in_channels=ci, out_channels=co, kernel_size=k, bias=bias)
    W, B = {}, {} if bias else None
    for i, p in enumerate(("R", "B", "GR", "GB")):
        if cfg.get("num"):
            t = torch.tensor([((5 * i + 3 * j + j * j) % 11 - 5) / 4 for j in range(co * ci * k * k)]).reshape(co, ci, k, k)
            W[p] = np.array([tm.norm(v) for v in t.reshape(-1).tolist()], dtype=object).reshape(co, ci, k, k)
        else:
            t = ctx.tensor("W" + p, (co, ci, k, k), -2, 2, dtype=torch.float32)
            W[p] = ctx.inputs["W" + p][1]
        b = None
        if bias:
            b = ctx.tensor("b" + p, (co,), -2, 2, dtype=torch.float32)
            B[p] = ctx.inputs["b" + p][1]
        with torch.no_grad():
            for m in (f, g):
                m.conv_dict[p].weight.copy_(t)
                if bias:
                    m.conv_dict[p].bias.copy_(b)
    shape = ((n,) if n else ()) + (ci, h, w)
    x = ctx.tensor("x", shape, -2, 2, dtype=torch.float32)
    X = ctx.inputs["x"][1]
    want = conv_ref(X, sa, W, B, k) if not n else np.stack([conv_ref(X[i], sa, W, B, k) for i in range(n)])
    with torch.no_grad():
        y = f(x, sensor_alignment=name)
        ctx.no_undef(y, "mosaic convolution")
        ctx.equal(y, want, "mosaic convolution")
        ctx.unchanged(x, "x", "input unchanged")
        if n:
            want4 = np.empty((n, 4 * co, h // 2, w // 2), dtype=object)
            for o in range(co):
                for r in (0, 1):
                    for c in (0, 1):
                        want4[:, 4 * o + 2 * r + c] = want[:, o, r::2, c::2]
            for z in (f.forward_unshuffle(x, name), g(x, name)):
                ctx.no_undef(z, "unshuffled form")
                ctx.equal(z, want4, "unshuffled form")


# Malvar, He, Cutler 2004: the published filters, coefficients times 8 (row, column offsets from the centre)
_PLUS = lambda a, b: {(-a, 0): b, (a, 0): b, (0, -a): b, (0, a): b}
G_AT_RB = {(0, 0): 4, **_PLUS(1, 2), **_PLUS(2, -1)}
DIAG = {(-1, -1): -1, (-1, 1): -1, (1, -1): -1, (1, 1): -1}
AT_G_ROW = {(0, 0): 5, (0, -1): 4, (0, 1): 4, (0, -2): -1, (0, 2): -1, (-2, 0): Fraction(1, 2), (2, 0): Fraction(1, 2), **DIAG}
AT_G_COL = {(c, r): v for (r, c), v in AT_G_ROW.items()}
OPPOSITE = {(0, 0): 6, (-1, -1): 2, (-1, 1): 2, (1, -1): 2, (1, 1): 2, **_PLUS(2, Fraction(-3, 2))}


def demosaic_ref(X, sa, top):
    """X (H,W): three planes"""
    H, V = X.shape
    out = np.empty((3, H, V), dtype=object)
    clip = lambda v: tm.minv(tm.maxv(v, 0), top)
    for r in range(H):
        for c in range(V):
            here = color_at(sa, r, c)
            for name, q in COLOR.items():
                if name == here:
                    v = X[r, c]
                else:
                    if name == "G":
                        k = G_AT_RB
                    elif here == "G":
                        k = AT_G_ROW if color_at(sa, r, c + 1) == name else AT_G_COL
                    else:
                        k = OPPOSITE
                    v = tm.sum_terms([tm.mul(tm.norm(Fraction(m) / 8), X[mirror(r + dr, H), mirror(c + dc, V)]) for (dr, dc), m in k.items()])
                out[q, r, c] = clip(v)
    return out


def h_demosaic(ctx, cfg):
    from torchimage.cfa import demosaic
    lead, h, w = tuple(cfg["lead"]), cfg["H"], cfg["V"]
    sa = cfg["sa"]
    x = ctx.tensor("x", lead + (1, h, w), cfg.get("lo", -2), cfg.get("hi", 3), dtype=torch.float32)
    X = ctx.inputs["x"][1]
    kw, top = {}, 1
    if cfg.get("clamp") == "sym":
        t = ctx.real("clamp", 0, 300)
        kw, top = {"clamp": t}, ctx.term(t)
    elif "clamp" in cfg:
        kw, top = {"clamp": cfg["clamp"]}, tm.norm(cfg["clamp"])
    flat = X.reshape((-1, h, w))
    want = np.stack([demosaic_ref(a, sa, top) for a in flat]).reshape(lead + (3, h, w))
    y = demosaic(x, sensor_alignment=cased(sa, cfg.get("case", 0)), **kw)
    ctx.no_undef(y, "demosaiced image")
    ctx.equal(y, want, "demosaiced image")
    ctx.unchanged(x, "x", "input unchanged")


def h_laststep(ctx, cfg):
    from torchimage.cfa import last_step_demosaic
    lead, h, w = tuple(cfg["lead"]), cfg["H"], cfg["V"]
    sa = ctx.choice("sa", list(ALIGN))
    name = cased(sa, ctx.choice("case", [0, 1, 2]))
    dt = DT[cfg.get("dt", "f64")]
    x = ctx.tensor("x", lead + (1, 2 * h, 2 * w), dtype=dt)
    y = ctx.tensor("y", lead + (2, 2 * h, 2 * w), dtype=dt)
    X, Y = ctx.inputs["x"][1], ctx.inputs["y"][1]
    want = np.empty(lead + (3, 2 * h, 2 * w), dtype=object)
    for r in range(2 * h):
        for c in range(2 * w):
            here = color_at(sa, r, c)
            others = [n for n in "RGB" if n != here]
            want[..., COLOR[here], r, c] = X[..., 0, r, c]
            for i, o in enumerate(others):
                want[..., COLOR[o], r, c] = Y[..., i, r, c]
    z = last_step_demosaic(x, y, name)
    ctx.no_undef(z, "reassembled image")
    ctx.equal(z, want, "reassembled image")
    ctx.unchanged(x, "x", "input unchanged")
    ctx.unchanged(y, "y", "input unchanged")


def h_align(ctx, cfg):
    """symbolic strings over the given letters, length 0..5"""
    from torchimage.cfa import utils as U
    L = ctx.choice("len", cfg["lens"])
    s = "".join(cfg["letters"][int(ctx.int(f"s{i}", 0, len(cfg["letters"]) - 1))] for i in range(L))
    if s.upper() in ALIGN:
        ctx.check(U.check_sensor_alignment(s) == s.upper(), f"{s!r} accepted in upper case")
    else:
        ctx.raises(AssertionError, lambda: U.check_sensor_alignment(s), f"alignment {s!r}")


def h_shape(ctx, cfg):
    from torchimage.cfa import utils as U
    nd = ctx.choice("nd", [1, 2, 3, 4])
    s = [int(ctx.int(f"n{i}", 1, cfg["top"][i])) for i in range(min(nd, 3))][::-1]
    s = ([2] if nd == 4 else []) + s
    x = torch.zeros(s, dtype=torch.float64)
    ok3 = nd >= 3
    even = ok3 and s[-1] % 2 == 0 and s[-2] % 2 == 0
    ch = s[-3] if ok3 else None
    tests = [
        (U.check_1c_bayer, even and ch == 1), (U.check_4c_bayer, ch == 4), (U.check_rgb, ch == 3),
        (U.bayer_1c_to_4c, even and ch == 1), (U.bayer_4c_to_1c, ch == 4),
        (lambda v: U.rgb_to_1c_bayer(v, "RGGB"), even and ch == 3), (lambda v: U.rgb_to_4c_bayer(v, "RGGB"), even and ch == 3),
        (lambda v: U.downsample_1c_bayer_to_rgb(v, "RGGB"), even and ch == 1), (lambda v: U.downsample_4c_bayer_to_rgb(v, "RGGB"), ch == 4)]
    for i, (f, ok) in enumerate(tests):
        if ok:
            f(x)
            ctx.check(True, "valid shape accepted")
        else:
            ctx.raises(AssertionError, lambda: f(x), f"shape {s} in call {i}")


def h_reject(ctx, cfg):
    """conversions reject what is not an alignment or a tensor"""
    from torchimage.cfa import utils as U, BayerConv2d, last_step_demosaic, demosaic
    bad = ctx.choice("bad", ["", "RGB", "RRGB", "RGBG", "GGRB", "RGGBB", "rgbb", "BRGG", " RGGB", 3, None, ["R", "G", "G", "B"], ("R", "G", "G", "B")])
    x3, x1, x4 = (torch.zeros((c, 6, 6)) for c in (3, 1, 4))
    for f in (lambda: U.rgb_to_1c_bayer(x3, bad), lambda: U.rgb_to_4c_bayer(x3, bad), lambda: U.downsample_4c_bayer_to_rgb(x4, bad),
              lambda: U.downsample_1c_bayer_to_rgb(x1, bad), lambda: last_step_demosaic(x1, torch.zeros((2, 6, 6)), bad),
              lambda: demosaic(x1, bad), lambda: BayerConv2d(1, 1, 3, False)(x1, bad), lambda: BayerConv2d(1, 1, 3, False).forward_unshuffle(x1[None], bad)):
        ctx.raises(AssertionError, f, f"alignment {bad!r}")
    for v in (np.zeros((3, 2, 2)), [[[0.0]]], None):
        for f in (U.check_rgb, U.check_1c_bayer, U.check_4c_bayer):
            ctx.raises(AssertionError, lambda: f(v), "not a tensor")


def shifted(sa, dr, dc):
    """alignment of the mosaic that starts dr rows and dc columns further"""
    return "".join(color_at(sa, r + dr, c + dc) for r in (0, 1) for c in (0, 1))


def turned(sa):
    return sa[0] + sa[2] + sa[1] + sa[3]


def clip_ref(X, top):
    return emap(lambda v: tm.minv(tm.maxv(v, 0), top), X)


def h_consist(ctx, cfg):
    """mosaic -> image -> mosaic, flat images"""
    from torchimage.cfa import demosaic, last_step_demosaic
    from torchimage.cfa import utils as U
    lead, h, w, sa = tuple(cfg["lead"]), cfg["H"], cfg["V"], cfg["sa"]
    kw, top = {}, 1
    if cfg.get("clamp"):
        t = ctx.real("clamp", 0, 300)
        kw, top = {"clamp": t}, ctx.term(t)
    lo, hi = cfg.get("lo", -2), cfg.get("hi", 3)
    x = ctx.tensor("x", lead + (1, h, w), lo, hi, dtype=torch.float32)
    X = ctx.inputs["x"][1]
    y = demosaic(x, sa, **kw)
    ctx.equal(U.rgb_to_1c_bayer(y, sa), clip_ref(X, top), "mosaic of the demosaiced image")
    ctx.equal(U.rgb_to_4c_bayer(y, sa), clip_ref(mosaic4(X), top), "four-channel mosaic of the demosaiced image")
    f = ctx.tensor("f", lead + (3, 1, 1), lo, hi, dtype=torch.float32)
    F = ctx.inputs["f"][1]
    flat = f.expand(lead + (3, h, w))
    m = U.rgb_to_1c_bayer(flat, sa)
    if cfg.get("grey"):        # one value everywhere: every filter's weights sum to one
        g = ctx.tensor("g", lead + (1, 1, 1), lo, hi, dtype=torch.float32)
        ctx.equal(demosaic(g.expand(lead + (1, h, w)).contiguous(), sa, **kw),
                  clip_ref(np.broadcast_to(ctx.inputs["g"][1], lead + (3, h, w)), top), "demosaiced grey image")
    ctx.equal(U.rgb_to_1c_bayer(last_step_demosaic(x, ctx.tensor("o", lead + (2, h, w), lo, hi, dtype=torch.float32), sa), sa), X, "mosaic of the reassembled image")
    ctx.equal(U.downsample_1c_bayer_to_rgb(m, sa), np.broadcast_to(F, lead + (3, h // 2, w // 2)), "downsampled flat colour")


def h_symm(ctx, cfg):
    """transposing or cropping the scene is transposing or cropping the result, under the alignment this gives"""
    from torchimage.cfa import demosaic
    from torchimage.cfa import utils as U
    lead, h, w, sa = tuple(cfg["lead"]), cfg["H"], cfg["V"], cfg["sa"]
    z = ctx.tensor("z", lead + (3, h, w), dtype=torch.float32)
    Z = ctx.inputs["z"][1]
    ctx.equal(U.rgb_to_1c_bayer(z.transpose(-1, -2), turned(sa)), np.swapaxes(ctx.elems(U.rgb_to_1c_bayer(z, sa)), -1, -2), "mosaic of the transposed image")
    dr, dc = ctx.choice("dr", [0, 1, 2]), ctx.choice("dc", [0, 1, 2])
    hh, ww = (h - dr) // 2 * 2, (w - dc) // 2 * 2
    cut = (Ellipsis, slice(dr, dr + hh), slice(dc, dc + ww))
    if hh and ww:
        ctx.equal(U.rgb_to_1c_bayer(z[cut], shifted(sa, dr, dc)), ctx.elems(U.rgb_to_1c_bayer(z, sa))[cut], "mosaic of the cropped image")
    ctx.unchanged(z, "z", "input unchanged")
    if not cfg.get("demosaic"):
        return
    x = ctx.tensor("x", lead + (1, h, w), -2, 3, dtype=torch.float32)
    y = ctx.elems(demosaic(x, sa))
    ctx.equal(demosaic(x.transpose(-1, -2).contiguous(), turned(sa)), np.swapaxes(y, -1, -2), "demosaiced transposed mosaic")
    # mirroring about an even pixel keeps the border rule: rows reversed, with the alignment the last row gives
    back = x.flip(-2)
    ctx.equal(demosaic(back, shifted(sa, h - 1, 0)), y[..., ::-1, :], "demosaiced upside-down mosaic")
    back = x.flip(-1)
    ctx.equal(demosaic(back, shifted(sa, 0, w - 1)), y[..., ::-1], "demosaiced mirrored mosaic")
    if hh >= 4 and ww >= 4:
        c = demosaic(x[cut].contiguous(), shifted(sa, dr, dc))
        e = lambda d, n, m: slice(2 if d else 0, m - 2 if d + m < n else m)
        sub = (Ellipsis, e(dr, h, hh), e(dc, w, ww))
        ctx.equal(c[sub], y[cut][sub], "demosaiced cropped mosaic away from the new borders")


HARNESS = {f.__name__: f for f in (h_pack, h_mosaic, h_down, h_conv, h_demosaic, h_laststep, h_align, h_shape, h_reject, h_consist, h_symm)}
LEADS = ([], [2], [2, 3], [1, 2, 1])


def c01(tier):
    out = []
    top = 3 if tier == "quick" else 6
    for lead in LEADS + (([3, 2, 2],) if tier != "quick" else ()):
        for h, w in itertools.product(range(1, top + 1), repeat=2):
            out.append(dict(h="h_pack", lead=lead, H=h, V=w))
    for dt in ("f32", "int"):
        out.append(dict(h="h_pack", lead=[2], H=2, V=3, dt=dt))
    out.append(dict(h="h_pack", lead=[2], H=2, V=3, layout="t"))
    out.append(dict(h="h_pack", lead=[], H=3, V=1, layout="t"))
    for h, w in ((20, 1), (1, 24), (7, 5), (12, 12)):
        out.append(dict(h="h_pack", lead=[], H=h, V=w))
        out.append(dict(h="h_pack", lead=[2, 1], H=h, V=w, layout="t"))
    out.append(dict(h="h_pack", lead=[1, 2, 1, 2, 1], H=1, V=2))
    out.append(dict(h="h_pack", lead=[9], H=2, V=1))
    out += [dict(h="h_pack", lead=[2], H=2, V=2, dt=d) for d in ("f16", "i32")]
    return out


def c02(tier):
    out = []
    top = 2 if tier == "quick" else 4
    for nm in ("h_mosaic", "h_down"):
        for lead in LEADS:
            for h, w in itertools.product(range(1, top + 1), repeat=2):
                out.append(dict(h=nm, lead=lead, H=h, V=w))
        out.append(dict(h=nm, lead=[2], H=1, V=3, dt="f32"))
        out.append(dict(h=nm, lead=[2], H=3, V=1))
    out.append(dict(h="h_mosaic", lead=[], H=2, V=2, dt="int"))
    for nm in ("h_mosaic", "h_down"):
        for h, w in ((10, 1), (1, 12), (5, 4)):
            out.append(dict(h=nm, lead=[], H=h, V=w))
        out.append(dict(h=nm, lead=[2, 1, 1, 2, 1], H=1, V=2))
        out.append(dict(h=nm, lead=[7], H=2, V=1))
    out.append(dict(h="h_mosaic", lead=[2], H=2, V=1, dt="f16"))
    out.append(dict(h="h_mosaic", lead=[2], H=2, V=1, dt="i32"))
    return out


def c03(tier):
    out = []
    S = lambda n, ci, co, h, w, k, b, **o: out.append(dict(h="h_conv", n=n, ci=ci, co=co, H=h, V=w, k=k, bias=b, **o))
    for b in (True, False):
        for n, ci, co in ((0, 1, 1), (1, 1, 2), (2, 2, 1)):
            S(n, ci, co, 2, 4, 2, b)
            S(n, ci, co, 4, 2, 3, b)
            S(n, ci, co, 2, 2, 1, b)
        S(1, 1, 1, 4, 6, 5, b)
        S(1, 2, 2, 4, 4, 3, b, case=True)
        S(1, 1, 1, 4, 4, 4, b)
        S(2, 1, 2, 6, 4, 3, b)
        S(1, 1, 1, 4, 20, 3, b)
        S(1, 1, 1, 18, 2, 1, b)
        S(1, 1, 1, 20, 4, 3, b)
        S(5, 1, 1, 2, 2, 2, b)
        S(1, 3, 1, 2, 4, 2, b)
        S(1, 1, 4, 4, 2, 1, b)
        S(1, 1, 1, 8, 8, 7, b)
        for ci, co in ((3, 2), (2, 3), (3, 3), (4, 2), (2, 5), (5, 1), (1, 6)):
            S(1, ci, co, 2, 2, 1 if ci * co > 6 else 2, b, num=True)
        S(2, 3, 2, 4, 4, 3, b, num=True)
        S(0, 2, 3, 4, 2, 3, b, num=True)
    if tier == "thorough":
        for k in (1, 2, 3, 4, 5, 6, 7):
            for h, w in itertools.product((4, 6, 8), repeat=2):
                if k // 2 < min(h, w):
                    S(1, 1, 2, h, w, k, True)
        S(2, 3, 3, 6, 6, 5, True)
    return out


def c04(tier):
    out = []
    for sa in ALIGN:
        D = lambda **k: out.append(dict(h="h_demosaic", sa=sa, **k))
        D(lead=[], H=4, V=4)
        D(lead=[1], H=4, V=6, clamp="sym", case=1)
        D(lead=[2], H=4, V=4, clamp=255, lo=-300, hi=600)
        D(lead=[1], H=6, V=4, clamp=0.5, case=2)
        D(lead=[], H=4, V=20, clamp=2)
        D(lead=[], H=18, V=4, clamp="sym")
        D(lead=[], H=10, V=8, clamp=1)
        D(lead=[5], H=4, V=4, clamp=0)
        if tier == "thorough":
            D(lead=[2], H=8, V=6, clamp="sym")
            D(lead=[1], H=10, V=10)
            D(lead=[3], H=4, V=12, clamp=2.0)
    top = 2 if tier == "quick" else 4
    for lead in LEADS:
        for h, w in itertools.product(range(1, top + 1), repeat=2):
            out.append(dict(h="h_laststep", lead=lead, H=h, V=w))
    out.append(dict(h="h_laststep", lead=[2], H=1, V=3, dt="f32"))
    for h, w in ((10, 1), (1, 12), (4, 5)):
        out.append(dict(h="h_laststep", lead=[], H=h, V=w))
    out.append(dict(h="h_laststep", lead=[1, 2, 1, 1, 2], H=2, V=1))
    out.append(dict(h="h_laststep", lead=[], H=2, V=2, dt="f16"))
    return out


def c05(tier):
    out = [dict(h="h_align", letters="RGB", lens=[4]), dict(h="h_align", letters="RgbG", lens=[4]), dict(h="h_align", letters="rGBx", lens=[4]),
           dict(h="h_align", letters="RGB", lens=[0, 1, 2, 3]), dict(h="h_align", letters="GB", lens=[5]),
           dict(h="h_shape", top=[4, 4, 5]), dict(h="h_reject")]
    if tier == "thorough":
        out += [dict(h="h_align", letters="RGBrgb", lens=[4]), dict(h="h_align", letters="RGB", lens=[5]), dict(h="h_shape", top=[6, 6, 6])]
    return out


def c06(tier):
    out = []
    for sa in ALIGN:
        A = lambda **k: out.append(dict(sa=sa, **k))
        A(h="h_consist", lead=[], H=4, V=4, grey=True)
        A(h="h_consist", lead=[2], H=4, V=6, grey=True, clamp=True)
        A(h="h_consist", lead=[1], H=6, V=4, lo=-300, hi=600, clamp=True)
        A(h="h_symm", lead=[], H=6, V=6, demosaic=True)
        A(h="h_symm", lead=[2], H=4, V=6, demosaic=True)
        A(h="h_symm", lead=[2, 1], H=2, V=4)
        A(h="h_symm", lead=[], H=2, V=2)
        if tier == "thorough":
            A(h="h_symm", lead=[1], H=8, V=10, demosaic=True)
            A(h="h_consist", lead=[3], H=8, V=10, grey=True, clamp=True)
            A(h="h_symm", lead=[1, 2], H=6, V=8)
    return out


PROPS = {"C06": c06, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}
META = {
    "C06": dict(bounds="images and mosaics of sides 2..6 (thorough 10), elements in [-2,3] or [-300,600], symbolic clamp in [0,300], every alignment, crops by 0..2 rows and columns",
                outside="sides below 4 for demosaicing; flat colours that are not grey (the published filters mix colour planes)"),
    "C01": dict(bounds="zero to three leading dimensions, half sides 1..3 (thorough 1..6), three element types, transposed storage", outside="larger"),
    "C02": dict(bounds="zero to three leading dimensions, half sides 1..2 (thorough 1..4), all alignments in upper, lower and title case",
                outside="larger; integer mosaics for downsampling (the mean of two integers)"),
    "C03": dict(bounds="symbolic weights and biases in [-2,2], up to 2 input and 2 output channels, sides 2..6 (thorough 8 and 3 channels), kernel sizes 1..5 (thorough 1..7), "
                       "all alignments, unbatched and batched", outside="kernels reaching past a whole mirrored side, more than one batch dimension"),
    "C04": dict(bounds="mosaics of sides 4..6 (thorough 12), elements in [-2,3] or [-300,600], all alignments, fixed and symbolic clamp in [0,300]; "
                       "reassembly with zero to three leading dimensions", outside="sides below 4 (mirroring needs 3), more than one batch dimension for the filters"),
    "C05": dict(bounds="every string of 4 letters over three letter sets (thorough six letters), shorter and longer strings, "
                       "shapes of 1..4 dimensions with sides up to 4 and 5 channels (thorough 6)", outside="other letters"),
}
