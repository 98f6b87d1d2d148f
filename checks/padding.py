import itertools
import numpy as np
import torch
from symx import terms as tm
from . import spec
from .spec import pad1, padn

IMPORTS = ("torchimage.padding", "torchimage.padding.generic_pad", "torchimage.padding.utils", "torchimage.padding.pad_1d")
TOL = 1e-7


def _tol(cfg):
    return {"f32": 2e-5, "f16": 0.05, "bf16": 0.5}.get(cfg.get("dtype"), TOL)


def _dt(cfg):
    return {"f32": torch.float32, "f16": torch.float16, "bf16": torch.bfloat16, "i64": torch.int64, "i32": torch.int32,
            "u8": torch.uint8}.get(cfg.get("dtype"), torch.float64)


def _width(ctx, cfg, name, W):
    """a symbolic width 0..W, or one in the range the configuration names"""
    lo, hi = cfg.get(name, (0, W))
    return int(ctx.int(name, lo, hi))


def _modevals(ctx, mode, tag, n, slmax=None):
    """symbolic constants of one axis -> (what the user passes, what the definition uses)"""
    if mode == "constant":
        u = (ctx.real(f"cv{tag}a"), ctx.real(f"cv{tag}b"))
        return {"cv": u}, {"cv": tuple(ctx.term(v) for v in u)}
    if mode == "linear_ramp":
        u = (ctx.real(f"ev{tag}a", -8, 8), ctx.real(f"ev{tag}b", -8, 8))
        return {"ev": u}, {"ev": tuple(ctx.term(v) for v in u)}
    if isinstance(slmax, (list, tuple)):
        return {"sl": tuple(slmax)}, {"sl": tuple(slmax)}
    if mode in ("maximum", "minimum", "mean", "median") and slmax is not None:
        u = []
        for s in "ab":
            v = ctx.int(f"sl{tag}{s}", 0, slmax + 1)
            v = int(v)
            u.append(None if v == slmax + 1 else v)
        return {"sl": tuple(u)}, {"sl": tuple(u)}
    return {}, {}


def h_1d(ctx, cfg):
    """one padded axis, any width, inside a 2-d tensor (the other axis must be independent)"""
    from torchimage.padding import Padder
    mode, n = cfg["mode"], cfg["n"]
    W = cfg.get("w", 3)
    b, a = _width(ctx, cfg, "b", W), _width(ctx, cfg, "a", W)
    if mode == "periodize" and b == a == 0:
        return ctx.check(True, "no padding requested")
    axis = cfg.get("axis", 1)
    rows = cfg.get("rows", 2)
    bounded = mode in ("linear_ramp", "mean")
    shape = (rows, n) if axis == 1 else (n, rows)
    if "nd" in cfg:                               # any number of dimensions, the padded one at any place
        shape = tuple(n if i == axis else (2 if i == (axis + 1) % cfg["nd"] else 1) for i in range(cfg["nd"]))
    x = ctx.tensor("x", shape, *((-8, 8) if bounded else ()), dtype=_dt(cfg))
    user, defn = _modevals(ctx, mode, "", n, cfg.get("slmax"))
    kw = {}
    if "cv" in user:
        kw["constant_values"] = user["cv"]
    if "ev" in user:
        kw["end_values"] = user["ev"]
    if "sl" in user:
        kw["stat_length"] = user["sl"]
    y = Padder(pad_width=(b, a), mode=mode, **kw).forward(x, axes=(axis,))
    X = ctx.inputs["x"][1]
    want = padn(X, [(axis, dict(before=b, after=a, mode=mode, **defn))])
    ctx.equal(y, want, f"{mode} padding ({b},{a}) of {n} samples", tol=_tol(cfg) if bounded else None)
    ctx.check(y.dtype == x.dtype, "element type preserved")
    ctx.unchanged(x, "x", "input tensor unchanged")


def h_nd(ctx, cfg):
    """several axes: sequential, ordered, right-justified specifications"""
    from torchimage.padding import Padder
    shape = tuple(cfg["shape"])
    axes = cfg["axes"]
    W = cfg.get("w", 2)
    modes = cfg["modes"]                       # per specification entry, or a single name
    k = cfg["k"]                               # number of specification entries (0: one item for all)
    bounded = any(m in ("linear_ramp", "mean") for m in ([modes] if isinstance(modes, str) else modes))
    x = ctx.tensor("x", shape, *((-8, 8) if bounded else ()))
    nd = len(shape)
    real_axes = list(range(nd)) if axes is None else \
        (list(range(nd))[slice(*axes["slice"])] if isinstance(axes, dict) else [a % nd for a in axes])
    pw = []
    for i in range(max(k, 1)):
        if cfg.get("widths"):
            pw.append(tuple(cfg["widths"][i]))
        else:
            pw.append((int(ctx.int(f"b{i}", 0, W)), int(ctx.int(f"a{i}", 0, W))))
    ml = [modes] * max(k, 1) if isinstance(modes, str) else list(modes)
    if any(m == "periodize" and pw[i] == (0, 0) for i, m in enumerate(ml)):
        return ctx.check(True, "periodize without padding is outside the claim")
    cvs, evs, sls, defs = [], [], [], []
    for i, m in enumerate(ml):
        u, dfn = _modevals(ctx, m, str(i), None, None)
        cvs.append(u.get("cv", (0, 0)))
        evs.append(u.get("ev", (0.0, 0.0)))
        defs.append(dfn)
    kw = {}
    if any(m == "constant" for m in ml):
        kw["constant_values"] = cvs if k else cvs[0]
    if any(m == "linear_ramp" for m in ml):
        kw["end_values"] = evs if k else evs[0]
    mode_arg = modes if isinstance(modes, str) else list(modes)
    p = Padder(pad_width=pw if k else pw[0], mode=mode_arg, **kw)
    ax_arg = axes if axes is None else (slice(*axes["slice"]) if isinstance(axes, dict) else tuple(axes))
    y = p.forward(x, axes=ax_arg) if not cfg.get("default_axes") else p.forward(x)
    m = len(real_axes) if k == 0 else min(k, len(real_axes))
    plan = []
    for j in range(m):
        axis = real_axes[len(real_axes) - m + j]
        i = 0 if k == 0 else k - m + j
        plan.append((axis, dict(before=pw[i][0], after=pw[i][1], mode=ml[i], **defs[i])))
    X = ctx.inputs["x"][1]
    want = padn(X, plan)
    ctx.equal(y, want, f"sequential {modes} padding over axes {real_axes}", tol=TOL if bounded else None)
    ctx.check(y.dtype == x.dtype, "element type preserved")
    ctx.unchanged(x, "x", "input tensor unchanged")


def h_empty(ctx, cfg):
    """'empty' leaves the interior intact and changes nothing else; a user function gets the documented contract"""
    from torchimage.padding import Padder
    shape = tuple(cfg["shape"])
    x = ctx.tensor("x", shape)
    b, a = int(ctx.int("b", 0, 2)), int(ctx.int("a", 0, 2))
    c, d = int(ctx.int("c", 0, 2)), int(ctx.int("d", 0, 2))
    X = ctx.inputs["x"][1]
    if cfg["kind"] == "empty":
        y = Padder(pad_width=[(b, a), (c, d)], mode="empty").forward(x, axes=(0, 1))
        ctx.check(tuple(y.shape) == (shape[0] + b + a, shape[1] + c + d), "empty padding has the requested size")
        ctx.equal(y[b:b + shape[0], c:c + shape[1]], X, "empty padding keeps the interior")
        return
    seen = []
    fill = ctx.real("fill")

    def user(t, idx, dim):
        seen.append((dim, tuple((s.start, s.stop) for s in idx)))
        i0 = list(idx)
        f = fill
        if cfg.get("told"):                   # the border is the sum of the region the function is told about
            f = t[tuple(idx)].sum() + fill
        i0[dim] = slice(0, idx[dim].start)
        t[tuple(i0)] = f
        i0[dim] = slice(idx[dim].stop, None)
        t[tuple(i0)] = f
        return t
    y = Padder(pad_width=[(b, a), (c, d)], mode=[user, "replicate"] if cfg["kind"] == "fn0" else ["replicate", user]) \
        .forward(x, axes=(0, 1))
    f = ctx.term(fill)
    dfn = dict(mode="constant", cv=(f, f))
    rep = dict(mode="replicate")
    p0, p1 = (dfn, rep) if cfg["kind"] == "fn0" else (rep, dfn)
    if cfg.get("told"):
        Y = X if cfg["kind"] == "fn0" else padn(X, [(0, dict(before=b, after=a, **rep))])
        s = tm.add(tm.sum_terms(list(Y.reshape(-1))), f)
        dfn["cv"] = (s, s)
    want = padn(X, [(0, dict(before=b, after=a, **p0)), (1, dict(before=c, after=d, **p1))])
    ctx.equal(y, want, "custom padding function composes with built-in modes")


def h_axis(ctx, cfg):
    """padding a single axis separately equals padding it in the n-d call"""
    from torchimage.padding import Padder
    shape = tuple(cfg["shape"])
    mode = cfg["mode"]
    axis = cfg["axis"]
    W = cfg.get("w", 3)
    b, a = _width(ctx, cfg, "b", W), _width(ctx, cfg, "a", W)
    if mode == "periodize" and b == a == 0:
        return ctx.check(True, "no padding requested")
    bounded = mode in ("linear_ramp", "mean")
    x = ctx.tensor("x", shape, *((-8, 8) if bounded else ()), dtype=_dt(cfg))
    user, defn = _modevals(ctx, mode, "", None, None)
    kw = {}
    if "cv" in user:
        kw["constant_values"] = user["cv"]
    if "ev" in user:
        kw["end_values"] = user["ev"]
    nspec = cfg.get("nspec", 0)
    pw = (b, a)
    if nspec:
        pw = [(j, j + 1) for j in range(nspec)]       # entries the call must not use
        pw[cfg["i"]] = (b, a)
    p = Padder(pad_width=pw, mode=mode, **kw)
    y = p.pad_axis(x, i=cfg["i"], axis=axis)
    X = ctx.inputs["x"][1]
    want = padn(X, [(axis % len(shape), dict(before=b, after=a, mode=mode, **defn))])
    ctx.equal(y, want, f"single-axis {mode} padding", tol=_tol(cfg) if bounded else None)
    ctx.check(y.dtype == x.dtype, "element type preserved")
    ctx.unchanged(x, "x", "input tensor unchanged")


def h_same(ctx, cfg):
    """same-padding widths, all sizes symbolic"""
    from torchimage.padding.utils import same_padding_width
    K, N, St = cfg["K"], cfg["N"], cfg["stride"]
    k = ctx.int("k", 1, K)
    kt = ctx.term(k)
    if St == 1:
        if cfg.get("with_size"):
            n = ctx.int("n", 1, N)
            before, after = same_padding_width(k, 1, n)
        else:
            before, after = same_padding_width(k)
        b, a = ctx.term(before), ctx.term(after)
        ctx.check(tm.eq(tm.add(b, a), tm.sub(kt, 1)), "stride 1 keeps the size")
    else:
        n = ctx.int("n", 1, N)
        nt = ctx.term(n)
        if St == "kernel":
            before, after = same_padding_width(k, None, n)
            s = kt
        else:
            s = St
            before, after = same_padding_width(k, St, n)
        b, a = ctx.term(before), ctx.term(after)
        tot = tm.add(b, a)
        out = ctx.int("out", 0, N)            # witness for ceil(n / s)
        o = ctx.term(out)
        ctx.assume(tm.and_(tm.lt(tm.mul(tm.sub(o, 1), s), nt), tm.le(nt, tm.mul(o, s))))
        need = tm.sub(tm.add(tm.mul(tm.sub(o, 1), s), kt), nt)
        ctx.check(tm.le(need, tot), "padding lets ceil(n/stride) windows fit")
        ctx.check(tm.or_(tm.eq(tot, need), tm.and_(tm.eq(tot, 0), tm.lt(need, 0))), "padding is minimal")
        # number of windows over the padded signal
        if St != "kernel":
            got = tm.add(tm.idiv(tm.sub(tm.add(nt, tot), kt), s), 1)
            ctx.check(tm.or_(tm.lt(need, 0), tm.eq(got, o)), "same padding yields ceil(n/stride) outputs")
    ctx.check(tm.and_(tm.le(0, a), tm.le(a, b), tm.le(tm.sub(b, a), 1)), "padding is balanced, the larger half first")


def h_tosame(ctx, cfg):
    """Padder.to_same followed by padding gives ceil(n/stride) windows along every axis"""
    from torchimage.padding import Padder
    nd = cfg["nd"]
    ks = [int(ctx.int(f"k{i}", 1, cfg["K"])) for i in range(nd)]
    st = [int(ctx.int(f"s{i}", 1, cfg["S"])) for i in range(nd)]
    ns = [int(ctx.int(f"n{i}", 1, cfg["N"])) for i in range(nd)]
    if cfg.get("scalar"):
        ks, st = [ks[0]] * nd, [st[0]] * nd
    x = ctx.tensor("x", ns)
    p = Padder(pad_width=7, mode="replicate")
    p.to_same(kernel_size=ks[0] if cfg.get("scalar") else ks, stride=st[0] if cfg.get("scalar") else st, in_shape=ns)
    y = p.forward(x, axes=None)
    for i in range(nd):
        out = -(-ns[i] // st[i])
        b, a = spec.same_width(ks[i], st[i], ns[i])
        ctx.check(y.shape[i] == ns[i] + a + b, "padded size")
        if ks[i] >= st[i] or b + a:
            ctx.check((y.shape[i] - ks[i]) // st[i] + 1 == out, "ceil(n/stride) windows")
    plan = [(i, dict(before=spec.same_width(ks[i], st[i], ns[i])[0], after=spec.same_width(ks[i], st[i], ns[i])[1],
                     mode="replicate")) for i in range(nd)]
    ctx.equal(y, padn(ctx.inputs["x"][1], plan), "same padding places the signal")


def h_fmt(ctx, cfg):
    """pad-width formats convert into each other without loss"""
    from torchimage.padding.utils import pad_width_format
    nd, m = cfg["nd"], cfg["m"]
    pairs = [(ctx.int(f"b{i}", 0, 1000), ctx.int(f"a{i}", 0, 1000)) for i in range(m)]     # right-most m axes
    src = tuple(pairs) if not cfg.get("lists") else [list(p) for p in pairs]
    flat = pad_width_format(src, source="numpy", target="torch")
    want = [v for p in reversed(pairs) for v in p]
    ctx.equal(list(flat), spec.vec([ctx.term(v) for v in want]), "numpy -> torch order")
    back = pad_width_format(flat, source="torch", target="numpy", ndim=nd)
    wantb = [[0, 0]] * (nd - m) + [[ctx.term(u), ctx.term(v)] for u, v in pairs]
    o = np.empty((nd, 2), dtype=object)
    for i, (u, v) in enumerate(wantb):
        o[i, 0], o[i, 1] = u, v
    ctx.equal([list(p) for p in back], o, "torch -> numpy restores every axis")
    for s in ("numpy", "torch"):
        same = pad_width_format(src if s == "numpy" else flat, source=s, target=s)
        ctx.equal([list(p) for p in same] if s == "numpy" else list(same),
                  ctx.elems([list(p) for p in src] if s == "numpy" else list(flat)), "same format is the identity")
    # meaning: numpy entry i describes axis i; torch entry pairs start from the last axis
    if cfg.get("meaning") and m == nd:
        ps = [(int(u), int(v)) for u, v in pairs]


def h_padvalid(ctx, cfg):
    """invalid padding requests are rejected, valid ones accepted"""
    from torchimage.padding import Padder
    k = cfg["kind"]
    if k == "negative":
        b, a = ctx.int("b", -3, 3), ctx.int("a", -3, 3)
        bt, at = ctx.term(b), ctx.term(a)
        if ctx.decide(tm.or_(tm.lt(bt, 0), tm.lt(at, 0))):
            ctx.raises(ValueError, lambda: Padder(pad_width=(b, a)), "negative padding width")
        else:
            p = Padder(pad_width=(b, a))
            ctx.equal(list(p.pad_width[0]), spec.vec([bt, at]), "width kept")
    elif k == "mode":
        x = ctx.tensor("x", (2, 3))
        ctx.raises(ValueError, lambda: Padder(pad_width=1, mode=cfg["mode"]).forward(x, axes=None), "unknown padding mode")


def h_fill(ctx, cfg):
    """one in-place fill on a buffer whose every cell (also the ones to be overwritten) is symbolic"""
    from torchimage.padding import pad_1d
    from torchimage.padding.utils import make_idx, modify_idx
    mode, dim, shape = cfg["mode"], cfg["dim"], list(cfg["shape"])
    bounded = mode in ("linear_ramp", "mean")
    n = cfg["n"]                                     # length of the signal
    b, a = int(ctx.int("b", 0, cfg["w"])), int(ctx.int("a", 0, cfg["w"]))
    if mode == "periodize" and b == a == 0:
        return ctx.check(True, "no padding requested")
    shape[dim] = b + n + a + (n % 2 if mode == "periodize" else 0)
    idx = []
    for d, size in enumerate(shape):
        if d == dim:
            idx.append((b, b + n))
        else:
            lo = int(ctx.int(f"lo{d}", 0, size - 1))
            idx.append((lo, int(ctx.int(f"hi{d}", lo + 1, size))))
    buf = ctx.tensor("x", shape, *((-8, 8) if bounded else ()), dtype=_dt(cfg))
    X = ctx.inputs["x"][1]
    user, defn = _modevals(ctx, mode, "", n, n + 1)
    kw = {}
    for k in ("cv", "ev", "sl"):
        if k in user:
            kw = dict(before=user[k][0], after=user[k][1])
    if mode in ("maximum", "minimum", "mean", "median"):
        kw["mode"] = mode
    name = "symmetric" if mode == "antisymmetric" else "stat" if "mode" in kw else mode
    if mode == "antisymmetric":
        kw["negate"] = True
    slices = tuple(slice(*i, 1) if cfg.get("step") else slice(*i) for i in idx)
    y = getattr(pad_1d, name + "_1d")(buf, slices, dim, **kw) if not cfg.get("names") else getattr(pad_1d, name + "_1d")(x=buf, idx=slices, dim=dim, **kw)
    ctx.check(y is buf, "the buffer itself is returned")
    want = X.copy()
    sub = X[tuple(slice(*i) for i in idx)]
    region = tuple(slice(None) if d == dim else slice(*i) for d, i in enumerate(idx))
    want[region] = padn(sub, [(dim, dict(before=b, after=a, mode=mode, **defn))])
    ctx.equal(y, want, f"{mode} fill of ({b},{a}) cells around {n}", tol=_tol(cfg) if bounded else None)


def h_idx(ctx, cfg):
    """slicing helpers address exactly one axis"""
    from torchimage.padding.utils import make_idx, modify_idx
    shape = cfg["shape"]
    nd = len(shape)
    dim = int(ctx.int("dim", -nd, nd - 1))
    s0, s1 = int(ctx.int("s0", -cfg["r"], cfg["r"])), int(ctx.int("s1", -cfg["r"], cfg["r"]))
    kind = ctx.choice("args", ["stop", "range", "from", "upto", "step"])
    args = {"stop": (s1,), "range": (s0, s1), "from": (s0, None), "upto": (None, s1), "step": (s0, s1, 2)}[kind]
    x = ctx.tensor("x", shape)
    X = ctx.inputs["x"][1]
    full = [slice(None)] * nd
    full[dim] = slice(*args)
    ctx.equal(x[make_idx(*args, dim=dim, ndim=nd)], X[tuple(full)], "make_idx")
    base = [slice(i % 2, s) for i, s in enumerate(shape)]
    given = tuple(base)
    out = modify_idx(*args, idx=given, dim=dim)
    base[dim] = slice(*args)
    ctx.equal(x[out], X[tuple(base)], "modify_idx")
    ctx.check(type(out) is tuple and given == tuple(slice(i % 2, s) for i, s in enumerate(shape)), "the given index is kept")


HARNESS = {f.__name__: f for f in (h_1d, h_nd, h_empty, h_axis, h_same, h_tosame, h_fmt, h_padvalid, h_fill, h_idx)}


def _c1(modes, tier, **kw):
    out = []
    top = 5 if tier == "quick" else 7
    for m in modes:
        for n in range(1, top + 1):
            out.append(dict(h="h_1d", mode=m, n=n, w=2 * n + 2 if tier == "quick" else 3 * n + 3, rows=1, weight=n * n, **kw))
        out.append(dict(h="h_1d", mode=m, n=3, w=4, axis=0, rows=2))
        out.append(dict(h="h_1d", mode=m, n=2, w=5, axis=1, rows=3))
        for dt in ("f32", "f16", "bf16"):
            out.append(dict(h="h_1d", mode=m, n=3, w=3 if dt == "f32" else 2, axis=1, rows=2, dtype=dt))
    return out + _long(modes, tier)


def _long(modes, tier):
    """long axes and very wide padding, widths fixed to a few values, every sample symbolic"""
    out = []
    for m in modes:
        sl = dict(slmax=[3, 2]) if m in STATS4 else {}
        out.append(dict(h="h_1d", mode=m, n=300, b=[7, 7], a=[301, 301] if m not in STATS4 else [4, 4], rows=1, **sl))
        out.append(dict(h="h_1d", mode=m, n=70, axis=0, b=[130, 130], a=[1, 1], rows=2, **sl))
        out.append(dict(h="h_1d", mode=m, n=2, b=[270, 270], a=[261, 261], rows=1))
        out.append(dict(h="h_1d", mode=m, n=3, b=[0, 0], a=[80, 80], rows=2, weight=2))
        if m in STATS4 and m != "median":
            out.append(dict(h="h_1d", mode=m, n=24 if m != "mean" else 150, b=[2, 2], a=[1, 1], rows=1))
        if tier == "thorough":
            out.append(dict(h="h_1d", mode=m, n=5000, b=[900, 900], a=[12, 12], rows=1, weight=20, **sl))
            for n in (4, 5, 9, 17):
                out.append(dict(h="h_1d", mode=m, n=n, b=[8 * n - 2, 8 * n + 2], a=[3 * n, 3 * n + 1], rows=1, weight=9, **sl))
    return out


def _dims(modes, tier):
    """every number of dimensions, every place of the padded one, short axes"""
    out = []
    for m in modes:
        for nd in (1, 3, 4, 5) + ((2, 6) if tier != "quick" else ()):
            for axis in ((0, nd - 1, nd // 2) if nd < 4 or tier != "quick" else (0, nd - 1)):
                for n in range(1, 5):
                    if {"h": "h_1d", "mode": m, "n": n, "nd": nd, "axis": axis, "b": [1, 2], "a": [2, 2]} not in out:
                        out.append(dict(h="h_1d", mode=m, n=n, nd=nd, axis=axis, b=[1, 2], a=[2, 2]))
        if m in STATS4:
            for nd, axis, n, sl in ((1, 0, 4, [2, 3]), (3, 0, 3, [2, 1]), (3, 2, 4, [4, 2]), (4, 1, 3, [3, 2]), (5, 4, 2, [1, 2])):
                out.append(dict(h="h_1d", mode=m, n=n, nd=nd, axis=axis, b=[1, 1], a=[2, 2], slmax=sl))
    return out


def p01(tier):
    out = _c1(spec.INDEX_MODES, tier) + _dims(spec.INDEX_MODES, tier)
    for m in spec.INDEX_MODES:
        out.append(dict(h="h_1d", mode=m, n=4, w=5, axis=0, rows=2, dtype="i64"))
        for dt in ("i32", "u8"):
            out.append(dict(h="h_1d", mode=m, n=3, w=2, axis=1, rows=2, dtype=dt))
    return out


def p02(tier):
    return _c1(spec.LINEAR_MODES, tier) + _dims(spec.LINEAR_MODES, tier)


def p03(tier):
    out = []
    top = 4 if tier == "quick" else 6
    for m in spec.FILL_MODES:
        for n in range(1, top + 1):
            out.append(dict(h="h_1d", mode=m, n=n, w=3, rows=1))
            if m in ("maximum", "mean", "median", "minimum"):
                out.append(dict(h="h_1d", mode=m, n=n, w=2 if tier == "quick" else 3, rows=1, slmax=n + 1, weight=5 + n * n))
        out.append(dict(h="h_1d", mode=m, n=3, w=3, axis=0, rows=2))
        for dt in ("f32", "f16", "bf16"):
            out.append(dict(h="h_1d", mode=m, n=3, w=2 if dt == "f32" else 1, axis=1, rows=2, dtype=dt))
        if m in ("maximum", "minimum", "zeros"):
            for dt in ("i64", "u8"):
                out.append(dict(h="h_1d", mode=m, n=3, w=1, axis=1, rows=2, dtype=dt))
    return out + _long(spec.FILL_MODES, tier) + _dims(spec.FILL_MODES, tier)


ALL = spec.INDEX_MODES + spec.LINEAR_MODES + spec.FILL_MODES


def p04(tier):
    out = []
    for m in ALL:
        out.append(dict(h="h_nd", shape=[2, 3], axes=[0, 1], modes=m, k=2, w=2, weight=4))
        out.append(dict(h="h_nd", shape=[2, 3], axes=[1, 0], modes=m, k=0, w=3))
        out.append(dict(h="h_nd", shape=[1, 1, 3, 2], axes={"slice": [2, None]}, default_axes=True, modes=m, k=0, w=2))
        if m not in STATS4:
            out.append(dict(h="h_nd", shape=[2, 140], axes=[1, 0], modes=m, k=2, widths=[(5, 150), (2, 1)]))
            out.append(dict(h="h_nd", shape=[17, 9], axes=[0, 1], modes=m, k=2, widths=[(20, 3), (0, 19)]))
        else:
            out.append(dict(h="h_nd", shape=[1, 3], axes=[1, 0], modes=m, k=2, widths=[(5, 140), (2, 1)]))
        out.append(dict(h="h_nd", shape=[1, 2, 2, 1, 2, 2], axes=[5, 1, 2], modes=m, k=2, widths=[(1, 1), (0, 2)]))
    mixes = [("constant", "zeros"), ("zeros", "constant"), ("linear_ramp", "reflect"), ("median", "antisymmetric"),
             ("constant", "constant"), ("smooth", "constant"), ("periodize", "odd_reflect"), ("odd_symmetric", "periodize"),
             ("mean", "linear_ramp"), ("zeros", "reflect"), ("circular", "symmetric"), ("minimum", "maximum")]
    for a, b in mixes:
        out.append(dict(h="h_nd", shape=[3, 2], axes=[0, 1], modes=[a, b], k=2, w=2, weight=4))
        out.append(dict(h="h_nd", shape=[3, 2], axes=[1, 0], modes=[a, b], k=2, widths=[(2, 1), (1, 3)]))
        out.append(dict(h="h_nd", shape=[2, 3], axes=[-2, -1], modes=[a, b], k=2, widths=[(0, 2), (3, 0)]))
    for m in ("symmetric", "constant", "zeros", "smooth", "median", "linear_ramp", "periodize"):
        # specification longer / shorter than the axes: right-justified
        out.append(dict(h="h_nd", shape=[2, 3], axes=[0, 1], modes=m, k=3, widths=[(3, 3), (1, 2), (2, 1)]))
        out.append(dict(h="h_nd", shape=[2, 2, 3], axes=None, modes=m, k=2, widths=[(1, 2), (2, 1)]))
        out.append(dict(h="h_nd", shape=[2, 2, 3], axes=[2, 0, 1], modes=m, k=1, widths=[(2, 1)]))
        out.append(dict(h="h_nd", shape=[2, 2, 2], axes=[1, 2, 0], modes=m, k=3, widths=[(1, 2), (2, 1), (0, 1)]))
        out.append(dict(h="h_nd", shape=[2, 2, 2], axes=None, modes=m, k=3, widths=[(1, 2), (0, 0), (2, 1)]))
        out.append(dict(h="h_nd", shape=[3], axes=None, modes=m, k=0, w=4))
        out.append(dict(h="h_nd", shape=[2, 1, 2, 2], axes=[3, 1], modes=m, k=2, widths=[(1, 1), (2, 1)]))
        if tier == "thorough":
            out.append(dict(h="h_nd", shape=[2, 3, 2], axes=[2, 0, 1], modes=m, k=3, w=1, weight=9))
            out.append(dict(h="h_nd", shape=[3, 4], axes=[1, 0], modes=m, k=2, w=4, weight=9))
    for m in ("replicate", "zeros", "maximum", "constant"):        # one axis listed twice, where padding twice is padding once by the sum
        out.append(dict(h="h_nd", shape=[2, 2], axes=[0, 0], modes=m, k=0, w=2))
        if m != "constant":
            out.append(dict(h="h_nd", shape=[2, 3], axes=[1, 0, -1], modes=m, k=3, widths=[(1, 2), (2, 1), (2, 0)]))
    for kind in ("empty", "fn0", "fn1"):
        out.append(dict(h="h_empty", shape=[2, 3], kind=kind))
        if kind != "empty":
            out.append(dict(h="h_empty", shape=[2, 3], kind=kind, told=True))
    return out


def p05(tier):
    out = []
    for m in ALL:
        for n in ((1, 4), (4, 1), (3, 2)):
            out.append(dict(h="h_axis", mode=m, shape=list(n), axis=0, i=0))
            out.append(dict(h="h_axis", mode=m, shape=list(n), axis=-1, i=-1, nspec=2))
        out.append(dict(h="h_axis", mode=m, shape=[2, 3, 2], axis=1, i=0, nspec=2, w=2 if tier == "quick" else 6))
        for ax, i, k in ((0, -1, 2), (1, -2, 3), (-2, 1, 3), (2, -3, 3), (-1, 0, 2), (0, 2, 4)):
            out.append(dict(h="h_axis", mode=m, shape=[2, 1, 2], axis=ax, i=i, nspec=k, w=1))
        for dt in ("f32",) + (("i64",) if m in spec.INDEX_MODES else ()):
            out.append(dict(h="h_axis", mode=m, shape=[3, 2], axis=0, i=0, w=1, dtype=dt))
        out.append(dict(h="h_axis", mode=m, shape=[2, 141] if m not in STATS4 else [2, 3], axis=-1, i=0, b=[3, 3], a=[150, 150]))
        out.append(dict(h="h_axis", mode=m, shape=[71, 2] if m not in STATS4 else [3, 2], axis=-2, i=0, b=[90, 90], a=[1, 1]))
        for n in (3, 4):
            out.append(dict(h="h_axis", mode=m, shape=[n], axis=0, i=0, w=5))
        if tier == "thorough":
            for n in range(1, 7):
                out.append(dict(h="h_axis", mode=m, shape=[n], axis=0, i=0, w=2 * n + 2))
    return out


def p06(tier):
    big = 200 if tier == "quick" else 100000
    out = [dict(h="h_same", stride=1, K=big, N=big), dict(h="h_same", stride=1, K=big, N=big, with_size=True)]
    for s in list(range(2, 9)) + ([] if tier == "quick" else list(range(9, 17))):
        out.append(dict(h="h_same", stride=s, K=big, N=big))
    for s in (16, 33, 64, 100, 127, 150, 257, 1000):
        out.append(dict(h="h_same", stride=s, K=2 * s + 1, N=1000 if tier == "quick" else 10 ** 6))
    out.append(dict(h="h_same", stride="kernel", K=12, N=40))
    out.append(dict(h="h_tosame", nd=1, K=5, S=4, N=6))
    out.append(dict(h="h_tosame", nd=2, K=3, S=2, N=3, weight=9))
    out.append(dict(h="h_tosame", nd=2, K=3, S=3, N=3, scalar=True, weight=9))
    return out


def p07(tier):
    out = []
    for nd in range(1, 5 if tier == "quick" else 7):
        for m in range(1, nd + 1):
            out.append(dict(h="h_fmt", nd=nd, m=m))
            out.append(dict(h="h_fmt", nd=nd, m=m, lists=True))
    return out


def p08(tier):
    return [dict(h="h_padvalid", kind="negative")] + \
        [dict(h="h_padvalid", kind="mode", mode=m) for m in ("reflection", "edge", "wrap", "Zeros", "")]


def p09(tier):
    out = []
    big = tier == "thorough"
    for m in ALL:
        for n in range(1, 7 if big else 4):
            out.append(dict(h="h_fill", mode=m, dim=0, shape=[0], n=n, w=2 * n + 3 if big else 2 if m in STATS4 else n + 1))
        st = m in STATS4
        for n in (1, 2, 3) if not st else (2,):
            out.append(dict(h="h_fill", mode=m, dim=1, shape=[3 if big else 2, 0], n=n, w=2 if not st else 1, step=n == 2, weight=5))
        out.append(dict(h="h_fill", mode=m, dim=0, shape=[0, 2], n=3, w=2 if not st else 1, names=True, weight=5))
        out.append(dict(h="h_fill", mode=m, dim=1, shape=[2, 0, 2], n=2, w=1, weight=5))
        if m not in STATFILL:
            out.append(dict(h="h_fill", mode=m, dim=0, shape=[0, 1], n=3, w=2, dtype="f32"))
    for sh, r in (([3], 4), ([2, 3], 3), ([2, 1, 3], 2)):
        out.append(dict(h="h_idx", shape=sh, r=r + 2 * big))
    return out


STATFILL = ("mean", "median", "linear_ramp")
STATS4 = ("maximum", "minimum", "mean", "median")

PROPS = {"P09": p09, "P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08}

_w = "one axis of length 1..5 (thorough 1..7), padding before/after 0..2n+2 (3n+3), all element values"
META = {
    "P01": dict(bounds=_w + "; long axes: to 300 samples (thorough 5000), widths to 300 (900), statistics shorter, half precision",
                outside="longer signals and wider padding; GPU kernels"),
    "P02": dict(bounds=_w + "; ramp end values in [-8,8]; element values in [-8,8] for ramps" + "; long axes: to 300 samples (thorough 5000), widths to 300 (900), statistics shorter, half precision",
                outside="longer signals"),
    "P03": dict(bounds="axis length 1..4 (thorough 1..6), widths 0..3, statistic lengths 0..n+1 or absent, all element values and "
                       "constants (mean: [-8,8])" + "; long axes: to 300 samples (thorough 5000), widths to 300 (900), statistics shorter, half precision",
                outside="longer signals"),
    "P04": dict(bounds="tensors of up to 4 dimensions with axes of length 1..3, widths 0..3, 1-3 specification entries" + "; long axes: to 60 samples, up to six axes, half precision",
                outside="larger tensors"),
    "P05": dict(bounds="tensors of up to 3 dimensions, axes of length 1..4, widths 0..3" + "; long axes: to 300 samples (thorough 5000), widths to 300 (900), statistics shorter, half precision",
                outside="larger tensors"),
    "P06": dict(bounds="kernel size and input size 1..200 (thorough 1..100000), strides 1..8 (1..16) and stride=kernel for "
                       "kernel<=12, size<=40; end-to-end padding for kernel<=5, stride<=4, size<=6", outside="larger"),
    "P07": dict(bounds="1..4 dimensions (thorough 1..6), widths 0..1000, every count of padded trailing axes"),
    "P09": dict(bounds="buffers of 1..3 dimensions, signals of length 1..3 (thorough 1..6), 0..n+1 (2n+3; statistics 0..2) cells on either side, every region of the other axes, "
                       "every previous content", outside="negative dim (the extrapolating fills are documented for the position of the axis only)"),
    "P08": dict(bounds="widths -3..3; five invalid mode names"),
}
