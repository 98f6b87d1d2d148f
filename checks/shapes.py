import itertools
import numpy as np
import torch
from symx import terms as tm
from . import spec

IMPORTS = ("torchimage.shapes.conv_like", "torchimage.utils", "torchimage.misc")


def h_conv1(ctx, cfg):
    """all of input size, kernel size symbolic (stride and dilation small constants or symbolic)"""
    from torchimage.shapes.conv_like import conv_1d
    n, k = ctx.int("n", 1, cfg["N"]), ctx.int("k", 1, cfg["K"])
    s, d = cfg["s"], cfg["d"]
    nt, kt = ctx.term(n), ctx.term(k)
    span = tm.add(tm.mul(d, tm.sub(kt, 1)), 1)
    got = ctx.term(conv_1d(n, k, s, d))
    if not ctx.decide(tm.le(span, nt)):
        return ctx.check(tm.le(got, 0), "no window fits and none is predicted")
    last = tm.add(tm.mul(tm.sub(got, 1), s), span)
    ctx.check(tm.and_(tm.le(1, got), tm.le(last, nt)), "every counted window fits")
    ctx.check(tm.lt(nt, tm.add(last, s)), "no further window fits")


def h_conv_real(ctx, cfg):
    """prediction against an actual dilated, strided correlation"""
    from torchimage.shapes.conv_like import conv_nd
    nd = cfg["nd"]
    top = cfg["top"]
    ns = [int(ctx.int(f"n{i}", 1, top["n"])) for i in range(nd)]
    args, ref = [ns], [ns]
    for nm in ("k", "s", "d"):
        if cfg["share"] and nm in cfg["share"]:
            v = int(ctx.int(nm, 1, top[nm]))
            args.append(v)
            ref.append([v] * nd)
        else:
            v = [int(ctx.int(f"{nm}{i}", 1, top[nm])) for i in range(nd)]
            args.append(v)
            ref.append(v)
    win = []
    for n, k, s, d in zip(*ref):
        c = len([p for p in range(0, n, s) if p + d * (k - 1) < n])
        if c == 0:
            return ctx.check(True, "no window fits")
        win.append(c)
    got = conv_nd(*args)
    ctx.check(len(got) == nd, "one size per axis")
    for i in range(nd):
        ctx.check(got[i] == win[i], f"{got[i]} windows predicted along axis {i}, {win[i]} fit")


def h_conv_mix(ctx, cfg):
    """any mixture of shared and per-axis arguments; sizes symbolic in the shared case"""
    from torchimage.shapes.conv_like import conv_nd
    nd, share = cfg["nd"], cfg["share"]
    args, full = [], []
    for nm, pool in (("n", [40, 301, 7, 65]), ("k", [3, 2, 1, 5]), ("s", [1, 2, 3, 7]), ("d", [1, 2, 1, 3])):
        if nm in share:
            v = ctx.choice(nm, pool)
            args.append(v)
            full.append([v] * nd)
        else:
            v = [pool[(i + cfg.get("shift", 0)) % 4] for i in range(nd)]
            if nm in cfg.get("same", ()):                       # one value listed once per axis
                v = [pool[cfg.get("shift", 0)]] * nd
            if cfg.get("tuples"):
                v = tuple(v)
            args.append(v)
            full.append(v)
    want = [len([p for p in range(0, n, s) if p + d * (k - 1) < n]) for n, k, s, d in zip(*full)]
    if 0 in want:
        return ctx.check(True, "no window fits")
    got = conv_nd(*args)
    if len(share) == 4:
        return ctx.check(got[0] == want[0] and got[-1] == want[0], "shared size")
    ctx.check(len(got) == nd and [int(v) for v in got] == want, f"sizes {list(got)}, expected {want}")


def h_count(ctx, cfg):
    from torchimage.shapes.conv_like import n_original_elements_1d
    k, s = cfg["k"], cfg["s"]
    n, b, a = (ctx.int(v, *(cfg[w] if isinstance(cfg[w], list) else (lo, cfg[w]))) for v, w, lo in (("n", "N", 1), ("b", "B", 0), ("a", "A", 0)))
    n, b, a = int(n), int(b), int(a)
    total = n + b + a
    got = n_original_elements_1d(in_size=n, pad_width=(b, a), kernel_size=k, stride=s)
    want = [sum(1 for j in range(p, p + k) if b <= j < b + n) for p in range(0, total - k + 1, s)]
    ctx.check([int(v) for v in got] == want, f"counts {list(got)}, expected {want}")


def h_count_mix(ctx, cfg):
    """any mixture of shared and per-axis arguments"""
    from torchimage.shapes.conv_like import n_original_elements_nd
    nd, share = cfg["nd"], cfg["share"]
    args, full = [], []
    for nm, pool in (("n", [4, 3, 5]), ("w", [(1, 1), (2, 0), (0, 1)]), ("k", [3, 2, 1]), ("s", [1, 2, 3])):
        if nm in share:
            v = ctx.choice(nm, pool)
            args.append(v)
            full.append([v] * nd)
        else:
            v = [ctx.choice(f"{nm}{i}", pool[i:] + pool[:i] if nm in cfg["vary"] else pool[i:i + 1]) for i in range(nd)]
            if nm in cfg.get("same", ()):
                v = [ctx.choice(nm, pool)] * nd
            args.append(v)
            full.append(v)
    rows = [[sum(1 for j in range(p, p + k) if b <= j < b + n) for p in range(0, n + b + a - k + 1, s)]
            for n, (b, a), k, s in zip(*full)]
    if any(not r for r in rows):
        return ctx.check(True, "no window fits")
    got = n_original_elements_nd(*args)
    want = np.empty(tuple(map(len, rows)), dtype=object)
    for i in np.ndindex(*want.shape):
        v = 1
        for r, j in zip(rows, i):
            v *= r[j]
        want[i] = v
    if len(share) == 4:                          # nothing says how many axes there are: one is counted
        want = np.array(rows[0], dtype=object)
    ctx.equal(got, want, f"original elements per window, {share} shared")


def h_count_nd(ctx, cfg):
    from torchimage.shapes.conv_like import n_original_elements_nd
    nd = cfg["nd"]
    ns = [int(ctx.int(f"n{i}", 1, 4)) for i in range(nd)]
    shared = cfg.get("shared", False)
    if shared:
        k, s = int(ctx.int("k", 1, 3)), int(ctx.int("s", 1, 2))
        pw = (int(ctx.int("b", 0, 2)), int(ctx.int("a", 0, 1)))
        ks, ss, pws = [k] * nd, [s] * nd, [pw] * nd
        args = (ns, pw, k, s)
    else:
        ks, ss = cfg["ks"], cfg["ss"]
        pws = [(int(ctx.int(f"b{i}", 0, 2)), int(ctx.int(f"a{i}", 0, 1))) for i in range(nd)]
        args = (ns, pws, ks, ss)
    rows = []
    for n, (b, a), k, s in zip(ns, pws, ks, ss):
        rows.append([sum(1 for j in range(p, p + k) if b <= j < b + n) for p in range(0, n + b + a - k + 1, s)])
    if any(not r for r in rows):
        return ctx.check(True, "no window fits")
    got = n_original_elements_nd(*args)
    want = np.empty(tuple(map(len, rows)), dtype=object)
    for i in np.ndindex(*want.shape):
        v = 1
        for r, j in zip(rows, i):
            v *= r[j]
        want[i] = v
    ctx.equal(got, want, "original elements per window")


HARNESS = {f.__name__: f for f in (h_conv1, h_conv_real, h_count, h_count_nd, h_count_mix, h_conv_mix)}


def s01(tier):
    big = 1000 if tier == "quick" else 1000000
    top = 4 if tier == "quick" else 8
    out = [dict(h="h_conv1", N=big, K=big, s=s, d=d) for s in range(1, top + 1) for d in range(1, top + 1)]
    out.append(dict(h="h_conv_real", nd=1, share=None, top=dict(n=7, k=4, s=3, d=3)))
    out.append(dict(h="h_conv_real", nd=2, share=["s", "d"], top=dict(n=3, k=2, s=2, d=2)))
    out.append(dict(h="h_conv_real", nd=2, share=["k"], top=dict(n=3, k=2, s=2, d=2), weight=5))
    out += [dict(h="h_conv1", N=5000, K=big, s=s, d=d) for s, d in ((7, 1), (16, 3), (100, 1), (257, 2), (1, 16), (3, 100))]
    for share in _subsets("nksd"):
        out.append(dict(h="h_conv_mix", nd=3, share=share))
        out.append(dict(h="h_conv_mix", nd=2, share=share, shift=2))
        rest = [c for c in "nksd" if c not in share]
        for same in _subsets("nksd"):                 # per-axis lists that hold one value throughout
            if same and set(same) <= set(rest):
                out.append(dict(h="h_conv_mix", nd=2 + len(same) % 2, share=share, same=same, shift=len(share) % 2, tuples=len(same) > 1))
    return out


def _subsets(names):
    return [[c for i, c in enumerate(names) if b >> i & 1] for b in range(1 << len(names))]


def s02(tier):
    K, S = (6, 5) if tier == "quick" else (8, 8)
    lim = dict(N=5, B=6, A=3) if tier == "quick" else dict(N=9, B=12, A=9)
    out = [dict(h="h_count", k=k, s=s, **lim) for k in range(1, K + 1) for s in range(1, S + 1)]
    out += [dict(h="h_count_nd", nd=1, shared=True), dict(h="h_count_nd", nd=2, shared=True, weight=5),
            dict(h="h_count_nd", nd=2, ks=[2, 3], ss=[1, 2], weight=5), dict(h="h_count_nd", nd=2, ks=[3, 1], ss=[2, 1], weight=5)]
    for share in _subsets("nwks"):
        out.append(dict(h="h_count_mix", nd=2, share=share, vary=["k", "s"]))
        out.append(dict(h="h_count_mix", nd=3, share=share, vary=[]))
        for same in _subsets("nwks"):
            if same and not set(same) & set(share):
                out.append(dict(h="h_count_mix", nd=2 + len(same) % 2, share=share, same=same, vary=[]))
    # long axes, wide padding, long kernels and strides
    for k, s, n, b, a in ((3, 2, 300, 2, 1), (7, 1, 130, 70, 3), (65, 4, 40, 20, 50), (5, 70, 500, 3, 2), (70, 66, 9, 200, 150),
                          (130, 3, 260, 64, 64), (2, 9, 3, 40, 80), (4, 8, 1, 36, 4)):
        out.append(dict(h="h_count", k=k, s=s, N=[n, n + 1], B=[b, b + 2], A=[a, a + 2]))
    return out


PROPS = {"S01": s01, "S02": s02}
OPTIONS = {"S02": {"max_paths": 20000}}
META = {
    "S01": dict(bounds="input and kernel sizes 1..1000 (thorough 1..10^6) with strides and dilations 1..4 (1..8); up to 2 axes with small sizes" + "; long axes: kernels, strides and dilations up to 257 at sizes to 5000",
                outside="larger sizes"),
    "S02": dict(bounds="input sizes 1..5 (thorough 1..9), widths before 0..6 (0..12) and after 0..3 (0..9), kernels 1..6 (1..8), strides 1..5 (1..8); "
                       "two axes with sizes 1..4" + "; long axes: sizes to 500, widths to 200, kernels to 130, strides to 70",
                outside="larger"),
}
