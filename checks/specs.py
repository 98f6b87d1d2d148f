import itertools
import numpy as np
import torch
from symx import terms as tm
from . import spec

IMPORTS = ("torchimage.utils", "torchimage.utils.ndspec", "torchimage.utils.ragged", "torchimage.utils.validation")


# ------------------------------------------------------------------ trees: leaf or list of trees
class Leaf:
    def __init__(self, v):
        self.v = v


def depth(t):
    """depth of a uniform tree; None when siblings differ in depth"""
    if isinstance(t, Leaf):
        return 0
    if not t:
        return 1
    d = {depth(c) for c in t}
    return None if len(d) > 1 or None in d else d.pop() + 1


def strict(t):
    """siblings of unequal depth count as leaves"""
    if isinstance(t, Leaf):
        return t
    sub = [strict(c) for c in t]
    if t and len({depth(c) for c in sub}) > 1:
        return [c if isinstance(c, Leaf) else Leaf(c) for c in sub]
    return sub


def clip(t, d):
    """regard everything below depth d as leaves"""
    if d == 0 or isinstance(t, Leaf):
        return t if isinstance(t, Leaf) else Leaf(t)
    return [clip(c, d - 1) for c in t]


def shape_of(t):
    t = strict(t)
    d = depth(t)
    out = []
    level = [t]
    for _ in range(d):
        n = {len(x) for x in level}
        out.append(n.pop() if len(n) == 1 else -1)
        level = [c for x in level for c in x]
        if not level:
            break
    return tuple(out)


def uniform_depth(t):
    """strict shape: minimal common depth everywhere"""
    if isinstance(t, Leaf):
        return 0
    if not t:
        return 1
    ds = {uniform_depth(c) for c in t}
    return 1 + (ds.pop() if len(ds) == 1 else 0)


def node_shape(t, d):
    out, level = [], [t]
    for _ in range(d):
        n = {len(x) for x in level}
        out.append(n.pop() if len(n) == 1 else -1)
        level = [c for x in level for c in x]
    return tuple(out)


class Bad(Exception):
    pass


def expand(t, d, shp):
    """broadcast a tree of depth d to the trailing shape shp"""
    k = len(shp)
    if d > k:
        return [expand(c, d - 1, shp) for c in t]
    if d < k:
        inner = expand(t, d, shp[k - d:])
        for n in reversed(shp[:k - d]):
            inner = [inner] * (1 if n == -1 else n)
        return inner
    if d == 0:
        return t
    if not t:
        if shp[0] > 0:
            raise Bad
        return []
    sub = [expand(c, d - 1, shp[1:]) for c in t]
    n = shp[0]
    if n in (-1, len(sub)):
        return sub
    if len(sub) == 1:
        return sub * n
    raise Bad


def build(ctx, sk, kind, name="v", cnt=None):
    """skeleton (None = leaf, list = node) -> (user data, tree)"""
    cnt = cnt if cnt is not None else [0]
    if sk is None:
        cnt[0] += 1
        i = cnt[0]
        if kind == "str":
            return f"word{i}", Leaf(f"word{i}")
        if kind == "mixed":
            v = [None, "reflect", ctx.real(f"{name}{i}"), max][i % 4]
            return v, Leaf(v)
        v = ctx.real(f"{name}{i}")
        return v, Leaf(v)
    pairs = [build(ctx, c, kind, name, cnt) for c in sk]
    u = [p[0] for p in pairs]
    if kind == "tuple":
        u = tuple(u)
    return u, [p[1] for p in pairs]


def as_tree(x, d):
    """what the code returned, read to depth d"""
    if d == 0:
        return x
    return [as_tree(c, d - 1) for c in x]


def same(ctx, got, want, what):
    """got: nested sequences; want: tree"""
    if isinstance(want, Leaf):
        w = want.v
        if isinstance(w, list):                      # a whole subtree regarded as one leaf
            return same(ctx, got, w, what)
        if w is None or isinstance(w, (str, type(max))):
            if isinstance(got, np.ndarray) and got.ndim == 0:
                got = got.item()
            return ctx.check(got is w or (isinstance(w, str) and str(got) == w), what)
        if isinstance(got, (list, tuple)):
            return ctx.fail(f"{what}: sequence where a value was expected")
        return ctx.equal(got, _o(ctx, w), what)
    try:
        n = len(got)
    except TypeError:
        return ctx.fail(f"{what}: value where a sequence was expected")
    if n != len(want):
        return ctx.fail(f"{what}: {n} entries, expected {len(want)}")
    for i in range(n):
        same(ctx, got[i], want[i], f"{what}[{i}]")


def _o(ctx, v):
    o = np.empty((), dtype=object)
    o[()] = ctx.term(v)
    return o


def _count(t):
    return 1 if isinstance(t, Leaf) else sum(map(_count, t))


def _container(ctx, u, kind, sk, name="x"):
    """turn a regular nested list of values into the requested container"""
    if kind == "tensor":
        shp = np.shape(_dims(sk))
        t = ctx.tensor(name, shp)
        return t, _wrap(np.array(ctx.elems(t), dtype=object))
    if kind == "object":
        a = np.empty(np.shape(_dims(sk)), dtype=object)
        for i in np.ndindex(*a.shape):
            v = u
            for j in i:
                v = v[j]
            a[i] = v
        return a, None
    return u, None


def _dims(sk):
    return 0 if sk is None else [_dims(c) for c in sk]


def _wrap(a):
    if not isinstance(a, np.ndarray) or a.ndim == 0:
        return Leaf(a[()] if isinstance(a, np.ndarray) else a)
    return [_wrap(c) for c in a]


def reg(shape):
    return None if not shape else [reg(shape[1:]) for _ in range(shape[0])]


def skel(sk):
    return Leaf(0) if sk is None else [skel(c) for c in sk]


# ------------------------------------------------------------------ U01
def h_spec(ctx, cfg):
    from torchimage.utils import NdSpec
    sk, kind, item = cfg["sk"], cfg["kind"], tuple(cfg["item"])
    u, t = build(ctx, sk, kind)
    if kind in ("tensor", "object"):
        u, t2 = _container(ctx, u, kind, sk)
        t = t2 if t2 is not None else t
    d = uniform_depth(t)
    t = clip(t, d)
    try:
        want = expand(t, d, item)
    except Bad:
        return ctx.raises((ValueError, RuntimeError), lambda: NdSpec(u, item_shape=list(item)), "data that cannot be broadcast to the item shape")
    s = NdSpec(u, item_shape=list(item))
    full = max(d, len(item))
    k = full - len(item)                               # number of index levels
    if _count(want):
        shp = node_shape(want, full)
        ctx.check(tuple(s.shape) == shp, f"shape {tuple(s.shape)}, expected {shp}")
        ctx.check(tuple(s.index_shape) == shp[:k] and tuple(s.item_shape) == shp[k:], "index and item shape split the shape")
    ctx.check(s.is_item == (k == 0) and s.index_ndim == k and s.item_ndim == len(item) and s.ndim == full, "number of levels")
    same(ctx, s.data, want, "stored data")
    if k == 0:
        ctx.check(len(s) == 0, "a single item has length zero")
        for i in (0, 3, -1, -81):
            same(ctx, s[i], want, f"item at index {i}")
        same(ctx, list(s), [want], "iteration over a single item")
    else:
        n = len(want)
        ctx.check(len(s) == n, "length")
        i = int(ctx.int("i", -n - 1, n))
        if -n <= i < n:
            same(ctx, s[i], want[i], f"item at index {i}")
        else:
            ctx.raises(IndexError, lambda: s[i], "index outside the list of items")
        same(ctx, list(s), want, "iteration over the items")
        if k == 2:
            j = int(ctx.int("j", -2, 1))
            if -n <= i < n and -len(want[i]) <= j < len(want[i]):
                same(ctx, s[i, j], want[i][j], f"item at index {(i, j)}")
            ctx.raises(IndexError, lambda: s[0, 0, 0], "more indices than levels")
    c = NdSpec(s)
    same(ctx, c.data, want, "copy construction")
    ctx.check(tuple(c.index_shape) == tuple(s.index_shape) and tuple(c.item_shape) == tuple(s.item_shape), "copied shapes")


def h_index_shape(ctx, cfg):
    from torchimage.utils import NdSpec
    sk = cfg["sk"]
    u, t = build(ctx, sk, "list")
    d = uniform_depth(t)
    shp = node_shape(clip(t, d), d)
    ish = tuple(cfg["index_shape"])
    ok = len(ish) <= len(shp) and all(a == -1 or a == b for a, b in zip(ish, shp))
    if not ok:
        return ctx.raises((ValueError, IndexError), lambda: NdSpec(u, index_shape=ish), "data with another index shape")
    s = NdSpec(u, index_shape=ish)
    ctx.check(tuple(s.shape) == shp and s.index_ndim == len(ish), "index shape fixes the split")
    same(ctx, s.data, t, "data is kept")


# ------------------------------------------------------------------ U02
def h_apply(ctx, cfg):
    from torchimage.utils import NdSpec
    lens = cfg["lens"]                 # per argument: None = single item
    us, cols = [], []
    for a, n in enumerate(lens):
        if n is None:
            v = ctx.real(f"a{a}")
            us.append(v)
            cols.append(v)
        else:
            vs = [ctx.real(f"a{a}_{i}") for i in range(n)]
            us.append(vs if a % 2 else tuple(vs))
            cols.append(vs)
    args = [NdSpec(u) for u in us]
    ns = {n for n in lens if n is not None}
    w = [3, 5, 7]

    def f(*xs):
        r = 1
        for i, x in enumerate(xs):
            r = r + w[i] * x * (x if i == 0 else 1)
        return r
    if len(ns) > 1:
        for g in (lambda: NdSpec.apply(f, *args), lambda: NdSpec.zip(*args), lambda: NdSpec.agg_index_shape(*args),
                  lambda: NdSpec.agg_index_len(*args)):
            ctx.raises(ValueError, g, "options of different lengths")
        return
    n = ns.pop() if ns else None
    ctx.check(tuple(NdSpec.agg_index_shape(*args)) == (() if n is None else (n,)), "common index shape")
    ctx.check(NdSpec.agg_index_len(*args, allowed_index_ndim=(0, 1)) == (n or 0), "common length")
    r = NdSpec.apply(f, *args)
    z = NdSpec.zip(*args)
    pick = (lambda c, i: c) if n is None else (lambda c, i: c if not isinstance(c, list) else c[i])
    ctx.check(len(r) == (n or 0) and len(z) == (n or 0), "length of the result")
    for i in range(n or 1):
        row = [pick(c, i) for c in cols]
        ctx.equal(r[i], _o(ctx, f(*row)), f"applied function at {i}")
        ctx.equal(list(z[i]), spec.vec([ctx.term(v) for v in row]), f"zipped items at {i}")
        ctx.equal(list(z[i - (n or 1)]), spec.vec([ctx.term(v) for v in row]), f"zipped items at {i - (n or 1)}")
    q = z.starmap(f)
    m = args[0].map(lambda v: 2 * v - 1)
    p = NdSpec.apply(lambda *xs: [xs[0], xs[-1], xs[0]], *args)          # functions returning sequences
    ctx.check(len(q) == (n or 0) and len(m) == len(args[0]) and p.index_ndim == (0 if n is None else 1), "index shapes are kept")
    for i in range(n or 1):
        row = [pick(c, i) for c in cols]
        ctx.equal(q[i], _o(ctx, f(*row)), f"starred function at {i}")
        ctx.equal(m[i], _o(ctx, 2 * row[0] - 1), f"mapped function at {i}")
        ctx.equal(list(p[i]), spec.vec([ctx.term(row[0]), ctx.term(row[-1]), ctx.term(row[0])]), f"sequence result at {i}")


def h_map_items(ctx, cfg):
    """items that are themselves sequences"""
    from torchimage.utils import NdSpec
    u, t = build(ctx, cfg["sk"], "list")
    d = uniform_depth(t)
    t = clip(t, d)
    item = tuple(cfg["item"])
    want = expand(t, d, item)
    k = max(d, len(item)) - len(item)
    s = NdSpec(u, item_shape=list(item))
    ln = s.map(len)
    sm = s.map(lambda it: sum(it[1:], it[0]))

    def walk(spec_i, tree, lev):
        if lev == 0:
            ctx.check(spec_i[0] == len(tree), "mapped length of an item")
            tot = tree[0].v
            for c in tree[1:]:
                tot = tot + c.v
            ctx.equal(spec_i[1], _o(ctx, tot), "mapped sum of an item")
            return
        for i, c in enumerate(tree):
            walk((spec_i[0][i], spec_i[1][i]), c, lev - 1)
    if k == 0:
        walk((ln[0], sm[0]), want, 0)
        ctx.check(ln.is_item and sm.is_item, "index shape kept")
    else:
        walk((ln, sm), want, k)
        ctx.check(tuple(ln.index_shape) == tuple(s.index_shape), "index shape kept")


class Token:
    """an item that only identity tells apart"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "token"


def h_tokens(ctx, cfg):
    """every combination of items gets its own call, however alike the items look"""
    from torchimage.utils import NdSpec
    n = cfg["n"]
    kind = cfg["kind"]
    vals = [ctx.real(f"v{i}") for i in range(n)]
    if kind == "token":
        items = [Token(i) for i in range(n)]
    elif kind == "long":                 # arrays whose printed form is abbreviated
        items = []
        for i in range(n):
            a = np.zeros(1200)
            a[600] = i
            items.append(a)
    else:                                # equal numbers of different types
        items = [1, 1.0, True][:n]
    if kind == "long":
        key = lambda it: int(it[600])
    elif kind == "token":
        key = lambda it: it.n
    else:
        key = lambda it: [int, float, bool].index(type(it))
    if kind == "long":
        s = NdSpec([list(a) for a in items], item_shape=[-1])
    else:
        s = NdSpec(items)
    r = ctx.real("r")
    t = NdSpec([r] * n) if cfg.get("list") else NdSpec(r)
    q = NdSpec.apply(lambda it, c: vals[key(it)] * 2 + c, s, t)
    m = s.map(lambda it: vals[key(it)])
    for i in range(n):
        ctx.equal(q[i], _o(ctx, vals[i] * 2 + r), f"applied function at {i}")
        ctx.equal(m[i], _o(ctx, vals[i]), f"mapped function at {i}")


# ------------------------------------------------------------------ U03
def lift(t, d):
    if isinstance(t, Leaf):
        for _ in range(d):
            t = [t]
        return t
    return [lift(c, d - 1) for c in t]


def maxdepth(t):
    return 0 if isinstance(t, Leaf) else 1 + max([maxdepth(c) for c in t], default=0)


def h_ragged(ctx, cfg):
    from torchimage.utils.ragged import get_ragged_ndarray, expand_ragged_ndarray, apply_ragged_ndarray
    sk = cfg["sk"]
    u, t = build(ctx, sk, cfg.get("kind", "list"))
    if cfg.get("array"):                 # the outermost level (or every one) is an array of objects
        u = _objects(u, cfg["array"] == "deep")
    data, shp = get_ragged_ndarray(u, strict=True)
    d = uniform_depth(t)
    ctx.check(tuple(shp) == node_shape(clip(t, d), d), f"strict shape {shp}, expected {node_shape(clip(t, d), d)}")
    same(ctx, data, t, "strict mode keeps the data")
    if cfg.get("loose", True):
        data, shp = get_ragged_ndarray(u, strict=False)
        m = maxdepth(t)
        want = lift_all(t)
        ctx.check(tuple(shp) == node_shape(want, m), f"lifted shape {shp}, expected {node_shape(want, m)}")
        same(ctx, data, want, "lifted data")
    for dep in range(d + 1):
        r = apply_ragged_ndarray(u, (lambda v: (v, 1)), dep)

        def cmp(got, tree, lev, what):
            if lev == 0:
                ctx.check(got[1] == 1, what)
                return same(ctx, got[0], tree, what)
            ctx.check(len(got) == len(tree), what)
            for g, c in zip(got, tree):
                cmp(g, c, lev - 1, what)
        cmp(r, t, dep, f"function applied at depth {dep}")


def _objects(u, deep):
    a = np.empty(len(u), dtype=object)
    for i, c in enumerate(u):
        a[i] = _objects(c, True) if deep and isinstance(c, list) else c
    return a


def lift_all(t):
    """bottom-up: shallower siblings are wrapped to the depth of the deepest one"""
    if isinstance(t, Leaf):
        return t
    sub = [lift_all(c) for c in t]
    m = max([maxdepth(c) for c in sub], default=0)
    out = []
    for c in sub:
        for _ in range(m - maxdepth(c)):
            c = [c]
        out.append(c)
    return out


# ------------------------------------------------------------------ U04
def h_axes(ctx, cfg):
    from torchimage.utils.validation import check_axes
    nd = cfg["nd"]
    x = torch.zeros((1,) * nd) if cfg.get("lib", "torch") == "torch" else np.zeros((1,) * nd)
    kind = cfg["kind"]
    if kind == "int":
        a = int(ctx.int("a", -nd - 2, nd + 1))
        want = [a + nd if a < 0 else a]
        arg = a
    elif kind == "seq":
        arg = [ctx.int(f"a{i}", -nd - 1, nd + 1) for i in range(cfg["m"])]
        want = [int(v) for v in arg]
        want = [v + nd if v < 0 else v for v in want]
        arg = tuple(arg) if cfg["m"] % 2 else arg
    elif kind == "slice":
        def opt(n, lo, hi):
            v = int(ctx.int(n, lo, hi + 1))
            return None if v == hi + 1 else v
        arg = slice(opt("s", -nd - 1, nd + 1), opt("e", -nd - 1, nd + 1), ctx.choice("st", [None, 1, 2, -1]))
        want = list(range(nd)[arg])
    else:
        arg, want = None, list(range(nd))
    if any(not 0 <= v < nd for v in want):
        return ctx.raises(ValueError, lambda: check_axes(x, arg), f"axes outside a {nd}-dimensional tensor")
    got = check_axes(x, arg)
    ctx.check(isinstance(got, tuple) and [int(v) for v in got] == want, f"axes {got}, expected {want}")


HARNESS = {f.__name__: f for f in (h_spec, h_index_shape, h_apply, h_map_items, h_tokens, h_ragged, h_axes)}

N = None
SKS = [N, [N], [N, N], [N, N, N], [[N]], [[N], [N]], [[N, N]], [[N, N], [N, N]], [[N], [N, N]], [[N, N, N], [N]],
       [[N], [N], [N, N]], [[[N]], [[N], [N]]], [[[N, N]], [[N]]], [[[N], [N, N]], [[N, N], [N]]], [[[N, N], [N, N]]],
       [[N], N], [N, [N, N]], [[N, N], [[N], [N]]], [[[N], N], [N, N]], [[[N, N, N]]], [[], [N]], [[N, N], []]]
ITEMS = [(), (2,), (-1,), (3,), (2, -1), (-1, 2), (2, 3)]


def u01(tier):
    out = []
    for sk in SKS:
        for item in ITEMS:
            if [] in (sk or ()) and item and item[-1] > 0:
                continue
            out.append(dict(h="h_spec", sk=sk, kind="list", item=list(item)))
    for sk in SKS[:10]:
        for item in ITEMS[:4]:
            out.append(dict(h="h_spec", sk=sk, kind="tuple", item=list(item)))
            out.append(dict(h="h_spec", sk=sk, kind="mixed", item=list(item)))
            out.append(dict(h="h_spec", sk=sk, kind="str", item=list(item)))
    regs = [(2,), (3,), (1, 2), (2, 2), (3, 1), (2, 3)] + ([(2, 2, 2), (1, 3, 2)] if tier == "thorough" else [])
    for shp in regs:
        for item in ITEMS[:6]:
            out.append(dict(h="h_spec", sk=reg(shp), kind="tensor", item=list(item)))
            out.append(dict(h="h_spec", sk=reg(shp), kind="object", item=list(item)))
    for sk in SKS[:15]:
        for ish in ((), (1,), (2,), (-1,), (2, 2), (-1, 2), (3,)):
            if len(ish) > len(np.shape(sk) if sk is None else shape_of(skel(sk))):
                continue
            out.append(dict(h="h_index_shape", sk=sk, index_shape=list(ish)))
    if tier == "thorough":
        for sk in SKS[:20]:
            for item in ((1,), (4,), (3, 2), (-1, -1), (1, 1), (2, 2, 2), (-1, 1, 2)):
                out.append(dict(h="h_spec", sk=sk, kind="list", item=list(item)))
    return out


def u02(tier):
    out = []
    opts = [None, 1, 2, 3] if tier == "quick" else [None, 1, 2, 3, 4]
    for k in (1, 2, 3):
        for lens in itertools.product(opts, repeat=k):
            if k == 3 and tier == "quick" and 1 in lens:
                continue
            out.append(dict(h="h_apply", lens=list(lens)))
    for kind in ("token", "long", "types"):
        out += [dict(h="h_tokens", kind=kind, n=3), dict(h="h_tokens", kind=kind, n=2, list=True)]
    for sk, item in (([N, N], (-1,)), ([[N, N], [N]], (-1,)), ([[N], [N, N], [N, N, N]], (-1,)), (N, (2,)), ([N], (3,)),
                     ([[N], [N]], (2,)), ([[[N, N], [N]], [[N], [N, N]]], (-1,)), ([[N, N], [N, N]], (2,))):
        out.append(dict(h="h_map_items", sk=sk, item=list(item)))
    return out


def u03(tier):
    out = [dict(h="h_ragged", sk=sk) for sk in SKS if sk not in ([[], [N]], [[N, N], []])]
    out += [dict(h="h_ragged", sk=sk, kind=k) for sk in SKS[:14] for k in ("tuple", "str", "mixed")]
    extra = [[[N, [N]], N], [N, [N, [N]]], [[[N]], N, [N, N]]]
    out += [dict(h="h_ragged", sk=sk) for sk in extra]
    mixed = [[N, [N]], [[N], N], [N, N, [N, N]], [N, [N, [N]]], [[N], N, N], [N, [[N], N]], [[N, N], N, [N]]]
    out += [dict(h="h_ragged", sk=sk, kind=k) for sk in mixed for k in ("list", "tuple", "str", "mixed")]
    out += [dict(h="h_ragged", sk=sk, array=a, kind=k) for sk in SKS[1:20] + extra + mixed for a in ("outer", "deep") for k in ("list", "str")
            if [] not in sk]
    return out


def u04(tier):
    out = []
    for nd in range(1, 5 if tier == "quick" else 7):
        for lib in ("torch", "numpy"):
            out.append(dict(h="h_axes", nd=nd, kind="int", lib=lib))
            out.append(dict(h="h_axes", nd=nd, kind="all", lib=lib))
        for m in (1, 2) if tier == "quick" else (1, 2, 3):
            if m < 3 or nd < 4:
                out.append(dict(h="h_axes", nd=nd, kind="seq", m=m, weight=nd ** m))
        if nd <= 3 or tier == "thorough":
            out.append(dict(h="h_axes", nd=nd, kind="slice", weight=nd * nd))
    return out


PROPS = {"U01": u01, "U02": u02, "U03": u03, "U04": u04}
META = {
    "U01": dict(bounds="22 nestings up to depth 3 with lists of up to 3 entries, 7 item shapes, all leaf values; tensors and object "
                       "arrays up to 2x3", outside="deeper nestings; empty lists beside non-empty ones with a fixed item length"),
    "U02": dict(bounds="up to 3 options of up to 3 (thorough 4) items, all item values", outside="more options"),
    "U03": dict(bounds="23 nestings up to depth 3, all leaf values", outside="deeper nestings"),
    "U04": dict(bounds="tensors of 1..4 (thorough 1..6) dimensions, indices up to two beyond the range on either side, sequences of up to "
                       "2 (3) axes, slices with steps absent, 1, 2 and -1", outside="more dimensions"),
}
OPTIONS = {"U04": {"max_paths": 8000}}
