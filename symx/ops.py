"""
Encodings of aten operations on shadow elements.

Every handler sees the operands as object arrays of exact elements and returns the
result elements; the carrier computation by the real kernel fixes shape and dtype and
raises torch's own errors.  Data movement is encoded by running the *real* kernel on
label tensors, so index arithmetic inside a kernel is never re-modelled here.
"""
import math
import numbers
import numpy as np
import torch
from fractions import Fraction
from . import terms as tm
from .terms import Unsupported, is_t, obj

aten = torch.ops.aten
_DECOMP = None


def S():
    from . import shadow
    return shadow


def arr(sh, a):
    """operand -> object array"""
    if isinstance(a, torch.Tensor):
        return np.asarray(sh.get(a), dtype=object)
    if isinstance(a, (bool, int, float, Fraction, np.number)):
        return obj(tm.norm(a))
    raise Unsupported(f"operand {type(a)}")


def uf(f, nin):
    u = np.frompyfunc(f, nin, 1)

    def g(*a):
        r = u(*a)
        return r if isinstance(r, np.ndarray) else obj(r)
    return g


def full_of(shape, v):
    a = np.empty(shape, dtype=object)
    a[...] = v
    return a


def from_list(lst, shape):
    a = np.empty(len(lst), dtype=object)
    for i, x in enumerate(lst):
        a[i] = x
    return a.reshape(shape)


def schema_args(func, args, kwargs):
    """bind to schema names, with defaults"""
    out = {}
    for i, p in enumerate(func._schema.arguments):
        if i < len(args) and not p.kwarg_only:
            out[p.name] = args[i]
        elif p.name in kwargs:
            out[p.name] = kwargs[p.name]
        elif p.has_default_value():
            out[p.name] = p.default_value
        else:
            out[p.name] = None
    return out


# ------------------------------------------------------------------ elementwise
def _clamp(x, lo, hi):
    if lo is not None:
        x = tm.maxv(x, lo)
    if hi is not None:
        x = tm.minv(x, hi)
    return x


def _fmod(a, b):
    q = tm.div(a, b)
    return tm.sub(a, tm.mul(b, tm.trunc(q)))


def _isint(x):
    return (isinstance(x, int)) or (is_t(x) and x.sort == "I")


def _idiv_trunc(a, b):
    return tm.trunc(tm.div(a, b))


def _sigmoid(a):
    return tm.div(1, tm.add(1, tm.exp(tm.neg(a))))


def _lb(f):
    return lambda *a: f(*[tm.to_bool(x) for x in a])


def _bit(fb):
    def g(*a):
        if all(isinstance(x, bool) or (is_t(x) and x.sort == "B") for x in a):
            return fb(*a)
        raise Unsupported("bitwise operation on integers")
    return g


def _bitint(name, fb):
    import operator
    pyop = {"and": operator.and_, "or": operator.or_, "xor": operator.xor}[name]

    def g(a, b):
        if all(isinstance(x, bool) or (is_t(x) and x.sort == "B") for x in (a, b)):
            return fb(a, b)
        if not is_t(a) and not is_t(b):
            return pyop(a, b)
        if name == "and" and not is_t(b) and b == 1:
            return tm.imod(a, 2)
        raise Unsupported("bitwise operation on symbolic integers")
    return g


def _isnan(x):
    return isinstance(x, float) and math.isnan(x)


def _isinf(x):
    return isinstance(x, float) and math.isinf(x)


UNARY = {
    "neg": tm.neg, "abs": tm.absv, "square": lambda a: tm.mul(a, a), "sqrt": tm.sqrt,
    "rsqrt": lambda a: tm.div(1, tm.sqrt(a)), "reciprocal": lambda a: tm.div(1, a),
    "exp": tm.exp, "log": tm.log, "expm1": lambda a: tm.sub(tm.exp(a), 1), "log1p": lambda a: tm.log(tm.add(a, 1)),
    "log10": lambda a: tm.div(tm.log(a), tm.log(10)), "log2": lambda a: tm.div(tm.log(a), tm.log(2)),
    "exp2": lambda a: tm.fn("pow", 2, a),
    "floor": tm.floor, "ceil": tm.ceil, "trunc": tm.trunc, "fix": tm.trunc, "round": tm.roundv,
    "frac": lambda a: tm.sub(a, tm.trunc(a)), "sign": tm.sign, "sgn": tm.sign,
    "relu": lambda a: tm.maxv(a, 0), "positive": lambda a: a,
    "isnan": _isnan, "isinf": _isinf, "isfinite": lambda a: not (_isnan(a) or _isinf(a)),
    "isposinf": lambda a: _isinf(a) and a > 0, "isneginf": lambda a: _isinf(a) and a < 0,
    "signbit": lambda a: tm.lt(a, 0),
    "logical_not": lambda a: tm.not_(tm.to_bool(a)), "bitwise_not": _bit(tm.not_),
    "atan": lambda a: tm.fn("atan", a), "arctan": lambda a: tm.fn("atan", a), "sin": lambda a: tm.fn("sin", a),
    "cos": lambda a: tm.fn("cos", a), "tan": lambda a: tm.fn("tan", a), "tanh": lambda a: tm.fn("tanh", a),
    "erf": lambda a: tm.fn("erf", a), "sigmoid": _sigmoid,
    "deg2rad": lambda a: tm.mul(a, tm.norm(math.pi / 180)), "rad2deg": lambda a: tm.mul(a, tm.norm(180 / math.pi)),
    "zero": lambda a: 0,
}

BINARY = {
    "mul": tm.mul, "multiply": tm.mul, "minimum": tm.minv, "maximum": tm.maxv, "fmin": tm.minv, "fmax": tm.maxv,
    "eq": tm.eq, "ne": lambda a, b: tm.not_(tm.eq(a, b)), "lt": tm.lt, "le": tm.le,
    "gt": lambda a, b: tm.lt(b, a), "ge": lambda a, b: tm.le(b, a),
    "logical_and": _lb(tm.and_), "logical_or": _lb(tm.or_), "logical_xor": _lb(tm.xor_),
    "bitwise_and": _bitint("and", tm.and_), "bitwise_or": _bitint("or", tm.or_), "bitwise_xor": _bitint("xor", tm.xor_),
    "__and__": _bitint("and", tm.and_), "__or__": _bitint("or", tm.or_), "__xor__": _bitint("xor", tm.xor_),
    "remainder": tm.imod, "fmod": _fmod, "floor_divide": tm.idiv,
    "hypot": lambda a, b: tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b))),
    "atan2": lambda a, b: tm.fn("atan2", a, b),
    "pow": tm.power, "clamp_min": tm.maxv, "clamp_max": tm.minv,
    "xlogy": lambda a, b: tm.ite(tm.eq(a, 0), 0, tm.mul(a, tm.log(b))),
    "copysign": lambda a, b: tm.ite(tm.lt(b, 0), tm.neg(tm.absv(a)), tm.absv(a)),
    "heaviside": lambda a, b: tm.ite(tm.eq(a, 0), b, tm.ite(tm.lt(a, 0), 0, 1)),
    "dist_abs": lambda a, b: tm.absv(tm.sub(a, b)),
    "threshold_backward0": None,
}


def h_add(sh, f, A):
    al = A.get("alpha", 1)
    a, b = arr(sh, A["self"]), arr(sh, A["other"])
    return uf(tm.add, 2)(a, b) if al == 1 else uf(lambda x, y: tm.add(x, tm.mul(y, tm.norm(al))), 2)(a, b)


def h_sub(sh, f, A):
    al = A.get("alpha", 1)
    a, b = arr(sh, A["self"]), arr(sh, A["other"])
    return uf(tm.sub, 2)(a, b) if al == 1 else uf(lambda x, y: tm.sub(x, tm.mul(y, tm.norm(al))), 2)(a, b)


def h_rsub(sh, f, A):
    al = A.get("alpha", 1)
    return uf(lambda x, y: tm.sub(y, tm.mul(x, tm.norm(al))), 2)(arr(sh, A["self"]), arr(sh, A["other"]))


def h_div(sh, f, A):
    a, b = arr(sh, A["self"]), arr(sh, A["other"])
    rm = A.get("rounding_mode")
    if rm is None:
        return uf(tm.div, 2)(a, b)
    if rm == "floor":
        return uf(tm.idiv, 2)(a, b)
    return uf(_idiv_trunc, 2)(a, b)


def h_clamp(sh, f, A):
    x = arr(sh, A["self"])
    lo = arr(sh, A["min"]) if A.get("min") is not None else None
    hi = arr(sh, A["max"]) if A.get("max") is not None else None
    if lo is not None:
        x = uf(tm.maxv, 2)(x, lo)
    if hi is not None:
        x = uf(tm.minv, 2)(x, hi)
    return x


def h_where(sh, f, A):
    return uf(lambda c, a, b: tm.ite(tm.to_bool(c), a, b), 3)(arr(sh, A["condition"]), arr(sh, A["self"]), arr(sh, A["other"]))


def h_lerp(sh, f, A):
    return uf(lambda a, b, w: tm.add(a, tm.mul(w, tm.sub(b, a))), 3)(arr(sh, A["self"]), arr(sh, A["end"]), arr(sh, A["weight"]))


def h_addcmul(sh, f, A):
    v = tm.norm(A.get("value", 1))
    return uf(lambda a, b, c: tm.add(a, tm.mul(v, tm.mul(b, c))), 3)(arr(sh, A["self"]), arr(sh, A["tensor1"]), arr(sh, A["tensor2"]))


def h_addcdiv(sh, f, A):
    v = tm.norm(A.get("value", 1))
    return uf(lambda a, b, c: tm.add(a, tm.mul(v, tm.div(b, c))), 3)(arr(sh, A["self"]), arr(sh, A["tensor1"]), arr(sh, A["tensor2"]))


def h_masked_fill(sh, f, A):
    return uf(lambda x, m, v: tm.ite(tm.to_bool(m), v, x), 3)(arr(sh, A["self"]), arr(sh, A["mask"]), arr(sh, A["value"]))


def h_copy(sh, f, A):
    src = arr(sh, A["src"])
    return np.broadcast_to(src, tuple(A["self"].shape))


def h_fill(sh, f, A):
    v = arr(sh, A["value"])
    return np.broadcast_to(v, tuple(A["self"].shape))


def h_zero(sh, f, A):
    return full_of(tuple(A["self"].shape), 0)


def h_round(sh, f, A):
    if A.get("decimals"):
        raise Unsupported("round to decimals")
    return uf(tm.roundv, 1)(arr(sh, A["self"]))


def h_clone(sh, f, A):
    return np.array(arr(sh, A["self"]), dtype=object, copy=True)


def h_nan_to_num(sh, f, A):
    return arr(sh, A["self"])


def h_thr(sh, f, A):
    t, v = tm.norm(A["threshold"]), tm.norm(A["value"])
    return uf(lambda x: tm.ite(tm.le(x, t), v, x), 1)(arr(sh, A["self"]))


def h_thr_bw(sh, f, A):
    t = tm.norm(A["threshold"])
    return uf(lambda g, x: tm.ite(tm.le(x, t), 0, g), 2)(arr(sh, A["grad_output"]), arr(sh, A["self"]))


def h_leaky(sh, f, A):
    k = tm.norm(A["negative_slope"])
    return uf(lambda x: tm.ite(tm.lt(0, x), x, tm.mul(x, k)), 1)(arr(sh, A["self"]))


# ------------------------------------------------------------------ reductions
def _axes(nd, dim):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    return tuple(d % nd if nd else 0 for d in dim) if nd else ()


def reduce_arr(a, dims, keepdim, f):
    """f: list of elements -> element"""
    nd = a.ndim
    if nd == 0:
        return obj(f([a[()]]))
    dims = _axes(nd, dims)
    rest = [i for i in range(nd) if i not in dims]
    b = np.transpose(a, rest + list(dims)).reshape([a.shape[i] for i in rest] + [int(np.prod([a.shape[i] for i in dims], dtype=int))])
    oshape = tuple(b.shape[:-1])
    out = np.empty(oshape, dtype=object)
    for i in np.ndindex(*oshape):
        out[i] = f(list(b[i]))
    if not isinstance(out, np.ndarray):
        out = obj(out)
    if keepdim:
        out = out.reshape([1 if i in dims else a.shape[i] for i in range(nd)])
    return out


def _fold(f):
    def g(xs):
        if not xs:
            raise Unsupported("empty reduction")
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


def _mean(xs):
    return tm.div(tm.sum_terms(xs), len(xs))


def _prod(xs):
    r = 1
    for x in xs:
        r = tm.mul(r, x)
    return r


def _var(corr):
    def g(xs):
        m = _mean(xs)
        s = tm.sum_terms([tm.mul(tm.sub(x, m), tm.sub(x, m)) for x in xs])
        d = len(xs) - corr
        return tm.div(s, d) if d > 0 else (float("nan") if d == 0 and len(xs) == 1 else tm.div(s, max(d, 0)))
    return g


def _red(f):
    def h(sh, fn, A):
        a = arr(sh, A["self"])
        dim = A.get("dim")
        return reduce_arr(a, dim, bool(A.get("keepdim", False)), f)
    return h


def h_std(sq):
    def h(sh, fn, A):
        a = arr(sh, A["self"])
        corr = A.get("correction")
        if corr is None:
            corr = 1 if A.get("unbiased", True) in (True, None) else 0
        v = _var(int(corr))
        g = (lambda xs: tm.sqrt(v(xs))) if sq else v
        return reduce_arr(a, A.get("dim"), bool(A.get("keepdim", False)), g)
    return h


def h_var_mean(sh, fn, A):
    a = arr(sh, A["self"])
    corr = A.get("correction")
    corr = 1 if corr is None else int(corr)
    kd = bool(A.get("keepdim", False))
    return [reduce_arr(a, A.get("dim"), kd, _var(corr)), reduce_arr(a, A.get("dim"), kd, _mean)]


def _argbest(better):
    """index of best element, first one on ties"""
    def g(xs):
        best, idx = xs[0], 0
        for i, x in enumerate(xs[1:], 1):
            c = better(x, best)
            best, idx = tm.ite(c, x, best), tm.ite(c, i, idx)
        return idx
    return g


_gt = lambda a, b: tm.lt(b, a)


def h_maxmin(ext, better):
    def h(sh, fn, A):
        if "other" in A:
            return uf(ext, 2)(arr(sh, A["self"]), arr(sh, A["other"]))
        a = arr(sh, A["self"])
        if A.get("dim") is None:
            return reduce_arr(a, None, False, _fold(ext))
        kd = bool(A.get("keepdim", False))
        return [reduce_arr(a, A["dim"], kd, _fold(ext)), reduce_arr(a, A["dim"], kd, _argbest(better))]
    return h


def h_arg(better):
    def h(sh, fn, A):
        a = arr(sh, A["self"])
        return reduce_arr(a, A.get("dim"), bool(A.get("keepdim", False)), _argbest(better))
    return h


def sort_pairs(xs):
    """stable ascending sort: (values, indices)"""
    v, ix = list(xs), list(range(len(xs)))
    n = len(v)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            c = tm.lt(v[i + 1], v[i])
            v[i], v[i + 1] = tm.ite(c, v[i + 1], v[i]), tm.ite(c, v[i], v[i + 1])
            ix[i], ix[i + 1] = tm.ite(c, ix[i + 1], ix[i]), tm.ite(c, ix[i], ix[i + 1])
    return v, ix


def h_sort(sh, fn, A):
    a = arr(sh, A["self"])
    dim = A.get("dim", -1)
    desc = A.get("descending", False)
    if a.ndim == 0:
        return [a, obj(0)]
    b = np.moveaxis(a, dim, -1)
    v = np.empty(b.shape, dtype=object)
    ix = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        xs = list(b[i])
        if desc:
            vs, ii = sort_pairs([tm.neg(x) for x in xs])
            vs = [tm.neg(x) for x in vs]
        else:
            vs, ii = sort_pairs(xs)
        for k in range(len(vs)):
            v[i + (k,)], ix[i + (k,)] = vs[k], ii[k]
    return [np.moveaxis(v, -1, dim), np.moveaxis(ix, -1, dim)]


def h_median(sh, fn, A):
    a = arr(sh, A["self"])
    med = lambda xs: sort_pairs(xs)[0][(len(xs) - 1) // 2]
    if A.get("dim") is None:
        return reduce_arr(a, None, False, lambda xs: tm.sort_elems(xs)[(len(xs) - 1) // 2])
    kd = bool(A.get("keepdim", False))
    return [reduce_arr(a, A["dim"], kd, med),
            reduce_arr(a, A["dim"], kd, lambda xs: sort_pairs(xs)[1][(len(xs) - 1) // 2])]


def h_kth(sh, fn, A):
    a = arr(sh, A["self"])
    k = A["k"] - 1
    kd = bool(A.get("keepdim", False))
    return [reduce_arr(a, A["dim"], kd, lambda xs: sort_pairs(xs)[0][k]),
            reduce_arr(a, A["dim"], kd, lambda xs: sort_pairs(xs)[1][k])]


def h_topk(sh, fn, A):
    B = dict(A, descending=A.get("largest", True))
    v, ix = h_sort(sh, fn, B)
    d = A.get("dim", -1)
    sl = [slice(None)] * v.ndim
    sl[d] = slice(0, A["k"])
    return [v[tuple(sl)], ix[tuple(sl)]]


def h_cum(f):
    def h(sh, fn, A):
        a = arr(sh, A["self"])
        if a.ndim == 0:
            return a
        b = np.moveaxis(a, A["dim"], -1)
        o = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape[:-1]):
            r = None
            for k in range(b.shape[-1]):
                r = b[i + (k,)] if r is None else f(r, b[i + (k,)])
                o[i + (k,)] = r
        return np.moveaxis(o, -1, A["dim"])
    return h


def h_vnorm(sh, fn, A):
    a = arr(sh, A["self"])
    p = A.get("ord", A.get("p", 2))
    p = 2 if p is None else p
    if p == 2:
        f = lambda xs: tm.sqrt(tm.sum_terms([tm.mul(x, x) for x in xs]))
    elif p == 1:
        f = lambda xs: tm.sum_terms([tm.absv(x) for x in xs])
    elif p == math.inf:
        f = _fold(lambda a, b: tm.maxv(tm.absv(a), tm.absv(b)))
    elif p == 0:
        f = lambda xs: tm.sum_terms([tm.ite(tm.eq(x, 0), 0, 1) for x in xs])
    else:
        f = lambda xs: tm.power(tm.sum_terms([tm.power(tm.absv(x), tm.norm(p)) for x in xs]), tm.norm(1 / p))
    return reduce_arr(a, A.get("dim"), bool(A.get("keepdim", False)), f)


def h_logsumexp(sh, fn, A):
    return reduce_arr(arr(sh, A["self"]), A.get("dim"), bool(A.get("keepdim", False)),
                      lambda xs: tm.log(tm.sum_terms([tm.exp(x) for x in xs])))


# ------------------------------------------------------------------ linear algebra
def matmul2(a, b):
    n, k = a.shape
    m = b.shape[1]
    o = np.empty((n, m), dtype=object)
    for i in range(n):
        ai = a[i]
        for j in range(m):
            o[i, j] = tm.sum_terms([tm.mul(ai[t], b[t, j]) for t in range(k)])
    return o


def h_mm(sh, f, A):
    return matmul2(arr(sh, A["self"]), arr(sh, A["mat2"]))


def h_mv(sh, f, A):
    return matmul2(arr(sh, A["self"]), arr(sh, A["vec"]).reshape(-1, 1)).reshape(-1)


def h_dot(sh, f, A):
    b = A.get("tensor", A.get("other"))
    return matmul2(arr(sh, A["self"]).reshape(1, -1), arr(sh, b).reshape(-1, 1)).reshape(())


def h_bmm(sh, f, A):
    a, b = arr(sh, A["self"]), arr(sh, A["mat2"])
    o = np.empty((a.shape[0], a.shape[1], b.shape[2]), dtype=object)
    for i in range(a.shape[0]):
        o[i] = matmul2(a[i], b[i])
    return o


def _lincomb(beta, x, alpha, y):
    return uf(lambda p, q: tm.add(tm.mul(tm.norm(beta), p), tm.mul(tm.norm(alpha), q)), 2)(x, y)


def h_addmm(sh, f, A):
    return _lincomb(A["beta"], arr(sh, A["self"]), A["alpha"], matmul2(arr(sh, A["mat1"]), arr(sh, A["mat2"])))


def h_addmv(sh, f, A):
    y = matmul2(arr(sh, A["mat"]), arr(sh, A["vec"]).reshape(-1, 1)).reshape(-1)
    return _lincomb(A["beta"], arr(sh, A["self"]), A["alpha"], y)


def h_addr(sh, f, A):
    y = matmul2(arr(sh, A["vec1"]).reshape(-1, 1), arr(sh, A["vec2"]).reshape(1, -1))
    return _lincomb(A["beta"], arr(sh, A["self"]), A["alpha"], y)


def h_baddbmm(sh, f, A):
    a, b = arr(sh, A["batch1"]), arr(sh, A["batch2"])
    y = np.stack([matmul2(a[i], b[i]) for i in range(a.shape[0])])
    return _lincomb(A["beta"], arr(sh, A["self"]), A["alpha"], y)


def h_outer(sh, f, A):
    return matmul2(arr(sh, A["self"]).reshape(-1, 1), arr(sh, A["vec2"]).reshape(1, -1))


def _tup(v, n):
    v = list(v) if isinstance(v, (list, tuple)) else [v]
    return v * n if len(v) == 1 else v


def conv_forward(x, w, b, stride, padding, dilation, groups):
    """x: N C spatial; w: O C/g kernel"""
    n = x.ndim - 2
    stride, padding, dilation = _tup(stride, n), _tup(padding, n), _tup(dilation, n)
    if any(padding):
        xp = full_of(x.shape[:2] + tuple(x.shape[2 + i] + 2 * padding[i] for i in range(n)), 0)
        xp[(slice(None), slice(None)) + tuple(slice(padding[i], padding[i] + x.shape[2 + i]) for i in range(n))] = x
        x = xp
    ks = w.shape[2:]
    osz = tuple((x.shape[2 + i] - dilation[i] * (ks[i] - 1) - 1) // stride[i] + 1 for i in range(n))
    O, cg = w.shape[0], w.shape[1]
    og = O // groups
    out = np.empty((x.shape[0], O) + osz, dtype=object)
    offs = list(np.ndindex(*ks))
    for bi in range(x.shape[0]):
        for o in range(O):
            g = o // og
            taps = [(c, off, w[(o, c) + off]) for c in range(cg) for off in offs]
            taps = [t for t in taps if is_t(t[2]) or t[2] != 0]
            for p in np.ndindex(*osz):
                xs = [tm.mul(x[(bi, g * cg + c) + tuple(p[i] * stride[i] + off[i] * dilation[i] for i in range(n))], wv)
                      for c, off, wv in taps]
                if b is not None:
                    xs.append(b[o])
                out[(bi, o) + p] = tm.sum_terms(xs)
    return out


def h_conv(sh, f, A):
    if A.get("transposed"):
        raise Unsupported("transposed convolution")
    x, w = arr(sh, A["input"]), arr(sh, A["weight"])
    b = arr(sh, A["bias"]) if A.get("bias") is not None else None
    sq = x.ndim == w.ndim - 1
    if sq:
        x = x[None]
    o = conv_forward(x, w, b, A["stride"], A["padding"], A["dilation"], A["groups"])
    return o[0] if sq else o


def h_conv_bw(sh, f, A):
    """gradients of a (non-transposed) convolution"""
    if A.get("transposed"):
        raise Unsupported("transposed convolution")
    g, x, w = arr(sh, A["grad_output"]), arr(sh, A["input"]), arr(sh, A["weight"])
    n = x.ndim - 2
    st, pd, dl, groups = _tup(A["stride"], n), _tup(A["padding"], n), _tup(A["dilation"], n), A["groups"]
    need = A["output_mask"]
    ks, O, cg = w.shape[2:], w.shape[0], w.shape[1]
    og = O // groups
    gx = {}
    gw = {}
    for bi in range(x.shape[0]):
        for o in range(O):
            for p in np.ndindex(*g.shape[2:]):
                gv = g[(bi, o) + p]
                if not is_t(gv) and gv == 0:
                    continue
                for c in range(cg):
                    for off in np.ndindex(*ks):
                        pos = tuple(p[i] * st[i] + off[i] * dl[i] - pd[i] for i in range(n))
                        if any(q < 0 or q >= x.shape[2 + i] for i, q in enumerate(pos)):
                            continue
                        xi, wi = (bi, (o // og) * cg + c) + pos, (o, c) + off
                        if need[0]:
                            gx.setdefault(xi, []).append(tm.mul(gv, w[wi]))
                        if need[1]:
                            gw.setdefault(wi, []).append(tm.mul(gv, x[xi]))

    def collect(d, shape):
        o = full_of(shape, 0)
        for k, v in d.items():
            o[k] = tm.sum_terms(v)
        return o
    gb = reduce_arr(g, [0] + list(range(2, g.ndim)), False, tm.sum_terms) if need[2] else None
    return [collect(gx, x.shape) if need[0] else None, collect(gw, w.shape) if need[1] else None, gb]


def h_avg_pool(n):
    def h(sh, f, A):
        x = arr(sh, A["self"])
        ks = _tup(A["kernel_size"], n)
        st = _tup(A["stride"], n) if A.get("stride") else ks
        pd = _tup(A["padding"], n)
        if A.get("ceil_mode"):
            raise Unsupported("avg_pool ceil_mode")
        lead = x.shape[:-n]
        xs = x.reshape((-1,) + x.shape[-n:])
        sp = x.shape[-n:]
        osz = tuple((sp[i] + 2 * pd[i] - ks[i]) // st[i] + 1 for i in range(n))
        out = np.empty((xs.shape[0],) + osz, dtype=object)
        for c in range(xs.shape[0]):
            for p in np.ndindex(*osz):
                vals, cnt = [], 0
                for off in np.ndindex(*ks):
                    q = tuple(p[i] * st[i] + off[i] - pd[i] for i in range(n))
                    if all(0 <= q[i] < sp[i] for i in range(n)):
                        vals.append(xs[(c,) + q])
                    cnt += all(q[i] < sp[i] + pd[i] for i in range(n))
                d = A.get("divisor_override") or (cnt if A.get("count_include_pad", True) else len(vals))
                out[(c,) + p] = tm.div(tm.sum_terms(vals), d)
        return out.reshape(lead + osz)
    return h


def h_max_pool2d(sh, f, A):
    x = arr(sh, A["self"])
    ks = _tup(A["kernel_size"], 2)
    st = _tup(A["stride"], 2) if A.get("stride") else ks
    pd, dl = _tup(A["padding"], 2), _tup(A["dilation"], 2)
    if A.get("ceil_mode"):
        raise Unsupported("max_pool ceil_mode")
    lead, sp = x.shape[:-2], x.shape[-2:]
    xs = x.reshape((-1,) + sp)
    osz = tuple((sp[i] + 2 * pd[i] - dl[i] * (ks[i] - 1) - 1) // st[i] + 1 for i in range(2))
    v = np.empty((xs.shape[0],) + osz, dtype=object)
    ix = np.empty((xs.shape[0],) + osz, dtype=object)
    for c in range(xs.shape[0]):
        for p in np.ndindex(*osz):
            cand = []
            for off in np.ndindex(*ks):
                q = tuple(p[i] * st[i] + off[i] * dl[i] - pd[i] for i in range(2))
                if all(0 <= q[i] < sp[i] for i in range(2)):
                    cand.append((xs[(c,) + q], q[0] * sp[1] + q[1]))
            b, k = cand[0]
            for y, j in cand[1:]:
                t = tm.lt(b, y)
                b, k = tm.ite(t, y, b), tm.ite(t, j, k)
            v[(c,) + p], ix[(c,) + p] = b, k
    return [v.reshape(lead + osz), ix.reshape(lead + osz)]


# ------------------------------------------------------------------ movement by labels
FILL = -1.0


def label_run(sh, func, args, kwargs, data):
    """run the real kernel on float64 labels in place of the tensors in `data` (list of tensors,
    matched by identity); returns list of outputs as object arrays"""
    off = S()._off
    pool, lab = [], {}
    base = 0
    with off():
        for t in data:
            if id(t) in lab:
                continue
            a = arr(sh, t).reshape(-1)
            pool.append(a)
            lab[id(t)] = torch.arange(base, base + a.size, dtype=torch.float64).reshape(t.shape)
            base += a.size

        def sub(o):
            if isinstance(o, torch.Tensor):
                return lab.get(id(o), o)
            if isinstance(o, (list, tuple)):
                return type(o)(sub(x) for x in o)
            return o
        out = func(*sub(args), **{k: sub(v) for k, v in kwargs.items() if k not in ("dtype",)})
    elems = np.concatenate(pool) if pool else np.empty(0, dtype=object)

    def back(o):
        ii = o.detach().numpy().astype(np.int64).reshape(-1)
        r = np.empty(ii.size, dtype=object)
        for k, i in enumerate(ii):
            r[k] = elems[i] if i >= 0 else FILLV
        return r.reshape(tuple(o.shape))
    FILLV = None
    if isinstance(out, torch.Tensor):
        return back(out)
    return [back(o) for o in out]


# op -> names of schema args holding data
MOVE = {
    "clone": ["self"], "contiguous": ["self"], "flip": ["self"], "roll": ["self"], "rot90": ["self"], "cat": ["tensors"],
    "stack": ["tensors"], "repeat": ["self"], "tile": ["self"], "gather": ["self"], "index_select": ["self"],
    "take": ["self"], "reflection_pad1d": ["self"], "reflection_pad2d": ["self"], "reflection_pad3d": ["self"],
    "replication_pad1d": ["self"], "replication_pad2d": ["self"], "replication_pad3d": ["self"],
    "pixel_shuffle": ["self"], "pixel_unshuffle": ["self"], "channel_shuffle": ["self"],
    "repeat_interleave": ["self"], "tril_indices": [], "upsample_nearest1d": ["self"], "upsample_nearest2d": ["self"],
    "_unsafe_view": ["self"], "reshape": ["self"], "_reshape_copy": ["self"], "diag_embed": [], "slice_scatter": ["self", "src"],
    "select_scatter": ["self", "src"], "as_strided_scatter": ["self", "src"], "diagonal_scatter": ["self", "src"],
    "scatter_src": ["self", "src"], "unfold_copy": ["self"], "combinations": ["self"], "resolve_conj": ["self"],
    "resolve_neg": ["self"], "_fft_r2c": None, "masked_select0": None, "block_diag0": None, "expand_copy": ["self"],
    "_adaptive": None, "swapaxes": ["self"], "vstack": ["tensors"], "hstack": ["tensors"],
}
for _n in ("view_copy", "slice_copy", "select_copy", "permute_copy", "transpose_copy", "t_copy", "squeeze_copy",
           "unsqueeze_copy", "as_strided_copy", "alias_copy", "detach_copy", "diagonal_copy", "split_copy", "unbind_copy",
           "split_with_sizes_copy"):
    MOVE[_n] = ["self"]


def _needs_const_index(sh, *ts):
    for t in ts:
        if isinstance(t, torch.Tensor):
            settle(sh, t)


def settle(sh, t):
    """make every element of an index/mask tensor concrete on this path (forking)"""
    if not sh.has(t):
        return
    v = sh.view(t)
    for i in np.ndindex(*v.shape):
        e = v[i]
        if is_t(e):
            v[i] = sh.ctx.decide(e) if e.sort == "B" else sh.ctx.concretize(e)
    with S()._off():
        t.detach().copy_(torch.tensor([float(x) for x in v.reshape(-1)], dtype=torch.float64).reshape(t.shape).to(t.dtype)) \
            if t.numel() else None


def h_move(sh, func, name, A, args, kwargs):
    data = []
    for n in MOVE[name]:
        v = A[n]
        data += list(v) if isinstance(v, (list, tuple)) else [v]
    for k, v in A.items():
        if isinstance(v, torch.Tensor) and not any(v is d for d in data):
            settle(sh, v)
    return label_run(sh, func, args, kwargs, data)


def h_constant_pad(sh, f, A):
    x, pad, v = arr(sh, A["self"]), list(A["pad"]), tm.norm(A.get("value", 0))
    shape, sl_src, sl_dst = [], [], []
    nd = x.ndim
    for d in range(nd):
        j = nd - 1 - d
        lo, hi = (pad[2 * j], pad[2 * j + 1]) if 2 * j < len(pad) else (0, 0)
        shape.append(x.shape[d] + lo + hi)
        sl_src.append(slice(max(0, -lo), x.shape[d] - max(0, -hi)))
        sl_dst.append(slice(max(0, lo), max(0, lo) + sl_src[-1].stop - sl_src[-1].start))
    o = full_of(tuple(shape), v)
    o[tuple(sl_dst)] = x[tuple(sl_src)]
    return o


def h_index(sh, f, A):
    idx = [i for i in A["indices"]]
    for t in idx:
        if t is not None:
            settle(sh, t)
    return label_run(sh, f, (A["self"], A["indices"]), {}, [A["self"]])


def h_index_put(sh, f, A, dest=None):
    """functional index_put: positions found by the real kernel"""
    x, val = arr(sh, A["self"]), arr(sh, A["values"])
    for t in A["indices"]:
        if t is not None:
            settle(sh, t)
    off = S()._off
    with off():
        pos = torch.arange(x.size).reshape(tuple(x.shape))
        sel = aten.index.Tensor(pos, [i for i in A["indices"]])
        sel = sel.numpy()
    v = np.broadcast_to(val, sel.shape)
    o = np.array(x, dtype=object, copy=True).reshape(-1)
    acc = bool(A.get("accumulate", False))
    sf, vf = sel.reshape(-1), v.reshape(-1)
    for k in range(sf.size):
        o[sf[k]] = tm.add(o[sf[k]], vf[k]) if acc else vf[k]
    return o.reshape(x.shape)


def h_nonzero(sh, f, A):
    t = A["self"]
    v = sh.view(t)
    hits = []
    for i in np.ndindex(*v.shape):
        b = tm.to_bool(v[i])
        if sh.ctx.decide(b) if is_t(b) else b:
            hits.append(i)
    return hits


def h_masked_select(sh, f, A):
    settle(sh, A["mask"])
    return label_run(sh, f, (A["self"], A["mask"]), {}, [A["self"]])


def h_masked_scatter(sh, f, A):
    settle(sh, A["mask"])
    return label_run(sh, aten.masked_scatter.default, (A["self"], A["mask"], A["source"]), {}, [A["self"], A["source"]])


def h_masked_scatter_bw(sh, f, A):
    settle(sh, A["mask"])
    g = arr(sh, A["grad_output"])
    m = np.broadcast_to(A["mask"].detach().numpy(), g.shape)
    out = np.full(int(np.prod([int(n) for n in A["sizes"]])), 0, dtype=object)
    sel = g[m]
    out[:sel.size] = sel[:out.size]
    return out.reshape(tuple(int(n) for n in A["sizes"]))


def h_scatter(kind):
    def h(sh, f, A):
        x = np.array(arr(sh, A["self"]), dtype=object, copy=True)
        settle(sh, A["index"])
        ix = A["index"].detach().numpy()
        dim = A["dim"] % max(x.ndim, 1)
        src = A.get("src")
        sv = arr(sh, src) if isinstance(src, torch.Tensor) else None
        val = tm.norm(A["value"]) if A.get("value") is not None and sv is None else None
        for i in np.ndindex(*ix.shape):
            p = list(i)
            p[dim] = int(ix[i])
            p = tuple(p)
            v = sv[i] if sv is not None else val
            red = A.get("reduce")
            if kind == "add" or red in ("add", "sum"):
                x[p] = tm.add(x[p], v)
            elif red in ("multiply", "prod"):
                x[p] = tm.mul(x[p], v)
            else:
                x[p] = v
        return x
    return h


def h_index_add(sh, f, A):
    x = np.array(arr(sh, A["self"]), dtype=object, copy=True)
    settle(sh, A["index"])
    ix = A["index"].detach().numpy().reshape(-1)
    s = arr(sh, A["source"])
    al = tm.norm(A.get("alpha", 1))
    d = A["dim"] % x.ndim
    xm, sm = np.moveaxis(x, d, 0), np.moveaxis(s, d, 0)
    for k, i in enumerate(ix):
        xm[i] = uf(lambda p, q: tm.add(p, tm.mul(al, q)), 2)(xm[i], sm[k])
    return x


def h_index_copy(sh, f, A):
    x = np.array(arr(sh, A["self"]), dtype=object, copy=True)
    settle(sh, A["index"])
    d = A["dim"] % x.ndim
    xm, sm = np.moveaxis(x, d, 0), np.moveaxis(arr(sh, A["source"]), d, 0)
    for k, i in enumerate(A["index"].detach().numpy().reshape(-1)):
        xm[i] = sm[k]
    return x


def h_index_fill(sh, f, A):
    x = np.array(arr(sh, A["self"]), dtype=object, copy=True)
    settle(sh, A["index"])
    d = A["dim"] % x.ndim
    v = arr(sh, A["value"])[()]
    xm = np.moveaxis(x, d, 0)
    for i in A["index"].detach().numpy().reshape(-1):
        xm[i] = full_of(xm[i].shape, v) if isinstance(xm[i], np.ndarray) else v
    return x


def h_slice_bw(sh, f, A):
    o = full_of(tuple(A["input_sizes"]), 0)
    sl = [slice(None)] * o.ndim
    end = A["end"]
    sl[A["dim"]] = slice(A["start"], None if end is None or end > o.shape[A["dim"]] else end, A["step"])
    o[tuple(sl)] = arr(sh, A["grad_output"])
    return o


def h_select_bw(sh, f, A):
    o = full_of(tuple(A["input_sizes"]), 0)
    sl = [slice(None)] * o.ndim
    sl[A["dim"]] = A["index"]
    o[tuple(sl)] = arr(sh, A["grad_output"])
    return o


def adjoint_by_labels(sh, grad, in_shape, fwd):
    """adjoint of a pure movement op: scatter-add grad back through the label map"""
    with S()._off():
        n = int(np.prod(in_shape, dtype=int))
        lab = fwd(torch.arange(n, dtype=torch.float64).reshape(tuple(in_shape)))
        ii = lab.numpy().astype(np.int64).reshape(-1)
    acc = {}
    for k, g in zip(ii, np.asarray(grad, dtype=object).reshape(-1)):
        if k >= 0:
            acc.setdefault(int(k), []).append(g)
    o = full_of((n,), 0)
    for k, v in acc.items():
        o[k] = tm.sum_terms(v)
    return o.reshape(tuple(in_shape))


def h_unfold_bw(sh, f, A):
    return adjoint_by_labels(sh, arr(sh, A["grad_in"]), A["input_sizes"],
                             lambda t: t.unfold(A["dim"], A["size"], A["step"]).contiguous())


def h_pad_bw(fwd):
    def h(sh, f, A):
        return adjoint_by_labels(sh, arr(sh, A["grad_output"]), A["self"].shape, lambda t: fwd(t, A["padding"]))
    return h


def h_diag(sh, f, A):
    raise Unsupported("diag")


def h_avg_pool2d_bw(sh, f, A):
    x = A["self"]
    g = arr(sh, A["grad_output"])
    ks = _tup(A["kernel_size"], 2)
    st = _tup(A["stride"], 2) if A.get("stride") else ks
    if any(_tup(A["padding"], 2)):
        raise Unsupported("avg_pool backward with padding")
    o = full_of(tuple(x.shape), 0)
    k = ks[0] * ks[1]
    for i in np.ndindex(*g.shape):
        for a in range(ks[0]):
            for b in range(ks[1]):
                p = i[:-2] + (i[-2] * st[0] + a, i[-1] * st[1] + b)
                o[p] = tm.add(o[p], tm.div(g[i], k))
    return o


def h_vsr_bw(sh, f, A):
    """value_selecting_reduction_backward"""
    raise Unsupported("value_selecting_reduction_backward")


def h_sgn_like(v):
    def h(sh, f, A):
        return full_of(tuple(A["self"].shape), v)
    return h


def h_full_like(sh, f, A):
    return np.broadcast_to(arr(sh, A["fill_value"]), tuple(A["self"].shape))


HAND = {
    "add": h_add, "sub": h_sub, "subtract": h_sub, "rsub": h_rsub, "div": h_div, "divide": h_div, "true_divide": h_div,
    "clamp": h_clamp, "clip": h_clamp, "where": h_where, "lerp": h_lerp, "addcmul": h_addcmul, "addcdiv": h_addcdiv,
    "masked_fill": h_masked_fill, "copy": h_copy, "fill": h_fill, "zero": h_zero, "round": h_round,
    "_to_copy": h_clone, "lift_fresh_copy": h_clone, "lift": h_clone, "nan_to_num": h_nan_to_num,
    "threshold": h_thr, "threshold_backward": h_thr_bw, "leaky_relu": h_leaky,
    "sum": _red(tm.sum_terms), "nansum": _red(tm.sum_terms), "mean": _red(_mean), "nanmean": _red(_mean),
    "prod": _red(_prod), "amax": _red(_fold(tm.maxv)), "amin": _red(_fold(tm.minv)),
    "any": _red(lambda xs: tm.or_(*[tm.to_bool(x) for x in xs])), "all": _red(lambda xs: tm.and_(*[tm.to_bool(x) for x in xs])),
    "count_nonzero": _red(lambda xs: tm.sum_terms([tm.ite(tm.to_bool(x), 1, 0) for x in xs])),
    "std": h_std(True), "var": h_std(False), "var_mean": h_var_mean,
    "max": h_maxmin(tm.maxv, _gt), "min": h_maxmin(tm.minv, tm.lt), "argmax": h_arg(_gt), "argmin": h_arg(tm.lt),
    "sort": h_sort, "median": h_median, "nanmedian": h_median, "kthvalue": h_kth, "topk": h_topk,
    "cumsum": h_cum(tm.add), "cumprod": h_cum(tm.mul), "linalg_vector_norm": h_vnorm, "norm": h_vnorm,
    "logsumexp": h_logsumexp,
    "mm": h_mm, "mv": h_mv, "dot": h_dot, "vdot": h_dot, "bmm": h_bmm, "addmm": h_addmm, "addmv": h_addmv, "addr": h_addr,
    "baddbmm": h_baddbmm, "outer": h_outer, "ger": h_outer,
    "convolution": h_conv, "convolution_overrideable": h_conv, "convolution_backward": h_conv_bw,
    "avg_pool1d": h_avg_pool(1), "avg_pool2d": h_avg_pool(2), "avg_pool3d": h_avg_pool(3), "avg_pool2d_backward": h_avg_pool2d_bw,
    "max_pool2d_with_indices": h_max_pool2d,
    "constant_pad_nd": h_constant_pad, "index": h_index, "_unsafe_index": h_index, "index_put": h_index_put,
    "_index_put_impl": h_index_put, "_unsafe_index_put": h_index_put, "masked_select": h_masked_select,
    "masked_scatter": h_masked_scatter, "masked_scatter_backward": h_masked_scatter_bw, "scatter": h_scatter("set"), "scatter_add": h_scatter("add"),
    "scatter_reduce": h_scatter("set"), "index_add": h_index_add, "index_copy": h_index_copy, "index_fill": h_index_fill,
    "slice_backward": h_slice_bw, "select_backward": h_select_bw, "unfold_backward": h_unfold_bw,
    "reflection_pad1d_backward": h_pad_bw(lambda t, p: torch.nn.functional.pad(t, list(p), mode="reflect")),
    "reflection_pad2d_backward": h_pad_bw(lambda t, p: torch.nn.functional.pad(t, list(p), mode="reflect")),
    "replication_pad2d_backward": h_pad_bw(lambda t, p: torch.nn.functional.pad(t, list(p), mode="replicate")),
    "zeros_like": h_sgn_like(0), "ones_like": h_sgn_like(1), "full_like": h_full_like, "new_zeros": None,
    "new_ones": None, "new_full": None,
}


def _mutated(func, args, kwargs):
    """schema names of arguments written in place"""
    return [p.name for p in func._schema.arguments if p.alias_info is not None and p.alias_info.is_write]


def _store_all(sh, outs, arrs):
    shd = S()
    for o, a in zip(outs, arrs):
        if a is None or o is None:
            continue
        k = shd.dt_kind(o.dtype)
        a = np.asarray(a, dtype=object)
        if tuple(a.shape) != tuple(o.shape):
            if a.size == o.numel():
                a = a.reshape(tuple(o.shape))
            else:
                raise Unsupported(f"encoding produced shape {a.shape}, torch produced {tuple(o.shape)}")
        a = shd.cast_arr(a, k) if a.size else a
        sh.put(o, a)
        resync(sh, o, a, k)


def resync(sh, o, a, k):
    """bool/int carriers must follow the exact values (rounding in float carriers could flip them)"""
    if k in "BI" and o.numel():
        if any(is_t(x) for x in a.reshape(-1)):
            memo = {}
            vals = [sh.ctx.ev(x) for x in a.reshape(-1)]
            with S()._off():
                v = torch.tensor([float(x) for x in vals], dtype=torch.float64).reshape(o.shape).to(o.dtype)
                o.detach().copy_(v)


def encode(sh, func, name, args, kwargs):
    """-> list of result arrays or None when no encoding is known"""
    A = schema_args(func, args, kwargs)
    if name in HAND and HAND[name] is not None:
        r = HAND[name](sh, func, A)
    elif name in MOVE and MOVE[name] is not None:
        r = h_move(sh, func, name, A, args, kwargs)
    elif name in UNARY:
        r = uf(UNARY[name], 1)(arr(sh, A["self"]))
    elif name in BINARY and BINARY[name] is not None:
        vals = list(A.values())
        a, b = vals[0], vals[1]
        r = uf(BINARY[name], 2)(arr(sh, a), arr(sh, b))
    else:
        return None
    return r if isinstance(r, list) else [r]


def run_op(sh, func, name, args, kwargs):
    shd = S()
    mut = _mutated(func, args, kwargs)
    if name == "_local_scalar_dense":
        e = sh.view(args[0]).reshape(-1)[0]
        if not is_t(e):
            return func(*args, **kwargs)
        if e.sort == "B":
            return sh.ctx.decide(e)
        v = sh.ctx.concretize(e)
        return int(v) if shd.dt_kind(args[0].dtype) == "I" else float(v)
    if name in ("equal",):
        a, b = args
        if tuple(a.shape) != tuple(b.shape):
            return False
        return sh.ctx.decide_any(tm.and_(*[tm.eq(x, y) for x, y in zip(arr(sh, a).reshape(-1), arr(sh, b).reshape(-1))]))
    if name in ("is_nonzero",):
        return sh.ctx.decide_any(tm.to_bool(sh.view(args[0]).reshape(-1)[0]))
    if name == "nonzero":
        hits = h_nonzero(sh, func, {"self": args[0]})
        with shd._off():
            return torch.tensor(hits, dtype=torch.int64).reshape(len(hits), args[0].ndim)
    if not mut:
        # operations whose result shape depends on values: settle first
        if name in ("index", "_unsafe_index"):
            for t in args[1]:
                if t is not None:
                    settle(sh, t)
        elif name in ("masked_select",):
            settle(sh, args[1])
        elif name in ("gather", "index_select", "take", "scatter", "scatter_add"):
            for t in args[1:]:
                if isinstance(t, torch.Tensor) and not t.dtype.is_floating_point:
                    settle(sh, t)
        out = func(*args, **kwargs)
        outs = list(out) if isinstance(out, (tuple, list)) else [out]
        touts = [o for o in outs if isinstance(o, torch.Tensor)]
        if not touts:
            raise Unsupported(f"aten.{name} returns {type(out)} from symbolic data")
        if all(sh.has(o) and any(p.alias_info is not None for p in func._schema.returns) or _is_alias(o, args) for o in touts):
            return out                     # view: shadow shared through the storage
        if name in ("zeros_like", "ones_like", "new_zeros", "new_ones", "new_full", "sym_size", "full_like") and \
                not (name in ("full_like", "new_full")):
            return out
        r = encode(sh, func, name, args, kwargs)
        if r is None:
            r = decompose(sh, func, args, kwargs)
            if r is NotImplemented:
                raise Unsupported(f"aten.{name} has no encoding")
            return r
        _store_all(sh, outs, r)
        return out
    # ---- in-place / out= variants
    A = schema_args(func, args, kwargs)
    dests = [A[n] for n in mut]
    base = name[:-1] if name.endswith("_") and not name.endswith("__") else name
    if name in ("resize_", "set_", "detach_", "requires_grad_", "squeeze_", "unsqueeze_", "t_", "transpose_", "as_strided_",
                "swapaxes_", "swapdims_"):
        return func(*args, **kwargs)
    for d in dests:
        if d.numel():
            sh._ent(d)
    fargs = {k: v for k, v in A.items() if not (k in mut and k == "out")}
    r = encode_named(sh, func, base, {k: v for k, v in A.items() if k not in mut or k == "self"})
    if r is None:
        raise Unsupported(f"aten.{name} (in-place) has no encoding")
    shapes = [tuple(d.shape) for d in dests]
    out = func(*args, **kwargs)
    for d, a, s0 in zip(dests, r, shapes):
        k = shd.dt_kind(d.dtype)
        a = np.asarray(a, dtype=object)
        if tuple(d.shape) != s0:           # resized out=
            sh.put(d, shd.cast_arr(a.reshape(tuple(d.shape)), k))
            continue
        a = np.broadcast_to(a, tuple(d.shape))
        a = shd.cast_arr(a, k) if a.size else a
        if d.numel():
            sh.view(d)[...] = np.array(a, dtype=object, copy=True)
            resync(sh, d, np.asarray(a, dtype=object), k)
    return out


def _is_alias(o, args):
    for t in S()._tensors(args):
        if t.untyped_storage()._cdata == o.untyped_storage()._cdata:
            return True
    return False


def encode_named(sh, func, base, A):
    if base in HAND and HAND[base] is not None:
        r = HAND[base](sh, func, A)
    elif base in UNARY:
        r = uf(UNARY[base], 1)(arr(sh, A["self"]))
    elif base in BINARY and BINARY[base] is not None:
        vals = list(A.values())
        r = uf(BINARY[base], 2)(arr(sh, vals[0]), arr(sh, vals[1]))
    elif base in MOVE and MOVE[base] is not None:
        names = list(A)
        pkt = getattr(aten, base)
        data = []
        for n in MOVE[base]:
            v = A[n]
            data += list(v) if isinstance(v, (list, tuple)) else [v]
        pos = [A[n] for n in names]
        r = label_run(sh, lambda *a: pkt(*a), tuple(pos), {}, data)
    else:
        return None
    return r if isinstance(r, list) else [r]


def decompose(sh, func, args, kwargs):
    global _DECOMP
    if _DECOMP is None:
        from torch._decomp import decomposition_table
        _DECOMP = decomposition_table
    d = _DECOMP.get(func)
    if d is None:
        try:
            with sh:
                r = func.decompose(*args, **kwargs)
            return r
        except Unsupported:
            raise
        except Exception:
            return NotImplemented
    with sh:
        return d(*args, **kwargs)
