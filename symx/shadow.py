"""
Shadow memory for torch tensors.

A TorchDispatchMode that sits below the whole torch front end (Python API, composite
ops, autograd) and above the kernels.  Every tensor that runs under it is an ordinary
torch tensor (the *carrier*) whose storage may have a *shadow*: a flat object array
holding one symbolic element per storage slot.  Views therefore need no modelling: a
view's shadow is the strided view of its storage's shadow.  Every non-view op that
touches a shadowed tensor is executed on the carriers (which fixes shape, dtype,
aliasing and raises torch's own errors) and encoded on the shadows.
"""
import math
import numpy as np
import torch
from fractions import Fraction
from torch.utils._python_dispatch import TorchDispatchMode
from torch.overrides import TorchFunctionMode
from . import terms as tm
from .terms import Unsupported, is_t, obj, T

aten = torch.ops.aten
_as_strided = np.lib.stride_tricks.as_strided
INT_DTYPES = (torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64)


def lift_array(a):
    """concrete numpy array -> object array of exact elements"""
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = tm.norm(af[i])
    return out.reshape(a.shape)


def dt_kind(dt):
    if dt == torch.bool:
        return "B"
    if dt.is_floating_point:
        return "R"
    if dt.is_complex:
        return "C"
    return "I"


def cast_elem(x, kind):
    if kind == "R":
        return tm.as_num(x)
    if kind == "I":
        x = tm.as_num(x)
        return tm.trunc(x)
    if kind == "B":
        return tm.to_bool(x)
    raise Unsupported("complex dtype")


def cast_arr(a, kind):
    f = np.frompyfunc(lambda x: cast_elem(x, kind), 1, 1)
    r = f(a)
    return r if isinstance(r, np.ndarray) else obj(r)


class SReal:
    """symbolic Python number handed to the code under test (real- or int-valued)"""
    _is_int = False

    def __init__(self, t, ctx):
        self.t, self.ctx = t, ctx

    # -- helpers
    def _w(self, t):
        if not is_t(t) and not isinstance(t, bool) and not self._is_int:
            return SReal(t, self.ctx)       # stays a numpy-object-friendly number (has .exp() etc.)
        return wrap_py(t, self.ctx)

    @staticmethod
    def _of(o):
        if isinstance(o, SReal):
            return o.t
        if isinstance(o, torch.Tensor) or isinstance(o, np.ndarray):
            return None
        if isinstance(o, (int, float, Fraction, np.integer, np.floating, np.bool_)):
            return tm.norm(o)
        return None

    def _tensor(self):
        return self.ctx.scalar_tensor(self.t)

    def _bin(self, o, f, rev=False, tf=None):
        if isinstance(o, torch.Tensor) and tf is not None:
            a, b = (o, self._tensor()) if rev else (self._tensor(), o)
            return tf(a, b)
        v = self._of(o)
        if v is None:
            return NotImplemented
        return self._w(f(v, self.t) if rev else f(self.t, v))

    def __add__(self, o): return self._bin(o, tm.add, tf=torch.add)
    def __radd__(self, o): return self._bin(o, tm.add, True, tf=torch.add)
    def __sub__(self, o): return self._bin(o, tm.sub, tf=torch.sub)
    def __rsub__(self, o): return self._bin(o, tm.sub, True, tf=torch.sub)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return o * self.__index__()
        return self._bin(o, tm.mul, tf=torch.mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return o * self.__index__()
        return self._bin(o, tm.mul, True, tf=torch.mul)
    def __truediv__(self, o): return self._bin(o, self._div, tf=torch.div)
    def __rtruediv__(self, o): return self._bin(o, self._div, True, tf=torch.div)
    def __floordiv__(self, o): return self._bin(o, self._idiv)
    def __rfloordiv__(self, o): return self._bin(o, self._idiv, True)
    def __mod__(self, o): return self._bin(o, self._imod)
    def __rmod__(self, o): return self._bin(o, self._imod, True)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)

    def __pow__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.pow(self._tensor(), o)
        return self._bin(o, tm.power)

    def __rpow__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.pow(o, self._tensor())
        return self._bin(o, tm.power, True)

    def _nz(self, b):
        if is_t(b):
            if self.ctx.decide(tm.eq(b, 0)):
                raise ZeroDivisionError("division by zero")
        elif b == 0:
            raise ZeroDivisionError("division by zero")

    def _div(self, a, b):
        self._nz(b)
        return tm.div(a, b)

    def _idiv(self, a, b):
        self._nz(b)
        return tm.idiv(a, b)

    def _imod(self, a, b):
        self._nz(b)
        return tm.imod(a, b)

    def __neg__(self): return self._w(tm.neg(self.t))
    def __pos__(self): return self
    def __abs__(self): return self._w(tm.absv(self.t))
    def __floor__(self): return self._w(tm.floor(self.t))
    def __ceil__(self): return self._w(tm.ceil(self.t))
    def __trunc__(self): return self._w(tm.trunc(self.t))

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Unsupported("round to digits")
        return self._w(tm.roundv(self.t))

    # numpy object-array hooks (np.exp(obj) calls .exp())
    def exp(self): return self._w(tm.exp(self.t))
    def log(self): return self._w(tm.log(self.t))
    def log10(self): return self._w(tm.div(tm.log(self.t), tm.log(10)))
    def log2(self): return self._w(tm.div(tm.log(self.t), tm.log(2)))
    def sqrt(self): return self._w(tm.sqrt(self.t))
    def arctan(self): return self._w(tm.fn("atan", self.t))
    def sin(self): return self._w(tm.fn("sin", self.t))
    def cos(self): return self._w(tm.fn("cos", self.t))
    def tan(self): return self._w(tm.fn("tan", self.t))
    def degrees(self): return self * (180 / math.pi)
    def radians(self): return self * (math.pi / 180)
    rad2deg, deg2rad = degrees, radians
    def square(self): return self * self
    def fabs(self): return abs(self)
    def exp2(self): return self._w(tm.exp(tm.mul(self.t, tm.log(2))))
    def conjugate(self): return self

    # comparisons decide a branch
    def _cmp(self, o, f, tf):
        if isinstance(o, torch.Tensor):
            return tf(self._tensor(), o)
        v = self._of(o)
        if v is None:
            return NotImplemented
        return self.ctx.decide(f(self.t, v))

    def __lt__(self, o): return self._cmp(o, tm.lt, torch.lt)
    def __le__(self, o): return self._cmp(o, tm.le, torch.le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: tm.lt(b, a), torch.gt)
    def __ge__(self, o): return self._cmp(o, lambda a, b: tm.le(b, a), torch.ge)

    def __eq__(self, o):
        r = self._cmp(o, tm.eq, torch.eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if isinstance(o, torch.Tensor):
            return torch.ne(self._tensor(), o)
        return not self.__eq__(o)

    def __hash__(self):
        # used by set()/dict(): structure must be concrete
        return hash(self.__index__() if self._is_int else self.ctx.concretize(self.t))

    def __bool__(self):
        return not self.ctx.decide(tm.eq(self.t, 0))

    def __int__(self):
        return int(self.ctx.concretize(tm.trunc(self.t)))

    def __float__(self):
        return float(self.ctx.concretize(self.t))

    def to_int(self): return self if self._is_int else self._w(tm.trunc(self.t))
    def to_float(self): return self if not self._is_int else SReal(tm.as_num(self.t), self.ctx)

    def __repr__(self):
        return f"<sym {self.t!r}>"

    def __format__(self, spec):
        return repr(self)

    def item(self): return self

    @property
    def __class__(self):
        return float

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        raise Unsupported(f"symbolic number passed to {func} outside the function mode")


class SInt(SReal):
    _is_int = True

    def __index__(self):
        return int(self.ctx.concretize(self.t))

    def bit_length(self): return self.__index__().bit_length()

    @property
    def numerator(self): return self

    @property
    def denominator(self): return 1

    @property
    def __class__(self):
        return int


def is_sym(o):
    return issubclass(type(o), SReal)


def wrap_py(t, ctx):
    if not is_t(t):
        if isinstance(t, Fraction):
            return float(t) if Fraction(float(t)) == t else SReal(t, ctx)
        return t
    if t.sort == "B":
        return ctx.decide(t)
    return SInt(t, ctx) if t.sort == "I" else SReal(t, ctx)


class Shadow(TorchDispatchMode):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.mem = {}           # storage cdata -> (storage, flat object array, itemsize)
        self.keep = []          # keeps tensors alive so cdata is never reused
        self.ops = {}           # op name -> count (evidence)
        self.undef = 0

    # ---------------------------------------------------------------- memory
    def has(self, t):
        return t.untyped_storage()._cdata in self.mem

    def _ent(self, t):
        st = t.untyped_storage()
        e = self.mem.get(st._cdata)
        if e is None:
            n = st.nbytes() // t.element_size()
            with _off():
                full = torch.empty(0, dtype=t.dtype).set_(st, 0, (n,), (1,))
                full = full.detach()
                flat = lift_array(full.float().numpy() if full.dtype == torch.bfloat16 else full.numpy())
            e = (st, flat, t.element_size())
            self.mem[st._cdata] = e
        if e[2] != t.element_size():
            raise Unsupported("reinterpreted storage")
        return e

    def view(self, t):
        """object-array view of t's shadow (writable, aliasing)"""
        flat = self._ent(t)[1]
        off = t.storage_offset()
        if t.numel() == 0:
            return np.empty(tuple(t.shape), dtype=object)
        return _as_strided(flat[off:], shape=tuple(t.shape), strides=tuple(s * 8 for s in t.stride()))

    def get(self, t):
        """elements of t (lifting constants when t has no shadow); may alias, treat as read-only"""
        if self.has(t):
            return self.view(t)
        with _off():
            d = t.detach()
            if d.is_conj() or d.is_neg():
                d = d.resolve_conj().resolve_neg()
            return lift_array(d.numpy()) if t.dtype != torch.bfloat16 else lift_array(d.float().numpy())

    def put(self, t, arr):
        """bind a freshly produced tensor to its elements"""
        arr = np.asarray(arr, dtype=object)
        if tuple(arr.shape) != tuple(t.shape):
            raise Unsupported(f"encoding produced shape {arr.shape}, torch produced {tuple(t.shape)}")
        st = t.untyped_storage()
        n = st.nbytes() // t.element_size()
        flat = np.empty(n, dtype=object)
        flat[:] = 0
        self.mem[st._cdata] = (st, flat, t.element_size())
        self.keep.append(t)
        if t.numel():
            v = _as_strided(flat[t.storage_offset():], shape=tuple(t.shape), strides=tuple(s * 8 for s in t.stride()))
            v[...] = arr

    def is_const(self, t):
        return not self.has(t) or not any(is_t(x) for x in self.view(t).reshape(-1))

    # ---------------------------------------------------------------- dispatch
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[1]
        self.ctx.tick()
        h = FACTORY.get(name)
        if h is not None:
            return h(self, func, args, kwargs)
        flat = list(_tensors(args)) + list(_tensors(tuple(kwargs.values())))
        if not any(self.has(t) for t in flat):
            out = func(*args, **kwargs)
            return out
        self.ops[name] = self.ops.get(name, 0) + 1
        return run_op(self, func, name, args, kwargs)


class _off:
    """temporarily leave every mode"""

    def __enter__(self):
        self.a = torch.utils._python_dispatch._disable_current_modes()
        self.a.__enter__()
        self.b = torch._C.DisableTorchFunction()
        self.b.__enter__()
        return self

    def __exit__(self, *e):
        self.b.__exit__(*e)
        self.a.__exit__(*e)


def _tensors(o):
    if isinstance(o, torch.Tensor):
        yield o
    elif isinstance(o, (list, tuple)):
        for x in o:
            yield from _tensors(x)


# ---------------------------------------------------------------- factories
def _f_empty(sh, func, args, kwargs):
    out = func(*args, **kwargs)
    k = dt_kind(out.dtype)
    a = np.empty(tuple(out.shape), dtype=object)
    if k == "C":
        raise Unsupported("complex")
    it = a.reshape(-1) if a.ndim else None
    vals = []
    for i in range(a.size):
        x, v = sh.ctx.fresh("undef", k)
        sh.undef += 1
        vals.append((x, v))
    if a.ndim == 0:
        a[()] = vals[0][0]
    else:
        for i in range(a.size):
            it[i] = vals[i][0]
        a = it.reshape(a.shape)
    sh.put(out, a)
    if a.size:
        with _off():
            flat = torch.tensor([float(v) if k == "R" else v for _, v in vals], dtype=out.dtype)
            out.copy_(flat.reshape(out.shape))
    return out


def _bounded_int(sh, out, lo, hi):
    """every element an arbitrary integer in [lo, hi)"""
    a = np.empty(out.numel(), dtype=object)
    vs = []
    for i in range(a.size):
        x, v = sh.ctx.fresh("rng", "I", lo, hi - 1)
        a[i] = x
        vs.append(v)
    sh.put(out, a.reshape(tuple(out.shape)))
    with _off():
        out.copy_(torch.tensor(vs, dtype=out.dtype).reshape(out.shape))
    return out


def _bounded_real(sh, out, lo=None, hi=None, kind="R", tag="rng"):
    a = np.empty(out.numel(), dtype=object)
    vs = []
    for i in range(a.size):
        x, v = sh.ctx.fresh(tag, kind, lo, hi)
        a[i] = x
        vs.append(float(v))
    a = a.reshape(tuple(out.shape))
    if sh.has(out):
        sh.view(out)[...] = a
    else:
        sh.put(out, a)
    with _off():
        out.copy_(torch.tensor(vs, dtype=torch.float64).reshape(out.shape).to(out.dtype))
    return out


def _f_randint(sh, func, args, kwargs):
    ints = [a for a in args if isinstance(a, int)]
    lo, hi = (0, ints[0]) if len(ints) == 1 else ints[:2]
    return _bounded_int(sh, func(*args, **kwargs), lo, hi)


def _f_random_(sh, func, args, kwargs):
    out = func(*args, **kwargs)
    ints = [a for a in args[1:] if isinstance(a, int)]
    if not ints:
        lo, hi = 0, 2 ** 31 - 1
    elif len(ints) == 1:
        lo, hi = 0, ints[0]
    else:
        lo, hi = ints[:2]
    if sh.has(out):
        sh.mem.pop(out.untyped_storage()._cdata)
    return _bounded_int(sh, out, lo, hi)


def _f_randn(sh, func, args, kwargs):
    return _bounded_real(sh, func(*args, **kwargs), -8, 8, tag="normal")


def _f_rand(sh, func, args, kwargs):
    return _bounded_real(sh, func(*args, **kwargs), 0, Fraction(1023, 1024), tag="uniform")


def _f_normal_(sh, func, args, kwargs):
    out = func(*args, **kwargs)
    mean = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
    std = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
    tmp = np.empty(out.numel(), dtype=object)
    vs = []
    for i in range(out.numel()):
        x, v = sh.ctx.fresh("normal", "R", -8, 8)
        tmp[i] = tm.add(tm.norm(mean), tm.mul(tm.norm(std), x))
        vs.append(mean + std * float(v))
    a = tmp.reshape(tuple(out.shape))
    if sh.has(out):
        sh.view(out)[...] = a
    else:
        sh._ent(out)
        sh.view(out)[...] = a
    with _off():
        out.copy_(torch.tensor(vs, dtype=torch.float64).reshape(out.shape).to(out.dtype))
    return out


def _f_uniform_(sh, func, args, kwargs):
    out = func(*args, **kwargs)
    lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
    hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
    if not sh.has(out):
        sh._ent(out)
    return _bounded_real(sh, out, tm.norm(lo), tm.norm(hi), tag="uniform")


def _f_normal(sh, func, args, kwargs):
    """torch.normal: mean and std tensors or numbers"""
    out = func(*args, **kwargs)
    A = list(args) + [None, None]
    mean, std = (sh.get(v) if isinstance(v, torch.Tensor) else np.array(tm.norm(v if v is not None else d), dtype=object)
                 for v, d in ((A[0] if args else kwargs.get("mean"), 0.0), (A[1] if len(args) > 1 else kwargs.get("std"), 1.0)))
    shape = tuple(out.shape)
    mean, std = np.broadcast_to(mean, shape).reshape(-1), np.broadcast_to(std, shape).reshape(-1)
    a = np.empty(out.numel(), dtype=object)
    vs = []
    for i in range(a.size):
        x, v = sh.ctx.fresh("normal", "R", -8, 8)
        a[i] = tm.add(mean[i], tm.mul(std[i], x))
        vs.append(float(sh.ctx.ev(a[i])))
    sh.put(out, a.reshape(shape))
    with _off():
        out.copy_(torch.tensor(vs, dtype=torch.float64).reshape(shape).to(out.dtype))
    return out


def _f_poisson(sh, func, args, kwargs):
    """arbitrary nonnegative integer, 0 where the rate is 0"""
    x = args[0]
    rate = sh.get(x)
    with _off():
        out = torch.empty_like(x)
    a = np.empty(out.numel(), dtype=object)
    vs = []
    rf = rate.reshape(-1)
    for i in range(a.size):
        v_t, v = sh.ctx.fresh("poisson", "I", 0, 50)
        sh.ctx.log_stub("poisson", rf[i], v_t)
        r0 = rf[i]
        a[i] = tm.ite(tm.eq(r0, 0), 0, tm.as_num(v_t)) if is_t(r0) else (0 if r0 == 0 else v_t)
        vs.append(float(sh.ctx.ev(a[i])))
    sh.put(out, a.reshape(tuple(out.shape)))
    with _off():
        out.copy_(torch.tensor(vs, dtype=torch.float64).reshape(out.shape).to(out.dtype))
    return out


FACTORY = {
    "empty": _f_empty, "empty_like": _f_empty, "new_empty": _f_empty, "empty_strided": _f_empty,
    "new_empty_strided": _f_empty, "empty_permuted": _f_empty,
    "randint": _f_randint, "randint_like": _f_randint, "random_": _f_random_,
    "randn": _f_randn, "randn_like": _f_randn, "rand": _f_rand, "rand_like": _f_rand,
    "normal_": _f_normal_, "poisson": _f_poisson, "uniform_": _f_uniform_, "normal": _f_normal,
}
# autograd bookkeeping allocations are followed by a full copy; treating them as "undefined"
# is what we want: any leak of uninitialised memory shows up as a dependence on an undef var.


from .ops import run_op  # noqa: E402


class FMode(TorchFunctionMode):
    """front-end hook: symbolic Python numbers entering/leaving torch"""

    def __init__(self, sh):
        super().__init__()
        self.sh = sh

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        sh, ctx = self.sh, self.sh.ctx
        name = getattr(func, "__name__", str(func))
        if name in ("numpy", "__array__", "tolist") and isinstance(args[0], torch.Tensor):
            t = args[0]
            if sh.has(t) and not sh.is_const(t):
                if name == "tolist":
                    def rec(a):
                        return [rec(x) for x in a] if a.ndim else wrap_py(a[()], ctx)
                    return rec(np.array(sh.view(t)))
                if name == "numpy" or name == "__array__":
                    a = np.array(sh.view(t))
                    out = np.empty(a.shape, dtype=object)
                    for i in np.ndindex(a.shape):
                        out[i] = wrap_py(a[i], ctx)
                    return out
            return func(*args, **kwargs)
        if name in ("item", "__bool__", "__int__", "__float__", "__index__") and isinstance(args[0], torch.Tensor):
            t = args[0]
            if sh.has(t) and t.numel() == 1:
                e = sh.view(t).reshape(-1)[0]
                if is_t(e):
                    if name == "item":
                        return wrap_py(e, ctx)
                    if name == "__bool__":
                        return ctx.decide(tm.to_bool(e))
                    if name in ("__int__", "__index__"):
                        return int(ctx.concretize(tm.trunc(e)))
                    raise Unsupported("float() of a symbolic tensor")
            return func(*args, **kwargs)
        if name in ("tensor", "as_tensor", "asarray", "scalar_tensor") and args and not isinstance(args[0], torch.Tensor) \
                and _has_sym(args[0]):
            return self.make_tensor(args[0], kwargs)
        if _has_sym(args) or any(_has_sym(v) for v in kwargs.values()):
            if name == "add_" or name == "add" or name == "sub" or name == "sub_":
                if is_sym(kwargs.get("alpha")):
                    al = kwargs.pop("alpha")
                    o = args[1] * al._tensor() if isinstance(args[1], torch.Tensor) else args[1] * al
                    return func(args[0], o, *args[2:], **kwargs)
            if name in ("full",):
                out = torch.empty(*args[:1], **kwargs)
                out.copy_(args[1]._tensor())
                return out
            if name in ("arange", "linspace", "zeros", "ones", "reshape", "view", "expand", "narrow", "unfold", "roll",
                        "select", "repeat", "split", "chunk", "flip", "randint", "empty"):
                args = _map_sym(args, lambda s: s.__index__() if s._is_int else float(s))
                kwargs = {k: _map_sym(v, lambda s: s.__index__() if s._is_int else float(s)) for k, v in kwargs.items()}
            else:
                args = _map_sym(args, lambda s: s._tensor())
                kwargs = {k: _map_sym(v, lambda s: s._tensor()) for k, v in kwargs.items()}
                if name in ("mul", "div", "add", "sub", "rsub", "true_divide"):
                    pass
        return func(*args, **kwargs)

    def make_tensor(self, data, kwargs):
        sh = self.sh
        shape = []
        d = data
        while isinstance(d, (list, tuple, np.ndarray)) and not (isinstance(d, np.ndarray) and d.ndim == 0):
            shape.append(len(d))
            d = d[0]
        flat = []

        def rec(d, k):
            if k == len(shape):
                flat.append(d)
            else:
                if len(d) != shape[k]:
                    raise ValueError("expected sequence of equal length")
                for x in d:
                    rec(x, k + 1)
        rec(data, 0)
        dtype = kwargs.get("dtype")
        if dtype is None:
            dtype = torch.int64 if all((is_sym(x) and x._is_int) or (type(x) is int) for x in flat) else torch.get_default_dtype()
        out = torch.zeros(tuple(shape), dtype=dtype)
        arr = np.empty(len(flat), dtype=object)
        vals = []
        for i, x in enumerate(flat):
            arr[i] = cast_elem(x.t if is_sym(x) else tm.norm(x), dt_kind(dtype))
            vals.append(float(sh.ctx.ev(arr[i])))
        sh.put(out, arr.reshape(tuple(shape)))
        with _off():
            out.copy_(torch.tensor(vals, dtype=torch.float64).reshape(out.shape).to(dtype))
        return out


def _has_sym(o, depth=0):
    if is_sym(o):
        return True
    if type(o) in (list, tuple) and depth < 4:
        return any(_has_sym(x, depth + 1) for x in o)
    if type(o) is np.ndarray and o.dtype == object:
        return any(is_sym(x) for x in o.reshape(-1))
    return False


def _map_sym(o, f):
    if is_sym(o):
        return f(o)
    if type(o) is list:
        return [_map_sym(x, f) for x in o]
    if type(o) is tuple:
        return tuple(_map_sym(x, f) for x in o)
    return o
