"""
Path exploration and obligations.

``explore(harness, cfg)`` runs the harness repeatedly.  In each run every value that the
harness declares symbolic is a solver variable; Python- and kernel-level branches that
depend on one are recorded, and the untaken side of every branch is handed to the solver
until no feasible side is left (or a stated limit is hit, which is an error, never a
pass).  Each obligation is decided on every path by asking the solver for values that
satisfy the path condition and falsify it.
"""
import hashlib
import itertools
import math
import re
import time
import numpy as np
import torch
from fractions import Fraction
from . import terms as tm
from .terms import Unsupported, is_t, T, obj
from . import smt, state
from .shadow import Shadow, FMode, SReal, SInt, _off, wrap_py, dt_kind, is_sym


class Inconclusive(BaseException):
    pass


class RealFixed(BaseException):
    """the code under test turned a symbolic real into a machine float (float(), np.asarray)"""

    def __init__(self, names):
        self.names = names


class PathEnd(BaseException):
    """this run cannot continue (assumption cannot hold with the current values)"""


class Restart(BaseException):
    def __init__(self, model):
        self.model = model


class Violated(Exception):
    pass


def default_value(name, sort, lo, hi):
    """deterministic, scattered initial value"""
    h = int.from_bytes(hashlib.blake2b(name.encode(), digest_size=6).digest(), "big")
    if sort == "B":
        return bool(h & 1)
    if sort == "I":
        l, u = (lo if lo is not None else 0), (hi if hi is not None else (lo or 0) + 3)
        return l + h % (u - l + 1)
    l = Fraction(lo) if lo is not None else Fraction(-4)
    u = Fraction(hi) if hi is not None else (l + 8 if lo is not None else Fraction(4))
    if lo is None and hi is not None:
        l = u - 8
    k = 4096
    return tm.norm(l + (u - l) * Fraction(h % (k + 1), k))


class Options:
    timeout_ms = 60000
    max_paths = 4000
    max_seconds = 600
    max_conc = 64              # distinct values of one concretised expression along one path


class SymCtx:
    """one symbolic run"""
    symbolic = True

    fixed = frozenset()

    def __init__(self, model, prefix_len, opt, rep, excl=None):
        self.model = dict(model)
        self.excl = excl or {}
        self.known = {}
        self.decls = {}          # name -> (sort, lo, hi)
        self.pc = []             # list of ("d", cond, taken) | ("a", cond) | ("c", term, value)
        self.opt = opt
        self.rep = rep
        self.counter = {}
        self.obligations = 0
        self.prefix_len = prefix_len
        self.memo = {}
        self.deadline = None
        self.sh = None
        self.inputs = {}
        self.stubs = []
        self.cex = []
        self.solver = None
        self.solver_pos = 0
        self.ticks = 0

    # ---------------------------------------------------------- variables
    def tick(self):
        self.ticks += 1
        if self.deadline and self.ticks % 64 == 0 and time.time() > self.deadline:
            raise Inconclusive("time limit reached inside a path")

    def _declare(self, name, sort, lo=None, hi=None):
        v = tm.var(name, sort)
        if name not in self.decls:
            self.decls[name] = (sort, lo, hi)
            if sort == "R" and lo is not None and lo >= 0:
                tm.NONNEG.add(name)
            if self.model.get(name) is None:
                self.model[name] = default_value(name, sort, lo, hi)
            if sort != "B":
                if lo is not None:
                    self.pc.append(("a", tm.le(tm.norm(lo), v)))
                if hi is not None:
                    self.pc.append(("a", tm.le(v, tm.norm(hi))))
        return v

    def fresh(self, tag, kind, lo=None, hi=None):
        n = self.counter.get(tag, 0)
        self.counter[tag] = n + 1
        name = f"{tag}!{n}"
        v = self._declare(name, kind, lo, hi)
        return v, self.model[name]

    def ev(self, t):
        return tm.ev(t, self.model, self.memo)

    def log_stub(self, kind, *terms):
        self.stubs.append((kind,) + terms)

    # ---------------------------------------------------------- harness-facing inputs
    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return SInt(self._declare(name, "I", lo, hi), self)

    def choice(self, name, options):
        """solver-chosen element of a finite list, concrete on each path"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.int(name, 0, len(options) - 1).__index__())]

    def bool(self, name):
        return self.decide(self._declare(name, "B"))

    def real(self, name, lo=None, hi=None):
        if name in self.fixed or re.sub(r"[0-9_]+$", "", name) in self.fixed:
            # a number the code insists on converting to a machine float: a few fixed values
            j = int(self.int("fixed_reals", 0, 3))
            v = float(default_value(f"{name}/{j}", "R", lo, hi))
            self.model[name] = tm.norm(v)
            return v
        return SReal(self._declare(name, "R", lo, hi), self)

    def tensor(self, name, shape, lo=None, hi=None, dtype=torch.float64, requires_grad=False):
        shape = tuple(int(s) for s in shape)
        k = dt_kind(dtype)
        a = np.empty(shape, dtype=object)
        vals = np.empty(shape, dtype=np.float64)
        for i in np.ndindex(*shape):
            nm = name + "".join(f"_{j}" for j in i)
            a[i] = self._declare(nm, k, lo, hi)
            vals[i] = float(self.model[nm])
        if not shape:
            nm = name
            a[()] = self._declare(nm, k, lo, hi)
            vals[()] = float(self.model[nm])
        with _off():
            t = torch.tensor(vals, dtype=torch.float64).to(dtype)
            if requires_grad:
                t = t.detach().requires_grad_(True)
        self.sh.put(t, a)
        self.inputs[name] = (t, a.copy())
        return t

    def elems(self, t):
        """elements of a tensor / number as object array (terms)"""
        if isinstance(t, torch.Tensor):
            return np.array(self.sh.get(t), dtype=object, copy=True)
        if is_sym(t):
            return obj(t.t)
        if isinstance(t, np.ndarray) and t.dtype == object:
            f = np.frompyfunc(lambda x: x.t if is_sym(x) else (x if is_t(x) else tm.norm(x)), 1, 1)
            r = f(t)
            return r if isinstance(r, np.ndarray) else obj(r)
        if isinstance(t, (list, tuple)):
            rows = [self.elems(x) for x in t]
            o = np.empty((len(rows),) + (rows[0].shape if rows else ()), dtype=object)
            for i, r in enumerate(rows):
                o[i] = r[()] if r.ndim == 0 else r
            return o
        return obj(tm.norm(t))

    def term(self, x):
        return x.t if is_sym(x) else (x if is_t(x) else tm.norm(x))

    def scalar_tensor(self, t):
        """0-dim tensor carrying a symbolic number"""
        with _off():
            v = self.ev(t) if is_t(t) else t
            isint = (t.sort == "I") if is_t(t) else isinstance(t, int)
            x = torch.tensor(int(v) if isint else float(v), dtype=torch.int64 if isint else torch.float64)
        self.sh.put(x, obj(t))
        return x

    # ---------------------------------------------------------- branching
    def decide(self, cond):
        if not is_t(cond):
            return bool(cond)
        if cond.id in self.known:
            return self.known[cond.id]
        taken = bool(self.ev(cond))
        self.pc.append(("d", cond, taken))
        self.known[cond.id] = taken
        return taken

    decide_any = decide

    def concretize(self, t):
        if not is_t(t):
            return t
        v = self.ev(t)
        if isinstance(v, float):
            raise Unsupported("concretising a transcendental value")
        if t.id in self.known:
            return self.known[t.id]
        ex = self.excl.get(len(self.pc), ())
        if t.sort == "R" and len(ex) >= 2:
            names = {n for n in tm.vars_of([t]) if self.decls.get(n, ("",))[0] == "R"}
            if names and all("!" not in n for n in names):
                raise RealFixed(names)
        if len(ex) >= self.opt.max_conc:
            raise Inconclusive(f"more than {self.opt.max_conc} values for {t!r}")
        self.pc.append(("c", t, v, ex))
        self.known[t.id] = v
        return v

    def assume(self, cond):
        cond = self._b(cond)
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.pc.append(("a", cond))
        if not self.ev(cond):
            r, m = self.solve([])
            if r == "sat":
                raise Restart(m)
            if r == "unsat":
                raise PathEnd()
            raise Inconclusive("assumption: solver returned unknown")

    def _b(self, c):
        if is_t(c) or isinstance(c, bool):
            return c
        if isinstance(c, np.bool_):
            return bool(c)
        raise Unsupported(f"not a condition: {c!r}")

    # ---------------------------------------------------------- solving
    @staticmethod
    def lit(e):
        if e[0] == "d":
            return e[1] if e[2] else tm.not_(e[1])
        if e[0] == "c":
            return tm.eq(e[1], tm.norm(e[2]))
        return e[1]

    def _sync(self):
        if self.solver is None:
            self.solver = smt.Solver(self.opt.timeout_ms)
        while self.solver_pos < len(self.pc):
            self.solver.add(self.lit(self.pc[self.solver_pos]))
            self.solver_pos += 1

    def solve(self, extra, pc=None, cap=10 ** 9):
        """is the path condition plus `extra` satisfiable?  (fresh scope per query)"""
        if pc is None:
            self._sync()
            s = self.solver
            s.s.push()
            conv_memo = dict(s.conv.memo), dict(s.conv.fns), {k: list(v) for k, v in s.conv.apps.items()}
            try:
                for t in extra:
                    s.add(t)
                r = self._check(s, cap)
                m = self._model(s) if r == "sat" else None
            finally:
                s.s.pop()
                s.conv.memo, s.conv.fns, s.conv.apps = conv_memo
            return r, m
        s = smt.Solver(self.opt.timeout_ms)
        for e in pc:
            s.add(self.lit(e))
        for t in extra:
            s.add(t)
        r = self._check(s)
        return r, (self._model(s) if r == "sat" else None)

    def refuted(self, cond, timeout_ms=20000):
        """
        is cond impossible?  Asked of a fresh solver that sees only the purely polynomial part of the path
        condition (dropping facts is sound for a refutation); nonlinear real arithmetic is decided there.
        """
        if not tm.polynomial(cond):
            return self.solve([cond])[0] == "unsat"
        s = smt.Solver(timeout_ms, logic="QF_NRA")
        for e in self.pc:
            l = self.lit(e)
            if tm.polynomial(l):
                s.add(l)
        s.add(cond)
        return self._check(s, timeout_ms) == "unsat"

    def _check(self, s, cap=10 ** 9):
        if self.deadline:
            left = int((self.deadline - time.time()) * 1000)
            if left < 50:
                raise Inconclusive("time limit reached")
            s.s.set("timeout", min(self.opt.timeout_ms, left, cap))
        return s.check()

    def _model(self, s):
        vm = {n: d[0] for n, d in self.decls.items()}
        m = s.model(vm)
        return {n: v for n, v in m.items() if v is not None}

    # ---------------------------------------------------------- obligations
    def check(self, cond, what):
        """cond must hold for every value on this path"""
        self.obligations += 1
        self.rep["obligations"] += 1
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                self.cex.append((dict(self.model), what))
                raise Violated(what)
            cond = True
        self._discharge([tm.not_(cond)] if cond is not True else [False], what)

    def lemma(self, cond, what):
        """prove cond, then let the solver use it"""
        self.check(cond, what)
        if is_t(cond):
            self.pc.append(("a", cond))

    def fail(self, what):
        self.check(False, what)

    def _discharge(self, neg, what, nice=None):
        n = tm.or_(*neg)
        if is_t(n) and self.ev(n) is True:
            # the values of this very run already falsify it: the solver only confirms the path
            pins = [tm.eq(tm.var(k, d[0]), tm.norm(self.model[k])) if d[0] != "B" else
                    (tm.var(k, "B") if self.model[k] else tm.not_(tm.var(k, "B"))) for k, d in self.decls.items()]
            if self.solve(pins)[0] == "sat":
                self.cex.append((dict(self.model), what))
                raise Violated(what)
        r, m = self.solve([n], cap=15000)
        if r == "unknown":
            # piece by piece: nonlinear arithmetic decides the polynomial ones, then the full time limit
            rest = []
            for d in (n.args if is_t(n) and n.op == "or" else [n]):
                if not (is_t(d) and tm.polynomial(d) and self.refuted(d)):
                    rest.append(d)
            if rest and self._split(tm.or_(*rest)):
                r, m = "unsat", None
            else:
                r, m = self.solve([tm.or_(*rest)]) if rest else ("unsat", None)
        if r == "unsat":
            self.rep["discharged"] += 1
            return
        if r == "unknown":
            raise Inconclusive(f"solver returned unknown on: {what}")
        if nice is not None:
            r2, m2 = self.solve([tm.or_(*nice)] + self._nice_bounds())
            if r2 == "sat":
                m = m2
        full = {k: v for k, v in self.model.items()}
        full.update(m)
        self.cex.append((full, what))
        raise Violated(what)

    def _split(self, n, seconds=90):
        """is n impossible?  Case by case over the comparisons that its conditional parts switch on, each case
        simplified before the solver sees it; False when it is not shown."""
        if not is_t(n):
            return n is False
        end = time.time() + seconds
        n, roots = tm.square_roots(n)
        if not all(self._split(tm.lt(v, 0), seconds / 2) for v in roots):
            return False
        lin = smt.Solver(5000)
        for e in self.pc:
            l = self.lit(e)
            if is_t(l) and tm.polynomial(l) and tm.linear(l):
                lin.add(l)
        base = len(self.pc)

        def go(t, conds):
            if time.time() > end:
                return False
            c = tm.inner_condition(t)
            if c is None:
                if not is_t(t):
                    return t is False
                if not tm.polynomial(t):
                    return self.solve(conds + [t], cap=5000)[0] == "unsat"
                s = smt.Solver(10000, logic="QF_NRA")
                for x in [self.lit(e) for e in self.pc[:base]] + conds + [t]:
                    if tm.polynomial(x):
                        s.add(x)
                return self._check(s, 10000) == "unsat"
            for v in (True, False):
                k = c if v else tm.not_(c)
                lin.s.push()
                keep = dict(lin.conv.memo)
                try:
                    if tm.linear(k):
                        lin.add(k)
                    if self._check(lin, 5000) == "unsat":
                        continue
                    if not go(tm.rebuild(t, {c.id: v, tm.not_(c).id: not v}), conds + [k]):
                        return False
                finally:
                    lin.s.pop()
                    lin.conv.memo = keep
            return True
        return go(n, [])

    def _nice_bounds(self):
        out = []
        for n, (sort, lo, hi) in self.decls.items():
            if sort == "R" and lo is None and hi is None:
                v = tm.var(n, "R")
                out += [tm.le(-16, v), tm.le(v, 16)]
        return out

    def equal(self, actual, expected, what, tol=None, rel=None, bound=None, use=False):
        """
        element-wise equality over the reals; `tol` allows |a-e| <= tol (floating-point
        constants inside the code under test) for inputs declared bounded.  With `use`, the proven
        equalities (exact ones only) are handed to the solver for later questions.
        """
        if use:
            assert tol is None
            self.equal(actual, expected, what)
            for x, y in zip(self.elems(actual).reshape(-1), self.elems(expected).reshape(-1)):
                e = tm.eq(x, y)
                if is_t(e):
                    self.pc.append(("a", e))
            return
        a = self.elems(actual)
        e = self.elems(expected)
        if a.shape != e.shape:
            self.fail(f"{what}: shape {a.shape}, expected {e.shape}")
        self.crossval(actual, a, what)
        self.obligations += 1
        self.rep["obligations"] += 1
        neg, nice = [], []
        quot = []
        close = {}, {}
        for x, y in zip(a.reshape(-1), e.reshape(-1)):
            if isinstance(x, float) or isinstance(y, float):     # inf / nan
                same = (isinstance(x, float) and isinstance(y, float) and (x == y or (x != x and y != y)))
                if not same:
                    neg.append(True)
                continue
            bx = isinstance(x, bool) or (is_t(x) and x.sort == "B")
            by = isinstance(y, bool) or (is_t(y) and y.sort == "B")
            if bx and by:
                c = tm.not_(tm.eq(x, y))
                if c is False:
                    self.rep["identical"] += 1
                    continue
                neg.append(c)
                nice.append(c)
                continue
            x, y = tm.as_num(x), tm.as_num(y)
            d = tm.sub(x, y)
            if not is_t(d) and d == 0:
                self.rep["identical"] += 1
                self._pair(x, y)
                continue
            if is_t(d):
                d = tm.sub_close(tm.merge_close(x, *close), tm.merge_close(y, *close))
                if not is_t(d) and d == 0:
                    self.rep["identical"] += 1
                    continue
            pins = self._pins()
            if pins and is_t(d):
                d = tm.subst(d, pins)
                if not is_t(d) and d == 0:
                    self.rep["identical"] += 1
                    continue
            ex = tm.expand_logs(d) if is_t(d) else None
            slack = 0
            if ex is not None and all(self._positive(f) for f in ex[1]):
                d2, small = ex[0], 0
                if tol is not None and is_t(d2):
                    # rounding left in coefficients of logarithms (of doubles: below 750 in magnitude)
                    d2, small = tm.small_logs(d2, Fraction(1, 10 ** 11))
                    small *= 750
                if not is_t(d2) and small < Fraction(tol or 0) / 2:
                    d, slack = d2, small
                    if d == 0:
                        self.rep["identical"] += 1
                        continue
            if tol is None:
                neg.append(tm.not_(tm.eq(d, 0)))
            else:
                t = tm.norm(Fraction(tol) - slack)
                neg.append(tm.or_(tm.lt(t, d), tm.lt(d, tm.neg(t))))
            cl = None
            groups = tm.split_by_inverses(d) if is_t(d) else []
            if len(groups) > 1:
                # sufficient: every part vanishes by itself
                cls = [tm.clear_inverses(g) for g in groups]
                if all(k is not None and not is_t(k[0]) and k[0] == 0 for k in cls):
                    cl = (0, [x for k in cls for x in k[1]])
            if cl is None:
                cl = tm.clear_inverses(d)
            if cl is not None and (tol is None or (not is_t(cl[0]) and cl[0] == 0)):
                quot.append((len(neg) - 1, cl))
            m = Fraction(1, 8)
            nice.append(tm.or_(tm.lt(m, d), tm.lt(d, -m)))
        if quot and tm.or_(*neg) is not True:
            # fractions: where the solver shows that no denominator vanishes, compare numerators
            dens = list({d.id: d for _, cl in quot for d in cl[1] if is_t(d)}.values())
            if all(self.refuted(tm.eq(d, 0)) for d in dens):
                for i, (num, _) in quot:
                    neg[i] = tm.not_(tm.eq(num, 0))
        n = tm.or_(*neg)
        if n is True:
            self.cex.append((dict(self.model), what))
            raise Violated(what)
        pairs, self._pairs = getattr(self, "_pairs", []), []
        if n is False and quot and not pairs:
            self.rep["discharged"] += 1
            return
        if n is False:
            r = self._solve_pairs(pairs)
            if r == "unsat":
                self.rep["discharged"] += 1
                return
            raise Inconclusive(f"normal form and solver disagree on {what}: {r}")
        self._discharge([n], what, nice)

    def matches(self, actual, expected, tol=None):
        """is the equality shown?  No violation is raised when it is not"""
        n = len(self.cex)
        try:
            self.equal(actual, expected, "auxiliary equality", tol=tol)
            return True
        except (Violated, Inconclusive):
            del self.cex[n:]
            return False

    def _pins(self):
        """real variables that the path leaves a single value (bounds and comparisons with constants)"""
        n, pins, box = self.__dict__.setdefault("_pin", [0, {}, {}])
        for e in self.pc[n:]:
            l = self.lit(e)
            if is_t(l) and l.op in ("le0", "eq0") and is_t(l.args[0]):
                a = l.args[0]
                c, parts = tm._parts(a)
                if len(parts) != 1:
                    continue
                (v, k), = parts.items()
                if v.op != "var" or v.args[1] != "R":
                    continue
                b = tm.norm(-Fraction(c) / Fraction(k))
                lo, hi = box.get(v.args[0], (None, None))
                if l.op == "eq0" or k < 0:
                    lo = b if lo is None else max(lo, b)
                if l.op == "eq0" or k > 0:
                    hi = b if hi is None else min(hi, b)
                box[v.args[0]] = (lo, hi)
                if lo is not None and lo == hi:
                    pins[v.args[0]] = lo
        self._pin[0] = len(self.pc)
        return pins

    def _positive(self, f):
        memo = self.__dict__.setdefault("_pos", {})
        key = (f.id, len(self.pc))
        if key not in memo:
            memo[key] = (not self.ev(tm.le(f, 0))) and self.refuted(tm.le(f, 0))
        return memo[key]

    def _pair(self, x, y):
        if not hasattr(self, "_pairs"):
            self._pairs = []
        self._pairs.append((x, y))

    def _solve_pairs(self, pairs):
        """ask the solver for a value that separates any pair (both sides translated separately)"""
        import z3
        if self.solver is None:
            self.solver = smt.Solver(self.opt.timeout_ms)
        s = smt.Solver(self.opt.timeout_ms)
        cs = []
        for x, y in pairs:
            zx = s.conv.get(x) if is_t(x) else smt.num(x, "R")
            zy = s.conv.get(y) if is_t(y) else smt.num(y, "R")
            cs.append(zx != zy)
        for c in s.conv.flush():
            s.s.add(c)
        s.s.add(z3.Or(cs) if cs else z3.BoolVal(False))
        return s.check()

    def within(self, actual, lo, hi, what):
        a = self.elems(actual)
        self.obligations += 1
        self.rep["obligations"] += 1
        neg = []
        for x in a.reshape(-1):
            if lo is not None:
                neg.append(tm.lt(x, lo))
            if hi is not None:
                neg.append(tm.lt(hi, x))
        n = tm.or_(*neg)
        if n is True:
            self.cex.append((dict(self.model), what))
            raise Violated(what)
        if n is False:
            n = False
        self._discharge([n], what)

    def crossval(self, t, a, what):
        """carriers must agree with the encoding evaluated at the current values"""
        if not isinstance(t, torch.Tensor) or not t.numel() or not self.sh.has(t):
            return
        if self.rep["crossval"] > 4000 and self.rep["paths"] > 3:
            return
        with _off():
            c = t.detach().to(torch.float64).numpy() if t.dtype != torch.bool else t.detach().numpy()
        memo = self.memo
        tolr = {torch.float64: 1e-7, torch.float32: 1e-3}.get(t.dtype, 2e-2)
        for x, v in zip(a.reshape(-1), np.asarray(c).reshape(-1)):
            e = tm.ev(x, self.model, memo)
            if isinstance(e, (bool, np.bool_)):
                e = float(e)
            self.rep["crossval"] += 1
            e, v = float(e), float(v)
            if (e != e) or (v != v) or math.isinf(e) or math.isinf(v):
                continue
            if abs(e - v) > tolr * max(1.0, abs(e), abs(v)):
                self.cex.append((dict(self.model), f"{what}: kernel computed {v}, real arithmetic gives {e}"))
                raise Violated(what + " (kernel value differs from exact arithmetic)")

    # things the harness may ask for in both worlds
    def unchanged(self, t, name, what):
        a0 = self.inputs[name][1]
        self.equal(t, a0, what)

    def no_undef(self, t, what):
        """no dependence on uninitialised memory: two runs that differ only there agree"""
        a = self.elems(t)
        vs = tm.vars_of(list(a.reshape(-1)))
        und = [n for n in vs if n.startswith("undef!")]
        self.check(not und, f"{what}: depends on uninitialised memory {und[:3]}")

    def raises(self, exc, f, what):
        """f() must raise one of exc"""
        self.obligations += 1
        self.rep["obligations"] += 1
        try:
            r = f()
        except exc as e:
            ok = True
        except Exception as e:
            self.cex.append((dict(self.model), f"{what}: raised {type(e).__name__} instead"))
            raise Violated(what)
        else:
            self.cex.append((dict(self.model), f"{what}: accepted, returned a value"))
            raise Violated(what)
        self._discharge([False], what)

    # random draws the code made (stand-ins: any value the generator can produce)
    DRAWS = {"normal": ("R", -8, 8), "poisson": ("I", 0, 50), "rng": ("I", None, None), "uniform": ("R", 0, 1)}

    def draws(self, tag, n):
        return [tm.var(f"{tag}!{i}", self.DRAWS[tag][0]) if f"{tag}!{i}" in self.decls else 0 for i in range(n)]

    def stub_args(self, kind, n):
        got = [a[1] for a in self.stubs if a[0] == kind][:n]
        if len(got) < n:
            self.fail(f"only {len(got)} of {n} {kind} draws were made")
        return got

    def reach(self, name, value, every):
        """over all explored paths, every listed outcome must occur (judged when exploration is complete)"""
        self.obligations += 1
        r = self.rep.setdefault("reach", {}).setdefault(name, [set(), set(every)])
        if value not in r[1]:
            self.fail(f"{name}: {value} is not among the possible outcomes")
        r[0].add(value)

    # spec-side helpers (terms or numbers)
    def backward(self, y, grad=None):
        y.backward(grad) if grad is not None else y.backward()


class ConcreteCtx:
    """same interface on plain numbers: replays a counterexample on the real code"""
    symbolic = False

    def __init__(self, model):
        self.model = model
        self.inputs = {}
        self.failed = None
        self.obligations = 0

    def _v(self, name, sort, lo, hi):
        v = self.model.get(name)
        if v is None:
            v = default_value(name, sort, lo, hi)
        return v

    def int(self, name, lo, hi):
        return int(self._v(name, "I", lo, hi)) if lo != hi else lo

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def bool(self, name):
        return bool(self._v(name, "B", None, None))

    def real(self, name, lo=None, hi=None):
        return float(self._v(name, "R", lo, hi))

    def tensor(self, name, shape, lo=None, hi=None, dtype=torch.float64, requires_grad=False):
        shape = tuple(int(s) for s in shape)
        k = dt_kind(dtype)
        vals = np.empty(shape, dtype=np.float64)
        for i in np.ndindex(*shape):
            vals[i] = float(self._v(name + "".join(f"_{j}" for j in i), k, lo, hi))
        t = torch.tensor(vals, dtype=torch.float64).to(dtype)
        if requires_grad:
            t = t.detach().requires_grad_(True)
        self.inputs[name] = (t, self.elems(t))
        return t

    def elems(self, t):
        if isinstance(t, torch.Tensor):
            a = t.detach() if t.dtype != torch.bfloat16 else t.detach().float()
            return np.array(a.numpy().tolist(), dtype=object).reshape(tuple(a.shape)) if a.numel() else \
                np.empty(tuple(a.shape), dtype=object)
        if isinstance(t, (list, tuple)):
            return np.array(t, dtype=object)
        if isinstance(t, np.ndarray):
            return np.asarray(t, dtype=object)
        return obj(t)

    def term(self, x):
        return x

    def decide(self, c):
        return bool(c)

    def ev(self, t):
        return t

    def assume(self, c):
        if not c:
            raise PathEnd()

    def fail(self, what):
        self.check(False, what)

    def check(self, cond, what):
        self.obligations += 1
        if not cond:
            raise Violated(what)

    def equal(self, actual, expected, what, tol=None, rel=None, bound=None, use=False):
        self.obligations += 1
        a, e = self.elems(actual), self.elems(expected)
        if a.shape != e.shape:
            raise Violated(f"{what}: shape {a.shape}, expected {e.shape}")
        t = 1e-9 if tol is None else float(tol)
        if isinstance(actual, torch.Tensor) and actual.dtype == torch.float32:
            t = max(t, 1e-4)
        for i in np.ndindex(*a.shape):
            x, y = float(a[i]), float(e[i])
            if x != x and y != y:
                continue
            if x == y:
                continue
            if not abs(x - y) <= max(t, 1e-9 * max(abs(x), abs(y))):
                raise Violated(f"{what}: at {i} got {x}, expected {y}")

    def matches(self, actual, expected, tol=None):
        return False

    def within(self, actual, lo, hi, what):
        self.obligations += 1
        for x in self.elems(actual).reshape(-1):
            x = float(x)
            if (lo is not None and not x >= float(lo) - 1e-9) or (hi is not None and not x <= float(hi) + 1e-9):
                raise Violated(f"{what}: {x} outside [{lo}, {hi}]")

    def unchanged(self, t, name, what):
        self.equal(t, self.inputs[name][1], what)

    def lemma(self, cond, what):
        pass

    fill = None

    def draws(self, tag, n):
        k = SymCtx.DRAWS[tag]
        made = self.fill.counter.get(tag, 0) if self.fill else 0
        out = []
        for i in range(n):
            v = self.model.get(f"{tag}!{i}")
            out.append((float(v if v is not None else default_value(f"{tag}!{i}", *k))) if i < made else 0)
        return out

    def stub_args(self, kind, n):
        got = (self.fill.stubs if self.fill else [])[:n]
        if len(got) < n:
            raise Violated(f"only {len(got)} of {n} {kind} draws were made")
        return got

    def reach(self, name, value, every):
        """value: a function drawing one outcome from the real generator"""
        self.obligations += 1
        from torch.utils._python_dispatch import _disable_current_modes
        seen = set()
        with _disable_current_modes():
            g = torch.random.get_rng_state()
            torch.manual_seed(1)
            for _ in range(200 * len(every)):
                seen.add(value())
                if seen >= set(every):
                    break
            torch.random.set_rng_state(g)
        if not seen >= set(every):
            raise Violated(f"{name}: {sorted(set(every) - seen)[:4]} never came up in {200 * len(every)} draws")

    def no_undef(self, t, what):
        self.obligations += 1
        a = self.elems(t).reshape(-1)
        for x in a:
            if isinstance(x, float) and x != x:
                raise Violated(f"{what}: uninitialised memory in the result (NaN-filled allocation shows through)")
            if x == UNDEF_INT and not isinstance(x, bool):
                raise Violated(f"{what}: uninitialised memory in the result")

    def raises(self, exc, f, what):
        self.obligations += 1
        try:
            f()
        except exc:
            return
        except Exception as e:
            raise Violated(f"{what}: raised {type(e).__name__}: {e}")
        raise Violated(f"{what}: accepted, returned a value")

    def backward(self, y, grad=None):
        y.backward(grad) if grad is not None else y.backward()


UNDEF_INT = -7777777


class FillMode(torch.utils._python_dispatch.TorchDispatchMode):
    """replay only: memory from torch.empty is visibly undefined; random draws follow the model"""

    def __init__(self, model):
        super().__init__()
        self.model = model
        self.counter = {}
        self.stubs = []

    def _draw(self, tag, lo=None, hi=None, sort="R"):
        n = self.counter.get(tag, 0)
        self.counter[tag] = n + 1
        nm = f"{tag}!{n}"
        v = self.model.get(nm)
        return float(v if v is not None else default_value(nm, sort, lo, hi))

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[1]
        out = func(*args, **kwargs)
        if name in ("empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided", "empty_permuted"):
            if out.numel():
                out.fill_(float("nan") if out.dtype.is_floating_point else (True if out.dtype == torch.bool else
                          (UNDEF_INT if out.dtype in (torch.int32, torch.int64) else 111)))
        elif name in ("randint", "randint_like", "random_"):
            ints = [a for a in args if isinstance(a, int) and not isinstance(a, bool)]
            lo, hi = (0, ints[0]) if len(ints) == 1 else ((ints[0], ints[1]) if ints else (0, 2 ** 31 - 1))
            v = [self._draw("rng", lo, hi - 1, "I") for _ in range(out.numel())]
            v = [min(max(x, lo), hi - 1) for x in v]
            out.copy_(torch.tensor(v, dtype=torch.float64).reshape(out.shape).to(out.dtype))
        elif name in ("randn", "randn_like"):
            v = [self._draw("normal", -8, 8) for _ in range(out.numel())]
            out.copy_(torch.tensor(v, dtype=torch.float64).reshape(out.shape).to(out.dtype))
        elif name in ("rand", "rand_like"):
            v = [self._draw("uniform", 0, Fraction(1023, 1024)) for _ in range(out.numel())]
            out.copy_(torch.tensor(v, dtype=torch.float64).reshape(out.shape).to(out.dtype))
        elif name == "normal_":
            mean = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
            std = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
            v = [mean + std * self._draw("normal", -8, 8) for _ in range(out.numel())]
            out.copy_(torch.tensor(v, dtype=torch.float64).reshape(out.shape).to(out.dtype))
        elif name == "normal":
            mean = args[0] if args else kwargs.get("mean", 0.0)
            std = args[1] if len(args) > 1 else kwargs.get("std", 1.0)
            z = torch.tensor([self._draw("normal", -8, 8) for _ in range(out.numel())], dtype=torch.float64).reshape(out.shape)
            out.copy_((mean + std * z).to(out.dtype))
        elif name == "uniform_":
            lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
            hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
            v = [self._draw("uniform", tm.norm(lo), tm.norm(hi)) for _ in range(out.numel())]
            out.copy_(torch.tensor(v, dtype=torch.float64).reshape(out.shape).to(out.dtype))
        elif name == "poisson":
            r = args[0].detach().reshape(-1).tolist()
            self.stubs += r
            v = [self._draw("poisson", 0, 50, "I") for _ in range(out.numel())]
            v = [0.0 if q == 0 else x for q, x in zip(r, v)]
            out.copy_(torch.tensor(v, dtype=torch.float64).reshape(out.shape).to(out.dtype))
        return out


def new_report():
    return {"paths": 0, "branches": 0, "obligations": 0, "discharged": 0, "identical": 0, "crossval": 0, "ops": {},
            "infeasible": 0, "decls": 0, "queries": 0, "solver_s": 0.0, "max_query_s": 0.0, "unknown": 0, "sat": 0, "unsat": 0,
            "undef_cells": 0, "concretised": 0, "vacuous": 0, "restarts": 0, "samples": []}


def merge(a, b):
    for k, v in b.items():
        if k == "ops":
            for o, c in v.items():
                a["ops"][o] = a["ops"].get(o, 0) + c
        elif k == "max_query_s":
            a[k] = max(a[k], v)
        elif k == "samples":
            a[k] = (a[k] + v)[:6]
        else:
            a[k] = a.get(k, 0) + v
    return a


def explore(harness, cfg, opt=None):
    """-> (report, status, info): status 'ok' | 'violation' | 'inconclusive'"""
    fixed = frozenset()
    while True:
        try:
            rep, status, info = _explore(harness, cfg, opt or Options(), fixed)
            if fixed:
                rep["samples"].append({"numbers_fixed_because_the_code_converts_them_to_floats": sorted(fixed)})
            return rep, status, info
        except RealFixed as e:
            if e.names <= fixed:
                return finish(new_report()), "inconclusive", f"cannot keep {sorted(e.names)[:3]} symbolic"
            # siblings (k0_0, k0_1, ...) go with it
            stem = {re.sub(r"[0-9_]+$", "", n) for n in e.names}
            fixed = fixed | e.names | frozenset(stem)


def _explore(harness, cfg, opt, fixed):
    rep = new_report()
    for k in ("queries", "unsat", "sat", "unknown"):
        smt.STATS[k] = 0
    smt.STATS["time"] = smt.STATS["max_query_s"] = 0.0
    t_end = time.time() + opt.max_seconds
    work = [({}, 0, {})]
    status, info = "ok", None
    unreplayed = []
    try:
        while work:
            if rep["paths"] >= opt.max_paths:
                raise Inconclusive(f"more than {opt.max_paths} paths")
            if time.time() > t_end:
                raise Inconclusive("time limit")
            model, plen, excl = work.pop()
            restarts = 0
            while True:
                tm.reset()
                state.restore()
                ctx = SymCtx(model, plen, opt, rep, excl)
                ctx.deadline = t_end
                ctx.fixed = fixed
                sh = Shadow(ctx)
                ctx.sh = sh
                outcome = "done"
                try:
                    with FMode(sh):
                        with sh:
                            harness(ctx, cfg)
                except Restart as r:
                    restarts += 1
                    rep["restarts"] += 1
                    if restarts > 50:
                        raise Inconclusive("assumptions keep moving")
                    model = {**ctx.model, **r.model}
                    # a restart may leave decisions before the assumption unexplored: they are
                    # still enumerated below from the path that finally completes, because
                    # alternatives are generated for every decision from plen on
                    continue
                except PathEnd:
                    outcome = "end"
                except Violated:
                    outcome = "violated"
                except Unsupported:
                    raise
                except Exception as e:
                    import traceback
                    if isinstance(e, AssertionError) and getattr(e, "_spec", False):
                        raise
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f"{f.filename}:{f.lineno}" for f in tb if "/repo/" in f.filename][-1:]
                    outcome = "violated"
                    ctx.cex.append((dict(ctx.model), f"raised {type(e).__name__}: {e} at {where}\n" +
                                    "".join(traceback.format_tb(e.__traceback__)[-4:])))
                break
            rep["paths"] += 1
            for o, c in sh.ops.items():
                rep["ops"][o] = rep["ops"].get(o, 0) + c
            rep["undef_cells"] += sh.undef
            rep["decls"] = max(rep["decls"], len(ctx.decls))
            if outcome == "violated":
                for m, what in ctx.cex:
                    ok, msg = replay(harness, cfg, m)
                    if ok:
                        return finish(rep), "violation", {"model": m, "what": what, "replayed": msg}
                    unreplayed.append((what, msg))
                # the encoding found something the real code does not show: never a pass
                raise Inconclusive(f"counterexample did not reproduce on the real code: {unreplayed[0]}")
            if outcome == "done":
                if ctx.obligations == 0:
                    rep["vacuous"] += 1
                elif len(rep["samples"]) < 3:
                    rep["samples"].append({"path_condition": [repr(ctx.lit(e))[:160] for e in ctx.pc if e[0] != "a"][:6],
                                           "obligations": ctx.obligations, "symbolic_values": len(ctx.decls)})
            # alternatives, deepest first on the stack
            alts = branch(ctx, plen, rep, excl)
            work.extend(alts)
        for name, (seen, every) in rep.pop("reach", {}).items():
            rep["obligations"] += 1
            if every - seen:
                what = f"{name}: no draw produces {sorted(every - seen)[:4]}"
                ok, msg = replay(harness, cfg, {})
                if ok:
                    return finish(rep), "violation", {"model": {}, "what": what, "replayed": msg}
                raise Inconclusive(f"{what}, but the real code does: {msg}")
            rep["discharged"] += 1
        if rep["obligations"] == 0:
            raise Inconclusive("vacuous: no obligation was reached on any path")
    except Inconclusive as e:
        status, info = "inconclusive", str(e)
    except Unsupported as e:
        import traceback
        status, info = "inconclusive", f"unsupported: {e}\n" + "".join(traceback.format_tb(e.__traceback__)[-6:])
    return finish(rep), status, info


def finish(rep):
    rep.pop("reach", None)
    rep["queries"] += smt.STATS["queries"]
    rep["solver_s"] += smt.STATS["time"]
    rep["max_query_s"] = max(rep["max_query_s"], smt.STATS["max_query_s"])
    for k in ("unknown", "sat", "unsat"):
        rep[k] += smt.STATS[k]
    return rep


def branch(ctx, plen, rep, excl):
    """flip every branch after the prefix; returns new (model, prefix_len)"""
    out = []
    idx = [i for i in range(plen, len(ctx.pc)) if ctx.pc[i][0] in "dc"]
    if not idx:
        return out
    s = smt.Solver(ctx.opt.timeout_ms)
    for i in range(len(ctx.pc)):
        e = ctx.pc[i]
        if i >= plen and e[0] in "dc":
            rep["branches"] += 1
            s.s.push()
            memo = dict(s.conv.memo), dict(s.conv.fns), {k: list(v) for k, v in s.conv.apps.items()}
            if e[0] == "c":
                for v in e[3] + (e[2],):
                    s.add(tm.not_(tm.eq(e[1], tm.norm(v))))
            else:
                s.add(tm.not_(ctx.lit(e)))
            # declared ranges of variables introduced later do not constrain earlier ones
            r = ctx._check(s)
            if r == "sat":
                m = ctx._model(s)
                base = {k: v for k, v in ctx.model.items()}
                base.update(m)
                s.s.pop()
                s.conv.memo, s.conv.fns, s.conv.apps = memo
                ne = {k: v for k, v in excl.items() if k < i}
                if e[0] == "c":
                    rep["concretised"] += 1
                    ne[i] = e[3] + (e[2],)
                    out.append((base, i, ne))
                else:
                    out.append((base, i + 1, ne))
            elif r == "unknown":
                raise Inconclusive("branch feasibility: solver returned unknown")
            else:
                s.s.pop()
                s.conv.memo, s.conv.fns, s.conv.apps = memo
                rep["infeasible"] += 1
        s.add(ctx.lit(e))
    return out


def replay(harness, cfg, model):
    """-> (violated?, message) on the real code, no symbolic machinery"""
    ctx = ConcreteCtx(model)
    state.restore()
    try:
        with FillMode(model) as ctx.fill:
            harness(ctx, cfg)
    except Violated as v:
        return True, str(v)
    except PathEnd:
        return False, "outside the assumptions"
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename}:{f.lineno}" for f in tb if "/repo/" in f.filename][-1:]
        return True, f"raised {type(e).__name__}: {e} at {where}"
    return False, "the real code satisfies the property for these values"
