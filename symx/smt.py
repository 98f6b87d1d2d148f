"""Terms -> z3, and solver bookkeeping."""
import sys, time
_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _P not in sys.path:
    sys.path.append(_P)
import z3
from fractions import Fraction
from . import terms as tm
from .terms import T, is_t

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "max_query_s": 0.0}


def num(c, sort):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if sort == "I":
        return z3.IntVal(int(c))
    if isinstance(c, Fraction):
        return z3.Q(c.numerator, c.denominator)
    if isinstance(c, int):
        return z3.RealVal(c)
    raise tm.Unsupported(f"constant {c!r} has no real value")


class Conv:
    """one per solver: caches translations, collects side conditions (axioms of sqrt/exp/log/...)"""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.fns = {}
        self.apps = {}

    def _real(self, x):
        e = self.get(x)
        if z3.is_int(e):
            e = z3.ToReal(e)
        return e

    def arg(self, a, sort):
        if not is_t(a):
            return num(a, sort)
        e = self.memo[a.id]
        if sort == "R" and z3.is_int(e):
            return z3.ToReal(e)
        return e

    def get(self, t):
        if not is_t(t):
            if isinstance(t, bool):
                return z3.BoolVal(t)
            return num(t, "I" if isinstance(t, int) else "R")
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            todo = [k for k in tm.children(x) if k.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[x.id] = self._one(x)
            stack.pop()
        return self.memo[t.id]

    def _one(self, x):
        op = x.op
        if op == "var":
            name, sort = x.args
            return {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[sort](name)
        if op == "lin":
            s = x.sort
            parts = []
            for i, k in x.args[1]:
                a = self.arg(tm._by_id[i], s)
                parts.append(a if k == 1 else num(k, s) * a)
            if x.args[0] != 0:
                parts.append(num(x.args[0], s))
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "mono":
            parts = []
            for i, p in x.args:
                a = self.arg(tm._by_id[i], x.sort)
                parts += [a] * p
            return z3.Product(parts)
        if op == "inv":
            d = self.arg(x.args[0], "R")
            q = z3.FreshReal("q")
            # q * d = 1 whenever d != 0; unconstrained otherwise
            self.side.append(z3.Implies(d != 0, q * d == 1))
            return q
        if op == "ite":
            s = x.sort
            return z3.If(self.arg(x.args[0], "B"), self.arg(x.args[1], s), self.arg(x.args[2], s))
        if op == "floor":
            return z3.ToInt(self.arg(x.args[0], "R"))
        if op == "idiv":
            a, b = x.args
            if is_t(b) or b <= 0:
                # floor division with general divisor: q*b <= a < q*b + b (b>0) / mirrored (b<0)
                za, zb = self.arg(a, "I"), self.arg(b, "I")
                q = z3.FreshInt("fd")
                self.side.append(z3.Implies(zb > 0, z3.And(q * zb <= za, za < q * zb + zb)))
                self.side.append(z3.Implies(zb < 0, z3.And(q * zb >= za, za > q * zb + zb)))
                return q
            return self.arg(a, "I") / num(b, "I")
        if op == "fn":
            return self._fn(x)
        if op == "lt0":
            a = self.memo[x.args[0].id]
            return a < 0
        if op == "le0":
            return self.memo[x.args[0].id] <= 0
        if op == "eq0":
            return self.memo[x.args[0].id] == 0
        if op == "iff":
            return self.arg(x.args[0], "B") == self.arg(x.args[1], "B")
        if op == "not":
            return z3.Not(self.memo[x.args[0].id])
        if op == "and":
            return z3.And([self.arg(a, "B") for a in x.args])
        if op == "or":
            return z3.Or([self.arg(a, "B") for a in x.args])
        raise tm.Unsupported("z3 " + op)

    def _fn(self, x):
        name = x.args[0]
        args = [self.arg(a, "R") for a in x.args[1:]]
        if name == "sqrt":
            s = z3.FreshReal("sqrt")
            self.side.append(z3.Implies(args[0] >= 0, z3.And(s >= 0, s * s == args[0])))
            return s
        f = self.fns.get((name, len(args)))
        if f is None:
            f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(args) + 1)))
            self.fns[(name, len(args))] = f
        r = f(*args)
        if name == "exp":
            self.side.append(r > 0)
            self.side.append(z3.And(z3.Implies(args[0] < 0, r < 1), z3.Implies(args[0] > 0, r > 1),
                                    z3.Implies(args[0] == 0, r == 1)))
        if name == "log":
            k, fs = tm.product_of(x.args[1])
            if fs is not None and k > 0:            # logarithm of a product of positive factors
                parts = [self.get(tm.log(f)) if p == 1 else num(p, "R") * self.get(tm.log(f)) for f, p in fs]
                if k != 1:
                    parts.append(num(tm.log(k), "R"))
                self.side.append(z3.Implies(z3.And([self._real(f) > 0 for f, _ in fs]), r == z3.Sum(parts)))
            self.side.append(z3.Implies(args[0] == 1, r == 0))
            self.side.append(z3.Implies(args[0] > 0, z3.And(r <= args[0] - 1, r * args[0] >= args[0] - 1)))
        if name == "atan":
            self.side.append(z3.And(z3.Implies(args[0] > 0, z3.And(r > 0, r <= args[0])), z3.Implies(args[0] < 0, z3.And(r < 0, r >= args[0])),
                                    z3.Implies(args[0] == 0, r == 0), r < z3.Q(15708, 10000), r > z3.Q(-15708, 10000)))
        if name in ("exp", "log", "atan"):        # strictly increasing (on the domain)
            for a0, r0 in self.apps.get(name, []):
                dom = z3.BoolVal(True) if name != "log" else z3.And(args[0] > 0, a0 > 0)
                self.side.append(z3.Implies(z3.And(dom, a0 < args[0]), r0 < r))
                self.side.append(z3.Implies(z3.And(dom, a0 > args[0]), r0 > r))
                if name == "atan":                  # slope at most one
                    self.side.append(z3.Implies(a0 < args[0], r - r0 <= args[0] - a0))
                    self.side.append(z3.Implies(a0 > args[0], r0 - r <= a0 - args[0]))
            self.apps.setdefault(name, []).append((args[0], r))
        if name == "pow":
            self.side.append(z3.Implies(args[0] > 0, r > 0))
            self.side.append(z3.Implies(z3.And(args[0] == 0, args[1] > 0), r == 0))
            self.side.append(z3.Implies(args[1] == 1, r == args[0]))
            self.side.append(z3.Implies(z3.And(args[0] > 0, args[1] == 0), r == 1))
            self.side.append(z3.Implies(z3.And(args[0] > 0, args[0] < 1, args[1] > 0), r < 1))
            self.side.append(z3.Implies(z3.And(args[0] > 1, args[1] > 0), r > 1))
            for (b, p), v in tm.GROUND.items():
                if not is_t(x.args[2]) and x.args[2] == p:
                    self.side.append(z3.Implies(args[0] == num(b, "R"), r == num(v, "R")))
            self.side.append(z3.Implies(args[0] == 1, r == 1))
        return r

    def flush(self):
        s, self.side = self.side, []
        return s


class Solver:
    def __init__(self, timeout_ms=60000, logic=None):
        self.s = z3.Solver() if logic is None else z3.SolverFor(logic)
        self.s.set("timeout", timeout_ms)
        self.conv = Conv()

    def add(self, t):
        if t is True:
            return
        e = self.conv.get(t)
        for c in self.conv.flush():
            self.s.add(c)
        self.s.add(e)

    def define(self, t):
        """translate now, so its side conditions live at the current scope"""
        e = self.conv.get(t)
        for c in self.conv.flush():
            self.s.add(c)
        return e

    def check(self, *extra):
        es = [self.define(t) for t in extra if t is not True]
        t0 = time.time()
        r = self.s.check(*es)
        dt = time.time() - t0
        STATS["queries"] += 1
        STATS["time"] += dt
        STATS["max_query_s"] = max(STATS["max_query_s"], dt)
        STATS[str(r)] += 1
        return str(r)

    def model(self, varmap):
        """varmap: name -> sort"""
        m = self.s.model()
        out = {}
        for name, sort in varmap.items():
            v = {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[sort](name)
            e = m.eval(v, model_completion=False)
            if sort == "B":
                out[name] = z3.is_true(e) if z3.is_bool(e) and (z3.is_true(e) or z3.is_false(e)) else None
            elif z3.is_int_value(e):
                out[name] = e.as_long()
            elif z3.is_rational_value(e):
                out[name] = tm.norm(Fraction(e.numerator_as_long(), e.denominator_as_long()))
            elif z3.is_algebraic_value(e):
                a = e.approx(20)
                out[name] = tm.norm(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            else:
                out[name] = None            # not constrained: caller supplies a default
        return out
