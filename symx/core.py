"""symx.core - forking symbolic execution of ordinary Python code over z3.

Scalars are `SB` (bool), `SI` (mathematical int) and `SF` (real extended with NaN / +-inf flags).
Control flow on a symbolic bool forks: the function under test is re-executed once per feasible
path; every fork is decided by the solver, and the solver is also what settles each assertion.
"""
from __future__ import annotations

import math
import operator
import os
import sys
import time
from fractions import Fraction

import numpy as np

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3  # noqa
except ImportError:  # pragma: no cover
    sys.path.append(_VT)
    import z3  # noqa


class Inconclusive(Exception):
    """The engine could not decide (solver unknown, unsupported operation, bound exceeded)."""


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class Found(BaseException):
    """A counterexample was found."""

    def __init__(self, label, model, detail=None):
        super().__init__(label)
        self.label, self.model, self.detail = label, model, detail


class Ctx:
    """Exploration state: one solver with a decision stack."""

    def __init__(self, timeout_ms=120000, max_paths=200000):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.decisions = []  # [cond, value, forced]
        self.pos = 0
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.max_paths = max_paths
        self.assertions = 0
        self.reached = {}
        self.fresh_n = 0
        self.deadline = None
        self.memo = {}

    # -- solver ---------------------------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        if self.deadline is not None and t > self.deadline:
            raise Inconclusive("time budget exhausted")
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            raise Inconclusive("solver: unknown (%s)" % self.solver.reason_unknown())
        return r == z3.sat

    def maybe(self, cond):
        """cheap feasibility test: False only when the solver refutes `cond` quickly"""
        self.solver.set("timeout", 200)
        t = time.time()
        try:
            r = self.solver.check(cond)
        finally:
            self.solver.set("timeout", self.timeout_ms)
        self.solver_s += time.time() - t
        self.queries += 1
        return r != z3.unsat

    def _same(self, c, cond):
        """re-execution must meet the same condition (structurally, else provably equivalent)"""
        if c.eq(cond):
            return
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(c != cond)
        if s.check() != z3.unsat:
            raise Inconclusive("non-deterministic re-execution")

    # -- decisions ------------------------------------------------------------------------
    def decide(self, cond):
        return self._decide_s(z3.simplify(cond))

    def _decide_s(self, cond):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.decisions):
            c, v, _ = self.decisions[self.pos]
            self._same(c, cond)
            self.pos += 1
            return v
        if TRACE:
            import traceback

            st = [f for f in traceback.extract_stack() if "/symx/" not in f.filename][-int(TRACE):]
            print("FORK", " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(st)), file=sys.stderr)
        can_t = self._check(cond)
        if not can_t:
            v, forced = False, True
        else:
            can_f = self._check(z3.Not(cond))
            v, forced = True, not can_f
        self.solver.push()
        self.solver.add(cond if v else z3.Not(cond))
        self.decisions.append([cond, v, forced])
        self.pos += 1
        return v

    def assume(self, cond):
        """Cut paths where `cond` is false (stated as an assumption of the harness)."""
        cond = as_bool_expr(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort()
        if self.pos < len(self.decisions):
            c, v, _ = self.decisions[self.pos]
            self._same(c, cond)
            self.pos += 1
            return
        if not self._check(cond):
            raise PathAbort()
        self.solver.push()
        self.solver.add(cond)
        self.decisions.append([cond, True, True])
        self.pos += 1

    def fresh(self, prefix, sort):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (prefix, self.fresh_n), sort)

    def backtrack(self):
        while self.decisions and (self.decisions[-1][2]):
            self.decisions.pop()
            self.solver.pop()
        if not self.decisions:
            return False
        d = self.decisions[-1]
        self.solver.pop()
        self.solver.push()
        d[1] = not d[1]
        d[2] = True
        self.solver.add(d[0] if d[1] else z3.Not(d[0]))
        return True

    # -- assertions -----------------------------------------------------------------------
    def check(self, cond, label, detail=None):
        """Assert `cond` on the current path for every value of the symbolic inputs."""
        self.assertions += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        e = as_bool_expr(cond)
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        self.solver.push()
        try:
            self.solver.add(z3.Not(e))
            if self._check():
                raise Found(label, self.nice_model(), detail)
        finally:
            self.solver.pop()

    def check_all(self, conds, label):
        """Assert a conjunction with one query (labels are refined on failure)."""
        pairs = [(l, as_bool_expr(c)) for l, c in conds]
        self.assertions += len(pairs)
        self.reached[label] = self.reached.get(label, 0) + 1
        es = [(l, z3.simplify(e)) for l, e in pairs]
        es = [(l, e) for l, e in es if not z3.is_true(e)]
        if not es:
            return
        self.solver.push()
        try:
            self.solver.add(z3.Not(z3.And([e for _, e in es])) if len(es) > 1 else z3.Not(es[0][1]))
            if self._check():
                m = self.nice_model()
                bad = [l for l, e in es if z3.is_false(m.eval(e, model_completion=True))]
                raise Found(label, m, bad[:5])
        finally:
            self.solver.pop()

    def nice_model(self):
        """Prefer a model whose real inputs are small dyadic rationals (exact in binary floats)."""
        m = self.solver.model()
        reals = [v for v in self.inputs_real()]
        if reals:
            for den in (1, 4, 64):
                self.solver.push()
                try:
                    for i, v in enumerate(reals):
                        self.solver.add(z3.IsInt(v * den))
                    self.solver.set("timeout", 15000)
                    t = time.time()
                    r = self.solver.check()
                    self.solver_s += time.time() - t
                    self.queries += 1
                    if r == z3.sat:
                        return self.solver.model()
                finally:
                    self.solver.set("timeout", self.timeout_ms)
                    self.solver.pop()
        return m

    def inputs_real(self):
        return getattr(self, "_real_inputs", [])

    def witness_model(self, seed=1, limit=60):
        """a model of the current path with varied inputs (pseudo-random dyadic values where feasible)"""
        import random

        rng = random.Random(seed * 1000003 + self.paths)
        pushed = 0
        self.solver.set("timeout", 5000)
        m = None
        try:
            for v in list(self.inputs_any())[:limit]:
                if z3.is_bool(v):
                    c = v if rng.random() < 0.5 else z3.Not(v)
                elif v.sort() == z3.RealSort():
                    lo, hi = self._bounds.get(v.get_id(), (None, None))
                    lo = -4 if lo is None else lo
                    hi = lo + 8 if hi is None else hi
                    c = v == rv(math.ceil(lo * 16) / 16 + rng.randrange(0, max(1, int((hi - lo) * 16))) / 16)
                else:
                    continue
                self.solver.push()
                self.solver.add(c)
                t = time.time()
                r = self.solver.check()
                self.solver_s += time.time() - t
                self.queries += 1
                if r == z3.sat:
                    m = self.solver.model()
                    pushed += 1
                else:
                    self.solver.pop()
        finally:
            for _ in range(pushed):
                self.solver.pop()
            self.solver.set("timeout", self.timeout_ms)
        if m is None:
            self._check()
            m = self.nice_model()
        return m

    def inputs_any(self):
        return getattr(self, "_real_inputs", []) + getattr(self, "_bool_inputs", [])


TRACE = os.environ.get('SYMX_TRACE')
CTX: Ctx = None


def ctx():
    return CTX


def explore(fn, timeout_ms=120000, max_paths=200000, budget_s=None):
    """Run fn() on every feasible path. Returns (ctx, Found|None)."""
    global CTX
    c = Ctx(timeout_ms, max_paths)
    if budget_s:
        c.deadline = time.time() + budget_s
    old = CTX
    CTX = c
    try:
        while True:
            c.pos = 0
            c.fresh_n = 0
            c.token = 0
            c._real_inputs, c._bool_inputs, c._bounds = [], [], {}
            c.paths += 1
            if c.paths > c.max_paths:
                raise Inconclusive("path bound exceeded (%d)" % c.max_paths)
            if c.deadline is not None and time.time() > c.deadline:
                raise Inconclusive("time budget exhausted after %d paths" % c.paths)
            try:
                fn()
            except PathAbort:
                pass
            except Found as f:
                return c, f
            if not c.backtrack():
                return c, None
    finally:
        CTX = old


# --------------------------------------------------------------------------------------------
# python-bool folding helpers
def b_not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b):
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else z3.Not(c)
    if a is True:
        return z3.Or(c, b)
    if a is False:
        return z3.And(z3.Not(c), b)
    if b is True:
        return z3.Or(z3.Not(c), a)
    if b is False:
        return z3.And(c, a)
    return z3.If(c, a, b)


def to_z3_bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def as_bool_expr(x):
    x = norm(x)
    if isinstance(x, SB):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (int, float)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (SI, SF)):
        return as_bool_expr(x.__ne__(0))
    raise TypeError("not a boolean: %r" % (type(x),))


def mk_bool(x):
    """python bool | z3 Bool -> python bool | SB"""
    if isinstance(x, bool):
        return x
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return SB(x)


_QCACHE = {}


def rv(x):
    """exact z3 real of a python number"""
    r = _QCACHE.get(x)
    if r is None:
        f = Fraction(x)
        r = z3.RatVal(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
        if len(_QCACHE) < 200000:
            _QCACHE[x] = r
    return r


def norm(x):
    """numpy scalars / 0-d arrays -> python scalars; sym values unchanged"""
    if isinstance(x, (SB, SI, SF, bool, int, float)):
        return x
    import numpy as np

    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return norm(x.item())
    if hasattr(x, "_symx_item"):
        return x._symx_item()
    return x


class Sym:
    __slots__ = ()
    __array_priority__ = 1000

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<%s>" % type(self).__name__

    __str__ = __repr__

    def __reduce__(self):
        raise Inconclusive("symbolic value pickled")


_OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}


def with_array(op, a, arr, swap):
    """symbolic scalar combined with a plain numpy array"""
    from .array import as_sym

    arr = as_sym(arr)
    return _OPS[op](arr, a) if swap else _OPS[op](a, arr)


def is_sym(x):
    return isinstance(x, Sym)


# ---------------------------------------------------------------- value summaries
MAX_ALTS = 48
PRUNE_AT = 12


def _alts_expr(alts, mk):
    e = mk(alts[-1][0])
    for v, g in reversed(alts[:-1]):
        e = z3.If(to_z3_bool(g), mk(v), e)
    return e


def alts_of(x):
    """[(const, guard)] for constants and summarised values, else None"""
    if isinstance(x, (bool, int)):
        return [(int(x), True)]
    if isinstance(x, float):
        return [(x, True)]
    if isinstance(x, SB):
        return [(1, x.e), (0, z3.Not(x.e))]
    if isinstance(x, (SI, SF)):
        return x.alts
    return None


def mk_alts(pairs):
    """merge equal values; constant when single"""
    d = {}
    for v, g in pairs:
        if g is False:
            continue
        k = "nan" if v != v else (v, math.copysign(1, v) if v == 0 and isinstance(v, float) else 0)
        if k in d:
            d[k][1].append(g)
        else:
            d[k] = (v, [g])
    flt = any(isinstance(v, float) for v, _ in d.values())
    out = [(float(v) if flt else int(v), b_or(*gs)) for v, gs in d.values()]
    if len(out) > PRUNE_AT and CTX is not None:
        out = [(v, g) for v, g in out if g is True or CTX.maybe(g)]
        if not out:
            raise PathAbort()
    if len(out) == 1:
        return out[0][0]
    return SF(alts=out) if flt else SI(None, out)


def _py_op(op, a, b):
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "div":
        if b == 0:
            if a == 0 or a != a:
                return math.nan
            return math.copysign(math.inf, a) * (math.copysign(1, b) if isinstance(b, float) else 1)
        return a / b
    if op == "fdiv":
        if b == 0:
            raise ZeroDivisionError
        return a // b if math.isfinite(a) and math.isfinite(b) else math.nan
    if op == "mod":
        if b == 0:
            raise ZeroDivisionError
        return a % b if math.isfinite(a) and math.isfinite(b) else math.nan
    return {"eq": a == b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]


def alts_op(op, a, b):
    """operate on value summaries; None when the general encoding has to be used"""
    x, y = alts_of(a), alts_of(b)
    cmp = op in ("eq", "lt", "le", "gt", "ge")
    if x is not None and y is not None:
        if len(x) * len(y) > 20 * MAX_ALTS:
            return None
        res = {}
        try:
            pairs = [(_py_op(op, u, w), b_and(g, h)) for u, g in x for w, h in y]
        except ZeroDivisionError:
            return None
        if cmp:
            t = [g for v, g in pairs if v]
            if len(t) == len(pairs):
                return True
            return mk_bool(b_or(*t))
        r = mk_alts(pairs)
        if is_sym(r) and len(r.alts) > MAX_ALTS:
            # too many values: fall back to a term, dropping the summary
            r = SF(r.v, r.nan, r.pinf, r.ninf) if isinstance(r, SF) else SI(r.e)
        return r
    # symbolic term (no summary) times / over a summarised value: distribute, keeps the term linear
    if op == "mul" and x is not None and y is None:
        x, y, a, b = y, x, b, a
    if op in ("mul", "div") and x is None and y is not None and len(y) > 1:
        if all(math.isfinite(w) and (op == "mul" or w != 0) for w, _ in y):
            r = None
            for w, h in reversed(y):
                t = a * w if op == "mul" else a / w
                r = t if r is None else ite(mk_bool(h), t, r)
            return r
    return None


class SB(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.decide(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def _l(self, o, f):
        o = norm(o)
        if isinstance(o, SB):
            return mk_bool(f(self.e, o.e))
        if isinstance(o, bool):
            return mk_bool(f(self.e, o))
        if isinstance(o, int) and o in (0, 1):
            return mk_bool(f(self.e, bool(o)))
        return NotImplemented

    def __and__(self, o):
        return self._l(o, b_and)

    __rand__ = __and__

    def __or__(self, o):
        return self._l(o, b_or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._l(o, lambda a, b: z3.Xor(a, to_z3_bool(b)))

    __rxor__ = __xor__

    def logical_not(self):
        return ~self

    def as_int(self):
        return SI(None, [(1, self.e), (0, z3.Not(self.e))])

    def __eq__(self, o):
        o = norm(o)
        if isinstance(o, SB):
            return mk_bool(self.e == o.e)
        if isinstance(o, bool):
            return mk_bool(self.e if o else z3.Not(self.e))
        return self.as_int() == o

    def __ne__(self, o):
        return l_not(self.__eq__(o))

    def __getattr__(self, name):
        raise AttributeError(name)


def _sb_arith(op):
    def f(self, o):
        return getattr(self.as_int(), op)(o)

    return f


for _op in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__",
            "__lt__", "__le__", "__gt__", "__ge__", "__floordiv__", "__mod__", "__neg__", "__pow__"):
    if _op == "__neg__":
        setattr(SB, _op, lambda self: -self.as_int())
    else:
        setattr(SB, _op, _sb_arith(_op))


def l_not(x):
    x = norm(x)
    if isinstance(x, bool):
        return not x
    if isinstance(x, SB):
        return ~x
    return mk_bool(z3.Not(as_bool_expr(x)))


def l_and(*xs):
    return mk_bool(b_and(*[_bexpr(x) for x in xs]))


def l_or(*xs):
    return mk_bool(b_or(*[_bexpr(x) for x in xs]))


def _bexpr(x):
    x = norm(x)
    if isinstance(x, bool):
        return x
    if isinstance(x, SB):
        return x.e
    e = as_bool_expr(x)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def l_implies(a, b):
    return l_or(l_not(a), b)


def l_iff(a, b):
    a, b = _bexpr(a), _bexpr(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return mk_bool(b if a else z3.Not(b))
    if isinstance(b, bool):
        return mk_bool(a if b else z3.Not(a))
    return mk_bool(a == b)


class SI(Sym):
    """mathematical integer; `alts` = optional value summary [(python int, guard)] (exclusive, exhaustive)"""

    __slots__ = ("_e", "alts")

    def __init__(self, e=None, alts=None):
        self._e = e
        self.alts = alts

    @property
    def e(self):
        if self._e is None:
            self._e = _alts_expr(self.alts, z3.IntVal)
        return self._e

    # concretisation forks over feasible values
    def _conc(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        c = CTX
        for _ in range(100000):
            # deterministic candidate: replay first, else ask the solver
            if c.pos < len(c.decisions):
                cond, v, _f = c.decisions[c.pos]
                # cond is (e == k)
                k = c.memo.get((cond.get_id(),))
                if k is None:
                    raise Inconclusive("non-deterministic re-execution (int)")
                c.pos += 1
                if v:
                    return k
                continue
            if not c._check():
                raise PathAbort()
            k = c.solver.model().eval(e, model_completion=True).as_long()
            cond = z3.simplify(e == k)
            c.memo[(cond.get_id(),)] = k
            c.memo[(cond.get_id(), "keep")] = cond
            if z3.is_true(cond):
                return k
            if c._decide_s(cond):
                return k
        raise Inconclusive("integer concretisation bound")

    def __index__(self):
        return self._conc()

    __int__ = __index__

    def __float__(self):
        return float(self._conc())

    def __hash__(self):
        return hash(self._conc())

    def __bool__(self):
        return CTX.decide(self.e != 0)

    def _ar(self, o, fi, fr, swap=False, op=None):
        o = norm(o)
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, np.ndarray) and op in _OPS:
            return with_array(op, self, o, swap)
        if isinstance(o, SB):
            o = o.as_int()
        if op is not None:
            r = alts_op(op, o, self) if swap else alts_op(op, self, o)
            if r is not None:
                return r
        if isinstance(o, int):
            o = SI(z3.IntVal(o))
        if isinstance(o, SI):
            a, b = (o.e, self.e) if swap else (self.e, o.e)
            return fi(a, b)
        if isinstance(o, (float, SF)):
            a, b = (to_sf(o), to_sf(self)) if swap else (to_sf(self), to_sf(o))
            return fr(a, b)
        return NotImplemented

    def __add__(self, o):
        return self._ar(o, lambda a, b: mk_int(a + b), f_add, op="add")

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: mk_int(a - b), f_sub, op="sub")

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: mk_int(a - b), f_sub, True, op="sub")

    def __mul__(self, o):
        return self._ar(o, lambda a, b: mk_int(a * b), f_mul, op="mul")

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._ar(o, lambda a, b: f_div(SF(z3.ToReal(a)), SF(z3.ToReal(b))), f_div, op="div")

    def __rtruediv__(self, o):
        return self._ar(o, lambda a, b: f_div(SF(z3.ToReal(a)), SF(z3.ToReal(b))), f_div, True, op="div")

    def __floordiv__(self, o):
        return self._ar(o, lambda a, b: mk_int(_floordiv(a, b)), f_floordiv, op="fdiv")

    def __rfloordiv__(self, o):
        return self._ar(o, lambda a, b: mk_int(_floordiv(a, b)), f_floordiv, True, op="fdiv")

    def __mod__(self, o):
        return self._ar(o, lambda a, b: mk_int(_pymod(a, b)), f_mod, op="mod")

    def __rmod__(self, o):
        return self._ar(o, lambda a, b: mk_int(_pymod(a, b)), f_mod, True, op="mod")

    def __pow__(self, n):
        n = norm(n)
        if isinstance(n, int) and n >= 0:
            r = 1
            for _ in range(n):
                r = self * r
            return r
        return to_sf(self) ** n

    def __neg__(self):
        if self.alts is not None:
            return mk_alts([(-v, g) for v, g in self.alts])
        return mk_int(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.alts is not None:
            return mk_alts([(abs(v), g) for v, g in self.alts])
        return mk_int(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, fi, fr, op=None):
        return self._ar(o, lambda a, b: mk_bool(fi(a, b)), fr, op=op)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, f_eq, op="eq")

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is NotImplemented else l_not(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, f_lt, op="lt")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, f_le, op="le")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: f_lt(b, a), op="gt")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: f_le(b, a), op="ge")

    def __and__(self, o):
        o = norm(o)
        if isinstance(o, (SB, bool)):
            return l_and(self != 0, o)
        return int(self) & int(o)

    def __or__(self, o):
        return int(self) | int(norm(o))

    def __lshift__(self, o):
        return self * (2 ** int(norm(o)))

    def __rshift__(self, o):
        return self // (2 ** int(norm(o)))

    def __round__(self, n=None):
        return self

    __floor__ = __ceil__ = __trunc__ = lambda self: self

    def is_integer(self):
        return True


def mk_int(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SI(e)


def _floordiv(a, b):
    # z3 Int div: euclidean for b>0 equals floor
    if z3.is_int_value(b):
        v = b.as_long()
        if v == 0:
            raise ZeroDivisionError("integer division by zero")
        if v > 0:
            return a / b
        return (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))


def _pymod(a, b):
    if z3.is_int_value(b):
        v = b.as_long()
        if v == 0:
            raise ZeroDivisionError("modulo by zero")
        if v > 0:
            return a % b
        return -((-a) % (-b))
    return a - b * _floordiv(a, b)


class SF(Sym):
    """extended real: value v unless one of the flags nan / pinf / ninf holds (flags exclusive)"""

    __slots__ = ("_v", "_nan", "_pinf", "_ninf", "alts")

    def __init__(self, v=None, nan=False, pinf=False, ninf=False, alts=None):
        self._v, self._nan, self._pinf, self._ninf, self.alts = v, nan, pinf, ninf, alts

    def _build(self):
        fin = [(x, g) for x, g in self.alts if math.isfinite(x)]
        self._v = _alts_expr(fin, rv) if fin else z3.RealVal(0)
        self._nan = b_or(*[g for x, g in self.alts if x != x])
        self._pinf = b_or(*[g for x, g in self.alts if x == math.inf])
        self._ninf = b_or(*[g for x, g in self.alts if x == -math.inf])

    @property
    def v(self):
        if self._v is None:
            self._build()
        return self._v

    @property
    def nan(self):
        if self._v is None:
            self._build()
        return self._nan

    @property
    def pinf(self):
        if self._v is None:
            self._build()
        return self._pinf

    @property
    def ninf(self):
        if self._v is None:
            self._build()
        return self._ninf

    @property
    def fin(self):
        return b_not(b_or(self.nan, self.pinf, self.ninf))

    @property
    def plain(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    def __bool__(self):
        return CTX.decide(as_bool_expr(self != 0.0))

    def __float__(self):
        e = z3.simplify(self.v)
        if self.plain and z3.is_rational_value(e):
            return float(e.as_fraction())
        if self.nan is True:
            return math.nan
        raise Inconclusive("symbolic real converted to a concrete float")

    def __int__(self):
        return int(f_trunc(self))

    def __index__(self):
        raise TypeError("float is not an index")

    def __hash__(self):
        raise Inconclusive("symbolic real hashed")

    def _ar(self, o, f, swap=False, op=None):
        o = norm(o)
        if isinstance(o, np.ndarray) and op in _OPS:
            return with_array(op, self, o, swap)
        if isinstance(o, (bool, int, float, SB, SI, SF)):
            if op is not None:
                r = alts_op(op, o, self) if swap else alts_op(op, self, o)
                if r is not None:
                    return r
            o = to_sf(o)
            return f(o, self) if swap else f(self, o)
        return NotImplemented

    def __add__(self, o):
        return self._ar(o, f_add, op="add")

    def __radd__(self, o):
        return self._ar(o, f_add, True, op="add")

    def __sub__(self, o):
        return self._ar(o, f_sub, op="sub")

    def __rsub__(self, o):
        return self._ar(o, f_sub, True, op="sub")

    def __mul__(self, o):
        return self._ar(o, f_mul, op="mul")

    def __rmul__(self, o):
        return self._ar(o, f_mul, True, op="mul")

    def __truediv__(self, o):
        return self._ar(o, f_div, op="div")

    def __rtruediv__(self, o):
        return self._ar(o, f_div, True, op="div")

    def __floordiv__(self, o):
        return self._ar(o, f_floordiv, op="fdiv")

    def __rfloordiv__(self, o):
        return self._ar(o, f_floordiv, True, op="fdiv")

    def __mod__(self, o):
        return self._ar(o, f_mod, op="mod")

    def __rmod__(self, o):
        return self._ar(o, f_mod, True, op="mod")

    def __pow__(self, n):
        n = norm(n)
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int) and n >= 0:
            r = 1.0
            for _ in range(n):
                r = self * r
            return r
        if isinstance(n, int):
            return 1.0 / (self ** (-n))
        if n == 0.5:
            return f_sqrt(self)
        raise Inconclusive("symbolic power")

    def __neg__(self):
        if self.alts is not None:
            return mk_alts([(-v, g) for v, g in self.alts])
        return SF(-self.v, self.nan, self.ninf, self.pinf)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.alts is not None:
            return mk_alts([(abs(v), g) for v, g in self.alts])
        return SF(z3.If(self.v >= 0, self.v, -self.v), self.nan, b_or(self.pinf, self.ninf), False)

    def __eq__(self, o):
        return self._ar(o, f_eq, op="eq")

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is NotImplemented else l_not(r)

    def __lt__(self, o):
        return self._ar(o, f_lt, op="lt")

    def __le__(self, o):
        return self._ar(o, f_le, op="le")

    def __gt__(self, o):
        return self._ar(o, f_lt, True, op="lt")

    def __ge__(self, o):
        return self._ar(o, f_le, True, op="le")

    def __round__(self, n=None):
        if n in (None, 0):
            return f_rint(self)
        raise Inconclusive("round to digits")

    def __floor__(self):
        return f_floor(self)

    def __ceil__(self):
        return f_ceil(self)

    def __trunc__(self):
        return f_trunc(self)

    # numpy object-loop hooks
    def sqrt(self):
        return f_sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self


def to_sf(x):
    x = norm(x)
    if isinstance(x, SF):
        return x
    if isinstance(x, SI):
        if x.alts is not None:
            return SF(alts=[(float(v), g) for v, g in x.alts])
        return SF(z3.ToReal(x.e))
    if isinstance(x, SB):
        return SF(alts=[(1.0, x.e), (0.0, z3.Not(x.e))])
    if isinstance(x, bool):
        return SF(z3.RealVal(int(x)))
    if isinstance(x, (int, float)):
        if isinstance(x, float):
            if math.isnan(x):
                return SF(z3.RealVal(0), nan=True)
            if math.isinf(x):
                return SF(z3.RealVal(0), pinf=x > 0, ninf=x < 0)
        return SF(rv(x))
    raise TypeError("not a number: %r" % (x,))


def mk_float(s):
    """SF -> python float when constant"""
    if s.nan is True:
        return math.nan
    if s.pinf is True:
        return math.inf
    if s.ninf is True:
        return -math.inf
    if s.plain and z3.is_rational_value(s.v):
        f = s.v.as_fraction()
        x = float(f)
        if Fraction(x) == f:
            return x
    return s


def _is0(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def _is1(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 1 and e.denominator_as_long() == 1


def f_add(a, b):
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    pinf = b_and(b_or(a.pinf, b.pinf), b_not(nan))
    ninf = b_and(b_or(a.ninf, b.ninf), b_not(nan))
    v = b.v if _is0(a.v) else a.v if _is0(b.v) else a.v + b.v
    return mk_float(SF(v, nan, pinf, ninf))


def f_sub(a, b):
    if a is b and a.plain:
        return 0.0
    return f_add(a, SF(-b.v if not _is0(b.v) else b.v, b.nan, b.ninf, b.pinf))


def f_mul(a, b):
    if LAZY_SQRT and a.v.get_id() == b.v.get_id():
        hit = CTX.memo.get(("root", a.v.get_id()))
        if hit is not None:  # the square of a square root
            return mk_float(SF(hit[1], b_or(a.nan, b.nan), b_or(a.pinf, b.pinf), False))
    if a.plain and b.plain:
        if _is0(a.v) or _is0(b.v):
            return 0.0
        if _is1(a.v):
            return mk_float(b)
        if _is1(b.v):
            return mk_float(a)
        return mk_float(SF(z3.simplify(a.v * b.v) if z3.is_rational_value(a.v) and z3.is_rational_value(b.v) else a.v * b.v))
    ainf, binf = b_or(a.pinf, a.ninf), b_or(b.pinf, b.ninf)
    az = b_and(a.fin, a.v == 0)
    bz = b_and(b.fin, b.v == 0)
    nan = b_or(a.nan, b.nan, b_and(ainf, bz), b_and(binf, az))
    inf = b_and(b_or(ainf, binf), b_not(nan))
    if inf is False:
        pinf = ninf = False
    else:
        aneg = b_or(a.ninf, b_and(a.fin, a.v < 0))
        bneg = b_or(b.ninf, b_and(b.fin, b.v < 0))
        neg = z3.Xor(to_z3_bool(aneg), to_z3_bool(bneg))
        pinf, ninf = b_and(inf, z3.Not(neg)), b_and(inf, neg)
    return mk_float(SF(a.v * b.v, nan, pinf, ninf))


def f_div(a, b):
    """IEEE-style division: x/0 -> +-inf, 0/0 -> nan"""
    if b.plain and z3.is_rational_value(b.v) and not _is0(b.v):
        f = b.v.as_fraction()
        return f_mul(a, SF(z3.RatVal(f.denominator, f.numerator) if f.numerator > 0 else z3.RatVal(-f.denominator, -f.numerator)))
    binf = b_or(b.pinf, b.ninf)
    ainf = b_or(a.pinf, a.ninf)
    bz = b_and(b.fin, b.v == 0)
    az = b_and(a.fin, a.v == 0)
    nan = b_or(a.nan, b.nan, b_and(ainf, binf), b_and(az, bz))
    inf = b_and(b_or(ainf, bz), b_not(nan), b_not(binf))
    aneg = b_or(a.ninf, b_and(a.fin, a.v < 0))
    bneg = b_or(b.ninf, b_and(b.fin, b.v < 0))
    neg = z3.Xor(to_z3_bool(aneg), to_z3_bool(bneg))
    bz_e = to_z3_bool(bz)
    safe = z3.If(bz_e, z3.RealVal(1), b.v)
    q = a.v / safe
    v = z3.If(to_z3_bool(binf), z3.RealVal(0), q) if binf is not False else q
    return mk_float(SF(v, nan, b_and(inf, z3.Not(neg)), b_and(inf, neg)))


def f_floordiv(a, b):
    return f_floor(to_sf(f_div(a, b)))


def f_mod(a, b):
    """python / numpy modulo (sign of the divisor) for finite operands"""
    q = to_sf(f_floordiv(a, b))
    return f_sub(a, to_sf(f_mul(to_sf(q), b)))


def f_eq(a, b):
    base = a.v == b.v
    if a.plain and b.plain:
        return mk_bool(z3.simplify(base)) if z3.is_rational_value(a.v) and z3.is_rational_value(b.v) else mk_bool(base)
    return mk_bool(b_or(b_and(a.fin, b.fin, base), b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf)))


def f_lt(a, b):
    base = a.v < b.v
    if a.plain and b.plain:
        return mk_bool(base)
    return mk_bool(
        b_or(
            b_and(a.fin, b.fin, base),
            b_and(a.ninf, b_or(b.fin, b.pinf)),
            b_and(a.fin, b.pinf),
        )
    )


def f_le(a, b):
    base = a.v <= b.v
    if a.plain and b.plain:
        return mk_bool(base)
    nn = b_and(b_not(a.nan), b_not(b.nan))
    return mk_bool(b_or(b_and(a.fin, b.fin, base), b_and(a.ninf, nn), b_and(b.pinf, nn)))


LAZY_SQRT = False  # square roots of sums of squares: s >= 0, and s*s is rewritten to the argument
OPAQUE_SQRT = False  # for harnesses whose decisions do not depend on the value of a (positive) square root


def opaque(name, args):
    """a real variable standing for name(args): one and the same for structurally equal arguments"""
    args = [z3.simplify(x) for x in args]
    key = (name,) + tuple(x.get_id() for x in args)
    hit = CTX.memo.get(key)
    if hit is None:
        hit = (z3.Real("%s!%s" % (name, "_".join(str(x.get_id()) for x in args))), args)
        CTX.memo[key] = hit
    return hit[0]


def f_sqrt(a):
    a = to_sf(a)
    if a.alts is not None:
        return mk_alts([(math.sqrt(v) if v >= 0 else math.nan, g) for v, g in a.alts])
    if z3.is_rational_value(a.v) and a.plain:
        return math.sqrt(float(a.v.as_fraction()))
    if OPAQUE_SQRT:
        s = opaque("sqrt", [a.v])
        CTX.assume(s > 0)  # the harness states that the argument is positive
        neg = b_and(a.fin, a.v < 0)
        return SF(s, b_or(a.nan, neg, a.ninf), a.pinf, False)
    key = ("sqrt", a.v.get_id())
    hit = CTX.memo.get(key)
    if LAZY_SQRT:
        if hit is None:
            s = z3.Real("sqrt!%d" % a.v.get_id())
            CTX.memo[key] = (s, a.v)
            CTX.memo[("root", s.get_id())] = (s, a.v)
        else:
            s = hit[0]
        CTX.assume(s >= 0)
        return SF(s, b_or(a.nan, a.ninf), a.pinf, False)
    if hit is None:
        s = z3.Real("sqrt!%d" % a.v.get_id())
        CTX.memo[key] = (s, a.v)
    else:
        s = hit[0]
    CTX.assume(z3.And(z3.Implies(a.v >= 0, z3.And(s >= 0, s * s == a.v)), z3.Implies(a.v < 0, s == 0)))
    neg = b_and(a.fin, a.v < 0)
    return SF(s, b_or(a.nan, neg, a.ninf), a.pinf, False)


def f_floor(a):
    a = to_sf(a)
    if a.alts is not None:
        return mk_alts([(float(math.floor(v)) if math.isfinite(v) else v, g) for v, g in a.alts])
    return mk_float(SF(z3.simplify(z3.ToReal(z3.ToInt(a.v))), a.nan, a.pinf, a.ninf))


def f_ceil(a):
    a = to_sf(a)
    if a.alts is not None:
        return mk_alts([(float(math.ceil(v)) if math.isfinite(v) else v, g) for v, g in a.alts])
    return mk_float(SF(z3.simplify(-z3.ToReal(z3.ToInt(-a.v))), a.nan, a.pinf, a.ninf))


def f_rint(a):
    """round half to even"""
    a = to_sf(a)
    if a.alts is not None:
        return mk_alts([(float(round(v)) if math.isfinite(v) else v, g) for v, g in a.alts])
    fl = z3.ToInt(a.v)
    d = a.v - z3.ToReal(fl)
    r = z3.If(d < z3.Q(1, 2), fl, z3.If(d > z3.Q(1, 2), fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    return mk_float(SF(z3.ToReal(r), a.nan, a.pinf, a.ninf))


def f_trunc(a):
    """-> SI (caller guarantees finite)"""
    a = to_sf(a)
    if a.alts is not None:
        return mk_alts([(int(v) if math.isfinite(v) else -(2**63), g) for v, g in a.alts])
    return mk_int(z3.simplify(z3.If(a.v >= 0, z3.ToInt(a.v), -z3.ToInt(-a.v))))


def f_isnan(a):
    a = norm(a)
    if isinstance(a, SF):
        if a.alts is not None:
            return mk_bool(b_or(*[g for v, g in a.alts if v != v])) if not all(v != v for v, g in a.alts) else True
        return mk_bool(a.nan)
    if isinstance(a, float):
        return math.isnan(a)
    return False


def f_isfinite(a):
    a = norm(a)
    if isinstance(a, SF):
        if a.alts is not None:
            return mk_bool(b_or(*[g for v, g in a.alts if math.isfinite(v)])) if not all(math.isfinite(v) for v, g in a.alts) else True
        return mk_bool(a.fin)
    if isinstance(a, float):
        return math.isfinite(a)
    return True


def f_isinf(a):
    a = norm(a)
    if isinstance(a, SF):
        if a.alts is not None:
            return mk_bool(b_or(*[g for v, g in a.alts if math.isinf(v)])) if not all(math.isinf(v) for v, g in a.alts) else True
        return mk_bool(b_or(a.pinf, a.ninf))
    if isinstance(a, float):
        return math.isinf(a)
    return False


def ite(c, a, b):
    """merge two scalars under a condition"""
    c = norm(c)
    if isinstance(c, (SI, SF)):
        c = c != 0
    if isinstance(c, SB):
        ce = c.e
    else:
        return a if c else b
    a, b = norm(a), norm(b)
    if a is b:
        return a
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return mk_bool(b_ite(ce, a.e if isinstance(a, SB) else a, b.e if isinstance(b, SB) else b))
    aa, ba = alts_of(a), alts_of(b)
    if aa is not None and ba is not None and len(aa) + len(ba) <= 2 * MAX_ALTS:
        flt = isinstance(a, (float, SF)) or isinstance(b, (float, SF))
        nce = z3.Not(ce)
        al = [(float(v) if flt else v, ce if g is True else z3.And(ce, g)) for v, g in aa]
        al += [(float(v) if flt else v, nce if g is True else z3.And(nce, g)) for v, g in ba]
        return mk_alts(al)
    if isinstance(a, (float, SF)) or isinstance(b, (float, SF)):
        x, y = to_sf(a), to_sf(b)
        v = x.v if x.v.eq(y.v) else z3.If(ce, x.v, y.v)
        return mk_float(SF(v, b_ite(ce, x.nan, y.nan), b_ite(ce, x.pinf, y.pinf), b_ite(ce, x.ninf, y.ninf)))
    if isinstance(a, (bool, int, SB, SI)) and isinstance(b, (bool, int, SB, SI)):
        if isinstance(a, int) and isinstance(b, int) and int(a) == int(b):
            return int(a)
        return mk_int(z3.If(ce, int_expr(a), int_expr(b)))
    if a == b:
        return a
    # different non-numeric objects: fork
    return a if CTX.decide(ce) else b


def int_expr(a):
    a = norm(a)
    if isinstance(a, SI):
        return a.e
    if isinstance(a, SB):
        return a.as_int().e
    if isinstance(a, (bool, int)):
        return z3.IntVal(int(a))
    raise TypeError("not an int %r" % (a,))


def s_max(a, b, nanprop=True):
    a, b = norm(a), norm(b)
    if not is_sym(a) and not is_sym(b):
        if a != a:
            return a if nanprop else b
        if b != b:
            return b if nanprop else a
        return a if a >= b else b
    r = ite(a >= b if not isinstance(a, SB) else a.as_int() >= b, a, b)
    na, nb = f_isnan(a), f_isnan(b)
    if na is False and nb is False:
        return r
    if nanprop:
        return ite(na, a, ite(nb, b, r))
    return ite(na, b, ite(nb, a, r))


def s_min(a, b, nanprop=True):
    a, b = norm(a), norm(b)
    if not is_sym(a) and not is_sym(b):
        if a != a:
            return a if nanprop else b
        if b != b:
            return b if nanprop else a
        return a if a <= b else b
    r = ite(a <= b if not isinstance(a, SB) else a.as_int() <= b, a, b)
    na, nb = f_isnan(a), f_isnan(b)
    if na is False and nb is False:
        return r
    if nanprop:
        return ite(na, a, ite(nb, b, r))
    return ite(na, b, ite(nb, a, r))


def s_sum(xs):
    """n-ary sum (flat)"""
    xs = [norm(x) for x in xs]
    if any(is_sym(x) for x in xs) and all(alts_of(x) is not None for x in xs):
        acc = 0
        ok = True
        for x in xs:
            if isinstance(x, SB):
                x = x.as_int()
            acc = acc + x
            if is_sym(acc) and acc.alts is None:
                ok = False
                break
        if ok:
            return acc
    conc = [x for x in xs if not is_sym(x)]
    syms = [x for x in xs if is_sym(x)]
    tot = sum(conc) if conc else 0
    if not syms:
        return tot
    if all(isinstance(x, (SB, SI)) for x in syms) and not isinstance(tot, float):
        es = [int_expr(x) for x in syms]
        if tot:
            es.append(z3.IntVal(int(tot)))
        return mk_int(z3.Sum(es) if len(es) > 1 else es[0])
    fs = [to_sf(x) for x in syms]
    if tot != 0 or (isinstance(tot, float) and tot != tot):
        fs.append(to_sf(tot))
    nan = b_or(*[f.nan for f in fs])
    pin = b_or(*[f.pinf for f in fs])
    nin = b_or(*[f.ninf for f in fs])
    nan = b_or(nan, b_and(pin, nin))
    vs = [f.v for f in fs if not _is0(f.v)]
    v = z3.Sum(vs) if len(vs) > 1 else (vs[0] if vs else z3.RealVal(0))
    return mk_float(SF(v, nan, b_and(pin, b_not(nan)), b_and(nin, b_not(nan))))


# ---------------------------------------------------------------------------- symbolic inputs
def real(name, lo=None, hi=None, nan=False, pinf=False, ninf=False):
    v = z3.Real(name)
    CTX._real_inputs.append(v)
    CTX._bounds[v.get_id()] = (lo, hi)
    if lo is not None:
        CTX.assume(v >= rv(lo))
    if hi is not None:
        CTX.assume(v <= rv(hi))
    flags = {}
    for k, want in (("nan", nan), ("pinf", pinf), ("ninf", ninf)):
        flags[k] = z3.Bool(name + "." + k) if want else False
    fl = [f for f in flags.values() if f is not False]
    CTX._bool_inputs += fl
    if len(fl) > 1:
        CTX.assume(z3.AtMost(*fl, 1))
    return SF(v, **flags)


def integer(name, lo=None, hi=None):
    v = z3.Int(name)
    if lo is not None:
        CTX.assume(v >= lo)
    if hi is not None:
        CTX.assume(v <= hi)
    return SI(v)


def boolean(name):
    v = z3.Bool(name)
    CTX._bool_inputs.append(v)
    return SB(v)


def concretise(x, model):
    """value of a scalar under a model, as a python scalar"""
    x = norm(x)
    if isinstance(x, SB):
        return z3.is_true(model.eval(x.e, model_completion=True))
    if isinstance(x, SI):
        return model.eval(x.e, model_completion=True).as_long()
    if isinstance(x, SF):
        def t(f):
            return f if isinstance(f, bool) else z3.is_true(model.eval(f, model_completion=True))

        if t(x.nan):
            return math.nan
        if t(x.pinf):
            return math.inf
        if t(x.ninf):
            return -math.inf
        r = model.eval(x.v, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        return float(r.as_fraction())
    return x
