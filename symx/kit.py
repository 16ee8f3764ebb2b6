"""The harness kit: one harness function runs symbolically (solver decides) and concretely (replay).

A harness is `def h(k)`; it declares inputs (`k.real`, `k.bool`, `k.int`), calls the real marEx API and states
assertions (`k.check`).  In symbolic mode the inputs are z3 variables; in concrete mode they are the numbers
of a counterexample / witness and marEx is the unpatched package.
"""
from __future__ import annotations

import itertools
import math

import numpy as np

from . import core
from .core import PathAbort, f_isfinite, f_isnan, is_sym, ite, l_and, l_iff, l_implies, l_not, l_or, norm, s_sum  # noqa: F401

TOL = 1e-4


class Kit:
    """common base: polymorphic oracle helpers"""

    symbolic = False

    def __init__(self, params):
        self.p = dict(params)
        self.inputs = {}
        self.outs = {}
        self.expected_raise = None

    @staticmethod
    def known(prop, fid):
        """is this finding recorded (not repaired) in known_findings.jsonl?"""
        import json
        import os

        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
        with open(path) as f:
            rows = [json.loads(x) for x in f if x.strip()]
        return any(r["property"] == prop and r.get("id") == fid and r["status"] == "known" for r in rows)

    # ---- oracle helpers usable in both modes -------------------------------------------
    @staticmethod
    def close(a, b, tol=TOL):
        """both NaN, or within tol"""
        a, b = norm(a), norm(b)
        na, nb = f_isnan(a), f_isnan(b)
        if not is_sym(a) and not is_sym(b):
            if na or nb:
                return bool(na and nb)
            if math.isinf(a) or math.isinf(b):
                return a == b
            return abs(a - b) <= tol
        d = a - b
        near = l_and(d <= tol, d >= -tol)
        if na is False and nb is False:
            return near
        return l_or(l_and(na, nb), l_and(l_not(na), l_not(nb), near))

    @staticmethod
    def mean(xs):
        """NaN-skipping mean, NaN when nothing is left"""
        xs = [norm(x) for x in xs]
        return Kit.nan_fold(xs, lambda ys: s_sum(ys) / len(ys))

    @staticmethod
    def nan_fold(xs, f):
        """f over the non-NaN members; case distinction over symbolic NaN flags"""
        fixed, opt = [], []
        for x in xs:
            n = f_isnan(x)
            if n is True:
                continue
            if n is False:
                fixed.append(x)
            else:
                opt.append((x, n))
        if len(opt) > 5:
            raise core.Inconclusive("nan_fold over %d optional values" % len(opt))
        res = None
        for bits in itertools.product([False, True], repeat=len(opt)):
            sel = fixed + [strip_nan(x) for (x, _), b in zip(opt, bits) if b]
            v = f(sel) if sel else math.nan
            g = l_and(*[(l_not(n) if b else n) for (x, n), b in zip(opt, bits)]) if opt else True
            res = v if res is None else ite(g, v, res)
        return res if res is not None else math.nan

    @staticmethod
    def count(conds):
        return s_sum([c if is_sym(c) else int(bool(c)) for c in map(norm, conds)]) if conds else 0


def strip_nan(x):
    if isinstance(x, core.SF):
        return core.SF(x.v, False, x.pinf, x.ninf)
    return x


class SymKit(Kit):
    symbolic = True

    def __init__(self, params, mods):
        super().__init__(params)
        self.marEx, self.detect, self.track = mods
        self.CTX = core.CTX

    def _mk(self, name, shape, dtype, f):
        from .array import SymArray

        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = f(name + "".join("_%d" % j for j in i), i)
        r = SymArray(a, np.dtype(dtype))
        self.inputs[name] = a.copy()
        return r

    def real(self, name, shape, lo=None, hi=None, nan=None, inf=None, fixed=None, dtype="float32"):
        """nan / inf: None, True (anywhere) or set of indices; fixed: {index: constant}"""
        def f(nm, i):
            if fixed and i in fixed:
                return fixed[i]
            n = nan is True or (nan is not None and nan is not False and i in nan)
            q = inf is True or (inf is not None and inf is not False and i in inf)
            return core.real(nm, lo, hi, nan=n, pinf=q, ninf=q)

        return self._mk(name, shape, dtype, f)

    def bool(self, name, shape, fixed=None):
        return self._mk(name, shape, bool, lambda nm, i: fixed[i] if fixed and i in fixed else core.boolean(nm))

    def int(self, name, shape, lo, hi, dtype="int64", fixed=None):
        return self._mk(name, shape, dtype, lambda nm, i: fixed[i] if fixed and i in fixed else core.integer(nm, lo, hi))

    def assume(self, cond):
        self.CTX.assume(cond)

    def check(self, cond, label):
        self.CTX.check(cond, label)

    def check_all(self, pairs, label):
        self.CTX.check_all(list(pairs), label)

    def out(self, name, value):
        self.outs[name] = value

    def const(self, a):
        """concrete array in the engine's representation"""
        from .array import SymArray, obj

        return SymArray(obj(np.asarray(a)), np.asarray(a).dtype)

    def arr(self, x):
        """object ndarray of scalars out of xarray / dask / SymArray / numpy"""
        from .array import obj

        x = x.compute() if hasattr(x, "compute") else x
        if hasattr(x, "variable"):
            x = x.variable._data
        if hasattr(x, "compute"):
            x = x.compute()
        return obj(x)


class ConcKit(Kit):
    def __init__(self, params, mods, inputs):
        super().__init__(params)
        self.marEx, self.detect, self.track = mods
        self.given = inputs
        self.failed = []
        self.reached = 0

    def _get(self, name, shape, dtype):
        a = np.array(self.given[name], dtype=float).reshape(shape)
        if np.dtype(dtype).kind in "iub":
            a = np.round(a)
        return a.astype(dtype)

    def real(self, name, shape, lo=None, hi=None, nan=None, inf=None, fixed=None, dtype="float32"):
        return self._get(name, shape, dtype)

    def bool(self, name, shape, fixed=None):
        return self._get(name, shape, bool)

    def int(self, name, shape, lo, hi, dtype="int64", fixed=None):
        return self._get(name, shape, dtype)

    def assume(self, cond):
        if not bool(norm(cond)):
            raise PathAbort()

    def check(self, cond, label):
        self.reached += 1
        if not bool(norm(cond)):
            self.failed.append(label)

    def check_all(self, pairs, label):
        for l, c in pairs:
            self.reached += 1
            if not bool(norm(c)):
                self.failed.append("%s: %s" % (label, l))

    def out(self, name, value):
        self.outs[name] = value

    def const(self, a):
        return np.asarray(a)

    def arr(self, x):
        x = x.compute() if hasattr(x, "compute") else x
        x = np.asarray(x.values if hasattr(x, "values") else x)
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            o[i] = x[i].item()
        return o


def conc_value(x, model):
    """nested python lists of concrete values of an object array under a model"""
    if isinstance(x, np.ndarray):
        return [conc_value(y, model) for y in x] if x.ndim else conc_value(x[()], model)
    v = core.concretise(x, model)
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    return float(v) if isinstance(v, float) else v


def same(a, b, tol):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
