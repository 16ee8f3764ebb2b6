"""symx.array - a numpy-compatible duck array of symbolic scalars.

`SymArray` wraps an object ndarray and takes part in numpy's ufunc / function dispatch, so the
real xarray / dask / marEx code runs on it unchanged. Data-dependent selections are merged with
if-then-else terms where possible and fork otherwise.
"""
from __future__ import annotations

import functools
import itertools
import math
import operator
import uuid

import numpy as np
from numpy.lib.mixins import NDArrayOperatorsMixin

from . import core
from .core import (SB, SF, SI, Inconclusive, f_isfinite, f_isinf, f_isnan, is_sym, ite, l_and, l_not, l_or, norm, s_max,
                   s_min, s_sum, to_sf)


def _elem_dtype(x):
    if isinstance(x, (bool, np.bool_, SB)):
        return np.dtype(bool)
    if isinstance(x, (int, np.integer, SI)):
        return np.dtype("int64")
    return np.dtype("float64")


def obj(x):
    """anything -> object ndarray of normalised scalars"""
    if isinstance(x, SymArray):
        return x._a
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype.kind in "Mm":
            raise Inconclusive("datetime array mixed with symbolic values")
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return obj(sym_asarray(x))
    a = np.empty((), dtype=object)
    a[()] = norm(x)
    return a


def infer_dtype(a):
    dt = None
    for x in a.flat:
        d = _elem_dtype(x)
        dt = d if dt is None else np.promote_types(dt, d)
    return dt or np.dtype("float64")


def dt_of(x):
    if isinstance(x, SymArray):
        return x.dtype
    if isinstance(x, np.ndarray):
        return x.dtype if x.dtype != object else infer_dtype(x)
    if isinstance(x, np.generic):
        return x.dtype
    return _elem_dtype(x)


def wrap(a, dtype=None):
    if not isinstance(a, np.ndarray):
        b = np.empty((), dtype=object)
        b[()] = norm(a)
        a = b
    elif a.dtype != object:
        dtype = dtype or a.dtype
        a = a.astype(object)
    return SymArray(a, dtype)


def has_sym(a):
    return any(is_sym(x) for x in a.flat)


def cast_scalar(x, dtype):
    k = dtype.kind
    x = norm(x)
    if k == "b":
        if isinstance(x, (bool, SB)):
            return x
        if is_sym(x):
            r = x != 0
            return l_or(r, f_isnan(x)) if isinstance(x, SF) else r
        return bool(x)
    if k in "iu":
        if isinstance(x, SB):
            return x.as_int()
        if isinstance(x, SF):
            return core.f_trunc(x)
        if isinstance(x, SI):
            return x
        if isinstance(x, float) and not math.isfinite(x):
            return int(np.array(x).astype(dtype)) if k == "i" else 0
        return int(x)
    if k == "f":
        if is_sym(x):
            return x if isinstance(x, SF) else core.mk_float(to_sf(x))
        return float(x)
    if k == "O":
        return x
    raise Inconclusive("cast to %s" % dtype)


def _map(fn, *arrs, dtype=None):
    arrs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(arrs[0].shape, dtype=object)
    if out.ndim == 0:
        out[()] = fn(*[a[()] for a in arrs])
        return out
    flat = out.reshape(-1)
    its = [a.flat for a in arrs]
    for i, vals in enumerate(zip(*its)):
        flat[i] = fn(*vals)
    return out if flat.base is out or out.size == 0 or np.shares_memory(flat, out) else flat.reshape(out.shape)


# ------------------------------------------------------------------ elementwise functions
def _num(x):
    x = norm(x)
    if isinstance(x, SB):
        return x.as_int()
    if isinstance(x, bool):
        return int(x)
    return x


def _div(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a) or is_sym(b):
        return core.f_div(to_sf(a), to_sf(b))
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def _pow(a, b):
    a, b = _num(a), _num(b)
    if is_sym(b):
        b = int(b)
    return a ** b


def _sqrt(a):
    a = _num(a)
    if is_sym(a):
        return core.f_sqrt(to_sf(a))
    with np.errstate(all="ignore"):
        return float(np.sqrt(a))


def _conc1(f):
    def g(x):
        x = _num(x)
        if is_sym(x):
            raise Inconclusive("symbolic argument of np.%s" % f.__name__)
        with np.errstate(all="ignore"):
            return norm(f(x))

    return g


_RANGE = {"sin": (-1, 1), "cos": (-1, 1), "arcsin": (-1.5707963267948968, 1.5707963267948968), "arctan": (-1.5707963267948968, 1.5707963267948968),
          "arccos": (0, 3.1415926535897936), "arctan2": (-3.14159265358979, 3.14159265358979)}


def _ufun(f):
    """trigonometry of symbolic reals: an opaque value in the function's range (the same one for the same argument)"""
    name = f.__name__
    conc = _conc1(f) if f.nin == 1 else _conc2(f)

    def g(*xs):
        xs = [_num(x) for x in xs]
        if not any(is_sym(x) for x in xs):
            return conc(*xs)
        sf = [core.to_sf(x) for x in xs]
        lo, hi = _RANGE[name]
        r = core.opaque(name, [x.v for x in sf])
        core.CTX.assume(core.z3.And(r >= core.rv(lo), r <= core.rv(hi)))
        bad = [x.nan for x in sf] + ([] if "tan" in name else [f for x in sf for f in (x.pinf, x.ninf)])
        return core.SF(r, core.b_or(*bad))

    return g


def _conc2(f):
    def g(x, y):
        x, y = _num(x), _num(y)
        if is_sym(x) or is_sym(y):
            raise Inconclusive("symbolic argument of np.%s" % f.__name__)
        with np.errstate(all="ignore"):
            return norm(f(x, y))

    return g


def _add(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return l_or(a, b)
    return _num(a) + _num(b)


def _mul(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return l_and(a, b)
    return _num(a) * _num(b)


def _inv(a):
    a = norm(a)
    if isinstance(a, (bool, SB)):
        return l_not(a)
    return -a - 1


def _band(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return l_and(a, b)
    return int(a) & int(b)


def _bor(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return l_or(a, b)
    return int(a) | int(b)


def _bxor(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        return l_not(core.l_iff(a, b))
    return int(a) ^ int(b)


def _truth(x):
    return cast_scalar(x, np.dtype(bool))


def _eq(a, b):
    return _num(a) == _num(b) if not (isinstance(a, (bool, SB)) and isinstance(b, (bool, SB))) else core.l_iff(a, b)


def _floor(x):
    x = _num(x)
    return core.f_floor(x) if isinstance(x, SF) else (x if is_sym(x) or isinstance(x, int) else float(np.floor(x)))


def _ceil(x):
    x = _num(x)
    return core.f_ceil(x) if isinstance(x, SF) else (x if is_sym(x) or isinstance(x, int) else float(np.ceil(x)))


def _rint(x):
    x = _num(x)
    return core.f_rint(x) if isinstance(x, SF) else (x if is_sym(x) or isinstance(x, int) else float(np.rint(x)))


def _trunc(x):
    x = _num(x)
    return to_sf(core.f_trunc(x)) if isinstance(x, SF) else (x if is_sym(x) or isinstance(x, int) else float(np.trunc(x)))


def _sign(x):
    x = _num(x)
    if is_sym(x):
        one, zero = (1.0, 0.0) if isinstance(x, SF) else (1, 0)
        return ite(x > 0, one, ite(x < 0, -one, zero))
    return norm(np.sign(x))


def _mod(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a) or is_sym(b):
        return a % b
    with np.errstate(all="ignore"):
        return norm(np.remainder(a, b))


def _fdiv(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a) or is_sym(b):
        return a // b
    with np.errstate(all="ignore"):
        return norm(np.floor_divide(a, b))


_B = "bool"
_F = "float"
_S = "same"
UF = {
    np.add: (_add, _S), np.subtract: (lambda a, b: _num(a) - _num(b), _S), np.multiply: (_mul, _S),
    np.true_divide: (_div, _F), np.floor_divide: (_fdiv, _S), np.remainder: (_mod, _S),
    np.power: (_pow, _S), np.float_power: (_pow, _F), np.negative: (lambda a: -_num(a), _S), np.positive: (lambda a: a, _S),
    np.absolute: (lambda a: abs(_num(a)), _S), np.fabs: (lambda a: abs(_num(a)), _F), np.square: (lambda a: _num(a) * _num(a), _S),
    np.sqrt: (_sqrt, _F), np.sign: (_sign, _S), np.reciprocal: (lambda a: _div(1.0, a), _F),
    np.floor: (_floor, _S), np.ceil: (_ceil, _S), np.rint: (_rint, _S), np.trunc: (_trunc, _S),
    np.equal: (_eq, _B), np.not_equal: (lambda a, b: l_not(_eq(a, b)), _B),
    np.less: (lambda a, b: _num(a) < _num(b), _B), np.less_equal: (lambda a, b: _num(a) <= _num(b), _B),
    np.greater: (lambda a, b: _num(a) > _num(b), _B), np.greater_equal: (lambda a, b: _num(a) >= _num(b), _B),
    np.logical_and: (lambda a, b: l_and(_truth(a), _truth(b)), _B), np.logical_or: (lambda a, b: l_or(_truth(a), _truth(b)), _B),
    np.logical_not: (lambda a: l_not(_truth(a)), _B), np.logical_xor: (lambda a, b: l_not(core.l_iff(_truth(a), _truth(b))), _B),
    np.bitwise_and: (_band, _S), np.bitwise_or: (_bor, _S), np.bitwise_xor: (_bxor, _S), np.invert: (_inv, _S),
    np.isnan: (f_isnan, _B), np.isfinite: (f_isfinite, _B), np.isinf: (f_isinf, _B),
    np.maximum: (lambda a, b: s_max(a, b), _S), np.minimum: (lambda a, b: s_min(a, b), _S),
    np.fmax: (lambda a, b: s_max(a, b, False), _S), np.fmin: (lambda a, b: s_min(a, b, False), _S),
    np.conjugate: (lambda a: a, _S),
    np.deg2rad: (lambda a: _num(a) * (math.pi / 180.0), _F), np.radians: (lambda a: _num(a) * (math.pi / 180.0), _F),
    np.rad2deg: (lambda a: _num(a) * (180.0 / math.pi), _F), np.degrees: (lambda a: _num(a) * (180.0 / math.pi), _F),
}
for _f in (np.sin, np.cos, np.tan, np.arcsin, np.arccos, np.arctan, np.exp, np.log, np.log10, np.log2, np.expm1, np.log1p,
           np.signbit, np.sinh, np.cosh, np.tanh, np.cbrt):
    UF[_f] = (_conc1(_f), _F)
for _f in (np.arctan2, np.hypot, np.copysign, np.left_shift, np.right_shift):
    UF[_f] = (_conc2(_f), _F)
for _f in (np.sin, np.cos, np.arcsin, np.arccos, np.arctan, np.arctan2):
    UF[_f] = (_ufun(_f), _F)


def _res_dtype(kind, ins, ufunc):
    if kind == _B:
        return np.dtype(bool)
    dts = []
    weak = []
    for i in ins:
        if isinstance(i, (bool, int, float)) or is_sym(i):
            weak.append(i)
        else:
            dts.append(dt_of(i))
    dt = None
    for d in dts:
        dt = d if dt is None else np.promote_types(dt, d)
    for w in weak:
        wd = _elem_dtype(w)
        if dt is None:
            dt = wd
        elif wd.kind == "f" and dt.kind in "biu":
            dt = np.dtype("float64")
        elif wd.kind == "i" and dt.kind == "b":
            dt = np.dtype("int64")
    if kind == _F and dt.kind != "f":
        dt = np.dtype("float64")
    if ufunc in (np.subtract, np.negative) and dt.kind == "b":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    return dt


def ufunc_call(ufunc, *ins, out=None, where=True, dtype=None, casting=None, **kw):
    if ufunc not in UF:
        raise Inconclusive("ufunc %s not modelled" % ufunc)
    if ufunc is np.divmod:
        raise Inconclusive("divmod")
    fn, kind = UF[ufunc]
    a = [obj(i) for i in ins]
    res = _map(fn, *a)
    dt = np.dtype(dtype) if dtype is not None else _res_dtype(kind, ins, ufunc)
    if dt.kind == "f":
        res = _map(lambda x: cast_scalar(x, dt), res)
    r = SymArray(res, dt)
    if where is not True:
        base = out[0] if out else SymArray(np.zeros(res.shape, dtype=object), dt)
        r = np_where(where, r, base)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            o[...] = r
            return o
    return r


def _reduce_axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    return tuple(ax % a.ndim if a.ndim else 0 for ax in axis)


def reduce_(fn_list, a, axis=None, keepdims=False, dtype=None, empty=None):
    """apply fn_list(list of scalars) -> scalar over axes"""
    a = obj(a)
    axes = _reduce_axes(a, axis)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes)) if a.ndim else a
    shp = tuple(a.shape[i] for i in rest)
    n = int(np.prod([a.shape[i] for i in axes])) if axes else 1
    b = b.reshape((int(np.prod(shp)) if shp else 1, n))
    out = np.empty(b.shape[0], dtype=object)
    for i in range(b.shape[0]):
        vals = list(b[i])
        if not vals:
            if empty is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            out[i] = empty
        else:
            out[i] = fn_list(vals)
    out = out.reshape(shp)
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return SymArray(out, dtype)


def _fold(f):
    return lambda xs: functools.reduce(f, xs)


def _sum_dt(a, dtype):
    if dtype is not None:
        return np.dtype(dtype)
    d = dt_of(a)
    if d.kind == "b":
        return np.dtype("int64")
    if d.kind in "iu" and d.itemsize < 8:
        return np.dtype("int64") if d.kind == "i" else np.dtype("uint64")
    return d


def _mask_where(a, where):
    return None


def a_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
    a = as_sym(a)
    if where is not None and where is not np._NoValue and where is not True:
        a = np_where(where, a, 0)
    dt = _sum_dt(a, dtype)
    r = reduce_(s_sum, a, axis, keepdims, dt, empty=0.0 if dt.kind == "f" else 0)
    if dt.kind == "f":
        r = r.astype(dt)
    if initial is not None and initial is not np._NoValue:
        r = r + initial
    return _scal(r, axis, out)


def _scal(r, axis, out=None):
    if out is not None and not (isinstance(out, tuple) and out[0] is None):
        o = out[0] if isinstance(out, tuple) else out
        o[...] = r
        return o
    return r


def a_prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return reduce_(_fold(lambda x, y: _num(x) * _num(y)), a, axis, keepdims, _sum_dt(a, dtype), empty=1)


def a_any(a, axis=None, out=None, keepdims=False, where=None, **kw):
    return reduce_(lambda xs: l_or(*[_truth(x) for x in xs]), a, axis, keepdims, np.dtype(bool), empty=False)


def a_all(a, axis=None, out=None, keepdims=False, where=None, **kw):
    return reduce_(lambda xs: l_and(*[_truth(x) for x in xs]), a, axis, keepdims, np.dtype(bool), empty=True)


def a_max(a, axis=None, out=None, keepdims=False, initial=None, where=None, **kw):
    e = None if initial in (None, np._NoValue) else initial
    return reduce_(_fold(s_max), a, axis, keepdims, dt_of(a), empty=e)


def a_min(a, axis=None, out=None, keepdims=False, initial=None, where=None, **kw):
    e = None if initial in (None, np._NoValue) else initial
    return reduce_(_fold(s_min), a, axis, keepdims, dt_of(a), empty=e)


def a_nanmax(a, axis=None, out=None, keepdims=False, **kw):
    return reduce_(_fold(lambda x, y: s_max(x, y, False)), a, axis, keepdims, dt_of(a))


def a_nanmin(a, axis=None, out=None, keepdims=False, **kw):
    return reduce_(_fold(lambda x, y: s_min(x, y, False)), a, axis, keepdims, dt_of(a))


def _fdt(a):
    d = dt_of(a)
    return d if d.kind == "f" else np.dtype("float64")


def a_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return reduce_(lambda xs: _div(s_sum(xs), len(xs)), a, axis, keepdims, _fdt(a), empty=math.nan)


def _nansum(xs):
    return s_sum([ite(f_isnan(x), 0.0, x) if f_isnan(x) is not False else x for x in xs])


def _nancount(xs):
    return s_sum([l_not(f_isnan(x)) for x in xs])


def a_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return reduce_(_nansum, a, axis, keepdims, _sum_dt(a, dtype), empty=0.0)


def a_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return reduce_(lambda xs: _div(_nansum(xs), _nancount(xs)), a, axis, keepdims, _fdt(a), empty=math.nan)


def a_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    def f(xs):
        m = _div(s_sum(xs), len(xs))
        return _div(s_sum([(x - m) * (x - m) for x in xs]), len(xs) - ddof)

    return reduce_(f, a, axis, keepdims, _fdt(a))


def a_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return np.sqrt(a_var(a, axis, dtype, None, ddof, keepdims))


def a_nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    def f(xs):
        n = _nancount(xs)
        m = _div(_nansum(xs), n)
        return _div(_nansum([(x - m) * (x - m) for x in xs]), n - ddof)

    return reduce_(f, a, axis, keepdims, _fdt(a))


def a_nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return np.sqrt(a_nanvar(a, axis, dtype, None, ddof, keepdims))


def a_argred(better):
    def g(a, axis=None, out=None, keepdims=False, **kw):
        def f(xs):
            bi, bv = 0, xs[0]
            for i in range(1, len(xs)):
                c = better(xs[i], bv)
                # first NaN wins in numpy's argmax/argmin
                c = l_and(l_not(f_isnan(bv)), l_or(c, f_isnan(xs[i])))
                bi, bv = ite(c, i, bi), ite(c, xs[i], bv)
            return bi

        return reduce_(f, a, axis, keepdims, np.dtype("int64"))

    return g


a_argmax = a_argred(lambda x, b: _num(x) > _num(b))
a_argmin = a_argred(lambda x, b: _num(x) < _num(b))


def a_accum(fn, nan=None):
    def g(a, axis=None, dtype=None, out=None, **kw):
        dt = _sum_dt(a, dtype)
        a = obj(a)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        axis = axis % a.ndim
        b = np.moveaxis(a, axis, 0)
        res = np.empty(b.shape, dtype=object)
        acc = None
        for i in range(b.shape[0]):
            row = b[i] if isinstance(b[i], np.ndarray) else obj(b[i])
            if nan is not None:
                row = _map(lambda x: ite(f_isnan(x), nan, x), row)
            acc = row if acc is None else _map(fn, acc, row)
            res[i] = acc if acc.ndim else acc[()]
        return _scal(SymArray(np.moveaxis(res, 0, axis).copy(), dt), axis, out)

    return g


a_cumsum = a_accum(lambda x, y: _num(x) + _num(y))
a_cumprod = a_accum(lambda x, y: _num(x) * _num(y))


def _sorted_net(xs):
    """symbolic sort (bubble network), NaN last"""
    xs = list(xs)
    n = len(xs)
    if not any(is_sym(x) for x in xs):
        return sorted(xs, key=lambda x: (x != x, x))
    conc = sorted([x for x in xs if not is_sym(x)], key=lambda x: (x != x, x))
    if len(conc) > 2:  # mostly known values: insert the unknown ones
        s = conc
        for x in [x for x in xs if is_sym(x)]:
            c = [True] + [l_not(l_or(_num(a) > _num(x), l_and(f_isnan(a), l_not(f_isnan(x))))) for a in s] + [False]
            s = [ite(c[i + 1], s[i] if i < len(s) else x, ite(c[i], x, s[i - 1] if i else x)) for i in range(len(s) + 1)]
        return s
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            gt = l_or(_num(a) > _num(b), l_and(f_isnan(a), l_not(f_isnan(b))))
            xs[j], xs[j + 1] = ite(gt, b, a), ite(gt, a, b)
    return xs


def _quantile_list(xs, q, method, skipna):
    if method not in ("linear",):
        raise Inconclusive("quantile method %s" % method)
    n = len(xs)
    anynan = l_or(*[f_isnan(x) for x in xs])
    s = _sorted_net(xs)

    def at(cnt):
        if cnt == 0:
            return math.nan
        pos = (cnt - 1) * q
        lo = int(math.floor(pos))
        hi = min(lo + 1, cnt - 1)
        fr = pos - lo
        return s[lo] + (s[hi] - s[lo]) * fr if fr else s[lo] + 0.0

    if anynan is False:
        return at(n)
    if not skipna:
        return ite(anynan, math.nan, at(n))
    cnt = _nancount(xs)
    r = at(n)
    for k in range(n):
        r = ite(cnt == k, at(k), r)
    return r


def a_quantile(skipna, scale=1.0):
    def g(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **kw):
        keepdims = keepdims is True
        qa = np.asarray(q, dtype=float) * scale
        rs = [reduce_(lambda xs: _quantile_list(xs, float(qq), method, skipna), a, axis, bool(keepdims), _fdt(a)) for qq in qa.reshape(-1)]
        if qa.ndim == 0:
            return rs[0]
        return np_stack(rs, axis=0)

    return g


def a_median(a, axis=None, out=None, keepdims=False, **kw):
    return a_quantile(False)(a, 0.5, axis=axis, keepdims=keepdims)


def a_nanmedian(a, axis=None, out=None, keepdims=False, **kw):
    return a_quantile(True)(a, 0.5, axis=axis, keepdims=keepdims)


def np_where(c, x=None, y=None):
    if x is None and y is None:
        return a_nonzero(c)
    dt = _res_dtype(_S, (x, y), np.add)
    ca, xa, ya = obj(c), obj(x), obj(y)
    res = _map(lambda cc, a, b: cast_scalar(ite(_truth(cc), a, b), dt), ca, xa, ya)
    return SymArray(res, dt)


def conc_mask(a):
    """force a boolean array to concrete values on this path (forks)"""
    a = obj(a)
    out = np.zeros(a.shape, dtype=bool)
    for idx in np.ndindex(a.shape):
        out[idx] = bool(_truth(a[idx]))
    return out


def conc_int(a):
    a = obj(a)
    out = np.zeros(a.shape, dtype=np.int64)
    for idx in np.ndindex(a.shape):
        out[idx] = int(a[idx])
    return out


def a_nonzero(a):
    return np.nonzero(conc_mask(a))


def np_stack(arrs, axis=0, out=None, **kw):
    arrs = list(arrs)
    dt = _res_dtype(_S, arrs, np.add)
    r = np.stack([obj(a) for a in arrs], axis=axis)
    return SymArray(r, dt)


def np_concatenate(arrs, axis=0, out=None, dtype=None, **kw):
    arrs = [x if isinstance(x, (SymArray, np.ndarray)) else np.asarray(x) for x in arrs]
    dt = np.dtype(dtype) if dtype is not None else _res_dtype(_S, arrs, np.add)
    r = np.concatenate([obj(a) for a in arrs], axis=axis)
    r = SymArray(r, dt)
    if dt.kind == "f":
        r = r.astype(dt)
    return r


def np_searchsorted(a, v, side="left", sorter=None):
    a = obj(a)
    va = obj(v)

    def f(x):
        xn = f_isnan(x)
        cs = [(_num(b) < _num(x)) if side == "left" else (_num(b) <= _num(x)) for b in a]
        # NaN sorts after everything
        if xn is not False:
            bn = [f_isnan(b) for b in a]
            cs = [ite(xn, l_not(n) if side == "left" else True, c) for c, n in zip(cs, bn)]
        return s_sum(cs)

    return SymArray(_map(f, va), np.dtype("int64"))


def np_digitize(x, bins, right=False):
    b = np.asarray(bins) if not isinstance(bins, SymArray) else bins
    return np_searchsorted(b, x, side="left" if right else "right")


def np_clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.pop("min", a_min)
    a_max = kw.pop("max", a_max)
    r = as_sym(a)
    dt = r.dtype
    if a_min is not None and a_min is not np._NoValue:
        r = np.maximum(r, a_min)
    if a_max is not None and a_max is not np._NoValue:
        r = np.minimum(r, a_max)
    return r


def np_isin(el, test, assume_unique=False, invert=False, **kw):
    t = list(obj(as_sym(test)).flat)
    r = _map(lambda x: l_or(*[_eq(x, y) for y in t]) if t else False, obj(el))
    if invert:
        r = _map(l_not, r)
    return SymArray(r, np.dtype(bool))


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = as_sym(a)
    if axis is not None:
        raise Inconclusive("unique(axis)")
    if a.dtype.kind in "iu":
        c = conc_int(a)
    elif a.dtype.kind == "b":
        c = conc_mask(a)
    else:
        if has_sym(a._a):
            raise Inconclusive("unique of symbolic reals")
        c = a._a.astype(float)
    return np.unique(c, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts)


def np_dot(a, b, out=None):
    a, b = as_sym(a), as_sym(b)
    return np_tensordot(a, b, axes=([a.ndim - 1], [max(b.ndim - 2, 0)])) if a.ndim and b.ndim else a * b


def np_matmul(a, b, **kw):
    a, b = as_sym(a), as_sym(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return np_dot(a, b)
    A, B = np.broadcast_arrays(a._a[..., :, :, None], b._a[..., None, :, :])
    return reduce_(s_sum, _map(_mul_num, A, B), axis=-2, dtype=_res_dtype(_S, (a, b), np.multiply))


def _mul_num(x, y):
    return _num(x) * _num(y)


def np_tensordot(a, b, axes=2):
    a, b = as_sym(a), as_sym(b)
    if isinstance(axes, (int, np.integer)):
        axa, axb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        axa, axb = axes
        axa = [axa] if np.isscalar(axa) else list(axa)
        axb = [axb] if np.isscalar(axb) else list(axb)
    axa = [x % a.ndim for x in axa]
    axb = [x % b.ndim for x in axb]
    ra = [i for i in range(a.ndim) if i not in axa]
    rb = [i for i in range(b.ndim) if i not in axb]
    A = a._a.transpose(ra + axa).reshape(int(np.prod([a.shape[i] for i in ra], dtype=int)), -1)
    B = b._a.transpose(axb + rb).reshape(A.shape[1], -1)
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(out.shape[0]):
        for j in range(out.shape[1]):
            out[i, j] = s_sum([_num(x) * _num(y) for x, y in zip(A[i], B[:, j]) if not (_zero(x) or _zero(y))])
    shp = tuple(a.shape[i] for i in ra) + tuple(b.shape[i] for i in rb)
    dt = _res_dtype(_S, (a, b), np.multiply)
    r = SymArray(out.reshape(shp), dt)
    return r.astype(dt) if dt.kind == "f" else r


def _zero(x):
    return isinstance(x, (int, float)) and x == 0


def np_einsum(*operands, **kw):
    if not isinstance(operands[0], str):
        # einsum(op0, sublist0, op1, sublist1, ..., [sublistout])
        ops = list(operands)
        out = None
        if len(ops) % 2 == 1:
            out = ops.pop()
        arrs = ops[0::2]
        subs = ops[1::2]
        let = {}

        def L(s):
            return "".join("..." if x is Ellipsis else let.setdefault(x, chr(97 + len(let))) for x in s)

        spec = ",".join(L(s) for s in subs)
        if out is not None:
            spec += "->" + L(out)
        return np_einsum(spec, *arrs)
    spec, *arrs = operands
    arrs = [as_sym(a) for a in arrs]
    spec = spec.replace(" ", "")
    lhs, _, rhs = spec.partition("->")
    terms = lhs.split(",")
    # expand ellipsis
    nell = 0
    new = []
    for t, a in zip(terms, arrs):
        if "..." in t:
            k = a.ndim - len(t.replace("...", ""))
            nell = max(nell, k)
    ell = "".join(chr(65 + i) for i in range(nell))
    for t, a in zip(terms, arrs):
        if "..." in t:
            k = a.ndim - len(t.replace("...", ""))
            t = t.replace("...", ell[nell - k:])
        new.append(t)
    if rhs or "->" in spec:
        rhs = rhs.replace("...", ell)
    else:
        cnt = {}
        for ch in "".join(new):
            cnt[ch] = cnt.get(ch, 0) + 1
        rhs = ell + "".join(sorted(ch for ch in cnt if cnt[ch] == 1 and ch not in ell))
    dims = {}
    for t, a in zip(new, arrs):
        for ch, n in zip(t, a.shape):
            if dims.get(ch, 1) == 1:
                dims[ch] = n
    summed = [ch for ch in dims if ch not in rhs]
    out = np.empty(tuple(dims[ch] for ch in rhs), dtype=object)
    for idx in np.ndindex(out.shape):
        env = dict(zip(rhs, idx))
        acc = []
        for sidx in itertools.product(*[range(dims[ch]) for ch in summed]):
            env2 = dict(env, **dict(zip(summed, sidx)))
            p = None
            for t, a in zip(new, arrs):
                x = _num(a._a[tuple(env2[ch] if a.shape[k] != 1 else 0 for k, ch in enumerate(t))])
                p = x if p is None else p * x
            acc.append(p)
        out[idx] = s_sum(acc)
    dt = functools.reduce(np.promote_types, [a.dtype for a in arrs])
    r = SymArray(out, dt)
    return r.astype(dt) if dt.kind == "f" else r


def np_bincount(x, weights=None, minlength=0):
    x = as_sym(x)
    n = int(minlength)
    mx = a_max(x)._a[()] if x.size else -1
    if is_sym(mx):
        # bins beyond minlength: fork on the maximum
        if bool(mx >= n):
            n = int(mx) + 1
    else:
        n = max(n, int(mx) + 1)
    w = obj(weights) if weights is not None else None
    out = np.empty(n, dtype=object)
    for k in range(n):
        out[k] = s_sum([ite(_eq(v, k), w[i] if w is not None else 1, 0.0 if w is not None else 0) for i, v in enumerate(x._a)])
    return SymArray(out, np.dtype("float64") if w is not None else np.dtype("int64"))


def np_sort(a, axis=-1, **kw):
    a = as_sym(a)
    if axis is None:
        b = a._a.reshape(-1)
        axis = 0
    else:
        b = a._a
    b = np.moveaxis(b, axis, -1)
    out = np.empty(b.shape, dtype=object)
    for idx in np.ndindex(b.shape[:-1]):
        out[idx] = np.array(_sorted_net(list(b[idx])) + [None], dtype=object)[:-1]
    return SymArray(np.moveaxis(out, -1, axis), a.dtype)


def np_argsort(a, axis=-1, kind=None, **kw):
    a = as_sym(a)
    if a.ndim != 1:
        raise Inconclusive("argsort nd")
    xs = list(a._a)

    def cmp(i, j):
        if bool(_num(xs[i]) < _num(xs[j])):
            return -1
        if bool(_num(xs[j]) < _num(xs[i])):
            return 1
        return -1 if i < j else 1

    return np.array(sorted(range(len(xs)), key=functools.cmp_to_key(cmp)), dtype=np.int64)


def np_array_equal(a, b, **kw):
    a, b = as_sym(a), as_sym(b)
    if a.shape != b.shape:
        return False
    return a_all(a == b)._a[()]


def np_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    return SymArray(_map(lambda x: ite(f_isnan(x), nan, x), obj(a)), dt_of(a))


def np_full_like(a, fill_value, dtype=None, shape=None, **kw):
    shp = a.shape if shape is None else ((shape,) if isinstance(shape, (int, np.integer)) else tuple(shape))
    dt = np.dtype(dtype) if dtype is not None else dt_of(a)
    out = np.empty(shp, dtype=object)
    fv = norm(fill_value)
    if isinstance(fv, (SymArray, np.ndarray)):
        r = SymArray(out, dt)
        r[...] = fv
        return r
    v = cast_scalar(fv, dt)
    for i in np.ndindex(out.shape):
        out[i] = v
    return SymArray(out, dt)


def _like(v):
    def g(a, dtype=None, shape=None, **kw):
        return np_full_like(a, v, dtype, shape)

    return g


def np_bool_fn(name):
    pass


def np_add_at(arr, idx, val=1):
    va = obj(val)
    ia = idx
    if isinstance(ia, tuple):
        ii = np.broadcast_arrays(*[obj(i) for i in ia])
        va = np.broadcast_to(va, ii[0].shape)
        for k in np.ndindex(ii[0].shape):
            key = tuple(i[k] for i in ii)
            arr[key] = arr[key] + va[k]
    else:
        i0 = obj(ia) if not isinstance(ia, slice) else None
        if i0 is None:
            arr[ia] = arr[ia] + val
            return
        va = np.broadcast_to(va, i0.shape)
        for k in np.ndindex(i0.shape):
            arr[i0[k]] = arr[i0[k]] + va[k]


HANDLED = {}
STRICT = False


def _reg(f, impl):
    if f is not None:
        HANDLED[f] = impl


for _nm, _im in dict(
    sum=a_sum, prod=a_prod, any=a_any, all=a_all, max=a_max, amax=a_max, min=a_min, amin=a_min, nanmax=a_nanmax, nanmin=a_nanmin,
    mean=a_mean, nansum=a_nansum, nanmean=a_nanmean, var=a_var, std=a_std, nanvar=a_nanvar, nanstd=a_nanstd,
    argmax=a_argmax, argmin=a_argmin, cumsum=a_cumsum, cumprod=a_cumprod, nancumsum=a_accum(lambda x, y: _num(x) + _num(y), 0.0),
    quantile=a_quantile(False), nanquantile=a_quantile(True), percentile=a_quantile(False, 0.01), nanpercentile=a_quantile(True, 0.01),
    median=a_median, nanmedian=a_nanmedian, where=np_where, nonzero=a_nonzero, flatnonzero=lambda a: np.flatnonzero(conc_mask(obj(a))),
    argwhere=lambda a: np.argwhere(conc_mask(obj(a))),
    count_nonzero=lambda a, axis=None, keepdims=False: a_sum(as_sym(a).astype(bool), axis=axis, keepdims=keepdims),
    stack=np_stack, concatenate=np_concatenate, searchsorted=np_searchsorted, digitize=np_digitize, clip=np_clip, isin=np_isin,
    unique=np_unique, dot=np_dot, tensordot=np_tensordot, einsum=np_einsum, bincount=np_bincount, sort=np_sort, argsort=np_argsort,
    array_equal=np_array_equal, nan_to_num=np_nan_to_num, full_like=np_full_like, zeros_like=_like(0), ones_like=_like(1), empty_like=_like(0),
    matmul=np_matmul, array_equiv=np_array_equal,
).items():
    _reg(getattr(np, _nm, None), _im)


def _simple(f):
    """shape-manipulation functions: run on the object arrays, keep the logical dtype"""

    def g(*args, **kw):
        dts = []

        def conv(x):
            if isinstance(x, SymArray):
                dts.append(x.dtype)
                return x._a
            if isinstance(x, (list, tuple)):
                return type(x)(conv(y) for y in x) if not hasattr(x, "_fields") else x
            if joins and isinstance(x, np.ndarray) and x.dtype.kind in "biuf":
                dts.append(x.dtype)
            return x

        joins = f in (np.column_stack, np.hstack, np.vstack, np.dstack, np.append)
        r = f(*[conv(a) for a in args], **{k: conv(v) for k, v in kw.items()})
        dt = functools.reduce(np.promote_types, dts) if dts else None

        def back(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                return SymArray(x, dt)
            if isinstance(x, (list, tuple)):
                return type(x)(back(y) for y in x)
            return x

        return back(r)

    return g


for _nm in ("reshape", "ravel", "transpose", "moveaxis", "swapaxes", "squeeze", "expand_dims", "broadcast_to", "broadcast_arrays", "roll",
            "flip", "fliplr", "flipud", "rot90", "repeat", "tile", "take", "split", "array_split", "hstack", "vstack", "dstack", "pad",
            "atleast_1d", "atleast_2d", "atleast_3d", "copy", "delete", "insert", "append", "diag", "tril", "triu", "compress",
            "column_stack", "block", "meshgrid", "take_along_axis", "rollaxis", "resize", "diagonal", "trace", "hsplit", "vsplit"):
    if hasattr(np, _nm):
        _reg(getattr(np, _nm), _simple(getattr(np, _nm)))


def np_take(a, indices, axis=None, out=None, mode="raise"):
    a = as_sym(a)
    if axis is None:
        a = SymArray(a._a.reshape(-1), a.dtype)
        axis = 0
    key = (slice(None),) * (axis % a.ndim) + (indices,)
    return a[key]


_reg(np.take, np_take)


def np_take_along_axis(arr, indices, axis=-1):
    arr, ind = as_sym(arr), as_sym(indices)
    axis = axis % arr.ndim
    out = np.empty(ind.shape, dtype=object)
    for k in np.ndindex(ind.shape):
        key = list(k)
        key = tuple(0 if (arr.shape[d] == 1 and d != axis) else key[d] for d in range(arr.ndim))
        key = key[:axis] + (ind._a[k],) + key[axis + 1:]
        out[k] = arr[key]._symx_item()
    return SymArray(out, arr.dtype)


_reg(np.take_along_axis, np_take_along_axis)


def np_pad(array, pad_width, mode="constant", **kw):
    a = as_sym(array)
    idx = np.arange(a.size).reshape(a.shape)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        p = np.pad(idx, pad_width, mode="constant", constant_values=-1)
        out = np.empty(p.shape, dtype=object)
        fl = a._a.reshape(-1)
        if not np.isscalar(cv) and not is_sym(cv):
            cvs = set(np.asarray(cv).reshape(-1).tolist())
            if len(cvs) != 1 and not all(x != x for x in cvs):
                raise Inconclusive("pad constants")
            cv = np.asarray(cv).reshape(-1)[0]
        for k in np.ndindex(p.shape):
            out[k] = fl[p[k]] if p[k] >= 0 else cast_scalar(cv, a.dtype)
        return SymArray(out, a.dtype)
    p = np.pad(idx, pad_width, mode=mode, **kw)
    return SymArray(a._a.reshape(-1)[p], a.dtype)


_reg(np.pad, np_pad)


def np_result_type(*args):
    return np.result_type(*[a.dtype if isinstance(a, SymArray) else a for a in args])


_reg(np.result_type, np_result_type)
_reg(np.shape, lambda a: a.shape)
_reg(np.ndim, lambda a: a.ndim)
_reg(np.size, lambda a, axis=None: a.size if axis is None else a.shape[axis])
_reg(np.can_cast, lambda f, t, casting="safe": np.can_cast(f.dtype if isinstance(f, SymArray) else f, t, casting))
_reg(np.iscomplexobj, lambda x: False)
_reg(np.isrealobj, lambda x: True)
_reg(np.may_share_memory, lambda a, b, max_work=None: False)
_reg(np.shares_memory, lambda a, b, max_work=None: False)
_reg(np.real, lambda a: a)
_reg(np.around, lambda a, decimals=0, out=None: np.rint(a) if decimals == 0 else _unsupported("round"))
_reg(np.round, lambda a, decimals=0, out=None: np.rint(a) if decimals == 0 else _unsupported("round"))
_reg(np.diff, lambda a, n=1, axis=-1, **kw: _diff(a, n, axis))
_reg(np.allclose, lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: a_all(np.abs(as_sym(a) - b) <= atol + rtol * np.abs(as_sym(b)))._a[()])
_reg(np.isclose, lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: np.abs(as_sym(a) - b) <= atol + rtol * np.abs(as_sym(b)))
_reg(np.ptp, lambda a, axis=None, **k: a_max(a, axis) - a_min(a, axis))
_reg(np.array_repr, lambda a, *x, **k: "<SymArray>")
_reg(np.array_str, lambda a, *x, **k: "<SymArray>")
_reg(np.array2string, lambda a, *x, **k: "<SymArray>")


def _diff(a, n, axis):
    a = as_sym(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def _unsupported(x):
    raise Inconclusive("numpy operation not modelled: %s" % x)


def np_sliding_window_view(x, window_shape, axis=None, *, subok=False, writeable=False, **kw):
    return SymArray(np.lib.stride_tricks.sliding_window_view.__wrapped__(x._a, window_shape, axis)
                    if hasattr(np.lib.stride_tricks.sliding_window_view, "__wrapped__")
                    else np.lib.stride_tricks.sliding_window_view(x._a, window_shape, axis), x.dtype)


_reg(np.lib.stride_tricks.sliding_window_view, np_sliding_window_view)


def np_cov_like(*a, **k):
    _unsupported("cov")


def np_interp(x, xp, fp, left=None, right=None, period=None):
    xa = obj(x)
    xp = [norm(v) for v in obj(as_sym(xp))]
    fp = [norm(v) for v in obj(as_sym(fp))]
    if any(is_sym(v) for v in xp) or period is not None:
        _unsupported("interp with symbolic nodes")

    def f(v):
        r = fp[-1] if right is None else right
        for i in range(len(xp) - 2, -1, -1):
            slope = _div(fp[i + 1] - fp[i], xp[i + 1] - xp[i])
            r = ite(_num(v) < xp[i + 1], fp[i] + slope * (v - xp[i]), r if i < len(xp) - 2 else ite(_num(v) == xp[-1], fp[-1], r))
        r = ite(_num(v) < xp[0], fp[0] if left is None else left, r)
        return r

    return SymArray(_map(f, xa), np.dtype("float64"))


_reg(np.interp, np_interp)


def np_average(a, axis=None, weights=None, returned=False, **kw):
    a = as_sym(a)
    if weights is None:
        return a_mean(a, axis)
    w = as_sym(weights)
    return a_sum(a * w, axis) / a_sum(w, axis)


_reg(np.average, np_average)


def np_histogram(a, bins=10, range=None, density=None, weights=None):
    b = np.asarray(bins)
    a = as_sym(a)
    vals = list(a._a.reshape(-1))
    out = np.empty(len(b) - 1, dtype=object)
    for k in np.arange(len(b) - 1):
        lo, hi = float(b[k]), float(b[k + 1])
        last = k == len(b) - 2
        out[k] = s_sum([l_and(_num(v) >= lo, (_num(v) <= hi) if last else (_num(v) < hi)) for v in vals])
    return SymArray(out, np.dtype("int64")), b


_reg(np.histogram, np_histogram)


class _Flags:
    writeable = True
    c_contiguous = True
    f_contiguous = False
    owndata = True

    def __getitem__(self, k):
        return True


class SymArray(NDArrayOperatorsMixin):
    __array_priority__ = 100000

    def __init__(self, a, dtype=None):
        if isinstance(a, SymArray):
            dtype = dtype or a.dtype
            a = a._a
        if not isinstance(a, np.ndarray) or a.dtype != object:
            a = obj(a)
        self._a = a
        self.dtype = np.dtype(dtype) if dtype is not None else infer_dtype(a)

    # numpy-like attributes
    shape = property(lambda s: s._a.shape, lambda s, v: setattr(s._a, "shape", v))
    ndim = property(lambda s: s._a.ndim)
    size = property(lambda s: s._a.size)
    T = property(lambda s: SymArray(s._a.T, s.dtype))
    real = property(lambda s: s)
    imag = property(lambda s: s * 0)
    nbytes = property(lambda s: s._a.size * s.dtype.itemsize)
    itemsize = property(lambda s: s.dtype.itemsize)
    flags = property(lambda s: _Flags())
    strides = property(lambda s: s._a.strides)
    base = None

    @property
    def flat(self):
        return self._a.flat

    def __len__(self):
        return len(self._a)

    def __repr__(self):
        return "<SymArray %s %s>" % (self.shape, self.dtype)

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def _symx_item(self):
        if self._a.size != 1:
            raise ValueError("only size-1 arrays can be converted")
        return norm(self._a.reshape(-1)[0])

    def item(self, *a):
        if a:
            return norm(self._a.item(*a))
        return self._symx_item()

    def tolist(self):
        return self._a.tolist()

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self._symx_item())

    def __int__(self):
        return int(self._symx_item())

    def __float__(self):
        return float(self._symx_item())

    def __index__(self):
        if self._a.ndim or self.dtype.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self._symx_item())

    def __hash__(self):
        raise TypeError("unhashable")

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool(a_any(self == x))

    def __array__(self, dtype=None, copy=None):
        if has_sym(self._a):
            if STRICT:
                raise Inconclusive("symbolic array converted to a concrete ndarray")
            if dtype is not None and np.dtype(dtype) == object:
                return self._a
            if self.dtype.kind == "b":
                return conc_mask(self._a)
            if self.dtype.kind in "iu":
                return conc_int(self._a).astype(dtype or self.dtype)
            raise Inconclusive("symbolic array converted to a concrete ndarray")
        return self._a.astype(dtype or self.dtype)

    def __deepcopy__(self, memo):
        return self.copy()

    def __dask_tokenize__(self):
        t = getattr(core.CTX, "token", None)
        if t is None:
            return ("SymArray", id(self), uuid.uuid4().hex)
        core.CTX.token = t + 1
        return ("SymArray", t)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        for i in inputs:
            if not isinstance(i, (SymArray, np.ndarray, np.generic, bool, int, float, list, tuple)) and not is_sym(i):
                return NotImplemented
        if method == "__call__":
            if ufunc is np.matmul:
                return np_matmul(*inputs)
            if ufunc is np.divmod:
                return np.floor_divide(*inputs), np.remainder(*inputs)
            if ufunc is np.modf:
                _unsupported("modf")
            return ufunc_call(ufunc, *inputs, out=out, **kw)
        if method == "reduce":
            a = inputs[0]
            axis = inputs[1] if len(inputs) > 1 else kw.get("axis", 0)
            kd = kw.get("keepdims", False)
            fn = {np.add: a_sum, np.multiply: a_prod, np.logical_or: a_any, np.logical_and: a_all, np.maximum: a_max, np.minimum: a_min,
                  np.fmax: a_nanmax, np.fmin: a_nanmin, np.bitwise_or: a_any, np.bitwise_and: a_all}.get(ufunc)
            if fn is None:
                return NotImplemented
            if ufunc is np.add:
                return fn(a, axis=axis, keepdims=kd, dtype=kw.get("dtype"), out=out, initial=kw.get("initial"))
            return fn(a, axis=axis, keepdims=kd, initial=kw.get("initial")) if ufunc in (np.maximum, np.minimum) else fn(a, axis=axis, keepdims=kd)
        if method == "accumulate":
            ax = inputs[1] if len(inputs) > 1 else kw.get("axis", 0)
            if ufunc is np.add:
                return a_cumsum(inputs[0], axis=ax, dtype=kw.get("dtype"), out=out)
            fn = {np.maximum: s_max, np.minimum: s_min, np.logical_or: lambda x, y: l_or(_truth(x), _truth(y)),
                  np.logical_and: lambda x, y: l_and(_truth(x), _truth(y)), np.multiply: lambda x, y: _num(x) * _num(y)}.get(ufunc)
            if fn is None:
                return NotImplemented
            return a_accum(fn)(inputs[0], axis=ax)
        if method == "at":
            a, idx = inputs[0], inputs[1]
            if ufunc is np.add:
                return np_add_at(a, idx, *inputs[2:])
            return NotImplemented
        if method == "outer":
            x, y = as_sym(inputs[0]), as_sym(inputs[1])
            return ufunc_call(ufunc, x.reshape(x.shape + (1,) * y.ndim), y)
        return NotImplemented

    def __array_function__(self, func, types, args, kwargs):
        for t in types:
            if t.__module__.startswith(("dask.", "xarray.")):
                return NotImplemented
        impl = HANDLED.get(func)
        if func is np.unique and not _has_sym_args(args):
            return _reconc_all(func(*_deconc(args), **kwargs))
        if impl is not None:
            return impl(*args, **kwargs)
        # generic fallback: numpy's own python implementation on object arrays (comparisons fork)
        if not _has_sym_args(args) and not _has_sym_args(tuple(kwargs.values())):
            r = func(*_deconc(args), **{k: _deconc(v) for k, v in kwargs.items()})
            return _reconc(r)
        if func.__module__ and "linalg" in func.__module__:
            raise Inconclusive("linear algebra on symbolic values: %s" % func.__name__)
        return _simple(func)(*args, **kwargs)

    # methods --------------------------------------------------------------------------
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if dt.kind in "Mm":
            raise Inconclusive("datetime cast")
        return SymArray(_map(lambda x: cast_scalar(x, dt), self._a), dt if dt.kind != "O" else self.dtype)

    def copy(self, order="C"):
        return SymArray(self._a.copy(), self.dtype)

    def view(self, *a, **k):
        if a and isinstance(a[0], type):
            return self
        if a:
            return self.astype(a[0])
        return self

    def reshape(self, *shp, **kw):
        if len(shp) == 1 and isinstance(shp[0], (tuple, list)):
            shp = tuple(shp[0])
        return SymArray(self._a.reshape(tuple(int(s) for s in shp)), self.dtype)

    def ravel(self, order="C"):
        return SymArray(self._a.ravel(), self.dtype)

    def flatten(self, order="C"):
        return SymArray(self._a.flatten(), self.dtype)

    def transpose(self, *axes):
        return SymArray(self._a.transpose(*axes), self.dtype)

    def swapaxes(self, a, b):
        return SymArray(self._a.swapaxes(a, b), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self._a.squeeze(axis), self.dtype)

    def repeat(self, *a, **k):
        return SymArray(self._a.repeat(*a, **k), self.dtype)

    def take(self, indices, axis=None, **k):
        return np_take(self, indices, axis)

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return a_sum(self, axis, dtype, out, keepdims, **k)

    def prod(self, axis=None, **k):
        return a_prod(self, axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return a_mean(self, axis, dtype, out, keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return a_var(self, axis, dtype, out, ddof, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return a_std(self, axis, dtype, out, ddof, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return a_max(self, axis, out, keepdims, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return a_min(self, axis, out, keepdims, **k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return a_any(self, axis, out, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return a_all(self, axis, out, keepdims)

    def argmax(self, axis=None, out=None, **k):
        return a_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return a_argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return np_argsort(self, axis)

    def sort(self, axis=-1, **k):
        self._a[...] = np_sort(self, axis)._a

    def cumsum(self, axis=None, dtype=None, out=None):
        return a_cumsum(self, axis, dtype, out)

    def nonzero(self):
        return a_nonzero(self)

    def clip(self, lo=None, hi=None, **k):
        return np_clip(self, lo, hi, **k)

    def dot(self, o):
        return np_dot(self, o)

    def round(self, decimals=0, out=None):
        return np.rint(self)

    def conj(self):
        return self

    def searchsorted(self, v, side="left", sorter=None):
        return np_searchsorted(self, v, side)

    def compute(self, **k):
        return self

    def persist(self, **k):
        return self

    # indexing -------------------------------------------------------------------------
    def _prep_key(self, key):
        """returns (key, symbolic?) with SymArrays resolved"""
        single = not isinstance(key, tuple)
        if single:
            key = (key,)
        out = []
        for k in key:
            if isinstance(k, SymArray):
                if k.dtype.kind == "b":
                    k = k._a if has_sym(k._a) else k._a.astype(bool)
                    out.append(("mask", k))
                    continue
                if has_sym(k._a):
                    out.append(("sym", k._a))
                    continue
                out.append(("c", k._a.astype(np.int64)))
                continue
            if isinstance(k, SI):
                out.append(("sym", obj(k)))
                continue
            if isinstance(k, SB):
                out.append(("c", bool(k)))
                continue
            if isinstance(k, np.ndarray) and k.dtype == object:
                kk = SymArray(k)
                return self._prep_key(tuple(key[:len(out)]) + (kk,) + tuple(key[len(out) + 1:]))
            if isinstance(k, list):
                ka = sym_asarray(k)
                if isinstance(ka, SymArray):
                    return self._prep_key(tuple(key[:len(out)]) + (ka,) + tuple(key[len(out) + 1:]))
                out.append(("c", np.asarray(ka)))
                continue
            if isinstance(k, slice):
                k = slice(*[operator.index(x) if x is not None and not isinstance(x, int) else x for x in (k.start, k.stop, k.step)])
            out.append(("c", k))
        return out, single

    def __getitem__(self, key):
        ks, single = self._prep_key(key)
        kinds = {k for k, _ in ks}
        if "sym" not in kinds:
            kk = tuple(conc_mask(v) if (k == "mask" and v.dtype == object) else v for k, v in ks)
            r = self._a[kk if not single else kk[0]]
            if isinstance(r, np.ndarray):
                return SymArray(r, self.dtype)
            return _Scalar(r, self.dtype)
        # symbolic integer indices: ite-chains over all positions of that axis
        kk = [conc_mask(v) if (k == "mask" and v.dtype == object) else v for k, v in ks]
        nd = self._a.ndim
        # expand ellipsis
        if any(v is Ellipsis for v in kk):
            i = [v is Ellipsis for v in kk].index(True)
            n_missing = nd - (len(kk) - 1)
            kk = kk[:i] + [slice(None)] * n_missing + kk[i + 1:]
            ks = ks[:i] + [("c", slice(None))] * n_missing + ks[i + 1:]
        while len(kk) < nd:
            kk.append(slice(None))
            ks = list(ks) + [("c", slice(None))]
        syms = [i for i, (k, _) in enumerate(ks) if k == "sym"]
        # normalise + bounds-check
        for i in syms:
            n = self._a.shape[i]

            def chk(x):
                x = norm(x)
                if is_sym(x):
                    inb = l_and(x >= -n, x < n)
                    if not (inb if isinstance(inb, bool) else bool(inb)):
                        raise IndexError("index out of bounds for axis with size %d" % n)
                    return ite(x < 0, x + n, x)
                if not -n <= x < n:
                    raise IndexError("index %d is out of bounds" % x)
                return x + n if x < 0 else x

            kk[i] = _map(chk, kk[i])
        combos = itertools.product(*[range(self._a.shape[i]) for i in syms])
        res = None
        # broadcast shape of all advanced indices
        adv = [kk[i] for i in range(len(kk)) if isinstance(kk[i], np.ndarray)]
        bshape = np.broadcast_shapes(*[x.shape for x in adv]) if adv else ()
        for combo in combos:
            ck = list(kk)
            cond = None
            for i, p in zip(syms, combo):
                c = _map(lambda x: _eq(x, p), kk[i])
                cond = c if cond is None else _map(lambda a, b: l_and(a, b), cond, c)
                ck[i] = np.full(kk[i].shape, p, dtype=np.int64) if kk[i].ndim or bshape else p
            val = obj(self._a[tuple(ck)]) if not isinstance(self._a[tuple(ck)], np.ndarray) else self._a[tuple(ck)]
            if res is None:
                res = val
            else:
                cb = cond
                if cb.ndim and val.shape != cb.shape:
                    cb = np.broadcast_to(cb, bshape)
                    # advanced dims are placed first or in position; only handle leading placement
                    if val.shape[:len(bshape)] == bshape:
                        cb = cb.reshape(bshape + (1,) * (val.ndim - len(bshape)))
                    elif val.shape[-len(bshape):] != bshape:
                        raise Inconclusive("symbolic advanced indexing layout")
                res = _map(lambda c, a, b: ite(c, a, b), cb, val, res)
        if res.ndim == 0:
            return _Scalar(res[()], self.dtype)
        return SymArray(res, self.dtype)

    def __setitem__(self, key, value):
        ks, single = self._prep_key(key)
        dt = self.dtype
        if isinstance(value, (list, tuple)):
            value = sym_asarray(value)
        if any(k == "sym" for k, _ in ks):
            kk = [conc_mask(v) if (k == "mask" and v.dtype == object) else v for k, v in ks]
            nd = self._a.ndim
            while len(kk) < nd:
                kk.append(slice(None))
                ks = list(ks) + [("c", slice(None))]
            syms = [i for i, (k, _) in enumerate(ks) if k == "sym"]
            adv = [i for i in range(nd) if isinstance(kk[i], np.ndarray) and kk[i].ndim]
            if adv:
                bsh = np.broadcast_shapes(*[kk[i].shape for i in adv])
                va = np.broadcast_to(obj(value), bsh)
                for pos in np.ndindex(bsh):
                    sub = tuple(np.broadcast_to(kk[i], bsh)[pos] if isinstance(kk[i], np.ndarray) else kk[i] for i in range(nd))
                    self[sub] = va[pos]
                return
            for combo in itertools.product(*[range(self._a.shape[i]) for i in syms]):
                cond = True
                ck = list(kk)
                for i, p in zip(syms, combo):
                    n = self._a.shape[i]
                    x = norm(kk[i])
                    cond = l_and(cond, l_or(_eq(x, p), _eq(x, p - n)))
                    ck[i] = p
                old = self._a[tuple(ck)]
                new = _map(lambda v, o: ite(cond, cast_scalar(v, dt), o), obj(value), obj(old) if not isinstance(old, np.ndarray) else old)
                self._a[tuple(ck)] = new if isinstance(old, np.ndarray) else new[()]
            for i in syms:
                n = self._a.shape[i]
                x = norm(kk[i])
                if not bool(l_and(x >= -n, x < n)):
                    raise IndexError("index out of bounds for axis with size %d" % n)
            return
        if len(ks) == 1 and ks[0][0] == "mask" and ks[0][1].dtype == object:
            m = ks[0][1]
            va = obj(value)
            if va.ndim == 0 or (va.shape == (1,)):
                v = cast_scalar(va.reshape(-1)[0], dt)
                mm = m.reshape(m.shape + (1,) * (self._a.ndim - m.ndim))
                self._a[...] = _map(lambda c, o: ite(c, v, o), mm, self._a)
                return
            self._a[conc_mask(m)] = _map(lambda x: cast_scalar(x, dt), va)
            return
        kk = tuple(conc_mask(v) if (k == "mask" and v.dtype == object) else v for k, v in ks)
        va = _map(lambda x: cast_scalar(x, dt), obj(value))
        if va.ndim == 0:
            tgt = self._a[kk if not single else kk[0]]
            if isinstance(tgt, np.ndarray):
                tmp = np.empty(tgt.shape, dtype=object)
                for i in np.ndindex(tmp.shape):
                    tmp[i] = va[()]
                self._a[kk if not single else kk[0]] = tmp
            else:
                self._a[kk if not single else kk[0]] = va[()]
        else:
            self._a[kk if not single else kk[0]] = va


def _Scalar(x, dtype):
    """element access returns a plain scalar for symbolic values, numpy scalar otherwise"""
    x = norm(x)
    if is_sym(x):
        return x
    try:
        return dtype.type(x)
    except Exception:
        return x


def as_sym(x):
    return x if isinstance(x, SymArray) else SymArray(obj(x), dt_of(x) if isinstance(x, (np.ndarray, np.generic)) else None)


def _has_sym_deep(x):
    if is_sym(x) or isinstance(x, SymArray):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and has_sym(x)
    if isinstance(x, (list, tuple)):
        return any(_has_sym_deep(y) for y in x)
    return False


def _has_sym_args(x):
    if isinstance(x, SymArray):
        return has_sym(x._a)
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and has_sym(x)
    if isinstance(x, (list, tuple)):
        return any(_has_sym_args(y) for y in x)
    return False


def _deconc(x):
    """fully concrete SymArrays -> real ndarrays"""
    if isinstance(x, SymArray):
        return x._a.astype(x.dtype)
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        return type(x)(_deconc(y) for y in x)
    return x


def _reconc(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in "biuf":
        return wrap(r)
    return r


def _reconc_all(r):
    return tuple(_reconc(x) for x in r) if isinstance(r, tuple) else _reconc(r)


def sym_asarray(x, dtype=None):
    """np.asarray that keeps symbolic content"""
    if isinstance(x, SymArray):
        return x.astype(dtype) if dtype is not None and np.dtype(dtype) != x.dtype else x
    if not _has_sym_deep(x):
        return np.asarray(x, dtype=dtype)
    if is_sym(x):
        r = SymArray(obj(x))
    elif isinstance(x, np.ndarray):
        r = SymArray(x)
    else:
        def shape(y):
            if isinstance(y, SymArray) or isinstance(y, np.ndarray):
                return y.shape
            if isinstance(y, (list, tuple)):
                return (len(y),) + (shape(y[0]) if y else ())
            return ()

        shp = shape(x)
        a = np.empty(shp, dtype=object)

        def fill(y, pre):
            if isinstance(y, (SymArray, np.ndarray)):
                o = obj(y)
                for i in np.ndindex(o.shape):
                    a[pre + i] = norm(o[i])
            elif isinstance(y, (list, tuple)):
                for i, z in enumerate(y):
                    fill(z, pre + (i,))
            else:
                a[pre] = norm(y)

        fill(x, ())
        r = SymArray(a)
    return r.astype(dtype) if dtype is not None else r


class LiftArr(np.ndarray):
    """a concrete ndarray that can be indexed by symbolic integers / masks"""

    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        conv, symbolic = [], False
        for k in ks:
            d = getattr(k, "_symx_data", None)
            if d is None and hasattr(k, "variable") and hasattr(k, "values"):
                d = k.values
            k = d if d is not None else k
            if isinstance(k, SymArray):
                if has_sym(k._a):
                    symbolic = True
                else:
                    k = k._a.astype(k.dtype)
            elif is_sym(k):
                symbolic = True
            conv.append(k)
        key2 = tuple(conv) if isinstance(key, tuple) else conv[0]
        if symbolic:
            return SymArray(np.asarray(self).astype(object), self.dtype)[key2]
        return super().__getitem__(key2)


def _lift_op(nm):
    base = getattr(np.ndarray, nm)

    def f(self, o):
        if is_sym(o):
            return getattr(as_sym(self), nm)(o)
        return base(self, o)

    f.__name__ = nm
    return f


for _nm in ("lt", "le", "gt", "ge", "eq", "ne", "add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv"):
    setattr(LiftArr, "__%s__" % _nm, _lift_op("__%s__" % _nm))


def lift(r):
    if type(r) is np.ndarray and r.dtype.kind in "biuf":
        return r.view(LiftArr)
    if type(r) is tuple:
        return tuple(lift(x) for x in r)
    return r
