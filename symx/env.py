"""symx.env - run the real marEx (plus xarray and dask) on symbolic arrays.

`install()` imports marEx from /repo's current working tree and redirects, only where a symbolic value
is involved, the compiled leaves that cannot carry symbolic scalars (numba kernels -> their own python
source, flox / numbagg / scipy / dask-image calls -> models with the documented semantics).
"""
from __future__ import annotations

import builtins
import math
import os
import sys
import types

REPO = os.environ.get("SYMX_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

import dask  # noqa: E402
import dask.array as dsa  # noqa: E402
import numpy as np  # noqa: E402
import xarray as xr  # noqa: E402

from . import core  # noqa: E402
from .array import (SymArray, _has_sym_deep, a_nanmean, as_sym, has_sym, np_concatenate, np_einsum, np_tensordot, obj, reduce_,  # noqa: E402
                    sym_asarray)
from . import array as A  # noqa: E402
from .core import Inconclusive, is_sym, ite, norm, s_sum  # noqa: E402


def is_symbolic(x):
    """does this xarray / dask / numpy-like object carry symbolic content?"""
    if isinstance(x, (xr.DataArray, xr.Variable)):
        return is_symbolic(x.variable._data if isinstance(x, xr.DataArray) else x._data)
    if isinstance(x, dsa.Array):
        return isinstance(x._meta, SymArray)
    return isinstance(x, SymArray) or is_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object and has_sym(x))


# ------------------------------------------------------------------------------- numpy shim
class NPShim(types.ModuleType):
    """numpy namespace whose array constructors can hold symbolic scalars"""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        v = getattr(np, name)
        if callable(v) and not isinstance(v, type) and not isinstance(v, np.ufunc):
            return _lift(v)
        return v


def _ctor(fill):
    def f(shape, dtype=float, *a, **k):
        shp = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list, np.ndarray)) else (int(shape),)
        dt = np.dtype(dtype)
        if dt.kind not in "biuf":
            return getattr(np, "zeros")(shp, dtype)
        o = np.empty(shp, dtype=object)
        v = A.cast_scalar(fill, dt)
        for i in np.ndindex(shp):
            o[i] = v
        return SymArray(o, dt)

    return f


def _np_full(shape, fill_value, dtype=None, *a, **k):
    shp = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list, np.ndarray)) else (int(shape),)
    fv = norm(fill_value)
    dt = np.dtype(dtype) if dtype is not None else A._elem_dtype(fv)
    if dt.kind not in "biuf":
        return np.full(shp, fill_value, dtype)
    o = np.empty(shp, dtype=object)
    v = A.cast_scalar(fv, dt)
    for i in np.ndindex(shp):
        o[i] = v
    return SymArray(o, dt)


def _like(fill):
    def f(a, dtype=None, *x, shape=None, **k):
        a = a if hasattr(a, "shape") else np.asarray(a)
        return _np_full(shape if shape is not None else a.shape, fill, dtype or (a.dtype if isinstance(getattr(a, "dtype", None), np.dtype) and a.dtype != object else A.dt_of(a)))

    return f


class _Cast:
    """np.float32 & friends: usable as dtype and as a conversion of symbolic scalars"""

    def __init__(self, t):
        self._t = t
        self.dtype = np.dtype(t)
        self.__name__ = t.__name__

    def __call__(self, x=0, *a):
        if isinstance(x, SymArray):
            return x.astype(self.dtype)
        x = norm(x)
        if is_sym(x):
            return A.cast_scalar(x, self.dtype)
        return self._t(x, *a)

    def __getattr__(self, n):
        return getattr(self._t, n)

    def __eq__(self, o):
        return o is self or o == self._t

    def __hash__(self):
        return hash(self._t)


def _unwrap(a):
    """symbolic xarray argument of a plain numpy function -> its array (numpy itself would call __array__)"""
    if isinstance(a, (xr.DataArray, xr.Variable)) and is_symbolic(a):
        d = a.variable._data if isinstance(a, xr.DataArray) else a._data
        return d.compute() if isinstance(d, dsa.Array) else d
    return a


def _lift(f):
    """functions which numpy does not dispatch for scalars / lists holding symbolic values"""

    def g(*args, **kw):
        if not isinstance(f, np.ufunc):  # xarray dispatches ufuncs itself
            args = tuple(_unwrap(a) for a in args)
        if any(is_sym(a) for a in args):
            args = tuple(as_sym(a) if is_sym(a) else a for a in args)
            r = f(*args, **kw)
            return r._symx_item() if isinstance(r, SymArray) and r.size == 1 and r.ndim == 0 else A.lift(r)
        if any(isinstance(a, (list, tuple)) and _has_sym_deep(a) for a in args) and f not in (np.concatenate, np.stack, np.hstack, np.vstack):
            args = tuple(sym_asarray(a) if isinstance(a, (list, tuple)) and _has_sym_deep(a) else a for a in args)
        return A.lift(f(*args, **kw))

    g.__name__ = getattr(f, "__name__", "f")
    return g


def _conc_args(f):
    def g(*args, **kw):
        args = tuple(a._symx_item() if isinstance(a, SymArray) and a.ndim == 0 else a for a in args)
        args = tuple(int(a) if isinstance(a, core.SI) else a for a in args)
        return A.lift(f(*args, **kw))

    return g


def make_np():
    m = NPShim()
    m.zeros, m.ones, m.empty, m.full = _ctor(0), _ctor(1), _ctor(0), _np_full
    m.zeros_like, m.ones_like, m.empty_like = _like(0), _like(1), _like(0)
    m.full_like = lambda a, v, dtype=None, **k: _np_full(a.shape, v, dtype or (a.dtype if isinstance(getattr(a, "dtype", None), np.dtype) and a.dtype != object else A.dt_of(a)))

    def array(x, dtype=None, copy=True, **k):
        r = sym_asarray(x, dtype)
        return r.copy() if isinstance(r, SymArray) and isinstance(x, SymArray) else (A.lift(np.array(r, dtype=dtype)) if not isinstance(r, SymArray) else r)

    m.array = array
    m.asarray = lambda x, dtype=None, **k: A.lift(sym_asarray(x, dtype))
    m.ascontiguousarray = lambda x, dtype=None: sym_asarray(x, dtype)
    m.asanyarray = m.asarray
    for nm in ("float32", "float64", "int32", "int64", "uint16", "uint8", "int16", "uint32", "uint64", "int8", "bool_", "float16"):
        setattr(m, nm, _Cast(getattr(np, nm)))
    for nm in ("where", "maximum", "minimum", "abs", "absolute", "sqrt", "isnan", "isfinite", "clip", "sum", "any", "all", "mean", "min", "max",
               "logical_and", "logical_or", "logical_not", "floor", "ceil", "sign", "searchsorted", "digitize", "isin", "unique", "nonzero",
               "argmin", "argmax", "cumsum", "dot", "add", "subtract", "multiply", "square", "argsort", "sort", "interp", "mod", "remainder",
               "prod", "fabs", "rint", "deg2rad", "radians", "flatnonzero", "array_equal", "power", "isinf", "nanmin", "nanmax", "nansum",
               "amin", "amax", "round", "median", "quantile", "percentile", "nanquantile", "nanpercentile", "average", "bincount", "diff",
               "isclose", "allclose", "equal", "not_equal", "less", "greater", "less_equal", "greater_equal"):
        if isinstance(getattr(np, nm), np.ufunc):
            setattr(m, nm, _UfuncShim(getattr(np, nm)))
        else:
            setattr(m, nm, _lift(getattr(np, nm)))
    m.arange = _conc_args(np.arange)
    return m


class _UfuncShim:
    def __init__(self, u):
        self._u = u
        self._f = _lift(u)

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def __getattr__(self, n):
        return getattr(self._u, n)


# builtins that must not concretise symbolic values
def _b_int(x=0, *a):
    if isinstance(x, SymArray):
        x = x._symx_item()
    if isinstance(x, xr.DataArray) and is_symbolic(x):
        x = norm(as_sym(x.compute().data)._symx_item())
    if is_sym(x):
        return A.cast_scalar(x, np.dtype("int64"))
    return int(x, *a)


class _IntShim(type):
    def __call__(cls, x=0, *a):
        return _b_int(x, *a)

    def __instancecheck__(cls, o):
        return isinstance(o, (int, core.SI)) and True

    def __subclasscheck__(cls, o):
        return issubclass(o, int)


class IntShim(metaclass=_IntShim):
    dtype = np.dtype("int64")


class _FloatShim(type):
    def __call__(cls, x=0.0):
        if isinstance(x, SymArray):
            x = x._symx_item()
        if isinstance(x, xr.DataArray) and is_symbolic(x):
            x = norm(as_sym(x.compute().data)._symx_item())
        if is_sym(x):
            return A.cast_scalar(x, np.dtype("float64"))
        return float(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (float, core.SF))


class FloatShim(metaclass=_FloatShim):
    dtype = np.dtype("float64")


class _BoolShim(type):
    def __call__(cls, x=False):
        if isinstance(x, SymArray):
            x = x._symx_item()
        if is_sym(x):
            return A.cast_scalar(x, np.dtype(bool))
        return bool(x)

    def __instancecheck__(cls, o):
        return isinstance(o, (bool, core.SB))


class BoolShim(metaclass=_BoolShim):
    dtype = np.dtype(bool)


def _b_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and any(is_sym(norm(x)) for x in xs):
        r = xs[0]
        for y in xs[1:]:
            r = ite(norm(y) > norm(r), y, r)
        return r
    return builtins.max(xs, **k)


def _b_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and any(is_sym(norm(x)) for x in xs):
        r = xs[0]
        for y in xs[1:]:
            r = ite(norm(y) < norm(r), y, r)
        return r
    return builtins.min(xs, **k)


# ------------------------------------------------------------------------------- flox model
_REAL = {}
SPLIT_COUNTS = True


def xhistogram_model(*args, bins=None, dim=None, **kw):
    """xhistogram.xarray.histogram for one variable, counts case-split by the solver"""
    (da0,) = args if len(args) == 1 else (None,)
    comp = da0.compute()
    if not is_symbolic(comp):
        return _REAL["xhist"](*args, bins=bins, dim=dim, **kw)
    edges = np.asarray(bins[0], dtype=float)
    dims = list(dim) if dim is not None else list(comp.dims)
    keep = [d for d in comp.dims if d not in dims]
    data = as_sym(comp.transpose(*keep, *dims).variable.data)._a
    shp = data.shape[:len(keep)]
    data = data.reshape(shp + (-1,))
    nb = len(edges) - 1
    out = np.empty(shp + (nb,), dtype=object)
    for pos in np.ndindex(shp):
        for k in range(nb):
            lo, hi = float(edges[k]), float(edges[k + 1])
            last = k == nb - 1
            cnt = s_sum([core.l_and(v >= lo, (v <= hi) if last else (v < hi)) for v in data[pos]])
            out[pos + (k,)] = int(cnt) if SPLIT_COUNTS and is_sym(cnt) else cnt
    name = (comp.name or "") + "_bin"
    coords = {k: v for k, v in comp.coords.items() if not (set(v.dims) & set(dims))}
    coords[name] = (edges[1:] + edges[:-1]) / 2
    return xr.DataArray(SymArray(out, np.int64), dims=keep + [name], coords=coords, name="histogram_" + (comp.name or "")).chunk()


def _red(func):
    if func in ("nanmean",):
        return lambda xs: A._div(A._nansum(xs), A._nancount(xs)) if xs else math.nan
    if func == "mean":
        return lambda xs: A._div(s_sum(xs), len(xs)) if xs else math.nan
    if func == "count":
        return lambda xs: A._nancount(xs) if xs else 0
    if func == "sum":
        return lambda xs: s_sum(xs) if xs else 0
    if func == "nansum":
        return lambda xs: A._nansum(xs) if xs else 0
    if func == "std":
        def f(xs):
            if not xs:
                return math.nan
            m = A._div(s_sum(xs), len(xs))
            return A._sqrt(A._div(s_sum([(x - m) * (x - m) for x in xs]), len(xs)))

        return f
    if func == "max":
        return A._fold(core.s_max)
    if func == "min":
        return A._fold(core.s_min)
    raise Inconclusive("flox reduction %r" % (func,))


def flox_xarray_reduce(ob, *by, func, expected_groups=None, isbin=False, sort=True, dim=None, fill_value=None, dtype=None, method=None,
                       engine=None, keep_attrs=True, skipna=None, min_count=None, reindex=None, **fk):
    bys = [ob[b] if isinstance(b, str) else b for b in by]
    was_dask = isinstance(ob.variable._data, dsa.Array)
    ob0 = ob
    ob = ob.compute()
    bys = [b.compute() for b in bys]
    if not (is_symbolic(ob) or any(is_symbolic(b) for b in bys)):
        ob = ob0
        return _REAL["flox"](ob, *by, func=func, expected_groups=expected_groups, isbin=isbin, sort=sort, dim=dim, fill_value=fill_value,
                             dtype=dtype, method=method, engine=engine, keep_attrs=keep_attrs, skipna=skipna, min_count=min_count,
                             reindex=reindex, **fk)
    if not isinstance(ob, xr.DataArray):
        raise Inconclusive("flox model: DataArray only")
    dims = [dim] if isinstance(dim, str) else list(dim)
    if expected_groups is not None and not isinstance(expected_groups, tuple):
        expected_groups = (expected_groups,)
    keep = [d for d in ob.dims if d not in dims]
    o = ob.transpose(*keep, *dims).compute()
    data = as_sym(o.variable.data)._a
    names, labels, groups = [], [], []
    for i, b in enumerate(bys):
        names.append(b.name)
        bb = b.compute()
        bd = [d for d in bb.dims]
        if set(bd) == set(dims):
            labels.append(("t", obj(bb.transpose(*dims).data)))
        elif set(bd) == set(ob.dims):
            labels.append(("full", obj(bb.transpose(*keep, *dims).data)))
        else:
            raise Inconclusive("flox model: grouper dims")
        eg = expected_groups[i] if expected_groups is not None else None
        if eg is None:
            arr = labels[-1][1]
            if has_sym(arr):
                raise Inconclusive("flox model: symbolic labels need expected_groups")
            eg = np.unique(arr.astype(np.int64))
        groups.append(np.asarray(eg))
    nk = len(keep)
    shp = data.shape[:nk]
    n = int(np.prod(data.shape[nk:]))
    data = data.reshape(shp + (n,))
    labs = [(k, a.reshape(-1) if k == "t" else a.reshape(shp + (n,))) for k, a in labels]
    red = _red(func)
    out = np.empty(shp + tuple(len(g) for g in groups), dtype=object)
    dt = np.dtype(dtype) if dtype is not None else (np.dtype("int64") if func == "count" else A._fdt(SymArray(data, ob.dtype)))
    empty = fill_value
    if empty is None:
        empty = 0 if func in ("count", "sum", "nansum") else math.nan
    for pos in np.ndindex(shp):
        for gi in np.ndindex(*[len(g) for g in groups]):
            sel, conds = [], []
            for k in range(n):
                c = True
                for (kind, lab), g, j in zip(labs, groups, gi):
                    lv = norm(lab[k] if kind == "t" else lab[pos + (k,)])
                    c = core.l_and(c, A._eq(lv, int(g[j])))
                    if c is False:
                        break
                if c is False:
                    continue
                sel.append(data[pos + (k,)])
                conds.append(c)
            if not sel:
                out[pos + gi] = empty
            elif all(c is True for c in conds):
                out[pos + gi] = red(sel)
            elif func == "count":
                cnt = s_sum([core.l_and(c, core.l_not(core.f_isnan(v))) for c, v in zip(conds, sel)])
                # histogram counts are case-split by the solver: everything downstream is then concrete float arithmetic
                out[pos + gi] = int(cnt) if SPLIT_COUNTS and is_sym(cnt) else cnt
            else:
                raise Inconclusive("flox model: symbolic labels with %s" % func)
    res = SymArray(out, dt)
    if dt.kind == "f":
        res = res.astype(dt)
    coords = {k: v for k, v in ob.coords.items() if not (set(v.dims) & set(dims)) and k not in names}
    for nm, g in zip(names, groups):
        coords[nm] = g
    r = xr.DataArray(res, dims=keep + names, coords=coords, name=ob.name, attrs=ob.attrs if keep_attrs else None)
    # flox puts a single group dimension where the reduced one was
    if len(names) == 1 and len(dims) == 1:
        order = [names[0] if d == dims[0] else d for d in ob.dims]
        r = r.transpose(*order)
    return r.chunk() if was_dask else r


# ---------------------------------------------------------------------------- apply_ufunc
def _vectorize_sym(func, signature):
    """np.vectorize replacement for symbolic blocks"""


def install_base():
    dask.config.set(scheduler="synchronous")
    from dask.array.dispatch import concatenate_lookup, einsum_lookup, tensordot_lookup

    concatenate_lookup.register(SymArray, np_concatenate)
    tensordot_lookup.register(SymArray, np_tensordot)
    einsum_lookup.register(SymArray, np_einsum)
    import dask.array.reductions as dr

    dr.numbagg = _Numbagg()
    from dask.array.chunk_types import register_chunk_type

    register_chunk_type(SymArray)
    xr.set_options(use_flox=False, use_bottleneck=False, use_numbagg=False, keep_attrs=True)

    # dask's arg-reductions use structured arrays: do them on one chunk instead
    def argred(name):
        def f(self, axis=None, *, keepdims=False, split_every=None, out=None):
            if axis is None:
                x = self.reshape(-1).rechunk(-1)
                ax = 0
            else:
                ax = axis % self.ndim
                x = self.rechunk({ax: -1})
            return x.map_blocks(lambda b: getattr(np, name)(b, axis=ax, keepdims=keepdims), drop_axis=[] if keepdims else [ax],
                                dtype=np.int64, meta=SymArray(np.empty((0,) * (x.ndim - (0 if keepdims else 1)), dtype=object), np.int64))

        setattr(dsa.Array, name, f)

        def g(a, axis=None, keepdims=False, split_every=None, out=None):
            return f(dsa.asarray(a), axis, keepdims=keepdims)

        setattr(dsa, name, g)

    argred("argmax")
    argred("argmin")

    import xarray.core.indexing as xi
    import xarray.core.nputils as xn
    import xarray.core.variable as xv

    def sym_key(key):
        return any(isinstance(k, SymArray) and has_sym(k._a) for k in (key if isinstance(key, tuple) else (key,)))

    real_gi = xn.NumpyVIndexAdapter.__getitem__

    def vgi(self, key):
        if isinstance(key, tuple):
            key = tuple(k._a.astype(k.dtype) if isinstance(k, SymArray) and not has_sym(k._a) else k for k in key)
        if sym_key(key) and not isinstance(self._array, SymArray):
            return real_gi(xn.NumpyVIndexAdapter(as_sym(self._array)), key)
        return real_gi(self, key)

    xn.NumpyVIndexAdapter.__getitem__ = vgi

    def wrap_dask_get(name):
        real = getattr(xi.DaskIndexingAdapter, name)

        def f(self, indexer):
            if sym_key(indexer.tuple):
                data = as_sym(self.array.compute())
                r = xn.NumpyVIndexAdapter(data)[indexer.tuple] if name == "_vindex_get" else data[indexer.tuple]
                return dsa.from_array(as_sym(r), chunks=-1, asarray=False)
            return real(self, indexer)

        setattr(xi.DaskIndexingAdapter, name, f)

    for nm in ("_vindex_get", "_oindex_get", "__getitem__"):
        wrap_dask_get(nm)

    real_as = xv._as_array_or_item

    def as_item(data):
        if isinstance(data, dsa.Array):
            data = data.compute()
        if isinstance(data, SymArray):
            return data if has_sym(data._a) else A.lift(np.asarray(data))
        return A.lift(real_as(data))

    xv._as_array_or_item = as_item

    # np.vectorize with symbolic arguments (used by xarray.apply_ufunc(vectorize=True))
    real_vec = np.vectorize

    class Vec(real_vec):
        def __call__(self, *args, **kwargs):
            if any(isinstance(a, SymArray) for a in args) or (self.signature and self.otypes and "O" in self.otypes):
                return _vec_call(self, args, kwargs)
            return super().__call__(*args, **kwargs)

    np.vectorize = Vec


def _vec_call(v, args, kwargs):
    f = v.pyfunc
    sig = v.signature
    args = [as_sym(a) if isinstance(a, SymArray) else np.asarray(a) for a in args]
    if sig is None:
        shape = np.broadcast_shapes(*[a.shape for a in args])
        out = np.empty(shape, dtype=object)
        bs = [SymArray(np.broadcast_to(obj(a), shape), a.dtype) for a in args]
        for i in np.ndindex(shape):
            out[i] = norm(f(*[b[i] for b in bs], **kwargs))
        return SymArray(out)
    ins, outs = sig.replace(" ", "").split("->")
    import re

    icore = [[d for d in t.split(",") if d] for t in re.findall(r"\(([^)]*)\)", ins)]
    ocore = [[d for d in t.split(",") if d] for t in re.findall(r"\(([^)]*)\)", outs)]
    loop = [a.shape[:a.ndim - len(c)] for a, c in zip(args, icore)]
    lshape = np.broadcast_shapes(*loop)
    bs = []
    for a, c in zip(args, icore):
        o = obj(a)
        bs.append(SymArray(np.broadcast_to(o, lshape + o.shape[o.ndim - len(c):]), A.dt_of(a)) if isinstance(a, SymArray)
                  else A.lift(np.broadcast_to(a, lshape + a.shape[a.ndim - len(c):])))
    results = None
    for i in np.ndindex(lshape):
        r = f(*[b[i] for b in bs], **kwargs)
        rs = (r,) if len(ocore) == 1 else tuple(r)
        if results is None:
            boxed = [not c and (isinstance(x, (dict, list, tuple, np.ndarray, SymArray)) and np.ndim(x) != 0 or isinstance(x, dict)) for x, c in zip(rs, ocore)]
            results = [np.empty(lshape if b else lshape + tuple(np.shape(x)), dtype=object) for x, b in zip(rs, boxed)]
            dts = [np.dtype(object) if b else A.dt_of(x) for x, b in zip(rs, boxed)]
        for k, x in enumerate(rs):
            if boxed[k]:
                results[k][i] = x
            elif len(ocore[k]) == 0:
                results[k][i] = norm(x)
            else:
                results[k][i] = obj(x)
    if results is None:
        # size-0 loop (dask meta inference)
        res = tuple(SymArray(np.empty(lshape + (0,) * len(c), dtype=object), np.dtype("float64")) for c in ocore)
        return res[0] if len(res) == 1 else res
    res = tuple(r if b else SymArray(r, d) for r, d, b in zip(results, dts, boxed))
    return res[0] if len(res) == 1 else res


class _Numbagg:
    """stand-in for numbagg inside dask: NaN-skipping quantiles / medians"""

    __version__ = "0.9.0"

    @staticmethod
    def nanquantile(a, quantiles, axis=None, **kw):
        if not isinstance(a, SymArray):
            return np.nanquantile(a, quantiles, axis=axis)
        return A.a_quantile(True)(a, quantiles, axis=axis)

    @staticmethod
    def nanmedian(a, axis=None, **kw):
        return np.nanmedian(a, axis=axis)


_INSTALLED = {}


def install():
    from . import ifconv, tmodels

    """import marEx from REPO and make it runnable on symbolic data. Returns (marEx, detect, track)."""
    if _INSTALLED:
        return _INSTALLED["r"]
    import flox.xarray

    import marEx
    import marEx.detect as detect
    import marEx.helper as helper
    import marEx.track as track

    assert os.path.realpath(marEx.__file__).startswith(os.path.realpath(REPO)), marEx.__file__
    marEx.set_quiet_mode()
    import logging

    logging.getLogger("marEx").setLevel(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    install_base()
    _REAL["flox"] = flox.xarray.xarray_reduce
    flox.xarray.xarray_reduce = flox_xarray_reduce
    import xhistogram.xarray as xh

    _REAL["xhist"] = xh.histogram
    detect.histogram = xhistogram_model
    shim = make_np()
    for mod in (detect, track, helper):
        mod.np = shim
        mod.int, mod.float, mod.max, mod.min = IntShim, FloatShim, _b_max, _b_min
        # numba dispatchers -> python source
        for k, v in list(vars(mod).items()):
            if hasattr(v, "py_func"):
                setattr(mod, k, ifconv.convert(v.py_func))
    tmodels.install(track)
    _INSTALLED["r"] = (marEx, detect, track)
    return _INSTALLED["r"]
