"""symx.tmodels - models of the compiled leaves used by marEx.track, for symbolic arguments only.

With concrete arguments the real library function is called on plain arrays.  The models state the documented
semantics: grey-box morphology (scipy.ndimage), connected-component labelling (dask_image), region properties
(skimage) and graph components (scipy.sparse.csgraph).
"""
from __future__ import annotations

import itertools

import dask.array as dsa
import numpy as np
import xarray as xr

from . import array as A
from . import core
from .array import SymArray, as_sym, has_sym, obj
from .core import Inconclusive, is_sym, ite, l_and, l_not, l_or, s_sum

STATE = {"max_label": 0}


def data_of(x):
    if isinstance(x, (xr.DataArray, xr.Variable)):
        x = x.variable._data if isinstance(x, xr.DataArray) else x._data
    if isinstance(x, dsa.Array):
        x = x.compute()
    return x


def plain(x):
    """concrete SymArray / LiftArr -> plain ndarray; None if symbolic"""
    x = data_of(x)
    if isinstance(x, SymArray):
        if has_sym(x._a):
            return None
        return x._a.astype(x.dtype)
    if isinstance(x, np.ndarray):
        return np.asarray(x).view(np.ndarray)
    return x


# ------------------------------------------------------------------ morphology (on blocks, called by dask_image)
def _offsets(structure, origin=0):
    st = np.asarray(plain(structure)).astype(bool)
    c = [n // 2 for n in st.shape]
    org = origin if isinstance(origin, (tuple, list)) else (origin,) * st.ndim
    return [tuple(int(i) - cc + int(o) for i, cc, o in zip(ix, c, org)) for ix in np.argwhere(st)]


def _at(a, i, border):
    for p, n in zip(i, a.shape):
        if p < 0 or p >= n:
            return bool(border)
    return a[i]


def binary_erosion(image, structure=None, iterations=1, mask=None, output=None, border_value=0, origin=0, brute_force=False, **kw):
    a = obj(image)
    offs = _offsets(structure, origin)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = l_and(*[_at(a, tuple(p + o for p, o in zip(i, off)), border_value) for off in offs])
    return SymArray(out, np.dtype(bool))


def binary_dilation(image, structure=None, iterations=1, mask=None, output=None, border_value=0, origin=0, brute_force=False, **kw):
    a = obj(image)
    offs = _offsets(structure, origin)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = l_or(*[_at(a, tuple(p - o for p, o in zip(i, off)), border_value) for off in offs])
    return SymArray(out, np.dtype(bool))


def install_morph():
    from dask_image.dispatch import _dispatch_ndmorph as d

    d.dispatch_binary_dilation.register(SymArray, lambda *a, **k: binary_dilation)
    d.dispatch_binary_erosion.register(SymArray, lambda *a, **k: binary_erosion)
    d.dispatch_binary_structure.register(SymArray, lambda *a, **k: __import__("scipy.ndimage").ndimage.generate_binary_structure)


# -------------------------------------------------------------------------------------------- labelling
def _closure(n, adj):
    """reachability among n cells; adj: {(i, j): condition}, i < j"""
    R = {}
    for i in range(n):
        for j in range(i + 1, n):
            R[i, j] = adj.get((i, j), False)

    def g(i, j):
        return True if i == j else R[(i, j) if i < j else (j, i)]

    for m in range(n):
        for i in range(n):
            if i == m:
                continue
            gi = g(i, m)
            if gi is False:
                continue
            for j in range(i + 1, n):
                if j == m:
                    continue
                gj = g(m, j)
                if gj is False:
                    continue
                R[i, j] = (l_or(R[i, j], l_and(gi, gj)))
    return g


def label_cells(mask, pairs):
    """mask: list of conditions; pairs: adjacent index pairs -> (labels, number), numbered by first cell"""
    n = len(mask)
    # split into islands of potential connectivity to keep the closure small
    par = list(range(n))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x

    pairs = [(i, j) for i, j in pairs if mask[i] is not False and mask[j] is not False]
    for i, j in pairs:
        par[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    root = [False] * n
    owner = [[] for _ in range(n)]  # (root candidate, condition)
    for cells in groups.values():
        pos = {c: q for q, c in enumerate(cells)}
        adj = {}
        for i, j in pairs:
            if i in pos and j in pos:
                a, b = sorted((pos[i], pos[j]))
                if a != b:
                    adj[a, b] = l_and(mask[i], mask[j])
        g = _closure(len(cells), adj)
        for q, c in enumerate(cells):
            root[c] = (l_and(mask[c], *[l_not(g(p, q)) for p in range(q)]))
        for q, c in enumerate(cells):
            for p in range(q + 1):
                cond = root[c] if p == q else l_and(root[cells[p]], g(p, q))
                if cond is not False:
                    owner[c].append((cells[p], cond))
    rank, cur = [], 0
    for c in range(n):
        cur = cur + as_int(root[c])
        rank.append(cur)
    labels = []
    for c in range(n):
        v = 0
        for r, cond in owner[c]:
            v = ite(cond, rank[r], v)
        labels.append(v)
    return labels, cur


def as_int(b):
    if isinstance(b, (bool, np.bool_)):
        return int(b)
    return ite(b, 1, 0)


def label(image, structure=None, wrap_axes=None):
    import dask_image.ndmeasure as m

    im = image
    d = im.variable._data if isinstance(im, xr.DataArray) else im
    if not (isinstance(d, SymArray) or (isinstance(d, dsa.Array) and isinstance(d._meta, SymArray))):
        return m.label(image, structure=plain(structure), wrap_axes=wrap_axes)
    a = data_of(image)
    p = plain(a)
    chunks = d.chunks if isinstance(d, dsa.Array) else None
    if p is not None:
        r, n = m.label(dsa.from_array(p, chunks=chunks) if chunks else p, structure=plain(structure), wrap_axes=wrap_axes)
        STATE["max_label"] = max(STATE["max_label"], int(n.compute()))
        return r, n
    st = np.asarray(plain(structure)) != 0
    o = obj(a)
    shape = o.shape
    idx = {i: q for q, i in enumerate(np.ndindex(shape))}
    pairs = set()
    for i in np.ndindex(shape):
        for off in np.argwhere(st):
            j = []
            for ax, (p_, d_) in enumerate(zip(i, off - 1)):
                q = p_ + int(d_)
                if wrap_axes is not None and ax in wrap_axes:
                    q %= shape[ax]
                j.append(q)
            j = tuple(j)
            if all(0 <= q < n for q, n in zip(j, shape)) and j != i:
                pairs.add(tuple(sorted((idx[i], idx[j]))))
    cells = [core.norm(o[i]) for i in np.ndindex(shape)]
    labels, n = label_cells(cells, sorted(pairs))
    out = np.empty(shape, dtype=object)
    for i, q in idx.items():
        out[i] = labels[q]
    ub = len(cells)
    STATE["max_label"] = max(STATE["max_label"], ub)
    r = dsa.from_array(SymArray(out, np.dtype("int32")), chunks=chunks if chunks else -1, asarray=False)
    nn = np.empty((), dtype=object)
    nn[()] = n
    return r, dsa.from_array(SymArray(nn, np.dtype("int32")), chunks=-1, asarray=False)


# ------------------------------------------------------------------------------------- region properties
def regionprops_table(label_image, properties=("label", "bbox"), **kw):
    import skimage.measure as m

    p = plain(label_image)
    if p is not None:
        return m.regionprops_table(p, properties=tuple(properties), **kw)
    ids = obj(label_image)
    present = []
    top = max([STATE["max_label"]] + [int(x) for x in ids.flat if not is_sym(x)])
    for L in range(1, top + 1):
        eqs = [A._eq(x, L) for x in ids.flat]
        c = l_or(*eqs)
        if c is False:
            continue
        if bool(c):
            present.append(L)
    out = {"label": np.array(present, dtype=np.int64)}
    areas, cents = [], []
    for L in present:
        sel = np.empty(ids.shape, dtype=object)
        for i in np.ndindex(ids.shape):
            sel[i] = A._eq(ids[i], L)
        n = s_sum([as_int(c) for c in sel.flat])
        areas.append(n)
        if any(q.startswith("centroid") for q in properties):
            cc = []
            for ax in range(ids.ndim):
                tot = s_sum([ite(sel[i], i[ax], 0) for i in np.ndindex(ids.shape)])
                cc.append(core.to_sf(tot) / core.to_sf(n) if is_sym(tot) or is_sym(n) else tot / n)
            cents.append(cc)
    for q in properties:
        if q == "label":
            continue
        if q == "area":
            out["area"] = SymArray(_col(areas), np.dtype("float64")).astype("float64")
        elif q == "centroid":
            for ax in range(ids.ndim):
                out["centroid-%d" % ax] = SymArray(_col([c[ax] for c in cents]), np.dtype("float64")).astype("float64")
        else:
            raise Inconclusive("region property %s" % q)
    return out


def _col(xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return o


# ------------------------------------------------------------------------------------------ graph helpers
def _plain_deep(x):
    if isinstance(x, tuple):
        return tuple(_plain_deep(y) for y in x)
    if isinstance(x, list):
        return [int(y) if isinstance(y, core.SI) else y for y in x]
    if isinstance(x, SymArray):
        return A.conc_int(x).astype(x.dtype) if x.dtype.kind in "iub" else plain(x)
    if isinstance(x, (np.ndarray, xr.DataArray, dsa.Array)):
        return plain(x)
    return x


def concrete_args(f):
    def g(*a, **k):
        return f(*[_plain_deep(x) for x in a], **{n: _plain_deep(v) for n, v in k.items()})

    g.__name__ = getattr(f, "__name__", "f")
    return g


def install(track):
    """redirect the compiled leaves wherever the module refers to them (whatever the local name is)"""
    import dask.distributed
    import dask_image.ndmeasure
    import scipy.sparse
    import scipy.sparse.csgraph
    import skimage.measure

    install_morph()
    sub = {id(dask_image.ndmeasure.label): label, id(skimage.measure.regionprops_table): regionprops_table,
           id(dask.distributed.wait): no_wait}
    for f in (scipy.sparse.csr_matrix, scipy.sparse.coo_matrix, scipy.sparse.eye, scipy.sparse.csgraph.connected_components):
        sub[id(f)] = concrete_args(f)
    for nm, v in list(vars(track).items()):
        if id(v) in sub:
            setattr(track, nm, sub[id(v)])
        elif getattr(v, "__name__", "") == "jax.numpy":
            setattr(track, nm, track.np)


def no_wait(*a, **k):
    return None
