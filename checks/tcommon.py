"""shared pieces of the tracking harnesses (masks, trackers, oracles)"""
import contextlib
import io
import math
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
import xarray as xr

from symx.core import f_isnan, is_sym, ite, l_and, l_iff, l_implies, l_not, l_or, norm, s_sum  # noqa: F401

NAMES = {
    "std": dict(t="time", y="lat", x="lon", dims=None, coords=None),
    "cust": dict(t="tt", y="jj", x="ii", dims={"time": "tt", "x": "ii", "y": "jj"}, coords={"time": "tt", "x": "ii", "y": "jj"}),
    "unstr": dict(t="time", y=None, x="ncells", dims={"time": "time", "x": "ncells"}, coords={"time": "time", "x": "lon", "y": "lat"}),
}

# small triangular meshes: 1-based neighbour table (3, ncells), 0 = no neighbour
MESH = {
    "strip6": [[0, 1, 2, 3, 4, 5], [2, 3, 4, 5, 6, 0], [0, 0, 0, 0, 0, 0]],
    "ring6": [[6, 1, 2, 3, 4, 5], [2, 3, 4, 5, 6, 1], [0, 0, 0, 0, 0, 0]],
    "strip13": [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0], [0] * 13],
    "strip30": [list(range(30)), list(range(2, 31)) + [0], [0] * 30],
    "strip14": [list(range(14)), list(range(2, 15)) + [0], [0] * 14],
    "strip8": [[0, 1, 2, 3, 4, 5, 6, 7], [2, 3, 4, 5, 6, 7, 8, 0], [0] * 8],
    # a tetrahedron-like patch with a branch: 1-2,1-3,1-4,2-5,3-6,5-6
    "branch7": [[2, 1, 1, 1, 2, 3, 5], [3, 5, 6, 0, 6, 5, 0], [4, 0, 0, 0, 7, 0, 0]],
}


class Setup:
    pass


def parse(rows):
    """list of time steps, each a list of strings: '#' flagged, '.' clear, '?' free, 'L' land"""
    return rows


def build(k, rows, name="m", chunk_t=None, mask=None, names="std", mesh=None, lon=None, lat=None, chunks=None, land_data=False):
    """DataArray from a picture. rows[t] = list of row strings (gridded) or one string (unstructured).
    '#': True, '.': False, '?': symbolic, 'L': land (False unless land_data, mask False)"""
    s = Setup()
    s.k = k
    nm = NAMES["unstr" if mesh else names]
    s.nm = nm
    if mesh:
        grid = [[r] if isinstance(r, str) else r for r in rows]
    else:
        grid = rows
    T, ny, nx = len(grid), len(grid[0]), len(grid[0][0])
    shape = (T, nx) if mesh else (T, ny, nx)
    fixed, land = {}, set()
    for t in range(T):
        for y in range(ny):
            assert len(grid[t][y]) == nx
            for x in range(nx):
                c = grid[t][y][x]
                i = (t, x) if mesh else (t, y, x)
                if c == "L":
                    land.add(i[1:])
                    if not land_data:
                        fixed[i] = False
                elif c != "?":
                    fixed[i] = c == "#"
    data = k.bool(name, shape, fixed=fixed)
    s.a = k.arr(data)
    s.shape, s.T, s.ny, s.nx = shape, T, ny, nx
    s.pts = list(np.ndindex(*shape[1:]))
    s.land = land
    s.times = pd.date_range("2001-01-01", periods=T)
    if mesh:
        s.nb = np.array(MESH[mesh])
        lon = 10.0 * np.arange(nx) if lon is None else np.asarray(lon, float)
        lat = np.linspace(-20, 20, nx) if lat is None else np.asarray(lat, float)
        co = {nm["t"]: s.times, "lon": (nm["x"], lon), "lat": (nm["x"], lat)}
        dims = (nm["t"], nm["x"])
    else:
        lon = np.arange(nx) * (360.0 / nx) if lon is None else np.asarray(lon, float)
        lat = np.arange(ny) * 10.0 - 5.0 * (ny - 1) if lat is None else np.asarray(lat, float)
        co = {nm["t"]: s.times, nm["y"]: lat, nm["x"]: lon}
        dims = (nm["t"], nm["y"], nm["x"])
    s.lon, s.lat = lon, lat
    da = xr.DataArray(data, dims=dims, coords=co, name="extreme_events")
    ch = {nm["t"]: chunk_t or -1, nm["x"]: -1}
    if nm["y"]:
        ch[nm["y"]] = -1
    ch.update(chunks or {})
    s.da = da.chunk(ch)
    mk = np.ones(shape[1:], bool)
    for i in land:
        mk[i] = False
    s.ocean = mk
    s.mask = xr.DataArray(mk, dims=dims[1:], coords={c: v for c, v in co.items() if c != nm["t"]})
    return s


def tracker(k, s, tmp=None, areas=None, **kw):
    nm = s.nm
    args = dict(kw)
    if nm["dims"]:
        args["dimensions"] = dict(nm["dims"])
    if nm["coords"]:
        args["coordinates"] = dict(nm["coords"])
    if nm["y"] is None:
        nb = xr.DataArray(s.nb.astype(np.int32), dims=("nv", nm["x"])).chunk({"nv": -1, nm["x"]: -1})
        ca = areas if areas is not None else np.ones(s.nx, np.float32)
        args.setdefault("coordinate_units", "degrees")
        args.update(unstructured_grid=True, neighbours=nb, cell_areas=xr.DataArray(ca, dims=(nm["x"],)).chunk({nm["x"]: -1}), temp_dir=tmp)
    else:
        args.setdefault("coordinate_units", "degrees")
        if areas is not None:
            args["cell_areas"] = xr.DataArray(areas, dims=(nm["y"], nm["x"]), coords={nm["y"]: s.lat, nm["x"]: s.lon})
    return k.marEx.tracker(s.da, s.mask, **args)


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="symx_trk_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def garr(k, s, da, lead):
    sp = [s.nm["x"]] if s.nm["y"] is None else [s.nm["y"], s.nm["x"]]
    return k.arr(da.transpose(*lead, *sp))


# ------------------------------------------------------------------------------------------- oracles
def disk(R):
    return [(dy, dx) for dy in range(-R, R + 1) for dx in range(-R, R + 1) if dy * dy + dx * dx < R * R + 1]


def grid_get(a, t, ny, nx, wrap):
    """cell accessor of the extended plane: periodic x (or edge-replicated), edge-replicated y"""
    def g(y, x):
        y = min(max(y, 0), ny - 1)
        x = x % nx if wrap else min(max(x, 0), nx - 1)
        return a[t, y, x]

    return g


def close_open(g, ny, nx, offs):
    """closing then opening evaluated on the (conceptually infinite) extended plane"""
    def memo(f):
        c = {}

        def h(y, x):
            if (y, x) not in c:
                c[y, x] = f(y, x)
            return c[y, x]

        return h

    dil = lambda f: memo(lambda y, x: l_or(*[f(y - dy, x - dx) for dy, dx in offs]))
    ero = lambda f: memo(lambda y, x: l_and(*[f(y + dy, x + dx) for dy, dx in offs]))
    r = dil(ero(ero(dil(g))))
    return [[r(y, x) for x in range(nx)] for y in range(ny)]


def neighbours(s, wrap=True):
    """spatial adjacency of an object's cells: 8-neighbourhood (periodic x) or mesh edges"""
    out = []
    if s.nm["y"] is None:
        for c in range(s.nx):
            for r in range(3):
                j = int(s.nb[r, c]) - 1
                if j >= 0:
                    out.append(((c,), (j,)))
        return sorted({tuple(sorted(p)) for p in out})
    for y, x in s.pts:
        for dy in (-1, 0, 1):
            for dx in (-1, 0, 1):
                y2, x2 = y + dy, x + dx
                if wrap:
                    x2 %= s.nx
                if (dy or dx) and 0 <= y2 < s.ny and 0 <= x2 < s.nx and (y2, x2) != (y, x):
                    out.append(tuple(sorted(((y, x), (y2, x2)))))
    return sorted(set(out))


def reach(n, adj):
    """transitive closure as a matrix of conditions; adj: {(i,j): cond}"""
    R = [[False] * n for _ in range(n)]
    for (i, j), c in adj.items():
        R[i][j] = R[j][i] = l_or(R[i][j], c)
    for m in range(n):
        for i in range(n):
            if R[i][m] is False or i == m:
                continue
            for j in range(i + 1, n):
                if j == m or R[m][j] is False:
                    continue
                R[i][j] = R[j][i] = l_or(R[i][j], l_and(R[i][m], R[m][j]))
    return R


# 9 triangles: a triangular patch of side 3 (cells listed row by row); edges found by hand
_T9 = [(1, 3), (2, 3), (3, 4), (5, 6), (6, 7), (7, 8), (8, 9), (2, 6), (4, 8)]


def _mesh_from_edges(n, edges):
    nb = [[] for _ in range(n)]
    for a, b in edges:
        nb[a - 1].append(b)
        nb[b - 1].append(a)
    assert all(len(x) <= 3 for x in nb)
    return [[(nb[c] + [0, 0, 0])[r] for c in range(n)] for r in range(3)]


# a strip whose cells list their neighbours in alternating order
MESH["mix8"] = [[2, 1, 4, 3, 6, 5, 8, 7], [0, 3, 2, 5, 4, 7, 6, 0], [0] * 8]
MESH["tri9"] = _mesh_from_edges(9, _T9)


def mesh_nb(s):
    """closed neighbourhoods (cell itself included) from the neighbour table"""
    out = []
    for c in range(s.nx):
        out.append(sorted({c} | {int(s.nb[r, c]) - 1 for r in range(3) if s.nb[r, c] > 0}))
    return out


def mesh_close_open(s, col, R):
    """ICON-style closing / opening with R neighbour hops; land acts as filled while shrinking"""
    nb = mesh_nb(s)

    def grow(v):
        for _ in range(R):
            v = [l_or(*[v[j] for j in nb[c]]) for c in range(s.nx)]
        return v

    def shrink(v):
        for _ in range(R):
            v = [l_and(*[v[j] for j in nb[c]]) for c in range(s.nx)]
        return v

    land = lambda v: [v[c] if s.ocean[(c,)] else True for c in range(s.nx)]
    v = grow(list(col))
    v = shrink(land(v))
    v = grow(shrink(land(v)))
    return {(c,): v[c] for c in range(s.nx)}


def components(s, cells, wrap=True):
    """cells: {pt: condition} of one time step -> (reach matrix, list of pts); diagonal = the cell itself flagged"""
    pts = s.pts
    idx = {p: i for i, p in enumerate(pts)}
    adj = {}
    for a, b in neighbours(s, wrap):
        c = l_and(cells[a], cells[b])
        if c is not False:
            adj[idx[a], idx[b]] = c
    R = reach(len(pts), adj)
    for p, i in idx.items():
        R[i][i] = cells[p]
    return R


def flagged(s, t, a=None):
    a = s.a if a is None else a
    return {pt: (a[(t,) + pt] if s.ocean[pt] else False) for pt in s.pts}


def roots(R):
    """condition: cell is the first cell of its component"""
    n = len(R)
    return [l_and(R[i][i], *[l_not(R[i][j]) for j in range(i)]) for i in range(n)]


def sizes(k, R, w=None):
    """size (or weight) of the component a cell belongs to (0 when the cell is clear)"""
    n = len(R)
    return [s_sum([ite(R[i][j], 1 if w is None else w[j], 0) for j in range(n)]) for i in range(n)]


# -------------------------------------------------------------------------------- whole-tracker runs
def decide_mask(s):
    """case-split on the pixels: {t: set of flagged ocean cells}"""
    out = []
    for t in range(s.T):
        out.append({pt for pt in s.pts if s.ocean[pt] and bool(norm(s.a[(t,) + pt]))})
    return out


def objects(s, cells, wrap=True):
    """connected objects of one time step (concrete cells), ordered by first cell"""
    nb = {}
    for a, b in neighbours(s, wrap):
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
    left, out = set(cells), []
    for c in s.pts:
        if c not in left:
            continue
        comp, todo = set(), [c]
        left.discard(c)
        while todo:
            x = todo.pop()
            comp.add(x)
            for y in nb.get(x, ()):
                if y in left:
                    left.discard(y)
                    todo.append(y)
        out.append(frozenset(comp))
    return out


class Run:
    """outputs of tracker.run as plain python structures"""


def run_tracker(k, s, m, areas=None, want=("ID_field",), merges=True, api=None, **kw):
    """m: decided mask (list of sets); the data handed to marEx is concrete, options may be symbolic"""
    import xarray as _xr

    nm = s.nm
    data = np.zeros(s.shape, bool)
    for t, cs in enumerate(m):
        for pt in cs:
            data[(t,) + pt] = True
    s.da = s.da.copy(data=k.const(data)).chunk({d: c for d, c in zip(s.da.dims, s.da.chunks)})
    r = Run()
    with scratch() as tmp:
        kw.setdefault("R_fill", 0)
        kw.setdefault("T_fill", 0)
        kw.setdefault("area_filter_absolute", 1)
        tr = tracker(k, s, tmp=tmp, areas=areas, **kw)
        if api is not None:
            with contextlib.redirect_stdout(io.StringIO()):
                ds, mg = api(tr)
        else:
            pre = tr.run_tracking(tr.data_bin)
            ds, mg = pre[0], pre[1]
            r.N = k.arr(pre[2]).reshape(-1)[0] if hasattr(pre[2], "shape") else pre[2]
        r.idf = garr(k, s, ds.ID_field, [nm["t"]])
        r.ids = [int(x) for x in np.asarray(ds.ID.values)]
        r.ds = ds
        for w in want:
            if w == "ID_field":
                continue
            lead = {"area": [nm["t"], "ID"], "presence": [nm["t"], "ID"], "global_ID": [nm["t"], "ID"], "centroid": ["component", nm["t"], "ID"],
                    "merge_ledger": [nm["t"], "ID", "sibling_ID"]}.get(w)
            v = ds[w].transpose(*lead) if lead else ds[w]
            if w in ("time_start", "time_end"):
                setattr(r, w, [np.datetime64(x) for x in v.compute().values])
            else:
                setattr(r, w, k.arr(v))
        if merges:
            r.merges = []
            P, C, O = k.arr(mg.parent_IDs), k.arr(mg.child_IDs), k.arr(mg.overlap_areas)
            n_p, n_c = k.arr(mg.n_parents), k.arr(mg.n_children)
            times = mg.merge_time.compute().values if mg.sizes["merge_ID"] else []
            for i in range(mg.sizes["merge_ID"]):
                r.merges.append(dict(time=np.datetime64(times[i]), parents=[int(norm(x)) for x in P[i]], children=[int(norm(x)) for x in C[i]],
                                     overlaps=[norm(x) for x in O[i]], n_p=int(norm(n_p[i])), n_c=int(norm(n_c[i]))))
    r.id = {}
    for t in range(s.T):
        for pt in s.pts:
            r.id[(t,) + pt] = int(norm(r.idf[(t,) + pt]))
    k.out("ID_field", [[r.id[(t,) + pt] for pt in s.pts] for t in range(s.T)])
    return r


def weight(cells, w):
    return s_sum([w[c] for c in sorted(cells)]) if w is not None else len(cells)


def linked(s, p, c, thr, w=None):
    """overlap at least thr times the smaller of the two"""
    both = p & c
    if not both:
        return False
    o, a, b = weight(both, w), weight(p, w), weight(c, w)
    q = norm(o) / norm(ite(norm(a) < norm(b), a, b))
    if not is_sym(q) and float(np.float32(q)) != float(q):  # not a float32: thresholds within rounding of it are out of scope
        s.k.assume(l_or(thr > float(q) + 1e-6, thr < float(q) - 1e-6))
    return bool(q >= thr)


def lineages(s, m, thr, wrap=True, w=None, consolidate=True):
    """event of every object when no object ever has two linked predecessors; None otherwise.
    consolidate: the fragments an event splits into count as one object from then on"""
    prev, fresh, out = [], 0, []
    for t in range(s.T):
        cur = objects(s, m[t], wrap)
        par = []
        for c in cur:
            ps = [i for i, (p, _) in enumerate(prev) if linked(s, p, c, thr, w)]
            if len(ps) > 1:
                return None
            par.append(ps[0] if ps else None)
        groups = []
        if consolidate:
            for i, c in enumerate(cur):
                for g in groups:
                    if par[i] is not None and g[1] == par[i]:
                        g[0] = g[0] | c
                        break
                else:
                    groups.append([c, par[i]])
            for g in groups:
                if sum(1 for p, _ in prev if linked(s, p, g[0], thr, w)) > 1:
                    return None
        else:
            groups = [[c, q] for c, q in zip(cur, par)]
        nxt = []
        for c, q in groups:
            if q is None:
                fresh += 1
                nxt.append((c, fresh))
            else:
                nxt.append((c, prev[q][1]))
        prev = nxt
        out.append(nxt)
    return out


# ------------------------------------------------------------------------------------ merging histories
def unwrap(cells, nx, wrap):
    """{cell: column on an unwrapped axis}; None when the cut is ambiguous"""
    if not wrap:
        return {c: c[1] for c in cells}
    cols = sorted({c[1] for c in cells})
    gaps = [((cols[(i + 1) % len(cols)] - cols[i] - 1) % nx) for i in range(len(cols))]
    g = max(gaps)
    if len(cols) > 1 and (gaps.count(g) > 1 or g == 0):
        return None
    start = cols[(gaps.index(g) + 1) % len(cols)]
    return {c: start + (c[1] - start) % nx for c in cells}


def centroid(cells, nx, wrap):
    """(row, column) of the object's middle, column in [0, nx) when periodic"""
    u = unwrap(cells, nx, wrap)
    if u is None:
        return None
    y = sum(c[0] for c in cells) / len(cells)
    x = sum(u.values()) / len(cells)
    return y, (x % nx if wrap else x)


def dist2(a, b, nx, wrap):
    dx = abs(a[1] - b[1])
    if wrap:
        dx = dx % nx
        dx = min(dx, nx - dx)
    return (a[0] - b[0]) ** 2 + dx ** 2


def sphere(s, c):
    lat, lon = math.radians(s.lat[c[0]]), math.radians(s.lon[c[0]])
    return math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)


def parent_distance(s, parent, nn, wrap, w=None):
    """distance function of a cell to a parent object; None when undefined"""
    if s.nm["y"] is not None:
        if nn:
            return lambda c: min(dist2(c, p, s.nx, wrap) for p in parent)
        cc = centroid(parent, s.nx, wrap)
        return None if cc is None else (lambda c: dist2(c, cc, s.nx, wrap))
    if nn:  # fewest hops over the mesh
        nb = mesh_nb(s)
        hop, front, d = {p: 0 for p in parent}, list(parent), 0
        while front:
            d += 1
            nxt = []
            for p in front:
                for j in nb[p[0]]:
                    if (j,) not in hop:
                        hop[(j,)] = d
                        nxt.append((j,))
            front = nxt
        return lambda c: hop.get(c, math.inf)
    v = [sum((w[p] if w else 1.0) * sphere(s, p)[i] for p in parent) for i in range(3)]
    n = math.sqrt(sum(x * x for x in v))
    if n < 1e-6:
        return None
    v = [x / n for x in v]
    return lambda c: -sum(a * b for a, b in zip(v, sphere(s, c)))  # monotone in the great-circle distance


def genealogy(k, s, m, thr, wrap=True, w=None, nn=False, consolidate=True, tie=1e-5):
    """events and merges by the documented rules; None when the rules leave the outcome open
    (equidistant parents, or a partition whose pieces again overlap another parent)"""
    prev, fresh, out, merges = [], 0, [], []
    for t in range(s.T):
        cur = objects(s, m[t], wrap)
        pieces = []  # cells, parent index or None
        for c in cur:
            ps = [i for i, (p, _) in enumerate(prev) if linked(s, p, c, thr, w)]
            if len(ps) < 2:
                pieces.append([c, ps[0] if ps else None])
                continue
            ds = [parent_distance(s, prev[i][0], nn, wrap, w) for i in ps]
            if any(d is None for d in ds):
                return None
            part = [set() for _ in ps]
            for cell in c:
                v = [d(cell) for d in ds]
                best = min(range(len(ps)), key=lambda i: v[i])
                if any(i != best and abs(v[i] - v[best]) <= tie for i in range(len(ps))):
                    return None
                part[best].add(cell)
            for i, q in zip(ps, part):
                q = frozenset(q)
                if not q or [j for j, (p, _) in enumerate(prev) if linked(s, p, q, thr, w)] != [i]:
                    return None
                pieces.append([q, i])
            merges.append(dict(t=t, child=c, parents=[prev[i][1] for i in ps], cells=[prev[i][0] for i in ps],
                               overlaps=[weight(prev[i][0] & c, w) for i in ps]))
        if consolidate:
            groups = []
            for c, q in pieces:
                for g in groups:
                    if q is not None and g[1] == q:
                        g[0] = g[0] | c
                        break
                else:
                    groups.append([c, q])
            for c, q in groups:
                if sum(1 for p, _ in prev if linked(s, p, c, thr, w)) > 1:
                    return None
        else:
            groups = pieces
        nxt = []
        for c, q in groups:
            if q is None:
                fresh += 1
                nxt.append((frozenset(c), fresh))
            else:
                nxt.append((frozenset(c), prev[q][1]))
        prev = nxt
        out.append(nxt)
    return out, merges
