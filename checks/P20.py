"""P20: a complete run is hole filling, gap filling, area filter and tracking, with or without checkpoints"""
import contextlib
import io
import time

import numpy as np
import xarray as xr

from symx.core import norm
from symx.run import Obl

from .P11 import time_close
from .tcommon import build, close_open, decide_mask, disk, garr, genealogy, grid_get, mesh_close_open, objects, scratch

BOUNDS = ("tracker.run on every boolean field of the listed pictures ('?' = free cell) with the listed R_fill, T_fill and area filters, with and without "
          "merging; where said also saved to and resumed from a checkpoint. Oracle: closing and opening, closing in time, area filter, objects")
OUTSIDE = "larger grids, longer series; fields in which fewer than two objects survive the filter (see the finding of P12)"


def prepared(s, m, R, T, thr, q, reg, first_lost):
    """flagged cells after filling and filtering; (cells per step, objects before, kept objects, threshold)"""
    mesh = s.nm["y"] is None

    def fill(cells, R):
        if R == 0:
            return set(cells)
        if mesh:
            v = mesh_close_open(s, [pt in cells for pt in s.pts], R)
            return {pt for pt in s.pts if s.ocean[pt] and v[pt]}
        a = {(0,) + pt: pt in cells for pt in s.pts}
        r = close_open(grid_get(a, 0, s.ny, s.nx, not reg), s.ny, s.nx, disk(R))
        return {pt for pt in s.pts if s.ocean[pt] and r[pt[0]][pt[1]]}

    f = [fill(c, R) for c in m]
    if T:
        closed = {pt: time_close([pt in f[t] for t in range(s.T)], T) for pt in s.pts if s.ocean[pt]}
        f = [{pt for pt, col in closed.items() if col[t]} for t in range(s.T)]
        f = [fill(c, R // 2) for c in f]
    obs = [(t, o) for t in range(s.T) for o in objects(s, f[t], not reg)]
    sizes = sorted(len(o) for _, o in obs if not mesh or len(o) > 5)
    if not sizes:
        return None
    if q is not None:
        h = (len(sizes) - 1) * q
        i = int(h + 1e-9)
        j = min(i + 1, len(sizes) - 1)
        thr = sizes[i] + (sizes[j] - sizes[i]) * (h - i)
    kept = [(t, o) for t, o in obs if len(o) >= thr]
    if first_lost and not mesh and kept and obs and kept[0] == obs[0]:
        kept_alt = kept[1:]
    else:
        kept_alt = kept
    return f, obs, kept, kept_alt, thr


def cells_of(s, kept):
    out = [set() for _ in range(s.T)]
    for t, o in kept:
        out[t] |= o
    return out


def run(k):
    p = k.p
    mesh, reg = p.get("mesh"), p.get("regional", False)
    R, T = p.get("R", 0), p.get("T", 0)
    s = build(k, p["rows"], chunk_t=p.get("ct"), names=p.get("names", "std"), mesh=mesh)
    nm = s.nm
    m = decide_mask(s)
    ref = prepared(s, m, R, T, p.get("A"), p.get("q"), reg, k.known("P12", "first-object"))
    if ref is None or len(ref[2]) < 2:
        k.assume(False)
    filled, obs, kept, kept_alt, thr = ref
    data = np.zeros(s.shape, bool)
    for t, cs in enumerate(m):
        for pt in cs:
            data[(t,) + pt] = True
    da = s.da.copy(data=k.const(data)).chunk(dict(zip(s.da.dims, s.da.chunks)))
    da.attrs["source"] = "test"
    args = dict(R_fill=R, T_fill=T, overlap_threshold=p.get("thr", 0.5), coordinate_units="degrees", allow_merging=p.get("merging", True), regional_mode=reg)
    if not reg:
        args.pop("regional_mode")
    if p.get("q") is not None:
        args["area_filter_quartile"] = p["q"]
    else:
        args["area_filter_absolute"] = p["A"]
    for a in ("dims", "coords"):
        if nm[a]:
            args[{"dims": "dimensions", "coords": "coordinates"}[a]] = dict(nm[a])
    if mesh:
        args.update(unstructured_grid=True, neighbours=xr.DataArray(s.nb.astype(np.int32), dims=("nv", nm["x"])).chunk({"nv": -1, nm["x"]: -1}),
                    cell_areas=xr.DataArray(np.ones(s.nx, np.float32), dims=(nm["x"],)).chunk({nm["x"]: -1}))
    results = {}
    sleep = time.sleep
    time.sleep = lambda *_: None
    try:
        with scratch() as tmp:
            args["temp_dir"] = tmp
            for mode in p.get("modes", ["plain"]):
                a = dict(args)
                d = da
                if mode == "save":
                    a["checkpoint"] = "save"
                elif mode == "load":
                    a["checkpoint"] = "load"
                    d = da.copy(data=k.const(np.zeros(s.shape, bool))).chunk(dict(zip(s.da.dims, s.da.chunks)))  # the raw data are not looked at again
                    d.attrs.update(da.attrs)
                with contextlib.redirect_stdout(io.StringIO()):
                    if p.get("wrapper"):
                        a.pop("regional_mode", None)
                        tr = k.marEx.regional_tracker(d, s.mask, **a)
                    else:
                        tr = k.marEx.tracker(d, s.mask, **a)
                    ds = tr.run(**(dict(checkpoint=p["override"]) if p.get("override") and mode == "plain" else {}))
                idf = garr(k, s, ds.ID_field, [nm["t"]])
                ids = {(t,) + pt: int(norm(idf[(t,) + pt])) for t in range(s.T) for pt in s.pts}
                at = {q: ds.attrs.get(q) for q in ("N_objects_prefiltered", "N_objects_filtered", "N_events_final", "R_fill", "T_fill", "accepted_area_fraction",
                                                   "preprocessed_area_fraction", "source", "allow_merging", "area_threshold (cells)")}
                at = {q: (v if isinstance(v, str) or v is None else float(norm(v if not hasattr(v, "item") else v.item()))) for q, v in at.items()}
                results[mode] = (ids, at)
    finally:
        time.sleep = sleep
    first = p.get("modes", ["plain"])[0]
    ids, at = results[first]
    k.out("ID_field", [[ids[(t,) + pt] for pt in s.pts] for t in range(s.T)])
    got = [{pt for pt in s.pts if ids[(t,) + pt] > 0} for t in range(s.T)]
    ok = got == cells_of(s, kept)
    alt = got == cells_of(s, kept_alt)
    k.check(ok or alt, "events cover exactly the filled and filtered cells (up to the recorded loss of the first object)")
    use = kept if ok else kept_alt
    if not mesh:
        k.check(at["N_objects_prefiltered"] == len(obs), "N_objects_prefiltered counts the objects after filling")
        k.check(at["N_objects_filtered"] == len(use), "N_objects_filtered counts the objects that were kept")
        tot = sum(len(o) for _, o in obs)
        k.check(abs(at["accepted_area_fraction"] - sum(len(o) for _, o in kept) / tot) < 1e-5, "accepted_area_fraction is the kept share of the identified area")
    raw = sum(len(c) for c in m)
    k.check(abs(at["preprocessed_area_fraction"] - raw / sum(len(c) for c in got)) < 1e-5, "preprocessed_area_fraction relates the given to the processed area")
    k.check(at["R_fill"] == R and at["T_fill"] == T and at["source"] == "test" and bool(at["allow_merging"]) == p.get("merging", True), "options and attributes are carried over")
    k.check(at["N_events_final"] == len({i for i in ids.values() if i > 0}), "N_events_final counts the events")
    if not p.get("merging", True):
        flag = {(t,) + pt for t, o in use for pt in o}
        part = {}
        for c in flag:
            part.setdefault(ids[c], set()).add(c)
        k.check(sorted(map(sorted, part.values())) == sorted(map(sorted, spacetime(s, flag, reg))), "without merging, events are the space-time connected regions")
    else:  # with merging, the events are those of the surviving cells
        gen = genealogy(k, s, got, p.get("thr", 0.5), wrap=not reg, consolidate=not mesh)
        if gen is not None:
            fwd, bwd, conds = {}, {}, []
            for t, evs in enumerate(gen[0]):
                for cells, ev in evs:
                    for c in cells:
                        i = ids[(t,) + c]
                        conds.append(("one event, one ID %s" % ((t,) + c,), fwd.setdefault(ev, i) == i))
                        conds.append(("one ID, one event %s" % ((t,) + c,), bwd.setdefault(i, ev) == ev))
            k.check_all(conds, "the events are those of the filled and filtered field")
    for mode in p.get("modes", ["plain"])[1:]:
        i2, a2 = results[mode]
        k.check(i2 == ids, "%s: same events" % mode)
        k.check(all(a2[q] == at[q] or (isinstance(at[q], float) and abs(a2[q] - at[q]) < 1e-6) for q in at), "%s: same attributes" % mode)


def spacetime(s, flag, reg):
    from .tcommon import neighbours
    nb = {}
    for a, b in neighbours(s, not reg):
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
    left, out = set(flag), []
    while left:
        todo, comp = [left.pop()], set()
        while todo:
            c = todo.pop()
            comp.add(c)
            t, pt = c[0], c[1:]
            for dt in (-1, 0, 1):
                for q in nb.get(pt, set()) | {pt}:
                    e = (t + dt,) + q
                    if e in left:
                        left.discard(e)
                        todo.append(e)
        out.append(comp)
    return out


def obligations(tier):
    o = []

    def add(name, budget=280, **p):
        o.append(Obl(name, run, p, budget=budget, bound=str(p)))

    add("plain", A=2, rows=[["##?.##.", "......."], ["##..?#.", "?..?..."]])
    add("fill", A=2, R=1, rows=[["###?.###", "#?#..###", "###..#?#"], ["###..###", "###..##?", "###..###"]])
    add("gaps", A=1, T=2, rows=[["#?.#."], ["?..#?"], ["#..#."], ["#?..."]], ct=2)
    add("fill_gaps", A=3, R=2, T=2, rows=[["####.....", "####.####", "####.####", "####.####"], ["....?....", "....?....", "...?.....", "........."], ["####.....", "####.####", "####.##?#", "####.####"]])
    add("quartile", q=0.5, rows=[["#.##.??."], ["##.#?.#."]])
    add("regional", A=2, regional=True, rows=[["#?.##?"], ["?#..##"]], thr=0.3)
    add("no_merging", A=1, merging=False, rows=[["#?.#.?"], ["?..#?."], ["#.?..#"]], ct=2)
    add("no_merging_cust", A=2, merging=False, names="cust", rows=[["##.?##", "..?..."], ["#?...#", "?....#"]])
    add("regional_tracker", A=2, regional=True, wrapper=True, rows=[["#?.##?"], ["?#..##"]], thr=0.3)
    add("regional_fill", A=2, R=1, regional=True, wrapper=True, rows=[["##..###", "##..#?#", "##..###"], ["##..###", "##?.###", "##.####"]], thr=0.3)
    add("merge", A=2, R=1, T=2, rows=[["###..###.", "###..###.", "###..##?."], ["........?", ".........", "........."], ["########.", "########.", "#######?."]], thr=0.3, ct=2)
    add("overridden", A=2, modes=["plain", "load"], override="save", rows=[["##.?##"], ["#?...#"], ["##..##"]])
    add("mesh", A=2, R=1, mesh="strip13", rows=["######?.#####", "##?###..?####"])
    add("checkpoint", A=2, R=1, modes=["plain", "save", "load"], rows=[["###?.###", "###..###", "###..###"], ["###..###", "###..##?", "###..###"]])
    add("checkpoint_mesh", A=2, mesh="strip13", T=2, ct=1, modes=["save", "load", "plain"], rows=["######.######", "######...####", "####?#.######"])
    add("checkpoint_name", A=2, names="cust", ct=2, modes=["save", "load"], rows=[["##.?##"], ["#?...#"], ["##..##"]])
    return o
