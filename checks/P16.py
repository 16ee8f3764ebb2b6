"""P16: the statistics of every event describe exactly the cells that carry its ID"""
import math

import numpy as np

from symx import core
from symx.core import f_isnan, is_sym, l_and, l_not, norm, s_sum
from symx.run import Obl

from .tcommon import build, decide_mask, run_tracker, sphere, unwrap

BOUNDS = ("complete runs (tracker.run / run_tracking) on every boolean field of the listed pictures ('?' = free cell); where said, every "
          "assignment of cell areas in [1, 4] to the cells; oracle = sums over the cells carrying the ID in the returned ID_field")
OUTSIDE = "larger grids, longer series; circular objects without a free column (their zonal centre is undefined)"


def near(a, b, tol):
    d = norm(a) - norm(b)
    return l_and(d <= tol, d >= -tol)


def api_mesh(tr):  # tracker.run without the area filter (which refuses meshes this small)
    ev, mg, n = tr.run_tracking(tr.data_bin)
    return tr.run_stats_attributes(ev, mg, (1.0, 1, 1, 1.0, 1.0, 1.0), n), mg


def stats(k):
    p = k.p
    s = build(k, p["rows"], chunk_t=p.get("ct"), names=p.get("names", "std"), mesh=p.get("mesh"), lon=p.get("lon"), lat=p.get("lat"))
    reg = p.get("regional", False)
    m = decide_mask(s)
    if not any(m):
        k.assume(False)
    w = areas = None
    shape = s.shape[1:]
    if p.get("areas") == "sym":
        core.OPAQUE_SQRT = p.get("mesh") is not None
        areas = k.real("areas", shape, lo=1.0, hi=4.0)
        w = {pt: norm(k.arr(areas)[pt]) for pt in s.pts}
    elif p.get("areas"):
        areas = (np.arange(int(np.prod(shape))) % 3 + 1).astype(np.float32).reshape(shape)
        w = {pt: float(areas[pt]) for pt in s.pts}
    kw = {}
    if p.get("run"):
        kw["api"] = api_mesh if p.get("mesh") else lambda tr: tr.run(return_merges=True)
    if p.get("resolution"):
        kw["grid_resolution"] = p["resolution"]
        r2, d = 6378.0 ** 2, math.radians(p["resolution"])
        w = {pt: r2 * d * abs(math.sin(math.radians(s.lat[pt[0]]) + d / 2) - math.sin(math.radians(s.lat[pt[0]]) - d / 2)) for pt in s.pts}
    r = run_tracker(k, s, m, areas=areas, want=("presence", "area", "centroid", "time_start", "time_end", "global_ID"), overlap_threshold=p.get("thr", 0.5),
                    allow_merging=True, regional_mode=reg, nn_partitioning=p.get("nn", False), **kw)
    w = w or {pt: 1.0 for pt in s.pts}
    used = sorted({i for i in r.id.values() if i > 0})
    k.check(r.ids == used, "the ID dimension lists exactly the IDs of the field")
    if p.get("run"):
        k.check(int(r.ds.attrs["N_events_final"]) == len(used), "N_events_final counts them")
        k.check(int(r.ds.attrs["total_merges"]) == len(r.merges), "total_merges counts the merge records")
        k.check(int(r.ds.attrs["multi_parent_merges"]) == sum(1 for g in r.merges if g["n_p"] > 2), "multi_parent_merges counts mergers of three and more")
    symb = p.get("areas") == "sym"
    pres, area, cen, tims, gl = [], [], [], [], []
    owner = {}
    for j, e in enumerate(r.ids):
        ts = [t for t in range(s.T) if any(r.id[(t,) + pt] == e for pt in s.pts)]
        if not ts:
            continue
        tims.append(("ID %d" % e, r.time_start[j] == np.datetime64(s.times[ts[0]]) and r.time_end[j] == np.datetime64(s.times[ts[-1]])))
        for t in range(s.T):
            cells = frozenset(pt for pt in s.pts if r.id[(t,) + pt] == e)
            at = "t%d ID %d" % (t, e)
            P, A, G = norm(r.presence[t, j]), r.area[t, j], int(norm(r.global_ID[t, j]))
            C = [r.centroid[c, t, j] for c in (0, 1)]
            pres.append((at, bool(P) == bool(cells)))
            if not cells:
                area.append((at, f_isnan(A)))
                cen.append((at, l_and(f_isnan(C[0]), f_isnan(C[1]))))
                gl.append((at, G == 0))
                continue
            gl.append((at, G > 0))
            gl.append((at + " unique", owner.setdefault(G, (t, e)) == (t, e)))
            tot = s_sum([w[c] for c in sorted(cells)])
            area.append((at, l_and(l_not(f_isnan(A)), near(A, tot, 0 if symb else 1e-3 * max(1.0, tot / 1e3)))))
            if s.nm["y"] is None:
                if symb:
                    continue
                v = [sum(w[c] * sphere(s, c)[i] for c in cells) for i in range(3)]
                n = math.sqrt(sum(x * x for x in v))
                if n < 1e-3 or math.hypot(v[0], v[1]) < 1e-3 * n:
                    continue
                got = [math.radians(float(norm(c))) for c in C]
                g = (math.cos(got[0]) * math.cos(got[1]), math.cos(got[0]) * math.sin(got[1]), math.sin(got[0]))
                cen.append((at, max(abs(a - b / n) for a, b in zip(g, v)) < 1e-4))
                if p.get("run") and s.lon.min() >= 0 and s.lon.max() > 180:
                    cen.append((at + " range", 0 <= float(norm(C[1])) <= 360))
                continue
            u = unwrap(cells, s.nx, not reg)
            if u is None:
                continue
            # centre = weighted mean of the (linear) coordinates along the unwrapped object
            step = s.lon[1] - s.lon[0]
            la = s_sum([w[c] * s.lat[c[0]] for c in sorted(cells)])
            lo = s_sum([w[c] * (s.lon[0] + step * u[c]) for c in sorted(cells)])
            tol = 1e-3
            cen.append((at + " lat", near(norm(C[0]) * tot, la, tol * tot)))
            top = s.lon[0] + step * s.nx
            alts = [near(norm(C[1]) * tot, lo, tol * tot)]
            if not reg:
                alts = [l_and(near((norm(C[1]) + 360.0 * z) * tot, lo, tol * tot)) for z in (0, 1, -1)]
                cen.append((at + " lon range", l_and(norm(C[1]) >= s.lon[0] - tol, norm(C[1]) <= top + tol)))
            cen.append((at + " lon", core.l_or(*alts)))
    k.check_all(pres, "presence: the ID occurs at that time")
    k.check_all(area, "area: sum of the cell areas carrying the ID (NaN when absent)")
    k.check_all(tims, "time_start / time_end: first and last time of presence")
    k.check_all(gl, "global_ID: one unique object per event and time (0 when absent)")
    k.check_all(cen, "centroid: area-weighted centre of the cells carrying the ID (NaN when absent)")


def obligations(tier):
    o = []

    def add(name, budget=280, **p):
        o.append(Obl(name, stats, p, budget=budget, bound=str(p)))

    add("run", run=True, rows=[["##?.?#"], ["?#.?.#"], ["#...?#"]], ct=2)
    add("areas", areas="sym", rows=[["#?..", ".#.."], ["?#..", "...#"]])
    add("areas_seam", areas="sym", rows=[["#..?#"], ["?...#"]])
    add("areas_regional", areas="sym", rows=[["#..?#"], ["??.##"]], regional=True)
    add("areas_custom", areas="sym", rows=[["?#..", ".#.."]] * 2, names="cust", ct=1)
    add("wide", run=True, rows=[["..?####?.."], ["?..#####.."]])
    add("seam", run=True, rows=[["##...??#"], ["#?....##"]], ct=1)
    add("west", run=True, rows=[["##...??#"], ["#?..#.##"]], lon=[45.0 * i - 180.0 for i in range(8)])
    add("resolution", run=True, rows=[["##?.", "..#?", "?..."], ["##..", "..?#", ".?.."]], resolution=10.0)
    add("merge", run=True, rows=[["##.?##.."], ["######?."], ["#?..##.."]], ct=2)
    add("mesh", run=True, areas=True, rows=["##?.?#", "#?..?#"], mesh="strip6")
    add("mesh_areas", areas="sym", rows=["##?.?#", "#?..##"], mesh="strip6")
    add("mesh_ring", run=True, areas=True, rows=["##...#", "#?..?#", "#..?.#"], mesh="ring6", lon=[60.0 * i for i in range(6)], lat=[0, 10, 20, 30, 20, 10], ct=2)
    add("mesh_merge", run=True, areas=True, rows=["##.###..", "#####?..", "##.###.?"], mesh="strip8")
    add("long", run=True, rows=[["##...."], ["##..?#"], ["##...#"], ["##...#"], ["##.?.#"], ["?....#"], [".....#"], ["......"]], ct=3)
    w240 = lambda f: "".join(f(x) for x in range(240))
    add("wide240", run=True, rows=[[w240(lambda x: "?" if x in (7, 232) else "#" if x < 7 or x > 232 or 80 < x < 160 else ".")]] * 2)
    add("mesh_long", run=True, areas=True, rows=["##...#", "##...#", "##..?#", "##...#", "?#....", ".#....", "......"], mesh="strip6", ct=2)
    return o
