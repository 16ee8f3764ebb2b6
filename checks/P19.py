"""P19: tracking answers in the caller's coordinates, whatever their convention, and never touches its inputs"""
import math

import numpy as np
import xarray as xr

from symx import core
from symx.core import f_isnan, l_and, l_or, norm
from symx.run import Obl

from .dcommon import field, kw
from .tcommon import build, decide_mask, run_tracker

BOUNDS = ("complete runs on every boolean field of the listed pictures ('?' = free cell), each run with the longitudes in degrees from 0, in degrees from "
          "-180 and in radians (auto-detected or declared), and twice on the same objects; where said, arbitrary cell areas in [1, 4]")
OUTSIDE = "larger grids, longer series, longitude axes that are not uniform"

WANT = ("presence", "area", "centroid", "time_start", "time_end", "global_ID")


def near(a, b, tol=1e-3):
    a, b = norm(a), norm(b)
    na, nb = f_isnan(a), f_isnan(b)
    if na is True or nb is True:
        return na is True and nb is True
    d = a - b
    return l_and(d <= tol, d >= -tol)


def api_mesh(tr):
    ev, mg, n = tr.run_tracking(tr.data_bin)
    return tr.run_stats_attributes(ev, mg, (1.0, 1, 1, 1.0, 1.0, 1.0), n), mg


def picture(s, m, mesh):
    out = []
    for t in range(s.T):
        if mesh:
            out.append("".join("#" if (x,) in m[t] else "." for x in range(s.nx)))
        else:
            out.append(["".join("#" if (y, x) in m[t] else "." for x in range(s.nx)) for y in range(s.ny)])
    return out


def snapshot(k, a):
    return dict(data=k.arr(a).copy(), dims=a.dims, dtype=str(a.dtype), attrs=dict(a.attrs), name=a.name, coords={c: k.arr(a[c]).copy() for c in a.coords},
                cattrs={c: dict(a[c].attrs) for c in a.coords}, chunks=a.chunks)


def unchanged(k, a, b):
    """labelled comparisons of an input with its snapshot"""
    out = [("dims", a.dims == b["dims"]), ("dtype", str(a.dtype) == b["dtype"]), ("attrs", dict(a.attrs) == b["attrs"]), ("name", a.name == b["name"]),
           ("coordinates", sorted(map(str, a.coords)) == sorted(map(str, b["coords"]))), ("chunks", a.chunks == b["chunks"])]
    if all(c for _, c in out):
        for nm, now, was in [("data", k.arr(a), b["data"])] + [("coordinate " + str(c), k.arr(a[c]), v) for c, v in b["coords"].items()]:
            out.append((nm, now.shape == was.shape and all(not core.is_sym(norm(now[i] == was[i])) and bool(norm(now[i] == was[i])) or now[i] is was[i]
                                                          for i in np.ndindex(*was.shape))))
        out += [("attributes of " + str(c), dict(a[c].attrs) == v) for c, v in b["cattrs"].items()]
    return out


def rows_of(r):
    return [dict(ID=e, presence=[bool(norm(x)) for x in r.presence[:, j]], area=list(r.area[:, j]), lat=list(r.centroid[0, :, j]),
                 lon=list(r.centroid[1, :, j]), start=r.time_start[j], end=r.time_end[j], gid=[int(norm(x)) for x in r.global_ID[:, j]]) for j, e in enumerate(r.ids)]


def same_run(a, b, lat=1.0, lon=1.0, period=None, lo=None, hi=None, tol=1e-3):
    """labelled comparison of two runs; b's centroids times lat / lon factor, longitudes modulo period, inside [lo, hi]"""
    out = [("IDs", a.ids == b.ids), ("ID field", a.id == b.id)]
    if a.ids == b.ids:
        for x, y in zip(rows_of(a), rows_of(b)):
            e = "ID %d " % x["ID"]
            for q in ("presence", "start", "end", "gid"):
                out.append((e + q, x[q] == y[q]))
            for t, (u, v) in enumerate(zip(x["area"], y["area"])):
                out.append((e + "area t%d" % t, near(u, v)))
            for t in range(len(x["lat"])):
                out.append((e + "lat t%d" % t, near(x["lat"][t], norm(y["lat"][t]) * lat, tol)))
                v = norm(y["lon"][t]) * lon
                out.append((e + "lon t%d" % t, l_or(*[near(x["lon"][t], v + z * (period or 0), tol) for z in ((0, 1, -1) if period else (0,))])))
                if lo is not None and f_isnan(norm(y["lon"][t])) is not True:
                    out.append((e + "lon range t%d" % t, l_and(norm(y["lon"][t]) >= lo - tol, norm(y["lon"][t]) <= hi + tol)))
    if hasattr(a, "merges"):
        out.append(("merges", [(g["time"], sorted(g["parents"]), sorted(g["children"])) for g in a.merges] ==
                    [(g["time"], sorted(g["parents"]), sorted(g["children"])) for g in b.merges]))
    return out


def conventions(k):
    p = k.p
    mesh = p.get("mesh")
    s = build(k, p["rows"], chunk_t=p.get("ct"), mesh=mesh, names=p.get("names", "std"), lat=p.get("lat"), lon=p.get("lon"))
    m = decide_mask(s)
    if not any(m):
        k.assume(False)
    pic = picture(s, m, mesh)
    areas = None
    if p.get("areas"):
        core.OPAQUE_SQRT = mesh is not None
        areas = k.real("areas", s.shape[1:], lo=1.0, hi=4.0)
    kws = dict(want=WANT, areas=areas, overlap_threshold=p.get("thr", 0.5), nn_partitioning=p.get("nn", False), api=api_mesh if mesh else lambda tr: tr.run(return_merges=True))
    if p.get("resolution"):
        kws["grid_resolution"] = p["resolution"]
    a = run_tracker(k, s, m, coordinate_units="degrees", **kws)
    wrap = lambda x: (np.asarray(x) + 180.0) % 360.0 - 180.0
    variants = {"west": (wrap(s.lon), s.lat, 1.0, "degrees"), "radians": (np.radians(s.lon), np.radians(s.lat), 180 / math.pi, "radians"),
                "west_radians": (np.radians(wrap(s.lon)), np.radians(s.lat), 180 / math.pi, "radians")}
    for v in p["variants"]:
        lon, lat, f, u = variants[v]
        if not mesh and v.startswith("west"):
            lon = np.asarray(s.lon) - 180.0 if u == "degrees" else np.radians(np.asarray(s.lon) - 180.0)
        b = build(k, pic, name="v_" + v, chunk_t=p.get("ct"), mesh=mesh, names=p.get("names", "std"), lon=lon, lat=lat)
        r = run_tracker(k, b, m, coordinate_units=None if p.get("auto") else u, **kws)
        shift = 180.0 if not mesh and v.startswith("west") else 0.0
        top = (lon[-1] + (lon[1] - lon[0])) if not mesh else None
        if shift:  # the same pixels, 180 degrees further west
            for t in range(s.T):
                for j in range(len(r.ids)):
                    r.centroid[1, t, j] = norm(r.centroid[1, t, j]) + (180.0 if u == "degrees" else math.pi)
            conds = same_run(a, r, lat=f, lon=f, period=360.0)
        else:
            conds = same_run(a, r, lat=f, lon=f, period=360.0, lo=None if mesh else lon[0], hi=top)
        k.check_all(conds, "%s: same events, centroids in the caller's units" % v)
        nm = b.nm
        xn, yn = ("lon", "lat") if mesh else (nm["x"], nm["y"])
        k.check(np.array_equal(np.asarray(r.ds[xn].values, float), np.asarray(lon, float)) and np.array_equal(np.asarray(r.ds[yn].values, float), np.asarray(lat, float)),
                "%s: the dataset carries the coordinates it was given" % v)


def inputs(k):
    """a complete run leaves every input as it was, and a second run of the same objects gives the same answer"""
    p = k.p
    mesh = p.get("mesh")
    rad = p.get("units") == "radians"
    lon, lat = p.get("lon"), p.get("lat")
    s = build(k, p["rows"], chunk_t=p.get("ct"), mesh=mesh, names=p.get("names", "std"))
    m = decide_mask(s)
    if not any(m):
        k.assume(False)
    if rad:
        s = build(k, picture(s, m, mesh), name="r", chunk_t=p.get("ct"), mesh=mesh, names=p.get("names", "std"), lon=np.radians(s.lon), lat=np.radians(s.lat))
    areas = None
    if p.get("areas"):
        core.OPAQUE_SQRT = mesh is not None
        areas = k.real("areas", s.shape[1:], lo=1.0, hi=4.0)
    data = np.zeros(s.shape, bool)
    for t, cs in enumerate(m):
        for pt in cs:
            data[(t,) + pt] = True
    nm = s.nm
    sp = [nm["x"]] if mesh else [nm["y"], nm["x"]]
    da = s.da.copy(data=k.const(data)).chunk(dict(zip(s.da.dims, s.da.chunks)))
    da.attrs["source"] = "test"
    da[nm["t"]].attrs["long_name"] = "when"
    xn, yn = ("lon", "lat") if mesh else (nm["x"], nm["y"])
    da[xn].attrs["units"] = "somewhere"
    mask = s.mask
    ins = {"data_bin": da, "mask": mask}
    args = dict(R_fill=p.get("R", 0), T_fill=p.get("T", 0), area_filter_absolute=1, overlap_threshold=p.get("thr", 0.5), coordinate_units=p.get("units", "degrees"))
    if p.get("auto"):
        args["coordinate_units"] = None
    if nm["dims"]:
        args["dimensions"] = dict(nm["dims"])
    if nm["coords"]:
        args["coordinates"] = dict(nm["coords"])
    if mesh:
        ins["neighbours"] = xr.DataArray(s.nb.astype(np.int32), dims=("nv", nm["x"])).chunk({"nv": -1, nm["x"]: -1})
        ins["cell_areas"] = xr.DataArray(np.ones(s.nx, np.float32) if areas is None else areas, dims=sp).chunk({nm["x"]: -1})
        args["unstructured_grid"] = True
    elif areas is not None:
        ins["cell_areas"] = xr.DataArray(areas, dims=sp, coords={nm["y"]: s.lat, nm["x"]: s.lon})
    if p.get("resolution"):
        args["grid_resolution"] = p["resolution"]
    before = {n: snapshot(k, a) for n, a in ins.items()}
    opts = {n: dict(v) for n, v in args.items() if isinstance(v, dict)}
    runs = []
    from .tcommon import tracker  # noqa: F401
    import contextlib
    import io

    from .tcommon import Run, garr, scratch
    for _ in range(2):
        with scratch() as tmp:
            if mesh:
                args["temp_dir"] = tmp
            with contextlib.redirect_stdout(io.StringIO()):
                tr = k.marEx.tracker(da, mask, **{n: v for n, v in ins.items() if n not in ("data_bin", "mask")}, **args)
                ds, mg = api_mesh(tr) if mesh else tr.run(return_merges=True)
            r = Run()
            r.idf = garr(k, s, ds.ID_field, [nm["t"]])
            r.id = {(t,) + pt: int(norm(r.idf[(t,) + pt])) for t in range(s.T) for pt in s.pts}
            r.ids = [int(x) for x in np.asarray(ds.ID.values)]
            r.area, r.presence, r.global_ID = [k.arr(ds[v].transpose(nm["t"], "ID")) for v in ("area", "presence", "global_ID")]
            r.centroid = k.arr(ds.centroid.transpose("component", nm["t"], "ID"))
            r.time_start, r.time_end = [[np.datetime64(x) for x in ds[v].compute().values] for v in ("time_start", "time_end")]
            r.x, r.y = np.asarray(ds[xn].values, float), np.asarray(ds[yn].values, float)
        runs.append(r)
    k.out("ID_field", [[runs[1].id[(t,) + pt] for pt in s.pts] for t in range(s.T)])
    for n, a in ins.items():
        k.check_all(unchanged(k, a, before[n]), "input %s is left as it was" % n)
    k.check(all(args[n] == v for n, v in opts.items()), "option dictionaries are left as they were")
    k.check_all(same_run(runs[0], runs[1], tol=0), "running twice gives the same events")
    k.check(np.array_equal(runs[0].x, runs[1].x) and np.array_equal(runs[0].y, runs[1].y) and np.array_equal(runs[0].x, np.asarray(s.lon, float)),
            "the dataset carries the coordinates it was given")


def preprocess(k):
    """preprocess_data leaves its inputs alone and gives the same answer twice"""
    p = k.p
    f = field(k, lo=-2, hi=2)
    f.da.attrs["source"] = "test"
    f.da[f.nm["t"]].attrs.update(long_name="when", units="days", calendar="x")
    f.da[f.nm["x"] if f.nm["y"] else "lon"].attrs["units"] = "deg"
    args = dict(method_anomaly=p["method"], method_extreme=p["ext"], method_percentile="exact", threshold_percentile=80, dask_chunks={"time": 2}, **kw(f))
    if p["method"].startswith("detrend"):
        args["detrend_orders"] = [1]
    if p["method"] == "shifting_baseline":
        args.update(window_year_baseline=1, smooth_days_baseline=1)
    if p["ext"] == "hobday_extreme":
        args["window_days_hobday"] = 3
    if p.get("stn"):
        args["std_normalise"] = True
    ins = {"da": f.da}
    if p.get("extra"):
        sp = (f.nm["x"],) if f.nm["y"] is None else (f.nm["y"], f.nm["x"])
        n = len(f.pts)
        args["cell_areas"] = ins["cell_areas"] = xr.DataArray(np.arange(1.0, n + 1).reshape([f.da.sizes[d] for d in sp]), dims=sp, coords={d: f.da[d] for d in sp if d in f.da.coords})
        args["neighbours"] = ins["neighbours"] = xr.DataArray(np.zeros((3, n), "int64"), dims=("nv", f.nm["x"]), coords={"nv": [1, 2, 3]})
    before = {n: snapshot(k, a) for n, a in ins.items()}
    import copy
    opts = copy.deepcopy({n: v for n, v in args.items() if isinstance(v, (dict, list))})
    one = k.marEx.preprocess_data(f.da, **args)
    two = k.marEx.preprocess_data(f.da, **args)
    for n, a in ins.items():
        k.check_all(unchanged(k, a, before[n]), "input %s is left as it was" % n)
    k.check(all(args[n] == v for n, v in opts.items()), "option dictionaries and lists are left as they were")
    conds = [("variables", sorted(one.data_vars) == sorted(two.data_vars))]
    for v in one.data_vars:
        x, y = k.arr(one[v]), k.arr(two[v])
        conds.append((v, x.shape == y.shape and one[v].dims == two[v].dims))
        if x.shape == y.shape:
            for i in list(np.ndindex(*x.shape))[:: max(1, x.size // 40)]:
                conds.append((v, k.close(x[i], y[i], 0) if v not in ("mask", "extreme_events", "extreme_events_stn") else core.l_iff(x[i], y[i])))
    k.check_all(conds, "running twice gives the same dataset")
    if p.get("extra"):
        k.check(np.array_equal(np.asarray(one.cell_areas.values, float), np.asarray(ins["cell_areas"].values, float)) and
                np.array_equal(np.asarray(one.neighbours.values), np.asarray(ins["neighbours"].values)), "cell areas and neighbours are passed through")


def obligations(tier):
    o = []

    def add(name, fn=conventions, budget=280, **p):
        o.append(Obl(name, fn, p, budget=budget, bound=str(p)))

    add("grid", rows=[["##?..#", "...#?#"], ["#??..#", "...#.."]], variants=["west", "radians"], thr=0.3)
    add("grid_seam", rows=[["##...?#"], ["#?...##"]], variants=["radians", "west_radians"], ct=1)
    add("grid_merge", rows=[["##.?##.."], ["######?."]], variants=["west", "radians"], names="cust")
    add("grid_resolution", rows=[["##?.", "?..#"], ["##..", "..?#"]], variants=["radians"], resolution=10.0)
    add("grid_areas", rows=[["##?.", "...#"], ["#?..", "...#"]], variants=["radians"], areas=True)
    add("mesh", rows=["##?..#", "#?..?#"], mesh="strip6", lon=[150.0, 170.0, 190.0, 210.0, 230.0, 250.0], variants=["west", "radians", "west_radians"])
    add("mesh_merge", rows=["##.###..", "#####?.."], mesh="strip8", variants=["radians"], nn=True)
    add("in_grid", inputs, rows=[["##?.", "?..#"], ["##..", "..?#"]], areas=True)
    add("in_grid_fill", inputs, rows=[["####?.", "####..", "###?.."], ["......", "......", "......"], ["####..", "####?.", "####.."]], T=2, R=1)
    add("in_grid_rad", inputs, rows=[["##?.", "?..#"], ["##..", "..?#"]], units="radians")
    add("in_grid_rad_res", inputs, rows=[["##?.", "?..#"], ["##..", "..?#"]], units="radians", resolution=10.0, names="cust")
    add("in_grid_merge", inputs, rows=[["##.?##.."], ["######?."]], ct=1)
    add("in_mesh", inputs, rows=["##?.?#", "#?...#"], mesh="strip6", areas=True)
    add("in_mesh_rad", inputs, rows=["##?.?#", "#?...#"], mesh="strip6", units="radians")
    add("in_mesh_merge", inputs, rows=["##.###..", "#####?.."], mesh="strip8")
    add("pre_fixed", preprocess, method="fixed_baseline", ext="hobday_extreme", cal="ny3", nx=1, names="unstr")
    add("pre_shift", preprocess, method="shifting_baseline", ext="global_extreme", cal="y4", nx=1, extra=True)
    add("pre_harmonic", preprocess, method="detrend_harmonic", ext="global_extreme", cal="season12", nx=1, names="cust")
    add("pre_detrend", preprocess, method="detrend_fixed_baseline", ext="global_extreme", cal="sameday3", nx=2, names="unstr", extra=True)
    return o
