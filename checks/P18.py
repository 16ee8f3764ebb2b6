"""P18: unusable configurations are refused with the documented error, usable ones are accepted"""
import math

import numpy as np
import xarray as xr

from symx.core import l_and, l_iff, l_not, l_or, norm
from symx.run import Obl

from .dcommon import field, kw
from .tcommon import build, scratch, tracker

BOUNDS = ("tracker construction on 2-step grids / 6-cell meshes and preprocess_data / identify_extremes on short series; the named option is free "
          "(any real / integer in the stated interval, any mask, any longitudes), the other options are usable")
OUTSIDE = "options given as NaN, strings or other types than documented; T_fill and window options beyond the stated intervals"


def outcome(k, f):
    """name of the documented error, or 'accepted'"""
    ex = k.marEx.exceptions
    try:
        f()
    except ex.ConfigurationError:
        return "ConfigurationError"
    except ex.DataValidationError:
        return "DataValidationError"
    except ex.CoordinateError:
        return "CoordinateError"
    except NotImplementedError:
        return "NotImplementedError"
    return "accepted"


def one(k, name, lo, hi, kind="real"):
    a = k.real(name, (1,), lo, hi, dtype="float64") if kind == "real" else k.int(name, (1,), lo, hi)
    return norm(k.arr(a)[0])


def verdict(k, got, invalid, err, what):
    k.out("outcome", got)
    k.check(got in ("accepted", err), "%s: no other error than %s" % (what, err))
    k.check(l_iff(got != "accepted", invalid), "%s: refused exactly when unusable" % what)


def setup(k):
    if k.p.get("mesh"):
        return build(k, ["#?#.##", "##?.#?"], mesh="strip6")
    return build(k, [["#?#", ".?#"], ["##?", "#?."]])


def options(k):
    """numeric options of the tracker"""
    p = k.p
    s = setup(k)
    w = p["what"]
    kws = dict(R_fill=0)
    if w == "quartile":
        q = one(k, "q", -2, 3)
        kws["area_filter_quartile"] = q
        bad = l_or(q < 0, q > 1)
    elif w == "absolute":
        q = one(k, "n", -3, 6, "int")
        kws["area_filter_absolute"] = q
        bad = q <= 0
    elif w == "both":
        kws["area_filter_quartile"] = one(k, "q", -1, 2)
        kws["area_filter_absolute"] = one(k, "n", -3, 6, "int")
        bad = True
    elif w == "neither":
        bad = False
    elif w == "T_fill":
        q = one(k, "n", 0, 9, "int")
        kws["T_fill"] = q
        bad = norm(q % 2) != 0
    elif w == "resolution":
        q = one(k, "r", -3, 3)
        kws["grid_resolution"] = q
        bad = q <= 0
    err = "DataValidationError" if w == "resolution" else "ConfigurationError"
    if p.get("mesh") and w == "resolution":
        bad = True
    with scratch() as tmp:
        got = outcome(k, lambda: tracker(k, s, tmp=tmp, **kws))
    verdict(k, got, bad, err, w)


def masks(k):
    """a mask without any valid cell is refused"""
    s = setup(k)
    m = k.bool("mask", s.shape[1:])
    a = k.arr(m)
    s.mask = s.mask.copy(data=m)
    with scratch() as tmp:
        got = outcome(k, lambda: tracker(k, s, tmp=tmp, R_fill=0))
    verdict(k, got, l_not(l_or(*[a[pt] for pt in s.pts])), "DataValidationError", "mask")


def units(k):
    """coordinate units: given, or detected from the longitude range of a global grid"""
    p = k.p
    s = setup(k)
    n = 6 if p.get("mesh") else 3
    lon = k.real("lon", (n,), -400, 400, dtype="float64")
    a = [norm(x) for x in k.arr(lon)]
    for i in range(n):
        for j in range(i):
            if p.get("sorted"):
                k.assume(a[j] <= a[i])
    hi, lo = a[0], a[0]
    from symx.core import ite
    for x in a[1:]:
        hi, lo = ite(x > hi, x, hi), ite(x < lo, x, lo)
    r = hi - lo
    # floats: stay away from the exact borders of the detection windows
    for c in (359.0, 361.0, 2 * math.pi - 0.02, 2 * math.pi + 0.02):
        e = 2e-3 if k.symbolic else 1e-3
        k.assume(l_or(r <= c - e, r >= c + e))
    deg = l_and(r >= 359, r <= 361)
    rad = l_and(r >= 2 * math.pi - 0.02, r <= 2 * math.pi + 0.02)
    if p.get("mesh"):
        s.da = s.da.assign_coords(lon=("ncells", lon))
        names = {}
    else:
        s.da = s.da.assign_coords(glon=("lon", lon))
        names = dict(coordinates={"time": "time", "x": "glon", "y": "lat"})
    got = []
    args = dict(R_fill=0, coordinate_units=p.get("units"), **names)
    if p.get("regional"):
        args["regional_mode"] = True
    with scratch() as tmp:
        res = outcome(k, lambda: got.append(tracker(k, s, tmp=tmp, **args)))
    u = p.get("units")
    if u is not None:
        bad = u not in ("degrees", "radians")
    else:
        bad = True if p.get("regional") else l_not(l_or(deg, rad))
    verdict(k, res, bad, "CoordinateError", "units")
    if got:
        used = got[0].coordinate_units
        k.out("units", used)
        if u is not None:
            k.check(used == u, "given units are used")
        else:
            k.check(l_iff(used == "radians", rad), "radians are recognised")
            k.check(used in ("degrees", "radians"), "units are degrees or radians")


def structure(k):
    """array types and shapes"""
    p = k.p
    s = setup(k)
    w = p["what"]
    bad, err, kws = True, "DataValidationError", dict(R_fill=0)
    ny, nx = s.ny, s.nx
    if w == "ok":
        bad = False
    elif w == "int":
        s.da = s.da.astype("int32")
    elif w == "float":
        s.da = s.da.astype("float32")
    elif w == "numpy":
        s.da = s.da.compute()
    elif w == "mask_int":
        s.mask = s.mask.astype("int8")
    elif w == "dims4":
        s.da = s.da.expand_dims(depth=1)
    elif w == "dims2":
        s.da = s.da.isel(lat=0, drop=False)
    elif w == "transposed":
        s.da = s.da.transpose("lon", "lat", "time") if not p.get("mesh") else s.da.transpose("ncells", "time")
        bad = False
    elif w == "areas_dims":
        kws["cell_areas"] = xr.DataArray(np.ones(nx, "float32"), dims=("lon",), coords={"lon": s.lon})
    elif w == "areas_ok":
        kws["cell_areas"] = xr.DataArray(np.ones((nx, ny), "float32"), dims=("lon", "lat"), coords={"lon": s.lon, "lat": s.lat})
        bad = False
    elif w == "areas_time":
        kws["cell_areas"] = xr.DataArray(np.ones((s.T, ny, nx), "float32"), dims=("time", "lat", "lon"), coords={"lon": s.lon, "lat": s.lat})
    elif w == "regional_mesh":
        kws["regional_mode"] = True
        err = "NotImplementedError"
    elif w == "chunked_space":
        s.da = s.da.chunk({"lon": 1, "lat": 1} if not p.get("mesh") else {"ncells": 2})
        bad = False
    if p.get("mesh"):
        x = s.nm["x"]
        nb = xr.DataArray(s.nb.astype(np.int32), dims=("nv", x)).chunk({"nv": -1, x: -1})
        ca = xr.DataArray(np.ones(s.nx, np.float32), dims=(x,)).chunk({x: -1})
        with scratch() as tmp:
            a = dict(unstructured_grid=True, neighbours=nb, cell_areas=ca, temp_dir=tmp, dimensions=dict(s.nm["dims"]), coordinates=dict(s.nm["coords"]),
                     coordinate_units="degrees", **kws)
            if w == "no_nb":
                a["neighbours"] = None
            elif w == "no_areas":
                a["cell_areas"] = None
            elif w == "no_tmp":
                a["temp_dir"] = None
            elif w == "nb_shape":
                a["neighbours"] = nb.isel(nv=slice(0, 2))
            elif w == "nb_dims":
                a["neighbours"] = nb.rename(nv="vertex")
            elif w == "nb_transposed":
                a["neighbours"] = nb.transpose(x, "nv")
            got = outcome(k, lambda: k.marEx.tracker(s.da, s.mask, **a))
    else:
        got = outcome(k, lambda: tracker(k, s, **kws))
    verdict(k, got, bad, err, w)


def detect(k):
    """options of identify_extremes / preprocess_data"""
    p = k.p
    w = p["what"]
    f = field(k, lo=0.1, hi=0.9)
    a = dict(method_extreme="global_extreme", method_percentile="exact", threshold_percentile=90)
    bad = None
    err = "ConfigurationError"
    if w == "percentile":
        q = one(k, "q", 1, 99)
        for c in ((60, 61, 95) if p["pct"] == "approximate" else (5, 59, 60, 95)):  # accepted values are computed with: a few
            if bool(norm(q == c)):
                q = float(c)
                break
        else:
            k.assume(q < 60 if p["pct"] == "approximate" else False)
        a.update(threshold_percentile=q, method_percentile=p["pct"])
        if p["pct"] == "approximate":
            a.update(precision=1.0, max_anomaly=2.0)
        bad = q < 60 if p["pct"] == "approximate" else False
    elif w == "window_days":
        q = int(one(k, "n", 1, p.get("hi", 6), "int"))
        a.update(method_extreme=p.get("ext", "hobday_extreme"), window_days_hobday=q)
        bad = norm(q % 2) == 0 if a["method_extreme"] == "hobday_extreme" else False
    elif w == "window_space":
        q = int(one(k, "n", 1, 4, "int"))
        a.update(method_extreme=p.get("ext", "hobday_extreme"), method_percentile=p.get("pct", "approximate"), window_days_hobday=1, window_spatial_hobday=q)
        if a["method_percentile"] == "approximate":
            a.update(precision=1.0, max_anomaly=2.0)
        usable = p.get("ext", "hobday_extreme") == "hobday_extreme" and p.get("pct", "approximate") == "approximate" and f.nm["y"] is not None
        bad = norm(q % 2) == 0 if usable else True
    elif w == "precision":
        q = one(k, "r", 0.001, 0.5)
        a.update(precision=q)
        k.assume(l_or(q <= 0.0099, q >= 0.0101))
        bad = True
    elif w == "max_anomaly":
        q = one(k, "r", 1, 9)
        a.update(max_anomaly=q)
        k.assume(l_or(q <= 4.9, q >= 5.1))
        bad = True
    elif w == "name":
        a[p["opt"]] = p["val"]
        bad = p["bad"]
    if p.get("via") == "preprocess":
        got = outcome(k, lambda: k.marEx.preprocess_data(f.da, method_anomaly="fixed_baseline", dask_chunks={"time": 2}, **a, **kw(f)))
    else:
        got = outcome(k, lambda: [x.compute() for x in k.marEx.identify_extremes(f.da, **a, **kw(f))])
    verdict(k, got, bad, err, w)


def orders(k):
    """polynomial orders of the detrending methods: positive, at least one; anomaly method names"""
    p = k.p
    f = field(k, lo=-2, hi=2)
    meth = p["method"]
    n = p["n"]
    os_ = [norm(x) for x in k.arr(k.int("order", (n,), -1, 2))] if n else []
    os_ = [int(x) for x in os_]
    bad = meth in ("detrend_harmonic", "detrend_fixed_baseline") and (not os_ or min(os_) < 1) or meth == "unknown"
    got = outcome(k, lambda: k.marEx.compute_normalised_anomaly(f.da, method_anomaly=meth, detrend_orders=os_, **kw(f)).compute())
    verdict(k, got, bad, "ConfigurationError", "detrend_orders")


def years(k):
    """the shifting baseline refuses records shorter than the window"""
    p = k.p
    f = field(k, lo=-2, hi=2)
    W = one(k, "W", 1, 5, "int")
    n = max(f.year) - min(f.year) + 1
    got = outcome(k, lambda: k.marEx.preprocess_data(f.da, method_anomaly="shifting_baseline", method_extreme=p.get("ext", "global_extreme"), method_percentile="exact",
                                                     threshold_percentile=90, window_year_baseline=int(W), smooth_days_baseline=1,
                                                     dask_chunks={"time": 3}, **kw(f)))
    verdict(k, got, W >= n, "DataValidationError", "years")


C = dict(cal="ny3", nx=2)
DETECT = [
    ("percentile", dict(C, pct="exact")), ("percentile", dict(C, pct="approximate")),
    ("percentile", dict(C, pct="approximate", via="preprocess")),
    ("window_days", dict(C)), ("window_days", dict(C, ext="global_extreme")), ("window_days", dict(C, names="unstr")),
    ("window_space", dict(C)), ("window_space", dict(C, pct="exact")), ("window_space", dict(C, ext="global_extreme")), ("window_space", dict(C, names="unstr")),
    ("precision", dict(C)), ("max_anomaly", dict(C)), ("max_anomaly", dict(C, via="preprocess")),
    ("name", dict(C, opt="method_extreme", val="hobday", bad=True)), ("name", dict(C, opt="method_percentile", val="approx", bad=True)),
    ("name", dict(C, opt="method_percentile", val="exact", bad=False)),
]


def obligations(tier):
    o = []

    def add(name, fn, budget=200, **p):
        o.append(Obl(name, fn, p, budget=budget, bound=str(p)))

    for m, tag in ((None, ""), ("strip6", "_mesh")):
        for w in ("quartile", "absolute", "both", "neither", "T_fill", "resolution"):
            add("%s%s" % (w, tag), options, what=w, mesh=m)
        add("mask%s" % tag, masks, mesh=m)
        add("units_auto%s" % tag, units, mesh=m)
        add("units_deg%s" % tag, units, mesh=m, units="degrees")
        add("units_rad%s" % tag, units, mesh=m, units="radians")
        add("units_bad%s" % tag, units, mesh=m, units="deg")
    for w, p in DETECT:
        add("detect_%s" % "_".join([w] + [str(v) for v in p.values()][2:]), detect, what=w, **p)
    add("units_regional", units, regional=True)
    add("units_regional_bad", units, regional=True, units="furlongs")
    add("units_regional_rad", units, regional=True, units="radians")
    for w in ("ok", "int", "float", "numpy", "mask_int", "dims4", "dims2", "transposed", "areas_dims", "areas_ok", "areas_time", "chunked_space"):
        add("grid_%s" % w, structure, what=w)
    for w in ("ok", "int", "numpy", "mask_int", "transposed", "regional_mesh", "chunked_space", "no_nb", "no_areas", "no_tmp", "nb_shape", "nb_dims", "nb_transposed"):
        add("mesh_%s" % w, structure, what=w, mesh="strip6")
    for m in ("detrend_harmonic", "detrend_fixed_baseline", "fixed_baseline", "unknown"):
        for n in (0, 2):
            add("orders_%s_%d" % (m, n), orders, method=m, n=n, cal="season12")
    add("years", years, cal="y4")
    add("years_one", years, cal="mid3", names="unstr")
    add("years_gap", years, cal="ygap", names="cust", ext="hobday_extreme")
    return o
