"""P08: preprocessing refuses broken ocean data and keeps land inert"""
import math

from symx.core import f_isfinite, f_isnan, l_and, l_iff, l_implies, l_not, l_or
from symx.run import Obl

from .dcommon import field, grid, kw

BOUNDS = "preprocess_data on <=4 time steps x <=3 points where every value may be any real in [-8,8], NaN, +inf or -inf"
OUTSIDE = "longer series, more points"


def reject(k):
    """accepted <=> some ocean point exists and every point finite at the first step stays finite"""
    p = k.p
    inf = {tuple(i) for i in p["inf"]} if "inf" in p else True
    nan = {tuple(i) for i in p["nan"]} if "nan" in p else True
    f = field(k, nan=nan, inf=inf)
    ok_pts = []
    ocean = [f_isfinite(f.a[(0,) + pt]) for pt in f.pts]
    for o, pt in zip(ocean, f.pts):
        ok_pts.append(l_implies(o, l_and(*[f_isfinite(f.a[(t,) + pt]) for t in range(1, f.T)])))
    valid = l_and(l_or(*ocean), *ok_pts)
    raised = False
    ds = None
    try:
        ds = k.marEx.preprocess_data(f.da, method_anomaly=p.get("method", "fixed_baseline"), method_extreme="global_extreme", method_percentile="exact",
                                     threshold_percentile=90, dask_chunks={"time": 2}, **kw(f))
    except k.marEx.exceptions.DataValidationError:
        raised = True
    k.out("raised", "yes" if raised else "no")
    k.check(l_iff(raised, l_not(valid)), "rejected <=> an ocean point has a non-finite value or there is no ocean")
    if raised:
        return
    m = grid(k, f, ds["mask"], [])
    e = grid(k, f, ds["extreme_events"], [f.nm["t"]])
    an = grid(k, f, ds["dat_anomaly"], [f.nm["t"]])
    conds = []
    for o, pt in zip(ocean, f.pts):
        conds.append(("mask%s" % (pt,), l_iff(m[pt], o)))
        always_nan = l_and(*[f_isnan(f.a[(t,) + pt]) for t in range(f.T)])
        for t in range(f.T):
            conds.append(("no extreme on land t%d%s" % (t, pt), l_implies(always_nan, l_not(e[(t,) + pt]))))
            conds.append(("ocean anomaly finite t%d%s" % (t, pt), l_implies(o, f_isfinite(an[(t,) + pt]))))
    k.check_all(conds, "mask and land")


def land(k):
    """land points (NaN throughout) stay NaN / unflagged and do not influence ocean points, for every method"""
    p = k.p
    f = field(k, lo=-2, hi=2.5)
    args = dict(method_anomaly=p["method"], method_extreme=p["ext"], method_percentile=p.get("pct", "exact"), threshold_percentile=90, **kw(f))
    if p["method"] == "shifting_baseline":
        args.update(window_year_baseline=1, smooth_days_baseline=1)
    if p["ext"] == "hobday_extreme":
        args["window_days_hobday"] = 3
    if p.get("pct") == "approximate":
        args.update(precision=2.0, max_anomaly=4.0)
    ds = k.marEx.preprocess_data(f.da, dask_chunks={"time": 3}, **args)
    e = grid(k, f, ds["extreme_events"], [f.nm["t"]])
    an = grid(k, f, ds["dat_anomaly"], [f.nm["t"]])
    m = grid(k, f, ds["mask"], [])
    hob = p["ext"] == "hobday_extreme"
    th = grid(k, f, ds["thresholds"], ["dayofyear"] if hob else [])
    conds = []
    for pt in f.pts:
        ld = pt in f.land
        conds.append(("mask%s" % (pt,), l_iff(m[pt], not ld)))
        for i in range(e.shape[0]):
            if ld:
                conds.append(("flag", l_not(e[(i,) + pt])))
                conds.append(("anomaly", f_isnan(an[(i,) + pt])))
            else:
                conds.append(("finite", f_isfinite(an[(i,) + pt])))
        for d in range(th.shape[0] if hob else 1):
            v = th[((d,) if hob else ()) + pt]
            if ld:
                conds.append(("threshold", f_isnan(v)))
    k.out("ext", ds["extreme_events"].transpose(f.nm["t"], ...))
    k.check_all(conds, "land stays inert")


def obligations(tier):
    o = []

    def add(name, fn=reject, budget=240, **p):
        o.append(Obl(name, fn, p, budget=budget, bound=str(p)))

    add("any_2x2", cal="sameday3", nx=2, inf=[[2, 0, 0]], nan=[[0, 0, 0], [0, 0, 1], [1, 0, 0], [2, 0, 1]], chunks={"t": 1})
    add("inf_late", cal="ny4", nx=1, inf=[[1, 0, 0], [3, 0, 0]], nan=[])
    add("unstr", cal="sameday3", nx=2, names="unstr", inf=[[0, 1]], nan=[[2, 0], [1, 1], [0, 0]])
    add("cust_detrend", cal="sameday3", nx=1, ny=2, names="cust", inf=[], nan=[[0, 0, 0], [0, 1, 0], [1, 1, 0]], method="detrend_fixed_baseline")
    add("land_fix_hob", land, method="fixed_baseline", ext="hobday_extreme", cal="ny4", ny=1, nx=3, land=[[0, 1]])
    add("land_shift_glob", land, method="shifting_baseline", ext="global_extreme", cal="ny5", ny=2, nx=1, land=[[0, 0]])
    add("land_dh_glob", land, method="detrend_harmonic", ext="global_extreme", cal="season12", nx=2, names="unstr", land=[[0, 1]])
    add("land_dfb_hob", land, method="detrend_fixed_baseline", ext="hobday_extreme", cal="ny5", nx=2, names="unstr", land=[[0, 0]])
    if tier == "thorough":
        add("any_all", cal="sameday3", nx=2, budget=1500)
        add("land_dh_hob", land, method="detrend_harmonic", ext="hobday_extreme", cal="season12", nx=2, ny=2, land=[[0, 1], [1, 1]])
    return o
