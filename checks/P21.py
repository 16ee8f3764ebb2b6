"""P21: standardised anomalies are the anomalies over the rolling 30-day standard deviation"""
import math

import numpy as np

from symx import core
from symx.core import f_isnan, ite, l_and, l_iff, l_not, l_or, norm, s_sum  # noqa: F401
from symx.run import Obl

from .dcommon import CAL, field, grid, kw, percentile

BOUNDS = ("compute_normalised_anomaly(detrend_harmonic, std_normalise) on records of 16..730 days (whole years with <=2 symbolic samples, short records fully symbolic), "
          "<=2 points, symbolic values in [-8,8]; preprocess_data with std_normalise on a short record")
OUTSIDE = "the square root is characterised by s>=0 and s*s=x; longer records; 1-D time series"


def stdz(k):
    p = k.p
    if k.symbolic:
        core.LAZY_SQRT = True
    ny, nx = p.get("ny", 1), p.get("nx", 1)
    T = len(CAL[p["cal"]])
    fixed = {}
    if "symbolic" in p:
        symb = {tuple(i) for i in p["symbolic"]}
        shape = (T, nx) if p.get("names") == "unstr" else (T, ny, nx)
        for n, i in enumerate(np.ndindex(*shape)):
            if i not in symb:
                fixed[i] = round(2.5 * math.sin(n * 0.37) + ((n * 31) % 17) / 8.0 - 1.0, 3)
    f = field(k, fixed=fixed)
    args = dict(method_anomaly="detrend_harmonic", std_normalise=True, detrend_orders=p.get("orders", [1]), force_zero_mean=p.get("zero", True), **kw(f))
    ds = k.marEx.detect.compute_normalised_anomaly(f.da.astype("float32"), **args)
    t = f.nm["t"]
    an, st = grid(k, f, ds.dat_anomaly, [t]), grid(k, f, ds.dat_stn, [t])
    sd = grid(k, f, ds.STD, ["dayofyear"])
    dl = [int(d) for d in ds.STD["dayofyear"].values]
    k.check(dl == sorted(set(f.doy)), "one standard deviation for every calendar day of the record")
    k.check(st.shape == an.shape, "shape")
    conds = []
    n = len(dl)
    eps = p.get("eps", 2e-3)
    only = p.get("days")
    for pt in f.pts:
        if pt in f.land:
            conds += [("land%s" % (pt,), f_isnan(st[(i,) + pt])) for i in range(f.T)]
            continue
        var = []
        for d in dl:
            xs = [an[(i,) + pt] for i in range(f.T) if f.doy[i] == d]
            m = s_sum(xs) / len(xs)
            var.append(s_sum([(x - m) * (x - m) for x in xs]) / len(xs))
        for j in range(n):
            if only and j not in only:
                continue
            ref = s_sum([var[(j + o) % n] for o in range(-15, 15)]) / 30
            v = sd[(j,) + pt]
            conds.append(("STD doy%d%s" % (dl[j], pt), l_and(l_not(f_isnan(v)), v >= 0, k.close(v * v, ref, eps))))
            for i in range(f.T):
                if f.doy[i] == dl[j]:
                    r = st[(i,) + pt]
                    big = v > 1e-10
                    conds.append(("stn t%d%s" % (i, pt), l_iff(l_not(f_isnan(r)), big)))
                    conds.append(("stn value t%d%s" % (i, pt), l_or(l_not(big), k.close(r * v, an[(i,) + pt], eps))))
    k.out("var", (ds.STD * ds.STD).transpose("dayofyear", ...))
    k.check_all(conds, "standardised anomalies")


DAYS = [0, 1, 13, 14, 15, 16, 58, 59, 60, 180, 349, 350, 364]


def detect(k):
    """the standardised extremes of preprocess_data are those of the standardised anomalies"""
    p = k.p
    if k.symbolic:
        core.LAZY_SQRT = True
    T = len(CAL[p["cal"]])
    symb = {tuple(i) for i in p["symbolic"]}
    fixed = {i: round(2.5 * math.sin(n * 0.37) + ((n * 31) % 17) / 8.0 - 1.0, 3) for n, i in enumerate(np.ndindex(T, 1, p.get("nx", 1))) if i not in symb}
    f = field(k, fixed=fixed)
    q = p["q"]
    ds = k.marEx.preprocess_data(f.da.astype("float32"), method_anomaly="detrend_harmonic", method_extreme="hobday_extreme", threshold_percentile=q, std_normalise=True,
                                 method_percentile="exact", window_days_hobday=1, detrend_orders=[1], dask_chunks={"time": T}, **kw(f))
    t = f.nm["t"]
    st, ex = grid(k, f, ds.dat_stn, [t]), grid(k, f, ds.extreme_events_stn, [t])
    an, raw = grid(k, f, ds.dat_anomaly, [t]), grid(k, f, ds.extreme_events, [t])
    ts, tu = grid(k, f, ds.thresholds_stn, ["dayofyear"]), grid(k, f, ds.thresholds, ["dayofyear"])
    dl = [int(d) for d in ds.thresholds["dayofyear"].values]
    conds = []
    for pt in f.pts:
        for i in range(T):
            j = dl.index(f.doy[i])
            th, tr = ts[(j,) + pt], tu[(j,) + pt]
            conds.append(("stn t%d%s" % (i, pt), l_iff(ex[(i,) + pt], st[(i,) + pt] >= th)))
            if i < 3:
                pool = [m for m in range(T) if f.doy[m] == f.doy[i]]
                conds.append(("stn threshold t%d%s" % (i, pt), l_or(f_isnan(th), l_and(l_or(*[th <= st[(m,) + pt] + 1e-3 for m in pool]), l_or(*[th >= st[(m,) + pt] - 1e-3 for m in pool])))))
                conds.append(("threshold t%d%s" % (i, pt), k.close(tr, percentile(k, [an[(m,) + pt] for m in pool], q), 2e-3)))
            conds.append(("raw t%d%s" % (i, pt), l_iff(raw[(i,) + pt], an[(i,) + pt] >= tr)))
    k.check_all(conds, "standardised extremes")


def obligations(tier):
    o = []

    def add(name, fn=stdz, budget=240, **p):
        o.append(Obl(name, fn, p, budget=budget, bound=str(p)))

    for n, extra in (("part40", {}), ("part40_raw", dict(zero=False, orders=[1, 2])), ("part40_cust", dict(names="cust", chunks={"t": 7})),
                     ("part40_land", dict(nx=2, land=[[0, 1]]))):
        add(n, cal="part40", symbolic=[[3, 0, 0]], days=[0, 3, 4, 5, 9, 19], **extra)
    add("part40_unstr", cal="part40", symbolic=[[30, 0]], names="unstr", chunks={"t": 15}, days=[0, 4, 5, 10, 19])
    add("part40_two", cal="part40", symbolic=[[0, 0, 0], [39, 0, 0]], days=[0, 9, 19])
    add("year2", cal="year2", symbolic=[[3, 0, 0]], days=DAYS)
    add("year2leap", cal="year2leap", symbolic=[[700, 0, 0]], days=DAYS + [365])
    add("detect", fn=detect, cal="part34", symbolic=[[3, 0, 0]], q=90)
    add("part40_both", cal="part40", symbolic=[[3, 0, 0]], days=[0, 3, 9, 19], names="both")
    add("part40_order", cal="part40", symbolic=[[3, 0, 0]], days=[0, 3, 9, 19], nx=2, order="xyt")
    if tier == "thorough":
        add("part40_all", cal="part40", symbolic=[[3, 0, 0]], budget=1500)
        add("year2_all", cal="year2", symbolic=[[3, 0, 0]], budget=1500)
    return o
