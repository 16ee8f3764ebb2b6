"""P05: the shifting baseline uses exactly the preceding W years of the same calendar day"""
import math

from symx.core import f_isnan, l_not
from symx.run import Obl

from .dcommon import field, grid, kw

BOUNDS = "compute_normalised_anomaly / preprocess_data (shifting_baseline) over 4-6 year calendars with 3-4 days per year (leap days, year gaps), windows of 1..3 years, smoothing 1..5 days, <=2 points"
OUTSIDE = "longer baselines and daily-resolution multi-year series; even smoothing windows; tolerance 1e-4"


def clim(k, f, pt, W, S):
    """oracle: climatology at every time step of one point"""
    h = S // 2
    sm = []
    for t in range(f.T):
        w = range(t - h, t + h + 1)
        if w[0] < 0 or w[-1] >= f.T:
            sm.append(math.nan)
        else:
            sm.append(sum_([f.a[(s,) + pt] for s in w]) / S)
    y0 = min(f.year)
    out = []
    for t in range(f.T):
        if f.year[t] < y0 + W:
            out.append(math.nan)
            continue
        pool = [sm[s] for s in range(f.T) if f.doy[s] == f.doy[t] and f.year[t] - W <= f.year[s] <= f.year[t] - 1]
        out.append(k.mean(pool) if pool else math.nan)
    return out


def sum_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def anomaly(k):
    p = k.p
    W, S = p["W"], p["S"]
    f = field(k)
    args = dict(method_anomaly="shifting_baseline", window_year_baseline=W, smooth_days_baseline=S, **kw(f))
    ds = k.marEx.compute_normalised_anomaly(f.da, **args)
    an = grid(k, f, ds["dat_anomaly"], [f.nm["t"]])
    k.out("anom", ds["dat_anomaly"].transpose(f.nm["t"], ...))
    conds = []
    for pt in f.pts:
        c = clim(k, f, pt, W, S)
        for t in range(f.T):
            conds.append(("t%d%s" % (t, pt), k.close(an[(t,) + pt], f.a[(t,) + pt] - c[t])))
    k.check_all(conds, "anomaly = value - mean of the same day in the W preceding years")
    m = grid(k, f, ds["mask"], [])
    k.check_all([(str(pt), bool(m[pt]) == (pt not in f.land)) for pt in f.pts], "mask")


def trimmed(k):
    """preprocess_data drops the years that have no complete baseline and keeps every other time step"""
    p = k.p
    W, S = p["W"], p["S"]
    f = field(k)
    ds = k.marEx.preprocess_data(f.da, method_anomaly="shifting_baseline", method_extreme="global_extreme", method_percentile="exact", threshold_percentile=90,
                                 window_year_baseline=W, smooth_days_baseline=S, dask_chunks={"time": 4}, **kw(f))
    keep = [t for t in range(f.T) if f.year[t] >= min(f.year) + W]
    got = [str(t)[:10] for t in ds[f.nm.get("when", f.nm["t"])].values]
    k.check(got == [str(f.times[t])[:10] for t in keep], "exactly the years with a full baseline are kept")
    an = grid(k, f, ds["dat_anomaly"], [f.nm["t"]])
    conds = []
    for pt in f.pts:
        c = clim(k, f, pt, W, S)
        for i, t in enumerate(keep):
            conds.append(("t%d%s" % (t, pt), k.close(an[(i,) + pt], f.a[(t,) + pt] - c[t])))
    k.out("anom", ds["dat_anomaly"].transpose(f.nm["t"], ...))
    k.check_all(conds, "anomaly of the kept steps")


def obligations(tier):
    o = []

    def add(name, fn=anomaly, budget=240, **p):
        o.append(Obl(name, fn, p, budget=budget, bound=str(p)))

    add("y4_W2_S1", cal="y4", W=2, S=1, chunks={"t": 5})
    add("y5_W3_S3", cal="y5", W=3, S=3)
    add("ygap_W2_S1", cal="ygap", W=2, S=1)
    add("leap_W2_S3", cal="y4feb", W=2, S=3, chunks={"t": 4})
    add("y6_W1_S3", cal="y6", W=1, S=3)
    add("y6_W4_S5", cal="y6", W=4, S=5, nx=2, land=[[0, 1]])
    add("unstr_W2", cal="y4", W=2, S=3, nx=2, names="unstr")
    add("cust_W1", cal="y4", W=1, S=1, names="cust")
    add("trim_y4_W2", trimmed, cal="y4", W=2, S=1)
    add("trim_ygap_W1", trimmed, cal="ygap", W=1, S=1, chunks={"t": 3})
    add("trim_y6_W3_unstr", trimmed, cal="y6", W=3, S=1, nx=2, names="unstr")
    add("aux_W2", cal="y4", W=2, S=3, names="aux", chunks={"t": 5})
    add("both_W2", cal="y4feb", W=2, S=1, names="both")
    add("order_W2", cal="y4", W=2, S=3, nx=2, order="yxt", chunks={"t": 5})
    add("trim_aux", trimmed, cal="y4", W=2, S=1, names="aux")
    add("trim_order", trimmed, cal="y4", W=2, S=1, nx=2, order="xyt")
    add("y18_W15", cal="y18", W=15, S=1)
    add("d30_S21", cal="d30y3", W=2, S=21, chunks={"t": 25}, free=[[t, 0, 0] for t in (0, 9, 10, 15, 29, 30, 40, 59, 60, 79, 80, 89)])
    add("daily_defaults", cal="daily3", W=2, S=21, chunks={"t": 400}, free=[[t, 0, 0] for t in (0, 10, 58, 59, 364, 365, 424, 425, 730, 900, 1095)])
    if tier == "thorough":
        add("y6_W5_S7", cal="y6", W=5, S=7, nx=2)
        add("y5_W2_S5_grid", cal="y5", W=2, S=5, ny=2, nx=2, chunks={"t": 3, "x": 1})
        add("trim_leap", trimmed, cal="y4feb", W=2, S=1)
    return o
