"""P02: exact thresholds are the stated percentile of exactly the stated samples"""
from symx.run import Obl

from .dcommon import field, grid, kw, percentile

BOUNDS = "identify_extremes(method_percentile='exact') on <=9 time steps x <=4 points, symbolic values in [-8,8], symbolic NaNs, window 1..7 days, percentiles 50..99"
OUTSIDE = "longer series; percentile interpolation is compared with tolerance 1e-4"


def exact(k):
    p = k.p
    f = field(k, nan={tuple(i) for i in p.get("nan", [])})
    hob = p["method"] == "hobday_extreme"
    args = dict(method_extreme=p["method"], method_percentile="exact", threshold_percentile=p["q"], **kw(f))
    if hob:
        args["window_days_hobday"] = p["w"]
    ext, thr = k.marEx.identify_extremes(f.da, **args)
    conds = []
    if hob:
        th = grid(k, f, thr, ["dayofyear"])
        dl = [int(d) for d in thr["dayofyear"].values]
        k.check(set(f.doy) <= set(dl), "a threshold for every calendar day that occurs")
        h = p["w"] // 2
        for d in sorted(set(f.doy)):
            for pt in f.pts:
                pool = [f.a[(s,) + pt] for t in range(f.T) if f.doy[t] == d for s in range(t - h, t + h + 1) if 0 <= s < f.T]
                conds.append(("doy%d%s" % (d, pt), k.close(th[(dl.index(d),) + pt], percentile(k, pool, p["q"]))))
    else:
        th = grid(k, f, thr, [])
        for pt in f.pts:
            conds.append((str(pt), k.close(th[pt], percentile(k, [f.a[(t,) + pt] for t in range(f.T)], p["q"]))))
    k.out("thr", thr)
    k.check_all(conds, "exact threshold = percentile of the stated samples")


def obligations(tier):
    H, G = "hobday_extreme", "global_extreme"
    o = []

    def add(name, budget=240, **p):
        o.append(Obl(name, exact, p, budget=budget, bound=str(p)))

    add("g_grid", method=G, cal="ny5", ny=1, nx=2, chunks={"t": 2, "x": 1}, q=90)
    add("g_land", method=G, cal="ny4", ny=1, nx=2, land=[[0, 1]], q=95)
    add("g_cust", method=G, cal="ny5", names="cust", chunks={"t": 3}, q=50)
    add("g_unstr", method=G, cal="ny4", nx=2, names="unstr", q=75)
    add("g_nan", method=G, cal="ny4", nan=[[1, 0, 0]], q=90)
    add("h_ny", method=H, cal="ny5", w=3, q=90, chunks={"t": 2})
    add("h_leap", method=H, cal="leap6", w=3, q=90)
    add("h_w1", method=H, cal="sameday3", w=1, q=75, chunks={"t": 1})
    add("h_w5_unstr", method=H, cal="days7", nx=1, names="unstr", w=5, q=80, chunks={"t": 3})
    add("h_nan", method=H, cal="ny4", w=3, q=90, nan=[[2, 0, 0]])
    add("h_land_cust", method=H, cal="ny4", ny=2, nx=1, names="cust", w=3, q=95, land=[[1, 0]])
    add("g_aux", method=G, cal="ny4", names="aux", chunks={"t": 2}, q=90)
    add("h_aux", method=H, cal="ny5", names="aux", w=3, q=90, chunks={"t": 2})
    add("h_both", method=H, cal="leap6", names="both", w=3, q=90)
    add("g_order", method=G, cal="ny4", nx=2, order="xyt", chunks={"t": 2}, q=90)
    add("h_order", method=H, cal="ny4", ny=2, order="ytx", w=3, q=90)
    add("g_40", method=G, cal="days40", q=95, chunks={"t": 11}, free=[[t, 0, 0] for t in (0, 11, 25, 39)])
    add("h_w11", method=H, cal="d15y4", w=11, q=95, chunks={"t": 16}, free=[[t, 0, 0] for t in (0, 14, 22)])
    if tier == "thorough":
        add("g_7", method=G, cal="days7", q=99, budget=1500)
        add("h_feb8", method=H, cal="feb8", w=3, q=90, budget=1500)
        add("h_w7", method=H, cal="days7", w=7, q=60, budget=1500)
        add("g_nan2", method=G, cal="ny5", nan=[[1, 0, 0], [3, 0, 0]], q=90, budget=1500)
    return o
