"""P01: an extreme is flagged exactly where the anomaly reaches the threshold of its place and calendar day"""
from symx.core import f_isnan, l_and, l_iff, l_implies, l_not
from symx.run import Obl

from .dcommon import field, grid, kw

BOUNDS = "identify_extremes on <=9 time steps x <=4 points, symbolic values in [-8,8] (approximate: inside the histogram range) and symbolic NaNs, concrete calendars incl. leap days and year boundaries, several chunkings, gridded / renamed / unstructured"
OUTSIDE = "longer series, other calendars, values beyond max_anomaly for the approximate methods"


def flags(k):
    p = k.p
    app = p["pct"] == "approximate"
    nan = {tuple(i) for i in p.get("nan", [])}
    f = field(k, lo=-2 if app else -8, hi=2.5 if app else 8, nan=nan, fixed={tuple(i): v for i, v in p.get("fixed", [])})
    args = dict(method_extreme=p["method"], method_percentile=p["pct"], threshold_percentile=p.get("q", 90), **kw(f))
    if app:
        args.update(precision=1.0, max_anomaly=3.0)
    if p["method"] == "hobday_extreme":
        args["window_days_hobday"] = p.get("w", 3)
        if app and f.nm["y"] is not None:
            args["window_spatial_hobday"] = p.get("ws", 1)
    ext, thr = k.marEx.identify_extremes(f.da, **args)
    k.check(ext.dtype == bool, "flag dtype")
    e = grid(k, f, ext, [f.nm["t"]])
    hob = p["method"] == "hobday_extreme"
    th = grid(k, f, thr, ["dayofyear"] if hob else [])
    dl = [int(d) for d in thr["dayofyear"].values] if hob else None
    k.out("ext", ext.transpose(f.nm["t"], ...))
    conds = []
    for t in range(f.T):
        for pt in f.pts:
            x = f.a[(t,) + pt]
            v = th[(dl.index(f.doy[t]),) + pt] if hob else th[pt]
            ge = l_and(l_not(f_isnan(x)), l_not(f_isnan(v)), x >= v)
            conds.append(("t%d%s" % (t, pt), l_iff(e[(t,) + pt], ge)))
    k.check_all(conds, "flag <=> value >= threshold")


def obligations(tier):
    H, G = "hobday_extreme", "global_extreme"
    o = []

    def add(name, budget=150, **p):
        o.append(Obl(name, flags, p, budget=budget, bound=str(p)))

    add("g_exact_grid", method=G, pct="exact", cal="ny5", ny=2, nx=2, chunks={"t": 2, "x": 1}, q=90, land=[[0, 1]])
    add("g_exact_unstr", method=G, pct="exact", cal="ny5", nx=3, names="unstr", chunks={"t": 3}, q=70)
    add("g_exact_nan", method=G, pct="exact", cal="ny4", nan=[[1, 0, 0]], q=90)
    add("h_exact_leap", method=H, pct="exact", cal="feb8", ny=1, nx=2, chunks={"t": 3}, w=3, q=90)
    add("h_exact_unstr", method=H, pct="exact", cal="days7", nx=2, names="unstr", chunks={"t": 4}, w=5, q=80)
    add("h_exact_cust_nan", method=H, pct="exact", cal="ny5", names="cust", w=3, nan=[[3, 0, 0]], q=90)
    add("g_appr", method=G, pct="approximate", cal="ny3", q=90, chunks={"t": 2})
    add("g_appr_land", method=G, pct="approximate", cal="ny4", nx=2, q=70, land=[[0, 1]], fixed=[[[2, 0, 0], 0.5]])
    add("h_appr", method=H, pct="approximate", cal="ny3", q=90, w=3)
    add("h_appr_unstr", method=H, pct="approximate", cal="ny3", nx=2, q=70, w=3, names="unstr", fixed=[[[0, 1], 0.5], [[1, 1], -1.0], [[2, 1], 1.5], [[1, 0], 1.5]])
    add("g_exact_aux", method=G, pct="exact", cal="ny4", names="aux", chunks={"t": 2}, q=90)
    add("g_exact_order", method=G, pct="exact", cal="ny4", nx=2, order="xty", chunks={"t": 2}, q=90)
    add("h_exact_both", method=H, pct="exact", cal="ny5", names="both", chunks={"t": 2}, w=3, q=90)
    add("h_exact_order", method=H, pct="exact", cal="ny5", nx=2, order="xyt", chunks={"t": 2}, w=3, q=90)
    add("h_appr_aux", method=H, pct="approximate", cal="ny3", q=90, w=3, names="aux")
    add("g_appr_order", method=G, pct="approximate", cal="ny3", nx=2, order="yxt", q=90, fixed=[[[0, 0, 0], 0.5], [[1, 0, 0], -1.0], [[2, 0, 0], 1.5]])
    add("h_appr_order", method=H, pct="approximate", cal="ny3", nx=2, order="yxt", q=90, w=3, fixed=[[[0, 0, 0], 0.5], [[1, 0, 0], -1.0], [[2, 0, 0], 1.5]])
    add("g_exact_40", method=G, pct="exact", cal="days40", q=95, chunks={"t": 11}, free=[[t, 0, 0] for t in (0, 11, 25, 39)])
    add("h_exact_w11", method=H, pct="exact", cal="d15y4", w=11, q=95, chunks={"t": 16}, free=[[t, 0, 0] for t in (0, 14, 22, 59)])
    if tier == "thorough":
        add("g_exact_9", method=G, pct="exact", cal="days9", ny=1, nx=2, q=95)
        add("h_exact_9", method=H, pct="exact", cal="days9", w=7, q=95, chunks={"t": 2})
        add("g_appr_5", method=G, pct="approximate", cal="ny5", q=90, budget=900)
        add("h_appr_4", method=H, pct="approximate", cal="ny4", q=90, w=3, budget=900)
    return o
