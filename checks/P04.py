"""P04: approximate global thresholds stay within the bin resolution of the sample quantile"""
import math

from symx.core import f_isnan, l_or, norm
from symx.run import Obl

from .dcommon import field, grid, kw, rank_near

BOUNDS = "identify_extremes(global, approximate) with <=5 symbolic samples per point, histogram of 5..9 bins"
OUTSIDE = "values beyond max_anomaly (dropped by design), finer histograms, longer series"


def appr(k):
    p = k.p
    prec, top = p.get("prec", 1.0), p.get("top", 3.0)
    f = field(k, lo=p.get("lo", -2 * prec), hi=p.get("hi", top - prec / 4), fixed={**{tuple(i): v for i, v in p.get("fixed", [])}, **{tuple(i): math.nan for i in p.get("gap", [])}})
    if "free" in p:  # not within float32 rounding of a bin edge
        for i in p["free"]:
            for e in range(int(p["lo"] / prec) - 1, int(p["hi"] / prec) + 2):
                x = norm(f.a[tuple(i)])
                k.assume(l_or(x < e * prec - 1e-4, x > e * prec + 1e-4))
    ext, thr = k.marEx.identify_extremes(f.da, method_extreme="global_extreme", method_percentile="approximate", threshold_percentile=p["q"], precision=prec,
                                         max_anomaly=top, **kw(f))
    th = grid(k, f, thr, [])
    conds = []
    for pt in f.pts:
        v = th[pt]
        pool = [f.a[(t,) + pt] for t in range(f.T)]
        if pt in f.land:
            conds.append((str(pt) + " land", f_isnan(v)))
            continue
        pool = [x for x in pool if not isinstance(x, float) or x == x]
        n = len(pool)
        conds.append((str(pt) + " defined", f_isnan(v) is False if isinstance(v, float) else True))
        rank = min(n, max(1, int(math.ceil(p["q"] / 100.0 * n - 1e-9))))
        conds.append((str(pt), rank_near(k, pool, v, rank, 1.5 * prec + 1e-4, prec)))
    k.out("thr", thr)
    k.check_all(conds, "threshold within 1.5 bins of the quantile")


def obligations(tier):
    o = []

    def add(name, budget=240, **p):
        o.append(Obl(name, appr, p, budget=budget, bound=str(p)))

    add("n3", cal="ny3", q=90, chunks={"t": 2})
    add("n4_q70", cal="ny4", q=70)
    add("n5_q90", cal="ny5", q=90, fixed=[[[1, 0, 0], 0.25], [[3, 0, 0], -0.5]])
    add("n3_fine", cal="ny3", q=70, prec=0.5, top=3.0)
    add("unstr", cal="ny3", q=90, nx=2, names="unstr", fixed=[[[0, 1], 0.5], [[1, 1], 1.25], [[2, 1], -1]])
    add("cust_land", cal="ny3", q=70, names="cust", nx=2, land=[[0, 0]])
    add("sym_many_fixed", cal="days9", q=90, fixed=[[[i, 0, 0], round((i * 5 % 9) / 4.0 - 0.5, 3)] for i in range(7)])
    add("gap", cal="ny4", q=70, gap=[[0, 0, 0]])
    add("gap_last", cal="ny4", q=90, nx=2, gap=[[3, 0, 1], [1, 0, 1]], fixed=[[[t, 0, 0], t / 2.0] for t in range(4)])
    add("aux", cal="ny3", q=90, names="both")
    add("order", cal="ny3", q=90, nx=2, order="xyt", fixed=[[[0, 0, 1], 0.5], [[1, 0, 1], 1.25], [[2, 0, 1], -1]])
    # default histogram (500 bins): free values over a few bins in a record of 40 steps
    add("defaults", cal="days40", q=95, prec=0.01, top=5.0, lo=3.085, hi=3.125, scale=0.9, free=[[7, 0, 0], [30, 0, 0]], chunks={"t": 11})
    add("defaults_q99", cal="days40", q=99, prec=0.01, top=5.0, lo=3.3, hi=3.335, scale=0.9, free=[[0, 0, 0], [39, 0, 0]], chunks={"t": 11})
    if tier == "thorough":
        add("n5", cal="ny5", q=90, budget=1500)
        add("n4_fine", cal="ny4", q=80, prec=0.5, top=3.0, budget=1500)
        add("n7_2", cal="days7", q=95, fixed=[[[i, 0, 0], i / 4.0] for i in range(4)], budget=1500)
    return o
