"""P03: approximate day-of-year thresholds stay within the bin resolution of the pooled quantile"""
import math

from symx.core import f_isnan
from symx.run import Obl

from .dcommon import doy_window, field, grid, kw, rank_near

BOUNDS = "identify_extremes(hobday, approximate) with <=4 symbolic samples (others concrete), histogram of 5..9 bins, day windows 1..7, spatial windows 1..3 on <=3x4 grids"
OUTSIDE = "values beyond max_anomaly (dropped by design), finer histograms, larger pools"


def appr(k):
    p = k.p
    prec, top = p.get("prec", 1.0), p.get("top", 3.0)
    fixed = {}
    ny, nx = p.get("ny", 1), p.get("nx", 1)
    if "symbolic" in p:
        import numpy as np

        from .dcommon import CAL, NAMES

        shape = (len(CAL[p["cal"]]), ny, nx) if NAMES[p.get("names", "std")]["y"] else (len(CAL[p["cal"]]), nx)
        symb = {tuple(i) for i in p["symbolic"]}
        n = 0
        for i in np.ndindex(*shape):
            n += 1
            if i not in symb:
                fixed[i] = prec * ((n * 7) % 5 - 1) * 0.5 + prec * 0.25
    for i in p.get("gap", []):
        fixed[tuple(i)] = math.nan
    f = field(k, lo=p.get("lo", -2 * prec), hi=p.get("hi", top - prec / 4), fixed=fixed)
    args = dict(method_extreme="hobday_extreme", method_percentile="approximate", threshold_percentile=p["q"], precision=prec, max_anomaly=top,
                window_days_hobday=p["w"], **kw(f))
    ws = p.get("ws", 1)
    if f.nm["y"] is not None:
        args["window_spatial_hobday"] = ws
    ext, thr = k.marEx.identify_extremes(f.da, **args)
    th = grid(k, f, thr, ["dayofyear"])
    k.check(th.shape[0] == 366, "366 calendar days")
    dl = [int(d) for d in thr["dayofyear"].values] if "dayofyear" in thr.coords else list(range(1, 367))
    k.check(dl == list(range(1, 367)), "calendar days in order")
    h, hs = p["w"] // 2, ws // 2
    conds = []
    for d in range(1, 367):
        ts = doy_window(f, d, h)
        for pt in f.pts:
            v = th[(d - 1,) + pt]
            if f.nm["y"] is None:
                cells = [pt]
            else:
                cells = [(y, x % nx) for y in range(pt[0] - hs, pt[0] + hs + 1) if 0 <= y < ny for x in range(pt[1] - hs, pt[1] + hs + 1)]
            pool = [f.a[(t,) + c] for t in ts for c in cells]
            pool = [x for x in pool if x == x or not isinstance(x, float)]
            if not pool or pt in f.land:
                conds.append(("doy%d%s no data" % (d, pt), f_isnan(v)))
                continue
            conds.append(("doy%d%s has data" % (d, pt), f_isnan(v) is False if isinstance(v, float) else True))
            rank = int(math.floor(p["q"] / 100.0 * len(pool) + 1e-9)) + 1
            conds.append(("doy%d%s" % (d, pt), rank_near(k, pool, v, min(rank, len(pool)), 1.5 * prec + 1e-4, prec)))
    k.out("thr", thr.transpose("dayofyear", ...))
    k.check_all(conds, "threshold within 1.5 bins of the pooled quantile")


def obligations(tier):
    o = []

    def add(name, budget=240, **p):
        o.append(Obl(name, appr, p, budget=budget, bound=str(p)))

    add("newyear_w3", cal="ny3", w=3, q=70)
    add("newyear_w5", cal="ny4", w=5, q=90, symbolic=[[0, 0, 0], [1, 0, 0], [3, 0, 0]])
    add("apart_w7", cal="apart4", w=7, q=90, symbolic=[[0, 0, 0], [3, 0, 0]])
    add("w1", cal="sameday3", w=1, q=70, prec=0.5, top=1.5)
    add("leap_w3", cal="leap6", w=3, q=75, symbolic=[[1, 0, 0], [2, 0, 0], [5, 0, 0]])
    add("unstr_w3", cal="ny3", w=3, q=70, names="unstr", nx=2, symbolic=[[0, 0], [1, 0], [2, 1]])
    add("cust_w3", cal="ny3", w=3, q=90, names="cust", symbolic=[[0, 0, 0], [2, 0, 0]])
    add("space_x", cal="mid3", w=1, ws=3, q=70, ny=1, nx=4, symbolic=[[1, 0, 0], [1, 0, 3]], chunks={"t": 2, "x": 2})
    add("space_yx", cal="mid3", w=3, ws=3, q=90, ny=3, nx=4, symbolic=[[1, 0, 0], [0, 2, 3]])
    add("space_land", cal="mid3", w=3, ws=3, q=70, ny=2, nx=4, land=[[0, 1]], symbolic=[[1, 0, 0], [1, 1, 3]])
    add("gap_first", cal="ny4", w=3, q=70, gap=[[0, 0, 0]], symbolic=[[1, 0, 0], [3, 0, 0]])
    add("gap_mid", cal="mid3", w=3, q=70, nx=2, gap=[[1, 0, 1]], symbolic=[[0, 0, 1], [2, 0, 1]])
    add("aux_w3", cal="ny3", w=3, q=90, names="both", symbolic=[[0, 0, 0], [2, 0, 0]])
    add("order_w3", cal="ny3", w=3, ws=3, q=90, nx=3, ny=2, order="xyt", symbolic=[[0, 0, 0], [2, 1, 2]])
    add("window5", cal="mid3", w=11, ws=5, q=90, ny=5, nx=6, free=[[1, 0, 0]], scale=0.6)
    if tier == "thorough":
        add("defaults", cal="d15y4", w=11, q=95, prec=0.01, top=5.0, lo=3.0, hi=3.03, scale=0.9, free=[[30, 0, 0]], chunks={"t": 16}, budget=1500)
        add("newyear_full", cal="ny4", w=5, q=90, budget=1500)
        add("prec_half", cal="ny3", w=3, q=90, prec=0.5, top=3.0, budget=1500)
        add("space_yx5", cal="mid3", w=3, ws=5, q=90, ny=5, nx=6, symbolic=[[1, 0, 0], [0, 4, 5], [2, 2, 2]], budget=1500)
        add("ny5_w7", cal="ny5", w=7, q=90, symbolic=[[0, 0, 0], [2, 0, 0], [3, 0, 0], [4, 0, 0]], budget=1500)
    return o
