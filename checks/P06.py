"""P06: the fixed baseline removes each calendar day's mean over the whole series"""
import math

import numpy as np

from symx.run import Obl

from .dcommon import field, grid, kw
from .P07 import projector

BOUNDS = "compute_normalised_anomaly(fixed_baseline | detrend_fixed_baseline) over 5..18 time steps, <=4 points, values in [-8,8], symbolic NaNs (fixed_baseline)"
OUTSIDE = "longer series; tolerance 1e-3"


def remove_doy(k, f, col):
    out = []
    for t in range(f.T):
        out.append(col[t] - k.mean([col[s] for s in range(f.T) if f.doy[s] == f.doy[t]]))
    return out


def fixed(k):
    p = k.p
    f = field(k, nan={tuple(i) for i in p.get("nan", [])})
    args = dict(method_anomaly=p.get("method", "fixed_baseline"), **kw(f))
    if p.get("orders"):
        args["detrend_orders"] = p["orders"]
    ds = k.marEx.compute_normalised_anomaly(f.da, **args)
    an = grid(k, f, ds["dat_anomaly"], [f.nm["t"]])
    k.out("anom", ds["dat_anomaly"].transpose(f.nm["t"], ...))
    P = projector(f.times, p["orders"], False) if p.get("orders") else None
    conds = []
    for pt in f.pts:
        col = [f.a[(t,) + pt] for t in range(f.T)]
        if pt in f.land:
            conds += [("t%d%s" % (t, pt), k.close(an[(t,) + pt], math.nan)) for t in range(f.T)]
            continue
        if P is not None:
            col = [col[t] - lin(P[t], col) for t in range(f.T)]
        exp = remove_doy(k, f, col)
        conds += [("t%d%s" % (t, pt), k.close(an[(t,) + pt], exp[t], 1e-3)) for t in range(f.T)]
    k.check_all(conds, "anomaly = value - mean of that calendar day")
    m = grid(k, f, ds["mask"], [])
    k.check_all([(str(pt), bool(m[pt]) == (pt not in f.land)) for pt in f.pts], "mask")


def lin(row, col):
    from symx.core import s_sum

    return s_sum([float(w) * x for w, x in zip(row, col)])


def obligations(tier):
    o = []

    def add(name, budget=240, **p):
        o.append(Obl(name, fixed, p, budget=budget, bound=str(p)))

    D = "detrend_fixed_baseline"
    add("fix_y4", cal="y4", chunks={"t": 5})
    add("fix_leap", cal="y4feb", nx=2, chunks={"t": 4, "x": 1})
    add("fix_land_cust", cal="ny5", ny=2, nx=2, names="cust", land=[[1, 0]])
    add("fix_unstr", cal="y6", nx=2, names="unstr")
    add("fix_nan", cal="sameday3", nan=[[1, 0, 0], [2, 0, 0]])
    add("dfb_1", cal="y4", method=D, orders=[1])
    add("dfb_12", cal="y4feb", method=D, orders=[1, 2], chunks={"t": 4})
    add("dfb_2_unstr", cal="y6", method=D, orders=[2], nx=2, names="unstr")
    add("dfb_cust_land", cal="y4", method=D, orders=[1], names="cust", nx=2, land=[[0, 0]])
    add("fix_aux", cal="y4", names="aux", chunks={"t": 5})
    add("fix_both", cal="y4feb", names="both")
    add("fix_order", cal="y4", nx=2, order="xyt", chunks={"t": 5})
    add("dfb_aux", cal="y4", method=D, orders=[1], names="aux", chunks={"t": 5})
    add("dfb_both", cal="y4", method=D, orders=[1], names="both")
    add("dfb_order", cal="y4", method=D, orders=[1], ny=2, order="yxt")
    add("fix_daily", cal="daily3", chunks={"t": 400}, free=[[t, 0, 0] for t in (0, 58, 59, 364, 365, 424, 425, 730, 1095)])
    add("dfb_days60", cal="d15y4", method=D, orders=[1, 2], chunks={"t": 16}, free=[[t, 0, 0] for t in (0, 7, 8, 31, 59)])
    if tier == "thorough":
        add("fix_y5_grid", cal="y5", ny=2, nx=2)
        add("dfb_123", cal="y5", method=D, orders=[1, 2, 3])
    return o
