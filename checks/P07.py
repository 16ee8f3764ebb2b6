"""P07: harmonic detrending removes exactly the least-squares trend + annual and semi-annual cycle"""
import math

import numpy as np

from symx.core import s_sum
from symx.run import Obl

from .dcommon import field, grid, kw, leap

BOUNDS = "compute_normalised_anomaly(detrend_harmonic) over 9..18 irregular time steps, polynomial orders up to 3, <=4 points, values in [-8,8]"
OUTSIDE = "longer series (the operator is linear; each obligation covers every real vector of its length), higher orders; tolerance 2e-3"


def decimal_year(t):
    n = 366 if leap(t.year) else 365
    doy = (t - t.replace(month=1, day=1)).days
    return t.year + doy / n


def projector(times, orders, harmonics=True):
    """orthogonal projector on span{1, t^k, sin/cos(2 pi t), sin/cos(4 pi t)}"""
    dy = np.array([decimal_year(t) for t in times])
    tc = dy - dy.mean()
    cols = [np.ones(len(dy))] + [tc ** o for o in orders]
    if harmonics:
        for w in (2 * np.pi, 4 * np.pi):
            cols += [np.sin(w * dy), np.cos(w * dy)]
    M = np.array(cols).T
    U, s, _ = np.linalg.svd(M, full_matrices=False)
    U = U[:, s > s[0] * 1e-11]
    return U @ U.T


def detrend(k):
    p = k.p
    f = field(k)
    args = dict(method_anomaly="detrend_harmonic", **kw(f))
    if "orders" in p:
        args["detrend_orders"] = p["orders"]
    if "zero" in p:
        args["force_zero_mean"] = p["zero"]
    ds = k.marEx.compute_normalised_anomaly(f.da, **args)
    an = grid(k, f, ds["dat_anomaly"], [f.nm["t"]])
    k.out("anom", ds["dat_anomaly"].transpose(f.nm["t"], ...))
    P = projector(f.times, p.get("orders", [1]))
    conds = []
    for pt in f.pts:
        col = [f.a[(t,) + pt] for t in range(f.T)]
        for t in p.get("days", range(f.T)):
            e = math.nan if pt in f.land else col[t] - s_sum([float(w) * x for w, x in zip(P[t], col)])
            conds.append(("t%d%s" % (t, pt), k.close(an[(t,) + pt], e, 2e-3)))
    k.check_all(conds, "anomaly = residual of the least-squares fit")
    m = grid(k, f, ds["mask"], [])
    k.check_all([(str(pt), bool(m[pt]) == (pt not in f.land)) for pt in f.pts], "mask")


def obligations(tier):
    o = []

    def add(name, budget=240, **p):
        o.append(Obl(name, detrend, p, budget=budget, bound=str(p)))

    add("season16", cal="season16", chunks={"t": 5})
    add("season16_12", cal="season16", orders=[1, 2], nx=2, chunks={"t": 6, "x": 1})
    add("season16_3", cal="season16", orders=[3], zero=False)
    add("season12_land", cal="season12", ny=2, nx=1, land=[[0, 0]])
    add("season12_unstr", cal="season12", orders=[1, 2], nx=2, names="unstr")
    add("season12_cust", cal="season12", orders=[2], names="cust", zero=True)
    add("season12_aux", cal="season12", names="aux", chunks={"t": 5})
    add("season12_both", cal="season12", names="both")
    add("season12_order", cal="season12", ny=2, order="yxt", chunks={"t": 5})
    add("daily", cal="year2", orders=[1, 2], chunks={"t": 400}, free=[[0, 0, 0], [500, 0, 0]], days=[0, 59, 365, 500, 729])
    if tier == "thorough":
        add("daily3", cal="daily3", orders=[1, 2], chunks={"t": 400}, free=[[t, 0, 0] for t in (0, 59, 500, 1095)], days=[0, 59, 60, 366, 500, 730, 1000, 1095], budget=800)
        add("season24", cal="season24", orders=[1, 2, 3], ny=1, nx=2)
    return o
