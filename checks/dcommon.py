"""shared pieces of the detection harnesses (fields, calendars, oracles)"""
import math

import numpy as np
import pandas as pd
import xarray as xr

from symx.core import f_isnan, is_sym, ite, l_and, l_iff, l_not, l_or, norm, s_sum  # noqa: F401

CAL = {
    # consecutive days around a year boundary, leap year 2000 (366) / 2001 / 2002
    "ny5": ["2000-01-01", "2000-01-02", "2000-12-31", "2001-01-01", "2001-01-02"],
    "ny4": ["2000-01-01", "2000-12-30", "2000-12-31", "2001-01-01"],
    "ny3": ["2000-01-01", "2000-12-31", "2001-01-01"],
    "mid3": ["2001-06-30", "2001-07-01", "2001-07-02"],
    "sameday3": ["2001-03-05", "2002-03-05", "2003-03-05"],
    "leap6": ["2000-02-28", "2000-02-29", "2000-03-01", "2001-02-28", "2001-03-01", "2004-02-29"],
    "days7": list(pd.date_range("2001-12-28", periods=7).strftime("%Y-%m-%d")),
    "days9": list(pd.date_range("2003-12-27", periods=9).strftime("%Y-%m-%d")),
    "feb8": ["2000-02-27", "2000-02-28", "2000-02-29", "2000-03-01", "2001-02-27", "2001-02-28", "2001-03-01", "2001-03-02"],
    "apart4": ["2001-01-10", "2001-04-10", "2001-07-10", "2001-10-10"],
}
for _n, _yrs in (("y4", [2000, 2001, 2002, 2003]), ("y5", [1999, 2000, 2001, 2002, 2003]), ("ygap", [2000, 2001, 2003, 2004])):
    CAL[_n] = ["%d-%s" % (y, d) for y in _yrs for d in ("01-01", "01-02", "01-03", "12-31")]
CAL["y4feb"] = [d for y in (2000, 2001, 2002, 2003, 2004) for d in (["%d-02-28" % y] + (["%d-02-29" % y] if y % 4 == 0 else []) + ["%d-03-01" % y])]
CAL["y6"] = ["%d-%s" % (y, d) for y in range(2000, 2006) for d in ("05-01", "05-02", "05-03")]

for _n, _y in (("season12", 3), ("season16", 4), ("season24", 6)):
    CAL[_n] = ["%d-%s" % (2000 + i, d) for i in range(_y) for d in ("01-15", "04-20", "07-03", "10-11")]
CAL["year2"] = list(pd.date_range("2001-01-01", "2002-12-31").strftime("%Y-%m-%d"))
CAL["year2leap"] = list(pd.date_range("1999-07-01", "2001-06-30").strftime("%Y-%m-%d"))
CAL["part34"] = ["%d-%s" % (y, d) for y in (2001, 2002) for d in pd.date_range("2001-12-10", periods=17).strftime("%m-%d")]
CAL["part40"] = ["%d-%s" % (y, d) for y in (2001, 2002) for d in pd.date_range("2001-03-01", periods=20).strftime("%m-%d")]

CAL["y18"] = ["%d-%s" % (y, d) for y in range(1990, 2008) for d in ("02-28", "12-31")]
CAL["d30y3"] = [d for y in (2003, 2004, 2005) for d in pd.date_range("%d-12-02" % y, periods=30).strftime("%Y-%m-%d")]
CAL["d15y4"] = [d for y in (2003, 2004, 2005, 2006) for d in pd.date_range("%d-12-24" % y, periods=15).strftime("%Y-%m-%d")]
CAL["days40"] = list(pd.date_range("2003-12-10", periods=40).strftime("%Y-%m-%d"))
CAL["daily3"] = list(pd.date_range("2003-01-01", "2005-12-31").strftime("%Y-%m-%d"))


def calendar(name):
    return pd.to_datetime(CAL[name])


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def doys(times):
    """independent day-of-year"""
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    return [cum[t.month - 1] + t.day + (1 if t.month > 2 and leap(t.year) else 0) for t in times]


class Field:
    """da: the DataArray handed to marEx; a[t, point]: scalar samples; pts: list of spatial indices"""


NAMES = {
    "std": dict(t="time", y="lat", x="lon", dims=None, coords=None),
    "cust": dict(t="tt", y="jj", x="ii", dims={"time": "tt", "x": "ii", "y": "jj"}, coords={"time": "tt", "x": "ii", "y": "jj"}),
    # dates on a coordinate that is not the time dimension's own (without / with an integer index on that dimension)
    "aux": dict(t="t", y="j", x="i", dims={"time": "t", "x": "i", "y": "j"}, coords={"time": "when", "x": "lon", "y": "lat"}, when="when", index=False),
    "both": dict(t="t", y="j", x="i", dims={"time": "t", "x": "i", "y": "j"}, coords={"time": "when", "x": "lon", "y": "lat"}, when="when", index=True),
    "unstr": dict(t="time", y=None, x="ncells", dims={"time": "time", "x": "ncells"}, coords={"time": "time", "x": "lon", "y": "lat"}),
}


def field(k, lo=-8, hi=8, name="x", nan=None, inf=None, fixed=None, dtype="float32", times=None):
    p = k.p
    f = Field()
    f.times = calendar(p["cal"]) if times is None else times
    T = len(f.times)
    nm = NAMES[p.get("names", "std")]
    f.nm = nm
    ny, nx = p.get("ny", 1), p.get("nx", 1)
    land = {tuple(c) for c in p.get("land", [])}
    shape = (T, nx) if nm["y"] is None else (T, ny, nx)
    fx = dict(fixed or {})
    if "free" in p:  # only these samples are free, the others are fixed numbers
        free = {tuple(i) for i in p["free"]}
        for n, i in enumerate(np.ndindex(*shape)):
            if i not in free:
                fx.setdefault(i, round((2.5 * math.sin(n * 0.37) + ((n * 31) % 17) / 8.0 - 1.0) * p.get("scale", 1.0), 3))
    for c in land:
        for t in range(T):
            fx[(t,) + (c if nm["y"] is not None else c[-1:])] = math.nan
    f.land = land if nm["y"] is not None else {c[-1:] for c in land}
    data = k.real(name, shape, lo, hi, nan=nan, inf=inf, fixed=fx, dtype=dtype)
    f.data = data
    f.a = k.arr(data)
    ch = p.get("chunks") or {}
    if nm["y"] is None:
        lon = np.linspace(-170, 170, nx) if nx > 1 else np.array([10.0])
        lat = np.linspace(-20, 20, nx) if nx > 1 else np.array([5.0])
        da = xr.DataArray(data, dims=(nm["t"], nm["x"]), coords={nm["t"]: f.times, "lon": (nm["x"], lon), "lat": (nm["x"], lat)}, name="sst")
    else:
        lon = np.arange(nx) * (360.0 / max(nx, 1))
        lat = np.arange(ny) * 10.0
        if "when" in nm:
            cs = {nm["when"]: (nm["t"], f.times), "lat": (nm["y"], lat), "lon": (nm["x"], lon), **({nm["t"]: np.arange(T)} if nm["index"] else {})}
        else:
            cs = {nm["t"]: f.times, nm["y"]: lat, nm["x"]: lon}
        da = xr.DataArray(data, dims=(nm["t"], nm["y"], nm["x"]), coords=cs, name="sst")
    f.da = da.chunk({nm["t"]: ch.get("t", -1), **({nm["y"]: ch.get("y", -1)} if nm["y"] else {}), nm["x"]: ch.get("x", -1)})
    if p.get("order"):  # storage order of the dimensions
        f.da = f.da.transpose(*[nm[c] for c in p["order"]])
    f.pts = [i for i in np.ndindex(*shape[1:])]
    f.T = T
    f.doy = doys(f.times)
    f.year = [t.year for t in f.times]
    return f


def kw(f):
    """dimension / coordinate keywords"""
    out = {}
    if f.nm["dims"]:
        out["dimensions"] = dict(f.nm["dims"])
    if f.nm["coords"]:
        out["coordinates"] = dict(f.nm["coords"])
    return out


def grid(k, f, da, lead):
    """da -> object array ordered (lead..., spatial...)"""
    sp = [f.nm["x"]] if f.nm["y"] is None else [f.nm["y"], f.nm["x"]]
    return k.arr(da.transpose(*lead, *sp))


def sort_net(xs):
    """ascending, without NaN"""
    xs = list(xs)
    n = len(xs)
    s = sorted(x for x in xs if not is_sym(x))
    if len(s) > 2:  # insert the unknown values into the known ones
        for x in [x for x in xs if is_sym(x)]:
            c = [True] + [a <= x for a in s] + [False]
            s = [ite(c[i + 1], s[i] if i < len(s) else x, ite(c[i], x, s[i - 1] if i else x)) for i in range(len(s) + 1)]
        return s
    for i in range(n):
        for j in range(n - 1 - i):
            c = xs[j] <= xs[j + 1]
            xs[j], xs[j + 1] = ite(c, xs[j], xs[j + 1]), ite(c, xs[j + 1], xs[j])
    return xs


def percentile(k, xs, pct):
    """linear-interpolation percentile of the non-NaN members"""
    def f(ys):
        s = sort_net(ys)
        h = (len(s) - 1) * pct / 100.0
        i = int(math.floor(h))
        j = min(i + 1, len(s) - 1)
        return s[i] + (s[j] - s[i]) * (h - i)

    return k.nan_fold(xs, f)


def rank_near(k, xs, thr, rank, tol, floor_at):
    """|thr - max(order statistic `rank` (1-based) of xs, floor_at)| <= tol; xs without NaN"""
    ys = [core_max(x, floor_at) for x in xs]
    below = k.count([y < thr - tol for y in ys])
    upto = k.count([y <= thr + tol for y in ys])
    return l_and(below < rank, upto >= rank)


def core_max(x, c):
    return ite(x >= c, x, c)


def doy_window(f, d, half):
    """sample indices whose day-of-year lies within +-half days of d on the cyclic 366-day calendar"""
    out = []
    for t, q in enumerate(f.doy):
        e = (q - d) % 366
        if min(e, 366 - e) <= half:
            out.append(t)
    return out
