"""P11: temporal gap filling"""
from symx.core import l_and, l_iff, l_or
from symx.run import Obl

from .tcommon import MESH, build, close_open, disk, garr, grid_get, mesh_close_open, tracker, scratch

BOUNDS = "tracker.fill_time_gaps on every boolean field of the listed sizes (<= 8 time steps), T_fill 0..4 (even), time chunks 1.., R_fill 0..3, gridded and unstructured"
OUTSIDE = "longer series, wider gaps, larger grids"


def time_close(col, n):
    """closing of a 0/1 series with a centred window of n+1 steps, False outside the record"""
    T, h = len(col), n // 2
    g = lambda c: (lambda i: c[i] if 0 <= i < len(c) else False)
    ext = range(-n, T + n)
    c0 = g(col)
    dil = {i: l_or(*[c0(i + d) for d in range(-h, h + 1)]) for i in range(-2 * n - 1, T + 2 * n + 1)}
    return [l_and(*[dil[i + d] for d in range(-h, h + 1)]) for i in range(T)]


def gaps(k):
    p = k.p
    s = build(k, p["rows"], chunk_t=p.get("ct"), names=p.get("names", "std"), mesh=p.get("mesh"), land_data=p.get("land_data", False))
    reg = p.get("regional", False)
    with scratch() as tmp:
        tr = tracker(k, s, tmp=tmp, R_fill=p.get("R", 0), T_fill=p["T"], area_filter_absolute=1, regional_mode=reg)
        out = tr.fill_time_gaps(tr.data_bin)
        got = garr(k, s, out, [s.nm["t"]])
    k.out("filled", out.transpose(s.nm["t"], ...))
    k.check([str(x)[:10] for x in out[s.nm["t"]].values] == [str(x)[:10] for x in s.times], "time axis unchanged")
    n = p["T"]
    closed = {}
    for pt in s.pts:
        col = time_close([s.a[(t,) + pt] for t in range(s.T)], n) if n else [s.a[(t,) + pt] for t in range(s.T)]
        for t in range(s.T):
            closed[(t,) + pt] = col[t]
    R2 = p.get("R", 0) // 2
    conds = []
    for t in range(s.T):
        ref = {pt: closed[(t,) + pt] for pt in s.pts}
        if n and R2 and s.nm["y"] is not None:
            r = close_open(grid_get(closed, t, s.ny, s.nx, not reg), s.ny, s.nx, disk(R2))
            ref = {pt: r[pt[0]][pt[1]] for pt in s.pts}
        if n and R2 and s.nm["y"] is None:
            ref = mesh_close_open(s, [ref[pt] for pt in s.pts], R2)
        for pt in s.pts:
            if not s.ocean[pt] and n:
                if s.nm["y"] is not None:
                    conds.append(("land t%d%s" % (t, pt), l_iff(got[(t,) + pt], False)))
            elif s.ocean[pt]:
                conds.append(("t%d%s" % (t, pt), l_iff(got[(t,) + pt], ref[pt])))
    k.check_all(conds, "gap-filled field")


def obligations(tier):
    o = []

    def add(name, budget=240, **p):
        o.append(Obl(name, gaps, p, budget=budget, bound=str(p)))

    col = lambda n: [["?"]] * n
    add("T2_8steps", T=2, rows=[["??"]] * 8)
    add("T2_chunk1", T=2, ct=1, rows=[["??"]] * 6)
    add("T2_chunk3", T=2, ct=3, rows=[["??", "?L"]] * 7)
    add("T4_8steps", T=4, ct=2, rows=[["??"]] * 8)
    add("T4_chunk5", T=4, ct=5, rows=[["?"]] * 9)
    add("T0", T=0, R=2, rows=[["??"]] * 3)
    add("T2_R2", T=2, R=2, rows=[["????"] * 2] * 3)
    add("T2_R3_regional", T=2, R=3, regional=True, rows=[["???", "??L"]] * 3)
    add("T2_unstr", T=2, mesh="strip6", ct=2, rows=["??????"] * 4)
    add("T2_unstr_R2", T=2, R=2, mesh="ring6", rows=["??????"] * 3)
    add("T2_cust", T=2, ct=2, names="cust", rows=[["??"]] * 5)
    add("T8_24", T=8, ct=7, rows=[["#"], ["?"]] + [["."]] * 7 + [["?"], ["#"]] + [["?"]] * 5 + [["."]] * 6 + [["?"], ["#"]])
    if tier == "thorough":
        add("T6_12", T=6, ct=3, rows=[["??"]] * 14, budget=800)
        add("T8_16", T=8, ct=5, rows=[["?"]] * 18, budget=800)
        add("T2_R4", T=2, R=4, rows=[["?????????"] * 3] * 3, budget=800)
    return o
