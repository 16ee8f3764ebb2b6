"""P13: objects are exactly the connected flagged regions"""
from symx.core import is_sym, l_and, l_iff, l_implies, l_not, l_or, norm
from symx.run import Obl

from .tcommon import build, components, flagged, garr, neighbours, reach, roots, scratch, tracker

BOUNDS = "tracker.identify_objects on every boolean field of the listed grids / meshes, periodic and regional, several time chunkings, with and without time connectivity"
OUTSIDE = "larger grids, longer series"


def eq(a, b):
    return norm(a) == norm(b)


def spatial(k):
    p = k.p
    s = build(k, p["rows"], chunk_t=p.get("ct"), names=p.get("names", "std"), mesh=p.get("mesh"), land_data=p.get("land_data", False))
    reg = p.get("regional", False)
    with scratch() as tmp:
        tr = tracker(k, s, tmp=tmp, R_fill=0, T_fill=0, area_filter_absolute=1, regional_mode=reg)
        ids, _, n = tr.identify_objects(tr.data_bin, time_connectivity=False)
        got = garr(k, s, ids, [s.nm["t"]])
    k.out("ids", ids.transpose(s.nm["t"], ...))
    conds = []
    allroots = []
    for t in range(s.T):
        fl = flagged(s, t)
        R = components(s, fl, wrap=not reg)
        allroots += roots(R)
        for i, a in enumerate(s.pts):
            conds.append(("flagged t%d%s" % (t, a), l_iff(norm(got[(t,) + a]) > 0, fl[a])))
            for j in range(i):
                b = s.pts[j]
                if fl[a] is False or fl[b] is False:
                    continue
                conds.append(("t%d%s%s" % (t, a, b), l_implies(l_and(fl[a], fl[b]), l_iff(eq(got[(t,) + a], got[(t,) + b]), R[i][j]))))
            if s.nm["y"] is not None:
                for t2 in range(t):
                    for b in s.pts:
                        f2 = l_and(fl[a], flagged(s, t2)[b])
                        if f2 is not False:
                            conds.append(("distinct over time t%d%s t%d%s" % (t, a, t2, b), l_implies(f2, l_not(eq(got[(t,) + a], got[(t2,) + b])))))
    k.check_all(conds, "same ID <=> connected")
    if s.nm["y"] is not None:
        k.check(norm(k.arr(n).reshape(-1)[0] if hasattr(n, "shape") else n) == k.count(allroots), "number of objects")


def spacetime(k):
    """allow_merging=False: events are the connected regions of the space-time field"""
    p = k.p
    s = build(k, p["rows"], chunk_t=p.get("ct"), names=p.get("names", "std"))
    reg = p.get("regional", False)
    tr = tracker(k, s, R_fill=0, T_fill=0, area_filter_absolute=1, regional_mode=reg, allow_merging=False)
    if p.get("api") == "run_tracking":
        ds, _, n = tr.run_tracking(tr.data_bin)
        ids = ds.ID_field
    else:
        ids, _, n = tr.identify_objects(tr.data_bin, time_connectivity=True)
    got = garr(k, s, ids, [s.nm["t"]])
    k.out("ids", ids.transpose(s.nm["t"], ...))
    cells = [(t,) + pt for t in range(s.T) for pt in s.pts]
    idx = {c: i for i, c in enumerate(cells)}
    fl = {c: (s.a[c] if s.ocean[c[1:]] else False) for c in cells}
    adj = {}
    sp = [(a, b) for a, b in neighbours(s, not reg)]
    near = {(a, a) for a in s.pts} | set(sp) | {(b, a) for a, b in sp}
    for t in range(s.T):
        for a, b in sp:
            adj[idx[(t,) + a], idx[(t,) + b]] = l_and(fl[(t,) + a], fl[(t,) + b])
        if t + 1 < s.T:
            for a, b in near:
                adj[idx[(t,) + a], idx[(t + 1,) + b]] = l_and(fl[(t,) + a], fl[(t + 1,) + b])
    adj = {kk: v for kk, v in adj.items() if v is not False}
    R = reach(len(cells), adj)
    for c, i in idx.items():
        R[i][i] = fl[c]
    conds = []
    for c, i in idx.items():
        conds.append(("flagged %s" % (c,), l_iff(norm(got[c]) > 0, fl[c])))
        for d, j in idx.items():
            if j < i and fl[c] is not False and fl[d] is not False:
                conds.append(("%s%s" % (c, d), l_implies(l_and(fl[c], fl[d]), l_iff(eq(got[c], got[d]), R[i][j]))))
    k.check_all(conds, "same event <=> connected in space-time")
    nn = norm(k.arr(n).reshape(-1)[0] if hasattr(n, "shape") else n)
    k.check(nn == k.count(roots(R)), "number of events")
    k.check_all([("%s" % (c,), norm(got[c]) <= nn) for c in cells], "IDs are 1..N")


def obligations(tier):
    o = []

    def add(name, fn=spatial, budget=280, **p):
        o.append(Obl(name, fn, p, budget=budget, bound=str(p)))

    add("grid_3x4", rows=[["????"] * 3])
    add("grid_2x6", rows=[["??????"] * 2])
    add("grid_land", rows=[["?????", "?LL??", "?????"]])
    add("grid_steps", ct=1, rows=[["????"], ["????"], ["????"]])
    add("grid_steps_c2", ct=2, rows=[["????"], ["????"], ["????"]])
    add("regional", regional=True, rows=[["?????"] * 2])
    add("custom", names="cust", rows=[["????"] * 2])
    add("mesh_branch", mesh="branch7", rows=["???????"])
    add("mesh_ring_land", mesh="ring6", rows=["?L????"], land_data=True)
    add("mesh_steps", mesh="strip6", ct=1, rows=["??#??.", "??.?##"])
    add("mesh_tri", mesh="tri9", rows=["???#?????"])
    add("st_2x1x4", spacetime, ct=1, rows=[["????"], ["????"]])
    add("st_3x1x4", spacetime, rows=[["????"], ["????"], ["????"]])
    add("st_regional", spacetime, regional=True, ct=2, rows=[["????"], ["????"], ["????"]])
    add("st_run", spacetime, api="run_tracking", ct=1, rows=[["???", "???"], ["???", "???"]])
    if tier == "thorough":
        add("grid_4x5", rows=[["?????"] * 4], budget=850)
        add("st_3x2x4", spacetime, ct=1, rows=[["????"] * 2] * 3, budget=850)
        add("mesh_tri_steps", mesh="tri9", rows=["?????????", "?????????"], budget=850)
    return o
