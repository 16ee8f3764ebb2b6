"""P12: the area filter keeps exactly the objects that are large enough"""
import math

from symx.core import is_sym, ite, l_and, l_iff, l_not, l_or, norm
from symx.run import Obl

from .dcommon import sort_net
from .tcommon import build, components, flagged, garr, roots, scratch, sizes, tracker

BOUNDS = "tracker.filter_small_objects on every boolean field of the listed grids / meshes (<= 2 time steps), absolute thresholds and quantiles"
OUTSIDE = "larger grids, more objects"


def filt(k):
    p = k.p
    s = build(k, p["rows"], chunk_t=p.get("ct"), names=p.get("names", "std"), mesh=p.get("mesh"), land_data=p.get("land_data", False))
    reg = p.get("regional", False)
    arg = dict(area_filter_absolute=p["A"]) if "A" in p else dict(area_filter_quartile=p["q"])
    comp = [components(s, flagged(s, t), wrap=not reg) for t in range(s.T)]
    rts = [roots(R) for R in comp]
    szs = [sizes(k, R) for R in comp]
    nobj = k.count([c for r in rts for c in r])
    with scratch() as tmp:
        tr = tracker(k, s, tmp=tmp, R_fill=0, T_fill=0, regional_mode=reg, **arg)
        small = p.get("floor", 0)
        big = k.count([l_and(c, norm(z) > small) for r, zz in zip(rts, szs) for c, z in zip(r, zz)])
        try:
            out = tr.filter_small_objects(tr.data_bin)
        except k.marEx.exceptions.TrackingError:
            k.out("raised", "yes")
            k.check(big == 0, "refused only when there is no object")
            return
        data, thr, _, n_pre, n_post = out
        got = garr(k, s, data, [s.nm["t"]])
    k.out("data", data.transpose(s.nm["t"], ...))
    k.check(big > 0, "an empty field is refused")
    if "A" in p:
        T = p["A"]
    else:
        areas = []
        for r, zz in zip(rts, szs):
            for c, z in zip(r, zz):
                if bool(norm(c)):
                    if not small or bool(norm(z) > small):
                        areas.append(z)
        o = sort_net(areas)
        h = (len(o) - 1) * p["q"]
        i = int(math.floor(h + 1e-12))
        j = min(i + 1, len(o) - 1)
        T = o[i] + (o[j] - o[i]) * (h - i)
    want = {}
    for t in range(s.T):
        for i, pt in enumerate(s.pts):
            want[(t, i)] = l_and(comp[t][i][i], norm(szs[t][i]) >= T)
    n_want = k.count([l_and(c, norm(z) >= T) for r, zz in zip(rts, szs) for c, z in zip(r, zz)])
    conds = [("t%d%s" % (t, s.pts[i]), l_iff(got[(t,) + s.pts[i]], w)) for (t, i), w in want.items()]
    if p.get("counts", True):
        k.check(norm(n_pre) == nobj, "number of objects before filtering")
        conds.append(("number of objects after filtering", norm(n_post) == n_want))
    if "mesh" not in p and not p.get("strict") and k.known("P12", "first-object"):
        # recorded finding: the first object of the record (lowest label) is always removed; anything else is still a violation
        earlier, lost = False, {}
        for t in range(s.T):
            for i in range(len(s.pts)):
                f = l_and(comp[t][i][i], l_not(earlier))  # the first flagged cell
                for j in range(len(s.pts)):
                    if comp[t][i][j] is not False:
                        lost[t, j] = l_or(lost.get((t, j), False), l_and(f, comp[t][i][j]))
                earlier = l_or(earlier, comp[t][i][i])
        alt = [l_iff(got[(t,) + s.pts[i]], l_and(w, l_not(lost.get((t, i), False)))) for (t, i), w in want.items()]
        first_kept = l_or(*[l_and(lost.get(c, False), w) for c, w in want.items()])
        if p.get("counts", True):
            alt.append(norm(n_post) == n_want - ite(first_kept, 1, 0))
        k.check(l_or(l_and(*[c for _, c in conds]), l_and(*alt)), "kept <=> the object has at least the threshold area (up to the recorded loss of the first object)")
        return
    k.check_all(conds, "kept <=> the object has at least the threshold area")


def obligations(tier):
    o = []

    def add(name, budget=280, **p):
        o.append(Obl(name, filt, p, budget=budget, bound=str(p)))

    add("abs1_2x4", A=1, rows=[["????"] * 2])
    add("abs2_2x5", A=2, rows=[["?????"] * 2])
    add("abs3_3x4_land", A=3, rows=[["????", "?L??", "????"]])
    add("abs2_steps", A=2, ct=1, rows=[["?????"], ["?????"]])
    add("abs2_steps_one_chunk", A=2, rows=[["?????"], ["?????"]])
    add("abs3_regional", A=3, regional=True, rows=[["?????"] * 2])
    add("q50_1x6", q=0.5, rows=[["??????"]])
    add("q25_regional", q=0.25, regional=True, rows=[["#??.?"], ["??#??"]])
    add("q100_1x6", q=1.0, rows=[["??????"]])
    add("q0", q=0.0, rows=[["??????"]])
    add("custom", A=2, names="cust", rows=[["????"] * 2])
    add("unstr_abs2", A=2, floor=5, counts=False, mesh="strip8", rows=["????##?#"])
    add("unstr_abs6", A=6, floor=5, counts=False, mesh="strip8", rows=["????????"])
    add("unstr_steps_land", A=6, floor=5, counts=False, mesh="branch7", ct=1, rows=["??L????", "##L?#?#"], land_data=True)
    add("first_object", A=1, strict=True, rows=[["#?.?"]])
    if tier == "thorough":
        add("abs3_3x5", A=3, rows=[["?????"] * 3], budget=800)
        add("abs4_2x7", A=4, rows=[["???????"] * 2], budget=800)
        add("q60_steps", q=0.6, rows=[["????"] * 2, ["????"]*2], budget=800)
    return o
