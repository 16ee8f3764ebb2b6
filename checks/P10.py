"""P10: unstructured hole filling"""
from symx.core import l_iff
from symx.run import Obl

from .tcommon import build, garr, mesh_close_open, scratch, tracker

BOUNDS = "tracker.fill_holes (unstructured) on every boolean field of the listed meshes (<= 9 cells, <= 2 time steps), R_fill 0..3, with and without land cells"
OUTSIDE = "larger meshes and radii"


def holes(k):
    p = k.p
    s = build(k, p["rows"], chunk_t=p.get("ct"), mesh=p["mesh"], land_data=p.get("land_data", False))
    with scratch() as tmp:
        tr = tracker(k, s, tmp=tmp, R_fill=p["R"], T_fill=0, area_filter_absolute=1)
        out = tr.fill_holes(tr.data_bin)
        got = garr(k, s, out, [s.nm["t"]])
    k.out("filled", out.transpose(s.nm["t"], ...))
    conds = []
    for t in range(s.T):
        ref = mesh_close_open(s, [s.a[(t,) + pt] for pt in s.pts], p["R"])
        for pt in s.pts:
            if s.ocean[pt]:
                conds.append(("t%d%s" % (t, pt), l_iff(got[(t,) + pt], ref[pt])))
    k.check_all(conds, "ocean cells = R-hop closing then opening, land counting as filled while shrinking")


def obligations(tier):
    o = []

    def add(name, budget=240, **p):
        o.append(Obl(name, holes, p, budget=budget, bound=str(p)))

    add("R1_strip", mesh="strip8", R=1, rows=["????????"])
    add("R1_strip_land", mesh="strip8", R=1, rows=["??L??L??"])
    add("R2_ring", mesh="ring6", R=2, rows=["??????"])
    add("R1_branch", mesh="branch7", R=1, rows=["???????"])
    add("R1_branch_land", mesh="branch7", R=1, rows=["??L????"], land_data=True)
    add("R2_branch_steps", mesh="branch7", R=2, ct=1, rows=["???????", "???????"])
    add("R0", mesh="branch7", R=0, rows=["????L??"])
    add("R3_grid9", mesh="tri9", R=3, rows=["?????????"])
    add("R1_tri9", mesh="tri9", R=1, rows=["????L????"])
    add("R8_strip30", mesh="strip30", R=8, rows=["##########?###??####?#########"])
    add("R4_strip30_land", mesh="strip30", R=4, rows=["#####?L##?...????...#####L?.??"])
    if tier == "thorough":
        add("R2_tri9_steps", mesh="tri9", R=2, rows=["?????????", "?????????"], budget=800)
    return o
