"""P14: objects of consecutive steps are linked exactly by the overlap criterion"""
from symx import core
from symx.core import norm
from symx.run import Obl

from .tcommon import build, decide_mask, lineages, run_tracker

BOUNDS = ("tracker.run_tracking on every boolean field of the listed pictures ('?' = free cell) with every overlap_threshold in (0, 1] "
          "(and, where said, every cell area in [1, 4]); histories in which no object has two linked predecessors")
OUTSIDE = "larger grids, longer series; merging histories (P15)"


def link(k):
    p = k.p
    s = build(k, p["rows"], chunk_t=p.get("ct"), names=p.get("names", "std"), mesh=p.get("mesh"))
    reg = p.get("regional", False)
    thr = p["thr"] if "thr" in p else norm(k.real("thr", (1,), lo=0.01, hi=1.0, dtype="float64")[0])
    m = decide_mask(s)
    if not any(m):
        k.assume(False)
    w = areas = None
    if p.get("areas"):
        core.OPAQUE_SQRT = True  # centroids do not take part in linking
        areas = k.real("areas", (s.nx,), lo=1.0, hi=4.0)
        w = {pt: norm(x) for pt, x in zip(s.pts, k.arr(areas))}
    lin = lineages(s, m, thr, wrap=not reg, w=w, consolidate=p.get("mesh") is None)
    if lin is None:
        k.assume(False)
    r = run_tracker(k, s, m, areas=areas, overlap_threshold=thr, allow_merging=True, regional_mode=reg, nn_partitioning=p.get("nn", False))
    owner = {}
    for t, objs in enumerate(lin):
        for cells, ev in objs:
            for c in cells:
                owner[(t,) + c] = ev
    k.check_all([("%s" % (c,), (i > 0) == (c in owner)) for c, i in r.id.items()], "an event ID exactly on flagged cells")
    fwd, bwd = {}, {}
    conds = []
    for c, ev in owner.items():
        i = r.id[c]
        conds.append(("one event, one ID %s" % (c,), fwd.setdefault(ev, i) == i))
        conds.append(("one ID, one event %s" % (c,), bwd.setdefault(i, ev) == ev))
    k.check_all(conds, "same ID <=> linked by overlap")
    k.check(len(r.merges) == 0, "no merge is recorded")


def obligations(tier):
    o = []

    def add(name, budget=280, **p):
        o.append(Obl(name, link, p, budget=budget, bound=str(p)))

    add("two_steps", rows=[["##??.?"], ["?.##??"]])
    add("two_steps_rows", ct=1, rows=[["#?..", "?..#"], ["??..", "#..?"]])
    add("three_steps", ct=2, rows=[["###..."], ["??.??."], ["..#??."]])
    add("three_steps_c1", ct=1, rows=[["###?.."], ["#?.??."], ["..#?#."]])
    add("split_then_overlap", ct=3, rows=[["####."], ["#?.?#"], ["?##??"]], regional=True)
    # an event splits and joins again around chunk boundaries
    add("four_steps_c2", ct=2, rows=[["?...."], ["####."], ["#.?#."], ["?##?."]], thr=0.4)
    add("five_steps_c3", ct=3, rows=[["#...."], ["?...."], ["####."], ["#.?#."], ["####?"]], thr=0.4)
    add("five_steps_c2", ct=2, rows=[["...##"], ["####?"], ["#.#.?"], ["#.##?"], ["####."]], thr=0.3)
    add("many_chunks", ct=1, rows=[["##.#"]] * 4 + [["#?.#"], ["##?."], [".###"], ["?#.."]] + [["##.."]] * 3 + [["#?.?"]], thr=0.5)
    add("seam", rows=[["#....??#"], ["##..?..?"]])
    add("seam_regional", rows=[["#...?#"], ["#?..?#"]], regional=True)
    add("nn", nn=True, rows=[["##?.??"], ["?.##?#"]])
    add("custom", names="cust", rows=[["#?.."], ["?#.#"]], ct=1)
    add("mesh", mesh="strip6", ct=1, rows=["##?.??", "?.##?#"])
    add("mesh_areas", mesh="strip6", areas=True, thr=0.5, rows=["##?.##", "?##..?"])
    add("mesh_three", mesh="branch7", ct=2, rows=["##?....", "?##..?.", "?.#?..?"])
    add("flush", ct=2, rows=[["####."], ["#.?#."]] + [["####."]] * 2 + [["##..."]] * 20 + [["?#..."]], thr=0.4)
    if tier == "thorough":
        add("two_steps_8", rows=[["##??.???"], ["??##?.??"]], budget=850)
        add("three_steps_rows", ct=2, rows=[["##..", "?..?"], ["?#.?", "..??"], ["##..", "?..?"]], budget=850)
        add("four_steps", ct=3, rows=[["###.."], ["#?#?."], ["?.#?."], ["#?.#."]], budget=850)
        add("mesh_areas_thr", mesh="strip6", areas=True, rows=["##?.#?", "?##?.#"], budget=850)
        add("mesh_four", mesh="tri9", ct=2, rows=["###..?...", "##?...?..", "#.?..??..", "?.#.?...#"], budget=850)
    return o
