"""P15: merging events keep their identity and every merge is recorded"""
import numpy as np

from symx import core
from symx.core import norm
from symx.run import Obl

from .tcommon import build, decide_mask, genealogy, run_tracker

BOUNDS = ("tracker.run_tracking on every boolean field of the listed pictures ('?' = free cell) with every overlap_threshold in (0, 1]; "
          "histories with at least one merge whose nearest-parent partition is unique (no equidistant parents) and final "
          "(each piece overlaps enough with its own parent only)")
OUTSIDE = "larger grids, longer series; equidistant parents; merges that need repeated partitioning"


def merge(k):
    p = k.p
    s = build(k, p["rows"], chunk_t=p.get("ct"), names=p.get("names", "std"), mesh=p.get("mesh"), lon=p.get("lon"), lat=p.get("lat"))
    reg = p.get("regional", False)
    nn = p.get("nn", False)
    thr = p["thr"] if "thr" in p else norm(k.real("thr", (1,), lo=0.01, hi=1.0, dtype="float64")[0])
    m = decide_mask(s)
    if not any(m):
        k.assume(False)
    gen = genealogy(k, s, m, thr, wrap=not reg, nn=nn, consolidate=p.get("mesh") is None)
    if gen is None or not gen[1]:
        k.assume(False)
    lin, merges = gen
    r = run_tracker(k, s, m, want=("global_ID", "merge_ledger"), overlap_threshold=thr, allow_merging=True, regional_mode=reg, nn_partitioning=nn)
    owner = {}
    for t, objs in enumerate(lin):
        for cells, ev in objs:
            for c in cells:
                owner[(t,) + c] = ev
    k.check_all([("%s" % (c,), (i > 0) == (c in owner)) for c, i in r.id.items()], "an event ID exactly on flagged cells")
    fwd, bwd, conds = {}, {}, []
    for c, ev in owner.items():
        i = r.id[c]
        conds.append(("one event, one ID %s" % (c,), fwd.setdefault(ev, i) == i))
        conds.append(("one ID, one event %s" % (c,), bwd.setdefault(i, ev) == ev))
    k.check_all(conds, "every part of a merged object continues the event of its nearest parent")
    # the record of merges
    def gid(t, ev):
        return int(norm(r.global_ID[t, r.ids.index(fwd[ev])]))

    want = sorted((str(np.datetime64(s.times[g["t"]], "s")), tuple(sorted((gid(g["t"] - 1, ev), float(o)) for ev, o in zip(g["parents"], g["overlaps"])))) for g in merges)
    got = sorted((str(np.datetime64(g["time"], "s")), tuple(sorted((a, float(b)) for a, b in zip(g["parents"], g["overlaps"]) if a >= 0))) for g in r.merges)
    k.out("merges", repr(got))
    k.check(len(got) == len(want), "one record per merge")
    k.check(got == want, "merge records: time, parents and overlap areas")
    k.check(sorted((g["n_p"], g["n_c"]) for g in r.merges) == sorted((len(g["parents"]),) * 2 for g in merges), "merge records: counts")
    # the ledger: merging events list each other
    conds = []
    sib = {}
    for g in merges:
        evs = [fwd[e] for e in g["parents"]]
        for e in evs:
            sib.setdefault((g["t"], e), []).append(sorted(evs))
    for t in range(s.T):
        for j, e in enumerate(r.ids):
            row = sorted(int(norm(x)) for x in r.merge_ledger[t, j] if int(norm(x)) != -1)
            conds.append(("t%d ID %d" % (t, e), row in sib[t, e] if (t, e) in sib else row == []))
    k.check_all(conds, "merge_ledger lists the merging events")


def obligations(tier):
    o = []

    def add(name, budget=280, **p):
        o.append(Obl(name, merge, p, budget=budget, bound=str(p)))

    add("two_parents", rows=[["###.?##.."], ["?#####?.?"]])
    add("middle", rows=[["..###.?##."], ["..?######?"]])                     # crosses the middle of the domain
    add("seam", rows=[["#?...##.##"], ["##...?####"]])                      # merge across the periodic seam
    add("regional", rows=[["##.?##.#"], ["?######?"]], regional=True)
    add("block", rows=[["##.....", "#?...#.", "....##."], ["##?....", "#####?.", "...###."]])
    add("three_parents", rows=[["##..##..##?."], ["##########?."]])
    add("two_merges", rows=[["##.#?..##.##."], ["####?..?####."]])
    add("later", rows=[["##.###..."], ["#####?..."], ["?####...#"]])
    add("later_c1", rows=[["##.###..."], ["#####?..."], ["?####...#"]], ct=1)
    add("later_c2", rows=[["##.###..."], ["#####?..."], ["?####...#"]], ct=2)
    add("again", rows=[["##.##..##"], ["#####..##"], ["########?"]], ct=2)
    for ct in (2, 3):  # split, rejoin and merge around chunk boundaries
        add("rejoin_c%d" % ct, rows=[["##......"], ["?#.###.."], ["##.#.##."], ["##.####."], ["#######?"]], ct=ct, thr=0.3)
    add("many_chunks", ct=1, rows=[["##.###..."]] * 4 + [["######..."]] + [["?#####..."]] + [["######..."]] * 4 + [["##.###..."], ["######?.."]], thr=0.3)
    add("nn", rows=[["###.?##.."], ["?#####?.?"]], nn=True)
    add("nn_seam", rows=[["#?..##..##"], ["##..?#####"]], nn=True)
    add("nn_regional", rows=[["##.?##.#"], ["?######?"]], nn=True, regional=True)
    add("nn_block", rows=[["##.....", "#?...#.", "....##."], ["##?....", "#####?.", "...###."]], nn=True)
    wide = lambda *runs: "".join("?" if (x in runs[0]) else "#" if any(a <= x <= b for a, b in runs[1:]) else "." for x in range(41))
    add("nn_wide", rows=[[wide((21,), (36, 38), (18, 20))], [wide((35,), (36, 40), (0, 20))]], nn=True)  # far from the parents, over the seam
    add("nn_wide2", rows=[[wide((23,), (36, 38), (20, 22))], [wide((35,), (36, 40), (0, 22))]], nn=True)
    add("nn_far", rows=[[wide((11,), (12, 14), (37, 39))], [wide((9,), (12, 39))]], nn=True, regional=True)
    add("names", rows=[["##.?##..."], ["?######?."]], names="cust")
    add("mesh", rows=["##.##??#", "?#####?#"], mesh="strip8")
    add("mesh_nn", rows=["##.##??#", "?#####?#"], mesh="strip8", nn=True)
    add("mesh_branch", rows=["#?.##?#", "#######"], mesh="branch7")
    add("mesh_later", rows=["##.###..", "#####?..", "?####..#"], mesh="strip8", ct=2)
    add("exact", rows=[["###.####..."], ["########..."], ["?.####.?..."]])  # pieces overlapping exactly at the threshold
    add("mesh_exact", rows=["###.####", "########", "?.####.."], mesh="strip8")
    add("mesh_exact_c1", rows=["###.####", "########", "?.####.."], mesh="strip8", ct=1)
    add("mesh_mix", rows=["##....##", "########"], mesh="mix8", nn=True)
    add("mesh_mix2", rows=["#?...?##", "########"], mesh="mix8", nn=True)
    for ct in (None, 1, 2):  # three parents, twice in a row
        add("mesh_thrice_c%s" % ct, rows=["#.##.###", "########", "#######?"], mesh="strip8", ct=ct)
    for ct in (None, 1, 2):  # a merger of three and, one step later, a merger of two elsewhere
        add("mesh_apart_c%s" % ct, rows=["#..#..#.#..#.", "#######.#..#.", "?.......####."], mesh="strip13", ct=ct)
    for ct in (2, 3):
        add("mesh_long_c%d" % ct, rows=["##......", "##.###..", "##.####.", "?######.", "#######?"], mesh="strip8", ct=ct, thr=0.3)
    add("flush", ct=2, rows=[["##.###..."], ["######?.."]] + [["##.###..."]] * 20 + [["##?###..."]], thr=0.3)
    # the piece of a merged object, smaller than the whole, newly links to a child that another object also feeds
    add("revived", rows=[["###.##.#####....."], ["######.#####....."], ["....#######??...."]], thr=0.5)
    for ct in (None, 1, 2):
        add("mesh_revived_c%s" % ct, rows=["###.##.#####..", "######.#####..", "....#######??."], mesh="strip14", thr=0.5, ct=ct)
    return o
