"""P17: tracking conserves the flagged cells and numbers the events without gaps"""
import numpy as np

from symx.core import norm
from symx.run import Obl

from .tcommon import build, decide_mask, objects, run_tracker

BOUNDS = ("tracker.run_tracking on every boolean field of the listed pictures ('?' = free cell), no history excluded (mergers, splits, re-merging "
          "pieces, equidistant parents); overlap thresholds as listed")
OUTSIDE = "larger grids, longer series"


def conserve(k):
    p = k.p
    s = build(k, p["rows"], chunk_t=p.get("ct"), names=p.get("names", "std"), mesh=p.get("mesh"), land_data=p.get("land_data", False))
    reg = p.get("regional", False)
    m = decide_mask(s)
    if not any(m):
        k.assume(False)
    thr = p.get("thr", 0.5)
    r = run_tracker(k, s, m, want=("presence",), overlap_threshold=thr, allow_merging=True, regional_mode=reg, nn_partitioning=p.get("nn", False))
    k.check_all([("%s" % (c,), (i > 0) == (c[1:] in m[c[0]])) for c, i in r.id.items()], "an event ID exactly on flagged cells")
    used = sorted({i for i in r.id.values() if i > 0})
    k.check(used == list(range(1, len(used) + 1)), "IDs are 1..N without gaps")
    k.check(r.ids == used and int(norm(r.N)) == len(used), "the ID coordinate and the number of events agree with the field")
    conds = []
    for e in used:
        ts = [t for t in range(s.T) if any(r.id[(t,) + pt] == e for pt in s.pts)]
        conds.append(("ID %d" % e, ts == list(range(ts[0], ts[-1] + 1))))
        conds.append(("ID %d presence" % e, [bool(norm(x)) for x in r.presence[:, r.ids.index(e)]] == [t in ts for t in range(s.T)]))
    k.check_all(conds, "no event vanishes and reappears")
    # objects that exist side by side at the start of the record never share an ID, and an object untouched by the
    # previous step never continues an event
    t0 = next(t for t in range(s.T) if m[t])
    firsts = [{r.id[(t0,) + c] for c in o} for o in objects(s, m[t0], not reg)]
    k.check(all(len(x) == 1 for x in firsts), "an object of the first step is one event")
    k.check(len({min(x) for x in firsts}) == len(firsts), "objects of the first step are distinct events")
    conds = []
    for t in range(1, s.T):
        for o in objects(s, m[t], not reg):
            before = {r.id[(t - 1,) + c] for c in s.pts} - {0}
            here = {r.id[(t,) + c] for c in o}
            if not any(c in m[t - 1] for c in o):
                conds.append(("t%d" % t, not (here & before) and len(here) == 1))
            else:
                touch = {r.id[(t - 1,) + c] for c in o if c in m[t - 1]}
                conds.append(("t%d only overlapped events continue" % t, (here & before) <= touch))
    k.check_all(conds, "an event continues only where it overlaps the previous step")


def obligations(tier):
    o = []

    def add(name, budget=280, **p):
        o.append(Obl(name, conserve, p, budget=budget, bound=str(p)))

    add("two_steps", rows=[["#?.?#?."], ["?#?.?#?"]])
    add("three_steps", rows=[["##.?##."], ["?##?##?"], ["#?.##?."]], ct=2)
    add("three_steps_c1", rows=[["##.?##."], ["?##?##?"], ["#?.##?."]], ct=1, thr=0.3)
    add("low_thr", rows=[["#.#?#.?"], ["?##?##?"]], thr=0.1)
    add("nn", rows=[["#.#?#.?"], ["?##?##?"], ["#.?..#."]], nn=True, thr=0.25)
    add("rows", rows=[["#..#", "?..?", "#.?."], ["?##?", "####", ".#.?"]], thr=0.2)
    add("regional", rows=[["#?.?#?"], ["?#??##"]], regional=True, thr=0.2)
    add("first_empty", rows=[["...."], ["#?.#"], ["?##?"]], ct=2)
    add("mesh", rows=["#?.?##", "?###?#"], mesh="strip6", thr=0.3)
    add("mesh_branch", rows=["#.#??#.", "?##?###", "#.?..#."], mesh="branch7", ct=2, thr=0.25)
    add("mesh_nn", rows=["#.#?#.##", "?##?####"], mesh="mix8", nn=True, thr=0.25)
    add("five_steps_c2", rows=[["##.#?"], ["####?"], ["#.?#."], ["####."], ["?.##."]], ct=2, thr=0.3)
    add("many_chunks", ct=1, rows=[["##.##.."]] * 4 + [["#####?."]] + [["##?##.."]] * 2 + [["#####.."]] * 4 + [["##.##.?"], ["#######"]], thr=0.3)
    add("mesh_five_c1", ct=1, rows=["##.##...", "#####?..", "##?##...", "#####...", "########"], mesh="strip8", thr=0.3)
    add("mesh_quiet", rows=["......", "##.##?", "######"] + ["......"] * 137, mesh="strip6", ct=20, thr=0.3)  # a long record with few objects
    add("uneven", rows=[["#.########..."], ["##########?.."]], thr=0.3)
    add("uneven_nn", rows=[["#.########..."], ["##########?.."]], thr=0.3, nn=True)
    add("mesh_uneven", rows=["#.########...", "##########?.."], mesh="strip13", thr=0.3)
    add("mesh_uneven_nn", rows=["#.########...", "##########?.."], mesh="strip13", thr=0.3, nn=True)
    return o
