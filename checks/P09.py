"""P09: gridded spatial hole filling"""
from symx.core import l_iff
from symx.run import Obl

from .tcommon import build, close_open, disk, garr, grid_get, tracker

BOUNDS = "tracker.fill_holes on every boolean field of the listed grids (<= 4 x 7 cells, 1-2 time steps), R_fill 0..3, periodic and regional, with and without land"
OUTSIDE = "larger grids and radii"


def holes(k):
    p = k.p
    s = build(k, p["rows"], chunk_t=p.get("ct"), names=p.get("names", "std"), land_data=p.get("land_data", False))
    reg = p.get("regional", False)
    tr = tracker(k, s, R_fill=p["R"], T_fill=0, area_filter_absolute=1, regional_mode=reg)
    out = tr.fill_holes(tr.data_bin) if "R2" not in p else tr.fill_holes(tr.data_bin, R_fill=p["R2"])
    R = p.get("R2", p["R"])
    got = garr(k, s, out, [s.nm["t"]])
    k.out("filled", out.transpose(s.nm["t"], ...))
    conds = []
    for t in range(s.T):
        ref = close_open(grid_get(s.a, t, s.ny, s.nx, not reg), s.ny, s.nx, disk(R)) if R else None
        for y, x in s.pts:
            if not s.ocean[y, x]:
                conds.append(("land t%d(%d,%d)" % (t, y, x), l_iff(got[t, y, x], False)))
            else:
                conds.append(("t%d(%d,%d)" % (t, y, x), l_iff(got[t, y, x], ref[y][x] if R else s.a[t, y, x])))
    k.check_all(conds, "filled field = opening(closing(field)) with the R_fill disk")


def pic(ny, nx, R):
    """blobs larger than the disk at the seam, at a pole and in the middle, with holes; a few cells are free"""
    out = []
    for y in range(ny):
        row = ""
        for x in range(nx):
            d = min((x - c) % nx if (x - c) % nx < nx / 2 else nx - (x - c) % nx for c in (0, nx // 2))
            c = "#" if d <= R + (y % 3 == 0) and not (d <= 2 and y == ny // 2) else "."
            if (x * 7 + y * 11) % (nx * ny // 8) == 3:
                c = "?"
            row += c
        out.append(row)
    return out


def obligations(tier):
    o = []

    def add(name, budget=240, **p):
        o.append(Obl(name, holes, p, budget=budget, bound=str(p)))

    add("R1_4x5", R=1, rows=[["?????"] * 4])
    add("R1_3x6_land", R=1, rows=[["??????", "?L????", "????L?"]])
    add("R2_3x8", R=2, rows=[["????????"] * 3])
    add("R3_2x12", R=3, rows=[["????????????"] * 2])
    add("R1_regional", R=1, regional=True, rows=[["?????"] * 4])
    add("R2_regional_land", R=2, regional=True, rows=[["????", "?LL?", "????"]])
    add("R1_two_steps", R=1, ct=1, rows=[["????"] * 3, ["????"] * 3])
    add("R0", R=0, rows=[["????", "?L??"]], land_data=True)
    add("R1_landdata", R=1, rows=[["????", "?L?L", "????"]], land_data=True)
    add("custom_names", R=1, names="cust", rows=[["????"] * 3])
    add("override_R", R=2, R2=1, rows=[["?????"] * 3])
    add("R8_default", R=8, rows=[pic(20, 40, 8)])
    add("R5_regional", R=5, regional=True, rows=[pic(13, 20, 5)])
    if tier == "thorough":
        add("R2_5x9", R=2, rows=[["?????????"] * 5], budget=800)
        add("R2_reg_5x6", R=2, regional=True, rows=[["??????"] * 5], budget=800)
        add("R4_3x17", R=4, rows=[["?????????????????"] * 3], budget=800)
    return o
