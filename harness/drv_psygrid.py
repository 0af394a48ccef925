"""G01: writes runs as MESA would, lets the real code make a grid file of them
and reports which rows of which file came out where."""
import json
import os
import shutil
import sys
import tempfile

import hc
from mesafiles import BACK, BHC, C, HC, OUT, PC, RATE, RL1, RL2, ZDIR, num, write
import numpy as np
from posydon.grids.psygrid import PSyGrid
from posydon.utils.common_functions import orbital_separation_from_period

def masses(j, r):
    return (200. if r["big"] else 20.) + j, 5. + j, 3. + j


def write_run(top, c, j, r):
    m1, m2, p = masses(j, r)
    if c["single"]:
        name = "initial_mass_%.4f_initial_z_%s_grid_index_%d" % (m1, ZDIR, j)
    else:
        name = "m1_%.4f_m2_%.4f_initial_period_in_days_%.4f_initial_z_%s_grid_index_%d" % (m1, m2, p, ZDIR, j)
    d = os.path.join(top, name)
    os.makedirs(d)
    with open(os.path.join(d, "out_star1_formation_step0.txt" if c["single"] else "out.txt"), "w") as f:
        f.write("some lines\ntermination code: %s\nmore lines\n" % OUT[r["out"]])
    with open(os.path.join(d, "inlist_grid_points"), "w") as f:
        f.write("&binary_controls\n m1 = %.4fd0\n m2 = %.4fd0\n initial_period_in_days = %.4fd0\n/\n" % (m1, m2, p))
    if r["bh"]:
        rows = []
        for i, x in enumerate(r["bh"], 1):
            rows.append([x["m"], num(x["t"]), 100 * j + i, num(x["v"]), num(m1 + i / 64), num(m2 + i / 64), num(p + i / 64),
                         num(50. + j + i / 64), num(RATE[x["f"]]), num(RL1[x["f"]]), num(RL2[x["f"]])])
        write(os.path.join(d, "binary_history.data"), {"version_number": 1, "initial_don_mass": m1, "initial_acc_mass": m2,
                                                       "initial_period_days": p}, BHC, rows, c["gz"])
    for k, s in (("h1", 1), ("h2", 2)):
        if not r[k]:
            continue
        rows = []
        for i, x in enumerate(r[k], 1):
            h, he, ca = C[x["d"]]
            rows.append([x["m"], num(x["t"]), 100 * j + i, num(x["v"]), num(m1 + i / 64), num(.7), num(h), num(he), num(ca),
                         num(4.), num(1.), num(4.), num(2.), num(1. if x["d"] == 0 else 3.), num(.25 + i / 64)])
        write(os.path.join(d, "LOGS%d" % s, "history.data"),
              {"version_number": 1, "initial_m": m1, "initial_Z": .0142, "initial_Y": .25 + s / 100.}, HC, rows, c["gz"])
        if r["prof"]:
            m = np.cumsum(r["pm"])
            rows = [[num(float(m[i])), num(r["pv"][i]), 100 * j + i + 1] for i in range(len(m) - 1, -1, -1)]
            write(os.path.join(d, "LOGS%d" % s, "final_profile.data"), {"version_number": 1}, PC, rows, c["gz"])
    return d


def code(v, base):
    v = float(v)
    if np.isnan(v):
        return -998
    x = (v - base) * 64
    return int(x) if x == int(x) and abs(x) < 100 else -999


def rows(a, j):
    if a is None:
        return []
    return [int(x) - 100 * j if 0 < x - 100 * j < 100 else -1 for x in a["rowid"]]


def rown(v, j):
    v = float(v)
    if np.isnan(v):
        return -998
    return int(v) - 100 * j if 0 < v - 100 * j < 100 else -999


def ages(a, col):
    if a is None:
        return []
    if col not in a.dtype.names:
        return [-7]
    return [int(x) if x == int(x) else -999 for x in a[col]]


def stage(s):
    s = str(s)
    for tail, out in (("Core_H_burning", "H"), ("Core_He_depleted", "He"), ("Core_C_depleted", "C")):
        if s.endswith(tail):
            return out
    return "CO" if s in ("BH", "NS", "WD") else s


def txt(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def one(tr, c, work):
    top = os.path.join(work, "grid")
    os.makedirs(top)
    dirs = {}
    for j, r in enumerate(c["runs"], 1):
        dirs[os.path.abspath(write_run(top, c, j, r))] = j
    excl = [x for x in BHC + HC if x != "val"]
    kw = dict(binary=not c["single"], start_at_RLO=c["rlo"], stop_before_carbon_depletion=c["stop"], He_core_fix=c["hefix"],
              accept_missing_profile=c["noprof"], history_DS_exclude=excl, profile_DS_exclude=["mass", "rowid"],
              history_DS_error={0: None, 1: 0., 2: .1, 3: .5}[c["ds"]], profile_DS_error={0: None, 1: 0., 2: .1, 3: .5}[c["pds"]],
              profile_DS_interval={0: None, 1: 2., 2: -.5}[c["pint"]],
              compression=["gzip9", None, "lzf"][c["cols"]])
    bhc, hcs = list(BHC), list(HC)
    if c["cols"] == 2:
        bhc.remove("model_number")
        hcs.remove("model_number")
        if not c["single"]:
            hcs.remove("star_age")
    for k, v in (("binary_history", bhc), ("star1_history", hcs), ("star2_history", hcs), ("star1_profile", PC), ("star2_profile", PC)):
        kw[k + "_saved_columns"] = "all" if c["cols"] == 0 else tuple(v)
    path = os.path.join(work, "g.h5")
    g = PSyGrid()
    g.create(top, path, slim=c["slim"], warn="suppress", **kw)
    g.close()
    g = PSyGrid(path, lazy=c["lazy"])
    srcs = [dirs.get(os.path.abspath(txt(d)), 0) for d in g.MESA_dirs]
    tr.ev("stored", runs=srcs, n=len(g), nv=len(g.initial_values) if len(g.initial_values) == len(g.final_values) else -1)
    views = [None] * len(srcs) if c["slim"] else list(g)
    for slot, (j, w) in enumerate(zip(srcs, views)):
        r = c["runs"][j - 1]
        m1, m2, p = masses(j, r)
        iv, fv = g.initial_values[slot], g.final_values[slot]
        if w is not None:
            # the view of a run and the tables of the grid agree
            assert all(txt(w.final_values[n]) == txt(fv[n]) for n in fv.dtype.names)
        has1 = "S1_rowid" in iv.dtype.names
        has2 = "S2_rowid" in iv.dtype.names
        ab = "none"
        if np.isclose(float(iv["Z"]), .0142, rtol=1e-12, atol=0):
            ab = "dir" if np.isnan(iv["Y"]) else {26: "h1", 27: "h2"}.get(round(100 * float(iv["Y"])), "?")
            if ab in ("h1", "h2") and not abs(iv["X"] + iv["Y"] + iv["Z"] - 1.) < 1e-12:
                ab = "sum"
        i = dict(row1=rown(iv["S1_rowid"], j) if has1 else -998, row2=rown(iv["S2_rowid"], j) if has2 else -998, ab=ab)
        f = dict(row1=rown(fv["S1_rowid"], j) if has1 else -998, row2=rown(fv["S2_rowid"], j) if has2 else -998,
                 tf1=BACK.get(txt(fv["termination_flag_1"]), txt(fv["termination_flag_1"])), tf3=stage(txt(fv["termination_flag_3"])))
        for s, has in ((1, has1), (2, has2)):
            n = "S%d_avg_c_in_c_core_at_He_depletion" % s
            x = code(fv[n], .25) if has and n in fv.dtype.names else -998
            f["dep%d" % s] = 0 if x == -998 else x
        if c["single"]:
            i.update(m1=code(iv["S1_star_mass"], m1))
            f.update(m1=code(fv["S1_star_mass"], m1))
        else:
            sep = code(iv["binary_separation"], 50. + j)
            if np.isclose(iv["binary_separation"], orbital_separation_from_period(p, m1, m2), rtol=1e-12):
                sep = 0
            i.update(row=rown(iv["rowid"], j), m1=code(iv["star_1_mass"], m1), m2=code(iv["star_2_mass"], m2), p=code(iv["period_days"], p),
                     sep=sep, age=int(iv["age"]) if iv["age"] == int(iv["age"]) else -999)
            f.update(row=rown(fv["rowid"], j), m1=code(fv["star_1_mass"], m1), m2=code(fv["star_2_mass"], m2), p=code(fv["period_days"], p),
                     sep=code(fv["binary_separation"], 50. + j), age=int(fv["age"]) if fv["age"] == int(fv["age"]) else -999,
                     tf4=stage(txt(fv["termination_flag_4"])), cls=txt(fv["interpolation_class"]))
        out = {}
        if w is not None:
            bh, h1, h2 = w.binary_history, w.history1, w["history2"]
            out = dict(bh=rows(bh, j), h1=rows(h1, j), h2=rows(h2, j), age=ages(bh, "age"), age1=ages(h1, "star_age"), age2=ages(h2, "star_age"),
                       he1=[] if h1 is None else [int(x) for x in h1["he_core_mass"]], he2=[] if h2 is None else [int(x) for x in h2["he_core_mass"]])
            pr = [w.final_profile1, w.final_profile2]
            have = [rows(x, j) for x, k in zip(pr, ("h1", "h2")) if r[k]]
            out["prof"] = have[0] if have and all(x == have[0] for x in have) else ([] if not have else [-1])
        tr.ev("run", run=j, slot=slot, iv=i, fv=f, **out)
    tr.ev("end")
    g.close()


def main():
    out, scripts = sys.argv[1:3]
    tr = hc.Trace(out)
    for n, c in enumerate(json.load(open(scripts))):
        if not hc.mine(n):
            continue
        for r in c["runs"]:
            for k in ("bh", "h1", "h2", "pm", "pv"):
                r[k] = r[k] or []
        work = tempfile.mkdtemp(suffix="_w", prefix="g01_", dir=hc.WORK)
        tr.begin("g%d" % c["id"], c=c)
        with hc.quiet(), tr.guard():
            one(tr, c, work)
        shutil.rmtree(work, ignore_errors=True)
    tr.close()


main()
