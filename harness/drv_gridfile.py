"""G02: makes, joins, extends and re-opens real grid files and reports, run by
run, whose data they hold."""
import json
import os
import shutil
import sys
import tempfile

import hc
import mesafiles as mf
import numpy as np
from posydon.grids.psygrid import PSyGrid, join_grids

FLAG = {"Terminate because of overflowing initial model": "overflow", "forced_initial_RLO": "forced", "ignored_no_RLO": "noRLO",
        "Primary has depleted central carbon": "ok"}
COLS = {k + "_saved_columns": "all" for k in ("binary_history", "star1_history", "star2_history", "star1_profile", "star2_profile")}


def par(p):
    if p > 130:
        return 20. + 4 * (p - 131), 10., 5. + (3 * (p - 131)) % 4
    if p > 120:
        return 20., 10., 1.
    if p > 100:
        a, b = (p - 101) % 5, (p - 101) // 5
        return 20. + 4 * a, 10. + 3 * b, 2. + (3 * a + 5 * b) % 4
    return 19. + 3 * p, 9. + 2 * p, 1. + (2 * p) % 5


def write_run(top, r):
    m1, m2, p = par(r["p"])
    d = os.path.join(top, "m1_%.4f_m2_%.4f_initial_period_in_days_%.4f_initial_z_1.42e-02_grid_index_%d" % (m1, m2, p, r["u"]))
    os.makedirs(d)
    with open(os.path.join(d, "out.txt"), "w") as f:
        f.write("termination code: %s\n" % (mf.OUT["overflow"] if r["f"] == "overflow" else mf.OUT["cdep1"]))
    with open(os.path.join(d, "inlist_grid_points"), "w") as f:
        f.write("&binary_controls\n m1 = %.4fd0\n m2 = %.4fd0\n initial_period_in_days = %.4fd0\n/\n" % (m1, m2, p))
    fs = {"ok": [0, 2], "norlo": [0, 0], "overflow": [2], "nobh": []}[r["f"]]
    if not fs:
        return
    rows, hrows = [], []
    for i, f in enumerate(fs):
        o = i / 65536
        rows.append([i + 1, mf.num(i + 1.), 100 * r["u"] + i, mf.num(0.), mf.num(m1 + o), mf.num(m2 + o), mf.num(p + o), mf.num(50.),
                     mf.num(mf.RATE[f]), mf.num(mf.RL1[f]), mf.num(mf.RL2[f])])
        h, he, ca = mf.C[0]
        hrows.append([i + 1, mf.num(i + 1.), 100 * r["u"] + i, mf.num(0.), mf.num(m1), mf.num(.7), mf.num(h), mf.num(he), mf.num(ca),
                      mf.num(4.), mf.num(1.), mf.num(4.), mf.num(2.), mf.num(1.), mf.num(.25)])
    mf.write(os.path.join(d, "binary_history.data"),
             {"version_number": 1, "initial_don_mass": m1, "initial_acc_mass": m2, "initial_period_days": p}, mf.BHC, rows, False)
    if r["h1"]:
        mf.write(os.path.join(d, "LOGS1", "history.data"), {"version_number": 1, "initial_m": m1, "initial_Z": .0142, "initial_Y": .26},
                 mf.HC, hrows, False)


def txt(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def look(g, runs, col):
    """one record per run of the grid"""
    out = []
    for k in range(len(g.MESA_dirs)):
        u = int(txt(g.MESA_dirs[k]).rsplit("_", 1)[1])
        r = runs[u]
        iv, fv, w = g.initial_values[k], g.final_values[k], g[k]
        why = []
        m1, m2, p = par(r["p"])
        if not all(abs(float(iv[n]) - x) < 1e-3 for n, x in (("star_1_mass", m1), ("star_2_mass", m2), ("period_days", p))):
            why.append("initial")
        if txt(w.final_values["termination_flag_1"]) != txt(fv["termination_flag_1"]) or float(w.initial_values["star_1_mass"]) != float(iv["star_1_mass"]):
            why.append("view")
        tabs = {n: w[n] for n in ("binary_history", "history1", "history2", "final_profile1", "final_profile2")}
        empty = all(x is None for x in tabs.values())
        if not empty:
            if tabs["binary_history"] is None or (tabs["history1"] is not None) != r["h1"] or tabs["history2"] is not None:
                why.append("tables")
            for n, t in tabs.items():
                if t is not None and any(int(x) // 100 != u for x in t["rowid"]):
                    why.append(n)
            if not (float(fv["rowid"]) == float(tabs["binary_history"]["rowid"][-1])):
                why.append("final")
        elif not np.isnan(float(fv["rowid"])):
            why.append("final")
        flag = FLAG.get(txt(fv["termination_flag_1"]), txt(fv["termination_flag_1"]))
        cls = txt(fv["interpolation_class"])
        if flag in ("overflow", "forced") and cls != "initial_MT":
            why.append("class")
        if flag == "noRLO" and cls != "ignored_no_RLO":
            why.append("class")
        if col and not float(fv["acol"]) == 100. * u:
            why.append("column")
        out.append(dict(u=u, p=r["p"], flag=flag, empty=empty, ok=",".join(why) or "ok"))
    return out


def tops(c, work, bnd):
    out = []
    for k, runs in enumerate(c["grids"]):
        top = os.path.join(work, "g%d" % k)
        os.makedirs(top)
        for r in runs:
            write_run(top, r)
        out.append((top, runs))
    return out


def one(tr, c, work, bnd):
    runs = {r["u"]: r for g in c["grids"] for r in g}
    b = [dict(u=1000 + j, p=100 + j, f="overflow", h1=j == 1) for j in range(1, c["nb"] + 1)]
    runs.update({r["u"]: r for r in b})
    t = tops(c, work, bnd)
    parts = [([top], rs) for top, rs in t]
    if b:
        if c["inb"]:
            parts[0] = ([bnd[c["nb"]]] + parts[0][0], b + parts[0][1])
        else:
            parts.append(([bnd[c["nb"]]], b))
    if c["wide"]:
        top = os.path.join(work, "wide")
        os.makedirs(top)
        wide = [dict(u=2000 + j, p=130 + j, f="overflow", h1=j == 1) for j in range(1, 4)]
        for r in wide:
            write_run(top, r)
        runs.update({r["u"]: r for r in wide})
        parts.insert(len(parts) if c["wide"] == 1 else 0, ([top], wide))
    if c["fold"]:
        parts = [([x for p in parts for x in p[0]], [r for p in parts for r in p[1]])]
    paths = []
    for k, (tp, rs) in enumerate(parts):
        path = os.path.join(work, "m%d.h5" % k)
        kw = dict(COLS, start_at_RLO=c["rlo"], initial_RLO_fix=c["fix"], He_core_fix=not (c["mix"] and k == 0), compression=None)
        g = PSyGrid()
        g.create(tp if len(tp) > 1 else tp[0], path, warn="suppress", **kw)
        if c["col"]:
            us = [int(txt(x).rsplit("_", 1)[1]) for x in g.MESA_dirs]
            if us:
                g.add_column("acol", np.array(us) * 100.)
        tr.ev("made", runs=rs, rows=look(g, runs, c["col"] and len(g)), n=len(g))
        g.close()
        paths.append((path, len(g)))
    if c["col"] and any(n == 0 for _, n in paths):
        return
    todo = list(range(1, len(paths) + 1))
    names = {k: p for k, (p, _) in enumerate(paths, 1)}
    steps = []
    if len(todo) > 1:
        if c["nest"]:
            acc = todo[0]
            for k in todo[1:]:
                steps.append([acc, k])
                acc = len(paths) + len(steps)
        else:
            steps.append(todo)
    path = paths[0][0]
    for s in steps:
        out = os.path.join(work, "j%d.h5" % len(names))
        refused = False
        try:
            join_grids([names[k] for k in s], out, compression="lzf", verbose=False)
        except ValueError:
            refused = True
        if refused:
            tr.ev("joined", refused=True, n=0, rows=[], **{"from": s})
            return
        g = PSyGrid(out, lazy=c["lazy"])
        tr.ev("joined", refused=False, n=len(g), rows=look(g, runs, c["col"]), **{"from": s})
        g.close()
        names[len(names) + 1] = path = out
    g = PSyGrid(path, lazy=c["lazy"])
    n = len(g)
    if n == 0:
        return
    for j, op in enumerate(c["ops"], 1):
        v, name, refused = 1000 * j, "colB" if op == "add2" else "colA", False
        try:
            if op in ("add", "over", "add2"):
                g.add_column(name, np.arange(1, n + 1) + float(v))
            elif op == "deny":
                g.add_column(name, np.arange(1, n + 1) + float(v), overwrite=False)
            elif op == "short":
                g.add_column(name, np.arange(n + 1.))
            elif op == "update":
                g.update_final_values()
            else:
                g.close()
                g = PSyGrid(path, lazy=op == "lazy")
        except Exception as e:             # noqa
            if type(e).__name__ not in ("ValueError", "POSYDONError"):
                raise
            refused = True
        tr.ev("op", op=op, col=name, v=v, refused=refused)
        cols = [dict(name=x, val=[int(y) if y == int(y) else -1 for y in g.final_values[x]]) for x in ("colA", "colB") if x in g.final_values.dtype.names]
        edges = (n - 1 in g) and not (n in g) and not (-1 in g)
        try:
            g[n]
            edges = False
        except IndexError:
            pass
        df = g.get_pandas_initial_final()
        edges = edges and len(df) == n and all(df["initial_star_1_mass"].values == np.array(g.initial_values["star_1_mass"]))
        tr.ev("read", rows=look(g, runs, c["col"]), cols=cols, n=len(g), iter=len([w for w in g if w is not None]), edges=bool(edges))
    g.close()


def main():
    out, scripts = sys.argv[1:3]
    tr = hc.Trace(out)
    home = tempfile.mkdtemp(suffix="_w", prefix="g02b_", dir=hc.WORK)
    bnd = {}
    for nb in (19, 20, 21):
        bnd[nb] = os.path.join(home, "b%d" % nb)
        os.makedirs(bnd[nb])
        for j in range(1, nb + 1):
            write_run(bnd[nb], dict(u=1000 + j, p=100 + j, f="overflow", h1=j == 1))
    for n, c in enumerate(json.load(open(scripts))):
        if not hc.mine(n):
            continue
        work = tempfile.mkdtemp(suffix="_w", prefix="g02_", dir=hc.WORK)
        tr.begin("j%d" % c["id"], c=c)
        with hc.quiet(), tr.guard():
            one(tr, c, work, bnd)
        shutil.rmtree(work, ignore_errors=True)
    shutil.rmtree(home, ignore_errors=True)
    tr.close()


main()
