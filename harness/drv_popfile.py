"""Q01, Q02: replays selections, exports, formation channels and transient
populations on real population files in a scratch directory.

Every value in the tables encodes the system and row it belongs to.
"""
import json
import os
import shutil
import sys
import tempfile

import hc
import numpy as np
import pandas as pd
from posydon.popsyn import synthetic_population as sp
from posydon.popsyn.binarypopulation import (
    HISTORY_MIN_ITEMSIZE,
    ONELINE_MIN_ITEMSIZE,
    saved_ini_parameters,
)

POOL = ["CC1", "CC2", "oRLO2", "redirect_from_ZAMS", "redirect_from_CO_HMS_RLO", "redirect_from_CO_HeMS",
        "redirect_from_CO_HeMS_RLO", "oCE1", "CO_contact", "maxtime", "", "", "END"]
CLS = ["stable_MT", "stable_reverse_MT", "no_MT", "unstable_MT", "initial_MT", ""]
MT = ["Stable contact phase", "Stable RLOF during MS", ""]
INI = {"metallicity": 1.0, "number_of_binaries": 7.0, "primary_mass_scheme": "Kroupa2001", "primary_mass_min": 6.5}


def none(x):
    return None if x == "" else x


def systems(r, n, mets, shape):
    out = []
    for k in range(1, n + 1):
        ev = ["ZAMS"] + [r.choice(POOL) for _ in range(r.randint(0, 4))]
        tr = [r.randint(1, 9) for _ in range(r.choice([0, 1, 2]))]
        if shape == "none":
            tr = []
        elif shape in ("first", "empty"):
            tr = [3] if k == 1 else []
        out.append(dict(ev=ev, cls=r.choice(CLS if k > 1 else CLS[:5]), mt=r.choice(MT if k > 1 else MT[:2]), met=[1000, 100][r.randint(0, mets - 1)], tr=tr))
    return out


def build(path, S, layout, mets, met, lens):
    h = [dict(ix=ix, time=1000. * k + row, event=none(e), S1_mass=k + row / 1000., state="detached")
         for k, ix in enumerate(layout, 1) for row, e in enumerate(S[k - 1]["ev"], 1)]
    o = [dict(ix=ix, S1_mass_i=10. + k, S2_mass_i=5., state_i="detached", orbital_period_i=3., eccentricity_i=0.,
              interp_class_HMS_HMS=none(S[k - 1]["cls"]), mt_history_HMS_HMS=none(S[k - 1]["mt"]),
              metallicity=S[k - 1]["met"] / 1000.)
         for k, ix in enumerate(layout, 1)]
    h, o = (pd.DataFrame(x).set_index("ix") for x in (h, o))
    if not met:
        o = o.drop(columns=["metallicity"])
    size = lambda d, t: {k: v for k, v in d.items() if k in t.columns}
    h.index.name = o.index.name = "binary_index"
    with pd.HDFStore(path, "w") as st:
        st.append("history", h, format="table", min_itemsize=size(HISTORY_MIN_ITEMSIZE, h))
        st.append("oneline", o, format="table", min_itemsize=size(ONELINE_MIN_ITEMSIZE, o))
        st.put("ini_parameters", pd.DataFrame({k: [v] for k, v in INI.items()}))
        m = [1.0, 0.1][:mets]
        st.put("mass_per_metallicity", pd.DataFrame(
            {"simulated_mass": [1000. * (i + 1) for i in range(mets)],
             "number_of_systems": [sum(s["met"] == round(1000 * x) for s in S) for x in m]}, index=m))


def mpm(df):
    return [dict(met=int(round(1000 * i)), mass=int(round(x.simulated_mass)), n=int(x.number_of_systems))
            for i, x in df.iterrows()]


def rows(df):
    if len(df) == 0:
        return []
    c = df.columns[0]
    v = df[c].to_numpy()
    one = c == "S1_mass_i"
    out = []
    for ix, x in zip(df.index, v):
        if one:
            k, row = int(round(x - 10.)), 0
        elif c == "time":
            k, row = divmod(int(round(x)), 1000)
        else:
            k, row = divmod(int(round(x * 1000)), 1000)
        out.append(dict(ix=int(ix), id=k, row=row))
    return out


def raw(tr, w, name):
    path = w.path[name]
    if not os.path.exists(path):
        return tr.ev("raw", file=name, ex=False)
    with pd.HDFStore(path, "r") as st:
        keys = st.keys()
        if "/oneline" not in keys or "/history" not in keys:
            return tr.ev("raw", file=name, ex=False)
        o, h = st["oneline"], st["history"]
        ln = st["history_lengths"] if "/history_lengths" in keys else None
        ch = st["formation_channels"] if "/formation_channels" in keys else None
        m, ini = st["mass_per_metallicity"], st["ini_parameters"]
    lens = [] if ln is None else [dict(ix=int(i), n=int(x)) for i, x in zip(ln.index, ln.iloc[:, 0])]
    chan = [] if ch is None else [dict(ix=int(i), c=str(x.channel), d=str(x.channel_debug)) for i, x in ch.iterrows()]
    met = [dict(ix=int(i), m=int(round(1000 * x))) for i, x in o["metallicity"].items()] if "metallicity" in o else []
    ok = all(k in ini and ini[k].iloc[0] == v for k, v in INI.items())
    p = w.pop.get(name)
    tr.ev("raw", file=name, ex=True, one=rows(o), hist=rows(h), len=lens, chan=chan, mpm=mpm(m), met=met, ini=bool(ok),
          mem=mpm(p.mass_per_metallicity) if p is not None else [])


class World:
    pass


def opened(w, name):
    if w.pop.get(name) is None:
        w.pop[name] = sp.Population(w.path[name], chunksize=w.chunk)
    return w.pop[name]


def attempt(fn):
    try:
        return "none", fn()
    except Exception as e:       # noqa
        return type(e).__name__, None


def get(tr, w, name, tab, key):
    p = opened(w, name)
    t = p.history if tab == "history" else p.oneline
    k = key["k"]
    col = "time" if tab == "history" else "S1_mass_i"
    if k == "slice":
        f = lambda: t[slice(none_neg(key["a"]), none_neg(key["b"]))]
        key = dict(key, a=max(key["a"], 0))
    elif k == "int":
        f = lambda: t[key["ix"][0]]
    elif k == "list":
        f = lambda: t[list(key["ix"])]
    elif k == "array":
        f = lambda: t[np.array(key["ix"], dtype=int)]
    elif k == "mask":
        f = lambda: t[np.array(key["m"], dtype=bool)]
    elif k == "dfmask":
        full = pd.read_hdf(w.path[name], tab)
        f = lambda: t[pd.DataFrame({col: key["m"]}, index=full.index)]
    elif k == "col":
        f = lambda: t[col]
    elif k == "cols":
        f = lambda: t[[col, "event" if tab == "history" else "state_i"]]
    elif k == "badcol":
        f = lambda: t["nothing"]
    else:
        f = lambda: getattr(t, k)(key["n"])
    err, df = attempt(f)
    tr.ev("get", file=name, tab=tab, key=key, err=err, rows=rows(df) if err == "none" else [])


def none_neg(x):
    return None if x < 0 else x


def gets(tr, w, name, S, r, n):
    full = {t: len(pd.read_hdf(w.path[name], t)) for t in ("history", "oneline")}
    for tab in ("history", "oneline"):
        N = full[tab]
        mask = [r.random() < .5 for _ in range(N)]
        some = sorted(r.sample(range(10), r.randint(1, 5)), key=lambda x: r.random())
        ks = {1: [dict(k="slice", a=a, b=b) for a, b in ((-1, 3), (0, r.randint(0, 9)), (r.randint(0, 4), -1), (2, 2), (r.randint(0, 4), r.randint(4, 9)))]
              + [dict(k="int", ix=[x]) for x in (0, r.randint(0, 9))],
              2: [dict(k="list", ix=some), dict(k="array", ix=some), dict(k="list", ix=list(range(40))), dict(k="array", ix=[])] + [dict(k="list", ix=[])],
              3: [dict(k="mask", m=mask), dict(k="dfmask", m=mask), dict(k="mask", m=[False] * N), dict(k="mask", m=[True] * N), dict(k="dfmask", m=[False] * N)],
              4: [dict(k="col"), dict(k="cols"), dict(k="badcol")] + [dict(k=h, n=x) for h in ("head", "tail") for x in (1, 2, 99)]}[n]
        for key in ks:
            get(tr, w, name, tab, key)


def transient(tr, w, name, S, op):
    p = opened(w, name)
    calls = []

    def func(h, o, c):
        ch = [] if c is None else [dict(ix=int(i), c=str(x.channel)) for i, x in c.iterrows()]
        calls.append(dict(h=rows(h[["time"]]), o=rows(o[["S1_mass_i"]]), c=ch))
        out = []
        for x in calls[-1]["o"]:
            if x["id"] < 1 or x["id"] > len(S):
                continue
            for j, t in enumerate(S[x["id"] - 1]["tr"], 1):
                out.append(dict(ix=x["ix"], time=1000. * x["id"] + j, metallicity=S[x["id"] - 1]["met"] / 1000.))
        if not out:
            return pd.DataFrame() if op["shape"] == "empty" else pd.DataFrame(columns=["time", "metallicity"])
        return pd.DataFrame(out).set_index("ix")
    kw = dict(hist_cols=["time", "event"], oneline_cols=["S1_mass_i", "metallicity"]) if op["cols"] else {}
    err, res = attempt(lambda: p.create_transient_population(func, "T", **kw))
    got = []
    if err == "none" and res is not None:
        err, t = attempt(lambda: res.population)
        got = rows(t[["time"]]) if err == "none" else []
    tr.ev("transient", file=name, calls=calls, err=err, ret=res is not None, rows=got)


def one(tr, tid, sc, base):
    r = hc.rng(tid)
    b = sc["b"]
    layout = b["l"]
    shape = [o["shape"] for o in sc["ops"] if o["op"] == "transient"]
    S = systems(r, len(layout), b["mets"], shape[-1] if shape else "any")
    w = World()
    w.dir = tempfile.mkdtemp(dir=base)
    w.path = {"A": os.path.join(w.dir, "a.h5"), "X": os.path.join(w.dir, "x.h5")}
    w.pop, w.chunk = {}, b["chunk"]
    try:
        build(w.path["A"], S, layout, b["mets"], b["met"], True)
        with pd.HDFStore(w.path["A"], "r") as st:
            m = mpm(st["mass_per_metallicity"])
        tr.begin(tid, sys=S, A=dict(sys=[dict(ix=ix, id=k) for k, ix in enumerate(layout, 1)], mpm=m, met=b["met"]))
        with tr.guard():
            cur = "A"
            opened(w, "A")
            raw(tr, w, "A")
            for op in sc["ops"]:
                o = op["op"]
                if o == "gets":
                    gets(tr, w, cur, S, r, op["n"])
                elif o == "use":
                    cur = "X"
                    if not os.path.exists(w.path["X"]):
                        return
                elif o == "channels":
                    err, _ = attempt(lambda: opened(w, cur).calculate_formation_channels(mt_history=op["mode"] == "mt"))
                    tr.ev("channels", file=cur, mode=op["mode"], err=err)
                    raw(tr, w, cur)
                elif o == "transient":
                    transient(tr, w, cur, S, op)
                    raw(tr, w, cur)
                else:
                    src, dst = ("A", "X") if o == "export" else ("X", "A")
                    if not os.path.exists(w.path[src]):
                        return
                    sel = op["sel"] if o == "export" else [int(i) for i in opened(w, "X").indices[::-1]]
                    if r.random() < .3:
                        arg = np.array(sel)
                    else:
                        arg = list(sel)
                    mode = op["mode"]
                    kw = dict(overwrite=mode in ("overwrite", "both"), append=mode in ("append", "both"))
                    err, _ = attempt(lambda: opened(w, src).export_selection(arg, w.path[dst], history_chunksize=op["hchunk"], **kw))
                    tr.ev("export", src=src, dst=dst, sel=sel, mode=mode, err=err)
                    raw(tr, w, src)
                    w.pop[dst] = None
                    raw(tr, w, dst)
            for f in ("A", "X"):
                if os.path.exists(w.path[f]):
                    gets(tr, w, f, S, r, r.randint(1, 3))
    finally:
        shutil.rmtree(w.dir, ignore_errors=True)


def main():
    out, path = sys.argv[1:3]
    scripts = json.load(open(path))
    tr = hc.Trace(out)
    base = tempfile.mkdtemp(dir=hc.WORK)
    with hc.quiet():
        for i, sc in enumerate(scripts):
            if hc.mine(i):
                one(tr, "pf-%d" % i, sc, base)
    shutil.rmtree(base, ignore_errors=True)
    tr.close()


main()
