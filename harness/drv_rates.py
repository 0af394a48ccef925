"""Q03: replays weighting, cosmic rates and observable populations on real
population files in a scratch directory.

Every expected number is worked out here for one event (one system) at a
time: densities of the initial conditions, ages and redshifts of the
cosmology, distances, volumes.  spec/Rates.tla decides what must hold.
"""
import functools
import json
import math
import os
import shutil
import sys
import tempfile

import hc
import numpy as np
import pandas as pd
from astropy import units as u
from astropy.cosmology import Planck15, z_at_value
from posydon.popsyn import synthetic_population as sp
from posydon.popsyn.binarypopulation import (
    HISTORY_MIN_ITEMSIZE,
    ONELINE_MIN_ITEMSIZE,
)
from posydon.popsyn.star_formation_history import SFR_per_met_at_z as SFR
from posydon.utils.constants import Zsun
from scipy.integrate import quad

AGE = Planck15.age(0.).value
DEFAULT = dict(number_of_binaries=1000000, binary_fraction_scheme="const", binary_fraction_const=0.7,
               star_formation="burst", max_simulation_time=13.8e9, primary_mass_scheme="Kroupa2001",
               primary_mass_min=0.01, primary_mass_max=200, secondary_mass_scheme="flat_mass_ratio",
               secondary_mass_min=0.0005, secondary_mass_max=200, orbital_scheme="period",
               orbital_period_scheme="Sana+12_period_extended", orbital_period_min=0.35, orbital_period_max=6e3,
               eccentricity_scheme="zero")
SIM = dict(DEFAULT, primary_mass_min=5., primary_mass_max=150., secondary_mass_min=.5, secondary_mass_max=150.,
           q_min=0.1, q_max=1.0)
PAR = {
    "same": dict(SIM),
    "salpeter": dict(SIM, primary_mass_scheme="Salpeter", primary_mass_min=1., primary_mass_max=100.),
    "singles": dict(SIM, binary_fraction_const=0.2, q_min=.05),
    "narrow": dict(SIM, q_min=.4, q_max=.95),
    "power": dict(SIM, orbital_period_scheme="power_law", power_law_slope=-.55, orbital_period_min=1., orbital_period_max=1e4,
                  primary_mass_min=.1),
}
MODELS = {
    "default": None,
    "mf17": dict(SFR="Madau+Fragos17", sigma=.5, delta_t=2000),
    "nei": dict(SFR="Neijssel+19", sigma="Neijssel+19", delta_t=3000),
    "md14": dict(SFR="Madau+Dickinson14", sigma="Bavera+20", delta_t=5000, normalise=False),
}
MODELS["mf17list"] = dict(MODELS["mf17"], dlogZ=[np.log10(0.0142 / 2), np.log10(0.0142 * 2)])
MODELS["mf17float"] = dict(MODELS["mf17"], dlogZ=.5, normalise=False)
DELAYS = [5, 300, 3100, 9000, 13500]
POOLCH = ["ZAMS_CC1_END", "ZAMS_oCE1_CC1_CC2_END", "ZAMS_CC1_CC2_END"]


# -- densities of the initial conditions, independent of the code's --------
def imf(p):
    lo, hi = p["primary_mass_min"], p["primary_mass_max"]
    if p["primary_mass_scheme"] == "Salpeter":
        f = lambda m: m ** -2.35
        cuts = [lo, hi]
    else:
        def f(m):
            if m >= .5:
                return m ** -2.3
            if m >= .08:
                return m ** -1.3 / .5
            return m ** -.3 / .5 / .08
        cuts = [lo] + [c for c in (.08, .5) if lo < c < hi] + [hi]
    tot = sum(quad(f, a, b, epsabs=0)[0] for a, b in zip(cuts, cuts[1:]))
    mean = sum(quad(lambda m: m * f(m), a, b, epsabs=0)[0] for a, b in zip(cuts, cuts[1:])) / tot
    return (lambda m: f(m) / tot if lo <= m <= hi else 0.), mean


def perpdf(p):
    a, b = np.log10(p["orbital_period_min"]), np.log10(p["orbital_period_max"])
    if p["orbital_period_scheme"] == "power_law":
        s = p["power_law_slope"] * math.log(10)
        n = (math.exp(s * b) - math.exp(s * a)) / s
        return lambda P, m: math.exp(s * math.log10(P)) / n if a <= math.log10(P) <= b else 0.

    def f(P, m):
        x = math.log10(P)
        if not a <= x <= b:
            return 0.
        if m <= 15:
            return 1 / (b - a)
        n = .15 ** -.55 * (.15 - a) + (b ** .45 - .15 ** .45) / .45
        return max(x, .15) ** -.55 / n
    return f


@functools.lru_cache(None)
def dens(name):
    p = SIM if name == "sim" else PAR[name]
    f, mean = imf(p)
    P = perpdf(p)
    fb = p["binary_fraction_const"]
    q0, q1 = p["q_min"], p["q_max"]
    mm = mean * (1 + fb * (q0 + q1) / 2)

    def pdf(m1, q, per, single):
        if single:
            return (1 - fb) * f(m1)
        return fb * f(m1) * (1 / (q1 - q0) if q0 < q <= q1 else 0.) * P(per, m1)
    return pdf, mm


def own_weight(s, par, mass):
    """Expected number of this system per solar mass formed."""
    a, ma = dens("sim")
    b, mb = dens(par)
    m1, m2 = max(s["m1"], s["m2"]), min(s["m1"], s["m2"])
    x = (m1, m2 / m1, s["P"], s["single"])
    return b(*x) / a(*x) * ma / mb / mass if a(*x) > 0 else 0.


# -- cosmology ---------------------------------------------------------------
@functools.lru_cache(None)
def z_of(t):
    return float(z_at_value(Planck15.age, t * u.Gyr).value)


@functools.lru_cache(None)
def dist(z):
    return float(Planck15.comoving_distance(z).value)


def births(dt):
    n = int(AGE * 1000 / dt) + 1
    return [AGE - (k + .5) * dt / 1000. for k in range(n)]


@functools.lru_cache(None)
def edges(dt):
    n = int(AGE * 1000 / dt)
    return [0.] + [z_of(round(AGE - (k + 1) * dt / 1000., 9)) for k in range(n)] + [100.]


@functools.lru_cache(None)
def shell(a, b):
    g = lambda z: Planck15.differential_comoving_volume(z).value * 4 * math.pi / (1 + z) / 1e9
    return quad(g, a, b, limit=200, epsrel=1e-6)[0]


def met_edges(mets, model):
    c = sorted(math.log10(m * Zsun) for m in mets)
    if len(c) > 1:
        mid = [(a + b) / 2 for a, b in zip(c, c[1:])]
        e = [c[0] - (mid[0] - c[0])] + mid + [c[-1] + (c[-1] - mid[-1])]
    else:
        d = model.get("dlogZ")
        e = [-9., 0.] if d is None else ([c[0] - d / 2, c[0] + d / 2] if isinstance(d, float) else [min(d), max(d)])
    return np.array([10 ** x for x in e])


FULL = dict(delta_t=100, SFR="IllustrisTNG", sigma_SFR=None, Z_max=None, Z_min=None, normalise=True, dlogZ=None, Zsun=Zsun)


def standin(z, bins, model):
    """The IllustrisTNG tables are not installed: any other history serves."""
    if model["SFR"] == "IllustrisTNG":
        model = dict(model, SFR="Madau+Fragos17", sigma=.7)
    return SFR(z, bins, model)


sp.SFR_per_met_at_z = standin
for _n in ("redshift_from_cosmic_time_interpolator", "get_redshift_bin_edges", "get_redshift_bin_centers"):
    setattr(sp, _n, functools.lru_cache(None)(getattr(sp, _n)))


def ppm(a, b):
    if a is None or a != a:
        return 2 * 10 ** 9
    if b == 0:
        return 0 if a == 0 else 2 * 10 ** 9
    return int(min(2e9, abs(a / b - 1) * 1e6))


MEAN = {}


def once(mod, name):
    """Run the (slow) integrals of the code under test once per parameters."""
    real = getattr(mod, name)

    def f(params, *a, **k):
        key = json.dumps([params, a, k], sort_keys=True, default=str)
        if key not in MEAN:
            MEAN[key] = real(params, *a, **k)
        return MEAN[key]
    setattr(mod, name, f)


import posydon.popsyn.norm_pop as norm_pop      # noqa: E402

if hasattr(norm_pop, "get_mean_mass"):
    once(norm_pop, "get_mean_mass")


class World:
    pass


def build(w):
    S, mets = w.S, w.mets
    h = [dict(ix=s["ix"], time=row * 1e6, event=e, S1_mass=5., state="detached")
         for s in S for row, e in enumerate(["ZAMS", "CC1", "END"])]
    o = [dict(ix=s["ix"], S1_mass_i=s["m1"], S2_mass_i=s["m2"], orbital_period_i=s["P"], eccentricity_i=0.,
              state_i="initially_single_star" if s["single"] else "detached", metallicity=s["met"] / 10000., id=float(s["id"]))
         for s in S]
    h, o = (pd.DataFrame(x).set_index("ix") for x in (h, o))
    h.index.name = o.index.name = "binary_index"
    size = lambda d, t: {k: v for k, v in d.items() if k in t.columns}
    with pd.HDFStore(w.path, "w") as st:
        st.append("history", h, format="table", min_itemsize=size(HISTORY_MIN_ITEMSIZE, h))
        st.append("oneline", o, format="table", min_itemsize=size(ONELINE_MIN_ITEMSIZE, o))
        st.put("ini_parameters", pd.DataFrame({k: [v] for k, v in SIM.items()}))
        st.put("mass_per_metallicity", pd.DataFrame(
            {"simulated_mass": [w.mass[m] for m in mets], "number_of_systems": [1 for _ in mets]}, index=[m / 10000. for m in mets]))
    p = sp.Population(w.path)
    p.ini_params = dict(SIM)
    w.pop = p


def make(w, half):
    """(Re)create the transient population; `half`: only the first events."""
    rows = [e for e in w.all if not half or e["j"] == 1]
    w.evs = rows

    def func(h, o, c):
        return pd.DataFrame(dict(time=[float(e["delay"]) for e in rows], metallicity=[e["met"] / 10000. for e in rows],
                                 channel=[e["ch"] for e in rows], S1_mass=[e["id"] + e["j"] / 1000. for e in rows]),
                            index=[e["ix"] for e in rows])
    w.pop.create_transient_population(func, "T")
    w.t = sp.TransientPopulation(w.path, "T", chunksize=w.chunk)
    w.t.ini_params = dict(SIM)


def attempt(fn):
    try:
        return "none", fn()
    except Exception as e:       # noqa
        return type(e).__name__, None


def keys(tr, w):
    with pd.HDFStore(w.path, "r") as st:
        ks = [k[len("/transients/T"):] for k in st.keys() if k.startswith("/transients/T/")]
    tr.ev("keys", keys=sorted(ks))


def same_dict(a, b):
    if set(a) != set(b):
        return False
    for k, v in b.items():
        x = a[k]
        if isinstance(v, list):
            if not np.allclose(x, v):
                return False
        elif v is None:
            if not (x is None or x != x):
                return False
        elif x != v:
            return False
    return True


def weights_rows(w, df, par):
    v = df.to_numpy().flatten()
    out = []
    for k, (ix, x) in enumerate(zip(df.index, v)):
        e = w.evs[k] if k < len(w.evs) else None
        d = ppm(float(x), own_weight(w.S[e["id"] - 1], par, w.mass[e["met"]])) if e else 0
        same = ppm(float(x) * w.mass[e["met"]], 1.) if e else 0
        out.append(dict(ix=int(ix), d=d, inv=same))
    return out


def do_weights(tr, w, op):
    err, df = attempt(lambda: w.t.calculate_model_weights(op["id"], population_parameters=dict(PAR[op["par"]])))
    rec = dict(id=op["id"], par=op["par"], err=err, rows=[], back=[], params=False)
    if err == "none":
        rec["rows"] = weights_rows(w, df, op["par"])
        w.par[op["id"]] = op["par"]
        back = w.t.model_weights(op["id"])
        rec["back"] = weights_rows(w, back, op["par"])
        got = w.t.model_weight_parameters(op["id"])
        rec["params"] = same_dict(got, PAR[op["par"]])
    tr.ev("weights", **rec)


def do_eff(tr, w, op):
    err, df = attempt(lambda: w.t.efficiency(op["id"], channels=op["ch"]))
    rec = dict(id=op["id"], ch=op["ch"], err=err, w=[], tot=[], chs=[])
    if err == "none":
        own = [own_weight(w.S[e["id"] - 1], w.par[op["id"]], w.mass[e["met"]]) for e in w.evs]
        sc = 1e6 / max(own)
        rec["w"] = [int(round(x * sc)) for x in own]
        i = lambda x: int(round(min(float(x) * sc, 1e9)))
        rec["tot"] = [dict(met=int(round(m * 10000)), w=i(df.loc[m, "total"])) for m in df.index]
        rec["chs"] = [dict(met=int(round(m * 10000)), c=c, w=i(df.loc[m, c])) for m in df.index for c in df.columns if c != "total"]
    tr.ev("eff", **rec)


def open_rates(w, sfh):
    return sp.Rates(w.path, "T", sfh, chunksize=w.chunk)


def do_cosmic(tr, w, op):
    M = MODELS[op["model"]]
    err, r = attempt(lambda: w.t.calculate_cosmic_weights(op["sfh"], op["id"], **({} if M is None else dict(MODEL_in=dict(M)))))
    rec = dict(sfh=op["sfh"], id=op["id"], model=op["model"], err=err)
    if err == "none":
        full = dict(FULL, **(M or {}))
        rec["modelok"] = same_dict(dict(open_rates(w, op["sfh"]).MODEL), full)
        r = open_rates(w, op["sfh"])
        z, ws, bt = r.z_events, r.weights, r.z_birth
        tb = births(full["delta_t"])
        zb = [z_of(round(t, 9)) for t in tb]
        rec["nb"] = len(tb)
        rec["birth"] = len(bt) == len(tb) and all(
            ppm(a, b) < 100 and abs(c - d) < 1e-4 for a, b, c, d in zip(bt["z"], zb, bt["t"], tb))
        rec["tb"] = [int(t * 1e6) for t in tb]
        me = met_edges([m / 10000. for m in w.mets], full)
        sfr = standin(np.array(bt["z"]) if rec["birth"] else np.array(zb), me, full)
        mets = sorted(w.mets)
        c = 299792.458 / 3.0856775814913673e19 * 3.15576e7        # Mpc / yr
        rows = []
        for k in range(len(ws)):
            row = dict(ix=int(ws.index[k]), zix=int(z.index[k]), z=[], zx=[], fit=[])
            e = w.evs[k] if k < len(w.evs) else None
            if e is not None:
                ow = own_weight(w.S[e["id"] - 1], w.par[op["id"]], w.mass[e["met"]])
                for b in range(len(tb)):
                    zz = float(z.iloc[k, b])
                    t = tb[b] + e["delay"] / 1000.
                    row["z"].append(-1 if zz != zz else int(round(zz * 1e5)))
                    row["zx"].append(int(round(z_of(round(t, 9)) * 1e5)) if t < AGE - 1e-5 else -1)
                    x = float(ws.iloc[k, b])
                    fit = []
                    if t < AGE - 1e-5:
                        D = dist(round(z_of(round(t, 9)), 9))
                        for j, m in enumerate(mets):
                            unit = 4 * math.pi * c * D * D * full["delta_t"] * 1e6 * ow
                            if sfr[b, j] != sfr[b, j]:     # no star formation to normalise
                                if x != x or x == 0:
                                    fit.append(m)
                                continue
                            # far tails of a distribution are differences of numbers close to one
                            if abs(x - unit * sfr[b, j]) <= unit * (3e-3 * sfr[b, j] + 1e-9 * sfr[b].sum()):
                                fit.append(m)
                    else:
                        fit = [0] if (x != x or x == 0) else []
                    row["fit"].append(fit)
            rows.append(row)
        rec["rows"] = rows
        w.dt[op["sfh"]] = full["delta_t"]
    tr.ev("cosmic", **rec)


def do_density(tr, w, op):
    sfh = op["sfh"]
    err, r = attempt(lambda: open_rates(w, sfh))
    rec = dict(sfh=sfh, ch=op["ch"], err=err, before="none")
    if err == "none":
        rec["before"] = attempt(lambda: r.intrinsic_rate_density)[0]
        if op["op"] == "density":
            err, df = attempt(lambda: r.calculate_intrinsic_rate_density(channels=op["ch"]))
            rec["err"] = err
            if err == "none":
                z, ws = r.z_events.to_numpy(), r.weights.to_numpy()
                back = r.intrinsic_rate_density
                E = edges(w.dt[sfh])
                sc = 1e6 / (np.nanmax(ws) if np.nanmax(ws) > 0 else 1.)
                i = lambda x: int(round(min(float(x) * sc, 1e9)))
                rec.update(n=len(df), edges=[int(round(x * 1e5)) for x in E],
                           z=[[-1 if x != x else int(round(x * 1e5)) for x in row] for row in z],
                           w=[[-1 if x != x else i(x) for x in row] for row in ws],
                           tot=[i(df["total"].iloc[k] * shell(E[k], E[k + 1])) for k in range(min(len(df), len(E) - 1))],
                           chs=[dict(c=c, v=[i(df[c].iloc[k] * shell(E[k], E[k + 1])) for k in range(min(len(df), len(E) - 1))])
                                for c in df.columns if c != "total"],
                           back=bool(back.equals(df)), zi=bool(np.allclose(df.index, E[:-1], rtol=1e-4, atol=1e-6)))
    tr.ev(op["op"], **rec)


def do_observe(tr, w, op):
    sfh = op["sfh"]
    err, r = attempt(lambda: open_rates(w, sfh))
    rec = dict(sfh=sfh, obs=op["name"], err=err, calls=[], rows=[], names=[])
    if err == "none":
        calls = rec["calls"]

        def func(t, z, ws):
            calls.append(dict(t=[int(round(x * 1000)) for x in t["S1_mass"]], z=[int(i) for i in z.index], w=[int(i) for i in ws.index]))
            return ws.mul(op["f"] / 100. * (1 + t["S1_mass"].to_numpy())[:len(ws)], axis=0)
        err, _ = attempt(lambda: r.calculate_observable_population(func, op["name"]))
        rec["err"] = err
        if err == "none":
            ob, ws = r.observable_population(op["name"]), r.weights
            for k in range(len(ob)):
                e = w.evs[k] if k < len(w.evs) and k < len(ws) else None
                d = 0
                if e is not None:
                    f = op["f"] / 100. * (1 + e["id"] + e["j"] / 1000.)
                    a, b = ob.iloc[k].to_numpy(), ws.iloc[k].to_numpy() * f
                    d = 0 if len(a) == len(b) and np.allclose(a, b, rtol=1e-9, equal_nan=True) else 1
                rec["rows"].append(dict(ix=int(ob.index[k]), d=d))
            rec["names"] = sorted(r.observable_population_names)
    tr.ev("observe", **rec)


def one(tr, tid, sc, base):
    r = hc.rng(tid)
    w = World()
    w.mets = list(sc["mets"])
    w.mass = {m: 1000. * (i + 1) for i, m in enumerate(w.mets)}
    w.chunk = r.choice([1, 2, 3, 100])
    layout = r.choice([[0, 1, 2, 3], [2, 3, 0, 1], [3, 1, 2], [5], [0, 1, 2, 3, 4], [7, 4, 1]])
    w.S, w.all, w.par, w.dt = [], [], {}, {}
    for k, ix in enumerate(layout, 1):
        single = r.random() < .2
        m1 = round(10 ** r.uniform(.75, 1.9), 3)
        m2 = 0. if single else round(m1 * r.uniform(.12, .99), 3)
        if not single and r.random() < .25:
            m1, m2 = m2, m1
        s = dict(id=k, ix=ix, met=r.choice(w.mets), m1=m1, m2=m2, P=round(10 ** r.uniform(.05, 3.5), 4), single=single)
        w.S.append(s)
        for j in range(1, r.choice([0, 1, 1, 2]) + 1):
            w.all.append(dict(id=k, ix=ix, j=j, delay=r.choice(DELAYS), met=s["met"], ch=r.choice(POOLCH)))
    if not w.all:
        w.all.append(dict(id=1, ix=w.S[0]["ix"], j=1, delay=300, met=w.S[0]["met"], ch=POOLCH[0]))
    w.dir = tempfile.mkdtemp(dir=base)
    w.path = os.path.join(w.dir, "p.h5")
    try:
        build(w)
        tr.begin(tid, mets=w.mets, evs=w.all, age=int(AGE * 1e6))
        with tr.guard():
            make(w, False)
            for op in sc["ops"]:
                o = op["op"]
                if o == "weights":
                    do_weights(tr, w, op)
                elif o == "eff":
                    do_eff(tr, w, op)
                elif o == "cosmic":
                    do_cosmic(tr, w, op)
                elif o in ("density", "readdensity"):
                    do_density(tr, w, op)
                elif o == "observe":
                    do_observe(tr, w, op)
                else:
                    make(w, op["half"])
                    tr.ev("recreate", half=op["half"], rows=[dict(ix=int(i), s=int(round(x * 1000)))
                                                             for i, x in w.t.population["S1_mass"].items()])
                keys(tr, w)
    finally:
        shutil.rmtree(w.dir, ignore_errors=True)


def main():
    out, path = sys.argv[1:3]
    scripts = json.load(open(path))
    tr = hc.Trace(out)
    base = tempfile.mkdtemp(dir=hc.WORK)
    with hc.quiet():
        for i, sc in enumerate(scripts):
            if hc.mine(i):
                one(tr, "ra-%d" % i, sc, base)
    shutil.rmtree(base, ignore_errors=True)
    tr.close()


main()
