"""S02: replays common-envelope cases (TLC-generated) into the real step.

The energy budget is worked out here from the conservation law alone, for
every admissible reading of the options; spec/CE.tla chooses the reading.
"""
import json
import math
import random
import sys

import hc
import numpy as np
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.CE.step_CEE import StepCEE
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar

G, MS, RS, DAY = 6.67430e-8, 1.98841e33, 6.957e10, 86400.0
TOLR = 0.001

BURN = {
    "Core_H_burning": dict(center_h1=.4, center_he4=.58, center_c12=0., log_LH=4., log_LHe=-99., log_Lnuc=4.),
    "Shell_H_burning": dict(center_h1=0., center_he4=.98, center_c12=0., log_LH=4.5, log_LHe=-5., log_Lnuc=4.5),
    "Core_He_burning": dict(center_h1=0., center_he4=.5, center_c12=.3, log_LH=4., log_LHe=4.4, log_Lnuc=4.55),
    "Core_He_depleted": dict(center_h1=0., center_he4=0., center_c12=.3, log_LH=4., log_LHe=4.4, log_Lnuc=4.9),
    "Core_C_depleted": dict(center_h1=0., center_he4=0., center_c12=0., log_LH=3., log_LHe=3.4, log_Lnuc=6.),
    "non_burning": dict(center_h1=0., center_he4=.9, center_c12=.02, log_LH=-99., log_LHe=-99., log_Lnuc=-50.),
}
KEEP = ["center_h1", "center_he4", "center_c12", "center_o16", "center_n14", "metallicity", "log_LZ", "log_Lnuc",
        "c12_c12", "center_gamma", "avg_c_in_c_core"]
SETS = ["mass", "log_R", "state", "surface_h1", "surface_he4", "log_LH", "log_LHe", "he_core_mass",
        "he_core_radius", "co_core_mass", "co_core_radius"]


def i3(x):
    if x is None:
        return -2
    try:
        return -1 if x != x else int(round(float(x) * 1000))
    except Exception:
        return -3


def i4(x):
    if x is None:
        return -2
    return -1 if x != x else int(round(x * 10000))


def q(x):
    return round(x, 3)


def draw_star(state, r, scale):
    """Numbers of one star (Msun, Rsun), rounded to what the spec can see."""
    if state in ("WD", "NS", "BH"):
        m = {"WD": r.uniform(.3, 1.3), "NS": r.uniform(1.2, 2.2), "BH": r.uniform(4, 30)}[state]
        return dict(state=state, m=q(m), r={"WD": .01, "NS": 1e-5, "BH": 4e-5}[state])
    he = "stripped_He" in state
    m = r.uniform(2., 12.) if he else r.uniform(2., 40.)
    giant = not state.endswith("Core_H_burning") and state != "stripped_He_Core_He_burning"
    R = 10 ** (r.uniform(.3, 1.8) if he else r.uniform(1.5, 3.1)) if giant else (m ** .7 if not he else .2 * m ** .7)
    R *= scale
    d = dict(state=state, m=q(m), r=max(.05, q(R)))
    hec = q(m * (r.uniform(.95, 1.) if he else r.uniform(.2, .5)))
    if state.endswith("Core_H_burning"):
        hec = 0.
    coc = 0. if not ("depleted" in state or "non_burning" in state or he) else q(hec * r.uniform(.5, .8))
    rad = lambda x: max(.005, q(.15 * max(x, .01) ** .6 * 10 ** r.uniform(-.2, .4)))
    d.update(he=hec, rhe=rad(hec), co=coc, rco=min(rad(coc) * .3, .9) if coc else 0.01)
    d["rco"] = max(.003, q(d["rco"]))
    # cores at 1, 10, 30 per cent of hydrogen and at 10 per cent of helium;
    # sometimes smaller than the core the stellar model reports
    lo = -.06 if r.random() < .15 else 0.
    x = hec
    for n, f in (("1", .02), ("10", .05), ("30", .12)):
        x = min(d["m"] - .05, x + (m - hec) * r.uniform(0.1 * f, f)) if not he else x
        d["m" + n] = q(max(.05, x * (1 + lo)))
        d["r" + n] = q(rad(x) * (1 + 4 * f))
    d["mp"] = q(max(.05, (coc or hec * .5) * (1 + (r.uniform(0, .3) if lo == 0 else lo))))
    d["mp"] = min(d["mp"], d["m"])
    d["rp"] = q(d["rco"] * r.uniform(1., 3.))
    d["lam"] = {k: round(10 ** r.uniform(-1.3, .3), 4) for k in ("0.01", "0.1", "0.3", "He")}
    if r.random() < .04:
        d["lam"] = {k: math.nan for k in d["lam"]}
    return d


def build(d, profile=None):
    s = d["state"]
    if s in ("WD", "NS", "BH"):
        kw = dict(center_h1=0., center_he4=0., center_c12=.5, surface_h1=0.) if s == "WD" else {}
        return SingleStar(state=s, mass=d["m"], log_R=math.log10(d["r"]), metallicity=d.get("met", 1.), **kw)
    kind = next(k for k in BURN if s.endswith(k))
    h = .7 if s.startswith("H-rich") else 0.
    if s == "accreted_He_Core_H_burning":
        h = 0.005
    kw = dict(BURN[kind])
    if s == "accreted_He_non_burning":
        kw.update(center_h1=.009, log_Lnuc=-50.)
        h = .001
    kw.update(state=s, mass=d["m"], log_R=math.log10(d["r"]), he_core_mass=d["he"], he_core_radius=d["rhe"],
              co_core_mass=d["co"], co_core_radius=d["rco"], surface_h1=h, surface_he4=.28, metallicity=d.get("met", 1.),
              lambda_CE_1cent=d["lam"]["0.01"], lambda_CE_10cent=d["lam"]["0.1"], lambda_CE_30cent=d["lam"]["0.3"],
              lambda_CE_pure_He_star_10cent=d["lam"]["He"],
              m_core_CE_1cent=d["m1"], m_core_CE_10cent=d["m10"], m_core_CE_30cent=d["m30"],
              m_core_CE_pure_He_star_10cent=d["mp"], r_core_CE_1cent=d["r1"], r_core_CE_10cent=d["r10"],
              r_core_CE_30cent=d["r30"], r_core_CE_pure_He_star_10cent=d["rp"],
              center_n14=.01, center_o16=.1, log_LZ=1., c12_c12=-9., center_gamma=1., avg_c_in_c_core=.2,
              log_L=5., lg_mdot=-4., lg_wind_mdot=-5., lg_system_mdot=-4.5, spin=.1, conv_env_top_mass=d["m"],
              conv_env_bot_mass=d["he"], log_total_angular_momentum=50., total_moment_of_inertia=1e56,
              surf_avg_omega_div_omega_crit=.3, surf_avg_omega=1e-6)
    st = SingleStar(**kw)
    if profile:
        n = 400
        mass = np.linspace(d["m"], d["m"] * 1e-3, n)
        radius = d["r"] * np.linspace(1., .02, n) ** 2
        p = np.zeros(n, dtype=[("mass", "f8"), ("radius", "f8")])
        p["mass"], p["radius"] = mass, radius
        st.profile = p
    return st


def sep_of(P, m):
    return (G * m * MS * (P * DAY) ** 2 / (4 * math.pi ** 2)) ** (1 / 3.) / RS


def per_of(a, m):
    return 2 * math.pi * math.sqrt((a * RS) ** 3 / (G * m * MS)) / DAY


def eggleton(m1, m2, a):
    x = (m1 / m2) ** (1 / 3.)
    return a * .49 * x * x / (.6 * x * x + math.log(1 + x))


def fills(m1, r1, m2, r2, a):
    """+1 somebody overfills, -1 nobody, 0 too close to call."""
    out = -1
    for m, r, n in ((m1, r1, m2), (m2, r2, m1)):
        rl = eggleton(m, n, a)
        x = r - rl - TOLR
        if abs(x) < 1e-3 * max(rl, r) + 1e-6:
            if out < 0:
                out = 0
        elif x > 0:
            out = 1
    return out


def lam_core(d, ctype, ldef, default):
    if ctype == "whole":
        return math.nan, d["m"], d["r"], d["m"], d["r"]
    fin = (d["he"], d["rhe"]) if ctype == "He_core" else (d["co"], d["rco"])
    if ldef == "default":
        lam, m, r = default, fin[0], fin[1]
    elif ctype == "CO_core":
        lam, m, r = d["lam"]["He"], d["mp"], d["rp"]
    else:
        n = {"0.01": "1", "0.1": "10", "0.3": "30"}[ldef]
        lam, m, r = d["lam"][ldef], d["m" + n], d["r" + n]
    return lam, m, r, min(fin[0], m), fin[1]


def budget(case, dd, dc, key, a0):
    """Energy conservation, then the phase after the ejection."""
    ldef, t1, t2, after = key
    l1, m1, r1, f1, fr1 = lam_core(dd, t1, ldef, case.lam0)
    l2, m2, r2, f2, fr2 = lam_core(dc, t2, ldef, case.lam0)
    if min(m1, m2) <= 0:
        return dict(fate="merges", matched=-1, a=1e-30)
    if min(f1, f2) <= 0:
        return None
    bind = 0.
    if l1 == l1:
        bind += dd["m"] * (dd["m"] - m1) / (l1 * dd["r"])
    if l2 == l2:
        bind += dc["m"] * (dc["m"] - m2) / (l2 * dc["r"])
    e = dd["m"] * dc["m"] / (2 * a0) + bind / case.alpha
    if e <= 0:
        return None
    a1 = m1 * m2 / (2 * e)
    matched = 0
    if t2 == "whole" and dc["state"] not in ("WD", "NS", "BH"):
        x1 = r1 - eggleton(m1, m2, a1) - TOLR
        x2 = r2 - eggleton(m2, m1, a1) - TOLR
        if min(abs(x1) / r1, abs(x2) / r2) < 2e-3:
            return dict(fate="edge", matched=-1, a=a1)
        if x1 < 0 < x2:
            matched = 1
            r2 = fr2 = case.match_r
    if after == "one_phase_variable_core_definition":
        f = fills(m1, r1, m2, r2, a1)
        return dict(fate={1: "merges", -1: "survives", 0: "edge"}[f], matched=matched, a=a1)
    f = fills(m1, fr1, m2, fr2, a1)
    if f >= 0:
        return dict(fate={1: "merges", 0: "edge"}[f], matched=matched, a=a1)
    if after == "two_phases_stableMT":
        a2 = a1 * (m1 / f1) ** 2 * (m1 + m2) / (f1 + f2) * math.exp(-2 * (m1 - f1) / m2)
    else:
        a2 = a1 * (m1 + m2) / (f1 + f2)
    f = fills(f1, fr1, f2, fr2, a2)
    return dict(fate={1: "merges", -1: "survives", 0: "edge"}[f], matched=matched, a=a2)


class Matcher:
    """Stand-in for the track matcher: the companion's undisturbed radius."""

    def __init__(self, case):
        self.case, self.n = case, 0

    def do_matching(self, binary, step_name="step", match_primary=True, match_secondary=True):
        self.n += 1
        r = self.case.match_r
        for s in (binary.star_1, binary.star_2):
            s.interp1d = lambda t: dict(R=r)
        return binary.star_1, binary.star_2, False


class Case:
    def __init__(self, sc, tid):
        r = random.Random("%s/%s/%s" % (hc.SEED, tid, sc["what"]))
        self.sc, self.r = sc, r
        self.lam0 = round(10 ** r.uniform(-1, .3), 3)
        self.alpha = round(10 ** r.uniform(-.7, .7), 3)
        k = 1 if sc["event"].endswith("1") else 2
        self.k = k
        d = draw_star(sc["d"], r, 1.)
        o = draw_star(sc["o"], r, 1. if sc["what"] == "double" else r.choice([1., 1., 3., 10.]))
        self.st = {k: d, 3 - k: o}
        # around the time the donor fills its Roche lobe
        a = d["r"] / eggleton(d["m"], o["m"], 1.) * 10 ** r.uniform(-.1, .3)
        if r.random() < .35:
            a *= 10 ** r.uniform(.2, 1.8)      # more energy in the orbit: more survivors
        self.a0 = a
        self.match_r = round(o["r"] * r.choice([.1, .3, .9, 2.]), 4)
        for i, s in self.st.items():     # the two stars need not be born alike
            s["met"] = [1., .1, .45, 2., .0001][(len(sc["event"]) + int(1000 * s["m"]) + i) % 5]
        prof = sc["loss"] and sc["lam"] != "lambda_from_profile_gravitational" and r.random() < .7
        self.prof = {k: prof, 3 - k: prof and (sc["what"] == "double") and r.random() < .8}
        self.c = dict(lam=sc["lam"], frac=sc["frac"], hefrac="0.1", after=sc["after"], hg=sc["hg"], loss=sc["loss"],
                      presc="alpha-lambda", prof=bool(self.prof[k]), prof2=bool(self.prof[3 - k]))
        if sc["what"] == "odd":
            if r.random() < .2:
                self.c["presc"] = "beta"
            if r.random() < .2:
                self.c["hefrac"] = "0.2"

    def step(self):
        c = self.c
        m = Matcher(self)
        s = StepCEE(prescription=c["presc"], common_envelope_efficiency=self.alpha,
                    common_envelope_lambda_default=self.lam0, common_envelope_option_for_lambda=c["lam"],
                    common_envelope_option_for_HG_star=c["hg"], core_definition_H_fraction=float(c["frac"]),
                    core_definition_He_fraction=float(c["hefrac"]), CEE_tolerance_err=TOLR,
                    common_envelope_option_after_succ_CEE=c["after"], mass_loss_during_CEE_merged=c["loss"],
                    track_matcher=m)
        return s, m

    def binary(self, mirror=False):
        a, b = (build(self.st[j], self.prof[j]) for j in (1, 2))
        ev = self.sc["event"]
        if mirror:
            a, b = b, a
            ev = ev[:-1] + str(3 - int(ev[-1]))
        pa, pb = a.profile, b.profile
        P = per_of(self.a0, a.mass + b.mass)
        bn = BinaryStar(star_1=a, star_2=b, state="contact" if "Double" in ev else "RLO%s" % ev[-1],
                        event=None if ev == "None" else ev, separation=self.a0, orbital_period=P,
                        eccentricity=0., time=3e6, V_sys=[1., 2., 3.], mass_transfer_case="case_B",
                        nearest_neighbour_distance=["None", .1, .2], rl_relative_overflow_1=.1, rl_relative_overflow_2=-.4,
                        lg_mtransfer_rate=-2., trap_radius=1., acc_radius=2., t_sync_rad_1=1., t_sync_conv_1=1.,
                        t_sync_rad_2=1., t_sync_conv_2=1., nearest_neighbour_ok=1)
        bn.star_1.profile, bn.star_2.profile = pa, pb
        return bn


def same(x, y):
    if x is y:
        return True
    try:
        return bool(x == y) or bool(x != x and y != y)
    except Exception:
        return False


def snap(b):
    d = {("b", k): getattr(b, k) for k in BINARYPROPERTIES}
    for j, s in ((1, b.star_1), (2, b.star_2)):
        for k in STARPROPERTIES:
            if k != "profile":
                d[(j, k)] = getattr(s, k)
    return d


def starrec(d):
    def g(k):
        return i3(d.get(k, 0.))
    return dict(state=d["state"], m=g("m"), r=g("r"), he=g("he"), rhe=g("rhe"), co=g("co"), rco=g("rco"),
                m1=g("m1"), r1=g("r1"), m10=g("m10"), r10=g("r10"), m30=g("m30"), r30=g("r30"), mp=g("mp"),
                rp=g("rp"), z=i4(.0142 * d["met"]))


def obs(s, pre, j):
    isnan = lambda v: isinstance(v, float) and v != v
    changed = [k for k in STARPROPERTIES if k != "profile" and not same(pre[(j, k)], getattr(s, k))]
    left = [k for k in STARPROPERTIES if k not in KEEP and k not in SETS and k != "profile"
            and not isnan(getattr(s, k))]
    lost = [k for k in KEEP if not same(pre[(j, k)], getattr(s, k))]
    R = s.log_R
    R = 10 ** R if R is not None and R == R else R
    return dict(state=str(s.state), m=i3(s.mass), r=i3(R), he=i3(s.he_core_mass), rhe=i3(s.he_core_radius),
                co=i3(s.co_core_mass), rco=i3(s.co_core_radius), h1=i4(s.surface_h1), he4=i4(s.surface_he4),
                changed=changed, left=left, lost=lost)


def run_ce(case, b, st, tr, ev):
    """One common envelope; `st` the numbers of the stars, `ev` the event."""
    step, matcher = case.step()
    pre = snap(b)
    P0, a0 = b.orbital_period, b.separation
    err = "none"
    try:
        step(b)
    except Exception as ex:          # noqa
        err = type(ex).__name__
    post = snap(b)
    touched = ["%s.%s" % k for k in pre if not same(pre[k], post[k]) and k not in (("b", "state"), ("b", "event"))]
    e = dict(err=err, touched=touched[:10])
    if err != "none":
        e["touched"] = ["%s.%s" % k for k in pre if not same(pre[k], post[k])]
        tr.ev("ce", **e)
        return False
    k = int(ev[-1]) if ev[-1] in "12" else 1
    dd, dc = st[k], st[3 - k]
    a_i = sep_of(P0, dd["m"] + dc["m"])
    cand, dsep = {}, {}
    if ev.startswith(("oCE", "oDouble")):
        t2s = ("He_core", "CO_core") if "Double" in ev else ("whole",)
        for ldef in ("default", "0.01", "0.1", "0.3"):
            for t1 in ("He_core", "CO_core"):
                for t2 in t2s:
                    for af in ("one_phase_variable_core_definition", "two_phases_stableMT", "two_phases_windloss"):
                        key = (ldef, t1, t2, af)
                        try:
                            x = budget(case, dd, dc, key, a_i) if "lam" in dd and (t2 == "whole" or "lam" in dc) else None
                        except Exception:        # noqa
                            x = None
                        kk = "/".join(key)
                        if x is None:
                            cand[kk], dsep[kk] = dict(fate="edge", matched=-1), 0
                        else:
                            m = x["matched"]
                            cand[kk] = dict(fate=x["fate"], matched=m)
                            dev = abs(b.separation - x["a"]) / x["a"] if b.separation == b.separation else 2000.
                            dsep[kk] = int(min(2e9, dev * 1e6)) if x["fate"] != "edge" else 0
    for kk in cand:
        if cand[kk]["fate"] == "edge":
            cand[kk]["matched"] = matcher.n
    isnan = lambda v: isinstance(v, float) and v != v
    kept = ["time", "V_sys", "mass_transfer_case", "nearest_neighbour_distance"]
    left = [x for x in BINARYPROPERTIES if x not in kept + ["separation", "orbital_period", "eccentricity", "state", "event"]
            and not isnan(getattr(b, x))]
    M = (b.star_1.mass or 0) + (b.star_2.mass or 0)
    dper = 0
    if b.state == "detached":
        p = per_of(b.separation, M) if b.separation and b.separation > 0 else math.nan
        dper = int(min(2e9, abs(b.orbital_period - p) / p * 1e6)) if p == p and b.orbital_period == b.orbital_period else 2 * 10 ** 9
    e.update(cand=cand, dsep=dsep, matched=matcher.n,
             star=[obs(b.star_1, pre, 1), obs(b.star_2, pre, 2)],
             b=dict(state=str(b.state), event=str(b.event), ecc=i4(b.eccentricity), dper=dper, left=left,
                    timesame=b.time == pre[("b", "time")], keepbad=[x for x in kept if not same(pre[("b", x)], post[("b", x)])]))
    tr.ev("ce", **e)
    return b.state == "detached"


def outcome(b, k):
    """Everything, ordered donor first."""
    d = {}
    me, ot = (b.star_1, b.star_2) if k == 1 else (b.star_2, b.star_1)
    for n, s in (("donor", me), ("companion", ot)):
        for x in STARPROPERTIES:
            if x != "profile":
                d[n + "." + x] = getattr(s, x)
    for x in ("state", "separation", "orbital_period", "eccentricity", "time", "mass_transfer_case"):
        d[x] = getattr(b, x)
    d["event"] = str(b.event).replace(str(k), "donor").replace(str(3 - k), "other")
    return d


def one(sc, tid, tr):
    case = Case(sc, tid)
    b = case.binary()
    ev = sc["event"]
    tr.begin(tid, c=case.c, st=[starrec(case.st[1]), starrec(case.st[2])], event=ev)
    with tr.guard():
        st = case.st
        go = run_ce(case, b, st, tr, ev)
        if sc["what"] != "odd" and case.r.random() < .3:
            res = []
            for mirror in (False, True):
                m = case.binary(mirror)
                step, _ = case.step()
                try:
                    step(m)
                    res.append(outcome(m, case.k if not mirror else 3 - case.k))
                except Exception as ex:      # noqa
                    res.append(dict(err=type(ex).__name__))
            x, y = res
            tr.ev("mirror", diff=[n for n in x if n not in y or not same(x[n], y[n])])
        # the former companion, if a giant, overflows in turn
        k = case.k
        o = st[3 - k]
        if go and sc["what"] == "single" and "lam" in o and not o["state"].endswith("Core_H_burning"):
            me = b.star_1 if k == 1 else b.star_2
            d2 = dict(st[k], state=str(me.state), m=q(me.mass), r=round(10 ** me.log_R, 6), he=q(me.he_core_mass),
                      rhe=q(me.he_core_radius), co=q(me.co_core_mass), rco=q(me.co_core_radius))
            me.mass = d2["m"]
            st2 = {k: d2, 3 - k: o}
            ev2 = "oCE%d" % (3 - k)
            b.event, b.state = ev2, "RLO%d" % (3 - k)
            tr.ev("next", event=ev2, st=[starrec(st2[1]), starrec(st2[2])])
            run_ce(case, b, st2, tr, ev2)


def main():
    out, path = sys.argv[1:3]
    scripts = json.load(open(path))
    tr = hc.Trace(out)
    with hc.quiet():
        for i, sc in enumerate(scripts):
            if hc.mine(i):
                one(sc, "ce-%d" % i, tr)
    tr.close()


if __name__ == "__main__":
    main()
