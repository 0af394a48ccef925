"""S03: replays mergers and lone stars into the real steps.

The tracks that evolve the product afterwards need data files; that part of
the step is replaced by a recorder of what it is given.
"""
import json
import math
import random
import sys

import hc
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.DT import step_detached
from posydon.binary_evol.DT.step_disrupted import DisruptedStep
from posydon.binary_evol.DT.step_initially_single import InitiallySingleStep
from posydon.binary_evol.DT.step_isolated import IsolatedStep
from posydon.binary_evol.DT.step_merged import MergedStep
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar

SEEN = {}


def fake_init(self, *a, **k):
    self.verbose = False


def fake_call(self, binary):
    SEEN["orbit"] = (binary.orbital_period, binary.separation, binary.eccentricity)
    SEEN["n"] = SEEN.get("n", 0) + 1


step_detached.detached_step.__init__ = fake_init
step_detached.detached_step.__call__ = fake_call

AB = ["center_h1", "center_he4", "center_c12", "center_n14", "center_o16",
      "surface_h1", "surface_he4", "surface_c12", "surface_n14", "surface_o16", "avg_c_in_c_core"]
STALE = ["log_R", "log_L", "lg_mdot", "lg_system_mdot", "lg_wind_mdot", "log_LH", "log_Lnuc", "c12_c12",
         "surf_avg_omega", "total_moment_of_inertia", "log_total_angular_momentum", "spin",
         "conv_env_top_mass", "conv_env_bot_mass", "conv_env_top_radius", "lambda_CE_1cent",
         "lambda_CE_10cent", "lambda_CE_30cent", "lambda_CE_pure_He_star_10cent"]


def i3(x):
    return -1 if x is None or x != x else int(round(x * 1000))


def i4(x):
    return -1 if x is None or x != x else int(round(x * 10000))


def num(x):
    return round(x, 4)


def draw(state, r):
    f = lambda: r.randint(0, 2500) / 10000.
    if state == "massless_remnant":
        return dict(state=state, mass=0.)
    if state in ("NS", "BH"):
        return dict(state=state, mass=num(r.uniform(1.2, 2.) if state == "NS" else r.uniform(4, 40)), spin=.5)
    d = {k: f() for k in AB[2:5] + AB[7:11]}
    m = round(r.uniform(.6, 40.), 3)
    d.update(center_gamma=float(r.randint(1, 90)))
    if state == "WD":
        m = round(r.uniform(.4, 1.3), 3)
        d.update(center_h1=0., center_he4=0., surface_h1=0., surface_he4=0., he_core_mass=m,
                 co_core_mass=m, c_core_mass=m, o_core_mass=m, center_c12=.5)
    elif state == "H-rich_Core_H_burning":
        d.update(center_h1=r.randint(200, 7000) / 1e4, center_he4=r.randint(1000, 2900) / 1e4,
                 surface_h1=r.randint(3000, 7000) / 1e4, surface_he4=r.randint(1000, 2900) / 1e4,
                 he_core_mass=0., co_core_mass=0., c_core_mass=0., o_core_mass=0.)
    else:
        he = state.startswith("stripped") or state == "accreted_He_Core_He_burning"
        hec = m if he else round(m * r.uniform(.1, .6), 3)
        has = state != "stripped_He_Core_He_burning" and r.random() < .6
        co = round(hec * r.uniform(.2, .7), 3) if has else 0.
        d.update(center_h1=0. if state != "accreted_He_Core_H_burning" else .3,
                 center_he4=0. if "depleted" in state else r.randint(200, 9000) / 1e4,
                 surface_h1=r.randint(0, 90) / 1e4 if he else r.randint(200, 7000) / 1e4,
                 surface_he4=r.randint(1000, 9000) / 1e4, he_core_mass=hec, co_core_mass=co,
                 c_core_mass=round(co * .9, 3), o_core_mass=round(co * .5, 3))
        if "C_depleted" in state:
            d["center_c12"] = 0.
    for k in STALE:
        d[k] = round(r.uniform(.1, 2.), 3)
    d.update(state=state, mass=m, log_LHe=1., log_LZ=.5, surf_avg_omega_div_omega_crit=.123)
    return d


def build(d):
    s = SingleStar(**dict(d, metallicity=1.))
    for k in STARPROPERTIES:        # nothing filled in by defaults
        if k not in d and k != "metallicity":
            setattr(s, k, None)
    return s


def rec(s):
    g = lambda k: i3(getattr(s, k, None))
    return dict(state=str(s.state), m=g("mass"), he=g("he_core_mass"), co=g("co_core_mass"), cc=g("c_core_mass"),
                oc=g("o_core_mass"), gam=g("center_gamma"), ab=[i4(getattr(s, k, None)) for k in AB])


def same(x, y):
    return x is y or x == y or (x != x and y != y)


def snap(s):
    return {k: getattr(s, k) for k in STARPROPERTIES}


def obs(s, pre):
    d = rec(s)
    isnan = lambda v: isinstance(v, float) and v != v
    h = s.surface_h1
    kind = True
    if h is not None and h == h:
        kind = str(s.state).startswith("H-rich") == (h > .01)
    d.update(om=i3(s.surf_avg_omega_div_omega_crit), kindok=kind,
             stale=[k for k in STALE if not (isnan(getattr(s, k)) or getattr(s, k) is None)],
             filled=[k for k in STARPROPERTIES if k not in ("state", "mass", "metallicity") and
                     not (isnan(getattr(s, k)) or getattr(s, k) is None)],
             changed=[k for k in pre if not same(pre[k], getattr(s, k))])
    return d


def tag(x):
    return "nan" if x is not None and x != x else ("None" if x is None else "num")


class Case:
    def __init__(self, sc, tid):
        r = random.Random("%s/%s" % (hc.SEED, tid))
        self.sc, self.r = sc, r
        self.d = [draw(sc["a"], r), draw(sc["b"], r)]
        self.lost, self.rot = r.choice([0, 100, 250]), r.choice([100, 400, 900])

    def binary(self, mirror=False):
        a, b = (build(x) for x in self.d)
        ev = None if self.sc["event"] == "None" else self.sc["event"]
        st = self.sc["bstate"]
        if mirror:
            a, b = b, a
            ev = ev[:-1] + str(3 - int(ev[-1])) if ev else ev
            st = {"RLO1": "RLO2", "RLO2": "RLO1"}.get(st, st)
        bn = BinaryStar(star_1=a, star_2=b, state=st, event=ev, time=7e6, separation=11., orbital_period=3.,
                        eccentricity=.2)
        for mine, orig in ((bn.star_1, a), (bn.star_2, b)):
            for k in STARPROPERTIES:
                setattr(mine, k, getattr(orig, k))
        return bn

    def step(self, kind="merge"):
        if kind == "merge":
            return MergedStep(merger_critical_rot=self.rot / 1000., rel_mass_lost_HMS_HMS=self.lost / 1000.)
        return dict(initially_single=InitiallySingleStep, disrupted=DisruptedStep, isolated=IsolatedStep)[kind]()


def run(case, b, kind):
    SEEN.clear()
    pre = [snap(b.star_1), snap(b.star_2)]
    t = b.time
    err = "none"
    try:
        case.step(kind)(b)
    except Exception as ex:       # noqa
        err = type(ex).__name__
    e = dict(err=err, step=kind)
    if err == "none":
        o = SEEN.get("orbit")
        far = o is not None and SEEN["n"] == 1 and o[0] > 1e30 and o[1] > 1e15 and o[2] == 0
        e.update(seen="far" if far else "other", star=[obs(b.star_1, pre[0]), obs(b.star_2, pre[1])],
                 b=dict(state=str(b.state), per=tag(b.orbital_period), sep=tag(b.separation), ecc=tag(b.eccentricity),
                        timesame=b.time == t))
    return e


def outcome(b, k):
    me, ot = (b.star_1, b.star_2) if k == 1 else (b.star_2, b.star_1)
    return [dict(snap(me)), dict(snap(ot)), dict(state=b.state)]


def one(sc, tid, tr):
    case = Case(sc, tid)
    b = case.binary()
    tr.begin(tid, st=[rec(b.star_1), rec(b.star_2)], bstate=sc["bstate"], event=sc["event"], lost=case.lost, rot=case.rot)
    with tr.guard():
        if sc["what"] == "alone":
            kind = ["initially_single", "disrupted", "isolated"][sc["n"] - 1]
            tr.ev("alone", **run(case, b, kind))
            return
        tr.ev("merge", **run(case, b, "merge"))
        if sc["event"] != "None":
            k = int(sc["event"][-1])
            m = case.binary(True)
            e = run(case, m, "merge")
            x, y = outcome(b, k), outcome(m, 3 - k)
            diff = []
            if e["err"] == "none":
                for i in range(3):
                    diff += ["%d.%s" % (i, n) for n in x[i] if not same(x[i][n], y[i][n])]
            tr.ev("mirror", diff=diff)


def main():
    out, path = sys.argv[1:3]
    scripts = json.load(open(path))
    tr = hc.Trace(out)
    with hc.quiet():
        for i, sc in enumerate(scripts):
            if hc.mine(i):
                one(sc, "mg-%d" % i, tr)
    tr.close()


if __name__ == "__main__":
    main()
