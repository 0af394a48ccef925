"""S01: replays supernova cases (TLC-generated) into the real supernova step.

The stars and the orbit are built here; every observation is turned into the
integers of spec/SN.tla.  The post-supernova orbit is compared with Newtonian
two-body vectors worked out below (not with the code's formulas).
"""
import json
import math
import random
import sys

import hc
import numpy as np
from posydon.binary_evol.binarystar import BinaryStar
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.binary_evol.SN.step_SN import StepSN

G, MS, RS, DAY = 6.67430e-8, 1.98841e33, 6.957e10, 86400.0
C = 2.99792458e10

NAKED = dict(center_h1=0., center_he4=0., surface_h1=0., log_LH=-99.,
             log_LHe=-99., log_Lnuc=1.)
STAR = {
    "stripped_He_Core_C_depleted": dict(NAKED, center_c12=0.),
    "stripped_He_Core_He_depleted": dict(NAKED, center_c12=.3),
    "H-rich_Core_C_depleted": dict(NAKED, center_c12=0., surface_h1=.6),
    "H-rich_Core_He_depleted": dict(NAKED, center_c12=.3, surface_h1=.6),
    "H-rich_Core_H_burning": dict(center_h1=.5, center_he4=.4, center_c12=0.,
                                  surface_h1=.7, log_LH=3., log_LHe=-99.,
                                  log_Lnuc=3.),
    "stripped_He_non_burning": dict(NAKED, center_he4=.9, center_c12=0.),
}
COMMON = dict(log_total_angular_momentum=50.5, log_R=1., lg_mdot=-5.,
              lg_system_mdot=-7., spin=0.3, total_moment_of_inertia=1e55,
              surf_avg_omega=1e-5, log_L=4.)


def i3(x):
    if x is None:
        return -2
    return -1 if x != x else int(round(x * 1000))


def i4(x):
    if x is None:
        return -2
    return -1 if x != x else int(round(x * 10000))


def tag(x):
    if x is None:
        return "None"
    try:
        return "nan" if x != x else "num"
    except Exception:
        return "odd"


def tilt(x):
    if x is None:
        return "None"
    return "nan" if x != x else "%.9f" % x


def star(state, m, he, co, Z=1., **kw):
    if state in ("WD", "NS", "BH"):
        p = dict(state=state, mass=m / 1000.)
        if state == "WD":
            p.update(center_h1=0., center_he4=0., center_c12=.5, surface_h1=0.)
    elif state == "massless_remnant":
        p = dict(state=state, mass=0.)
    else:
        p = dict(STAR[state], **COMMON)
        p.update(state=state, mass=m / 1000., he_core_mass=he / 1000.,
                 co_core_mass=co / 1000.)
    p.update(kw)
    s = SingleStar(**dict(p, metallicity=Z))
    s.metallicity = Z
    return s


def rec(st):
    return dict(state=st[0], m=st[1], he=st[2], co=st[3])


class Case:
    """One binary with one or two supernovae, fully determined by a seed."""

    def __init__(self, sc, tid):
        r = random.Random("%s/%s/%s" % (hc.SEED, tid, sc["what"]))
        self.r, self.sc, self.tid = r, sc, tid
        self.no = sc.get("star", r.choice([1, 2]))
        tri = sc["tri"]
        self.cfg = dict(
            mech=sc.get("mech", r.choice(["Fryer+12-rapid", "Fryer+12-delayed", "direct"])),
            ecsn=sc.get("ecsn", "Tauris+15"), pisn=sc.get("pisn", r.choice(["None", "Marchant+19"])),
            consH=sc.get("consH", r.random() < .5), consPPI=sc.get("consPPI", r.random() < .5),
            ppi=r.choice([0, -20000]) if sc["what"] == "remnant" else -20000,
            maxl=r.choice([500, 500, 0, 100]) if sc["what"] == "remnant" else 500,
            norm=sc.get("norm", "one_over_mass"), kick=sc.get("kick") != "off",
            presc=r.choice(["maxwellian"] * 3 + ["linear", "asym_ej"]) if sc["what"] == "remnant" else "maxwellian",
            sigE=r.choice([20, 35]), sigN=r.choice([265, 190]), sigB=r.choice([265, 100]),
            interp=dict(on=False, type="", state="", m=0, spin=0, ffb=0))
        if self.cfg["presc"] != "maxwellian":
            self.cfg["norm"] = "one"
        if sc["what"] == "interp":
            m = {"WD": 1100, "NS": 1500, "BH": 12000, "massless_remnant": 0}[sc["state"]]
            self.cfg.update(mech="Fryer+12-delayed", pisn="Hendriks+23", consH=False,
                            consPPI=False, ppi=-20000)
            self.cfg["interp"] = dict(on=True, type=sc["type"], state=sc["state"],
                                      m=m if sc["mass"] == "num" else -1,
                                      spin=2500 if sc["state"] == "BH" else 0, ffb=4000)
        self.bstate = sc.get("bstate", "detached")
        comp = sc.get("comp", r.choice(["ms", "cdep", "WD", "NS", "BH"]))
        if self.bstate in ("initially_single_star", "merged"):
            comp = "massless"
        state = r.choice(["stripped_He_Core_C_depleted", "H-rich_Core_C_depleted",
                          "stripped_He_Core_He_depleted", "H-rich_Core_He_depleted"])
        if r.random() < .04 and sc["what"] == "remnant":
            state = "H-rich_Core_H_burning"           # cannot collapse
        self.me = (state,) + tuple(tri)
        self.co = {"ms": ("H-rich_Core_H_burning", r.choice([500, 8000, 30000]), 0, 0),
                   "cdep": ("stripped_He_Core_C_depleted", 9000, 8500, 6500),
                   "cdepH": ("H-rich_Core_C_depleted", 12000, 4500, 3000),
                   "WD": ("WD", 900, 0, 0), "NS": ("NS", 1400, 0, 0),
                   "BH": ("BH", 9000, 0, 0),
                   "massless": ("massless_remnant", 0, 0, 0)}[comp]
        self.ecc = (r.uniform(0, .9) if sc.get("ecc", r.random() < .5) else 0.)
        if r.random() < .1:
            self.ecc *= 0.02
        self.sep = 10 ** r.uniform(.8, 3.2)
        self.second = sc.get("second", False)
        self.first = False
        self.seed = r.randrange(2 ** 30)
        self.preset = {}
        k = sc.get("kick", "draw" if r.random() < .7 else "low")
        for j in (1, 2):
            if k in ("low", "high"):
                self.preset[j] = dict(
                    natal_kick_velocity=r.uniform(0, 60) if k == "low" else r.uniform(300, 900),
                    natal_kick_azimuthal_angle=r.uniform(0, 2 * math.pi),
                    natal_kick_polar_angle=math.acos(r.uniform(-1, 1)),
                    natal_kick_mean_anomaly=r.uniform(0, 2 * math.pi))
            else:
                self.preset[j] = {}

    def kwargs(self, ref=False):
        c = self.cfg
        kw = dict(mechanism=c["mech"], engine="", ECSN=None if c["ecsn"] == "None" else c["ecsn"],
                  PISN={"None": None, "40": 40.0}.get(c["pisn"], c["pisn"]),
                  conserve_hydrogen_envelope=c["consH"], conserve_hydrogen_PPI=c["consPPI"],
                  PPI_extra_mass_loss=c["ppi"] / 1000., PISN_CO_shift=0.0,
                  max_neutrino_mass_loss=c["maxl"] / 1000., kick=c["kick"],
                  kick_normalisation=c["norm"], kick_prescription=c["presc"],
                  sigma_kick_ECSN=float(c["sigE"]), sigma_kick_CCSN_NS=float(c["sigN"]),
                  sigma_kick_CCSN_BH=float(c["sigB"]), use_interp_values=c["interp"]["on"],
                  use_profiles=False, use_core_masses=True)
        if ref:
            kw.update(kick_normalisation="one", sigma_kick_ECSN=1., sigma_kick_CCSN_NS=1.,
                      sigma_kick_CCSN_BH=1.)
        return kw

    def step(self, ref=False, seed=None):
        kw = self.kwargs(ref)
        return StepSN(RNG=np.random.default_rng(self.seed if seed is None else seed), **kw)

    def binary(self, mirror=False, kicks=None):
        """A new binary; with `mirror`, the stars exchanged."""
        sts = {self.no: self.me, 3 - self.no: self.co}
        objs = {}
        for j in (1, 2):
            kw = dict((kicks or self.preset).get(j, {}))
            objs[j] = star(*sts[j], **kw)
            it = self.cfg["interp"]
            if it["on"] and j == self.no:
                setattr(objs[j], "SN_MODEL_v2_01",
                        dict(state=it["state"], SN_type=it["type"],
                             mass=it["m"] / 1000. if it["m"] >= 0 else np.nan,
                             spin=it["spin"] / 10000., f_fb=it["ffb"] / 10000.,
                             m_disk_accreted=0., m_disk_radiated=0.,
                             M4=1.5, mu4=.1, h1_mass_ej=0., he4_mass_ej=0.))
        a, b = objs[1], objs[2]
        no = self.no
        if mirror:
            a, b, no = b, a, 3 - no
        unb = self.bstate in ("disrupted", "initially_single_star", "merged")
        per = np.nan if unb else kepler(self.sep, a.mass + b.mass)
        bn = BinaryStar(star_1=a, star_2=b, state=self.bstate, event="CC%d" % no,
                        separation=np.nan if unb else self.sep,
                        eccentricity=np.nan if unb else self.ecc, orbital_period=per,
                        time=5e6, V_sys=[0, 0, 0], mass_transfer_case="None")
        bn.first_SN_already_occurred = self.first
        return bn, no


def kepler(a, m):
    return 2 * math.pi * math.sqrt((a * RS) ** 3 / (G * m * MS)) / DAY


def peters(m1, m2, a, e):
    """Merger time (yr) by direct integration of Peters (1964) eq. 5.14."""
    m1, m2, a = m1 * MS, m2 * MS, a * RS
    beta = 64. / 5 * G ** 3 * m1 * m2 * (m1 + m2) / C ** 5
    if e < 1e-6:
        return a ** 4 / (4 * beta) / 3.15576e7
    x = np.linspace(0, 1, 4001)[1:]
    es = e * x
    f = es ** (29. / 19) * (1 + 121. / 304 * es ** 2) ** (1181. / 2299) / (1 - es ** 2) ** 1.5
    integ = np.sum((f[1:] + f[:-1]) / 2 * np.diff(es)) + f[0] * es[0] / 2
    c0 = a * (1 - e ** 2) / e ** (12. / 19) * (1 + 121. / 304 * e ** 2) ** (-870. / 2299)
    return 12. / 19 * c0 ** 4 / beta * integ / 3.15576e7


def oracle(m0, m1, mc, a, e, kick):
    """Two-body vectors: relative orbit of the collapsing star around the
    companion, star on the x axis, orbital angular momentum along z."""
    v, phi, th, ma = kick
    E = ma
    for _ in range(200):
        E = E - (E - e * math.sin(E) - ma) / (1 - e * math.cos(E))
    mu = G * (m0 + mc) * MS
    A = a * RS
    n = math.sqrt(mu / A ** 3)
    px, py = A * (math.cos(E) - e), A * math.sqrt(1 - e * e) * math.sin(E)
    k = n * A / (1 - e * math.cos(E))
    vx, vy = -k * math.sin(E), k * math.sqrt(1 - e * e) * math.cos(E)
    rr = math.hypot(px, py)
    ux, uy = px / rr, py / rr
    pos = np.array([rr, 0., 0.])
    vel = np.array([vx * ux + vy * uy, -vx * uy + vy * ux, 0.])
    vh = vel / np.linalg.norm(vel)
    zh = np.array([0., 0., 1.])
    nh = np.cross(vh, zh)
    V = v * 1e5 * (math.cos(th) * vh + math.sin(th) * (math.sin(phi) * nh + math.cos(phi) * zh))
    vel2 = vel + V
    mu2 = G * (m1 + mc) * MS
    x = 2 - float(vel2 @ vel2) * rr / mu2           # r / a_post
    L = np.cross(pos, vel2)
    ev = np.cross(vel2, L) / mu2 - pos / rr
    tl = math.atan2(math.hypot(L[0], L[1]), L[2])
    if V[2] < 0:
        tl = -tl
    vs = m1 / (m1 + mc) * vel2 - m0 / (m0 + mc) * vel
    return dict(x=x, a=rr / x / RS if x else math.inf, e=float(np.linalg.norm(ev)), tilt=tl,
                v=vs / 1e5, vscale=(np.linalg.norm(V) + np.linalg.norm(vel)) / 1e5,
                nu=math.atan2(py, px))


def ppm(a, b, scale=None):
    if a is None or a != a:
        return 2 * 10 ** 9
    d = abs(a - b) / (abs(b) if scale is None else scale) if (b or scale) else abs(a)
    return int(min(2e9, d * 1e6))


def run_sn(case, step, b, no, tr, refstep=None):
    """Perform the collapse the event asks for and record what happened."""
    me, ot = (b.star_1, b.star_2) if no == 1 else (b.star_2, b.star_1)
    pre_m, pre_sep, pre_ecc, pre_t = me.mass, b.separation, b.eccentricity, b.time
    pre_c = {k: getattr(ot, k) for k in STARPROPERTIES}
    had = me.natal_kick_velocity
    keep = [me.natal_kick_velocity, me.natal_kick_azimuthal_angle,
            me.natal_kick_polar_angle, me.natal_kick_mean_anomaly]
    err = "none"
    vref = None
    if refstep is not None:
        vref = refstep
    b.append_state()
    try:
        step(b)
    except Exception as ex:           # noqa
        err = type(ex).__name__
        tr.ev("sn", star_no=no, err=err, msg=str(ex)[:120])
        return False
    kick = [me.natal_kick_velocity, me.natal_kick_azimuthal_angle,
            me.natal_kick_polar_angle, me.natal_kick_mean_anomaly]
    sets = [k is not None for k in kick]
    ang = bool(all(sets) and 0 <= kick[1] <= 2 * math.pi and 0 <= kick[2] <= math.pi
               and 0 <= kick[3] <= 2 * math.pi)
    p = dict(state=me.state, m=i3(me.mass), type=me.SN_type, ffb=i4(getattr(me, "f_fb", None)),
             spin=i4(me.spin), keys=[k for k in STARPROPERTIES if getattr(me, k) is not None],
             kick="set" if all(sets) else ("unset" if not any(sets) else "partial"),
             kickkept=kick == keep, anglesok=ang,
             v=int(round(kick[0] * 1000)) if kick[0] is not None and kick[0] == kick[0] else -1,
             ratio=-1, t1=tilt(me.spin_orbit_tilt_first_SN), t2=tilt(me.spin_orbit_tilt_second_SN))
    if vref and kick[0] is not None:
        p["ratio"] = int(round(10 * kick[0] / vref))
    same = lambda x, y: x is y or x == y or (x != x and y != y)
    cmp_ = dict(state=ot.state, m=i3(ot.mass),
                changed=[k for k in STARPROPERTIES if not same(pre_c[k], getattr(ot, k))],
                t1=tilt(ot.spin_orbit_tilt_first_SN), t2=tilt(ot.spin_orbit_tilt_second_SN))
    o = dict(state=str(b.state), event=b.event, sep=tag(b.separation), ecc=tag(b.eccentricity),
             per=tag(b.orbital_period), insp=tag(getattr(b, "inspiral_time", None)),
             first=bool(b.first_SN_already_occurred), timesame=bool(b.time == pre_t),
             mtc=str(b.mass_transfer_case), oracle="none", dsep=0, decc=0, dper=0, dtilt=0, dv=0, dnu=0, dcomb=0,
             dadia=0, dinsp=0, eccsame=bool(same(b.eccentricity, pre_ecc)))
    num = o["sep"] == "num" and o["per"] == "num"
    if num and me.mass and me.mass > 0:
        M = me.mass + (ot.mass or 0)
        o["dper"] = ppm(b.orbital_period, kepler(b.separation, M))
        if pre_sep == pre_sep and pre_sep is not None:
            o["dadia"] = ppm(b.separation, pre_sep * (pre_m + ot.mass) / M)
    bound = case.bstate_now not in ("disrupted", "initially_single_star", "merged")
    if bound and all(sets) and me.mass and me.mass > 0 and ot.mass > 0 and case.cfg["kick"]:
        w = oracle(pre_m, me.mass, ot.mass, pre_sep, pre_ecc, kick)
        o["oracle"] = "bound" if w["x"] > .02 and w["e"] < .98 else ("unbound" if w["x"] < -.02 else "edge")
        if b.state == "detached" and o["oracle"] == "bound":
            o["dsep"] = ppm(b.separation, w["a"])
            o["decc"] = ppm(b.eccentricity, w["e"], 1.)
            o["dv"] = max(ppm(x, y, w["vscale"]) for x, y in zip(list(b.V_sys), list(w["v"])))
            s2nd = case.nsn > 0
            tl = me.spin_orbit_tilt_second_SN if s2nd else me.spin_orbit_tilt_first_SN
            # the tilt is only well determined when the plane is
            if tl is None or tl != tl:
                o["dtilt"] = 2 * 10 ** 9
            else:
                d = abs(tl - w["tilt"])
                d = min(d, 2 * math.pi - d)
                o["dtilt"] = int(d * 1e6) if w["e"] < .9 else 0
                if abs(abs(w["tilt"]) - math.pi) < .05 or abs(w["tilt"]) < .05:
                    o["dtilt"] = int(abs(abs(tl) - abs(w["tilt"])) * 1e6) if w["e"] < .9 else 0
            nu = getattr(b, "true_anomaly_%s_SN" % ("second" if s2nd else "first"), None)
            o["dnu"] = 2 * 10 ** 9
            if nu is not None and nu == nu:
                d = (nu - w["nu"]) % (2 * math.pi)
                o["dnu"] = int(min(d, 2 * math.pi - d) * 1e6)
            t1 = ot.spin_orbit_tilt_first_SN
            if s2nd and t1 is not None and t1 == t1:
                # angle between the spin left by the orbit before the first
                # supernova and the orbit after the second: spherical triangle
                dn = nu - b.true_anomaly_first_SN
                cc = math.cos(t1) * math.cos(tl) - math.sin(t1) * math.sin(tl) * math.cos(dn)
                o["dcomb"] = ppm(math.cos(ot.spin_orbit_tilt_second_SN), cc, 1.)
    if o["insp"] == "num" and num and o["ecc"] == "num":
        try:
            t = peters(me.mass, ot.mass, b.separation, b.eccentricity)
            u = b.inspiral_time * 1e6         # Myr
            o["dinsp"] = ppm(u, t) if b.eccentricity < .99 else 0
        except Exception:            # noqa
            o["dinsp"] = 2 * 10 ** 9
    tr.ev("sn", star_no=no, err="none", preset=had is not None, star=p, comp=cmp_, b=o)
    case.bstate_now = b.state
    if me.SN_type != "WD":
        case.nsn += 1
    return True


def observables(b, no):
    """What two equivalent runs must agree on, ordered collapsing star first."""
    me, ot = (b.star_1, b.star_2) if no == 1 else (b.star_2, b.star_1)
    d = {}
    for n, s in (("collapsed", me), ("companion", ot)):
        for k in ("state", "mass", "spin", "log_R", "SN_type", "f_fb", "natal_kick_velocity",
                  "natal_kick_azimuthal_angle", "natal_kick_polar_angle", "natal_kick_mean_anomaly",
                  "spin_orbit_tilt_first_SN", "spin_orbit_tilt_second_SN"):
            d[n + "." + k] = getattr(s, k, None)
    for k in ("state", "separation", "eccentricity", "orbital_period", "time", "mass_transfer_case",
              "first_SN_already_occurred", "inspiral_time"):
        d[k] = getattr(b, k, None)
    ev = b.event
    d["event"] = {None: "None", "CC%d" % no: "me", "CC%d" % (3 - no): "other"}.get(ev, str(ev))
    v = b.V_sys
    d["V_sys"] = None if v is None else float(np.linalg.norm(np.array(v, dtype=float)))
    return d


def differ(a, b):
    out = []
    for k in a:
        x, y = a[k], b[k]
        if x is None or y is None or isinstance(x, (str, bool)) or isinstance(y, (str, bool)):
            if x is not y and x != y:
                out.append(k)
        elif x != x or y != y:
            if not (x != x and y != y):
                out.append(k)
        elif abs(x - y) > 1e-7 * max(1., abs(x), abs(y)):
            out.append(k)
    return out


def one(sc, tid, tr):
    case = Case(sc, tid)
    case.nsn = 0
    case.bstate_now = case.bstate
    b, no = case.binary()
    sts = {case.no: rec(case.me), 3 - case.no: rec(case.co)}
    tr.begin(tid, c=case.cfg, st=[sts[1], sts[2]], bstate=case.bstate, event="CC%d" % no,
             first=case.first)
    with tr.guard():
        # what a unit-width distribution draws from the same random numbers
        vref = None
        if case.cfg["kick"] and not case.preset[no] and case.cfg["presc"] == "maxwellian":
            rb, _ = case.binary()
            rb.append_state()
            try:
                case.step(ref=True)(rb)
                rs = rb.star_1 if no == 1 else rb.star_2
                if rs.state in ("NS", "BH"):
                    vref = rs.natal_kick_velocity
            except Exception:        # noqa  (recorded by the run itself)
                pass
        step = case.step()
        ok = run_sn(case, step, b, no, tr, vref)
        if not ok:
            return
        o0 = observables(b, no)
        mb, mno = case.binary(mirror=True)
        mb.append_state()
        case.step()(mb)
        tr.ev("mirror", diff=differ(o0, observables(mb, mno)))
        if o0["collapsed.SN_type"] != "WD" and case.cfg["kick"]:
            me = b.star_1 if no == 1 else b.star_2
            ks = dict(case.preset)
            ks[no] = {k: getattr(me, k) for k in (
                "natal_kick_velocity", "natal_kick_azimuthal_angle",
                "natal_kick_polar_angle", "natal_kick_mean_anomaly")}
            ab, _ = case.binary(kicks=ks)
            ab.append_state()
            case.step(seed=case.seed + 1)(ab)
            tr.ev("again", diff=differ(o0, observables(ab, no)))
        if b.event not in (None, "CC1", "CC2"):
            return
        nxt = None if b.event is None else int(b.event[2])
        o = 3 - no
        ost = b.star_1 if o == 1 else b.star_2
        if nxt is None and case.second and ost.state == "H-rich_Core_H_burning":
            # the companion ages; nothing else changes
            new = ("stripped_He_Core_C_depleted", 7000, 6500, 4500)
            fresh = star(*new)
            for k in STARPROPERTIES:
                setattr(ost, k, getattr(fresh, k))
            b.event = "CC%d" % o
            case.cfg["interp"] = dict(case.cfg["interp"], on=False)
            tr.ev("age", star_no=o, st=rec(new), c=case.cfg)
            nxt = o
        if nxt is not None:
            case.cfg["interp"] = dict(case.cfg["interp"], on=False)
            step2 = case.step()
            step2.RNG = step.RNG
            vref2 = None
            if case.cfg["kick"] and not case.preset[o] and case.cfg["presc"] == "maxwellian":
                import copy
                rb = copy.deepcopy(b)
                rs2 = case.step(ref=True)
                rs2.RNG = copy.deepcopy(step.RNG)
                rb.append_state()
                try:
                    rs2(rb)
                    rr = rb.star_1 if nxt == 1 else rb.star_2
                    if rr.state in ("NS", "BH"):
                        vref2 = rr.natal_kick_velocity
                except Exception:    # noqa
                    pass
            run_sn(case, step2, b, nxt, tr, vref2)


def main():
    out, path = sys.argv[1:3]
    scripts = json.load(open(path))
    tr = hc.Trace(out)
    with hc.quiet():
        for i, sc in enumerate(scripts):
            if hc.mine(i):
                one(sc, "sn-%d" % i, tr)
    tr.close()


if __name__ == "__main__":
    main()
