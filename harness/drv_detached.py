"""T01: replays detached binaries (TLC-generated) into the real step, on
synthetic single-star tracks; reports what happened and, for the orbital
physics, residuals against the balance equations worked out here.
"""
import json
import math
import sys
import warnings

import hc
import numpy as np
import posydon.binary_evol.DT.step_detached as module
import posydon.binary_evol.flow_chart as fc
import scipy.integrate as si
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.DT.step_detached import detached_step
from posydon.binary_evol.DT.step_disrupted import DisruptedStep
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.binary_evol.track_match import TrackMatcher
from posydon.utils import constants as const
from posydon.utils.key_library import DEFAULT_FINAL_KEYS, DEFAULT_PROFILE_KEYS
from singlestars import Grid

G, MS, RS, C, DAY, YR = const.standard_cgrav, const.msol, const.rsol, const.clight, 86400., const.secyer
UNIT = 1e5            # years
STATES = {"H": "H-rich_Core_H_burning", "He": "stripped_He_Core_He_burning"}
OFF = dict(do_wind_loss=False, do_tides=False, do_gravitational_radiation=False, do_magnetic_braking=False,
           do_stellar_evolution_and_spin_from_winds=False)
SWITCH = {"wind": "do_wind_loss", "tides": "do_tides", "gr": "do_gravitational_radiation", "mb": "do_magnetic_braking",
          "spin": "do_stellar_evolution_and_spin_from_winds"}
REAL = si.solve_ivp


def exact(fun, *a, **k):
    k["rtol"], k["atol"] = 1e-7, 1e-11
    return REAL(fun, *a, **k)


GH, GE = Grid(False), Grid(True)
MATCHER = None
AGES = {}          # (stripped, mass now) -> (mass at birth, age)


def library():
    """one matcher; every script puts its own tracks into its two grids"""
    global MATCHER
    GH.special.clear()
    GE.special.clear()
    AGES.clear()
    if MATCHER is None:
        MATCHER = TrackMatcher(grid_Hrich=GH, grid_strippedHe=GE, matching_method="minimize", metallicity=1.)
        # where on its track a star is, is said by the script (the matching is decided elsewhere)
        MATCHER.match_to_single_star = lambda star: AGES[(star.state.startswith("stripped"), round(float(star.mass), 9))]
    return GH, GE


def properties(step, tmax, rlo, names):
    sp = SimulationProperties(flow=(fc.flow_chart, {}), step_detached=(None, {}), max_simulation_time=tmax)
    sp.steps_loaded = True
    sp.flow = fc.flow_chart()
    for n in names:
        setattr(sp, n, step)
    sp.all_step_names = list(names) + (["step_HMS_HMS_RLO"] if rlo else [])
    return sp


def build(s, tr, w):
    """a star of the script: s = kind, mass; tr = its track; w = spin (rad/yr)"""
    if s["kind"] in ("BH", "NS", "WD"):
        return SingleStar(mass=float(s["m"]), state=s["kind"], lg_mdot=None)
    if s["kind"] == "gone":
        return SingleStar(mass=0., state="massless_remnant")
    now = star_at(tr["age"], tr, False)
    inertia = now["I"] * MS * RS**2
    return SingleStar(mass=now["m"], state=STATES[s["kind"]], log_R=np.log10(now["R"]), total_moment_of_inertia=inertia,
                      surf_avg_omega=w / const.secyer, surf_avg_omega_div_omega_crit=.1,
                      log_total_angular_momentum=np.log10(w / const.secyer * inertia) if w > 0 else None)


def whole(x, scale=1.):
    try:
        v = float(x) * scale
        return int(round(v)) if abs(v) < 2e9 else (2000000000 if v > 0 else -2000000000)
    except (TypeError, ValueError, OverflowError):
        return -1999999999


def ppm(a, b):
    return whole(1e6 * (a - b) / abs(b)) if b else whole(1e6 * abs(a))


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(np.all(a == b))
    except Exception:
        return False


def kepler(b):
    p = 2 * math.pi * math.sqrt((b.separation * RS)**3 / (G * MS * (b.star_1.mass + b.star_2.mass))) / DAY
    return whole(1e4 * (b.orbital_period / p - 1))


# -------------------------------------------------------------------- events
def events(c, tr):
    gh, ge = library()
    t0 = c["t0"] * UNIT
    stars = []
    for s in (c["s1"], c["s2"]):
        trk = dict(m=float(s["m"]), T=(s["T"] + s["age"]) * UNIT, dm=0., r=(s["r"] - s["k"] * s["age"]) / 100., k=s["k"] / 100. / UNIT, I=1., di=0.,
                   age=s["age"] * UNIT)
        if s["kind"] in STATES:
            AGES[(s["kind"] == "He", float(s["m"]))] = (float(s["m"]), s["age"] * UNIT)
            (gh if s["kind"] == "H" else ge).special[float(s["m"])] = trk
        stars.append(build(s, trk, 0.))
    hist = dict(dt=c["hist"] * UNIT) if c["how"] == "dt" else dict(n_o_steps_history=c["hist"]) if c["how"] == "n" else {}
    cls = detached_step
    lone = "gone" in (c["s1"]["kind"], c["s2"]["kind"])
    if lone or c["disrupted"]:
        cls = DisruptedStep
    step = cls(track_matcher=MATCHER, metallicity=1., RLO_orbit_at_orbit_with_same_am=c["am"], **OFF, **hist)
    sp = properties(step, t0 + c["max"] * UNIT, c["rlo"], ["step_detached"])
    b = BinaryStar(star_1=stars[0], star_2=stars[1], state="disrupted" if cls is DisruptedStep else "detached",
                   event="redirect_from_ZAMS" if c["s1"]["age"] == c["s2"]["age"] == 0 else None, time=t0, separation=float(c["a"]), eccentricity=c["e"] / 20., properties=sp)
    for x, s in zip((b.star_1, b.star_2), (c["s1"], c["s2"])):
        if s["kind"] in ("BH", "NS", "WD"):
            x.state, x.state_history[-1] = s["kind"], s["kind"]      # (the constructor names a compact object by its mass)
    before = [{k: getattr(x, k) for k in STARPROPERTIES} for x in (b.star_1, b.star_2)]
    rows0 = len(b.time_history)
    err = ""
    try:
        step(b)
    except Exception as e:  # judged by the specification
        err = type(e).__name__
    if err == "":
        b.append_state()
    new = b.time_history[rows0:]
    stars = (b.star_1, b.star_2)
    lens = len({len(getattr(b, k + "_history")) for k in BINARYPROPERTIES}) == 1 and all(
        len(getattr(x, k + "_history")) == len(b.time_history) for x in stars for k in STARPROPERTIES)

    def final(x, s, kind):
        """are the values of the end of the track those of this star's own track?"""
        if s["kind"] not in STATES:
            return False
        g = gh if s["kind"] == "H" else ge
        return all(getattr(x, k, None) == g.final(k, float(s["m"])) for k in DEFAULT_FINAL_KEYS)

    def prof(x, s):
        if s["kind"] not in STATES or x.profile is None:
            return False
        want = s["m"] + (50. if s["kind"] == "He" else 0.)
        try:
            return abs(float(x.profile[DEFAULT_PROFILE_KEYS[1]][0]) - want) < 1e-9
        except Exception:
            return False

    def kept(x, old):
        return all(same(getattr(x, k), old[k]) for k in STARPROPERTIES if k not in (
            "lg_mdot", "surf_avg_omega", "surf_avg_omega_div_omega_crit", "log_total_angular_momentum"))
    seen = []
    for j in range(rows0, len(b.time_history)):
        good = abs(b.separation_history[j] - c["a"]) < 1e-6 or j == len(b.time_history) - 1 or cls is DisruptedStep
        for x, s in zip(stars, (c["s1"], c["s2"])):
            if s["kind"] in STATES:
                good = good and abs(x.mass_history[j] - s["m"]) < 1e-9 and x.state_history[j] == x.state_history[rows0 - 1]
            elif s["kind"] != "gone":
                good = good and x.mass_history[j] == s["m"] and x.state_history[j] == x.state_history[rows0 - 1]
        seen.append(good)
    tr.ev("end", state=str(b.state), event=str(b.event), at=whole((b.time - t0) / UNIT, 1000), sep=whole(b.separation, 1000),
          ecc=whole(b.eccentricity, 1000), kep=0 if b.separation != b.separation or err else kepler(b),
          nan=bool(b.separation != b.separation), over=[whole(b.rl_relative_overflow_1, 1e4), whole(b.rl_relative_overflow_2, 1e4)],
          final=[final(x, s, 0) for x, s in zip(stars, (c["s1"], c["s2"]))], prof=[prof(x, s) for x, s in zip(stars, (c["s1"], c["s2"]))],
          kept=[s["kind"] in STATES or kept(x, o) for x, s, o in zip(stars, (c["s1"], c["s2"]), before)],
          rows=[whole((t - t0) / UNIT, 1000) for t in new], lens=bool(lens), good=all(seen), err=err)


# ------------------------------------------------------------------- physics
def star_at(t, trk, co):
    """what the equations need of a star, from the definition of its track"""
    if co:
        return dict(m=trk["m"], R=0., I=1., md=0., Id=0., L=1., X=0., menv=0., denv=0., renv=0., top=0., tau=1.)
    return dict(m=trk["m"] - trk["dm"] * t, R=trk["r"] + trk["k"] * t, I=trk["I"] + trk["di"] * t, md=-trk["dm"], Id=trk["di"],
                L=10**(1. + .1 * trk["m"]), X=0. if trk.get("he") else .7, menv=trk.get("menv", 0.), denv=trk.get("denv", 0.), renv=trk.get("renv", 0.),
                top=trk.get("top", .2), tau=trk.get("tau", 2.8e6) / YR)


def tide(s, o, a, e, n, w):
    """Hut 1981 eqs 9-11 for the tide raised on s by o"""
    q = o["m"] / s["m"]
    porb, tc = 2 * math.pi / n, 0.
    if s["menv"] and s["denv"] and s["renv"]:
        tc = .431 * (s["menv"] * s["denv"] * s["renv"] / (3 * s["L"]))**(1 / 3.)
        pt = abs(1 / (1 / porb - w / (2 * math.pi)))
        kc = 2 / 21. * min(1., (pt / (2 * tc))**2) / tc * s["menv"] / s["m"]
    else:
        kc = 0.
    if 0 < s["top"] <= s["R"]:
        e2 = 10**-.42 * (s["top"] / s["R"])**7.5 if s["X"] > .4 else 10**-.93 * (s["top"] / s["R"])**6.7
    else:
        e2 = 1.592e-9 * s["m"]**2.84
    kr = math.sqrt(G * s["m"] * MS * (s["R"] * RS)**2 / (a * RS)**5) * (1 + q)**(5 / 6.) * e2 * YR
    k = max(kc, kr)
    x = 1 - e * e
    f1 = 1 + 31 / 2 * e**2 + 255 / 8 * e**4 + 185 / 16 * e**6 + 25 / 64 * e**8
    f2 = 1 + 15 / 2 * e**2 + 45 / 8 * e**4 + 5 / 16 * e**6
    f3 = 1 + 15 / 4 * e**2 + 15 / 8 * e**4 + 5 / 64 * e**6
    f4, f5 = 1 + 3 / 2 * e**2 + 1 / 8 * e**4, 1 + 3 * e**2 + 3 / 8 * e**4
    da = -6 * k * q * (1 + q) * (s["R"] / a)**8 * a / x**7.5 * (f1 - x**1.5 * f2 * w / n)
    de = -27 * k * q * (1 + q) * (s["R"] / a)**8 * e / x**6.5 * (f3 - 11 / 18 * x**1.5 * f4 * w / n)
    dw = 3 * k * q * q * s["m"] * s["R"]**2 / s["I"] * (s["R"] / a)**6 * n / x**6 * (f2 - x**1.5 * f5 * w / n)
    return da, de, dw


def brake(mode, s, w):
    if w <= 0 or s["R"] <= 0:
        return 0.
    on = min(1., max(0., (1.5 - s["m"]) / .2))
    if mode == "RVJ83":
        return -3.8e-30 * RS**2 / YR * s["m"] * s["R"]**4 * w**3 / s["I"] * on
    if mode == "M15":
        k = 1.4e30 * YR**2 / (MS * RS**2)
        wc = math.sqrt(G * s["m"] * MS / (s["R"] * RS)**3) * YR
        t0 = k * s["R"]**3.1 * math.sqrt(s["m"]) * (1 + (w / wc / .072)**2)**-.22
        ws = 2.6e-6 * YR
        if 2 * math.pi / w / s["tau"] < .14:
            return -t0 * (2 / .14)**2.6 * w / ws / s["I"] * on
        return -t0 * (s["tau"] / (12.9 / 365.25))**2.6 * (w / ws)**3.6 / s["I"] * on
    if mode == "G18":
        ro = 2 * math.pi / w / s["tau"]
        return -3e41 / (MS * RS**2) * w**3 * s["tau"] * 4.05 * math.exp(-1.4 * (.03 / ro + .5 * ro + 1)) / s["I"] * on
    if mode == "CARB":
        if s["md"] == 0:
            return 0.
        v2 = 2 * G * s["m"] * MS / (s["R"] * RS) + 2 * (w / YR * s["R"] * RS)**2 / .07**2
        b4 = (w / YR / 3e-6)**4 * (s["tau"] * YR / 2.8e6)**4
        md = s["md"] * MS / YR
        ra = s["R"] * ((s["R"] * RS)**4 * b4 / (md**2 * v2))**(1 / 3.)
        return -abs(2 / 3. * w * s["md"] * ra**2 / s["I"]) * on
    return 0.


def rates(on, mode, k1, k2, co2):
    def f(t, y):
        a, e, w1, w2 = y
        s1, s2 = star_at(t + k1["age"], k1, False), star_at(t + k2["age"], k2, co2)
        m = s1["m"] + s2["m"]
        d = np.zeros(4)
        if "wind" in on:
            d[0] += -a * (s1["md"] + s2["md"]) / m
        if "gr" in on:
            # Peters 1964
            b = G**3 * s1["m"] * s2["m"] * m * MS**3 / C**5
            x = 1 - e * e
            d[0] += -64 / 5 * b / (a * RS)**3 / x**3.5 * (1 + 73 / 24 * e**2 + 37 / 96 * e**4) * YR / RS
            d[1] += -304 / 15 * e * b / (a * RS)**4 / x**2.5 * (1 + 121 / 304 * e**2) * YR
        if "tides" in on:
            n = 2 * math.pi / math.sqrt((a / const.aursun)**3 / m)      # Kepler's law in au, Msun and years
            for s, o, w, j, skip in ((s1, s2, w1, 2, False), (s2, s1, w2, 3, co2)):
                if not skip:
                    da, de, dw = tide(s, o, a, e, n, w)
                    d += np.array([da, de, dw if j == 2 else 0., dw if j == 3 else 0.])
        for s, w, j, skip in ((s1, w1, 2, False), (s2, w2, 3, co2)):
            if skip:
                continue
            if "spin" in on:
                d[j] += 2 / 3. * s["R"]**2 * w * s["md"] / s["I"] - w * s["Id"] / s["I"]
            if "mb" in on:
                d[j] += brake(mode, s, w)
        return d
    return f


def one(c, k1, k2, co2, swap, n):
    gh, ge = library()
    for k, co in ((k1, False), (k2, co2)):
        if not co:
            (ge if k["he"] else gh).special[k["m"]] = k
            AGES[(k["he"], round(k["m"] - k["dm"] * k["age"], 9))] = (k["m"], k["age"])
    on = c["on"]
    step = detached_step(track_matcher=MATCHER, metallicity=1., n_o_steps_history=n, magnetic_braking_mode=c["mode"],
                         **{**OFF, **{SWITCH[x]: True for x in on}})
    sp = properties(step, c["t0"] * UNIT + c["max"] * UNIT, True, ["step_detached"])
    stars = [build(dict(kind="BH" if co else "He" if k["he"] else "H", m=k["m"]), k, k["w"]) for k, co in ((k1, False), (k2, co2))]
    if swap:
        stars = stars[::-1]
    b = BinaryStar(star_1=stars[0], star_2=stars[1], state="detached",
                   event=None if k1["age"] or k2["age"] else "redirect_from_ZAMS", time=c["t0"] * UNIT, separation=c["a"],
                   eccentricity=c["e"], properties=sp)
    step(b)
    b.append_state()
    return b, ((b.star_2, b.star_1) if swap else (b.star_1, b.star_2))


def physics(c, tr):
    k1, k2, co2 = c["k1"], c["k2"], c["co2"]
    b, (x, y) = one(c, k1, k2, co2, False, 4)
    r, (xr, yr) = one(c, k1, k2, co2, True, 4)
    start = [c["a"], c["e"], k1["w"], k2["w"]]
    span = b.time - c["t0"] * UNIT
    ref = REAL(rates(c["on"], c["mode"], k1, k2, co2), (0., span), start, method="Radau", rtol=1e-7, atol=1e-11,
               t_eval=np.linspace(0, span, 5)[1:])
    res = {"a": [], "e": [], "w1": [], "w2": [], "j": [], "am": []}
    rows = len(b.time_history) - 4
    spin = lambda s, j: (s.surf_avg_omega_history[j] or 0.) * const.secyer
    energy = []
    b1, b2 = star_at(k1["age"], k1, False), star_at(k2["age"], k2, co2)
    for j in range(4):
        q = rows + j
        a, e = b.separation_history[q], b.eccentricity_history[q]
        w1, w2 = spin(x, q), 0. if co2 else spin(y, q)
        res["a"].append(ppm(a, ref.y[0][j]))
        # below 1/1000 the eccentricity counts as nil
        res["e"].append(0 if max(e, ref.y[1][j]) < .0011 else whole(1e6 * (e - ref.y[1][j])))
        res["w1"].append(ppm(w1, ref.y[2][j]))
        res["w2"].append(0 if co2 else ppm(w2, ref.y[3][j]))
        t = b.time_history[q] - c["t0"] * UNIT
        s1, s2 = star_at(t + k1["age"], k1, False), star_at(t + k2["age"], k2, co2)
        m = s1["m"] + s2["m"]

        def ang(a, e, w1, w2):
            return (s1["m"] * s2["m"] / m * math.sqrt(G * m * MS * a * RS * (1 - e * e)) * YR / RS**2 * RS
                    + s1["I"] * w1 * RS + (0. if co2 else s2["I"] * w2 * RS))
        res["j"].append(ppm(ang(a, e, w1, w2), ang(*start)))
        energy.append(-G * s1["m"] * s2["m"] * MS / (2 * a * RS) * YR**2 / RS**2 + .5 * s1["I"] * w1**2 + (0. if co2 else .5 * s2["I"] * w2**2))
        res["am"].append(ppm(a * m, c["a"] * (b1["m"] + b2["m"])))
    e0 = (-G * b1["m"] * b2["m"] * MS / (2 * c["a"] * RS) * YR**2 / RS**2 + .5 * b1["I"] * k1["w"]**2 + (0. if co2 else .5 * b2["I"] * k2["w"]**2))
    seq = [e0] + energy
    loss = all(v <= u + 1e-7 * abs(u) for u, v in zip(seq, seq[1:]))
    w1s, w2s = [k1["w"]] + [spin(x, rows + j) for j in range(4)], [k2["w"]] + [spin(y, rows + j) for j in range(4)]
    mirror = max([abs(ppm(p, q)) for p, q in zip(b.separation_history[rows:], r.separation_history[rows:])]
                 + [abs(whole(1e6 * (p - q))) if max(p, q) > .0011 else 0 for p, q in zip(b.eccentricity_history[rows:], r.eccentricity_history[rows:])]
                 + [abs(ppm(spin(x, rows + j), spin(xr, rows + j))) for j in range(4)]
                 + ([] if co2 else [abs(ppm(spin(y, rows + j), spin(yr, rows + j))) for j in range(4)])) if len(r.time_history) == len(b.time_history) else -1
    mass = max(abs(ppm(s.mass_history[rows + j], (k["m"] if co else k["m"] - k["dm"] * (k["age"] + b.time_history[rows + j] - c["t0"] * UNIT))))
               for s, k, co in ((x, k1, False), (y, k2, co2)) for j in range(4))
    rec = 0                      # everything else recorded of the stars, against their tracks
    for s, k, co in ((x, k1, False), (y, k2, co2)):
        for j in range(rows, rows + 4) if not co else ():
            v = star_at(k["age"] + b.time_history[j] - c["t0"] * UNIT, k, False)
            w = spin(s, j) / YR
            mom = w * v["I"] * MS * RS**2
            want = {"total_moment_of_inertia": v["I"] * MS * RS**2, "log_L": np.log10(v["L"]),
                    "spin": C * mom / (G * (v["m"] * MS)**2), "surf_avg_omega_div_omega_crit": w / math.sqrt(G * v["m"] * MS / (v["R"] * RS)**3),
                    "lg_mdot": np.log10(k["dm"]) if k["dm"] > 0 else -99., "surface_h1": v["X"]}
            if k["k"] == 0:
                want["log_R"] = np.log10(v["R"])
            if mom > 0:
                want["log_total_angular_momentum"] = np.log10(mom)
            for p, u in want.items():
                g = getattr(s, p + "_history")[j]
                rec = max(rec, whole(1e6 * abs(g - u)) if p.startswith("l") or not u else abs(ppm(g, u)))
    moved = dict(a=whole(1e6 * (b.separation / c["a"] - 1)), e=whole(1e6 * (b.eccentricity - c["e"])), w1=ppm(w1s[-1], w1s[0]),
                 w2=0 if co2 else ppm(w2s[-1], w2s[0]))
    tr.ev("phys", event=str(b.event), kep=kepler(b), mass=mass, rec=rec, res=res, loss=bool(loss), mirror=mirror, moved=moved,
          slow1=all(v <= u * (1 + 1e-9) for u, v in zip(w1s, w1s[1:])), slow2=co2 or all(v <= u * (1 + 1e-9) for u, v in zip(w2s, w2s[1:])),
          rows=len(b.time_history) - 1)


def lobe(q):
    c = q**(1 / 3.)
    return .49 * c * c / (.6 * c * c + math.log(1 + c))


def draw(c, r):
    """numbers of a physics script (the specification fixes the processes)"""
    on = c["on"]
    low = "mb" in on

    def star(kind, key):
        m = r.choice((.5, .8, 1., 1.2, 1.35, 1.4, 1.6)) if low and kind == "H" else r.choice((2., 4., 8.) if kind == "He" else (1., 2., 4., 8.))
        rad = r.uniform(.6, 1.5)
        k = dict(m=m, he=kind == "He", T=1e8, dm=0., r=rad, k=0., I=.1 * m * rad**2, di=0., w=r.uniform(30., 400.), top=rad * r.uniform(.1, .5))
        if "wind" in on or "spin" in on or c["mode"] == "CARB":
            k["dm"] = r.choice((0., m * r.uniform(1e-9, 2e-8)))
        if "spin" in on:
            k["di"], k["k"] = k["I"] * r.uniform(-1e-7, 3e-7), rad * r.uniform(0, 2e-7)
        if low and c["mode"] == "CARB":
            k["dm"] = m * r.uniform(1e-14, 1e-12)
        if low:
            k["tau"] = r.uniform(3e5, 5e6)
            k["w"] = r.uniform(50., 600.)
        if "tides" in on and r.random() < .5:
            k.update(menv=.2 * m, denv=.3 * rad, renv=.6 * rad)
        if "tides" in on and r.random() < .25:
            k["top"] = 0.
        return k
    k1, k2 = star(c["p1"], 1), star(c["p2"] if c["p2"] != "BH" else "H", 2)
    for k in (k1, k2):
        k["age"] = 0. if c["p1"] == "H" and on in ([], ["mb"]) else r.choice((0., 3e5, 1.5e6))
    if k1["m"] == k2["m"] and k1["he"] == k2["he"]:
        k2 = dict(k1, w=k2["w"])
    co2 = c["p2"] == "BH"
    if co2:
        k2.update(age=0., dm=0., k=0., di=0., w=0., he=False, m=r.choice((2., 5., 10.)))
    if on == ["gr"]:
        k1["r"] = k2["r"] = .05
        a = r.uniform(2.5, 4.)
        k1["top"] = k2["top"] = .01
    e = 0. if r.random() < .3 else r.uniform(.05, .5)
    if "tides" in on:
        # within the lobes, not by much
        end = lambda k: k["r"] + k["k"] * 6e6
        a = max(end(u) / (.95 * lobe(u["m"] / v["m"]) * (1 - e)) for u, v in ((k1, k2), (k2, k1))) * r.uniform(1.15, 1.5)
    elif on != ["gr"]:
        a = r.uniform(15., 36.)
    return dict(c, k1=k1, k2=k2, co2=co2, a=a, e=e, t0=r.choice((0, 7)), max=r.choice((100, 500, 900) if on == ["mb"] else (5, 20, 40)))


def main():
    out, scripts = sys.argv[1:3]
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    tr = hc.Trace(out)
    for i, c in enumerate(json.load(open(scripts))):
        if not hc.mine(i):
            continue
        with hc.quiet():
            if c["what"] == "events":
                module.solve_ivp = si.solve_ivp = REAL
                tr.begin("e%d" % i, c=c)
                with tr.guard():
                    events(c, tr)
            else:
                module.solve_ivp = si.solve_ivp = exact
                p = draw(c, hc.rng("det%d" % i))
                tr.begin("p%d" % i, c=c, numbers={k: p[k] for k in ("a", "e", "t0", "max", "k1", "k2")})
                with tr.guard():
                    physics(p, tr)
    tr.close()


main()
