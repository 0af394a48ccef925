"""T03: replays stars (TLC-generated) into the real track matcher, over a
library of tracks known in closed form; reports how the binary was split, which
point of which track each star got and how far (worked out here) that point is
from the star.  In "try" scripts the numerical optimiser is replaced by one that
answers as the script says.
"""
import json
import math
import sys
import types
import warnings

import hc
import numpy as np
import posydon.binary_evol.flow_chart as fc
import posydon.binary_evol.track_match as module
import scipy.optimize
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.binary_evol.track_match import TrackMatcher
from posydon.utils import constants as const
from posydon.utils.key_library import DEFAULT_FINAL_KEYS, DEFAULT_PROFILE_KEYS, DEFAULT_TRANSLATED_KEYS

G, MS, RS, YR = const.standard_cgrav, const.msol, const.rsol, const.secyer
NODES = 11
STATES = {"HMS": ("H-rich_Core_H_burning", "accreted_He_Core_H_burning"),
          "HPM": ("H-rich_Shell_H_burning", "H-rich_Core_He_burning", "H-rich_Core_C_burning", "H-rich_non_burning", "accreted_He_Shell_H_burning",
                  "accreted_He_non_burning", "H-rich_Shell_He_burning"),
          "HeMS": ("stripped_He_Core_He_burning", "accreted_He_Core_He_burning"),
          "HePM": ("stripped_He_Core_He_depleted", "stripped_He_Core_C_depleted", "stripped_He_non_burning"),
          "BH": ("BH",), "NS": ("NS",), "WD": ("WD",), "gone": ("massless_remnant",), "odd": ("undetermined_evolutionary_state",)}
STAR = ("HMS", "HPM", "HeMS", "HePM")


class Library:
    """tracks with initial masses .5 to 32; f: the fraction of the life"""

    def __init__(self, he):
        self.he = he
        self.grid_mass = np.geomspace(.5, 32., 13)

    def life(self, m):
        if not np.isfinite(m) or m < self.grid_mass.min() or m > self.grid_mass.max():
            raise ValueError("mass outside the grid")
        return 1e8 / m

    def node(self, key, m, f):
        ms, pm = np.minimum(f / .6, 1.), np.maximum((f - .6) / .4, 0.)
        mass = m * (1 - .1 * f)
        if self.he:
            v = {"mass": mass, "he_core_mass": mass, "center_he4": .98 - .93 * f, "center_h1": 0. * f, "log_R": np.log10(.3 * m**.6) + .3 * f,
                 "surface_h1": 0. * f, "surface_he4": .98 + 0. * f, "co_core_mass": .1 * m * f}
        else:
            v = {"mass": mass, "he_core_mass": .1 * m * ms + .2 * m * pm, "center_he4": .28 + .7 * ms - .93 * pm, "center_h1": .7 * (1 - ms),
                 "log_R": .8 * np.log10(m) + .3 * ms + 1.5 * pm, "surface_h1": .7 + 0. * f, "surface_he4": .28 + 0. * f, "co_core_mass": .05 * m * pm}
        v.update(age=f * self.life(m), mdot=-1e-9 * m * (1 + f), inertia=(1 + f) * m * MS * RS**2, log_L=1 + np.log10(m) + f)
        if key in v:
            return v[key]
        return .01 * (DEFAULT_TRANSLATED_KEYS.index(key) + 1) * m + f

    def get(self, key, m):
        self.life(m)
        f = np.linspace(0., 1., NODES)
        if m > 8.:                       # the longer tracks repeat some of their rows
            f = np.sort(np.append(f, f[[4, 4, 8]]))
        return self.node(key, m, f)

    def at(self, key, m, age):
        return float(np.interp(age, self.get("age", m), self.get(key, m)))

    def final(self, key, m):
        return 100. * DEFAULT_FINAL_KEYS.index(key) + m + (50. if self.he else 0.)

    def get_final_values(self, key, m):
        return self.final(key[3:], m)

    def get_profile(self, key, m):
        p = np.zeros(3, dtype=[(k, "f8") for k in DEFAULT_PROFILE_KEYS + ("omega",)])
        for n, k in enumerate(p.dtype.names):
            p[k] = m + n + np.arange(3) / 8. + (50. if self.he else 0.)
        return p[key], p


LIB = {True: Library(False), False: Library(True)}           # by "is a hydrogen track"
SPAN = {(h, k): (min(LIB[h].get(k, m).min() for m in LIB[h].grid_mass), max(LIB[h].get(k, m).max() for m in LIB[h].grid_mass))
        for h in (True, False) for k in ("mass", "center_h1", "center_he4", "log_R", "he_core_mass")}
METRIC = {"HMS": ("mass", "center_h1", "log_R", "he_core_mass"), "HPM": ("mass", "center_he4", "log_R", "he_core_mass"),
          "HeMS": ("he_core_mass", "center_he4", "log_R"), "HePM": ("he_core_mass", "log_R")}
EASY = {"HMS": ("mass", "center_h1", "he_core_mass"), "HPM": ("mass", "center_h1", "he_core_mass"), "HeMS": METRIC["HeMS"], "HePM": METRIC["HePM"]}


def distance(kind, x, h, m, age, easy=False):
    d = 0.
    for k in (EASY if easy else METRIC)[kind]:
        f = np.log10 if k == "mass" else (lambda v: v)
        lo, hi = (f(v) for v in SPAN[(h, k)])
        a, b = ((f(v) - lo) / (hi - lo) if hi > lo else 0. for v in (LIB[h].at(k, m, age), x[k]))
        d += (((a - b) / b) if k == "center_he4" else a - b)**2
    return d


def whole(x, scale=1.):
    try:
        v = float(x) * scale
        return int(round(v)) if abs(v) < 2e9 else (2000000000 if v > 0 else -2000000000)
    except (TypeError, ValueError, OverflowError):
        return -1999999999


MATCHERS = {}


def matcher(method, rec, soft, hard):
    key = (method, rec, soft, hard)
    if key not in MATCHERS:
        MATCHERS[key] = TrackMatcher(grid_Hrich=LIB[True], grid_strippedHe=LIB[False], matching_method=method, metallicity=1., record_matching=rec,
                                     matching_tolerance=soft / 1000., matching_tolerance_hard=hard / 1000.)
    return MATCHERS[key]


def point(s):
    """where the star is placed: initial mass, age"""
    lib = LIB[s["kind"] in ("HMS", "HPM")]
    n = s["i"] + (.5 if s["at"] == "mid" else 0.)
    m = float(np.interp(n, range(len(lib.grid_mass)), lib.grid_mass))
    if n == s["i"]:
        m = float(lib.grid_mass[s["i"]])
    f = (s["j"] + (.37 if s["at"] == "mid" else 0.)) / (NODES - 1)
    return m, float(lib.life(m) * f)


def build(s, zams):
    k = s["kind"]
    state = STATES[k][s["n"] % len(STATES[k])]
    if k == "gone":
        st = SingleStar(mass=0., state=state)
    elif k in ("BH", "NS", "WD"):
        st = SingleStar(mass={"BH": 12., "NS": 1.5, "WD": .75}[k] + .125 * s["i"], state=state, spin=.3)
    else:
        h = k in ("HMS", "HPM", "odd")
        m, age = point(dict(s, kind="HMS") if k == "odd" else s)
        v = {key: LIB[h].at(key, m, age) for key in ("mass", "center_h1", "center_he4", "log_R", "he_core_mass", "co_core_mass", "surface_h1", "surface_he4")}
        if s["at"] == "swollen":
            v["log_R"] += 2.5
        if s["at"] == "heavy":
            v["mass"] *= 1000.
            v["he_core_mass"] *= 1000.
        if zams:
            v["mass"] = m * (1000. if s["at"] == "heavy" else 1.)
        if zams and s["spin"] == "ratio" and s["n"] % 2:
            v["log_R"] = float("nan")              # a radius is not known yet
        inertia = 3. * m * MS * RS**2
        w = 2e-6 * (1 + s["j"])
        v["total_moment_of_inertia"] = inertia
        v["surf_avg_omega"], v["surf_avg_omega_div_omega_crit"], v["log_total_angular_momentum"] = {
            "J": (w, .2, math.log10(1.4 * w * inertia)), "w": (w, .2, float("nan")), "ratio": (None, .2, float("nan")), "none": (None, None, None)}[s["spin"]]
        st = SingleStar(state=state, **v)
    st.state = state
    st.state_history[-1] = state
    return st


def want_spin(st, s):
    """expected angular velocity in rad/yr"""
    if s["spin"] == "J":
        return 10**st["log_total_angular_momentum"] / st["total_moment_of_inertia"] * YR
    if s["spin"] == "w":
        return st["surf_avg_omega"] * YR
    if s["spin"] == "ratio":
        log_r = st["log_R"] if st["log_R"] == st["log_R"] else LIB[s["kind"] in ("HMS", "HPM")].at("log_R", st["mass"], 0.)
        return .2 * math.sqrt(G * st["mass"] * MS / (10**log_r * RS)**3) * YR
    return 0.


def same(a, b):
    try:
        return bool(np.all(a == b)) or (a != a and b != b)
    except Exception:
        return False


class Scripted:
    """an optimiser that answers as told; every answer is a different point"""

    def __init__(self, tries):
        self.tries, self.n = tries, 0

    def point(self, j):
        return 2. + j, 1e5 * (j + 1)

    def __call__(self, *a, **kw):
        t = self.tries[min(self.n, len(self.tries) - 1)]
        self.n += 1
        if t["err"]:
            raise ValueError("as scripted")
        return types.SimpleNamespace(x=np.array(self.point(self.n)), fun=t["d"] / 1000. if t["d"] >= 0 else float("nan"), success=t["ok"], message="as scripted")


def case(c, swap):
    order = ("s2", "s1") if swap else ("s1", "s2")
    zams = c["event"] != "none"
    stars = [build(c[k], zams) for k in order]
    sp = SimulationProperties(flow=(fc.flow_chart, {}), max_simulation_time=1.3e10)
    b = BinaryStar(star_1=stars[0], star_2=stars[1], state="detached", event=None if c["event"] == "none" else c["event"], time=2e6, properties=sp)
    b.separation, b.orbital_period, b.eccentricity, b.step_names = 500., 200., .25, ['initial_cond']
    for p in ('separation', 'orbital_period', 'eccentricity'):
        getattr(b, p + '_history')[-1] = getattr(b, p)
    for x, k in zip((b.star_1, b.star_2), order):
        st = STATES[c[k]["kind"]]
        x.state = x.state_history[-1] = st[c[k]["n"] % len(st)]
    m = matcher("root" if c["mode"] == "root" else "minimize", c["rec"], c["soft"], c["hard"])
    before = {k: {p: getattr(x, p) for p in STARPROPERTIES} for k, x in zip(order, (b.star_1, b.star_2))}
    was = {p: getattr(b, p) for p in BINARYPROPERTIES if p not in ("state", "event")}
    rows, steps = len(b.time_history), len(b.step_names)
    old = scipy.optimize.minimize, getattr(module, "minimize", None)
    stub = Scripted(c["tries"])
    if c["mode"] == "try":
        scipy.optimize.minimize = stub
        if old[1] is not None:
            module.minimize = stub
    err, pri, sec, only = "", None, None, False
    try:
        kw = {} if c["which"] == "both" else dict(match_primary=False) if c["which"] == "sec" else dict(match_secondary=False)
        pri, sec, only = m.do_matching(b, "step_x", **kw)
    except Exception as e:  # judged by the specification
        err = type(e).__name__
    finally:
        scipy.optimize.minimize = old[0]
        if old[1] is not None:
            module.minimize = old[1]
    o = dict(err=err, failed=b.state == "ERR", only=bool(only), pri=0, sec=0, rows=len(b.time_history) - rows,
             event=str(b.event), steps=b.step_names[steps:], orbit=all(same(getattr(b, p), v) for p, v in was.items()),
             lens=len({len(getattr(b, p + "_history")) for p in BINARYPROPERTIES} |
                      {len(getattr(x, p + "_history")) for x in (b.star_1, b.star_2) for p in STARPROPERTIES}) == 1)
    per = {}
    for k, x in zip(order, (b.star_1, b.star_2)):
        s = c[k]
        kind = s["kind"]
        if pri is x:
            o["pri"] = int(k[1])
        if sec is x:
            o["sec"] = int(k[1])
        r = dict(co=False, matched=False, h=False, exact=False, d=-1, easy=-1, other=-1, grid=True, props=True, track=True, spin=0, kept=True, j=True, end=True, chosen=0)
        per[k] = r
        if err != "":
            continue
        r["co"] = bool(x.co)
        r["matched"] = bool(x.matched)
        r["h"] = bool(x.htrack)
        it = getattr(x, "interp1d", None)
        if kind not in STAR or not r["matched"]:
            keep = ["mass", "state"] + (["spin", "log_R"] if kind in ("BH", "NS", "WD") else [])
            r["kept"] = all(same(getattr(x, p), before[k][p]) for p in keep)
            if kind in ("BH", "NS", "WD") and x is pri and it is not None and not only:
                v = it(it.t0)
                r["track"] = abs(v["mass"] - x.mass) < 1e-9 and v["R"] == 0 and v["mdot"] == 0 and v["Idot"] == 0
            continue
        h = r["h"]
        m0, t0 = float(it.m0), float(it.t0)
        want = (before[k]["mass"], 0.) if zams else point(s)
        r["exact"] = abs(m0 - want[0]) < 1e-5 * want[0] and abs(t0 - want[1]) < 1e-4 * LIB[h].life(m0)
        if c["mode"] == "lib" and not zams:
            r["d"], r["easy"] = (whole(distance(kind, before[k], h, m0, t0, e), 1e6) for e in (False, True))
        if c["mode"] == "root":
            key = "center_h1" if kind == "HMS" else "he_core_mass"
            r["d"] = whole(abs(LIB[h].at(key, m0, t0) - before[k][key]) + abs(LIB[h].at("mass", m0, t0) - before[k]["mass"]), 1e6)
        if c["mode"] == "try":
            r["chosen"] = next((j for j in range(1, 9) if stub.point(j) == (m0, t0)), 0)
        lib = LIB[h]
        for p in ("mass", "log_R", "center_h1", "center_he4", "he_core_mass", "co_core_mass", "surface_h1", "log_L", "center_c12"):
            r["props"] &= abs(float(getattr(x, p)) - lib.at(p, m0, t0)) < 1e-9 * (1 + abs(lib.at(p, m0, t0)))
        node = int(round(t0 / lib.life(m0) * (NODES - 1))) * lib.life(m0) / (NODES - 1)
        v = it(node)
        r["track"] = all(abs(v[p] - lib.at(p, m0, node)) < 1e-7 * (1 + abs(v[p])) for p in ("mass", "log_R", "he_core_mass", "center_he4")) \
            and abs(v["R"] / 10**lib.at("log_R", m0, node) - 1) < 1e-7 and abs(v["inertia"] * MS * RS**2 / lib.at("inertia", m0, node) - 1) < 1e-7
        w = want_spin(before[k], s)
        r["spin"] = whole(1e6 * (x.omega0 / w - 1)) if w else whole(1e9 * x.omega0)
        if s["spin"] == "J":
            r["j"] = abs(x.log_total_angular_momentum - before[k]["log_total_angular_momentum"]) < 1e-9 and abs(x.surf_avg_omega * YR / w - 1) < 1e-9 \
                and abs(x.surf_avg_omega_div_omega_crit / (.2 * 1.4) - 1) < 1e-6
        elif s["spin"] == "w":
            r["j"] = abs(x.surf_avg_omega * YR / w - 1) < 1e-9 and abs(x.surf_avg_omega_div_omega_crit / .2 - 1) < 1e-9
        m.get_star_final_values(x)
        m.get_star_profile(x)
        r["end"] = all(abs(getattr(x, p) - lib.final(p, m0)) < 1e-9 for p in DEFAULT_FINAL_KEYS) \
            and all(np.allclose(x.profile[p], lib.get_profile(p, m0)[0]) for p in DEFAULT_PROFILE_KEYS) and bool(np.all(x.profile["omega"] == x.surf_avg_omega))
    o["s1"], o["s2"] = per["s1"], per["s2"]
    return o


def main():
    out, scripts = sys.argv[1:3]
    tr = hc.Trace(out)
    warnings.simplefilter("ignore")
    for i, c in enumerate(json.load(open(scripts))):
        if not hc.mine(i):
            continue
        tr.begin(f"match-{i}", c=c)
        with tr.guard():
            with hc.quiet():
                a, z = case(c, False), case(c, True)
            a["mirror"] = all(a[k] == z[k] for k in ("err", "failed", "only", "rows", "steps", "s1", "s2"))
            tr.ev("matched", **a)
    tr.close()


main()
