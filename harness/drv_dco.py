"""T02: replays pairs of compact objects (TLC-generated) into the real step;
the inspiral is worked out here from Peters (1964), by quadrature of his
a(e) relation, which is not how the step integrates it.
"""
import json
import math
import sys
import warnings

import hc
import numpy as np
import posydon.binary_evol.flow_chart as fc
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.DT.double_CO import DoubleCO
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.binary_evol.track_match import TrackMatcher
from posydon.utils import constants as const
from posydon.utils.common_functions import CO_radius
from scipy.integrate import quad
from scipy.optimize import brentq
from singlestars import Grid

G, MS, RS, C, YR = const.standard_cgrav, const.msol, const.rsol, const.clight, const.secyer
DAY = 86400.
MATCHER = TrackMatcher(grid_Hrich=Grid(False), grid_strippedHe=Grid(True), matching_method="minimize", metallicity=1.)


def whole(x, scale=1.):
    try:
        v = float(x) * scale
        return int(round(v)) if abs(v) < 2e9 else (2000000000 if v > 0 else -2000000000)
    except (TypeError, ValueError, OverflowError):
        return -1999999999


class Peters:
    """the inspiral of (m1, m2) from (a0, e0)"""

    def __init__(self, m1, m2, a0, e0):
        self.beta = 64 / 5. * G**3 * m1 * m2 * (m1 + m2) * MS**3 / C**5
        self.a0, self.e0 = a0 * RS, e0
        if e0 > 0:
            self.c0 = self.a0 / self.shape(e0)

    @staticmethod
    def shape(e):
        return e**(12 / 19.) / (1 - e * e) * (1 + 121 / 304. * e * e)**(870 / 2299.)

    def e_at(self, a):
        """eccentricity when the separation is a (Rsun)"""
        if self.e0 == 0:
            return 0.
        if a * RS >= self.a0 * (1 - 1e-12):
            return self.e0
        f = lambda x: self.c0 * self.shape(math.exp(x)) - a * RS
        lo = math.log(self.e0) - 40.
        return math.exp(brentq(f, lo, math.log(self.e0), xtol=1e-13))

    def time_to(self, a):
        """years until the separation is a (Rsun)"""
        if a * RS >= self.a0 * (1 - 1e-12):
            return 0.
        if self.e0 == 0:
            return (self.a0**4 - (a * RS)**4) / (4 * self.beta) / YR
        e1 = self.e_at(a)
        # dt/de = -15/19 c0^4/beta' e^(29/19) (1+121/304 e^2)^(1181/2299)/(1-e^2)^1.5 ; beta' = 4 beta / (64/5) * 12/19 ...
        k = 12 / 19. * self.c0**4 / self.beta / YR
        g = lambda u: (lambda e: e * e**(29 / 19.) * (1 + 121 / 304. * e * e)**(1181 / 2299.) / (1 - e * e)**1.5)(math.exp(u))
        lo, hi = math.log(e1), math.log(self.e0)
        pts = [max(lo, hi - 3.), max(lo, hi - 10.)]
        v = quad(g, pts[0], hi, epsrel=1e-11, limit=400)[0] + quad(g, pts[1], pts[0], epsrel=1e-11, limit=400)[0] + quad(
            g, lo, pts[1], epsrel=1e-11, limit=400)[0]
        return k * v

    def sep_at(self, t, floor):
        """separation (Rsun) after t years"""
        if self.e0 == 0:
            return (self.a0**4 - 4 * self.beta * t * YR)**.25 / RS
        f = lambda x: self.time_to(math.exp(x)) - t
        return math.exp(brentq(f, math.log(floor), math.log(self.a0 / RS), xtol=1e-12))


def properties(step, tmax):
    sp = SimulationProperties(flow=(fc.flow_chart, {}), step_dco=(None, {}), max_simulation_time=tmax)
    sp.steps_loaded = True
    sp.flow = fc.flow_chart()
    sp.step_dco = step
    sp.all_step_names = ["step_dco"]
    return sp


def run(c, n, swap):
    hist = dict(dt=n["max"] / c["hist"] * .93) if c["how"] == "dt" else dict(n_o_steps_history=c["hist"]) if c["how"] == "n" else {}
    step = DoubleCO(track_matcher=MATCHER, metallicity=1., **hist)
    s = [SingleStar(mass=n["m1"], state=c["k1"], spin=.3), SingleStar(mass=n["m2"], state=c["k2"], spin=.1)]
    if swap:
        s = s[::-1]
    b = BinaryStar(star_1=s[0], star_2=s[1], state="detached", event=None, time=n["t0"], separation=n["a"], eccentricity=n["e"], V_sys=[3., -4., 12.],
                   orbital_period=1., properties=properties(step, n["t0"] + n["max"]))
    for x, k in zip((b.star_1, b.star_2), (c["k1"], c["k2"])[::-1 if swap else 1]):
        x.state, x.state_history[-1] = k, k      # (the constructor names a compact object by its mass)
    before = [{k: getattr(x, k) for k in STARPROPERTIES} for x in (b.star_1, b.star_2)]
    rows = len(b.time_history)
    step(b)
    b.append_state()
    return b, before, rows


def same(a, b):
    return (isinstance(a, float) and isinstance(b, float) and a != a and b != b) or bool(np.all(a == b))


def rel(a, b):
    return whole(1e6 * (a - b) / abs(b)) if b else whole(1e6 * a)


def drawn(c, r):
    m = {"NS": lambda: round(r.uniform(1.1, 2.4), 3), "BH": lambda: round(r.uniform(3., 40.), 3), "WD": lambda: round(r.uniform(.4, 1.3), 3)}
    m1, m2 = m[c["k1"]](), m[c["k2"]]()
    touch = CO_radius(m1, c["k1"]) + CO_radius(m2, c["k2"])
    e = {"none": 0., "low": r.uniform(.01, .2), "mid": r.uniform(.3, .8), "high": r.uniform(.9, .995)}[c["ecc"]]
    a = touch * math.exp(r.uniform(math.log(3.), math.log(3e5))) if c["sep"] != "touch" else touch * r.uniform(.3, .99)
    tc = Peters(m1, m2, a, e).time_to(touch) if a > touch else 0.
    # the maximum time: well before contact, about then, well after, or never
    mx = {"before": tc * r.uniform(.05, .8), "just": tc * r.uniform(.9, .999), "after": tc * r.uniform(1.001, 1.2), "long": tc * 50.}[c["when"]]
    if a <= touch:
        mx = 1e6
    return dict(m1=m1, m2=m2, a=a, e=e, max=mx, t0=0. if c["from"] == 0 else mx * r.uniform(0., 2.), touch=touch, tc=tc)


def one(c, n, tr):
    p = Peters(n["m1"], n["m2"], n["a"], n["e"])
    b, before, r0 = run(c, n, False)
    x, _, rx = run(c, n, True)
    took = b.time - n["t0"]
    span = min(n["tc"], n["max"]) if n["tc"] else 1.
    off = []
    h = range(r0, len(b.time_history))
    for j in list(h)[:-1]:
        t = b.time_history[j] - n["t0"]
        want = p.sep_at(t, n["touch"] * .9)
        # late in the inspiral the separation is steep in time: compare how long it would take
        off.append(max(abs(whole(1e6 * (p.time_to(b.separation_history[j]) - t) / span)),
                       abs(whole(1e6 * (b.eccentricity_history[j] - p.e_at(b.separation_history[j]))))))
    end_a = n["touch"] if b.state == "contact" else p.sep_at(took, n["touch"] * .9) if n["tc"] else n["a"]
    end_e = 0. if b.state == "contact" else p.e_at(end_a)
    kep = 2 * math.pi * math.sqrt((b.separation * RS)**3 / (G * MS * (n["m1"] + n["m2"]))) / DAY
    tr.ev("end", state=str(b.state), event=str(b.event), took=whole(1e6 * took / span), due=whole(1e6 * n["max"] / span),
          sep=rel(b.separation, end_a), ecc=whole(1e6 * (b.eccentricity - end_e)), kep=rel(b.orbital_period, kep),
          off=off, kept=all(same(getattr(s, k), o[k]) for s, o in zip((b.star_1, b.star_2), before) for k in STARPROPERTIES if k not in (
              "surf_avg_omega", "surf_avg_omega_div_omega_crit", "log_total_angular_momentum")),
          vsys=list(map(whole, b.V_sys)) == [3, -4, 12], rows=[whole(1e6 * (b.time_history[j] - n["t0"]) / span) for j in h],
          lens=len({len(getattr(b, k + "_history")) for k in BINARYPROPERTIES}
                   | {len(getattr(s, k + "_history")) for s in (b.star_1, b.star_2) for k in STARPROPERTIES}) == 1,
          mirror=max([abs(rel(u, v)) for u, v in zip((b.time - n["t0"], b.separation), (x.time - n["t0"], x.separation))]
                     + [0 if (x.state, x.event, len(x.time_history)) == (b.state, b.event, len(b.time_history)) else 999999]))


def main():
    out, scripts = sys.argv[1:3]
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    tr = hc.Trace(out)
    for i, c in enumerate(json.load(open(scripts))):
        if not hc.mine(i):
            continue
        n = drawn(c, hc.rng("dco%d" % i))
        # (numbers in ppm of the time to the end)
        span = min(n["tc"], n["max"]) if n["tc"] else 1.
        tr.begin("d%d" % i, c=c, tc=whole(1e6 * n["tc"] / span), max=whole(1e6 * n["max"] / span), touching=n["a"] <= n["touch"],
                 step=whole(1e6 * n["max"] / c["hist"] * .93 / span), numbers={k: repr(v) for k, v in n.items()})
        with hc.quiet(), tr.guard():
            one(c, n, tr)
    tr.close()


main()
