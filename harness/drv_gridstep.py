"""M01: offers binaries on, inside and outside the limits of every grid to its step."""
import json
import sys

import hc
import mesa_common as mc
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.utils.posydonerror import FlowError, GridError

PTS = {  # corners of the grids
    "MS_MS": [(2., 1.5, 1., 0), (30., 20., 1000., 0)],
    "HMS_HMS_RLO": [(2., 1.5, 1., 0), (2., .5, 10., 0), (30., 3.75, 1000., 0), (30., 22.5, 1000., 0)],
    "CO": [(1., .5, 1., 0), (30., 35., 1000., 0)],
}
FAILED = [(.1, .1, .01, 1), (99., 98., 1e5, 1)]
BOX = {"MS_MS": dict(m1lo=200, m1hi=3000, m2lo=0, m2hi=0), "HMS_HMS_RLO": dict(m1lo=200, m1hi=3000, m2lo=50, m2hi=2250),
       "CO": dict(m1lo=100, m1hi=3000, m2lo=50, m2hi=3500)}
P = [0, 99, 100, 5000, 100000, 100001]


def masses(kind, a, b):
    if kind == "CO":
        return [0, 90, 100, 1000, 3000, 3100][a], [0, 40, 50, 500, 3500, 3600, 3200, 60][b]
    ma = [0, 150, 200, 1000, 3000, 3500][a]
    if kind == "MS_MS":
        return ma, [0, 40, 50, ma * 6 // 10, ma, ma * 13 // 10, ma * 5 // 100, ma * 4 // 100][b]
    return ma, [0, 40, 50, ma * 6 // 10, ma * 3 // 4, ma * 76 // 100, ma // 8, ma * 12 // 100][b]


CACHE = {}


def step_of(name, failed):
    kind = name if name in PTS else "CO"
    if (name, failed) not in CACHE:
        CACHE[name, failed] = mc.make(name, mc.Grid(PTS[kind] + (FAILED if failed else [])))
    return CACHE[name, failed]


def snap(b):
    out = [str([getattr(b, k), getattr(b, k + "_history")]) for k in BINARYPROPERTIES if k not in ("state", "event")]
    for s in (b.star_1, b.star_2):
        out += [str([getattr(s, k), getattr(s, k + "_history")]) for k in STARPROPERTIES]
        out.append(str(s.tag))
    return out




def one(tr, sc, n):
    name = sc["step"]
    kind = name if name in PTS else "CO"
    ma, mb = masses(kind, sc["a"], sc["b"])
    s1, s2, ev = sc["w"]
    second = s1 in ("WD", "NS", "BH") or (kind == "MS_MS" and n % 2 == 1)
    m1, m2 = (mb, ma) if second else (ma, mb)
    failed = sc["failed"] and kind != "HMS_HMS_RLO"
    st = step_of(name, failed)
    props = SimulationProperties(max_simulation_time=1e10)
    state = {"oRLO1": "RLO1", "oRLO2": "RLO2"}.get(ev, "detached")
    b = BinaryStar(star_1=SingleStar(state=s1, mass=m1 / 100., spin=.1, metallicity=1.), star_2=SingleStar(state=s2, mass=m2 / 100., spin=.2, metallicity=1.),
                   state=state, event=None if ev == "None" else ev, orbital_period=P[sc["p"]] / 100., separation=50., time=1e6,
                   eccentricity=sc["ecc"] / 100., properties=props)
    b.star_1.tag, b.star_2.tag = 1, 2
    end = [ma / 100. * .9, mb / 100. * .8]
    star = dict(surface_h1=.7, center_h1=.4, center_he4=.5, center_c12=0., log_LH=3., log_LHe=-5., log_Lnuc=3., log_R=.5, center_gamma=1.)
    rows = [dict(age=1e5 * j, star_1_mass=ma / 100. if j < 2 else end[0], star_2_mass=mb / 100. if j < 2 else end[1], period_days=P[sc["p"]] / 100.,
                 binary_separation=50., rl_relative_overflow_1=-.2, rl_relative_overflow_2=-.3, lg_mtransfer_rate=-20., s1=star, s2=star) for j in range(3)]
    tracks = st._psyTrackInterp
    tracks.asked = []
    tracks.answer = (mc.Run(rows, co=2 if kind == "CO" else None), ["no_MT", "no_RLOF", "no_MT"])
    before = snap(b)
    g = dict(BOX[kind], plo=100, phi=100000, qlon=1, qlod=8, qhin=3, qhid=4)
    x = dict(g=g, step=name, s1=s1, s2=s2, event=ev, m1=m1, m2=m2, p=P[sc["p"]], ecc=sc["ecc"])
    got = dict(event="", state="", same=True, asked=[], tags=[], final=[])
    try:
        st(b)
        got["kind"] = "evolve" if tracks.asked else "pass"
    except GridError:
        got["kind"] = "grid"
    except FlowError:
        got["kind"] = "flow"
    got["event"], got["state"] = str(b.event), str(b.state)
    if got["kind"] in ("grid", "flow"):
        # the refused binary records itself once
        for o in (b, b.star_1, b.star_2):
            for k in (BINARYPROPERTIES if o is b else STARPROPERTIES):
                h = getattr(o, k + "_history")
                setattr(o, k + "_history", h[:1])
    if got["kind"] != "evolve":
        got["same"] = snap(b) == before
    else:
        got["asked"] = [int(round(v * 100)) for v in tracks.asked[0]] if len(tracks.asked) == 1 else [len(tracks.asked)]
        got["final"] = [int(round(s.mass * 1000)) for s in (b.star_1, b.star_2)]
        got["tags"] = [b.star_1.tag, b.star_2.tag]
    tr.ev("step", x=x, got=got, state0=state, end=[int(round(v * 1000)) for v in end])


def main():
    out, path = sys.argv[1:3]
    scripts = json.load(open(path))
    tr = hc.Trace(out)
    B = 10
    with hc.quiet():
        for i in range(0, len(scripts), B):
            if not hc.mine(i // B):
                continue
            tr.begin("gs-%d" % (i // B))
            with tr.guard():
                for n, sc in enumerate(scripts[i:i + B]):
                    one(tr, sc, n)
    tr.close()


main()
