"""C01: the classification functions on values that straddle every threshold."""
import gzip
import json
import math
import os
import shutil
import sys
import tempfile

import hc
import numpy as np
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.grids import termination_flags as tf
from posydon.utils import common_functions as cf

NAN, NONE = -999999, -888888
KIND = {  # hs, h, he, c, lh, lhe, ln
    "MS": (7000, 5000, 4800, 1, 3000, -9000, 3000),
    "HeB": (7000, 0, 5000, 2000, 2500, 3000, 3100),
    "HeD": (7000, 0, 0, 2000, 2500, 3000, 3100),
    "sHe": (0, 0, 5000, 2000, -99000, 3000, 3000),
    "sHeD": (0, 0, 0, 3000, -99000, 3000, 3000),
    "acc": (50, 5000, 4900, 1, 3000, -9000, 3000),
    "nb": (7000, 3000, 6000, 1, -99000, -99000, -50000),
}
COLS = ["surface_h1", "center_h1", "center_he4", "center_c12", "log_LH", "log_LHe", "log_Lnuc"]
TS = "termination code: min_timestep_limit"
LOGS = {
    1: ["Primary has depleted central carbon"], 2: ["max_age"], 3: [], 4: ["~noise"], 5: ["min_timestep_limit"],
    6: ["max_age", "min_timestep_limit"], 7: ["=Terminate because of overflowing initial model"], 8: ["~tpagb"],
    9: ["logQ_min_limit"], 10: ["=overflow from L2 (D_L2) distance for q(=Macc/Mdon)>1, donor is star 1", "~noise"],
    11: ["Secondary has depleted central carbon", "envelope_mass_limit"], 12: ["~tpagb", "min_timestep_limit"],
    13: ["min_timestep_limit", "~noise", "gamma_center_limit"], 14: ["forced_initial_RLO"],
}


def f(x, s):
    return math.nan if x == NAN else (None if x == NONE else x / s)


def star_of(x):
    return dict(co=False, hs=x[0], h=x[1], he=x[2], c=x[3], lh=x[4], lhe=x[5], ln=x[6])


def values(x):
    return [f(x["hs"], 1e4), f(x["h"], 1e4), f(x["he"], 1e4), f(x["c"], 1e4), f(x["lh"], 1e3), f(x["lhe"], 1e3), f(x["ln"], 1e3)]


def do_star(tr, sc, n):
    x = star_of([sc["hs"], sc["h"], sc["he"], sc["c"]] + sc["l"])
    v = dict(zip(COLS, values(x)))
    got = []
    if n % 2:
        got.append(cf.infer_star_state(star_mass=5., star_CO=False, **v))
    else:
        s = SingleStar(state="H-rich_Core_H_burning", mass=5., **v)
        got.append(cf.check_state_of_star(s))
        for k in STARPROPERTIES:       # the same star, two rows back
            setattr(s, k + "_history", [getattr(s, k), 1., 2.])
        s.surface_h1 = .123
        got.append(cf.check_state_of_star(s, i=-3))
        got.append(cf.check_state_of_star(s, i=0))
        got.append(cf.check_state_of_star_history_array(s, N=3)[0])
    for g in got:
        tr.ev("star", x=x, got=str(g))


def do_co(tr, sc):
    v = dict(zip(COLS[:4], [0., math.nan, None, 0.]))
    if sc["ab"]:
        v[COLS[sc["ab"] - 1]] = .3
    tr.ev("co", m=sc["m"], ab=bool(sc["ab"]), got=str(cf.infer_star_state(star_mass=f(sc["m"], 1e3), star_CO=True, **v)))


def pair(sc):
    b = BinaryStar(star_1=SingleStar(state=sc.get("st1", "NS"), mass=5.), star_2=SingleStar(state=sc.get("st2", "NS"), mass=4.))
    return b


def do_binary(tr, sc, n):
    b = pair(sc)
    b.star_1.state, b.star_2.state = sc["st1"], sc["st2"]
    b.rl_relative_overflow_1, b.rl_relative_overflow_2 = f(sc["rl1"], 1e3), f(sc["rl2"], 1e3)
    b.lg_mtransfer_rate = f(sc["rate"], 1e3)
    b.star_1.center_gamma, b.star_2.center_gamma = (f(x, 10.) for x in sc["g"])
    cls = None if sc["cls"] == "None" else sc["cls"]
    rec = dict(cls=sc["cls"], rl1=sc["rl1"], rl2=sc["rl2"], rate=sc["rate"], st1=sc["st1"], st2=sc["st2"], g1=sc["g"][0], g2=sc["g"][1])
    got = [cf.get_binary_state_and_event_and_mt_case(b, cls)]
    if n % 2:
        for k in BINARYPROPERTIES:
            setattr(b, k + "_history", [getattr(b, k), None])
        for s in (b.star_1, b.star_2):
            for k in STARPROPERTIES:
                setattr(s, k + "_history", [getattr(s, k), None])
        b.rl_relative_overflow_1, b.lg_mtransfer_rate = -.2, -20.
        b.star_1.state = b.star_2.state = "BH" if n % 4 == 1 else "H-rich_Core_He_burning"
        got.append(cf.get_binary_state_and_event_and_mt_case(b, cls, i=0))
    for g in got:
        tr.ev("binary", b=rec, got=[str(x) for x in g])


def do_cum(tr, sc):
    num = {"no_RLO": 0, "A": 1, "B": 2, "C": 3, "BA": 4, "BB": 5, "BC": 6, "nonburning": 8, "?": 9}
    cases = [num[c] + (10 if d == "2" else 0) for d, c in sc["q"]]
    keep = list(cases)
    got = cf.cumulative_mass_transfer_flag(cases, shift_cases=sc["shift"])
    tr.ev("cum", q=[dict(d=d, c=c) for d, c in sc["q"]], shift=sc["shift"], got=str(got) if cases == keep else "arguments changed")


def do_flags(tr, sc, n, base):
    rows = []
    for j, r in enumerate(sc["rows"]):
        a, b = (star_of(KIND[k]) for k in r["k"].split("+"))
        if sc["co"]:
            b = dict(b, co=True)
        rows.append(dict(rl1=r["rl1"], rl2=r["rl2"], rate=r["rate"], a=a, b=b, m1=9000 - 10 * j, m2=[1400, 20000, 900][n % 3] + 10 * j))
    bh = np.zeros(len(rows), dtype=[(k, "f8") for k in ("rl_relative_overflow_1", "rl_relative_overflow_2", "lg_mtransfer_rate", "star_1_mass", "star_2_mass")])
    hs = [np.zeros(len(rows), dtype=[(k, "f8") for k in COLS]) for _ in (1, 2)]
    for j, r in enumerate(rows):
        bh[j] = (r["rl1"] / 1e3, r["rl2"] / 1e3, r["rate"] / 1e3, r["m1"] / 1e3, r["m2"] / 1e3)
        for h, x in zip(hs, (r["a"], r["b"])):
            h[j] = tuple(values(x))
    lines, text = [], ["some output", "star_age 1", ""]
    for w in LOGS[sc["log"]]:
        if w == "~noise":
            text.append("save LOGS because of termination")
            lines.append(dict(k="other", what="", ts=False))
        elif w == "~tpagb":
            text.append("stop because min_timestep_limit: Reached TPAGB")
            lines.append(dict(k="tpagb", what="", ts=True))
        else:
            eq = w.startswith("=")
            w = w.lstrip("=")
            text.append(("Terminate: " if eq else "termination code: ") + w)
            lines.append(dict(k="end", what=w, ts="min_timestep_limit" in w))
        text.append("  more output")
    path = os.path.join(base, "out.txt" + (".gz" if n % 2 else ""))
    with (gzip.open if n % 2 else open)(path, "wt") as fh:
        fh.write("\n".join(text) + "\n")
    rec = dict(rows=rows, lines=lines, start=sc["start"], err="none", got=[], cls="")
    try:
        got = tf.get_flags_from_MESA_run(path, binary_history=bh, history1=hs[0], history2=None if sc["co"] else hs[1], start_at_RLO=sc["start"])
        rec["got"] = [str(g) for g in got]
        rec["cls"] = str(tf.infer_interpolation_class(got[0], got[1]))
    except Exception as e:      # noqa
        rec["err"] = type(e).__name__
    tr.ev("flags", **rec)


def see(b):
    def t(x):
        return str(x)
    one = dict(star=[t(getattr(b.star_1, k)) for k in ("mass", "state", "spin", "mass_history", "state_history")])
    two = dict(star=[t(getattr(b.star_2, k)) for k in ("mass", "state", "spin", "mass_history", "state_history")])
    for k in ("t_sync_rad_", "t_sync_conv_", "rl_relative_overflow_"):
        one[k], two[k] = t(getattr(b, k + "1")), t(getattr(b, k + "2"))
        one[k + "h"], two[k + "h"] = t(getattr(b, k + "1_history")), t(getattr(b, k + "2_history"))
    skip = ("state", "event", "mass_transfer_case")
    rest = [k + "=" + t(getattr(b, k)) for k in BINARYPROPERTIES if k not in skip and not k[-2:] in ("_1", "_2")]
    return dict(state=t(b.state), event=t(b.event), case=t(b.mass_transfer_case), states=[t(x) for x in b.state_history],
                events=[t(x) for x in b.event_history], cases=[t(x) for x in b.mass_transfer_case_history], one=one, two=two, rest=rest)


def do_flip(tr, sc):
    s1 = SingleStar(state="H-rich_Core_He_burning", mass=5., spin=.1)
    s2 = SingleStar(state="NS", mass=1.4, spin=.7)
    none = lambda x: None if x == "None" else x
    b = BinaryStar(star_1=s1, star_2=s2, state=sc["state"], event=none(sc["event"]), orbital_period=3., separation=20., eccentricity=.1,
                   time=5., t_sync_rad_1=1., t_sync_rad_2=2., t_sync_conv_1=3., t_sync_conv_2=4., rl_relative_overflow_1=.1,
                   rl_relative_overflow_2=-.3, lg_mtransfer_rate=-4., V_sys=[1., 2., 3.])
    b.mass_transfer_case = sc["case"]
    h = sc["hist"]
    b.event_history = [none(e) for e in h]
    b.state_history = [("RLO" + e[-1]) if e[-1] in "12" else "contact" for e in h]
    b.mass_transfer_case_history = ["case_B" + e[-1] if e[-1] in "12" else "None" for e in h]
    b.rl_relative_overflow_1_history, b.rl_relative_overflow_2_history = [.5] * len(h), [.6] * len(h)
    b.t_sync_rad_1_history, b.t_sync_rad_2_history = [.7] * len(h), [.8] * len(h)
    pre = see(b)
    cf.flip_stars(b)
    post = see(b)
    cf.flip_stars(b)
    tr.ev("flip", pre=pre, post=post, twice=see(b))


def main():
    out, path = sys.argv[1:3]
    scripts = json.load(open(path))
    tr = hc.Trace(out)
    base = tempfile.mkdtemp(dir=hc.WORK)
    B = 25
    with hc.quiet():
        for i in range(0, len(scripts), B):
            if not hc.mine(i // B):
                continue
            tr.begin("st-%d" % (i // B))
            with tr.guard():
                for n, sc in enumerate(scripts[i:i + B]):
                    w = sc["what"]
                    if w == "star":
                        do_star(tr, sc, n)
                    elif w == "co":
                        do_co(tr, sc)
                    elif w == "binary":
                        do_binary(tr, sc, n)
                    elif w == "cum":
                        do_cum(tr, sc)
                    elif w == "flags":
                        do_flags(tr, sc, n, base)
                    else:
                        do_flip(tr, sc)
    shutil.rmtree(base, ignore_errors=True)
    tr.close()


main()
