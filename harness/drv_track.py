"""M02: binaries follow runs made here through the real grid steps."""
import json
import math
import sys

import hc
import mesa_common as mc
import numpy as np
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar
from posydon.grids.SN_MODELS import SN_MODELS

UNIT = 1e5
AGES = [0, 8, 16, 32, 64, 80]
KIND = {  # hs, h, he, c, lh, lhe, ln
    "MS": (7000, 5000, 4800, 1, 3000, -9000, 3000), "HeB": (7000, 0, 5000, 2000, 2500, 3000, 3100), "HeD": (7000, 0, 0, 2000, 2500, 3000, 3100),
    "sHe": (0, 0, 5000, 2000, -99000, 3000, 3000), "sHeD": (0, 0, 0, 3000, -99000, 3000, 3000)}
EVO = {"MS": ["MS"] * 6, "late": ["MS", "MS", "HeB", "HeB", "HeD", "HeD"], "strip": ["sHe", "sHe", "sHe", "sHeD", "sHeD", "sHeD"]}
COMP = ["surface_h1", "center_h1", "center_he4", "center_c12", "log_LH", "log_LHe", "log_Lnuc"]
# property -> column of a run
STAR = {k: k for k in """log_R log_L he_core_mass he_core_radius c_core_mass c_core_radius o_core_mass o_core_radius co_core_mass co_core_radius
    center_h1 center_he4 center_c12 center_n14 center_o16 surface_h1 surface_he4 surface_c12 surface_n14 surface_o16 log_LH log_LHe log_LZ log_Lnuc
    c12_c12 surf_avg_omega surf_avg_omega_div_omega_crit total_moment_of_inertia log_total_angular_momentum conv_env_top_mass conv_env_bot_mass
    conv_env_top_radius conv_env_bot_radius conv_env_turnover_time_g conv_env_turnover_time_l_b conv_env_turnover_time_l_t envelope_binding_energy
    mass_conv_reg_fortides thickness_conv_reg_fortides radius_conv_reg_fortides lambda_CE_1cent lambda_CE_10cent lambda_CE_30cent
    lambda_CE_pure_He_star_10cent total_mass_h1 total_mass_he4""".split()}
STAR["spin"] = "spin_parameter"
STARBH = dict(lg_mdot="lg_mstar_dot", lg_system_mdot="lg_system_mdot", lg_wind_mdot="lg_wind_mdot")
BIN = dict(separation="binary_separation", orbital_period="period_days", rl_relative_overflow_1="rl_relative_overflow_1",
           rl_relative_overflow_2="rl_relative_overflow_2", lg_mtransfer_rate="lg_mtransfer_rate", trap_radius="trap_radius", acc_radius="acc_radius",
           t_sync_rad_1="t_sync_rad_1", t_sync_conv_1="t_sync_conv_1", t_sync_rad_2="t_sync_rad_2", t_sync_conv_2="t_sync_conv_2")
FLOWS = {"none": (-300, -400, -20000), "one": (100, -400, -5000), "two": (-300, 100, -5000), "both": (100, 50, -5000), "heavy": (100, -400, -1000)}
G, C, MSUN, RSUN, YR = 6.67428e-8, 2.99792458e10, 1.9892e33, 6.96e10, 3.1558149984e7


def i3(x):
    return -777777 if x is None or (isinstance(x, float) and math.isnan(x)) else int(round(float(x) * 1e3))


def other(k, flip):
    if flip and k[-2:] in ("_1", "_2"):
        return k[:-1] + ("2" if k[-1] == "1" else "1")
    return k


def row(sc, j, co, extra=0.):
    w = [0, 3, 4, 9, 11, 12][j] + extra
    flow = FLOWS[sc["flow"] if j >= 2 else "none"]
    r = dict(age=AGES[j] * UNIT, star_1_mass=12. - .05 * w, star_2_mass=(8. + .03 * w) if co is None else ((9. if co == "BH" else 1.4) + .01 * w),
             period_days=20. + w, binary_separation=70. + 2 * w, rl_relative_overflow_1=flow[0] / 1e3, rl_relative_overflow_2=flow[1] / 1e3,
             lg_mtransfer_rate=flow[2] / 1e3)
    r["lg_mstar_dot_2"] = {"none": -15., "one": -9., "heavy": -2.}.get(sc["flow"] if j >= 2 else "none", -9.) + .02 * w
    for i, c in enumerate(mc.BCOLS):
        if c not in r:
            r[c] = (-9. - .01 * w) if "mdot" in c or "mstar" in c else 1. + .1 * i + (1 + i % 3) * .05 * w
    for s, name in ((1, EVO[sc["evo"]][j]), (2, "MS")):
        d = dict(zip(COMP, (v / (1e4 if q < 4 else 1e3) for q, v in enumerate(KIND[name]))))
        for i, c in enumerate(mc.SCOLS):
            if c not in d:
                d[c] = .2 + .01 * i + .3 * s + (1 + i % 2) * .01 * w
        d["log_R"], d["center_gamma"] = .6 + .01 * w + .1 * s, 1.
        r["s%d" % s] = d
    return r


def vector(r, pick, co):
    out = [i3(r["star_1_mass"]), i3(r["star_2_mass"])] + [i3(r[BIN[k]]) for k in pick["bin"]]
    for s in (1, 2):
        if s == 1 or co is None:
            out += [i3(r["s%d" % s][STAR[k]]) for k in pick["star"]] + [i3(r[STARBH[k] + "_%d" % s]) for k in pick["bh"]]
    return out


def seen(b, pick, co, flip, j=None):
    g = (lambda o, k: getattr(o, k)) if j is None else (lambda o, k: getattr(o, k + "_history")[j])
    A, B = (b.star_2, b.star_1) if flip else (b.star_1, b.star_2)
    out = [i3(g(A, "mass")), i3(g(B, "mass"))] + [i3(g(b, other(k, flip))) for k in pick["bin"]]
    for s, o in ((1, A), (2, B)):
        if s == 1 or co is None:
            out += [i3(g(o, k)) for k in pick["star"]] + [i3(g(o, k)) for k in pick["bh"]]
    return out


def edd(m, x, co):
    eta = 1 - math.sqrt(8. / 9.) if co == "BH" else G * m * MSUN / (12.5e5 * C * C)
    return math.log10(4 * math.pi * G * m * MSUN / (.2 * (1 + x) * eta * C) / (MSUN / YR))


def radius(m, co):
    return math.log10(2 * G * m * MSUN / C ** 2 / RSUN if co == "BH" else 12.5e5 / RSUN)


def spin(a, m0, m1):
    z1 = 1 + (1 - a * a) ** (1 / 3) * ((1 + a) ** (1 / 3) + (1 - a) ** (1 / 3))
    z2 = math.sqrt(3 * a * a + z1 * z1)
    r = 3 + z2 - math.sqrt((3 - z1) * (3 + z1 + 2 * z2))
    q = m0 / m1
    return math.sqrt(r) / 3 * q * (4 - math.sqrt(3 * r * q * q - 2))


def snap(b):
    out = [str([getattr(b, k), getattr(b, k + "_history")]) for k in BINARYPROPERTIES if k not in ("state", "event", "mass_transfer_case")]
    for s in (b.star_1, b.star_2):
        out += [str([getattr(s, k), getattr(s, k + "_history")]) for k in STARPROPERTIES]
    return out


def one(tr, sc, n):
    rng = hc.rng(n)
    co = None if sc["step"] == "MS_MS" else sc["co"]
    flip = sc["flip"]
    nr = sc["n"]
    pick = dict(bin=sorted(rng.sample(sorted(BIN), 4)), star=sorted(rng.sample(sorted(STAR), 6)),
                bh=sorted(rng.sample(sorted(STARBH), 1)))
    rows = [row(sc, j, co) for j in range(nr)]
    fin = row(sc, max(nr - 1, 0), co, extra=1.5)
    t0, ages = sc["t0"], AGES[:max(nr, 2)]
    k = {"row": len(ages) - 2, "mid": len(ages) - 2, "mid2": 1, "early": 0}.get(sc["max"])
    mx = {"late": t0 + 1000, "end": t0 + ages[-1], "start": t0}.get(sc["max"])
    if mx is None:
        mx = t0 + ages[k] + (0 if sc["max"] == "row" else (ages[k + 1] - ages[k]) // 4)
    kw = dict(track_interpolation=sc["track"], save_initial_conditions=sc["save"], stop_method=sc["stop"], stop_interpolate=sc["interp"], RNG=np.random.default_rng(n))
    isif = sc["method"] == "IF"
    finals = None
    none = nr == 0 if not isif else sc["fin"] == 999
    fint = 0
    flags = [sc["cls"], "case_B1", "stuff"]
    if isif:
        kw["interpolation_method"] = "linear_kNN"
        finals = mc.Finals()
        fint = ages[-1] + (0 if none else sc["fin"])
        fv = {c: fin[c] for c in mc.BCOLS}
        fv["age"] = np.nan if none else fint * UNIT
        for s in (1, 2):
            fv.update({"S%d_%s" % (s, c): v for c, v in fin["s%d" % s].items()})
            fv.update({"S%d_%s" % (s, c): float(s) for c in mc.POST})
        cl = dict(interpolation_class=sc["cls"], mt_history="stuff")
        cl.update({"S%d_%s_CO_type" % (s, m): "None" for s in (1, 2) for m in SN_MODELS})
        finals.answer = (fv, cl)
    rec = dict(err="none", got={}, flags=[], other=[], len0=sc["len0"])
    x = dict(cls=sc["cls"], t0=t0, max=mx, track=sc["track"], save=sc["save"], stop=sc["stop"], interp=sc["interp"], method=sc["method"],
             fin=vector(fin, pick, co), fint=fint, none=none, flip=flip, rows=[])
    for j, r in enumerate(rows):
        a, bb = (dict(zip(("hs", "h", "he", "c", "lh", "lhe", "ln"), KIND[q])) for q in (EVO[sc["evo"]][j], "MS"))
        x["rows"].append(dict(t=AGES[j], v=vector(r, pick, co), a=dict(a, co=False), b=dict(bb, co=co is not None), rl1=i3(r["rl_relative_overflow_1"]),
                              rl2=i3(r["rl_relative_overflow_2"]), rate=i3(r["lg_mtransfer_rate"]), m1=i3(r["star_1_mass"]), m2=i3(r["star_2_mass"])))
    grid = mc.Grid([(1., .5, 1., 0), (50., 40., 1000., 0)])
    first = {"MS_MS": "H-rich_Core_H_burning", "CO_HeMS": "stripped_He_Core_He_burning", "CO_HMS_RLO": "H-rich_Core_H_burning"}[sc["step"]]
    A = SingleStar(state=first, mass=12.1, metallicity=1., spin=.3, log_R=.6)
    B = SingleStar(state=co or "H-rich_Core_H_burning", mass=8.1 if co is None else (8.9 if co == "BH" else 1.39), metallicity=1., spin=.3, log_R=.2)
    A.tag, B.tag = (2, 1) if flip else (1, 2)
    d = "2" if flip else "1"
    ev = {"MS_MS": "ZAMS", "CO_HeMS": None, "CO_HMS_RLO": "oRLO" + d}[sc["step"]]
    b = BinaryStar(star_1=B if flip else A, star_2=A if flip else B, state="RLO" + d if sc["step"] == "CO_HMS_RLO" else "detached", event=ev,
                   orbital_period=21., separation=71., eccentricity=0., V_sys=[1., 2., 3.], time=t0 * UNIT,
                   properties=SimulationProperties(max_simulation_time=mx * UNIT))
    for _ in range(sc["len0"] - 1):
        b.append_state()
    pre = snap(b)
    got = dict(state="", same=True)
    try:
        st = mc.make(sc["step"], grid, finals, **kw)
        if hasattr(st, "_psyTrackInterp"):
            sn = {"S%d_%s" % (s, q): (("BH" if s == 1 else "None") if q == "CO_type" else 1.) for s in (1, 2) for q in (
                "CO_type", "SN_type", "f_fb", "mass", "spin", "m_disk_accreted", "m_disk_radiated", "M4", "mu4", "h1_mass_ej", "he4_mass_ej")}
            st._psyTrackInterp.answer = (mc.Run(rows or None, co=None if co is None else 2, sn=sn), flags)
        st(b)
    except Exception as e:      # noqa
        rec["err"] = type(e).__name__ + ": " + str(e)[:80]
        tr.ev("track", x=x, **rec)
        return
    L0 = sc["len0"]
    A, B = (b.star_2, b.star_1) if flip else (b.star_1, b.star_2)
    lens = sorted({len(getattr(o, k + "_history")) for o, ks in ((b, BINARYPROPERTIES), (A, STARPROPERTIES), (B, STARPROPERTIES)) for k in ks})
    got.update(state=str(b.state), event=str(b.event), case=str(b.mass_transfer_case), same=snap(b) == pre, time=round(b.time / UNIT), lens=lens,
               v=seen(b, pick, co, flip), stars=[str(A.state), str(B.state)], times=[], rows=[], states=[], bstates=[], mdot=[], co=[],
               tags=[b.star_1.tag, b.star_2.tag], other=[i3(b.eccentricity)] + [i3(q) for q in b.V_sys] + [i3(A.metallicity), i3(B.metallicity)])
    rec["other"] = [0, 1000, 2000, 3000, 1000, 1000]
    name = sorted(SN_MODELS)[0]
    got["flags"] = [str(getattr(b, q + st.grid_type, None)) for q in ("interp_class_", "cumulative_mt_case_", "mt_history_")]
    got["flags"] += [str((getattr(o, name, None) or {}).get("state")) for o in (A, B)]
    rec["flags"] = flags + (["None", "None"] if sc["cls"] == "unstable_MT" else ["BH", "None"])
    if len(lens) == 1:
        for j in range(L0, lens[0]):
            got["times"].append(round(b.time_history[j] / UNIT))
            got["rows"].append(seen(b, pick, co, flip, j))
            got["states"].append([str(A.state_history[j]), str(B.state_history[j])])
            got["bstates"].append(str(b.state_history[j]))
        if co is not None and b.state != "initial_RLOF":
            base = rows[0]["star_2_mass"]
            uses = not isif or (sc["stop"] == "stop_at_max_time" and t0 + fint > mx)
            if not uses:
                base = 8.9 if co == "BH" else 1.39
            for j in list(range(L0, lens[0])) + [None]:
                m, r, a, md, xs = ((o.mass, o.log_R, o.spin, o.lg_mdot, A.surface_h1) if j is None else
                                   (o.mass_history[j], o.log_R_history[j], o.spin_history[j], o.lg_mdot_history[j], A.surface_h1_history[j]) for o in (B,)).__next__()
                got["co"].append([[i3(r), i3(a)], [i3(radius(m, co)), i3(spin(.3, base, m))]])
                run = -99999
                if j is None and not (uses and mx < t0 + ages[-1] and sc["stop"] == "stop_at_max_time"):
                    run = i3((rows[-1] if uses else fin)["lg_mstar_dot_2"])
                got["mdot"].append([i3(md), run, i3(edd(m, xs, co))])
    rec["got"] = got
    tr.ev("track", x=x, **rec)


def main():
    out, path = sys.argv[1:3]
    scripts = json.load(open(path))
    tr = hc.Trace(out)
    B = 10
    with hc.quiet():
        for i in range(0, len(scripts), B):
            if not hc.mine(i // B):
                continue
            tr.begin("tk-%d" % (i // B))
            with tr.guard():
                for n, sc in enumerate(scripts[i:i + B]):
                    one(tr, sc, i + n)
    tr.close()


main()
