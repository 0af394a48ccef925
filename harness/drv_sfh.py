"""N02: asks the real star formation histories for shares of metallicity bins.
The data files of the tabulated histories are written here, so the share below
every position is known exactly; the analytic ones follow their papers."""
import json
import os
import shutil
import sys
import tempfile

import hc
import numpy as np
from posydon.popsyn import star_formation_history as S
from posydon.utils.constants import Zsun
from scipy.stats import norm

MODEL = {1: "IllustrisTNG", 2: "Chruslinska+21", 3: "Madau+Fragos17", 4: "Madau+Dickinson14", 5: "Fujimoto+24", 6: "Neijssel+19", 7: "Zavala+21"}
PAR = {3: (.01, 2.6, 3.2, 6.2), 4: (.015, 2.7, 2.9, 5.6), 5: (.010, 2.8, 3.3, 6.6), 6: (.01, 2.77, 2.9, 4.7)}
W = {1: [[0, 1, 1, 1, 1, 1, 1, 1], [0, 4, 3, 2, 2, 1, 0, 0], [0, 0, 0, 9, 0, 0, 1, 0]],
     2: [[0, 0, 0, 2, 5, 2, 0, 0], [0, 1, 0, 1, 0, 1, 0, 1], [0, 6, 1, 0, 0, 0, 0, 2]],
     3: [[0, 3, 0, 0, 0, 0, 0, 3], [0, 0, 2, 2, 2, 2, 0, 0], [0, 1, 2, 3, 4, 5, 6, 7]],
     4: [[0, 0, 0, 0, 0, 0, 5, 1], [0, 5, 1, 0, 0, 0, 0, 0], [0, 2, 2, 0, 0, 2, 2, 0]]}
ZR = [0.2, 1.0, 3.5]                        # redshifts of the tables
ALLZ = [0.05, 0.2, 0.6, 1.0, 2.2, 3.5, 5.0]         # redshifts asked for
SOLAR = {"Asplund09": (.0134, 8.69), "AndersGrevesse89": (.017, 8.83), "GrevesseSauval98": (.0201, 8.93), "Villante14": (.019, 8.85)}


def six(x):
    return int(round(1e6 * float(x)))


def setup(work):
    S.PATH_TO_POSYDON_DATA = work
    os.makedirs(os.path.join(work, "SFR", "Chruslinska+21"))


def tabulated(c, k, work):
    """writes the data; returns the positions' metallicities, F per row, the rate per row"""
    w = np.array(W[c["w"]], dtype=float)
    if c["m"] == 1:
        Z = 10**(-4 + .5 * np.arange(9))
        sfr = np.array([.02, .07, .05]) * (1 + .1 * k)
        # stored from high to low redshift
        np.savez(os.path.join(work, "SFR", "IllustrisTNG.npz"), SFR=sfr[::-1], redshifts=np.array(ZR)[::-1], mets=Z[:8], M=w[::-1] * 3.)
        F = [np.append(np.cumsum(r) / r.sum(), 1.) for r in w]
        mean = [np.average(Z[:8], weights=r) for r in w]
        return Z, F, sfr, {}, mean
    sol = list(SOLAR)[k % 4]
    zs, oh = SOLAR[sol]
    foh = np.linspace(5.3, 9.7, 200)
    j = [24 * p + 5 for p in range(9)]
    M = np.zeros((3, 200))
    for r in range(3):
        for p in range(1, 8):
            n = j[p] - j[p - 1]
            M[r, j[p - 1] + 1:j[p] + 1] = w[r][p] * 2. * np.arange(1, n + 1) / (n * (n + 1))
    M *= 7e6
    dT = np.array([300., 500., 800.])
    folder = os.path.join(work, "SFR", "Chruslinska+21")
    # from high to low redshift
    np.savetxt(os.path.join(folder, "Time_redshift_deltaT.dat"), np.column_stack([[1., 2., 3.], ZR[::-1], dT]))
    np.savetxt(os.path.join(folder, "sub.dat"), M[::-1])
    F = [np.array([M[r, :q + 1].sum() for q in j]) / M[r].sum() for r in range(3)]
    mean = [np.average(10**(np.log10(zs) + foh - oh), weights=r) for r in M]
    return 10**(np.log10(zs) + foh[j] - oh), F, M.sum(axis=1) / (1e6 * dT[::-1]), dict(sub_model="sub", Z_solar_scaling=sol), mean


def one(tr, c, k, work):
    extra, sig = {}, None
    # Chruslinska+21 documents the use of the lowest redshift below its table
    ZQ = ALLZ if c["m"] == 2 and k % 3 else ALLZ[1:]
    if c["m"] <= 2:
        Z, F, sfr, extra, mean = tabulated(c, k, work)
        row = [max([r for r in range(3) if ZR[r] <= z] or [0]) for z in ZQ]
        Fs = [F[r] for r in row]
        rate = np.interp(ZQ, ZR, sfr)
        mean = np.interp(ZQ, ZR, mean)
    else:
        Z = 10**(-4 + .5 * np.arange(9))
        sig = [.5, .39, .3, "Bavera+20", "Neijssel+19", 1][k % 6]
        sg = {"Bavera+20": .5, "Neijssel+19": .39}.get(sig, sig)
        extra["sigma"] = sig
        zq = np.array(ZQ)
        if c["m"] == 6:
            mean = .035 * 10**(-.23 * zq)
            mu = np.log(mean) - sg**2 / 2
            Fs = [norm.cdf((np.log(Z) - m) / sg) for m in mu]
        else:
            mean = 10**(.153 - .074 * zq**1.34) * Zsun
            mu = np.log10(mean) - sg**2 * np.log(10) / 2
            Fs = [norm.cdf((np.log10(Z) - m) / sg) for m in mu]
        if c["m"] == 7:
            tab = np.array([[0., .01, .03], [1., .05, .06], [2., .07, .12], [6., .002, .004]])
            with open(os.path.join(work, "SFR", "Zavala+21.txt"), "w") as f:
                f.write("z min max\n" + "".join("%r %r %r\n" % tuple(map(float, r)) for r in tab))
            extra["sub_model"] = ["min", "max"][k % 2]
            rate = np.interp(zq, tab[:, 0], tab[:, 1 + k % 2])
        else:
            a, b, cc, d = PAR[c["m"]]
            rate = a * (1 + zq)**b / (1 + ((1 + zq) / cc)**d)
    model = dict(SFR=MODEL[c["m"]], **extra)
    if c["zmin"] >= 0:
        model["Z_min"] = float(Z[c["zmin"]])
    if c["zmax"] >= 0:
        model["Z_max"] = float(min(Z[c["zmax"]], 1.))
    if c["norm"] or k % 2:
        model["normalise"] = bool(c["norm"])
    edges = Z[c["edges"]]
    sf = S.get_SFH_model(dict(model))
    zq = np.array(ZQ)
    tot = np.asarray(sf.CSFRD(zq), dtype=float)
    for i in range(len(ZQ)):
        tr.ev("total", what=MODEL[c["m"]], obs=six(tot[i]), want=six(rate[i]))
    mm = np.asarray(sf.mean_metallicity(zq), dtype=float)
    for i in range(len(ZQ)):
        tr.ev("total", what="mean metallicity of " + MODEL[c["m"]], obs=six(mm[i]), want=six(mean[i]))
    fr = np.asarray(sf.fSFR(zq, edges), dtype=float)
    for i in range(len(ZQ)):
        good = bool(np.all(np.isfinite(fr[i])))
        tr.ev("share", F=[int(round(1e4 * x)) for x in Fs[i]], kinds="ok" if good else "nan",
              obs=[int(round(1e4 * x)) if np.isfinite(x) else 0 for x in fr[i]])
    full = np.asarray(S.SFR_per_met_at_z(zq, edges, dict(model)), dtype=float)
    for i in range(len(ZQ)):
        if np.all(np.isfinite(fr[i])):
            tr.ev("rate", obs=[six(x) if np.isfinite(x) else -1 for x in full[i]], want=[six(x * rate[i]) for x in fr[i]])


def main():
    path, scripts = sys.argv[1:3]
    work = tempfile.mkdtemp(dir=hc.WORK)
    setup(work)
    tr = hc.Trace(path)
    with hc.quiet():
        for n, c in enumerate(json.load(open(scripts))):
            if hc.mine(n):
                tr.begin("sfh-%d" % n, c=c)
                with tr.guard(), np.errstate(all="ignore"):
                    one(tr, c, n // 8, work)
    tr.close()
    shutil.rmtree(work, ignore_errors=True)


main()
