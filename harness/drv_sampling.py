"""N01: draws samples of initial binaries from the real generators and readers
and reports counts.  The exact distributions are written out here, from the
documentation of the schemes, as cumulative distribution functions."""
import json
import os
import shutil
import signal
import sys
import tempfile

import hc
import numpy as np
from posydon.popsyn import IMFs, distributions as D
from posydon.popsyn.independent_sample import generate_independent_samples
from posydon.popsyn.sample_from_file import get_kick_samples_from_file, get_samples_from_file
from posydon.popsyn.star_formation_history import get_formation_times
from posydon.utils.constants import age_of_universe
from scipy.stats import norm

EPS = 1e-9
SEED = int(os.environ.get("VERIF_SEED", "1"))


class Hang(Exception):
    pass


def on_alarm(*a):
    raise Hang("no answer within 20 s")


# ---------------------------------------------------------------- exact CDFs
def powerlaw(alpha, lo, hi):
    """density m^-alpha"""
    if alpha == 1.:
        return lambda m: np.log(m / lo) / np.log(hi / lo)
    g = 1. - alpha
    return lambda m: (m**g - lo**g) / (hi**g - lo**g)


def numeric(logpdf, lo, hi, knots=()):
    """CDF of an unnormalised density, by fine integration in log space"""
    edges = [lo] + sorted(k for k in knots if lo < k < hi) + [hi]
    x = np.concatenate([np.geomspace(a, b, 20001)[(0 if j == 0 else 1):] for j, (a, b) in enumerate(zip(edges, edges[1:]))])
    mid = np.sqrt(x[1:] * x[:-1])
    cum = np.concatenate([[0.], np.cumsum(logpdf(mid) * np.diff(x))])
    return lambda m: np.interp(np.log(m), np.log(x), cum / cum[-1])


def kroupa2001(lo, hi):
    def f(m):
        return np.where(m < .08, (m / .08)**-.3, np.where(m < .5, (m / .08)**-1.3, (.5 / .08)**-1.3 * (m / .5)**-2.3))
    return numeric(f, lo, hi, (.08, .5))


def chabrier(lo, hi):
    def ln(m):
        return np.exp(-(np.log10(m) - np.log10(.22))**2 / (2 * .57**2)) / m
    return numeric(lambda m: np.where(m < 1., ln(m), ln(1.) * m**-2.3), lo, hi, (1.,))


def loguniform(lo, hi):
    return lambda x: np.log(x / lo) / np.log(hi / lo)


def sana(lo, hi):
    """flat in log P below 0.15 dex, (log P)^-0.55 above; continuous"""
    a, b, k, s = np.log10(lo), np.log10(hi), .15, .55

    def prim(x):
        x = np.asarray(x, dtype=float)
        return np.where(x < k, (x - k) * k**-s, (np.maximum(x, k)**(1 - s) - k**(1 - s)) / (1 - s))
    return lambda p: (prim(np.log10(p)) - prim(a)) / (prim(b) - prim(a))


def lognormal(mu, sg, lo, hi):
    a, b = norm.cdf((np.log10(lo) - mu) / sg), norm.cdf((np.log10(hi) - mu) / sg)
    return lambda x: (norm.cdf((np.log10(x) - mu) / sg) - a) / (b - a)


def bins(u):
    u = np.asarray(u, dtype=float)
    u = u[np.isfinite(u)]
    return [int(x) for x in np.histogram(np.clip(u, 0., 1. - 1e-12), bins=10, range=(0., 1.))[0]], len(u)


def hist(tr, what, u):
    b, n = bins(u)
    if n:
        tr.ev("hist", what=what, bins=b, n=n)


def quad(tr, what, u, v):
    ok = np.isfinite(u) & np.isfinite(v)
    u, v = u[ok] > .5, v[ok] > .5
    if len(u):
        tr.ev("quad", what=what, n=len(u), q=[int(np.sum(u & v)), int(np.sum(u & ~v)), int(np.sum(~u & v)), int(np.sum(~u & ~v))])


def out(x, lo, hi):
    x = x[np.isfinite(x)]
    return int(np.sum((x < lo * (1 - EPS)) | (x > hi * (1 + EPS))))


# ------------------------------------------------------- independent samples
M1S = {1: "Salpeter", 2: "Kroupa1993", 3: "Kroupa2001"}
M1R = {0: (7., 120.), 1: (.5, 150.), 2: (.1, 12.), 3: (14., 300.)}
M2R = {0: (.35, 120.), 1: (.05, 20.), 2: (.08, 400.)}
PR = {0: (.35, 10**3.5), 1: (1., 6000.), 2: (100., 1000.)}
SR = {0: (5., 1e5), 1: (1., 100.), 2: (50., 5e3)}
ECC = {1: "thermal", 2: "uniform", 3: "zero"}


def m1cdf(sch, lo, hi):
    return powerlaw(2.35, lo, hi) if sch == 1 else powerlaw(2.7, lo, hi) if sch == 2 else kroupa2001(lo, hi)


def indep(tr, c, seed):
    kw = dict(number_of_binaries=c["n"], primary_mass_scheme=M1S[c["m1s"]], eccentricity_scheme=ECC[c["ecc"]])
    m1lo, m1hi = M1R[c["m1r"]]
    if c["m1r"]:
        kw.update(primary_mass_min=m1lo, primary_mass_max=m1hi)
    m2lo, m2hi = M2R[c["m2r"]]
    kw["secondary_mass_scheme"] = "q=1" if c["m2s"] else "flat_mass_ratio"
    if m2lo > m1lo:                          # the request has to be satisfiable
        m2lo = m1lo * .5
    if c["m2r"] or m2lo != M2R[0][0]:
        kw.update(secondary_mass_min=m2lo, secondary_mass_max=m2hi)
    per = c["orb"] < 3
    if per:
        olo, ohi = PR[c["orb"]]
        orbital = "period"
        if c["orb"]:
            kw.update(orbital_period_min=olo, orbital_period_max=ohi)
        kw["orbital_period_scheme"] = "Sana+12_period_extended"
    else:
        olo, ohi = SR[c["orb"] % 3]
        orbital = "separation"
        if c["orb"] % 3:
            kw.update(orbital_separation_min=olo, orbital_separation_max=ohi)
        if c["orb"] < 6:
            kw["orbital_separation_scheme"] = "log_uniform"
            ocdf = loguniform(olo, ohi)
        else:
            mu, sg = (.85, .37) if c["orb"] == 6 else (1.9, .6)
            kw.update(orbital_separation_scheme="log_normal", log_orbital_separation_mean=mu, log_orbital_separation_sigma=sg)
            ocdf = lognormal(mu, sg, olo, ohi)
    if c["bf"] == -1:
        kw["binary_fraction_scheme"] = "Moe+17-massdependent"
    elif c["bf"] != 1000 or c["n"] % 2:
        kw.update(binary_fraction_scheme="const", binary_fraction_const=c["bf"] / 1000.)

    def draw():
        return [np.array(x, dtype=float) for x in generate_independent_samples(orbital, RNG=np.random.default_rng(seed), **dict(kw))]
    orb, ecc, m1, m2 = res = draw()
    n = c["n"]
    if [len(x) for x in res] != [n] * 4:
        tr.ev("table", len=[len(x) for x in res], m1nan=0, mixed=0, out_m1=0, out_m2=0, heavier=0, unequal=0, out_orb=0, out_e=0, nonzero_e=0, singles=0)
        return
    nan = np.isnan(orb).astype(int) + np.isnan(ecc) + np.isnan(m2)
    binm = nan == 0
    m2lim = (0., 1e9) if c["m2s"] else (m2lo, m2hi)
    with np.errstate(invalid="ignore"):
        tr.ev("table", len=[n] * 4, m1nan=int(np.sum(np.isnan(m1))), mixed=int(np.sum((nan > 0) & (nan < 3))),
              out_m1=out(m1, m1lo, m1hi), out_m2=out(m2, *m2lim), heavier=int(np.sum(m2 > m1 * (1 + EPS))),
              unequal=int(np.sum((m2 != m1) & binm)), out_orb=out(orb, olo, ohi), out_e=int(np.sum((ecc < 0) | (ecc >= 1.))),
              nonzero_e=int(np.sum((ecc != 0) & binm)), singles=int(np.sum(nan == 3)))
    again = draw()
    tr.ev("same", ok=all(np.array_equal(a, b, equal_nan=True) for a, b in zip(res, again)))
    u1 = m1cdf(c["m1s"], m1lo, m1hi)(np.clip(m1, m1lo, m1hi))
    hist(tr, "primary mass", u1)
    us = {"primary mass": u1}
    if not c["m2s"]:
        qlo, qhi = m2lo / m1, np.minimum(m2hi / m1, 1.)
        us["mass ratio"] = (m2 / m1 - qlo) / (qhi - qlo)
    if per:
        us["orbit"] = np.where(m1 <= 15., loguniform(olo, ohi)(orb), sana(olo, ohi)(orb))
    else:
        us["orbit"] = ocdf(orb)
    if c["ecc"] < 3:
        us["eccentricity"] = ecc**2 if c["ecc"] == 1 else ecc.copy()
    heavy = m1 > 15.
    for k, u in us.items():
        if k != "primary mass":
            hist(tr, k + " of light systems", u[~heavy])
            hist(tr, k + " of heavy systems", u[heavy])
    ks = list(us)
    for a in range(len(ks)):
        for b in range(a):
            quad(tr, ks[b] + " and " + ks[a], us[ks[b]], us[ks[a]])
    # independence of the draw of single stars: the median of the primary mass does not matter for a constant share
    for cls, (lo, hi) in enumerate([(0, 2), (2, 5), (5, 9), (9, 16), (16, 1e9)], 1):
        sel = (m1 > lo) & (m1 <= hi)
        if sel.any():
            tr.ev("share", cls=cls, n=int(sel.sum()), nb=int(np.sum(binm & sel)))


# ------------------------------------------------------------- distributions
def dist_of(d, r):
    """object, cdf, lo, hi, measure ('x' or 'log10'), extra arguments"""
    m = [(.01, 200.), (7., 120.), (.3, 2.), (.05, .4), (1., 300.)][r]
    q = [(.05, 1.), (.1, .9), (.5, 1.), (.05, .2), (.3, .31)][r]
    p = [(.35, 6000.), (.5, 1.2), (100., 1000.), (.2, .9), (2., 3e6)][r]
    e = [(0., 1.), (.1, .9), (0., .3), (.5, 1.), (.2, .21)][r]
    a = [(5., 1e5), (1., 10.), (50., 5e3), (100., 1e4), (3., 30.)][r]
    al = [0., 1., -.5, 2., 1.5][r]
    if d == 1:
        return IMFs.Salpeter(m_min=m[0], m_max=m[1]), powerlaw(2.35, *m), m, "x", {}
    if d == 2:
        return IMFs.Kroupa1993(m_min=m[0], m_max=m[1]), powerlaw(2.7, *m), m, "x", {}
    if d == 3:
        return IMFs.Kroupa2001(m_min=m[0], m_max=m[1]), kroupa2001(*m), m, "x", {}
    if d == 4:
        return IMFs.Chabrier2003(m_min=m[0], m_max=m[1]), chabrier(*m), m, "x", {}
    if d == 5:
        return D.FlatMassRatio(*q), (lambda x: (x - q[0]) / (q[1] - q[0])), q, "x", {}
    if d == 6:
        return D.PowerLawMassRatio(al, *q), powerlaw(-al, *q), q, "x", {}
    if d == 7:
        return D.Sana12Period(*p), loguniform(*p), p, "log10", dict(m1=9.)
    if d == 8:
        return D.Sana12Period(*p), sana(*p), p, "log10", dict(m1=40.)
    if d == 9:
        sl = [-.55, .2, -1., -.1, -.3][r]
        return D.PowerLawPeriod(sl, *p), powerlaw(1. - sl, *p), p, "log10", {}
    if d == 10:
        return D.ThermalEccentricity(*e), (lambda x: (x**2 - e[0]**2) / (e[1]**2 - e[0]**2)), e, "x", {}
    if d == 11:
        return D.UniformEccentricity(*e), (lambda x: (x - e[0]) / (e[1] - e[0])), e, "x", {}
    mu, sg = [(.85, .37), (.5, .3), (2.5, .5), (3., 1.), (1., .8)][r]
    return D.LogNormalSeparation(mu, sg, *a), lognormal(mu, sg, *a), a, "x", {}


def quantiles(cdf, lo, hi):
    """the values x_k with cdf(x_k) = k/10, by bisection"""
    res = []
    for k in range(1, 10):
        a, b = lo, hi
        for _ in range(200):
            x = .5 * (a + b)
            if cdf(np.array([x]))[0] < k / 10.:
                a = x
            else:
                b = x
        res.append(.5 * (a + b))
    return res + [hi]


def dist(tr, c, seed):
    ob, cdf, (lo, hi), measure, kw = dist_of(c["d"], c["r"])
    x = np.asarray(ob.rvs(size=c["n"], rng=np.random.default_rng(seed), **kw), dtype=float)
    tr.ev("range", len=int(x.size), out=out(x, lo, hi) + int(np.sum(~np.isfinite(x))))
    if x.size == c["n"]:
        hist(tr, type(ob).__name__, cdf(np.clip(x, lo, hi)))
    y = np.asarray(ob.rvs(size=c["n"], rng=np.random.default_rng(seed), **kw), dtype=float)
    tr.ev("same", ok=bool(np.array_equal(x, y)))
    # the density: its integral up to the exact deciles
    qs = quantiles(cdf, lo, hi)
    cum, tot, prev = [], 0., lo
    neg = 0
    for b in qs:
        if lo > 0:
            ed = np.geomspace(prev, b, 4001)
        else:
            ed = np.linspace(prev, b, 4001)
        mid = .5 * (ed[1:] + ed[:-1])
        f = np.asarray(ob.pdf(mid, **kw), dtype=float)
        neg += int(np.sum(~(f >= 0)))
        w = np.diff(ed) if measure == "x" else np.diff(np.log10(ed))
        tot += float(np.sum(f * w))
        cum.append(int(round(1e4 * tot)) if np.isfinite(tot) else -10**6)
        prev = b
    if c["d"] in (1, 2, 3, 4):              # documented to warn and still return: not asked outside
        outside = 0
        o = np.asarray(ob.pdf(np.array([lo * .5, hi * 1.5])), dtype=float)
        outside = int(np.sum(o != 0))
    else:
        o = np.asarray(ob.pdf(np.array([lo * .5 if lo > 0 else -.1, hi * 1.5]), **kw), dtype=float)
        outside = int(np.sum(o != 0))
    tr.ev("density", what=type(ob).__name__, cum=[max(-10**6, min(10**6, v)) for v in cum], neg=neg, outside=outside)


# ----------------------------------------------------------------- from file
ALIAS = {1: ["eccentricity", "ecc", "e"],
         2: ["s1_mass", "primary_mass", "mass_1", "m_1", "m1"],
         3: ["s2_mass", "secondary_mass", "mass_2", "m_2", "m2"]}
PER = ["orbital_period", "period", "p_orb", "porb", "p"]
SEP = ["orbital_separation", "separation", "semi-major_axis", "semi_major_axis", "a"]


def kick_alias(q):
    s, k = (q - 1) // 4 + 1, (q - 1) % 4
    return [["s%d_natal_kick_velocity" % s, "s%d_natal_kick_array_0" % s, "w_%d" % s, "w%d" % s],
            ["s%d_natal_kick_azimuthal_angle" % s, "s%d_natal_kick_array_1" % s, "phi_%d" % s, "phi%d" % s],
            ["s%d_natal_kick_polar_angle" % s, "s%d_natal_kick_array_2" % s, "theta_%d" % s, "theta%d" % s],
            ["s%d_natal_kick_mean_anomaly" % s, "s%d_natal_kick_array_3" % s, "mean_anomaly_%d" % s, "mean_anomaly%d" % s]][k]


def case(name, k):
    return name if k == 0 else name.upper() if k == 1 else name.title()


def write(path, c, names):
    cols = [(case(names(q)[a - 1], c["cse"]), a) for q, a in c["cols"]]
    with open(path, "w") as f:
        f.write(",".join(["note"] + [x[0] for x in cols]) + "\n")
        for r in range(1, c["rows"] + 1):
            f.write(",".join(["7"] + [str(100. * a + r) for _, a in cols]) + "\n")


def ints(v):
    return [-1 if x is None else int(round(float(x))) if np.isfinite(float(x)) else -2 for x in np.asarray(v).tolist()]


def from_file(tr, c, seed):
    path = os.path.abspath("s.csv")
    orb = SEP if c["orb"] else PER
    write(path, c, lambda q: orb if q == 4 else ALIAS[q])
    kw = dict(read_samples_from_file=path, eccentricity_scheme="uniform", RNG=np.random.default_rng(seed),
              secondary_mass_min=.4, secondary_mass_max=60., primary_mass_min=8., primary_mass_max=90.)
    if c["num"]:
        kw["number_of_binaries"] = c["num"]
    if c["idx"] >= 0:
        kw["index"] = c["idx"]
    before = dict(kw)
    o, e, m1, m2 = get_samples_from_file("separation" if c["orb"] else "period", **kw)
    if {k: v for k, v in kw.items()} != before:
        raise RuntimeError("changed the caller's options")
    lims = {1: (0., 1.), 2: (8., 90.), 3: (.4, 60.), 4: (5., 1e5) if c["orb"] else (.35, 10**3.5)}
    for q, v, what in ((1, e, "eccentricity"), (2, m1, "primary mass"), (3, m2, "companion mass"), (4, o, "orbit")):
        if any(x[0] == q for x in c["cols"]):
            tr.ev("column", q=q, what=what, vals=ints(v))
        else:
            v = np.asarray(v, dtype=float)
            tr.ev("drawn", q=q, len=int(v.size), out=out(v, *lims[q]) + int(np.sum(~np.isfinite(v))))


def kicks(tr, c, seed):
    path = os.path.abspath("k.csv")
    write(path, c, kick_alias)
    kw = dict(read_samples_from_file=path)
    if c["num"]:
        kw["number_of_binaries"] = c["num"]
    if c["idx"] >= 0:
        kw["index"] = c["idx"]
    k1, k2 = get_kick_samples_from_file(**kw)
    for q in range(1, 9):
        v = (k1, k2)[(q - 1) // 4][:, (q - 1) % 4]
        tr.ev("column", q=q, what="kick", vals=ints(v))


# ----------------------------------------------------------- formation times
def form(tr, c, seed):
    sc = ["burst", "constant", "custom_linear", "custom_log10", "custom_linear_histogram", "custom_log10_histogram"][c["sc"] - 1]
    kw = dict(RNG=np.random.default_rng(seed))
    mx = [age_of_universe, 1.2e10, 1.1e10][c["mx"]]
    if c["mx"] == 1:
        kw["max_simulation_time"] = mx
    if c["mx"] == 2:
        kw.update(max_time=mx, max_simulation_time=1.3e10)
    n = c["n"]
    if c["sc"] == 1:
        t0 = 3e9 if c["mn"] else 0.
        if c["mn"]:
            kw["burst_time"] = t0
        t = np.asarray(get_formation_times(n, star_formation=sc, **kw))
        tr.ev("constant", len=int(t.size), differ=int(np.sum(t != t0)))
        return
    if c["sc"] == 2:
        lo = 1e9 if c["mn"] else 0.
        if c["mn"]:
            kw["min_time"] = lo
        t = np.asarray(get_formation_times(n, star_formation=sc, **kw), dtype=float)
        tr.ev("range", len=int(t.size), out=out(t, lo, mx))
        hist(tr, "formation time", (t - lo) / (mx - lo))
        return
    log = "log10" in sc
    x = np.array([7., 8., 8.5, 9., 9.8]) if log else np.array([0., 1e9, 2e9, 4e9, 7e9])
    path = os.path.abspath("a.txt")
    if c["sc"] in (3, 4):
        y = np.array([1., 3., 0., 2., 2.] if c["mn"] else [0., 1., 4., 1., .5])
        with open(path, "w") as f:
            for a, b in zip(x, y):
                f.write("%r %r\n" % (float(a), float(b)))
        seg = .5 * (y[1:] + y[:-1]) * np.diff(x)

        def cdf(v):
            j = np.clip(np.searchsorted(x, v, side="right") - 1, 0, len(x) - 2)
            dv = v - x[j]
            return (np.concatenate([[0], np.cumsum(seg)])[j] + y[j] * dv + .5 * (y[j + 1] - y[j]) / (x[j + 1] - x[j]) * dv**2) / seg.sum()
    else:
        y = np.array([1., 0., 2., 3.] if c["mn"] else [2., 1., 1., .5])
        with open(path, "w") as f:
            f.write("# ages\n\n" + ",".join("%r" % float(a) for a in x) + "\n" + ",".join("%r" % float(a) for a in y) + "\n")

        def cdf(v):
            return np.interp(v, x, np.concatenate([[0], np.cumsum(y)]) / y.sum())
    kw["custom_ages_file"] = path
    t = np.asarray(get_formation_times(n, star_formation=sc, **kw), dtype=float).ravel()
    age = mx - t
    if log:
        age = np.log10(age)
    tr.ev("range", len=int(t.size), out=int(np.sum((age < x[0] - 1e-6 * (x[-1] - x[0])) | (age > x[-1] + 1e-6 * (x[-1] - x[0])))))
    if t.size == n:
        hist(tr, "formation time", cdf(np.clip(age, x[0], x[-1])))


RUN = dict(indep=indep, dist=dist, file=from_file, kick=kicks, form=form)


def main():
    path, scripts = sys.argv[1:3]
    work = tempfile.mkdtemp(dir=hc.WORK)
    os.chdir(work)
    signal.signal(signal.SIGALRM, on_alarm)
    tr = hc.Trace(path)
    with hc.quiet():
        for n, c in enumerate(json.load(open(scripts))):
            if hc.mine(n):
                full = dict(dict(kind="", n=0, bf=0, m2s=0, ecc=0, cols=[], rows=0, num=0, idx=0), **c)
                tr.begin("sample-%d" % n, c=full)
                with tr.guard():
                    signal.alarm(20)
                    RUN[c["kind"]](tr, c, SEED * 100003 + n)
                signal.alarm(0)
    tr.close()
    os.chdir("/")
    shutil.rmtree(work, ignore_errors=True)


main()
