"""Evolve / restore / export scripts on real BinaryStar objects.

Every property of the binary and of both stars carries a distinct value that
encodes the column and the generation, so that any mix-up of rows, columns or
stars is visible.   argv: OUT SCRIPTS MODE(e02|e03|d01)
"""
import json
import math
import os
import sys

import numpy as np
import pandas as pd

import evo_common as ec
import hc
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.simulationproperties import (EvolveHooks,
                                                      StepNamesHooks,
                                                      TimingHooks)
from posydon.binary_evol.singlestar import STARPROPERTIES
from posydon.popsyn.binarypopulation import PopulationManager
from posydon.utils import constants as const

tr = hc.Trace(sys.argv[1])
scripts = json.load(open(sys.argv[2]))
MODE = sys.argv[3]
holder = {"tr": tr}
SKIP = ("state", "event", "mass_transfer_case", "V_sys",
        "nearest_neighbour_distance", "profile")
OFF = {}
for who, props in (("b", BINARYPROPERTIES), ("1", STARPROPERTIES), ("2", STARPROPERTIES)):
    for p in props:
        OFF[who, p] = 1000 * (len(OFF) + 1)


def val(who, p, k):
    v = float(OFF[who, p] + k)
    if p in ("V_sys",):
        return np.array([v, v + .25, v + .5])
    if p == "nearest_neighbour_distance":
        return [v, v + .25, v + .5]
    if p == "mass_transfer_case":
        return "mt%d" % k
    if p == "profile":
        return "prof%d" % int(v)
    return v


def dec(who, p, x):
    """generation token of a value, or a token that says what is wrong"""
    try:
        if p in ("V_sys", "nearest_neighbour_distance"):
            y = [float(z) for z in x]
            if len(y) != 3 or y[1] != y[0] + .25 or y[2] != y[0] + .5:
                return "bad %s %s" % (p, y)
            x = y[0]
        elif p == "mass_transfer_case":
            return int(x[2:])
        elif p == "profile":
            x = float(x[4:])
        k = float(x) - OFF[who, p]
        if math.isnan(k) or k != int(k) or not 0 <= k < 1000:
            return "bad %s.%s %r" % (who, p, x)
        return int(k)
    except Exception as e:
        return "bad %s.%s %r %s" % (who, p, x, type(e).__name__)


def fill(b, k):
    for p in BINARYPROPERTIES:
        if p not in ("state", "event"):
            setattr(b, p, val("b", p, k))
    for who, st in (("1", b.star_1), ("2", b.star_2)):
        for p in STARPROPERTIES:
            if p != "state":
                setattr(st, p, val(who, p, k))


class Dir(ec.Director):
    def __init__(self, out, gen):
        super().__init__(None, out)
        self.gen, self.calls = gen, []

    def call(self, name, b):
        o = self.out[self.i] if self.i < len(self.out) else {
            "post": ec.cur(b)[:3] + ["END"], "rows": 0, "exc": "none"}
        self.i += 1
        self.gen[0] += 1
        ec.put(b, o["post"])
        fill(b, self.gen[0])
        for _ in range(o["rows"]):
            self.row(b)
        self.calls.append({"step": name, "post": ec.cur(b), "k": self.gen[0],
                           "rows": o["rows"], "exc": o["exc"]})
        if o["exc"] != "none":
            raise ec.EXC[o["exc"]]("scripted")


class StarCol(EvolveHooks):
    """A user hook that keeps a column on both stars."""

    def __init__(self):
        self.extra_star_col_names = ["mycol"]

    def pre_evolve(self, b):
        for st in (b.star_1, b.star_2):
            if not hasattr(st, "mycol"):
                st.mycol = [0]
        return b

    def post_step(self, b, name):
        k = dec("b", "time", b.time)
        for st in (b.star_1, b.star_2):
            st.mycol += [k] * (len(b.event_history) - len(st.mycol))
        return b


CHART = {}
for s1 in ("H-rich_Core_H_burning", "BH"):
    for e in ("ZAMS", None, "redirect_from_ZAMS"):
        CHART[(s1, "H-rich_Core_H_burning", "detached", e)] = {
            "ZAMS": "step_HMS_HMS", None: "step_detached",
            "redirect_from_ZAMS": "step_CO_HeMS"}[e]
HOOKS = [(TimingHooks, {}), (StepNamesHooks, {}), (StarCol, {})]
P = {True: ec.properties(holder, CHART, HOOKS), False: ec.properties(holder, CHART)}


def uniq(seqs):
    res = []
    for q in seqs:
        if q not in res:
            res.append(q)
    return res


def s(x):
    if x is None or (isinstance(x, float) and math.isnan(x)) or str(x) == "<NA>":
        return "None"
    return str(x)


def hist(b, hooked):
    lengths, ks, nowk = set(), [], []
    for who, o, props in (("b", b, BINARYPROPERTIES), ("1", b.star_1, STARPROPERTIES),
                          ("2", b.star_2, STARPROPERTIES)):
        for p in props:
            h = getattr(o, p + "_history")
            lengths.add(len(h))
            if p in ("state", "event"):
                continue
            ks.append([dec(who, p, x) for x in h])
            nowk.append(dec(who, p, getattr(o, p)))
    star = uniq([list(getattr(st, "mycol", [])) for st in (b.star_1, b.star_2)])
    return dict(lengths=sorted(lengths), ks=uniq(ks), nowk=uniq(nowk), nowcur=ec.cur(b),
                s1=[s(x) for x in b.star_1.state_history],
                s2=[s(x) for x in b.star_2.state_history],
                b=[s(x) for x in b.state_history], e=[s(x) for x in b.event_history],
                names=[s(x) for x in getattr(b, "step_names", [])],
                times=["time" if isinstance(x, float) and 0 <= x < 100 else s(x)
                       for x in getattr(b, "step_times", [])],
                star=star[0] if len(star) == 1 else ["differ"])


def col_of(c):
    """(who, property) of an exported column name"""
    if c.startswith("S1_"):
        return "1", c[3:]
    if c.startswith("S2_"):
        return "2", c[3:]
    return "b", c


VEC = {"V_sys_x": ("V_sys", 0), "V_sys_y": ("V_sys", .25), "V_sys_z": ("V_sys", .5),
       "NN_dist_x": ("nearest_neighbour_distance", 0),
       "NN_dist_y": ("nearest_neighbour_distance", .25),
       "NN_dist_z": ("nearest_neighbour_distance", .5)}


def decode_cell(c, x):
    who, p = col_of(c)
    if c in VEC:
        return dec2("b", VEC[c][0], x - VEC[c][1])
    return dec(who, p, x)


def dec2(who, p, x):
    k = float(x) - OFF[who, p]
    return int(k) if k == int(k) and 0 <= k < 1000 else "bad %s %r" % (p, x)


EXPECTED = ([p for p in BINARYPROPERTIES if p not in ("V_sys", "nearest_neighbour_distance")]
            + list(VEC) + ["S1_" + p for p in STARPROPERTIES if p != "profile"]
            + ["S2_" + p for p in STARPROPERTIES if p != "profile"])


def df_kwargs(b, hooked):
    if hooked and hasattr(b, "step_names"):
        return {"extra_columns": {"step_names": "string", "step_times": "float64"}}
    return {}


def df_event(b, hooked):
    df = b.to_df(**df_kwargs(b, hooked))
    ks = []
    for c in EXPECTED:
        if c not in df.columns:
            ks.append(["missing column " + c])
            continue
        if col_of(c)[1] in ("state", "event"):
            continue
        ks.append([decode_cell(c, x) for x in df[c]])
    tr.ev("df", n=len(df), index=uniq([int(i) for i in df.index]), ks=uniq(ks),
          s1=[s(x) for x in df["S1_state"]], s2=[s(x) for x in df["S2_state"]],
          b=[s(x) for x in df["state"]], e=[s(x) for x in df["event"]],
          names=[s(x) for x in df["step_names"]] if "step_names" in df else [])
    return df


def line_event(b, hooked):
    df = b.to_oneline_df(**df_kwargs(b, hooked))
    row = df.iloc[0]
    res = {}
    for suf in "if":
        res["k" + suf] = uniq([decode_cell(c, row[c + "_" + suf]) if c + "_" + suf in df.columns
                               else "missing " + c for c in EXPECTED
                               if col_of(c)[1] not in ("state", "event")])
        res["cur" + suf] = [s(row[c + "_" + suf]) for c in ("S1_state", "S2_state", "state", "event")]
    tr.ev("oneline", **res)
    return df


def evolve(b, out, gen):
    holder["d"] = d = Dir(out, gen)
    try:
        with hc.quiet():
            b.evolve()
    except Exception:
        pass
    tr.ev("evolve", calls=d.calls)


def make(k, cfg, index):
    b = ec.binary(k, P[cfg["hooks"]], index=index, verbose=cfg["verbose"])
    fill(b, 0)
    for p in BINARYPROPERTIES:
        setattr(b, p + "_history", [getattr(b, p)])
    for st in (b.star_1, b.star_2):
        for p in STARPROPERTIES:
            setattr(st, p + "_history", [getattr(st, p)])
    return b


R = hc.rng(MODE)
SCALARS = {"avg_c_in_c_core_at_He_depletion": .25, "co_core_mass_at_He_depletion": 2.5,
           "spin_orbit_tilt_first_SN": .5, "natal_kick_velocity": 100.5, "f_fb": .75,
           "SN_type": "CCSN", "h1_mass_ej": 1.5}
G_MSUN, RSUN = 6.67428e-8 * 1.9892e33, 6.9598e10      # cgs, those of the code


AU = const.aursun


def orbit_dev(c, given):
    """ppb by which separation and period of the rows contradict Kepler's law (0: nothing derived)"""
    if ("separation" in given) == ("orbital_period" in given):
        return 0
    worst = 0.0
    for a, p, m1, m2 in zip(c.separation_history, c.orbital_period_history,
                            c.star_1.mass_history, c.star_2.mass_history):
        try:
            want = 2 * math.pi * math.sqrt((a * RSUN) ** 3 / (G_MSUN * (m1 + m2))) / 86400.
            # the code has a second set of constants (AU, year)
            want2 = 365.25 * math.sqrt((a / AU) ** 3 / (m1 + m2))
            worst = max(worst, min(abs(p / want - 1), abs(p / want2 - 1)) * 1e9)
        except TypeError:
            return 10 ** 8
    return int(min(worst, 1e9))


def scalar(n, k):
    return SCALARS[n] + k if n != "SN_type" else ["CCSN", "ECSN"][k - 1]


def part(c, given, g1, g2, failed, names, scal=()):
    lengths, ks, nowk = set(), [], []
    for who, o, props, inc in (("b", c, BINARYPROPERTIES, given), ("1", c.star_1, STARPROPERTIES, g1),
                               ("2", c.star_2, STARPROPERTIES, g2)):
        for p in props:
            lengths.add(len(getattr(o, p + "_history")))
            if p not in inc or p in ("state", "event", "profile", "V_sys", "nearest_neighbour_distance"):
                continue
            ks.append([dec(who, p, x) for x in getattr(o, p + "_history")])
            nowk.append(dec(who, p, getattr(o, p)))
    bad = ["%s %s %r" % (n, k, getattr(st, n, "missing")) for k, st in (("S1", c.star_1), ("S2", c.star_2))
           for n in scal if getattr(st, n, "missing") != scalar(n, int(k[1]))]
    return dict(lengths=sorted(lengths), ks=uniq(ks), nowk=uniq(nowk), nowcur=[s(x) for x in (
                    c.star_1.state, c.star_2.state, c.state, c.event)],
                s1=[s(x) for x in c.star_1.state_history], s2=[s(x) for x in c.star_2.state_history],
                b=[s(x) for x in c.state_history], e=[s(x) for x in c.event_history],
                names=[s(x) for x in c.step_names] if names else [], index=c.index, failed=failed,
                dev=orbit_dev(c, given), scalars=bad[:1] or ["ok"])


def subset(props, must):
    k = R.random()
    if k < .3:
        return list(props)
    return [p for p in props if p in must or R.random() < k]


def rebuild(b, cfg, i):
    given = subset([p for p in BINARYPROPERTIES if p not in ("V_sys", "nearest_neighbour_distance")],
                   ("state", "event", "time"))
    if R.random() < .5 and "orbital_period" in given and "separation" in given:
        given.remove(R.choice(["separation", "orbital_period"]))
    g1 = subset([p for p in STARPROPERTIES if p != "profile"], ("state", "mass"))
    g2 = subset([p for p in STARPROPERTIES if p != "profile"], ("state", "mass"))
    names = hasattr(b, "step_names") and R.random() < .7
    kind = R.choice(["df", "df", "hdf", "line"])
    extra = {"step_names": "string", "step_times": "float64"} if names else {}
    # (the reader of stored populations restores scalars one by one)
    scal = [n for n in SCALARS if R.random() < .6] if kind != "df" else []
    for k, st in ((1, b.star_1), (2, b.star_2)):
        for n in scal:
            setattr(st, n, scalar(n, k))
    kw = dict(only_select_columns=given, extra_columns=extra,
              S1_kwargs=dict(only_select_columns=g1, scalar_names=scal),
              S2_kwargs=dict(only_select_columns=g2, scalar_names=scal))
    failed = kind != "df" and R.random() < .3
    if failed:
        b.traceback = "scripted"
    want = b.index
    ask = {}
    if kind != "hdf" and R.random() < .5:
        want = R.choice([0, 1, 99])
        ask = dict(index=want)
    if kind == "df":
        df = b.to_df(**kw)
        df = df[R.sample(list(df.columns), len(df.columns))]
        c = BinaryStar.from_df(df, extra_columns=extra, **ask)
    elif kind == "line":
        df = b.to_oneline_df(**kw)
        df = df[R.sample(list(df.columns), len(df.columns))]
        c = BinaryStar.from_oneline_df(df, extra_columns=extra, **ask)
    else:
        path = os.path.join(hc.WORK, "hist_%d.h5" % os.getpid())
        with pd.HDFStore(path, mode="w") as st:
            others = [j for j in (cfg["index"] + 1, cfg["index"] + 2, 40)]
            allb = [(b.index, b)] + [(j, None) for j in others]
            R.shuffle(allb)
            hs, ls = [], []
            for j, x in allb:
                if x is None:
                    x = make(["BH", "H-rich_Core_H_burning", "detached", "ZAMS"], cfg, j)
                    x.step_names, x.step_times = ["other"], [1.0]
                    for o in (x.star_1, x.star_2):
                        for n in scal:
                            setattr(o, n, "other" if n == "SN_type" else -1.0)
                hs.append(x.to_df(**kw))
                ls.append(x.to_oneline_df(**kw))
            for key, q in (("history", hs), ("oneline", ls)):
                q = pd.concat(q)
                st.append(key, q, min_itemsize={k: 40 for k in q.columns if q[k].dtype == object})
        pm = PopulationManager(path, extra_columns=extra, entropy=1, number_of_binaries=1,
                               S1_kwargs=dict(scalar_names=scal), S2_kwargs=dict(scalar_names=scal))
        q = R.random()
        if q < .5:
            got = pm.from_hdf(indices=R.choice([b.index, [b.index], np.int64(b.index)]))
            c = got[0] if len(got) == 1 else None
        else:
            got = pm.from_hdf(where="index==%d" % b.index) if q < .7 else \
                  pm.from_hdf(indices=[b.index, others[0], others[2]])
            got = [x for x in got if x.index == b.index]
            c = got[0] if len(got) == 1 else None
        os.remove(path)
        if c is None:
            tr.ev("unexpected", exc="the stored binary is not loaded exactly once", msg="", where=[])
            return
    tr.ev("rebuilt", kind=kind, want=want, **part(c, given, g1, g2, failed, names, scal))
    # go on with the rebuilt binary
    c.properties = P[cfg["hooks"]]
    j = 0 if R.random() < .6 else R.randrange(len(c.event_history))
    exc = "none"
    try:
        if j == 0 and R.random() < .5:
            c.reset(P[cfg["hooks"]])
        else:
            c.restore(j)
    except Exception as e:
        exc = type(e).__name__ + ": " + str(e)
    tr.ev("restore", i=j, exc=exc)
    if exc != "none":
        return
    for o in (c.star_1, c.star_2):
        if hasattr(o, "mycol"):
            del o.mycol
    tr.ev("part", **part(c, given, g1, g2, False, names))
    if j == 0 and c.event == "ZAMS":
        c.history_verbose = cfg["verbose"]
        evolve(c, [dict(post=["BH", "H-rich_Core_H_burning", "detached", "None"], rows=R.choice([0, 2]), exc="none"),
                   dict(post=["BH", "H-rich_Core_H_burning", "detached", "END"], rows=0, exc="none")], [500])
        tr.ev("part", **dict(part(c, given, g1, g2, False, cfg["hooks"]), dev=0))


for i, sc in enumerate(scripts):
    if not hc.mine(i):
        continue
    cfg = dict(sc["cfg"])
    cfg["index"] = i % 5      # includes index 0
    tr.begin("%s-%d" % (MODE, i), cfg=cfg, cur=sc["start"])
    with tr.guard():
        b = make(sc["start"], cfg, cfg["index"])
        gen = [0]
        hooked = cfg["hooks"]
        for op in sc["ops"]:
            if op["op"] == "evolve":
                evolve(b, op["out"], gen)
                clean = not any(c["exc"] != "none" for c in holder["d"].calls)
            else:
                exc = "none"
                j = op["i"] % len(b.event_history)
                try:
                    if j == 0 and i % 4 == 1:
                        b.reset(P[cfg["hooks"]])
                    elif j == 0 and i % 2:
                        b.reset()
                    else:
                        b.restore(j)
                except Exception as e:
                    exc = type(e).__name__ + ": " + str(e)
                tr.ev("restore", i=j, exc=exc)
                clean = True
            tr.ev("hist", **hist(b, hooked))
            if MODE == "e02" and clean:
                df_event(b, hooked)
                line_event(b, hooked)
                tr.ev("hist", **hist(b, hooked))   # exporting changes nothing
        if MODE == "d01" and clean:
            rebuild(b, cfg, i)
tr.close()
