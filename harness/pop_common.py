"""Real BinaryPopulation runs with scripted steps, and reading the files back."""
import math
import os
import shutil
import signal
import time

import numpy as np
import pandas as pd

import hc
from posydon.binary_evol.binarystar import BINARYPROPERTIES
from posydon.binary_evol.simulationproperties import (SimulationProperties,
                                                      StepNamesHooks, TimingHooks)
from posydon.binary_evol.singlestar import STARPROPERTIES
from posydon.popsyn.binarypopulation import BinaryPopulation
from posydon.popsyn.synthetic_population import PopulationRunner
from posydon.utils.posydonerror import FlowError
from posydon.utils.posydonwarning import Pwarn

H, M = "H-rich_Core_H_burning", "massless_remnant"
CHART = {(H, H, "detached", "ZAMS"): "step_HMS_HMS",
         (H, H, "detached", None): "step_detached",
         (H, M, "initially_single_star", "ZAMS"): "step_initially_single",
         (H, M, "initially_single_star", None): "step_detached"}


def f(x):
    try:
        x = float(x)
    except (TypeError, ValueError):
        return "nan"
    return "nan" if math.isnan(x) else repr(x)


def sid(m1, m2, p, t):
    return "|".join(f(x) for x in (m1, m2, p, t))


def u4(x):
    return 0 if f(x) == "nan" else int(round(float(x) * 1e4))


def tok(x):
    return "None" if x is None or str(x) in ("nan", "None", "<NA>", "") else str(x)


# every state, event and mass-transfer case a step may leave in a row
STARS = ["WD", "NS", "BH", "massless_remnant", "H-rich_Core_He_burning", "H-rich_Shell_H_burning",
         "H-rich_Core_C_depleted", "accreted_He_Shell_H_burning", "accreted_He_Core_He_burning",
         "stripped_He_Core_He_burning", "stripped_He_Core_He_depleted",
         "stripped_He_Core_C_depleted", "stripped_He_non_burning"]
STATES = ["detached", "RLO1", "RLO2", "contact", "disrupted", "merged", "initial_RLOF",
          "initially_single_star"]
EVENTS = [None, "CC1", "oRLO2", "oDoubleCE2", "CO_contact", "redirect_from_ZAMS",
          "redirect_from_CO_HMS_RLO", "redirect_from_CO_HeMS_RLO", "MaxTime_exceeded", "oMerging1",
          "Match12"]
CASES = ["None", "no_RLO", "case_A1", "case_BB2", "case_A1/B1", "case_nonburning2"]
INTERP = ["no_MT", "stable_MT", "unstable_MT", "initial_MT", "stable_reverse_MT", "not_converged"]
MTH = ["No RLOF", "Stable RLOF during MS", "Unstable RLOF during stripped He star",
       "Stable contact phase, then unstable"]
SNT = ["ECSN", "CCSN", "PPISN", "PISN", "WD"]


def state_row(b):
    return [f(b.time), str(b.state), tok(b.event), str(b.star_1.state), str(b.star_2.state),
            tok(b.mass_transfer_case)]


def exotic(b, k):
    b.star_1.state = STARS[k % len(STARS)]
    b.star_2.state = STARS[(3 * k + 10) % len(STARS)]
    b.state = STATES[k % 7]
    b.mass_transfer_case = CASES[(k + 5) % len(CASES)]
    b.interp_class_HMS_HMS = INTERP[(k + 4) % len(INTERP)]
    b.interp_class_CO_HeMS_RLO = INTERP[k % 3]
    b.mt_history_HMS_HMS = MTH[k % 4]
    b.star_1.SN_type = SNT[(k + 2) % 5]
    MON.cur["sc"] = [b.interp_class_HMS_HMS, b.interp_class_CO_HeMS_RLO, b.mt_history_HMS_HMS,
                     b.star_1.SN_type]


class Monitor:
    """Scripted evolution of the systems of a population, and what they did."""

    def __init__(self):
        self.recs, self.cur, self.tr = [], None, None
        self.op = lambda what: None
        self.on_start = lambda: None

    def start(self, r, outs):
        self.r, self.outs, self.recs, self.cur = r, outs, [], None

    def flush(self):
        if self.cur is not None:
            if self.cur["fail"] not in ("none",) and self.cur["last"] == []:
                self.cur["last"] = self.cur["rows"][-1]
            self.recs.append(self.cur)
            if self.tr is not None:
                self.tr.ev("evolved", **self.cur)
            self.cur = None

    def step(self, b, phase):
        self.op("step")
        if phase == 0:
            self.flush()
            self.on_start()
            i = int(b.index)
            self.cur = dict(r=self.r, i=i, id=sid(b.star_1.mass, b.star_2.mass,
                                                  b.orbital_period, b.time),
                            m1=u4(b.star_1.mass), m2=u4(b.star_2.mass),
                            single=b.state == "initially_single_star",
                            rows=[state_row(b)], tnow=f(b.time),
                            fail="none", told="none", warn=False, last=[], sc=["None"] * 4)
        c = self.cur
        kind = self.outs[int(b.index) % len(self.outs)] if self.outs else "ok"
        if phase == 0:
            if kind == "flow":
                self.bad(b, FlowError("scripted"))
            if kind == "hang":
                c["fail"] = c["told"] = "hang"
                signal.setitimer(signal.ITIMER_REAL, 0.02)
                time.sleep(5)
            b.time += 1.0e6
            if kind == "rows":
                for _ in range(2):
                    row(b)
                    c["rows"].append(state_row(b))
            if kind == "exotic":
                keep = b.star_1.state, b.star_2.state, b.state, b.event
                for j in range(3):
                    k = int(b.index) * 5 + j * 4
                    exotic(b, k)
                    b.event = EVENTS[(k + 7) % len(EVENTS)]
                    row(b)
                    c["rows"].append(state_row(b))
                b.star_1.state, b.star_2.state, b.state, b.event = keep
            if kind == "nochart":
                b.event = "oRLO1"
                c["fail"] = c["told"] = "nochart"
                c["rows"].append(state_row(b))
                c["tnow"] = f(b.time)
                return
            b.event = None
            b.star_1.mass *= .5
        else:
            if kind == "value":
                self.bad(b, ValueError("scripted"))
            b.time += 2.5e6
            if kind in ("warn", "warnfail"):
                c["warn"] = True
                Pwarn("scripted %d" % (b.index if kind == "warn" else 0), "ApproximationWarning")
            if kind in ("partial", "warnfail"):
                b.star_1.state = "BH"
                self.bad(b, RuntimeError("scripted"))
            if kind == "exotic":
                exotic(b, int(b.index) * 3 + 1)
            b.event = "END"
        c["tnow"] = f(b.time)
        c["rows"].append(state_row(b))

    def bad(self, b, e):
        self.cur["fail"] = self.cur["told"] = type(e).__name__
        self.cur["tnow"] = f(b.time)
        self.cur["last"] = state_row(b)
        raise e


def row(b):
    for item in BINARYPROPERTIES:
        getattr(b, item + "_history").append(getattr(b, item))
    for st in (b.star_1, b.star_2):
        for item in STARPROPERTIES:
            getattr(st, item + "_history").append(getattr(st, item))


MON = Monitor()


def stub(phase):
    class S:
        DEFAULT_KWARGS = {}

        def __init__(self, **kw):
            pass

        def __call__(self, b):
            MON.step(b, phase)
    return S


class Comm:
    def __init__(self, r, n):
        self.r, self.n = r, n

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.n


def props(hooks=False):
    p = SimulationProperties(flow=((lambda: dict(CHART)), {}),
                             extra_hooks=[(TimingHooks, {}), (StepNamesHooks, {})] if hooks else [],
                             step_HMS_HMS=(stub(0), {}), step_initially_single=(stub(0), {}),
                             step_detached=(stub(1), {}))
    with hc.quiet():
        for k in ("flow", "step_HMS_HMS", "step_initially_single", "step_detached"):
            p.load_a_step(k, p.kwargs[k])
    p.steps_loaded = True
    return p


def population(cfg, r, tmp, **more):
    kw = dict(number_of_binaries=cfg["n"], population_properties=props(), entropy=cfg["entropy"],
              metallicity=cfg["met"], metallicities=list(cfg["mets"]), temp_directory=tmp,
              dump_rate=cfg["dump"], binary_fraction_const=cfg.get("bfrac", .7),
              include_S1=True, include_S2=True,
              only_select_columns=["state", "event", "time", "orbital_period",
                                                            "mass_transfer_case"],
              scalar_names=["interp_class_HMS_HMS", "interp_class_CO_HeMS_RLO", "mt_history_HMS_HMS"],
              S1_kwargs=dict(only_select_columns=["state", "mass"], scalar_names=["SN_type"]),
              S2_kwargs=dict(only_select_columns=["state", "mass"]),
              breakdown_to_df=cfg["breakdown"])
    if cfg.get("hooks"):
        kw["population_properties"] = props(True)
        kw["extra_columns"] = {"step_names": "string", "step_times": "float64"}
        kw["error_checking_verbose"] = kw["warnings_verbose"] = True
    if cfg.get("ram"):
        kw["ram_per_cpu"] = cfg["ram"]
    if cfg["mode"] == "job":
        kw.update(JOB_ID=cfg.get("jobid", 1234), RANK=r, size=cfg["size"])
    elif cfg["mode"] == "mpi":
        kw.update(comm=Comm(r, cfg["size"]))
    kw.update(more)
    return BinaryPopulation(**kw)


def read(path):
    """contents of a population file"""
    with pd.HDFStore(path, mode="r") as st:
        h, o, m, ini = st["history"], st["oneline"], st["mass_per_metallicity"], st["ini_parameters"]
    hist = [[int(i), f(t), str(s), tok(e), str(a), str(b), tok(c)] for i, t, s, e, a, b, c in
            zip(h.index, h["time"], h["state"], h["event"], h["S1_state"], h["S2_state"],
                h["mass_transfer_case"])]
    one = []
    for i, x in zip(o.index, o.to_dict("records")):
        one.append([int(i), bool(x["FAILED"]), bool(x["WARNING"]),
                    sid(x["S1_mass_i"], x["S2_mass_i"], x["orbital_period_i"], x["time_i"]),
                    [f(x["time_f"]), str(x["state_f"]), tok(x["event_f"]), str(x["S1_state_f"]),
                     str(x["S2_state_f"]), tok(x["mass_transfer_case_f"])],
                    [tok(x["interp_class_HMS_HMS"]), tok(x["interp_class_CO_HeMS_RLO"]),
                     tok(x["mt_history_HMS_HMS"]), tok(x["S1_SN_type"])]])
    return dict(oneline=one, history=hist, count=int(m["number_of_systems"].iloc[0]),
                mass=u4(m["simulated_mass"].iloc[0]), masss=u4(m["simulated_mass_single"].iloc[0]),
                massb=u4(m["simulated_mass_binaries"].iloc[0]),
                mets=[f(x) for x in m.index], linemets=sorted(set(f(x) for x in o["metallicity"])),
                inin=int(ini["number_of_binaries"].iloc[0]), exc="none")


NOTHING = dict(oneline=[], history=[], count=0, mass=0, masss=0, massb=0, mets=[], linemets=[],
               inin=0)


def file_event(tr, what, path, r=0, left=(), exc="none", **more):
    if exc != "none":
        d = dict(NOTHING, exc=exc)
    else:
        try:
            d = read(path)
        except Exception as e:
            d = dict(NOTHING, exc="reading back: %s %s" % (type(e).__name__, e))
    tr.ev("file", what=what, r=r, left=list(left), want=more.pop("want", []),
          lost=more.pop("lost", False), **d)


def on_disk(tmp):
    """indices of systems that can be read from the files in a directory"""
    res = []
    if os.path.isdir(tmp):
        for n in sorted(os.listdir(tmp)):
            try:
                o = pd.read_hdf(os.path.join(tmp, n), key="oneline")
            except Exception:
                continue
            res += [int(i) for i in o.index]
    return res


def complete(path):
    """systems whose one-line row and history can both be read"""
    try:
        with pd.HDFStore(path, mode="r") as st:
            h, o = st["history"], st["oneline"]
        return sorted(set(int(i) for i in o.index) & set(int(i) for i in h.index))
    except Exception:
        return []


def run_rank(cfg, r, tmp, tr, disk=True, final=True):
    """evolve one rank; emits evolved/disk/file events; returns the population"""
    MON.tr = tr
    MON.start(r, cfg["outs"])
    if disk and cfg["optimize"] and tr is not None:
        MON.on_start = lambda: tr.ev("disk", r=r, on=on_disk(tmp))
    else:
        MON.on_start = lambda: None
    exc = "none"
    pop = None
    with hc.quiet():
        try:
            pop = population(cfg, r, tmp)
            pop.evolve(optimize_ram=cfg["optimize"], breakdown_to_df=cfg["breakdown"])
        except Exception as e:
            exc = "%s: %s" % (type(e).__name__, e)
    MON.flush()
    if tr is not None:
        tr.ev("alarm", armed=signal.getitimer(signal.ITIMER_REAL)[0] > 0)
    signal.setitimer(signal.ITIMER_REAL, 0)
    if tr is not None and final:
        if exc != "none" or cfg["optimize"] or cfg["mode"] != "serial":
            file_event(tr, "rank", os.path.join(
                tmp, "evolution.combined.h5" if cfg["mode"] == "serial"
                else "evolution.combined.%d.h5" % r), r=r, exc=exc)
        elif cfg["breakdown"]:
            file_event(tr, "rank", os.path.join(tmp, "evolution.combined.h5"), r=r)
        if not cfg["optimize"] and exc == "none":
            bad = pop.find_failed()
            if not isinstance(bad, list):
                who = [] if bad is None else sorted(set(int(i) for i in bad.index))
            else:
                who = [int(b.index) for b in bad]
            if cfg["size"] == 1:
                tr.ev("failedlist", who=who)
    return pop


def merge(cfg, pop, tmp, route, work):
    """returns (path of the merged file, exception)"""
    out = os.path.join(work, "out.h5")
    try:
        with hc.quiet():
            if route == "save" or cfg["mode"] == "mpi" or not cfg["optimize"]:
                pop.save(out)
            else:
                run = PopulationRunner.__new__(PopulationRunner)
                run.verbose = False
                pop.kwargs["temp_directory"] = tmp
                run.merge_parallel_runs(pop)
                from posydon.utils.common_functions import convert_metallicity_to_string
                out = convert_metallicity_to_string(pop.metallicity) + "_Zsun_population.h5"
    except Exception as e:
        return out, "%s: %s" % (type(e).__name__, e)
    return out, "none"


def spec_cfg(cfg, sweep=False):
    st = cfg["stream"]
    ram = cfg.get("ram")
    return dict(n=cfg["n"], size=cfg["size"],
                dump=cfg["dump"] if not ram else 1 if ram < 1 else cfg["n"], optimize=cfg["optimize"],
                mode=cfg["mode"], met=f(cfg["met"]), stream=st, sweep=sweep)
