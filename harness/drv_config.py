"""L01: writes parameter files, loads them, and loads and reloads steps, with
recording stand-ins for the steps, the track matchers and their grids."""
import copy
import json
import os
import shutil
import sys
import tempfile

import cfg_steps
import hc
import numpy as np
from posydon.binary_evol import simulationproperties as sp
from posydon.binary_evol.simulationproperties import SimulationProperties
from posydon.popsyn.binarypopulation import BinaryPopulation
from posydon.popsyn.io import binarypop_kwargs_from_ini
from posydon.popsyn.synthetic_population import PopulationRunner

HERE = os.path.dirname(os.path.abspath(__file__))
CLS = dict(step_HMS_HMS="HMS", step_detached="Det", step_merged="Mer", step_SN="SN", step_end="End")
MM = {0: "minimize", 1: "root", 2: "m2", 3: "m3", 4: "m4"}
REAL = sp.TrackMatcher
GRIDS, MATCHERS = [], []


class Grid:
    def __init__(self, path):
        self.path = path
        GRIDS.append(self)

    def close(self):
        pass


class Matcher(REAL):
    def __init__(self, **kw):
        self.kwargs = kw
        for k, v in self.DEFAULT_KWARGS.items():
            setattr(self, k, kw.get(k, v))
        MATCHERS.append(self)
        self.serial = len(MATCHERS)


def z4(z):
    return int(round(float(z) * 10000))


def options(sec):
    out = {}
    if sec["z"]:
        out["metallicity"] = sec["z"] / 10000.
    if sec["opt"]:
        out["opt"] = sec["opt"]
    if sec["mm"]:
        out["matching_method"] = MM[sec["mm"]]
    if sec["lst"]:
        out["list_for_matching_HMS"] = [["mass"], [sec["lst"]]]
    return out


def write(path, f, mets):
    out = ["[flow]", "import = ['cfg_steps', 'flow']"]
    for s, sec in f["steps"].items():
        if not sec["given"]:
            continue
        out += ["[%s]" % s, "import = ['cfg_steps', '%s']" % CLS[s]]
        if sec["abs"]:
            out += ["absolute_import = ['%s', '%s']" % (os.path.join(HERE, "cfg_steps.py"), CLS[s])]
        out += ["%s = %r" % kv for kv in options(sec).items()]
    if f["hooks"]:
        out += ["[extra_hooks]"]
        for h in f["hooks"]:
            out += ["import_%d = ['cfg_steps', 'Hook']" % h["n"]]
            if h["abs"]:
                out += ["absolute_import_%d = ['%s', 'Hook']" % (h["n"], os.path.join(HERE, "cfg_steps.py"))]
            if h["kw"]:
                out += ["kwargs_%d = {'kw': %d}" % (h["n"], h["kw"])]
    if f["path"]:
        out += ["[grid_paths]", "HMS_HMS_path = '/grids/p%d'" % f["path"], "single_HMS_path = None"]
    if mets is not None:
        out += ["[BinaryPopulation_options]", "optimize_ram = True", "ram_per_cpu = None", "dump_rate = 100", "temp_directory = 'batches'", "metallicities = %r" % (mets,),
                "number_of_binaries = 3", "star_formation = 'burst'", "max_simulation_time = 13.8e9", "use_MPI = False", "entropy = 7", "tqdm = False",
                "[BinaryStar_output]", "extra_columns = {'step_names': 'string'}", "only_select_columns = ['time', 'state']",
                "[SingleStar_1_output]", "include_S1 = True", "only_select_columns = ['mass']", "scalar_names = ['f']",
                "[SingleStar_2_output]", "include_S2 = False", "only_select_columns = ['state']"]
    with open(path, "w") as fh:
        fh.write("\n".join(out) + "\n")


def cls_of(s, sec):
    return getattr(cfg_steps, CLS[s])


def seen(p, rng):
    names = [s for s in CLS if hasattr(p, s)]
    steps = []
    for s in names:
        st = getattr(p, s)
        kw = st.kw
        m = kw.get("track_matcher")
        g = kw.get("grid_path")
        extra = set(kw) - {"metallicity", "grid_path", "RNG", "track_matcher", "opt"}
        steps.append(dict(z=z4(kw["metallicity"]) if "metallicity" in kw else 0, path=-1 if g is None else int(g[-1]) if g.startswith("/grids/p") else 0 if g.endswith("HMS-HMS") else 99,
                          opt=kw.get("opt", 0) if not extra else 99, abs=bool(st.abs), rng=kw.get("RNG") is rng, match=0 if m is None else m.serial))
    match = []
    for (z, s), m in p.track_matchers.items():
        lst = m.list_for_matching_HMS
        ok = (m.grid_Hrich is p.grids_Hrich.get(z) and m.grid_strippedHe is p.grids_strippedHe.get(z) and m.kwargs.get("matching_method") == m.matching_method
              and m.grid_Hrich.path.endswith("single_HMS/%s_Zsun.h5" % sp.convert_metallicity_to_string(z)))
        match.append(dict(z=z4(z) if ok and z4(m.kwargs["metallicity"]) == z4(z) else -1, s=s, mm={v: k for k, v in MM.items()}.get(m.matching_method, 99),
                          lst=0 if lst is None else lst[1][0], id=m.serial))
    return dict(names=names, steps=steps, match=match, grids=[z4(z) for z in p.grids_Hrich] if set(p.grids_Hrich) == set(p.grids_strippedHe) else [-1], nm=len(MATCHERS), ng=len(GRIDS),
                loaded=bool(p.steps_loaded))


def attempt(f):
    try:
        return "none", f()
    except Exception as e:
        return "%s: %s" % (type(e).__name__, str(e)[:100]), None


def norm(sc):
    for f in sc["files"]:
        f["steps"] = f["steps"] or {}
    sc["over"] = sc["over"] or {}
    return sc


def one(tr, sc, n, work):
    sc = norm(sc)
    mets = {0: None, 1: [1.], 2: [1., .1], 3: .1}[sc["pops"]]
    paths = []
    for j, f in enumerate(sc["files"]):
        paths.append(os.path.join(work, "f%d.ini" % j))
        write(paths[-1], f, mets if j == 0 else None)
    over = {s: (cls_of(s, c), options(c)) for s, c in sc["over"].items()}
    del GRIDS[:], MATCHERS[:]
    arg = paths if len(paths) > 1 else paths[0]
    err, p = attempt(lambda: SimulationProperties.from_ini(arg, **over))
    head = dict(files=sc["files"], over=sc["over"] or [])
    if err != "none":
        tr.ev("start", err=err, hooks=[], path=0, given=[], **head)
        return
    hooks = [dict(abs=bool(h.abs), kw=h.kw) for h in p.all_hooks_classes[1:]]
    g = p.HMS_HMS_path
    tr.ev("start", err="none", hooks=hooks, path=int(g[-1]) if g.startswith("/grids/p") else 0 if g.endswith("HMS-HMS") else 99,
          given=[s for s in CLS if not isinstance(p.kwargs[s][0], sp.NullStep)], **head)
    for o in sc["ops"]:
        if o["op"] == "ini" and not sc["files"][0]["steps"].get(o["s"], {}).get("given"):
            continue
        rng = np.random.default_rng(1)
        alive = True
        z = o["z"] / 10000. if o["z"] else None
        if o["op"] == "load":
            err, _ = attempt(lambda: p.load_steps(metallicity=z, RNG=rng))
        elif o["op"] == "one":
            kw = options(o["c"])
            was = copy.deepcopy(kw)
            cls = cls_of(o["s"], o["c"])
            if o["c"]["abs"]:
                cls = type(cls.__name__, (cls,), {"__init__": lambda self, **k: (setattr(self, "kw", dict(k)), setattr(self, "abs", True)) and None})
            err, _ = attempt(lambda: p.load_a_step(o["s"], (cls, kw), metallicity=z, RNG=rng))
            alive = kw == was
        elif o["op"] == "ini":
            err, _ = attempt(lambda: p.load_a_step(o["s"], metallicity=z, RNG=rng, from_ini=paths[0]))
        else:
            err, _ = attempt(lambda: BinaryPopulation(population_properties=p, metallicity=z, number_of_binaries=1, entropy=3))
        for s in CLS:
            if hasattr(p, s) and getattr(p, s).kw.get("RNG") is rng:
                RNGS[id(getattr(p, s))] = rng
        ob = seen(p, None)
        for k, s in enumerate(ob["names"]):
            st = getattr(p, s)
            ob["steps"][k]["rng"] = "RNG" in st.kw and st.kw["RNG"] is RNGS.get(id(st), 0)
        tr.ev("op", o=o, err=err, alive=alive, **ob)
    if sc["pops"] and len(paths) == 1 and not sc["over"]:
        def runner():
            r = PopulationRunner(paths[0])
            out = []
            for b in r.binary_populations:
                b.population_properties.load_steps(RNG=b.RNG)
                q = b.population_properties
                out.append([dict(s=s, z=z4(getattr(q, s).kw["metallicity"])) for s in ("step_HMS_HMS", "step_detached", "step_merged") if hasattr(q, s)])
            return [z4(b.metallicity) for b in r.binary_populations], out
        err, got = attempt(runner)
        got = got or ([], [])
        tr.ev("runner", err=err, zs=got[0], pops=got[1], want=[z4(x) for x in (mets if isinstance(mets, list) else [mets])], **head)
        env = n % 3
        if env:
            os.environ.update(SLURM_ARRAY_JOB_ID="77", SLURM_ARRAY_TASK_ID=str(3 + env), SLURM_ARRAY_TASK_MIN=str(env), SLURM_ARRAY_TASK_COUNT="9")
        try:
            err, k = attempt(lambda: binarypop_kwargs_from_ini(paths[0]))
        finally:
            for v in ("JOB_ID", "TASK_ID", "TASK_MIN", "TASK_COUNT"):
                os.environ.pop("SLURM_ARRAY_" + v, None)
        want = dict(optimize_ram=True, ram_per_cpu=None, dump_rate=100, temp_directory="batches", metallicities=mets, number_of_binaries=3, star_formation="burst", max_simulation_time=13.8e9,
                    use_MPI=False, entropy=7, tqdm=False, comm=None, extra_columns={"step_names": "string"}, only_select_columns=["time", "state"], include_S1=True,
                    S1_kwargs=dict(only_select_columns=["mass"], scalar_names=["f"]), include_S2=False)
        want.update(dict(JOB_ID=77, RANK=3, size=9) if env else dict(RANK=None, size=None))
        show = lambda d: {a: str(b) for a, b in (d or {}).items()}
        tr.ev("pop", err=err, got=show(k), want=show(want))


RNGS = {}


def main():
    out, path = sys.argv[1:3]
    sp.TrackMatcher, sp.GRIDInterpolator = Matcher, Grid
    work = tempfile.mkdtemp(dir=hc.WORK)
    os.chdir(work)
    tr = hc.Trace(out)
    with hc.quiet():
        for n, sc in enumerate(json.load(open(path))):
            if hc.mine(n):
                RNGS.clear()
                tr.begin("cfg-%d" % n, files=sc["files"], over=sc["over"] or [])
                with tr.guard():
                    one(tr, sc, n, work)
    tr.close()
    os.chdir("/")
    shutil.rmtree(work, ignore_errors=True)


main()
