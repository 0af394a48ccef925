"""Runs populations through the command line tool and a simulated scheduler.

The real posydon-popsyn (setup, check) and the scripts it writes are executed;
sbatch/srun are stand-ins that record what is submitted or run.  Each task and
merge then runs the real generated Python script in a forked child, which may
be interrupted.  argv: OUT SCRIPTS
"""
import builtins
import contextlib
import io
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

import pandas as pd

import hc
import posydon
import posydon.CLI.popsyn.check      # noqa: preload for the forked children
import posydon.CLI.popsyn.setup      # noqa
import posydon.popsyn.binarypopulation  # noqa
import posydon.popsyn.synthetic_population  # noqa
import posydon.binary_evol.CE.step_CEE   # noqa
import posydon.binary_evol.DT.step_detached  # noqa
import posydon.binary_evol.MESA.step_mesa  # noqa

tr = hc.Trace(sys.argv[1])
scripts = json.load(open(sys.argv[2]))
R = hc.rng("cluster%d" % hc.SHARD)
ROOT = os.path.join(hc.WORK, "cluster")
RUN, FAKE = os.path.join(ROOT, "run"), os.path.join(ROOT, "fake")
TOOL = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(posydon.__file__))),
                    "bin", "posydon-popsyn")
STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cluster_step.py")
STR = {1.0: "1e+00", 0.1: "1e-01", 0.01: "1e-02", 0.45: "4.5e-01", 0.0001: "1e-04", 2.0: "2e+00",
       0.2: "2e-01", 0.001: "1e-03"}
STEPS = ["step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO", "step_detached",
         "step_disrupted", "step_merged", "step_initially_single", "step_dco", "step_CE", "step_end"]


def fresh(cfg):
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(RUN)
    os.makedirs(FAKE)
    with open(FAKE + "/sbatch", "w") as g:
        g.write('''#!/bin/bash
n=$(cat "$FAKE_SLURM/count" 2>/dev/null || echo 1000); n=$((n+1)); echo $n > "$FAKE_SLURM/count"
printf '%s' "$n" >> "$FAKE_SLURM/queue"; for a in "$@"; do printf '\\t%s' "$a" >> "$FAKE_SLURM/queue"; done
printf '\\n' >> "$FAKE_SLURM/queue"
case " $* " in *" --parsable "*) echo $n;; *) echo "Submitted batch job $n";; esac
''')
    with open(FAKE + "/srun", "w") as g:
        g.write('''#!/bin/bash
{ env -0; } > "$FAKE_SLURM/env"; printf '%s\\0' "$@" > "$FAKE_SLURM/args"; pwd > "$FAKE_SLURM/pwd"
''')
    os.chmod(FAKE + "/sbatch", 0o755)
    os.chmod(FAKE + "/srun", 0o755)
    ini = "[flow]\n  import = ['posydon.binary_evol.flow_chart', 'flow_chart']\n  absolute_import = None\n"
    for st in STEPS:
        ini += ("[%s]\n  import = ['builtins', 'dict']\n  absolute_import = ['%s', 'ClusterStep']\n"
                % (st, STUB))
    ini += ("[step_SN]\n  import = ['builtins', 'dict']\n  absolute_import = ['%s', 'ClusterStep']\n"
            "  use_interp_values = False\n" % STUB)
    ini += "[extra_hooks]\n"
    opts = dict(optimize_ram=True, ram_per_cpu=None, dump_rate=cfg["dump"], temp_directory=cfg["tmp"],
                tqdm=False, breakdown_to_df=cfg["breakdown"], use_MPI=False, metallicities=cfg["metv"],
                error_checking_verbose=False, warnings_verbose=False, history_verbose=False,
                entropy=cfg["entropy"], number_of_binaries=cfg["n"], binary_fraction_scheme="const",
                binary_fraction_const=.7, star_formation="burst", max_simulation_time=13.8e9,
                read_samples_from_file="", primary_mass_scheme="Kroupa2001", primary_mass_min=7.0,
                primary_mass_max=150.0, secondary_mass_scheme="flat_mass_ratio", secondary_mass_min=.5,
                secondary_mass_max=150., orbital_scheme="period",
                orbital_period_scheme="Sana+12_period_extended", orbital_period_min=.75,
                orbital_period_max=6000., eccentricity_scheme="zero")
    ini += "[BinaryPopulation_options]\n" + "".join("  %s = %r\n" % x for x in opts.items())
    ini += "[BinaryStar_output]\n  only_select_columns = ['state', 'event', 'time', 'orbital_period']\n"
    for k in "12":
        ini += ("[SingleStar_%s_output]\n  include_S%s = True\n"
                "  only_select_columns = ['state', 'mass']\n" % (k, k))
    with open(RUN + "/population_params.ini", "w") as g:
        g.write(ini)


KILL = []


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("SLURM")}
    e["PATH"] = FAKE + ":/usr/bin:/bin"
    e["FAKE_SLURM"] = FAKE
    return e


def child(fn):
    """run fn in a forked child; returns (exit code, text it printed, result json)"""
    tr.f.flush()
    out = os.path.join(ROOT, "child.out")
    rep = os.path.join(ROOT, "child.rep")
    for p in (out, rep):
        if os.path.exists(p):
            os.remove(p)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            f = os.open(out, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            os.dup2(f, 1)
            os.dup2(f, 2)
            sys.stdout = sys.stderr = open(out, "a")
            try:
                code, res = fn()
            except SystemExit as e:
                code, res = (0 if e.code in (None, 0) else int(e.code) if str(e.code).isdigit() else 1), ""
            except BaseException as e:
                code, res = 1, "%s: %s" % (type(e).__name__, e)
            with open(rep, "w") as g:
                json.dump(res, g)
            sys.stdout.flush()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    res = json.load(open(rep)) if os.path.exists(rep) else ""
    return rc, (open(out, errors="replace").read() if os.path.exists(out) else ""), res


def tool(argv, answers=()):
    """the real command line tool, in the run folder"""
    def go():
        os.chdir(RUN)
        os.environ.clear()
        os.environ.update(env())
        left = list(answers)

        def answer(prompt=""):
            if "yes/no" in prompt:
                return left.pop(0) if left else "no"
            return "0"
        builtins.input = answer
        sys.argv = ["posydon-popsyn"] + list(argv)
        # the tool ignores the return value of the subcommand: observe it
        got = []
        import posydon.CLI.popsyn.check as chk
        orig = chk.check_popsyn_function
        chk.check_popsyn_function = lambda a: got.append(orig(a))
        runpy.run_path(TOOL, run_name="__main__")
        return 0, (got[-1] if got else 0)
    return child(go)


def queue():
    q = FAKE + "/queue"
    if not os.path.exists(q):
        return []
    with open(q) as g:
        lines = [x.split("\t") for x in g.read().splitlines() if x]
    os.remove(q)
    jobs, ids = [], {}
    for k, x in enumerate(lines):
        dep = 0
        script = None
        for a in x[1:]:
            m = re.match(r"--dependency=afterok:(\d+)$", a)
            if m:
                dep = ids.get(m.group(1), 99)
            elif not a.startswith("-"):
                script = a
        ids[x[0]] = k + 1
        jobs.append(dict(job(script), dep=dep, id=int(x[0])))
    return jobs


def job(script):
    text = open(os.path.join(RUN, script)).read()
    d = dict(re.findall(r"^#SBATCH --([a-z-]+)=(.*)$", text, re.M))
    tasks, maxjobs = [], "none"
    if "array" in d:
        spec = d["array"].strip()
        if "%" in spec:
            spec, maxjobs = spec.split("%")
        for part in spec.split(","):
            a, _, b = part.partition("-")
            tasks += list(range(int(a), int(b or a) + 1))
    run = re.search(r"^srun\s+python\s+(\S+)\s+(\S+)", text, re.M)
    kind = "array" if "array" in d else "merge"
    return dict(kind=kind, script=script, met=STR.get(float(run.group(2)), "?"), tasks=tasks,
                size=0, py=run.group(1), output=d.get("output", ""),
                opts=dict(account=d.get("account", "none"), partition=d.get("partition", "none"),
                          email=d.get("mail-user", "none"), mem=d.get("mem-per-cpu", "none"),
                          walltime=d.get("time", "none") if kind == "array" else "none",
                          exclude=d.get("exclude", "none"), maxjobs=maxjobs))


def launch(j, task, out):
    """run one task (or the merge) of a submitted job the way the scheduler does"""
    if out == "never":
        return 1
    e = env()
    if task is not None:
        e.update(SLURM_ARRAY_JOB_ID=str(j["id"]), SLURM_ARRAY_TASK_ID=str(task),
                 SLURM_ARRAY_TASK_MIN=str(min(j["tasks"])), SLURM_ARRAY_TASK_MAX=str(max(j["tasks"])),
                 SLURM_ARRAY_TASK_COUNT=str(len(j["tasks"])))
    subprocess.run(["bash", j["script"]], cwd=RUN, env=e, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    env2 = dict(x.split("=", 1) for x in open(FAKE + "/env").read().split("\0") if "=" in x)
    args = [x for x in open(FAKE + "/args").read().split("\0") if x]
    if task is not None:
        j["size"] = int(env2["SLURM_ARRAY_TASK_COUNT"])
    when = KILL[0] if KILL else R.randint(1, 14)

    def go():
        os.chdir(RUN)
        os.environ.clear()
        os.environ.update(env2)
        n = [0]

        def hit(*a):
            n[0] += 1
            if n[0] == when and out == "kill":
                os._exit(9)
            if n[0] >= when and out == "error" and a[0] != "close":
                raise OSError("scripted")
        if out in ("kill", "error"):
            ra, rc, rr = pd.HDFStore.append, pd.HDFStore.close, os.remove
            pd.HDFStore.append = lambda *a, **k: (hit("append"), ra(*a, **k))[1]
            pd.HDFStore.close = lambda *a, **k: (hit("close"), rc(*a, **k))[1]
            os.remove = lambda *a, **k: (hit("remove"), rr(*a, **k))[1]
        sys.argv = args[1:]
        runpy.run_path(args[1], run_name="__main__")
        return 0, ""
    rc, text, res = child(go)
    log = j["output"].replace("%A", str(j["id"])).replace("%a", str(task))
    if log:
        p = os.path.join(RUN, log)
        if os.path.isdir(os.path.dirname(p)):
            with open(p, "w") as g:
                g.write(text[-400:] + ("" if rc == 0 else "\nslurmstepd: DUE TO TIME LIMIT ***\n"))
    return rc


def batch(cfg, met):
    return os.path.join(RUN, "%s_Zsun_%s" % (met, cfg["tmp"]))


def have(cfg, met):
    d = batch(cfg, met)
    if not os.path.isdir(d):
        return [], False
    return sorted(int(m.group(1)) for m in (re.match(r"evolution\.combined\.(\d+)\.h5$", n)
                                            for n in os.listdir(d)) if m), True


def lines(path):
    try:
        with pd.HDFStore(path, mode="r") as st:
            o, m = st["oneline"], st["mass_per_metallicity"]
            st["history"]
        if int(m["number_of_systems"].iloc[0]) != len(o):
            return [int(i) for i in o.index] + [-1], True, o
        return [int(i) for i in o.index], True, o
    except Exception:
        return [], False, None


def popfile(met):
    return os.path.join(RUN, "%s_Zsun_population.h5" % met)


def strip(jobs):
    return [{k: j[k] for k in ("kind", "met", "tasks", "dep", "size", "opts")} for j in jobs]


def probe_size(jobs):
    """array size each task of the array jobs will be told"""
    for j in jobs:
        if j["kind"] == "array":
            e = env()
            e.update(SLURM_ARRAY_JOB_ID="1", SLURM_ARRAY_TASK_ID=str(j["tasks"][0]),
                     SLURM_ARRAY_TASK_MIN=str(min(j["tasks"])), SLURM_ARRAY_TASK_MAX="0",
                     SLURM_ARRAY_TASK_COUNT=str(len(j["tasks"])))
            subprocess.run(["bash", j["script"]], cwd=RUN, env=e, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
            env2 = dict(x.split("=", 1) for x in open(FAKE + "/env").read().split("\0") if "=" in x)
            j["size"] = int(env2["SLURM_ARRAY_TASK_COUNT"])
            j["min"] = env2["SLURM_ARRAY_TASK_MIN"]


def run_queue(cfg, jobs, outcome, merge_outcome, keep_partial):
    good = {}
    for k, j in enumerate(jobs):
        if j["kind"] == "array":
            ok = True
            order = list(j["tasks"])
            R.shuffle(order)
            for t in order:
                out = outcome(j["met"], t)
                rc = launch(j, t, out)
                ok = ok and rc == 0
                h, fold = have(cfg, j["met"])
                sysm, rd, _ = lines(os.path.join(RUN, "%s_Zsun_%s" % (j["met"], cfg["tmp"]),
                                                 "evolution.combined.%d.h5" % t))
                if t in h and not rd and rc != 0:
                    # an unreadable result of a killed task: the user deletes it
                    os.remove(os.path.join(RUN, "%s_Zsun_%s" % (j["met"], cfg["tmp"]),
                                           "evolution.combined.%d.h5" % t))
                    h.remove(t)
                tr.ev("task", met=j["met"], r=t, out=out, rc=rc, have=h, folder=fold, readable=rd,
                      systems=sysm)
            good[k + 1] = ok
        elif j["dep"] == 0 or good.get(j["dep"], False):
            out = merge_outcome(j["met"])
            rc = launch(j, None, out)
            sysm, rd, _ = lines(popfile(j["met"]))
            if rc != 0 and len(sysm) != cfg["n"] and os.path.exists(popfile(j["met"])) and not keep_partial:
                os.remove(popfile(j["met"]))      # the user removes the torso
                sysm = []
            h, fold = have(cfg, j["met"])
            others = len(os.listdir(batch(cfg, j["met"]))) - len(h) if fold else 0
            tr.ev("merge", met=j["met"], out=out, rc=rc, file=os.path.exists(popfile(j["met"])),
                  systems=sysm, folder=fold, have=h, others=others)


def submit_all():
    subprocess.run(["sh", "slurm_submit.sh"], cwd=RUN, env=env(), stdout=subprocess.DEVNULL)
    return queue()


def scenario(i, sc, partial=False):
    metv = [1.0, 0.1, 0.01, 0.45, 0.0001, 2.0, 0.2, 0.001]
    metv = R.sample(metv, sc["nmets"])
    mets = [STR[m] for m in metv]
    tasks = sc["tasks"]
    big = R.random() < .15 and not partial
    if big:
        tasks = R.randint(10, 13)
    n = R.randint(tasks, tasks + 5)
    opts = {}
    argv = ["setup", "population_params.ini", "-j", str(tasks)]
    for key, flag, vals in (("account", "--account", ["b1119"]), ("partition", "--partition", ["gpu", "debug-cpu"]),
                            ("email", "--email", ["a@b.org"]), ("mem", "--mem_per_cpu", ["4G"]),
                            ("walltime", "--walltime", ["01:00:00"]), ("exclude", "--exclude", ["n1,n2"]),
                            ("maxjobs", "--max_concurrent_jobs", ["2"])):
        if R.random() < .4:
            opts[key] = R.choice(vals)
            argv += [flag, opts[key]]
        elif key in ("account", "partition", "email", "exclude", "maxjobs"):
            opts[key] = "none"
    cfg = dict(dump=R.randint(1, 3), tmp=R.choice(["batches", "tmp"]), breakdown=R.random() < .6,
               metv=metv, n=n, entropy=R.choice([None, R.randrange(10 ** 6)]))
    spec = dict(mets=mets, tasks=tasks, n=n, opts=opts)
    tr.begin("%s-%d" % ("partial" if partial else "cluster", i), cfg=spec, sc=json.dumps(sc), entropy=cfg["entropy"])
    fresh(cfg)
    rc, text, res = tool(argv)
    if rc:
        tr.ev("submit", exc=str(res), jobs=[])
        return
    jobs = submit_all()
    tr.ev("submit", exc="none", jobs=strip(jobs))
    first = {(m, t): sc["first"][(a * sc["tasks"] + t) % len(sc["first"])]
             for a, m in enumerate(mets) for t in range(tasks)}
    second = dict(zip(mets, sc["second"]))
    merges = dict(zip(mets, sc["merges"]))
    used = set()

    def m_out(m):
        if m in used:
            return "ok"
        used.add(m)
        return merges[m]
    spare = dict(n=3)

    def later(m, t):
        if spare["n"] > 0 and second[m] != "ok":
            spare["n"] -= 1
            return second[m]
        return "ok"
    run_queue(cfg, jobs, lambda m, t: first[m, t], m_out, partial)
    if R.random() < .2:
        # logs of an earlier merge in the same folder
        for m in mets:
            with open(os.path.join(RUN, m + "_logs", "popsyn_merge.out"), "w") as g:
                g.write("done\n")
    declined = R.random() < .4
    for rnd in range(14):
        if declined:
            ans = R.choice([[], ["no"], ["yes", "no"], ["maybe"], ["n"]])
        else:
            ans = ["yes", "yes"]
        over = {}
        cargv = ["check", "."]
        if R.random() < .3:
            over = dict(walltime="02:00:00", account="p777")
            cargv += ["--walltime", "02:00:00", "--account", "p777"]
        rc, text, res = tool(cargv, ans)
        jobs = queue()
        probe_size(jobs)
        want = dict(opts, **over)
        # a merge resubmitted alone uses the script of the setup
        tr.ev("check", exc=str(res) if rc else "none", rc=res if isinstance(res, int) else 9,
              ans=ans, jobs=strip(jobs), opts={k: v for k, v in want.items()
                                              if not (k in over)} if not over else
              {k: v for k, v in want.items() if k not in ("account", "walltime")})
        if rc:
            return
        if over and any(j["kind"] == "array" and (j["opts"]["walltime"], j["opts"]["account"]) !=
                        ("02:00:00", "p777") for j in jobs):
            tr.ev("unexpected", exc="options of the check command are not in the rescue script", msg="", where=[])
            return
        if declined:
            declined = False
            continue
        if res == 0 and not jobs:
            break
        if res == 1:
            jobs = submit_all()
            tr.ev("submit", exc="none", jobs=strip(jobs))
            run_queue(cfg, jobs, lambda m, t: "ok", m_out, partial)
            continue
        if partial and not jobs:
            return
        run_queue(cfg, jobs, later, m_out, partial)
    tr.ev("end")
    ids = []
    for m in mets:
        _, _, o = lines(popfile(m))
        if o is not None:
            ids += ["%r|%r|%r" % (a, b, c) for a, b, c in
                    zip(o["S1_mass_i"], o["orbital_period_i"], o["time_i"])]
    if cfg["entropy"] is None:
        tr.ev("seeds", ids=ids)


for i, sc in enumerate(scripts):
    if not hc.mine(i):
        continue
    with tr.guard():
        scenario(i, sc)
if hc.SHARD == 0:
    KILL.append(8)
    with tr.guard():
        scenario(0, dict(tasks=2, nmets=1, first=["ok", "ok"], second=["ok"], merges=["kill"], late=1), True)
os.chdir("/")
shutil.rmtree(ROOT, ignore_errors=True)
tr.close()
