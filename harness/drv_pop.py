"""Populations with scripted systems.  argv: OUT SCRIPTS MODE(p01|p03)"""
import json
import os
import shutil
import sys

import hc
import pop_common as pc

tr = hc.Trace(sys.argv[1])
scripts = json.load(open(sys.argv[2]))
MODE = sys.argv[3]
R = hc.rng(MODE + str(hc.SHARD))
ROOT = os.path.join(hc.WORK, "pop")


def fresh():
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT)
    os.chdir(ROOT)
    return os.path.join(ROOT, "batches")


def prep(sc, entropy, mets=(1.0,), met=1.0):
    cfg = dict(sc, entropy=entropy, met=met, mets=list(mets))
    if sc["mode"] == "mpi":
        cfg["stream"] = str(entropy + list(mets).index(met))
    elif sc["mode"] == "job" and entropy is None:
        cfg["stream"] = "job%d" % (cfg["jobid"] + list(mets).index(met))
    else:
        cfg["stream"] = str(entropy)
    return cfg


def whole(cfg, first, disk=True):
    """all ranks of a population, then the merge"""
    tmp = fresh()
    if first:
        tr.ev("run", cfg=pc.spec_cfg(cfg))
    order = list(range(cfg["size"]))
    R.shuffle(order)
    pop = None
    for r in order:
        pop = pc.run_rank(cfg, r, tmp, tr, disk=disk)
    if pop is None or not os.path.isdir(tmp):
        return
    route = R.choice(["save", "runner"])
    if MODE == "p01" and cfg["size"] > 1 and R.random() < .25:
        # one rank's file is unreadable: the rest is merged, that file stays
        victim = R.randrange(cfg["size"])
        path = os.path.join(tmp, "evolution.combined.%d.h5" % victim)
        if os.path.exists(path):
            with open(path, "wb") as g:
                g.write(b"garbage")
            out, exc = pc.merge(cfg, pop, tmp, route, ROOT)
            lost = not os.path.exists(path)
            want = [i for i in range(cfg["n"])]
            if exc == "none":
                got = share(cfg, victim)
                want = [i for i in want if i not in got]
                pc.file_event(tr, "partial", out, want=want, lost=lost)
            else:
                # refusing altogether is fine as long as nothing is lost
                have = sorted(i for i in pc.on_disk(tmp) if i not in share(cfg, victim))
                tr.ev("recover", present=have)
                gone = [i for i in want if i not in have and i not in share(cfg, victim)]
                if gone or lost:
                    tr.ev("unexpected", exc=exc, msg="lost", where=[])
            return
    out, exc = pc.merge(cfg, pop, tmp, route, ROOT)
    left = os.listdir(tmp) if os.path.isdir(tmp) and cfg["optimize"] else []
    pc.file_event(tr, "final", out, left=left, exc=exc)


def share(cfg, r):
    import numpy as np
    return [int(x) for x in np.array_split(range(cfg["n"]), cfg["size"])[r]]


for i, sc in enumerate(scripts):
    if not hc.mine(i):
        continue
    if MODE == "p02":
        n = R.randint(max(2, sc["size"]), 12 if hc.THOROUGH else 7)
        kinds = ["ok", "rows", "exotic", "warn", "value", "flow", "partial", "warnfail", "nochart"]
        sc = dict(sc, n=n, outs=[R.choice(kinds) for _ in range(n)])
        if i % 9 == 0:
            sc["outs"][R.randrange(n)] = "hang"
        cfg = prep(sc, R.randrange(10 ** 6))
        cfg["hooks"] = i % 2 == 0
        cfg["bfrac"] = R.choice([.3, .7, 1.])
        tr.begin("%s-%d" % (MODE, i), cfg=pc.spec_cfg(cfg), outs=cfg["outs"], breakdown=cfg["breakdown"])
        with tr.guard():
            whole(cfg, False, disk=cfg["size"] < 9)
            # the same population without any failure: the others are the same
            c2 = dict(cfg, outs=["ok" if k in ("value", "flow", "partial", "hang", "nochart", "warnfail")
                                 else k for k in cfg["outs"]])
            whole(c2, True)
    elif MODE == "p01":
        if hc.THOROUGH and i % 10 == 0:
            n = R.randint(5, 30)
            sc = dict(sc, n=n, dump=R.randint(1, 12),
                      outs=[R.choice(["ok", "ok", "rows", "value", "warn", "nochart"]) for _ in range(n)])
        if i % 16 < 3:
            sc["outs"] = list(sc["outs"])
            sc["outs"][R.randrange(len(sc["outs"]))] = ["nochart", "hang", "nochart"][i % 16]
        mets = R.choice([(1.0,), (1.0, 0.1), (0.0001, 0.01, 0.45, 2.0)])
        cfg = prep(sc, R.randrange(10 ** 6), mets, R.choice(mets))
        if i % 24 == 5 and cfg["mode"] != "serial":
            # more ranks than a digit can count
            cfg["size"] = R.randint(10, 14)
            cfg["n"] = R.randint(cfg["size"], 20)
            cfg["outs"] = [R.choice(["ok", "ok", "rows", "value", "exotic"]) for _ in range(cfg["n"])]
        if i % 8 == 3:
            cfg["ram"] = R.choice([1e-6, 1e6])
        cfg["bfrac"] = R.choice([0.6, 1.0, 0.0]) if i % 4 == 0 else .7
        tr.begin("%s-%d" % (MODE, i), cfg=pc.spec_cfg(cfg), outs=cfg["outs"], breakdown=cfg["breakdown"])
        with tr.guard():
            whole(cfg, False, disk=cfg["size"] < 9)
    else:
        ent = R.randrange(10 ** 6)
        mets = (1.0, 0.1, 0.01)
        base = dict(sc)
        if sc["mode"] == "job" and i % 2:
            ent, base["jobid"] = None, R.randrange(1000, 10 ** 5)
        cfg = prep(base, ent, mets, R.choice(mets))
        tr.begin("%s-%d" % (MODE, i), cfg=pc.spec_cfg(cfg), outs=cfg["outs"], breakdown=cfg["breakdown"])
        with tr.guard():
            whole(cfg, False, disk=False)
            # the same stream with other outcomes, dumping, bookkeeping
            for j in range(2):
                other = dict(base, dump=R.randint(1, 4), outs=R.sample(cfg["outs"], len(cfg["outs"])))
                if base["mode"] == "serial":
                    other["optimize"] = R.random() < .5
                    other["n"] = R.randint(1, 5)
                    other["outs"] = [R.choice(["ok", "value", "flow", "rows"]) for _ in range(other["n"])]
                other["breakdown"] = R.random() < .5 or (base["mode"] != "serial" and not other["optimize"])
                c2 = prep(other, ent, mets, cfg["met"])
                whole(c2, True, disk=False)
            # other streams: another entropy, another metallicity, another job
            c3 = prep(base, None if ent is None else ent + 7, mets, cfg["met"])
            if ent is None:
                c3 = prep(dict(base, jobid=base["jobid"] + 7), None, mets, cfg["met"])
            whole(c3, True, disk=False)
            if base["mode"] == "mpi" or ent is None:
                met = [m for m in mets if m != cfg["met"]][0]
                whole(prep(base, ent, mets, met), True, disk=False)
os.chdir("/")
shutil.rmtree(ROOT, ignore_errors=True)
tr.close()
