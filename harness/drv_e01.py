"""Replays TLC's scripts of step outcomes through the real BinaryStar.evolve."""
import json
import signal
import sys

import hc
import evo_common as ec
from posydon.binary_evol.flow_chart import (BINARY_EVENTS_ALL, BINARY_STATES_ALL,
                                            STAR_STATES_ALL, flow_chart)

tr = hc.Trace(sys.argv[1])
scripts = json.load(open(sys.argv[2]))
CHART = json.load(open(sys.argv[3]))
holder = {"tr": tr}
pcache = {}


def props_for(cfg):
    key = json.dumps(cfg, sort_keys=True)
    if key not in pcache:
        if cfg["chart"] == "default":
            chart = flow_chart
        else:
            chart = {tuple(ec.N(x) for x in r[:4]): r[4] for r in CHART}
        nh = cfg["nhooks"]
        # the last hook is registered as plain extra_* functions
        hooks = [(ec.hook_class(i + 1, holder), {}) for i in range(max(0, nh - 1))]
        if nh:
            h = ec.hook_class(nh, holder)()
            hooks += [("extra_pre_evolve", h.pre_evolve), ("extra_pre_step", h.pre_step),
                      ("extra_post_step", h.post_step), ("extra_post_evolve", h.post_evolve)]
            if nh > 2:      # registration order of unrelated kinds is irrelevant
                hooks = hooks[-4:] + hooks[:-4]
        kw = {}
        if cfg["endEvents"]:
            kw["end_events"] = list(cfg["endEvents"])
        if cfg["endStates"]:
            kw["end_states"] = list(cfg["endStates"])
        if cfg["maxn"] != 100:
            kw["max_n_steps_per_binary"] = None if cfg["maxn"] < 0 else cfg["maxn"]
        pcache[key] = ec.properties(holder, chart, hooks, **kw)
    return pcache[key]


def evolve(b):
    exc = "none"
    try:
        with hc.quiet():
            b.evolve()
    except Exception as e:
        exc = type(e).__name__
    alarm = signal.getitimer(signal.ITIMER_REAL)[0] > 0
    signal.setitimer(signal.ITIMER_REAL, 0)
    tr.ev("end", exc=exc, cur=ec.cur(b), len=len(b.event_history), alarm=alarm)


for i, sc in enumerate(scripts):
    if not hc.mine(i):
        continue
    cfg, k = sc["cfg"], sc["start"]
    tr.begin("s%d" % i, cfg=cfg, cur=k)
    with tr.guard():
        p = props_for(cfg)
        b = ec.binary(k, p, index=i, verbose=cfg["verbose"],
                      time=2e10 if cfg["late"] else 0.0)
        holder["d"] = ec.Director(tr, sc["out"])
        evolve(b)
        # evolving again is allowed: it continues from where the binary is
        if i % 3 == 0:
            tr.ev("again")
            evolve(b)

# long random walks under the default flow chart
R = hc.rng("walk%d" % hc.SHARD)
S = list(STAR_STATES_ALL)
B = list(BINARY_STATES_ALL)
E = ["None" if e is None else e for e in BINARY_EVENTS_ALL]
known = [["None" if x is None else x for x in k] for k in flow_chart()]
for j in range((4000 if hc.THOROUGH else 400) // hc.NSHARDS):
    cfg = {"verbose": R.random() < .4, "maxn": R.choice([3, 7, 20, 100]),
           "endEvents": R.choice([[], ["CC1"], ["oRLO1", "CO_contact"]]),
           "endStates": R.choice([[], ["contact"], ["disrupted", "merged"]]),
           "nhooks": R.choice([0, 1, 2]), "chart": "default", "late": False}

    def tot():
        if R.random() < .05:
            return [R.choice(S), R.choice(S), R.choice(B), R.choice(E)]
        return list(R.choice(known))
    out = []
    for _ in range(R.randint(1, 24)):
        exc = "RuntimeError" if R.random() < .01 else "none"
        out.append({"post": tot(), "rows": R.choice([0, 0, 0, 1, 4]), "exc": exc})
    k = tot()
    tr.begin("w%d.%d" % (hc.SHARD, j), cfg=cfg, cur=k)
    with tr.guard():
        b = ec.binary(k, props_for(cfg), index=j, verbose=cfg["verbose"])
        holder["d"] = ec.Director(tr, out)
        evolve(b)
        tr.ev("again")
        evolve(b)
tr.close()
