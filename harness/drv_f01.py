"""Dumps the real flow charts, and the effect of customising them."""
import sys

import hc
from posydon.binary_evol import flow_chart as fc

tr = hc.Trace(sys.argv[1])
n = lambda x: "None" if x is None else x   # noqa: E731
S, B, E = fc.STAR_STATES_ALL, fc.BINARY_STATES_ALL, fc.BINARY_EVENTS_ALL
VAR = {"default": fc.flow_chart, "ecc": fc.initial_eccentricity_flow_chart}


def dump(chart, variant, tid):
    tr.begin(tid, variant=variant)
    with tr.guard():
        seen = set()
        for b in B:
            for e in E:
                rows = []
                for s1 in S:
                    for s2 in S:
                        k = (s1, s2, b, e)
                        seen.add(k)
                        rows.append([s1, s2, chart.get(k, "none")])
                tr.ev("cell", b=b, e=n(e), rows=rows)
        tr.ev("extras", keys=[[n(x) for x in k] for k in chart if k not in seen])


R = hc.rng("f01")
for variant, fn in VAR.items():
    with tr.guard():
        dump(fn(), variant, variant)
tr.begin("undef", variant="default")
with tr.guard():
    tr.ev("undef", rows=[[n(x) for x in k] for k in fc.UNDEFINED_STATES])

for i in range(60 if hc.THOROUGH else 12):
    variant = R.choice(list(VAR))
    tr.begin("custom%d" % i, variant=variant)
    with tr.guard():
        fn = VAR[variant]
        base = {v: f() for v, f in VAR.items()}
        # entries which the eccentric variant itself rewrites are not ours
        keys = [k for k in base["default"]
                if not (k[3] in ("ZAMS", "oRLO1", "oRLO2") and variant == "ecc")]
        ch = {k: R.choice(["step_end", "step_mine", "step_detached"])
              for k in R.sample(keys, R.choice([1, 2, 5, 40]))}
        got = fn(CHANGE_FLOW_CHART=dict(ch))
        diff = [[n(x) for x in k] + [got[k]] for k in got
                if got[k] != base[variant].get(k, "none")]
        diff += [[n(x) for x in k] + ["none"] for k in base[variant] if k not in got]
        # scribbling over the returned chart must not matter either
        for k in list(got)[:50]:
            got[k] = "step_scribble"
        later = []
        for v, f in VAR.items():
            now = f()
            later += [[v] + [n(x) for x in k] for k in set(now) | set(base[v])
                      if now.get(k) != base[v].get(k)]
        tr.ev("custom", asked=[[n(x) for x in k] + [v] for k, v in ch.items()],
              diff=diff, later=later[:20])
# and the charts built after all that are still the specified ones
for variant, fn in VAR.items():
    dump(fn(), variant, variant + "-after")
tr.close()
