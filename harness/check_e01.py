import json


def run(c):
    c.model_check("EvolutionMC", "EvolutionMC.cfg")
    cfg = "EvolutionGen3.cfg" if c.thorough else "EvolutionGen.cfg"
    _, path, r = c.generate("EvolutionMC", cfg, want_result=True, timeout=850)
    chart = path + ".chart"
    with open(chart, "w") as f:
        f.write(json.loads(r.prints("CHART")[0]))
    t = c.drive("drv_e01.py", [path, chart], nproc=8 if c.thorough else 4)
    c.validate("EvolutionTrace", t, chunks=8 if c.thorough else 4)
    c.assumptions += ["steps are scripted stand-ins that change the total state and may add history rows, like the real steps"]
