def run(c):
    c.model_check("ConfigMC", "ConfigMCBig.cfg" if c.thorough else "ConfigMC.cfg", workers=8)
    _, path = c.generate("ConfigGen", sample=None if c.thorough else 14000)
    t = c.drive("drv_config.py", [path], nproc=8)
    c.validate("ConfigTrace", t, chunks=8)
    c.assumptions += [
        "steps, track matchers and grids of single stars are recording stand-ins; five of the twelve steps, one for each combination of what a step may need",
        "one or two parameter files; up to three loads after construction"]
