def run(c, mode="p01", n=None):
    c.model_check("PopulationMC")
    _, path = c.generate("PopulationGen", sample=n or (3000 if c.thorough else 144))
    t = c.drive("drv_pop.py", [path, mode], nproc=8, timeout=3000 if c.thorough else 600)
    c.validate("PopulationTrace", t, chunks=8)
    c.assumptions += ["systems evolve by scripted steps; sampling, evolution loop, failure handling, dumping, combining and merging are the real code"]
