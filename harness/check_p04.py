def run(c):
    c.model_check("PopulationMC")
    _, path = c.generate("PopulationGen", "PopulationGenCrash.cfg", sample=200 if c.thorough else 16)
    t = c.drive("drv_crash.py", [path], nproc=8, timeout=3000 if c.thorough else 600)
    c.validate("PopulationTrace", t, chunks=8)
    c.assumptions += ["an interruption is the process ending at a step, HDF5 append/close, rename or delete; torn writes inside one HDF5 call are not simulated"]
