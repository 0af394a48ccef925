def run(c):
    c.model_check("GridStepMC", "GridStepMC.cfg", workers=8)
    _, path = c.generate("GridStepGen", sample=None if c.thorough else 24000)
    t = c.drive("drv_gridstep.py", [path], nproc=8)
    c.validate("GridStepTrace", t, chunks=8)
    c.assumptions += [
        "the grid of pre-computed runs is a stand-in with declared limits; masses, mass ratios and periods lie inside, at and outside them",
        "the evolution inside the grid is replaced by a recorder (it is property M02's subject)"]
