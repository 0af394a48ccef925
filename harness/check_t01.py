def run(c):
    c.model_check("DetachedMC", "DetachedMCBig.cfg" if c.thorough else "DetachedMC.cfg", workers=8)
    _, path = c.generate("DetachedGen", "DetachedGenBig.cfg" if c.thorough else "DetachedGen.cfg")
    t = c.drive("drv_detached.py", [path], nproc=8)
    c.validate("DetachedTrace", t, chunks=8)
    c.assumptions += [
        "the single-star tracks are synthetic (radius, mass and moment of inertia linear in time); where a star is on its track is given by the script",
        "balance equations are compared to 60 ppm (1000 ppm with gravitational radiation, which carries post-Newtonian terms), with the solver's tolerance tightened for the comparison",
        "eccentricities below 1/1000 count as nil"]
