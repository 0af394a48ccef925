def run(c):
    c.model_check("SNMC", "SNMC2.cfg")
    if c.thorough:
        c.model_check("SNMC", "SNMC.cfg", workers=8)
    _, path = c.generate("SNGen", sample=None if c.thorough else 5000)
    t = c.drive("drv_sn.py", [path], nproc=8)
    c.validate("SNTrace", t, chunks=8)
    c.assumptions += [
        "analytic engines only (Fryer rapid/delayed, direct, direct He core) plus interpolated outcomes; "
        "the engines that need data files (Sukhbold, Patton, Couch, Maltsev) and stellar profiles are not driven",
        "post-supernova orbits within 2% of the bound/unbound boundary are not judged",
        "remnants of exactly the maximum neutron-star mass are not judged"]
