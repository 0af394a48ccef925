def run(c):
    c.model_check("CEMC", "CEMC.cfg", workers=8)
    _, path = c.generate("CEGen", sample=None if c.thorough else 8000)
    t = c.drive("drv_ce.py", [path], nproc=8)
    c.validate("CETrace", t, chunks=8)
    c.assumptions += [
        "core masses, radii and binding parameters come from the star itself; of the parameters computed from "
        "stellar profiles only the fallback without a profile is driven",
        "the track matcher that gives the radius of a companion disturbed by accretion is a stand-in",
        "cores within 0.1% of filling their Roche lobe are not judged"]
