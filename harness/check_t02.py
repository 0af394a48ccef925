def run(c):
    c.model_check("DCOMC", "DCOMC.cfg", workers=4)
    _, path = c.generate("DCOGen", "DCOGenBig.cfg" if c.thorough else "DCOGen.cfg")
    t = c.drive("drv_dco.py", [path], nproc=8)
    c.validate("DCOTrace", t, chunks=8)
    c.assumptions += ["radii of compact objects are those of the repository's own function",
                      "recorded orbits are compared in time (100 ppm of the time to the end), contact time to 50 ppm"]
