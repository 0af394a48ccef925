def run(c):
    c.model_check("SFHMC", "SFHMCBig.cfg" if c.thorough else "SFHMC.cfg", workers=8)
    _, path = c.generate("SFHGen", sample=None if c.thorough else 5000)
    t = c.drive("drv_sfh.py", [path], nproc=8)
    c.validate("SFHTrace", t, chunks=8)
    c.assumptions += [
        "tabulated histories are read from small data files written by the check in the format of the distributed ones",
        "shares are compared with a resolution of 3e-4"]
