def run(c):
    c.model_check("StellarMC", "StellarMC.cfg", workers=8)
    _, path = c.generate("StellarGen", sample=None if c.thorough else 24000)
    t = c.drive("drv_stellar.py", [path], nproc=8)
    c.validate("StellarTrace", t, chunks=8)
    c.assumptions += [
        "abundances, luminosities, overflows and rates take values at and next to every threshold, and typical ones",
        "runs of up to four models; phases of mass transfer of up to five",
        "thresholds themselves (1 percent, -10 dex, 3 percent of the nuclear luminosity, 1.46 and 2.5 Msun) are those of the unchanged code"]
