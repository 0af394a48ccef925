def run(c):
    c.model_check("RatesMC", "RatesMC.cfg", workers=8)
    _, path = c.generate("RatesGen", sample=6000 if c.thorough else 480)
    t = c.drive("drv_rates.py", [path], nproc=8)
    c.validate("RatesTrace", t, chunks=8)
    c.assumptions += [
        "files of up to five systems with up to two events each; chunks of 1, 2, 3 and 100 rows; delays between 5 Myr and 13.5 Gyr",
        "mass-ratio bounds are given explicitly; initial orbits are given as periods",
        "star formation histories that need data files are replaced by an analytic one",
        "events within 50 kyr of the present or on an edge of a redshift bin are not judged"]
