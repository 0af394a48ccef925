def run(c):
    c.model_check("SamplingMC", "SamplingMCBig.cfg" if c.thorough else "SamplingMC.cfg", workers=4)
    _, path = c.generate("SamplingGen", sample=None if c.thorough else 5000)
    t = c.drive("drv_sampling.py", [path], nproc=8)
    c.validate("SamplingTrace", t, chunks=8)
    c.assumptions += [
        "statistical rules are judged on 4000 or 20000 draws: a deviation of a cumulative fraction of less than 2.5% is not seen",
        "the Moe & Di Stefano period-mass ratio tables are not shipped and not covered"]
