def run(c):
    c.model_check("TrackMC", "TrackMC.cfg", workers=8)
    _, path = c.generate("TrackGen", sample=None if c.thorough else 24000)
    t = c.drive("drv_track.py", [path], nproc=8)
    c.validate("TrackTrace", t, chunks=8)
    c.assumptions += [
        "the pre-computed run is synthetic: up to six models, quantities linear between them, two-model minimum",
        "in every script a random choice of the columns is compared, besides masses, period, radii and states; over the scripts all of them",
        "stopping at a condition other than the maximum time is not exercised"]
