def run(c):
    c.model_check("MergeMC", "MergeMC.cfg", workers=8)
    _, path = c.generate("MergeGen")
    t = c.drive("drv_merge.py", [path], nproc=8)
    c.validate("MergeTrace", t, chunks=8)
    c.assumptions += [
        "the single-star track the lone or merged star follows afterwards is a stand-in (no stellar grids here)",
        "the burning stage inferred for a merged star is not judged, only its kind",
        "mass fractions are compared to 2/10000, masses to 1/1000 Msun"]
