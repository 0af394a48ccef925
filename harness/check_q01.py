def run(c):
    c.model_check("PopFileMC", "PopFileMC4.cfg", workers=8)
    _, path = c.generate("PopFileGen", "PopFileGenQ01.cfg", sample=6000 if c.thorough else 700)
    t = c.drive("drv_popfile.py", [path], nproc=8)
    c.validate("PopFileTrace", t, chunks=8)
    c.assumptions += [
        "population files of up to five systems with up to five history rows; chunks of 1, 2, 3 and 100 systems",
        "repeated indices in a selection, slices with a step and negative positions are not judged",
        "formation channels with both a contact phase and a later overflow of the primary are not generated"]
