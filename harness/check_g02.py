def run(c):
    c.model_check("GridFileMC", "GridFileMCBig.cfg" if c.thorough else "GridFileMC.cfg", workers=4)
    c.model_check("BoundaryMC", "BoundaryMC.cfg", workers=2)
    _, path = c.generate("GridFileGen", "GridFileGenBig.cfg" if c.thorough else "GridFileGen.cfg")
    t = c.drive("drv_gridfile.py", [path], nproc=8)
    c.validate("GridFileTrace", t, chunks=8)
    c.assumptions += [
        "when two known systems are equally near, either may decide about initial overflow",
        "joining grids which were post-processed (refused by the file format) is not covered"]
