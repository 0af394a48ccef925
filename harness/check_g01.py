def run(c):
    c.model_check("PSyGridMC", "PSyGridMCBig.cfg" if c.thorough else "PSyGridMC.cfg", workers=4)
    c.model_check("ThinMC", "ThinMC.cfg", workers=4)
    _, path = c.generate("PSyGridGen", "PSyGridGenBig.cfg" if c.thorough else "PSyGridGen.cfg")
    t = c.drive("drv_psygrid.py", [path], nproc=8)
    c.validate("PSyGridTrace", t, chunks=8)
    c.assumptions += [
        "tables of at most 7 rows; ages are whole numbers, so the loss of digits when ages are shifted is not covered",
        "the class of a run whose compact object would be the donor is not judged",
        "runs traced by EEP files and the eccentric grids are not covered"]
