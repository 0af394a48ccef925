def run(c):
    c.model_check("InterpMC", "InterpMC.cfg", workers=4)
    _, path = c.generate("InterpGen", "InterpGenBig.cfg" if c.thorough else "InterpGen.cfg")
    t = c.drive("drv_interp.py", [path], nproc=8)
    c.validate("InterpTrace", t, chunks=8)
    c.assumptions += ["the grids are small made-up ones written in the format of the distributed files, with integer contents so that every mix is exact",
                      "ties between equally near binary models may be broken either way"]
