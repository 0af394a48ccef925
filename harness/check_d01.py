def run(c):
    c.model_check("HistoryMC")
    _, path = c.generate("HistoryMC", "HistoryGen.cfg", sample=9000 if c.thorough else 1000)
    t = c.drive("drv_hist.py", [path, "d01"], nproc=8)
    c.validate("HistoryTrace", t, chunks=8)
    c.assumptions += ["vector columns (V_sys, nearest_neighbour_distance) are not rebuilt by the code and are not claimed"]
