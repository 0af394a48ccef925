def run(c):
    c.model_check("HistoryMC")
    _, path = c.generate("HistoryMC", "HistoryGen.cfg", sample=16000 if c.thorough else 2400)
    t = c.drive("drv_hist.py", [path, "e03"], nproc=8)
    c.validate("HistoryTrace", t, chunks=8)
