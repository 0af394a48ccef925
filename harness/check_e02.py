def run(c):
    c.model_check("HistoryMC")
    _, path = c.generate("HistoryMC", "HistoryGenE.cfg", sample=6000 if c.thorough else 1200)
    t = c.drive("drv_hist.py", [path, "e02"], nproc=8)
    c.validate("HistoryTrace", t, chunks=8)
