def run(c):
    c.model_check("ClusterMC")
    _, path = c.generate("ClusterGen", sample=600 if c.thorough else 48)
    t = c.drive("drv_cluster.py", [path], nproc=8, timeout=3000 if c.thorough else 700)
    c.validate("ClusterTrace", t, chunks=8)
    c.assumptions += ["sbatch and srun are stand-ins that follow the documented scheduler behaviour; the command line tool, the scripts it writes and the population code are real"]
