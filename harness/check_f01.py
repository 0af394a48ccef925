def run(c):
    c.model_check("FlowChartMC")
    t = c.drive("drv_f01.py")
    c.validate("FlowChartTrace", t, chunks=4)
