"""Writes data files in the layout of MESA."""
import gzip
import os

OUT = {"cdep1": "Primary has depleted central carbon", "maxmdot": "Reached maximum mass transfer rate: 1d-1",
       "mintime": "min_timestep_limit", "overflow": "Terminate because of overflowing initial model",
       "stopped1": "Primary got stopped before central carbon depletion",
       "stopped2": "Secondary got stopped before central carbon depletion"}
BACK = {v: k for k, v in OUT.items()}
RATE = {0: -99., 1: -5., 2: -5., 3: -5., 4: -10.}
RL1 = {0: -.5, 1: -.1, 2: .1, 3: -.5, 4: 0.}
RL2 = {0: -.6, 1: -.6, 2: -.6, 3: .1, 4: -.6}
C = {0: (.7, .28, .0), 1: (0., .005, .05), 2: (0., .005, .005), 3: (0., .005, .3)}
ZDIR = "1.42e-02"


def num(v):
    return "1.5-101" if v == 99 else "%.17g" % v


def write(path, header, cols, rows, gz):
    """the layout of MESA's data files"""
    def line(xs):
        return " ".join("%24s" % x for x in xs) + "\n"
    txt = line(range(1, len(header) + 1)) + line(header) + line("%.17g" % v for v in header.values()) + "\n"
    txt += line(range(1, len(cols) + 1)) + line(cols) + "".join(line(r) for r in rows)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if gz:
        with gzip.open(path + ".gz", "wt") as f:
            f.write(txt)
    else:
        with open(path, "w") as f:
            f.write(txt)


BHC = ["model_number", "age", "rowid", "val", "star_1_mass", "star_2_mass", "period_days", "binary_separation",
       "lg_mtransfer_rate", "rl_relative_overflow_1", "rl_relative_overflow_2"]
HC = ["model_number", "star_age", "rowid", "val", "star_mass", "surface_h1", "center_h1", "center_he4", "center_c12",
      "log_LH", "log_LHe", "log_Lnuc", "he_core_mass", "co_core_mass", "avg_c_in_c_core"]
PC = ["mass", "radius", "rowid"]
