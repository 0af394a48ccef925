"""A stand-in for a grid of detailed models: the runs are tables made here."""
import numpy as np
from posydon.binary_evol.MESA import step_mesa as sm
from posydon.grids.SN_MODELS import SN_MODELS

STAR_BH = ("lg_mdot", "lg_system_mdot", "lg_wind_mdot")
POST = ["avg_c_in_c_core_at_He_depletion", "co_core_mass_at_He_depletion"] + [
    "%s_core_CE_%s" % (a, b) for a in "mr" for b in ("1cent", "10cent", "30cent", "pure_He_star_10cent")]
P2M = sm.POSYDON_TO_MESA
BCOLS = ["age", "star_1_mass", "star_2_mass"] + [v for v in P2M["binary"].values() if isinstance(v, str) and v != "age"]
BCOLS += [P2M["star"][k] + "_%d" % j for k in STAR_BH for j in (1, 2)]
BCOLS = list(dict.fromkeys(BCOLS))
SCOLS = list(dict.fromkeys([v for k, v in P2M["star"].items() if isinstance(v, str) and k not in STAR_BH + ("mass",)]))


class Run:
    """One run: rows is a list of dicts (columns of the binary, 's1', 's2')."""

    def __init__(self, rows, co=None, sn=None):
        self.sn = sn
        self.final_profile1, self.final_profile2 = "profile 1", "profile 2"
        if rows is None:
            self.binary_history = self.history1 = self.history2 = None
            return
        self.binary_history = table([{k: r.get(k, -99.) for k in BCOLS} for r in rows], BCOLS)
        self.history1 = table([{k: r["s1"].get(k, -1.) for k in SCOLS} for r in rows], SCOLS)
        self.history2 = table([{k: r["s2"].get(k, -1.) for k in SCOLS} for r in rows], SCOLS) if co is None else None
        self.final_values = {"S%d_%s" % (j, k): float(j) for j in (1, 2) for k in POST}

    def get_SN_data(self, name):
        return self.sn


def table(rows, cols):
    out = np.zeros(len(rows), dtype=[(c, "f8") for c in cols])
    for j, r in enumerate(rows):
        for c in cols:
            out[c][j] = r[c]
    return out


class Grid:
    def __init__(self, pts):
        """pts: (m1, m2, p, failed) of every run"""
        cols = ["star_1_mass", "star_2_mass", "period_days"]
        self.initial_values = table([dict(zip(cols, p[:3])) for p in pts], cols)
        self.final_values = table([dict(zip(cols, (np.nan,) * 3 if p[3] else p[:3])) for p in pts], cols)


class Tracks:
    """Stands for the trained nearest-neighbour interpolator."""

    def __init__(self, grid):
        self.grid, self.asked = grid, []
        self.answer = None          # (run, flags)

    def evaluate(self, b, print_dist=False):
        self.asked.append((b.star_1.mass, b.star_2.mass, b.orbital_period))
        run, flags = self.answer
        return run, np.array([.1, .2, .3]), list(flags)


class Finals:
    """Stands for the initial-final interpolator."""

    def __init__(self):
        self.asked, self.answer = [], None

    def evaluate(self, b):
        self.asked.append((b.star_1.mass, b.star_2.mass, b.orbital_period))
        return self.answer


CLASSES = dict(MS_MS=sm.MS_MS_step, CO_HMS_RLO=sm.CO_HMS_RLO_step, CO_HeMS_RLO=sm.CO_HeMS_RLO_step, CO_HeMS=sm.CO_HeMS_step,
               HMS_HMS_RLO=sm.HMS_HMS_RLO_step)


def make(name, grid, finals=None, **kw):
    cls = CLASSES[name]

    class Fed(cls):
        def load_psyTrackInterp(self):
            self._psyTrackInterp = Tracks(grid)

        def load_Interp(self, filename):
            self._Interp = finals

    Fed.__name__ = cls.__name__
    return Fed(metallicity=1., grid_path="/nonexistent", **kw)
