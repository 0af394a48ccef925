"""A small library of single-star tracks with exactly known time dependence,
given to the real track matcher in place of the distributed grids.

A track: dict(m=initial mass, T=end, dm=mass lost per year, r=radius at birth, k=growth
of the radius per year, I=moment of inertia in Msun Rsun^2, di=its growth per year, ...)."""
import numpy as np
from posydon.utils import constants as const
from posydon.utils.key_library import DEFAULT_FINAL_KEYS, DEFAULT_PROFILE_KEYS, DEFAULT_TRANSLATED_KEYS

NODES = 9


def default(m, he):
    return dict(m=m, T=1e7, dm=0., r=.5 * m, k=0., I=.1 * m * m, di=0.)


class Grid:
    """one kind of star (hydrogen rich or stripped)"""

    def __init__(self, he, masses=(.5, .8, 1., 1.2, 1.4, 1.6, 2., 4., 8., 16., 32.)):
        self.he = he
        self.grid_mass = np.array(masses)
        self.special = {}

    def track(self, m):
        if m < self.grid_mass.min() or m > self.grid_mass.max() or not np.isfinite(m):
            raise ValueError("mass outside the grid")
        for x, t in self.special.items():
            if abs(x - m) < 1e-9:
                return t
        return default(m, self.he)

    def at(self, key, m, age):
        """value of a column at an age (in years)"""
        t = self.track(m)
        mass = t["m"] - t["dm"] * age
        f = age / t["T"]
        v = {"age": age, "mass": mass, "mdot": -t["dm"] + 0 * age, "log_R": np.log10(t["r"] + t["k"] * age),
             "inertia": (t["I"] + t["di"] * age) * const.msol * const.rsol**2, "log_L": 1. + .1 * m + 0 * age,
             "log_Teff": 4. + 0 * age, "log_LH": 1. + 0 * age, "log_LHe": -5. + 0 * age, "log_LZ": -9. + 0 * age, "log_Lnuc": 1. + 0 * age,
             "he_core_mass": mass if self.he else .1 * m * (1 + f),
             "surface_h1": .0 if self.he else .7, "center_h1": 0. if self.he else .7 - .5 * f, "surface_he4": .98 if self.he else .28,
             "center_he4": .98 - .5 * f if self.he else .28 + .5 * f, "center_c12": .001, "co_core_mass": 0., "c_core_mass": 0., "o_core_mass": 0.,
             "mass_conv_reg_fortides": t.get("menv", 0.), "thickness_conv_reg_fortides": t.get("denv", 0.),
             "radius_conv_reg_fortides": t.get("renv", 0.), "conv_mx1_top_r": t.get("top", .2) , "conv_mx1_bot_r": 0.,
             "conv_env_turnover_time_l_b": t.get("tau", 2.8e6)}.get(key, .25)
        if self.he and key in ("log_LH", "log_LHe"):
            v = {"log_LH": -5., "log_LHe": 1.}[key]
        return v + 0. * age

    def get(self, key, m):
        return self.at(key, m, np.linspace(0., self.track(m)["T"], NODES))

    def final(self, key, m):
        return 100. * DEFAULT_FINAL_KEYS.index(key) + m + (50. if self.he else 0.)

    def get_final_values(self, key, m):
        assert key.startswith("S1_")
        return self.final(key[3:], m)

    def get_profile(self, key, m):
        p = np.zeros(3, dtype=[(k, "f8") for k in DEFAULT_PROFILE_KEYS + ("omega",)])
        for k in p.dtype.names:
            p[k] = m + np.arange(3) / 8. + (50. if self.he else 0.)
        return p[key], p
