"""Steps and hooks for the configuration check; the same file is imported and loaded by path."""
MADE = []
ABS = __name__ != "cfg_steps"


class Base:
    DEFAULT_KWARGS = {}

    def __init__(self, **kw):
        self.kw, self.abs = dict(kw), ABS


class HMS(Base):
    DEFAULT_KWARGS = {"metallicity": None, "grid_path": None, "RNG": None, "opt": 0}


class Det(Base):
    DEFAULT_KWARGS = {"metallicity": None, "track_matcher": None, "RNG": None, "opt": 0}


class Mer(Base):
    DEFAULT_KWARGS = {"metallicity": None, "track_matcher": None, "opt": 0}


class SN(Base):
    DEFAULT_KWARGS = {"RNG": None, "opt": 0}


class End(Base):
    pass


class Hook:
    def __init__(self, kw=0):
        self.kw, self.abs = kw, ABS


def flow(**kw):
    return {}
