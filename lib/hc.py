"""Helpers for the drivers that execute the real POSYDON code."""
import contextlib
import io
import json
import os
import random
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SHARD = int(os.environ.get("VERIF_SHARD", "0"))
NSHARDS = int(os.environ.get("VERIF_NSHARDS", "1"))
WORK = os.environ.get("VERIF_WORK", "/tmp")


def rng(tag):
    return random.Random("%s/%s" % (SEED, tag))


class Trace:
    """Writes events; values must be ints, bools, strings, lists, dicts."""

    def __init__(self, path):
        self.f = open(path, "w")
        self.tid = None
        self.n = 0

    def begin(self, tid, **kw):
        self.tid = tid
        self.n += 1
        self._w(dict(t=tid, ev="begin", **kw))

    def ev(self, name, **kw):
        self._w(dict(t=self.tid, ev=name, **kw))

    def _w(self, d):
        self.f.write(json.dumps(clean(d)) + "\n")

    @contextlib.contextmanager
    def guard(self):
        """Any exception of the code under test that the driver did not
        expect is itself an observation."""
        try:
            yield
        except Exception as e:        # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%s" % (os.path.basename(x.filename), x.name) for x in tb][-4:]
            self.ev("unexpected", exc=type(e).__name__, msg=str(e)[:200], where=where)

    def close(self):
        self.f.flush()
        self.f.close()


def clean(x):
    """JSON values that the TLA+ Json module represents faithfully."""
    import numpy as np
    if x is None:
        return "None"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [clean(v) for v in x]
    return str(x)


@contextlib.contextmanager
def quiet():
    """Silence prints of the code under test."""
    o, e = sys.stdout, sys.stderr
    buf = io.StringIO()
    sys.stdout = sys.stderr = buf
    try:
        yield buf
    finally:
        sys.stdout, sys.stderr = o, e


def mine(i):
    return i % NSHARDS == SHARD
