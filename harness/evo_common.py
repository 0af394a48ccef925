"""Building real BinaryStar objects whose steps are scripted stand-ins."""
import signal

import hc
from posydon.binary_evol.binarystar import BINARYPROPERTIES, BinaryStar
from posydon.binary_evol.simulationproperties import (EvolveHooks,
                                                      SimulationProperties)
from posydon.binary_evol.singlestar import STARPROPERTIES, SingleStar

STEPS = ["step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO",
         "step_detached", "step_disrupted", "step_merged",
         "step_initially_single", "step_dco", "step_SN", "step_CE", "step_end"]
EXC = {"RuntimeError": RuntimeError, "KeyError": KeyError,
       "ValueError": ValueError}


def N(x):
    return None if x == "None" else x


def cur(b):
    return ["None" if x is None else str(x) for x in
            (b.star_1.state, b.star_2.state, b.state, b.event)]


def put(b, k):
    b.star_1.state, b.star_2.state, b.state, b.event = [N(x) for x in k]


class Director:
    """Plays a script of step outcomes; shared by all stand-in steps."""

    def __init__(self, tr, out):
        self.tr, self.out, self.i = tr, list(out), 0
        self.k = 0

    def call(self, name, b):
        pre = cur(b)
        left = signal.getitimer(signal.ITIMER_REAL)[0]
        # spend a little of the budget so that a timer that is not re-armed
        # for the next step is seen with less than a full budget
        armed = left > 119.0
        if armed:
            signal.setitimer(signal.ITIMER_REAL, 110.0)
        if self.i < len(self.out):
            o = self.out[self.i]
        else:
            o = {"post": [pre[0], pre[1], pre[2], "END"], "rows": 0, "exc": "none"}
        self.i += 1
        put(b, o["post"])
        self.touch(b)
        for _ in range(o["rows"]):
            self.row(b)
        exc = o["exc"]
        self.tr.ev("call", step=name, pre=pre, post=cur(b), rows=o["rows"],
                   exc=exc, armed=armed)
        if exc != "none":
            raise EXC[exc]("scripted")

    def touch(self, b):
        self.k += 1
        b.time = float(self.k)

    def row(self, b):
        """What a step that keeps intermediate rows does (as the detached
        and grid steps do): extends every history by the same amount."""
        for item in BINARYPROPERTIES:
            getattr(b, item + "_history").append(getattr(b, item))
        for st in (b.star_1, b.star_2):
            for item in STARPROPERTIES:
                getattr(st, item + "_history").append(getattr(st, item))


def step_class(name, holder):
    class Stub:
        DEFAULT_KWARGS = {}

        def __init__(self, **kw):
            pass

        def __call__(self, b):
            holder["d"].call(name, b)
    Stub.__name__ = name
    return Stub


def hook_class(i, tr_holder):
    class H(EvolveHooks):
        def __init__(self):
            pass

        def log(self, phase, b, step="-"):
            tr_holder["tr"].ev("hook", phase=phase, hook=i, step=step,
                               cur=cur(b), len=len(b.event_history))
            return b

        def pre_evolve(self, b):
            return self.log("pre_evolve", b)

        def pre_step(self, b, s):
            return self.log("pre_step", b, s)

        def post_step(self, b, s):
            return self.log("post_step", b, s)

        def post_evolve(self, b):
            return self.log("post_evolve", b)
    return H


def properties(holder, chart, extra_hooks=(), **kw):
    """A real SimulationProperties with stand-in steps and a given chart."""
    kw = dict(kw)
    for s in STEPS:
        kw[s] = (step_class(s, holder), {})
    kw["flow"] = (chart, {}) if callable(chart) else ((lambda: dict(chart)), {})
    with hc.quiet():
        p = SimulationProperties(extra_hooks=list(extra_hooks), **kw)
        p.load_steps()
    return p


def star(state, mass=10.0):
    s = SingleStar(mass=mass, metallicity=1.0)
    s.state = N(state)
    s.state_history = [s.state]
    return s


def binary(k, props, index=0, verbose=None, time=0.0):
    kw = {}
    if verbose is not None:
        kw["history_verbose"] = verbose
    b = BinaryStar(star(k[0]), star(k[1], 8.0), index=index, properties=props,
                   state=N(k[2]), event=N(k[3]), time=time, separation=100.0,
                   eccentricity=0.0, **kw)
    return b
