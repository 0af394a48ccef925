"""Interrupts population runs at every write, rename, delete and step.

The interrupted run happens in a forked child; the parent then reads what is
on disk, starts the interrupted rank again and finishes the population.
argv: OUT SCRIPTS
"""
import builtins
import json
import os
import pickle
import shutil
import sys

import pandas as pd

import hc
import pop_common as pc

tr = hc.Trace(sys.argv[1])
scripts = json.load(open(sys.argv[2]))
R = hc.rng("crash%d" % hc.SHARD)
ROOT = os.path.join(hc.WORK, "crash")
real = dict(append=pd.HDFStore.append, close=pd.HDFStore.close, remove=os.remove,
            rename=os.rename, rmdir=os.rmdir, open=open, unlink=os.unlink, replace=os.replace)


class Ops:
    def __init__(self, stop=None):
        self.n, self.stop, self.names = 0, stop, []

    def hit(self, what):
        self.n += 1
        self.names.append(what)
        if self.stop is not None and self.n == self.stop:
            os._exit(9)


def instrument(ops):
    pc.MON.op = ops.hit

    def opened(file, mode="r", *a, **k):
        if any(x in mode for x in "wax+"):
            ops.hit("open")
        return real["open"](file, mode, *a, **k)
    builtins.open = opened

    def wrap(name):
        def g(*a, **k):
            ops.hit(name)
            return real[name](*a, **k)
        return g
    pd.HDFStore.append, pd.HDFStore.close = wrap("append"), wrap("close")
    for name in ("remove", "rename", "rmdir", "unlink", "replace"):
        setattr(os, name, wrap(name))


def restore():
    builtins.open = real["open"]
    pc.MON.op = lambda what: None
    pd.HDFStore.append, pd.HDFStore.close = real["append"], real["close"]
    for name in ("remove", "rename", "rmdir", "unlink", "replace"):
        setattr(os, name, real[name])


def fresh():
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT)
    os.chdir(ROOT)
    return os.path.join(ROOT, "batches")


def pipeline(cfg, tmp, note, ranks, do_merge=True):
    pop = None
    recs = {}
    for r in ranks:
        note("rank%d" % r)
        pop = pc.run_rank(cfg, r, tmp, None, disk=False)
        recs[r] = list(pc.MON.recs)
    out, exc = None, "none"
    if do_merge:
        note("merge")
        if pop is None:
            pop = pc.population(cfg, 0, tmp)
            pop.kwargs["temp_directory"] = tmp
            pop.kwargs["optimize_ram"] = cfg["optimize"]
        out, exc = pc.merge(cfg, pop, tmp, cfg["route"], ROOT)
    return recs, out, exc


def forked(fn):
    """run fn in a child; returns its pickled result or None if interrupted"""
    tr.f.flush()
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                res = ("ok", fn())
            except BaseException as e:
                res = ("exc", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(wr, "wb") as g:
                pickle.dump(res, g)
            os._exit(0)
        finally:
            os._exit(9)
    os.close(wr)
    with os.fdopen(rd, "rb") as g:
        data = g.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def present(tmp):
    res = set()
    for d in (tmp, ROOT):
        if os.path.isdir(d):
            for n in sorted(os.listdir(d)):
                p = os.path.join(d, n)
                if os.path.isfile(p):
                    res |= set(pc.complete(p))
    return sorted(res)


def emit(cfg, recs):
    tr.ev("run", cfg=pc.spec_cfg(cfg, sweep=True))
    for r in sorted(recs):
        for x in recs[r]:
            tr.ev("evolved", **x)


for i, sc in enumerate(scripts):
    if not hc.mine(i):
        continue
    cfg = dict(sc, entropy=R.randrange(10 ** 6), met=1.0, mets=[1.0], optimize=True)
    cfg["stream"] = str(cfg["entropy"])
    cfg["route"] = R.choice(["save", "runner"])
    tr.begin("crash-%d" % i, cfg=pc.spec_cfg(cfg, sweep=True), route=cfg["route"], outs=cfg["outs"])
    with tr.guard():
        tmp = fresh()
        ops = Ops()

        def dry():
            instrument(ops)
            recs, out, exc = pipeline(cfg, tmp, lambda w: None, range(cfg["size"]))
            restore()
            return recs, out, exc, ops.names
        res = forked(dry)
        if res is None or res[0] != "ok":
            tr.ev("unexpected", exc="driver", msg=str(res), where=[])
            continue
        recs0, out0, exc0, names = res[1]
        emit(cfg, recs0)
        pc.file_event(tr, "final", out0, exc=exc0)
        points = list(range(1, len(names) + 1))
        if not hc.THOROUGH and len(points) > 16:
            # all deletions and renames, a sample of the rest
            keep = [k for k in points if names[k - 1] in ("remove", "rename", "unlink", "replace")]
            rest = [k for k in points if k not in keep]
            points = sorted(set(keep[:10] + R.sample(rest, min(len(rest), 12))))
        for k in points:
            tmp = fresh()
            stage = os.path.join(hc.WORK, "stage")

            def child():
                def note(w):
                    with real["open"](stage, "w") as g:
                        g.write(w)
                instrument(Ops(k))
                pipeline(cfg, tmp, note, range(cfg["size"]))
                return True
            r = forked(child)
            if r is not None and r[0] == "exc":
                tr.ev("unexpected", exc=r[1], msg="before the interruption", where=[])
                break
            st = open(stage).read()
            tr.ev("recover", k=k, op=names[k - 1], stage=st, present=present(tmp))
            # carry on: the interrupted rank is started again
            recs, out, exc = dict(recs0), None, "none"
            if st.startswith("rank"):
                q = int(st[4:])
                res = forked(lambda: pipeline(cfg, tmp, lambda w: None, range(q, cfg["size"])))
                if res is None or res[0] != "ok":
                    tr.ev("unexpected", exc=str(res), msg="starting again", where=[])
                    break
                recs.update(res[1][0])
                out, exc = res[1][1:]
            else:
                # the interrupted merge: its output is complete, or can be redone
                outp = os.path.join(ROOT, os.path.basename(out0))
                try:
                    whole = pc.read(outp)["count"] >= cfg["n"]
                except Exception:
                    whole = False
                if not whole:
                    if os.path.exists(outp):
                        real["remove"](outp)
                    if cfg["size"] == 1 and cfg["mode"] == "serial" and not os.path.isdir(tmp):
                        os.makedirs(tmp)
                    res = forked(lambda: pipeline(cfg, tmp, lambda w: None, []))
                    if res is None or res[0] != "ok":
                        tr.ev("unexpected", exc=str(res), msg="merging again", where=[])
                        break
                    out, exc = res[1][1:]
                else:
                    out = outp
            emit(cfg, recs)
            pc.file_event(tr, "final", out, exc=exc)
# many ranks, some interrupted and started again in another order
for i in range(8 if not hc.THOROUGH else 64):
    if not hc.mine(i):
        continue
    size = R.randint(10, 13)
    n = R.randint(size, 2 * size)
    cfg = dict(n=n, size=size, dump=R.randint(1, 2), optimize=True, breakdown=R.random() < .5,
               mode=R.choice(["job", "mpi"]), entropy=R.randrange(10 ** 6), met=1.0, mets=[1.0],
               outs=[R.choice(["ok", "ok", "value"]) for _ in range(n)], route=R.choice(["save", "runner"]))
    cfg["stream"] = str(cfg["entropy"])
    tr.begin("ranks-%d" % i, cfg=pc.spec_cfg(cfg, sweep=True), route=cfg["route"], outs=cfg["outs"])
    with tr.guard():
        tmp = fresh()
        order = list(range(size))
        R.shuffle(order)
        broken = set(R.sample(order, 3)) | {1}
        recs = {}
        for r in order:
            def once():
                if r in broken:
                    instrument(Ops(R.randint(1, 14)))
                return pipeline(cfg, tmp, lambda w: None, [r], do_merge=False)
            res = forked(once)
            if res is not None and res[0] == "ok":
                recs.update(res[1][0])
        for r in sorted(broken):
            res = forked(lambda: pipeline(cfg, tmp, lambda w: None, [r], do_merge=False))
            if res is None or res[0] != "ok":
                tr.ev("unexpected", exc=str(res), msg="starting again", where=[])
                break
            recs.update(res[1][0])
        res = forked(lambda: pipeline(cfg, tmp, lambda w: None, []))
        if res is None or res[0] != "ok":
            tr.ev("unexpected", exc=str(res), msg="merging", where=[])
            continue
        emit(cfg, recs)
        pc.file_event(tr, "final", res[1][1], exc=res[1][2])
os.chdir("/")
shutil.rmtree(ROOT, ignore_errors=True)
tr.close()
