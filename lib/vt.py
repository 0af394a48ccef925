"""Shared machinery of the checks: running TLC, drivers, evidence, verdicts.

Nothing here knows anything about POSYDON; the specifications (spec/*.tla) are
the oracle and the drivers (harness/*.py) execute the real code.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")


class MachineryError(Exception):
    """The check itself is broken (never used for a property violation)."""


def repo_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("SLURM_") or k in ("PYTHONPATH",):
            env.pop(k)
    env.update({
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
        "MPLBACKEND": "Agg", "QT_QPA_PLATFORM": "offscreen", "TZ": "UTC",
        "PATH_TO_POSYDON": REPO + "/",
        "PATH_TO_POSYDON_DATA": REPO + "/posydon/unit_tests/_data/",
        "MESA_DIR": REPO + "/",
        "PYTHONPATH": REPO + ":" + os.path.join(VERIF, "lib"),
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
    })
    return env


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.states = self.distinct = 0
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct", out):
            pass
        if m:
            self.states = int(m.group(1).replace(",", ""))
            self.distinct = int(m.group(2).replace(",", ""))
        self.ok = "Model checking completed. No error has been found." in out

    def prints(self, tag):
        """All <<tag, ...>> tuples printed by the specification."""
        res = []
        pat = '<<"%s", ' % tag
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith(pat) and line.endswith(">>"):
                res.append(line[len(pat):-2])
        return res


def run_tlc(module, cfg, env=None, workers=1, heap="3g", timeout=800,
            extra=(), scratch=None, deque=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC",
           "-XX:ParallelGCThreads=2", "-Xss64m",
           "-Dtlc2.tool.impl.Tool.cdot=true"]
    if deque:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
            "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timeout on %s/%s" % (module, cfg)) from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(out, rc, time.time() - t0)


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop, suffix="_d")
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.fails = []          # (trace id, line, clause, detail)
        self.extra = {}
        self.assumptions = []
        self.trace_files = {}

    # -- specification side ------------------------------------------------
    def model_check(self, module, cfg=None, workers=4, **kw):
        """Exhaustively check the design; a failure here is a machinery bug,
        unless the model was extracted from the code (see caller)."""
        cfg = cfg or module + ".cfg"
        r = run_tlc(module, cfg, workers=workers, scratch=self.scratch, **kw)
        if not r.ok:
            print(r.out[-6000:])
            raise MachineryError("model checking %s/%s failed" % (module, cfg))
        self.states += r.distinct
        self.transitions += r.states
        self.extra.setdefault("models", []).append(
            {"module": module, "cfg": cfg, "distinct": r.distinct,
             "generated": r.states, "wall_s": round(r.wall, 1)})
        return r

    def generate(self, module, cfg=None, tag="SCRIPT", out=None, workers=1,
                 want_result=False, sample=None, **kw):
        """Let TLC enumerate behaviours; each is printed as JSON."""
        cfg = cfg or module + ".cfg"
        r = run_tlc(module, cfg, workers=workers, scratch=self.scratch, **kw)
        if not r.ok:
            print(r.out[-6000:])
            raise MachineryError("behaviour generation %s/%s failed" % (module, cfg))
        scripts = []
        for s in r.prints(tag):
            scripts.append(json.loads(json.loads(s)))
        self.states += r.distinct
        self.transitions += r.states
        self.extra.setdefault("generated_behaviours", {})[cfg] = len(scripts)
        if sample and len(scripts) > sample:
            import random
            scripts.sort(key=lambda x: json.dumps(x, sort_keys=True))
            scripts = random.Random(self.seed).sample(scripts, sample)
            self.extra["generated_behaviours"][cfg + " (replayed sample)"] = sample
        path = out or os.path.join(self.scratch, cfg + ".scripts.json")
        with open(path, "w") as f:
            json.dump(scripts, f)
        if want_result:
            return scripts, path, r
        return scripts, path

    # -- implementation side -----------------------------------------------
    def drive(self, script, args=(), timeout=600, env=None, name="driver",
              nproc=1, hang_clause="the operation never returned"):
        """Run a driver (harness/<script>) against /repo.  The driver writes
        ndjson trace lines to the file given as its first argument.  A driver
        that dies or hangs is reported through `self.fails`: the drivers
        themselves catch every exception of the code under test, so an abort
        can only come from the code under test taking the process down."""
        outs = []
        procs = []
        for i in range(nproc):
            out = os.path.join(self.scratch, "%s.%d.ndjson" % (name, i))
            outs.append(out)
            work = os.path.join(self.scratch, "%s.%d.work" % (name, i))
            os.makedirs(work, exist_ok=True)
            e = repo_env()
            e.update(env or {})
            e.update({"VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier,
                      "VERIF_SHARD": str(i), "VERIF_NSHARDS": str(nproc),
                      "VERIF_WORK": work, "TMPDIR": work})
            log = open(os.path.join(self.scratch, "%s.%d.log" % (name, i)), "w")
            p = subprocess.Popen([PY, os.path.join(VERIF, "harness", script), out]
                                 + [str(a) for a in args], env=e, cwd=work,
                                 stdout=log, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            procs.append((p, log, out))
        deadline = time.time() + timeout
        for p, log, out in procs:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = "timeout"
            log.close()
            if rc != 0:
                with open(log.name) as f:
                    tail = f.read()[-3000:]
                done = os.path.exists(out) and _last_line(out)
                if rc == "timeout":
                    self.fails.append(("driver", 0, hang_clause, tail))
                elif rc == 77:
                    print(tail)
                    raise MachineryError("driver %s failed" % script)
                else:
                    print(tail)
                    raise MachineryError("driver %s died rc=%s after %s"
                                         % (script, rc, done))
        if nproc == 1:
            return outs[0]
        merged = os.path.join(self.scratch, "%s.ndjson" % name)
        with open(merged, "w") as g:
            for o in outs:
                with open(o) as f:
                    shutil.copyfileobj(f, g)
        return merged

    # -- conformance -------------------------------------------------------
    def validate(self, module, trace, cfg=None, workers=1, chunks=1, **kw):
        """Trace validation with a total verdict: TLC walks every line; each
        rejected trace prints one FAIL tuple (trace id, line, clause)."""
        cfg = cfg or module + ".cfg"
        with open(trace) as f:
            lines = f.readlines()
        if not lines:
            raise MachineryError("empty trace for %s" % module)
        parts = _split(lines, chunks)
        import concurrent.futures as cf
        def one(idx_part):
            idx, part = idx_part
            path = "%s.part%d" % (trace, idx)
            with open(path, "w") as f:
                f.writelines(part)
            r = run_tlc(module, cfg, env={"TRACE_FILE": path},
                        workers=workers, scratch=self.scratch, **kw)
            return part, r
        with cf.ThreadPoolExecutor(max_workers=min(8, len(parts))) as ex:
            results = list(ex.map(one, enumerate(parts)))
        nfail = 0
        for part, r in results:
            done = r.prints("DONE")
            bad = None if done else _wrong_kind(r.out)
            if bad:
                # an observation whose type does not even fit the specification
                line, msg = bad
                tid = json.loads(part[line - 1])["t"]
                self.fails.append((tid, line - _start(part, line),
                                   "an observed value has the wrong kind: " + msg,
                                   "".join(part[_start(part, line):line])))
                nfail += 1
                continue
            if not done or not r.ok:
                print(r.out[-6000:])
                raise MachineryError("trace validation of %s did not finish" % module)
            n, t, nf = [int(x) for x in done[-1].split(",")]
            if n != len(part):
                raise MachineryError("%s consumed %d of %d lines" % (module, n, len(part)))
            self.traces += t
            self.events += n
            self.states += r.distinct
            self.transitions += r.states
            fails = []
            for line in r.out.splitlines():
                if line.startswith('"FAIL '):
                    f = json.loads(json.loads(line)[5:])
                    if f not in fails:
                        fails.append(f)
            if len(fails) != nf:
                raise MachineryError("%s: %d rejections, %d understood" % (module, nf, len(fails)))
            for tid, line, clause in fails:
                self.fails.append((tid, line - _start(part, line), clause,
                                   "".join(part[_start(part, line):line])))
                nfail += 1
        k = min(3, len(lines))
        self.samples += [json.loads(lines[i]) for i in range(k)]
        return nfail

    # -- verdict -----------------------------------------------------------
    def finish(self, level="model_checking"):
        known = load_known(self.prop)
        viol, seen_known = [], {}
        for tid, line, clause, detail in self.fails:
            k = match_known(known, tid, clause)
            if k is not None:
                seen_known[k["id"]] = k
            else:
                viol.append((tid, line, clause, detail))
        rc = 0
        for k in seen_known.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if viol:
            rdir = os.path.join(VERIF, "replays", self.prop)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "violation_%s.txt" % self.tier)
            with open(path, "w") as f:
                f.write("property %s tier %s seed %d\n" % (self.prop, self.tier, self.seed))
                f.write("re-run: cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s\n"
                        % (self.seed, self.tier, self.prop))
                for tid, line, clause, detail in viol[:200]:
                    f.write("\n== trace %s, event %d of the trace\nviolated clause: %s\n"
                            "recorded events up to the rejected one:\n%s\n"
                            % (tid, line, clause, detail[-20000:]))
            for tid, line, clause, _ in viol[:10]:
                print("rejected: trace=%s event=%d clause=%s" % (tid, line, clause))
            print("%d traces rejected" % len(viol))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "trace_events": self.events,
               "samples": self.samples[:6] or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": level, "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("property=%s tier=%s states=%d traces=%d events=%d violations=%d wall=%.1fs"
              % (self.prop, self.tier, self.states, self.traces, self.events,
                 len(viol), time.time() - self.t0))
        return rc

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("scratch kept:", self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)


def _split(lines, chunks):
    """Split trace lines at 'begin' events into about `chunks` parts."""
    if chunks <= 1:
        return [lines]
    starts = [i for i, l in enumerate(lines) if '"ev": "begin"' in l or '"ev":"begin"' in l]
    if len(starts) < 2:
        return [lines]
    per = max(1, len(lines) // chunks)
    parts, cur = [], 0
    for s in starts:
        if s - cur >= per:
            parts.append(lines[cur:s])
            cur = s
    parts.append(lines[cur:])
    return [p for p in parts if p]


def _start(part, line):
    start = line - 1
    while start > 0 and '"ev":"begin"' not in part[start].replace(" ", ""):
        start -= 1
    return start


def _wrong_kind(out):
    """(line, message) if TLC stopped because an observed value cannot be
    compared with the specified one"""
    m = re.search(r"(?:Attempted to|Overflow|The overflow|The second argument|Evaluating|In evaluation)[^\n]*", out)
    ls = re.findall(r"/\\ l = (\d+)", out)
    if m and ls:
        return int(ls[-1]), m.group(0)
    return None


def _last_line(path):
    try:
        with open(path, "rb") as f:
            return f.readlines()[-1][:300].decode("utf8", "replace")
    except Exception:
        return ""


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        d = json.load(f)
    return [k for k in d.get("known", []) if k["property"] == prop]


def match_known(known, tid, clause):
    for k in known:
        if re.fullmatch(k["trace"], tid) and k["clause"] == clause:
            return k
    return None
