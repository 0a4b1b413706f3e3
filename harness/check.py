"""check.py <property> [--replay FILE]: decides one property and writes its evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

import gen
import tlc

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
WORKERS = min(8, os.cpu_count() or 1)


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.parts = []
        self.samples = []
        self.failures = []       # (case, message, backend)
        self.rng = random.Random(f"{pid}-{SEED}-{TIER}")
        self.thorough = TIER == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- histories enumerated by TLC -------------------------------------
    def explore(self, module, bound, backends=("default",), config="MC.cfg", cases=None):
        t = time.time()
        cfg = open(os.path.join(tlc.SPEC, config)).read()
        import re
        cfg = re.sub(r"Bound = \d+", f"Bound = {bound}", cfg)
        fd, path = tempfile.mkstemp(suffix=".cfg", prefix="qv")
        os.write(fd, cfg.encode())
        os.close(fd)
        try:
            r = tlc.run(module, path)
        finally:
            os.unlink(path)
        self.states += r["states"]
        self.transitions += r["transitions"]
        if cases:
            cases = cases(r["lines"])
        else:
            cases = r["lines"]
            cases.sort(key=lambda c: json.dumps(c["ev"]))
        self.parts.append({"model": module, "bound": bound, "states": r["states"],
                           "histories": len(cases), "tlc_s": round(time.time() - t, 1)})
        self.replay(cases, backends, module)
        return cases

    # ---- histories chosen by a driver, run through the specification ------
    def traces_(self, cases, backends=(None,), label="random", module="Trace"):
        t = time.time()
        done = expect(cases, module)
        self.states += done["states"]
        self.transitions += done["transitions"]
        self.parts.append({"driver": label, "histories": len(cases),
                           "events": sum(len(c["ev"]) for c in cases),
                           "tlc_s": round(time.time() - t, 1)})
        self.replay(cases, backends, label)
        return cases

    def replay(self, cases, backends, label):
        if not cases:
            raise tlc.MachineryError(f"{label}: no histories")
        jobs = [(c, b) for c in cases for b in backends]
        t = time.time()
        for (c, b), msg in zip(jobs, pool_map(_replay, jobs, light=cases[0].get("kind") == "overlap")):
            self.traces += 1
            self.events += len(c["ev"] if "ev" in c else c.get("rows", "1"))
            if msg:
                self.failures.append((c, msg, b, label))
        self.parts[-1]["replay_s"] = round(time.time() - t, 1)
        pick = random.Random(len(jobs))
        for c, b in pick.sample(jobs, min(2, len(jobs))):
            if len(self.samples) < 8:
                self.samples.append({"from": label, "backend": b, "calls": [brief(e) for e in c["ev"]][:14],
                                     "expected_last": short(c["obs"][-1])} if "ev" in c else
                                    {"from": label, "backend": b, "case": short(c)})

    def feed(self, module, cases, label):
        """TLC's answers to cases read from a file, in order."""
        t = time.time()
        fd, path = tempfile.mkstemp(suffix=".json", prefix="qvcases")
        try:
            with os.fdopen(fd, "w") as f:
                json.dump({"cases": cases}, f)
            r = tlc.run(module, env={"QV_CASES": path})
        finally:
            os.unlink(path)
        if len(r["lines"]) != len(cases):
            raise tlc.MachineryError(f"{module}: {len(r['lines'])} answers for {len(cases)} cases")
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.parts.append({"driver": label, "model": module, "cases": len(cases), "states": r["states"],
                           "tlc_s": round(time.time() - t, 1)})
        return sorted(r["lines"], key=lambda l: l["i"])


def brief(e):
    return e["e"] + " " + " ".join(f"{k}={v}" for k, v in e.items() if k not in ("e", "m", "sf", "out", "qr", "ir", "ref"))


def short(o):
    s = json.dumps(o)
    return o if len(s) < 600 else s[:600] + "..."


def _replay(job):
    """What is wrong with this case, if anything.  Once something is wrong and cases
    do not come back, or the time is up, the rest is left out."""
    case, backend = job
    wrong, stuck = _tally[:] if _tally else (0, 0)
    if wrong and (stuck >= 3 or time.time() > _until):
        return None
    if "kind" in case:
        import alt
        msg = alt.replay(case, backend)
    else:
        import real
        msg = real.replay(case, backend)
    if msg and _tally and case_id(case, backend) not in _known:
        with _tally.get_lock():
            _tally[0] += 1
            _tally[1] += "no answer" in msg
    return msg


_cuda = False
_tally, _until, _shared, _known = None, 0, None, {}


def _limit(tally, until):
    import resource
    global _tally, _until
    _tally, _until = tally, until
    if tally:
        import real
        _known.update(known_findings(sys.argv[1]))
        real.patience = lambda: 20 if tally[0] else 150
    if _cuda:      # CUDA backends on the stand-in array library
        os.environ["QV_CUDA"] = os.environ["CUDA_HOME"] = "1"
        sys.path.insert(0, os.path.join(HERE, "shims"))
    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))


def pool_map(f, jobs, chunk=None, light=False):
    """Deterministic order; a dead worker is an answer, not a hang.  light: the
    workers themselves fork often, so they must not carry what is held here."""
    jobs = list(jobs)
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    chunk = chunk or max(1, min(64, len(jobs) // (WORKERS * 6) or 1))
    ctx = mp.get_context("forkserver" if light else "fork")
    global _shared
    _shared = _shared or mp.get_context("forkserver").Array("i", 2)
    start = (_shared, time.time() + 300)
    try:
        with ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_limit, initargs=start) as ex:
            return list(ex.map(f, jobs, chunksize=chunk))
    except BrokenProcessPool:
        out = []
        for j in jobs:                   # find the history that kills the process
            with ProcessPoolExecutor(1, mp_context=mp.get_context("fork"), initializer=_limit, initargs=start[:0] + (None, 0)) as ex:
                try:
                    out.append(ex.submit(f, j).result())
                except BrokenProcessPool:
                    out.append("the process died")
                    return out + [None] * (len(jobs) - len(out))
        return out


def expect(cases, module="Trace"):
    """Let TLC compute what each history should show; fills case["obs"]."""
    fd, path = tempfile.mkstemp(suffix=".json", prefix="qvcases")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump({"cases": [{"ev": c["ev"], "inv": c.get("inv", False)} for c in cases]}, f)
        r = tlc.run(module, env={"QV_CASES": path})
    finally:
        os.unlink(path)
    if len(r["lines"]) != len(cases):
        raise tlc.MachineryError(f"{module}: {len(r['lines'])} answers for {len(cases)} histories")
    for l in r["lines"]:
        cases[l["i"] - 1]["obs"] = l["obs"]
    return r


# ---------------------------------------------------------------------------
# known findings, verdict, evidence

def known_findings(pid):
    """Lines of known_findings.txt:
    known: property=<id> id=<hash of the case> <what fails>
    fixed: property=<id> <commit> <what failed>   (suppresses nothing)"""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + pid and w[2].startswith("id="):
                out[w[2][3:]] = w[3].strip()
    return out


def case_id(case, backend):
    return hashlib.sha1(json.dumps([case, backend], sort_keys=True).encode()).hexdigest()[:10]


def finish(run, assumptions, extra=None):
    known = known_findings(run.pid)
    unknown = []
    for case, msg, backend, label in run.failures:
        k = case_id(case, backend)
        if k in known:
            print(f"KNOWN-FINDING: property={run.pid} {known[k]}")
        else:
            unknown.append((case, msg, backend, label))
    rep_dir = os.path.join(ROOT, "evidence", "replays")
    evidence = {
        "property": run.pid, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": run.states, "transitions": run.transitions,
            "traces_validated_against_impl": run.traces, "events_replayed": run.events,
            "samples": run.samples or [{"note": "no sample"}], "parts": run.parts,
            "assumptions": assumptions, **(extra or {}),
        },
        "wall_s": round(time.time() - run.t0, 1),
        "violations": len(unknown),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", run.pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{run.pid}: {run.states} model states, {run.traces} histories replayed, "
          f"{len(unknown)} violations, {evidence['wall_s']} s")
    if unknown:
        os.makedirs(rep_dir, exist_ok=True)
        unknown.sort(key=lambda u: len(json.dumps(u[0])))
        for case, msg, backend, label in unknown[:3]:
            path = os.path.join(rep_dir, f"{run.pid}-{case_id(case, backend)}.json")
            with open(path, "w") as f:
                json.dump({"property": run.pid, "from": label, "backend": backend, "message": msg, "case": case}, f, indent=1)
            print(f"  {label}: {msg}"[:500])
            print(f"VIOLATION property={run.pid} replay={path}")
        return 1
    return 0


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        import plans
        return plans.replay_file(json.load(open(sys.argv[3])))
    import plans
    run = Run(pid)
    try:
        assumptions, extra = plans.PLANS[pid](run)
        return finish(run, assumptions, extra)
    except tlc.SpecViolation as v:
        print(v.text[-8000:])
        print(f"ERROR: the specification itself breaks {v.name}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
