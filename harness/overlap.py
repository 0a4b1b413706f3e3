"""Conformance of overlapping calls (Overlap.tla): several threads call the
library at the same time; a scheduler decides which of them moves, and stops
them inside calls, at lines (or instructions) of the library.

A case has the events (first those before, then each thread's, then those
after), how many belong to whom (cuts), and either TLC's schedule (sched: the
thread that moves, at each beginning and end of a call) or a seed."""
import json
import os
import random
import signal
import sys
import threading
import time
import zlib

import real
from real import Mismatch

SRC = os.path.join(real.REPO, "src") + os.sep
FREE = 8.0       # a thread that does not come back for so long waits for another one


def forked(f, *a, limit=120):
    """f(*a) in a process of its own, so that nothing has been called before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            with os.fdopen(w, "w") as out:
                json.dump(f(*a), out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as inp:
        text = inp.read()
    os.waitpid(pid, 0)
    return json.loads(text) if text else {"dead": True}


class Watch:
    """Calls back at every line (instruction) of the library a thread executes."""

    def __init__(self, at, fine):
        self.at, self.fine = at, fine

    def __call__(self, frame, what, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        return self.inside

    def inside(self, frame, what, arg):
        if what == ("opcode" if self.fine else "line"):
            self.at(frame, frame.f_lasti if self.fine else frame.f_lineno)
        return self.inside

    def run(self, f):
        sys.settrace(self)
        try:
            return f()
        finally:
            sys.settrace(None)


def split(case):
    ev, cuts = list(zip(case["ev"], case["obs"])), case["cuts"]
    at, parts = 0, []
    for n in cuts:
        parts.append(list(range(at, at + n)))
        at += n
    return ev, parts[0], parts[1:], list(range(at, len(ev)))


def step(w, ev, exp):
    if ev["e"] == "qasm":
        ev = dict(ev, text=exp["text"])
    try:
        return w.do(ev)
    except Mismatch as m:
        return {"r": "mismatch", "x": str(m)}
    except Exception as x:
        return {"r": "E", "x": f"{type(x).__name__}: {x}"}


def judge(ev, exp, got, where):
    if got["r"] == "mismatch":
        raise Mismatch(where + got["x"])
    try:
        real.compare(ev, exp, got)
    except Mismatch as m:
        raise Mismatch(where + str(m))


def lines_of(case, backend):
    """The places each thread's calls pass, made alone: per call a list of places."""
    ev, first, threads, _ = split(case)
    w = real.World(backend)
    for i in first:
        step(w, *ev[i])
    out = {}
    for mine in threads:
        for i in mine:
            seen, ids = [], {}

            def at(frame, where):
                if len(seen) < 60000:
                    seen.append(ids.setdefault((frame.f_code, where), len(ids)))

            Watch(at, case.get("fine", False)).run(lambda: step(w, *ev[i]))
            out[i] = seen
    return out


def stops(rng, seen, k):
    """k moments of a call: places drawn evenly, then one of the passes."""
    out = set()
    if seen:
        by = {}
        for n, x in enumerate(seen):
            by.setdefault(x, []).append(n)
        for x in rng.sample(sorted(by), min(k, len(by))):
            out.add(rng.choice(by[x]))
    return out


def together(case, backend, points):
    ev, first, threads, after = split(case)
    w = real.World(backend)
    try:
        for i in first:
            judge(*ev[i], step(w, *ev[i]), f"event {i + 1}: ")
        got = {}
        n = len(threads)
        go = [threading.Semaphore(0) for _ in range(n)]
        back = threading.Semaphore(0)
        state = ["out"] * n
        free = [False]

        def rest(t, s):
            state[t] = s
            back.release()
            if not free[0]:
                go[t].acquire()

        def client(t):
            go[t].acquire()
            for k, i in enumerate(threads[t]):
                count, mine = [0], points.get(str(i), ())

                def at(frame, where):
                    count[0] += 1
                    if count[0] - 1 in mine and not free[0]:
                        rest(t, "in")

                got[i] = Watch(at, case.get("fine", False)).run(lambda: step(w, *ev[i]))
                rest(t, "out") if k + 1 < len(threads[t]) else None
            state[t] = "end"
            back.release()

        for t in range(n):
            if not threads[t]:
                state[t] = "end"
        ts = [threading.Thread(target=client, args=(t,), daemon=True) for t in range(n)]
        for t in ts:
            t.start()

        def move(t):
            """Let thread t go on until it rests."""
            go[t].release()
            if not back.acquire(timeout=FREE):      # it waits for another thread
                if os.environ.get("QV_FREE"):
                    import traceback
                    for f in sys._current_frames().values():
                        traceback.print_stack(f)
                free[0] = True
                for s in go:
                    s.release()

        if "sched" in case:
            early = [False] * n       # the call was over before its end was scheduled
            inside = [False] * n
            for t in (x - 1 for x in case["sched"]):
                if free[0]:
                    break
                if inside[t]:
                    inside[t] = False
                    if not early[t]:
                        move(t)
                        while state[t] == "in" and not free[0]:
                            move(t)
                else:
                    inside[t] = True
                    move(t)
                    early[t] = state[t] != "in"
        else:
            rng = random.Random(case["seed"])
            while not free[0]:
                left = [t for t in range(n) if state[t] != "end"]
                if not left:
                    break
                move(rng.choice(left))
        for t in ts:
            t.join(60)
        for t, mine in enumerate(threads):
            for i in mine:
                if i not in got:
                    raise Mismatch(f"thread {t + 1}: event {i + 1}: does not return")
                judge(*ev[i], got[i], f"thread {t + 1}: event {i + 1}: ")
        for i in after:
            judge(*ev[i], step(w, *ev[i]), f"event {i + 1}: ")
    except Mismatch as m:
        return str(m)
    return None


def sweep(case, backend, seen):
    """Stop the one call at each of its places in turn, make the other meanwhile."""
    one, two = (str(case["cuts"][0] + t) for t in (0, 1))
    for mine, order in ((one, [1, 2, 2, 1]), (two, [2, 1, 1, 2])):
        places = {}
        for n, x in enumerate(seen[mine]):
            places.setdefault(x, []).append(n)
        rng = random.Random(case["seed"])
        at = sorted(rng.choice([ns[0], ns[-1], rng.choice(ns)]) for ns in places.values())
        if len(at) > 100:
            at = sorted(rng.sample(at, 100))
        for n in at:
            msg = together(dict(case, sched=order), backend, {mine: [n]})
            if msg:
                return f"stopped at step {n}: {msg}"
    return None


def replay(case, backend):
    real.lib()
    import qudiet.qasm.qasm_parser      # not while a thread is stopped: imports lock
    seen = forked(lines_of, case, backend)
    if seen.get("dead") if isinstance(seen, dict) else False:
        return "the process died"
    if case.get("sweep"):
        msg = forked(sweep, case, backend, seen, limit=140)
        return "the process died" if isinstance(msg, dict) else msg
    rng = random.Random(zlib.crc32(json.dumps(case, sort_keys=True).encode()))
    points = {i: sorted(stops(rng, s, case.get("stops", 1))) for i, s in seen.items()}
    msg = forked(together, case, backend, points)
    if isinstance(msg, dict):
        return "the process died"
    return msg
