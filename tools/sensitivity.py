#!/usr/bin/env python3
"""sensitivity.py [n]: is every comparison of the harness able to fail?

Takes n histories of each driver with the observations the specification makes,
changes one leaf of one observation (a number by one, a boolean or a name to
another, a list by an element less) and replays: the harness must disagree.
Prints, per kind of observation, how many changes were noticed and the ones that
were not."""
import copy
import json
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import check
import gen

sys.modules["check"] = check


def leaves(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            yield from leaves(v, path + (k,))
    elif isinstance(o, list):
        if o:
            yield path + ("-",)
        for i, v in enumerate(o):
            yield from leaves(v, path + (i,))
    else:
        yield path


# parts of an observation that only describe the others, or that are not compared
SILENT = {"n", "text", "nreg", "t", "m", "good", "any", "x", "exp"}
OTHER = {"T": "F", "F": "T", "E": "T", "N": "E", "TE": None, "FE": None}


def mutate(rng, o):
    if o["r"] in OTHER:
        return OTHER[o["r"]] and ("r",), dict(o, r=OTHER[o["r"]])
    ps = [p for p in leaves(o) if p[0] != "r" and not SILENT & set(p)]
    if not ps:
        return None, o
    p = rng.choice(ps)
    o = copy.deepcopy(o)
    at = o
    for k in p[:-1]:
        at = at[k]
    if p[-1] == "-":
        at.pop(rng.randrange(len(at)))
    else:
        v = at[p[-1]]
        at[p[-1]] = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v + "q"
    return p, o


def replay(job):
    try:
        return check._replay(job)
    except Exception:          # the change made the observation malformed
        return 0


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    rng = random.Random(7)
    tally, missed = {}, []
    for f, module, a in [(gen.mixed, "Trace", ()), (gen.custom, "Trace", ()), (gen.refused, "Trace", ()), (gen.watched, "Trace", ()),
                         (gen.several, "Trace", ()), (gen.layered, "Trace", ()), (gen.counted, "Trace", ()),
                         (gen.drawing, "Trace", (True,)), (gen.drawing, "Trace", (False,)), (gen.parsed, "Trace", ()),
                         (gen.flows, "FlowTrace", ()), (gen.shelf, "GateTrace", ()), (gen.batches, "BatchTrace", ())]:
        cases = [f(rng, *a) for _ in range(n)]
        check.expect(cases, module)
        jobs, what = [], []
        for c in cases:
            idx = [i for i, o in enumerate(c["obs"]) if o["r"] not in ("N", "W")] or [0]
            for _ in range(6):
                i = rng.choice(idx)
                p, o = mutate(rng, c["obs"][i])
                if p is None:
                    continue
                d = dict(c, obs=c["obs"][:i] + [o] + c["obs"][i + 1:])
                jobs.append((d, "default"))
                what.append((f.__name__, c["ev"][i]["e"], c["obs"][i]["r"], p, i))
        for (name, e, r, p, i), msg, (d, _) in zip(what, check.pool_map(replay, jobs), jobs):
            if msg == 0:
                continue
            k = f"{name} {e} {r}"
            t = tally.setdefault(k, [0, 0])
            t[0] += 1
            t[1] += bool(msg)
            if msg is None:
                missed.append((k, p, json.dumps(d["obs"][i])[:300]))
    for k, (a, b) in sorted(tally.items()):
        print(f"{k:32} {b:5} of {a:5} changes noticed")
    for m in missed[:40]:
        print("not noticed:", *m)


if __name__ == "__main__":
    main()
