"""What is explored for each property: which histories TLC enumerates and
which ones a driver proposes.  The expected observations always come from the
specification."""
import json
import os
import random
import subprocess
import sys

import gen
import tlc

BASE = ["what a caller sees through the public interface is what is compared",
        "floating-point results are compared with the exact ones of the specification within 1e-9"]
ALL = (None,)      # the backend each history names
CPU = ("numpy", "sparse", "default")


def many(run, f, quick, thorough, *a):
    return [f(run.rng, *a) for _ in range(run.n(quick, thorough))]


def C01(run):
    run.explore("MC_C01", run.n(3, 4))
    run.traces_(many(run, gen.mixed, 500, 6000) + many(run, gen.many_layers, 60, 500)
                + many(run, gen.faint, 20, 200)
                + many(run, gen.many_registers, 16, 120) + many(run, gen.marathon, 24, 200), label="random circuits")
    return BASE, None


def C02(run):
    run.explore("MC_C02", run.n(1, 2), config="MC_C02.cfg")
    run.traces_(many(run, gen.single, 700, 6000) + many(run, gen.huge, 40, 400, "single"),
                label="single-qudit gates, dimensions up to 300")
    return BASE, None


def C03(run):
    run.explore("MC_C03", run.n(1, 2))
    run.traces_(many(run, gen.controlled, 700, 6000, "cx") + many(run, gen.huge, 30, 300, "cx"), label="CX at any distance")
    return BASE, None


def C04(run):
    run.explore("MC_C04", run.n(1, 2))
    run.traces_(many(run, gen.controlled, 500, 5000, "tof") + many(run, gen.huge, 30, 300, "tof"), label="Toffoli with any controls")
    return BASE, None


def C05(run):
    run.explore("MC_C05", run.n(2, 3))
    run.traces_(many(run, gen.custom, 700, 6000) + many(run, gen.faint, 30, 300), backends=CPU, label="custom gates, good and bad")
    return BASE, None


def linalg_cases(lines):
    lines.sort(key=lambda l: json.dumps(l["ops"]))
    return [{"kind": "linalg", "complex": i % 2, "rows": lines[k:k + 40]} for i, k in enumerate(range(0, len(lines), 40))]


def C06(run):
    import check
    check._cuda = True
    five = CPU + ("cuda", "cudasparse")
    run.explore("MC_C06", run.n(2, 3), config="MC_C06.cfg", cases=linalg_cases, backends=five)
    run.explore("MC_C01", run.n(2, 3), backends=five)
    run.traces_(many(run, gen.mixed, 150, 1500) + many(run, gen.custom, 80, 800) + many(run, gen.shown, 60, 600)
                + many(run, gen.faint, 40, 400) + many(run, gen.lifecycle, 40, 400)
                + many(run, gen.huge, 16, 160, "single") + many(run, gen.huge, 4, 40, "cx"), backends=five, label="circuits on every backend")
    return BASE + ["the CUDA backends run on a stand-in for CuPy made of NumPy and SciPy: which functions they "
                   "call with what is checked, not a GPU"], None


def C07(run):
    run.explore("MC_C07", run.n(3, 4), config="MC_C07.cfg")
    run.traces_(many(run, gen.there_and_back, 400, 4000) + many(run, gen.mixed, 150, 1500)
                + many(run, gen.huge, 30, 300, "single") + many(run, gen.huge, 10, 100, "cx"), label="circuits and their inverses")
    return BASE, None


def C08(run):
    run.explore("MC_C08", run.n(1, 2))
    run.traces_(many(run, gen.shown, 500, 5000) + many(run, gen.faint, 80, 500, 0.2)
                + many(run, gen.huge, 15, 150, "single"), label="superpositions in every form")
    return BASE, None


def C09(run):
    run.explore("MC_C09", run.n(3, 4))
    run.traces_(many(run, gen.watched, 400, 4000), label="circuits looked at anywhere")
    return BASE, None


def C10(run):
    run.explore("MC_C10", run.n(3, 4))
    run.traces_(many(run, gen.several, 600, 6000), label="interleaved circuits with shared arguments")
    return BASE, None


def C11(run):
    run.explore("MC_C11", run.n(4, 5))
    run.traces_(many(run, gen.lifecycle, 600, 6000)
                + many(run, gen.roomy, 50, 500, "lifecycle"), label="lifecycles")
    return BASE, None


def C12(run):
    run.explore("MC_C12", run.n(2, 3))
    run.traces_(many(run, gen.refused, 600, 6000)
                + many(run, gen.roomy, 50, 500, "refused"), label="ill-formed requests")
    return BASE, None


def C13(run):
    run.explore("MC_C13", run.n(2, 4))
    run.traces_(many(run, gen.declared, 300, 2500) + many(run, gen.declared_list, 300, 2500)
                + gen.declared_sizes(run.rng, run.n(2200, 4100)), label="declarations")
    return BASE, None


def C14(run):
    run.explore("MC_C14", run.n(3, 4))
    run.traces_(many(run, gen.layered, 400, 4000)
                + many(run, gen.roomy, 50, 500, "layered"), label="layers")
    return BASE, None


def C15(run):
    run.explore("MC_C15", run.n(3, 4))
    run.traces_(many(run, gen.counted, 600, 6000)
                + many(run, gen.roomy, 50, 500, "counted"), label="statistics")
    return BASE, None


def C16(run):
    run.explore("MC_C16", run.n(2, 3))
    run.traces_(many(run, gen.parsed, 700, 7000), label="QASM documents")
    import real
    docs = gen.library(run.rng, real.REPO, run.thorough)
    if docs:
        run.traces_(docs, label="circuit files of the repository")
    return BASE, None


def C17(run):
    run.explore("MC_C17", run.n(4, 6))
    run.traces_(many(run, gen.parsed, 700, 7000, 0.7, 0.0), label="QASM documents with many Toffolis")
    return BASE, None


def radix_cases(lines):
    by = {}
    for l in lines:
        by.setdefault(tuple(l["b"]), []).append([l["d"], l["i"]])
    return [{"kind": "radix", "b": list(b), "rows": sorted(by[b])} for b in sorted(by)]


def C18(run):
    import alt
    run.explore("MC_C18", run.n(4, 5), config="MC_C18.cfg", cases=radix_cases)
    r, cases = run.rng, []
    for _ in range(run.n(3000, 30000)):
        top = r.choice([3, 5, 10, 40, 1000, 9999])
        n = r.randrange(1, 13) if r.random() < 0.8 else r.randrange(13, 80)
        b = [r.randrange(1, top + 1)] * n if r.random() < 0.2 else [r.randrange(1, top + 1) for _ in range(n)]
        d = [r.choice([0, x - 1, r.randrange(x)]) for x in b]
        cases.append({"b": b, "d": d})
    out = []
    for c, l in zip(cases, run.feed("RadixTrace", cases, "bases and indices of any size")):
        x, y = alt.limbs(l["x"]), alt.limbs(l["y"])
        rows = [[c["d"], x]]
        if y:
            rows.append([l["s"], y])
            if y != x + 1:
                raise tlc.MachineryError("the successor's index is not the next one")
        out.append({"kind": "radix", "b": c["b"], "rows": rows})
    run.replay(out, ALL, "bases and indices of any size")
    return ["indices are non-negative and below the product of the bases"], None


def C19(run):
    run.explore("MC_C19", run.n(3, 4))
    run.traces_(many(run, gen.drawing, 800, 8000, True) + many(run, gen.drawing, 30, 300, True, 45), label="text diagrams")
    return BASE, None


def C20(run):
    run.explore("MC_C20", run.n(2, 3))
    run.traces_(many(run, gen.drawing, 300, 3000, False) + many(run, gen.drawing, 24, 240, False, 45), label="Matplotlib diagrams")
    return BASE, None


def as_flows(lines):
    lines.sort(key=lambda c: json.dumps(c["ev"]))
    for i, l in enumerate(lines):
        l.update(kind="flow", share=i % 2, be=["numpy", "sparse", "default"][i % 3])
    return lines


def C21(run):
    run.explore("MC_C21", run.n(2, 3), config="MC_C21.cfg", cases=as_flows, backends=ALL)
    run.traces_(many(run, gen.flows, 700, 7000), label="flows sharing Moments", module="FlowTrace")
    return BASE + ["a layer pushed is complete: each register once, in order"], None


def C26(run):
    run.explore("MC_C26", run.n(3, 4), config="MC_C26.cfg", cases=as_flows, backends=ALL)
    run.traces_(many(run, gen.moments, 600, 6000), label="Moments of any make-up", module="FlowTrace")
    return BASE + ["a Moment is not filled after it was pushed into a flow",
                   "the gate at a register that a gate only crosses is not claimed"], None


def tree_runs(lines):
    by = {}
    for l in lines:
        by.setdefault(l["n"], []).append([l["x"], l["y"]])
    out = []
    for n in sorted(by):
        rows = sorted(by[n])
        step = 32 if n < 6 else 8
        out += [{"kind": "treerun", "n": n, "rows": rows[k:k + step]} for k in range(0, len(rows), step)]
    return out


def C22(run):
    import alt
    import check
    r, lim = run.rng, run.n(8, 11)
    top = run.n(6, 8)
    # the construction as specified; its inputs up to `top` lines run on the code
    run.explore("MC_C22", run.n(9, 11), config="MC_C22.cfg", backends=ALL,
                cases=lambda lines: tree_runs([l for l in lines if l["n"] <= top]))
    # the gates the code generates, executed by the specification
    sizes = list(range(3, run.n(34, 70)))
    recs = check.pool_map(alt.record_tree, sizes, 1)
    cases, out = [], []
    for rec in recs:
        n = rec["n"]
        if "error" in rec:
            out.append({"kind": "treelist", **rec})
            continue
        if n <= run.n(12, 15):
            xs = [[k >> j & 1 for j in range(n)] for k in range(2 ** n)]
        else:
            xs = [[1] * (n - 1) + [b] for b in (0, 1)]
            xs += [[int(j != k) for j in range(n)] for k in range(n)]
            xs += [[int(j not in (k, n - 1)) for j in range(n)] for k in range(n - 1)]
            xs += [[int(r.random() < p) for _ in range(n)] for p in (0.5, 0.8, 0.9, 0.95) for _ in range(40)]
        for k in range(0, len(xs), 512):
            cases.append({"n": n, "dims": rec["dims"], "gates": rec["gates"], "inputs": xs[k:k + 512], "runs": 0, "rec": rec})
    ans = run.feed("TreeTrace", [{k: v for k, v in c.items() if k != "rec"} for c in cases],
                   "gates generated by the code, executed by the specification")
    done = {}
    for c, a in zip(cases, ans):
        d = done.setdefault(c["n"], {"kind": "treelist", **c["rec"], "wrong": [], "quat": a["quat"], "total": a["total"],
                                     "numbers": a["numbers"], "want": a["formulas"]})
        d["wrong"] = (d["wrong"] + a["wrong"])[:1]
    for n, d in sorted(done.items()):
        lab, frm = d.pop("labels"), d.pop("formulas")
        out.append(d)
        if n <= 33:
            if lab:
                out.append({"kind": "treenumbers", "n": n, "what": "the gates are labelled", "got": lab, "want": d["want"][:2]})
            out.append({"kind": "treenumbers", "n": n, "what": "mathematical_expectation gives", "got": frm, "want": d["want"]})
    run.replay(out, ALL, "generated circuits")
    # larger circuits on the simulator
    big, cases = [], []
    for n in range(top + 1, lim + 1):
        xs = [[1] * n, [1] * (n - 1) + [0]]
        xs += [[int(j not in r.sample(range(n - 1), 1)) for j in range(n)] for _ in range(run.n(2, 8))]
        xs += [[int(r.random() < 0.8) for _ in range(n)] for _ in range(run.n(6, 20))]
        rec = recs[n - 3]
        if "error" not in rec:
            cases.append({"n": n, "dims": rec["dims"], "gates": rec["gates"], "inputs": xs, "runs": 1})
    for c, a in zip(cases, run.feed("TreeTrace", cases, "larger circuits") if cases else []):
        big += [{"kind": "treerun", "n": c["n"], "rows": [[x, y]]} for x, y in zip(c["inputs"], a["expected"])]
    if big:
        run.replay(big, ALL, "larger circuits on the simulator")
    return ["inputs are binary, as RUN_CIRC's are", "lines beyond those run on the simulator are executed by the "
            "specification of CX (property C03 ties it to the code)"], None


def as_batches(lines):
    lines.sort(key=lambda c: json.dumps(c["ev"]))
    for i, l in enumerate(lines):
        l.update(kind="batch", arg=i % 4, dir=["work", "d.e", "in [x] y", "work"][i // 4 % 4])
    return lines


def C23(run):
    import check
    check._cuda = True
    run.explore("MC_C23", run.n(2, 3), config="MC_C23.cfg", cases=as_batches, backends=ALL)
    run.traces_(many(run, gen.batches, 150, 1500), label="directories of random circuits", module="BatchTrace")
    return BASE + ["the script runs in forked copies of one process; a sample is started afresh",
                   "CUDA backends run on the NumPy/SciPy stand-in"], None


def as_gates(lines):
    lines.sort(key=lambda c: json.dumps(c["ev"]))
    for l in lines:
        l["kind"] = "gates"
    return lines


def overlaps(lines):
    lines.sort(key=lambda l: json.dumps([l["ev"], l["sched"]]))
    return [dict(l, kind="overlap", fine=i % 4 == 3) for i, l in enumerate(lines)]


def C25(run):
    every = run.n(8, 1)
    run.explore("MC_C25", 2, config="MC_C25.cfg", cases=overlaps, backends=ALL)
    run.explore("MC_C25", 3, config="MC_C25.cfg", cases=lambda lines: overlaps(lines)[::every], backends=ALL)
    run.traces_(many(run, gen.sweeping, 130, 3000), label="one call stopped at every place")
    run.traces_(many(run, gen.overlapping, 600, 9000), label="threads stopped anywhere")
    return BASE + ["threads are stopped at lines or instructions of the library, not inside NumPy, SciPy or Python",
                   "a circuit is changed by one thread at a time"], None


def C24(run):
    run.explore("MC_C24", run.n(2, 2), config="MC_C24.cfg", cases=as_gates, backends=CPU)
    run.traces_(many(run, gen.shelf, 500, 5000), backends=CPU, label="shelves of gates", module="GateTrace")
    return BASE, None


PLANS = {k: v for k, v in globals().items() if k[:1] == "C" and k[1:].isdigit()}


def replay_file(d):
    """Replay one violation; prints what the code does and returns its status."""
    import check
    if d["backend"] in ("cuda", "cudasparse") or d["property"] in ("C06", "C23"):
        check._cuda = True
        check._limit()
    msg = check._replay((d["case"], d["backend"]))
    print(msg or "the specification and the code agree on this history")
    return 1 if msg else 0
