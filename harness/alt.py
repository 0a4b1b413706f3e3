"""Conformance of the smaller modules: radix conversion, backend operations,
operator flows, the tree decomposition."""
import os
import sys

import real
from real import Mismatch, fail

REPO = real.REPO


def limbs(l):
    v = 0
    for x in reversed(l):
        v = v * 10000 + x
    return v


def radix(case, backend):
    import numpy as np
    from qudiet.utils.numpy import Nbase_to_bin, bin_to_Nbase
    b = case["b"]
    if len(case["rows"]) == int(np.prod(np.array(b, dtype=object))):
        table(b, case["rows"])
    for d, i in case["rows"]:
        for idx in (i, np.int64(i)) if i < 2 ** 63 else (i,):
            base = list(b)
            got = Nbase_to_bin(idx, base)
            if [int(x) for x in got] != d:
                fail(f"Nbase_to_bin({i}, {b}) is {got}, should be {d}")
            if base != b:
                fail(f"Nbase_to_bin({i}, {b}) changes its argument to {base}")
        base, digits = list(b), list(d)
        got = bin_to_Nbase(digits, base)
        if got != i:
            fail(f"bin_to_Nbase({d}, {b}) is {got}, should be {i}")
        if base != b or digits != d:
            fail(f"bin_to_Nbase({d}, {b}) changes its arguments")
        if len(set(b)) == 1:
            got = bin_to_Nbase(list(d), b[0])
            if got != i:
                fail(f"bin_to_Nbase({d}, {b[0]}) is {got}, should be {i}")
            if b[0] == 2 and bin_to_Nbase(list(d)) != i:
                fail(f"bin_to_Nbase({d}) should be {i}")


def table(b, rows):
    """The tables of all digit strings."""
    import numpy as np
    from qudiet.circuit_library.standard_gates.toffoli_utility import generate_combinations
    from qudiet.utils.linalg import ttg
    from qudiet.utils.numpy import get_index
    want = [d for d, i in rows]
    for arg in (list(b), tuple(b)):
        got = np.asarray(ttg(arg)).tolist()
        if got != want:
            fail(f"the truth table of {b} is {got[:12]}, should be {want[:12]}")
        got = [list(map(int, x)) for x in generate_combinations(arg)]
        if got != want:
            fail(f"the combinations of {b} are {got[:12]}, should be {want[:12]}")
    t = ttg(list(b))
    for d, i in rows[::max(1, len(rows) // 20)]:
        for x in (d, tuple(d), np.array(d)):
            got = get_index(t, x)
            if got != i:
                fail(f"get_index finds {d} in row {got} of the truth table of {b}, should be {i}")


def linalg(case, backend):
    import numpy as np
    be = real.lib().backends[backend] or __import__("qudiet.core.backend", fromlist=["x"]).DefaultBackend

    def arr(m):
        a = np.array([[complex(*e) for e in r] for r in m])
        return a if case.get("complex") or np.any(a.imag) else a.real.copy()

    def dense(x):
        return np.asarray(x.toarray() if hasattr(x, "toarray") else x)

    for row in case["rows"]:
        x, did = None, []
        for o in row["ops"]:
            b = arr(o["b"])
            did.append(o["op"])
            if o["op"] == "eye":
                x = be.eye(*b.shape)
            elif o["op"] == "matrix":
                x = be.matrix(b)
            elif o["op"] == "kron":
                x = be.kron(x, be.matrix(b))
            elif o["op"] == "lkron":
                x = be.kron(be.matrix(b), x)
            elif o["op"] == "dot":
                x = be.dot(x, be.matrix(b))
            else:
                x = be.dot(be.matrix(b), x)
        want, got = arr(row["m"]), dense(x)
        what = "-".join(did)
        if got.shape != want.shape or not np.allclose(got, want, atol=1e-12, rtol=0):
            fail(f"{what} of {[o['b'] for o in row['ops']]} gives {got.tolist()}")
        nz = sorted((int(i) + 1, int(j) + 1) for i, j in zip(*be.nonzero(x)[:2]))
        if sorted(set(nz)) != sorted(map(tuple, row["nz"])):
            fail(f"nonzero after {what} gives {nz}")
        if want.shape[0] == want.shape[1] and bool(be.is_unitary(want)) != row["u"]:
            fail(f"is_unitary({want.tolist()}) should be {row['u']}")


# --------------------------------------------------------------------------
# operator flows

def op_object(o, dims, n, be, L, given=None):
    """The object of an operation; the lists it is made from go into given."""
    k = o["k"]

    def own(xs):
        xs = list(xs)
        if given is not None:
            given.append((xs, list(xs)))
        return xs

    if k == "S":
        return L.InitState(dims[o["q"]], o["s"], o["q"], be)
    if k == "I":
        return L.IGate(o["q"], dims[o["q"]], be)
    if k == "M":
        return L.Measurement(o["q"])
    if k == "X":
        return L.XGate(o["q"], dims[o["q"]], o["p"], be)
    if k == "H":
        return L.HGate(o["q"], dims[o["q"]], be)
    if k == "Z":
        return L.ZGate(o["q"], dims[o["q"]], be)
    if k == "CX":
        lo, hi = min(o["ct"]), max(o["ct"])
        return L.CXGate(own(dims[lo:hi + 1]), tuple(o["ct"]), o["p"], be)
    if k == "T":
        return L.Toffoli((own(o["cs"]), o["t"]), dims, o["p"], be)
    g = L.ArbitaryGate(own(o["qs"]), own(dims[q] for q in o["qs"]), be)
    g._unitary = real.matrix_of(o, n)
    return g


def flow(case, backend):
    import json
    import numpy as np
    from qudiet.core.backend import DefaultBackend
    L = real.lib()
    be = L.backends[backend or case.get("be", "default")] or DefaultBackend
    moms, flows, cache, made, held = {}, {}, {}, {}, {}
    for at, (ev, exp) in enumerate(zip(case["ev"], case["obs"])):
        e, where = ev["e"], f"event {at + 1}: "
        if e == "moment":
            ops = []
            for o in ev["ops"]:
                key = json.dumps([o, ev["dims"]], sort_keys=True)
                if not (case.get("share") and key in cache):
                    cache[key] = op_object(o, list(ev["dims"]), ev["n"], be, L)
                ops.append(cache[key])
            moms[ev["m"]] = L.Moment(ev["m"], *ops)
            made[ev["m"]] = (ops, list(ev["dims"]), ev["n"])
        elif e == "flow":
            flows[ev["f"]] = L.OperatorFlow(*[moms[m] for m in ev["ms"]])
        elif e == "push":
            got = flows[ev["f"]].populate_opflow(*[moms[m] for m in ev["ms"]])
            if got is not (exp["r"] == "T"):
                fail(where + f"pushing {ev['ms']} returned {got!r}, should return {exp['r'] == 'T'}")
        elif e in ("ops", "at", "idle", "mat", "fill", "dup"):
            asked(ev, exp, moms, made, held, be, L, where)
            for m, (got, ops) in held.items():
                if len(got) != len(ops) or any(a is not b for a, b in zip(got, ops)):
                    fail(where + f"the list that Moment {m} gave has changed though {m} was not filled")
        elif e == "exec":
            try:
                got = flows[ev["f"]].exec(be)
            except Exception as x:
                if exp["r"] == "E":
                    continue
                fail(where + f"exec raised {type(x).__name__}: {x}")
            if exp["r"] == "E":
                fail(where + "exec of a flow without measurement should raise an error")
            v = np.asarray(got.toarray() if hasattr(got, "toarray") else got).ravel()
            want = np.zeros(int(np.prod(exp["dims"])), dtype=complex)
            for ds, cs in exp["amps"]:
                want[np.ravel_multi_index(ds, exp["dims"])] = real.amplitude(exp["n"], cs, exp["den"])
            if v.shape != want.shape or not np.allclose(v, want, atol=real.TOL, rtol=0):
                fail(where + f"flow {ev['f']} executes to {v[:12].tolist()}, should be {want[:12].tolist()}")


def asked(ev, exp, moms, made, held, be, L, where):
    """Questions to a Moment; made has the objects that should stand in it, held
    the lists it gave since it was last filled."""
    m, e = moms[ev["m"]], ev["e"]
    ops, dims, n = made[ev["m"]]
    try:
        if e == "ops":
            got = m.peek_list()
            if len(got) != len(exp["ops"]) or any(a is not b for a, b in zip(got, ops)):
                fail(where + f"the Moment has {[type(g).__name__ for g in got]}, should have {exp['ops']}")
            held[ev["m"]] = (got, list(ops))
        elif e == "at":
            if exp["r"] == "?":
                return
            got = m.get_qreg_moment(ev["q"], True) if ev.get("ix") and exp["r"] == "At" else m.get_qreg_moment(ev["q"])
            want = (None if exp["r"] == "Z" else (ops[exp["i"]], exp["i"]) if ev.get("ix") else ops[exp["i"]])
            if isinstance(want, tuple):
                if not isinstance(got, tuple) or got[0] is not want[0] or got[1] != want[1]:
                    fail(where + f"register {ev['q']} is given as {got}, should be {want}")
            elif got is not want:
                fail(where + f"register {ev['q']} is given as {got}, should be {want}")
        elif e == "idle":
            got = m.check_igate_at_qreg(L.XGate(ev["q"], dims[ev["q"]], 1, be))
            if bool(got) != (exp["r"] == "T"):
                fail(where + f"register {ev['q']} is told to be idle: {got!r}, should be {exp['r'] == 'T'}")
        elif e == "fill":
            g = op_object(ev["op"], dims + [2], n, be, L)
            got = m.replace_igate(g)
            if bool(got) != (exp["r"] == "T"):
                fail(where + f"filling register {ev['op']['q']} returned {got!r}, should return {exp['r'] == 'T'}")
            if exp["r"] == "T":
                [at] = [i for i, o in enumerate(ops) if isinstance(o, L.IGate) and o.acting_on == ev["op"]["q"]]
                made[ev["m"]] = (ops[:at] + [g] + ops[at + 1:], dims, n)
                held.pop(ev["m"], None)
        elif e == "dup":
            import copy
            moms[ev["to"]] = m.copy() if hasattr(m, "copy") else copy.deepcopy(m)
            made[ev["to"]] = (list(ops), dims, n) if hasattr(m, "copy") else (list(moms[ev["to"]].peek_list()), dims, n)
        elif e == "mat":
            same_matrix(exp, m.exec(be), where)
    except Mismatch:
        raise
    except Exception as x:
        fail(where + f"{e}: {type(x).__name__}: {x}")


# --------------------------------------------------------------------------
# gate objects

def same_matrix(exp, got, where):
    import numpy as np
    v = np.asarray(got.toarray() if hasattr(got, "toarray") else got)
    want = np.zeros((exp["size"], len(exp["cols"])), dtype=complex)
    for j, c in enumerate(exp["cols"]):
        for i, cs in c["rows"]:
            want[i, j] = real.amplitude(exp["n"], cs, c["den"])
    if v.shape != want.shape:
        fail(where + f"the matrix has shape {v.shape}, should have {want.shape}")
    if not np.allclose(v, want, atol=real.TOL, rtol=0):
        i, j = np.argwhere(~(np.abs(v - want) <= real.TOL))[0]
        fail(where + f"entry ({i}, {j}) of the matrix is {v[i, j]:.12g}, should be {want[i, j]:.12g}")


def smear(m):
    import numpy as np
    if hasattr(m, "data") and hasattr(m, "indptr"):
        m.data[:] = 7
    elif isinstance(m, np.ndarray) and m.flags.writeable:
        m[...] = 7


def check_given(given, at):
    for now, was in given:
        if now != was:
            fail(f"event {at + 1}: the caller's list {was} has become {now}")


def gates(case, backend):
    import numpy as np
    from qudiet.core.backend import DefaultBackend
    L = real.lib()
    shelf, last, lists, given = {}, {}, {}, []
    for at, (ev, exp) in enumerate(zip(case["ev"], case["obs"])):
        if ev["e"] == "make":
            be = L.backends[ev.get("be") or backend or "default"] or DefaultBackend
            dims = lists.setdefault(tuple(ev["dims"]), list(ev["dims"]))   # one list for all of its gates
            given.append((dims, list(ev["dims"])))
            shelf[ev["g"]] = op_object(ev["op"], dims, ev["n"], be, L, given)
            check_given(given, at)
            continue
        if ev["e"] == "smear":
            smear(last[ev["g"]])
            continue
        if ev["e"] == "drop":
            del shelf[ev["g"]]
            last.pop(ev["g"], None)
            continue
        where = f"event {at + 1}: {ev['w']} of {type(shelf[ev['g']]).__name__} {ev['g']}: "
        try:
            got = getattr(shelf[ev["g"]], ev["w"])
        except Exception as x:
            if exp["r"] == "E":
                continue
            fail(where + f"{type(x).__name__}: {x}")
        r = exp["r"]
        if r == "E":
            fail(where + "should raise an error")
        if r == "N" and got is not None:
            fail(where + f"{got!r}, should be None")
        if r in ("T", "F") and (not isinstance(got, (bool, np.bool_)) or bool(got) != (r == "T")):
            fail(where + f"{got!r}, should be {r == 'T'}")
        if r == "A":
            flat = [int(x) for x in real.flatten(got)] if hasattr(got, "__iter__") else [int(got)]
            if exp["k"] == "T":
                flat, want = sorted(flat[:-1]) + flat[-1:], sorted(exp["qs"][:-1]) + exp["qs"][-1:]
            else:
                want = exp["qs"]
            if flat != want:
                fail(where + f"{got!r}, should name {exp['qs']}")
        if r == "U":
            last[ev["g"]] = got
            same_matrix(exp, got, where)
        check_given(given, at)


# --------------------------------------------------------------------------
# the tree decomposition

def tree():
    d = os.path.join(REPO, "test_circuit")
    if d not in sys.path:
        sys.path.insert(0, d)
    import useQudiet
    return useQudiet


class Recorder:
    """Stands in for QuantumCircuit and keeps the calls."""
    made = []

    def __init__(self, qregs, init_states=None, **kw):
        self.dims, self.init, self.gates = list(qregs), list(init_states or []), []
        self.measured = False
        Recorder.made.append(self)

    def cx(self, acting_on, plus=1, dims=None):
        self.gates.append({"c": int(acting_on[0]), "t": int(acting_on[1]), "p": int(plus)})
        return True

    def measure_all(self):
        self.measured = True
        return True

    def run(self):
        return [{"|" + "".join(map(str, self.init)) + ">": 1.0}]


def record_tree(n):
    """What RUN_CIRC asks of the simulator for n lines, and what Circuit counts."""
    try:
        u = tree()
        import qudiet.core.quantum_circuit as core
        Recorder.made = []
        was = [(m, m.QuantumCircuit) for m in (u, core) if hasattr(m, "QuantumCircuit")]
        try:
            for m, _ in was:
                m.QuantumCircuit = Recorder
            u.RUN_CIRC(n, [1] * n)
        finally:
            for m, c in was:
                m.QuantumCircuit = c
        r, = Recorder.made
        c = u.Circuit(n)
        c.simulate()
        try:
            labels = [g.tq for level in c.final_levels for pair in level for g in pair if g is not None]
        except (AttributeError, TypeError):      # kept differently: only what can be counted is compared
            labels = None
        import main
        return {"n": n, "dims": r.dims, "gates": r.gates, "measured": r.measured, "init": r.init,
                "counts": [c.tern, c.quat, len(c.qubits), len(c.qutrits), len(c.ququads)],
                "labels": labels and [labels.count("Ternary"), labels.count("Quaternary")],
                "formulas": [int(v) for v in main.mathematical_expectation(n)]}
    except Exception as x:
        return {"n": n, "error": f"{type(x).__name__}: {x}"}


def treelist(case, backend):
    n = case["n"]
    if "error" in case:
        fail(f"the circuit for {n} lines cannot be generated: {case['error']}")
    if not case["measured"] or case["init"] != [1] * n:
        fail(f"the circuit for {n} lines is not measured or not started from its input")
    if case["wrong"]:
        fail(f"the gates generated for {n} lines are wrong on input {case['wrong'][0]}")
    t, q, *numbers = case["want"]
    if [case["total"] - case["quat"], case["quat"]] != [t, q]:
        fail(f"{n} lines: {case['total'] - case['quat']} ternary and {case['quat']} quaternary gates, should be {t} and {q}")
    if case["numbers"] != numbers:
        fail(f"{n} lines: {case['numbers']} qubits, qutrits and ququarts, should be {numbers}")
    if case["counts"] != case["want"]:
        fail(f"{n} lines: Circuit counts {case['counts']}, should be {case['want']}")


def treenumbers(case, backend):
    if case["got"] != case["want"]:
        fail(f"{case['n']} lines: {case['what']} {case['got']}, should be {case['want']}")


def treerun(case, backend):
    u = tree()
    for x, y in case["rows"]:
        got = u.RUN_CIRC(case["n"], list(x))
        want = "|" + "".join(map(str, y)) + ">"
        if got != want:
            fail(f"RUN_CIRC({case['n']}, {x}) is {got}, should be {want}")


# --------------------------------------------------------------------------
# the batch runner

JUNK = [b"\xff\xfe\x00\x81 not text", b"# t\n.qubit 1\nqubit x0\n.begin\nX x0 \xc3\x28\n.end\n"]


def preload():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if "src.qudiet" not in sys.modules:
        import rich.console                         # noqa
        try:
            import src.qudiet.qasm.qasm_parser      # noqa
        except Exception:
            pass


def run_script(args, cwd, fresh=False):
    """python experimental.py <args> in cwd; what it prints."""
    import subprocess
    import tempfile
    script = os.path.join(REPO, "experimental.py")
    env = dict(os.environ, COLUMNS="100000", PYTHONDONTWRITEBYTECODE="1")
    with tempfile.TemporaryFile() as out:
        if fresh:
            if os.environ.get("QV_CUDA"):
                env["PYTHONPATH"] = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shims")
            subprocess.run([sys.executable, script, *args], cwd=cwd, env=env, stdout=out, stderr=out, timeout=120)
        else:
            preload()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.dup2(out.fileno(), 1)
                    os.dup2(out.fileno(), 2)
                    sys.stdout = open(1, "w", closefd=False)
                    sys.stderr = open(2, "w", closefd=False)
                    os.chdir(cwd)
                    os.environ.update(COLUMNS="100000")
                    sys.argv = [script, *args]
                    import runpy
                    import warnings
                    warnings.simplefilter("default")
                    try:
                        runpy.run_path(script, run_name="__main__")
                        code = 0
                    except SystemExit as x:
                        code = x.code if isinstance(x.code, int) else 0
                    except BaseException:
                        import traceback
                        traceback.print_exc()
                    sys.stdout.flush()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
            os.waitpid(pid, 0)
        out.seek(0)
        return out.read().decode(errors="replace")


def snapshot(root):
    got = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                got[os.path.relpath(os.path.join(d, f), root)] = h.read()
    return got


def check_shown(exp, snap, said, where):
    """Every record on the disk is announced by its name and shown as it is."""
    import pickle
    import re
    flat = re.sub(r"\s+", "", said)
    for r in exp["recs"]:
        name = r["stem"] + "-" + r["b"] + ".pkl"
        base = name.split("/")[-1]
        text = re.sub(r"\s+", "", f"Result for '{base}' found:" + str(pickle.loads(snap[name])))
        if text not in flat:
            fail(where + f"the record {name} is not shown; the script said: {said[-600:]}")
    n = len(re.findall(r"^Result for ", said, re.M))
    if not len(exp["recs"]) <= n <= len(exp["recs"]) + len(exp["any"]):
        fail(where + f"{n} records are shown, should be {len(exp['recs'])}")


def batch(case, backend):
    import pickle
    import re
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix="qvbatch")
    try:
        root = os.path.join(scratch, case.get("dir", "work"))
        os.makedirs(root)
        texts = {}
        for at, (ev, exp) in enumerate(zip(case["ev"], case["obs"])):
            where = f"event {at + 1}: "
            if ev["e"] == "write":
                path = os.path.join(root, ev["stem"] + "." + ev["ext"])
                os.makedirs(os.path.dirname(path), exist_ok=True)
                text = exp["text"].encode() if ev["n"] else JUNK[at % len(JUNK)]
                with open(path, "wb") as f:
                    f.write(text)
                texts[ev["stem"] + "." + ev["ext"]] = text
                continue
            if ev["e"] == "del":
                os.unlink(os.path.join(root, ev["stem"] + "." + ev["ext"]))
                del texts[ev["stem"] + "." + ev["ext"]]
                continue
            arg, cwd = {0: (root, scratch), 1: (os.path.basename(root), os.path.dirname(root)),
                        2: (".", root), 3: (root + "/", scratch)}[case.get("arg", 0)]
            if ev["e"] == "records":
                before = snapshot(root)
                said = run_script(["-m", "pkl"] + (["-b", "numpy"] if at % 2 else []) + [arg], cwd, case.get("fresh"))
                if snapshot(root) != before:
                    fail(where + "showing the records changes files")
                check_shown(exp, before, said, where)
                continue
            b = ev["b"]
            args = ["-m", ev["m"], "-b", b] + (["-v"] if at % 2 else []) + (["-t", "1"] if at % 3 == 2 else []) + [arg]
            said = run_script(args, cwd, case.get("fresh"))
            while "//" in said:
                said = said.replace("//", "/")
            snap = snapshot(root)
            for name, text in texts.items():
                if snap.get(name) != text:
                    fail(where + f"the script changes or removes {name}")
            recs = {r["stem"] + "-" + r["b"] + ".pkl": r for r in exp["recs"]}
            loose = {k[0] + "-" + k[1] + ".pkl" for k in exp["any"]}
            for name in snap:
                if name not in texts and name not in recs and name not in loose:
                    fail(where + f"{' '.join(args[:4])}: there should be no file {name}; it said: {said[-300:]}")
            for name, r in recs.items():
                if name not in snap:
                    fail(where + f"{' '.join(args[:4])}: the record {name} is missing; the script said: {said[-300:]}")
                got = pickle.loads(snap[name])
                try:
                    real.check_listing(r["value"], got["value"])
                except Mismatch as m:
                    fail(where + f"{name}: {m}")
                if (got["config"].get("width"), got["config"].get("depth")) != (r["width"], r["depth"]):
                    fail(where + f"{name} has configuration {got['config']}, should have width {r['width']} and depth {r['depth']}")
            bad = [l for l in said.split("\n") if re.search(r"exception|error|fail", l, re.I)]
            for stem, is_bad in [(x, True) for x in exp["bad"]] + [(x, False) for x in exp["good"]]:
                shown = (arg.rstrip("/") + "/" + stem + "." + ev["m"])
                hit = any(re.search(r"(?<![\w/.])" + re.escape(shown) + r"(?![\w.])", l) for l in bad)
                if hit != is_bad:
                    fail(where + f"{stem}.{ev['m']} is {'not ' if is_bad else ''}reported as failing; the script said: {said[-300:]}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


KINDS = {"batch": batch, "gates": gates, "treelist": treelist, "treenumbers": treenumbers, "treerun": treerun, "flow": flow, "radix": radix, "linalg": linalg}


def replay(case, backend):
    if case["kind"] == "overlap":
        import overlap
        return overlap.replay(case, backend)
    import signal
    real.watchdog()
    try:
        KINDS[case["kind"]](case, backend)
    except Mismatch as m:
        return str(m)
    except real.Timeout:
        return "no answer"
    except Exception as x:
        import traceback
        tb = traceback.extract_tb(x.__traceback__)[-1]
        return f"{type(x).__name__}: {x} ({os.path.basename(tb.filename)}:{tb.lineno})"
    finally:
        signal.alarm(0)
    return None
