"""Executing histories of calls on the code in /repo and comparing what the
caller observes with what the specification says."""
import os
import re
import signal
import sys
import time
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get("QV_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")

import contextlib
import io
import math

import numpy as np

TOL = 1e-9


class Mismatch(Exception):
    pass


class Timeout(BaseException):
    pass


_lib = None


def lib():
    """The library, imported late so that the CUDA stand-ins can be put first."""
    global _lib
    if _lib is None:
        import types

        import qudiet
        src = os.path.abspath(qudiet.__file__)
        if not src.startswith(os.path.abspath(REPO) + os.sep):
            raise RuntimeError(f"qudiet comes from {src}, not from {REPO}")
        L = types.SimpleNamespace()
        from qudiet.core.quantum_circuit import QuantumCircuit
        from qudiet.core.output import Output, OutputMethod, OutputType
        from qudiet.core.operator_flow import OperatorFlow
        from qudiet.core.moment import Moment
        from qudiet.core.init_states import InitState
        from qudiet.circuit_library import ArbitaryGate
        from qudiet.circuit_library.standard_gates.cx import CXGate
        from qudiet.circuit_library.standard_gates.h import HGate
        from qudiet.circuit_library.standard_gates.i import IGate
        from qudiet.circuit_library.standard_gates.x import XGate
        from qudiet.circuit_library.standard_gates.z import ZGate
        from qudiet.circuit_library.standard_gates.measurement import Measurement
        from qudiet.circuit_library.standard_gates.toffoli_utility import Toffoli
        from qudiet.core.backend.NumpyBackend import NumpyBackend
        from qudiet.core.backend.SparseBackend import SparseBackend
        for k, v in list(locals().items()):
            if k not in ("L", "types", "qudiet", "src"):
                setattr(L, k, v)
        L.backends = {"numpy": NumpyBackend, "sparse": SparseBackend, "default": None}
        if os.environ.get("QV_CUDA"):
            from qudiet.core.backend.CUDABackend import CUDABackend
            from qudiet.core.backend.CUDASparseBackend import CUDASparseBackend
            L.backends["cuda"] = CUDABackend
            L.backends["cudasparse"] = CUDASparseBackend
        _lib = L
    return _lib


# --------------------------------------------------------------------------
# expected values

def amplitude(n, coefs, den):
    s = 1.0
    for p, e in den:
        s *= float(p) ** (e / 2)
    z = 0
    for k, c in enumerate(coefs):
        if c:
            t = 2 * math.pi * k / n
            z += c * complex(math.cos(t), math.sin(t))
    return z / s


def matrix_of(ev, n):
    s = 1.0
    for p, e in ev["sf"]:
        s *= float(p) ** (e / 2)
    rows = []
    for r in ev["m"]:
        rows.append([sum((c * np.exp(2j * np.pi * k / n) for c, k in cell), 0j) / s for cell in r])
    a = np.array(rows, dtype=complex)
    if ev.get("real") and np.all(np.abs(a.imag) < 1e-12):
        a = a.real
    return a


def flavour(m, k):
    """The same matrix as different arrays."""
    if k == 1:
        return np.asfortranarray(m)
    if k == 2 and not np.iscomplexobj(m) and np.all(m == np.round(m)):
        return m.astype(int)
    if k == 3:
        big = np.zeros((2 * m.shape[0], 2 * m.shape[1]), dtype=m.dtype)
        big[::2, ::2] = m
        return big[::2, ::2]
    m = m.astype(complex) if k == 4 else m.copy()
    if k == 5:
        m.flags.writeable = False
    return m


# --------------------------------------------------------------------------
# executing

class World:
    def __init__(self, backend=None):
        self.L = lib()
        self.backend = backend
        self.circs = {}
        self.order = {}
        self.dims = {}
        self.heap = {}
        self.outs = {}
        self.spies = {}
        self.given = {}
        self.kinds = {}

    def arg(self, ref, literal):
        return self.heap[ref] if ref else list(literal)

    def output(self, ev, dims):
        L, o = self.L, ev["out"]
        typ = L.OutputType.print if o["t"] == "print" else L.OutputType.state
        met = L.OutputMethod.amplitude if o["m"] == "amp" else L.OutputMethod.probability
        name = o.get("o", "own")
        if name == "none":
            return None
        if name == "def":            # probabilities by strings, unless told otherwise
            return L.Output(dims)
        if name == "own":
            return L.Output(dims, typ, met)
        if name not in self.outs:
            self.outs[name] = L.Output(dims, typ, met)
        return self.outs[name]

    def new(self, ev):
        L = self.L
        be = L.backends[self.backend or ev.get("be", "default")]
        init = self.arg(ev["ir"], ev["init"])
        kw = {"backend": be}
        if ev["form"] == "list":
            q = self.arg(ev["qr"], ev["q"])
            dims = list(q)
        elif ev["form"] == "tuple":
            q = tuple(ev["q"])
            dims = [ev["q"][1]] * max(0, ev["q"][0])
        else:
            q = {"int": 3, "none": None, "str": "22", "set": {2, 3}, "float": 2.0,
                 "range": range(2, 4), "dict": {2: 2, 3: 3}}[ev["bad"]]
            dims = [2, 2]
        if init or ev.get("noinit") != 1:
            kw["init_states"] = init
        out = self.output(ev, dims)
        if out is not None:
            kw["output"] = out
        kw.update([{}, {"debug": False}, {"name": "circuit", "cregs": 2}, {"cregs": 0, "debug": False, "name": ""}][ev.get("kw", 0)])
        qc = L.QuantumCircuit(q, **kw)
        self.circs[ev["c"]] = qc
        self.order[ev["c"]] = ev["n"] or 1
        self.dims[ev["c"]] = dims
        return {"r": "N"}

    def qasm(self, ev):
        from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm
        L = self.L
        name = self.backend or ev["be"]
        if name == "spy":
            class Spy(L.NumpyBackend):
                used = 0

            def spied(f):
                def call(*a, **k):
                    Spy.used += 1
                    return f(*a, **k)
                return staticmethod(call)

            for f in ("matrix", "eye", "kron", "dot"):
                setattr(Spy, f, spied(getattr(L.NumpyBackend, f)))
            be = self.spies[ev["c"]] = Spy
        else:
            be = L.backends[name]
            self.spies.pop(ev["c"], None)
        if ev["via"] == "repo":      # one of the circuit files of the repository
            path = os.path.join(REPO, ev["path"])
            qc = parse_qasm(path) if be is None else parse_qasm(path, be)
        elif ev["via"] == "file":
            import tempfile
            fd, path = tempfile.mkstemp(prefix="qv", suffix=".qasm")
            try:
                with os.fdopen(fd, "w") as f:
                    f.write(ev["text"])
                qc = parse_qasm(path) if be is None else parse_qasm(path, be)
            finally:
                os.unlink(path)
        else:
            qc = circuit_from_qasm(ev["text"]) if be is None else circuit_from_qasm(ev["text"], be)
        self.circs[ev["c"]] = qc
        return {"r": "N"}

    def place(self, ev):
        L, qc = self.L, self.circs[ev["c"]]
        e = ev["e"]
        d = {"dims": ev["d"]} if ev["d"] else {}
        if ev.get("via") == "gate":
            return qc.gate(L.HGate if e == "h" else L.ZGate, ev["q"], **d)
        if ev.get("turn"):           # so many full turns more, more than TLC can write down
            t = ev["turn"]
            by = self.dims[ev["c"]][ev["q"] if e == "x" else ev["t"] if e == "tof" else ev["ct"][1]]
            ev = dict(ev, p=ev["p"] + (by * 10 ** t if t > 0 else -by * 10 ** -t))
        if e == "x":
            return qc.x(ev["q"], plus=ev["p"], **d) if ev.get("np") != 1 else qc.x(ev["q"], **d)
        if e == "h":
            return qc.h(ev["q"], **d)
        if e == "z":
            return qc.z(ev["q"], **d)
        if e == "cx":
            ct = self.heap[ev["ref"]] if ev["ref"] else (
                tuple(ev["ct"]) if ev.get("form") == "tuple" else list(ev["ct"]))
            return qc.cx(ct, ev["p"])
        if e == "tof":
            cs = self.arg(ev["ref"], ev["cs"])
            pair = [cs, ev["t"]] if ev.get("form") == "list" else (cs, ev["t"])
            return qc.toffoli(pair) if ev.get("np") == 1 else qc.toffoli(pair, ev["p"])
        if e == "u":
            m = matrix_of(ev, self.order[ev["c"]])

            Custom = self.custom(ev.get("cls", ""))
            Custom.matrix = flavour(m, ev.get("arr", 0))
            qs = self.arg(ev["ref"], ev["qs"])
            if ev.get("form") == "int":
                return qc.gate(Custom, qs[0], **d)
            return qc.gate(Custom, qs, **d)
        raise AssertionError(e)

    def custom(self, name):
        """A class of custom gates: a new one, or the one of that name."""
        if name in self.kinds:
            return self.kinds[name]

        def __init__(self, *a, **k):
            super(cls, self).__init__(*a, **k)
            self._unitary = cls.matrix

        cls = type(name or "Custom", (self.L.ArbitaryGate,), {"__init__": __init__})
        if name:
            self.kinds[name] = cls
        return cls

    def do(self, ev):
        """Returns the observation of one event."""
        if ev["e"] == "again":
            return self.given[ev["as"]]
        if ev["e"] == "spoil":
            spoil(self.given.pop(ev["as"]).get("v"))
            return {"r": "N"}
        got = self.call(ev)
        if "as" in ev:
            self.given[ev["as"]] = got
        return got

    def call(self, ev):
        e = ev["e"]
        if e == "list":
            self.heap[ev["l"]] = list(ev["v"])
            return {"r": "N"}
        if e == "set":
            self.heap[ev["l"]][ev["i"] - 1] = ev["v"]
            return {"r": "N"}
        if e == "app":
            self.heap[ev["l"]].append(ev["v"])
            return {"r": "N"}
        if e == "look":
            return {"r": "L", "v": list(self.heap[ev["l"]])}
        if e in ("line", "blank"):
            return {"r": "N"}
        if e == "clone":
            import copy
            import pickle
            was = self.circs[ev["of"]]
            self.circs[ev["c"]] = pickle.loads(pickle.dumps(was)) if ev.get("how") == "pickle" else copy.deepcopy(was)
            for t in (self.order, self.dims, self.spies):
                t.pop(ev["c"], None)
                if ev["of"] in t:
                    t[ev["c"]] = t[ev["of"]]
            return {"r": "N"}
        if e in ("new", "x", "h", "z", "cx", "tof", "u", "meas", "run", "qasm"):
            try:
                if e == "new":
                    return self.new(ev)
                if e == "qasm":
                    return self.qasm(ev)
                if e == "meas":
                    r = self.circs[ev["c"]].measure_all()
                elif e == "run":
                    v = self.circs[ev["c"]].run()
                    spy = self.spies.get(ev["c"])
                    if spy is not None and not spy.used:
                        raise Mismatch("the requested backend is not used")
                    return {"r": "K", "v": v}
                else:
                    r = self.place(ev)
                return {"r": "T" if r is True else "F" if r is False else f"returned {r!r}"}
            except Mismatch:
                raise
            except Exception as x:
                return {"r": "E", "x": f"{type(x).__name__}: {x}"}
        qc = self.circs[ev["c"]]
        if e == "view":
            L, o = self.L, qc.output_processor
            o.output_type = L.OutputType.print if ev["t"] == "print" else L.OutputType.state
            o.output_method = L.OutputMethod.amplitude if ev["m"] == "amp" else L.OutputMethod.probability
            return {"r": "N"}
        if e == "last":
            v = qc.circuit_output
            return {"r": "0"} if v is None else {"r": "K", "v": v}
        if e == "cfg":
            return {"r": "C", "v": qc.get_circuit_config()}
        if e == "info":
            return {"r": "I", "v": qc.get_circuit_info()}
        if e == "str":
            return {"r": "X", "v": str(qc)}
        if e == "show":
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                qc.draw()
            return {"r": "X", "v": out.getvalue().rstrip("\n")}
        if e == "peek":
            return {"r": "P", "layers": self.peek(qc)}
        if e == "mpl":
            return {"r": "D", "v": draw_mpl(qc, ev.get("compress", 1))}
        raise AssertionError(e)

    def peek(self, qc):
        L = self.L
        kinds = [(L.InitState, "S"), (L.XGate, "X"), (L.HGate, "H"), (L.ZGate, "Z"),
                 (L.CXGate, "CX"), (L.Toffoli, "T"), (L.ArbitaryGate, "U"), (L.IGate, "I"),
                 (L.Measurement, "M")]
        layers = []
        for m in qc.op_flow.peek():
            row = []
            for op in m.peek_list():
                k = next((name for cls, name in kinds if isinstance(op, cls)), type(op).__name__)
                regs = [op.qreg] if k == "S" else flatten(op.acting_on)
                row.append([k, int(min(regs)), int(max(regs))])
            layers.append(row)
        return layers


def spoil(v):
    """The caller changes what it was given, wherever it can be changed."""
    if isinstance(v, list):
        for x in v:
            spoil(x)
        v.reverse()
        v.append({"spoilt": 0})
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        for x in list(v):
            v[x] = 77
        v["spoilt"] = 1


def flatten(x):
    return [b for a in x for b in flatten(a)] if hasattr(x, "__iter__") else [x]


def draw_mpl(qc, compress=1):
    import matplotlib.pyplot as plt
    plt.close("all")
    got = []

    def show(*a, **k):
        for i, num in enumerate(plt.get_fignums()):
            fig = plt.figure(num)
            for ax in fig.axes:
                texts = [(t.get_text(), float(t.xy[0] if hasattr(t, "xy") else t.get_position()[0]),
                          float(t.xy[1] if hasattr(t, "xy") else t.get_position()[1])) for t in ax.texts]
                lines = []
                for l in ax.lines:
                    xs = [float(v) for v in l.get_xdata()]
                    ys = [float(v) for v in l.get_ydata()]
                    me = l.get_markevery()
                    mk = l.get_marker()
                    if mk in (None, "None", "none", "", " "):
                        marks = []
                    elif isinstance(me, (list, tuple, np.ndarray)):
                        marks = [j for j, b in enumerate(me) if b] if all(
                            isinstance(b, (bool, np.bool_)) for b in me) else [int(j) for j in me]
                    elif me is None:
                        marks = list(range(len(xs)))
                    else:
                        marks = []
                    lines.append((xs, ys, str(mk), marks, str(l.get_color())))
                got.append((len(got), texts, lines))

    old = plt.show
    plt.show = show
    try:
        qc.draw("mpl", compress=compress) if compress != 1 else qc.draw("mpl")
    finally:
        plt.show = old
        plt.close("all")
    return got


# --------------------------------------------------------------------------
# comparing

def fail(msg):
    raise Mismatch(msg)


def name_of(digits, typ):
    return "|" + "".join(str(d) for d in digits) + ">" if typ == "print" else tuple(digits)


def norm_key(key, typ):
    if typ == "print":
        if not isinstance(key, str):
            fail(f"the state is named by {key!r}, not by a string")
        return key
    if not isinstance(key, tuple):
        fail(f"the state is named by {key!r}, not by a tuple")
    return tuple(int(k) for k in key)


def check_listing(exp, got):
    if not isinstance(got, list):
        fail(f"the result is a {type(got).__name__}, not a list")
    typ, method = exp["t"], exp["m"]
    want = {}
    rank = {}
    for i, (ds, cs) in enumerate(exp["amps"]):
        a = amplitude(exp["n"], cs, exp["den"])
        want[name_of(ds, typ)] = a if method == "amp" else abs(a) ** 2
    seen = {}
    last = None
    for item in got:
        if not (isinstance(item, dict) and len(item) == 1):
            fail(f"an entry of the result is {item!r}")
    if typ == "print" and any(len(norm_key(k, typ)) != exp["nreg"] + 2 for x in list(got) + [want] for k in x):
        return check_sequence(exp, got)
    for item in got:
        (key, val), = item.items()
        key = norm_key(key, typ)
        if isinstance(val, bool) or not isinstance(val, (int, float, complex, np.number)):
            fail(f"the value of {key} is {val!r}")
        if method == "prob":
            if isinstance(val, (complex, np.complexfloating)):
                fail(f"the probability of {key} is the complex {val!r}")
        if key in seen:
            fail(f"{key} is listed twice")
        seen[key] = complex(val)
        if last is not None:
            if typ == "state":
                if not last < key:
                    fail(f"{key} is listed after {last}")
            elif len(key) == len(last) == exp["nreg"] + 2 and not last < key:
                fail(f"{key} is listed after {last}")
        last = key
    tiny = TOL if method == "amp" else TOL * TOL
    for key, a in want.items():
        if key not in seen:
            fail(f"{key} is missing; its value should be {a:.6g}")
        if not abs(seen[key] - a) < TOL:
            fail(f"{key} has value {seen[key]:.12g}, should be {a:.12g}")
        if method == "prob" and not abs(seen[key] - a) <= max(1e-15, 1e-6 * abs(a)):
            fail(f"{key} has probability {seen[key]:.12g}, should be {a:.12g}")
    for key, v in seen.items():
        if key not in want:
            if not abs(v) < tiny * (1 if method == "amp" else 1e3):
                fail(f"{key} is listed with value {v:.6g}, should be absent")
            if typ == "state" and len(key) != exp["nreg"]:
                fail(f"{key} does not name {exp['nreg']} registers")


def check_sequence(exp, got):
    """Names with digits from ten on may coincide: entries are told apart by their order."""
    amp = exp["m"] == "amp"
    todo = []
    for ds, cs in exp["amps"]:
        a = amplitude(exp["n"], cs, exp["den"])
        todo.append((tuple(ds), name_of(ds, "print"), a if amp else abs(a) ** 2))
    todo.sort()
    for item in got:
        (key, val), = item.items()
        if isinstance(val, bool) or not isinstance(val, (int, float, complex, np.number)):
            fail(f"the value of {key} is {val!r}")
        if not amp and isinstance(val, (complex, np.complexfloating)):
            fail(f"the probability of {key} is the complex {val!r}")
        if todo and norm_key(key, "print") == todo[0][1] and abs(val - todo[0][2]) < TOL:
            todo.pop(0)
        elif not abs(val) < (TOL if amp else 1e3 * TOL * TOL):
            fail(f"{key} is listed with value {val:.6g}; " + (f"{todo[0][1]} with value {todo[0][2]:.6g} should come here"
                                                              if todo else "nothing should follow"))
    if todo:
        fail(f"{todo[0][1]} is missing; its value should be {todo[0][2]:.6g}")


def check_text(exp, got):
    lines = got.split("\n")
    n = len(exp["rows"])
    crowded = wide = any(len(row[0]) > 6 for row in exp["rows"])
    if len(lines) < n:
        fail("the diagram has too few lines")
    for i, row in enumerate(exp["rows"]):
        line = lines[i]
        m = re.match(r"^-*(\(\d+\)\|\d+>)(.*)$", line)
        if not m:
            fail(f"row {i} of the diagram is {line!r}")
        if m.group(1) != row[0]:
            fail(f"row {i} of the diagram starts with {m.group(1)}, should be {row[0]}")
        rest, cells = m.group(2), []
        want = list(row[1:])
        if crowded:              # no columns are promised: the symbols in order
            cells = re.findall(r"X\(-?\d+\)|[^-]", rest)
            if cells != [w for w in want if w]:
                fail(f"row {i} of the diagram shows {cells}, should be {[w for w in want if w]}")
            continue
        if any(len(w) > 5 for w in want):
            wide = True
        pos = 0
        while pos < len(rest):
            w = want[len(cells)] if len(cells) < len(want) else ""
            if len(w) > 5 and rest.startswith(w, pos):   # too wide for its column
                cells.append(w)
                pos += len(w)
            else:
                cells.append(rest[pos:pos + 5].strip("-"))
                if len(rest) < pos + 5:
                    fail(f"row {i} of the diagram is not made of columns: {line!r}")
                pos += 5
        while len(cells) > len(want) and cells[-1] == "":
            cells.pop()
        if cells != want:
            fail(f"row {i} of the diagram shows {cells}, should be {want}")
    foot = [x for x in lines[n:] if x.strip()]
    if not foot or not re.search(rf"depth:\s*{exp['depth']}\b.*width:\s*{exp['width']}\b", foot[-1]):
        fail(f"the diagram ends with {foot[-1:]!r}, depth {exp['depth']} and width {exp['width']} expected")
    if not wide and len({len(x) for x in lines[:n]}) != 1:
        fail("the rows of the diagram have different lengths")


def check_mpl(exp, got):
    states, tokens, conns = [], [], []
    for f, texts, lines in got:
        for s, x, y in texts:
            s = s.replace("$", "")
            m = re.fullmatch(r"Q\^\{(\d+)D\}_\{(\d+)\}\|(\d+)>", s)
            if m:
                states.append([tuple(int(v) for v in m.groups()), y])
                continue
            if s in ("MSB", "LSB"):
                continue
            m = re.fullmatch(r"X\^\{\+?(-?\d+)\}_\{(\d+)\}", s)
            if m:
                tokens.append((f, x, "X", y - 1, int(m.group(1)), int(m.group(2))))
            elif s in ("H", "Z", "M", "G"):
                tokens.append((f, x, s, y - 1, 0, 0))
            else:
                fail(f"the figure shows {s!r}")
        for xs, ys, mk, marks, col in lines:
            if len(xs) >= 2 and max(ys) > min(ys) and max(xs) == min(xs) and mk == "o":
                conns.append([f, xs[0], min(ys) - 1, max(ys) - 1, sorted(ys[j] - 1 for j in marks), lines])
    want_states = [tuple(s) for s in exp["states"]]
    if sorted(s for s, _ in states) != sorted(want_states):
        fail(f"the figure labels the registers {sorted(s for s, _ in states)}, should be {sorted(want_states)}")
    for (d, i, s), y in states:
        if abs(y - (i + 1)) > 0.3:
            fail(f"the label of register {i} is not on its row")

    layers = [list(l) for l in exp["layers"]]
    # connections: one per controlled gate, as tokens "C2" if without a label
    nconn = sum(1 for l in layers for it in l if it["k"] in ("CX", "C2"))
    if len(conns) != nconn:
        fail(f"the figure has {len(conns)} control connections, should be {nconn}")
    labels = sum(1 for l in layers for it in l if it["k"] != "C2")
    if len(tokens) != labels:
        fail(f"the figure has {len(tokens)} gate symbols, should be {labels}")
    tokens.sort(key=lambda t: (t[0], t[1]))
    conns.sort(key=lambda t: (t[0], t[1]))
    last = (-1, -1.0)
    for j, l in enumerate(layers):
        pos = []
        for it in [i for i in l if i["k"] == "C2"]:
            f, x, lo, hi, marks, lines = conns.pop(0)
            rows = it["cs"] + [it["row"]]
            if (lo, hi) != (min(rows), max(rows)) or marks != it["cs"]:
                fail(f"layer {j + 1} shows a CX on rows {lo}-{hi} controlled by {marks}, should be {rows}")
            plus = [1 for xs, ys, mk, mks, col in lines
                    if mk == "+" and abs(xs[0] - x) < 1e-9 and ys == [it["row"] + 1]]
            if not plus:
                fail(f"layer {j + 1}: the target of the CX is not marked")
            pos.append((f, x))
        mine = [i for i in l if i["k"] != "C2"]
        got_here = [tokens.pop(0) for _ in mine]
        pos += [(t[0], t[1]) for t in got_here]

        def key(it):
            if it["k"] in ("X", "CX"):
                return ("X", float(it["row"]), it["p"], it["d"])
            if it["k"] == "G":
                return ("G", (it["row"] + it["hi"]) / 2, 0, 0)
            return (it["k"], float(it["row"]), 0, 0)

        w = sorted(key(it) for it in mine)
        g = sorted((t[2], round(t[3], 6), t[4], t[5]) for t in got_here)
        if w != g:
            fail(f"layer {j + 1} of the figure shows {g}, should be {w}")
        for it in mine:
            if it["k"] == "CX":
                c = conns.pop(0)
                rows = it["cs"] + [it["row"]]
                if (c[2], c[3]) != (min(rows), max(rows)) or c[4] != it["cs"]:
                    fail(f"layer {j + 1} joins rows {c[2]}-{c[3]} controlled by {c[4]}, should be {rows}")
                t = got_here[0]
                if c[0] != t[0]:
                    fail(f"layer {j + 1}: label and control line are in different figures")
        if pos:
            if not min(pos) > last:
                fail(f"layer {j + 1} is not drawn after layer {j}")
            last = max(pos)


def compare(ev, exp, got):
    r, g = exp["r"], got["r"]
    if r in ("T", "F", "E"):
        if g != r:
            words = {"T": "return True", "F": "return False", "E": "raise an error"}
            fail(f"{describe(ev)} should {words[r]}, but " + said(got))
    elif r in ("TE", "FE"):
        if g not in r:
            fail(f"{describe(ev)} " + said(got))
    elif r == "N":
        if g != "N":
            fail(f"{describe(ev)} " + said(got))
    elif r == "K":
        if g != "K":
            fail(f"{ev['e']}() " + said(got))
        check_listing(exp, got["v"])
    elif r == "0":
        if g != "0":
            fail(f"the circuit has a last result {str(got.get('v'))[:80]}, but has never run")
    elif r == "?":
        pass
    elif r == "C":
        v = got["v"]
        if (v.get("width"), v.get("depth")) != (exp["width"], exp["depth"]):
            fail(f"configuration {v}, should have width {exp['width']} and depth {exp['depth']}")
    elif r == "I":
        v = got["v"]
        want = {"depth": exp["depth"], "gate_count": exp["gates"], "qudit": exp["qudit"],
                "details": dict(map(tuple, exp["details"]))}
        for k in want:
            if v.get(k) != want[k]:
                fail(f"circuit info has {k} {v.get(k)!r}, should be {want[k]!r}")
    elif r == "X":
        check_text(exp, got["v"])
    elif r == "P":
        if got["layers"] != exp["layers"]:
            for j in range(max(len(exp["layers"]), len(got["layers"]))):
                a = got["layers"][j] if j < len(got["layers"]) else None
                b = exp["layers"][j] if j < len(exp["layers"]) else None
                if a != b:
                    fail(f"layer {j} is {a}, should be {b}")
    elif r == "L":
        if got["v"] != exp["v"]:
            fail(f"the caller's list is {got['v']}, should be {exp['v']}")
    elif r == "D":
        check_mpl(exp, got["v"])
    else:
        raise AssertionError(exp)


def said(got):
    return {"T": "returned True", "F": "returned False", "K": "returned a result", "N": "succeeded"}.get(
        got["r"], got.get("x") and "raised " + got["x"] or got["r"])


def describe(ev):
    return ev["e"] + "(" + ", ".join(f"{k}={v}" for k, v in ev.items() if k not in ("e", "m", "ref", "sf")) + ")"


def patience():
    return 150


def watchdog():
    """Raises Timeout when patience is over."""
    t0 = time.monotonic()

    def ring(*a):
        if time.monotonic() - t0 >= patience():
            raise Timeout()
        signal.alarm(5)

    signal.signal(signal.SIGALRM, ring)
    signal.alarm(5)


def replay(case, backend=None):
    """Execute case["ev"] and compare with case["obs"]; None or a message."""
    watchdog()
    w = World(backend)
    i = -1
    try:
        for i, (ev, exp) in enumerate(zip(case["ev"], case["obs"])):
            if ev["e"] == "qasm":
                ev = dict(ev, text=exp["text"])
            try:
                got = w.do(ev)
            except (Timeout, Mismatch):
                raise
            except Exception as x:
                raise Mismatch(f"{describe(ev)} raised {type(x).__name__}: {x}")
            compare(ev, exp, got)
            if exp["r"] == "TE" and got["r"] == "E":
                break
    except Mismatch as m:
        return f"event {i + 1}: {m}"
    except Timeout:
        return f"event {i + 1}: no answer"
    finally:
        signal.alarm(0)
    return None
