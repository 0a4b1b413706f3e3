"""Random histories of calls: larger registers, longer circuits, odd arguments.
They are inputs only; what should be observed is computed by Trace.tla."""
import copy
import math
import os
import random
import re


def lcm(*xs):
    r = 1
    for x in xs:
        r = r * x // math.gcd(r, x)
    return r


def R(c):
    return [[c, 0]] if c else []


def mat_mul(a, b):
    """product of matrices of sums of c*w^e"""
    n = len(a)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            d = {}
            for k in range(n):
                for c1, e1 in a[i][k]:
                    for c2, e2 in b[k][j]:
                        d[e1 + e2] = d.get(e1 + e2, 0) + c1 * c2
            row.append([[c, e] for e, c in sorted(d.items()) if c])
        out.append(row)
    return out


def ident(n):
    return [[R(1) if i == j else [] for j in range(n)] for i in range(n)]


TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29)]


def random_unitary(rng, size, n, small=False):
    """An exact unitary over Z[w_n], divided by sqrt(prod p^e)."""
    perm = list(range(size))
    rng.shuffle(perm)
    m = [[([[1, rng.randrange(n)]] if n > 1 else R(1)) if perm[j] == i else [] for j in range(size)]
         for i in range(size)]
    sf = {}

    def scale(rows, k):
        return [[[[c * k, e] for c, e in cell] for cell in r] for r in rows]

    kinds = ["none", "givens", "had"]
    if size >= 2 and not (small and size > 6):
        for _ in range(rng.choice([0, 1, 1, 2])):
            what = rng.choice(kinds)
            i, j = rng.sample(range(size), 2)
            if what == "givens":
                a, b, c = rng.choice(TRIPLES[:3])
                g = scale(ident(size), c)
                g[i][i], g[j][j], g[i][j], g[j][i] = R(a), R(a), R(-b), R(b)
                if sum(sf.values()) > 3:
                    continue
                m = mat_mul(g, m)
                sf[c] = sf.get(c, 0) + 2
            elif what == "had" and size == 2:
                g = [[R(1), R(1)], [R(1), R(-1)]]
                m = mat_mul(g, m)
                sf[2] = sf.get(2, 0) + 1
            elif what == "had" and size > 2 and n % size == 0 and size <= 6:
                g = [[[[1, (n // size) * ((r * s) % size)]] for s in range(size)] for r in range(size)]
                m = mat_mul(g, m)
                for p in factors(size):
                    sf[p] = sf.get(p, 0) + 1
        # a phase that couples to nothing else
    m = [[[[c, e % n] for c, e in cell] for cell in r] for r in m]
    return m, [[p, e] for p, e in sorted(sf.items())]


def tiny_phase(size, n, k):
    """Phases whose imaginary parts are about 2/k: alone, or coupling two states."""
    m = ident(size)
    a, b, c = k * k - 1, 2 * k, k * k + 1
    m = [[[[x * c, e] for x, e in cell] for cell in r] for r in m]
    q = n // 4
    if k % 2 or size < 2:
        m[-1][-1] = [[a, 0], [b, q]]
    else:
        m[0][0], m[1][1], m[0][1], m[1][0] = R(a), R(a), [[b, q]], [[b, q]]
    return m, merge_factors(c)


def tiny_rotation(size, n, k):
    """A real rotation whose off-diagonal entries are about 2/k."""
    m = ident(size)
    a, b, c = k * k - 1, 2 * k, k * k + 1
    m = [[[[x * c, e] for x, e in cell] for cell in r] for r in m]
    m[0][0], m[1][1], m[0][1], m[1][0] = R(a), R(a), R(-b), R(b)
    return m, merge_factors(c)


def factors(k):
    f, p = [], 2
    while p * p <= k:
        while k % p == 0:
            f.append(p)
            k //= p
        p += 1
    if k > 1:
        f.append(k)
    return f


def merge_factors(c):
    d = {}
    for p in factors(c):
        d[p] = d.get(p, 0) + 2
    return [[p, e] for p, e in sorted(d.items())]


OUTS = [("print", "amp", "none"), ("print", "amp", "own"), ("state", "amp", "own"),
        ("print", "prob", "own"), ("state", "prob", "own"), ("print", "prob", "def")]


NAMES = ["", "", "", "", "G", "G", "Custom", "HGate", "XGate", "ZGate", "CXGate", "Toffoli", "IGate", "Measurement", "InitState", "ArbitaryGate"]


def style(rng, e):
    """What the class of a custom gate is called and how its array is laid out."""
    e["cls"], e["arr"] = rng.choice(NAMES), rng.choice([0, 0, 0, 1, 2, 3, 4, 5])
    return e


class Circuit:
    """Builds the events of one circuit, bounding the cost of everything."""

    def __init__(self, rng, name="a", dims=None, n=None, out=None, be=None, max_support=400,
                 max_span=300, tuple_form=False, init=None):
        self.rng, self.c = rng, name
        self.dims = dims if dims is not None else random_dims(rng)
        self.max_support, self.max_span = max_support, max_span
        hd = sorted(set(self.dims))
        if n is None:
            n, self.hdims = 1, set()
            rng.shuffle(hd)
            for d in hd:
                if lcm(n, d) <= 60 and d <= 30:
                    n = lcm(n, d)
                    self.hdims.add(d)
            if rng.random() < 0.5 and lcm(n, 4) <= 60:
                n = lcm(n, 4)
        else:
            self.hdims = {d for d in self.dims if n % d == 0}
        self.n = n
        self.support = 1
        self.ev = []
        self.bits = 0.0          # bounds the exact coefficients: TLC has 32-bit integers
        self.total = math.prod(self.dims)
        self.turns = False
        if out is None:
            out = rng.choice(OUTS)
        if init is None:
            k = rng.randrange(len(self.dims) + 1) if rng.random() < 0.5 else len(self.dims)
            init = [rng.randrange(self.dims[i]) if rng.random() < 0.6 else self.dims[i] - 1 for i in range(k)]
        self.out = out
        form = "list"
        q = list(self.dims)
        if tuple_form:
            form, q = "tuple", [len(self.dims), self.dims[0]]
        self.new = {"e": "new", "c": name, "form": form, "q": q, "qr": "", "init": init, "ir": "",
                    "n": self.n, "out": {"t": out[0], "m": out[1], "o": out[2]},
                    "be": be or rng.choice(["numpy", "sparse", "default"])}
        if not init:
            self.new["noinit"] = rng.randrange(2)
        if rng.random() < 0.15:
            self.new["kw"] = rng.randrange(1, 4)
        self.init = init

    def span(self, regs):
        r = 1
        for q in range(min(regs), max(regs) + 1):
            r *= self.dims[q]
        return r

    def plus(self, d):
        r = self.rng
        x = r.random()
        if x < 0.4:
            return 1
        if x < 0.6:
            return r.randrange(1, d)
        if x < 0.8:
            return -r.randrange(1, d + 1)
        if x < 0.95:
            return r.randrange(-3 * d, 3 * d + 1)
        return r.choice([-1, 1]) * r.randrange(10 ** 4, 10 ** 6)

    def far(self, e):
        """Sometimes add d * 10^turn, beyond TLC's integers, to the increment."""
        if self.turns and self.rng.random() < 0.08:
            e["turn"] = self.rng.choice([4, 7, 9, 10, 12, 15, 18, 19, 22, 40, -5, -9, -10, -18, -20, -30])
            e.pop("np", None)
        return e

    def dimarg(self, q):
        return self.dims[q] if self.rng.random() < 0.2 else 0

    def x(self, q=None):
        q = self.rng.randrange(len(self.dims)) if q is None else q
        p = self.plus(self.dims[q])
        e = {"e": "x", "c": self.c, "q": q, "p": p, "d": self.dimarg(q)}
        if p == 1 and self.rng.random() < 0.5:
            e["np"] = 1
        return self.far(e)

    def by_gate(self, e):
        """H and Z can also be handed to gate()."""
        if self.rng.random() < 0.1:
            e["via"] = "gate"
        return e

    def h(self, q=None):
        ok = [i for i, d in enumerate(self.dims)
              if d in self.hdims and min(self.support * d, self.total) <= self.max_support
              and self.bits + math.log2(d) / 2 <= 20]
        if not ok:
            return self.x()
        q = self.rng.choice(ok) if q is None else q
        self.support = min(self.support * self.dims[q], self.total)
        self.bits += math.log2(self.dims[q]) / 2
        return self.by_gate({"e": "h", "c": self.c, "q": q, "d": self.dimarg(q)})

    def z(self, q=None):
        ok = [i for i, d in enumerate(self.dims) if d in self.hdims]
        if not ok:
            return self.x()
        q = self.rng.choice(ok) if q is None else q
        return self.by_gate({"e": "z", "c": self.c, "q": q, "d": self.dimarg(q)})

    def cx(self):
        r = self.rng
        for _ in range(20):
            if len(self.dims) < 2:
                return self.x()
            c, t = r.sample(range(len(self.dims)), 2)
            if self.span([c, t]) <= self.max_span:
                return self.far({"e": "cx", "c": self.c, "ct": [c, t], "p": self.plus(self.dims[t]), "d": 0,
                                 "ref": "", "form": r.choice(["list", "tuple"])})
        return self.x()

    def tof(self, k=None):
        r = self.rng
        for _ in range(30):
            n = len(self.dims)
            if n < 2:
                return self.x()
            k_ = k or r.randrange(1, min(n, 5))
            regs = r.sample(range(n), min(k_ + 1, n))
            if self.span(regs) <= self.max_span:
                p = self.plus(self.dims[regs[-1]])
                e = {"e": "tof", "c": self.c, "cs": regs[:-1], "t": regs[-1], "p": p, "d": 0, "ref": "",
                     "form": r.choice(["list", "tuple"])}
                if p == 1 and r.random() < 0.5:
                    e["np"] = 1
                return self.far(e)
        return self.x()

    def u(self):
        r = self.rng
        n = len(self.dims)
        for _ in range(20):
            lo = r.randrange(n)
            w = r.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 5])
            if lo + w > n:
                continue
            qs = list(range(lo, lo + w))
            size = self.span(qs)
            if size > 36:
                continue
            m, sf = random_unitary(r, size, self.n, small=True)
            grow = max(sum(1 for cell in row if cell) for row in m)
            if min(self.support * grow, self.total) > self.max_support:
                continue
            b = sum(e * math.log2(p) / 2 for p, e in sf)
            if self.bits + b > 20:
                continue
            self.bits += b
            self.support = min(self.support * grow, self.total)
            e = {"e": "u", "c": self.c, "qs": qs, "m": m, "sf": sf, "d": 0, "ref": "", "real": r.randrange(2)}
            if w == 1 and r.random() < 0.6:
                e["form"] = "int"
                e["d"] = self.dimarg(lo)
            return style(r, e)
        return self.x()

    def gate(self, weights=None):
        w = weights or {"x": 4, "h": 3, "z": 2, "cx": 4, "tof": 2, "u": 2}
        k = self.rng.choices(list(w), list(w.values()))[0]
        return getattr(self, k)()


def random_dims(rng, total=900, regs=None, big=0.15):
    x = rng.random()
    if x < big:
        d = rng.choice([8, 9, 10, 11, 12, 13, 16])
        dims = [d] + [rng.randrange(2, 5) for _ in range(rng.randrange(0, 3))]
        rng.shuffle(dims)
        return dims
    if x < big + 0.1:
        return [2] * rng.randrange(6, 10)
    if x < big + 0.2:
        k = rng.randrange(4, 7)
    else:
        k = rng.randrange(1, 5)
    if regs:
        k = regs
    dims, t = [], 1
    for _ in range(k):
        d = rng.choices([2, 3, 4, 5, 6, 7], [6, 6, 3, 2, 1, 1])[0]
        if t * d > total:
            d = 2
        t *= d
        dims.append(d)
        if t > total:
            break
    return dims


def tail(c):
    return [{"e": "meas", "c": c}, {"e": "run", "c": c}]


def view(rng, c):
    return {"e": "view", "c": c, "t": rng.choice(["print", "state"]), "m": rng.choice(["amp", "prob"])}


def obs(rng, c, mpl=False):
    return {"e": rng.choice(["cfg", "info", "str", "peek", "show", "last"] + (["mpl"] if mpl else [])), "c": c}


def kept(rng, case, p=0.5):
    """Callers keep some of the results and reports, look at them later or change them."""
    ev, held, k = [], [], 0
    for e in case["ev"]:
        if e["e"] in ("run", "info", "cfg") and rng.random() < p:
            k += 1
            e = dict(e, **{"as": f"r{k}"})
            held.append(e["as"])
        ev.append(e)
        if held and rng.random() < 0.15:
            ev.append({"e": "spoil", "as": held.pop(rng.randrange(len(held)))})
        if held and rng.random() < 0.1:
            ev.append({"e": "again", "as": rng.choice(held)})
    ev += [{"e": "again", "as": a} for a in held]
    return dict(case, ev=ev)


def mixed(rng, lo=1, hi=30, weights=None, **kw):
    """One circuit, a random gate sequence, measured and run."""
    k = Circuit(rng, **kw)
    k.turns = True
    ev = [k.new]
    for _ in range(rng.randrange(lo, hi)):
        ev.append(k.gate(weights))
    return {"ev": ev + tail("a"), "inv": False}


def many_layers(rng):
    """A long circuit on few registers."""
    k = Circuit(rng, dims=rng.choice([[2, 3], [3, 2, 2], [4, 3], [2, 2, 2], [5, 2]]), max_support=80)
    ev = [k.new]
    for _ in range(rng.randrange(40, 90)):
        ev.append(k.gate({"x": 4, "h": 1, "z": 2, "cx": 4, "tof": 2, "u": 1}))
        k.support = min(k.support, 6)
    return {"ev": ev + tail("a"), "inv": False}


def marathon(rng, most=330):
    """A very long circuit: up to some hundred layers."""
    k = Circuit(rng, dims=rng.choice([[2, 2], [2, 3], [3, 2], [2, 2, 2], [4, 2], [3, 3]]), max_support=9)
    ev = [k.new]
    for _ in range(rng.randrange(100, most)):
        ev.append(k.gate({"x": 3, "h": 0.05, "z": 1, "cx": 8, "tof": 2}))
        k.support = min(k.support, 6)
    return {"ev": ev + tail("a"), "inv": False}


# ---------------------------------------------------------------------------
# histories aimed at one property each

def spread(k, rng, most=3):
    """Put superpositions with different phases on some registers."""
    ev = []
    for q in rng.sample(range(len(k.dims)), len(k.dims)):
        if len(ev) >= most * 2:
            break
        if k.dims[q] in k.hdims and k.support * k.dims[q] <= k.max_support and k.bits < 16:
            k.support *= k.dims[q]
            k.bits += math.log2(k.dims[q]) / 2
            ev.append({"e": "h", "c": k.c, "q": q, "d": 0})
    rng.shuffle(ev)
    return ev


def single(rng):
    """C02: one register of any dimension among others; X, H, Z only."""
    d = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 27, 30, 32])
    dims = [rng.choice([2, 2, 3, 4, 5]) for _ in range(rng.randrange(0, 4))]
    while math.prod(dims) * d > 700 and dims:
        dims.pop()
    at = rng.randrange(len(dims) + 1)
    dims.insert(at, d)
    k = Circuit(rng, dims=dims, n=d, max_support=600)
    k.turns = True
    ev = [k.new]
    for _ in range(rng.randrange(1, 7)):
        w = rng.choice("xxhhz")
        q = at if rng.random() < 0.7 else rng.randrange(len(dims))
        if w == "x" or k.n % dims[q]:
            ev.append(k.x(q))
        elif w == "z":
            ev.append(k.z(q))
        elif min(k.support * dims[q], k.total) <= 600 and k.bits < 19:
            ev.append(k.h(q))
    return {"ev": ev + tail("a")}


BIG = [40, 64, 100, 127, 128, 129, 130, 181, 182, 183, 200, 255, 256, 257, 260, 287, 299, 300]


def huge(rng, kind):
    """C02, C03, C04, C08: a register with very many levels."""
    d = rng.choice(BIG)
    if kind == "single" and rng.random() < 0.25:
        d = rng.choice([511, 512, 513, 640, 729, 1000, 1023, 1024, 1025, 1500])
    elif kind != "single" and rng.random() < 0.15:
        d = rng.choice([400, 499, 511, 512, 513])
    dims = [d] + ([rng.choice([2, 2, 3])] if kind != "single" or rng.random() < 0.5 else [])
    if kind == "tof" and d < 200:
        dims.append(2)
    if kind != "single" and d >= 400:
        dims[1] = 2
    rng.shuffle(dims)
    at = dims.index(d)
    k = Circuit(rng, dims=dims, n=d, max_span=1030, out=rng.choice(OUTS[1:]),
                init=[x - 1 if rng.random() < 0.6 else rng.randrange(x) for x in dims])
    k.turns = True
    ev = [k.new]
    if kind == "single":
        ev += [k.x(at) if rng.random() < 0.5 else k.z(at) for _ in range(rng.randrange(0, 3))]
        if rng.random() < 0.7:
            if d < 520:
                ev.append({"e": "h", "c": "a", "q": at, "d": k.dimarg(at)})
            ev += [k.x(at) if rng.random() < 0.5 else k.z(at) for _ in range(rng.randrange(0, 3))]
    else:
        if d % 2 == 0 and 2 in dims:
            ev.append({"e": "h", "c": "a", "q": dims.index(2), "d": 0})
        if rng.random() < 0.4:      # every level at once, each with its own phase
            ev += [{"e": "h", "c": "a", "q": at, "d": 0}, {"e": "z", "c": "a", "q": at, "d": 0}]
        for _ in range(rng.randrange(1, 4)):
            ev.append(k.cx() if kind == "cx" else k.tof(rng.randrange(1, len(dims))))
            ev.append(k.x())
    return {"ev": ev + tail("a")}


def many_registers(rng):
    """C01, C06: ten or eleven registers and few layers, operands far apart."""
    n = rng.choice([10, 10, 11])
    k = Circuit(rng, dims=[2] * n, n=4, max_support=64, max_span=2 ** 6,
                init=[rng.choice([0, 1, 1]) for _ in range(n)])
    k.hdims = {2}
    k.new["be"] = "numpy" if n > 10 else rng.choice(["numpy", "sparse", "default"])
    ev = [k.new]
    for _ in range(rng.choice([1, 2, 2])):
        qs = rng.sample(range(n), rng.randrange(1, 5))
        ev += [rng.choice([k.x, k.x, k.z, k.h])(q) for q in qs]
        ev.append(k.gate({"cx": 3, "tof": 2, "u": 1}))
    return {"ev": ev + tail("a")}


def wide_dims(rng, total=700, lo=2, hi=8):
    dims, t = [], 1
    for _ in range(rng.randrange(lo, hi + 1)):
        d = rng.choice([2, 2, 2, 3, 3, 4, 5])
        if t * d > total:
            break
        dims.append(d)
        t *= d
    return dims if len(dims) >= 2 else [2, 3]


def controlled(rng, kind):
    """C03, C04: gates with controls on every state that fires or does not."""
    dims = wide_dims(rng) if rng.random() < 0.8 else rng.choice(
        [[11, 2, 3], [2, 13], [12, 3], [2, 10, 2], [16, 2], [3, 17], [2, 2, 2, 2, 2, 2, 2, 2, 2], [3, 3, 3, 3, 3, 3]])
    k = Circuit(rng, dims=dims, max_support=500, max_span=760,
                init=[d - 1 if rng.random() < 0.75 else rng.randrange(d) for d in dims])
    k.turns = True
    ev = [k.new]
    if rng.random() < 0.6:
        ev += spread(k, rng, rng.randrange(1, 6))
    for _ in range(rng.randrange(1, 5)):
        if kind == "tof":
            ev.append(k.tof(rng.randrange(1, max(2, len(dims)))))
        else:
            ev.append(k.cx())
        if rng.random() < 0.3:
            ev.append(k.z() if rng.random() < 0.5 else k.x())
    return {"ev": ev + tail("a")}


def not_unitary(rng, size, n):
    """A matrix that is not unitary, sometimes only slightly so."""
    m, sf = random_unitary(rng, size, n, small=True)
    m = [[[list(t) for t in c] for c in r] for r in m]
    w = rng.randrange(10)
    if w == 9 and size > 1:                        # not square
        if rng.random() < 0.5:
            return [r[:-1] for r in m], sf
        return [r + [[]] for r in m], sf
    if w == 0:                                     # scaled as a whole
        num, den = rng.choice([(2, 1), (1, 2), (1000, 1001), (99, 100)])
        m = [[[[c * num, e] for c, e in cell] for cell in r] for r in m]
        d = {p: e for p, e in sf}
        for p in factors(den):
            d[p] = d.get(p, 0) + 2
        return m, [[p, e] for p, e in sorted(d.items())]
    if w == 1:                                     # a column lost
        j = rng.randrange(size)
        for r in m:
            r[j] = []
        return m, sf
    if w == 2 and size > 1:                        # a row twice
        i, j = rng.sample(range(size), 2)
        m[i] = [list(c) for c in m[j]]
        return m, sf
    if w == 3 and size > 1:                        # a column twice
        i, j = rng.sample(range(size), 2)
        for r in m:
            r[i] = list(r[j])
        return m, sf
    if w == 4:                                     # complex orthogonal, U U^T = 1
        if n % 4 == 0 and size > 1:
            m = ident(size)
            m = [[[[3 * c, e] for c, e in cell] for cell in r] for r in m]
            i, j = rng.sample(range(size), 2)
            m[i][i], m[j][j] = R(5), R(5)
            m[i][j], m[j][i] = [[4, n // 4]], [[-4, n // 4]]
            return m, [[3, 2]]
        m[0][0] = m[0][0] + [[1, 0]]
        return m, sf
    if w == 5:                                     # determinant one, not unitary
        m = ident(size)
        if size > 1:
            i, j = rng.sample(range(size), 2)
            m[i][j] = R(rng.choice([1, -1, 2]))
        else:
            m[0][0] = R(2)
        return m, []
    if w == 6:                                     # an extra entry
        i, j = rng.randrange(size), rng.randrange(size)
        m[i][j] = m[i][j] + [[1, 0]]
        return m, sf
    if w == 7:
        return [[[] for _ in range(size)] for _ in range(size)], []
    i = rng.randrange(size)                        # one row scaled
    m[i] = [[[2 * c, e] for c, e in cell] for cell in m[i]]
    return m, sf


def custom(rng, bad=None):
    """C05: custom gates, sometimes one that must be refused."""
    k = Circuit(rng, dims=wide_dims(rng, 300, 1, 6) if rng.random() < 0.8 else rng.choice([[9], [2, 11], [8, 3], [13]]),
                max_support=200)
    ev = [k.new] + (spread(k, rng, 2) if rng.random() < 0.7 else [])
    for _ in range(rng.randrange(1, 6)):
        ev.append(k.u() if rng.random() < 0.75 else k.gate())
    bad = rng.random() < 0.45 if bad is None else bad
    if bad:
        n = len(k.dims)
        for _ in range(20):
            lo, w = rng.randrange(n), rng.choice([1, 1, 2, 3])
            if lo + w <= n and k.span(range(lo, lo + w)) <= 24:
                break
        else:
            lo, w = 0, 1
        size = k.span(range(lo, lo + w))
        if size <= 24:
            x = rng.random()
            if x < 0.65:
                m, sf = not_unitary(rng, size, k.n)
            elif x < 0.78:                         # orthonormal rows, but not square
                m, sf = random_unitary(rng, size, k.n, small=True)
                m = [r + [[]] * rng.choice([1, size]) for r in m] if rng.random() < 0.7 else m[:-1]
                w_ = max(len(r) for r in m)
                m = [r + [[]] * (w_ - len(r)) for r in m]
            else:                                  # unitary, but of another size
                other = rng.choice([s for s in (1, 2, 3, 4, 6, 8, 9, 12, size + 1, size * 2) if s != size and s <= 24])
                m, sf = random_unitary(rng, other, k.n, small=True)
            e = {"e": "u", "c": "a", "qs": list(range(lo, lo + w)), "m": m, "sf": sf, "d": 0, "ref": "",
                 "real": rng.randrange(2)}
            if w == 1 and rng.random() < 0.6:
                e["form"] = "int"
            at = rng.randrange(1, len(ev) + 1)
            ev.insert(at, style(rng, e))
            if rng.random() < 0.4:           # all of one class
                for e in ev:
                    if e["e"] == "u":
                        e["cls"] = "Mine"
            ev += tail("a")
            return {"ev": ev}
    return {"ev": ev + tail("a")}


def there_and_back(rng):
    """C07: a circuit followed by its inverse."""
    k = Circuit(rng, max_support=250)
    gates = []
    while len(gates) < rng.randrange(1, 16):
        gates.append(k.gate({"x": 3, "h": 3, "z": 2, "cx": 4, "tof": 3}))
        if k.bits > 9:
            k.max_support = 0
    back = []
    for g in gates:
        if g["e"] in ("x", "cx", "tof"):
            u = dict(g, p=-g["p"])
            u.pop("np", None)
            back[:0] = [u]
        elif g["e"] == "h":
            back[:0] = [dict(g)] * 3
        else:
            back[:0] = [dict(g)] * (k.dims[g["q"]] - 1)
    return {"ev": [k.new] + gates + back + tail("a")}


def shown(rng):
    """C08: results with different shapes, in every form."""
    out = rng.choice(OUTS[1:])
    x = rng.random()
    if x < 0.35:
        dims = [rng.choice([2, 3, 4, 5, 6, 8, 10]) for _ in range(rng.randrange(1, 4))]
    elif x < 0.6:
        dims = [rng.choice([11, 12, 15, 20, 32])] + [rng.choice([2, 3])] * rng.randrange(0, 3)
        if rng.random() < 0.6:
            out = ("state", out[1], "own")
        rng.shuffle(dims)
    else:
        dims = wide_dims(rng, 700, 3, 10)
    k = Circuit(rng, dims=dims, out=out, max_support=600)
    ev = [k.new] + spread(k, rng, 4)
    for _ in range(rng.randrange(0, 5)):
        ev.append(k.gate({"z": 3, "u": 3, "x": 1, "cx": 1}))
    if rng.random() < 0.1:
        ev.append(view(rng, "a"))
    ev += tail("a")
    if rng.random() < 0.15:
        ev += [view(rng, "a"), {"e": "run", "c": "a"}]
    return {"ev": ev}


def faint(rng, wide=0.1):
    """C08: amplitudes that are small but not zero."""
    if rng.random() < wide:
        n = rng.choice([8, 9, 10])
        k = Circuit(rng, dims=[2] * n, n=4, out=rng.choice(OUTS[1:]), max_support=10 ** 6)
        ev = [k.new] + [{"e": "h", "c": "a", "q": q, "d": 0} for q in range(n)]
        ev += [{"e": "z", "c": "a", "q": rng.randrange(n), "d": 0}]
        return {"ev": ev + tail("a")}
    d = rng.choice([2, 3, 4])
    dims = [d, 2] if rng.random() < 0.5 else [2, d]
    phase = rng.random() < 0.5
    k = Circuit(rng, dims=dims, n=lcm(4 if phase else 2, d), out=rng.choice(OUTS[1:] + [OUTS[1], OUTS[2]] * 2),
                init=[rng.choice([0, x - 1]) for x in dims] if phase else None)
    ev = [k.new]
    q = dims.index(d)
    big = rng.choice([30, 100, 101, 1000, 1001, 9999, 20001, 30000])
    m, sf = (tiny_phase if phase else tiny_rotation)(d, k.n, big)
    ev.append({"e": "u", "c": "a", "qs": [q], "m": m, "sf": sf, "d": 0, "ref": "", "real": int(not phase)})
    return {"ev": ev + tail("a")}


def watched(rng):
    """C09: inspections of every kind anywhere in the life of a circuit."""
    k = Circuit(rng, dims=rng.choice([None, [2, 3], [3, 2, 4], [2, 2, 2], [5, 2]]) or random_dims(rng, 200, big=0), max_support=60)
    ev = [k.new]
    placed = 0
    for _ in range(rng.randrange(2, 14)):
        if rng.random() < 0.5:
            ev.append(k.gate())
            placed += 1
        else:
            ev.append(rng.choice([obs(rng, "a", placed > 0 and rng.random() < 0.3), {"e": "run", "c": "a"}]))
    if not placed:
        ev.append(k.gate())
    ev.append({"e": "meas", "c": "a"})
    for _ in range(rng.randrange(1, 7)):
        ev.append(rng.choice([obs(rng, "a", rng.random() < 0.4), {"e": "run", "c": "a"}, {"e": "run", "c": "a"},
                              k.gate(), {"e": "meas", "c": "a"}]))
    ev += [{"e": "run", "c": "a"}, {"e": "info", "c": "a"}, {"e": "peek", "c": "a"}]
    if rng.random() < 0.4:            # the same question after every step
        what, ev2 = rng.choice(["cfg", "info", "str", "show", "peek", "last"]), []
        for e in ev:
            ev2 += [e, {"e": what, "c": "a"}]
        ev = ev2
    return kept(rng, {"ev": ev})


def several(rng):
    """C10: two to four circuits sharing lists and output objects."""
    dims = [rng.choice([2, 2, 3, 4]) for _ in range(rng.randrange(2, 5))]
    n = 12
    ev = [{"e": "list", "l": "dims", "v": list(dims)}]
    ni = rng.randrange(0, len(dims) + 1)
    init = [rng.randrange(d) for d in dims[:ni]]
    ev.append({"e": "list", "l": "init", "v": list(init)})
    regs = rng.sample(range(len(dims)), 2)
    ev.append({"e": "list", "l": "regs", "v": list(regs)})
    tgt = rng.randrange(len(dims))
    ctl = [q for q in range(len(dims)) if q != tgt]
    rng.shuffle(ctl)
    ctl = ctl[:rng.randrange(1, len(ctl) + 1)]
    ev.append({"e": "list", "l": "ctl", "v": list(ctl)})
    lo = rng.randrange(len(dims))
    ev.append({"e": "list", "l": "qs", "v": [lo]})
    m, sf = random_unitary(rng, dims[lo], n, small=True)
    out = {"t": "print", "m": rng.choice(["amp", "prob"]), "o": "O1"}
    be = rng.choice(["numpy", "sparse", "default"])
    live, cs = {}, {}
    names = ["a", "b", "c", "d"][:rng.randrange(2, 5)]

    def make(name):
        k = Circuit(rng, name, dims=dims, n=n, be=be, max_support=40, init=init)
        k.new.update(qr="dims" if rng.random() < 0.7 else "", ir="init" if rng.random() < 0.7 else "",
                     out=dict(out, o=rng.choice(["O1", "O1", "own", "none"])))
        if k.new["out"]["o"] == "none":
            k.new["out"] = {"t": "print", "m": "amp", "o": "none"}
        if k.new["ir"]:
            k.new.pop("noinit", None)
        live[name], cs[name] = k, False
        return k.new

    changed = {"dims": False, "init": False}
    for _ in range(rng.randrange(8, 26)):
        fresh = [x for x in names if x not in live]
        x = rng.random()
        if fresh and (x < 0.3 or not live) and not any(changed.values()):
            if live and rng.random() < 0.25:
                of = rng.choice(list(live))
                k = copy.copy(live[of])
                k.c = fresh[0]
                live[fresh[0]], cs[fresh[0]] = k, False
                used = any(e["e"] == "u" for e in ev)
                ev.append({"e": "clone", "c": fresh[0], "of": of, "how": "deep" if used else rng.choice(["deep", "pickle"])})
            else:
                ev.append(make(fresh[0]))
            continue
        if not live:
            break
        name = rng.choice(list(live))
        k = live[name]
        if x < 0.55:
            y = rng.random()
            if y < 0.2:
                ev.append({"e": "cx", "c": name, "ct": [], "p": k.plus(2), "d": 0, "ref": "regs"})
            elif y < 0.4:
                ev.append({"e": "tof", "c": name, "cs": [], "t": tgt, "p": k.plus(3), "d": 0, "ref": "ctl"})
            elif y < 0.5:
                ev.append({"e": "u", "c": name, "qs": [], "m": m, "sf": sf, "d": 0, "ref": "qs", "real": 0})
                k.bits += 4
            else:
                ev.append(k.gate() if k.bits < 12 else k.gate({"x": 1, "cx": 1}))
        elif x < 0.65:
            ev.append({"e": "meas", "c": name})
        elif x < 0.75:
            ev.append({"e": "run", "c": name})
        elif x < 0.8:
            ev.append(obs(rng, name))
        elif x < 0.83:
            ev.append(view(rng, name))
        elif x < 0.86 and all(y in live for y in names):
            ev.append({"e": "set", "l": "dims", "i": rng.randrange(1, len(dims) + 1), "v": rng.choice([2, 5, 7])})
            changed["dims"] = True
        elif x < 0.9 and all(y in live for y in names) and init:
            ev.append({"e": "set", "l": "init", "i": rng.randrange(1, len(init) + 1), "v": 0})
            changed["init"] = True
        elif x < 0.94:
            regs = [regs[1], regs[0]]
            ev += [{"e": "set", "l": "regs", "i": 1, "v": regs[0]}, {"e": "set", "l": "regs", "i": 2, "v": regs[1]}]
        elif x < 0.97:
            o = [q for q in range(len(dims)) if q != tgt and q not in ctl]
            if o:
                i = rng.randrange(len(ctl))
                ctl[i] = rng.choice(o)
                ev.append({"e": "set", "l": "ctl", "i": i + 1, "v": ctl[i]})
        else:
            ev.append({"e": "look", "l": rng.choice(["dims", "init", "regs", "ctl", "qs"])})
    for name in live:
        ev += [{"e": "meas", "c": name}]
    for name in list(live) + list(live)[:1]:
        ev += [{"e": "run", "c": name}, {"e": "info", "c": name}]
    ev += [{"e": "look", "l": x} for x in ("dims", "init", "regs", "ctl", "qs")]
    return kept(rng, {"ev": ev})


def lifecycle(rng):
    """C11: measuring, placing and running in any order, over and over."""
    k = Circuit(rng, dims=random_dims(rng, 150, big=0), max_support=50)
    ev = [k.new]
    for _ in range(rng.randrange(3, 16)):
        x = rng.random()
        if x < 0.55:
            ev.append(k.gate())
        elif x < 0.7:
            ev.append({"e": "run", "c": "a"})
        elif x < 0.82:
            ev.append({"e": "meas", "c": "a"})
        else:
            ev.append(obs(rng, "a"))
    return {"ev": ev + [{"e": "run", "c": "a"}, {"e": "meas", "c": "a"}, k.gate(), {"e": "run", "c": "a"},
                        {"e": "info", "c": "a"}, {"e": "cfg", "c": "a"}, {"e": "peek", "c": "a"}]}


def bad_request(rng, k):
    n, dims, c = len(k.dims), k.dims, k.c
    off = rng.choice([-1, -2, -n, -n - 1, n, n + 1, n + 7, -10 ** 5, 10 ** 5])
    q = rng.randrange(n)
    w = rng.randrange(8)
    if w == 0:
        return {"e": rng.choice(["h", "z"]), "c": c, "q": off, "d": 0}
    if w == 1:
        return {"e": "x", "c": c, "q": off, "p": k.plus(3), "d": 0}
    if w == 2:
        d = rng.choice([d for d in (1, 2, 3, 4, 5, 7, dims[q] + 1, dims[q] - 1, -dims[q]) if d and d != dims[q]])
        e = {"e": rng.choice(["h", "z", "x"]), "c": c, "q": q, "d": d}
        if e["e"] == "x":
            e["p"] = 1
        return e
    if w == 3:
        ct = rng.choice([[off, q], [q, off], [q, q], [off, off]])
        return {"e": "cx", "c": c, "ct": ct, "p": 1, "d": 0, "ref": "", "form": rng.choice(["list", "tuple"])}
    if w == 4:
        others = [r for r in range(n) if r != q]
        rng.shuffle(others)
        cs = others[:rng.randrange(0, len(others) + 1)]
        cs.insert(rng.randrange(len(cs) + 1), rng.choice([off, q]))
        return {"e": "tof", "c": c, "cs": cs, "t": q, "p": 1, "d": 0, "ref": ""}
    if w == 5:
        cs = [r for r in range(n)]
        rng.shuffle(cs)
        return {"e": "tof", "c": c, "cs": cs[:rng.randrange(1, n + 1)], "t": off, "p": 1, "d": 0, "ref": ""}
    if w == 6:
        m, sf = random_unitary(rng, dims[q], 1, small=True)
        return {"e": "u", "c": c, "qs": [off], "m": m, "sf": sf, "d": 0, "ref": "", "form": rng.choice(["int", "list"]), "real": 1}
    if n >= 3 and rng.random() < 0.7:
        qs = sorted(rng.sample(range(n), rng.randrange(2, n)))
        if qs == list(range(qs[0], qs[-1] + 1)):
            qs = [0, 2]
    else:
        qs = [n - 1, n]
    size = math.prod(dims[r] for r in qs if r < n) * (2 if n in qs else 1)
    if size > 40:
        return {"e": "h", "c": c, "q": off, "d": 0}
    m, sf = random_unitary(rng, size, 1, small=True)
    return {"e": "u", "c": c, "qs": qs, "m": m, "sf": sf, "d": 0, "ref": "", "real": 1}


def bad_new(rng):
    e = {"e": "new", "c": "z", "form": "list", "q": [], "qr": "", "init": [], "ir": "", "n": 1,
         "out": {"t": "print", "m": "amp", "o": "none"}, "be": rng.choice(["numpy", "sparse", "default"])}
    dims = [rng.randrange(2, 5) for _ in range(rng.randrange(1, 6))]
    w = rng.randrange(5)
    if w == 0:
        e.update(form="bad", bad=rng.choice(["int", "none", "str", "set", "float", "range", "dict"]))
    elif w == 1:
        dims[rng.randrange(len(dims))] = rng.choice([1, 0, -1, -2, -3])
        e["q"] = dims
    elif w == 2:
        e.update(form="tuple", q=[rng.randrange(1, 5), rng.choice([1, 0, -1, -4])])
    elif w == 3:
        e["q"] = dims
        init = [rng.randrange(d) for d in dims]
        i = rng.randrange(len(dims))
        init[i] = rng.choice([dims[i], dims[i] + 1, -1, -dims[i], 99])
        e["init"] = init[:rng.randrange(i + 1, len(dims) + 1)]
    else:
        e["q"] = dims
        e["init"] = [0] * (len(dims) + rng.randrange(1, 3))
    return e


def refused(rng):
    """C12: ill-formed requests and constructions between good ones."""
    k = Circuit(rng, dims=random_dims(rng, 200, big=0), max_support=60)
    ev = [bad_new(rng) for _ in range(rng.randrange(0, 3))] + [k.new]
    for _ in range(rng.randrange(2, 12)):
        x = rng.random()
        ev.append(bad_request(rng, k) if x < 0.5 else k.gate() if x < 0.9 else bad_new(rng))
    return {"ev": ev + [{"e": "cfg", "c": "a"}, {"e": "meas", "c": "a"}, {"e": "run", "c": "a"},
                        {"e": "info", "c": "a"}, {"e": "peek", "c": "a"}]}


def declared(rng):
    """C13: the two forms of a declaration, side by side."""
    d = rng.choice([2, 2, 3, 3, 4, 5, 7, 9, 10, 11, 16])
    m = rng.randrange(1, 6)
    while d ** m > 1200:
        m -= 1
    if d == 2 and rng.random() < 0.3:
        m = rng.randrange(6, 12)
    if d == 3 and rng.random() < 0.2:
        m = 7
    k = Circuit(rng, "a", dims=[d] * m, tuple_form=True, max_support=64, max_span=512 if d ** m < 1200 else 32)
    if d ** m > 1200:
        k.new["be"] = rng.choice(["sparse", "default"])
    other = dict(k.new, c="b", form="list", q=[d] * m)
    ev = [k.new, other]
    for _ in range(rng.randrange(0, 6)):
        g = k.gate()
        ev += [g, dict(g, c="b")]
    for c in "ab":
        ev += [{"e": "peek", "c": c}] + tail(c) + [{"e": x, "c": c} for x in (["cfg", "info", "str"] if d < 10 else ["cfg", "info"])]
    return {"ev": ev}


def declared_sizes(rng, limit):
    """C13: every tuple up to a size, in its highest levels, next to the same list."""
    out = []
    for m in range(1, 12):
        for d in range(2, limit + 1):
            if d ** m > (limit if m > 1 else 300):
                break
            if m < 3 and rng.random() > 0.25:
                continue
            k = Circuit(rng, "a", dims=[d] * m, n=1, tuple_form=True, init=[d - 1] * m if rng.random() < 0.7 else None)
            k.new["be"] = rng.choice(["sparse", "default"])
            other = dict(k.new, c="b", form="list", q=[d] * m)
            out.append({"ev": [k.new, other] + [e for c in "ab" for e in tail(c) + [{"e": "cfg", "c": c}]]})
    return out


def declared_list(rng):
    """C13: lists with any dimensions and partial initial states, unchanged."""
    dims = [rng.choice([2, 3, 4, 5, 6, 9]) for _ in range(rng.randrange(1, 12))]
    while math.prod(dims) > 4000:
        dims.pop()
    k = Circuit(rng, "a", dims=dims, n=1)
    return {"ev": [k.new] + tail("a") + [{"e": x, "c": "a"} for x in ("str", "cfg", "info", "peek")]}


def layered(rng):
    """C14: layers after every placement."""
    dims = [rng.choice([2, 2, 3]) for _ in range(rng.randrange(2, 8))]
    k = Circuit(rng, dims=dims, max_support=30, max_span=250)
    ev = [k.new]
    for _ in range(rng.randrange(3, 30)):
        ev.append(k.gate({"x": 5, "h": 3, "z": 3, "cx": 3, "tof": 2, "u": 2}))
        if rng.random() < 0.3:
            ev.append({"e": rng.choice(["peek", "cfg", "info"]), "c": "a"})
    ev += [{"e": x, "c": "a"} for x in ("peek", "cfg", "info", "meas", "peek", "cfg", "info")]
    return {"ev": ev}


def roomy(rng, what):
    """C11, C12, C14, C15: many registers or many gates.  (The spec is not asked to run these.)"""
    if rng.random() < 0.6:
        dims, most = [rng.choice([2, 2, 3, 4]) for _ in range(rng.randrange(9, 70))], 30
    else:
        dims, most = [rng.choice([2, 3, 3, 5]) for _ in range(rng.randrange(1, 4))], 320
    k = Circuit(rng, dims=dims, n=1, out=("print", "amp", "own"), max_span=100)
    k.new["n"] = 0
    k.hdims, k.bits, k.max_support = set(dims), -10 ** 9, 10 ** 12
    k.total = 1
    ev = [k.new]
    kinds = rng.sample(["x", "h", "z", "cx", "tof", "u"], rng.randrange(1, 7))
    for _ in range(rng.randrange(most // 3, most)):
        ev.append(k.gate({w: 1 for w in kinds}))
        if rng.random() < 3 / most:
            ev.append({"e": rng.choice(["peek", "cfg", "info", "str"]), "c": "a"})
        if rng.random() < (0.3 if what == "refused" else 0.01):
            ev.append(bad_request(rng, k))
    ev += [{"e": x, "c": "a"} for x in ("info", "cfg", "meas", "info")]
    for _ in range(3):
        ev.append(rng.choice([k.gate, lambda: {"e": "meas", "c": "a"}, lambda: k.x(rng.randrange(len(dims)))])())
    for e in ev:
        if e["e"] == "u":
            e["real"] = 1
    return {"ev": ev + [{"e": x, "c": "a"} for x in ("info", "cfg", "peek")]}


def counted(rng):
    """C15: statistics at any time, with refused and merged placements."""
    k = Circuit(rng, dims=random_dims(rng, 200, big=0), max_support=30)
    ev = [k.new]
    kinds = rng.sample(["x", "h", "z", "cx", "tof", "u"], rng.randrange(1, 7))
    for _ in range(rng.randrange(0, 25)):
        x = rng.random()
        if x < 0.75:
            ev.append(k.gate({w: 1 for w in kinds}))
        elif x < 0.85:
            ev.append(bad_request(rng, k))
        else:
            ev.append({"e": "info", "c": "a"})
    return {"ev": ev + [{"e": "info", "c": "a"}, {"e": "meas", "c": "a"}, k.gate(), {"e": "info", "c": "a"}, {"e": "cfg", "c": "a"}]}


def drawable(rng, text):
    if text:
        dims = [rng.choice([2, 2, 3, 4, 9]) for _ in range(rng.randrange(1, 9) if rng.random() < 0.85 else rng.randrange(10, 14))]
        if rng.random() < 0.1:
            dims[rng.randrange(len(dims))] = rng.choice([10, 11, 12, 16, 30, 100])
    else:
        dims = [rng.choice([2, 2, 2, 3, 4, 10]) for _ in range(rng.randrange(1, 8) if rng.random() < 0.9 else rng.randrange(10, 13))]
    k = Circuit(rng, dims=dims, n=1, out=("state", "amp", "own"), max_span=5000)
    k.new["n"] = 0
    k.hdims = set(dims)
    k.bits = -10 ** 9
    k.max_support = 10 ** 12
    k.plus = (lambda d: rng.choice([1, 1, 2, -1, -9, 9, 10, 37, 99, rng.randrange(-9, 100), rng.randrange(-99, 1000), 0])) if text else (
        lambda d: rng.choice([1, 1, 2, -1, -3, 7, 12, rng.randrange(-200, 200), rng.randrange(-2000, 5000), 0]))
    return k


def drawing(rng, text, hi=14):
    """C19, C20: pictures.  (The spec is not asked to run these.)"""
    k = drawable(rng, text)
    show = "str" if text else "mpl"
    ev = [k.new]
    for _ in range(rng.randrange(1, hi)):
        w = rng.choices(["x", "h", "z", "cx", "tof", "u"], [4, 3, 3, 5, 4, 2])[0]
        n = len(k.dims)
        q = rng.randrange(n)
        if w in "hz":
            ev.append({"e": w, "c": "a", "q": q, "d": 0})
        elif w == "x":
            ev.append({"e": "x", "c": "a", "q": q, "p": k.plus(0), "d": 0})
        elif w == "u":
            e = k.u()
            ev.append(e)
        elif n > 1:
            regs = rng.sample(range(n), 2 if w == "cx" else rng.randrange(2, min(n, 5) + 1))
            if w == "cx":
                ev.append({"e": "cx", "c": "a", "ct": regs, "p": k.plus(0), "d": 0, "ref": ""})
            elif k.span(regs) <= 600:
                ev.append({"e": "tof", "c": "a", "cs": regs[:-1], "t": regs[-1], "p": k.plus(0), "d": 0, "ref": ""})
        if len(ev) > 1 and rng.random() < (0.1 if text else 0.04):
            ev.append({"e": show, "c": "a"})
    if len(ev) < 2:
        ev.append({"e": "x", "c": "a", "q": 0, "p": 1, "d": 0})
    for e in ev:
        if e["e"] == "u":
            e["real"] = 1
    if rng.random() < 0.5:
        ev.append({"e": show, "c": "a"})
    ev += [{"e": "meas", "c": "a"}, {"e": show, "c": "a"}]
    for e in ev:
        if e["e"] == "mpl" and rng.random() < 0.3:
            e["compress"] = rng.choice([2, 3, 0.5])
        elif e["e"] == "str" and rng.random() < 0.3:
            e["e"] = "show"
    return {"ev": ev}


# ---------------------------------------------------------------------------
# QASM documents

def casing(rng, w):
    x = rng.random()
    if x < 0.4:
        return w
    if x < 0.7:
        return w.lower()
    return "".join(rng.choice([a.lower(), a.upper()]) for a in w)


def comment(rng):
    return rng.choice(["", "", "", "", " # X x0", "# note", "  # CX x0 x1 2", " # 180", " #", " ", "\t", " # Toffoli x0 x1 x2"])


def gate_line(rng, g, qs, p):
    w = {"X": "X", "RX": "RX", "H": "H", "Z": "Z", "CX": rng.choice(["CX", "CNOT"]), "Toffoli": "Toffoli"}[g]
    tof = g == "Toffoli"
    return {"k": "gate", "g": g, "w": w if tof else casing(rng, w), "qs": qs,
            "px": ["x"] * len(qs) if tof else [rng.choice(["x", "x", "X", ""]) if rng.random() < 0.5 else "x" for _ in qs],
            "p": p, "sep": rng.choice([" ", " ", ", ", ",", "  ", " , "]),
            "ind": rng.choice(["", "", "", " ", "    ", "\t"]), "cm": comment(rng)}


def note(rng):
    return {"k": "note", "t": rng.choice(["", "", "   ", "# X x0", "  # .begin", "# qudit x0 (9)", "#", "# Toffoli x0 x1 x2"])}


def document(rng, tofs=0.15, bad=0.0):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 7]) if rng.random() < 0.9 else 11
    decls, dims, t = [], [], 1
    while len(decls) < n:
        kind = rng.choice(["qubit", "qutrit", "qudit"])
        d = {"qubit": 2, "qutrit": 3}.get(kind) or rng.choice([2, 2, 3, 4, 5, 6, 10])
        if t * d > (300 if n < 10 else 2100) and n < 10:
            break
        if n >= 10:
            kind, d = rng.choice([("qubit", 2), ("qudit", 2)])
        t *= d
        dims.append(d)
        decls.append({"k": "decl", "kind": kind, "i": len(decls), "d": d,
                      "ind": rng.choice(["", "", "  ", "\t"]), "cm": comment(rng)})
    n = len(dims)
    body, mids, budget = [], set(), 1
    heavy = rng.random() < 0.5
    for _ in range(rng.randrange(0, 14 if n < 9 else 7)):
        w = rng.choices(["X", "RX", "H", "Z", "CX", "Toffoli"], [4, 2, 2, 2, 4, 30 * tofs if heavy else 0])[0]
        if w == "Toffoli" and n < 3 or w == "CX" and n < 2:
            continue
        if w == "Toffoli":
            qs = rng.sample(range(n), 3) if n < 9 else rng.sample(range(6, n), 3)
            if math.prod(dims[min(qs):max(qs) + 1]) > 200 or len(mids | {qs[1]}) > 3:
                continue
            mids.add(qs[1])
        elif w == "CX":
            qs = rng.sample(range(n), 2)
        else:
            qs = [rng.randrange(n)]
        if n > 9 and w != "Toffoli" and rng.random() < 0.5:
            qs[rng.randrange(len(qs))] = n - 1
            if len(qs) > 1 and qs[0] == qs[1]:
                continue
        p = []
        if w == "X" and rng.random() < 0.4 or w == "CX" and rng.random() < 0.5:
            p = [rng.choice([1, 2, 3, -1, -2, 7, -12, 0, 100])]
        body.append([w, qs, p])
    if rng.random() < bad and body:
        w, qs, p = rng.choice(body)
        if w != "Toffoli":
            qs[rng.randrange(len(qs))] = n + rng.randrange(3)
    dims = [d + (i in mids) for i, d in enumerate(dims)]
    order, N, sup = {2, 3, 4, 5, 6, 7, 11, 10}, 1, 1
    keep = []
    for w, qs, p in body:                       # keep the states small
        if w in "HZ" and qs[0] < n:
            m = lcm(N, dims[qs[0]])
            if m > 60 or (w == "H" and sup * dims[qs[0]] > 200):
                continue
            N = m
            sup *= dims[qs[0]] if w == "H" else 1
        keep.append((w, qs, p))
    kw = rng.choice(["qubit", "qutrit", "qudit"])
    doc = [{"k": "note", "t": rng.choice(["# title", "", "# by X x0", "  # made up"])} for _ in range(rng.randrange(1, 4))]
    doc.append({"k": "size", "kw": kw, "n": n})
    for d in decls:
        if rng.random() < 0.15:
            doc.append(note(rng))
        doc.append(d)
    doc.append({"k": "begin"})
    for w, qs, p in keep:
        while rng.random() < 0.15:
            doc.append(note(rng))
        doc.append(gate_line(rng, w, qs, p))
    doc.append({"k": "end"})
    if rng.random() < 0.3:
        doc.append(note(rng))
    return doc, N, math.prod(dims)


LINE = [("decl", r"(\s*)(qubit|qutrit|qudit) x(\d+)(?: \((\d+)\))?(\s*(?:#.*)?)$"),
        ("gate", r"(\s*)(X|RX|H|Z|CX|CNOT|Toffoli) +([xX]?\d+(?:[ ,]+[xX]?-?\d+)*)(\s*(?:#.*)?)$"),
        ("size", r"\.(qubit|qutrit|qudit) (\d+)$"), ("begin", r"\.begin\s*$"), ("end", r"\.end\s*$"),
        ("note", r"(\s*(?:#.*)?)$")]


def read_document(text):
    """The lines of a circuit file as records, None if one is not of the dialect."""
    doc = []
    for line in text.rstrip("\n").split("\n"):
        for k, rx in LINE:
            m = re.match(rx, line, re.I if k == "gate" else 0)
            if m:
                break
        else:
            return None
        g = m.groups()
        if k == "decl":
            if (g[1] == "qudit") != (g[3] is not None):
                return None
            doc.append({"k": k, "kind": g[1], "i": int(g[2]), "d": int(g[3] or {"qubit": 2, "qutrit": 3}[g[1]]),
                        "ind": g[0], "cm": g[4]})
        elif k == "gate":
            w = g[1].upper()
            kind = {"CNOT": "CX", "TOFFOLI": "Toffoli"}.get(w, w)
            seps = re.findall(r"[ ,]+", g[2])
            ops = re.split(r"[ ,]+", g[2])
            nq = {"CX": 2, "Toffoli": 3}.get(kind, 1)
            rest = ops[nq:]
            if kind == "RX":
                if rest != ["180"]:
                    return None
                rest = []
            if len(ops) < nq or len(rest) > (kind in ("X", "CX")) or len(set(seps)) > 1 or kind == "Toffoli" and g[1] != kind:
                return None
            doc.append({"k": k, "g": kind, "w": g[1], "qs": [int(o.lstrip("xX")) for o in ops[:nq]],
                        "px": [o[:1] if o[0] in "xX" else "" for o in ops[:nq]], "p": [int(o) for o in rest],
                        "sep": seps[0] if seps else " ", "ind": g[0], "cm": g[3]})
        elif k == "size":
            doc.append({"k": k, "kw": g[0], "n": int(g[1])})
        elif k == "note":
            doc.append({"k": k, "t": g[0]})
        else:
            doc.append({"k": k})
    return doc


def library(rng, repo, large):
    """C16, C17: the circuit files that come with the library, as they are and on other inputs."""
    out = []
    for root, dirs, files in os.walk(os.path.join(repo, "testbench")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith((".txt", ".qasm")):
                continue
            path = os.path.join(root, f)
            if os.path.getsize(path) > 10000:
                continue
            try:
                doc = read_document(open(path).read())
            except UnicodeDecodeError:
                continue
            if not doc:
                continue
            dims = [l["d"] for l in doc if l["k"] == "decl"]
            gates = [l for l in doc if l["k"] == "gate"]
            mids = {l["qs"][1] for l in gates if l["g"] == "Toffoli"}
            dims = [d + (i in mids) for i, d in enumerate(dims)]
            if len(dims) > (9 if large else 7) or len(gates) > (250 if large else 120) or math.prod(dims) > 3000:
                continue
            n = lcm(1, *[dims[l["qs"][0]] for l in gates if l["g"] in "HZ"])
            looks = ["run", "peek", "info", "cfg"]
            if n > 60 or sum(math.log2(dims[l["qs"][0]]) / 2 for l in gates if l["g"] == "H") > 20:
                continue
            at = next(i for i, l in enumerate(doc) if l["k"] == "begin") + 1
            for j in range(4 if large else 2):
                mine = list(doc)
                if j:
                    mine[at:at] = [{"k": "gate", "g": "X", "w": "X", "qs": [q], "px": ["x"], "p": [rng.randrange(1, d)],
                                    "sep": " ", "ind": "", "cm": ""} for q, d in enumerate(dims) if rng.random() < 0.7]
                ev = [{"e": "line", "l": l} for l in mine]
                ev.append({"e": "qasm", "c": "a", "n": n, "via": "text" if j else "repo", "path": os.path.relpath(path, repo),
                           "be": rng.choice(["numpy", "sparse", "default"]) if math.prod(dims) < 500 else "sparse"})
                out.append({"ev": ev + [{"e": x, "c": "a"} for x in looks]})
    return out


def parsed(rng, tofs=0.15, bad=0.06):
    """C16, C17: one or two documents parsed, run and looked at."""
    ev = []
    for c in "ab"[:rng.choice([1, 1, 1, 2])]:
        doc, n, total = document(rng, tofs, bad)
        be = rng.choice(["numpy", "sparse", "default", "spy"] if total <= 700 else ["sparse", "default"])
        broken = any(q >= sum(l["k"] == "decl" for l in doc) for l in doc if l["k"] == "gate" for q in l["qs"])
        ev += [{"e": "blank"}] + [{"e": "line", "l": l} for l in doc]
        ev.append({"e": "qasm", "c": c, "n": n, "be": be, "via": rng.choice(["text", "file"])})
        if not broken:
            ev += [{"e": x, "c": c} for x in ["peek", "run", "info", "cfg", "str"]]
            if rng.random() < 0.2:
                ev += [{"e": "x", "c": c, "q": 0, "p": 1, "d": 0}, {"e": "run", "c": c}]
    return {"ev": ev}


# ---------------------------------------------------------------------------
# operator flows

def as_op(e):
    k = {"x": "X", "h": "H", "z": "Z", "cx": "CX", "tof": "T", "u": "U"}[e["e"]]
    keep = {"X": ("q", "p"), "H": ("q",), "Z": ("q",), "CX": ("ct", "p"), "T": ("cs", "t", "p"),
            "U": ("qs", "m", "sf")}[k]
    return {"k": k, **{f: e[f] for f in keep}}


def regs_of(o):
    k = o["k"]
    rs = {"CX": lambda: o["ct"], "T": lambda: o["cs"] + [o["t"]], "U": lambda: o["qs"]}.get(k, lambda: [o["q"]])()
    return min(rs), max(rs)


def flows(rng):
    """C21: layers of any number of gates, shared by up to three flows."""
    k = Circuit(rng, dims=random_dims(rng, total=120), max_support=120, out=("state", "amp", "own"))
    n = len(k.dims)
    base = {"dims": k.dims, "n": k.n}
    ev, bits, names = [], {}, []

    def moment(name, ops):
        ev.append({"e": "moment", "m": name, **base, "ops": ops})
        bits.setdefault(name, 0.0)

    inits = []
    for j in range(rng.randrange(1, 3)):
        moment(f"i{j}", [{"k": "S", "q": q, "s": rng.randrange(d)} for q, d in enumerate(k.dims)])
        inits.append(f"i{j}")
    moment("M", [{"k": "M", "q": q} for q in range(n)])
    for j in range(rng.randrange(2, 9)):
        k.support, k.bits = 1, 0.0
        layer, want = {}, rng.choice([0, 1, 1, 1, 2, 2, 3, n, n])
        for _ in range(3 * want):
            if len(layer) >= want:
                break
            before = k.bits
            o = as_op(k.gate({"x": 5, "h": 3, "z": 3, "cx": 3, "tof": 1, "u": 2} if rng.random() < 0.7 else
                             {"x": 3, "h": 2, "z": 2}))
            lo, hi = regs_of(o)
            if any(not (hi < a or b < lo) for a, b in layer) or k.bits > 8:
                k.bits = before
                continue
            layer[(lo, hi)] = o
        ops = [layer[s] for s in layer]
        for q in range(n):
            if not any(a <= q <= b for a, b in layer):
                ops.append({"k": "I", "q": q})
        ops.sort(key=lambda o: regs_of(o)[0])
        moment(f"m{j}", ops)
        bits[f"m{j}"] = k.bits
        names.append(f"m{j}")
    most = 0.0
    for j in range(rng.randrange(1, 4)):
        f, todo, b = f"f{j}", [rng.choice(inits)], 0.0
        order = list(names) if rng.random() < 0.5 else [rng.choice(names) for _ in range(rng.randrange(1, 8))]
        for m in order:
            if b + bits[m] <= 18:
                b += bits[m]
                todo.append(m)
        most = max(most, b)
        if rng.random() < 0.95:
            todo.append("M")
            todo += [rng.choice(names) for _ in range(rng.choice([0, 0, 1, 2]))]
        first = rng.choice([0, 0, 1, rng.randrange(len(todo) + 1)])
        mine = [{"e": "flow", "f": f, "ms": todo[:first]}]
        at = first
        while at < len(todo):
            step = rng.choice([1, 1, 2, 3, len(todo)])
            mine.append({"e": "push", "f": f, "ms": todo[at:at + step]})
            at += step
            if rng.random() < 0.15:
                mine.append({"e": "exec", "f": f})
        mine.append({"e": "exec", "f": f})
        ev_all = mine if j == 0 else merge(rng, ev_all, mine)
    return {"ev": ev + ev_all + [{"e": "exec", "f": "f0"}], "kind": "flow", "share": rng.randrange(2),
            "be": rng.choice(["numpy", "sparse", "default"]), "inv": most <= 8 and rng.random() < 0.3}


def moments(rng):
    """C26: Moments filled, copied, pushed and asked."""
    case = flows(rng)
    made = [e for e in case["ev"] if e["e"] == "moment" and e["ops"][0]["k"] not in "SM"]
    init = next(e for e in case["ev"] if e["e"] == "moment" and e["ops"][0]["k"] == "S")
    meas = next(e for e in case["ev"] if e["e"] == "moment" and e["ops"][0]["k"] == "M")
    dims = init["dims"]
    rng.shuffle(made)
    made = made[:rng.randrange(1, 4)]
    ev = [init, meas] + made + [{"e": "flow", "f": "f", "ms": [init["m"]]}]
    open_, names = [m["m"] for m in made], [m["m"] for m in made] + [meas["m"]]
    bits = 0.0
    for _ in range(rng.randrange(3, 14)):
        r, m = rng.random(), rng.choice(names)
        q = rng.randrange(len(dims))
        if r < 0.35 and open_:
            o = {"k": rng.choice("XXHZ"), "q": q}
            if o["k"] == "X":
                o["p"] = rng.randrange(-5, 6)
            if o["k"] == "H" and bits > 6:
                o = {"k": "Z", "q": q}
            bits += o["k"] == "H"
            ev.append({"e": "fill", "m": rng.choice(open_ + [meas["m"]]), "op": o})
        elif r < 0.45:
            new = f"c{len(names)}"
            ev.append({"e": "dup", "m": m, "to": new})
            names.append(new)
            if m in open_:
                open_.append(new)
        elif r < 0.55 and open_ and bits < 6:
            m = rng.choice(open_)
            open_.remove(m)
            bits += 3
            ev.append({"e": "push", "f": "f", "ms": [m]})
        elif r < 0.7:
            ev.append({"e": "idle", "m": m, "q": q})
        elif r < 0.9:
            q = rng.randrange(len(dims) + 1)
            ev.append({"e": "at", "m": m, "q": q, "ix": rng.random() < 0.5})
        elif r < 0.95 and m in open_ and math.prod(dims) <= 30:
            ev.append({"e": "mat", "m": m})
        else:
            ev.append({"e": "ops", "m": m})
    ev += [{"e": "ops", "m": m} for m in names]
    if math.prod(dims) <= 30:
        ev += [{"e": "mat", "m": m} for m in names if m not in (meas["m"],) and not m.startswith("c")][:2]
    ev += [{"e": "push", "f": "f", "ms": [meas["m"]]}, {"e": "exec", "f": "f"}] + [{"e": "ops", "m": m} for m in names]
    return {"ev": ev, "kind": "flow", "share": 0, "be": case["be"], "inv": False}


def merge(rng, a, b):
    a, b, out = list(a), list(b), []
    while a or b:
        src = a if a and (not b or rng.random() < len(a) / (len(a) + len(b))) else b
        out.append(src.pop(0))
    return out


# ---------------------------------------------------------------------------
# directories for the batch runner

STEMS = ["a", "b b", "sub/a", "sub/deep/c.d", "x-y", "[z]", "q[/w]", "sub/numpy", "a-sparse", "d.txt/e", "UP", "\u00e9"]


def batches(rng):
    """C23: a directory tree over time."""
    ev, files = [], {}
    cuda = rng.random() < 0.2

    def write():
        stem = rng.choice(STEMS)
        ext = rng.choice(["txt", "txt", "txt", "qasm"])
        x = rng.random()
        if x < 0.1:
            doc, n = [], 0
        else:
            while True:
                doc, n, total = document(rng, 0.1, 0.2)
                if total <= 300:
                    break
            if x < 0.2:          # an increment that is no number
                at = [i for i, l in enumerate(doc) if l["k"] == "gate" and l["g"] == "CX"]
                if at:
                    doc[rng.choice(at)]["qs"] = [0, 0]
        files[(stem, ext)] = 1
        ev.append({"e": "write", "stem": stem, "ext": ext, "doc": doc, "n": n})

    for _ in range(rng.randrange(1, 6)):
        write()
    for _ in range(rng.randrange(1, 5)):
        for _ in range(rng.randrange(0, 2)):
            write()
        if len(files) > 1 and rng.random() < 0.3:
            k = rng.choice(sorted(files))
            del files[k]
            ev.append({"e": "del", "stem": k[0], "ext": k[1]})
        b = rng.choice(["numpy", "sparse", "cuda", "sparse-cuda"] if cuda else ["numpy", "sparse"])
        ev.append({"e": "batch", "m": rng.choice(["txt", "txt", "qasm"]), "b": b})
        if rng.random() < 0.25:
            ev.append({"e": "records"})
    ev.append({"e": "records"})
    return {"ev": ev, "kind": "batch", "arg": rng.randrange(4), "fresh": int(rng.random() < 0.15),
            "dir": rng.choice(["work", "work", "a.b", "in [x]", "[/o]", "x y"])}


def shelf(rng):
    """C24: gate objects asked in any order."""
    k = Circuit(rng, dims=random_dims(rng, total=120, big=0.25), max_support=10 ** 9, max_span=72, out=("state", "amp", "own"))
    ev, held, sort, seen = [], [], {}, set()
    for j in range(rng.randrange(1, 9)):
        k.support, k.bits = 1, 0.0
        q = rng.randrange(len(k.dims))
        x = rng.random()
        if x < 0.08:
            op = {"k": "I", "q": q}
        elif x < 0.16:
            op = {"k": "S", "q": q, "s": rng.choice([0, k.dims[q] - 1, rng.randrange(k.dims[q])])}
        elif x < 0.2:
            op = {"k": "M", "q": q}
        elif x < 0.28:
            size = k.dims[q]
            m, sf = (not_unitary(rng, size, k.n) if rng.random() < 0.6 or size > 8 else
                     random_unitary(rng, rng.choice([2 * size, 3 * size, size + 1, max(1, size - 1)]), k.n, small=True))
            op = {"k": "U", "qs": [q], "m": m, "sf": sf}
        else:
            op = as_op(k.gate())
        g = f"g{j}"
        e = {"e": "make", "g": g, "dims": k.dims, "n": k.n, "op": op}
        if rng.random() < 0.3:
            e["be"] = rng.choice(["numpy", "sparse", "default"])
        ev.append(e)
        held.append(g)
        sort[g] = "bad" if op["k"] == "U" and x < 0.28 else op["k"]
        for _ in range(rng.randrange(0, 5)):
            a = rng.choice(held)
            w = "unitary" if sort[a] == "S" or rng.random() < 0.6 else rng.choice(["acting_on", "is_controlled", "is_single_qudit"])
            ev.append({"e": "ask", "g": a, "w": w})
            if w == "unitary":
                seen.add(a)
                if rng.random() < 0.15 and sort[a] not in ("S", "M", "bad"):
                    ev.append({"e": "smear", "g": a})
        if len(held) > 2 and rng.random() < 0.15:
            ev.append({"e": "drop", "g": held.pop(rng.randrange(len(held)))})
    ev += [{"e": "ask", "g": g, "w": "unitary"} for g in held]
    return {"kind": "gates", "ev": ev}


# ---------------------------------------------------------------------------
# overlapping calls

def overlapping(rng):
    """C25: two or three threads with a circuit each, or sharing a measured one."""
    dims = [rng.choice([2, 2, 3, 4]) for _ in range(rng.randrange(1, 4))]
    n = lcm(4, *dims)
    init = [rng.randrange(d) for d in dims]
    first = [{"e": "list", "l": "dims", "v": list(dims)}, {"e": "list", "l": "init", "v": list(init)}]
    be = rng.choice(["numpy", "sparse", "default"])
    k = rng.choice([2, 2, 2, 3])
    threads, after = [], []
    if rng.random() < 0.2:           # all look at one measured circuit
        c = Circuit(rng, "a", dims=dims, n=n, be=be, max_support=40, init=init)
        first += [c.new] + [plain(c.gate()) for _ in range(rng.randrange(0, 5))] + [{"e": "meas", "c": "a"}]
        for _ in range(k):
            threads.append([{"e": rng.choice(["run", "run", "run", "cfg", "info", "str", "peek"]), "c": "a"}
                            for _ in range(rng.randrange(1, 5))])
        after = [{"e": x, "c": "a"} for x in ("run", "info", "peek")]
    else:
        same = rng.random() < 0.5    # registers and lists
        for name in "abc"[:k]:
            c = Circuit(rng, name, dims=dims if same else None, n=n if same else None, be=be, max_support=40, init=init if same else None)
            while not same and math.prod(c.dims) > 150:
                c = Circuit(rng, name, be=be, max_support=40)
            if same:
                c.new.update(qr="dims", ir="init", out={"t": "print", "m": "amp", "o": rng.choice(["O1", "none"])})
                c.new.pop("noinit", None)
            mine = [c.new]
            for _ in range(rng.randrange(1, 7)):
                mine.append(plain(c.gate()) if rng.random() < 0.7 else {"e": rng.choice(["cfg", "info", "str", "peek"]), "c": name})
            if rng.random() < 0.7:
                mine += [{"e": "meas", "c": name}, {"e": "run", "c": name}]
                if rng.random() < 0.5:
                    mine.append({"e": rng.choice(["run", "info", "str"]), "c": name})
            else:
                after.append({"e": "meas", "c": name})
            if rng.random() < 0.4:   # only the last calls overlap
                cut = rng.randrange(1, len(mine))
                first += mine[:cut]
                mine = mine[cut:]
            threads.append(mine)
            after += [{"e": x, "c": name} for x in ("run", "info", "peek")]
    return {"kind": "overlap", "ev": first + [e for t in threads for e in t] + after,
            "cuts": [len(first)] + [len(t) for t in threads], "seed": rng.randrange(10 ** 9),
            "stops": rng.choice([1, 2, 4, 8]), "fine": rng.random() < 0.3}


def sweeping(rng):
    """C25: two calls; one is stopped at every place while the other is made."""
    kinds = {"run": 6, "tof": 3, "cx": 2, "x": 1, "h": 1, "u": 1, "qasm": 3, "new": 2, "meas": 1, "str": 2, "info": 2,
             "cfg": 1, "peek": 1}
    one = rng.choices(list(kinds), list(kinds.values()))[0]
    two = one if rng.random() < 0.6 else rng.choices(list(kinds), list(kinds.values()))[0]
    looks = ("run", "str", "info", "cfg", "peek")
    be = rng.choice(["numpy", "sparse", "default"])
    dims = random_dims(rng, total=60, regs=rng.choice([2, 3, 3, 4]))
    n = lcm(4, *[d for d in dims if d <= 6])
    init = [d - 1 if rng.random() < 0.7 else rng.randrange(d) for d in dims]
    same = rng.random() < 0.5
    first, calls, after = [{"e": "list", "l": "dims", "v": list(dims)}, {"e": "list", "l": "init", "v": list(init)}], [], []
    for name, kind in zip("ab", (one, two)):
        if kind in looks and name == "b" and one in looks and rng.random() < 0.4:
            calls.append({"e": kind, "c": "a"})     # they share a circuit
            continue
        if kind == "qasm":
            doc, dn, total = document(rng, 0.3)
            while total > 100:
                doc, dn, total = document(rng, 0.3)
            calls.append({"e": "qasm", "c": name, "n": dn, "be": be, "via": "text", "doc": doc})
        else:
            c = Circuit(rng, name, dims=dims if same else None, n=n if same else None, be=be, max_support=30, max_span=60,
                        init=init if same else None)
            while not same and math.prod(c.dims) > 60:
                c = Circuit(rng, name, be=be, max_support=30, max_span=60)
            if same:
                c.new.update(qr="dims", ir="init", out={"t": "print", "m": "amp", "o": rng.choice(["O1", "none"])})
                c.new.pop("noinit", None)
            if kind == "new":
                calls.append(c.new)
            else:
                first += [c.new] + [plain(c.gate()) for _ in range(rng.randrange(0, 4))]
                if kind in looks:
                    first += [plain(c.gate()) for _ in range(rng.randrange(0, 3))] + [plain(c.tof()), {"e": "meas", "c": name}]
                    calls.append({"e": kind, "c": name})
                else:
                    calls.append({"e": "meas", "c": name} if kind == "meas" else plain(getattr(c, kind)()))
        if kind not in looks + ("meas", "qasm"):
            after.append({"e": "meas", "c": name})
        after += [{"e": x, "c": name} for x in ("run", "info", "peek")]
    return {"kind": "overlap", "ev": first + calls + after, "cuts": [len(first), 1, 1], "sweep": True, "seed": rng.randrange(10 ** 9), "fine": False}


def plain(e):
    return {k: v for k, v in e.items() if k != "cls"}
