"""P10 piecewise functions."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from ..cmp import need, fl

ASSUMPTIONS = ["segments carry closed-form functions (quadratics, exponentials, sines, rational functions, |x-a|^-p poles and decaying "
               "tails) so that values and integrals have an exact model"]

# ---- closed-form pieces -------------------------------------------------------------------------------------------
class Fn(object):
    """value and antiderivative of one closed-form piece; o is the pole or the finite end of a tail"""
    def __init__(self, d, o=0.0, sg=1.0):
        self.d, self.o, self.sg = d, o, sg
    def __call__(self, x):
        k = self.d[0]
        c = self.d[1]
        if k == "const":
            return c + 0.0 * x
        if k == "poly":
            return c + self.d[2] * x + self.d[3] * x * x
        if k == "exp":
            return c * np.exp(self.d[2] * x)
        if k == "sin":
            return c + np.sin(self.d[2] * x)
        if k == "rat":
            return c / (1 + x * x)
        u = self.sg * (x - self.o)
        if k == "pole":
            return c * u ** -self.d[2] + self.d[3]
        if k == "texp":
            return c * np.exp(-self.d[2] * u)
        if k == "tpow":
            return c * (1 + u) ** -self.d[2]
        raise KeyError(k)
    def prim(self, x):
        k, c = self.d[0], self.d[1]
        if k == "const":
            return c * x
        if k == "poly":
            return c * x + self.d[2] * x * x / 2 + self.d[3] * x ** 3 / 3
        if k == "exp":
            return c * math.exp(self.d[2] * x) / self.d[2]
        if k == "sin":
            return c * x - math.cos(self.d[2] * x) / self.d[2]
        if k == "rat":
            return c * math.atan(x)
        if k == "pole":
            u = self.sg * (x - self.o)
            return self.sg * (c * u ** (1 - self.d[2]) / (1 - self.d[2]) + self.d[3] * u)
        u = self.sg * (x - self.o)
        if math.isinf(u):
            return 0.0
        if k == "texp":
            return -self.sg * c * math.exp(-self.d[2] * u) / self.d[2]
        return -self.sg * c * (1 + u) ** (1 - self.d[2]) / (self.d[2] - 1)
    def deriv(self, x):
        k, c = self.d[0], self.d[1]
        return {"const": lambda: 0.0 * x, "poly": lambda: self.d[2] + 2 * self.d[3] * x, "exp": lambda: c * self.d[2] * np.exp(self.d[2] * x),
                "sin": lambda: self.d[2] * np.cos(self.d[2] * x), "rat": lambda: -2 * x * c / (1 + x * x) ** 2}[k]()


AMP = [1.0, 2.0, 0.5, 3.0]


@st.composite
def smooth(draw, positive=False):
    k = draw(st.sampled_from(["const", "poly", "exp", "sin", "rat"]))
    c = draw(st.sampled_from(AMP)) * (1.0 if positive else draw(st.sampled_from([1.0, -1.0])))
    if k == "poly":
        if positive:
            return [k, c, 0.0, draw(st.sampled_from([0.0, 0.5, 1.0]))]
        return [k, c, draw(st.sampled_from([0.0, 1.0, -1.5])), draw(st.sampled_from([0.0, 0.5, -1.0]))]
    if k == "exp":
        return [k, c, draw(st.sampled_from([0.5, -1.0, 1.0]))]
    if k == "sin":
        return [k, (c + 1.0 if positive else c), draw(st.sampled_from([1.0, 2.0]))]
    return [k, c]


@st.composite
def pieces(draw, positive=False, poles=True, tails=True, atoms=True, gaps=True, nmax=4, ptails=False):
    """[breaks, [kind, fn] per cell, left tail, right tail, atoms]"""
    n = draw(st.integers(1, nmax))
    br = sorted(draw(st.lists(st.integers(-8, 8).map(lambda i: i / 2.0), min_size=n + 1, max_size=n + 1, unique=True)))
    cells = []
    for i in range(n):
        k = draw(st.sampled_from(["fin"] * 5 + (["lp", "rp"] if poles else []) + (["gap"] if gaps and 0 < i < n - 1 else [])))
        if k == "fin":
            f = draw(smooth(positive))
        elif k == "gap":
            f = None
        else:
            f = ["pole", draw(st.sampled_from(AMP)), draw(st.sampled_from([0.25, 0.4])), draw(st.sampled_from([0.0, 1.0]))]
        cells.append([k, f])
    tl = []
    for _ in range(2):
        if tails and draw(st.sampled_from([False, True])):
            c = draw(st.sampled_from(AMP)) * (1.0 if positive or ptails else draw(st.sampled_from([1.0, -1.0])))
            tl.append(draw(st.sampled_from([["texp", c, 1.0], ["texp", c, 2.0], ["tpow", c, 2.0], ["tpow", c, 3.0]])))
        else:
            tl.append(None)
    at = []
    if atoms:
        pos = draw(st.lists(st.integers(-1, n + 1), max_size=2, unique=True))
        for i in pos:
            x = br[0] - 1.25 if i == -1 else br[-1] + 1.25 if i == n + 1 else br[i]
            if (i == -1 and tl[0]) or (i == n + 1 and tl[1]):
                continue
            at.append([x, draw(st.sampled_from([0.25, 0.5, 1.0, 2.0]))])
    return [br, cells, tl, at]


def tailfn(d, o, left):
    return Fn(d, o, -1.0 if left else 1.0)


class M(object):
    """model: cells (a, b, fn) with fn None outside the domain of definition, and atoms"""
    def __init__(self, cells, atoms):
        self.cells, self.atoms = sorted(cells, key=lambda c: c[0]), dict(atoms)
    def breaks(self, atoms=True):
        return sorted(set([c[0] for c in self.cells] + [c[1] for c in self.cells] + (list(self.atoms) if atoms else [])))
    def at(self, x):
        for a, b, f in self.cells:
            if a < x < b:
                return f
        return None


def model(p):
    br, cells, tl, at = p
    out = []
    if tl[0]:
        out.append((-np.inf, br[0], tailfn(tl[0], br[0], True)))
    for i, (k, d) in enumerate(cells):
        if k == "gap":
            continue
        f = Fn(d, br[i] if k != "rp" else br[i + 1], -1.0 if k == "rp" else 1.0)
        out.append((br[i], br[i + 1], f))
    if tl[1]:
        out.append((br[-1], np.inf, tailfn(tl[1], br[-1], False)))
    return M(out, [(x, w) for x, w in at])


def segments(p):
    from pacal.segments import Segment, ConstSegment, MInfSegment, PInfSegment, SegmentWithPole, DiracSegment
    br, cells, tl, at = p
    segs = []
    if tl[0]:
        segs.append(MInfSegment(br[0], tailfn(tl[0], br[0], True)))
    for i, (k, d) in enumerate(cells):
        if k == "gap":
            continue
        f = Fn(d, br[i] if k != "rp" else br[i + 1], -1.0 if k == "rp" else 1.0)
        if k == "fin":
            segs.append(ConstSegment(br[i], br[i + 1], d[1]) if d[0] == "const" else Segment(br[i], br[i + 1], f))
        else:
            segs.append(SegmentWithPole(br[i], br[i + 1], f, left_pole=(k == "lp")))
    if tl[1]:
        segs.append(PInfSegment(br[-1], tailfn(tl[1], br[-1], False)))
    for x, w in at:
        segs.append(DiracSegment(x, w))
    return segs


def build(p, order=None):
    from pacal.segments import PiecewiseFunction
    s = segments(p)
    if order:
        s = [s[i] for i in order]
    return PiecewiseFunction(s)


def cellpoints(a, b):
    if math.isinf(a):
        return [b - d for d in (0.01, 0.37, 1.9, 11.0)]
    if math.isinf(b):
        return [a + d for d in (0.01, 0.37, 1.9, 11.0)]
    return [a + (b - a) * u for u in (0.003, 0.17, 0.5, 0.83, 0.997)]


def check_values(F, m, breaks, what, rtol=1e-12, skip_gap=False):
    """F agrees with the model m in the interior of every cell of the partition by breaks, scalar and array"""
    br = [-np.inf] + [b for b in breaks if np.isfinite(b)] + [np.inf]
    xs, ref, mg = [], [], []
    for a, b in zip(br[:-1], br[1:]):
        if not (a < b):
            continue
        for x in cellpoints(a, b):
            f = m.at(x)
            if f is None and skip_gap:
                continue
            xs.append(x)
            ref.append(0.0 if f is None else fl(f(x)))
    xs = np.array(xs)
    arr = np.asarray(F(xs.copy()), float)
    need(arr.shape == xs.shape, "%s: shape %s for %d points", what, arr.shape, len(xs))
    for x, r, y in zip(xs, ref, arr):
        if not np.isfinite(r):
            continue
        sc = fl(F(float(x)))
        tol = rtol * (1 + abs(r))
        need(abs(sc - r) <= tol, "%s at %r: %r, expected %r", what, x, sc, r)
        need(abs(y - sc) <= 1e-13 * (1 + abs(r)), "%s at %r: array %r, scalar %r", what, x, y, sc)
    return len(xs)


def atoms_of(F):
    out = {}
    for d in F.getDiracs():
        need(d.a not in out, "two atoms at %r", d.a)
        out[d.a] = fl(d.f)
    return out


def check_atoms(F, want, what):
    got = {k: v for k, v in atoms_of(F).items() if abs(v) > 1e-13}
    want = {k: v for k, v in want.items() if abs(v) > 1e-13}
    need(set(got) == set(want) and all(abs(got[k] - want[k]) <= 1e-12 * (1 + abs(want[k])) for k in got),
         "%s: atoms %s, expected %s", what, sorted(got.items()), sorted(want.items()))


OPS = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}


class Comb(object):
    def __init__(self, op, f, g):
        self.op, self.f, self.g = op, f, g
    def __call__(self, x):
        u = 0.0 if self.f is None else self.f(x) if callable(self.f) else self.f
        v = 0.0 if self.g is None else self.g(x) if callable(self.g) else self.g
        return OPS[self.op](u, v) if self.op in OPS else (v if self.op == "id" else u ** v)


class Shifted(object):
    def __init__(self, f, c, s):
        self.f, self.c, self.s = f, c, s
    def __call__(self, x):
        return abs(1.0 / self.s) * self.f((x - self.c) / self.s)


def m_bin(op, m, n):
    br = sorted(set(m.breaks() + n.breaks()))
    cells = []
    for a, b in zip(br[:-1], br[1:]):
        x = cellpoints(a, b)[1]
        f, g = m.at(x), n.at(x)
        if f is not None or g is not None:
            cells.append((a, b, Comb(op, f, g)))
    at = {}
    for k in set(m.atoms) | set(n.atoms):
        at[k] = OPS[op](m.atoms.get(k, 0.0), n.atoms.get(k, 0.0)) if op in "+-*" else None
    return M(cells, at)


def m_map(m, h, w=None):
    return M([(a, b, h(f)) for a, b, f in m.cells], {k: (w(v) if w else v) for k, v in m.atoms.items()})


@st.composite
def program(draw):
    pool = draw(st.lists(pieces(positive=draw(st.sampled_from([False, True]))), min_size=2, max_size=3))
    steps = []
    for i in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["bin", "bin", "bin", "scalar", "scalar", "pow", "shift", "split", "restrict"]))
        n = len(pool) + i
        j = draw(st.integers(0, n - 1))
        if k == "bin":
            steps.append([k, draw(st.sampled_from(["+", "-", "*", "+", "-", "*", "/"])), j, draw(st.integers(0, n - 1))])
        elif k == "scalar":
            steps.append([k, draw(st.sampled_from(["+", "-", "*", "/"])), j, draw(st.sampled_from([2.0, -1.5, 0.5, 3, -1, 1.0])), draw(st.booleans())])
        elif k == "pow":
            steps.append([k, j, draw(st.sampled_from([1, 2, 3]))])
        elif k == "shift":
            steps.append([k, j, draw(st.sampled_from([0.0, 1.0, -2.5])), draw(st.sampled_from([1.0, 2.0, -1.0, -0.5, 0.25]))])
        elif k == "split":
            steps.append([k, j, draw(st.lists(st.integers(-20, 20).map(lambda i: i / 4.0), min_size=1, max_size=4))])
        else:
            a, b = sorted(draw(st.lists(st.integers(-20, 20).map(lambda i: i / 4.0), min_size=2, max_size=2, unique=True)))
            steps.append([k, j, a, b])
    return {"pool": pool, "steps": steps}


def positive_everywhere(m, over):
    """m is bounded away from zero wherever a cell of over lies"""
    br = sorted(set(m.breaks() + over.breaks()))
    for a, b in zip(br[:-1], br[1:]):
        for x in cellpoints(a, b) + ([a + (b - a) * u for u in np.linspace(0.01, 0.99, 21)] if np.isfinite(b - a) else []):
            if over.at(x) is None and m.at(x) is None:
                continue
            f = m.at(x)
            if f is None or not abs(fl(f(x))) > 1e-3:
                return False
    return True


@check("P10", program(), quick=4000, thorough=100000,
       rule="programs of 1-4 steps over 2-3 random piecewise functions (finite, constant, pole and infinite segments, gaps, atoms): sums, "
            "differences, products, quotients, scalar operations on both sides, powers, shifts and scalings, splits, restrictions; every "
            "intermediate result compared with a cell-by-cell model at interior points, scalar and array, with breakpoints and atoms; "
            "non-trivial: a binary step between functions of different breakpoints")
def algebra(s, rec):
    Fs = [build(p) for p in s["pool"]]
    ms = [model(p) for p in s["pool"]]
    for F, m in zip(Fs, ms):
        check_values(F, m, m.breaks(), "base function")
        check_atoms(F, m.atoms, "base function")
    for t in s["steps"]:
        k = t[0]
        if k == "bin":
            op, i, j = t[1], t[2], t[3]
            if op == "/" and (not positive_everywhere(ms[j], ms[i]) or ms[i].atoms or ms[j].atoms):
                op = "*"
            rec.nontrivial(ms[i].breaks() != ms[j].breaks())
            rec.label("bin " + op)
            F, m = OPS[op](Fs[i], Fs[j]), m_bin(op, ms[i], ms[j])
            what = "f%d %s f%d" % (i, op, j)
            need(set(F.getBreaks()) <= set(m.breaks()) | set(mid(m)), "%s: breaks %s, operands' %s", what, list(F.getBreaks()), m.breaks())
            need(set(m.breaks()) <= set(F.getBreaks()), "%s: breaks %s, operands' %s", what, list(F.getBreaks()), m.breaks())
            extra = set(F.getBreaks()) - set(m.breaks())   # a cell with poles at both ends is cut in the middle
            if extra:
                cells = []
                for a, b, f in m.cells:
                    e = [a] + sorted(x for x in extra if a < x < b) + [b]
                    cells += [(u, v, f) for u, v in zip(e[:-1], e[1:])]
                m = M(cells, m.atoms)
            if op == "/":
                m.atoms = {}
            check_atoms(F, m.atoms, what)
        elif k == "scalar":
            op, i, r, right = t[1], t[2], t[3], t[4]
            if op == "/" and not right and not positive_everywhere(ms[i], ms[i]):
                right = True
            rec.label("scalar " + op)
            if right:
                F, m = OPS[op](Fs[i], r), m_map(ms[i], lambda f: Comb(op, f, r), (lambda w: OPS[op](w, r)))
            else:
                F, m = OPS[op](r, Fs[i]), m_map(ms[i], lambda f: Comb(op, r, f), (lambda w: OPS[op](r, w)))
            what = "f%d %s %r" % (i, op, r) if right else "%r %s f%d" % (r, op, i)
            need(list(F.getBreaks()) == m.breaks(), "%s: breaks %s, operand's %s", what, list(F.getBreaks()), m.breaks())
            if op in "*/" and right or op == "*":
                check_atoms(F, m.atoms, what)
            else:   # weights of atoms under these are not specified
                m.atoms = atoms_of(F)
        elif k == "pow":
            i, n = t[1], t[2]
            rec.label("pow")
            F, m = Fs[i] ** n, m_map(ms[i], lambda f: Comb("**", f, n))
            what = "f%d ** %r" % (i, n)
            m.atoms = atoms_of(F)
        elif k == "shift":
            i, c, q = t[1:]
            rec.label("shift")
            F = Fs[i].copyShiftedAndScaled(c, q)
            m = M([(min(a * q + c, b * q + c), max(a * q + c, b * q + c), Shifted(f, c, q)) for a, b, f in ms[i].cells],
                  {x * q + c: w for x, w in ms[i].atoms.items()})
            what = "f%d shifted by %r and scaled by %r" % (i, c, q)
            need(list(F.getBreaks()) == m.breaks(), "%s: breaks %s, expected %s", what, list(F.getBreaks()), m.breaks())
            check_atoms(F, m.atoms, what)
        elif k == "split":
            i, pts = t[1:]
            rec.label("split")
            F = Fs[i].splitByPoints(pts)
            m = ms[i]
            cells = []
            for a, b, f in m.cells:
                e = [a] + sorted(set(p for p in pts if a < p < b)) + [b]
                cells += [(u, v, f) for u, v in zip(e[:-1], e[1:])]
            m = M(cells, m.atoms)
            what = "f%d split at %s" % (i, pts)
            need(list(F.getBreaks()) == m.breaks(), "%s: breaks %s, expected %s", what, list(F.getBreaks()), m.breaks())
            check_atoms(F, m.atoms, what)
        else:
            i, a0, b0 = t[1:]
            rec.label("restrict")
            F = Fs[i].restrictToInterval(a0, b0)
            cells = [(max(a, a0), min(b, b0), f) for a, b, f in ms[i].cells if max(a, a0) < min(b, b0)]
            m = M(cells, {x: w for x, w in ms[i].atoms.items() if a0 <= x < b0})
            what = "f%d restricted to [%r, %r)" % (i, a0, b0)
            if not cells and not m.atoms:
                need(len(F.segments) == 0, "%s: segments %s, expected none", what, F)
                break
            need(list(F.getBreaks()) == m.breaks(), "%s: breaks %s, expected %s", what, list(F.getBreaks()), m.breaks())
            check_atoms(F, m.atoms, what)
        n = check_values(F, m, m.breaks(), what)
        if not n:
            break
        if not m.cells:   # nothing but atoms is left
            break
        Fs.append(F)
        ms.append(m)
        # operands are as before
    for F, p in zip(Fs, s["pool"]):
        m = model(p)
        check_values(F, m, m.breaks(), "operand after the program")
        check_atoms(F, m.atoms, "operand after the program")


def mid(m):
    """middle of cells between two poles, where a result may be split"""
    br = m.breaks()
    return [(a + b) / 2 for a, b in zip(br[:-1], br[1:]) if np.isfinite(b - a)]


# ---- integrals ---------------------------------------------------------------------------------------------------------
def m_int(m, a, b):
    """exact integral of the model over (a, b), atoms strictly inside included"""
    t = []
    for u, v, f in m.cells:
        lo, hi = max(u, a), min(v, b)
        if lo < hi:
            t += [f.prim(hi), -f.prim(lo)]
    t += [w for x, w in m.atoms.items() if a < x < b]
    return math.fsum(t)


def has(p, kind):
    return any(c[0] == kind for c in p[1])


PT = st.integers(-40, 40).map(lambda i: i / 4.0 + 0.06)     # never a breakpoint or an atom


@check("P10", st.fixed_dictionaries({"p": pieces(), "q": pieces(poles=False), "pts": st.lists(PT, min_size=2, max_size=5, unique=True), "r": st.sampled_from([2.0, -0.5, 3])}),
       quick=2500, thorough=60000,
       rule="integrate over random limits (infinite ones included), atoms, poles, gaps and tails against closed forms; additivity at cut "
            "points; cumint at those points, constant across gaps; integral of sums and multiples; non-trivial: a pole, a tail or an atom")
def integrals(s, rec):
    p, q = s["p"], s["q"]
    m, n = model(p), model(q)
    F, G = build(p), build(q)
    rec.nontrivial(bool(p[3]) or any(p[2]) or has(p, "lp") or has(p, "rp"))
    pts = sorted(s["pts"])
    pole = has(p, "lp") or has(p, "rp")
    big = sum(abs(m_int(M([c], {}), -np.inf, np.inf)) for c in m.cells) + sum(abs(w) for w in m.atoms.values())
    tol = (2e-6 if pole else 2e-8) * (1 + big)
    e = [-np.inf] + pts + [np.inf]
    tot = fl(F.integrate())
    ref = m_int(m, -np.inf, np.inf)
    need(abs(tot - ref) <= tol, "integral over the line %r, expected %r", tot, ref)
    parts = []
    for a, b in zip(e[:-1], e[1:]):
        v = fl(F.integrate(a, b))
        r = m_int(m, a, b)
        need(abs(v - r) <= tol, "integral over [%r, %r]: %r, expected %r", a, b, v, r)
        parts.append(v)
    need(abs(sum(parts) - tot) <= 3 * tol, "integral over the line %r, in parts %r cut at %s", tot, sum(parts), pts)
    v = fl(F.integrate(pts[0], pts[-1]))
    need(abs(v - m_int(m, pts[0], pts[-1])) <= tol, "integral over [%r, %r]: %r", pts[0], pts[-1], v)
    C = F.cumint()
    arr = np.asarray(C(np.array(pts)), float)
    for x, y in zip(pts, arr):
        c = fl(C(x))
        r = m_int(m, -np.inf, x)
        need(abs(c - r) <= tol, "cumint at %r: %r, integral below it %r", x, c, r)
        need(abs(c - y) <= 1e-13 * (1 + abs(c)), "cumint at %r: %r in an array, %r alone", x, y, c)
    b = m.breaks()
    lo, hi = [x for x in b if np.isfinite(x)][0], [x for x in b if np.isfinite(x)][-1]
    if not p[2][0]:
        need(abs(fl(C(lo - 3.3))) <= 1e-15, "cumint before the first segment: %r", fl(C(lo - 3.3)))
    if not p[2][1]:
        need(abs(fl(C(hi + 3.3)) - ref) <= tol, "cumint beyond the last segment: %r, expected %r", fl(C(hi + 3.3)), ref)
    r = s["r"]
    i = fl((F + r * G).integrate())
    want = ref + r * m_int(n, -np.inf, np.inf)
    if set(m.atoms) & set(n.atoms) or True:
        need(abs(i - want) <= tol * 4 + 1e-7 * (1 + abs(want)) * (10 if pole else 1), "integral of f + %r g: %r, expected %r", r, i, want)


@check("P10", st.fixed_dictionaries({"p": pieces(atoms=False, poles=False, nmax=3, ptails=True)}), quick=600, thorough=12000,
       rule="diff of a function against the exact derivative on finite segments, diff of cumint against the function, toInterpolated "
            "against the function (finite, pole-free segments and tails), trimInterpolators; non-trivial: two or more segments")
def derivative(s, rec):
    p = s["p"]
    m, F = model(p), build(p)
    rec.nontrivial(len(m.cells) > 1)
    D = F.diff()
    T = F.toInterpolated()
    R = T.trimInterpolators()
    C = F.cumint().diff()
    need(list(T.getBreaks()) == m.breaks() == list(R.getBreaks()), "breaks of the interpolated function %s, %s", list(T.getBreaks()), list(R.getBreaks()))
    for a, b, f in m.cells:
        tail = not np.isfinite(b - a)
        sc = max(abs(fl(f(x))) for x in cellpoints(a, b))
        for x in cellpoints(a, b):
            y = fl(f(x))
            for W, w in ((T, "toInterpolated"), (R, "trimInterpolators")):
                need(abs(fl(W(x)) - y) <= (1e-6 if tail else 1e-12) * (1 + sc) , "%s at %r: %r, function %r", w, x, fl(W(x)), y)
                need(abs(fl(W(np.array([x]))[0]) - fl(W(x))) <= 1e-13 * (1 + sc), "%s at %r: array and scalar differ", w, x)
            if tail:
                continue
            ds = 1 + max(abs(fl(f.deriv(z))) for z in cellpoints(a, b))
            need(abs(fl(D(x)) - fl(f.deriv(x))) <= 1e-8 * (ds + sc), "diff at %r: %r, derivative %r", x, fl(D(x)), fl(f.deriv(x)))
            need(abs(fl(C(x)) - y) <= 1e-8 * (1 + sc), "derivative of cumint at %r: %r, function %r", x, fl(C(x)), y)
        for x in ([a, b] if not tail else []):
            seg = [g for g in T.getSegments() if g.a == a][0]
            need(abs(fl(seg.f(x)) - fl(f(x))) <= 1e-12 * (1 + sc), "toInterpolated at the end %r of a segment: %r, function %r", x, fl(seg.f(x)), fl(f(x)))


@check("P10", st.fixed_dictionaries({"p": pieces(atoms=False, nmax=2, ptails=True)}), quick=300, thorough=6000,
       rule="toInterpolated of functions with poles: relative agreement inside the pole segment, integral kept; non-trivial: a pole")
def interp_pole(s, rec):
    p = s["p"]
    m, F = model(p), build(p)
    if not (has(p, "lp") or has(p, "rp")):
        return
    rec.nontrivial()
    T = F.toInterpolated()
    for a, b, f in m.cells:
        if not np.isfinite(b - a):
            continue
        for x in cellpoints(a, b) + [a + (b - a) * 1e-6, b - (b - a) * 1e-6]:
            y = fl(f(x))
            need(abs(fl(T(x)) - y) <= 1e-4 * (1 + abs(y)), "interpolated pole at %r: %r, function %r", x, fl(T(x)), y)
    need(abs(fl(T.integrate()) - fl(F.integrate())) <= 1e-5 * (1 + abs(fl(F.integrate()))), "integral of the interpolated function %r, of the function %r",
         fl(T.integrate()), fl(F.integrate()))
    for seg, g in zip(F.segments, T.segments):
        need((seg.hasLeftPole(), seg.hasRightPole(), seg.isMInf(), seg.isPInf(), seg.a, seg.b) == (g.hasLeftPole(), g.hasRightPole(), g.isMInf(), g.isPInf(), g.a, g.b),
             "kind of a segment changed: %s, %s", seg, g)


# ---- inverse ------------------------------------------------------------------------------------------------------------
@check("P10", st.fixed_dictionaries({"h": st.lists(st.sampled_from([0.5, 1.0, 2.0, 3.0]), min_size=1, max_size=4), "g": st.lists(smooth(positive=True), min_size=4, max_size=4),
                                     "x0": st.sampled_from([-2.0, 0.0, 1.0]), "up": st.booleans(), "y0": st.sampled_from([0.0, -1.0, 2.0]),
                                     "u": st.lists(st.floats(0.01, 0.99).map(lambda v: round(v, 3)), min_size=2, max_size=5)}),
       quick=800, thorough=16000,
       rule="increasing and decreasing continuous functions built as running integrals of positive pieces: f(inverse(y)) = y, monotone "
            "inverse, scalar = array, invfun and invfun().toInterpolated agree; non-trivial: two or more segments")
def inverse(s, rec):
    from pacal.segments import PiecewiseFunction, Segment
    x, y = s["x0"], s["y0"]
    sg = 1.0 if s["up"] else -1.0
    segs, cells = [], []

    class Prim(object):
        def __init__(self, f, a, y):
            self.f, self.a, self.y = f, a, y
        def __call__(self, t):
            if np.isscalar(t):
                return self.y + sg * (self.f.prim(t) - self.f.prim(self.a))
            return np.array([self(float(v)) for v in t])
    for w, g in zip(s["h"], s["g"]):
        f = Prim(Fn(g), x, y)
        segs.append(Segment(x, x + w, f))
        x, y = x + w, f(x + w)
    rec.nontrivial(len(segs) > 1)
    F = PiecewiseFunction(segs)
    lo, hi = min(s["y0"], y), max(s["y0"], y)
    ys = sorted(lo + (hi - lo) * u for u in s["u"])
    arr = np.asarray(F.inverse(np.array(ys)), float)
    prev = None
    slope = 60.0
    for v, t in zip(ys, arr):
        i = fl(F.inverse(v))
        need(abs(i - t) <= 1e-12 * (1 + abs(i)), "inverse(%r): %r in an array, %r alone", v, t, i)
        need(s["x0"] <= i <= x and abs(fl(F(i)) - v) <= 1e-9 * (1 + abs(v)), "inverse(%r) = %r, where the function is %r", v, i, fl(F(i)))
        if prev is not None:
            need((i - prev) * sg >= -1e-12, "inverse is not monotone at %r", v)
        prev = i
    # the ends of the range
    for v, t in ((s["y0"], s["x0"]), (y, x)):
        i = fl(F.inverse(v))
        need(abs(i - t) <= 1e-9 * (1 + abs(t)), "inverse at the end %r of the range: %r, expected %r", v, i, t)
    if s["up"] and s["y0"] == 0.0:   # meant for running integrals: 0 is taken for a value of the function
        for interp in (False, True):
            I = F.invfun(use_end_poles=False, use_interpolated=interp, rangeY=None, include_zero_break=False)
            for v in ys:
                i = fl(I(v))
                need(abs(fl(F(i)) - v) <= (1e-9 if not interp else 1e-4) * (1 + abs(v)), "invfun(interpolated=%s) at %r: %r, where the function is %r", interp, v, i, fl(F(i)))
        vals = sorted(set([s["y0"]] + [fl(g.f(g.b)) for g in segs]))
        br = list(I.getBreaks())
        need(all(any(abs(b - v) <= 1e-3 for b in br) for v in vals) and abs(br[0] - lo) < 1e-9 and abs(br[-1] - hi) < 1e-9, "breaks of invfun %s, values at the breaks %s", br, vals)


# ---- roots and extrema ------------------------------------------------------------------------------------------------------
@check("P10", st.fixed_dictionaries({"p": pieces(atoms=False, poles=False, tails=False, nmax=3)}), quick=700, thorough=14000,
       rule="roots, max_ and min_ of functions of quadratic, exponential, sine and rational pieces over finite segments with gaps against "
            "closed-form roots and dense sampling plus exact stationary points; maximum/minimum for pieces without interior "
            "extremum of the other kind; non-trivial: a sign change or an interior stationary point")
def extrema(s, rec):
    p = s["p"]
    m, F = model(p), build(p)
    roots, vals = [], []
    for a, b, f in m.cells:
        k = f.d[0]
        st_ = []
        if k == "poly" and f.d[3] != 0:
            st_ = [-f.d[2] / (2 * f.d[3])]
        elif k == "sin":
            w = f.d[2]
            st_ = [(math.pi / 2 + j * math.pi) / w for j in range(-8, 9)]
        elif k == "rat":
            st_ = [0.0]
        st_ = [x for x in st_ if a < x < b]
        vals += [(fl(f(x)), x) for x in [a, b] + st_]
        e = [a] + sorted(st_) + [b]
        for u, v in zip(e[:-1], e[1:]):
            fu, fv = fl(f(u)), fl(f(v))
            if fu * fv < 0:
                for _ in range(200):
                    t = (u + v) / 2
                    if fl(f(t)) * fu > 0:
                        u = t
                    else:
                        v = t
                roots.append((u, abs(fl(f.deriv(u)))))
            elif min(abs(fu), abs(fv)) < 1e-9:
                return   # a root at an end or a double root: ill-conditioned
    rec.nontrivial(bool(roots) or len(vals) > 2 * len(m.cells))
    got = sorted(float(x) for x in F.roots())
    for x, d in roots:
        need(any(abs(x - g) <= 1e-7 * (1 + abs(x)) / min(1.0, d + 1e-9) for g in got), "root %r not found among %s", x, got)
    for g in got:
        need(any(abs(g - x) <= 1e-6 / min(1.0, d + 1e-9) for x, d in roots), "%r is not a root (roots %s)", g, [r[0] for r in roots])
    M_, m_ = max(vals), min(vals)
    v, x = F.max_()
    need(abs(fl(v) - M_[0]) <= 1e-9 * (1 + abs(M_[0])), "max_ %r at %r, maximum %r at %r", v, x, M_[0], M_[1])
    need(any(abs(fl(f(x)) - fl(v)) <= 1e-8 * (1 + abs(v)) for a, b, f in m.cells if a - 1e-9 <= x <= b + 1e-9), "max_ claims %r at %r", v, x)
    v, x = F.min_()
    need(abs(fl(v) - m_[0]) <= 1e-9 * (1 + abs(m_[0])), "min_ %r at %r, minimum %r at %r", v, x, m_[0], m_[1])
    need(any(abs(fl(f(x)) - fl(v)) <= 1e-8 * (1 + abs(v)) for a, b, f in m.cells if a - 1e-9 <= x <= b + 1e-9), "min_ claims %r at %r", v, x)
    x, v = F.maximum()
    need(any(abs(fl(f(x)) - fl(v)) <= 1e-8 * (1 + abs(fl(v))) for a, b, f in m.cells if a - 1e-9 <= x <= b + 1e-9) and fl(v) <= M_[0] + 1e-9 * (1 + abs(M_[0])),
         "maximum claims %r at %r", v, x)
    simple = all(f.d[0] in ("const", "exp", "rat", "poly") for a, b, f in m.cells)
    if simple and all(f.d[0] != "poly" and f.d[1] > 0 or f.d[0] == "poly" and f.d[3] <= 0 for a, b, f in m.cells):
        need(abs(fl(v) - M_[0]) <= 1e-4 * (1 + abs(M_[0])), "maximum %r at %r, expected %r at %r", v, x, M_[0], M_[1])
    x, v = F.minimum()
    need(fl(v) >= m_[0] - 1e-9 * (1 + abs(m_[0])), "minimum claims %r at %r", v, x)


# ---- construction ---------------------------------------------------------------------------------------------------------
@check("P10", st.fixed_dictionaries({"p": pieces(), "seed": st.integers(0, 10 ** 6), "x": st.lists(PT, min_size=1, max_size=4)}), quick=2500, thorough=60000,
       rule="a function does not depend on the order its segments and atoms are added in; atoms added twice at a place merge; finding "
            "segments; the constructor from one callable and breakpoints; non-trivial: 3 or more segments")
def construction(s, rec):
    from pacal.segments import PiecewiseFunction, DiracSegment
    p = s["p"]
    m = model(p)
    segs = segments(p)
    rec.nontrivial(len(segs) > 2)
    order = list(range(len(segs)))
    import random
    random.Random(s["seed"]).shuffle(order)
    F = build(p, order)
    need(list(F.getBreaks()) == m.breaks(), "breaks %s, expected %s (order %s)", list(F.getBreaks()), m.breaks(), order)
    check_values(F, m, m.breaks(), "segments added in order %s" % order)
    check_atoms(F, m.atoms, "segments added in order %s" % order)
    need([g.a for g in F.segments] == sorted(g.a for g in F.segments), "segments out of order: %s", F)
    for a, b, f in m.cells:
        g = F.findSegmentByEnds(a, b)
        need(g is not None and g.isSegment(), "segment [%r, %r] not found", a, b)
        x = cellpoints(a, b)[2]
        g = F.findSegment(x)
        need(g is not None and g.a == a and g.b == b, "segment containing %r: %s, expected [%r, %r]", x, g, a, b)
        need(g.isMInf() == np.isneginf(a) and g.isPInf() == np.isposinf(b), "kind of %s", g)
    for x in s["x"]:
        if m.at(x) is None and x not in m.atoms:
            need(F.findSegment(x) is None, "segment %s found at %r", F.findSegment(x), x)
            need(fl(F(x)) == 0.0, "value in a gap: %r", F(x))
    for x, w in m.atoms.items():
        d = F.getDirac(x)
        need(d is not None and d.f == w, "atom at %r", x)
        F.addSegment(DiracSegment(x, 0.5))
        need(abs(F.getDirac(x).f - w - 0.5) <= 1e-15, "weight of a doubled atom at %r: %r, expected %r", x, F.getDirac(x).f, w + 0.5)
    br = p[0]
    g = Fn(["rat", 1.5])
    b2 = ([-np.inf] if p[2][0] else []) + list(br) + ([np.inf] if p[2][1] else [])
    if len(b2) > 1:
        F = PiecewiseFunction(fun=g, breakPoints=b2)
        m2 = M([(a, b, g) for a, b in zip(b2[:-1], b2[1:])], {})
        need(list(F.getBreaks()) == b2, "breaks %s, given %s", list(F.getBreaks()), b2)
        check_values(F, m2, b2, "function from a callable")
        need(F.segments[0].isMInf() == bool(p[2][0]) and F.segments[-1].isPInf() == bool(p[2][1]), "tails of %s", F)
        want = math.fsum([g.prim(b2[-1] if np.isfinite(b2[-1]) else 1e300), -g.prim(b2[0] if np.isfinite(b2[0]) else -1e300)])
        need(abs(fl(F.integrate()) - want) <= 1e-8, "integral %r, expected %r", F.integrate(), want)
