"""Reference laws: an implementation of the probability laws that is independent of pacal (scipy.stats + tanh-sinh).

A *spec* is a JSON-able list naming a distribution, e.g. ["N", 0.0, 1.0], ["mix", [0.5, 0.5], [s1, s2]],
["disc", [0, 1], [0.25, 0.75]].  build(spec) makes the pacal object, law(spec) the reference law.
"""
import math
import numpy as np
import scipy.stats as sp
from .core import Inconclusive

INF = float("inf")

# ------------------------------------------------------------------ tanh-sinh nodes on (0,1)


def _ts(h=0.09, tmax=3.6):
    t = np.arange(-int(tmax / h), int(tmax / h) + 1) * h
    q = np.exp(-np.pi * np.sinh(t))
    x = 1.0 / (1.0 + q)                  # position in (0,1)
    xc = q / (1.0 + q)                   # 1 - position
    w = h * np.pi * np.cosh(t) * q / (1.0 + q) ** 2
    keep = w > 1e-22
    return x[keep], xc[keep], w[keep]


TS_X, TS_XC, TS_W = _ts()


class Law(object):
    """atoms: [(x, p)]; conts: [(weight, frozen-like)] with pdf/cdf/sf/ppf/isf; breaks: finite non-smooth points."""
    def __init__(self, atoms, conts, breaks, lo, hi, smooth=True, poles=(), moved=False):
        self.poles = sorted(set(float(p) for p in poles))     # where the density is unbounded
        self.moved = moved            # a pole was shifted (its position is no longer exact)
        self.atoms = sorted(atoms)
        self.conts = conts
        self.breaks = sorted(set(float(b) for b in breaks if np.isfinite(b)))
        self.lo, self.hi = lo, hi
        self.smooth = smooth          # density is bounded
        self._panels = None
    @property
    def heavy(self):
        """noticeable probability of huge values: 1/X and quotients have a pole at 0"""
        return any(float(c.sf(1e6)) + float(c.cdf(-1e6)) > 1e-8 for w, c in self.conts)
    @property
    def mass(self):
        return sum(p for _, p in self.atoms) + sum(w for w, _ in self.conts)
    def kinks(self):
        return sorted(set(self.breaks) | set(a for a, _ in self.atoms))
    def panels(self):
        """kinks and scale points: between two of them the cdf varies smoothly on its own scale."""
        if self._panels is None:
            s = set(self.kinks())
            for w, c in self.conts:
                s |= set(float(v) for v in c.ppf(np.array([1e-5, 1e-3, .03, .25, .5, .75, .97])))
                s |= set(float(v) for v in c.isf(np.array([1e-3, 1e-5])))
            self._panels = sorted(v for v in s if np.isfinite(v))
        return self._panels
    def pdf(self, x):
        x = np.asarray(x, dtype=float)
        y = np.zeros_like(x)
        for w, c in self.conts:
            y = y + w * c.pdf(x)
        return y
    def cdf(self, x):
        x = np.asarray(x, dtype=float)
        y = np.zeros_like(x)
        for w, c in self.conts:
            y = y + w * c.cdf(x)
        for a, p in self.atoms:
            y = y + p * (x >= a)
        return y
    def cdfm(self, x):
        x = np.asarray(x, dtype=float)
        y = np.zeros_like(x)
        for w, c in self.conts:
            y = y + w * c.cdf(x)
        for a, p in self.atoms:
            y = y + p * (x > a)
        return y
    def atom(self, x, tol=1e-12):
        return sum(p for a, p in self.atoms if abs(a - x) <= tol)
    def E(self, g, kinks=()):
        """E g(X), g vectorised, smooth between consecutive kinks."""
        s = 0.0
        for a, p in self.atoms:
            s += p * float(np.asarray(g(np.array([a])), dtype=float)[0])
        for w, c in self.conts:
            s += w * _E_cont(c, g, sorted(set(list(kinks) + self.breaks)))
        return s
    def quantiles(self, ps):
        """Points spread over the support (not exact quantiles for mixtures)."""
        out = []
        for w, c in self.conts:
            out.extend(float(v) for v in np.atleast_1d(c.ppf(np.asarray(ps))))
        out.extend(a for a, _ in self.atoms)
        return sorted(set(out))


def _E_cont(c, g, kinks):
    ks = [k for k in kinks if np.isfinite(k)]
    us = sorted(set([float(c.cdf(k)) for k in ks]))
    total = 0.0
    # lower half in u
    lowb = [0.0] + [u for u in us if 0.0 < u < 0.5] + [0.5]
    xs, ws = [], []
    for a, b in zip(lowb[:-1], lowb[1:]):
        if b - a <= 0:
            continue
        xs.append(c.ppf(a + (b - a) * TS_X))
        ws.append((b - a) * TS_W)
    vs = sorted(set([float(c.sf(k)) for k in ks]))
    upb = [0.0] + [v for v in vs if 0.0 < v < 0.5] + [0.5]
    for a, b in zip(upb[:-1], upb[1:]):
        if b - a <= 0:
            continue
        xs.append(c.isf(a + (b - a) * TS_X))
        ws.append((b - a) * TS_W)
    x = np.concatenate(xs)
    w = np.concatenate(ws)
    ok = np.isfinite(x)
    if not np.all(ok):
        w = w[ok]
        x = x[ok]
    y = np.asarray(g(x), dtype=float)
    y = np.where(np.isfinite(y), y, 0.0)
    return float(np.dot(w, y))


# ------------------------------------------------------------------ custom continuous law: mollifier

class _Numeric(object):
    """Law on [lo, hi] given by a density, tabulated with Gauss-Legendre panels."""
    def __init__(self, pdf, lo, hi, n=400):
        self._pdf, self.lo, self.hi = pdf, lo, hi
        self.xg, self.wg = np.polynomial.legendre.leggauss(20)
        self.edges = np.linspace(lo, hi, n + 1)
        h = (hi - lo) / n / 2
        mid = (self.edges[1:] + self.edges[:-1]) / 2
        vals = pdf(mid[:, None] + h * self.xg[None, :])
        m = (vals * self.wg).sum(axis=1) * h
        self.tot = m.sum()
        self.cum = np.concatenate([[0], np.cumsum(m)]) / self.tot
        self.h = h
    def pdf(self, x):
        x = np.asarray(x, dtype=float)
        return np.where((x > self.lo) & (x < self.hi), self._pdf(np.clip(x, self.lo, self.hi)), 0.0)
    def cdf(self, x):
        x = np.asarray(x, dtype=float)
        scalar = x.ndim == 0
        x = np.atleast_1d(x)
        xc = np.clip(x, self.lo, self.hi)
        i = np.clip(((xc - self.lo) / (2 * self.h)).astype(int), 0, len(self.edges) - 2)
        a = self.edges[i]
        hh = (xc - a) / 2
        v = (self.pdf(a[:, None] + hh[:, None] * (1 + self.xg[None, :])) * self.wg).sum(axis=1) * hh / self.tot
        r = self.cum[i] + v
        return r[0] if scalar else r
    def sf(self, x):
        return 1 - self.cdf(x)
    def ppf(self, u):
        u = np.asarray(u, dtype=float)
        lo = np.full(u.shape, self.lo)
        hi = np.full(u.shape, self.hi)
        for _ in range(52):
            m = (lo + hi) / 2
            c = self.cdf(m) < u
            lo = np.where(c, m, lo)
            hi = np.where(c, hi, m)
        return (lo + hi) / 2
    def isf(self, v):
        return self.ppf(1 - np.asarray(v, dtype=float))


def _moll(eps):
    C = 2.252283621043581 / eps
    def pdf(x):
        t = np.asarray(x, dtype=float) / eps
        with np.errstate(all="ignore"):
            return np.where(np.abs(t) < 1, C * np.exp(-1.0 / np.maximum(1 - t * t, 1e-300)), 0.0)
    return _Numeric(pdf, -eps, eps)


# ------------------------------------------------------------------ families

def _trap(p):
    a, b, c, d = p
    return sp.trapezoid((b - a) / (d - a), (c - a) / (d - a), loc=a, scale=d - a)


class Shifted(object):
    """law of a*C + b for a frozen-like C, a != 0."""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
    def pdf(self, x):
        return self.c.pdf((np.asarray(x) - self.b) / self.a) / abs(self.a)
    def cdf(self, x):
        t = (np.asarray(x) - self.b) / self.a
        return self.c.cdf(t) if self.a > 0 else self.c.sf(t)
    def sf(self, x):
        t = (np.asarray(x) - self.b) / self.a
        return self.c.sf(t) if self.a > 0 else self.c.cdf(t)
    def ppf(self, u):
        return self.a * (self.c.ppf(u) if self.a > 0 else self.c.isf(u)) + self.b
    def isf(self, u):
        return self.a * (self.c.isf(u) if self.a > 0 else self.c.ppf(u)) + self.b


class Trunc(object):
    """C restricted to (lo, hi]."""
    def __init__(self, c, lo, hi):
        self.c, self.lo, self.hi = c, lo, hi
        self.F0 = float(c.cdf(lo)) if np.isfinite(lo) else 0.0
        self.F1 = float(c.cdf(hi)) if np.isfinite(hi) else 1.0
        self.S0 = float(c.sf(lo)) if np.isfinite(lo) else 1.0
        self.S1 = float(c.sf(hi)) if np.isfinite(hi) else 0.0
        self.upper = self.S0 < 0.5
        self.P = (self.S0 - self.S1) if self.upper else (self.F1 - self.F0)
    def pdf(self, x):
        x = np.asarray(x, dtype=float)
        return np.where((x >= self.lo) & (x <= self.hi), self.c.pdf(x) / self.P, 0.0)
    def cdf(self, x):
        x = np.clip(np.asarray(x, dtype=float), self.lo, self.hi)
        return (self.S0 - self.c.sf(x)) / self.P if self.upper else (self.c.cdf(x) - self.F0) / self.P
    def sf(self, x):
        return 1 - self.cdf(x)
    def ppf(self, u):
        u = np.asarray(u)
        return self.c.isf(self.S0 - self.P * u) if self.upper else self.c.ppf(self.F0 + self.P * u)
    def isf(self, v):
        v = np.asarray(v)
        return self.c.isf(self.S1 + self.P * v) if self.upper else self.c.ppf(self.F1 - self.P * v)


#      name: (pacal constructor name, params -> scipy frozen, params -> breaks, lo, hi, bounded density?)
FAM = {
    "U": ("UniformDistr", lambda p: sp.uniform(p[0], p[1] - p[0]), lambda p: (p[0], p[1])),
    "N": ("NormalDistr", lambda p: sp.norm(p[0], p[1]), lambda p: ()),
    "T": ("TrapezoidalDistr", _trap, lambda p: tuple(p)),
    "C": ("CauchyDistr", lambda p: sp.cauchy(p[1], p[0]), lambda p: ()),
    "X2": ("ChiSquareDistr", lambda p: sp.chi2(p[0]), lambda p: (0.0,)),
    "E": ("ExponentialDistr", lambda p: sp.expon(0, 1.0 / p[0]), lambda p: (0.0,)),
    "G": ("GammaDistr", lambda p: sp.gamma(p[0], 0, p[1]), lambda p: (0.0,)),
    "B": ("BetaDistr", lambda p: sp.beta(p[0], p[1]), lambda p: (0.0, 1.0)),
    "P": ("ParetoDistr", lambda p: sp.pareto(p[0], 0, p[1]), lambda p: (p[1],)),
    "L": ("LevyDistr", lambda p: sp.levy(p[1], p[0]), lambda p: (p[1],)),
    "La": ("LaplaceDistr", lambda p: sp.laplace(p[1], p[0]), lambda p: (p[1],)),
    "t": ("StudentTDistr", lambda p: sp.t(p[0]), lambda p: ()),
    "S": ("SemicircleDistr", lambda p: sp.semicircular(0, p[0]), lambda p: (-p[0], p[0])),
    "F": ("FDistr", lambda p: sp.f(p[0], p[1]), lambda p: (0.0,)),
    "W": ("WeibullDistr", lambda p: sp.weibull_min(p[0], 0, p[1]), lambda p: (0.0,)),
    "Gu": ("GumbelDistr", lambda p: sp.gumbel_r(p[0], p[1]), lambda p: ()),
    "Fr": ("FrechetDistr", lambda p: sp.invweibull(p[0], p[2], p[1]), lambda p: (p[2],)),
    "LL": ("LogLogisticDistr", lambda p: sp.fisk(p[0], 0, p[1]), lambda p: (0.0,)),
    "M": ("MollifierDistr", lambda p: _moll(p[0]), lambda p: (-p[0], p[0])),
}

SUPPORT = {
    "U": lambda p: (p[0], p[1]), "N": lambda p: (-INF, INF), "T": lambda p: (p[0], p[3]), "C": lambda p: (-INF, INF),
    "X2": lambda p: (0.0, INF), "E": lambda p: (0.0, INF), "G": lambda p: (0.0, INF), "B": lambda p: (0.0, 1.0),
    "P": lambda p: (p[1], INF), "L": lambda p: (p[1], INF), "La": lambda p: (-INF, INF), "t": lambda p: (-INF, INF),
    "S": lambda p: (-p[0], p[0]), "F": lambda p: (0.0, INF), "W": lambda p: (0.0, INF), "Gu": lambda p: (-INF, INF),
    "Fr": lambda p: (p[2], INF), "LL": lambda p: (0.0, INF), "M": lambda p: (-p[0], p[0]),
}

# density unbounded at a support end
def _poles(name, p):
    if name == "B":
        return [x for x, e in ((0.0, p[0]), (1.0, p[1])) if e < 1]
    return [0.0] if _unbounded(name, p) else []


def _unbounded(name, p):
    return ((name == "X2" and p[0] < 2) or (name == "G" and p[0] < 1) or (name == "B" and (p[0] < 1 or p[1] < 1))
            or (name == "F" and p[0] < 2) or (name == "W" and p[0] < 1) or (name == "LL" and p[0] < 1))


def build(spec):
    """The pacal object of a spec."""
    import pacal
    import pacal.standard_distr as sd
    import pacal.distr as ds
    k = spec[0]
    if k in FAM:
        return getattr(sd, FAM[k][0])(*spec[1:])
    if k == "disc":
        return ds.DiscreteDistr([float(v) for v in spec[1]], [float(v) for v in spec[2]])
    if k == "const":
        return ds.ConstDistr(float(spec[1]))
    if k == "mix":
        return sd.MixDistr(list(spec[1]), [build(s) for s in spec[2]])
    if k == "aff":
        return build(spec[3]) * spec[1] + spec[2]
    if k == "bern":
        return sd.BernoulliDistr(spec[1])
    if k == "gt":
        return build(spec[2]) | ds.Gt(spec[1])
    if k == "lt":
        return build(spec[2]) | ds.Lt(spec[1])
    if k == "btw":
        return build(spec[3]) | ds.Between(spec[1], spec[2])
    raise KeyError(k)


_law_cache = {}


def law(spec):
    key = repr(spec)
    if key not in _law_cache:
        if len(_law_cache) > 300:
            _law_cache.clear()
        _law_cache[key] = _law(spec)
    return _law_cache[key]


def merge_atoms(atoms, tol=1e-11):
    out = []
    for a, p in sorted(atoms):
        if out and abs(out[-1][0] - a) <= tol * max(1.0, abs(a)):
            out[-1] = (out[-1][0], out[-1][1] + p)
        else:
            out.append((a, p))
    return out


def _law(spec):
    k = spec[0]
    if k in FAM:
        p = [float(v) for v in spec[1:]]
        lo, hi = SUPPORT[k](p)
        return Law([], [(1.0, FAM[k][1](p))], FAM[k][2](p), lo, hi, not _unbounded(k, p), _poles(k, p))
    if k == "disc":
        xs = [float(v) for v in spec[1]]
        return Law(merge_atoms(list(zip(xs, [float(v) for v in spec[2]]))), [], [], min(xs), max(xs))
    if k == "const":
        return Law([(float(spec[1]), 1.0)], [], [], float(spec[1]), float(spec[1]))
    if k == "bern":
        return Law([(0.0, 1 - spec[1]), (1.0, spec[1])], [], [], 0.0, 1.0)
    if k == "mix":
        ls = [law(s) for s in spec[2]]
        at, co, br = [], [], []
        for w, l in zip(spec[1], ls):
            at += [(a, w * p) for a, p in l.atoms]
            co += [(w * v, c) for v, c in l.conts]
            br += l.breaks
        return Law(merge_atoms(at), co, br, min(l.lo for l in ls), max(l.hi for l in ls), all(l.smooth for l in ls),
                   [p for l in ls for p in l.poles], any(l.moved for l in ls))
    if k == "aff":
        return affine(law(spec[3]), spec[1], spec[2])
    if k in ("gt", "lt", "btw"):
        lo, hi = {"gt": (spec[1], INF), "lt": (-INF, spec[1]), "btw": (spec[1], spec[2])}[k]
        return restrict(law(spec[-1]), lo, hi)
    raise KeyError(k)


def affine(l, a, b):
    if a == 0:
        return Law([(b, 1.0)], [], [], b, b)
    ends = sorted([a * l.lo + b, a * l.hi + b])
    return Law([(a * x + b, p) for x, p in l.atoms], [(w, Shifted(c, a, b)) for w, c in l.conts],
               [a * x + b for x in l.breaks], ends[0], ends[1], l.smooth, [a * x + b for x in l.poles],
               l.moved or (b != 0 and bool(l.poles)))


def restrict(l, lo, hi):
    """law of X given lo <= X <= hi (laws without atoms at lo, hi: open/closed does not matter)."""
    at = [(x, p) for x, p in l.atoms if lo < x < hi]
    co = []
    for w, c in l.conts:
        t = Trunc(c, lo, hi)
        if t.P > 0:
            co.append((w * t.P, t))
    m = sum(p for _, p in at) + sum(w for w, _ in co)
    if not m > 0:
        raise Inconclusive("empty restriction")
    at = [(x, p / m) for x, p in at]
    co = [(w / m, c) for w, c in co]
    br = [x for x in l.breaks if lo < x < hi] + [x for x in (max(lo, l.lo), min(hi, l.hi)) if np.isfinite(x)]
    ps = [x for x in l.poles if lo <= x <= hi]
    return Law(at, co, br, max(lo, l.lo), min(hi, l.hi), not ps, ps, l.moved)


# ------------------------------------------------------------------ laws of functions and operations

class FunLaw(object):
    """law of f(X); le(y) returns disjoint closed intervals (lo, hi) whose union is {x: f(x) <= y}."""
    def __init__(self, base, f, le, breaks_y=(), lo=-INF, hi=INF):
        self.base, self.f, self.le = base, f, le
        self.lo, self.hi = lo, hi
        def img(xs):
            out = []
            for x in xs:
                try:
                    v = float(f(x))
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                if np.isfinite(v):
                    out.append(v)
            return out
        self.atoms = merge_atoms([(float(f(a)), p) for a, p in base.atoms])
        self.breaks = sorted(set(img(base.kinks())) | set(b for b in breaks_y if np.isfinite(b)))
        self._panels = sorted(set(self.breaks) | set(img(base.panels())))
    def kinks(self):
        return sorted(set(self.breaks) | set(a for a, _ in self.atoms))
    def panels(self):
        return self._panels
    def _c(self, y, left):
        # P(f(X) < y) only differs from P(f(X) <= y) by the atom of f(X) at y
        t = 0.0
        for lo, hi in self.le(y):
            if hi >= lo:
                t += float(self.base.cdf(hi)) - float(self.base.cdfm(lo))
        if left:
            t -= sum(p for a, p in self.atoms if a == y)
        return t
    def _v(self, y, left):
        y = np.asarray(y, dtype=float)
        if y.ndim == 0:
            return self._c(float(y), left)
        return np.array([self._c(float(v), left) for v in y.ravel()]).reshape(y.shape)
    def cdf(self, y):
        return self._v(y, False)
    def cdfm(self, y):
        return self._v(y, True)


def thin(pts, n):
    return pts if len(pts) <= n else [pts[int(round(i * (len(pts) - 1) / (n - 1.0)))] for i in range(n)]


class OpLaw(object):
    """law of X op Y for independent X (a Law) and Y (anything with cdf, cdfm, kinks())."""
    def __init__(self, op, X, Y):
        self.op, self.X, self.Y = op, X, Y
        self.atoms = self._atoms()
    def kinks(self):
        if self.op in ("add", "sub"):
            s = 1 if self.op == "add" else -1
            return sorted(set(a + s * b for a in self.X.kinks() for b in self.Y.kinks()))
        if self.op in ("min", "max"):
            return sorted(set(self.X.kinks()) | set(self.Y.kinks()))
        if self.op == "mul":
            return sorted(set([0.0] + [a * b for a in self.X.kinks() for b in self.Y.kinks()]))
        if self.op == "div":
            return sorted(set([0.0] + [a / b for a in self.X.kinks() for b in self.Y.kinks() if b != 0]))
    def panels(self):
        xs, ys = self.X.panels(), self.Y.panels()
        if self.op in ("min", "max"):
            return sorted(set(xs) | set(ys))
        xs, ys = thin(xs, 12), thin(ys, 12)
        f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
             "div": lambda a, b: a / b if b else 0.0}[self.op]
        pts = sorted(set(f(a, b) for a in xs for b in ys))
        return sorted(set(thin(pts, 16)) | set(self.kinks()))
    def _atoms(self):
        XA, YA = self.X.atoms, self.Y.atoms
        if self.op in ("min", "max"):
            out = []
            for x in sorted(set(a for a, _ in XA) | set(a for a, _ in YA)):
                if self.op == "max":
                    p = float(self.X.cdf(x)) * float(self.Y.cdf(x)) - float(self.X.cdfm(x)) * float(self.Y.cdfm(x))
                else:
                    p = ((1 - float(self.X.cdfm(x))) * (1 - float(self.Y.cdfm(x)))
                         - (1 - float(self.X.cdf(x))) * (1 - float(self.Y.cdf(x))))
                if p > 1e-15:
                    out.append((x, p))
            return out
        out = []
        for a, p in XA:
            for b, q in YA:
                if self.op == "add":
                    out.append((a + b, p * q))
                elif self.op == "sub":
                    out.append((a - b, p * q))
                elif self.op == "mul":
                    if a != 0 and b != 0:
                        out.append((a * b, p * q))
                elif self.op == "div":
                    if a != 0:
                        out.append((a / b, p * q))
        if self.op == "mul":
            px = sum(p for a, p in XA if a == 0)
            py = sum(p for a, p in YA if a == 0)
            p0 = px + py - px * py
            if p0 > 0:
                out.append((0.0, p0))
        if self.op == "div":
            px = sum(p for a, p in XA if a == 0)
            if px > 0:
                out.append((0.0, px))
        return merge_atoms(out)
    def atom(self, x, tol=1e-10):
        return sum(p for a, p in self.atoms if abs(a - x) <= tol * max(1.0, abs(x)))
    def cdf(self, z):
        return self._vec(z, False)
    def cdfm(self, z):
        return self._vec(z, True)
    def _vec(self, z, left):
        z = np.asarray(z, dtype=float)
        if z.ndim == 0:
            return self._cdf1(float(z), left)
        return np.array([self._cdf1(float(v), left) for v in z.ravel()]).reshape(z.shape)
    def _cdf1(self, z, left):
        X, Y, op = self.X, self.Y, self.op
        F = Y.cdfm if left else Y.cdf       # P(Y <= y) or P(Y < y)
        G = Y.cdf if left else Y.cdfm       # 1 - G(y) = P(Y >= y) or P(Y > y)
        if op in ("min", "max"):
            fx = float((X.cdfm if left else X.cdf)(z))
            fy = float(F(z))
            return fx * fy if op == "max" else fx + fy - fx * fy
        yk = Y.panels()
        if op == "add":
            return X.E(lambda x: F(z - x), [z - b for b in yk])
        if op == "sub":
            return X.E(lambda x: 1 - G(x - z), [z + b for b in yk])
        if op == "mul":
            zero = 1.0 if (z > 0 or (z == 0 and not left)) else 0.0
            def g(x):
                with np.errstate(all="ignore"):
                    t = z / np.where(x == 0, 1.0, x)
                return np.where(x > 0, F(t), np.where(x < 0, 1 - G(t), zero))
            return X.E(g, [0.0] + [z / b for b in yk if b != 0])
        if op == "div":            # X / Y <= z, conditioning on Y: needs Y to have E
            FX = X.cdfm if left else X.cdf
            GX = X.cdf if left else X.cdfm
            return Y.E(lambda y: np.where(y > 0, FX(z * y), 1 - GX(z * y)),
                       [0.0] + ([b / z for b in X.panels()] if z != 0 else []))
        raise KeyError(op)


def op_pdf(op, X, Y, z):
    """Density at z of X op Y (continuous part), for Y with bounded density, or None when not available."""
    tot = 0.0
    yk = Y.panels()
    xk = X.panels()
    if op == "add":
        tot = X.E(lambda x: Y.pdf(z - x), [z - b for b in yk])
        tot += sum(q * float(X.pdf(z - b)) for b, q in Y.atoms)
    elif op == "sub":
        tot = X.E(lambda x: Y.pdf(x - z), [z + b for b in yk])
        tot += sum(q * float(X.pdf(z + b)) for b, q in Y.atoms)
    elif op == "div":
        tot = Y.E(lambda y: np.abs(y) * X.pdf(z * y), [0.0] + ([b / z for b in xk] if z else []))
        tot += sum(p / abs(a) * 0 for a, p in X.atoms)
    else:
        return None
    return tot


def apply_op(op, a, b):
    import pacal
    import pacal.distr as ds
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "div":
        return a / b
    if op == "min":
        return ds.min(a, b)
    if op == "max":
        return ds.max(a, b)
    raise KeyError(op)
