"""P15 noncentral families."""
import math
import numpy as np
import scipy.stats as sp
import scipy.special as sf
from scipy import integrate
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from ..cmp import close, need, fl, atoms_of

ASSUMPTIONS = ["scipy.special incomplete gamma and beta functions; the noncentral laws are Poisson mixtures of central ones, noncentral t by quadrature over its chi-square divisor",
               "cdf tolerance 2e-6, 5e-5 when a density with a pole enters; moments are asserted half a degree away from the border of their existence"]
US = [1e-4, .002, .03, .2, .5, .8, .97, .998]


def weights(l):
    if l == 0:
        return [(0, 1.0)]
    m = int(l / 2 + 12 * math.sqrt(l / 2 + 4) + 30)
    w = sp.poisson(l / 2.0).pmf(np.arange(m))
    return [(j, float(v)) for j, v in enumerate(w) if v > 1e-18]


class Mix(object):
    """Poisson mixture of central laws"""
    def __init__(self, l, law):
        self.parts = [(w, law(j)) for j, w in weights(l)]
    def cdf(self, z):
        return math.fsum(w * float(c.cdf(z)) for w, c in self.parts)
    def pdf(self, z):
        return math.fsum(w * float(c.pdf(z)) for w, c in self.parts)
    def ppf(self, u):
        lo = min(float(c.ppf(u)) for _, c in self.parts)
        hi = max(float(c.ppf(u)) for _, c in self.parts)
        for _ in range(60):
            m = (lo + hi) / 2
            if self.cdf(m) < u:
                lo = m
            else:
                hi = m
        return (lo + hi) / 2


class NCT(object):
    def __init__(self, df, mu):
        self.df, self.mu = df, mu
        self.c = sp.chi2(df)
        self.t = sp.nct(df, mu) if mu else sp.t(df)
    def q(self, f, z):
        """integral over the chi-square divisor v in the variable log v"""
        e = [math.log(float(self.c.ppf(u))) for u in (1e-6, .01, .2, .5, .8, .99)] + [math.log(float(self.c.isf(1e-15)))]
        e += [min(e) - 30.0 / self.df] + [math.log(self.df * (k / z) ** 2) for k in (.3, 1, 3, abs(self.mu) + 3, abs(self.mu) + 8) if z != 0]
        lo, hi = min(e[7], e[0]), e[6]
        e = sorted(v for v in e if lo <= v <= hi)
        return math.fsum(integrate.quad(lambda t: f(math.exp(t)) * math.exp(t + float(self.c.logpdf(math.exp(t)))), a, b, epsabs=1e-12, epsrel=1e-10, limit=100)[0]
                         for a, b in zip(e, e[1:]) if b > a)
    def cdf(self, z):
        return self.q(lambda v: float(sf.ndtr(z * math.sqrt(v / self.df) - self.mu)), z)
    def pdf(self, z):
        return self.q(lambda v: math.sqrt(v / self.df) * float(sp.norm.pdf(z * math.sqrt(v / self.df) - self.mu)), z)
    def ppf(self, u):
        return float(self.t.ppf(u))


class Scaled(object):
    def __init__(self, c, k):
        self.c, self.k = c, k
    def cdf(self, z): return self.c.cdf(z / self.k)
    def pdf(self, z): return self.c.pdf(z / self.k) / self.k
    def ppf(self, u): return self.c.ppf(u) * self.k


def ref(s):
    k = s[0]
    if k == "T":
        return NCT(s[1], s[2])
    if k == "X2":
        return Mix(s[2], lambda j: sp.chi2(s[1] + 2 * j))
    if k == "B":
        return Mix(s[3], lambda j: sp.beta(s[1] + j, s[2]))
    return Mix(s[3], lambda j: Scaled(sp.f(s[1] + 2 * j, s[2]), (s[1] + 2.0 * j) / s[1]))


def build(s):
    from pacal.stats import noncentral_distr as D
    return {"T": D.NoncentralTDistr, "X2": D.NoncentralChiSquareDistr, "B": D.NoncentralBetaDistr, "F": D.NoncentralFDistr}[s[0]](*s[1:])


def moments(s):
    """mean and variance: value, inf, or None where nothing is asserted"""
    k = s[0]
    if k == "T":
        n, m = s[1:]
        mean = m * math.sqrt(n / 2.0) * math.exp(math.lgamma((n - 1) / 2.0) - math.lgamma(n / 2.0)) if n >= 1.5 else None
        return mean, (n * (1 + m * m) / (n - 2.0) - mean ** 2 if n >= 2.5 else None)
    if k == "X2":
        return s[1] + s[2], 2.0 * (s[1] + 2 * s[2])
    if k == "B":
        a, b, l = s[1:]
        ws = weights(l)
        mean = math.fsum(w * (a + j) / (a + b + j) for j, w in ws)
        m2 = math.fsum(w * (a + j) * (a + j + 1) / ((a + b + j) * (a + b + j + 1)) for j, w in ws)
        return mean, m2 - mean ** 2
    a, b, l = s[1:]
    mean = b * (a + l) / (a * (b - 2.0)) if b >= 3 else None
    var = 2.0 * (b / float(a)) ** 2 * ((a + l) ** 2 + (a + 2 * l) * (b - 2)) / ((b - 2.0) ** 2 * (b - 4)) if b >= 5 else None
    return mean, var


def num(lo, hi, vals):
    return st.one_of(st.sampled_from(vals), st.sampled_from(vals), st.floats(lo, hi, allow_nan=False).map(lambda v: round(v, 3)))


DF = num(1.25, 40, [1, 2, 3, 4, 5, 10, 1.5, 2.5, 21, 30])



def apart(m):
    """the square of N(m,1) has no breakpoint which nearly coincides with its pole at zero (costs accuracy, up to 1e-3)"""
    return abs(m - round(m)) > 0.04 or m == round(m)


LM = num(0.01, 40, [0, 0, 1, 2, 5, 0.5, 0.01, 20]).filter(lambda l: apart(math.sqrt(l)))
MU = num(-6, 6, [0, 0, 1, -1, 2.5, -4, 0.1]).filter(apart)
X2 = st.tuples(DF, LM).map(lambda t: ["X2"] + list(t))
TT = st.tuples(DF, MU).map(lambda t: ["T"] + list(t))
FF = st.tuples(DF, DF, LM).map(lambda t: ["F"] + list(t))
BB = st.tuples(num(0.7, 15, [0.5, 1, 1.5, 2, 3, 10]), num(0.7, 15, [0.5, 1, 1.5, 2, 3, 10]), LM).map(lambda t: ["B"] + list(t))
ANY = st.one_of(X2, TT, FF, BB)
SEL = st.lists(st.integers(0, len(US) - 1), min_size=3, max_size=5, unique=True)


def tol_of(s):
    return 5e-5 if any(v != int(v) or v < 3 for v in s[1:-1]) else 2e-6


def pts(r, sel):
    return [z for z in (float(r.ppf(US[i])) for i in sel) if np.isfinite(z)]


@check("P15", st.fixed_dictionaries({"x": ANY, "sel": SEL, "arr": st.booleans()}), quick=100, thorough=4000, cost=5,
       rule="noncentral t, chi-square, beta and F with random degrees of freedom and noncentrality: cdf, density, total probability, support, no atoms; "
            "non-trivial: noncentrality not 0")
def law(s, rec):
    x = s["x"]
    rec.nontrivial(x[-1] != 0)
    rec.label(x[0])
    r = ref(x)
    d = build(x)
    tol = tol_of(x)
    close(d.get_piecewise_pdf().integrate(), 1.0, tol, "total probability of %s" % x)
    need(not atoms_of(d), "%s has atoms %r", x, atoms_of(d))
    lo, hi = {"T": (-np.inf, np.inf), "B": (0.0, 1.0)}.get(x[0], (0.0, np.inf))
    if np.isfinite(lo):
        close(d.cdf(lo - 0.5), 0.0, 1e-9, "cdf below the support")
    if np.isfinite(hi):
        close(d.cdf(hi + 0.5), 1.0, tol, "cdf above the support")
    zs = pts(r, s["sel"])
    cs = [fl(v) for v in np.atleast_1d(d.cdf(np.array(zs)))] if s["arr"] else [fl(d.cdf(z)) for z in zs]
    for z, c in zip(zs, cs):
        close(c, r.cdf(z), tol, "%s: cdf(%r)" % (x, z))
        p = r.pdf(z)
        close(d.pdf(z), p, 1e-3 * max(p, 1e-3), "%s: pdf(%r)" % (x, z))


@check("P15", st.fixed_dictionaries({"x": ANY}), quick=40, thorough=2000, cost=8,
       rule="mean, variance and standard deviation against the textbook formulas; non-trivial: the variance exists")
def stats(s, rec):
    x = s["x"]
    m, v = moments(x)
    rec.nontrivial(v is not None)
    d = build(x)
    t = 1e-3 if x[0] in "FT" else 2e-4
    if m is not None:
        close(d.mean(), m, t * max(1.0, abs(m)), "mean of %s" % x)
    if v is not None:
        big = x[0] in "FT" and (x[1] if x[0] == "T" else x[2] - 2) < 3.5
        close(d.var(), v, (2e-2 if big else t) * max(0.05, v), "variance of %s" % x)
        close(d.std() ** 2, v, (2e-2 if big else t) * max(0.05, v), "std**2 of %s" % x)


REL = ["central", "additive", "t2", "fbeta", "mirror"]


@check("P15", st.fixed_dictionaries({"rel": st.sampled_from(REL), "df": st.lists(DF, min_size=2, max_size=2), "l": st.lists(LM, min_size=2, max_size=2),
                                     "mu": MU, "x": ANY, "sel": SEL}), quick=50, thorough=2500, cost=8,
       rule="defining relations: central families at noncentrality 0, additivity of chi-squares, t^2 is F(1,df), beta from F, mirrored t; every case non-trivial")
def relations(s, rec):
    import pacal
    from pacal.stats.noncentral_distr import (NoncentralTDistr as T, NoncentralChiSquareDistr as C, NoncentralBetaDistr as B, NoncentralFDistr as F)
    (a, b), (l, l2), mu, k = s["df"], s["l"], s["mu"], s["rel"]
    rec.nontrivial()
    rec.label(k)
    tol = 1e-4
    if k == "central":
        x = s["x"][:-1]
        u = build(x + [0])
        v = {"T": pacal.StudentTDistr, "X2": pacal.ChiSquareDistr, "B": pacal.BetaDistr, "F": pacal.FDistr}[x[0]](*x[1:])
        zs = pts(ref(x + [0]), s["sel"])
        what = "%s with noncentrality 0 and the central law" % x
    elif k == "additive":
        v = ref(["X2", a + b, l + l2])
        zs = pts(v, s["sel"])
        u = C(a, l) + C(b, l2)
        if apart(math.sqrt(l + l2)):
            v = C(a + b, l + l2)
        what = "NoncX2(%r,%r)+NoncX2(%r,%r)" % (a, l, b, l2)
    elif k == "t2":
        u, v = T(a, mu) ** 2, F(1, a, mu * mu)
        zs = pts(ref(["F", 1, a, mu * mu]), s["sel"])
        what = "NoncT(%r,%r)**2 and NoncF(1,..)" % (a, mu)
    elif k == "fbeta":
        u, v = C(a, l) / pacal.ChiSquareDistr(b) * (b / float(a)), F(a, b, l)
        zs = pts(ref(["F", a, b, l]), s["sel"])
        w = B(a / 2.0, b / 2.0, l)
        for z in zs:
            t = a * z / (b + a * z)
            close(w.cdf(t), v.cdf(z), tol, "NoncBeta(%r,%r,%r).cdf(%r) and NoncF" % (a / 2., b / 2., l, t))
        what = "quotient of NoncX2(%r,%r) and X2(%r)" % (a, l, b)
    else:
        u, v = -T(a, mu), T(a, -mu)
        zs = pts(ref(["T", a, -mu]), s["sel"])
        what = "-NoncT(%r,%r)" % (a, mu)
    for z in zs:
        close(u.cdf(z), v.cdf(z), tol, "%s: cdf(%r)" % (what, z))


@check("P15", st.tuples(st.sampled_from(["T", "X2", "B", "F"]), st.sampled_from([0, -1, -0.5, -3]), st.integers(0, 1)), quick=60, thorough=300,
       rule="degrees of freedom that are not positive are refused; every case non-trivial")
def rejects(s, rec):
    k, bad, pos = s
    rec.nontrivial()
    n = {"T": 1, "X2": 1, "B": 2, "F": 2}[k]
    args = [2.0] * n
    args[pos % n] = bad
    try:
        d = build([k] + args + [1.0])
        d.get_piecewise_pdf()
    except Exception:
        return
    raise Violation("%s%r was accepted" % (k, tuple(args)))
