"""P20 joint distributions marginalise, condition and infer correctly."""
import contextlib
import io
import math
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation
from .. import gen, laws
from ..cmp import need, close, fl

ASSUMPTIONS = ["multivariate normal formulas in numpy, product formulas, and Gauss-Legendre quadrature of the joint density as references",
               "Model.inference integrates over boxes where the density is cut off at the edges of the support: its densities are compared with a tolerance of a few per cent of their maximum, on bounded variables whose density vanishes at the ends of the support",
               "joint densities used inside Model.inference and interpolated factors have bounded variables (the sparse grids need a finite box)"]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


NAMES = ["A", "B", "C", "D", "E", "F", "G", "H"]


# ---------------------------------------------------------------- normal vectors

@st.composite
def gauss_case(draw):
    d = draw(st.integers(1, 4))
    mu = [draw(gen.grid(-4, 4, 2)) for _ in range(d)]
    sc = [draw(st.sampled_from([1.0, 0.5, 2.0, 3.0, 0.25, 6.0])) for _ in range(d)]
    M = [[draw(st.integers(-2, 2)) for _ in range(d)] for _ in range(d)]
    perm = draw(st.permutations(range(d)))
    ne = draw(st.integers(0, d - 1))
    nc = draw(st.integers(0, d - 1 - ne))
    return {"mu": mu, "sc": sc, "M": M, "elim": list(perm[:ne]), "cond": list(perm[ne:ne + nc]),
            "z": [draw(gen.grid(-2, 2, 4)) for _ in range(nc)], "order": draw(st.sampled_from(["ec", "ce", "step"])),
            "byvar": draw(st.booleans()), "pts": [[draw(gen.grid(-3, 3, 4)) for _ in range(d)] for _ in range(3)],
            "ints": draw(st.booleans())}


def sigma(s):
    d = len(s["mu"])
    M = np.array(s["M"], dtype=float)
    S = M @ M.T + np.eye(d)
    D = np.diag(np.array(s["sc"]) / np.sqrt(np.diag(S)))
    return D @ S @ D


def npdf(mu, S, X):
    d = len(mu)
    r = np.asarray(X, dtype=float) - mu
    q = np.einsum("...i,ij,...j->...", r, np.linalg.inv(S), r)
    return np.exp(-q / 2) / math.sqrt((2 * math.pi) ** d * np.linalg.det(S))


@check("P20", gauss_case(), quick=2500, thorough=100000, cost=1,
       rule="NDNormalDistr: any subset eliminated and any subset conditioned on, in any order, by index or variable, "
            "gives the Schur complement mean and covariance; density at scalars and arrays, marginal laws; non-trivial: "
            "at least one variable eliminated or conditioned on and a correlation")
def gauss(s, rec):
    from pacal.depvars.nddistr import NDNormalDistr
    mu, S = np.array(s["mu"], dtype=float), sigma(s)
    d = len(mu)
    n = quiet(NDNormalDistr, mu.copy(), S.copy())
    V = list(n.Vars)
    for i in range(d):
        close(fl(V[i].mean()), mu[i], 1e-6 * (1 + abs(mu[i]) + S[i, i] ** .5), "mean of marginal variable")
        close(fl(V[i].std()), S[i, i] ** .5, 1e-6 * (1 + S[i, i] ** .5), "std of marginal variable")
    sd = np.sqrt(np.diag(S))
    E, C = s["elim"], s["cond"]
    x = [mu[c] + z * sd[c] for c, z in zip(C, s["z"])]
    ref = lambda dist, left: [V[i] for i in left] if s["byvar"] else [[v.id() for v in dist.Vars].index(V[i].id()) for i in left]

    def elim(dist):
        return quiet(dist.eliminate, ref(dist, E)) if E else dist

    def cond(dist):
        return quiet(dist.condition, ref(dist, C), *x) if C else dist
    if s["order"] == "ec":
        r = cond(elim(n))
    elif s["order"] == "ce":
        r = elim(cond(n))
    else:
        r = n
        for i, c in enumerate(C):
            r = quiet(r.condition, ref(r, [c])[0], x[i])
        for e in E:
            r = quiet(r.eliminate, ref(r, [e])[0])
    keep = [i for i in range(d) if i not in E and i not in C]
    m1, S1 = mu[keep], S[np.ix_(keep, keep)]
    if C:
        A = S[np.ix_(keep, C)] @ np.linalg.inv(S[np.ix_(C, C)])
        m1 = m1 + A @ (np.array(x) - mu[C])
        S1 = S1 - A @ S[np.ix_(C, keep)]
    need([v.id() for v in r.Vars] == [V[i].id() for i in keep], "variables left are not those kept")
    rec.nontrivial(bool(E or C) and bool(np.abs(S - np.diag(np.diag(S))).max() > 0))
    rec.label("d=%d, %d eliminated, %d conditioned" % (d, len(E), len(C)))
    s1 = np.sqrt(np.diag(S1))
    P = np.array([[m1[j] + p[i] * s1[j] for j, i in enumerate(keep)] for p in s["pts"]])
    if s["ints"]:
        P = np.round(P).astype(int)
    w = npdf(m1, S1, P)
    top = npdf(m1, S1, m1)
    got = np.asarray(r.pdf(*[P[:, j] for j in range(len(keep))]), dtype=float).ravel()
    for g, v, p in zip(got, w, P):
        close(g, v, 1e-9 * top, "pdf at %r (array)" % (list(p),), rel=1e-7)
    for p, v in zip(P, w):
        close(fl(r.pdf(*[t for t in p])), v, 1e-9 * top, "pdf at %r" % (list(p),), rel=1e-7)
        close(fl(r(*[float(t) for t in p])), v, 1e-9 * top, "value at %r" % (list(p),), rel=1e-7)
    # the operands are left alone
    w0 = npdf(mu, S, mu + 0.5 * sd)
    close(fl(n.pdf(*list(mu + 0.5 * sd))), w0, 1e-12, "original density after the operations", rel=1e-7)


# ---------------------------------------------------------------- products of blocks

@st.composite
def bvar(draw, smooth=False):
    """a bounded variable"""
    k = draw(st.sampled_from(["B", "B", "T"] if smooth else ["B", "B", "U", "T"]))
    if k == "B":
        return ["B", draw(st.sampled_from([2.0, 3.0, 4.0])), draw(st.sampled_from([2.0, 3.0, 2.5]))]
    if k == "U":
        return draw(gen.uniform(-2, 3))
    a = draw(gen.grid(-2, 2, 2))
    u, v, w = draw(st.sampled_from([(1., 1., 1.), (.5, 1., 1.5), (1., 0., 1.)]))
    return ["T", a, a + u, a + u + v, a + u + v + w]


ANY1 = gen.weighted(3, bvar(), 1, gen.normal, 1, gen.expon)


@st.composite
def blocks(draw, kinds=("one", "one", "gauss", "cop", "cop3", "cond")):
    out, n = [], 0
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(kinds))
        if n + (1 if k == "one" else 3 if k.endswith("3") else 2) > 4:
            k = "one"
        if k == "one":
            out.append([k, draw(ANY1)])
        elif k == "gauss":
            out.append([k, [draw(gen.grid(-2, 2, 2)), draw(gen.grid(-2, 2, 2))],
                        [draw(st.sampled_from([1.0, 0.5, 2.0])), draw(st.sampled_from([1.0, 3.0]))],
                        draw(st.sampled_from([0.5, -0.5, 0.8, 0.0]))])
        else:
            m = 3 if k.endswith("3") else 2
            out.append([k, draw(st.sampled_from(["Clayton", "Frank", "Gumbel"])), draw(st.sampled_from([1.5, 2.0, 3.0])),
                        [["B", draw(st.sampled_from([2.0, 3.0])), draw(st.sampled_from([2.0, 3.0]))] for _ in range(m)]])
        n += 1 if k == "one" else 3 if k.endswith("3") else 2
        if n >= 4 or k in ("cond1_3", "cond2_3"):
            break
    names = draw(st.permutations(NAMES))[:n]
    perm = draw(st.permutations(range(n)))
    ne = draw(st.integers(0, n - 1))
    nc = draw(st.integers(0, n - 1 - ne))
    return {"blocks": out, "names": list(names), "elim": list(perm[:ne]), "cond": list(perm[ne:ne + nc]),
            "order": draw(st.sampled_from(["ec", "ce", "step"])), "byvar": draw(st.booleans()),
            "forder": draw(st.permutations(range(len(out)))),
            "u": [[draw(st.sampled_from([0.15, 0.3, 0.5, 0.7, 0.9])) for _ in range(n)] for _ in range(3)]}


def mkvar(spec, name):
    v = laws.build(spec)
    v.setSym(name)
    return v


def mkcop(fam, th, vs):
    import pacal.depvars.copulas as cp
    return getattr(cp, fam + "Copula")(theta=th, marginals=vs)


class Block(object):
    """a joint law with reference densities of every marginal"""
    def __init__(self, b, names):
        from pacal.depvars.nddistr import NDNormalDistr, ConditionalDistr
        import pacal
        self.kind = b[0]
        if b[0] == "one":
            v = mkvar(b[1], names[0])
            self.vars, self.factors = [v], [v]
            self.q = [laws.law(b[1]).conts[0][1]]
        elif b[0] == "gauss":
            self.mu = np.array(b[1])
            self.S = np.array([[b[2][0] ** 2, b[3] * b[2][0] * b[2][1]], [b[3] * b[2][0] * b[2][1], b[2][1] ** 2]])
            self.vars = [pacal.NormalDistr(m, s) for m, s in zip(b[1], b[2])]
            for v, nm in zip(self.vars, names):
                v.setSym(nm)
            self.factors = [NDNormalDistr(self.mu, self.S, self.vars)]
            self.q = [laws.law(["N", m, s]).conts[0][1] for m, s in zip(b[1], b[2])]
        else:
            self.vars = [mkvar(t, nm) for t, nm in zip(b[3], names)]
            c = mkcop(b[1], b[2], self.vars)
            self.c = c
            self.q = [laws.law(t).conts[0][1] for t in b[3]]
            self.factors = [c]
            if b[0] in ("cond", "cond1_3"):
                self.factors = [self.vars[0], ConditionalDistr(c, [self.vars[0]])]
            if b[0] == "cond2_3":
                self.factors = [c.eliminate([2]), ConditionalDistr(c, self.vars[:2] if b[2] > 1.5 else self.vars[1::-1])]

    def dens(self, idx, x):
        """marginal density of the variables idx at x"""
        idx, x = list(idx), [float(t) for t in x]
        if not idx:
            return 1.0
        if self.kind == "gauss":
            return float(npdf(self.mu[idx], self.S[np.ix_(idx, idx)], x))
        if len(idx) == 1:
            return float(self.q[idx[0]].pdf(x[0]))
        o = sorted(range(len(idx)), key=lambda i: idx[i])
        if len(idx) == len(self.vars):
            return fl(self.c.pdf(*[x[i] for i in o]))
        return fl(self.c.eliminate([i for i in range(3) if i not in idx]).pdf(*[x[i] for i in o]))


@check("P20", blocks(), quick=700, thorough=20000, cost=4,
       rule="products of independent blocks (single variables, normal pairs, copulas, a conditional times its condition): "
            "any variables eliminated and conditioned on in any order and naming leave the product of the blocks' "
            "marginal/conditional densities; non-trivial: a block of several variables")
def product(s, rec):
    run_product(s, rec)


@check("P20", blocks(("cond1_3", "cond2_3")), quick=30, thorough=1500, cost=60,
       rule="three variables as the law of one or two of them times the conditional law of the others: every elimination "
            "and conditioning; non-trivial: always")
def partial(s, rec):
    run_product(s, rec)


def run_product(s, rec):
    from pacal.depvars.nddistr import NDProductDistr
    B, where, k = [], [], 0
    for b in s["blocks"]:
        m = 1 if b[0] == "one" else 3 if b[0].endswith("3") else 2
        B.append(quiet(Block, b, s["names"][k:k + m]))
        where += [(len(B) - 1, i) for i in range(m)]
        k += m
    V = [B[i].vars[j] for i, j in where]
    n = len(V)
    x = [float(B[i].q[j].ppf(s["u"][0][t])) for t, (i, j) in enumerate(where)]
    P = quiet(NDProductDistr, [f for i in s["forder"] for f in B[i].factors])
    need(sorted(v.id() for v in P.Vars) == sorted(v.id() for v in V), "variables of the product")
    E, C = s["elim"], s["cond"]
    rec.nontrivial(any(b[0] != "one" for b in s["blocks"]))
    rec.label("%d variables, %d eliminated, %d conditioned" % (n, len(E), len(C)))

    def ref(dist, which):
        return [V[i] for i in which] if s["byvar"] else [[v.id() for v in dist.Vars].index(V[i].id()) for i in which]

    def run():
        r = P
        if s["order"] == "step":
            for c in C:
                r = r.condition(ref(r, [c])[0], x[c])
            for e in E:
                r = r.eliminate(ref(r, [e])[0])
            return r
        for o in s["order"]:
            if o == "e" and E:
                r = r.eliminate(ref(r, E))
            if o == "c" and C:
                r = r.condition(ref(r, C), *[x[c] for c in C])
        return r
    r = quiet(run)
    keep = [i for i in range(n) if i not in E and i not in C]
    need(sorted(v.id() for v in r.Vars) == sorted(V[i].id() for i in keep), "variables left: %r", [str(v.getSymname()) for v in r.Vars])
    ids = [v.id() for v in r.Vars]
    pts, want = [], []
    for u in s["u"]:
        y = list(x)
        for t in keep:
            y[t] = float(B[where[t][0]].q[where[t][1]].ppf(u[t]))
        w = 1.0
        for bi, b in enumerate(B):
            a = [(j, y[t]) for t, (i, j) in enumerate(where) if i == bi and t not in E]
            c = [(j, y[t]) for t, (i, j) in enumerate(where) if i == bi and t in C]
            w *= b.dens([j for j, _ in a], [v for _, v in a]) / b.dens([j for j, _ in c], [v for _, v in c])
        want.append(w)
        pts.append([y[[v.id() for v in V].index(i)] for i in ids])
    multi = any(b[0].endswith("3") or b[0] == "cond" for b in s["blocks"])
    tol = 1e-2 if multi else 2e-6   # two dimensional sparse grids
    top = max(want)
    for p, w in zip(pts, want):
        close(fl(quiet(r, *p)), w, tol * top, "density at %r" % (p,), rel=tol)
    got = np.asarray(quiet(r, *[np.array([p[j] for p in pts]) for j in range(len(ids))]), dtype=float).ravel()
    for g, w, p in zip(got, want, pts):
        close(g, w, tol * top, "density at %r (array)" % (p,), rel=tol)


# ---------------------------------------------------------------- joint order statistics

@st.composite
def order_case(draw):
    n = draw(st.integers(2, 7))
    i = draw(st.integers(1, n - 1))
    j = draw(st.integers(i + 1, n))
    return {"x": draw(gen.weighted(3, bvar(), 1, gen.normal, 1, gen.expon)), "n": n, "i": i, "j": j,
            "u": [draw(st.sampled_from([0.05, 0.2, 0.45, 0.6, 0.9])) for _ in range(2)], "byvar": draw(st.booleans())}


@check("P20", order_case(), quick=250, thorough=8000, cost=6,
       rule="joint law of two order statistics: density, marginals, conditionals, variables and support against binomial "
            "formulas; non-trivial: not the smallest and largest of two")
def order(s, rec):
    from scipy.stats import beta as B
    from pacal.depvars.nddistr import IJthOrderStatsNDDistr
    n, i, j = s["n"], s["i"], s["j"]
    q = laws.law(s["x"]).conts[0][1]
    P = quiet(IJthOrderStatsNDDistr, laws.build(s["x"]), n, i, j)
    rec.nontrivial(n > 2)
    rec.label(s["x"][0])
    cst = math.factorial(n) / (math.factorial(i - 1) * math.factorial(j - i - 1) * math.factorial(n - j))

    def joint(x, y):
        F, G = float(q.cdf(x)), float(q.cdf(y))
        if not x < y:
            return 0.0
        return cst * F ** (i - 1) * (G - F) ** (j - i - 1) * (1 - G) ** (n - j) * float(q.pdf(x)) * float(q.pdf(y))

    def marg(k, x):
        F = float(q.cdf(x))
        return float(B.pdf(F, k, n - k + 1)) * float(q.pdf(x))
    x, y = sorted(float(q.ppf(u)) for u in s["u"])
    top = max(float(q.pdf(q.ppf(u))) for u in (0.1, 0.3, 0.5, 0.7, 0.9))
    tol = 1e-6
    need(len(P.Vars) == 2, "two variables")
    pts = [(x, y), (y, x)] if x < y else [(x, float(q.ppf(0.95)))]
    for a, b in pts:
        close(fl(quiet(P, a, b)), joint(a, b), tol * top * top * n * n, "joint density at %r" % ((a, b),), rel=1e-5)
    got = np.asarray(quiet(P, np.array([a for a, _ in pts]), np.array([b for _, b in pts])), dtype=float)
    for (a, b), g in zip(pts, got):
        close(float(g), joint(a, b), tol * top * top * n * n, "joint density at %r (array)" % ((a, b),), rel=1e-5)
    for k, (keep, drop) in ((i, (0, 1)), (j, (1, 0))):
        m = quiet(P.eliminate, P.Vars[drop] if s["byvar"] else drop)
        need([v.id() for v in m.Vars] == [P.Vars[keep].id()], "variable left after elimination")
        v = P.Vars[keep]
        for t in (x, y):
            w = marg(k, t)
            close(fl(quiet(m, t)), w, tol * n * top, "marginal density of order statistic %d of %d at %r" % (k, n, t), rel=1e-5)
            close(fl(v.pdf(t)), w, tol * n * top, "density of variable of order statistic %d of %d at %r" % (k, n, t), rel=1e-5)
            close(fl(v.cdf(t)), float(B.cdf(float(q.cdf(t)), k, n - k + 1)), 1e-6, "cdf of order statistic at %r" % t)
        at = x if drop == 0 else y
        if marg(i if drop == 0 else j, at) < 1e-3 * top:
            continue
        c = quiet(P.condition, [P.Vars[drop]] if s["byvar"] else [drop], at)
        need([v.id() for v in c.Vars] == [P.Vars[keep].id()], "variable left after conditioning")
        for u in (0.1, 0.4, 0.8):
            t = float(q.ppf(u))
            if abs(t - at) < 1e-9:
                continue
            a, b = (at, t) if drop == 0 else (t, at)
            w = joint(a, b) / marg(i if drop == 0 else j, at)
            close(fl(quiet(c, t)), w, 1e-5 * n * top, "conditional density at %r given %r" % (t, at), rel=1e-4)


# ---------------------------------------------------------------- functions of two dependent variables

GLX, GLW = np.polynomial.legendre.leggauss(40)
#      value            y(z, x)            |dy/dz|(z, x)             x(z, y)
OPS = {"+": (lambda x, y: x + y, lambda z, x: z - x, lambda z, x: 1.0 + 0 * x, lambda z, y: z - y),
       "-": (lambda x, y: x - y, lambda z, x: x - z, lambda z, x: 1.0 + 0 * x, lambda z, y: z + y),
       "*": (lambda x, y: x * y, lambda z, x: z / x, lambda z, x: 1 / abs(x), lambda z, y: z / y if y else np.inf),
       "/": (lambda x, y: x / y, lambda z, x: x / z, lambda z, x: abs(x) / z ** 2, lambda z, y: z * y),
       "lin": (lambda x, y: 2 * x + 3 * y, lambda z, x: (z - 2 * x) / 3, lambda z, x: 1 / 3 + 0 * x, lambda z, y: (z - 3 * y) / 2),
       "-lin": (lambda x, y: x - 2 * y, lambda z, x: (x - z) / 2, lambda z, x: 1 / 2 + 0 * x, lambda z, y: z + 2 * y)}


@st.composite
def pvar(draw, positive):
    """a bounded variable, away from zero if positive"""
    k = draw(st.sampled_from(["B", "U", "T"]))
    lo = draw(st.sampled_from([0.5, 1.0, 2.0])) if positive else draw(st.sampled_from([-2.0, -1.0, 0.0, 1.0]))
    if k == "B" and not positive:
        return ["B", draw(st.sampled_from([1.5, 2.0, 3.0])), draw(st.sampled_from([2.0, 3.0, 2.5]))]
    if k == "T":
        u, v, w = draw(st.sampled_from([(1., 1., 1.), (.5, 1., 1.5), (1., 0., 1.)]))
        return ["T", lo, lo + u, lo + u + v, lo + u + v + w]
    return ["U", lo, lo + draw(st.sampled_from([1.0, 2.0, 0.5]))]


@st.composite
def two_case(draw):
    op = draw(st.sampled_from(sorted(OPS)))
    pos = op in "*/"
    return {"op": op, "x": draw(pvar(pos)), "y": draw(pvar(pos)),
            "dep": draw(st.sampled_from([["Pi", 0.0], ["Frank", 2.0], ["Frank", -3.0], ["Frank", 5.0], ["Frank", 1.0]] +
                                        ([["Clayton", 1.0], ["Clayton", 2.0], ["Gumbel", 1.5]] if op in ("+", "*", "lin") else []))),
            "swap": draw(st.booleans()), "u": [draw(st.sampled_from([0.03, 0.15, 0.3, 0.5, 0.72, 0.9])) for _ in range(3)]}


def supp(spec):
    return (0.0, 1.0) if spec[0] == "B" else (spec[1], spec[-1])


def line_int(dens, op, z, sx, sy, kinks):
    """integral of the joint density over the line op(x, y) = z"""
    g, h, jac, inv = OPS[op]
    cuts = [sx[0], sx[1]] + [inv(z, y) for y in list(sy) + kinks[1]] + kinks[0]
    cuts = sorted(set(float(min(max(c, sx[0]), sx[1])) for c in cuts if np.isfinite(c)))
    tot = 0.0
    for a, b in zip(cuts, cuts[1:]):
        if b - a < 1e-13:
            continue
        m = h(z, 0.5 * (a + b))
        if not sy[0] < m < sy[1]:
            continue
        # graded at both ends
        for lo, hi in ((a, 0.5 * (a + b)), (b, 0.5 * (a + b))):
            t = 0.5 * (GLX + 1)
            x = lo + (hi - lo) * t ** 3
            w = 0.5 * GLW * 3 * t ** 2 * abs(hi - lo)
            y = h(z, x)
            tot += float(np.dot(w, np.asarray(dens(x, y), dtype=float) * jac(z, x)))
    return tot


@check("P20", two_case(), quick=120, thorough=4000, cost=30,
       rule="TwoVarsModel: density of sums, differences, products, quotients and linear combinations of two variables joined "
            "by a copula against quadrature of the joint density along the line; total probability; agreement with "
            "independent arithmetic for the independence copula; non-trivial: dependent variables")
def two_vars(s, rec):
    import pacal.depvars.copulas as cp
    from pacal.depvars.models import TwoVarsModel
    X, Y = mkvar(s["x"], "X"), mkvar(s["y"], "Y")
    fam, th = s["dep"]
    vs = [Y, X] if s["swap"] else [X, Y]
    c = quiet(cp.PiCopula, vs) if fam == "Pi" else quiet(mkcop, fam, th, vs)
    op = s["op"]
    S = OPS[op][0](X, Y)
    S.setSym("S")
    rec.nontrivial(fam != "Pi")
    rec.label("%s %s" % (op, fam))
    R = quiet(lambda: TwoVarsModel(c, S).eval())
    tot = fl(quiet(lambda: R.get_piecewise_pdf().integrate()))
    # Clayton and Gumbel densities are unbounded at corners: slow convergence close to the ends
    rough = fam in ("Clayton", "Gumbel")
    tol = 1e-2 if rough else 1e-6
    close(tot, 1.0, tol, "total probability of %s of %s, %s joined by %s" % (op, s["x"], s["y"], s["dep"]))
    dens = (lambda x, y: c.pdf(y, x)) if s["swap"] else (lambda x, y: c.pdf(x, y))
    kx = [float(t) for t in s["x"][1:]] if s["x"][0] == "T" else []
    ky = [float(t) for t in s["y"][1:]] if s["y"][0] == "T" else []
    zs = [float(S.quantile(u)) for u in s["u"] if not rough or 0.2 < u < 0.8]
    ref = [line_int(dens, op, z, supp(s["x"]), supp(s["y"]), (kx, ky)) for z in zs]
    top = max(ref + [float(S.pdf(z)) for z in zs] + [0.0])
    for z, w in zip(zs, ref):
        close(fl(quiet(R.pdf, z)), w, tol * top, "density of %s at %r" % (op, z), rel=tol)
        if fam == "Pi":
            close(fl(quiet(R.pdf, z)), fl(S.pdf(z)), tol * top, "density of independent %s at %r" % (op, z), rel=tol)
    r = R.range()
    need(abs(r[0] - S.range()[0]) <= 1e-9 * (1 + abs(r[0])) and abs(r[1] - S.range()[1]) <= 1e-9 * (1 + abs(r[1])), "range %r, expected %r", r, S.range())


# ---------------------------------------------------------------- inference in models

@st.composite
def sbvar(draw, positive):
    """a bounded variable whose density vanishes at its ends"""
    lo = draw(st.sampled_from([0.5, 1.0, 2.0])) if positive else draw(st.sampled_from([-2.0, -1.0, 0.0, 1.0]))
    if draw(st.booleans()):
        return ["Bs", draw(st.sampled_from([2.0, 3.0])), draw(st.sampled_from([2.0, 3.0])), lo, draw(st.sampled_from([1.0, 2.0]))]
    u, v, w = draw(st.sampled_from([(1., 1., 1.), (.5, 1., 1.5), (1., 0., 1.)]))
    return ["T", lo, lo + u, lo + u + v, lo + u + v + w]


@st.composite
def infer_case(draw):
    op = draw(st.sampled_from(sorted(OPS)))
    pos = op in "*/"
    return {"op": op, "x": draw(sbvar(pos)), "y": draw(sbvar(pos)),
            "dep": draw(st.sampled_from([None, None, 2.0, -3.0])),
            "q": draw(st.sampled_from(["S", "X|S", "Y|S", "S|X", "XY", "XS", "X"])),
            "u": [draw(st.sampled_from([0.15, 0.3, 0.5, 0.72, 0.85])) for _ in range(3)],
            "rev": draw(st.booleans())}


def smk(spec, name):
    import pacal
    if spec[0] == "Bs":
        v = pacal.BetaDistr(spec[1], spec[2]) * spec[4] + spec[3]
        v = pacal.FunDistr(fun=v.get_piecewise_pdf(), breakPoints=[spec[3], spec[3] + spec[4]])
        v.setSym(name)
        return v, laws.law(["B", spec[1], spec[2]]).conts[0][1], spec[4], spec[3]
    return mkvar(spec, name), laws.law(spec).conts[0][1], 1.0, 0.0


@check("P20", infer_case(), quick=100, thorough=3000, cost=40,
       rule="Model.inference on two (dependent) variables and a function of them: marginals, conditionals and joint laws "
            "against quadrature of the joint density; non-trivial: a conditional or a joint law with the dependent variable")
def infer(s, rec):
    from pacal.depvars.models import Model
    from pacal.depvars.nddistr import NDProductDistr
    X, qx, cx, ax = smk(s["x"], "X")
    Y, qy, cy, ay = smk(s["y"], "Y")
    op = s["op"]
    g, h, jac, inv = OPS[op]
    S = g(X, Y)
    S.setSym("S")
    fx = lambda x: qx.pdf((np.asarray(x) - ax) / cx) / cx
    fy = lambda y: qy.pdf((np.asarray(y) - ay) / cy) / cy
    px, py = lambda u: float(qx.ppf(u)) * cx + ax, lambda u: float(qy.ppf(u)) * cy + ay
    sx = (float(qx.support()[0]) * cx + ax, float(qx.support()[1]) * cx + ax)
    sy = (float(qy.support()[0]) * cy + ay, float(qy.support()[1]) * cy + ay)
    if s["dep"] is None:
        base = [Y, X] if s["rev"] else [X, Y]
        dens = lambda x, y: fx(x) * fy(y)
    else:
        base = quiet(mkcop, "Frank", s["dep"], [Y, X] if s["rev"] else [X, Y])
        dens = (lambda x, y: base.pdf(y, x)) if s["rev"] else (lambda x, y: base.pdf(x, y))
    M = quiet(Model, base, [S])
    k = ([float(t) for t in s["x"][1:]] if s["x"][0] == "T" else [], [float(t) for t in s["y"][1:]] if s["y"][0] == "T" else [])
    fs = lambda z: line_int(dens, op, z, sx, sy, k)
    q = s["q"]
    rec.label("%s %s%s" % (q, op, "" if s["dep"] is None else " dependent"))
    rec.nontrivial("|" in q or q == "XS")
    x0, y0 = px(s["u"][0]), py(s["u"][1])
    z0 = float(g(x0, y0))
    v = {"X": X, "Y": Y, "S": S}
    want, cond = (q.split("|") + [""])[:2]
    val = {"X": x0, "Y": y0, "S": z0}
    r = quiet(M.inference, [v[c] for c in want], [v[c] for c in cond], [val[c] for c in cond])
    us = [0.1, 0.25, 0.4, 0.55, 0.7, 0.9]

    def joint_xs(x, z):
        return float(dens(x, h(z, x)) * jac(z, x)) if sy[0] < h(z, x) < sy[1] and sx[0] < x < sx[1] else 0.0
    if q in ("XY", "XS"):
        nd = r.nddistr
        need(sorted(t.getSymname().name if hasattr(t.getSymname(), "name") else str(t.getSymname()) for t in nd.Vars) == sorted(q), "variables of the result")
        pts = [(px(a), py(b)) for a in us[1:5] for b in us[1:5]]
        ref = [float(dens(x, y)) if q == "XY" else joint_xs(x, float(g(x, y))) for x, y in pts]
        top = max(ref)
        for (x, y), w in zip(pts, ref):
            a = {X.id(): x, Y.id(): y, S.id(): float(g(x, y))}
            close(fl(quiet(nd, *[a[t.id()] for t in nd.Vars])), w, 1e-6 * top, "joint density of %s at %r" % (q, (x, y)), rel=1e-5)
        return
    D = quiet(r.as1DDistr)
    if q == "X":
        pts, ref = [px(u) for u in us], [float(fx(px(u))) for u in us]
    elif q == "S":
        pts = [float(S.quantile(u)) for u in us]
        ref = [fs(z) for z in pts]
    elif q == "S|X":
        pts = [float(g(x0, py(u))) for u in us]
        ref = [joint_xs(x0, z) / float(fx(x0)) for z in pts]
    elif q == "X|S":
        lo, hi = max(sx[0], min(inv(z0, t) for t in sy)), min(sx[1], max(inv(z0, t) for t in sy))
        pts = [lo + (hi - lo) * u for u in us]
        t = fs(z0)
        ref = [joint_xs(x, z0) / t for x in pts]
    else:
        ends = sorted(float(h(z0, t)) for t in sx)
        lo, hi = max(sy[0], ends[0]), min(sy[1], ends[1])
        pts = [lo + (hi - lo) * u for u in us]
        t = fs(z0)
        ref = []
        for y in pts:
            x = float(inv(z0, y))
            ref.append(joint_xs(x, z0) / t / (float(jac(z0, x)) * abs(dxdz(op, z0, y)) ** -1))
    top = max(ref)
    for p, w in zip(pts, ref):
        close(fl(quiet(D.pdf, p)), w, 3e-2 * top, "density of %s at %r" % (q, p))
    close(fl(quiet(lambda: D.get_piecewise_pdf().integrate())), 1.0, 3e-2, "total probability of %s" % q)


def dxdz(op, z, y):
    return {"+": 1.0, "-": 1.0, "*": 1.0 / abs(y), "/": abs(y), "lin": 0.5, "-lin": 1.0}[op]


# ---------------------------------------------------------------- chains of conditionals

@st.composite
def chain_case(draw, deep=False):
    """deep: a two-dimensional sparse grid is built (up to a minute)"""
    perm = draw(st.permutations([0, 1, 2]))
    ne, nc = draw(st.sampled_from([(1, 0), (1, 0), (2, 0)] if deep else [(0, 0), (0, 1), (0, 2), (1, 1), (1, 1), (1, 0), (2, 0)]))
    return {"v": [[draw(st.sampled_from([2.0, 3.0])), draw(st.sampled_from([2.0, 3.0]))] for _ in range(3)],
            "th": [draw(st.sampled_from([2.0, -3.0, 4.0, 1.0])) for _ in range(2)], "elim": list(perm[:ne]), "cond": list(perm[ne:ne + nc]),
            "order": draw(st.sampled_from(["ec", "ce", "step"])), "names": list(draw(st.permutations(NAMES)))[:3],
            "how": draw(st.sampled_from(["chain", "flat", "model"] if deep else ["chain", "chain", "model"])), "byvar": draw(st.booleans()),
            "forder": list(draw(st.permutations([0, 1, 2]))),
            "u": [[draw(st.sampled_from([0.15, 0.3, 0.5, 0.7, 0.9])) for _ in range(3)] for _ in range(3)]}


@check("P20", chain_case(), quick=150, thorough=5000, cost=20,
       rule="Markov chains A -> B -> C of conditionals of copulas, as products of factors and as one interpolated "
            "density of three variables: every elimination and conditioning against Gauss-Legendre quadrature of the "
            "joint density; non-trivial: a variable eliminated or conditioned on")
def chain(s, rec):
    if s["elim"] and not s["cond"] and 1 in s["elim"]:
        s = dict(s, elim=[2, 0][:len(s["elim"])] if s["order"] == "ce" else [0, 2][:len(s["elim"])])
    run_chain(s, rec)


@check("P20", chain_case(True), quick=6, thorough=300, cost=900,
       rule="as chain, for eliminations which build a joint density of two variables on a sparse grid, also from one plain "
            "function of three variables; non-trivial: always")
def deep_chain(s, rec):
    run_chain(s, rec)


def run_chain(s, rec):
    from pacal.depvars.nddistr import NDProductDistr, ConditionalDistr, NDFun
    specs = [["B"] + t for t in s["v"]]
    V = [mkvar(t, n) for t, n in zip(specs, s["names"])]
    q = [laws.law(t).conts[0][1] for t in specs]
    c1, c2 = quiet(mkcop, "Frank", s["th"][0], V[:2]), quiet(mkcop, "Frank", s["th"][1], V[1:])

    def dens(a, b, c):
        f = q[1].pdf(b)
        return c1.pdf(a, b) * c2.pdf(b, c) * (f > 0) / (f + (f <= 0))
    F = [V[0], ConditionalDistr(c1, [V[0]]), ConditionalDistr(c2, [V[1]])]
    if s["how"] == "flat":
        P = NDFun(3, V, dens)
        P.a, P.b = [0.0] * 3, [1.0] * 3
    else:
        P = quiet(NDProductDistr, [F[i] for i in s["forder"]])
    E, C = s["elim"], s["cond"]
    if s["how"] == "flat" and C:
        return                    # plain functions are not normalised by conditioning
    x = [float(q[i].ppf(s["u"][0][i])) for i in range(3)]
    rec.nontrivial(bool(E or C))
    rec.label("%s, eliminated %s, conditioned on %s" % (s["how"], E, C))

    def ref_(dist, which):
        return [V[i] for i in which] if s["byvar"] else [[v.id() for v in dist.Vars].index(V[i].id()) for i in which]

    def run():
        r = P
        if s["how"] == "model":
            from pacal.depvars.models import Model
            m = Model(P, [])
            keep = [V[i] for i in range(3) if i not in E and i not in C]
            return m.inference(keep, [V[i] for i in C], [x[i] for i in C]).nddistr
        if s["order"] == "step":
            for c in C:
                r = r.condition(ref_(r, [c])[0], x[c])
            for e in E:
                r = r.eliminate(ref_(r, [e])[0])
            return r
        for o in s["order"]:
            if o == "e" and E:
                r = r.eliminate(ref_(r, E))
            if o == "c" and C:
                r = r.condition(ref_(r, C), *[x[c] for c in C])
        return r
    r = quiet(run)
    keep = [i for i in range(3) if i not in E and i not in C]
    need(sorted(v.id() for v in r.Vars) == sorted(V[i].id() for i in keep), "variables left: %r", [str(v.getSymname()) for v in r.Vars])
    t, w = 0.5 * (GLX + 1), 0.5 * GLW

    def marg(val, out):
        """integral over the variables out of the joint density at val"""
        if not out:
            return float(dens(*[np.array([val[i]]) for i in range(3)])[0])
        if len(out) == 1:
            a = [np.full(len(t), val[i]) for i in range(3)]
            a[out[0]] = t
            return float(np.dot(w, dens(*a)))
        A, B = [m.ravel() for m in np.meshgrid(t, t)]
        W = np.outer(w, w).ravel()
        if len(out) == 3:
            return 1.0
        a = [np.full(len(A), val[i]) for i in range(3)]
        a[out[0]], a[out[1]] = A, B
        return float(np.dot(W, dens(*a)))
    n = marg(x, [i for i in range(3) if i not in C]) if C else 1.0
    pts, want = [], []
    for u in s["u"]:
        y = list(x)
        for i in keep:
            y[i] = float(q[i].ppf(u[i]))
        want.append(marg(y, E) / n)
        pts.append([y[[v.id() for v in V].index(k.id())] for k in r.Vars])
    top = max(want)
    tol = 1e-2        # two dimensional sparse grids
    for p, z in zip(pts, want):
        close(fl(quiet(r, *p)), z, tol * top, "density at %r" % (p,), rel=tol)
    got = np.asarray(quiet(r, *[np.array([p[j] for p in pts]) for j in range(len(keep))]), dtype=float).ravel()
    for g, z, p in zip(got, want, pts):
        close(float(g), z, tol * top, "density at %r (array)" % (p,), rel=tol)
