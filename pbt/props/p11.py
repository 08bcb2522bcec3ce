"""P11 interpolation."""
import math
import numpy as np
import numpy.polynomial.chebyshev as C
from hypothesis import strategies as st
from ..core import check, Violation
from ..cmp import need, fl
from .p12 import F, term, val, COEF

ASSUMPTIONS = ["interpolated functions are analytic near the interval (polynomials, exponentials, low-frequency sines, Gauss and Lorentz bumps "
               "of bounded width) so that 100 nodes suffice for the requested tolerance",
               "interpolation over infinite ranges and at poles is meant for densities: the functions are non-negative there"]

TS = st.lists(term(), min_size=1, max_size=3)
AB = st.tuples(st.sampled_from([-3.0, -1.0, -0.5, 0.0, 0.25, 1.0, 10.0, -20.0]), st.sampled_from([0.25, 0.5, 1.0, 2.0, 3.0]))
U = st.lists(st.floats(0.0, 1.0).map(lambda v: round(v, 4)), min_size=2, max_size=9)


class Py(object):
    """pure Python evaluation"""
    def __enter__(self):
        from pacal import interpolation as I
        self.old = I.have_Cython
        I.have_Cython = False
    def __exit__(self, *a):
        from pacal import interpolation as I
        I.have_Cython = self.old


def deriv(ts, x):
    y = 0.0 * x
    for t in ts:
        k, c = t[0], t[1]
        if k == "pow":
            y = y + (c * t[2] * x ** (t[2] - 1) if t[2] else 0.0 * x)
        elif k == "exp":
            y = y + c * t[2] * np.exp(t[2] * x)
        elif k == "cos":
            y = y - c * t[2] * np.sin(t[2] * x)
        elif k == "sin":
            y = y + c * t[2] * np.cos(t[2] * x)
        else:
            z = (x - t[2]) / t[3]
            y = y + (-2 * c * z / (1 + z * z) ** 2 / t[3] if k == "rat" else -2 * c * z * np.exp(-z * z) / t[3])
    return y


def aliased(f, a, b):
    t = np.cos(np.linspace(0, np.pi, 33))
    sc = np.max(np.abs(f((a + b) / 2 + (b - a) / 2 * t))) + 1e-300
    for m in (2, 3, 4, 5, 6, 9):
        for k, nodes in ((2 * m - 1, lambda n: np.cos(np.arange(n) * np.pi / (n - 1))), (3 * m, lambda n: np.cos((np.arange(n) + 0.5) * np.pi / n))):
            g = lambda z: f((a + b) / 2 + (b - a) / 2 * z)
            c = C.chebfit(nodes(m), g(nodes(m)), m - 1)
            if np.max(np.abs(C.chebval(nodes(k), c) - g(nodes(k)))) < 1e-9 * sc:
                return bool(np.max(np.abs(C.chebval(t, c) - g(t))) > 1e-12 * sc)
    return False


def usable(ts, a, b):
    """bounded complexity: a Lorentz bump narrower than a fifth of the interval or a huge dynamic range need more nodes"""
    for t in ts:
        if t[0] in ("rat", "gauss") and t[3] < (b - a) / 4.0:
            return False
        if t[0] == "exp" and abs(t[2]) * max(abs(a), abs(b)) > 30:
            return False
        if t[0] == "pow" and t[2] > 3 and max(abs(a), abs(b)) > 5:
            return False
    # two terms can cancel exactly on a coarse grid and its refinement (3x^3-2x^5 = x on 3 and on 5 nodes of [-1, 1]): no adaptive rule sees that
    if sum(t[0] == "pow" for t in ts) > 1 and aliased(F(ts), a, b):
        return False
    # the requested tolerance is absolute: a function that is tiny on the whole interval is resolved to that tolerance only
    x = np.linspace(a, b, 101)
    if sum(np.max(np.abs(F([t])(x))) for t in ts) > 1e3 * np.max(np.abs(F(ts)(x))):
        return False    # cancellation: the function itself is not smooth to rounding
    return not any(t[1] for t in ts) or (np.max(np.abs(F(ts)(x))) > 1e-2 and np.max(np.abs(deriv(ts, x))) * (b - a) > 1e-2)


def make(kind, f, a, b):
    from pacal import interpolation as I, params
    from pacal.vartransforms import VarTransformIdentity, VarTransformReciprocal_PInf, VarTransformReciprocal_MInf
    if kind == "cheb":
        return I.ChebyshevInterpolator(f, a, b)
    if kind == "cheb_par":
        return I.ChebyshevInterpolator(f, a, b, par=params.interpolation_finite)
    if kind == "cheb1":
        return I.ChebyshevInterpolator1(f, a, b)
    if kind == "noL":
        return I.ChebyshevInterpolatorNoL(f, a, b, par=params.interpolation_finite)
    if kind == "noR":
        return I.ChebyshevInterpolatorNoR(f, a, b, par=params.interpolation_finite)
    raise KeyError(kind)


KIND = st.sampled_from(["cheb", "cheb", "cheb_par", "cheb1", "noL", "noR"])


@check("P11", st.fixed_dictionaries({"ts": TS, "ab": AB, "u": U, "k": KIND, "int": st.sampled_from([False] * 9 + [True])}),
       quick=12000, thorough=120000,
       rule="sums of up to three analytic terms on finite intervals, all Chebyshev interpolators: agreement between the nodes, exactly at "
            "the nodes, range of the nodes, reported error, scalar = array = reordered array = compiled = pure Python; non-trivial: more than 5 nodes")
def finite(s, rec):
    (a, w), ts = s["ab"], s["ts"]
    b = a + w
    if not usable(ts, a, b):
        return
    f = F(ts)
    if s["int"]:
        f = lambda x: np.full(np.shape(x), 3)
        if np.isscalar(f(0.0)):
            return
    k = s["k"]
    rec.label(k)
    I = make(k, f, a, b)
    Xs, Ys = I.getNodes()
    Xs, Ys = np.asarray(Xs, float), np.asarray(Ys, float)
    rec.nontrivial(len(Xs) > 5)
    sc = max(1e-300, np.max(np.abs(np.asarray(f(np.linspace(a, b, 101)), float))))
    need(len(Xs) == len(Ys) and np.all(np.diff(Xs) > 0), "%s nodes are not increasing", k)
    need(Xs[0] >= a and Xs[-1] <= b, "%s nodes [%r, %r] outside [%r, %r]", k, Xs[0], Xs[-1], a, b)
    lo, hi = {"cheb": (1, 1), "cheb_par": (1, 1), "cheb1": (0, 0), "noL": (0, 1), "noR": (1, 0)}[k]
    need((Xs[0] == a) == bool(lo) and (Xs[-1] == b) == bool(hi), "%s nodes from %r to %r on [%r, %r]", k, Xs[0], Xs[-1], a, b)
    need(np.max(np.abs(f(Xs) - Ys)) <= 1e-14 * sc, "%s: stored values differ from the function at its nodes", k)
    ev = np.asarray(I(Xs), float)
    need(np.array_equal(ev, Ys), "%s: not exact at its nodes, off by %r", k, float(np.max(np.abs(ev - Ys))))
    need(fl(I.err) <= 1e-9 * sc, "%s: reported error %r for an analytic function of size %r (%d nodes)", k, I.err, sc, len(Xs))
    x = np.array([a + (b - a) * u for u in s["u"]] + list((Xs[1:] + Xs[:-1]) / 2)[:8] + [Xs[len(Xs) // 2]])
    x = np.clip(x, a, b)
    y = np.asarray(I(x), float)
    ref = np.asarray(f(x), float)
    tol = (1e-12 if k in ("cheb", "cheb_par") else 1e-11) * sc + 10 * fl(I.err)
    i = int(np.argmax(np.abs(y - ref)))
    need(abs(y[i] - ref[i]) <= tol, "%s at %r: %r, function %r (%d nodes)", k, x[i], y[i], ref[i], len(Xs))
    batch(I, x, y, k, sc)


def batch(I, x, y, k, sc):
    one = np.array([fl(I(float(v))) for v in x])
    need(np.max(np.abs(one - y)) <= 1e-14 * sc, "%s: %r in an array, %r alone", k, y, one)
    p = np.arange(len(x))[::-1]
    need(np.max(np.abs(np.asarray(I(x[p]), float) - y[p])) <= 1e-14 * sc, "%s: value depends on the order of points", k)
    h = len(x) // 2
    sp = np.concatenate([np.asarray(I(x[:h]), float), np.asarray(I(x[h:]), float)])
    need(np.max(np.abs(sp - y)) <= 1e-14 * sc, "%s: value depends on batching", k)
    need(len(np.asarray(I(x[:0]))) == 0, "%s of no points", k)
    with Py():
        z = np.asarray(I(x), float)
        need(z.shape == x.shape and np.max(np.abs(z - y)) <= 1e-13 * sc, "%s: compiled %r, pure Python %r", k, y, z)
        need(abs(fl(I(float(x[0]))) - y[0]) <= 1e-13 * sc, "%s: compiled %r, pure Python scalar %r", k, y[0], I(float(x[0])))


@check("P11", st.fixed_dictionaries({"ts": TS, "ab": AB, "u": U, "k": KIND, "shift": st.sampled_from([0.0, 0.5, -0.25, 1.0])}),
       quick=9000, thorough=90000,
       rule="diff and roots of interpolants of analytic functions (shifted to have roots) against the exact derivative and bisection on "
            "monotone pieces, trim against the function, roots of the derivative against its sign changes; non-trivial: a root")
def calculus(s, rec):
    (a, w), ts, k = s["ab"], s["ts"], s["k"]
    b = a + w
    if not usable(ts, a, b):
        return
    f0 = F(ts)
    grid = np.linspace(a, b, 401)
    g = f0(grid)
    off = float(g[int(200 + 199 * s["shift"])]) if s["shift"] != 1.0 else 0.0
    f = lambda x: f0(x) - off
    sc = float(np.max(np.abs(g))) + abs(off) + 1e-300
    I = make(k, f, a, b)
    D = I.diff()
    x = np.array([a + (b - a) * u for u in s["u"]])
    ref = deriv(ts, x)
    ds = float(np.max(np.abs(deriv(ts, grid)))) + sc / w
    y = np.asarray(D(x), float)
    inner = (x > a + 0.001 * w) & (x < b - 0.001 * w) if k in ("cheb1", "noL", "noR") else x == x
    for xi, yi, ri, ok in zip(x, y, ref, inner):
        need(not ok or abs(yi - ri) <= 1e-7 * ds, "%s: derivative at %r is %r, expected %r", k, xi, yi, ri)
    if k in ("cheb", "cheb_par"):
        T = I.trim()
        yt = np.asarray(T(x), float)
        need(np.max(np.abs(yt - np.asarray(f(x), float))) <= 1e-12 * sc + 20e-16 * 60, "trimmed interpolant at %s: %s, function %s", x, yt, f(x))
        need(len(T.getNodes()[0]) <= len(I.getNodes()[0]), "trim added nodes")
        E = np.asarray(T.diff()(x), float) if len(T.getNodes()[0]) > 1 else None
        need(E is None or np.max(np.abs(E - ref)) <= 1e-7 * ds, "derivative of the trimmed interpolant: %s, expected %s", E, ref)
    if off == 0.0 and s["shift"] != 1.0:
        return
    if np.max(np.abs(np.asarray(f(grid), float))) < 1e-9 * sc:
        return   # the zero function
    roots = sorted(float(r) for r in I.roots())
    lo, hi = (float(I.Xs[0]), float(I.Xs[-1]))
    fx = np.asarray(f(grid), float)
    for u, v, p, q in zip(grid[:-1], grid[1:], fx[:-1], fx[1:]):
        if p * q < 0 and lo < u and v < hi:
            d = min(abs(deriv(ts, u)), abs(deriv(ts, v)))
            if d < 1e-3 * ds or (deriv(ts, u) > 0) != (deriv(ts, v) > 0):
                continue
            rec.nontrivial()
            need(any(u - 1e-9 * w - 1e-11 * sc / d <= r <= v + 1e-9 * w + 1e-11 * sc / d for r in roots), "%s: sign change in [%r, %r], roots %s", k, u, v, roots)
    for r in roots:
        need(lo - 1e-12 * w <= r <= hi + 1e-12 * w, "%s: root %r outside of the nodes", k, r)
        need(abs(fl(f(r))) <= 1e-7 * sc, "%s: %r is not a root, the function is %r there", k, r, fl(f(r)))


@check("P11", st.fixed_dictionaries({"c": st.lists(st.integers(-3, 3), min_size=1, max_size=6), "ab": AB, "u": U, "n": st.integers(1, 7), "trim": st.booleans()}),
       quick=6000, thorough=60000,
       rule="repeated differentiation of interpolated polynomials down to the zero function, roots of every derivative; non-trivial: 2 or more derivatives")
def derivatives(s, rec):
    (a, w) = s["ab"]
    b = a + w
    c = np.array(s["c"], float)
    P = np.polynomial.Polynomial(c, domain=[a, b], window=[-1, 1])
    I = make("cheb", lambda x: P(x), a, b)
    if s["trim"]:
        I = I.trim()
    g = np.linspace(a, b, 60)
    if np.max(np.abs(I(g) - P(g))) > 1e-12 * (1 + np.sum(np.abs(c))) * (1 + abs(a) / w):
        return      # see aliased
    rec.nontrivial(s["n"] > 1)
    x = np.array([a + (b - a) * u for u in s["u"]] + [a, b])
    sc = (1.0 + float(np.sum(np.abs(c)))) * (1 + abs(a) / w)
    for k in range(1, s["n"] + 1):
        nn = len(I.getNodes()[0])
        I, P = I.diff(), P.deriv()
        sc *= 2.0 * max(2, nn) ** 2 / w      # Markov's inequality
        y, ref = np.asarray(I(x), float), P(x)
        need(np.max(np.abs(y - ref)) <= 1e-14 * sc, "derivative %d of %s: %s, expected %s, off by %.3g (%.3g)", k, c, y, ref, float(np.max(np.abs(y - ref))), sc)
        need(abs(fl(I(float(x[0]))) - ref[0]) <= 1e-14 * sc, "derivative %d of %s at %r: %r, expected %r", k, c, x[0], I(float(x[0])), ref[0])


# ---- general barycentric interpolation ------------------------------------------------------------------------------------
@check("P11", st.fixed_dictionaries({"xs": st.lists(st.integers(-20, 20).map(lambda i: i / 4.0), min_size=2, max_size=7, unique=True),
                                     "c": st.lists(st.integers(-3, 3), min_size=7, max_size=7), "u": st.lists(st.floats(-6, 6).map(lambda v: round(v, 3)), min_size=2, max_size=6),
                                     "add": st.lists(st.integers(-21, 20).map(lambda i: i / 4.0 + 0.125), max_size=2, unique=True), "ints": st.booleans()}),
       quick=9000, thorough=90000,
       rule="Lagrange and barycentric interpolation on arbitrary distinct nodes (any order) reproduces the polynomial of matching degree, before and "
            "after adding nodes; integer valued data; compiled = pure Python; non-trivial: 3 or more nodes")
def barycentric(s, rec):
    from pacal.interpolation import Interpolator, BarycentricInterpolator
    xs = s["xs"]
    n = len(xs)
    rec.nontrivial(n > 2)
    c = s["c"][:n]
    p = lambda x: np.polyval(c[::-1], x)
    ints = s["ints"] and all(x == int(x) for x in xs)
    X = [int(x) for x in xs] if ints else xs
    Y = [p(x) for x in X]
    lo, hi = min(xs + s["add"]), max(xs + s["add"])
    u = np.array([min(hi, max(lo, v)) for v in s["u"]])     # no extrapolation: it is ill-conditioned
    sc = 1 + float(np.max(np.abs(np.polyval(np.abs(c[::-1]), 7.0))))
    for cls in (Interpolator, BarycentricInterpolator):
        I = cls(np.array(X), np.array(Y))
        for k in range(2):
            y = np.asarray(I(u), float)
            far = sc * (1e-9 if cls is Interpolator else 1e-8)
            need(np.max(np.abs(y - p(u))) <= far, "%s on %s: %s, polynomial %s", cls.__name__, X, y, p(u))
            at = np.asarray(I(np.array(I.Xs, float)), float)
            need(np.max(np.abs(at - I.Ys)) <= 1e-12 * sc, "%s is not exact at its nodes", cls.__name__)
            need(abs(fl(I(float(u[0]))) - y[0]) <= 1e-12 * sc, "%s: scalar and array differ", cls.__name__)
            if cls is BarycentricInterpolator:
                with Py():
                    z = np.asarray(I(u), float)
                need(np.max(np.abs(z - y)) <= 1e-9 * sc, "compiled %s, pure Python %s", y, z)
            if not s["add"] or k:
                break
            I.add_nodes(np.array(s["add"]), np.array([p(x) for x in s["add"]]))
            need(sorted(float(v) for v in I.Xs) == sorted([float(v) for v in X] + s["add"]), "nodes after adding %s: %s", s["add"], I.Xs)


@check("P11", st.fixed_dictionaries({"ts": TS, "n": st.sampled_from([100001, 120000, 200003]), "e": st.booleans()}), quick=24, thorough=240,
       rule="pure Python evaluation of more than 100000 points at once (split internally) equals the compiled one; every case non-trivial")
def large_batch(s, rec):
    rec.nontrivial()
    I = make("cheb", F(s["ts"]), 0.0, 1.0)
    x = np.linspace(0.0, 1.0, s["n"])
    if s["e"]:
        x[::1000] = I.Xs[1]
    y = I(x)
    with Py():
        z = I(x)
    sc = 1 + float(np.max(np.abs(y)))
    need(z.shape == y.shape and np.max(np.abs(z - y)) <= 1e-13 * sc, "split evaluation differs by %r", float(np.max(np.abs(z - y))))


# ---- node arithmetic and transforms -----------------------------------------------------------------------------------------
@check("P11", st.fixed_dictionaries({"c": st.lists(st.floats(-2, 2).map(lambda v: round(v, 3)), min_size=1, max_size=12), "ab": AB, "n": st.integers(2, 40),
                                     "z": st.integers(0, 3)}), quick=9000, thorough=90000,
       rule="chebt2 and ichebt2 are inverse and give Chebyshev coefficients; chebroots against numpy; nodes of both kinds are nested under "
            "incremental refinement, sorted, within the interval; merging nodes; non-trivial: 3 or more coefficients")
def nodes(s, rec):
    from pacal import utils as U_
    (a, w), n = s["ab"], s["n"]
    b = a + w
    c = np.array(s["c"])
    rec.nontrivial(len(c) > 2)
    m = len(c)
    if m >= 2:
        x = U_.cheb_nodes(m)
        f = C.chebval(x, c)
        got = U_.chebt2(f)[::-1]
        need(len(got) == m and np.max(np.abs(got - c)) <= 1e-13, "chebt2 gives %s, coefficients %s", got, c)
        back = U_.ichebt2(c[::-1])[::-1]
        need(len(back) == m and np.max(np.abs(back - f)) <= 1e-13, "ichebt2 gives %s, values %s", back, f)
    d = np.concatenate([c, np.zeros(s["z"])])     # zero leading coefficients must not matter
    r = U_.chebroots(d)
    nz = np.flatnonzero(np.abs(c) > 0)
    if len(nz) == 0 or nz[-1] == 0:
        need(len(r) == 0, "roots of a constant: %s", r)
    else:
        ref = C.chebroots(c[:nz[-1] + 1])
        need(len(r) == len(ref), "%d roots of a polynomial of degree %d", len(r), len(ref))
        for z in r:
            v = abs(C.chebval(z, c))
            dv = abs(C.chebval(z, C.chebder(c))) * 1e-7
            need(v <= 1e-7 * (1 + float(np.sum(np.abs(c))) * max(1, abs(z)) ** m * 4 ** m), "chebroots %s is not a root of %s", z, c)
        for z in ref:
            if abs(z.imag) == 0 and abs(z) <= 1 and abs(C.chebval(z.real, C.chebder(c))) > 1e-2:
                need(np.min(np.abs(r - z)) <= 1e-7, "root %s of %s is missing from %s", z, c, r)
    for nodes, inc, k in ((U_.cheb_nodes, U_.incremental_cheb_nodes, 2), (U_.cheb_nodes1, U_.incremental_cheb_nodes1, 3)):
        x0 = nodes(n, a, b)
        need(len(x0) == n and np.all(np.diff(x0) > 0) and x0[0] >= a and x0[-1] <= b, "%s(%d, %r, %r) = %s", nodes.__name__, n, a, b, x0)
        n2 = 2 * n - 1 if k == 2 else 3 * n
        x1, x2 = inc(n2, a, b), nodes(n2, a, b)
        X, Y = U_.combine_interpolation_nodes(x0, x0 ** 2, x1, x1 ** 2)
        need(len(X) == n2 and np.max(np.abs(X - x2)) <= 1e-14 * (abs(a) + abs(b)), "%s: refinement %s, expected %s", nodes.__name__, X, x2)
        need(np.array_equal(X ** 2, Y), "merging nodes mixes up values")
        if k == 2:
            X2, Y2 = U_.combine_interpolation_nodes_fast(x0, x0 ** 2, x1, x1 ** 2)
            need(np.array_equal(X, X2) and np.array_equal(Y, Y2), "fast merge %s, merge %s", X2, X)
            V = np.array([x0, 2 * x0])
            X3, Y3 = U_.combine_interpolation_nodes_fast_vector(x0, V, x1, np.array([x1, 2 * x1]))
            need(np.array_equal(X, X3) and np.array_equal(Y3, np.array([X, 2 * X])), "vector merge mixes up values")
    x, wt = U_.chebspace(a, b, n, returnWeights=True)
    need(np.array_equal(x, U_.cheb_nodes(n, a, b)) and len(wt) == n, "chebspace differs from cheb_nodes")
    x1, w1 = U_.chebspace1(a, b, n, returnWeights=True)
    need(np.array_equal(x1, U_.cheb_nodes1(n, a, b)) and len(w1) == n, "chebspace1 differs from cheb_nodes1")
    if n <= 20:
        for X, W in ((x, wt), (x1, w1)):
            full = np.array([1.0 / np.prod([(X[i] - X[j]) / w * 4 for j in range(n) if j != i]) for i in range(n)])
            q = full / W
            need(np.max(np.abs(q / q[0] - 1)) <= 1e-7, "barycentric weights %s are not proportional to %s", W, full)


# ---- infinite ranges and poles -------------------------------------------------------------------------------------------------
DENS = st.sampled_from([["exp", 1.0], ["exp", 0.25], ["exp", 5.0], ["gauss", 1.0], ["gauss", 0.3], ["gauss", 3.0], ["pow", 2.0], ["pow", 3.0], ["pow", 1.5],
                        ["pow", 5.0], ["gam", 1.0], ["gam", 2.0], ["lor", 1.0], ["lor", 2.0], ["zero", 0.0]])


def dens(t):
    k, p = t
    if k == "exp":
        return lambda u: np.exp(-p * u)
    if k == "gauss":
        return lambda u: np.exp(-(u / p) ** 2)
    if k == "pow":
        return lambda u: (1 + abs(u)) ** -p
    if k == "gam":
        return lambda u: abs(u) ** p * np.exp(-u)
    if k == "lor":
        return lambda u: 1.0 / (1 + (u / p) ** 2)
    return lambda u: 0.0 * u


@check("P11", st.fixed_dictionaries({"d": DENS, "c": st.sampled_from([1.0, 0.01, 30.0]), "a": st.sampled_from([0.0, 1.0, -1.0, 5.0, -3.0]),
                                     "left": st.booleans(), "u": st.lists(st.floats(-3, 4).map(lambda v: round(v, 3)), min_size=3, max_size=8), "raw": st.booleans()}),
       quick=2400, thorough=24000,
       rule="half-line interpolators (composite and variable-transform) of exponential, Gaussian, power-law and gamma tails in both directions: "
            "agreement near the end and far out (distance 1e-3 to 1e4), relative agreement in power tails, exact at the nodes, batching; "
            "non-trivial: a non-zero tail")
def halfline(s, rec):
    from pacal import interpolation as I_
    a, left, c = s["a"], s["left"], s["c"]
    g = dens(s["d"])
    sg = -1.0 if left else 1.0
    f = lambda x: c * g(sg * (x - a))
    rec.nontrivial(s["d"][0] != "zero")
    rec.label(s["d"][0])
    if s["raw"]:
        I = I_.ChebyshevInterpolator_MInf(f, a) if left else I_.ChebyshevInterpolator_PInf(f, a)
    else:
        I = I_.MInfInterpolator(f, a) if left else I_.PInfInterpolator(f, a)
    us = np.array([10.0 ** v for v in s["u"]] + [0.0, 0.5])
    x = a + sg * us
    y = np.asarray(I(x.copy()), float)
    ref = np.asarray(f(x), float)
    sc = c * max(1.0, float(np.max(np.abs(g(np.array([0.0, 0.5, 1.0, 2.0]))))))
    for xi, yi, ri in zip(x, y, ref):
        need(abs(yi - ri) <= 2e-6 * sc, "tail interpolant at %r: %r, function %r", xi, yi, ri)
        if not s["raw"] and s["d"][0] in ("pow", "lor") and ri > 0:
            need(abs(yi - ri) <= 1e-3 * ri + 1e-13 * sc, "tail interpolant at %r: %r, function %r (relative)", xi, yi, ri)
    one = np.array([fl(I(float(v))) for v in x])
    need(np.max(np.abs(one - y)) <= 1e-13 * sc, "tail interpolant: %r in an array, %r alone", y, one)
    k = (a + sg * np.arange(0, 12)).astype(int)
    need(np.max(np.abs(np.asarray(I(k), float) - np.asarray(I(k.astype(float)), float))) <= 1e-13 * sc, "tail interpolant at integers %r: %r, as floats %r", k, I(k), I(k.astype(float)))
    need(abs(fl(I(int(k[3]))) - fl(I(float(k[3])))) <= 1e-13 * sc, "tail interpolant at the integer %r: %r, as a float %r", k[3], I(int(k[3])), I(float(k[3])))
    with Py():
        z = np.asarray(I(x.copy()), float)
    need(np.max(np.abs(z - y)) <= 1e-12 * sc, "tail interpolant: compiled %r, pure Python %r", y, z)
    Xs, Ys = I.getNodes()
    Xs, Ys = np.asarray(Xs, float), np.asarray(Ys, float)
    ok = np.isfinite(Xs) & (np.abs(Xs) < 1e6)
    need(np.all(sg * (Xs[ok] - a) >= -1e-9 * (1 + abs(a))), "nodes of the tail on the wrong side of %r", a)
    need(np.max(np.abs(np.asarray(I(Xs[ok].copy()), float) - Ys[ok])) <= 1e-9 * sc, "tail interpolant is not exact at its nodes")
    need(np.max(np.abs(np.asarray(f(Xs[ok]), float) - Ys[ok])) <= 1e-7 * sc, "nodes of the tail: values differ from the function")


@check("P11", st.fixed_dictionaries({"d": DENS, "p": st.sampled_from([0.0, 0.25, 0.5, 0.75, "log"]), "c": st.sampled_from([1.0, 0.01, 30.0]), "a": st.sampled_from([0.0, 1.0, -1.0, 5.0]),
                                     "w": st.sampled_from([1.0, 0.5, 3.0]), "left": st.booleans(), "neg": st.sampled_from([False, False, True]),
                                     "u": st.lists(st.floats(-10, 0).map(lambda v: round(v, 3)), min_size=3, max_size=8)}),
       quick=3000, thorough=30000,
       rule="pole interpolators of |x-a|^-p or -log times a smooth density-like factor, left and right, positive and negative: relative agreement from a "
            "distance of 1e-10 on (1e-7 off zero), derivative away from the pole, nodes; non-trivial: an unbounded function")
def pole(s, rec):
    from pacal import interpolation as I_, params
    a, w, left, p, c = s["a"], s["w"], s["left"], s["p"], s["c"]
    if s["d"][0] == "zero" or s["d"][0] == "gauss" and s["d"][1] * 4 < w:
        return      # nothing but rounding over most of the interval
    g = dens(s["d"]) if s["d"][0] != "gam" else dens(["exp", s["d"][1]])
    rec.nontrivial(p != 0.0)
    sg = 1.0 if left else -1.0
    m = -1.0 if s["neg"] else 1.0

    def f(x):
        u = sg * (x - a)
        h = -np.log(u / w) + 1 if p == "log" else u ** -p if p else 1.0 + 0 * u
        return m * c * h * g(u)
    lo, hi = (a, a + w) if left else (a - w, a)
    with np.errstate(all="ignore"):
        I = (I_.PoleInterpolatorP if left else I_.PoleInterpolatorN)(f, lo, hi, par=params.interpolation_pole)
        us = np.array([w * 10.0 ** v for v in s["u"]] + [w * 0.5, w * 0.99])
        if a != 0:
            us = np.maximum(us, 1e-6)
        x = a + sg * us
        y, ref = np.asarray(I(x.copy()), float), np.asarray(f(x), float)
        sc = float(np.max(np.abs(f(a + sg * w * np.linspace(0.05, 1, 20)))))
        for xi, yi, ri in zip(x, y, ref):
            need(abs(yi - ri) <= 1e-4 * (abs(ri) + sc + 0.2), "pole interpolant at %r: %r, function %r", xi, yi, ri)
        one = np.array([fl(I(float(v))) for v in x])
        need(np.max(np.abs(one - y) / (np.abs(y) + sc)) <= 1e-11, "pole interpolant: %r in an array, %r alone", y, one)
        with Py():
            z = np.asarray(I(x.copy()), float)
        need(np.max(np.abs(z - y) / (np.abs(y) + sc)) <= 1e-10, "pole interpolant: compiled %r, pure Python %r", y, z)
        Xs, Ys = I.getNodes()
        Xs, Ys = np.asarray(Xs, float), np.asarray(Ys, float)
        need(np.all((Xs >= lo) & (Xs <= hi)), "nodes outside [%r, %r]", lo, hi)
        far = np.abs(Xs - a) > 1e-6
        fx = np.asarray(f(Xs[far]), float)
        need(np.max(np.abs(fx - Ys[far]) / (np.abs(fx) + sc)) <= 1e-6, "nodes of the pole interpolant: values %s, function %s", Ys[far][:5], fx[:5])
