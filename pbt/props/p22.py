"""P22 sparse grid interpolants reproduce smooth functions of several variables."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation
from .. import gen
from ..cmp import need, fl

ASSUMPTIONS = ["'to tolerance' is the library's own: interpolation_nd.convergence relative 1e-8 of the largest value, checked with a factor for the combination of grids",
               "smooth functions are analytic and vary moderately over the box (rates up to 8 per half width in 1-2 dimensions, 1.4 in 3), so the library's nesting limit suffices"]
NUM = st.sampled_from([0.0, -1.0, 1.0, 0.5, -0.25, 2.0, -2.0, 1.5, 3.0])
LO = st.sampled_from([-1.0, 0.0, -3.0, 2.0, 1.0, -0.5, 10.0, -100.0, 1e-3])
WID = st.sampled_from([2.0, 1.0, 0.5, 4.0, 10.0, 1e-2, 37.0])


@st.composite
def box(draw, dmax=3):
    d = draw(gen.weighted(2, st.just(1), 4, st.just(2), 2, st.just(3)))
    d = min(d, dmax)
    if draw(st.booleans()):
        return {"d": d, "a": None, "b": None}
    a = [draw(LO) for _ in range(d)]
    return {"d": d, "a": a, "b": [x + draw(WID) for x in a]}


@st.composite
def poly(draw):
    b = draw(box())
    d = b["d"]
    terms = {}
    for _ in range(draw(st.integers(1, 4))):
        e = [draw(st.integers(0, 10)) for _ in range(d)]
        if draw(st.integers(0, 2)) == 0:
            e[draw(st.integers(0, d - 1))] = draw(st.integers(11, 20 if d == 3 else 40))
        terms[tuple(e)] = draw(NUM.filter(bool))
    return dict(b, terms=[[c, list(e)] for e, c in sorted(terms.items())])


SLOW = st.sampled_from([0.0, 0.3, -0.6, 1.0, -1.4, 0.9])
FAST = st.sampled_from([0.0, 0.5, -2.0, 3.0, 5.0, 8.0])


@st.composite
def smooth(draw):
    b = draw(box())
    d = b["d"]
    def one():
        fast = d < 3 and draw(st.booleans())
        kinds = ["exp", "cos", "gauss", "prod"] if fast else ["exp", "cos", "gauss", "prod", "ratio", "logistic"]
        return [draw(st.sampled_from(kinds)), draw(NUM.filter(bool)), [draw(FAST if fast else SLOW) for _ in range(d)], draw(st.sampled_from([0.0, 0.4, -0.7]))]
    return dict(b, terms=[one() for _ in range(draw(st.integers(1, 2)))])


PTS = st.lists(st.integers(0, 10 ** 6), min_size=0, max_size=12)


def ends(s):
    return (np.array(s["a"]), np.array(s["b"])) if s["a"] is not None else (-np.ones(s["d"]), np.ones(s["d"]))


def units(s, X):
    """coordinates relative to the box, in [-1, 1]"""
    a, b = ends(s)
    return [(np.asarray(x, dtype=float) - (a[j] + b[j]) / 2) / ((b[j] - a[j]) / 2) for j, x in enumerate(X)]


def fpoly(s):
    def f(*X):
        U = units(s, X)
        y = np.zeros(np.shape(U[0]))
        for c, e in s["terms"]:
            t = c
            for u, k in zip(U, e):
                t = t * u ** k
            y = y + t
        return y
    return f


def fsmooth(s):
    def f(*X):
        U = units(s, X)
        y = np.zeros(np.shape(U[0]))
        for kind, c, r, h in s["terms"]:
            lin = h + sum(k * u for k, u in zip(r, U))
            if kind == "exp":
                t = np.exp(lin)
            elif kind == "cos":
                t = np.cos(lin)
            elif kind == "gauss":
                t = np.exp(-sum((0.5 * k * u - h) ** 2 for k, u in zip(r, U)))
            elif kind == "prod":
                t = 1.0
                for k, u in zip(r, U):
                    t = t * np.sin(k * u + h + 1)
            elif kind == "ratio":
                t = 1 / (12 + lin)
            else:
                t = 1 / (1 + np.exp(-0.6 * lin))
            y = y + c * t
        return y
    return f


def points(s, ns, nodes=()):
    """points of the box: inside, on its faces and corners, on and next to the coordinates of nodes"""
    a, b = ends(s)
    out = []
    for k in ns:
        r = np.random.RandomState(k)
        p = []
        for j in range(s["d"]):
            how = r.randint(7)
            if how == 0:
                v = [a[j], b[j], (a[j] + b[j]) / 2][r.randint(3)]
            elif how in (1, 2) and len(nodes):
                v = nodes[j][r.randint(len(nodes[j]))]
                if how == 2 and r.randint(3) == 0:
                    v = min(b[j], max(a[j], np.nextafter(v, r.choice([-np.inf, np.inf]))))
                elif how == 2:
                    v = min(b[j], max(a[j], v + (b[j] - a[j]) * r.choice([1e-15, -1e-15, 1e-13, -1e-12, 1e-9, 0.0])))
            else:
                v = a[j] + (b[j] - a[j]) * r.rand()
            p.append(float(v))
        out.append(p)
    return out


def grid(s, f):
    from pacal.depvars.sparse_grids import AdaptiveSparseGridInterpolator
    if s["a"] is None:
        return AdaptiveSparseGridInterpolator(f, s["d"])
    return AdaptiveSparseGridInterpolator(f, s["d"], a=s["a"], b=s["b"])


def xs_of(g):
    """coordinates of the nodes"""
    k = g.q - g.d + 1
    return [np.array([g.xroot_cache[j][k][n[j]] for n in g.nodes]) for j in range(g.d)]


def interpolates(s, g, f, pts, tol, rec):
    X = xs_of(g)
    top = max(np.abs(np.asarray(f(*X))).max(), np.abs(g.Ys).max())
    for j in range(s["d"]):
        a, b = ends(s)
        need(X[j].min() >= a[j] and X[j].max() <= b[j], "nodes outside the box: %r %r", X[j].min(), X[j].max())
        need(X[j].min() == a[j] and X[j].max() == b[j], "the nodes do not reach the ends of axis %d: %r %r", j, X[j].min(), X[j].max())
    need(len(set(g.nodes)) == len(g.nodes), "a node is listed twice")
    y = np.asarray(f(*X)) + np.zeros(len(X[0]))
    need(np.abs(g.Ys - y).max() <= 1e-12 * max(top, 1e-300), "stored values differ from f by %r (largest value %r)", np.abs(g.Ys - y).max(), top)
    sel = slice(None, None, max(1, len(y) // 400))
    at = g.interp_at(*[x[sel] for x in X])
    need(at.shape == y[sel].shape, "shape %r at %r nodes", at.shape, y[sel].shape)
    need(np.abs(at - y[sel]).max() <= 1e-10 * max(top, 1e-300), "at a node the interpolant differs from f by %r (largest value %r)", np.abs(at - y[sel]).max(), top)
    nd = [x for x in X]
    for p in points(s, pts, nd):
        v = fl(np.asarray(g.interp_at(*p)))
        w = fl(np.asarray(f(*[np.array([c]) for c in p]))[0] if np.ndim(f(*[np.array([c]) for c in p])) else f(*p))
        need(abs(v - w) <= tol * max(top, 1e-300), "at %r the interpolant is %r, f is %r (largest value %r)", p, v, w, top)
    return X, top


@check("P22", st.tuples(poly(), PTS).map(lambda t: dict(t[0], pts=t[1])), quick=600, thorough=40000, cost=1,
       rule="polynomials in 1-3 variables on any box whose terms have degree up to 10 in each variable, or 11-40 in one and up to 10 in the others (the nested combination of "
            "grids reproduces both exactly); non-trivial: two variables or more")
def polynomials(s, rec):
    f = fpoly(s)
    g = grid(s, f)
    interpolates(s, g, f, s["pts"], 1e-8, rec)
    rec.nontrivial(s["d"] > 1)
    rec.label("q-d=%d" % (g.q - g.d))


@check("P22", st.tuples(smooth(), PTS).map(lambda t: dict(t[0], pts=t[1])), quick=600, thorough=40000, cost=1,
       rule="sums of smooth functions of 1-3 variables on any box, interpolated to tolerance at the nodes, in the box, on its faces, next to nodes; non-trivial: two variables or more")
def smooths(s, rec):
    f = fsmooth(s)
    g = grid(s, f)
    interpolates(s, g, f, s["pts"], 1e-6, rec)
    rec.nontrivial(s["d"] > 1)
    rec.label("q-d=%d" % (g.q - g.d))


def lagrange(xs, x):
    """values at x of the Lagrange polynomials of the nodes xs"""
    w = []
    for i, u in enumerate(xs):
        p = 1.0
        for j, v in enumerate(xs):
            if j != i:
                p *= 4 * (u - v) / (xs[-1] - xs[0])
        w.append(1 / p)
    if any(abs(u - x) < 1e-300 for u in xs):
        return np.array([1.0 if abs(u - x) < 1e-300 else 0.0 for u in xs])
    t = np.array([wi / (x - u) for wi, u in zip(w, xs)])
    return t / t.sum()


@st.composite
def evaluation(draw):
    b = draw(box())
    return dict(b, up=draw(st.integers(0, 2 if b["d"] < 3 else 1)), seed=draw(st.integers(0, 10 ** 6)),
                shape=draw(st.sampled_from([[], [1], [0], [2], [7], [3, 2], [2, 1, 3], [1, 1]])), pts=draw(st.integers(0, 10 ** 6)))


@check("P22", evaluation(), quick=800, thorough=20000, cost=1,
       rule="nested grids of 0-2 extra levels with arbitrary values at the nodes, evaluated at scalars and arrays of any shape through interp_at, and per subgrid through the "
            "general, the optimised and the compiled formula, against tensor products of Lagrange polynomials; non-trivial: two variables or more")
def evaluations(s, rec):
    from pacal.depvars import sparse_grids as sg
    g = sg.AdaptiveSparseGridInterpolator.__new__(sg.AdaptiveSparseGridInterpolator)
    a, b = ends(s)
    d = s["d"]
    g.adaptive_init(lambda *X: np.zeros(np.shape(X[0])), d, a, b)
    for _ in range(s["up"]):
        g.exps.append(g.ni)
        g.cheb_weights_cache.append(sg.cheb_weights(g.ni))
        for j in range(d):
            g.xroot_cache[j].append(sg.cheb_nodes(g.ni, a[j], b[j]))
        g.ni = 2 * g.ni - 1
        g.q += 1
        g.nodes, g.subgrid_map = g.get_nodes(g.q)
    r = np.random.RandomState(s["seed"])
    g.Ys = r.uniform(-1, 1, len(g.nodes))
    n = int(np.prod(s["shape"])) if s["shape"] else 1
    X = xs_of(g)
    P = points(s, [s["pts"] + i for i in range(n)], X)
    cols = [np.array([p[j] for p in P], dtype=float).reshape(s["shape"]) for j in range(d)]
    coef, ref, scale, memo = 0, np.zeros(n), 0.0, {}
    for p, (c, idx) in g.subgrid_map.items():
        need(len(idx) == np.prod([g.exps[e] for e in p]), "subgrid %r has %d nodes, its axes %r", p, len(idx), [g.exps[e] for e in p])
        coef += c
        axes = []
        for j, e in enumerate(p):
            k = g.q - d + 1
            xs = sorted(set(X[j][i] for i in idx))
            need(len(xs) == g.exps[e], "subgrid %r has %d distinct coordinates on axis %d, not %d", p, len(xs), j, g.exps[e])
            axes.append(xs)
        order = sorted(range(len(idx)), key=lambda i: tuple(X[j][idx[i]] for j in range(d)))
        vals = g.Ys[[idx[i] for i in order]].reshape([len(x) for x in axes])
        mine = []
        for q in P:
            v = vals
            for j in range(d):
                key = (j, tuple(axes[j]), q[j])
                if key not in memo:
                    memo[key] = lagrange(axes[j], q[j])
                v = np.tensordot(memo[key], v, axes=([0], [0]))
            mine.append(float(v))
        mine = np.array(mine)
        ref += c * mine
        if n:
            scale = max(scale, np.abs(mine).max())
            flat = [x.ravel() for x in cols]
            new = g.full_grid_interp_new(p, g.Ys[idx], flat, {})
            general = g.full_grid_interp(p, g.Ys[idx], flat, {})
            was = sg.have_Cython
            sg.have_Cython = False
            try:
                plain = g.full_grid_interp(p, g.Ys[idx], flat, {})
            finally:
                sg.have_Cython = was
            for name, v in [("optimised", new), ("compiled" if was else "general", general), ("general", plain)]:
                need(np.shape(v) == (n,), "%s formula returns shape %r for %d points", name, np.shape(v), n)
                worst = int(np.argmax(np.where(np.isnan(v), np.inf, np.abs(v - mine))))
                need(abs(v[worst] - mine[worst]) <= 1e-8 * max(1.0, np.abs(mine).max()), "%s formula on subgrid %r at %r: %r, reference %r", name, p, P[worst], v[worst], mine[worst])
    need(abs(coef - 1) < 1e-12, "the coefficients of the subgrids add up to %r", coef)
    out = np.asarray(g.interp_at(*cols))
    need(out.shape == tuple(s["shape"]), "interp_at returns shape %r for arguments of shape %r", out.shape, s["shape"])
    if n:
        need(np.abs(out.ravel() - ref).max() <= 1e-7 * max(1.0, scale), "interp_at %r, reference %r at %r", out.ravel(), ref, P)
        one = np.asarray(g.interp_at(*P[0]))
        need(one.shape == () and abs(float(one) - ref[0]) <= 1e-7 * max(1.0, scale), "interp_at of scalars %r: %r, reference %r", P[0], one, ref[0])
    rec.nontrivial(d > 1)
    rec.label("level %d" % s["up"])
