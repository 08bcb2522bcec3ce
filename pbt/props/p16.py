"""P16 random sampling."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import close, need, fl, atoms_of

ASSUMPTIONS = ["numpy's generator is a source of independent uniform numbers; it is seeded from the case, so a verdict is reproducible",
               "Dvoretzky-Kiefer-Wolfowitz bound: a correct sampler exceeds the threshold with probability below 1e-10 per case",
               "sampling by inverse cdf may have an error of 5e-3 in the cdf (interpolated inverse)"]
ALL = gen.fams(" ".join(sorted(gen.FAMS)))
ANY = gen.anyd(ALL)
SEED = st.integers(0, 2 ** 31 - 1)


def eps(n):
    return math.sqrt(math.log(2e10) / (2.0 * n))


def ks(x, cdf, cdfm, tol, what, grid):
    """empirical against true distribution at the grid points, from the left and the right"""
    x = np.sort(np.asarray(x, dtype=float))
    need(np.isfinite(x).all(), "%s: %d samples are not finite", what, int((~np.isfinite(x)).sum()))
    n = float(len(x))
    t = eps(n) + tol
    for z in grid:
        d = 1e-9 * max(1.0, abs(z))
        lo, hi = np.searchsorted(x, z - d, "left") / n, np.searchsorted(x, z + d, "right") / n
        if hi < cdf(z) - t:
            raise Violation("%s: %.4f of %d samples are <= %r, the cdf is %.4f" % (what, hi, n, z, cdf(z)))
        if lo > cdfm(z) + t:
            raise Violation("%s: %.4f of %d samples are < %r, the probability is %.4f" % (what, lo, n, z, cdfm(z)))


U = [.001, .01, .05, .1, .2, .3, .4, .5, .6, .7, .8, .9, .95, .99, .999]


def grid_of(L):
    return sorted(set([z for z in L.quantiles(U) if np.isfinite(z)] + [a for a, _ in L.atoms]))


def draw(d, n, seed, how):
    np.random.seed(seed)
    r = d.rand_invcdf(n) if how == "invcdf" else d.rand(n)
    if n is None:
        r = np.asarray(r)
        need(r.size == 1, "a single draw gives %r", r)
        return r.ravel()
    need(np.shape(r) == (n,), "%d draws were asked for, the result has shape %r", n, np.shape(r))
    return r


def inside(x, L, what):
    lo, hi = float(np.min(x)), float(np.max(x))
    need(np.isfinite(lo) and np.isfinite(hi), "%s: samples from %r to %r", what, lo, hi)
    need(float(L.cdf(lo + 1e-9 * max(1.0, abs(lo)))) > 0, "%s: sample %r is below the support", what, lo)
    need(float(L.cdfm(hi - 1e-9 * max(1.0, abs(hi)))) < 1, "%s: sample %r is above the support", what, hi)


@check("P16", st.fixed_dictionaries({"x": ANY, "seed": SEED}), quick=600, thorough=20000, cost=1,
       rule="40000 draws of a primitive, mixed, mixture or discrete variable against its reference cdf at 15 quantiles and all atoms; support; every case non-trivial")
def law(s, rec):
    x = s["x"]
    rec.nontrivial()
    rec.label(x[0])
    L = laws.law(x)
    r = draw(laws.build(x), 40000, s["seed"], "rand")
    inside(r, L, x)
    inv = x[0] in ("T", "M") or "T" in repr(x) or "M" in repr(x)
    ks(r, lambda z: float(L.cdf(z)), lambda z: float(L.cdfm(z)), 5e-3 if inv else 1e-9, "%s" % x, grid_of(L))


SMO = gen.fams("U N E G B La S W Gu T M X2 t")


@check("P16", st.fixed_dictionaries({"x": gen.weighted(3, SMO, 1, gen.mixed(SMO), 1, gen.discrete()), "seed": SEED, "n": st.sampled_from([None, 1, 2, 7, 10000, 10000])}), quick=150, thorough=4000, cost=3,
       rule="draws by inverse cdf of continuous, mixed and discrete variables; non-trivial: more than 100 draws")
def invcdf(s, rec):
    x, n = s["x"], s["n"]
    L = laws.law(x)
    if n and L.conts and L.atoms:
        n = min(n, 600)
    rec.nontrivial((n or 1) > 100)
    r = draw(laws.build(x), n, s["seed"], "invcdf")
    inside(r, L, x)
    if (n or 1) > 100:
        ks(r, lambda z: float(L.cdf(z)), lambda z: float(L.cdfm(z)), 5e-3, "rand_invcdf of %s" % x, grid_of(L))


@check("P16", st.fixed_dictionaries({"x": ANY, "n": st.sampled_from([None, 0, 1, 2, 3, 17]), "seed": SEED}), quick=400, thorough=8000,
       rule="number and shape of draws: n = None (one number), 0, 1, 2, ...; equal seeds give equal draws; non-trivial: n is None or small")
def shape(s, rec):
    x, n = s["x"], s["n"]
    rec.nontrivial()
    L = laws.law(x)
    d = laws.build(x)
    r = draw(d, n, s["seed"], "rand")
    if len(r):
        inside(r, L, x)
    r2 = draw(d, n, s["seed"], "rand")
    need(np.array_equal(r, r2), "%s: equal seeds give %r and %r", x, r, r2)
    if n is None:
        need(np.ndim(d.rand()) == 0 and np.ndim(d.rand(None)) == 0, "%s: rand() is not a single number: %r", x, d.rand())


@check("P16", st.fixed_dictionaries({"x": gen.weighted(3, SMO, 1, gen.mixed(SMO), 1, gen.discrete()), "c": st.sampled_from(["gt", "lt", "between"]),
                                     "u": st.lists(st.sampled_from([.05, .2, .35, .5, .7, .85, .97]), min_size=2, max_size=2, unique=True), "seed": SEED}),
       quick=120, thorough=3000, cost=4,
       rule="4000 draws of conditional variables against the restricted law; non-trivial: the condition removes probability")
def conditional(s, rec):
    from pacal.distr import Gt, Lt, Between
    L = laws.law(s["x"])
    q = sorted(L.quantiles(s["u"]))
    lo, hi = q[0], q[-1]
    if not lo < hi and s["c"] == "between":
        return
    if not L.smooth:
        raise Inconclusive("accuracy of the inverse cdf near a pole")
    lo, hi = {"gt": (lo, np.inf), "lt": (-np.inf, hi), "between": (lo, hi)}[s["c"]]
    P = lambda z, left: float(L.cdfm(z) if left else L.cdf(z))
    a = P(lo, False) if np.isfinite(lo) else 0.0
    b = P(hi, True) if np.isfinite(hi) else 1.0
    rec.nontrivial(b - a < 1)
    if b - a < 0.01:
        return
    d = laws.build(s["x"])
    c = d | {"gt": lambda: Gt(lo), "lt": lambda: Lt(hi), "between": lambda: Between(lo, hi)}[s["c"]]()
    r = draw(c, 600 if L.conts and L.atoms else 4000, s["seed"], "rand")
    e = 1e-7 * max(1.0, abs(lo) if np.isfinite(lo) else 1, abs(hi) if np.isfinite(hi) else 1)
    need((r >= lo - e).all() and (r <= hi + e).all(), "samples from %r to %r under the condition (%r, %r)", float(r.min()), float(r.max()), lo, hi)
    F = lambda z, left: min(1.0, max(0.0, (P(z, left) - a) / (b - a)))
    ks(r, lambda z: F(z, False), lambda z: F(z, True), 5e-3, "%s | (%r, %r)" % (s["x"], lo, hi), [z for z in grid_of(L) if lo < z < hi])


# expressions ------------------------------------------------------------------------------------------------------
BIN = ["add", "sub", "mul", "div", "min", "max"]
UN = ["neg", "abs", "sq", "exp", "scale", "shift", "inv", "sqrtabs", "atan", "tanh", "sign", "logabs", "rsub", "rdiv", "cube"]
LEAF = gen.weighted(6, gen.fams("U N E G B La T C W P t"), 1, gen.discrete().map(lambda d: ["disc", [v if v else 0.25 for v in d[1]], d[2]] if len(set(v if v else .25 for v in d[1])) == len(d[1]) else d))


def tree(depth, nl):
    leaf = st.integers(0, nl - 1).map(lambda i: ["v", i])
    return st.recursive(leaf, lambda t: st.one_of(st.tuples(st.sampled_from(BIN), t, t).map(list), st.tuples(st.sampled_from(BIN), t, t).map(list),
                                                  st.tuples(st.sampled_from(UN), t).map(list)), max_leaves=depth)


def p_eval(t, vs, memo):
    """the pacal expression; equal subtrees become one object"""
    import pacal
    k = repr(t)
    if k not in memo:
        if t[0] == "v":
            r = vs[t[1]]
        else:
            a = p_eval(t[1], vs, memo)
            if t[0] in BIN:
                r = laws.apply_op(t[0], a, p_eval(t[2], vs, memo))
            else:
                r = {"neg": lambda: -a, "abs": lambda: abs(a), "sq": lambda: a ** 2, "exp": lambda: pacal.exp(a), "scale": lambda: 2.5 * a, "shift": lambda: a - 1.5,
                     "inv": lambda: 1 / a, "sqrtabs": lambda: pacal.sqrt(abs(a)), "atan": lambda: pacal.atan(a), "tanh": lambda: pacal.tanh(a),
                     "sign": lambda: pacal.sign(a), "logabs": lambda: pacal.log(abs(a)), "rsub": lambda: 3 - a, "rdiv": lambda: 2 / a, "cube": lambda: abs(a) ** 3}[t[0]]()
        memo[k] = r
    return memo[k]


def n_eval(t, vs):
    if t[0] == "v":
        return vs[t[1]]
    a = n_eval(t[1], vs)
    if t[0] in BIN:
        b = n_eval(t[2], vs)
        return {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide, "min": np.minimum, "max": np.maximum}[t[0]](a, b)
    return {"neg": lambda: -a, "abs": lambda: abs(a), "sq": lambda: a ** 2, "exp": lambda: np.exp(a), "scale": lambda: 2.5 * a, "shift": lambda: a - 1.5, "inv": lambda: 1 / a,
            "sqrtabs": lambda: np.sqrt(abs(a)), "atan": lambda: np.arctan(a), "tanh": lambda: np.tanh(a), "sign": lambda: np.sign(a),
            "logabs": lambda: np.log(abs(a)), "rsub": lambda: 3 - a, "rdiv": lambda: 2 / a, "cube": lambda: abs(a) ** 3}[t[0]]()


def size(t):
    return 0 if t[0] == "v" else 1 + sum(size(u) for u in t[1:])


def has(t, ops):
    return t[0] in ops or any(has(u, ops) for u in t[1:] if isinstance(u, list))


def used(t):
    return [t[1]] if t[0] == "v" else [i for u in t[1:] for i in used(u)]


def track(d, seen):
    """dependence tracking on every node"""
    if id(d) not in seen:
        seen[id(d)] = d
        d.indep = False
        for p in list(getattr(d, "parents", [])) + [getattr(d, "d", None), getattr(d, "d1", None), getattr(d, "d2", None)]:
            if p is not None and hasattr(p, "rand"):
                track(p, seen)


@check("P16", st.fixed_dictionaries({"vs": st.lists(LEAF, min_size=1, max_size=3), "t": st.integers(1, 3).flatmap(lambda n: tree(6, n)), "seed": SEED,
                                     "par": st.booleans(), "order": st.booleans()}), quick=1200, thorough=30000,
       rule="expression trees with shared variables and subexpressions, dependence tracking on, drawn with one cache: the draw of the expression equals the expression "
            "of the drawn variables; non-trivial: a variable occurs more than once")
def shared(s, rec):
    from pacal import params
    t = s["t"]
    nv = len(s["vs"])
    vs = [laws.build(s["vs"][i % nv]) for i in range(3)]
    us = used(t)
    rec.nontrivial(len(us) > len(set(us)))
    old = params.general.parallel
    with np.errstate(all="ignore"):
        try:
            params.general.parallel = s["par"]
            try:
                e = p_eval(t, vs, {})
            except (ZeroDivisionError, ValueError, OverflowError):
                raise Inconclusive("refused")
            if not hasattr(e, "rand"):
                raise Inconclusive("constant")
            track(e, {})
            for v in vs:
                v.indep = False
            cache = {}
            np.random.seed(s["seed"])
            n = 40
            if s["order"]:
                r = e.rand(n, cache)
                xs = [v.rand(n, cache) for v in vs]
            else:
                xs = [v.rand(n, cache) for v in vs]
                r = e.rand(n, cache)
            x2 = [v.rand(n, cache) for v in vs]
        finally:
            params.general.parallel = old
        for a, b in zip(xs, x2):
            need(np.array_equal(a, b), "two draws of a variable from one cache differ")
        need(np.shape(r) == (n,), "shape %r", np.shape(r))
        ref = n_eval(t, [np.asarray(x, dtype=float) for x in xs])
        # rounding is amplified by cancellation: compare only where the expression is stable
        pert = n_eval(t, [np.asarray(x, dtype=float) * (1 + 1e-13) for x in xs])
        ok = np.isfinite(ref) & np.isfinite(pert) & (abs(pert - ref) <= 1e-8 * np.maximum(1e-3, abs(ref)))
        bad = ok & ~(abs(r - ref) <= 1e-6 * np.maximum(1e-3, abs(ref)))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            raise Violation("%s of %s: drawn %r, expected %r" % (t, [float(x[i]) for x in xs], float(r[i]), float(ref[i])))


@check("P16", st.fixed_dictionaries({"x": LEAF, "y": LEAF, "seed": SEED, "op": st.sampled_from(["add", "sub", "mul", "min"]), "dep": st.booleans()}), quick=300, thorough=8000,
       rule="distinct variables are drawn independently, in one cache or in one expression: joint frequencies of four quadrants; every case non-trivial")
def independent(s, rec):
    rec.nontrivial()
    X, Y = laws.law(s["x"]), laws.law(s["y"])
    x, y = laws.build(s["x"]), laws.build(s["y"])
    n = 20000
    np.random.seed(s["seed"])
    cache = {}
    if s["dep"]:
        x.indep = y.indep = False
        e = laws.apply_op(s["op"], x, y)
        e.indep = False
        e.rand(n, cache)
    a, b = x.rand(n, cache), y.rand(n, cache)
    for u in (.2, .5, .9):
        for v in (.3, .7):
            zx, zy = X.quantiles([u])[0], Y.quantiles([v])[0]
            p = float(((a <= zx) & (b <= zy)).mean())
            q = float((a <= zx).mean()) * float((b <= zy).mean())
            close(p, q, 3 * eps(n), "P(X<=%r, Y<=%r)" % (zx, zy))


SIM = gen.fams("U N E B La S T")
SIMD = gen.weighted(4, SIM, 1, gen.discrete(), 1, gen.mixed(SIM))


@check("P16", st.fixed_dictionaries({"x": SIMD, "y": SIMD, "op": st.sampled_from(["add", "sub", "mul", "min", "max"]), "same": st.booleans(),
                                     "f": st.sampled_from([None, None, "neg", "abs", "sq", "exp", "scale", "shift", "atan", "tanh", "rsub"]), "seed": SEED}),
       quick=120, thorough=3000, cost=4,
       rule="20000 draws of an operation with independent arguments (the default), also applied to one variable twice, followed by a function, "
            "against the reference law; every case non-trivial")
def operation(s, rec):
    rec.nontrivial()
    x, y, op = s["x"], s["x"] if s["same"] else s["y"], s["op"]
    X, Y = laws.law(x), laws.law(y)
    dx = laws.build(x)
    dy = dx if s["same"] else laws.build(y)
    e = laws.apply_op(op, dx, dy)
    R = laws.OpLaw(op, X, Y)
    f = s["f"]
    if f:
        e = p_eval([f, ["v", 0]], [e], {})
    r = draw(e, 20000, s["seed"], "rand")
    np.random.seed(s["seed"] ^ 12345)
    pts = np.sort(np.random.permutation(r)[:12])
    R2 = R if not f else laws.FunLaw(f, R) if False else None
    if f:
        one = n_eval([f, ["v", 0]], [draw(laws.apply_op(op, laws.build(x), laws.build(y)), 20000, s["seed"] + 1, "rand")])
        one = np.sort(one)
        n = float(len(one))
        q = np.sort(r)
        for z in pts:
            d = 1e-9 * max(1.0, abs(z))
            h1, h2 = np.searchsorted(q, z + d, "right") / n, np.searchsorted(one, z + d, "right") / n
            close(h1, h2, 2 * eps(n), "%s of %s: fraction of samples <= %r and of the function of separate samples" % (f, op, z))
    else:
        ats = sorted(set(a for a, _ in R.atoms))
        zs = [float(z) for z in pts]
        zs = [z for z in zs if all(abs(z - a) > 1e-7 * max(1, abs(a)) for a in ats)]
        ks(r, lambda z: float(R.cdf(z)) if z not in ats else float(R.cdf(z + 1e-9 * max(1, abs(z)))), lambda z: float(R.cdf(z)) if z not in ats else float(R.cdf(z - 1e-9 * max(1, abs(z)))),
           5e-3, "%s of %s and %s" % (op, x, y), zs + ats)
