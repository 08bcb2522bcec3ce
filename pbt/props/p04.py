"""P04 functions of one random variable."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import check_law, close, need, check_atoms, fl, QS, same_cdf, atoms_of

INF = float("inf")
ASSUMPTIONS = ["scipy.stats laws of the named families", "cdf tolerance 2e-5 for bounded densities, 5e-3 when the density "
               "of the variable or of its image is unbounded"]
ALL = gen.fams(" ".join(sorted(gen.FAMS)))
REAL = gen.weighted(3, gen.anyd(ALL), 1, st.tuples(st.sampled_from([1.0, -1.0, 2.0]), gen.grid(-2, 2, 2), ALL).map(
    lambda t: ["aff", t[0], t[1], t[2]]))
REAL = REAL.filter(lambda s: not laws.law(s).moved)
NN = "U T X2 E G B P F W LL"
NONNEG = gen.weighted(4, gen.fams("X2 E G B P F W LL"), 2, gen.uniform().map(lambda s: ["U", abs(s[1]), abs(s[1]) + s[2] - s[1]]),
                      1, gen.mixed(gen.fams("E B P W")).filter(lambda s: laws.law(s).lo > 0 or (
                          laws.law(s).lo >= 0 and laws.law(s).atom(0.0) == 0)),
                      1, st.lists(gen.grid(0.5, 4, 2), min_size=1, max_size=4, unique=True).flatmap(
                          lambda xs: gen.probs(len(xs)).map(lambda ps: ["disc", xs, ps])))
SEL = st.lists(st.integers(0, 60), min_size=4, max_size=7, unique=True)
TOL, HARD = 2e-5, 5e-3


def fun_law(name, c, X):
    """(reference law, pacal function, conditions under which the result is hard to represent)"""
    import pacal.distr as ds
    if name == "abs":
        return (laws.FunLaw(X, abs, lambda y: [(-y, y)] if y >= 0 else [], [0.0], 0.0), lambda d: abs(d))
    if name == "sq":
        return (laws.FunLaw(X, lambda x: x * x, lambda y: [(-math.sqrt(y), math.sqrt(y))] if y >= 0 else [], [0.0], 0.0),
                lambda d: d ** 2)
    if name == "exp":
        return (laws.FunLaw(X, lambda x: math.exp(min(x, 700.)), lambda y: [(-INF, math.log(y))] if y > 0 else [], [0.0], 0.0),
                ds.exp)
    if name == "rpow":
        a = c
        f = lambda x: a ** x
        if a > 1:
            le = lambda y: [(-INF, math.log(y) / math.log(a))] if y > 0 else []
        else:
            le = lambda y: [(math.log(y) / math.log(a), INF)] if y > 0 else []
        return laws.FunLaw(X, f, le, [0.0], 0.0), lambda d: a ** d
    if name == "log":
        return laws.FunLaw(X, math.log, lambda y: [(-INF, math.exp(min(y, 700.)))]), ds.log
    if name == "sqrt":
        return laws.FunLaw(X, math.sqrt, lambda y: [(-INF, y * y)] if y >= 0 else [], [0.0], 0.0), ds.sqrt
    if name == "pow":
        a = c
        f = lambda x: x ** a
        if a > 0:
            le = lambda y: [(-INF, y ** (1.0 / a))] if y > 0 else []
        else:
            le = lambda y: [(y ** (1.0 / a), INF)] if y > 0 else []
        return laws.FunLaw(X, f, le, [0.0], 0.0), lambda d: d ** a
    if name == "atan":
        return laws.FunLaw(X, math.atan, lambda y: [(-INF, math.tan(y))] if abs(y) < math.pi / 2 else (
            [(-INF, INF)] if y > 0 else []), [-math.pi / 2, math.pi / 2], -math.pi / 2, math.pi / 2), ds.atan
    if name == "tanh":
        return laws.FunLaw(X, math.tanh, lambda y: [(-INF, math.atanh(y))] if abs(y) < 1 else (
            [(-INF, INF)] if y > 0 else []), [-1.0, 1.0], -1.0, 1.0), ds.tanh
    if name == "sigmoid":
        f = lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0
        return laws.FunLaw(X, f, lambda y: [(-INF, math.log(y / (1 - y)))] if 0 < y < 1 else (
            [(-INF, INF)] if y >= 1 else []), [0.0, 1.0], 0.0, 1.0), ds.sigmoid
    if name == "sin":
        # on [-pi/2, 3 pi/2]
        def le(y):
            if y >= 1:
                return [(-INF, INF)]
            if y < -1:
                return []
            return [(-INF, math.asin(y)), (math.pi - math.asin(y), INF)]
        return laws.FunLaw(X, math.sin, le, [-1.0, 1.0], -1.0, 1.0), ds.sin
    if name == "cos":
        def le(y):
            if y >= 1:
                return [(-INF, INF)]
            if y < -1:
                return []
            return [(math.acos(y), 2 * math.pi - math.acos(y))]
        return laws.FunLaw(X, math.cos, le, [-1.0, 1.0], -1.0, 1.0), ds.cos
    if name == "inv":
        def le(y):
            if y == 0:
                return [(-INF, -1e-300)]
            return [(-INF, -1e-300), (1 / y, INF)] if y > 0 else [(1 / y, -1e-300)]
        return laws.FunLaw(X, lambda x: 1.0 / x, le, [0.0]), lambda d: 1 / d
    if name == "tan":
        return laws.FunLaw(X, math.tan, lambda y: [(-INF, math.atan(y))]), ds.tan
    raise KeyError(name)


def verify(name, c, spec, rec, tol=None):
    X = laws.law(spec["a"])
    L, f = fun_law(name, c, X)
    rec.nontrivial(bool(X.conts))
    rec.label("%s %s" % (name, "d" if not X.conts else "m" if X.atoms else "c"))
    d = f(laws.build(spec["a"]))
    hard = not X.smooth or X.heavy or name in (
        "sq", "inv", "pow", "sin", "cos", "sqrt", "tan", "tanh", "sigmoid")
    tol = tol or (HARD if hard else TOL)
    zs = []
    for x in X.quantiles(QS):
        try:
            z = float(L.f(x))
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if np.isfinite(z) and abs(z) < 1e12:
            zs.append(z)
    zs = [zs[i % len(zs)] for i in spec["sel"]]
    check_law(d, L, zs, tol, what=name, support=(L.lo, L.hi), atom_tol=1e-9, pdf_tol=None if hard else 1e-4, pdf_pts=zs[:3])
    # the density at distinguished points: defined, non-negative, the same for scalars and arrays
    ats = [x for x, _ in atoms_of(d)]
    br = [float(b) for b in d.get_piecewise_pdf().getBreaks() if np.isfinite(b)]
    for z in [0.0, 1.0, -1.0] + zs[:2] + br[:3]:
        if any(abs(z - x) < 1e-9 for x in ats):
            continue
        v = fl(d.pdf(z))
        need(not v < -1e-9, "%s: pdf(%r) = %r", name, z, v)
        if not any(abs(z - x) <= 1e-12 for x in br):
            need(not np.isnan(v), "%s: pdf(%r) = %r", name, z, v)
            w = np.asarray(d.pdf(np.array([z, z])), dtype=float)
            need(w.shape == (2,), "%s: pdf of an array has shape %s", name, w.shape)
            close(w[0], v, 1e-12, "%s: pdf of an array against pdf(%r)" % (name, z), rel=1e-9)
            close(w[1], v, 1e-12, "%s: pdf of an array against pdf(%r)" % (name, z), rel=1e-9)


@check("P04", st.fixed_dictionaries({"a": REAL, "f": st.sampled_from(["abs", "sq", "atan", "abs", "sq"]), "sel": SEL}),
       quick=1500, thorough=400000,
       rule="|X|, X**2 and atan(X) for every family, mixture, discrete and shifted variable; non-trivial with a density")
def any_real(spec, rec):
    verify(spec["f"], None, spec, rec)


LIGHT = gen.weighted(3, gen.anyd(gen.fams("U T N E La S B M G")), 1, gen.trapezoid(), 1, gen.uniform())
LIGHT = LIGHT.filter(lambda s: not laws.law(s).moved)


BND = gen.weighted(3, gen.anyd(gen.fams("U T S B M")), 1, gen.trapezoid(), 1, gen.normal).filter(
    lambda s: not laws.law(s).moved)


@check("P04", st.fixed_dictionaries({"a": BND, "f": st.sampled_from(["tanh", "sigmoid"]), "sel": SEL}), quick=1000,
       thorough=400000,
       rule="tanh and sigmoid for bounded and normal variables (an exponential tail turns into a pole at 1 closer than "
            "floating point resolution: known finding); non-trivial with a density")
def squash(spec, rec):
    if laws.law(spec["a"]).lo > -10 or spec.get("_known") or spec["a"][0] == "N":
        verify(spec["f"], None, spec, rec)


@check("P04", st.fixed_dictionaries({"a": LIGHT, "f": st.sampled_from(["exp", "rpow"]),
                                     "c": st.sampled_from([2.0, 0.5, 3.0, 2, 10.0, 0.25]), "sel": SEL}), quick=1000,
       thorough=400000,
       rule="exp and a**X for variables with light tails; non-trivial with a density")
def light_real(spec, rec):
    X = laws.law(spec["a"])
    if X.conts:
        q = [float(v) for w, c in X.conts for v in (c.ppf(1e-4), c.isf(1e-4))]
        k = 1.0 if spec["f"] == "exp" else abs(math.log(spec["c"]))
        if (max(q) - min(q)) * k > 9 and not spec.get("_known"):
            rec.label("image spreads over more than four decades (known to lose accuracy): skipped")
            return
    verify(spec["f"], spec["c"], spec, rec)


@check("P04", st.fixed_dictionaries({"a": NONNEG, "f": st.sampled_from(["log", "sqrt", "pow", "pow", "inv"]),
                                     "c": st.sampled_from([3.0, 0.5, -2.0, 1.5, -0.5, 3, 0.25, -1.0]), "sel": SEL}),
       quick=1500, thorough=400000,
       rule="log, sqrt, powers and inverse of non-negative variables; non-trivial with a density")
def nonneg(spec, rec):
    verify(spec["f"], spec["c"], spec, rec)


@st.composite
def bounded(draw, lo, hi):
    """a variable with values in [lo, hi] (floats), ends often attained"""
    k = draw(st.sampled_from(["U", "U", "B", "T", "disc", "mix", "mixc"]))
    def point(den=8):
        return lo + (hi - lo) * draw(st.integers(0, den)) / den
    def cont(kind):
        i = draw(st.integers(0, 7))
        j = draw(st.integers(i + 1, 8))
        a, b = lo + (hi - lo) * i / 8, lo + (hi - lo) * j / 8
        if kind == "U":
            return ["U", a, b]
        if kind == "T":
            return ["T", a, a + .25 * (b - a), a + .5 * (b - a), b]
        s = draw(st.sampled_from([(2.0, 2.0), (2.0, 1.0), (1.0, 3.0), (3.0, 2.0)]))
        return ["aff", b - a, a, ["B", s[0], s[1]]]
    if k in "UBT":
        return cont(k)
    n = draw(st.integers(1, 3))
    xs = sorted(set(lo + (hi - lo) * draw(st.integers(0, 16)) / 16 for _ in range(n)))
    disc = ["disc", xs, draw(gen.probs(len(xs)))]
    if k == "disc":
        return disc
    if k == "mix":
        return ["mix", draw(gen.probs(2)), [cont("U"), disc]]
    return ["mix", draw(gen.probs(2)), [cont("U"), cont("B")]]


TRIG = st.one_of(st.fixed_dictionaries({"f": st.just("sin"), "a": bounded(-math.pi / 2, 1.5 * math.pi), "sel": SEL}),
                 st.fixed_dictionaries({"f": st.just("cos"), "a": bounded(0.0, 2 * math.pi), "sel": SEL}),
                 st.fixed_dictionaries({"f": st.just("tan"), "a": bounded(-1.5, 1.5), "sel": SEL}))


@check("P04", TRIG, quick=800, thorough=30000,
       rule="sin on [-pi/2, 3pi/2], cos on [0, 2pi], tan on (-pi/2, pi/2) for bounded variables; non-trivial with a density")
def trig(spec, rec):
    verify(spec["f"], None, spec, rec)


@check("P04", st.fixed_dictionaries({"a": REAL}), quick=800, thorough=40000,
       rule="sign(X) has the three probabilities read off the law; non-trivial when both signs are possible")
def sign(spec, rec):
    import pacal.distr as ds
    X = laws.law(spec["a"])
    d = ds.sign(laws.build(spec["a"]))
    rec.nontrivial(X.lo < 0 < X.hi)
    m = float(X.cdfm(0.0))
    p0 = X.atom(0.0)
    ref = [(-1.0, m), (0.0, p0), (1.0, 1 - m - p0)]
    ref = [(x, p) for x, p in ref if p > 1e-9]
    got = [(x, p) for x, p in atoms_of(d) if p > 1e-9]
    tol = 1e-6 if X.smooth else 1e-3
    need(len(ref) == len(got), "sign: got %s, expected %s", got, ref)
    for (x, p), (y, q) in zip(got, ref):
        need(x == y and abs(p - q) < tol, "sign: got %s, expected %s", got, ref)


@check("P04", st.fixed_dictionaries({"a": REAL, "f": st.sampled_from(["log", "sqrt", "pow", "xpow"]),
                                     "c": st.sampled_from([0.5, 1.5, -0.5, 3.0])}), quick=800, thorough=40000,
       rule="log, sqrt and non-integer powers of a variable that is negative with positive probability are rejected; "
            "non-trivial when the negative part has probability below one half")
def domain(spec, rec):
    import pacal.distr as ds
    X = laws.law(spec["a"])
    if not float(X.cdfm(0.0)) > 1e-9:
        rec.label("non-negative")
        return
    rec.nontrivial(float(X.cdfm(0.0)) < 0.5)
    d = laws.build(spec["a"])
    f = {"log": ds.log, "sqrt": ds.sqrt, "pow": lambda v: v ** spec["c"],
         "xpow": lambda v: v ** laws.build(["U", 1.0, 2.0])}[spec["f"]]
    try:
        r = f(d)
        r.get_piecewise_pdf()
    except (ValueError, AssertionError):
        return
    raise Violation("%s of a variable negative with probability %r was accepted" % (spec["f"], float(X.cdfm(0.0))))


ROUND = gen.weighted(3, gen.fams("U T E G B P W X2 LL"), 1, gen.mixed(gen.fams("E B P W"))).filter(
    lambda s: not laws.law(s).moved)


@check("P04", st.fixed_dictionaries({"a": ROUND, "r": st.sampled_from(
    ["exp log", "log exp", "sqrt sq", "sq sqrt", "inv inv", "neg neg", "cube root", "tan atan", "pow pow", "abs neg",
     "rpow log"]), "sel": SEL}), quick=1000, thorough=40000,
       rule="inverse functions undo one another: exp/log, sqrt/square, inverse, negation, powers, tan/atan; "
            "non-trivial with a density")
def roundtrip(spec, rec):
    import pacal.distr as ds
    r = spec["r"]
    X = laws.law(spec["a"])
    if X.lo < 0 or X.atom(0.0) > 0:
        if r in ("exp log", "sq sqrt", "inv inv", "cube root", "pow pow", "sqrt sq", "rpow log"):
            return
    if X.heavy and r in ("log exp", "tan atan"):
        return
    d = laws.build(spec["a"])
    rec.nontrivial(bool(X.conts))
    rec.label(r)
    f = {"exp log": lambda d: ds.exp(ds.log(d)), "log exp": lambda d: ds.log(ds.exp(d)),
         "sqrt sq": lambda d: ds.sqrt(d ** 2), "sq sqrt": lambda d: ds.sqrt(d) ** 2, "inv inv": lambda d: 1 / (1 / d),
         "neg neg": lambda d: -(-d), "cube root": lambda d: (d ** 3) ** (1 / 3.), "tan atan": lambda d: ds.tan(ds.atan(d)),
         "pow pow": lambda d: (d ** -0.5) ** -2, "abs neg": lambda d: abs(-d),
         "rpow log": lambda d: 2.0 ** (ds.log(d) / math.log(2.0))}[r]
    e = f(d)
    L = X
    if r == "abs neg":
        L = fun_law("abs", None, X)[0]
    xs = [x for x in X.quantiles(QS) if np.isfinite(x)]
    xs = [xs[i % len(xs)] for i in spec["sel"]]
    if r == "abs neg":
        xs = [abs(x) for x in xs]
    check_law(e, L, xs, 5e-3 if not X.smooth or X.heavy or X.lo <= 0 else 1e-4, what=r, atom_tol=1e-9, mass=True)
