"""P05 every constructor yields the law it names."""
import math
import numpy as np
import scipy.stats as sp
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import check_law, close, need, check_atoms, fl, atoms_of

INF = float("inf")
ASSUMPTIONS = ["scipy.stats laws of the named families"]


def F(lo, hi):
    """floats in [lo, hi], round values often"""
    return st.one_of(st.sampled_from([v for v in (0.0, 1.0, 2.0, 0.5, -1.0, 3.0, 10.0, 0.1) if lo <= v <= hi] or [lo]),
                     st.floats(lo, hi, allow_nan=False, allow_infinity=False))


def tup(name, *ss):
    return st.tuples(*ss).map(lambda t: [name] + [float(v) if not isinstance(v, bool) else v for v in t])


LOC = F(-50, 50)
LOC = st.one_of(LOC, st.floats(-50, 50).map(lambda v: round(v, 2)))
SC = F(0.02, 50)
PARAM = {
    "U": st.tuples(LOC, F(0.01, 100)).map(lambda t: ["U", t[0], t[0] + t[1]]),
    "N": tup("N", LOC, SC),
    "T": st.tuples(LOC, F(0, 10), F(0, 10), F(0, 10)).filter(lambda t: t[1] + t[2] + t[3] > 0.1 and all(
        v == 0 or v > 1e-3 for v in t[1:])).map(lambda t: ["T", t[0], t[0] + t[1], t[0] + t[1] + t[2], t[0] + t[1] + t[2] + t[3]]),
    "C": tup("C", SC, LOC),
    "X2": st.one_of(st.sampled_from([1, 2, 3, 4, 5, 7, 10, 20, 50, 100]), F(0.5, 60)).map(lambda d: ["X2", d]),
    "E": tup("E", F(0.02, 50)),
    "G": tup("G", F(0.3, 30), SC),
    "B": tup("B", F(0.3, 20), F(0.3, 20)),
    "P": tup("P", F(0.3, 10), SC),
    "L": tup("L", SC, LOC),
    "La": tup("La", SC, LOC),
    "t": tup("t", F(0.5, 60)),
    "S": tup("S", SC),
    "F": tup("F", F(0.6, 30), F(0.6, 30)),
    "W": tup("W", F(0.4, 10), SC),
    "Gu": tup("Gu", LOC, SC),
    "Fr": tup("Fr", F(0.4, 8), SC, LOC),
    "LL": tup("LL", F(1.0, 10), SC),
    "M": tup("M", F(0.02, 20)),
}
# densities near a support end where the code does not flag a pole or a kink of the derivative are looked up only away
# from it: relative distance below
SEL = st.lists(st.floats(0.001, 0.999), min_size=4, max_size=8)


@check("P05", st.fixed_dictionaries({"a": st.sampled_from(sorted(PARAM)).flatmap(lambda k: PARAM[k]), "u": SEL,
                                     "e": st.lists(st.integers(0, 9), min_size=3, max_size=6)}), quick=2500, thorough=60000,
       rule="named continuous families with random real parameters: density, piecewise density, cdf, total probability, "
            "support, scalar = array; non-trivial always (parameters differ)")
def family(spec, rec):
    a = spec["a"]
    L = laws.law(a)
    fz = L.conts[0][1]
    d = laws.build(a)
    rec.nontrivial()
    rec.label(a[0])
    xs = [float(fz.ppf(u)) for u in spec["u"]] + [float(fz.isf(10.0 ** -k)) for k in spec["e"][:2]]
    xs = [x for x in xs if np.isfinite(x)]
    scale = float(fz.ppf(.75) - fz.ppf(.25))
    if abs(float(fz.ppf(.5))) > 500 * scale:
        rec.label("far from the origin in units of its spread (only the density checked)")
    pp = d.get_piecewise_pdf()
    tol = 1e-6 if L.smooth and not L.heavy else 1e-4
    # quadrature on half lines loses accuracy when the law is far from the origin in units of its spread
    far = abs(float(fz.ppf(.5))) / scale
    tol = tol * (1 + far / 50) if far < 500 else INF
    close(pp.integrate(), 1.0, tol, "total probability")
    arr = np.array(xs)
    pa = np.asarray(d.pdf(arr), dtype=float)
    pw = np.asarray(pp(arr), dtype=float)
    ca = np.asarray(d.cdf(arr), dtype=float)
    for i, x in enumerate(xs):
        ref = float(fz.pdf(x))
        t = 1e-8 * max(ref, 1e-3 / scale) + 1e-13
        near = min([abs(x - b) for b in L.breaks] + [INF]) < 1e-9 * max(1.0, abs(x))
        close(fl(d.cdf(x)), float(fz.cdf(x)), tol, "cdf(%r)" % x)
        close(ca[i], float(fz.cdf(x)), tol, "cdf of array, at %r" % x)
        if near:
            continue
        sens = abs(float(fz.pdf(x + 1e-13 * max(1, abs(x)))) - float(fz.pdf(x - 1e-13 * max(1, abs(x)))))
        close(fl(d.pdf(x)), ref, t + 4 * sens, "pdf(%r)" % x, rel=1e-8)
        close(pa[i], ref, t + 4 * sens, "pdf of array, at %r" % x, rel=1e-8)
        close(pw[i], ref, t + 4 * sens, "piecewise pdf at %r" % x, rel=1e-8)
        close(fl(pp(x)), ref, t + 4 * sens, "piecewise pdf (scalar) at %r" % x, rel=1e-8)
    # outside of the support
    outs = []
    for e, s in ((L.lo, -1), (L.hi, 1)):
        if np.isfinite(e):
            outs += [e + s * abs(scale) * k for k in (1e-6, 0.5, 10.0)] + [e + s * (1e6 + abs(e))]
    for x in outs:
        if min(abs(x - L.lo), abs(x - L.hi)) < 1e-12:
            continue
        for v in (d.pdf(x), pp(x), np.asarray(d.pdf(np.array([x, x])))[0], np.asarray(pp(np.array([x, x])))[1]):
            need(fl(v) == 0.0, "density %r at %r, outside of the support [%r, %r]", fl(v), x, L.lo, L.hi)
        close(d.cdf(x), 0.0 if x < L.lo else 1.0, tol, "cdf(%r) outside of the support" % x)
    # integer arguments are the same numbers
    ks = [k for k in range(-2, 4) if all(abs(k - b) > 1e-9 for b in L.breaks)][:3]
    if ks:
        vi = np.asarray(d.pdf(np.array(ks)), dtype=float)
        for k, v in zip(ks, vi):
            close(v, float(fz.pdf(k)), 1e-9, "pdf of integer array, at %d" % k, rel=1e-8)
            close(d.pdf(k), float(fz.pdf(k)), 1e-9, "pdf(%d)" % k, rel=1e-8)
            close(d.cdf(k), float(fz.cdf(k)), tol, "cdf(%d)" % k)
    r = d.range_()
    if np.isfinite(L.lo):
        close(r[0], L.lo, 1e-9, "lower end of the support", rel=1e-12)
    if np.isfinite(L.hi):
        close(r[1], L.hi, 1e-9, "upper end of the support", rel=1e-12)


def disc_case():
    pr = F(0.01, 0.99)
    return st.one_of(
        st.tuples(st.just("binom"), st.integers(1, 40), st.one_of(pr, st.just(1.0), st.just(0.0))).map(list),
        st.tuples(st.just("poisson"), F(0.05, 300)).map(list),
        st.tuples(st.just("bern"), st.one_of(pr, st.just(1.0), st.just(0.0))).map(list),
        st.tuples(st.just("const"), F(-50, 50)).map(list),
        st.just(["zero"]), st.just(["one"]),
        st.lists(st.floats(-5, 5).map(lambda v: round(v, 3) + 0.0), min_size=1, max_size=6, unique=True).flatmap(
            lambda xs: st.permutations(xs).flatmap(lambda ys: gen.probs(len(ys)).map(lambda ps: ["disc", list(ys), ps]))))


def disc_ref(s):
    k = s[0]
    if k == "binom":
        return [(float(i), float(p)) for i, p in enumerate(sp.binom(s[1], s[2]).pmf(np.arange(s[1] + 1)))]
    if k == "poisson":
        n = int(s[1] + 12 * math.sqrt(s[1]) + 40)
        return [(float(i), float(p)) for i, p in enumerate(sp.poisson(s[1]).pmf(np.arange(n)))]
    if k == "bern":
        return [(0.0, 1 - s[1]), (1.0, s[1])]
    if k == "const":
        return [(float(s[1]), 1.0)]
    if k == "zero":
        return [(0.0, 1.0)]
    if k == "one":
        return [(1.0, 1.0)]
    return sorted(zip(s[1], s[2]))


def disc_build(s):
    import pacal.standard_distr as sd
    import pacal.distr as ds
    k = s[0]
    if k == "binom":
        return sd.BinomialDistr(s[1], s[2])
    if k == "poisson":
        return sd.PoissonDistr(s[1])
    if k == "bern":
        return sd.BernoulliDistr(s[1])
    if k == "const":
        return ds.ConstDistr(s[1])
    if k == "zero":
        return sd.ZeroDistr()
    if k == "one":
        return sd.OneDistr()
    return ds.DiscreteDistr(s[1], s[2])


@check("P05", disc_case(), quick=800, thorough=20000,
       rule="discrete families: atoms, probabilities, pdf(k) and cdf at and between atoms; non-trivial with at least "
            "three atoms")
def discrete_family(spec, rec):
    ref = disc_ref(spec)
    d = disc_build(spec)
    rec.nontrivial(len(ref) > 2)
    rec.label(spec[0])
    got = dict((a, p) for a, p in atoms_of(d))
    for x, p in ref:
        close(got.pop(x, 0.0), p, 1e-12, "P(X=%r)" % x, rel=1e-10)
        close(fl(d.pdf(x)), p, 1e-12, "pdf(%r)" % x, rel=1e-10)
        close(np.asarray(d.pdf(np.array([x, x + .25])))[0], p, 1e-12, "pdf of array, at %r" % x, rel=1e-10)
    for x, p in got.items():
        need(p <= 1e-12, "atom at %r with probability %r is not in the law", x, p)
    c = 0.0
    xs = [x for x, _ in ref]
    close(d.cdf(xs[0] - 0.5), 0.0, 1e-12, "cdf below the support")
    for i, (x, p) in enumerate(ref[:60]):
        c += p
        close(d.cdf(x), c, 1e-11, "cdf at the atom %r" % x)
        nx = xs[i + 1] if i + 1 < len(xs) else x + 1.0
        if nx - x > 1e-6:
            close(d.cdf(x + (nx - x) / 2), c, 1e-11, "cdf between atoms, at %r" % (x + (nx - x) / 2))
    close(d.get_piecewise_pdf().integrate(-1e9, 1e9), 1.0, 1e-11, "total probability")
    close(d.mean(), sum(x * p for x, p in ref), 1e-9, "mean", rel=1e-9)


@check("P05", st.fixed_dictionaries({"kind": st.sampled_from(["fun", "funi", "pdistr", "pdistr2"]),
                                     "k": st.integers(0, 4), "lo": gen.grid(-3, 2, 2),
                                     "w": st.sampled_from([1.0, 2.0, 0.5, 3.0]), "u": SEL}), quick=300, thorough=6000,
       rule="FunDistr and PDistr of a user's density (polynomial, exponential, broken line, kinked): density, cdf, "
            "quantiles; non-trivial always")
def user_density(spec, rec):
    from pacal.standard_distr import FunDistr, PDistr
    from pacal.segments import Segment, PiecewiseDistribution, ConstSegment
    rec.nontrivial()
    lo, w = spec["lo"], spec["w"]
    hi = lo + w
    # unit densities on [0,1] with their cdfs
    pdfs = [(lambda t: 2 * t, lambda t: t * t), (lambda t: 6 * t * (1 - t), lambda t: 3 * t ** 2 - 2 * t ** 3),
            (lambda t: np.exp(-t) / (1 - math.exp(-1)), lambda t: (1 - np.exp(-t)) / (1 - math.exp(-1))),
            (lambda t: 0.5 + t, lambda t: 0.5 * t + t * t / 2),
            (lambda t: np.where(t < 0.5, 4 * t, 4 * (1 - t)), lambda t: np.where(t < .5, 2 * t * t, 1 - 2 * (1 - t) ** 2))]
    p, c = pdfs[spec["k"]]
    f = lambda x: p((x - lo) / w) / w
    bp = [lo, hi] if spec["k"] < 4 else [lo, lo + w / 2, hi]
    k = spec["kind"]
    rec.label("%s %d" % (k, spec["k"]))
    if k in ("fun", "funi"):
        d = FunDistr(f, bp, interpolated=(k == "funi"))
    elif k == "pdistr":
        d = PDistr([Segment(a, b, f) for a, b in zip(bp[:-1], bp[1:])])
    else:
        pd = PiecewiseDistribution([])
        for a, b in zip(bp[:-1], bp[1:]):
            pd.addSegment(Segment(a, b, f))
        d = PDistr(pd)
    for u in spec["u"]:
        x = lo + w * u
        close(d.pdf(x), float(f(x)), 1e-9, "pdf(%r)" % x)
        close(d.get_piecewise_pdf()(x), float(f(x)), 1e-9, "piecewise pdf(%r)" % x)
        close(d.cdf(x), float(c(u)), 1e-9, "cdf(%r)" % x)
        close(d.quantile(float(c(u))), x, 1e-6, "quantile(%r)" % float(c(u)))
    close(d.get_piecewise_pdf().integrate(), 1.0, 1e-10, "total probability")
    close(d.get_piecewise_pdf()(lo - .25), 0.0, 0.0, "density below")
    close(d.get_piecewise_pdf()(hi + .25), 0.0, 0.0, "density above")
    close(d.cdf(lo - .25), 0.0, 0.0, "cdf below")
    close(d.cdf(hi + .25), 1.0, 1e-10, "cdf above")


BAD = [["NormalDistr", [0.0, -1.0]], ["NormalDistr", [1.0, -1e-3]], ["GammaDistr", [-1.0, 1.0]], ["GammaDistr", [0.0, 1.0]],
       ["GammaDistr", [1.0, 0.0]], ["GammaDistr", [1.0, -2.0]], ["ParetoDistr", [0.0, 1.0]], ["ParetoDistr", [1.0, 0.0]],
       ["ParetoDistr", [-1.0, 1.0]], ["ParetoDistr", [1.0, -1.0]], ["LevyDistr", [0.0]], ["LevyDistr", [-1.0]],
       ["LaplaceDistr", [0.0]], ["LaplaceDistr", [-2.0]], ["StudentTDistr", [0.0]], ["StudentTDistr", [-1.0]],
       ["SemicircleDistr", [0.0]], ["SemicircleDistr", [-1.0]], ["WeibullDistr", [0.0, 1.0]], ["WeibullDistr", [1.0, 0.0]],
       ["WeibullDistr", [-1.0, 1.0]], ["WeibullDistr", [1.0, -1.0]], ["GumbelDistr", [0.0, 0.0]], ["GumbelDistr", [0.0, -1.0]],
       ["FrechetDistr", [0.0]], ["FrechetDistr", [1.0, 0.0]], ["FrechetDistr", [-1.0, 1.0]], ["FrechetDistr", [1.0, -1.0]],
       ["LogLogisticDistr", [0.0, 1.0]], ["LogLogisticDistr", [1.0, 0.0]], ["LogLogisticDistr", [-1.0, 1.0]],
       ["LogLogisticDistr", [1.0, -1.0]], ["MollifierDistr", [0.0]], ["MollifierDistr", [-1.0]], ["ChiSquareDistr", [0]],
       ["ChiSquareDistr", [-1]]]


@check("P05", st.tuples(st.sampled_from(BAD), F(0.1, 10)).map(lambda t: [t[0][0], [
    v * t[1] for v in t[0][1]]]), quick=300, thorough=3000,
       rule="parameters outside of the range the constructor documents are rejected; non-trivial always")
def invalid(spec, rec):
    import pacal.standard_distr as sd
    rec.nontrivial()
    rec.label(spec[0])
    try:
        d = getattr(sd, spec[0])(*spec[1])
        d.get_piecewise_pdf()
    except (ValueError, AssertionError, RuntimeError):
        return
    raise Violation("%s%r was accepted" % (spec[0], tuple(spec[1])))
