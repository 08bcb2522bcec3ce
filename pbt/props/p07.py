"""P07 summary statistics are functionals of the law."""
import math
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import close, need, fl, atoms_of

INF = float("inf")
ASSUMPTIONS = ["scipy.stats laws; reference expectations by tanh-sinh quadrature in the quantile variable"]
ALL = gen.fams(" ".join(sorted(gen.FAMS)))
PRIM = gen.weighted(6, ALL, 5, gen.anyd(ALL))


def mom(s):
    """order of the largest existing absolute moment (exclusive)"""
    k = s[0]
    if k == "mix":
        return min(mom(t) for t in s[2])
    if k in ("aff", "gt", "lt", "btw"):
        return mom(s[-1])
    return {"C": 1.0, "L": 0.5, "t": s[1] if k == "t" else 0, "P": s[1] if k == "P" else 0,
            "F": s[2] / 2.0 if k == "F" else 0, "Fr": s[1] if k == "Fr" else 0,
            "LL": s[1] if k == "LL" else 0}.get(k, INF)


def med_scale(L):
    q = []
    for w, c in L.conts:
        q += [float(c.ppf(.25)), float(c.ppf(.75))]
    q += [a for a, _ in L.atoms]
    return max(max(q) - min(q), 1e-3), max(abs(v) for v in q)


@check("P07", st.fixed_dictionaries({"a": PRIM, "k": st.integers(0, 5), "c": gen.grid(-2, 2, 2)}), quick=1500,
       thorough=60000,
       rule="mean, variance, standard deviation, raw and central moments, skewness, kurtosis against reference "
            "expectations where they exist, non-finite where they do not; non-trivial: finite variance")
def moments(spec, rec):
    a = spec["a"]
    L = laws.law(a)
    d = laws.build(a)
    m = mom(a)
    rec.label("moments below order %s" % (m if m < 9 else "inf"))
    unb = not L.smooth
    sc, ab = med_scale(L)
    tol = 2e-4 if unb else 1e-6
    if m <= 1:
        v = fl(d.mean())
        need(not np.isfinite(v), "mean() = %r, but the mean does not exist", v)
        v = fl(d.var())
        need(not np.isfinite(v), "var() = %r, but the variance does not exist", v)
        return
    if m < 2:
        if m < 1.8:
            v = fl(d.var())
            need(not np.isfinite(v), "var() = %r, but the variance is infinite", v)
        return
    mu = L.E(lambda x: x)
    close(d.mean(), mu, (tol if m > 2 else 1e-3) * (sc + ab), "mean")
    if m <= 2:
        return          # a logarithmic divergence is not detected in mixtures
    rec.nontrivial(m > 2)
    va = L.E(lambda x: (x - mu) ** 2)
    if m > 3:
        close(d.var(), va, tol * (sc + ab) ** 2 + 1e-12, "var", rel=tol)
        close(d.std(), math.sqrt(va), tol * (sc + ab) + 1e-7 + (tol * (sc + ab) ** 2) / max(math.sqrt(va), 1e-6), "std", rel=tol)
    k = spec["k"]
    if m > k + 1:
        M = L.E(lambda x: np.abs(x - mu) ** k)
        close(d.moment(k), L.E(lambda x: (x - mu) ** k), tol * (M + 1e-6) * 10 ** (k / 2.) + 1e-9, "central moment %d" % k)
        close(d.moment(k, spec["c"]), L.E(lambda x: (x - spec["c"]) ** k),
              tol * 10 ** (k / 2.) * L.E(lambda x: np.abs(x - spec["c"]) ** k) + 1e-9, "moment %d about %r" % (k, spec["c"]))
        close(d.moment(k, 0), L.E(lambda x: x ** k), tol * 10 ** (k / 2.) * L.E(lambda x: np.abs(x) ** k) + 1e-9,
              "raw moment %d" % k)
    if m > 4.5 and va > 1e-6:
        s = math.sqrt(va)
        close(d.skewness(), L.E(lambda x: ((x - mu) / s) ** 3), 1e2 * tol * (1 + L.E(lambda x: np.abs((x - mu) / s) ** 3)),
              "skewness")
        if m > 6:
            close(d.kurtosis(), L.E(lambda x: ((x - mu) / s) ** 4), 1e2 * tol * (1 + L.E(lambda x: ((x - mu) / s) ** 4)),
                  "kurtosis")


FUNS = {"cos": (np.cos, ()), "abs": (np.abs, (0.0,)), "sin2": (lambda x: np.sin(x) ** 2, ()),
        "expabs": (lambda x: np.exp(-np.abs(x)), (0.0,)), "rat": (lambda x: 1.0 / (1 + x * x), ()),
        "step": (lambda x: np.where(x > 0.0, 1.0, 0.0), (0.0,)), "one": (lambda x: 1.0 + 0 * x, ())}
BND = gen.fams("U T N E La S G B W Gu M t")


@check("P07", st.fixed_dictionaries({"a": gen.weighted(4, BND, 3, gen.anyd(BND)), "f": st.sampled_from(sorted(FUNS)),
                                     "t": st.floats(0.05, 0.95)}),
       quick=1000, thorough=40000,
       rule="meanf(f) for bounded smooth functions and kinked ones at a breakpoint, mgf; non-trivial always")
def expectation(spec, rec):
    from pacal.segments import PiecewiseDistribution
    a = spec["a"]
    L = laws.law(a)
    d = laws.build(a)
    f, kinks = FUNS[spec["f"]]
    rec.nontrivial()
    rec.label(spec["f"])
    if any(L.lo < k < L.hi and k not in L.breaks for k in kinks):
        if any(abs(k - x) < 1e-9 for k in kinks for x, _ in L.atoms):
            return
        tol = 1e-2          # a kink inside a smooth segment limits the quadrature
        if spec["f"] == "step":
            return
    else:
        tol = 1e-6 if L.smooth else 1e-4
    m = mom(a)
    if spec["f"] == "abs" and m < 3:
        return
    if m < 3:
        tol = max(tol, 1e-4)
    if not (np.isfinite(L.lo) and np.isfinite(L.hi)):
        if spec["f"] in ("cos", "sin2") and (m < INF or any(t in str(a) for t in ("'W'", "'La'", "'E'", "'G'", "'Gu'"))):
            return          # oscillation over a long tail is beyond any quadrature in a transformed variable
    close(d.meanf(lambda x: f(x)), L.E(f, kinks), tol * (1 + med_scale(L)[1]), "meanf(%s)" % spec["f"])
    if np.isfinite(L.lo) and np.isfinite(L.hi) and L.conts and L.smooth:
        g = d.mgf()
        br = [b for b in g.getBreaks() if np.isfinite(b)]
        t = br[0] + spec["t"] * (br[-1] - br[0])
        if abs(t) * max(abs(L.lo), abs(L.hi)) < 50:
            close(g(t), L.E(lambda x: np.exp(t * x)), 1e-9, "mgf(%r)" % t, rel=1e-5)
            rec.label("mgf")


@check("P07", st.fixed_dictionaries({"a": PRIM, "lv": st.floats(0.01, 0.45)}), quick=700, thorough=20000,
       rule="median, iqrange, median absolute deviation, range, mode; non-trivial: with a density")
def location(spec, rec):
    a = spec["a"]
    L = laws.law(a)
    d = laws.build(a)
    sc, ab = med_scale(L)
    rec.nontrivial(bool(L.conts))
    tol = 1e-5 if L.smooth and not L.heavy else 2e-3
    md = fl(d.median())
    e = 1e-6 * max(1.0, abs(md))
    need(float(L.cdf(md + e)) >= 0.5 - tol and float(L.cdfm(md - e)) <= 0.5 + tol, "median() = %r, cdf there %r", md,
         float(L.cdf(md)))
    lv = spec["lv"]
    u, v = fl(d.quantile(lv)), fl(d.quantile(1 - lv))
    close(d.iqrange(lv), v - u, 1e-9, "iqrange and quantiles", rel=1e-7)
    for q, p in ((u, lv), (v, 1 - lv)):
        e = 1e-6 * max(1.0, abs(q))
        need(float(L.cdf(q + e)) >= p - tol and float(L.cdfm(q - e)) <= p + tol, "quantile(%r) = %r, cdf there %r", p, q,
             float(L.cdf(q)))
    if not L.moved and not L.poles:
        ad = fl(d.medianad())
        e = 1e-5 * max(1.0, abs(ad), abs(md))
        # the median of |X - median|, up to the indeterminacy of the median itself
        F = lambda r, s: float(L.cdf(md + r)) - float((L.cdf if s else L.cdfm)(md - r))
        flat = float(L.cdf(md + 1e-3 * sc)) - float(L.cdfm(md - 1e-3 * sc)) < 1e-9
        if not flat:
            need(F(ad + e, 0) >= 0.5 - tol * 2 and (ad <= e or F(ad - e, 1) <= 0.5 + tol * 2),
                 "medianad() = %r: P(|X - median| <= .) = %r", ad, F(ad, 0))
            rec.label("medianad")
    r = d.range_()
    close(r[0], L.lo, 1e-9, "range", rel=1e-9)
    close(r[1], L.hi, 1e-9, "range", rel=1e-9)
    # the mode of a bounded unimodal density
    if a[0] in "N T S G B W Gu La E Fr M LL P L t C".split() and L.smooth and a[0] != "U":
        mo = fl(d.mode())
        c = L.conts[0][1]
        xs = c.ppf(np.linspace(0.001, 0.999, 400))
        top = float(np.max(c.pdf(xs)))
        at = max(float(c.pdf(mo)), float(c.pdf(mo - 1e-9 * max(1, abs(mo)))), float(c.pdf(mo + 1e-9 * max(1, abs(mo)))))
        need(at >= top * (1 - 1e-4), "mode() = %r has density %r, the density reaches %r", mo, at, top)
        rec.label("mode")


SM = gen.fams("U T N E La S B G W Gu t C Fr P M X2")


@check("P07", st.fixed_dictionaries({"a": SM, "b": SM, "aff": st.sampled_from([[1.0, 0.0], [2.0, 1.0], [-0.5, 0.25]])}),
       quick=500, thorough=15000,
       rule="entropy, Kullback-Leibler and L2 distances of densities against quadrature; entropy of discrete laws by "
            "enumeration; non-trivial: overlapping supports")
def information(spec, rec):
    s = ["aff"] + spec["aff"] + [spec["a"]]
    P, Q = laws.law(s), laws.law(spec["b"])
    p, q = laws.build(s), laws.build(spec["b"])
    if P.poles or Q.poles:
        return
    cp, cq = P.conts[0][1], Q.conts[0][1]
    far = any(float(c.isf(1e-6)) - float(c.ppf(1e-6)) > 1e4 * (float(c.ppf(.75)) - float(c.ppf(.25))) for c in (cp, cq))
    with np.errstate(all="ignore"):
        h = P.E(lambda x: np.where(cp.pdf(x) > 0, -np.log(cp.pdf(x)), 0.0))
        close(p.entropy(), h, 2e-5 if not far else 1e-2, "entropy")
        ks = sorted(set(P.breaks + Q.breaks))
        ov = min(P.hi, Q.hi) > max(P.lo, Q.lo)
        rec.nontrivial(ov)
        # L2: int (p-q)^2 = E_p(p-q) - E_q(p-q)
        l2 = P.E(lambda x: cp.pdf(x) - cq.pdf(x), ks) - Q.E(lambda x: cp.pdf(x) - cq.pdf(x), ks)
        lt = 5e-2 if min(mom(s), mom(spec["b"])) <= 2 else 2e-2
        close(p.L2_dist(q), math.sqrt(max(l2, 0.0)), lt, "L2 distance")
        close(q.L2_dist(p), math.sqrt(max(l2, 0.0)), lt, "L2 distance")
        close(p.L2_dist(p), 0.0, 1e-6, "L2 distance to itself")
        close(p.KL_dist(p), 0.0, 1e-6, "KL distance to itself")
        if P.lo >= Q.lo and P.hi <= Q.hi and not far and mom(s) > 5:
            # well conditioned cases: the log-likelihood ratio is moderate over all the mass that matters
            f = lambda x: np.where(cp.pdf(x) > 0, np.log(np.maximum(cp.pdf(x), 1e-300)) - np.log(np.maximum(cq.pdf(x), 1e-300)), 0.0)
            lo, hi = cp.ppf(1e-14), cp.isf(1e-14)
            ends = np.concatenate((np.linspace(lo, hi, 41), cp.ppf([1e-9, 1e-6, 1e-4, 1e-3, 1e-2]),
                                   cp.isf([1e-9, 1e-6, 1e-4, 1e-3, 1e-2]), [hi]))
            if np.all(cq.pdf(ends[1:-1]) > 1e-250) and np.max(np.abs(f(ends[1:-1]))) < 600:
                kl = P.E(f, ks)
                close(p.KL_dist(q), kl, 1e-3, "KL distance", rel=1e-4)
                rec.label("KL")
        elif float(cp.cdf(Q.lo)) + float(cp.sf(Q.hi)) > 0.01:
            v = fl(p.KL_dist(q))
            need(v == INF, "KL distance to a density which vanishes on mass %g is %r", float(cp.cdf(Q.lo)) + float(cp.sf(Q.hi)), v)
            rec.label("KL inf")


SML = gen.fams("U T N E La S B G W M")
LIN = gen.weighted(3, SML, 1, gen.discrete(), 1, gen.mixed(SML))


@check("P07", st.fixed_dictionaries({"a": LIN, "b": LIN, "s": st.sampled_from([2.0, -1.0, 0.5, -3.0]),
                                     "c": gen.grid(-2, 2, 2), "op": st.sampled_from("+-*a")}), quick=240, thorough=8000,
       cost=2,
       rule="E[aX+b], Var[aX+b], E[X+Y], Var[X+Y], E[XY], E[X-Y] of computed results; non-trivial with two densities")
def linearity(spec, rec):
    X, Y = laws.law(spec["a"]), laws.law(spec["b"])
    a, b = laws.build(spec["a"]), laws.build(spec["b"])
    s, c = spec["s"], spec["c"]
    rec.nontrivial(bool(X.conts and Y.conts))
    m1, m2 = X.E(lambda x: x), Y.E(lambda x: x)
    v1, v2 = X.E(lambda x: (x - m1) ** 2), Y.E(lambda x: (x - m2) ** 2)
    sc = 1 + abs(m1) + abs(m2) + v1 + v2
    t = (1e-5 if X.smooth and Y.smooth else 2e-3) * sc
    op = spec["op"]
    rec.label(op)
    if op == "a":
        d = s * a + c
        close(d.mean(), s * m1 + c, t * abs(s), "E[sX+c]")
        close(d.var(), s * s * v1, t * s * s, "Var[sX+c]")
    elif op == "+":
        d = a + b
        close(d.mean(), m1 + m2, t, "E[X+Y]")
        close(d.var(), v1 + v2, t, "Var[X+Y]")
    elif op == "-":
        d = a - b
        close(d.mean(), m1 - m2, t, "E[X-Y]")
        close(d.var(), v1 + v2, t, "Var[X-Y]")
    elif not (X.moved or Y.moved or any(p != 0 for p in X.poles + Y.poles)):
        close((a * b).mean(), m1 * m2, t * sc, "E[XY]")


@check("P07", gen.discrete(-3, 3, 2, 5, 1), quick=500, thorough=10000,
       rule="discrete laws: mean, var, moments, entropy, median, mode by enumeration; non-trivial with three atoms")
def discrete_stats(spec, rec):
    x, p = np.array(spec[1]), np.array(spec[2])
    d = laws.build(spec)
    rec.nontrivial(len(x) > 2)
    mu = float(np.dot(x, p))
    va = float(np.dot((x - mu) ** 2, p))
    close(d.mean(), mu, 1e-12, "mean")
    close(d.var(), va, 1e-11, "var")
    close(d.std(), math.sqrt(va), 1e-6, "std")
    for k in range(5):
        close(d.moment(k), np.dot((x - mu) ** k, p), 1e-9, "central moment %d" % k)
        close(d.moment(k, 0.5), np.dot((x - .5) ** k, p), 1e-9, "moment %d about 0.5" % k)
    close(d.meanf(np.cos), np.dot(np.cos(x), p), 1e-12, "meanf(cos)")
    if va > 1e-9:
        close(d.skewness(), np.dot((x - mu) ** 3, p) / va ** 1.5, 1e-8, "skewness")
        close(d.kurtosis(), np.dot((x - mu) ** 4, p) / va ** 2, 1e-8, "kurtosis")
    else:
        for f in (d.skewness, d.kurtosis):
            v = fl(f())
            need(not np.isfinite(v), "skewness or kurtosis of a constant is %r", v)
    mo = fl(d.mode())
    need(mo in list(x) and p[list(x).index(mo)] >= p.max() - 1e-12, "mode() = %r of %s", mo, spec)
    md = fl(d.median())
    need(p[x <= md + 1e-9].sum() >= .5 - 1e-9 and p[x < md - 1e-9].sum() <= .5 + 1e-9, "median() = %r of %s", md, spec)
    r = d.range_()
    need(r[0] == x.min() and r[1] == x.max(), "range %s of %s", r, spec)
    close(d.entropy(), float(-np.dot(p, np.log(p))), 1e-9, "entropy")


def hull(vals):
    v = [x for x in vals if not math.isnan(x)]
    return min(v), max(v)


def image(f, lo, hi):
    """range of f(X) for X with values in [lo, hi], from a grid reaching the ends"""
    core = np.linspace(max(lo, -50.0), min(hi, 50.0), 4001)
    xs = np.concatenate([[lo], core[(core >= lo) & (core <= hi)], [hi], [0.0] if lo <= 0 <= hi else []])
    with np.errstate(all="ignore"):
        v = f(xs)
    return hull([float(t) for t in v])


UN = {"exp": (np.exp, 0), "abs": (np.abs, 0), "sq": (np.square, 0), "atan": (np.arctan, 0), "tanh": (np.tanh, 0),
      "log": (np.log, 1), "sqrt": (np.sqrt, 1), "inv": (None, 0), "neg": (np.negative, 0), "aff": (lambda x: 1.5 - 2 * x, 0)}


def un_obj(f, d):
    import pacal.distr as ds
    return {"exp": ds.exp, "abs": abs, "sq": lambda v: v ** 2, "atan": ds.atan, "tanh": ds.tanh, "log": ds.log,
            "sqrt": ds.sqrt, "inv": lambda v: 1 / v, "neg": lambda v: -v, "aff": lambda v: 1.5 - 2 * v}[f](d)


def un_range(f, r):
    if f == "inv":
        if r[0] < 0 < r[1]:
            return -INF, INF
        return hull([(1 / r[0] if r[0] else INF), (1 / r[1] if r[1] else -INF)])
    return image(UN[f][0], *r)


def bin_range(op, r, s):
    if op == "add":
        return r[0] + s[0], r[1] + s[1]
    if op == "sub":
        return r[0] - s[1], r[1] - s[0]
    if op == "min":
        return min(r[0], s[0]), min(r[1], s[1])
    if op == "max":
        return max(r[0], s[0]), max(r[1], s[1])
    if op == "div":
        s = un_range("inv", s)
    return hull([0.0 if (p == 0 or q == 0) else p * q for p in r for q in s])


NZ = ALL.filter(lambda s: s[0] != "const")
ARG = gen.weighted(3, NZ, 1, NZ.map(lambda s: ["aff", -1.0, 0.5, s]), 1, gen.discrete(-3, 3, 2, 5))


@check("P07", st.fixed_dictionaries({"a": ARG, "b": ARG, "op": st.sampled_from(["add", "sub", "mul", "div", "min", "max"]),
                                     "f": st.sampled_from(sorted(UN)), "g": st.sampled_from(sorted(UN)),
                                     "five": st.booleans()}), quick=2000, thorough=100000,
       rule="range() of functions, arithmetic results and their compositions is the hull of the possible values, and "
            "the five number summary starts and ends there; non-trivial: a finite end",
       cost=2)
def ranges(spec, rec):
    a, b = spec["a"], spec["b"]
    LA, LB = laws.law(a), laws.law(b)
    ra, rb = (LA.lo, LA.hi), (LB.lo, LB.hi)
    da, db = laws.build(a), laws.build(b)
    def chk(d, want, what):
        got = tuple(float(v) for v in d.range())
        for g, w in zip(got, want):
            need(g == w or abs(g - w) <= 1e-3 * max(1.0, abs(w)), "range() of %s is %r, values lie in %r", what, got, want)
        rec.nontrivial(any(np.isfinite(v) for v in want))
    chk(da, ra, "operand")
    f = spec["f"]
    if UN[f][1] and (ra[0] < 0 or a[0] == "disc") or (f == "inv" and a[0] == "disc"):
        f = "atan"
    fa, rfa = un_obj(f, da), un_range(f, ra)
    chk(fa, rfa, f)
    g = spec["g"]
    if UN[g][1] and (rb[0] < 0 or b[0] == "disc") or (g == "inv" and b[0] == "disc"):
        g = "abs"
    gb, rgb = un_obj(g, db), un_range(g, rb)
    chk(gb, rgb, g)
    if spec["op"] == "div" and b[0] == "disc":
        return
    chk(laws.apply_op(spec["op"], fa, gb), bin_range(spec["op"], rfa, rgb), "%s(%s, %s)" % (spec["op"], f, g))
    rec.label(spec["op"])
    if spec["five"] and f in ("exp", "abs", "sq", "atan", "neg", "aff") and LA.smooth and not LA.heavy and LA.conts:
        s = [float(v) for v in fa.five_number_summary()]
        for i, w in ((0, rfa[0]), (4, rfa[1])):
            if np.isfinite(w):
                need(abs(s[i] - w) <= 1e-3 * max(1.0, abs(w)), "five_number_summary() = %r, values lie in %r", s, rfa)
        need(s == sorted(s), "five_number_summary() = %r is not increasing", s)
        rec.label("five number summary")
