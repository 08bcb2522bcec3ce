"""P08 conditioning and mixing."""
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import check_law, op_points, close, need, check_atoms, fl, QS, same_cdf, atoms_of

ASSUMPTIONS = ["scipy.stats laws of the named families", "conditions are strict: an atom at the threshold is excluded"]
ALL = gen.fams(" ".join(sorted(gen.FAMS)))
ANY = gen.anyd(ALL)
SEL = st.lists(st.integers(0, 5), min_size=3, max_size=5, unique=True)
PQ = st.sampled_from([-1.0, 0.02, 0.05, 0.1, 0.25, 0.375, 0.5, 0.61803, 0.75, 0.8, 0.95, 2.0])


def threshold(L, q, snap, rng):
    """a threshold: a quantile, an atom or breakpoint near it, or a point beyond the support."""
    if q < 0:
        return L.lo - 0.75 if np.isfinite(L.lo) else None
    if q > 1:
        return L.hi + 0.75 if np.isfinite(L.hi) else None
    x = float(L.quantiles([q])[0])
    if snap:
        c = [a for a, _ in L.atoms] + [b for b in L.breaks if np.isfinite(b)]
        if c:
            return min(c, key=lambda v: abs(v - x))
        return round(x * 2) / 2
    return x


def tols(L):
    return 2e-5 if L.smooth else 5e-3


def snapshot(d, L):
    zs = [z for z in L.quantiles(QS)] + [a for a, _ in L.atoms]
    pp = d.get_piecewise_pdf()
    return ([type(s).__name__ for s in pp.segments], list(pp.getBreaks()), [float(s.f) for s in pp.getDiracs()],
            [fl(d.cdf(z)) for z in zs], [fl(pp(z)) for z in zs])


def prob_of(L, lo, hi):
    p = sum(w for x, w in L.atoms if lo < x < hi)
    for w, c in L.conts:
        a = float(c.cdf(lo)) if np.isfinite(lo) else 0.0
        b = float(c.cdf(hi)) if np.isfinite(hi) else 1.0
        p += w * (b - a)
    return p


def rejected(f):
    try:
        d = f()
        pp = d.get_piecewise_pdf()
        m = pp.integrate()
        v = [m, fl(d.cdf(0.0)), fl(d.cdf(1e9))]
    except Exception:
        return None
    return v


@check("P08", st.fixed_dictionaries({"a": ANY, "kind": st.sampled_from(["gt", "lt", "btw"]), "q": st.tuples(PQ, PQ),
                                     "snap": st.tuples(st.booleans(), st.booleans()), "sel": SEL}),
       quick=3000, thorough=60000,
       rule="X|Gt(a), X|Lt(b), X|Between(a,b) of every family, reflected, mixed and discrete laws; thresholds at quantiles, "
            "atoms, breakpoints and beyond the support; the operand is unchanged; non-trivial: 0.01 < P(event) < 0.999")
def condition(spec, rec):
    from pacal.distr import Gt, Lt, Between
    L = laws.law(spec["a"])
    k = spec["kind"]
    q = sorted(spec["q"])
    a = threshold(L, q[0], spec["snap"][0], rec)
    b = threshold(L, q[1], spec["snap"][1], rec)
    if a is None or b is None:
        return
    if k == "gt":
        lo, hi, c = a, np.inf, Gt(a)
    elif k == "lt":
        lo, hi, c = -np.inf, b, Lt(b)
    else:
        if not a < b:
            return
        lo, hi, c = a, b, Between(a, b)
    p = prob_of(L, lo, hi)
    d = laws.build(spec["a"])
    if p <= 0:
        rec.label("impossible event")
        v = rejected(lambda: d | c)
        need(v is None or not np.isfinite(v[0]), "%s %s of %s has probability 0 but was accepted: total, cdf(0), cdf(1e9) = %s", k, (lo, hi), spec["a"], v)
        return
    if p < 0.01:
        return
    rec.nontrivial(p < 0.999)
    rec.label(k)
    if any(x in (lo, hi) for x, _ in L.atoms):
        rec.label("atom at the threshold")
    before = snapshot(d, L)
    e = d | c
    R = laws.restrict(L, lo, hi)
    xs = R.quantiles(QS)
    zs = [xs[i % len(xs)] for i in spec["sel"]]
    t = tols(R) / min(1.0, 3 * p)
    check_law(e, R, zs, t, what=k, support=(R.lo, R.hi), atom_tol=1e-8)
    after = snapshot(d, L)
    need(before == after, "conditioning changed the original distribution: %s -> %s", before, after)


@check("P08", st.fixed_dictionaries({"a": gen.weighted(3, gen.fams("U T N E La S G B W Gu C t P"), 2, gen.mixed(gen.fams("U N E T")),
                                                       1, gen.discrete(-3, 3, 2, 6, 4)),
                                     "q": st.tuples(PQ, PQ), "snap": st.tuples(st.booleans(), st.booleans())}),
       quick=1600, thorough=30000,
       rule="Gt then Lt, Lt then Gt and Between agree; (X|c)|c = X|c; affine images commute with conditions; chain rule "
            "P(X>b) = P(X>a) P(X>b | X>a); non-trivial: 0.01 < P < 0.999")
def algebra(spec, rec):
    from pacal.distr import Gt, Lt, Between
    L = laws.law(spec["a"])
    q = sorted(spec["q"])
    a, b = threshold(L, q[0], spec["snap"][0], rec), threshold(L, q[1], spec["snap"][1], rec)
    if a is None or b is None or not a < b:
        return
    p = prob_of(L, a, b)
    if p < 0.02 or prob_of(L, a, np.inf) < 0.02 or prob_of(L, -np.inf, b) < 0.02:
        return
    rec.nontrivial(p < 0.999)
    d = laws.build(spec["a"])
    R = laws.restrict(L, a, b)
    zs = [z for z in R.quantiles([.05, .3, .62, .9])]
    zs = [z for z in zs if all(abs(z - x) > 1e-9 for x, _ in R.atoms)]
    t = 1e-4 / min(1, 3 * p) if R.smooth else 1e-2
    f = [d | Between(a, b), (d | Gt(a)) | Lt(b), (d | Lt(b)) | Gt(a)]
    g = (2.0 * d + 1.0) | Between(2 * a + 1, 2 * b + 1)
    h = (-d) | Between(-b, -a)
    for z in zs:
        ref = fl(f[0].cdf(z))
        close(f[1].cdf(z), ref, t, "Gt then Lt against Between at %r" % z)
        close(f[2].cdf(z), ref, t, "Lt then Gt against Between at %r" % z)
        close(g.cdf(2 * z + 1), ref, t, "affine image against Between at %r" % z)
        close(1 - fl(h.cdf(-z)), ref, t, "reflection against Between at %r" % z)
    G = d | Gt(a)
    close(1 - fl(d.cdf(b)), (1 - fl(d.cdf(a))) * (1 - fl(G.cdf(b))), t, "chain rule")
    w = prob_of(L, a, np.inf)
    # total probability: X is the mixture of X|X>a and X|X<a when there is no atom at a
    if all(x != a for x, _ in L.atoms) and 0.05 < w < 0.95:
        from pacal.standard_distr import MixDistr
        m = MixDistr([w, 1 - w], [d | Gt(a), d | Lt(a)])
        for z in zs:
            close(m.cdf(z), float(L.cdf(z)), 1e-4 if L.smooth else 1e-2, "law of total probability at %r" % z)
        rec.label("total probability")


COMP = gen.weighted(5, ALL, 2, gen.discrete(-2, 2, 2, 3), 1, gen.grid(-2, 2, 2).map(lambda c: ["const", c]),
                    1, ALL.map(lambda s: ["aff", -1.0, 0.5, s]), 1, gen.mixed(gen.fams("U N E")))


@st.composite
def mixtures(draw):
    n = draw(st.integers(2, 5))
    return ["mix", draw(gen.probs(n)), [draw(COMP) for _ in range(n)]]


@check("P08", st.fixed_dictionaries({"m": mixtures(), "same": st.booleans()}), quick=1200, thorough=30000,
       rule="MixDistr of 2-5 components (any family, atoms, nested mixtures, the same object twice): cdf, pdf, atoms and "
            "mean are the weighted sums; components unchanged; non-trivial: three components or atoms")
def mixture(spec, rec):
    from pacal.standard_distr import MixDistr
    _, ps, comps = spec["m"]
    ls = [laws.law(c) for c in comps]
    ds = [laws.build(c) for c in comps]
    if spec["same"]:
        ds[-1], ls[-1] = ds[0], ls[0]
    rec.nontrivial(len(ps) > 2 or any(l.atoms for l in ls))
    before = [snapshot(d, l) for d, l in zip(ds, ls)]
    m = MixDistr(list(ps), list(ds))
    at = {}
    for p, l in zip(ps, ls):
        for x, w in l.atoms:
            at[x] = at.get(x, 0.0) + p * w
    check_atoms(m, sorted(at.items()), tol=1e-12, what="mixture")
    smooth = all(l.smooth for l in ls)
    close(m.get_piecewise_pdf().integrate(), 1.0, 1e-6 if smooth else 1e-3, "total probability")
    zs = sorted(set(z for l in ls for z in l.quantiles([.03, .4, .77, .98])))
    zs = zs[:12]
    brks = [b for l in ls for b in l.breaks]
    for z in zs:
        if any(abs(z - x) < 1e-9 for x in at):
            continue
        close(m.cdf(z), sum(p * float(l.cdf(z)) for p, l in zip(ps, ls)), 1e-6 if smooth else 2e-3, "mixture cdf(%r)" % z)
        if all(abs(z - b) > 1e-6 for b in brks):
            close(m.pdf(z), sum(p * sum(w * float(c.pdf(z)) for w, c in l.conts) for p, l in zip(ps, ls)), 1e-9,
                  "mixture pdf(%r)" % z, rel=1e-7)
    b = m.get_piecewise_pdf().getBreaks()
    close(b[0], min(l.lo for l in ls), 1e-9, "support")
    close(b[-1], max(l.hi for l in ls), 1e-9, "support")
    after = [snapshot(d, l) for d, l in zip(ds, ls)]
    need(before == after, "mixing changed a component")


@check("P08", st.fixed_dictionaries({"a": gen.fams("U N E La T S"), "b": gen.fams("U N E La T S"), "op": st.sampled_from(
    ["add", "sub", "min", "max"]), "q": PQ, "p": st.sampled_from([0.1, 0.25, 0.5, 0.8]), "kind": st.sampled_from(["gt", "lt", "mix"])}),
       quick=300, thorough=5000, cost=2,
       rule="conditions on and mixtures of computed results against the reference law of the result; non-trivial always")
def computed(spec, rec):
    from pacal.distr import Gt, Lt
    from pacal.standard_distr import MixDistr
    X, Y = laws.law(spec["a"]), laws.law(spec["b"])
    S = laws.OpLaw(spec["op"], X, Y)
    d = laws.apply_op(spec["op"], laws.build(spec["a"]), laws.build(spec["b"]))
    pts = op_points(spec["op"], X, Y, [0, 8, 16, 24, 32, 40])
    if not 0 < spec["q"] < 1:
        return
    rec.nontrivial()
    rec.label(spec["kind"])
    c = sorted(pts)[int(spec["q"] * len(pts))]
    F = float(S.cdf(c))
    if spec["kind"] == "mix":
        m = MixDistr([spec["p"], 1 - spec["p"]], [d, laws.build(spec["a"])])
        for z in pts:
            close(m.cdf(z), spec["p"] * float(S.cdf(z)) + (1 - spec["p"]) * float(X.cdf(z)), 1e-5, "mixture cdf(%r)" % z)
        return
    p = 1 - F if spec["kind"] == "gt" else F
    if p < 0.03:
        return
    e = d | (Gt(c) if spec["kind"] == "gt" else Lt(c))
    close(e.get_piecewise_pdf().integrate(), 1.0, 1e-4, "total probability")
    for z in pts:
        if abs(z - c) < 1e-9:
            continue
        if spec["kind"] == "gt":
            ref = 0.0 if z < c else (float(S.cdf(z)) - F) / p
        else:
            ref = 1.0 if z > c else float(S.cdf(z)) / p
        close(e.cdf(z), ref, 1e-4, "conditional cdf(%r) given %s %r" % (z, spec["kind"], c))
