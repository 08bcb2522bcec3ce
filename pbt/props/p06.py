"""P06 pdf, cdf, ccdf, quantile and interval describe one law."""
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import close, need, fl, QS, atoms_of

INF = float("inf")
ASSUMPTIONS = ["relations between queries of one object; for primitive laws also scipy.stats cdfs",
               "tolerance 2e-6 for bounded densities, 1e-4 otherwise"]
ALL = gen.fams(" ".join(sorted(gen.FAMS)))
PRIM = gen.weighted(6, ALL, 4, gen.anyd(ALL))
PS = st.lists(st.one_of(st.floats(0.001, 0.999), gen.grid(0.125, 0.875, 8)), min_size=3, max_size=6)


def vec(f, xs):
    return np.asarray(f(np.array(xs, dtype=float)), dtype=float)


def consistent(d, xs, ps, tol, rec, L=None, smooth=True):
    """xs: sorted points that are not atoms or breakpoints."""
    pp = d.get_piecewise_pdf()
    ats = atoms_of(d)
    F = [fl(d.cdf(x)) for x in xs]
    for x, v in zip(xs, F):
        need(-1e-9 <= v <= 1 + tol, "cdf(%r) = %r is not a probability", x, v)
    for (x, v), (y, w) in zip(list(zip(xs, F))[:-1], list(zip(xs, F))[1:]):
        need(w >= v - 1e-9 - tol * 1e-2, "cdf decreases: cdf(%r) = %r, cdf(%r) = %r", x, v, y, w)
        close(fl(pp.integrate(x, y)), w - v, tol, "integral of the density (with atoms) over [%r, %r]" % (x, y))
    Fa, Fp = vec(d.cdf, xs), vec(d.get_piecewise_cdf(), xs)
    cc = vec(d.ccdf, xs)
    pa = vec(d.pdf, xs)
    for i, x in enumerate(xs):
        close(Fa[i], F[i], 1e-12, "cdf of an array and of a scalar, at %r" % x)
        close(Fp[i], F[i], 1e-12, "piecewise cdf and cdf at %r" % x)
        close(cc[i], 1 - F[i], 1e-12, "ccdf of an array at %r" % x)
        close(fl(d.ccdf(x)), 1 - F[i], 1e-12, "ccdf(%r)" % x)
        close(fl(d.ccdf_value(x)), 1 - F[i], tol, "ccdf_value(%r)" % x)
        need(fl(d.pdf(x)) >= -tol, "negative density at %r: %r", x, fl(d.pdf(x)))
        close(pa[i], fl(d.pdf(x)), 1e-12, "pdf of an array and of a scalar, at %r" % x, rel=1e-9)
    # the order of an array does not matter
    r = vec(d.cdf, xs[::-1])[::-1]
    for i, x in enumerate(xs):
        close(r[i], F[i], 1e-12, "cdf of a decreasing array, at %r" % x)
    lo, hi = d.range_()
    for s, e, v in ((-1, lo, 0.0), (1, hi, 1.0)):
        if np.isfinite(e):
            z = e + s * 0.3 * max(1.0, abs(e))
            close(d.cdf(z), v, tol, "cdf(%r) outside of the range (%r, %r)" % (z, lo, hi))
            close(d.ccdf(z), 1 - v, tol, "ccdf(%r) outside of the range" % z)
            close(d.pdf(z), 0.0, 0.0, "pdf(%r) outside of the range" % z)
    # jumps of the cdf are the atoms
    for a, p in ats:
        e = 1e-9 * max(1.0, abs(a))
        j = fl(d.cdf(a + e)) - fl(d.cdf(a - e))
        dens = max(abs(fl(d.pdf(a - 2 * e))), abs(fl(d.pdf(a + 2 * e)))) * 4 * e
        if smooth and dens < 1e-6:
            close(j, p, tol + dens, "jump of the cdf at the atom %r" % a)
    # quantiles
    levels = sorted(set([0.0, 1.0] + [fl(d.cdf(a + s * 1e-9 * max(1.0, abs(a)))) for a, _ in ats for s in (-1, 1)]))
    qs = []
    for p in sorted(ps):
        if any(abs(p - l) < 1e-5 for l in levels):
            rec.label("level at an end of a jump: skipped")
            continue
        q = fl(d.quantile(p))
        need(np.isfinite(q), "quantile(%r) = %r", p, q)
        qs.append((p, q))
        e = 1e-7 * max(1.0, abs(q))
        up, dn = fl(d.cdf(q + e)), fl(d.cdf(q - e))
        need(dn - tol - 1e-5 <= p <= up + tol + 1e-9, "quantile(%r) = %r, but the cdf around it is %r .. %r", p, q, dn, up)
        inside = [a for a, w in ats if abs(a - q) <= e]
        if not inside:
            close(d.cdf(q), p, tol + 1e-6, "cdf(quantile(%r))" % p)
        else:
            need(fl(d.cdf(inside[0] + e)) >= p - tol, "cdf(quantile(p)) < p at %r", p)
            rec.label("quantile inside a jump")
    for (p, q), (p2, q2) in zip(qs[:-1], qs[1:]):
        need(q2 >= q - 1e-6 * max(1.0, abs(q)), "quantile decreases: (%r, %r), (%r, %r)", p, q, p2, q2)
    if qs:
        qa = vec(d.quantile, [p for p, _ in qs])
        for i, (p, q) in enumerate(qs):
            close(qa[i], q, 1e-9, "quantile of an array at %r" % p, rel=1e-9)
    if not any(abs(0.5 - l) < 1e-5 for l in levels):
        close(d.median(), d.quantile(0.5), 1e-6, "median and quantile(0.5)", rel=1e-6)
    if qs:
        p = qs[0][0]
        for lvl, a, b, what in ((p, p / 2, 1 - p / 2, "ci"), (p, (1 - p) / 2, 1 - (1 - p) / 2, "interval"),
                                (p, p, 1 - p, "iqrange")):
            if any(abs(v - l) < 1e-5 for v in (a, b) for l in levels):
                continue
            u, v = fl(d.quantile(a)), fl(d.quantile(b))
            if what == "ci":
                g = d.ci(p)
            elif what == "interval":
                g = d.interval(p)
            else:
                close(d.iqrange(p), v - u, 1e-6, "iqrange(%r)" % p, rel=1e-6)
                continue
            close(g[0], u, 1e-6, "%s(%r) lower end" % (what, p), rel=1e-6)
            close(g[1], v, 1e-6, "%s(%r) upper end" % (what, p), rel=1e-6)
    return F, qs


def interpolated(d, xs, F, qs, tol, lo, hi, ats):
    ci = d.get_piecewise_cdf_interp()
    va = vec(ci, xs)
    for i, x in enumerate(xs):
        close(fl(ci(x)), F[i], tol, "interpolated cdf at %r" % x)
        close(va[i], F[i], tol, "interpolated cdf of an array, at %r" % x)


def spread(L, sel_u, extra=()):
    """points at quantiles of the components, away from atoms and breakpoints"""
    xs = []
    for u in sel_u:
        for w, c in L.conts:
            xs.append(float(c.ppf(u)))
    ks = L.kinks()
    for a, b in zip(ks[:-1], ks[1:]):
        xs.append(a + 0.37 * (b - a))
    if ks:
        xs += [ks[0] - 0.4, ks[-1] + 0.4]
    return sorted(set(x for x in xs if np.isfinite(x) and all(abs(x - k) > 1e-6 * max(1.0, abs(k)) for k in ks)))


U = st.lists(st.floats(0.002, 0.998), min_size=2, max_size=4)


@check("P06", st.fixed_dictionaries({"a": PRIM, "u": U, "p": PS}), quick=1200, thorough=20000,
       rule="primitive, shifted, mixed and discrete laws: all relations between pdf, cdf, ccdf, quantile, interval, ci, "
            "median, range, interpolated cdf, scalar and array queries, and the reference cdf; non-trivial with atoms "
            "or at least four points")
def primitive(spec, rec):
    L = laws.law(spec["a"])
    d = laws.build(spec["a"])
    tol = 2e-6 if L.smooth and not L.heavy else 1e-4
    xs = spread(L, spec["u"])
    rec.nontrivial(bool(L.atoms) or len(xs) > 3)
    rec.label("mixed" if L.atoms and L.conts else "discrete" if L.atoms else "continuous")
    F, qs = consistent(d, xs, spec["p"], tol, rec, L, smooth=not L.poles)
    for x, v in zip(xs, F):
        close(v, float(L.cdf(x)), tol, "cdf(%r)" % x)
    for a, p in L.atoms:
        e = 1e-8 * max(1.0, abs(a))
        if all(abs(a - q) > 1e-6 for q in L.poles):
            close(d.cdf(a), float(L.cdf(a)), tol, "cdf at the atom %r" % a)
            close(d.ccdf(a), 1 - float(L.cdf(a)), tol, "ccdf at the atom %r" % a)
    lo, hi = d.range_()
    if not L.moved:
        for g, r in ((lo, L.lo), (hi, L.hi)):
            if np.isfinite(r):
                close(g, r, 1e-9, "end of the range", rel=1e-9)
            else:
                need(not np.isfinite(g), "range end %r, support end %r", g, r)
    interpolated(d, xs, F, qs, 1e-5 if L.smooth and not L.heavy else 1e-3, lo, hi, atoms_of(d))


MEDF = gen.fams("U T N E La S G B W Gu t C P X2")
MED = gen.weighted(4, MEDF, 1, gen.discrete(-2, 2, 2, 3), 1, gen.mixed(gen.fams("U N E T")))
OPS = ["add", "sub", "mul", "min", "max", "div"]


@check("P06", st.fixed_dictionaries({"a": MED, "b": MED, "op": st.sampled_from(OPS), "u": U, "p": PS}), quick=250,
       thorough=6000, cost=2,
       rule="results of arithmetic on two variables: the same relations; non-trivial when both operands have a density")
def computed(spec, rec):
    X, Y = laws.law(spec["a"]), laws.law(spec["b"])
    op = spec["op"]
    rec.nontrivial(bool(X.conts and Y.conts))
    rec.label(op)
    if op == "div" and Y.atom(0.0) > 0:
        return
    if op in ("mul", "div") and (any(p != 0 for p in X.poles + Y.poles) or X.moved or Y.moved):
        rec.label("pole away from zero in a product: skipped")
        return
    d = laws.apply_op(op, laws.build(spec["a"]), laws.build(spec["b"]))
    L = laws.OpLaw(op, X, Y)
    smooth = X.smooth and Y.smooth and not X.heavy and not Y.heavy
    tol = (2e-5 if op in ("mul", "div") else 5e-6) if smooth else 1e-2
    ks = L.kinks() + [float(b) for b in d.get_piecewise_pdf().getBreaks()]
    xs = []
    for u in spec["u"]:
        p = [float(v) for l in (X, Y) for w, c in l.conts for v in (c.ppf(u), c.ppf(1 - u))]
        p += [a for l in (X, Y) for a, _ in l.atoms]
        f = {"add": lambda s, t: s + t, "sub": lambda s, t: s - t, "mul": lambda s, t: s * t, "min": min, "max": max,
             "div": lambda s, t: s / t if t else s}[op]
        xs += [f(p[0], p[-1]), f(p[-1], p[0]), f(p[0], p[0] + .01)]
    xs = sorted(set(x for x in xs if np.isfinite(x) and all(abs(x - k) > 1e-6 * max(1.0, abs(k)) for k in ks)))
    ps = [p for p in spec["p"] if 0.01 < p < 0.99] or [0.3]
    poles = not smooth or op in ("mul", "div")
    F, qs = consistent(d, xs, ps, tol, rec, None, smooth=not poles)
    interpolated(d, xs, F, qs, 1e-4 if smooth else 2e-2, None, None, atoms_of(d))


INVF = gen.fams("U T N E La S B W G Gu M")


@check("P06", st.fixed_dictionaries({"a": INVF, "aff": st.sampled_from([[1.0, 0.0], [2.0, 1.0], [-1.0, 0.5]]),
                                     "p": st.lists(st.floats(0.02, 0.98), min_size=3, max_size=6),
                                     "interp": st.booleans()}), quick=160, thorough=4000,
       rule="inverse cdf as a piecewise function, interpolated or not, agrees with quantile and with the reference "
            "quantile; quantile(0) and quantile(1) are the ends of the support; non-trivial always")
def inverse_cdf(spec, rec):
    rec.nontrivial()
    s = ["aff"] + spec["aff"] + [spec["a"]]
    L = laws.law(s)
    d = laws.build(s)
    fz = L.conts[0][1]
    inv = d.get_piecewise_invcdf(use_interpolated=spec["interp"])
    tol = 1e-7 if not spec["interp"] else 1e-4
    scale = float(fz.ppf(.75) - fz.ppf(.25))
    va = vec(inv, spec["p"])
    for i, p in enumerate(spec["p"]):
        x = float(fz.ppf(p))
        if any(abs(p - float(L.cdf(b))) < 1e-3 for b in L.breaks):
            continue
        # where the density is low the inverse is ill conditioned
        slack = tol * max(scale, abs(x)) + 2e-6 / max(float(fz.pdf(x)), 1e-300)
        if L.poles:
            slack += 1e-3 * scale
        close(fl(d.quantile(p)), x, slack, "quantile(%r)" % p)
        close(fl(inv(p)), x, slack * (10 if spec["interp"] else 1), "inverse cdf at %r" % p)
        close(va[i], fl(inv(p)), 1e-12, "inverse cdf of an array, at %r" % p, rel=1e-9)
    if not L.moved:
        for p, e in ((0.0, L.lo), (1.0, L.hi)):
            q = fl(d.quantile(p))
            if np.isfinite(e):
                # total probability can miss 1 by rounding: then quantile(1) is undefined
                need(not np.isfinite(q) or abs(float(L.cdf(q)) - p) < 1e-6, "quantile(%r) = %r, support end %r", p, q, e)
