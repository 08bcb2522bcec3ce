"""P03 minimum and maximum."""
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import check_law, op_points, close, need, check_atoms, fl, QS, same_cdf, atoms_of

ASSUMPTIONS = ["scipy.stats laws of the named families", "cdf tolerance 2e-6 for bounded densities, 5e-3 when a "
               "density is unbounded or has a tail without a mean"]
ALL = gen.fams(" ".join(sorted(gen.FAMS)))
ANY = gen.weighted(8, gen.anyd(ALL), 1, gen.grid(-2, 3, 2).map(lambda c: ["const", c]))
SEL = st.lists(st.integers(0, 60), min_size=4, max_size=8, unique=True)
TOL = 2e-6


def tol_of(*ls):
    return TOL if all(l.smooth and not l.heavy for l in ls) else 5e-3


@check("P03", st.fixed_dictionaries({"a": ANY, "b": ANY, "op": st.sampled_from(["min", "max"]), "sel": SEL}), quick=400,
       thorough=10000,
       rule="min and max over all families, mixtures, discrete and constant operands against F*G and 1-(1-F)(1-G), "
            "atoms included, and the density f*G+F*g; non-trivial when the supports overlap")
def minmax_law(spec, rec):
    X, Y = laws.law(spec["a"]), laws.law(spec["b"])
    op = spec["op"]
    rec.nontrivial(min(X.hi, Y.hi) > max(X.lo, Y.lo))
    k = lambda L: ("d" if not L.conts else "m" if L.atoms else "c")
    rec.label("%s %s%s" % (op, k(X), k(Y)))
    L = laws.OpLaw(op, X, Y)
    d = laws.apply_op(op, laws.build(spec["a"]), laws.build(spec["b"]))
    zs = sorted(set(X.quantiles(QS) + Y.quantiles(QS)))
    zs = [z for z in zs if np.isfinite(z)]
    zs = [zs[i % len(zs)] for i in spec["sel"]] + [a for a, _ in L.atoms]
    f = min if op == "min" else max
    tol = tol_of(X, Y)
    check_law(d, L, zs, tol, what=op, support=(f(X.lo, Y.lo), f(X.hi, Y.hi)), atom_tol=1e-6)
    if X.smooth and Y.smooth:
        ks = L.kinks()
        for z in zs:
            if any(abs(z - q) < 1e-3 * max(1, abs(q)) for q in ks):
                continue
            if op == "max":
                p = float(X.pdf(z)) * float(Y.cdf(z)) + float(Y.pdf(z)) * float(X.cdf(z))
            else:
                p = float(X.pdf(z)) * (1 - float(Y.cdf(z))) + float(Y.pdf(z)) * (1 - float(X.cdf(z)))
            close(d.pdf(z), p, 1e-3 * max(1.0, p), "%s pdf(%r)" % (op, z))


@check("P03", st.fixed_dictionaries({"a": ANY, "b": ANY, "sel": SEL}), quick=100, thorough=2000, cost=3,
       rule="commutativity, max(X,Y) = -min(-X,-Y) and cdf_min + cdf_max = F + G; non-trivial when the supports overlap")
def minmax_identities(spec, rec):
    import pacal.distr as ds
    X, Y = laws.law(spec["a"]), laws.law(spec["b"])
    rec.nontrivial(min(X.hi, Y.hi) > max(X.lo, Y.lo))
    a, b = laws.build(spec["a"]), laws.build(spec["b"])
    mx, mn = ds.max(a, b), ds.min(a, b)
    alt = -ds.min(-a, -b)
    mx2, mn2 = ds.max(b, a), ds.min(b, a)
    tol = 2 * tol_of(X, Y)
    ats = sorted(set([t for t, _ in X.atoms] + [t for t, _ in Y.atoms]))
    zs = [z for z in sorted(set(X.quantiles(QS) + Y.quantiles(QS))) if np.isfinite(z)]
    zs = [zs[i % len(zs)] for i in spec["sel"]]
    zs = [z for z in zs if all(abs(z - t) > 1e-9 * max(1, abs(t)) for t in ats)]
    same_cdf(mx, mx2, zs, tol, "max(X,Y) and max(Y,X)")
    same_cdf(mn, mn2, zs, tol, "min(X,Y) and min(Y,X)")
    same_cdf(mx, alt, zs, tol, "max(X,Y) and -min(-X,-Y)")
    check_atoms(alt, atoms_of(mx), 1e-6, "-min(-X,-Y)", 1e-9)
    for z in zs:
        close(fl(mx.cdf(z)) + fl(mn.cdf(z)), float(X.cdf(z)) + float(Y.cdf(z)), 2 * tol, "F_min + F_max at %r" % z)
    c = 0.5
    for v in (ds.min(a, c), ds.min(c, a)):
        close(v.cdf(c + 1e-6), 1.0, tol, "min(X,c) above c")
    for v in (ds.max(a, c), ds.max(c, a)):
        close(v.cdf(c - 1e-6), 0.0, tol, "max(X,c) below c")
