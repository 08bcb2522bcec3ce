"""P02 products and quotients."""
import numpy as np
from hypothesis import strategies as st, assume
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import check_law, op_points, close, need, check_atoms, fl, QS, same_cdf, atoms_of

ASSUMPTIONS = ["scipy.stats laws of the named families", "tanh-sinh quadrature of the reference, about 1e-10",
               "cdf tolerance 2e-5 for bounded densities, 5e-3 when a density is unbounded"]
ALL = gen.fams(" ".join(sorted(gen.FAMS)))
ANY = gen.anyd(ALL)
SEL = st.lists(st.integers(0, 60), min_size=3, max_size=5, unique=True)
TOL = 2e-5
HARD = 5e-3


def shifted(s):
    """operands whose support starts or ends at, straddles or avoids zero"""
    return gen.weighted(4, s, 1, st.tuples(st.sampled_from([1.0, -1.0, 2.0, -0.5]), gen.grid(-2, 2, 2), s).map(
        lambda t: ["aff", t[0], t[1], t[2]]))


# the code looks for poles of a product or quotient at 0 only: densities unbounded elsewhere are known findings
OPER = shifted(ANY).filter(lambda s: not laws.law(s).moved and all(p == 0 for p in laws.law(s).poles))
INVOP = shifted(ANY).filter(lambda s: not laws.law(s).moved)


def tol_of(*ls):
    return TOL if all(l.smooth and not l.heavy for l in ls) else HARD


def run_op(op, spec, rec):
    X, Y = laws.law(spec["a"]), laws.law(spec["b"])
    if op == "div" and Y.atom(0.0) > 0:
        rec.label("division by a variable with an atom at 0: must be rejected")
        try:
            q = laws.build(spec["a"]) / laws.build(spec["b"])
            q.get_piecewise_pdf()
        except (ZeroDivisionError, ValueError):
            return
        raise Violation("division by a variable that is 0 with probability %r gives %r" % (Y.atom(0.0), q))
    k = lambda L: ("d" if not L.conts else "m" if L.atoms else "c")
    sg = lambda L: ("+" if L.lo >= 0 else "-" if L.hi <= 0 else "0")
    rec.label("%s%s*%s%s" % (k(X), sg(X), k(Y), sg(Y)))
    rec.nontrivial(bool(X.conts or Y.conts))
    L = laws.OpLaw(op, X, Y)
    d = laws.apply_op(op, laws.build(spec["a"]), laws.build(spec["b"]))
    zs = op_points(op, X, Y, spec["sel"])
    if op == "mul":
        e = [p * q if p and q else 0.0 for p in (X.lo, X.hi) for q in (Y.lo, Y.hi)]
        sup = (min(e), max(e))
    elif Y.lo > 0 or Y.hi < 0:
        ys = [1 / Y.lo, 1 / Y.hi]
        e = [p * q if p and q else 0.0 for p in (X.lo, X.hi) for q in ys]
        sup = (min(e), max(e))
    elif Y.lo >= 0 and X.lo >= 0 or Y.hi <= 0 and X.hi <= 0:
        sup = (0.0, np.inf)
    elif Y.lo >= 0 and X.hi <= 0 or Y.hi <= 0 and X.lo >= 0:
        sup = (-np.inf, 0.0)
    else:
        sup = None
    check_law(d, L, zs, tol_of(X, Y), what=op, support=sup, atom_tol=1e-8, pdf_tol=2e-4 if X.smooth and Y.smooth else None,
              pdf_pts=zs[:2])


@check("P02", st.fixed_dictionaries({"a": OPER, "b": OPER, "sel": SEL}), quick=150, thorough=4000, cost=2,
       rule="X*Y over all families, mixtures, discrete and shifted operands against the product integral; non-trivial "
            "when an operand has a density")
def product_law(spec, rec):
    run_op("mul", spec, rec)


@check("P02", st.fixed_dictionaries({"a": OPER, "b": OPER, "sel": SEL}), quick=160, thorough=4000, cost=1.5,
       rule="X/Y against the quotient integral, rejection when P(Y=0)>0; non-trivial when an operand has a density")
def quotient_law(spec, rec):
    run_op("div", spec, rec)


@check("P02", st.fixed_dictionaries({"a": INVOP, "c": st.sampled_from([1.0, -1.0, 2.0, -0.5, 3, 0.25]), "sel": SEL}),
       quick=300, thorough=8000, cost=0.4,
       rule="c/X against P(c/X<=z) read off the law of X, X/c, rejection when P(X=0)>0; non-trivial for X with a density")
def scalar_over(spec, rec):
    X = laws.law(spec["a"])
    c = spec["c"]
    rec.nontrivial(bool(X.conts))
    if X.atom(0.0) > 0:
        rec.label("atom at 0: must be rejected")
        try:
            q = c / laws.build(spec["a"])
            q.get_piecewise_pdf()
        except (ZeroDivisionError, ValueError):
            return
        raise Violation("c/X accepted although P(X=0)=%r: %r" % (X.atom(0.0), q))
    L = laws.OpLaw("div", laws.law(["const", float(c)]), X)
    d = c / laws.build(spec["a"])
    zs = [c / x for x in X.quantiles(QS) if abs(x) > 1e-12]
    zs = [zs[i % len(zs)] for i in spec["sel"]]
    check_law(d, L, zs, tol_of(X), what="c/X", atom_tol=1e-10)
    e = laws.build(spec["a"]) / c
    xs = X.quantiles(QS)
    for x in [xs[i % len(xs)] for i in spec["sel"]]:
        if all(abs(x - a) > 1e-9 for a, _ in X.atoms):
            close(e.cdf(x / c), float(X.cdf(x)) if c > 0 else 1 - float(X.cdf(x)), tol_of(X), "X/c at %r" % (x / c))


MED = gen.weighted(4, gen.fams("U N E T La S P Gu W G B"), 1, gen.discrete(-2, 2, 2, 3), 1,
                   gen.mixed(gen.fams("U N E")))


@check("P02", st.fixed_dictionaries({"a": MED, "b": MED, "sel": SEL, "form": st.sampled_from(["comm", "inv", "neg"])}),
       quick=60, thorough=1500, cost=4,
       rule="X*Y = Y*X, X/Y = X*(1/Y), (-X)*Y = X*(-Y) = -(X*Y); non-trivial with two densities")
def identities(spec, rec):
    X, Y = laws.law(spec["a"]), laws.law(spec["b"])
    form = spec["form"]
    a, b = laws.build(spec["a"]), laws.build(spec["b"])
    tol = 2 * tol_of(X, Y)
    rec.nontrivial(bool(X.conts and Y.conts))
    rec.label(form)
    if form == "comm":
        f, g, op = a * b, b * a, "mul"
    elif form == "inv":
        if Y.atom(0.0) > 0:
            return
        f, g, op = a / b, a * (1 / b), "div"
    else:
        f, g, op = (-a) * b, -(a * b), "mul"
    zs = op_points(op, X, Y, spec["sel"])
    if form == "neg":
        zs = [-z for z in zs]
    ats = [t for t, _ in atoms_of(f)] + [t for t, _ in atoms_of(g)]
    zs = [z for z in zs if all(abs(z - t) > 1e-7 * max(1, abs(t)) for t in ats)]
    same_cdf(f, g, zs, tol, form)
    check_atoms(f, atoms_of(g), 1e-8, form, 1e-8)
