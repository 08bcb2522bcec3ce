"""P01 sums, differences, shifts, scales and linear combinations."""
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import check_law, op_points, close, need, check_atoms, fl, QS, same_cdf, atoms_of

ASSUMPTIONS = ["scipy.stats laws of the named families", "tanh-sinh quadrature of the reference, about 1e-12",
               "cdf tolerance 2e-6 (typical error is 1e-14)"]
ALL = gen.fams(" ".join(sorted(gen.FAMS)))
ANY = gen.anyd(ALL)
SEL = st.lists(st.integers(0, 60), min_size=4, max_size=7, unique=True)
TOL = 2e-6


def add_case(s):
    return st.fixed_dictionaries({"op": st.sampled_from(["add", "sub"]), "a": s, "b": s, "sel": SEL})


def classify(spec, X, Y, rec):
    k = lambda L: ("d" if not L.conts else "m" if L.atoms else "c")
    rec.label("%s %s%s" % (spec["op"], k(X), k(Y)))
    rec.nontrivial(bool(X.conts or Y.conts))


def run_op(spec, rec, tol, pdf_tol):
    a, b, op = spec["a"], spec["b"], spec["op"]
    X, Y = laws.law(a), laws.law(b)
    L = laws.OpLaw(op, X, Y)
    classify(spec, X, Y, rec)
    d = laws.apply_op(op, laws.build(a), laws.build(b))
    zs = op_points(op, X, Y, spec["sel"])
    ends = (X.lo + Y.lo, X.hi + Y.hi) if op == "add" else (X.lo - Y.hi, X.hi - Y.lo)
    check_law(d, L, zs, tol, what=op, pdf_tol=pdf_tol, pdf_pts=zs[:3] if X.smooth and Y.smooth else (), support=ends,
              atom_tol=1e-10)


@check("P01", add_case(ANY), quick=320, thorough=6000,
       rule="X+Y and X-Y over all families, mixtures with atoms, discrete and negated operands against the convolution "
            "integral; non-trivial when an operand has a density")
def sum_law(spec, rec):
    hard = not (laws.law(spec["a"]).smooth and laws.law(spec["b"]).smooth)
    run_op(spec, rec, 2e-4 if hard else TOL, 1e-4)


AFF = st.lists(st.tuples(st.sampled_from(["+c", "c+", "-c", "c-", "*c", "c*", "/c", "neg", "lin"]),
                         st.sampled_from([1.0, 2.0, -1.0, 0.5, -3.0, 0.25, -0.5, 1.5, 2, 3, -1])),
               min_size=1, max_size=4)


def affine_step(d, op, c):
    if op == "+c":
        return d + c
    if op == "c+":
        return c + d
    if op == "-c":
        return d - c
    if op == "c-":
        return c - d
    if op == "*c":
        return d * c
    if op == "c*":
        return c * d
    if op == "/c":
        return d / c
    if op == "neg":
        return -d
    return c * d + c


def affine_coef(a, b, op, c):
    c = float(c)
    return {"+c": (a, b + c), "c+": (a, b + c), "-c": (a, b - c), "c-": (-a, c - b), "*c": (a * c, b * c),
            "c*": (a * c, b * c), "/c": (a / c, b / c), "neg": (-a, -b), "lin": (a * c, b * c + c)}[op]


@check("P01", st.fixed_dictionaries({"a": ANY, "steps": AFF, "sel": SEL}), quick=1500, thorough=40000, cost=0.1,
       rule="chains of shifts, scales and reflections of one variable against the affine image of its law; non-trivial "
            "when the chain has at least two steps")
def affine_chain(spec, rec):
    X = laws.law(spec["a"])
    d = laws.build(spec["a"])
    a, b = 1.0, 0.0
    steps = spec["steps"]
    rec.label("bounded density" if X.smooth else "unbounded density")
    for op, c in steps:
        d = affine_step(d, op, c)
        a, b = affine_coef(a, b, op, c)
    L = laws.affine(X, a, b)
    rec.nontrivial(len(steps) > 1)
    rec.label("reflected" if a < 0 else "not reflected")
    xa = X.quantiles(QS)
    zs = [a * xa[i % len(xa)] + b for i in spec["sel"]]
    check_law(d, L, zs, 1e-6 if X.smooth else 5e-5, what="affine", support=(L.lo, L.hi), atom_tol=1e-12)
    if X.smooth:
        for z in zs:
            if all(abs(z - k) > 1e-3 for k in L.kinks()):
                close(d.pdf(z), float(L.pdf(z)), 1e-6, "affine pdf(%r)" % z, rel=1e-6)


SMALL = gen.weighted(3, gen.fams("U N E La T G S"), 1, gen.discrete(-2, 2, 2, 3), 1, gen.mixed(gen.fams("U N E")))


@check("P01", st.fixed_dictionaries({"a": SMALL, "b": SMALL, "c": SMALL, "w": st.lists(st.sampled_from(
    [1.0, -1.0, 2.0, 0.5, -0.5]), min_size=3, max_size=3), "k": st.sampled_from([0.0, 1.0, -2.5]),
    "t": st.integers(0, 5)}), quick=90, thorough=1500, cost=2,
       rule="linear combinations of three variables in every grouping and order: cdfs agree with one another and the "
            "mean and variance with the moments of the reference laws; non-trivial with at least two densities")
def grouping(spec, rec):
    ls = [laws.affine(laws.law(spec[k]), w, 0.0) for k, w in zip("abc", spec["w"])]
    ds = [laws.build(spec[k]) for k in "abc"]
    w, k = spec["w"], spec["k"]
    rec.nontrivial(sum(bool(l.conts) for l in ls) >= 2)
    X, Y, Z = ds
    forms = [lambda: (w[0] * X + w[1] * Y) + w[2] * Z + k, lambda: w[0] * X + (k + (Z * w[2] + w[1] * Y)),
             lambda: (Z * w[2] + w[0] * X + k) + w[1] * Y, lambda: k - (-(w[0] * X) - w[1] * Y) + w[2] * Z,
             lambda: w[2] * Z - ((-w[1]) * Y - k) + X * w[0], lambda: (X * w[0] + k) - (w[1] * (-Y) - Z * w[2])]
    f1 = forms[0]()
    f2 = forms[1 + spec["t"] % 5]()
    m = sum(l.E(lambda x: x) for l in ls) + k
    v = sum(l.E(lambda x: x * x) - l.E(lambda x: x) ** 2 for l in ls)
    for f in (f1, f2):
        close(f.get_piecewise_pdf().integrate(), 1.0, 1e-6, "total probability")
        close(f.mean(), m, 1e-5, "mean of the combination", rel=1e-5)
        close(f.var(), v, 1e-4, "variance of the combination", rel=1e-5)
    s = np.sqrt(v)
    zs = [m + s * t for t in (-1.7, -.83, .21, .97, 2.1)]
    if all(l.atoms and not l.conts for l in ls):
        zs = [z + 1e-4 for z in zs]
    ats = [a for a, _ in atoms_of(f1)]
    zs = [z for z in zs if all(abs(z - a) > 1e-6 for a in ats)]
    same_cdf(f1, f2, zs, 4e-6, "two groupings of the same sum")
    # exact reference: condition on the discrete part when one operand is discrete
    for i in range(3):
        if not ls[i].conts:
            o = [ls[j] for j in range(3) if j != i]
            S = laws.OpLaw("add", o[0], o[1])
            for z in zs[:2]:
                ref = sum(p * float(S.cdf(z - k - a)) for a, p in ls[i].atoms)
                near = any(abs(z - k - a - b) < 1e-7 for a, _ in ls[i].atoms for b, _ in S.atoms)
                if not near:
                    close(f1.cdf(z), ref, 4e-6, "sum of three at %r" % z)
            rec.label("three-operand reference")
            break


POLED = st.sampled_from([["B", .5, .5], ["B", .5, 2.0], ["B", 2.0, .5], ["B", .75, .5], ["G", .5, 1.0], ["X2", 1], ["W", .5, 1.0],
                         ["aff", -1.0, 0.0, ["G", .5, 2.0]], ["aff", 2.0, -1.0, ["B", .5, .5]]])


@check("P01", st.fixed_dictionaries({"op": st.sampled_from(["add", "sub"]), "a": POLED,
                                     "b": gen.weighted(3, gen.discrete(-1, 1, 4, 4), 1, gen.fams("U T"), 1, POLED), "sel": SEL}),
       quick=60, thorough=2500, cost=2,
       rule="unbounded densities plus or minus laws with close atoms, so that several poles meet in one segment; "
            "non-trivial: a discrete or a second unbounded operand")
def poles_meet(spec, rec):
    rec.nontrivial(spec["b"][0] not in "UT")
    run_op(spec, rec, 2e-4, 1e-4)
