"""P14 operations on n independent copies."""
import math
import numpy as np
import scipy.stats as sp
import scipy.special as sf
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import close, need, check_atoms, fl, QS, atoms_of

ASSUMPTIONS = ["scipy.stats laws of the named families and of their n-fold sums", "order statistics are defined for continuous X (the code uses the density formula)",
               "cdf tolerance 2e-6, 5e-3 for unbounded densities and tails without a mean"]
ALL = gen.fams(" ".join(sorted(gen.FAMS)))
ANY = gen.anyd(ALL)
PS = [.002, .05, .3, .5, .8, .97, .999]
N = st.integers(1, 9)


def snap(d, zs):
    return [fl(d.cdf(z)) for z in zs] + atoms_of(d)


class Unchanged(object):
    """X and the warning switch are as before"""
    def __init__(self, d, zs, warn):
        self.d, self.zs, self.warn = d, [z for z in zs if np.isfinite(z)], warn
    def __enter__(self):
        from pacal import params
        self.old = params.general.warn_on_dependent
        params.general.warn_on_dependent = self.warn
        self.before = snap(self.d, self.zs)
    def __exit__(self, t, v, tb):
        from pacal import params
        now = params.general.warn_on_dependent
        params.general.warn_on_dependent = self.old
        if t is None:
            need(now == self.warn, "warn_on_dependent is %r after the call, was %r", now, self.warn)
            need(snap(self.d, self.zs) == self.before, "the law of X changed")


def irwin_hall(n, x):
    if x <= 0:
        return 0.0
    if x >= n:
        return 1.0
    if x > n / 2.0:
        return 1 - irwin_hall(n, n - x)
    return math.fsum((-1) ** k * math.comb(n, k) * (x - k) ** n for k in range(int(x) + 1)) / math.factorial(n)


class Cdf(object):
    def __init__(self, cdf, ppf):
        self.cdf, self.ppf = cdf, ppf


def sum_ref(k, p, n):
    """law of the sum of n copies"""
    if k == "N":
        return sp.norm(n * p[0], p[1] * math.sqrt(n))
    if k == "E":
        return sp.gamma(n, 0, 1.0 / p[0])
    if k == "G":
        return sp.gamma(n * p[0], 0, p[1])
    if k == "X2":
        return sp.chi2(n * p[0])
    if k == "C":
        return sp.cauchy(n * p[1], n * p[0])
    if k == "L":
        return sp.levy(n * p[1], n * n * p[0])
    a, w = p[0], p[1] - p[0]
    return Cdf(lambda z: irwin_hall(n, (z - n * a) / w),
               lambda u: n * (a + w * (0.5 + (u - 0.5) * 0.8)))


SUMMABLE = gen.fams("N E G X2 C L U")


def pts(ref, sel):
    return [z for z in (float(ref.ppf(PS[i % len(PS)])) for i in sel) if np.isfinite(z)]


SEL = st.lists(st.integers(0, 6), min_size=3, max_size=5, unique=True)


@check("P14", st.fixed_dictionaries({"x": SUMMABLE, "n": N, "all": st.booleans(), "avg": st.booleans(), "warn": st.booleans(), "sel": SEL}),
       quick=90, thorough=3000, cost=6,
       rule="iid_sum and iid_average of families closed under sums (normal, exponential, gamma, chi-square, Cauchy, Levy, uniform), n = 1..9, "
            "single result and all=True; X and the warning switch afterwards; non-trivial: n > 1")
def sums(s, rec):
    from pacal.stats import iid_ops as I
    x, n = s["x"], s["n"]
    p = [float(v) for v in x[1:]]
    rec.nontrivial(n > 1)
    rec.label(x[0])
    if not laws.law(x).smooth:
        n = min(n, 4)
    d = laws.build(x)
    L = laws.law(x)
    with Unchanged(d, L.quantiles([.1, .6]), s["warn"]):
        r = (I.iid_average if s["avg"] else I.iid_sum)(d, n, all=s["all"])
    if s["all"]:
        need(len(r) == n, "all=True gives %d results for n = %d", len(r), n)
    tol = 1e-6 if L.smooth and x[0] not in "CL" else 5e-3
    for k, v in (enumerate(r, 1) if s["all"] else [(n, r)]):
        ref = sum_ref(x[0], p, k)
        close(v.get_piecewise_pdf().integrate(), 1.0, tol, "total probability for %d copies" % k)
        for z in pts(ref, s["sel"]):
            close(v.cdf(z / k if s["avg"] else z), float(ref.cdf(z)), tol, "%s of %d copies of %s: cdf(%r)" % ("average" if s["avg"] else "sum", k, x, z))


def prod_ref(k, p, n):
    """law of the product of n copies of U(0, b), Pareto(a, xm), exp of a normal variable"""
    if k == "U":
        b = p[1]
        g = sp.gamma(n)
        return Cdf(lambda z: 0.0 if z <= 0 else float(g.sf(n * math.log(b) - math.log(z))), lambda u: math.exp(n * math.log(b) - g.isf(u)))
    if k == "P":
        g = sp.gamma(n, 0, 1.0 / p[0])
        return Cdf(lambda z: float(g.cdf(math.log(z) - n * math.log(p[1]))), lambda u: math.exp(n * math.log(p[1]) + g.ppf(u)))
    g = sp.norm(n * p[0], p[1] * math.sqrt(n))
    return Cdf(lambda z: float(g.cdf(math.log(z))), lambda u: math.exp(g.ppf(u)))


PRODABLE = gen.weighted(2, st.sampled_from([1.0, 0.5, 2.0, 3.0]).map(lambda b: ["U", 0.0, b]),
                        1, st.tuples(st.sampled_from([1.0, 2.0, 1.5, 3.0]), st.sampled_from([1.0, 0.5, 2.0])).map(lambda t: ["P", t[0], t[1]]),
                        1, st.tuples(st.sampled_from([0.0, 0.5, -1.0]), st.sampled_from([0.5, 1.0, 0.25])).map(lambda t: ["lnN", t[0], t[1]]))


@check("P14", st.fixed_dictionaries({"x": PRODABLE, "n": st.integers(1, 6), "all": st.booleans(), "avg": st.booleans(), "warn": st.booleans(), "sel": SEL}),
       quick=60, thorough=2000, cost=8,
       rule="iid_prod and iid_average_geom of uniform on (0,b), Pareto and lognormal variables, n = 1..6, single result and all=True; non-trivial: n > 1")
def prods(s, rec):
    import pacal
    from pacal.stats import iid_ops as I
    x, n = s["x"], s["n"]
    p = x[1:]
    rec.nontrivial(n > 1)
    rec.label(x[0])
    d = pacal.exp(pacal.NormalDistr(p[0], p[1])) if x[0] == "lnN" else laws.build(x)
    one = prod_ref(x[0], p, 1)
    with Unchanged(d, [float(one.ppf(.1)), float(one.ppf(.6))], s["warn"]):
        r = (I.iid_average_geom if s["avg"] else I.iid_prod)(d, n, all=s["all"])
    if s["all"]:
        need(len(r) == n, "all=True gives %d results for n = %d", len(r), n)
    tol = 1e-3
    for k, v in (enumerate(r, 1) if s["all"] else [(n, r)]):
        ref = prod_ref(x[0], p, k)
        close(v.get_piecewise_pdf().integrate(), 1.0, tol, "total probability for %d copies" % k)
        for z in pts(ref, s["sel"]):
            close(v.cdf(z ** (1.0 / k) if s["avg"] else z), float(ref.cdf(z)), tol, "%s of %d copies of %s: cdf(%r)" % ("geometric mean" if s["avg"] else "product", k, x, z))


@check("P14", st.fixed_dictionaries({"x": ANY, "n": st.integers(1, 12), "all": st.booleans(), "op": st.sampled_from(["min", "max"]), "warn": st.booleans(), "sel": SEL}),
       quick=90, thorough=3000, cost=5,
       rule="iid_min and iid_max of continuous, mixed and discrete variables against 1-(1-F)^n and F^n, atoms included; non-trivial: n > 1")
def minmax(s, rec):
    from pacal.stats import iid_ops as I
    x, n, op = s["x"], s["n"], s["op"]
    L = laws.law(x)
    rec.nontrivial(n > 1)
    if s["all"] or not L.smooth:
        n = min(n, 6)
    d = laws.build(x)
    with Unchanged(d, [z for z in L.quantiles([.1, .6]) if not L.atom(z)], s["warn"]):
        r = getattr(I, "iid_" + op)(d, n, all=s["all"])
    if s["all"]:
        need(len(r) == n, "all=True gives %d results for n = %d", len(r), n)
    tol = 2e-6 if L.smooth and not L.heavy else 5e-3
    def F(z, k, left=False):
        c = float(L.cdfm(z) if left else L.cdf(z))
        return c ** k if op == "max" else 1 - (1 - c) ** k
    for k, v in (enumerate(r, 1) if s["all"] else [(n, r)]):
        zs = L.quantiles([PS[i % len(PS)] ** (1.0 / k) if op == "max" else 1 - PS[i % len(PS)] ** (1.0 / k) for i in s["sel"]])
        zs += L.quantiles([.4])
        close(v.get_piecewise_pdf().integrate(), 1.0, tol, "total probability for %d copies" % k)
        check_atoms(v, [(a, F(a, k) - F(a, k, True)) for a, _ in L.atoms], 1e-6, "%s of %d copies" % (op, k))
        for z in zs:
            if np.isfinite(z) and all(abs(z - a) > 1e-9 * max(1, abs(a)) for a, _ in L.atoms):
                close(v.cdf(z), F(z, k), tol, "%s of %d copies of %s: cdf(%r)" % (op, k, x, z))


DISC = gen.discrete(-2, 2, 2, 3)


@check("P14", st.fixed_dictionaries({"x": DISC, "n": st.integers(1, 7), "all": st.booleans(), "op": st.sampled_from(["sum", "prod", "average", "min", "max"]), "warn": st.booleans()}),
       quick=1500, thorough=30000, cost=0.3,
       rule="all operations on finitely supported variables against the n-fold enumeration; non-trivial: n > 2")
def discrete(s, rec):
    from pacal.stats import iid_ops as I
    x, n, op = s["x"], s["n"], s["op"]
    rec.nontrivial(n > 2)
    rec.label(op)
    d = laws.build(x)
    with Unchanged(d, [7.77], s["warn"]):
        r = getattr(I, "iid_" + op)(d, n, all=s["all"])
    if s["all"]:
        need(len(r) == n, "all=True gives %d results for n = %d", len(r), n)
    f = {"sum": lambda a, b: a + b, "average": lambda a, b: a + b, "prod": lambda a, b: a * b, "min": min, "max": max}[op]
    cur = dict(zip(x[1], x[2]))
    ref = {1: cur}
    for k in range(2, n + 1):
        nxt = {}
        for a, pa in cur.items():
            for b, pb in zip(x[1], x[2]):
                v = f(a, b)
                nxt[v] = nxt.get(v, 0.0) + pa * pb
        cur = ref[k] = nxt
    for k, v in (enumerate(r, 1) if s["all"] else [(n, r)]):
        check_atoms(v, [(a / k if op == "average" else a, p) for a, p in ref[k].items()], 1e-12, "%s of %d copies of %s" % (op, k, x))
        close(v.cdf(abs(max(ref[k])) + 1), 1.0, 1e-12, "total probability of the %s of %d copies" % (op, k))


CONT = ALL.filter(lambda s: laws.law(s).smooth)
MIXC = gen.weighted(5, CONT, 1, CONT.map(lambda s: ["aff", -1.0, 0.5, s]), 2, gen.mixed(CONT, with_atoms=False))


@check("P14", st.fixed_dictionaries({"x": MIXC, "n": st.integers(1, 15), "k": st.integers(1, 15), "f": st.sampled_from(["stat", "stat", "median", "unknown"]), "sel": SEL, "warn": st.booleans()}),
       quick=150, thorough=5000, cost=3,
       rule="iid_order_stat, iid_median and iid_unknown of continuous variables against the binomial tail of F, cdf and density; non-trivial: 1 < k < n")
def order(s, rec):
    from pacal.stats import iid_ops as I
    x, n, f = s["x"], s["n"], s["f"]
    k = 1 + (s["k"] - 1) % n
    if f == "unknown":
        n = min(n, 6)
        k = 1 + (s["k"] - 1) % n
    rec.nontrivial(1 < k < n)
    rec.label(f)
    L = laws.law(x)
    d = laws.build(x)
    with Unchanged(d, L.quantiles([.1, .6]), s["warn"]):
        if f == "stat":
            v = I.iid_order_stat(d, n, k)
            ks = [k]
        elif f == "median":
            v = I.iid_median(d, n)
            ks = [(n + 1) // 2]
        else:
            v = I.iid_unknown(d, n, k)
            ks = list(range(k, n + 1))
    tol = 2e-6 if not L.heavy else 5e-3
    u = [float(np.mean([sf.betaincinv(j, n - j + 1, PS[i % len(PS)]) for j in ks])) for i in s["sel"]]
    zs = [z for z in L.quantiles(u) if np.isfinite(z)]
    close(v.get_piecewise_pdf().integrate(), 1.0, tol, "total probability")
    kk = L.kinks()
    for z in zs:
        F = float(L.cdf(z))
        S = float(sum(w * c.sf(z) for w, c in L.conts))
        ref = float(np.mean([sf.betainc(j, n - j + 1, F) for j in ks]))
        close(v.cdf(z), ref, tol, "%s %s of %d copies of %s: cdf(%r)" % (f, ks, n, x, z))
        if all(abs(z - q) > 1e-3 * max(1.0, abs(q)) for q in kk):
            dens = float(L.pdf(z)) * float(np.mean([j * math.comb(n, j) * F ** (j - 1) * S ** (n - j) for j in ks]))
            close(v.pdf(z), dens, 1e-3 * max(1.0, dens), "%s %s of %d copies of %s: pdf(%r)" % (f, ks, n, x, z))


SM = gen.fams("U T N E B La S W Gu")


@check("P14", st.fixed_dictionaries({"x": gen.weighted(1, SM, 1, gen.mixed(SM)), "op": st.sampled_from(["sum", "prod", "average"]), "n": st.sampled_from([2, 3]), "all": st.booleans(), "sel": st.lists(st.integers(0, 60), min_size=2, max_size=3, unique=True)}),
       quick=30, thorough=1200, cost=10,
       rule="two and three copies of arbitrary continuous and mixed variables: the law of the two-fold operation by quadrature, and for three copies equality with "
            "the operation on three separately constructed variables; every case non-trivial")
def copies(s, rec):
    from pacal.stats import iid_ops as I
    x, n, op = s["x"], s["n"], s["op"]
    rec.nontrivial()
    L = laws.law(x)
    hard = not L.smooth or L.heavy
    d = laws.build(x)
    r = getattr(I, "iid_" + op)(d, n, all=s["all"])
    if s["all"]:
        r = r[n - 1]
    o = "mul" if op == "prod" else "add"
    qa = L.quantiles(QS)
    f = (lambda a, b: a * b) if op == "prod" else (lambda a, b: a + b)
    ref2 = laws.OpLaw(o, L, L)
    alt = laws.build(x)
    for _ in range(n - 1):
        alt = laws.apply_op(o, alt, laws.build(x))
    sc = n if op == "average" else 1.0
    check_atoms(r, [(a / sc, p) for a, p in (ref2.atoms if n == 2 else atoms_of(alt))], 1e-9, "%s of %d copies" % (op, n))
    ats = [a for a, _ in atoms_of(alt)]
    tol = 5e-3 if hard or op == "prod" else 2e-5
    for i in s["sel"]:
        z = f(qa[i % 6], qa[(i // 6) % 6])
        if n == 3:
            z = f(z, qa[(i // 9) % 6])
        if any(abs(z - a) <= 1e-7 * max(1, abs(a)) for a in ats):
            continue
        ref = float(ref2.cdf(z)) if n == 2 else fl(alt.cdf(z))
        close(r.cdf(z / sc), ref, tol, "%s of %d copies of %s: cdf(%r)" % (op, n, x, z))
