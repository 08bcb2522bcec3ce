"""P09 arithmetic on discrete distributions is exact enumeration."""
import math
from fractions import Fraction as Q
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import close, need, fl, atoms_of

ASSUMPTIONS = ["probabilities compared to 1e-12, values to 1e-9 relative: enumeration uses exact fractions"]


def dyadic(lo, hi, den):
    return st.integers(lo * den, hi * den).map(lambda k: Q(k, den))


@st.composite
def dist(draw, lo=-4, hi=4, den=2, mx=6, nz=False, pos=False):
    g = dyadic(1 if pos else lo, hi, den)
    if nz or pos:
        g = g.filter(lambda v: v != 0)
    xs = draw(st.lists(g, min_size=1, max_size=mx, unique=True))
    ws = draw(st.lists(st.integers(1, 9), min_size=len(xs), max_size=len(xs)))
    return [[str(x) for x in xs], ws]


def table(spec):
    xs, ws = spec
    s = sum(ws)
    return {Q(x): Q(w, s) for x, w in zip(xs, ws)}


def make(spec):
    from pacal.distr import DiscreteDistr, ConstDistr
    t = table(spec)
    if len(t) == 1 and spec[1][0] % 2:
        return ConstDistr(float(next(iter(t))))
    return DiscreteDistr([float(x) for x in t], [float(p) for p in t.values()])


def image(t, f):
    out = {}
    for x, p in t.items():
        y = f(x)
        out[y] = out.get(y, 0) + p
    return out


def combine(t, u, f):
    out = {}
    for x, p in t.items():
        for y, q in u.items():
            z = f(x, y)
            out[z] = out.get(z, 0) + p * q
    return out


def compare(d, t, what, xtol=1e-9, hull=False):
    """atoms, cdf, quantiles, moments of d against the exact table t."""
    ref = sorted((float(x), float(p)) for x, p in t.items())
    m = []
    for x, p in ref:          # float images of distinct values may coincide
        if m and abs(m[-1][0] - x) <= 1e-12 * max(1, abs(x)):
            m[-1] = (m[-1][0], m[-1][1] + p)
        else:
            m.append((x, p))
    ref = m
    got = atoms_of(d)
    if what == "sign":
        got = [a for a in got if abs(a[1]) > 1e-15]
    need(len(got) == len(ref), "%s: values %s, expected %s", what, got, ref)
    for (x, p), (y, q) in zip(got, ref):
        need(abs(x - y) <= xtol * max(1, abs(y)), "%s: value %r, expected %r in %s", what, x, y, ref)
        need(abs(p - q) <= 1e-12, "%s: P(%r) = %r, expected %r", what, x, p, q)
    pp = d.get_piecewise_pdf()
    for s in pp.segments:
        if not s.isDirac():
            need(abs(fl(pp.integrate(s.a, s.b)) - sum(p for x, p in ref if s.a <= x <= s.b)) < 1e-9 or
                 abs(float(np.max(np.abs(s.f(np.array([(s.a + s.b) / 2])))))) == 0,
                 "%s: a density between the atoms", what)
    close(pp.integrate(), 1.0, 1e-12, what + " total probability")
    xs = np.array([x for x, _ in ref])
    ps = np.array([p for _, p in ref])
    cum = np.cumsum(ps)
    gx = [x for x, _ in got]
    for i, x in enumerate(gx):
        close(d.cdf(x), cum[i], 1e-12, "%s cdf(%r)" % (what, x))
        close(d.ccdf(x + 1e-6), 1 - cum[i], 1e-10, "%s ccdf(%r)" % (what, x + 1e-6))
        if i + 1 < len(gx):
            mid = (x + gx[i + 1]) / 2
            close(d.cdf(mid), cum[i], 1e-12, "%s cdf(%r)" % (what, mid))
            close(d.pdf(mid), 0.0, 0.0, "%s density between atoms" % what)
    close(d.cdf(gx[0] - 1), 0.0, 0.0, what + " cdf below")
    close(d.cdf(gx[-1] + 1), 1.0, 1e-12, what + " cdf above")
    for i, x in enumerate(gx):
        lo = cum[i - 1] if i else 0.0
        close(d.quantile((lo + cum[i]) / 2), x, 1e-9, "%s quantile(%r)" % (what, (lo + cum[i]) / 2))
    sc = max(1.0, float(np.max(np.abs(xs))))
    mu = float(np.dot(xs, ps))
    close(d.mean(), mu, 1e-11 * sc, what + " mean")
    close(d.var(), float(np.dot((xs - mu) ** 2, ps)), 1e-10 * sc * sc, what + " variance")
    r = d.range_()
    if hull:        # the image of a gap of probability 0 may extend the reported range
        need(r[0] <= xs[0] + xtol * sc and r[1] >= xs[-1] - xtol * sc, "%s range %s does not contain %s", what, r, ref)
        return
    close(r[0], xs[0], 0, what + " lower end", rel=xtol)
    close(r[1], xs[-1], 0, what + " upper end", rel=xtol)


BIN = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y,
       "min": lambda x, y: x if x < y else y, "max": lambda x, y: x if x > y else y}


def pac(op, a, b):
    from pacal import distr
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        return a / b
    return distr.min(a, b) if op == "min" else distr.max(a, b)


def group(op, a, b):
    n = (1 if isinstance(a, str) else len(a[0]), len(b[0]))
    return "%s" % op


@check("P09", st.fixed_dictionaries({"op": st.sampled_from(sorted(BIN)), "a": dist(), "b": dist()}), quick=2200,
       thorough=120000,
       rule="every binary operation on two finitely supported laws with frequently colliding outcomes, zeros and constants: "
            "values, probabilities, cdf, ccdf, quantiles, mean, variance, range by exact enumeration; non-trivial: colliding "
            "outcomes")
def binary(spec, rec):
    t, u = table(spec["a"]), table(spec["b"])
    op = spec["op"]
    a, b = make(spec["a"]), make(spec["b"])
    if op == "/" and 0 in u:
        try:
            d = a / b
            v = [d.get_piecewise_pdf().integrate(), d.mean()]
        except Exception:
            rec.label("division by zero refused")
            return
        raise Violation("division by a variable with P(Y=0) > 0 returned a law: %s" % v)
    w = combine(t, u, BIN[op])
    rec.nontrivial(len(w) < len(t) * len(u))
    rec.label(op)
    compare(pac(op, a, b), w, op, hull=op == "/")
    compare(a, t, "first operand after " + op)
    compare(b, u, "second operand after " + op)


FUN = {
    "neg": (lambda d: -d, lambda x: -x), "abs": (abs, abs), "sq": (lambda d: d ** 2, lambda x: x * x),
    "cube": (lambda d: d ** 3, lambda x: x ** 3), "2x+1": (lambda d: 2 * d + 1, lambda x: 2 * x + 1),
    "1-x": (lambda d: 1 - d, lambda x: 1 - x), "x/4": (lambda d: d / 4, lambda x: x / 4),
    "-3x": (lambda d: d * (-3), lambda x: -3 * x), "min1": (lambda d: _m("min", d, 1), lambda x: min(x, Q(1))),
    "max0": (lambda d: _m("max", 0, d), lambda x: max(x, Q(0))), "exp": (lambda d: _f("exp", d), lambda x: math.exp(x)),
    "atan": (lambda d: _f("atan", d), lambda x: math.atan(x)), "sign": (lambda d: _f("sign", d), lambda x: (x > 0) - (x < 0)),
    "inv": (lambda d: 1 / d, lambda x: 1 / x), "3/x": (lambda d: 3 / d, lambda x: 3 / x),
    "log": (lambda d: _f("log", d), lambda x: math.log(x)), "sqrt": (lambda d: _f("sqrt", d), lambda x: math.sqrt(x)),
    "x^1.5": (lambda d: d ** 1.5, lambda x: float(x) ** 1.5), "2^x": (lambda d: 2 ** d, lambda x: 2.0 ** float(x)),
    "tanh": (lambda d: _f("tanh", d), lambda x: math.tanh(x)), "x^-1": (lambda d: d ** -1, lambda x: 1 / x),
    "sin": (lambda d: _f("sin", d), lambda x: math.sin(x)), "cos": (lambda d: _f("cos", d), lambda x: math.cos(x)),
}
NZ = {"inv", "3/x", "x^-1"}
POS = {"log", "sqrt", "x^1.5", "cube", "sin", "cos"}


def _m(n, a, b):
    from pacal import distr
    return getattr(distr, n)(a, b)


def _f(n, d):
    from pacal import distr
    return getattr(distr, n)(d)


@check("P09", st.fixed_dictionaries({"f": st.sampled_from(sorted(FUN)), "a": dist(), "p": dist(pos=True), "n": dist(nz=True)}),
       quick=1600, thorough=60000,
       rule="functions of one discrete variable (negation, abs, powers, affine maps, reciprocal, exp, log, sign, min/max with "
            "a constant...) by exact enumeration; non-trivial: at least three values")
def unary(spec, rec):
    f = spec["f"]
    s = spec["p"] if f in POS else spec["n"] if f in NZ else spec["a"]
    t = table(s)
    rec.nontrivial(len(t) > 2)
    rec.label(f)
    d = make(s)
    w = image(t, FUN[f][1])
    compare(FUN[f][0](d), w, f, hull=f in ("abs", "sq", "sin", "cos", "sign", "inv", "3/x", "x^-1"))
    compare(d, t, "operand after " + f)


OPS = st.lists(st.tuples(st.sampled_from(["+", "-", "*", "min", "max", "r-", "neg", "abs", "sq", "2x+1"]), dist(-2, 2, 2, 3)), min_size=2, max_size=4)


@check("P09", st.fixed_dictionaries({"a": dist(-2, 2, 2, 4), "ops": OPS}), quick=700, thorough=40000, cost=2,
       rule="chains of 2-4 operations on independent discrete variables by exact enumeration; non-trivial: three binary steps")
def chain(spec, rec):
    d, t = make(spec["a"]), table(spec["a"])
    nb = 0
    for op, s in spec["ops"]:
        if op in FUN:
            d, t = FUN[op][0](d), image(t, FUN[op][1])
            continue
        u, e = table(s), make(s)
        if len(t) * len(u) > 250:
            break
        nb += 1
        if op == "r-":
            d, t = pac("-", e, d), combine(u, t, BIN["-"])
        else:
            d, t = pac(op, d, e), combine(t, u, BIN[op])
    rec.nontrivial(nb > 2)
    if max(abs(x) for x in t) > 1e5:
        return
    compare(d, t, "chain", xtol=1e-9, hull=any(o in ("sq", "abs", "*") for o, _ in spec["ops"]))


DEC = st.lists(st.integers(-30, 30), min_size=1, max_size=5, unique=True)


@check("P09", st.fixed_dictionaries({"op": st.sampled_from(["+", "-", "*", "min", "max"]), "a": DEC, "b": DEC}), quick=900,
       thorough=40000,
       rule="values in tenths, whose floating-point sums and products collide only up to rounding: equal outcomes must merge "
            "into one atom and distinct ones stay apart; non-trivial: outcomes equal in exact arithmetic but not in floats")
def decimals(spec, rec):
    from pacal.distr import DiscreteDistr
    ts = []
    ds = []
    for k in "ab":
        n = len(spec[k])
        ts.append({Q(v, 10): Q(1, n) for v in spec[k]})
        ds.append(DiscreteDistr([v / 10.0 for v in spec[k]], [1.0 / n] * n))
    op = spec["op"]
    w = combine(ts[0], ts[1], BIN[op])
    fls = set()
    for x in spec["a"]:
        for y in spec["b"]:
            fls.add(float(BIN[op](x / 10.0, y / 10.0)))
    rec.nontrivial(len(fls) > len(w))
    compare(pac(op, ds[0], ds[1]), w, op + " of tenths")


@check("P09", st.fixed_dictionaries({"n": st.integers(1, 8), "p": st.sampled_from([Q(1, 2), Q(1, 4), Q(3, 10), Q(9, 10)]).map(str),
                                     "m": st.integers(1, 6), "op": st.sampled_from(["+", "-", "max", "min", "*"])}), quick=250,
       thorough=4000,
       rule="binomial and Bernoulli laws under arithmetic: Bin(n,p) + Bin(m,p) = Bin(n+m,p) and enumeration for the others; "
            "non-trivial: n, m > 1")
def binomials(spec, rec):
    from pacal.standard_distr import BinomialDistr, BernoulliDistr
    n, m, p = spec["n"], spec["m"], Q(spec["p"])
    B = lambda n: {Q(k): math.comb(n, k) * p ** k * (1 - p) ** (n - k) for k in range(n + 1)}
    mk = lambda n: BernoulliDistr(float(p)) if n == 1 else BinomialDistr(n, float(p))
    rec.nontrivial(n > 1 and m > 1)
    w = combine(B(n), B(m), BIN[spec["op"]])
    d = pac(spec["op"], mk(n), mk(m))
    if spec["op"] == "+":
        need(w == B(n + m), "reference")
    compare(d, w, "binomial " + spec["op"])
