"""P12 adaptive quadrature."""
import math
import numpy as np
from hypothesis import strategies as st
from scipy import special as sp
from ..core import check, Violation
from ..cmp import need, fl

ASSUMPTIONS = ["reference integrals are closed forms (polynomials, exponentials, trigonometric, rational and error functions, incomplete gamma)"]

# ---- terms with a known antiderivative: value(t), primitive difference over [a, b] ------------------------------
COEF = st.sampled_from([1.0, -1.0, 0.5, 2.0, -3.0, 0.25])


@st.composite
def term(draw):
    c = draw(COEF)
    k = draw(st.sampled_from(["pow", "exp", "cos", "sin", "rat", "gauss"]))
    if k == "pow":
        return [k, c, draw(st.integers(0, 6))]
    if k == "exp":
        return [k, c, draw(st.sampled_from([-2.0, -1.0, -0.5, 0.5, 1.0]))]
    if k in ("cos", "sin"):
        return [k, c, draw(st.sampled_from([0.5, 1.0, 2.0, 5.0]))]
    return [k, c, draw(st.sampled_from([-1.0, 0.0, 0.5, 2.0])), draw(st.sampled_from([1.0, 0.5, 2.0]))]


def val(t, x):
    k, c = t[0], t[1]
    if k == "pow":
        return c * x ** t[2]
    if k == "exp":
        return c * np.exp(t[2] * x)
    if k == "cos":
        return c * np.cos(t[2] * x)
    if k == "sin":
        return c * np.sin(t[2] * x)
    z = (x - t[2]) / t[3]
    return c / (1 + z * z) if k == "rat" else c * np.exp(-z * z)


def prim(t, x):
    k, c = t[0], t[1]
    if k == "pow":
        return c * x ** (t[2] + 1) / (t[2] + 1)
    if k == "exp":
        return c * math.exp(t[2] * x) / t[2]
    if k == "cos":
        return c * math.sin(t[2] * x) / t[2]
    if k == "sin":
        return -c * math.cos(t[2] * x) / t[2]
    z = (x - t[2]) / t[3]
    return c * t[3] * math.atan(z) if k == "rat" else c * t[3] * math.sqrt(math.pi) / 2 * math.erf(z)


def F(ts):
    def f(x):
        y = 0.0 * x
        for t in ts:
            y = y + val(t, x)
        return y
    return f


def exact(ts, a, b):
    return math.fsum([prim(t, b) for t in ts] + [-prim(t, a) for t in ts])


def mag(ts, a, b):
    """scale of rounding errors"""
    return (abs(b - a) * max(sum(abs(float(val(t, x))) for t in ts) for x in np.linspace(a, b, 41))
            + sum(abs(prim(t, a)) + abs(prim(t, b)) for t in ts)) * 1.0


TS = st.lists(term(), min_size=1, max_size=3)
END = st.sampled_from([-3.0, -2.0, -1.0, -0.5, 0.0, 0.1, 0.25, 1.0, 1.5, 2.0, 4.0])
ROUT = st.sampled_from(["fejer2", "clenshaw", "wide", "fejer2_par", "fejer2_vector", "pinf_b", "minf_a", "guess"])


def run(r, f, a, b, exponent=None):
    from pacal import integration as I, params
    if r == "fejer2":
        return I.integrate_fejer2(f, a, b)
    if r == "fejer2_par":
        return I.integrate_fejer2(f, a, b, par=params.integration_finite)
    if r == "clenshaw":
        return I.integrate_clenshaw(f, a, b, debug_info=False)
    if r == "wide":
        return I.integrate_wide_interval(f, a, b)
    if r == "fejer2_vector":
        i, e = I.integrate_fejer2_vector(lambda x: np.array([f(x)]), a, b)
        return i[0], e
    if r == "pinf_b":
        return I.integrate_fejer2_pinf(f, a, b, exponent)
    if r == "minf_a":
        return I.integrate_fejer2_minf(f, b, a, exponent)
    if r == "guess":
        return I.integrate_with_pminf_guess(f, a, b)
    raise KeyError(r)


@check("P12", st.fixed_dictionaries({"ts": TS, "a": END, "b": END, "m": st.floats(0.1, 0.9).map(lambda v: round(v, 2)),
                                     "r": ROUT, "k": COEF, "ts2": TS, "e": st.sampled_from([None, 1, 2, 6])}),
       quick=5000, thorough=120000,
       rule="sums of up to three polynomial, exponential, trigonometric, Lorentz and Gauss terms over finite intervals, every "
            "routine (plain, parameterised, Clenshaw, wide, vector, variable-transform with both limits): value against the "
            "closed form, error estimate, linearity, additivity, exchange of limits, empty interval; non-trivial: a < b")
def finite(s, rec):
    a, b = s["a"], s["b"]
    r = s["r"]
    ts = s["ts"]
    rec.label(r)
    f = F(ts)
    if a == b:
        i, e = run(r, f, a, a, s["e"])
        need(abs(fl(i)) <= 1e-12, "%s over an empty interval at %r: %r", r, a, i)
        return
    directed = r in ("fejer2", "fejer2_par", "clenshaw", "fejer2_vector", "wide")
    if a > b and not directed:
        a, b = b, a
    rec.nontrivial(a < b)
    tv = 1e-9 if r in ("pinf_b", "minf_a", "guess") else 1e-12
    lo, hi = min(a, b), max(a, b)
    tol = tv * (1 + mag(ts, lo, hi))
    ref = exact(ts, a, b)
    i, e = run(r, f, a, b, s["e"])
    i, e = fl(i), fl(e)
    need(abs(i - ref) <= tol, "%s of %s over [%r, %r]: %r, expected %r", r, ts, a, b, i, ref)
    need(e >= 0 and e <= 1e-7 * (1 + mag(ts, lo, hi)), "%s of %s over [%r, %r]: error estimate %r for a smooth function", r, ts, a, b, e)
    m = lo + (hi - lo) * s["m"]
    i1, i2 = fl(run(r, f, a, m, s["e"])[0]), fl(run(r, f, m, b, s["e"])[0])
    need(abs(i1 + i2 - i) <= 3 * tol, "%s of %s: [%r,%r] + [%r,%r] = %r, [%r,%r] = %r", r, ts, a, m, m, b, i1 + i2, a, b, i)
    if directed:
        j = fl(run(r, f, b, a, s["e"])[0])
        need(abs(i + j) <= tol, "%s of %s over [%r, %r] = %r but %r with the limits exchanged", r, ts, a, b, i, j)
    ts2, k = s["ts2"], s["k"]
    g = F(ts2)
    t2 = tol + tv * (1 + mag(ts2, lo, hi)) * (1 + abs(k))
    lhs = fl(run(r, lambda x: f(x) + k * g(x), a, b, s["e"])[0])
    rhs = i + k * fl(run(r, g, a, b, s["e"])[0])
    need(abs(lhs - rhs) <= 3 * t2, "%s is not linear: %r and %r", r, lhs, rhs)


# ---- infinite ranges -----------------------------------------------------------------------------------------------
@st.composite
def tail(draw):
    """c * kernel decaying away from the finite end: [kind, c, rate/power, shift]"""
    k = draw(st.sampled_from(["exp", "pow", "gam", "ray", "lor"]))
    c = draw(COEF)
    if k == "exp":
        return [k, c, draw(st.sampled_from([0.5, 1.0, 2.0, 5.0]))]
    if k == "pow":
        return [k, c, draw(st.sampled_from([1.5, 2.0, 2.5, 3.0, 5.0])), draw(st.sampled_from([1.0, 0.5, 3.0]))]
    if k == "gam":
        return [k, c, draw(st.sampled_from([1, 2, 3])), draw(st.sampled_from([1.0, 2.0]))]
    if k == "ray":
        return [k, c, draw(st.sampled_from([0.5, 1.0, 2.0]))]
    return [k, c, draw(st.sampled_from([0.0, 1.0, 2.0])), draw(st.sampled_from([1.0, 0.5, 2.0]))]


def tval(t, u):
    k, c = t[0], t[1]
    if k == "exp":
        return c * np.exp(-t[2] * u)
    if k == "pow":
        return c * (1 + u / t[3]) ** (-t[2])
    if k == "gam":
        return c * u ** t[2] * np.exp(-t[3] * u)
    if k == "ray":
        return c * u * np.exp(-(u / t[2]) ** 2)
    z = (u - t[2]) / t[3]
    return c / (1 + z * z)


def tint(t, u0, u1):
    """integral of the kernel over [u0, u1], u1 may be inf"""
    k, c = t[0], t[1]
    if k == "exp":
        P = lambda u: -math.exp(-t[2] * u) / t[2] if np.isfinite(u) else 0.0
    elif k == "pow":
        P = lambda u: -t[3] / (t[2] - 1) * (1 + u / t[3]) ** (1 - t[2]) if np.isfinite(u) else 0.0
    elif k == "gam":
        P = lambda u: sp.gammainc(t[2] + 1, t[3] * u) * math.gamma(t[2] + 1) / t[3] ** (t[2] + 1)
    elif k == "ray":
        P = lambda u: -t[2] ** 2 / 2 * math.exp(-(u / t[2]) ** 2) if np.isfinite(u) else 0.0
    else:
        P = lambda u: t[3] * math.atan((u - t[2]) / t[3]) if np.isfinite(u) else t[3] * math.pi / 2
    return c * (P(u1) - P(u0))


@check("P12", st.fixed_dictionaries({"ts": st.lists(tail(), min_size=1, max_size=2), "loc": st.sampled_from([0.0, 1.0, -1.0, 2.0, -3.0, 0.25, 10.0]), "near": st.sampled_from([0.0, 0.0, 0.0, 4e-16, -4e-16, 1e-12, -1e-9, 1e-8, 1e-6, -1e-5, 1e-4, 5e-4]),
                                     "dir": st.sampled_from(["pinf", "minf", "pminf", "c_pinf", "c_minf", "c_pminf", "wide_p", "wide_m"]),
                                     "e": st.sampled_from([None, None, 1, 2, 3, 6, 8]), "cut": st.sampled_from([0.5, 2.0, 7.0]), "k": COEF}),
       quick=5000, thorough=120000,
       rule="exponential, power, gamma, Rayleigh and Lorentz tails in both directions from several end points, two-sided integrals, "
            "all variable-transform routines and exponents: closed form, additivity at a cut, linearity, reflection; "
            "non-trivial: a two-term or power-tail integrand")
def infinite(s, rec):
    from pacal import integration as I
    ts, loc, d = s["ts"], s["loc"], s["dir"]
    if d in ("pinf", "minf") and s["near"] and s["e"] in (None, 6, 8):
        loc = s["near"]          # an end which is zero up to rounding
    rec.label(d)
    rec.nontrivial(len(ts) > 1 or ts[0][0] in ("pow", "lor"))
    slow = any(t[0] == "pow" and t[2] != int(t[2]) for t in ts)
    scale = 1 + sum(abs(tint([t[0], 1.0] + t[2:], 0, np.inf)) * abs(t[1]) for t in ts)
    e = s["e"]
    one = d in ("pinf", "minf", "wide_p", "wide_m", "c_pinf", "c_minf")
    if d.startswith("c_") or d == "pminf":
        # algebraic and exponent 1 maps: fractional powers leave an end singularity
        tol = 2e-3 if any(t[0] == "pow" and t[2] < 2 for t in ts) else 1e-4 if slow else 1e-6
        if d == "pminf":
            tol = max(tol, 1e-4)
    else:
        # with t = (o/(x-a+o))**(1/e) a power tail x**-p becomes t**(e(p-1)-1)
        ee = 6 if e is None else e
        rough = [ee * (t[2] - 1) - 1 for t in ts if t[0] == "pow"]
        frac = [q for q in rough if abs(q - round(q)) > 1e-9 or q < 0]
        tol = 1e-8 if not frac else 1e-6 if min(frac) >= 3 else 2e-4 if min(frac) >= 0.9 else 2e-3 if min(frac) > 0.4 else None
        if tol is None:
            return
        if any(t[0] == "exp" for t in ts):
            tol = max(tol, 1e-7)
    tol *= scale
    sg = -1.0 if d.endswith(("minf", "m")) and not d.endswith("pminf") else 1.0

    def f(x):
        u = sg * (x - loc)
        y = 0.0 * x
        for t in ts:
            y = y + (tval(t, u) if one else tval(t, abs(u)))
        return y

    def go(f, b0=None, b1=None):
        if d == "pinf":
            return fl(I.integrate_fejer2_pinf(f, loc if b0 is None else b0, b1, e)[0])
        if d == "minf":
            return fl(I.integrate_fejer2_minf(f, loc if b0 is None else b0, b1, e)[0])
        if d == "pminf":
            return fl(I.integrate_fejer2_pminf(f)[0])
        if d == "c_pinf":
            return fl(I.integrate_clenshaw_pinf(f, loc if b0 is None else b0)[0])
        if d == "c_minf":
            return fl(I.integrate_clenshaw_minf(f, loc if b0 is None else b0)[0])
        if d == "c_pminf":
            return fl(I.integrate_clenshaw_pminf(f)[0])
    if d in ("pminf", "c_pminf"):
        # functions smooth on the whole line; a Lorentz tail leaves an end singularity under the algebraic map
        # (a narrow peak far from the origin is out of reach of these fixed maps)
        if abs(loc) > 2:
            return
        lor = ts[0][0] in ("pow", "lor")
        if lor:
            h = lambda x: sum(t[1] / (1 + ((x - loc) / t[-1]) ** 2) for t in ts)
            ref, tol = sum(t[1] * t[-1] * math.pi for t in ts), 1e-3
        else:
            h = lambda x: sum(t[1] * np.exp(-((x - loc) / t[-1]) ** 2) for t in ts)
            ref, tol = sum(t[1] * t[-1] * math.sqrt(math.pi) for t in ts), 1e-3 if d == "pminf" else 1e-8
        got = go(h)
        need(abs(got - ref) <= tol * (1 + sum(abs(t[1] * t[-1]) for t in ts) * 4), "%s: integral over the line %r, expected %r (%s of %s, centre %r)",
             d, got, ref, "Lorentz" if lor else "Gauss", ts, loc)
        return
    if d in ("wide_p", "wide_m"):
        if not (sg * loc > 0):
            return
        U = loc + sg * 1000.0
        ref = sum(tint(t, 0.0, 1000.0) for t in ts)
        lo, hi = min(loc, U), max(loc, U)
        got = fl(I.integrate_wide_interval(f, lo, hi)[0])
        need(abs(got - ref) <= 1e-6 * scale, "wide interval [%r, %r]: %r, expected %r (%s)", lo, hi, got, ref, ts)
        return
    ref = sum(tint(t, 0.0, np.inf) for t in ts)
    got = go(f)
    need(abs(got - ref) <= tol, "%s from %r of %s (exponent %r): %r, expected %r", d, loc, ts, e, got, ref)
    c = s["cut"]
    x1 = loc + sg * c
    if d in ("pinf", "minf"):
        part = go(f, loc, x1)
        pref = sum(tint(t, 0.0, c) for t in ts)
        need(abs(part - pref) <= max(tol, 1e-8 * scale), "%s of %s over a bounded range of length %r from %r: %r, expected %r", d, ts, c, loc, part, pref)
        rest = go(f, x1)
        need(abs(part + rest - got) <= 4 * tol, "%s of %s from %r: %r + %r != %r when cut at %r", d, ts, loc, part, rest, got, x1)
    inf = np.inf * sg
    need(go(f, inf) == 0, "%s from the infinite end: %r", d, go(f, inf))
    k = s["k"]
    need(abs(go(lambda x: k * f(x)) - k * got) <= 2 * tol * (1 + abs(k)), "%s is not homogeneous", d)


# ---- endpoint singularities ------------------------------------------------------------------------------------------
@check("P12", st.fixed_dictionaries({"side": st.sampled_from(["P", "N"]), "p": st.sampled_from([-0.75, -0.5, -0.25, -0.1, 0.5, "log", 0.0]),
                                     "q": st.integers(0, 3), "c": COEF, "end": st.sampled_from([0.0, 1.0, -1.0, 2.5, -4.0, 100.0]),
                                     "w": st.sampled_from([0.5, 1.0, 3.0, 0.01]), "N": st.sampled_from([None, None, 2.0, 4.0, 8.0])}),
       quick=4000, thorough=80000,
       rule="integrate_fejer2_Xn_transformP/N of |x-end|^p (or log) times a polynomial, singular at the left or right end, against "
            "the closed form; non-trivial: an unbounded integrand")
def endpoint(s, rec):
    from pacal import integration as I
    p, q, c, w = s["p"], s["q"], s["c"], s["w"]
    end = s["end"]
    rec.nontrivial(p == "log" or p < 0)
    N = s["N"]
    sing = -0.5 if p == "log" else min(p, 0)
    n = 8 if N is None else N
    if n * (1 + sing) < 1.5:   # the transform does not remove the singularity
        return
    sg = 1.0 if s["side"] == "P" else -1.0

    def f(x):
        u = sg * (x - end)
        r = np.log(u) if p == "log" else u ** p
        return c * r * (1 + u ** q)
    if p == "log":
        P = lambda k: w ** (k + 1) / (k + 1) * (math.log(w) - 1.0 / (k + 1))
    else:
        P = lambda k: w ** (k + p + 1) / (k + p + 1)
    ref = c * (P(0) + P(q))
    a, b = (end, end + w) if sg > 0 else (end - w, end)
    fun = I.integrate_fejer2_Xn_transformP if sg > 0 else I.integrate_fejer2_Xn_transformN
    got, err = fun(f, a, b, N) if N is not None else fun(f, a, b)
    got = fl(got)
    # the end is moved by eps*|end|: mass of the singularity lost and the distance to the end is rounded
    eps = abs(end) * 4e-16
    lost = (eps / w) ** (1 + sing) * 4 if eps else 0.0
    m = n * (1 + sing) - 1
    smooth = abs(m - round(m)) < 1e-9 and p != "log" and (n * (q + 1 + sing)) == round(n * (q + 1 + sing))
    tol = (1e-9 if smooth else 1e-6 if m >= 3 else 1e-4 if m > 1.4 else 1e-2) + 10 * lost
    need(abs(got - ref) <= tol * (abs(ref) + abs(c) * w), "Xn transform %s of %r*u^%s*(1+u^%d) over [%r, %r], N=%r: %r, expected %r", s["side"], c, p, q, a, b, N, got, ref)


# ---- vector-valued integrands ---------------------------------------------------------------------------------------
@check("P12", st.fixed_dictionaries({"m": st.lists(st.lists(term(), min_size=1, max_size=2), min_size=1, max_size=4), "a": END, "b": END,
                                     "rows": st.sampled_from([1, 2])}),
       quick=2500, thorough=50000,
       rule="integrate_fejer2_vector of vector and matrix valued integrands, component by component against closed forms and the "
            "scalar routine; non-trivial: 2 or more components")
def vector(s, rec):
    from pacal import integration as I
    a, b = s["a"], s["b"]
    comps = s["m"]
    rec.nontrivial(len(comps) > 1 and a != b)
    fs = [F(t) for t in comps]
    if s["rows"] == 2:
        g = lambda x: np.array([[f(x) for f in fs], [2 * f(x) for f in fs]])
    else:
        g = lambda x: np.array([f(x) for f in fs])
    i, e = I.integrate_fejer2_vector(g, a, b)
    i = np.asarray(i)
    need(i.shape == ((2, len(fs)) if s["rows"] == 2 else (len(fs),)), "shape %s", i.shape)
    lo, hi = min(a, b), max(a, b)
    for j, t in enumerate(comps):
        ref = exact(t, a, b)
        tol = 1e-11 * (1 + max(mag(u, lo, hi) for u in comps))
        got = i[0, j] if s["rows"] == 2 else i[j]
        need(abs(got - ref) <= tol, "component %d over [%r, %r]: %r, expected %r", j, a, b, got, ref)
        if s["rows"] == 2:
            need(abs(i[1, j] - 2 * ref) <= 2 * tol, "component (1,%d): %r, expected %r", j, i[1, j], 2 * ref)
        need(abs(got - fl(I.integrate_fejer2(fs[j], a, b)[0])) <= 2 * tol, "component %d differs from the scalar routine", j)


# ---- honesty of the error estimate --------------------------------------------------------------------------------------
@check("P12", st.fixed_dictionaries({"a": END, "w": st.sampled_from([1.0, 2.0, 5.0]), "kinks": st.lists(st.integers(2, 97).map(lambda j: (j + 0.1234) / 100), min_size=1, max_size=3),
                                     "h": st.lists(COEF, min_size=3, max_size=3), "kind": st.sampled_from(["abs", "step", "root"]), "base": TS,
                                     "r": st.sampled_from(["fejer2", "fejer2_par", "clenshaw"])}),
       quick=1500, thorough=30000,
       rule="integrands with kinks, jumps and square roots inside the interval: the routine returns (no failure when it does not "
            "converge) with a finite estimate; an estimate at rounding level (1e-12) implies an error below 1e-6, and the result is always roughly right; non-trivial: an estimate above 1e-9")
def honest(s, rec):
    a, b = s["a"], s["a"] + s["w"]
    base = F(s["base"])
    ks = [a + s["w"] * u for u in s["kinks"]]
    hs = s["h"]
    kind = s["kind"]
    if kind == "step" and s["r"] == "clenshaw":   # its first rules have 3 and 5 nodes and may agree on a step by structure
        return

    def f(x):
        y = base(x)
        for k, h in zip(ks, hs):
            if kind == "abs":
                y = y + h * abs(x - k)
            elif kind == "step":
                y = y + h * (x >= k)
            else:
                y = y + h * abs(x - k) ** 0.5
        return y
    ref = exact(s["base"], a, b)
    for k, h in zip(ks, hs):
        if kind == "abs":
            ref += h * ((k - a) ** 2 + (b - k) ** 2) / 2
        elif kind == "step":
            ref += h * (b - k)
        else:
            ref += h * ((k - a) ** 1.5 + (b - k) ** 1.5) / 1.5
    i, e = run(s["r"], f, a, b)
    i, e = fl(i), fl(e)
    rec.nontrivial(e > 1e-9)
    rec.label(kind)
    if e <= 1e-12 * (1 + abs(i)):
        rec.label("claims convergence")
        need(abs(i - ref) <= 1e-6 * (1 + abs(ref)), "%s of a function with %s at %s over [%r, %r]: %r, true %r, estimated error %r", s["r"], kind, ks, a, b, i, ref, e)
    need(np.isfinite(e) and e >= 0, "error estimate %r", e)
    need(abs(i - ref) <= (1e-3 if kind == "abs" else 0.2) * (1 + sum(abs(h) for h in hs)) * s["w"], "%s: %r, true %r", s["r"], i, ref)


# ---- iterated integrals ----------------------------------------------------------------------------------------------------
@check("P12", st.fixed_dictionaries({"f": TS, "g": TS, "x": st.tuples(END, END), "y": st.tuples(END, END), "h": st.sampled_from(["sep", "sum", "exp"])}),
       quick=160, thorough=2000,
       rule="integrate_iter and integrate_iter2 of separable, additive and exp(xy/4) integrands over boxes; non-trivial: a non-empty box")
def iterated(s, rec):
    from pacal import integration as I
    (a1, b1), (a2, b2) = sorted(s["x"]), sorted(s["y"])
    if a1 == b1 or a2 == b2:
        return
    rec.nontrivial()
    f, g = F(s["f"]), F(s["g"])
    ef, eg = exact(s["f"], a1, b1), exact(s["g"], a2, b2)
    mf, mg = mag(s["f"], a1, b1), mag(s["g"], a2, b2)
    if s["h"] == "sep":
        h, ref, m = (lambda x, y: f(x) * g(y)), ef * eg, mf * mg
    elif s["h"] == "sum":
        h, ref, m = (lambda x, y: f(x) + g(y)), ef * (b2 - a2) + eg * (b1 - a1), mf * (b2 - a2) + mg * (b1 - a1)
    else:
        h = lambda x, y: np.exp(x * y / 4.0)
        from numpy.polynomial.legendre import leggauss
        z, w = leggauss(40)
        X, Y = (a1 + b1) / 2 + (b1 - a1) / 2 * z, (a2 + b2) / 2 + (b2 - a2) / 2 * z
        ref = float(w @ np.exp(np.outer(X, Y) / 4.0) @ w) * (b1 - a1) * (b2 - a2) / 4
        m = abs(ref)
    for name in ("integrate_iter", "integrate_iter2"):
        i, e = getattr(I, name)(h, a1, b1, a2, b2)
        need(abs(fl(i) - ref) <= 1e-9 * (1 + m), "%s over [%r,%r]x[%r,%r]: %r, expected %r", name, a1, b1, a2, b2, i, ref)
