"""P13 variable transforms."""
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation
from ..cmp import need, fl

ASSUMPTIONS = ["transforms are exercised at points where the round trip is well conditioned: t away from an infinite end by 1e-3, x up to 1e6 times the scale"]
KINDS = ["id", "rec_pm", "rec_p", "rec_m", "alg_pm", "alg_p", "alg_m"]
LOC = st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -3.0, 10.0, -10.0, 100.0, -250.0, 0.01, -0.01, 1e-6, -1e-6])
EXP = st.sampled_from([1, 2, 3, 6, 8, 1.5, 2.5])
SC = st.sampled_from([1, 1.0, 0.5, 2.0, 5.0, 0.1])
# limit of a bounded range, as a distance from the finite end
WID = st.sampled_from([None, None, None, 0.5, 1.0, 3.0, 20.0, 1000.0])
VT = st.fixed_dictionaries({"k": st.sampled_from(KINDS), "loc": LOC, "exp": EXP, "c": SC, "w": WID})
FR = st.lists(st.floats(0.001, 0.999).map(lambda v: round(v, 4)), min_size=2, max_size=9, unique=True)


def build(s):
    from pacal import vartransforms as V
    k, loc, e, c, w = s["k"], s["loc"], s["exp"], s["c"], s["w"]
    if k == "id":
        return V.VarTransformIdentity(), (-1.0, 1.0)
    if k == "rec_pm":
        return V.VarTransformReciprocal_PMInf(), (-np.inf, np.inf)
    if k == "rec_p":
        return V.VarTransformReciprocal_PInf(loc, exponent=e, U=None if w is None else loc + w), (loc, np.inf if w is None else loc + w)
    if k == "rec_m":
        return V.VarTransformReciprocal_MInf(loc, exponent=e, L=None if w is None else loc - w), (-np.inf if w is None else loc - w, loc)
    if k == "alg_pm":
        return V.VarTransformAlgebraic_PMInf(c), (-np.inf, np.inf)
    if k == "alg_p":
        return V.VarTransformAlgebraic_PInf(loc, c), (loc, np.inf)
    return V.VarTransformAlgebraic_MInf(loc, c), (-np.inf, loc)


def scale(s):
    if s["k"] in ("rec_p", "rec_m"):
        return abs(s["loc"]) / 2 if s["loc"] else 1.0
    if s["k"].startswith("alg"):
        return float(s["c"])
    return 1.0


def xpoints(s, fr, lo, hi):
    """points of the open original range"""
    sc = scale(s)
    if s["k"] in ("rec_p", "rec_m") and np.isfinite(lo) and np.isfinite(hi):
        return [lo + (hi - lo) * u for u in fr]
    out = []
    for u in fr:
        if s["k"] == "id":
            out.append(-1 + 2 * u)
        elif np.isfinite(lo):
            out.append(lo + sc * 10 ** (-2 + 6 * u))
        elif np.isfinite(hi):
            out.append(hi - sc * 10 ** (-2 + 6 * u))
        else:
            out.append((1 if u > 0.5 else -1) * sc * 10 ** (-2 + 12 * abs(u - 0.5)))
    return [x for x in out if lo < x < hi]


@check("P13", st.fixed_dictionaries({"vt": VT, "fr": FR}), quick=12000, thorough=300000,
       rule="every transform, location, scale, exponent and bounded or infinite range: round trips in both directions, "
            "monotonicity, range ends, scalar = array; non-trivial: a non-identity transform with 2 or more points")
def bijection(s, rec):
    vt, (lo, hi) = build(s["vt"])
    k = s["vt"]["k"]
    rec.label(k + (" bounded" if np.isfinite(lo) and np.isfinite(hi) and k != "id" else ""))
    xs = xpoints(s["vt"], s["fr"], lo, hi)
    sc = scale(s["vt"])
    lo_t, hi_t = float(vt.var_min), float(vt.var_max)
    need(lo_t < hi_t, "empty variable range [%r, %r]", lo_t, hi_t)
    ts = np.asarray(vt.var_change(np.array(xs)), dtype=float)
    for x, t in zip(xs, ts):
        need(np.isfinite(t) and lo_t <= t <= hi_t, "%s: x = %r maps to t = %r outside [%r, %r]", k, x, t, lo_t, hi_t)
        need(fl(vt.var_change(x)) == t or abs(fl(vt.var_change(x)) - t) <= 1e-13, "%s: var_change differs for scalar and array at %r", k, x)
        x2 = fl(vt.inv_var_change(t))
        need(abs(x2 - x) <= 1e-9 * (abs(x) + sc) * max(1.0, (abs(x) / sc) if k.startswith("alg") else 1.0), "%s: inv_var_change(var_change(%r)) = %r", s["vt"], x, x2)
    rec.nontrivial(k != "id" and len(xs) > 1)
    # the other direction, over the open variable range
    tt = np.array([lo_t + (hi_t - lo_t) * u for u in s["fr"]])
    X = np.asarray(vt.inv_var_change(tt), dtype=float)
    for t, x in zip(tt, X):
        need(np.isfinite(x) and lo - 1e-9 * (1 + abs(lo)) <= x <= hi + 1e-9 * (1 + abs(hi)), "%s: t = %r maps to x = %r outside [%r, %r]", s["vt"], t, x, lo, hi)
        need(abs(fl(vt.inv_var_change(t)) - x) <= 1e-13 * (1 + abs(x) + abs(s["vt"]["loc"])), "%s: inv_var_change differs for scalar and array at %r", k, t)
        t2 = fl(vt.var_change(x))
        need(abs(t2 - t) <= 1e-8, "%s: var_change(inv_var_change(%r)) = %r", s["vt"], t, t2)
    # monotone, the same direction everywhere
    o = np.argsort(xs)
    d = np.diff(ts[o])
    need((d >= 0).all() or (d <= 0).all(), "%s: var_change is not monotone at %s: %s", s["vt"], list(np.array(xs)[o]), list(ts[o]))
    dX = np.diff(X[np.argsort(tt)])
    need((dX > 0).all() or (dX < 0).all(), "%s: inv_var_change is not strictly monotone: %s", s["vt"], list(X[np.argsort(tt)]))
    # ends of the variable range are the ends of the original range
    ends = []
    for t in (lo_t, hi_t):
        if any(t == v for v in vt.var_inf):
            ends.append("inf")
        else:
            ends.append(fl(vt.inv_var_change(t)))
    inf_ends = sum(not np.isfinite(v) for v in (lo, hi))
    need(ends.count("inf") == inf_ends, "%s: %d ends declared infinite, %d expected", s["vt"], ends.count("inf"), inf_ends)
    fin = sorted(v for v in ends if v != "inf")
    exp = sorted(v for v in (lo, hi) if np.isfinite(v))
    for a, b in zip(fin, exp):
        need(abs(a - b) <= 1e-9 * (1 + abs(b) + (hi - lo if np.isfinite(hi - lo) else sc)), "%s: an end of the variable range maps to %r, expected %r", s["vt"], a, b)


@check("P13", st.fixed_dictionaries({"vt": VT, "fr": FR}), quick=12000, thorough=300000,
       rule="inv_var_change_deriv against central differences of inv_var_change with Richardson extrapolation; |derivative| is the "
            "Jacobian (some transforms return its absolute value: decreasing maps); non-trivial: non-identity")
def jacobian(s, rec):
    vt, (lo, hi) = build(s["vt"])
    rec.nontrivial(s["vt"]["k"] != "id")
    a, b = float(vt.var_min), float(vt.var_max)
    for u in s["fr"]:
        u = 0.05 + 0.9 * u
        t = a + (b - a) * u
        if s["vt"]["k"] == "rec_pm" and abs(t) < 0.02:
            continue
        room = min(t - a, b - t)
        if s["vt"]["k"] == "rec_pm":
            room = min(room, abs(t))
        if s["vt"]["k"] in ("rec_p", "rec_m"):
            room = min(room, t)
        h = 2e-3 * room
        D = lambda h: (fl(vt.inv_var_change(t + h)) - fl(vt.inv_var_change(t - h))) / (2 * h)
        num = (16 * (4 * D(h / 2) - D(h)) / 3 - (4 * D(h) - D(2 * h)) / 3) / 15
        der = fl(vt.inv_var_change_deriv(t)) if s["vt"]["k"] != "id" else float(vt.inv_var_change_deriv(t))
        cancel = 1e-15 * (abs(fl(vt.inv_var_change(t))) + abs(s["vt"]["loc"]) + 1) / h
        need(abs(abs(der) - abs(num)) <= 1e-6 * abs(num) + 20 * cancel, "%s: inv_var_change_deriv(%r) = %r, the inverse map has slope %r", s["vt"], t, der, num)
        arr = np.asarray(vt.inv_var_change_deriv(np.array([t, t]))) * np.ones(2)
        need((abs(arr - der) <= 1e-13 * abs(der)).all(), "%s: derivative differs for scalar and array at %r", s["vt"], t)


FS = {"lin": lambda x: 3.0 * x + 1.0, "exp": lambda x: np.exp(-abs(x)), "rat": lambda x: 1.0 / (1.0 + x * x),
      "abs": lambda x: abs(x), "same": lambda x: x}


@check("P13", st.fixed_dictionaries({"vt": VT, "fr": FR, "f": st.sampled_from(sorted(FS)), "deriv": st.booleans(),
                                     "ends": st.sampled_from(["none", "lo", "hi", "both", "twice"]),
                                     "dv": st.sampled_from([0, 0.0, 1.0, -2.5]), "shape": st.sampled_from(["flat", "2d", "one"])}),
       quick=12000, thorough=300000,
       rule="apply_with_inv_transform at interior points and at the ends of the variable range, scalars and arrays, with and "
            "without the Jacobian, against composition by hand; infinite ends give the default value; arguments unchanged; "
            "non-trivial: an infinite end among the points")
def apply(s, rec):
    vt, (lo, hi) = build(s["vt"])
    a, b = float(vt.var_min), float(vt.var_max)
    f = FS[s["f"]]
    ts = [a + (b - a) * u for u in s["fr"]]
    e = s["ends"]
    if e in ("lo", "both"):
        ts.insert(1, a)
    if e in ("hi", "both"):
        ts.append(b)
    if e == "twice":
        ts = [a] + ts + [a, b]
    ref = []
    for t in ts:
        if any(t == v for v in vt.var_inf):
            ref.append(float(s["dv"]))
            rec.nontrivial()
            rec.label("infinite end")
        else:
            x = fl(vt.inv_var_change(t))
            y = float(f(x))
            if s["deriv"]:
                y *= float(vt.inv_var_change_deriv(t))
            ref.append(y)
    kw = dict(def_val=s["dv"], mul_by_deriv=s["deriv"])
    T = np.array(ts)
    if s["shape"] == "2d":
        n = len(ts) // 2 * 2
        T = T[:n].reshape(2, -1)
        ref = ref[:n]
    elif s["shape"] == "one":
        T, ref = T[:1], ref[:1]
    T0 = T.copy()
    calls = []

    def g(x):
        calls.append(np.array(x))
        return f(x)
    y = np.asarray(vt.apply_with_inv_transform(g, T, **kw))
    need(y.shape == T.shape, "%s: shape %s for an argument of shape %s", s["vt"], y.shape, T.shape)
    need((T == T0).all(), "%s: the argument was modified", s["vt"])
    for c in calls:
        need(np.isfinite(c).all(), "%s: the function was called at %s", s["vt"], c)
    for t, v, r in zip(T.ravel(), y.ravel(), ref):
        need(abs(v - r) <= 1e-12 * (1 + abs(r)), "%s: value %r at t = %r, expected %r", s, v, t, r)
    for t, r in list(zip(T.ravel(), ref))[:4]:
        v = fl(vt.apply_with_inv_transform(f, float(t), **kw))
        need(abs(v - r) <= 1e-12 * (1 + abs(r)), "%s: scalar value %r at t = %r, expected %r", s, v, t, r)
    x, mask = vt.inv_var_change_with_mask(T)
    need(np.shape(mask) == T.shape or np.shape(mask) == T.shape[:], "mask of shape %s for %s", np.shape(mask), T.shape)
    need([bool(m) for m in np.ravel(mask)] == [not any(t == v for v in vt.var_inf) for t in T.ravel()], "%s: wrong mask %s at %s", s["vt"], mask, T)
