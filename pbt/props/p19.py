"""P19 copulas are valid and consistent with their densities, marginals and conditionals."""
import itertools
import math
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation
from .. import gen, laws
from ..cmp import need, close, fl

ASSUMPTIONS = ["M and W have no density: only their C, cdf, tau, rho, beta, covariance and margins are judged; W is judged as a copula in two dimensions and as the lower Frechet bound above",
               "reference values come from the Archimedean generators in mpmath (numerical derivatives)",
               "Frank copulas are compared with a tolerance growing like 1e-15 exp(|theta|), the cancellation in the textbook formula the library uses"]

ARCH = ["Gumbel", "Clayton", "Frank"]
TH = {"Gumbel": [1.0, 1.1, 1.5, 2.0, 2.5, 3.1, 5.0, 8.0], "Clayton": [0.1, 0.5, 1.0, 2.0, 3.1, 5.0, 10.0],
      "Frank": [0.01, 0.5, 1.0, 2.0, 5.0, 10.0, 15.0, -0.01, -0.5, -1.0, -3.0, -5.0, -10.0]}
SPECIAL = [0.5, 0.25, 1 / 3.0, 0.1, 0.9, 0.99, 0.01, 0.003, 0.997, 0.75]
INNER = gen.weighted(1, st.sampled_from(SPECIAL), 2, st.integers(5, 995).map(lambda k: k / 1000.0))
UNIT = gen.weighted(3, INNER, 1, st.sampled_from([0.0, 1.0]))


# ---------------------------------------------------------------- reference

def mpm():
    import mpmath
    mpmath.mp.dps = 90
    return mpmath.mp


def phi(fam, th, t):
    mp = mpm()
    if fam == "Gumbel":
        return (-mp.log(t)) ** th
    if fam == "Clayton":
        return (t ** (-th) - 1) / th
    return -mp.log(mp.expm1(-th * t) / mp.expm1(-th))


def dphi(fam, th, t):
    mp = mpm()
    if fam == "Gumbel":
        return -th * (-mp.log(t)) ** (th - 1) / t
    if fam == "Clayton":
        return -t ** (-th - 1)
    return th * mp.exp(-th * t) / mp.expm1(-th * t)


def psi(fam, th, s):
    mp = mpm()
    if fam == "Gumbel":
        return mp.exp(-s ** (1 / th))
    if fam == "Clayton":
        return (1 + th * s) ** (-1 / th)
    return -mp.log1p(mp.expm1(-th) * mp.exp(-s)) / th


def dpsi(fam, th, s, k):
    mp = mpm()
    if k == 0:
        return psi(fam, th, s)
    return mp.diff(lambda v: psi(fam, th, v), s, k, h=s * mp.mpf(10) ** -14)


def refC(fam, th, us):
    if fam == "Pi":
        return float(np.prod(us))
    if fam == "M":
        return float(min(us))
    if fam == "W":
        return max(0.0, math.fsum(us) - (len(us) - 1))
    if min(us) == 0:
        return 0.0
    mp = mpm()
    us = [mp.mpf(u) for u in us if u < 1]
    if not us:
        return 1.0
    t = mp.mpf(th)
    return float(psi(fam, t, sum(phi(fam, t, u) for u in us)))


def refpartial(fam, th, us, var):
    """mixed derivative of C with respect to the variables of var."""
    if fam == "Pi":
        return float(np.prod([u for i, u in enumerate(us) if i not in var]))
    mp = mpm()
    us = [mp.mpf(u) for u in us]
    t = mp.mpf(th)
    r = dpsi(fam, t, sum(phi(fam, t, u) for u in us), len(var))
    for i in var:
        r *= dphi(fam, t, us[i])
    return float(r)


def refc(fam, th, us):
    return refpartial(fam, th, us, list(range(len(us))))


# ---------------------------------------------------------------- objects

def make(s, marg):
    from pacal.depvars import copulas as C
    k = s["impl"]
    if k in ("Pi", "M", "W"):
        return getattr(C, k + "Copula")(marg)
    if s.get("kw"):
        return getattr(C, k + "Copula" if not k.endswith("2d") else k[:-2] + "Copula2d")(theta=s["theta"], marginals=marg)
    return getattr(C, k + "Copula" if not k.endswith("2d") else k[:-2] + "Copula2d")(s["theta"], marg)


def fam(s):
    return s["impl"].replace("2d", "")


def ctol(s):
    if fam(s) != "Frank":
        return 1e-12 * (1 + (1 / s["theta"] if fam(s) == "Clayton" else 1))
    t = abs(s["theta"])
    return 1e-12 + 1e-14 * (math.exp(t) + 1 / t)


@st.composite
def copula(draw, impls=None, dmax=4, theta=None):
    k = draw(st.sampled_from(impls or ["Gumbel", "Clayton", "Frank", "Gumbel2d", "Frank2d", "Pi", "M", "W"]))
    f = k.replace("2d", "")
    d = 2 if k.endswith("2d") else draw(gen.weighted(3, st.just(2), 2, st.just(3), 1, st.just(4)))
    d = min(d, dmax)
    s = {"impl": k, "d": d}
    if f in TH:
        th = [t for t in (theta or TH)[f] if d == 2 or t > 0]
        s["theta"] = draw(st.sampled_from(th))
    s["kw"] = draw(st.booleans())
    return s


@st.composite
def copula_pts(draw):
    s = draw(copula())
    s["shape"] = draw(st.sampled_from(["float", "float64", "vec", "mat", "bcast", "int"]))
    if s["shape"] == "int":
        s["us"] = [[draw(st.sampled_from([0, 1])) for _ in range(s["d"])] for _ in range(2)]
    else:
        s["us"] = [[draw(UNIT) for _ in range(s["d"])] for _ in range(draw(st.integers(1, 4)))]
    return s


def unif(d):
    import pacal
    return [pacal.UniformDistr(0, 1) for _ in range(d)]


def apply(f, us, shape):
    """values of f at the points us, given in the shape wanted; checks that the arguments are not changed."""
    d = len(us[0])
    if shape in ("float", "float64"):
        conv = float if shape == "float" else np.float64
        return [fl(f(*[conv(v) for v in u])) for u in us]
    if shape == "int":
        out = [fl(f(*[int(v) for v in u])) for u in us]
        arr = [np.array([int(u[i]) for u in us]) for i in range(d)]
        keep = [a.copy() for a in arr]
        r = np.asarray(f(*arr), dtype=float)
        need(all((a == b).all() for a, b in zip(arr, keep)), "the arguments were changed")
        need(r.shape == arr[0].shape and np.allclose(r, out, rtol=1e-12, atol=1e-13, equal_nan=True), "integer arrays %r give %r, integers %r", us, r, out)
        return out
    if shape == "bcast":
        us = [[us[0][0]] + list(u[1:]) for u in us]
        args = [np.full(1, us[0][0]) if d == 1 else np.array([us[0][0]])] + [np.array([u[i] for u in us]) for i in range(1, d)]
        keep = [a.copy() for a in args]
        r = np.asarray(f(*args), dtype=float)
        need(all((a == b).all() for a, b in zip(args, keep)), "the arguments were changed")
        return list(np.broadcast_to(r, (len(us),)))
    args = [np.array([u[i] for u in us], dtype=float) for i in range(d)]
    if shape == "mat":
        args = [a.reshape(1, -1) for a in args]
    keep = [a.copy() for a in args]
    r = np.asarray(f(*args), dtype=float)
    need(r.shape == args[0].shape, "points of shape %r give values of shape %r", args[0].shape, r.shape)
    need(all((a == b).all() for a, b in zip(args, keep)), "the arguments were changed")
    return list(r.reshape(-1))


def points(s):
    return [[s["us"][0][0]] + list(u[1:]) for u in s["us"]] if s["shape"] == "bcast" else s["us"]


@check("P19", copula_pts(), quick=1600, thorough=40000, cost=2,
       rule="C and its density at points of the unit cube, corners and edges included, as numbers, integers and arrays: reference value, Frechet bounds, grounded, "
            "uniform margins, nonnegative volume of boxes, cdf and dual, cpdf the mixed derivative; non-trivial: an interior point and not the independence copula")
def values(s, rec):
    f, th = fam(s), s.get("theta")
    d = s["d"]
    us = points(s)
    inner = [u for u in us if 0 < min(u) and max(u) < 1]
    rec.nontrivial(bool(inner) and f != "Pi")
    rec.label(s["impl"])
    c = make(s, unif(d))
    tol = ctol(s) if th is not None else 1e-13
    got = apply(c.ccdf, s["us"], s["shape"])
    gotd = apply(c.cdf, s["us"], s["shape"])
    dual = apply(c.dualcdf, s["us"], s["shape"])
    for u, v, w, x in zip(us, got, gotd, dual):
        r = refC(f, th, u)
        close(v, r, tol, "C%r" % (tuple(u),), rel=1e-10 if f == "Clayton" else 0.0)
        need(max(0.0, sum(u) - d + 1) - tol <= v <= min(u) + tol, "C%r = %r is outside of the Frechet bounds", tuple(u), v)
        close(w, r, tol + 1e-11 * (1 if min(u) > 1e-2 else 10), "joint cdf at %r" % (tuple(u),), rel=1e-9)
        close(x, sum(u) - r, tol + 1e-10, "dual at %r" % (tuple(u),))
        for i in range(d):
            one = [1.0] * d
            one[i] = u[i]
            close(c.ccdf(*one), u[i], tol, "margin %d of C at %r" % (i, u[i]))
            zero = [float(q) for q in u]
            zero[i] = 0.0
            close(c.ccdf(*zero), 0.0, 1e-15, "C%r" % (tuple(zero),))
    if len(us) > 1 and not (f == "W" and d > 2):
        lo = [min(a, b) for a, b in zip(us[0], us[1])]
        hi = [max(a, b) for a, b in zip(us[0], us[1])]
        vol = 0.0
        for pick in itertools.product((0, 1), repeat=d):
            corner = [float(hi[i] if p else lo[i]) for i, p in enumerate(pick)]
            vol += (-1) ** (d - sum(pick)) * fl(c.ccdf(*corner))
        need(vol >= -tol * 2 ** d, "the box from %r to %r has volume %r", lo, hi, vol)
    if f in ("M", "W") or not inner:
        return
    keep = dict(s, us=inner if s["shape"] != "bcast" else [[inner[0][0]] + list(u[1:]) for u in inner])
    if s["shape"] == "int":
        return
    rel = 1e-7 if f != "Frank" else 1e-7 + 1e-14 * math.exp(abs(th)) * 100
    dens = apply(c.cpdf, keep["us"], s["shape"])
    pdf = apply(c.pdf, keep["us"], s["shape"])
    for u, v, w in zip(keep["us"], dens, pdf):
        r = refc(f, th, u)
        close(v, r, 1e-10 * (1 if f != "Frank" else 1 + math.exp(abs(th))), "copula density at %r" % (tuple(u),), rel=rel)
        close(w, r, 1e-8 * (1 if f != "Frank" else 1 + math.exp(abs(th))), "joint density at %r" % (tuple(u),), rel=max(rel, 1e-6))


# ---------------------------------------------------------------- with marginals

MARG = gen.weighted(3, gen.uniform(-3, 4), 2, st.sampled_from([["B", 2.0, 3.0], ["B", 4.0, 1.0], ["B", 1.5, 1.5]]), 2, gen.normal, 2, gen.expon,
                    1, st.sampled_from([["G", 2.0, 1.0], ["G", 3.0, 0.5]]), 1, gen.laplace, 1, gen.trapezoid())
INPROB = gen.weighted(1, st.sampled_from([0.5, 0.25, 0.1, 0.9, 0.02, 0.98]), 2, st.integers(20, 980).map(lambda k: k / 1000.0))
THJ = {"Gumbel": [1.0, 1.1, 1.5, 2.0, 3.1, 5.0], "Clayton": [0.1, 0.5, 1.0, 3.1, 5.0], "Frank": [0.5, 1.0, 5.0, 10.0, -0.5, -3.0, -10.0]}


@st.composite
def joint_case(draw):
    s = draw(copula(impls=["Gumbel", "Clayton", "Frank", "Gumbel", "Clayton", "Frank", "Gumbel2d", "Frank2d", "Pi", "M"], dmax=4, theta=THJ))
    d = s["d"]
    s["m"] = [draw(MARG) for _ in range(d)]
    s["ps"] = [[draw(INPROB) for _ in range(d)] for _ in range(draw(st.integers(1, 3)))]
    nv = draw(st.integers(1, d - 1))
    s["var"] = draw(st.permutations(list(range(d))))[:nv]
    s["byvar"] = draw(st.booleans())
    s["whole"] = draw(st.integers(0, 3)) == 0
    s["out"] = draw(st.integers(-d, d - 1))
    return s


@check("P19", joint_case(), quick=700, thorough=20000, cost=4,
       rule="with 2-4 marginals: joint cdf and pdf, zero density outside of the range, marginalising and conditioning on any variables in any order, by number "
            "or by variable, conditional cdf, for numbers and arrays; non-trivial: the marginals differ and the copula is not the independence copula")
def joint(s, rec):
    f, th, d = fam(s), s.get("theta"), s["d"]
    rec.nontrivial(f != "Pi" and len(set(map(str, s["m"]))) > 1)
    rec.label(s["impl"])
    L = [laws.law(m) for m in s["m"]]
    X = [laws.build(m) for m in s["m"]]
    c = make(s, X)
    q = [[float(l.conts[0][1].ppf(p)) for l, p in zip(L, ps)] for ps in s["ps"]]
    if s["whole"]:
        r = [[float(round(v)) for v in x] for x in q]
        keep = [x for x in r if all(0.02 < float(l.cdf(v)) < 0.98 for l, v in zip(L, x))]
        q = [[int(v) for v in x] for x in keep] or q
    F = [[float(l.cdf(v)) for l, v in zip(L, x)] for x in q]
    g = [[float(l.pdf(v)) for l, v in zip(L, x)] for x in q]
    rel = 1e-5
    cols = [np.array([x[i] for x in q]) for i in range(d)]
    cdf = np.asarray(c.cdf(*cols), dtype=float)
    for x, u, v in zip(q, F, cdf):
        close(v, refC(f, th, u), 1e-8, "joint cdf at %r" % (x,))
        close(c.cdf(*x), refC(f, th, u), 1e-8, "joint cdf at %r" % (x,))
    var, cvar = list(s["var"]), [i for i in range(d) if i not in s["var"]]
    names = [X[i] for i in var] if s["byvar"] else list(var)
    if len(names) == 1 and s["byvar"]:
        names = names[0]
    if f != "M":
        pdf = np.asarray(c.pdf(*cols), dtype=float)
        call = np.asarray(c(*cols), dtype=float)
        for x, u, w, v, v2 in zip(q, F, g, pdf, call):
            r = refc(f, th, u) * float(np.prod(w))
            for got in (v, v2, fl(c.pdf(*x)), fl(c(*x))):
                close(got, r, 1e-8, "joint density at %r" % (x,), rel=rel)
        # zero outside of the range
        i = s["out"] % d
        lo, hi = (float(v) for v in (L[i].conts[0][1].ppf(0), L[i].conts[0][1].ppf(1)))
        y = list(q[0])
        y[i] = lo - 0.5 if s["out"] < 0 else hi + 0.5
        if np.isfinite(y[i]):
            for got in (fl(c(*y)), fl(np.asarray(c(*[np.array([v]) for v in y])).reshape(-1)[0])):
                need(got == 0, "density %r at %r, outside of the range", got, y)
            uo = list(F[0])
            uo[i] = 0.0 if s["out"] < 0 else 1.0
            close(c.cdf(*y), refC(f, th, uo), 1e-8, "joint cdf at %r" % (y,))
    if f in ARCH or f == "Pi":
        if s["impl"].endswith("2d"):
            return
        # marginal of the remaining variables
        m = c.eliminate(names)
        need([v.id() for v in m.Vars] == [X[i].id() for i in cvar], "eliminating %r leaves the wrong variables", var)
        for x, u, w in zip(q, F, g):
            y = [x[i] for i in cvar]
            uc = [u[i] for i in cvar]
            r = (refc(f, th, uc) if len(uc) > 1 else 1.0) * float(np.prod([w[i] for i in cvar]))
            close(m.pdf(*y), r, 1e-8, "marginal density of %r at %r" % (cvar, y), rel=rel)
            close(m(*y), r, 1e-8, "marginal density of %r at %r" % (cvar, y), rel=rel)
            close(m.cdf(*y), refC(f, th, uc), 1e-8, "marginal cdf of %r at %r" % (cvar, y))
    if f == "M":
        m = c.eliminate(names)
        need([v.id() for v in m.Vars] == [X[i].id() for i in cvar], "eliminating %r leaves the wrong variables", var)
        for x, u, w in zip(q, F, g):
            close(m.cdf(*[x[i] for i in cvar]), min(u[i] for i in cvar), 1e-8, "marginal cdf")
            if len(cvar) == 1:
                close(m.pdf(x[cvar[0]]), w[cvar[0]], 1e-8, "marginal density", rel=rel)
    if s["impl"] not in ARCH:
        return
    x0, u0, w0 = q[0], F[0], g[0]
    cd = c.condition(names, *[x0[i] for i in var])
    cc = c.conditionCDF(names, *[x0[i] for i in var])
    cf, ccop = c.condfun(names), c.ccond(names)
    need([v.id() for v in cd.Vars] == [X[i].id() for i in cvar], "conditioning on %r leaves the wrong variables", var)
    for x, u, w in zip(q, F, g):
        xx = [x0[i] if i in var else x[i] for i in range(d)]
        uu = [u0[i] if i in var else u[i] for i in range(d)]
        y = [x[i] for i in cvar]
        den = refc(f, th, [u0[i] for i in var]) if len(var) > 1 else 1.0
        r = refc(f, th, uu) / den * float(np.prod([w[i] for i in cvar]))
        close(cd(*y), r, 1e-7, "density of %r at %r given %r = %r" % (cvar, y, var, [x0[i] for i in var]), rel=rel)
        close(np.asarray(cd(*[np.array([v, v]) for v in y]), dtype=float)[1], r, 1e-7, "density of %r at array %r given %r" % (cvar, y, var), rel=rel)
        r = refpartial(f, th, uu, var) / den
        close(cc(*y), r, 1e-6, "cdf of %r at %r given %r = %r" % (cvar, y, var, [x0[i] for i in var]))
        close(cf(*xx), r, 1e-6, "conditional cdf at %r given %r" % (xx, var))
        close(ccop(*uu), r, 1e-6, "conditional copula at %r given %r" % (uu, var))


# ---------------------------------------------------------------- functionals

GX, GW = np.polynomial.legendre.leggauss(80)
GX, GW = (GX + 1) / 2, GW / 2
BMARG = gen.weighted(3, gen.uniform(-3, 4), 3, st.sampled_from([["B", 2.0, 3.0], ["B", 4.0, 1.0], ["B", 1.5, 1.5], ["B", 3.0, 3.0]]), 1, gen.trapezoid(), 1, gen.semic)
THF = {"Gumbel": [1.0, 1.1, 1.5, 2.0, 3.1, 5.0], "Clayton": [0.1, 0.5, 1.0, 3.1, 5.0], "Frank": [0.1, 0.5, 1.0, 5.0, 10.0, -0.1, -0.5, -3.0, -10.0]}


def npC(f, th, u, v):
    if f == "Pi":
        return u * v
    if f == "M":
        return np.minimum(u, v)
    if f == "W":
        return np.maximum(u + v - 1, 0)
    if f == "Gumbel":
        return np.exp(-((-np.log(u)) ** th + (-np.log(v)) ** th) ** (1 / th))
    if f == "Clayton":
        return (u ** -th + v ** -th - 1) ** (-1 / th)
    return -np.log1p(np.expm1(-th * u) * np.expm1(-th * v) / np.expm1(-th)) / th


def refrho(f, th):
    if f in ("M", "W", "Pi"):
        return {"M": 1.0, "W": -1.0, "Pi": 0.0}[f]
    # triangle v <= u, v = u*t, nodes crowded at both ends
    t = GX ** 2 * (3 - 2 * GX)
    wt = GW * 6 * GX * (1 - GX)
    U, T = np.meshgrid(t, t, indexing="ij")
    return float(12 * 2 * (wt[:, None] * wt[None, :] * U * npC(f, th, U, U * T)).sum() - 3)


def reftau(f, th):
    if f in ("M", "W", "Pi"):
        return {"M": 1.0, "W": -1.0, "Pi": 0.0}[f]
    if f == "Gumbel":
        return 1 - 1 / th
    if f == "Clayton":
        return th / (th + 2)
    x = GX * abs(th)
    d1 = float((GW * x / np.expm1(x)).sum())
    return math.copysign(1 - 4 / abs(th) * (1 - d1), th)


def refcov(f, th, la, lb):
    """Hoeffding: integral of C(F,G) - F G over the rectangle, in panels."""
    def panels(l):
        c = l.conts[0][1]
        e = sorted(set([float(c.ppf(p)) for p in (0, 1e-4, 1e-2, .1, .25, .5, .75, .9, .99, .9999, 1)] + [float(k) for k in l.breaks if np.isfinite(k)]))
        x, w = [], []
        g, gw = np.polynomial.legendre.leggauss(14)
        for a, b in zip(e[:-1], e[1:]):
            x.append((a + b) / 2 + (b - a) / 2 * g)
            w.append((b - a) / 2 * gw)
        x, w = np.concatenate(x), np.concatenate(w)
        return np.clip(l.cdf(x), 1e-300, 1 - 1e-16), w
    u, wu = panels(la)
    v, wv = panels(lb)
    U, V = np.meshgrid(u, v, indexing="ij")
    return float((wu[:, None] * wv[None, :] * (npC(f, th, U, V) - U * V)).sum())


@st.composite
def func_case(draw):
    s = draw(copula(dmax=3, theta=THF))
    if s["impl"] == "W":
        s["d"] = 2
    s["m"] = [draw(BMARG) for _ in range(s["d"])]
    s["ij"] = draw(st.permutations(list(range(s["d"]))))[:2]
    s["matrix"] = draw(st.integers(0, 7)) == 0
    s["byvar"] = draw(st.booleans())
    return s


@check("P19", func_case(), quick=300, thorough=8000, cost=6,
       rule="tau (closed forms), rho and beta (quadrature of C), covariance and correlation (Hoeffding's formula) of any pair of 2-3 variables, matrices; "
            "non-trivial: not the independence copula")
def functionals(s, rec):
    f, th, d = fam(s), s.get("theta"), s["d"]
    rec.nontrivial(f != "Pi")
    rec.label(s["impl"])
    L = [laws.law(m) for m in s["m"]]
    X = [laws.build(m) for m in s["m"]]
    c = make(s, X)
    i, j = s["ij"]
    a, b = (X[i], X[j]) if s["byvar"] else (i, j)
    tol = 2e-3
    if not s["byvar"]:
        close(c.tau(a, b), reftau(f, th), tol, "tau(%d, %d)" % (i, j))
        close(c.ctau(a, b), reftau(f, th), tol, "ctau(%d, %d)" % (i, j))
        close(c.rho_s(a, b), refrho(f, th), 1e-3, "Spearman's rho(%d, %d)" % (i, j))
        bt = 4 * refC(f, th, [0.5, 0.5]) - 1
        close(c.beta(a, b), bt, 1e-6, "beta(%d, %d)" % (i, j))
        if d == 2:
            close(c.beta(), bt, 1e-6, "beta")
        cov = refcov(f, th, L[i], L[j])
        sd = [math.sqrt(laws_var(l)) for l in L]
        close(c.cov(a, b) / sd[i] / sd[j], cov / sd[i] / sd[j], tol, "covariance of %d and %d, over the standard deviations" % (i, j))
        close(c.corrcoef(a, b), cov / sd[i] / sd[j], tol, "correlation of %d and %d" % (i, j))
        if s["impl"] in ARCH:
            close(c.tau_c(), reftau(f, th), tol, "tau_c")
        if s["impl"] in ARCH or f == "Pi":
            close(c.cov(i, i), sd[i] ** 2, 1e-5 * sd[i] ** 2, "variance of %d" % i)
            close(c.corrcoef(j, j), 1.0, 1e-5, "correlation of %d with itself" % j)
            for name in ("tau", "rho_s", "ctau", "beta"):
                close(getattr(c, name)(i, i), 1.0, 1e-12, "%s of %d with itself" % (name, i))
    if s["matrix"] and (s["impl"] in ARCH or f == "Pi"):
        sd = [math.sqrt(laws_var(l)) for l in L]
        for name, want, t in (("tau", reftau(f, th), tol), ("rho_s", refrho(f, th), 1e-3), ("corrcoef", None, tol)):
            m = np.asarray(getattr(c, name)())
            need(m.shape == (d, d), "%s() has shape %r", name, m.shape)
            for k, l in itertools.product(range(d), repeat=2):
                w = want if want is not None else refcov(f, th, L[k], L[l]) / sd[k] / sd[l]
                close(m[k, l], 1.0 if k == l else w, t, "%s()[%d, %d]" % (name, k, l))


def laws_var(l):
    m = l.E(lambda x: x)
    return l.E(lambda x: (x - m) ** 2)
