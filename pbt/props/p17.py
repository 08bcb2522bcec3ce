"""P17 queries and operations never change their operands (histories over a shared pool)."""
import math
import types
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation, Inconclusive
from .. import gen, laws
from ..cmp import close, need, fl, atoms_of
from . import p10

ASSUMPTIONS = ["an object that nothing else has touched (a twin built anew from the same recipe) has the right law",
               "evaluation is deterministic: answers are compared to 1e-11"]
FAM = gen.fams("U U N E B La S T M X2 G W")
LEAF = gen.weighted(4, FAM, 3, gen.mixed(gen.fams("U N E T")), 3, gen.discrete(-2, 2, 2, 3))
BIN = ["add", "sub", "mul", "min", "max", "add", "div"]
UN = ["neg", "abs", "sq", "exp", "scale", "shift", "tanh", "atan", "sign", "inv"]
US = [.03, .2, .45, .6, .85, .98]
QUERY = ["mean", "var", "pdf", "cdf", "ccdf", "quantile", "median", "moment", "interval", "summary", "skewness", "entropy", "range_", "tailexp", "cdfarr", "pdfint", "rand", "invcdf",
         "int_error", "mgf", "str"]
PIECE = ["add", "self", "scale", "mul", "split", "restrict", "interp", "cumint", "shiftscale", "addatom", "addlists", "sumatoms", "square", "breaks", "trim", "diff", "vs"]


def step(n):
    i = st.integers(0, 7)
    return gen.weighted(3, st.tuples(st.just("bin"), st.sampled_from(BIN), i, i).map(list), 2, st.tuples(st.just("un"), st.sampled_from(UN), i).map(list),
                        1, st.tuples(st.just("cond"), st.sampled_from(["gt", "lt", "between"]), i, st.integers(0, 5), st.integers(0, 5)).map(list),
                        1, st.tuples(st.just("mix"), i, i, st.sampled_from([.5, .25, .8])).map(list),
                        1, st.tuples(st.just("iid"), st.sampled_from(["iid_min", "iid_max", "iid_sum"]), i, st.integers(2, 3)).map(list),
                        5, st.tuples(st.just("q"), st.sampled_from(QUERY), i).map(list),
                        5, st.tuples(st.just("p"), st.sampled_from(PIECE), i, i, st.integers(0, 5)).map(list))


def settings():
    """every number, string and flag reachable from pacal.params"""
    from pacal import params
    out = {}

    def walk(o, path, depth):
        for k, v in sorted(vars(o).items()):
            if k.startswith("__"):
                continue
            p = path + "." + k
            if isinstance(v, (int, float, str, bool, type(None))):
                out[p] = v
            elif depth < 6 and not isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType)) and hasattr(v, "__dict__") and type(v).__module__ in ("pacal.params", "builtins"):
                walk(v, p, depth + 1)
    walk(params, "params", 0)
    out["errstate"] = tuple(sorted(np.geterr().items()))
    return out


def make(recipe, objs, laws_pts):
    """the object a recipe describes, from the objects it names"""
    import pacal
    from pacal.distr import Gt, Lt, Between
    from pacal.standard_distr import MixDistr
    from pacal.stats import iid_ops
    k = recipe[0]
    if k == "leaf":
        return laws.build(recipe[1])
    if k == "bin":
        return laws.apply_op(recipe[1], objs[recipe[2]], objs[recipe[3]])
    if k == "un":
        a = objs[recipe[2]]
        return {"neg": lambda: -a, "abs": lambda: abs(a), "sq": lambda: a ** 2, "exp": lambda: pacal.exp(a), "scale": lambda: 2.5 * a, "shift": lambda: a - 1.5,
                "tanh": lambda: pacal.tanh(a), "atan": lambda: pacal.atan(a), "sign": lambda: pacal.sign(a), "inv": lambda: 1 / a}[recipe[1]]()
    if k == "cond":
        lo, hi = sorted([recipe[3], recipe[4]])
        return objs[recipe[2]] | {"gt": lambda: Gt(lo), "lt": lambda: Lt(hi), "between": lambda: Between(lo, hi)}[recipe[1]]()
    if k == "mix":
        return MixDistr([recipe[3], 1 - recipe[3]], [objs[recipe[1]], objs[recipe[2]]])
    return getattr(iid_ops, recipe[1])(objs[recipe[2]], recipe[3])


def finite(v):
    return isinstance(v, float) and math.isfinite(v)


def look(d, zs):
    """the law as the public queries tell it"""
    p = d.get_piecewise_pdf()
    return {"cdf": [fl(d.cdf(z)) for z in zs], "pdf": [fl(np.asarray(p(z + 0.0137))) for z in zs], "atoms": atoms_of(d), "mass": fl(p.integrate()),
            "segments": [(fl(s.a), fl(s.b), type(s).__name__) for s in p.segments], "quantile": [fl(d.quantile(u)) for u in (.3, .77)]}


def same(a, b, what):
    if isinstance(a, dict):
        need(a.keys() == b.keys(), "%s: %r and %r", what, sorted(a), sorted(b))
        for k in a:
            same(a[k], b[k], what + ", " + str(k))
    elif isinstance(a, (list, tuple)):
        need(len(a) == len(b), "%s: %r, was %r", what, b, a)
        for x, y in zip(a, b):
            same(x, y, what)
    elif isinstance(a, float):
        need(a == b or (a != a and b != b) or abs(a - b) <= 1e-11 * max(1.0, abs(a), abs(b)), "%s: %r, was %r", what, b, a)
    else:
        need(a == b, "%s: %r, was %r", what, b, a)


def num(v):
    """answers as nested lists of floats"""
    if isinstance(v, (list, tuple)):
        return [num(x) for x in v]
    a = np.asarray(v)
    if a.dtype.kind in "fiub":
        return [float(x) for x in a.ravel()]
    return str(type(v))


def query(d, q):
    if q in ("mean", "var", "median", "skewness", "entropy", "range_", "tailexp", "interval", "int_error"):
        if q == "range_":
            return num(d.get_piecewise_pdf().range())
        return num(getattr(d, q)())
    if q == "moment":
        return num([d.moment(3, 0.5), d.moment(2)])
    if q in ("pdf", "cdf", "ccdf"):
        return num([getattr(d, q)(z) for z in (-1.03, .21, 1.77)])
    if q == "quantile":
        return num(d.quantile(.35))
    if q == "cdfarr":
        x = np.array([-1.03, .21, 1.77])
        keep = x.copy()
        r = num([d.cdf(x), d.get_piecewise_pdf()(x)])
        need(np.array_equal(x, keep), "the argument array was changed to %r", x)
        return r
    if q == "pdfint":
        return num([d.get_piecewise_pdf().integrate(-1.1, .7), d.get_piecewise_pdf().integrate()])
    if q == "summary":
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            m = d.summary_map()
        return num([m[k] for k in ("mean", "std", "int_err")])
    if q == "rand":
        np.random.seed(4)
        return num(d.rand(5))
    if q == "invcdf":
        np.random.seed(5)
        return num(d.rand_invcdf(3))
    if q == "mgf":
        return num(d.meanf(lambda x: np.exp(-0.1 * np.abs(x))))
    return [len(str(d)) > 0, len(d.getName()) > 0]


def piece(p, r, q, k):
    """operations on the piecewise densities handed out"""
    from pacal.segments import DiracSegment
    at = [s.a for s in p.getDiracs()]
    a = at[k % len(at)] if at else 0.375
    if q == "add":
        p + r
    elif q == "self":
        p + p, p - p
    elif q == "scale":
        2.0 * p, p * 0.25, p / 4.0
    elif q == "mul":
        p * r
    elif q == "split":
        p.splitByPoints(np.array([-.5, 0.0, .6])).integrate()
    elif q == "restrict":
        g = p.restrictToInterval(-1.25, 1.3)
        g.addSegment(DiracSegment(a, .5))
    elif q == "interp":
        p.toInterpolated()
    elif q == "trim":
        p.toInterpolated().trimInterpolators() if not at else None
    elif q == "cumint":
        p.cumint()(.3)
    elif q == "shiftscale":
        g = p.copyShiftedAndScaled(0.0, 1.0)
        g.addSegment(DiracSegment(a, .5))
    elif q == "addatom":
        g = p.splitByPoints([a - 1, a + 1])
        g.addSegment(DiracSegment(a, .25))
    elif q == "addlists":
        g = p.__class__(segments=list(p.segments))
        g.addSegment(DiracSegment(a, .25))
    elif q == "sumatoms":
        g = p.__class__([])
        g.add_diracs(p)
        g.add_diracs(r)
        g.add_diracs(p)
    elif q == "square":
        p.copySquareComposition(), p.copyAbsComposition()
    elif q == "breaks":
        b = p.getBreaks()
        b *= 2.0
        p.getBreaksExtended()
        s = p.getSegments()
        del s[:]
    elif q == "diff":
        (p.toInterpolated().diff() if not at and all(s.isSegment() and np.isfinite(s.a + s.b) and not s.hasPole() for s in p.segments) else None)
    elif q == "vs":
        p.getSegVals(), p.isNonneg(), p.range()


ZS = [-2.53, -.77, .13, .61, 1.42, 3.3]


@st.composite
def history(draw):
    return {"leaves": draw(st.lists(LEAF, min_size=2, max_size=3)), "steps": draw(st.lists(step(0), min_size=4, max_size=12)), "early": draw(st.booleans())}


@check("P17", history(), quick=130, thorough=8000, cost=6,
       rule="histories of 4-12 steps over a pool of 2-3 variables: operations, functions, conditions, mixtures, queries, and piecewise operations on the "
            "densities handed out; at the end every object is compared with an untouched twin, repeated queries with their first answer; non-trivial: an object was used twice")
def distributions(s, rec):
    recipes, objs, depth = [], [], []
    for x in s["leaves"]:
        recipes.append(["leaf", x])
        objs.append(laws.build(x))
        depth.append(0)
    first, uses, before = {}, {}, settings()
    early = [look(d, ZS) for d in objs] if s["early"] else None
    skipped = ()
    with np.errstate(all="ignore"):
        base = settings()
        for t in s["steps"]:
            n = len(objs)
            k = t[0]
            if k in ("bin", "un", "cond", "mix", "iid"):
                if n >= 7:
                    continue
                idx = {"bin": [2, 3], "un": [2], "cond": [2], "mix": [1, 2], "iid": [2]}[k]
                r = list(t)
                for j in idx:
                    r[j] = t[j] % n
                dd = 1 + max(depth[r[j]] for j in idx) + (1 if k == "iid" else 0)
                if dd > 3:
                    continue
                if k == "cond":
                    q = sorted([fl(objs[r[2]].quantile(US[t[3]])), fl(objs[r[2]].quantile(US[t[4]]))])
                    if not (np.isfinite(q).all() and q[0] < q[1]):
                        continue
                    r[3:] = q
                try:
                    o = make(r, objs, None)
                    if not hasattr(o, "get_piecewise_pdf"):
                        continue
                    if s["early"] or k in ("cond", "iid") or r[1] in ("div", "inv"):
                        o.get_piecewise_pdf()
                except (ZeroDivisionError, ValueError, AssertionError):
                    continue
                recipes.append(r)
                objs.append(o)
                depth.append(dd)
                for j in idx:
                    uses[r[j]] = uses.get(r[j], 0) + 1
            else:
                i = t[2] % n
                uses[i] = uses.get(i, 0) + 1
                if k == "q":
                    try:
                        v = query(objs[i], t[1])
                    except (ZeroDivisionError, ValueError, AssertionError):
                        continue
                    if (i, t[1]) in first:
                        same(first[i, t[1]], v, "%s of object %d asked again" % (t[1], i))
                    first[i, t[1]] = v
                else:
                    piece(objs[i].get_piecewise_pdf(), objs[t[3] % n].get_piecewise_pdf(), t[1], t[4])
            now = settings()
            need(now == base, "settings changed in step %r: %r", t, [(a, base.get(a), now[a]) for a in now if now[a] != base.get(a)])
        rec.nontrivial(any(v > 1 for v in uses.values()))
        twins = []
        for r in recipes:
            twins.append(make(r, twins, None))
        for i, (a, b) in enumerate(zip(objs, twins)):
            same(look(b, ZS), look(a, ZS), "object %d %r" % (i, recipes[i]))
            if early and i < len(early):
                same(early[i], look(a, ZS), "object %d %r at the start and at the end" % (i, recipes[i]))
    need(settings() == before, "settings changed")


# piecewise functions ----------------------------------------------------------------------------------------------
POPS = ["+", "-", "*", "s+", "s*", "rs-", "abs", "sq", "split", "restrict", "interp", "shift", "cumint", "integrate", "call", "breaks", "class", "adddiracs", "exp", "pow"]
PTS = [i / 8.0 + 0.0217 for i in range(-40, 41, 3)]


def seen(F):
    return [[fl(np.asarray(F(x))) for x in PTS], sorted((fl(d.a), fl(d.f)) for d in F.getDiracs()), [(fl(s.a), fl(s.b), type(s).__name__) for s in F.segments], [fl(b) for b in F.getBreaks()]]


@check("P17", st.fixed_dictionaries({"pool": st.lists(p10.pieces(), min_size=2, max_size=3),
                                     "steps": st.lists(st.tuples(st.sampled_from(POPS), st.integers(0, 9), st.integers(0, 9), st.integers(0, 4)).map(list), min_size=3, max_size=10),
                                     "writes": st.lists(st.tuples(st.integers(0, 9), st.integers(0, 4), st.sampled_from([.5, .25])).map(list), max_size=2)}),
       quick=900, thorough=20000, cost=1,
       rule="histories over a pool of piecewise functions with shared segments: after every step all functions are as before; then atoms are added to single "
            "functions and only those change, by that atom; non-trivial: the pool has an atom")
def functions(s, rec):
    from pacal.segments import DiracSegment
    Fs = [p10.build(p) for p in s["pool"]]
    sn = [seen(F) for F in Fs]
    rec.nontrivial(any(F.getDiracs() for F in Fs))
    with np.errstate(all="ignore"):
        for op, i, j, k in s["steps"]:
            F, G = Fs[i % len(Fs)], Fs[j % len(Fs)]
            r = None
            c = [2.0, -1.0, .5, 3.0, 1.5][k]
            if op in p10.OPS:
                r = p10.OPS[op](F, G)
            elif op == "s+":
                r = F + c
            elif op == "s*":
                r = c * F
            elif op == "rs-":
                r = c - F
            elif op == "abs":
                r = abs(F) if hasattr(F, "__abs__") else None
            elif op == "sq":
                r = F * F
            elif op == "pow":
                r = F ** 2
            elif op == "split":
                r = F.splitByPoints([c, c / 3])
            elif op == "restrict":
                r = F.restrictToInterval(min(-c, c), max(-c, c) + 1.0)
            elif op == "interp":
                ok = all(not (sg.isMInf() or sg.isPInf()) for sg in F.segments)
                r = F.toInterpolated() if ok else None
            elif op == "shift":
                r = F.copyShiftedAndScaled(c, 1.0 if k % 2 else 2.0)
            elif op == "cumint":
                F.cumint()
            elif op == "integrate":
                F.integrate(-c - 3, c + 3)
            elif op == "call":
                x = np.array(PTS)
                F(x)
                need(np.array_equal(x, np.array(PTS)), "the argument array was changed")
            elif op == "breaks":
                b = F.getBreaks()
                b += 1.0
                F.getBreaksExtended()
                del F.getSegments()[:]
            elif op == "class":
                r = F.__class__(segments=list(F.segments))
            elif op == "adddiracs":
                r = F.splitByPoints([])
                r.add_diracs(G)
            elif op == "exp":
                F.isNonneg()
            for n, (H, b) in enumerate(zip(Fs, sn)):
                same(b, seen(H), "function %d after %r" % (n, [op, i, j, k]))
            if r is not None and r is not F and r is not G and len(Fs) < 7 and r.segments:
                v = seen(r)
                if all(x == x and abs(x) < 1e12 for x in v[0]):
                    Fs.append(r)
                    sn.append(v)
        for i, k, w in s["writes"]:
            i %= len(Fs)
            F = Fs[i]
            at = [d.a for d in F.getDiracs()]
            a = at[k % len(at)] if at else F.segments[0].b if np.isfinite(F.segments[0].b) else F.segments[0].a
            if not np.isfinite(a):
                continue
            old = F.getDirac(a)
            w0 = fl(old.f) if old is not None else 0.0
            F.addSegment(DiracSegment(a, w))
            need(F.getDirac(a) is not None and abs(fl(F.getDirac(a).f) - w0 - w) < 1e-12, "atom added to function %d: weight %r, expected %r", i, F.getDirac(a), w0 + w)
            sn[i] = seen(F)
            for n, (H, b) in enumerate(zip(Fs, sn)):
                same(b, seen(H), "function %d after an atom was added to function %d" % (n, i))
