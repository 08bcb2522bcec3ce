"""P18 parallel and serial evaluation give the same law."""
import math
import pickle
import multiprocessing
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation
from .. import gen, laws
from ..cmp import need, fl, atoms_of

ASSUMPTIONS = ["serial evaluation (params.general.parallel off) is the reference: its laws are the subject of P01-P16",
               "the two modes differ only in rounding (symbolic inverses are evaluated by different callables), so values are compared to 1e-8"]
FAM = gen.fams("U U N E B La S T M X2 G W Fr")
LEAF = gen.weighted(4, FAM, 3, gen.mixed(gen.fams("U N E T")), 2, gen.discrete(-2, 2, 2, 3))
BIN = ["add", "sub", "mul", "div", "min", "max", "add", "mul"]
UN = ["neg", "abs", "sq", "exp", "scale", "shift", "tanh", "atan", "sign", "inv", "cube", "noninv"]
US = [.03, .2, .45, .6, .85, .98]
POINTS = [-7.31, -2.53, -.77, -.21, .13, .37, .61, .93, 1.42, 2.07, 3.3, 6.9]


class Copying(object):
    """A pool whose workers see only pickled copies of what they are sent."""
    def __init__(self, chunk):
        self.chunk, self.calls, self.sent = chunk, 0, 0

    def map(self, f, xs):
        xs = list(xs)
        p = multiprocessing.current_process()
        old = p.name
        p.name = "Pacal__worker__copy"
        try:
            blob = pickle.dumps(f)
            out = []
            self.calls += 1
            for k in range(0, len(xs), self.chunk):
                g = pickle.loads(blob)
                part = pickle.loads(pickle.dumps(xs[k:k + self.chunk]))
                out.extend(pickle.loads(pickle.dumps([g(x) for x in part])))
                self.sent += len(part)
            if not xs:
                return out
            here = f(xs[len(xs) // 2])
            need(same(here, out[len(xs) // 2], 1e-13), "the worker's copy of %r gives %r at %r, the original %r", f, out[len(xs) // 2], xs[len(xs) // 2], here)
            return out
        finally:
            p.name = old


def same(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b))))))


def power(X, k):
    return X ** k


def make(node, kids):
    import pacal
    from pacal.distr import Gt, Lt, Between
    from pacal.standard_distr import MixDistr
    from pacal.stats import iid_ops
    k = node[0]
    if k == "leaf":
        return laws.build(node[1])
    if k == "bin":
        return laws.apply_op(node[1], *kids)
    a = kids[0]
    if k == "un":
        return {"neg": lambda: -a, "abs": lambda: abs(a), "sq": lambda: a ** 2, "exp": lambda: pacal.exp(a), "scale": lambda: 2.5 * a, "shift": lambda: a - 1.5,
                "tanh": lambda: pacal.tanh(a), "atan": lambda: pacal.atan(a), "sign": lambda: pacal.sign(a), "inv": lambda: 1 / a, "cube": lambda: abs(a) ** 1.5,
                "noninv": lambda: pacal.log(1 + abs(a))}[node[1]]()
    if k == "cond":
        lo, hi = sorted(fl(a.quantile(US[j])) for j in node[2])
        if not (math.isfinite(lo) and math.isfinite(hi) and lo < hi):
            raise ValueError("no condition")
        return a | {"gt": lambda: Gt(lo), "lt": lambda: Lt(hi), "between": lambda: Between(lo, hi)}[node[1]]()
    if k == "mix":
        return MixDistr([node[1], 1 - node[1]], kids)
    if k == "order":
        return iid_ops.iid_order_stat(a, node[1], min(node[2], node[1]))
    return getattr(iid_ops, node[1])(a, node[2])


def tree(depth):
    if depth == 0:
        return st.tuples(st.just("leaf"), LEAF).map(list)
    sub = tree(depth - 1)
    idx = st.integers(0, 5)
    return gen.weighted(1, tree(0), 4, st.tuples(st.just("bin"), st.sampled_from(BIN), sub, tree(0)).map(list), 3, st.tuples(st.just("bin"), st.sampled_from(BIN), tree(0), sub).map(list),
                        int(depth > 1), st.tuples(st.just("bin"), st.sampled_from(BIN), sub, sub).map(list), 3, st.tuples(st.just("un"), st.sampled_from(UN), sub).map(list),
                        1, st.tuples(st.just("cond"), st.sampled_from(["gt", "lt", "between"]), st.lists(idx, min_size=2, max_size=2, unique=True), sub).map(list),
                        1, st.tuples(st.just("mix"), st.sampled_from([.5, .25, .8]), sub, sub).map(list),
                        1, st.tuples(st.just("iid"), st.sampled_from(["iid_min", "iid_max", "iid_sum"]), st.integers(2, 3), tree(0)).map(list),
                        1, st.tuples(st.just("order"), st.integers(2, 4), st.integers(1, 4), tree(0)).map(list))


def build(node):
    n = {"leaf": 0, "bin": 2, "mix": 2}.get(node[0], 1)
    kids = [build(x) for x in node[len(node) - n:]] if n else []
    d = make(node, kids)
    if not hasattr(d, "get_piecewise_pdf"):
        raise ValueError("a constant")
    return d


def look(d):
    from pacal.segments import DiracSegment
    p = d.get_piecewise_pdf()
    c = d.get_piecewise_cdf()
    return {"segments": [(type(s).__name__, fl(s.a), fl(s.b), fl(s.f) if isinstance(s, DiracSegment) else None) for s in p.segments],
            "cdf segments": [(type(s).__name__, fl(s.a), fl(s.b), None) for s in c.segments],
            "pdf": [fl(np.asarray(p(x))) for x in POINTS], "pdf array": [fl(v) for v in p(np.array(POINTS))], "cdf": [fl(d.cdf(x)) for x in POINTS],
            "mass": [fl(p.integrate())], "mean": [fl(d.mean())]}


def agree(a, b, what, tol):
    for k in ("segments", "cdf segments"):
        x, y = a[k], b[k]
        need([s[0] for s in x] == [s[0] for s in y], "%s: the %s are %r, serial %r", what, k, y, x)
        for s, t in zip(x, y):
            for u, v in zip(s[1:], t[1:]):
                need(u == v or (u is not None and v is not None and same(u, v, 1e-11)), "%s: %s %r, serial %r", what, k, t, s)
    for k in ("pdf", "pdf array", "cdf", "mass"):
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            need(same(x, y, tol), "%s: %s %s is %r, serial %r", what, k, "at %r" % POINTS[i] if k != "mass" else "", y, x)
    x, y = a["mean"][0], b["mean"][0]
    need(same(x, y, 100 * tol) or not (abs(x) < 1e6), "%s: mean %r, serial %r", what, y, x)


def serial(s):
    from pacal import params
    params.general.parallel = False
    try:
        return look(build(s))
    except (ZeroDivisionError, ValueError, AssertionError, NotImplementedError):
        return None


def compare(s, rec, pool):
    from pacal import params
    a = serial(s["tree"])
    if a is None:
        return None
    params.general.parallel = True
    params.general.process_pool = pool
    try:
        d = build(s["tree"])
        b = look(d)
        agree(a, b, "in parallel", 1e-8)
        p = d.get_piecewise_pdf()
        # objects sent on by another expression
        if s["send"]:
            q = pickle.loads(pickle.dumps(p))
            agree({k: v for k, v in b.items()}, dict(b, pdf=[fl(np.asarray(q(x))) for x in POINTS], mass=[fl(q.integrate())],
                  segments=[(type(t).__name__, fl(t.a), fl(t.b), u[3]) for t, u in zip(q.segments, b["segments"])]), "pickled density", 1e-13)
            name = d.id()
            e = pickle.loads(pickle.dumps(d))
            agree(b, look(e), "pickled variable", 1e-13)
            need(e.id() == name, "the pickled copy has id %r, not %r", e.id(), name)
    finally:
        params.general.parallel = False
        params.general.process_pool = None
    rec.nontrivial(s["tree"][0] != "leaf")
    return b


@check("P18", st.fixed_dictionaries({"tree": tree(2), "chunk": st.integers(4, 40), "send": st.booleans()}), quick=180, thorough=12000, cost=2,
       rule="expressions up to depth 2 over 14 families, atoms, conditions, mixtures, i.i.d. operations and functions, evaluated serially and through a pool "
            "which computes every chunk from a pickled copy; non-trivial: an operation was evaluated")
def copied(s, rec):
    pool = Copying(s["chunk"])
    compare(s, rec, pool)
    rec.label("%s chunks" % ("some" if pool.calls else "no"))


@check("P18", st.fixed_dictionaries({"tree": tree(2), "procs": st.integers(1, 3), "send": st.booleans()}), quick=32, thorough=1500, cost=6,
       rule="the same with a real pool of 1-3 processes which the library starts itself")
def processes(s, rec):
    from pacal import params
    import pickle
    params.general.nprocs = s["procs"]
    made = []
    real = multiprocessing.Pool

    def Pool(*args, **kwargs):
        made.append(real(*args, **kwargs))
        return made[-1]
    multiprocessing.Pool = Pool
    try:
        compare(s, rec, None)
    finally:
        multiprocessing.Pool = real
        for p in made:
            p.terminate()
            p.join()
        params.general.nprocs = None
    rec.label("%d pools" % len(made))
