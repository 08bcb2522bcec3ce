"""Hypothesis strategies for distribution specs (see laws.py).  Parameters live on coarse grids so that exact
coincidences (shared breakpoints, equal atoms, zero crossings) are frequent and shrinking is fast."""
from hypothesis import strategies as st


def grid(lo, hi, den=4):
    return st.integers(int(lo * den), int(hi * den)).map(lambda k: k / den)


pos = st.sampled_from([1.0, 0.5, 2.0, 0.25, 3.0, 1.5])
loc = grid(-3, 3, 2)


@st.composite
def uniform(draw, lo=-4, hi=4):
    a = draw(grid(lo, hi - 1, 2))
    w = draw(st.sampled_from([1.0, 2.0, 0.5, 3.0, 5.0]))
    return ["U", a, a + w]


@st.composite
def trapezoid(draw):
    a = draw(grid(-3, 2, 2))
    u, v, w = draw(st.sampled_from([(1., 1., 1.), (.5, 0., 1.5), (0., 1., 1.), (1., 1., 0.), (.5, 2., .25)]))
    return ["T", a, a + u, a + u + v, a + u + v + w]


normal = st.tuples(loc, pos).map(lambda t: ["N", t[0], t[1]])
cauchy = st.tuples(pos, loc).map(lambda t: ["C", t[0], t[1]])
chi2 = st.sampled_from([1, 2, 3, 4, 5, 7]).map(lambda d: ["X2", d])
expon = pos.map(lambda l: ["E", l])
gamma = st.tuples(st.sampled_from([1.0, 2.0, 0.5, 1.5, 3.0, 2.5]), pos).map(lambda t: ["G", t[0], t[1]])
beta = st.tuples(st.sampled_from([1.0, 2.0, 0.5, 1.5, 3.0]), st.sampled_from([1.0, 2.0, 0.5, 1.5, 4.0])).map(
    lambda t: ["B", t[0], t[1]])
pareto = st.tuples(st.sampled_from([1.0, 2.0, 0.5, 1.5, 3.0]), pos).map(lambda t: ["P", t[0], t[1]])
levy = st.tuples(pos, loc).map(lambda t: ["L", t[0], t[1]])
laplace = st.tuples(pos, loc).map(lambda t: ["La", t[0], t[1]])
student = st.sampled_from([1, 2, 3, 5, 10]).map(lambda d: ["t", d])
semic = pos.map(lambda r: ["S", r])
fdist = st.tuples(st.sampled_from([2, 3, 4, 6]), st.sampled_from([2, 3, 5, 8])).map(lambda t: ["F", t[0], t[1]])
weibull = st.tuples(st.sampled_from([1.0, 2.0, 3.0, 1.5, 0.5]), pos).map(lambda t: ["W", t[0], t[1]])
gumbel = st.tuples(loc, pos).map(lambda t: ["Gu", t[0], t[1]])
frechet = st.tuples(st.sampled_from([1.0, 2.0, 3.0, 1.5]), pos, loc).map(lambda t: ["Fr", t[0], t[1], t[2]])
loglog = st.tuples(st.sampled_from([1.0, 2.0, 3.0, 1.5]), pos).map(lambda t: ["LL", t[0], t[1]])
moll = pos.map(lambda e: ["M", e])
FAMS = {"U": uniform(), "T": trapezoid(), "N": normal, "C": cauchy, "X2": chi2, "E": expon, "G": gamma, "B": beta,
        "P": pareto, "L": levy, "La": laplace, "t": student, "S": semic, "F": fdist, "W": weibull, "Gu": gumbel,
        "Fr": frechet, "LL": loglog, "M": moll}


def fams(names):
    return st.one_of([FAMS[n] for n in names.split()])


@st.composite
def probs(draw, n):
    ws = draw(st.lists(st.integers(1, 6), min_size=n, max_size=n))
    s = float(sum(ws))
    return [w / s for w in ws]


@st.composite
def discrete(draw, lo=-3, hi=3, den=2, max_size=4, min_size=2):
    xs = draw(st.lists(grid(lo, hi, den), min_size=min_size, max_size=max_size, unique=True))
    return ["disc", xs, draw(probs(len(xs)))]


@st.composite
def mixed(draw, cont, with_atoms=True):
    """a mixture of continuous components and (usually) atoms"""
    n = draw(st.integers(1, 2))
    parts = [draw(cont) for _ in range(n)]
    if with_atoms and (n == 1 or draw(st.booleans())):
        if draw(st.booleans()):
            parts.append(["const", draw(grid(-2, 2, 2))])
        else:
            parts.append(draw(discrete(-2, 2, 2, 3)))
    if len(parts) == 1:
        return parts[0]
    return ["mix", draw(probs(len(parts))), parts]


@st.composite
def weighted(draw, *pairs):
    """weighted(w1, s1, w2, s2, ...): a choice between strategies with integer weights."""
    idx = []
    for i in range(0, len(pairs), 2):
        idx += [i + 1] * pairs[i]
    return draw(pairs[draw(st.sampled_from(idx))])


def anyd(cont):
    """continuous (half), reflected, mixed, discrete"""
    return weighted(5, cont, 1, cont.map(lambda s: ["aff", -1.0, 0.5, s]), 3, mixed(cont), 1, discrete())
