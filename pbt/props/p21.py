"""P21 expressions remember their variables and flag dependence."""
import math
import warnings
import numpy as np
from hypothesis import strategies as st
from ..core import check, Violation
from .. import gen, laws
from ..cmp import need, fl

ASSUMPTIONS = ["variables get symbols of their own (the default, or distinct names set by the user)",
               "a condition or a mixture is a new variable: whether it depends on its operands is not asserted"]
BIN = ["add", "sub", "mul", "div", "min", "max", "pow"]
UN = ["neg", "abs", "sq", "exp", "scale", "shift", "rsub", "tanh", "atan", "sigmoid", "sign", "inv", "rdiv", "sqrt", "cube", "log", "sin", "cos", "tan", "divc", "expb", "recip2", "id"]
NUM = st.sampled_from([2, 2.5, -1.5, 0.5, 3, -1, 1, 10])
POS = gen.fams("E B X2 G W")
ANY = gen.weighted(3, gen.fams("U N La E B T"), 1, gen.discrete(-2, 2, 2, 3))


@st.composite
def program(draw, n=12):
    leaves = draw(st.lists(gen.weighted(2, st.tuples(st.just("any"), ANY).map(list), 2, st.tuples(st.just("pos"), POS).map(list)), min_size=1, max_size=4))
    i = st.integers(0, 15)
    step = gen.weighted(5, st.tuples(st.just("bin"), st.sampled_from(BIN), i, i, st.just(0)).map(list), 4, st.tuples(st.just("un"), st.sampled_from(UN), i, st.just(0), NUM).map(list),
                        1, st.tuples(st.just("name"), st.just(""), i, st.just(0), st.just(0)).map(list))
    return {"leaves": leaves, "names": draw(st.sampled_from(["none", "ctor", "set"])), "rv": draw(st.sampled_from([False, False, True])),
            "steps": draw(st.lists(step, min_size=3, max_size=n)), "values": [draw(st.floats(0.05, 2.0).map(lambda x: round(x, 3))) for _ in leaves],
            "parallel": draw(st.booleans()), "warn": draw(st.sampled_from([True, True, True, False]))}


class Node(object):
    """what the program did, independently of the library"""
    def __init__(self, obj, val, kids, kind, nonneg):
        self.obj, self.val, self.kids, self.kind, self.nonneg = obj, val, kids, kind, nonneg
        self.free = set().union(*[k.free for k in kids]) if kids else {id(obj)}
        self.anc = {id(obj)}.union(*[k.anc for k in kids])


def unary(op, c, a, x):
    import pacal
    from pacal import distr as ds
    return {"neg": lambda: (-a, -x), "abs": lambda: (abs(a), abs(x)), "sq": lambda: (a ** 2, x * x), "exp": lambda: (ds.exp(a), math.exp(x)), "scale": lambda: (c * a, c * x),
            "shift": lambda: (a + c, x + c), "rsub": lambda: (c - a, c - x), "tanh": lambda: (ds.tanh(a), math.tanh(x)), "atan": lambda: (ds.atan(a), math.atan(x)),
            "sigmoid": lambda: (ds.sigmoid(a), 1 / (1 + math.exp(-x))), "sign": lambda: (ds.sign(a), float(np.sign(x))), "inv": lambda: (a ** -1, 1 / x),
            "rdiv": lambda: (c / a, c / x), "sqrt": lambda: (ds.sqrt(a), math.sqrt(x)), "cube": lambda: (a ** 3, x ** 3), "log": lambda: (ds.log(a), math.log(x)),
            "sin": lambda: (ds.sin(a), math.sin(x)), "cos": lambda: (ds.cos(a), math.cos(x)), "tan": lambda: (ds.tan(a), math.tan(x)), "divc": lambda: (a / c, x / c),
            "expb": lambda: (abs(c) ** a, abs(c) ** x), "recip2": lambda: (a ** -2, x ** -2), "id": lambda: (a ** 1, x)}[op]()


def binary(op, a, b, x, y):
    from pacal import distr as ds
    return {"add": lambda: (a + b, x + y), "sub": lambda: (a - b, x - y), "mul": lambda: (a * b, x * y), "div": lambda: (a / b, x / y), "min": lambda: (ds.min(a, b), min(x, y)),
            "max": lambda: (ds.max(a, b), max(x, y)), "pow": lambda: (a ** b, x ** y)}[op]()


def number(e):
    """a symbolic expression without symbols as a float"""
    need(not e.free_symbols, "symbols %r left in an equation", sorted(map(str, e.free_symbols)))
    v = complex(e.evalf(30))
    return v.real if abs(v.imag) < 1e-12 * max(1.0, abs(v.real)) else math.nan


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


@check("P21", program(), quick=5000, thorough=100000, cost=1,
       rule="programs of up to 12 operations and renamings over 1-4 shared variables (distributions, or symbolic variables only), all operators and functions; oracle: the "
            "expression graph kept by the generator and the value computed with floats; non-trivial: two operations, one of them binary")
def expressions(s, rec):
    import sympy
    from pacal import params
    from pacal.rv import RV
    params.general.parallel = s["parallel"]
    params.general.warn_on_dependent = s["warn"]
    try:
        nodes, byid = [], {}
        for k, ((kind, spec), v) in enumerate(zip(s["leaves"], s["values"])):
            if s["rv"]:
                o = RV(sym="V%d" % k, a=0.0, b=2.0) if s["names"] == "ctor" else RV(a=0.0, b=2.0)
            else:
                o = laws.build(spec)
            if s["names"] == "set":
                o.setSym("W%d" % k)
            pos = kind == "pos" or s["rv"]
            nodes.append(Node(o, v if pos or k % 2 else -v, [], "leaf", pos))
        ops = bins = 0
        warned = []
        for n, (k, op, i, j, c) in enumerate(s["steps"]):
            a = nodes[i % len(nodes)]
            if k == "name":
                if a.kids and not any(a in m.kids for m in nodes):
                    a.obj.setSym("S%d" % n)
                continue
            b = nodes[j % len(nodes)] if k == "bin" else None
            if s["rv"] and op in ("sigmoid", "sin", "cos", "tan"):
                continue
            if (op in ("sqrt", "cube", "log", "pow", "recip2") and not a.nonneg) or (op in ("scale", "divc", "rdiv", "expb") and c == 0) or (op == "expb" and abs(c) == 1):
                continue
            if op == "sign" and not s["rv"] and a.kids:
                continue        # its probabilities are computed at once
            before = settings()
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter("always")
                try:
                    o, v = binary(op, a.obj, b.obj, a.val, b.val) if k == "bin" else unary(op, c, a.obj, a.val)
                except (ZeroDivisionError, OverflowError):
                    continue
            need(settings() == before, "settings changed from %r to %r", before, settings())
            got = any("independent" in str(w.message) for w in log)
            want = bool(b is not None and a.anc & b.anc) and s["warn"] and not s["rv"]
            need(got == want, "%s of %r and %r %s", op, a.obj.getSym(), b.obj.getSym() if b else c, "warned though they are independent" if got else "did not warn though they share a variable")
            if o is a.obj:
                continue
            if not (math.isfinite(v) and 1e-6 < abs(v) < 1e6) and not (op == "sign" and v == 0):
                continue
            if not o.getSym().free_symbols or o.getSym().is_Atom:
                # X-X, X/X, min(X, X), X+0: the equation is a constant or the operand itself
                w = number(o.getSym().subs([(a.obj.getSymname(), sympy.Float(a.val, 30))]))
                need(near(w, v), "the equation of %s of %r is %s = %r, the operation gives %r", op, a.obj.getSym(), o.getSym(), w, v)
                rec.label("collapsed")
                continue
            node = Node(o, v, [a] + ([b] if b is not None else []), op, op in ("exp", "expb", "sqrt", "cube", "recip2") or (op == "pow"))
            nodes.append(node)
            ops += 1
            bins += b is not None
            warned.append(want)
        for m in nodes:
            o = m.obj
            # variables
            free = o.getParentsFree()
            need({id(x) for x in free} == m.free, "%r was built from %d variables, getParentsFree gives %r", o.getSym(), len(m.free), sorted(str(x.getSymname()) for x in free))
            dep, al = o.getParentsDep(), o.getParentsAll()
            mid = {id(x.obj) for x in nodes if x.kids and id(x.obj) in m.anc}
            need(mid <= {id(x) for x in dep} and not ({id(x) for x in dep} & m.free), "getParentsDep of %r: %r", o.getSym(), [str(x.getSymname()) for x in dep])
            need({id(x) for x in al} == {id(x) for x in dep} | {id(x) for x in free}, "getParentsAll of %r has %d members, %d are linked and %d free", o.getSym(), len(al), len(dep), len(free))
            need(all({id(y) for y in x.getParentsFree()} <= m.free for x in dep), "a hidden intermediate of %r depends on something else", o.getSym())
            need(o.isFree() == (not m.kids) and o.isLinked() == bool(m.kids), "isFree %r, isLinked %r", o.isFree(), o.isLinked())
            anc = o.getAncestorIDs()
            need(anc == {x.id() for x in al}, "getAncestorIDs of %r has %d members, its ancestors are %d", o.getSym(), len(anc), len(al))
            # the equation, one level
            vals = {id(x.obj): x.val for x in nodes}

            def value(x):
                if id(x) not in vals:
                    vals[id(x)] = number(x.getSym().subs([(p.getSymname(), sympy.Float(value(p), 30)) for p in x.parents]))
                return vals[id(x)]
            if m.kids:
                got = number(o.getSym().subs([(p.getSymname(), sympy.Float(value(p), 30)) for p in o.parents]))
                need(near(got, m.val), "the equation %s = %s gives %r, the operations %r", o.getSymname(), o.getSym(), got, m.val)
                # all the way down to the variables
                left, right = o.getEquations()
                need(len(set(right)) == len(right) == len(left), "getEquations of %r lists %r for %r", o.getSym(), left, right)
                need(set(right) == {x.getSymname() for x in dep}, "getEquations of %r covers %r, the linked variables are %r", o.getSym(), sorted(map(str, right)), sorted(str(x.getSymname()) for x in dep))
                eq, known = dict(zip(right, left)), {x.obj.getSymname(): x.val for x in nodes if not x.kids}

                def solve(y):
                    if y not in known:
                        need(y in eq, "no equation for %s", y)
                        known[y] = number(eq[y].subs([(z, sympy.Float(solve(z), 30)) for z in eq[y].free_symbols]))
                    return known[y]
                got = solve(o.getSymname())
                need(near(got, m.val), "the equations of %s give %r, the operations %r", o.getSymname(), got, m.val)
            else:
                need(o.getSym().is_Atom, "a variable has the equation %r", o.getSym())
            need(len(o.getName()) > 0 and len(str(o)) > 0, "no name")
        # symmetry: two expressions are dependent when they share a variable
        for x in nodes[-4:]:
            for y in nodes[-4:]:
                need(bool(x.obj.getParentsFree() & y.obj.getParentsFree()) == bool(x.free & y.free), "%r and %r", x.obj.getSym(), y.obj.getSym())
        last = nodes[-1]
        if last.kids:
            last.obj.make_free()
            need(last.obj.getParentsFree() == {last.obj} and last.obj.getSym() == last.obj.getSymname() and last.obj.isFree(), "make_free left %r", last.obj.getSym())
        rec.nontrivial(ops > 1 and bins > 0)
        rec.label("warned" if any(warned) else "not warned")
    finally:
        params.general.parallel = False
        params.general.warn_on_dependent = True


def settings():
    from pacal import params
    return (params.general.warn_on_dependent, params.general.parallel, params.general.distr.independent)
