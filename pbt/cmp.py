"""Comparison of a pacal distribution with a reference law."""
import math
import numpy as np
from .core import Violation, Inconclusive

INF = float("inf")


def fl(v):
    v = np.asarray(v, dtype=float)
    if v.size != 1:
        raise Violation("expected a scalar, got shape %s" % (v.shape,))
    return float(v.reshape(-1)[0])


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, tol, msg, rel=0.0):
    a, b = fl(a), fl(b)
    if math.isnan(a) and math.isnan(b):
        return
    if a == b:
        return
    if not abs(a - b) <= tol + rel * abs(b):
        raise Violation("%s: got %.15g, expected %.15g (difference %.3g, tolerance %.3g)" % (
            msg, a, b, abs(a - b), tol + rel * abs(b)))


def atoms_of(d):
    pp = d.get_piecewise_pdf()
    return sorted((float(s.a), float(s.f)) for s in pp.getDiracs())


def check_atoms(d, ref, tol=1e-9, what="", xtol=1e-9):
    got = [a for a in atoms_of(d) if abs(a[1]) > 1e-14]
    ref = [a for a in sorted(ref) if a[1] > 1e-14]
    # merge reference and observed atoms lying at the same place up to rounding
    def merge(l):
        out = []
        for x, p in l:
            if out and abs(out[-1][0] - x) <= xtol * max(1.0, abs(x)):
                out[-1] = (out[-1][0], out[-1][1] + p)
            else:
                out.append((x, p))
        return out
    got, ref = merge(got), merge(ref)
    if len(got) != len(ref):
        raise Violation("%s atoms: got %s, expected %s" % (what, got, ref))
    for (x, p), (y, q) in zip(got, ref):
        if abs(x - y) > xtol * max(1.0, abs(y)) or abs(p - q) > tol:
            raise Violation("%s atoms: got %s, expected %s" % (what, got, ref))


def near_kink(z, kinks, eps=1e-9):
    return any(abs(z - k) <= eps * max(1.0, abs(k)) for k in kinks)


def fd_pdf(L, z, d):
    """Density at z from the reference cdf; L.cdf is smooth within d of z."""
    h = 0.02 * d
    F = np.array([float(v) for v in L.cdf(np.array([z - 2 * h, z - h, z + h, z + 2 * h]))])
    return float((F[0] - 8 * F[1] + 8 * F[2] - F[3]) / (12 * h)), 4e-13 / h


def check_law(d, L, zs, tol, what="", atoms=True, pdf_tol=None, mass=True, kinks=None, pdf_pts=(), support=None,
              atom_tol=None):
    """cdf of d at points zs, atoms, total mass, density at pdf_pts (by differences of the reference cdf)."""
    pp = d.get_piecewise_pdf()
    if mass:
        close(pp.integrate(), 1.0, tol, what + " total probability")
    if atoms:
        check_atoms(d, L.atoms, tol=atom_tol or max(1e-9, tol * 1e-2), what=what)
    ats = [a for a, _ in L.atoms]
    ks = kinks if kinks is not None else L.kinks()
    zs = [z for z in zs if np.isfinite(z)]
    # a point that coincides with an atom up to rounding is moved off it
    zz = []
    for z in zs:
        for a in ats:
            if z != a and abs(z - a) <= 1e-9 * max(1.0, abs(a)):
                z = a
        zz.append(z)
    for z in zz:
        on = any(abs(z - a) <= 1e-9 * max(1.0, abs(a)) for a in ats)
        if on:
            delta = 1e-7 * max(1.0, abs(z))
            lo, hi = float(L.cdf(z - delta)), float(L.cdf(z + delta))
            g1, g2 = fl(d.cdf(z - delta)), fl(d.cdf(z + delta))
            close(g1, lo, tol, "%s cdf just below the atom %r" % (what, z))
            close(g2, hi, tol, "%s cdf just above the atom %r" % (what, z))
        else:
            close(d.cdf(z), float(L.cdf(z)), tol, "%s cdf(%r)" % (what, z))
    if support is not None:
        lo, hi = support
        if np.isfinite(lo):
            z = lo - 0.37 * max(1.0, abs(lo))
            close(d.cdf(z), 0.0, tol * 1e-3, what + " cdf below the support")
            close(d.pdf(z), 0.0, tol * 1e-3, what + " pdf below the support")
        if np.isfinite(hi):
            z = hi + 0.37 * max(1.0, abs(hi))
            close(d.cdf(z), 1.0, tol, what + " cdf above the support")
            close(d.pdf(z), 0.0, tol * 1e-3, what + " pdf above the support")
    if pdf_tol is not None:
        pan = sorted(set(L.panels()) | set(ks))
        for z in pdf_pts:
            if not np.isfinite(z):
                continue
            dist = min([abs(z - k) for k in pan] + [max(1.0, abs(z))])
            if dist < 1e-3 * max(1.0, abs(z)) or near_kink(z, ks, 1e-3):
                continue
            p, err = fd_pdf(L, z, dist)
            close(d.pdf(z), p, err + pdf_tol * (abs(p) + min(1.0, 1.0 / dist)) + pdf_tol / dist,
                  "%s pdf(%r)" % (what, z))


def pick(seq, i):
    return seq[i % len(seq)]


QS = [.003, .1, .35, .6, .85, .99]


def op_points(op, X, Y, sel):
    """Evaluation points: images of quantiles of the operands."""
    xa, ya = X.quantiles(QS), Y.quantiles(QS)
    out = []
    for i in sel:
        x, y = pick(xa, i), pick(ya, i // 7)
        if op == "add":
            z = x + y
        elif op == "sub":
            z = x - y
        elif op == "mul":
            z = x * y
        elif op == "div":
            z = x / y if y else x
        elif op == "min":
            z = min(x, y)
        else:
            z = max(x, y)
        if i % 11 == 0:
            z = z + 0.1 * abs(x - y)
        if np.isfinite(z):
            out.append(float(z))
    return out


def same_cdf(d1, d2, zs, tol, what):
    for z in zs:
        close(d1.cdf(z), d2.cdf(z), tol, "%s at %r" % (what, z))
