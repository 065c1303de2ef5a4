"""quadpy is not installed and cannot be: its contract.  get_good_scheme(n)
gives a rule that integrates polynomials of degree n exactly.  If the integrand
is such a polynomial (decided symbolically) the exact integral is returned;
otherwise a rule with rational points of that degree is applied."""
import math
import types
from fractions import Fraction

import numpy as _np

try:
    from . import engine as E
    from . import npshim as N
    from .engine import Sym
    from .npshim import lift, ZERO_S
except ImportError:          # replays run where there is no solver
    E = N = Sym = lift = ZERO_S = None


def _vandermonde_weights(xs, n, lo, hi):
    """Newton-Cotes weights on [lo, hi] for the points xs"""
    k = len(xs)
    a = [[Fraction(x) ** i for x in xs] for i in range(k)]
    b = [(Fraction(hi) ** (i + 1) - Fraction(lo) ** (i + 1)) / (i + 1) for i in range(k)]
    for c in range(k):
        p = next(r for r in range(c, k) if a[r][c] != 0)
        a[c], a[p] = a[p], a[c]
        b[c], b[p] = b[p], b[c]
        f = a[c][c]
        a[c] = [v / f for v in a[c]]
        b[c] /= f
        for r in range(k):
            if r != c and a[r][c] != 0:
                g = a[r][c]
                a[r] = [v - g * w for v, w in zip(a[r], a[c])]
                b[r] -= g * b[c]
    return b


def c2_rule(n):
    """tensor Newton-Cotes on [-1,1]^2, weights summing to 4"""
    k = 1 if n <= 1 else 3 if n <= 3 else 5 if n <= 5 else n + 1
    xs = [Fraction(0)] if k == 1 else [Fraction(2 * i, k - 1) - 1 for i in range(k)]
    w = _vandermonde_weights(xs, n, -1, 1)
    return [(x, y, a * b) for x, a in zip(xs, w) for y, b in zip(xs, w)]


def t2_rule(n):
    """points and weights (sum 1/2) on the unit triangle, exact to degree n"""
    if n <= 1:
        return [(Fraction(1, 3), Fraction(1, 3), Fraction(1, 2))]
    if n <= 2:
        h = Fraction(1, 2)
        return [(h, Fraction(0), Fraction(1, 6)), (h, h, Fraction(1, 6)), (Fraction(0), h, Fraction(1, 6))]
    # collapse the square: x = u, y = v (1-u), jacobian (1-u)
    k = n + 2
    us = [Fraction(i, k - 1) for i in range(k)]
    w = _vandermonde_weights(us, n, 0, 1)
    return [(u, v * (1 - u), a * b * (1 - u)) for u, a in zip(us, w) for v, b in zip(us, w) if u != 1]


def _atoms():
    a, _ = E.new_atom("xi_q", "fresh", ("quad", "xi"))
    b, _ = E.new_atom("eta_q", "fresh", ("quad", "eta"))
    return a, b


def _exact(val, a, b, n, moment):
    """the integral of a polynomial in the two atoms, or None"""
    def one(s):
        s = lift(s)
        for f in s.d:
            if a.i in f.atoms() or b.i in f.atoms():
                return None
        acc = {}
        for m, c in s.n.t.items():
            p = q = 0
            rest = []
            for at, e in m:
                if at == a.i:
                    p = e
                elif at == b.i:
                    q = e
                else:
                    rest.append((at, e))
            if p + q > n:
                return None
            mm = moment(p, q)
            if mm:
                k = tuple(rest)
                acc[k] = acc.get(k, 0) + c * mm
        return E._mk(E.Poly({k: v for k, v in acc.items() if v}), s.d)
    out = _np.empty(val.shape, dtype=object)
    for i in _np.ndindex(val.shape):
        r = one(val[i])
        if r is None:
            return None
        out[i] = r
    return out


class Scheme(object):
    def __init__(self, world, kind, n):
        self.world, self.kind, self.degree = world, kind, n
        pts = c2_rule(n) if kind == "c2" else t2_rule(n)
        self.points = _np.array([[Sym.const(p[0]) for p in pts], [Sym.const(p[1]) for p in pts]], dtype=object)
        self.rule = pts

    def integrate(self, f, domain, dot=None):
        d = N.reals(domain)
        unit_t = [[0, 0], [1, 0], [0, 1]]
        if self.kind == "t2":
            T = [[lift(d[i][j]) for j in range(2)] for i in range(3)]
            def mp(x, y):
                return [T[0][j] + (T[1][j] - T[0][j]) * x + (T[2][j] - T[0][j]) * y for j in range(2)]
            jac = E.sx_abs((T[1][0] - T[0][0]) * (T[2][1] - T[0][1]) - (T[2][0] - T[0][0]) * (T[1][1] - T[0][1]))
            moment = lambda p, q: Fraction(math.factorial(p) * math.factorial(q), math.factorial(p + q + 2))
        else:
            # rectangle_points: array [2][2] of corner points
            x0, x1 = lift(d[0, 0, 0]), lift(d[1, 1, 0])
            y0, y1 = lift(d[0, 0, 1]), lift(d[1, 1, 1])
            def mp(x, y):
                return [(x0 + x1) / 2 + (x1 - x0) / 2 * x, (y0 + y1) / 2 + (y1 - y0) / 2 * y]
            jac = E.sx_abs((x1 - x0) * (y1 - y0) / 4)
            def moment(p, q):
                return Fraction(0) if p % 2 or q % 2 else Fraction(4, (p + 1) * (q + 1))
        a, b = _atoms()
        if self.degree > 3:
            # a polynomial integrand is integrated exactly
            px, py = mp(Sym(E.Poly.atom(a.i)), Sym(E.Poly.atom(b.i)))
            v = N.obj(f(_np.array([[px], [py]], dtype=object)))
            r = _exact(v[..., 0], a, b, self.degree, moment)
            if r is not None:
                return N.map_el(lambda s: s * jac, r)
        X = [[], []]
        for x, y, _ in self.rule:
            p = mp(Sym.const(x), Sym.const(y))
            X[0].append(p[0])
            X[1].append(p[1])
        v = N.obj(f(_np.array(X, dtype=object)))
        out = N.fill(v.shape[:-1], ZERO_S)
        for k, (_, _, w) in enumerate(self.rule):
            out = out + v[..., k] * Sym.const(w)
        return N.map_el(lambda s: lift(s) * jac, out)


def make_quadpy(world):
    m = N._Never("quadpy")
    m.__dict__["__path__"] = []
    for kind in ("t2", "c2"):
        s = N._Never("quadpy." + kind)
        s.__dict__["get_good_scheme"] = lambda n, kind=kind: Scheme(world, kind, int(n))
        m.__dict__[kind] = s

    def rectangle_points(x, y):
        x0, x1 = lift(x[0]), lift(x[1])
        y0, y1 = lift(y[0]), lift(y[1])
        return N.obj([[[x0, y0], [x1, y0]], [[x0, y1], [x1, y1]]]).transpose(1, 0, 2)
    m.__dict__["c2"].__dict__["rectangle_points"] = rectangle_points
    return m


# ------------------------------------------------------------ concrete -----

def concrete_quadpy():
    """the same stub over machine floats, for replays"""
    def scheme(kind, n):
        pts = [(float(x), float(y), float(w)) for x, y, w in (c2_rule(n) if kind == "c2" else _gauss_t2(n))]

        def integrate(f, domain, dot=None):
            d = _np.array(domain, dtype=float)
            if kind == "t2":
                X = [d[0] + (d[1] - d[0]) * x + (d[2] - d[0]) * y for x, y, _ in pts]
                jac = abs((d[1] - d[0])[0] * (d[2] - d[0])[1] - (d[2] - d[0])[0] * (d[1] - d[0])[1])
            else:
                (x0, y0), (x1, y1) = d[0, 0], d[1, 1]
                X = [((x0 + x1) / 2 + (x1 - x0) / 2 * x, (y0 + y1) / 2 + (y1 - y0) / 2 * y) for x, y, _ in pts]
                jac = abs((x1 - x0) * (y1 - y0) / 4)
            v = _np.asarray(f(_np.array(X, dtype=float).T))
            return jac * (v * _np.array([w for _, _, w in pts])).sum(axis=-1)
        return types.SimpleNamespace(integrate=integrate, degree=n)
    m = types.ModuleType("quadpy")
    for kind in ("t2", "c2"):
        setattr(m, kind, types.SimpleNamespace(get_good_scheme=lambda n, kind=kind: scheme(kind, int(n))))
    m.c2.rectangle_points = lambda x, y: _np.array(
        [[[x[0], y[0]], [x[0], y[1]]], [[x[1], y[0]], [x[1], y[1]]]], dtype=float)
    return m


def _gauss_t2(n):
    if n <= 2:
        return t2_rule(n)
    k = n // 2 + 2
    g, w = _np.polynomial.legendre.leggauss(k)
    g, w = (g + 1) / 2, w / 2
    return [(u, v * (1 - u), a * b * (1 - u)) for u, a in zip(g, w) for v, b in zip(g, w)]
