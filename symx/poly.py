"""Sparse multivariate polynomials with exact rational coefficients.

A polynomial is a dict {monomial: coefficient}; a monomial is a tuple of
(atom index, exponent) pairs sorted by atom index.  Atoms carry an optional
rewriting rule  atom**2 -> polynomial  (square roots, absolute values, the
sine of an angle), which is applied on every multiplication, so that equal
expressions in these algebraic atoms normalise to equal polynomials.
"""
from fractions import Fraction

RULES = {}            # atom index -> Poly that atom**2 stands for


class TooLarge(BaseException):
    """a polynomial grew beyond the bound: the encoding gives no answer"""


MAX_TERMS = 60000


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def _mul_mono(a, b):
    if not a:
        return b
    if not b:
        return a
    res = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            res.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            res.append(x)
            i += 1
        else:
            res.append(y)
            j += 1
    if i < la:
        res.extend(a[i:])
    if j < lb:
        res.extend(b[j:])
    return tuple(res)


class Poly(object):
    __slots__ = ("t", "_h", "_z", "_atoms")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None
        self._atoms = None

    # construction -----------------------------------------------------
    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({(): c}) if c != 0 else ZERO

    @staticmethod
    def atom(i):
        return Poly({((i, 1),): 1})

    # queries ----------------------------------------------------------
    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def atoms(self):
        if self._atoms is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s.add(a)
            self._atoms = frozenset(s)
        return self._atoms

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    # arithmetic -------------------------------------------------------
    def add(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                s = _norm(s + c)
                if s == 0:
                    del r[m]
                else:
                    r[m] = s
        return Poly(r) if r else ZERO

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, c):
        c = _norm(c)
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: _norm(k * c) for m, k in self.t.items()})

    def mul(self, o):
        if not self.t or not o.t:
            return ZERO
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        if len(self.t) * len(o.t) > 40 * MAX_TERMS:
            raise TooLarge("polynomial product of %d x %d terms" % (len(self.t), len(o.t)))
        r = {}
        rules = RULES
        again = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mul_mono(m1, m2)
                c = c1 * c2
                if not again and rules:
                    for a, e in m:
                        if e > 1 and a in rules:
                            again = True
                            break
                s = r.get(m)
                r[m] = c if s is None else s + c
        r = {m: _norm(c) for m, c in r.items() if c != 0}
        if not r:
            return ZERO
        if len(r) > MAX_TERMS:
            raise TooLarge("polynomial of %d terms" % len(r))
        p = Poly(r)
        if again:
            p = p.reduce()
        return p

    def reduce(self):
        """apply the rewriting rules atom**2 -> poly until none applies"""
        p = self
        for _ in range(200):
            keep, todo = {}, []
            for m, c in p.t.items():
                hit = None
                for k, (a, e) in enumerate(m):
                    if e > 1 and a in RULES:
                        hit = k
                        break
                if hit is None:
                    keep[m] = c
                else:
                    todo.append((m, c, hit))
            if not todo:
                return p
            groups = {}
            for m, c, k in todo:
                a, e = m[k]
                q, rem = divmod(e, 2)
                rest = m[:k] + (((a, 1),) if rem else ()) + m[k + 1:]
                g = groups.setdefault((a, q), {})
                s = g.get(rest, 0) + c
                if s == 0:
                    g.pop(rest, None)
                else:
                    g[rest] = s
            p = Poly(keep) if keep else ZERO
            for (a, q), g in groups.items():
                if not g:
                    continue
                rule = RULES[a].pow(q)
                # plain product without re-entering reduce for every factor
                p = p.add(Poly(g).mul(rule))
        raise TooLarge("rewriting did not terminate")

    def pow(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    # content / leading ------------------------------------------------
    def lead(self):
        m = max(self.t, key=_grlex)
        return m, self.t[m]

    def monic(self):
        _, c = self.lead()
        if c == 1:
            return self, 1
        return self.scale(Fraction(1) / c), c

    def mono_content(self):
        """the gcd of the monomials"""
        it = iter(self.t)
        g = dict(next(it))
        for m in it:
            if not g:
                return ()
            d = dict(m)
            for a in list(g):
                e = d.get(a, 0)
                if e == 0:
                    del g[a]
                elif e < g[a]:
                    g[a] = e
        return tuple(sorted(g.items()))

    def div_mono(self, mono):
        d = dict(mono)
        r = {}
        for m, c in self.t.items():
            n = []
            for a, e in m:
                k = d.get(a, 0)
                if e - k:
                    n.append((a, e - k))
            r[tuple(n)] = c
        return Poly(r)

    def exact_div(self, o):
        """the quotient if o divides self exactly (as plain polynomials), else None"""
        if not self.t:
            return ZERO
        if o.is_const():
            return self.scale(Fraction(1) / o.const_value())
        if not o.atoms() <= self.atoms():
            return None
        lm, lc = o.lead()
        ld = dict(lm)
        rem = dict(self.t)
        q = {}
        import heapq
        heap = [_neg_key(m) for m in rem]
        heapq.heapify(heap)
        steps = 0
        while rem:
            steps += 1
            if steps > 4000:
                return None
            # leading monomial of the remainder
            while True:
                key = heap[0]
                m = key[2]
                if m in rem:
                    break
                heapq.heappop(heap)
            d = dict(m)
            n = []
            ok = True
            for a, e in ld.items():
                if d.get(a, 0) < e:
                    ok = False
                    break
            if not ok:
                return None
            for a, e in m:
                k = e - ld.get(a, 0)
                if k:
                    n.append((a, k))
            qm = tuple(n)
            qc = _norm(Fraction(rem[m]) / lc)
            q[qm] = qc
            for m2, c2 in o.t.items():
                mm = _mul_mono(qm, m2)
                old = rem.get(mm)
                s = _norm((old or 0) - qc * c2)
                if s == 0:
                    rem.pop(mm, None)
                else:
                    rem[mm] = s
                    if old is None:
                        heapq.heappush(heap, _neg_key(mm))
        return Poly(q)

    def eval(self, env):
        """numeric value; env: atom index -> number"""
        s = 0
        for m, c in self.t.items():
            v = c
            for a, e in m:
                v = v * env[a] ** e
            s = s + v
        return s


def _grlex(m):
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


class _K(tuple):
    def __lt__(self, o):
        return tuple.__gt__(self, o)


def _neg_key(m):
    k = _grlex(m)
    return (-k[0], _K(k[1]), m)


ZERO = Poly({})
ONE = Poly({(): 1})
