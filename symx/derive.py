"""Values of computer-algebra expressions (the derivations behind the element
kernels) in any arithmetic."""
import math
from fractions import Fraction


def value(expr, env, num, div, sqrt):
    """expr: sympy expression, matrix or array; env: symbol name -> value"""
    import sympy
    memo = {}

    def val(e):
        r = memo.get(e)
        if r is None:
            r = memo[e] = _val(e)
        return r

    def _val(e):
        if e.is_Rational:
            return num(Fraction(int(e.p), int(e.q)))
        if e.is_Float:
            return num(Fraction(repr(float(e))))
        if e.is_Symbol:
            return env[e.name]
        if e.is_Add:
            a = [val(x) for x in e.args]
            r = a[0]
            for x in a[1:]:
                r = r + x
            return r
        if e.is_Mul:
            up, down = None, None
            for x in e.args:
                if x.is_Pow and x.exp.is_Integer and x.exp < 0:
                    v = val(sympy.Pow(x.base, -x.exp))
                    down = v if down is None else down * v
                else:
                    v = val(x)
                    up = v if up is None else up * v
            return up if down is None else div(num(Fraction(1)) if up is None else up, down)
        if e.is_Pow and e.exp.is_Integer:
            b, n = val(e.base), int(e.exp)
            r = b
            for _ in range(abs(n) - 1):
                r = r * b
            return r if n > 0 else div(num(Fraction(1)), r)
        if e.is_Pow and e.exp.is_Rational and e.exp.q == 2:
            r = sqrt(val(e.base))
            n = int(e.exp.p)
            s = r
            for _ in range(abs(n) - 1):
                s = s * r
            return s if n > 0 else div(num(Fraction(1)), s)
        if isinstance(e, sympy.KroneckerDelta):
            return num(Fraction(int(e.args[0] == e.args[1])))
        raise TypeError("expression not understood: %s" % type(e).__name__)

    if isinstance(expr, (list, tuple)):
        return [value(x, env, num, div, sqrt) for x in expr]
    if hasattr(expr, "shape") and not callable(expr.shape):
        import numpy as np
        shape = tuple(int(k) for k in expr.shape)
        out = np.empty(shape, dtype=object)
        for k in np.ndindex(*shape):
            out[k] = val(sympy.sympify(expr[k]))
        return out
    return val(sympy.sympify(expr))


def number(expr, env):
    return value(expr, {k: float(v) for k, v in env.items()}, float, lambda a, b: a / b, math.sqrt)
