"""Element kernels: the generated C functions behind the compiled extension
modules, encoded from their current C source and Cython wrapper."""
import ast
import ctypes
import fcntl
import os
import re
import shutil
import subprocess
import tempfile
import types
from fractions import Fraction

import numpy as _np

REPO = os.environ.get("VERIF_REPO", "/repo")
META = "hyperstatic/core/fe_model/meta"
_CACHE = {}


def find(name):
    """path of the .pyx of an extension module, or None"""
    for d, ds, fs in os.walk(os.path.join(REPO, META)):
        ds[:] = sorted(x for x in ds if x != "build" and " " not in x)
        if name + ".pyx" in fs:
            return os.path.join(d, name + ".pyx")
    return None


def literal(s):
    """a literal of the generator: 0.83333333333333337 is 5/6"""
    f = Fraction(s)
    if f.denominator > 10 ** 12:
        g = f.limit_denominator(1000)
        if abs(g - f) <= Fraction(2, 10 ** 16) * abs(f):
            return g
    return f


class Wrapper(object):
    """what the .pyx does: parameter order, output shape, call order"""

    def __init__(self, pyx):
        src = open(pyx, encoding="utf-8").read()
        self.header = re.search(r"cdef\s+extern\s+from\s+['\"]([^'\"]+)['\"]", src).group(1)
        self.cfile = os.path.join(os.path.dirname(pyx), os.path.splitext(self.header)[0] + ".c")
        m = re.search(r"def\s+(\w+)\s*\(([^)]*)\)\s*:", src)
        self.pyname = m.group(1)
        self.params = [p.split()[-1] for p in m.group(2).split(",") if p.strip()]
        m = re.search(r"np\.(empty|zeros)\(\s*\(([^)]*)\)\s*\)", src)
        self.shape = tuple(int(x) for x in m.group(2).split(",") if x.strip())
        body = src[src.index("def " + self.pyname):]
        m = re.search(r"\n\s+(\w+)\(([^\n]*)\)\s*\n", body[body.index(":"):])
        self.cname = m.group(1)
        args = [a.strip() for a in m.group(2).split(",")]
        self.callargs = [a for a in args if not a.startswith("<")]
        if not args[-1].startswith("<") or any(a not in self.params for a in self.callargs):
            raise ValueError("wrapper %s is not understood" % pyx)


class CFunc(object):
    def __init__(self, cfile, cname):
        src = open(cfile, encoding="utf-8").read()
        src = re.sub(r"/\*.*?\*/", " ", src, flags=re.S)
        src = re.sub(r"//[^\n]*", " ", src)
        m = re.search(r"\bvoid\s+%s\s*\(([^)]*)\)\s*\{" % cname, src)
        ps = [p.strip() for p in m.group(1).split(",")]
        self.params = []
        self.out = None
        for p in ps:
            mm = re.match(r"(?:const\s+)?double\s*(\*?)\s*(\w+)$", p)
            if mm.group(1):
                self.out = mm.group(2)
            else:
                self.params.append(mm.group(2))
        body = src[m.end():]
        depth, k = 1, 0
        for k, ch in enumerate(body):
            if ch == "{":
                depth += 1
            elif ch == "}":
                depth -= 1
                if not depth:
                    break
        # one program over all statements, equal subexpressions computed once
        self.nodes, self.index, self.outs = [], {}, {}
        env = {q: self._node(("var", q)) for q in self.params}
        for st in body[:k].split(";"):
            st = " ".join(st.split())
            if not st or st == "return":
                continue
            mm = re.match(r"(?:(?:const\s+)?double\s+)?(\w+)\s*(?:\[\s*(\d+)\s*\])?\s*([-+*/]?)=\s*(.*)$", st)
            if mm is None:
                raise ValueError("C statement not understood: %s" % st[:80])
            name, idx, op, expr = mm.groups()
            if idx is not None and name != self.out:
                raise ValueError("C statement not understood: %s" % st[:80])
            v = self._expr(ast.parse(expr.strip(), mode="eval").body, env)
            tgt, key = (env, name) if idx is None else (self.outs, int(idx))
            if op:
                v = self._node((op, tgt[key], v))
            elif idx is None:
                v = self._node(("dbl", v))
            tgt[key] = v

    def _node(self, n):
        i = self.index.get(n)
        if i is None:
            i = self.index[n] = len(self.nodes)
            self.nodes.append(n)
        return i

    def _expr(self, e, env):
        if isinstance(e, ast.BinOp):
            op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}.get(type(e.op))
            if op is None:
                raise ValueError("C operator not understood")
            return self._node((op, self._expr(e.left, env), self._expr(e.right, env)))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            v = self._expr(e.operand, env)
            return self._node(("neg", v)) if isinstance(e.op, ast.USub) else v
        if isinstance(e, ast.Constant):
            return self._node(("int", e.value) if isinstance(e.value, int) else ("flt", repr(e.value)))
        if isinstance(e, ast.Name):
            return env[e.id] if e.id in env else self._node(("name", e.id))
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == self.out:
            return self.outs[e.slice.value]
        if isinstance(e, ast.Call) and not e.keywords:
            return self._node(("call", e.func.id) + tuple(self._expr(a, env) for a in e.args))
        raise ValueError("C expression not understood: %s" % type(e).__name__)

    def run(self, env, ops):
        """evaluate over any arithmetic; returns {index: value}"""
        v = []
        for n in self.nodes:
            k = n[0]
            if k == "*":
                r = v[n[1]] * v[n[2]]
            elif k == "+":
                r = v[n[1]] + v[n[2]]
            elif k == "-":
                r = v[n[1]] - v[n[2]]
            elif k == "/":
                r = ops["/"](v[n[1]], v[n[2]])
            elif k == "neg":
                r = -v[n[1]]
            elif k == "int":
                r = n[1]
            elif k == "flt":
                r = literal(n[1])
            elif k == "dbl":
                r = v[n[1]]
                if isinstance(r, int):
                    r = Fraction(r)
            elif k == "var":
                r = env[n[1]]
            elif k == "name":
                r = ops[n[1]]
            else:
                r = ops[n[1]](*[v[i] for i in n[2:]])
            v.append(r)
        return {i: v[n] for i, n in self.outs.items()}


def load(pyx):
    st = tuple(os.stat(p).st_mtime_ns for p in (pyx,))
    w = Wrapper(pyx)
    key = (pyx, st, os.stat(w.cfile).st_mtime_ns, os.stat(w.cfile).st_size)
    if key not in _CACHE:
        _CACHE[key] = (w, CFunc(w.cfile, w.cname))
    return _CACHE[key]


def symbolic_ops():
    from . import engine as E
    from . import npshim as N

    def cdiv(a, b):
        if isinstance(a, int) and isinstance(b, int):      # C integer division
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and b != 0:
            return Fraction(a) / b
        return N.lift(a) / N.lift(b)

    def power(a, b):
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and Fraction(b).denominator == 1 and a != 0:
            return Fraction(a) ** int(b)
        return N.lift(a) ** N.lift(b)
    return {"/": cdiv, "pow": power, "sqrt": lambda x: E.sx_sqrt(N.lift(x)),
            "fabs": lambda x: E.sx_abs(N.lift(x)), "sin": lambda x: E.sx_sin(N.lift(x)),
            "cos": lambda x: E.sx_cos(N.lift(x)), "M_PI": E.pi_sym()}


def evaluate(pyx, args):
    """the kernel on symbolic arguments (a list in the order of the Cython function)"""
    from . import npshim as N
    w, c = load(pyx)
    if len(args) != len(w.params):
        raise TypeError("%s() takes exactly %d positional arguments (%d given)" % (w.pyname, len(w.params), len(args)))
    def num(a):
        a = N.lift(a)
        return a.value() if a.is_const() and isinstance(a.value(), Fraction) else a
    byname = dict(zip(w.params, [num(a) for a in args]))
    env = dict(zip(c.params, [byname[a] for a in w.callargs]))
    out = c.run(env, symbolic_ops())
    n = int(_np.prod(w.shape))
    r = _np.empty(n, dtype=object)
    for k in range(n):
        r[k] = N.lift(out[k])
    return r.reshape(w.shape)


def module(world, name, pyx):
    m = types.ModuleType(name)
    w, _ = load(pyx)

    def f(*args, **kw):
        a = list(args) + [kw[p] for p in w.params[len(args):]]
        return evaluate(pyx, a)
    f.__name__ = w.pyname
    m.__dict__[w.pyname] = f
    return m


def concrete_module(name, scratch):
    """the kernel compiled from its current C source, for replays"""
    pyx = find(name)
    w = Wrapper(pyx)
    so = os.path.join(scratch, name + "_k.so")
    with open(so + ".lock", "w") as lock:          # replays run side by side
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(so):
            cc = shutil.which("clang") or "gcc"
            part = so + ".part"
            subprocess.run([cc, "-O0", "-w", "-shared", "-fPIC", "-std=c99", "-o", part, w.cfile, "-lm"], check=True,
                           cwd=os.path.dirname(w.cfile), stdout=subprocess.DEVNULL)
            os.replace(part, so)
    lib = ctypes.CDLL(so)
    fn = getattr(lib, w.cname)
    fn.restype = None
    fn.argtypes = [ctypes.c_double] * len(w.callargs) + [ctypes.c_void_p]
    m = types.ModuleType(name)

    def f(*args, **kw):
        by = dict(zip(w.params, args))
        by.update(kw)
        if len(by) != len(w.params):
            raise TypeError("%s() takes exactly %d positional arguments (%d given)" % (w.pyname, len(w.params), len(by)))
        out = _np.empty(w.shape)
        fn(*[float(by[a]) for a in w.callargs], out.ctypes.data)
        return out
    m.__dict__[w.pyname] = f
    return m
