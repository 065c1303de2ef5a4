"""Concrete side: runs harness functions on the real code with machine floats.
Usage: conc.py REQUEST.json RESULT.json  (run by the project's interpreter)"""
import builtins
import importlib
import importlib.abc
import importlib.util
import io
import json
import math
import os
import shutil
import sys
import tempfile
import traceback
import types
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


class AssumeFailed(BaseException):
    pass


class Stop(BaseException):
    pass


def flat(x):
    import numpy as np
    if hasattr(x, "toarray"):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        return x.shape, list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        subs = [flat(v) for v in x]
        if not subs:
            return (0,), []
        if any(s[0] != subs[0][0] for s in subs):
            return ("ragged",), [v for s in subs for v in s[1]]
        return (len(subs),) + subs[0][0], [v for s in subs for v in s[1]]
    return (), [x]


def tup(x):
    """json made lists of the tuples of a case"""
    return tuple(tup(v) for v in x) if isinstance(x, list) else x


class ConcCx(object):
    symbolic = False
    concrete = True

    def __init__(self, values, choices, case, tier, scratch):
        self.values, self.picks, self.case, self.tier = values, choices, case, tier
        self.thorough = tier == "thorough"
        self.failures = []
        self.observed = []
        self.passed = 0
        self.scratch = scratch
        self.pi = math.pi

    def mod(self, name):
        return importlib.import_module(name)

    def derivation(self, name):
        return importlib.import_module(name)

    def algebra(self):
        import numpy
        import sympy
        return sympy, numpy

    def value(self, expr, **env):
        from symx import derive
        return derive.number(expr, env)

    def workdir(self):
        return self.scratch

    def real(self, name, lo=None, hi=None, nom=None, pos=False, nonzero=False):
        v = float(Fraction(self.values[name])) if name in self.values else 0.5 * (
            (nom or (lo if lo is not None else 0.3, hi if hi is not None else 1.7))[0] +
            (nom or (lo if lo is not None else 0.3, hi if hi is not None else 1.7))[1])
        if pos and not v > 0 or nonzero and v == 0 or lo is not None and v < float(lo) or hi is not None and v > float(hi):
            raise AssumeFailed(name)
        return v

    def angle(self, name, nom=(-3, 3), unit=2):
        return self.real(name, nom=nom)

    def choice(self, name, options):
        return list(options)[self.picks.get(name, 0)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def q(self, a, b=1):
        return float(Fraction(a) / Fraction(b))

    def sqrt(self, x):
        return math.sqrt(x)

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def exp(self, x):
        return math.exp(x)

    def write(self, path, text):
        if "/" in path:
            os.makedirs(path.rpartition("/")[0], exist_ok=True)
        with open(path, "w") as f:
            f.write(text)

    def tanh(self, x):
        return math.tanh(x)

    def pow(self, a, b):
        return float(a) ** b

    def abs(self, x):
        return abs(x)

    def max_abs(self, xs):
        return max(abs(float(x)) for x in flat(xs)[1])

    def assume(self, cond):
        if not cond:
            raise AssumeFailed("assumption")

    def assume_nonzero(self, x):
        if x == 0:
            raise AssumeFailed("assumption")

    def generic(self, *xs):
        pass

    def _fail(self, name, detail):
        self.failures.append([name, detail])

    def eq(self, name, actual, expected, tol=1e-6, floor=1e-9, atol=1e-9):
        import numpy as np
        sa, fa = flat(actual)
        se, fe = flat(expected)
        row = []
        for v in fa[:80]:
            try:
                row.append(float(v) if not isinstance(v, (str, type(None))) else None)
            except TypeError:
                row.append(None)
        self.observed.append((name, row))
        if tuple(sa) != tuple(se):
            return self._fail(name, "shape %s, expected %s" % (sa, se))
        nums = [abs(float(v)) for v in list(fa) + list(fe)
                if isinstance(v, (int, float, np.number, np.bool_)) and math.isfinite(float(v))]
        big = max(nums or [0.0])
        for k, (a, e) in enumerate(zip(fa, fe)):
            if isinstance(a, str) or isinstance(e, str) or a is None or e is None:
                if a != e:
                    return self._fail(name, "entry %d is %r, expected %r" % (k, a, e))
                continue
            a, e = float(a), float(e)
            if not abs(a - e) <= tol * max(abs(a), abs(e)) + floor * big + atol:
                return self._fail(name, "entry %d of %s is %.12g, expected %.12g" % (k, list(sa), a, e))
        self.passed += 1

    def same(self, a, b):
        import numpy as np
        self.sames = getattr(self, "sames", -1) + 1
        if "same %d" % self.sames in self.picks:
            return bool(self.picks["same %d" % self.sames])
        a, b = np.array(a, dtype=float), np.array(b, dtype=float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-7 * max(1e-30, np.abs(a).max(), np.abs(b).max())))

    def claim(self, name, cond):
        if isinstance(cond, (list, tuple)):
            raise TypeError("claim takes one condition")
        import numpy as np
        if not bool(np.all(cond)):
            self._fail(name, "condition is false")
        else:
            self.passed += 1

    def le(self, name, a, b, tol=1e-7):
        a, b = float(a), float(b)
        if a <= b + tol * max(abs(a), abs(b)):
            self.passed += 1
        else:
            self._fail(name, "%.12g <= %.12g is false" % (a, b))

    def lt(self, name, a, b):
        self.claim(name, float(a) < float(b))

    def raises(self, fn, *types_):
        try:
            fn()
        except (types_ or (Exception,)):
            return True
        return False

    def rejects(self, name, fn, *types_):
        self.claim(name, self.raises(fn, *types_))

    def must_be(self, name, x, y):
        self.claim(name, x == y)

    def stop(self):
        raise Stop()


def run_one(req, scratch):
    import numpy as np
    np.seterr(all="ignore")
    sub = tempfile.mkdtemp(dir=scratch)
    old = os.getcwd()
    os.chdir(sub)
    cx = ConcCx(req["values"], req["choices"], tup(req["case"]), req.get("tier", "quick"), sub)
    out = {}
    try:
        spec = importlib.util.spec_from_file_location("harness_" + req["func"], req["path"])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        so = sys.stdout
        sys.stdout = io.StringIO()
        try:
            getattr(m, req["func"])(cx)
        finally:
            sys.stdout = so
        out["status"] = "ok"
    except AssumeFailed as ex:
        out["status"] = "assume"
        out["detail"] = str(ex)
    except Stop:
        out["status"] = "ok"
    except Exception as ex:
        tb = [f for f in traceback.extract_tb(ex.__traceback__) if f.filename != os.path.abspath(__file__)]
        out["status"] = "raise"
        out["detail"] = "%s: %s at %s" % (type(ex).__name__, str(ex)[:300],
                                          ("%s:%s" % (tb[-1].filename, tb[-1].lineno)) if tb else "?")
        cx._fail("exception %s" % type(ex).__name__, out["detail"])
    finally:
        os.chdir(old)
        shutil.rmtree(sub, ignore_errors=True)
    out["failures"] = cx.failures
    out["passed"] = cx.passed
    out["observed"] = cx.observed
    return out


def parallel(reqs, scratch, n):
    """every request in its own process, forked after the imports"""
    import select
    import time
    res = [None] * len(reqs)
    live = {}
    k = 0
    limit = float(os.environ.get("VERIF_REPLAY_S", "120"))
    while k < len(reqs) or live:
        while k < len(reqs) and len(live) < n:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    o = run_one(reqs[k], scratch)
                    with os.fdopen(w, "w") as f:
                        json.dump(o, f)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [pid, k, time.time(), []]
            k += 1
        ready = select.select(list(live), [], [], 1.0)[0]
        for r in list(live):
            pid, j, t, buf = live[r]
            if r in ready:
                d = os.read(r, 1 << 20)
                if d:
                    buf.append(d)
                    continue
                try:
                    res[j] = json.loads(b"".join(buf))
                except ValueError:
                    res[j] = dict(status="died", failures=[], passed=0, observed=[])
            elif time.time() - t > limit:
                os.kill(pid, 9)
                res[j] = dict(status="timeout", failures=[], passed=0, observed=[])
            else:
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
    return res


class _Kernels(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """the extension modules, compiled from the current C source"""

    def __init__(self, scratch, ck):
        self.scratch, self.ck = scratch, ck

    def find_spec(self, name, path=None, target=None):
        if path is None and name.startswith("meta") and self.ck.find(name):
            return importlib.util.spec_from_loader(name, self)
        return None

    def create_module(self, spec):
        return self.ck.concrete_module(spec.name, self.scratch)

    def exec_module(self, m):
        pass


def setup(scratch):
    sys.dont_write_bytecode = True
    root = os.path.dirname(HERE)
    sys.path.insert(0, REPO)
    pk = types.ModuleType("symx")
    pk.__path__ = [HERE]
    sys.modules["symx"] = pk
    sys.path.append(os.path.join(root, "harness"))
    ck = importlib.import_module("symx.ckernel")
    quad = importlib.import_module("symx.quad")
    sys.modules["quadpy"] = quad.concrete_quadpy()
    importlib.import_module("symx.vedoshim").install(sys.modules)
    sys.meta_path.insert(0, _Kernels(scratch, ck))
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ["HOME"] = scratch


def main():
    reqs = json.load(open(sys.argv[1]))
    outf = open(sys.argv[2], "w")
    scratch = tempfile.mkdtemp(prefix="conc_", dir="/tmp")
    os.chmod(scratch, 0o777)
    try:
        if os.getuid() == 0:
            try:
                os.chown(scratch, 65534, 65534)
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                pass
        setup(scratch)
        warm = [m for m in os.environ.get("VERIF_WARM", "hyperstatic.core").split(",") if m]
        for m in warm:
            try:
                importlib.import_module(m)
            except Exception:
                pass
        res = parallel(reqs, scratch, int(os.environ.get("VERIF_JOBS", "6")))
        json.dump(res, outf)
        outf.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
