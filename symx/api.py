"""What a harness sees (`cx`), symbolically."""
import math
import random
import time
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from . import loader as L
from . import npshim as N
from .engine import Sym, SymBool, Unsupported, PathEnd, Budget


class Finding(object):
    """a candidate violation: what failed and for which inputs"""

    def __init__(self, claim, values, choices, detail, how):
        self.claim, self.values, self.choices, self.detail, self.how = claim, values, choices, detail, how


class Stop(BaseException):
    """the harness ends this path on purpose"""


def flat(x):
    """nested lists / arrays / sparse matrices -> (shape, flat list)"""
    if N.is_smat(x):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        return x.shape, [x[i] for i in np.ndindex(x.shape)]
    if isinstance(x, (list, tuple)):
        subs = [flat(v) for v in x]
        if not subs:
            return (0,), []
        if any(s[0] != subs[0][0] for s in subs):
            return ("ragged",), [v for s in subs for v in s[1]]
        return (len(subs),) + subs[0][0], [v for s in subs for v in s[1]]
    return (), [x]


def as_sym(v):
    if isinstance(v, Sym):
        return v
    if isinstance(v, (np.ndarray,)) and v.size == 1:
        return as_sym(v.reshape(-1)[0])
    s = Sym.lift(v)
    if s is None:
        raise TypeError("a number is expected, not %r" % type(v).__name__)
    return s


class SymCx(E.PathCtx):
    symbolic = True

    def __init__(self, prefix, stats, opts, case):
        super().__init__(prefix, stats, opts)
        self.case = case
        self.tier = opts.get("tier", "quick")
        self.thorough = self.tier == "thorough"
        self.choices = {}
        self.findings = opts["findings"]
        self.observed = []
        self.cases_seen = 0
        self._world = None
        self.input_syms = {}
        self.claim_names = {}

    # -- the program under analysis
    @property
    def world(self):
        if self._world is None:
            self._world = L.World(self)
        return self._world

    def mod(self, name):
        return self.world.mod(name)

    def derivation(self, name):
        """a module of symbolic expressions"""
        self.world.algebra = True
        return self.world.mod(name)

    def algebra(self):
        """sympy and the plain numpy that goes with it"""
        import numpy
        import sympy
        return sympy, numpy

    def value(self, expr, **env):
        """a symbolic expression at these values"""
        from . import derive
        return derive.value(expr, {k: as_sym(v) for k, v in env.items()}, E.Sym.const, lambda a, b: a / b, E.sx_sqrt)

    def workdir(self):
        return "/work"

    # -- inputs
    def real(self, name, lo=None, hi=None, nom=None, pos=False, nonzero=False):
        if name in self.input_syms:
            return self.input_syms[name]
        a, _ = E.new_atom(name, "input", ("input", name))
        if nom is None:
            l = float(lo) if lo is not None else (0.3 if pos else -3.0)
            h = float(hi) if hi is not None else (l + 4.0 if lo is not None or pos else 3.0)
            if hi is not None and lo is None:
                l = min(l, h - 4)
            nom = (l, h)
        self.nominal[name] = ("real", nom[0], nom[1])
        self.hard[name] = (lo, hi, "pos" if pos else nonzero)
        self.used.add(a.i)
        s = Sym(E.Poly.atom(a.i))
        self.input_syms[name] = s
        if pos:
            self.add(a.z > 0)
            self.positive_atoms.add(a.i)
        if lo is not None:
            self.add(a.z >= E._q(E.to_frac(lo)))
            if lo > 0:
                self.positive_atoms.add(a.i)
        if hi is not None:
            self.add(a.z <= E._q(E.to_frac(hi)))
        if nonzero:
            self.add(a.z != 0)
            self.nonzero.add(s.n)
        return s

    def angle(self, name, nom=(-3, 3), unit=2):
        s = self.real(name, nom=nom)
        (m,) = s.n.t
        E.make_angle(m[0][0], unit)
        self.nominal[name] = ("angle", nom[0], nom[1])
        return s

    def choice(self, name, options):
        options = list(options)
        if name in self.choices:
            return options[self.choices[name]]
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = 0
            for j in range(len(options) - 1, 0, -1):
                self.opts["todo"].append(self.trace + [j])
                if self.thin:
                    self.opts["thin"].add(tuple(self.opts["todo"][-1]))
            self.stats.forks += len(options) - 1
        self.trace.append(v)
        self.choices[name] = v
        return options[v]

    def flag(self, name):
        return self.choice(name, [False, True])

    def q(self, a, b=1):
        return Sym.const(Fraction(a) / Fraction(b))

    @property
    def pi(self):
        return E.pi_sym()

    def sqrt(self, x):
        return E.sx_sqrt(x)

    def cos(self, x):
        return E.sx_cos(x)

    def sin(self, x):
        return E.sx_sin(x)

    def exp(self, x):
        return E.sx_fn("exp", x)

    def write(self, path, text):
        if "/" in path:
            self.world.fs.makedirs(path.rpartition("/")[0], exist_ok=True)
        with self.world.fs.open(path, "w") as f:
            f.write(text)

    def tanh(self, x):
        return E.sx_fn("tanh", x)

    def pow(self, a, b):
        return N.power(N.lift(a), b)

    def abs(self, x):
        return E.sx_abs(x)

    def max_abs(self, xs):
        return E.sx_max([E.sx_abs(x) for x in flat(xs)[1]])

    def assume(self, cond):
        if isinstance(cond, (Sym,)):
            cond = cond != 0
        if not isinstance(cond, SymBool):
            if not cond:
                raise PathEnd("assumption")
            return
        self.take(cond, True)
        if not self.alive:
            if self.check() == z3.unsat:
                raise PathEnd("assumption")

    def assume_nonzero(self, x):
        x = as_sym(x)
        self.assume(E.sb_not(E.compare(x, Sym(E.ZERO), "==")))
        self.nonzero.add(x.n)

    def generic(self, *xs):
        """keep to inputs where no entry happens to vanish (entries that are zero by construction stay)"""
        for x in xs:
            for v in flat(x)[1]:
                v = as_sym(v)
                if not v.is_const():
                    self.assume_nonzero(v)

    # -- claims
    def _skip(self):
        # the path that this one branched off has already decided the claim
        return len(self.trace) < len(self.prefix)

    def eq(self, name, actual, expected, tol=1e-6, floor=1e-9, atol=1e-9):
        """actual == expected, entry by entry (exact in the encoding)"""
        sa, fa = flat(actual)
        se, fe = flat(expected)
        self.claims += 1
        self._observe(name, fa)
        if self._skip():
            return
        if sa != se:
            self._fail(name, "shape %s, expected %s" % (sa, se), [])
            return
        todo, triv = [], []
        for k, (a, e) in enumerate(zip(fa, fe)):
            if isinstance(a, str) or isinstance(e, str) or a is None or e is None:
                if a != e:
                    self._fail(name, "entry %d is %r, expected %r" % (k, a, e), [])
                    return
                continue
            if isinstance(a, float) and (a != a or a in (math.inf, -math.inf)):
                self._fail(name, "entry %d is %r" % (k, a), [])
                return
            a, e = as_sym(a), as_sym(e)
            d = a - e
            if d.n.is_zero():
                triv.append((a, e))
            else:
                todo.append((k, a, e, d))
        if triv:
            self._trivial(name, triv)
        for k, a, e, d in todo:
            if a.is_const() and e.is_const():
                x, y = float(a.value()), float(e.value())
                c = abs(x - y) <= tol * max(abs(x), abs(y)) + atol
            elif d.is_const() and abs(float(d.value())) <= atol:
                self.stats.obligations += 1
                if not self._decide_slack(name, "entry %d of %s" % (k, list(sa)), (a, e), (tol, atol)):
                    return
                continue
            else:
                c = E.compare(a, e, "==")
            if not self._decide(name, c, "entry %d of %s" % (k, list(sa)), (a, e), (tol, atol)):
                return

    def same(self, a, b):
        """equal for all values by normal form; used only to name a listed finding"""
        (sa, fa), (sb, fb) = flat(a), flat(b)
        r = sa == sb and all((as_sym(x) - as_sym(y)).n.is_zero() for x, y in zip(fa, fb))
        self.choices["same %d" % sum(k.startswith("same ") for k in self.choices)] = int(r)
        return r

    def _trivial(self, name, pairs):
        s = z3.Solver()
        ors = []
        seen = set()
        for a, e in pairs:
            if (a.n, e.n) in seen:
                continue
            seen.add((a.n, e.n))
            if a.n == e.n and a.d == e.d:
                ors.append(E.pz3(a.n) != E.pz3(e.n))
            else:
                ors.append(E.pz3((a - e).n) != 0)
        t = time.time()
        s.add(z3.Or(*ors))
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        self.stats.obligations += len(pairs)
        if r == z3.unsat:
            self.stats.discharged += len(pairs)
        else:
            self.stats.unknown += 1
            self.stats.obl_log.append("inconclusive: %s" % name)

    def claim(self, name, cond):
        if isinstance(cond, (list, tuple)):
            raise TypeError("claim takes one condition")
        self.claims += 1
        if isinstance(cond, np.ndarray) and cond.size == 1:
            cond = cond.reshape(-1)[0]
        if isinstance(cond, Sym):
            cond = cond != 0
        if self._skip():
            return
        self._decide(name, cond if isinstance(cond, SymBool) else bool(cond), "", None)

    def le(self, name, a, b, tol=1e-7):
        self.claim(name, E.compare(as_sym(a), as_sym(b), "<="))

    def lt(self, name, a, b):
        self.claim(name, E.compare(as_sym(a), as_sym(b), "<"))

    def raises(self, fn, *types):
        try:
            fn()
        except (types or (Exception,)):
            return True
        return False

    def rejects(self, name, fn, *types):
        self.claim(name, self.raises(fn, *types))

    def must_be(self, name, x, y):
        self.claim(name, x == y)

    def stop(self):
        raise Stop()

    # -- deciding
    def _observe(self, name, fa):
        if self.opts.get("observe", True):
            self.observed.append((name, fa[:80]))

    def _slight(self, ev, pair, tols):
        """are the two sides equal up to the tolerance here?"""
        if tols is None or ev is None:
            return False
        try:
            x, y = ev.sym(pair[0]), ev.sym(pair[1])
            return abs(x - y) <= 1.5 * tols[0] * max(abs(x), abs(y)) + 1.5 * tols[1]
        except Exception:
            return False

    def _ev_at(self, vals):
        try:
            return E.Ev({E._BYKEY[("input", n)].i: float(v) for n, v in vals.items()}, cx=self)
        except Exception:
            return None

    def _decide_slack(self, name, what, pair, tols):
        """the sides differ, but only slightly where tried: is the difference ever beyond the tolerance?"""
        a, e = pair
        t, z = Fraction(str(tols[0])) * 2, Fraction(str(tols[1])) * 2
        d = a - e
        far = [z3.And(E.zb(E.compare(x, t * e + z, ">")), E.zb(E.compare(x, z - t * e, ">"))) for x in (d, -d)]
        r, model = self._query(z3.Or(*far))
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        if r == z3.sat:
            self._report(name, what, self._values_from_model(model), "model", pair)
            return False
        self.stats.unknown += 1
        self.stats.obl_log.append("inconclusive: %s %s" % (name, what))
        return True

    def _decide(self, name, cond, what, pair, tols=None):
        self.stats.obligations += 1
        if cond is True:
            self.stats.discharged += 1
            self.stats.queries += 1       # constant-folded by the solver's simplifier
            return True
        if cond is False:
            self._fail(name, what or "condition is false on this path", [])
            return False
        if time.time() > self.opts["deadline"]:
            raise Budget("time")
        E_f = E.fb(cond)
        for ev in self.alive:
            if E_f(ev) is False:
                # a witness: let the solver confirm it with the inputs pinned
                vals = self._values_of(ev)
                r = self._pinned(cond, vals)
                if r == z3.unsat:
                    continue
                if self._slight(ev, pair, tols):
                    return self._decide_slack(name, what, pair, tols)
                self._report(name, what, vals, "pinned query: %s" % r, pair)
                return False
        r, model = self._query(E.zb(E.sb_not(cond)))
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        if r == z3.sat:
            vals = self._values_from_model(model)
            if self._slight(self._ev_at(vals), pair, tols):
                return self._decide_slack(name, what, pair, tols)
            self._report(name, what, vals, "model", pair)
            return False
        self.stats.unknown += 1
        self.stats.obl_log.append("inconclusive: %s %s" % (name, what))
        return True

    def _relevant(self, z):
        """path facts connected to the query through shared variables"""
        want = _vars(z)
        pcs = [(p, _vars(p)) for p in self.pc]
        out = []
        changed = True
        left = pcs
        while changed:
            changed = False
            nxt = []
            for p, v in left:
                if not v or v & want:
                    out.append(p)
                    if not v <= want:
                        want |= v
                        changed = True
                else:
                    nxt.append((p, v))
            left = nxt
        return out, left

    def _query(self, z):
        ms = self.opts.get("claim_ms", 20000)
        near, far = self._relevant(z)
        best = (z3.unknown, None)
        plans = []
        if len(near) > 6:
            plans.append(("plain", near, ms // 4))
        plans += [("nlsat", near, ms), ("plain", near, ms)]
        for kind, pcs, lim in plans:
            lim = int(min(lim, max(0.2, self.opts["deadline"] - time.time()) * 1000))
            s = z3.Tactic("qfnra-nlsat").solver() if kind == "nlsat" else z3.Solver()
            s.add(*pcs)
            s.add(z)
            t = time.time()
            r = E.run_check(s, lim)
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                m = s.model()
                if far:
                    # complete the model with the unrelated path facts
                    f = z3.Solver()
                    f.add(*[p for p, v in far])
                    if E.run_check(f, 5000) == z3.sat:
                        return r, [m, f.model()]
                return r, [m]
        return best

    def _pinned(self, cond, vals):
        s = z3.Solver()
        zs = list(self.pc) + [z3.Not(cond.z)]
        sub = []
        for n, v in vals.items():
            a = E._BYKEY[("input", n)]
            if self.nominal[n][0] == "angle":
                unit, ci, si = E.ANGLES[a.i]
                # rational point of the circle near the angle
                t = Fraction(math.tan(float(v) / unit / 2)).limit_denominator(1000)
                c, sn = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
                sub += [(E.ATOMS[ci].z, E._q(c)), (E.ATOMS[si].z, E._q(sn))]
                vals[n] = unit * math.atan2(float(sn), float(c))
            else:
                sub.append((a.z, E._q(v)))
        t0 = time.time()
        for p in zs:
            s.add(z3.simplify(z3.substitute(p, *sub)) if sub else p)
        r = E.run_check(s, 4000)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return r

    def _values_of(self, ev):
        out = {}
        for n in self.input_syms:
            a = E._BYKEY[("input", n)]
            out[n] = Fraction(repr(ev.atom(a.i)))
        return out

    def _values_from_model(self, models):
        out = {}
        for n in self.input_syms:
            a = E._BYKEY[("input", n)]
            kind, lo, hi = self.nominal[n]
            v = None
            if kind == "angle":
                unit, ci, si = E.ANGLES[a.i]
                for m in models:
                    c, s = _mv(m, E.ATOMS[ci].z), _mv(m, E.ATOMS[si].z)
                    if c is not None and s is not None:
                        v = unit * math.atan2(float(s), float(c))
                        break
            else:
                for m in models:
                    v = _mv(m, a.z)
                    if v is not None:
                        break
            if v is None:
                v = Fraction(repr(round((float(lo) + float(hi)) / 2 + 0.137 * (float(hi) - float(lo)), 4)))
            out[n] = v
        return out

    def _fail(self, name, what, _):
        """the claim fails for every input of the path"""
        vals = self._some_values()
        if vals is None:
            raise PathEnd("infeasible")
        self._report(name, what, vals, "path", None)

    def _some_values(self):
        if self.alive:
            return self._values_of(self.alive[0])
        r, m = self._query(z3.BoolVal(True)) if not self.pc else self._model_of_path()
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return self._values_from_model(m)
        self.stats.unknown += 1
        self.stats.obl_log.append("inconclusive: feasibility of a failing path")
        return self._values_from_model([])

    def _model_of_path(self):
        for s in (z3.Tactic("qfnra-nlsat").solver(), z3.Solver()):
            s.add(*self.pc)
            t = time.time()
            r = E.run_check(s, 10000)
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                return r, [s.model()]
            if r == z3.unsat:
                return r, None
        return z3.unknown, None

    def _report(self, name, what, vals, how, pair):
        d = what
        if pair is not None:
            d += ": got %s, expected %s" % (E.sym_str(pair[0], 4)[:160], E.sym_str(pair[1], 4)[:160])
        self.findings.append(Finding(name, dict(vals), dict(self.choices), d, how))


_vars = E.zvars


def _mv(m, z):
    try:
        v = m.eval(z)
    except z3.Z3Exception:
        return None
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(30)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    return None


# ------------------------------------------------------------ exploration --

class Job(object):
    """one harness function with one configuration"""

    def __init__(self, path, func, case, opts):
        self.path, self.func, self.case, self.opts = path, func, case, opts

    @property
    def label(self):
        return self.func + ("" if self.case is None else "[%s]" % (self.case,))


def explore(job, tier, seed, deadline):
    st = E.Stats()
    findings = []
    todo = [[]]
    o = dict(job.opts)
    witnesses = []
    res = dict(label=job.label, func=job.func, case=job.case, unsupported=[], findings=[], witnesses=witnesses,
               files=set(), kernels=set(), functions=0, ended=0, claims=0, deep=0)
    thin, late = set(), []      # prefixes of paths on which inputs coincide
    opts = dict(deadline=deadline, todo=todo, thin=thin, tier=tier, seed=seed, findings=findings,
                generic_zero=o.get("generic_zero", False), branch_ms=o.get("branch_ms", 2500),
                claim_ms=o.get("claim_ms", 30000 if tier == "quick" else 90000), samples=o.get("samples", 24))
    maxp = o.get("max_paths", 4000)
    t0 = time.time()
    seen_raise = set()
    while todo or late:
        # coincidences last
        while todo and tuple(todo[-1]) in thin:
            late.append(todo.pop())
        if not todo and "thin_s" in o:
            deadline = opts["deadline"] = min(opts["deadline"], t0 + max(20, o.pop("thin_s")))
        prefix = (todo or late).pop()
        was = st.unknown, len(st.obl_log)
        if st.paths >= maxp:
            res["unsupported"].append("path budget of %d exhausted" % maxp)
            break
        cx = SymCx(prefix, st, opts, job.case)
        E._CTX[0] = cx
        status = "ok"
        try:
            m = cx.world.load_file("harness_" + job.func, job.path)
            getattr(m, job.func)(cx)
        except PathEnd:
            status = "cut"
            res["ended"] += 1
        except Stop:
            pass
        except Budget as ex:
            if cx.thin:
                # all of the rest are coincidences
                st.cuts += 1 + len(todo) + len(late)
                st.unknown = was[0]
                del st.obl_log[was[1]:]
            elif not findings or o.get("keep_on"):
                res["unsupported"].append("budget: %s" % ex)
            break
        except (Unsupported, E.TooLarge) as ex:
            import traceback
            tb = [f for f in traceback.extract_tb(ex.__traceback__) if "/symx/" not in f.filename][-1:]
            res["unsupported"].append("%s: %s at %s" % (type(ex).__name__, ex, tb and "%s:%s" % (tb[0].filename, tb[0].lineno)))
            status = "unsupported"
        except RecursionError as ex:
            res["unsupported"].append("recursion")
            status = "unsupported"
        except Exception as ex:
            import traceback
            status = "raise"
            tb = traceback.extract_tb(ex.__traceback__)
            where = [f for f in tb if "/symx/" not in f.filename][-1:]
            w = "%s:%s" % (where[0].filename, where[0].lineno) if where else "?"
            if os_debug():
                traceback.print_exc()
            nm = "exception %s" % type(ex).__name__
            try:
                vals = cx._some_values()
                if vals is not None:
                    findings.append(Finding(nm, vals, dict(cx.choices), "%s: %s at %s" % (type(ex).__name__, str(ex)[:200], w), "path"))
            except (PathEnd, Budget):
                pass
        finally:
            E._CTX[0] = None
        st.paths += 1
        if cx.thin and time.time() > deadline and st.unknown > was[0]:
            st.cuts += 1
            st.unknown = was[0]
            del st.obl_log[was[1]:]
        res["claims"] += cx.claims
        if cx._world is not None:
            res["files"] |= cx.world.loaded_files
            res["kernels"] |= set(map(str, cx.world.kernels_used))
        if status == "ok" and cx.alive and len(witnesses) < o.get("witnesses", 3 if tier == "quick" else 8):
            ev = cx.alive[0]
            E._CTX[0] = cx
            try:
                obs = []
                for name, fa in cx.observed:
                    row = []
                    for v in fa:
                        try:
                            row.append(ev.sym(as_sym(v)) if not isinstance(v, (str, type(None))) else None)
                        except (KeyError, ZeroDivisionError, OverflowError, ValueError, TypeError):
                            row.append(None)
                    obs.append((name, row))
                witnesses.append(dict(values={k: str(v) for k, v in cx._values_of(ev).items()},
                                      choices=dict(cx.choices), observed=obs))
            except BaseException as ex:
                if isinstance(ex, (KeyboardInterrupt, SystemExit)):
                    raise
            finally:
                E._CTX[0] = None
        if len(findings) >= 12:
            break
        if findings and not o.get("keep_on"):
            # something to replay: look a little further, not for long
            opts["deadline"] = min(opts["deadline"], time.time() + 20)
    if st.paths and not res["claims"] and not findings and not res["unsupported"]:
        res["unsupported"].append("vacuous: no claim was reached")
    if st.unknown:
        res["unsupported"] += st.obl_log[:5]
    for f in findings:
        res["findings"].append(dict(claim=f.claim, values={k: str(v) for k, v in f.values.items()},
                                    choices=f.choices, detail=f.detail, how=f.how, case=job.case, func=job.func,
                                    path=job.path))
    # inputs of the nominal region, for jobs without an answer
    res.update(paths=st.paths, queries=st.queries, solver_s=st.solver_s, obligations=st.obligations,
               discharged=st.discharged, cuts=st.cuts, forks=st.forks, unknown=st.unknown, wall=time.time() - t0)
    res["files"] = sorted(res["files"])
    res["kernels"] = sorted(res["kernels"])
    return res


def os_debug():
    import os
    return os.environ.get("SX_DEBUG")
