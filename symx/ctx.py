"""Harness contexts.

The same harness function runs (a) symbolically: inputs are Terms, every branch
of the executed code forks the exploration and every check is a solver query;
(b) concretely: inputs are the floats of a witness, numpy and astropy are
untouched, and every check is evaluated.  (b) is the replay of (a).
"""
import builtins
import math
import random
import time
import traceback


class Reject(Exception):
    """the inputs do not satisfy the assumptions of the harness"""


class PathLimit(Exception):
    pass


class Deadline(Exception):
    pass


CASES = {}


def case(prop, name, **opts):
    """register a harness function; opts: max_paths, timeouts, levels, thorough"""
    def d(f):
        CASES.setdefault(prop, {})[name] = (f, opts)
        return f
    return d


# --------------------------------------------------------------------------- #
class _Base:
    symbolic = False

    def grid(self, sizes):
        """sizes of the bounded integration grids of this case, {size: bound}"""
        from .npsym import GRID
        GRID.reset(sizes)

    def sqrt(self, x):
        return self.np.sqrt(x)

    def exp(self, x):
        return self.np.exp(x)

    def log(self, x):
        return self.np.log(x)

    def quantity(self, v, unit):
        import astropy.units as u
        return v * u.Unit(unit)

    def all_of(self, label, pairs, **k):
        for i, (a, b) in enumerate(pairs):
            self.eq("%s[%d]" % (label, i), a, b, **k)


# --------------------------------------------------------------------------- #
class Concrete(_Base):
    """values of a witness; checks are evaluated with floats"""

    def __init__(self, env, np_module=None, rtol=1e-6):
        import numpy
        self.np = np_module or numpy
        self.env = env
        self.rtol = rtol
        self.failures = []
        self.values = []
        self.checked = 0
        self.reached = set()
        self.notes = []

    # inputs
    def real(self, name, lo, hi, log=None):
        if name not in self.env:
            raise Reject("no value for " + name)
        return float(self.env[name])

    def reals(self, name, n, lo, hi, increasing=False):
        v = [float(self.env["%s_%d" % (name, i)]) for i in range(n)]
        if increasing and any(b <= a for a, b in zip(v, v[1:])):
            raise Reject(name)
        return self.np.array(v)

    def array(self, xs):
        return self.np.array(xs, dtype=float)

    def choice(self, name, options):
        return options[int(self.env.get("choice:" + name, 0))]

    def ufn(self, name, concrete, positive=False):
        return concrete

    def dL(self, z):
        from astropy.coordinates import Distance
        return Distance(z=z).to("cm")

    def assume(self, cond):
        if hasattr(cond, "all"):
            cond = cond.all()
        if not bool(cond):
            raise Reject("assumption")

    # obligations
    def _fail(self, label, detail):
        self.failures.append({"label": label, "detail": detail})

    def _record(self, label, v):
        import numpy as np
        try:
            if hasattr(v, "to_value"):
                v = v.value
            self.values.append((label, [float(x) for x in np.ravel(np.asarray(v, dtype=float))]))
        except Exception:
            self.values.append((label, None))

    def eq(self, label, a, b, rtol=None, atol=0.0, unit=None):
        import numpy as np
        import astropy.units as u
        self.checked += 1
        self.reached.add(label)
        try:
            a, b = _same_unit(a, b)
        except u.UnitConversionError as ex:
            return self._fail(label, "units differ: %s" % ex)
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        self._record(label, a)
        if a.shape != b.shape:
            return self._fail(label, "shapes differ: %s %s" % (a.shape, b.shape))
        rt = self.rtol if rtol is None else rtol
        bad = []
        for x, y in zip(a.ravel(), b.ravel()):
            if x == y or (x != x and y != y):
                continue
            d = abs(x - y)
            if not d <= rt * max(abs(x), abs(y)) + atol:
                bad.append((x, y))
        if bad:
            self._fail(label, "got %r expected %r" % bad[0])

    def le(self, label, a, b, slack=1e-9, strict=False):
        import numpy as np
        self.checked += 1
        self.reached.add(label)
        a, b = _same_unit(a, b)
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        self._record(label, a)
        for x, y in zip(a.ravel(), b.ravel()):
            ok = x < y if strict else x <= y + slack * max(abs(x), abs(y), 1e-300)
            if not ok:
                return self._fail(label, "not %r %s %r" % (x, "<" if strict else "<=", y))

    def lt(self, label, a, b):
        self.le(label, a, b, strict=True)

    def check(self, label, cond):
        import numpy as np
        self.checked += 1
        self.reached.add(label)
        if not bool(np.all(cond)):
            self._fail(label, "condition is false")

    def finite(self, label, a):
        import numpy as np
        self.checked += 1
        self.reached.add(label)
        v = np.asarray(a.value if hasattr(a, "unit") else a, dtype=float)
        if not np.all(np.isfinite(v)):
            self._fail(label, "not finite: %r" % (v.ravel()[:4],))

    def raises(self, label, exc, fn):
        self.checked += 1
        self.reached.add(label)
        try:
            r = fn()
        except exc:
            return
        except Exception as ex:
            return self._fail(label, "raised %r instead" % ex)
        self._fail(label, "did not raise %s (returned %r)" % (exc, r))

    def returns(self, label, fn):
        """fn must not raise"""
        self.checked += 1
        self.reached.add(label)
        try:
            return fn()
        except (Reject, Deadline, PathLimit):
            raise
        except Exception as ex:
            self._fail(label, "raised %s: %s" % (type(ex).__name__, ex))
            raise StopCase()


class StopCase(Exception):
    pass


def _same_unit(a, b):
    """values of a and b in the unit of a; plain numbers count as dimensionless"""
    qa, qb = hasattr(a, "unit"), hasattr(b, "unit")
    if qa or qb:
        import astropy.units as u
        if not qa:
            a = u.Quantity(a)
        if not qb:
            b = u.Quantity(b)
        return a.value, b.to_value(a.unit)
    return a, b


# --------------------------------------------------------------------------- #
class Symbolic(_Base):
    symbolic = True

    def __init__(self, explorer, np_module):
        self.np = np_module
        self.x = explorer

    # inputs
    def real(self, name, lo, hi, log=None):
        from . import terms as T
        self.x.declare(name, lo, hi, log)
        return T.var(name, lo, hi)

    def reals(self, name, n, lo, hi, increasing=False):
        from . import terms as T
        from . import npsym as N
        v = [self.real("%s_%d" % (name, i), lo, hi) for i in range(n)]
        if increasing:
            self.x.declare_increasing(["%s_%d" % (name, i) for i in range(n)])
            for a, b in zip(v, v[1:]):
                self.assume(a < b)
        return N.to_obj(v).view(N.SymND)

    def array(self, xs):
        from . import npsym as N
        return N.to_obj(list(xs)).view(N.SymND)

    def choice(self, name, options):
        return options[self.x.choose(name, len(options))]

    def ufn(self, name, concrete, positive=False):
        """arbitrary function of its arguments (nondeterministic stub)"""
        from . import terms as T
        from . import npsym as N
        self.x.uf_concrete[("pos_" if positive else "uf_") + name] = concrete

        def f(*args):
            import numpy as np
            vals = [a.value if hasattr(a, "unit") else a for a in args]
            vals = [N.raw(v) if isinstance(v, np.ndarray) else v for v in vals]
            r = N.vec(lambda *a: T.uf(name, *a, positive=positive), len(vals))(*vals)
            return N.wrap(r) if isinstance(r, np.ndarray) else r
        return f

    def dL(self, z):
        import astropy.units as u
        from . import loader
        return loader.luminosity_distance(z)

    def assume(self, cond):
        import numpy as np
        from . import npsym as N
        if isinstance(cond, np.ndarray):
            for c in N.raw(cond).ravel() if cond.dtype == object else cond.ravel():
                self.x.assume(c)
        else:
            self.x.assume(cond)

    # obligations
    def _flat(self, a):
        import numpy as np
        from . import npsym as N
        if hasattr(a, "unit"):
            a = a.value
        a = N.to_obj(a)
        return a.shape, list(a.ravel())

    def eq(self, label, a, b, rtol=None, atol=0.0, unit=None):
        import astropy.units as u
        from . import solver, terms as T
        try:
            a, b = _same_unit(a, b)
        except u.UnitConversionError as ex:
            return self.x.obligation(label, T.FALSE, "units differ: %s" % ex)
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if sa != sb:
            return self.x.obligation(label, T.FALSE, "shapes differ %s %s" % (sa, sb))
        self.x.record(label, fa)
        goals = [solver.near(x, y) for x, y in zip(fa, fb)]
        for i, g in enumerate(goals):
            self.x.obligation(label, g, ("eq", fa[i], fb[i]), elem=i)

    def le(self, label, a, b, slack=None, strict=False):
        from . import solver, terms as T
        import numpy as np
        a, b = _same_unit(a, b)
        a, b = np.broadcast_arrays(*[np.asarray(self._shaped(v)) for v in (a, b)])
        self.x.record(label, list(a.ravel()))
        for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
            g = T.compare("lt" if strict else "le", T.lift(x), T.lift(y))
            if not strict and g.kind != "const":
                g = g if _nice(g) else T.b_or(g, solver.near(x, y))
            self.x.obligation(label, g, ("le", x, y), elem=i)

    def _shaped(self, v):
        from . import npsym as N
        return N.to_obj(v)

    def lt(self, label, a, b):
        self.le(label, a, b, strict=True)

    def check(self, label, cond):
        import numpy as np
        from . import npsym as N, terms as T
        if isinstance(cond, np.ndarray):
            _, f = self._flat(cond)
            for i, c in enumerate(f):
                self.x.obligation(label, N._bool(c), "condition", elem=i)
        else:
            self.x.obligation(label, N._bool(cond), "condition")

    def finite(self, label, a):
        from . import terms as T
        _, f = self._flat(a)
        for i, v in enumerate(f):
            self.x.obligation(label, not_special(T.lift(v)), "finite", elem=i)

    def raises(self, label, exc, fn):
        from . import terms as T
        try:
            fn()
        except exc:
            return self.x.obligation(label, T.TRUE, "raises")
        self.x.obligation(label, T.FALSE, "did not raise")

    def returns(self, label, fn):
        from . import terms as T, npsym as N
        try:
            r = fn()
        except (Reject, Deadline, PathLimit, N.Unsupported, T.SymbolicBranch, RecursionError):
            raise
        except Exception as ex:
            self.x.obligation(label, T.FALSE, "raised %s: %s" % (type(ex).__name__, ex))
            raise StopCase()
        self.x.obligation(label, T.TRUE, "returns")
        return r


def _nice(g):
    return False


def not_special(t):
    """Bool: t is neither nan nor +-inf"""
    from . import terms as T
    if t is T.NAN or T.is_inf(t):
        return T.FALSE
    r = T.TRUE
    for mo, _ in t.m:
        if mo.has_ite:
            c, p, q = mo.f[0][0].args
            bp, bq = not_special(p), not_special(q)
            r = T.b_and(r, T.b_and(T.b_or(T.b_not(c), bp), T.b_or(c, bq)))
    return r


# --------------------------------------------------------------------------- #
class Slow(Exception):
    pass


class alarm:
    """raise exc after some seconds (nested: the inner one, then the outer again)"""

    def __init__(self, seconds, exc):
        self.seconds, self.exc = seconds, exc

    def __enter__(self):
        import signal
        import threading
        self.on = self.seconds > 0 and threading.current_thread() is threading.main_thread()
        if self.on:
            def fire(*a):
                raise self.exc()
            self.t0 = time.time()
            self.old = signal.signal(signal.SIGALRM, fire)
            self.rest = signal.setitimer(signal.ITIMER_REAL, self.seconds)[0]

    def __exit__(self, *a):
        import signal
        if self.on:
            signal.signal(signal.SIGALRM, self.old)
            left = max(0.05, self.rest - (time.time() - self.t0)) if self.rest else 0
            signal.setitimer(signal.ITIMER_REAL, left)
        return False


class Explorer:
    """depth first exploration of the paths of a harness by re-execution"""

    def __init__(self, fn, np_module, max_paths=64, timeouts=(5000, 8000, 10000), levels=(1, 2, 3),
                 deadline=None, max_refuted=6, feas_level3=True, seed=1):
        self.fn = fn
        self.np = np_module
        self.max_paths = max_paths
        self.timeouts = timeouts
        self.levels = levels
        self.deadline = deadline
        self.max_refuted = max_refuted
        self.feas3 = feas_level3
        self.vars = {}
        self.increasing = []
        self.uf_concrete = {}
        self.results = []  # obligations
        self.paths = 0
        self.infeasible = 0
        self.rejected = 0
        self.errors = []
        self.path_records = []
        self.proved_cache = {}
        self.feas_cache = {}
        self.obligation_time = sum(timeouts) / 1000.0 + 8
        self.seed = seed
        self.truncated = False
        self.branches = 0

    # ---- called by the context
    def declare(self, name, lo, hi, log):
        if log is None:
            log = lo > 0 and hi / lo > 50
        self.vars[name] = (lo, hi, log)

    def declare_increasing(self, names):
        if names not in self.increasing:
            self.increasing.append(names)

    def assume(self, c):
        from . import terms as T
        b = T.as_bool(c)
        if b is None:
            raise TypeError("assume needs a boolean")
        if b is T.TRUE:
            return
        if b is T.FALSE:
            raise Reject()
        self._add(b)

    def _add(self, b):
        from . import terms as T
        if b.kind == "and":
            self._add(b.args[0])
            self._add(b.args[1])
            return
        if b.id in self.known:
            return
        self.pc.append(b)
        self.known[b.id] = True
        self.known[T.b_not(b).id] = False
        if b.kind == "lt":
            T.Facts.pos.add(T.scale(b.args[0], -1.0).id)
            self._norm_fact(b.args[0], T.Facts.pos)
        elif b.kind == "le":
            T.Facts.nn.add(T.scale(b.args[0], -1.0).id)
            self._norm_fact(b.args[0], T.Facts.nn)

    def _norm_fact(self, t, store):
        """the same fact for the normalised sum base that powers of -t use"""
        from . import terms as T
        n = T.scale(t, -1.0)
        if len(n.m) > 1:
            for integer in (False, True):
                try:
                    g, bt, k, sg = T._sum_normal(n, integer)
                except Exception:
                    continue
                if sg > 0 and all(T.base_pos(b) for b in g):
                    store.add(bt.id)

    def choose(self, name, n):
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for alt in range(n - 1, 0, -1):
                self.todo.append(self.trace + [("choice", name, alt)])
            v = ("choice", name, 0)
        self.trace.append(v)
        self.choices[name] = v[2]
        return v[2]

    def branch(self, b):
        from . import terms as T
        if self.deadline and time.time() > self.deadline:
            raise Deadline()
        if b.id in self.known:
            return self.known[b.id]
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v[0] != b.id:
                raise RuntimeError("the order of the branches depends on the history: %r" % (b,))
            v = v[1]
            self.trace.append((b.id, v))
            self._add(b if v else T.b_not(b))
            return v
        self.branches += 1
        ft = self.feasible(b)
        ff = self.feasible(T.b_not(b)) if ft else True
        if ft and ff:
            self.todo.append(self.trace + [(b.id, False)])
        v = bool(ft)
        self.trace.append((b.id, v))
        self._add(b if v else T.b_not(b))
        return v

    def feasible(self, b):
        from . import solver
        key = (frozenset(x.id for x in self.pc), b.id)
        r = self.feas_cache.get(key)
        if r is None:
            st, _ = solver.check(self.pc + [b], 1, 2000)
            if st != "unsat" and self.feas3:
                st, _ = solver.check(self.pc + [b], 3, 250)
            r = self.feas_cache[key] = st != "unsat"
        return r

    def record(self, label, terms):
        self.values.append((label, terms))

    def obligation(self, label, goal, detail, elem=None):
        from . import solver, terms as T
        if self.deadline and time.time() > self.deadline:
            raise Deadline()
        self.labels.add(label)
        key = (goal.id, frozenset(x.id for x in self.pc))
        st = self.proved_cache.get(key)
        if st is None:
            if goal is T.FALSE:
                st = ("refuted", 0, None)
                if not self.path_feasible():
                    st = ("proved", 1, None)
            else:
                try:
                    with alarm(self.obligation_time, Slow):
                        st = solver.prove(self.pc, goal, self.timeouts, self.levels)
                except (Slow, RecursionError, MemoryError):
                    st = ("undecided", 9, None)
            self.proved_cache[key] = st
        res = {"label": label, "elem": elem, "status": st[0], "level": st[1], "path": self.paths}
        if st[0] != "proved":
            res["detail"] = describe(detail)
            if sum(r["status"] != "proved" for r in self.results) < self.max_refuted * 4:
                res["goal"] = goal
                res["pc"] = list(self.pc)
                res["choices"] = dict(self.choices)
                res["model"] = st[2]
        self.results.append(res)

    def path_feasible(self):
        from . import solver
        st, _ = solver.check(self.pc, 1, 2000)
        if st == "sat" or st == "unknown":
            st, _ = solver.check(self.pc, 3, 3000)
        return st != "unsat"

    # ---- the loop
    def run(self):
        from . import terms as T
        from .npsym import GRID
        self.todo = [[]]
        while self.todo:
            if self.paths + self.rejected >= self.max_paths:
                self.truncated = True
                break
            if self.deadline and time.time() > self.deadline:
                self.truncated = True
                break
            self.prefix = self.todo.pop()
            self.trace, self.pc, self.known = [], [], {}
            self.values, self.labels, self.choices = [], set(), {}
            T.reset_caches()
            GRID.reset()
            T.Hooks.branch = self.branch
            left = self.deadline - time.time() if self.deadline else 0
            try:
                try:
                    with alarm(left, Deadline):
                        self.fn(Symbolic(self, self.np))
                except StopCase:
                    pass
            except Reject:
                self.rejected += 1
                continue
            except Deadline:
                self.truncated = True
                self.errors.append({"type": "Deadline", "msg": "time limit of the case", "tb": "",
                                    "pc": list(self.pc), "choices": dict(self.choices)})
                break
            except Exception as ex:
                # an exception of the code under test or of the encoding: the
                # concrete replay of this path tells which
                if not self.path_feasible():
                    self.infeasible += 1
                    continue
                self.errors.append({
                    "type": type(ex).__name__, "msg": str(ex)[:300],
                    "tb": traceback.format_exc()[-1500:],
                    "pc": list(self.pc), "choices": dict(self.choices),
                })
            finally:
                T.Hooks.branch = None
            self.path_records.append((list(self.pc), dict(self.choices), list(self.values), set(self.labels)))
            self.paths += 1
        return self


def describe(d):
    if isinstance(d, tuple):
        return "%s: %.300r vs %.300r" % d
    return str(d)[:400]


# --------------------------------------------------------------------------- #
# witnesses
# --------------------------------------------------------------------------- #
class Witnesses:
    """concrete points of a path: the solver's model when it has one, and points
    of the declared box repaired to satisfy the path condition"""

    def __init__(self, x, seed=1):
        self.x = x
        self.rng = random.Random(seed)

    def sample(self):
        env = {}
        for n, (lo, hi, log) in self.x.vars.items():
            u = self.rng.random()
            if self.rng.random() < 0.05:
                u = self.rng.choice([0.0, 1.0])
            if log:
                env[n] = lo * (hi / lo) ** u
            else:
                env[n] = lo + (hi - lo) * u
        for names in self.x.increasing:
            vals = sorted(env[n] for n in names)
            env.update(zip(names, vals))
        return env

    def evaluator(self, env):
        from . import terms as T
        from . import loader

        def ufval(b, args):
            f = self.x.uf_concrete.get(b.name)
            if f is not None:
                try:
                    return float(f(*args))
                except Exception:
                    return math.nan
            return loader.uf_value(b.name, args)
        return T.Eval(env, ufval)

    def fits(self, env, pc):
        ev = self.evaluator(env)
        try:
            return all(eval_bool(ev, b) for b in pc)
        except Exception:
            return False

    def violates(self, env, goal):
        ev = self.evaluator(env)
        try:
            return not eval_bool(ev, goal)
        except Exception:
            return False

    def search(self, pc, goal=None, model=None, tries=400, want=3, budget=4.0):
        out, weak = [], []
        cands = []
        for mdl in (model or [])[:4]:
            vs = {k: v for k, v in mdl.items() if k in self.x.vars}
            cond = self.condition_vars(pc, goal)
            for i in range(24):
                base = self.sample()
                base.update(vs if i % 3 == 0 else {k: v for k, v in vs.items() if k in cond})
                if i > 12:
                    for k in base:
                        if self.rng.random() < 0.5:
                            base[k] *= 1 + self.rng.uniform(-1e-3, 1e-3)
                cands.append(base)
        t0 = time.time()
        n = 0
        while n < tries and time.time() - t0 < budget:
            n += 1
            env = cands.pop(0) if cands else (self.mutate(weak) if weak and self.rng.random() < 0.3 else self.sample())
            env = self.repair(env)
            if not self.fits(env, pc):
                continue
            if goal is None:
                out.append(env)
            elif self.violates(env, goal):
                out.append(env)
            elif len(weak) < 5:
                weak.append(env)
            if len(out) >= want:
                break
        if not out and not weak:
            # ask the solver for a point of the path
            m = self.solve(pc, goal)
            for e in m:
                if self.fits(e, pc):
                    (out if goal is None or self.violates(e, goal) else weak).append(e)
                else:
                    weak.append(e)
        return out, weak

    def condition_vars(self, pc, goal):
        """variables of the path condition and of the conditions in the goal"""
        from . import terms as T
        from . import solver
        atoms = list(pc) + (solver.ite_atoms([goal]) if goal is not None else [])
        return {b.name for b in T.bases_of(atoms) if b.kind == "var"}

    def solve(self, pc, goal):
        from . import solver
        out = []
        for extra in ([solver.negate(goal)] if goal is not None and goal.kind != "const" else []), []:
            st, m = solver.check(pc + list(extra), 3, 5000, want_model=True)
            if st == "sat" and m:
                e = self.sample()
                e.update({k: v for k, v in m.items() if k in self.x.vars})
                out.append(e)
        return out

    def mutate(self, pool):
        e = dict(self.rng.choice(pool))
        for k in e:
            if self.rng.random() < 0.4:
                s = self.sample()
                e[k] = s[k]
        return e

    def repair(self, env):
        for n, (lo, hi, _) in self.x.vars.items():
            env[n] = min(max(env[n], lo), hi)
        return env


def eval_bool(ev, b):
    if b.kind == "near":
        x, y = ev.term(b.args[0]), ev.term(b.args[1])
        if x != x or y != y:
            return x != x and y != y
        return abs(x - y) <= 1e-6 * max(abs(x), abs(y))
    if b.kind == "not":
        return not eval_bool(ev, b.args[0])
    if b.kind == "and":
        return eval_bool(ev, b.args[0]) and eval_bool(ev, b.args[1])
    if b.kind == "or":
        return eval_bool(ev, b.args[0]) or eval_bool(ev, b.args[1])
    return ev.bool(b)
