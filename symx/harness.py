"""Explore one scenario: all paths, every assertion decided by the solver, counterexamples and path witnesses replayed on
the unpatched code."""
import contextlib
import functools
import json
import math
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import core, patch, env as envm
from .core import Ctx, PathInfeasible, Undecided, Unsupported, is_sym
from .env import SymEnv, ConcEnv, ReplayInvalid, Failed


class Scenario:
    """fn(e, **params): builds inputs with e.real/e.integer/..., calls the real code, asserts with e.check/e.close/e.le.
    foreign: {real object: stub(e) -> replacement} is installed in symbolic mode; in concrete mode when stub_conc is set.
    random: use stub generators for numpy.random.default_rng in both modes (values from the model)"""

    def __init__(self, name, fn, params=None, foreign=None, random=False, max_paths=3000, branch_timeout=4000,
                 check_timeout=20000, tier='quick', witnesses=12, allow_exceptions=(), functions=(), budget=None,
                 raises_ok=False, np_over=None):
        self.np_over = np_over or {}     # numpy function name -> f(numpy's function, *args, **kwargs), in both modes
        self.name, self.fn, self.params, self.foreign, self.random = name, fn, params or {}, foreign or {}, random
        self.max_paths, self.branch_timeout, self.check_timeout = max_paths, branch_timeout, check_timeout
        self.tier, self.witnesses, self.functions, self.budget = tier, witnesses, functions, budget


class Explorer:
    def __init__(self, sc, deadline):
        self.sc = sc
        self.ctx = Ctx(sc.branch_timeout, sc.check_timeout, sc.max_paths, deadline)
        self.violations, self.undecided, self.mismatch = [], [], []
        self.witness_ok = self.witness_skipped = 0
        self.samples = []
        self.decided_paths = 0
        self.reached = 0
        self.labels = {}
        self.aborted = {}
        self.active = None

    # ---- running
    @contextlib.contextmanager
    def patched(self, e, symbolic):
        from .stubs import RandomModule
        sc = self.sc
        rnd = RandomModule(e) if sc.random else None
        if symbolic:
            foreign = [(real, stub(e)) for real, stub in sc.foreign.items()]
            p = patch.Patches(foreign, rnd, sc.np_over)
            with p:
                self.active = p
                try:
                    yield
                finally:
                    self.active = None
        else:
            with ConcretePatches([(real, stub(e)) for real, stub in sc.foreign.items() if getattr(stub, 'conc', True)], rnd, sc.np_over):
                yield

    def run_conc(self, values):
        """the replay: real code, real numpy"""
        e = ConcEnv(values)
        exc = None
        old, core.CTX = core.CTX, None
        active = self.active
        if active is not None:          # a replay in the middle of a symbolic run: take the stand-ins out of the code
            active.__exit__()
            state = patch.current_state()
        patch.reset_state()
        try:
            with self.patched(e, False), warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                self.sc.fn(e, **self.sc.params)
        except ReplayInvalid:
            if not e.failures:      # (an assumption that fails after an assertion failed does not excuse the failure)
                return None, None
        except Exception as ex:  # noqa: BLE001
            exc = ''.join(traceback.format_exception_only(type(ex), ex)).strip()
            tb = traceback.extract_tb(ex.__traceback__)
            if tb:
                exc += f" at {tb[-1].filename.replace('/repo/', '')}:{tb[-1].lineno}"
            e.failures.append(f"unexpected exception {exc}")
        finally:
            core.CTX = old
            if active is not None:
                patch.reset_state()
                patch.reset_state(state)
                active.__enter__()
                self.active = active
        return e, exc

    def explore(self):
        ctx = self.ctx
        work = [()]
        t0 = time.time()
        while work:
            if ctx.stats.paths >= ctx.max_paths or (ctx.deadline and time.time() > ctx.deadline):
                self.undecided.append(f"{len(work)} path prefixes left unexplored (bound on paths or time)")
                break
            prefix = work.pop()
            ctx.reset(prefix)
            core.CTX = ctx
            patch.reset_state()         # every path starts with the package as it is after its import
            e = SymEnv(ctx, self)
            status = 'done'
            detail = None
            try:
                with self.patched(e, True), warnings.catch_warnings(), np.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    self.sc.fn(e, **self.sc.params)
            except PathInfeasible:
                status = 'infeasible'
            except Failed:
                status = 'failed'
            except Undecided as ex:
                status, detail = 'undecided', str(ex)
            except Unsupported as ex:
                status, detail = 'unsupported', str(ex)
            except RecursionError as ex:
                status, detail = 'unsupported', 'recursion'
            except Exception as ex:  # noqa: BLE001  the code under test (or the harness) raised
                status = 'exception'
                tb = traceback.extract_tb(ex.__traceback__)
                detail = f"{type(ex).__name__}: {ex} at {tb[-1].filename}:{tb[-1].lineno}"
                self.last_tb = traceback.format_exc()
            # schedule the alternatives of the decisions taken beyond the prefix
            for i in range(len(ctx.trace) - 1, len(prefix) - 1, -1):
                v, forkable = ctx.trace[i]
                if forkable:
                    work.append(tuple(x for x, _ in ctx.trace[:i]) + (not v,))
            core.CTX = ctx
            if status == 'infeasible':
                ctx.stats.infeasible += 1
                continue
            ctx.stats.paths += 1
            if status == 'done':
                self.decided_paths += 1
                if e.nchecks:
                    self.reached += 1
                self.witness(e)
            elif status in ('exception', 'unsupported', 'undecided'):
                self.abnormal(e, status, detail)
            if self.violations and len(self.violations) >= 2:
                break
        core.CTX = None
        self.wall = time.time() - t0
        return self

    # ---- deciding
    def model_values(self, e, m):
        vals = {}
        for n, v in e.inputs.items():
            x = m.eval(v, model_completion=True)
            if z3.is_true(x) or z3.is_false(x):
                vals[n] = z3.is_true(x)
            elif z3.is_int_value(x):
                vals[n] = x.as_long()
            elif z3.is_rational_value(x):
                vals[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            elif z3.is_algebraic_value(x):
                a = x.approx(20)
                vals[n] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        return vals

    def query(self, cs, timeout=None):
        ctx = self.ctx
        ctx.stats.queries += 1
        ctx.solver.set('timeout', 3000)
        r = ctx._time(lambda: ctx.solver.check(*cs))
        m = ctx.solver.model() if r == z3.sat else None
        ctx.solver.set('timeout', ctx.branch_timeout)
        if r == z3.unknown:
            r, m = ctx.hard_check([*ctx.pc, *cs], timeout or ctx.check_timeout)
        k = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
        setattr(ctx.stats, k, getattr(ctx.stats, k) + 1)
        return r, m

    def sym_check(self, e, terms, label):
        ctx = self.ctx
        ctx.stats.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        neg = [core.simp(z3.Not(t)) for t in terms]
        neg = [n for n in neg if not z3.is_false(n)]
        if not neg:
            ctx.stats.discharged += 1
            ctx.stats.queries += 1
            ctx.stats.unsat += 1
            return
        seen, uniq = set(), []
        for n in neg:
            if n.get_id() not in seen:
                seen.add(n.get_id())
                uniq.append(n)
        neg = uniq
        if len(neg) > 1:
            ctx.stats.queries += 1
            ctx.solver.set('timeout', 3000)
            r = ctx._time(lambda: ctx.solver.check(z3.Or(*neg)))
            ctx.solver.set('timeout', ctx.branch_timeout)
            if r == z3.unsat:
                ctx.stats.unsat += 1
                ctx.stats.discharged += 1
                return
        for n in neg:
            ctx.check_deadline()
            self.decide(e, n, label)
        ctx.stats.discharged += 1

    def decide(self, e, n, label):
        """n: negation of the assertion. Returns when proved; raises Failed / Undecided otherwise"""
        ctx = self.ctx
        extra = []
        for attempt in range(6):
            r, m = self.query([n, *extra])
            if r == z3.unsat:
                if attempt and not self._only_lemmas(extra):
                    break  # the extra constraints narrowed the space: not a proof
                return
            if r == z3.unknown:
                break
            vals = self.model_values(e, m)
            ce, exc = self.run_conc(vals)
            if ce is not None and ce.failures:
                self.violations.append({'label': ce.failures[0], 'symbolic_label': label, 'inputs': ce.used,
                                        'failures': ce.failures[:5]})
                raise Failed()
            # spurious: sharpen transcendental functions at the model's points
            lem = self.refine(m)
            if lem:
                extra = extra + lem
                continue
            break
        if e.soft:
            r, m = self.query([n, *e.soft], timeout=5000)
            if r == z3.sat and self.replayed(m, e, label):
                raise Failed()
        # nicer models: inputs on a dyadic grid (equalities survive the conversion to floats)
        for den in (4, 64):
            grid = []
            for name, v in e.inputs.items():
                if v.sort() == z3.RealSort():
                    grid.append(z3.IsInt(v * den))
            r, m = self.query([n, *extra, *grid], timeout=5000)
            if r == z3.sat:
                vals = self.model_values(e, m)
                ce, exc = self.run_conc(vals)
                if ce is not None and ce.failures:
                    self.violations.append({'label': ce.failures[0], 'symbolic_label': label, 'inputs': ce.used,
                                            'failures': ce.failures[:5]})
                    raise Failed()
        self.undecided.append(f"{label}: counterexample not reproduced or query not decided")
        raise Undecided(f"{label}")

    def replayed(self, m, e, label):
        vals = self.model_values(e, m)
        ce, exc = self.run_conc(vals)
        if ce is not None and ce.failures:
            self.violations.append({'label': ce.failures[0], 'symbolic_label': label, 'inputs': ce.used, 'failures': ce.failures[:5]})
            return True
        return False

    @staticmethod
    def _only_lemmas(extra):
        return True  # `extra` only ever holds true facts about transcendental functions (see refine)

    def refine(self, m):
        """true facts about exp/tanh/... at the points the model used"""
        ctx = self.ctx
        out = []
        for v, kind, t in ctx.defs:
            if kind == 'cut' and ('cut', v.get_id()) not in ctx.nopc:
                ctx.nopc.add(('cut', v.get_id()))
                out.append(v == t)
            if kind not in core.TR:
                continue
            x = m.eval(t, model_completion=True)
            y = m.eval(v, model_completion=True)
            try:
                xf = Fraction(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else \
                    Fraction(x.approx(20).numerator_as_long(), x.approx(20).denominator_as_long())
                yf = Fraction(y.numerator_as_long(), y.denominator_as_long()) if z3.is_rational_value(y) else \
                    Fraction(y.approx(20).numerator_as_long(), y.approx(20).denominator_as_long())
            except Exception:  # noqa: BLE001
                continue
            xf = Fraction(float(xf))
            info = core.TR[kind]
            true = info.num(float(xf))
            if not math.isfinite(true):
                continue
            if abs(float(yf) - true) <= 1e-12 * max(1e-300, abs(true)):
                continue
            pts = ctx.point_lemmas.setdefault(kind, set())
            if xf in pts:
                continue
            pts.add(xf)
            eps = abs(Fraction(true)) * Fraction(1, 10 ** 13) + Fraction(1, 10 ** 300)
            lo, hi = core.rv(Fraction(true) - eps), core.rv(Fraction(true) + eps)
            xt = core.rv(xf)
            if info.mono == 1:
                out += [z3.Implies(t <= xt, v <= hi), z3.Implies(t >= xt, v >= lo)]
            elif info.mono == -1:
                out += [z3.Implies(t <= xt, v >= lo), z3.Implies(t >= xt, v <= hi)]
            else:
                # |f(x) - f(y)| <= |x - y| for sin, cos; otherwise equality only
                if kind in ('sin', 'cos'):
                    d = z3.If(t >= xt, t - xt, xt - t)
                    out += [v <= hi + d, v >= lo - d]
                else:
                    out.append(z3.Implies(t == xt, z3.And(v >= lo, v <= hi)))
            if kind == 'exp':
                out.append(v >= lo * (1 + t - xt))      # tangent below the convex function
        for c in out:
            ctx.add(c)
        return out

    # ---- witnesses
    def witness(self, e):
        ctx = self.ctx
        if self.witness_ok + self.witness_skipped >= self.sc.witnesses:
            return
        if ctx.deadline and time.time() > ctx.deadline - 5:
            return
        first, block, inner = None, [], 0
        for attempt in range(3):
            r, m = None, None
            if e.soft:
                r, m = self.query([*e.soft, *block], timeout=3000)
            if r != z3.sat:
                r, m = self.query(block, timeout=5000)
            if r == z3.unsat and not block:
                # can only happen when a branch was explored on an unknown feasibility
                ctx.stats.infeasible += 1
                return
            if r != z3.sat:
                break
            inner += bool(block)
            bad = self.witness_one(e, m)
            if not bad:
                return
            first = first or bad
            # a model on the boundary of a comparison may take the other branch in floating point: try inner models
            block = self.interior(e, attempt)
            if not block:
                inner = 1
                break
        if first and inner:       # a path without interior only exists on a rounding boundary
            self.mismatch.append(first)
        else:
            self.witness_skipped += 1

    def interior(self, e, attempt):
        """constraints keeping a model away from the boundaries of the comparisons on the path"""
        out = []

        def coef(t):
            """largest factor of a variable in a (linear) term"""
            if z3.is_add(t) or z3.is_sub(t):
                return max(coef(c) for c in t.children())
            if z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
                return abs(t.arg(0).as_fraction())
            return 0

        def walk(t, pos):
            """t (pos) or not t, with its comparisons tightened; None: nothing to tighten"""
            if z3.is_not(t):
                return walk(t.arg(0), not pos)
            if z3.is_and(t) or z3.is_or(t):
                cs = [(c, walk(c, pos)) for c in t.children()]
                if all(n is None for _, n in cs):
                    return None
                cs = [n if n is not None else c if pos else z3.Not(c) for c, n in cs]
                return z3.And(cs) if z3.is_and(t) == pos else z3.Or(cs)
            if z3.is_le(t) or z3.is_lt(t) or z3.is_ge(t) or z3.is_gt(t):
                a, b = t.children()
                if a.sort() != z3.RealSort() or b.sort() != z3.RealSort():
                    return None
                up = (z3.is_le(t) or z3.is_lt(t)) == pos          # a below b
                ep = core.rv(Fraction(1, 10 ** 6 if attempt == 0 else 10 ** 9) * max(coef(a), coef(b), 1))
                return a + ep <= b if up else a >= b + ep
            return None
        for c in self.ctx.pc:
            if c.get_id() not in self.ctx.nopc:
                n = walk(c, True)
                if n is not None:
                    out.append(n)
        return out

    def witness_one(self, e, m):
        """run one model of the path on the real code; a description of the difference, if any"""
        ctx = self.ctx
        vals = self.model_values(e, m)
        ce, exc = self.run_conc(vals)
        if ce is None:
            self.witness_skipped += 1
            return
        if ce.failures:
            self.violations.append({'label': ce.failures[0], 'symbolic_label': 'witness of a path', 'inputs': ce.used,
                                    'failures': ce.failures[:5]})
            return
        # does the concrete run follow the same path?
        try:
            ev = ctx.evaluator(vals)
            if not all(ev(c) for c in ctx.pc if c.get_id() not in ctx.nopc):
                self.witness_skipped += 1
                return
        except (KeyError, ZeroDivisionError, OverflowError, Unsupported, ValueError):
            self.witness_skipped += 1
            return
        bad = None
        if e.soft and set(ce.used) != set(e.inputs):
            self.witness_skipped += 1        # stub arguments coincide: a stub value was shared
            return
        if len(ce.obs) != len(e.obs):
            bad = f"{len(e.obs)} symbolic and {len(ce.obs)} concrete observations"
        else:
            for (n1, s), (n2, c) in zip(e.obs, ce.obs):
                if n1 != n2 or len(s) != len(c):
                    bad = f"observation {n1}/{n2}: sizes {len(s)}/{len(c)}"
                    break
                for x, y in zip(s, c):
                    try:
                        xv = ev(x.t) if is_sym(x) else x
                    except (KeyError, ZeroDivisionError, OverflowError):
                        continue
                    if xv is None or y is None or isinstance(xv, str):
                        if xv is not y and xv != y:
                            bad = f"observation {n1}: {xv!r} != {y!r}"
                        continue
                    if isinstance(xv, bool) or isinstance(y, bool):
                        if bool(xv) != bool(y):
                            bad = f"observation {n1}: {xv!r} != {y!r}"
                    else:
                        xv, y = float(xv), float(y)
                        if not (xv == y or (math.isnan(xv) and math.isnan(y)) or
                                abs(xv - y) <= 1e-7 * max(1.0, abs(xv), abs(y))):
                            bad = f"observation {n1}: {xv!r} != {y!r}"
        if bad:
            return {'what': bad, 'inputs': ce.used}
        self.witness_ok += 1
        if len(self.samples) < 2:
            self.samples.append({'scenario': self.sc.name, 'path_length': len(ctx.trace),
                                 'inputs': {k: ce.used[k] for k in list(ce.used)[:12]}})
        return None

    def abnormal(self, e, status, detail):
        """a path that ended in an exception or could not be encoded: replay models of its path condition"""
        ctx = self.ctx
        key = f"{status}: {detail}"
        self.aborted[key] = self.aborted.get(key, 0) + 1
        tries = 3 if self.aborted[key] <= 4 else 1
        block = []
        for k in range(tries):
            r, m = self.query(block, timeout=4000)
            if r != z3.sat:
                if r == z3.unsat and k == 0:
                    return
                break
            vals = self.model_values(e, m)
            ce, exc = self.run_conc(vals)
            if ce is not None and ce.failures:
                self.violations.append({'label': ce.failures[0], 'symbolic_label': f'{status} on the path', 'inputs': ce.used,
                                        'failures': ce.failures[:5]})
                return
            reals = [v for v in e.inputs.values() if v.sort() == z3.RealSort()]
            if not reals:
                break
            v = reals[k % len(reals)]
            x = m.eval(v, model_completion=True)
            block.append(z3.Or(v > x + 1, v < x - 1) if k == 0 else v != x)
        self.undecided.append(key if self.aborted[key] == 1 else '')
        self.undecided = [u for u in self.undecided if u]


class ConcretePatches:
    """replay-time stand-ins: only randomness and the stubs a scenario asks for in both modes"""

    def __init__(self, foreign, rnd, np_over=None):
        self.foreign, self.rnd, self.saved = foreign, rnd, []
        self.np_over = {k: functools.partial(f, getattr(np, k)) for k, f in (np_over or {}).items()}

    def __enter__(self):
        import sys
        if not self.foreign and self.rnd is None:
            return self
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == 'simcats' or name.startswith('simcats.')):
                continue
            g = mod.__dict__
            ch = {}
            for k, v in list(g.items()):
                if k.startswith('__'):
                    continue
                for real, rep in self.foreign:
                    if v is real:
                        ch[k] = rep
                    elif hasattr(v, '__dict__') and type(v).__name__ == 'module' and \
                            v.__name__.split('.')[0] not in ('simcats', 'numpy'):
                        nm = getattr(real, '__name__', None)
                        if nm and v.__dict__.get(nm) is real:
                            ch[k] = _AttrProxy(ch.get(k, v), {nm: rep})
                if self.rnd is not None:
                    if v is np:
                        ch[k] = _AttrProxy(np, {'random': self.rnd, **self.np_over})
                    elif v is np.random:
                        ch[k] = self.rnd
                    elif v is np.random.default_rng:
                        ch[k] = self.rnd.default_rng
            self.saved.append((g, {k: g[k] for k in ch}))
            g.update(ch)
        return self

    def __exit__(self, *a):
        for g, old in self.saved:
            g.update(old)
        self.saved = []


class _AttrProxy:
    def __init__(self, real, extra):
        self.__dict__['_real'], self.__dict__['_extra'] = real, extra

    def __getattr__(self, n):
        if n in self._extra:
            return self._extra[n]
        return getattr(self._real, n)
