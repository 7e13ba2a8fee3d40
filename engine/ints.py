"""Symbolic execution of integer code: Python runs the real function on symbolic integers (polynomials over integer variables),
branches are decided and forked with the solver, goals are decided per path.  Used for the multi-index combinatorics."""
import math
import random
import time
import traceback
from fractions import Fraction
import numpy as np
from .alg import Unsupported, Infeasible, Budget
from . import core

_CUR = [None]


def _norm(p):
    return {m: c for m, c in p.items() if c}


class SInt:
    """Integer-valued polynomial {sorted tuple of variable names: Fraction}."""
    __slots__ = ('p',)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    @staticmethod
    def of(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, (bool, np.bool_)):
            return SInt({(): Fraction(int(x))} if x else {})
        if isinstance(x, (int, np.integer)):
            return SInt({(): Fraction(int(x))} if x else {})
        if isinstance(x, Fraction):
            return SInt({(): x} if x else {})
        if isinstance(x, (float, np.floating)) and float(x).is_integer():
            return SInt.of(int(x))
        if isinstance(x, np.ndarray) and x.shape == ():
            return SInt.of(x[()])
        return None

    def const(self):
        if not self.p:
            return 0
        if len(self.p) == 1 and () in self.p:
            v = self.p[()]
            return int(v) if v.denominator == 1 else v
        return None

    def __add__(self, o):
        o = SInt.of(o)
        if o is None:
            return NotImplemented
        r = dict(self.p)
        for m, c in o.p.items():
            r[m] = r.get(m, 0) + c
        return SInt(_norm(r))
    __radd__ = __add__

    def __neg__(self):
        return SInt({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = SInt.of(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = SInt.of(o)
        if o is None:
            return NotImplemented
        r = {}
        for m, c in self.p.items():
            for n, k in o.p.items():
                t = tuple(sorted(m + n))
                r[t] = r.get(t, 0) + c * k
        return SInt(_norm(r))
    __rmul__ = __mul__

    def __pow__(self, k):
        k = int(k)
        r = SInt.of(1)
        for _ in range(k):
            r = r * self
        return r

    def scaled(self, q):
        return SInt({m: c * q for m, c in self.p.items()})

    def __floordiv__(self, o):
        return self.divmod(o)[0]

    def __mod__(self, o):
        return self.divmod(o)[1]

    def __truediv__(self, o):
        q, r = self.divmod(o)
        if r == 0:
            return q
        raise Unsupported('non-integer quotient')

    def __rfloordiv__(self, o):
        return SInt.of(o).divmod(self)[0]

    def __rmod__(self, o):
        return SInt.of(o).divmod(self)[1]

    def divmod(self, o):
        o = SInt.of(o)
        k = o.const() if o is not None else None
        if k is None:
            k = int(o)
        c = self.const()
        if c is not None:
            return SInt.of(c // k), SInt.of(c % k)
        x = _CUR[0]
        q, r = x.fresh('q'), x.fresh('r')
        x.assert_(f'(= {txt(self - q * k - r)} 0)')
        x.assert_(f'(and (>= {txt(r)} 0) (< {txt(r)} {abs(k)}))')
        return q, r

    def _cmp(self, o, op):
        o = SInt.of(o)
        if o is None:
            return NotImplemented
        d = self - o
        c = d.const()
        if c is not None:
            return {'=': c == 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
        return SBool(f'({op} {txt(d)} 0)')

    def __eq__(self, o):
        return self._cmp(o, '=')

    def __ne__(self, o):
        r = self._cmp(o, '=')
        return r if r is NotImplemented else (not r if isinstance(r, bool) else SBool(f'(not {r.t})'))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        return hash(tuple(sorted(self.p.items())))

    def __index__(self):
        c = self.const()
        if c is not None:
            return c
        return _CUR[0].concretise(self)
    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def copy(self):
        return self

    def __repr__(self):
        return txt(self)


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return _CUR[0].decide(self.t)

    def __and__(self, o):
        return bool(self) and bool(o)
    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)
    __ror__ = __or__

    def __invert__(self):
        return SBool(f'(not {self.t})')


def txt(s):
    """SMT text of the polynomial times its common denominator (used only in comparisons with zero)."""
    den = 1
    for c in s.p.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    ts = []
    for m, c in s.p.items():
        v = int(c * den)
        v = str(v) if v >= 0 else f'(- {-v})'
        ts.append(v if not m else f'(* {v} ' + ' '.join(m) + ')')
    return '0' if not ts else (ts[0] if len(ts) == 1 else '(+ ' + ' '.join(ts) + ')')


_comb = math.comb


def comb(n, k):
    if not isinstance(n, SInt) and not isinstance(k, SInt):
        return _comb(n, k)
    n, k = SInt.of(n), SInt.of(k)
    if n < 0:
        raise ValueError('n must be a non-negative integer')
    if k < 0:
        raise ValueError('k must be a non-negative integer')
    c = (n - k).const()
    if c is None and k.const() is not None:
        kk = k.const()
        if k > n:
            return 0
        c, k = kk, n - kk
    elif c is None:
        return _comb(int(n), int(k))
    if c < 0:
        return 0
    r = SInt.of(1)
    for i in range(1, c + 1):
        r = r * (k + i)
    return r.scaled(Fraction(1, math.factorial(c)))


class IntAPI:
    symbolic = True

    def __init__(self, solver, prefix, tier, deadline):
        self.solver, self.prefix, self.tier, self.deadline = solver, prefix, tier, deadline
        self.decls, self.asserts, self.pc, self.alts, self.pos = [], [], [], [], 0
        self.goals, self.functions, self.bounds = [], set(), {}
        self.n = 0
        self.named = {}

    # inputs
    def int(self, name, lo=None, hi=None):
        v = SInt({(name,): Fraction(1)})
        if name not in self.decls:
            self.decls.append(name)
            if lo is not None:
                self.assert_(f'(>= {name} {txt(SInt.of(lo))})')
            if hi is not None:
                self.assert_(f'(<= {name} {txt(SInt.of(hi))})')
            self.bounds[name] = (lo, hi)
        return v

    def fresh(self, p):
        self.n += 1
        nm = f'{p}!{self.n}'
        self.decls.append(nm)
        return SInt({(nm,): Fraction(1)})

    def assert_(self, t):
        self.asserts.append(t)

    def assume(self, rel, v):
        c = v.const() if isinstance(v, SInt) else v
        if c is not None:
            if not {'=': c == 0, '>=': c >= 0, '>': c > 0, '!=': c != 0}[rel]:
                raise Infeasible()
            return
        t = txt(v)
        self.assert_(f'(not (= {t} 0))' if rel == '!=' else f'({rel} {t} 0)')

    def check(self, *extra, want=None):
        if time.time() > self.deadline:
            raise Budget('case time budget')
        return self.solver.check([(d, 'Int') for d in self.decls], self.asserts + self.pc + list(extra), logic='QF_NIA', want=want)

    def decide(self, t):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            a = self.check(t)[0]
            b = self.check(f'(not {t})')[0]
            if a == 'unsat' and b == 'unsat':
                raise Infeasible()
            if 'unknown' in (a, b):
                raise Unsupported('undecided integer branch')
            v = a == 'sat'
            if a == 'sat' and b == 'sat':
                self.alts.append(self.prefix[:self.pos] + [False])
        self.prefix = self.prefix[:self.pos] + [v] if self.pos >= len(self.prefix) else self.prefix
        self.pos += 1
        self.pc.append(t if v else f'(not {t})')
        return v

    def concretise(self, s):
        """Fork over the feasible values (complete for bounded inputs)."""
        for m in s.p:
            for nm in m:
                lo, hi = self.bounds.get(nm, (None, None))
                if lo is None or hi is None:
                    raise Unsupported('unbounded integer used as a concrete number')
        for _ in range(400):
            if self.pos < len(self.prefix) and isinstance(self.prefix[self.pos], tuple):
                k = self.prefix[self.pos][1]
            else:
                st, model = self.check(want=list(self.decls))
                if st != 'sat':
                    raise Infeasible() if st == 'unsat' else Unsupported('undecided integer value')
                k = Fraction(0)
                for m, c in s.p.items():
                    t = c
                    for nm in m:
                        t = t * Fraction(model[nm])
                    k += t
                k = int(k)
                self.prefix = self.prefix[:self.pos] + [('value', k)]
            self.pos += 1
            r = s == k
            if r is True or (r is not False and bool(r)):
                return k
        raise Unsupported('too many values')

    # code
    def run(self, fn, *args, **kw):
        f = getattr(fn, 'pyfunc', fn)
        if (getattr(f, '__module__', '') or '').startswith('mfs'):
            self.functions.add(f.__module__ + '.' + f.__qualname__)
        math.comb = comb
        old, _CUR[0] = _CUR[0], self
        try:
            return fn(*args, **kw)
        finally:
            math.comb = _comb
            _CUR[0] = old

    def note(self, *names):
        self.functions.update(names)

    def select(self, table, r, col=None):
        """table[r] for a symbolic index (its range is a goal of its own)."""
        r = SInt.of(r)
        if r.const() is not None:
            k = int(r.const())
            if not 0 <= k < len(table):
                return SInt.of(-1)
            return SInt.of(int(table[k] if col is None else table[k][col]))
        key = tuple(sorted(r.p.items()))
        if key not in self.named:
            self.named[key] = self.fresh('r')
            self.assert_(f'(= {txt(r - self.named[key])} 0)')
        r = self.named[key]
        v = self.fresh('t')
        for k in range(len(table)):
            x = int(table[k] if col is None else table[k][col])
            self.assert_(f'(=> (= {txt(r)} {k}) (= {txt(v)} {x}))' if x >= 0 else f'(=> (= {txt(r)} {k}) (= {txt(v)} (- {-x})))')
        return v

    def eq(self, name, lhs, rhs, tol=None):
        ls, rs = (lhs, rhs) if isinstance(lhs, (list, tuple)) else ([lhs], [rhs])
        for i, (l, r) in enumerate(zip(ls, rs)):
            self.goals.append((name, '=', SInt.of(l) - SInt.of(r)))

    def holds(self, name, rel, v):
        self.goals.append((name, rel, SInt.of(v)))

    def true(self, name, cond):
        self.goals.append((name, 'bool', bool(cond)))

    def q(self, a, b=1):
        return Fraction(a, b)

    def scale(self, v, q):
        return SInt.of(v).scaled(q)


def run_int_case(case, solver, tier, seed):
    res = core.Result(case)
    t0 = time.time()
    deadline = t0 + case.budget
    q0, s0, r0 = solver.queries, solver.time, dict(solver.results)
    rng = random.Random(f'{seed}:{case.name}')
    stack = [[]]
    try:
        while stack and not res.violations:
            if res.stats['paths'] >= case.max_paths:
                res.incon('path budget exhausted')
                break
            api = IntAPI(solver, stack.pop(), tier, deadline)
            _CUR[0] = api
            try:
                case.fn(api, **case.params)
            except Infeasible:
                stack += api.alts
                continue
            finally:
                res.functions |= api.functions
            stack += api.alts
            st, model = api.check(want=list(api.decls) or None)
            if st == 'unsat':
                continue
            res.stats['paths'] += 1
            if st == 'sat':
                res.stats['vacuity'] += 1
            envs = [model or {}] if st == 'sat' else []
            pend = []
            for name, rel, v in api.goals:
                res.stats['goals'] += 1
                res.stats['components'] += 1
                if rel == 'bool':
                    if not v:
                        pend.append(name)
                    continue
                t = f'(not ({rel} {txt(v)} 0))' if rel != '!=' else f'(= {txt(v)} 0)'
                g, m = api.check(t, want=list(api.decls) or None)
                if g == 'sat':
                    envs.insert(0, m or {})
                    pend.append(name)
                elif g != 'unsat':
                    res.incon('undecided: ' + name)
            if pend or res.stats['paths'] <= 3:
                # witness / counterexample on the real code
                for env in envs[:4]:
                    env = {k: int(v) for k, v in env.items() if '!' not in k}
                    napi, fails = core.replay_point(case, env, None, tier)
                    if fails:
                        core.record_violation(res, case, env, None, fails, 'solver model')
                        break
                else:
                    if pend:
                        res.incon('not discharged and no replayable counterexample: ' + ', '.join(pend[:5]))
                    else:
                        res.stats['validated'] += 1
        if not res.stats['paths'] and not res.violations:
            res.incon('no feasible path')
    except Unsupported as e:
        res.incon(f'unsupported: {e}')
    except Budget as e:
        res.incon(f'budget: {e}')
    except Exception as e:
        res.incon(f'{type(e).__name__}: {str(e)[:300]}')
        res.trace = traceback.format_exc()
    finally:
        _CUR[0] = None
    if res.status != 'proved' and not res.violations:
        core.fallback(res, case, rng, tier)
    res.stats['queries'] = solver.queries - q0
    res.stats['solver_s'] = solver.time - s0
    for k in ('sat', 'unsat', 'unknown'):
        res.stats[k] = solver.results[k] - r0[k]
    res.wall = time.time() - t0
    if res.violations:
        res.status = 'violation'
    return res
