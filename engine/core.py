"""Cases, goals, deciding, replay."""
import json
import math
import os
import random
import time
import traceback
from fractions import Fraction
import numpy as np
import mpmath
from . import alg, smt, jx
from .alg import Rat, Cx, Ctx, Pred, Unsupported, Infeasible, Budget, ZERO, ONE, BITS, FM, mono_fields
from .jx import obj, elementwise, to_obj, NAN, is_sym
import jax
import jax.numpy as jnp

mpmath.mp.dps = 40


# ------------------------------------------------------------------ default interpretation of callbacks

def uf_coeffs(name, n):
    r = random.Random('uf:' + name)
    return [r.choice([-1, 1]) * r.uniform(0.4, 1.1) for _ in range(n)], r.uniform(-1, 1)


def uf_num(name, xs, deriv=None, pos=False, xp=math):
    a, b = uf_coeffs(name, len(xs))
    t = b
    for ai, x in zip(a, xs):
        t = t + ai * x
    k = sum(deriv) if deriv else 0
    amp = 0.7
    if deriv:
        for ai, d in zip(a, deriv):
            amp *= ai ** d
    v = amp * xp.sin(t + k * math.pi / 2)
    if pos and not k:
        v = v + 1.1
    return v


# ------------------------------------------------------------------ numeric evaluation of symbolic values

class NumEval:
    def __init__(self, c, env):
        self.c, self.env, self.cache = c, env, {}
        self.eigc = {}

    def gen(self, i):
        v = self.cache.get(i)
        if v is None:
            v = self._gen(self.c.gens[i])
            self.cache[i] = v
        return v

    def _gen(self, g):
        if g.kind == 'var':
            return mpmath.mpf(self.env[g.name]) if not isinstance(self.env[g.name], Fraction) else \
                mpmath.mpf(self.env[g.name].numerator) / self.env[g.name].denominator
        if g.kind == 'const':
            return mpmath.pi
        if g.kind == 'def':
            return self.rat(g.data)
        if g.kind == 'sqrt':
            v = self.poly(g.data)
            if v < 0:
                if v > -1e-25:
                    return mpmath.mpf(0)
                raise ValueError('sqrt of negative')
            return mpmath.sqrt(v)
        if g.kind == 'eig':
            e = g.data[0]
            if e.idx not in self.eigc:
                M = mpmath.matrix(e.n, e.n)
                for i in range(e.n):
                    for j in range(e.n):
                        M[i, j] = self.rat(e.B[i, j])
                E, Q = mpmath.eigsy(M)
                self.eigc[e.idx] = (E, Q)
            E, Q = self.eigc[e.idx]
            return E[g.data[2]] if g.data[1] == 'lam' else Q[g.data[2], g.data[3]]
        name, args, data = g.data
        if g.name in self.env:
            return mpmath.mpf(self.env[g.name])
        xs = [self.rat(a) for a in args]
        if g.kind == 'uf':
            base = name.split("'")[0]
            fn = self.c.uf_numeric.get(base)
            if fn is not None:
                if any(data or ()):
                    raise Unsupported('derivative of a numeric callback')
                return mpmath.mpf(float(fn(*[float(x) for x in xs]))) * self.env.get('scale~' + base, 1.)
            return uf_num(base, xs, data, g.pos, mpmath) * self.env.get('scale~' + base, 1.)
        f = {'exp': mpmath.exp, 'log': mpmath.log, 'sin': mpmath.sin, 'cos': mpmath.cos, 'erf': mpmath.erf,
             'lgamma': mpmath.loggamma, 'tan': mpmath.tan, 'sinh': mpmath.sinh, 'cosh': mpmath.cosh,
             'atan': mpmath.atan, 'atan2': mpmath.atan2, 'erfc': mpmath.erfc}.get(name)
        if f is None:
            raise Unsupported(f'numeric {name}')
        r = f(*xs)
        if isinstance(r, mpmath.mpc):
            raise ValueError('complex')
        return r

    def margin(self, p):
        """(value, 1e-9 of the size of its terms)"""
        v, a = self.poly(p), mpmath.mpf(0)
        for m, c in p.items():
            a += abs(self.poly({m: c}))
        return v, min(mpmath.mpf(1e-9), a * mpmath.mpf(1e-9))

    def poly(self, p):
        s = mpmath.mpf(0)
        for m, c in p.items():
            t = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
            for i, e in mono_fields(m):
                t *= self.gen(i) ** e
            s += t
        return s

    def rat(self, r):
        n = self.poly(r.num)
        if r.mono or r.den:
            d = self.poly({r.mono: 1})
            for f, e in r.den.items():
                d *= self.poly(self.c.factors[f]) ** e
            if d == 0:
                raise ZeroDivisionError
            n = n / d
        return n

    def val(self, x):
        if isinstance(x, Rat):
            return float(self.rat(x))
        if isinstance(x, Cx):
            return complex(float(self.rat(x.re)), float(self.rat(x.im)))
        if x is jx.INF:
            return math.inf
        if x is jx.NINF:
            return -math.inf
        if x is NAN:
            return math.nan
        if isinstance(x, Pred):
            v = self.rat(x.val)
            return {'>': v > 0, '>=': v >= 0, '=': v == 0, '!=': v != 0}[x.rel]
        return float(x)

    def arr(self, a):
        a = np.asarray(a, dtype=object)
        items = [a[()]] if a.shape == () else list(a.reshape(-1))
        return np.array([self.val(x) for x in items]).reshape(a.shape)


# ------------------------------------------------------------------ APIs seen by the property cases

class Goal:
    __slots__ = ('name', 'kind', 'lhs', 'rhs', 'rel', 'tol')

    def __init__(self, name, kind, lhs, rhs=None, rel=None, tol=None):
        self.name, self.kind, self.lhs, self.rhs, self.rel, self.tol = name, kind, lhs, rhs, rel, tol


def thin_coeffs(thin, name, pos, nonneg, nonzero, lo, hi):
    """An input of a parametrised family: a + b t_k, t_k in [0, 1], with fixed rational a, b that respect its range."""
    k, share = thin
    r = random.Random('thin:' + name)
    q = lambda u, v: Fraction(r.randint(u, v), 16)
    i = r.randrange(k)
    if lo is not None and hi is not None:
        w = (Fraction(hi) - Fraction(lo)) * Fraction(share)
        return i, Fraction(lo) + w * q(3, 8), w * q(2, 7)
    if pos or nonneg or lo is not None:
        return i, Fraction(lo or 0) + q(8, 28), q(3, 20)
    if hi is not None:
        return i, Fraction(hi) - q(8, 28), -q(3, 20)
    a, b, sg = q(5, 26), q(3, 16), r.choice([1, -1])
    return i, sg * a, (sg if nonzero else r.choice([1, -1])) * b


class SymAPI:
    symbolic = True
    thin = None

    def __init__(self, c, tier, solver):
        self.c, self.tier, self.solver = c, tier, solver
        self.goals = []
        self.functions = set()
        c.uf_values = {}
        c.uf_numeric = {}
        c.cuts = {}
        c.uf_table = []

    # inputs
    def real(self, name, pos=False, nonneg=False, nonzero=False, lo=None, hi=None):
        if self.thin:
            i, a, b = thin_coeffs(self.thin, name, pos, nonneg, nonzero, lo, hi)
            return self.c.var(f't~{i}', lo=0, hi=1, nonneg=True) * b + a
        return self.c.var(name, pos=pos, nonneg=nonneg, nonzero=nonzero, lo=lo, hi=hi)

    def reals(self, name, *shape, **kw):
        n = int(np.prod(shape, dtype=int))
        return obj(shape, [self.real(f'{name}_{i}', **kw) for i in range(n)])

    def const(self, x):
        return to_obj(np.asarray(x)) if not np.isscalar(x) else Rat.of(x)

    def assume(self, rel, v):
        alg.assume(rel, v)

    def decide(self, rel, v):
        return alg.decide(rel, v)

    # running the code
    def run(self, fn, *args, **kw):
        f = fn
        while hasattr(f, 'func'):
            f = f.func
        mod = getattr(f, '__module__', '') or ''
        if mod.startswith('mfs'):
            self.functions.add(mod + '.' + getattr(f, '__qualname__', str(f)))
        return jx.trace_and_run(fn, args, kw)

    def eager(self, fn, *args, **kw):
        """Functions that are not traceable as a whole: executed by Python on symbolic scalars."""
        f = getattr(fn, '__func__', fn)
        self.functions.add((getattr(f, '__module__', '') or '') + '.' + getattr(f, '__qualname__', str(f)))
        return jx.run_eager(fn, args, kw)

    eager_np = eager

    def eager_alloc(self, fn, *args, **kw):
        """As eager; numpy allocations of the code can hold symbolic values."""
        f = getattr(fn, '__func__', fn)
        self.functions.add((getattr(f, '__module__', '') or '') + '.' + getattr(f, '__qualname__', str(f)))
        return jx.run_eager(fn, args, kw, alloc=True)

    def note(self, *names):
        self.functions.update(names)

    # callbacks
    def uf(self, name, pos=False, value=None, numeric=None):
        if numeric is not None:
            self.c.uf_numeric[name] = numeric
        if value is not None:
            def h(*xs, value=value):
                r = value(*xs)
                if r is not None:
                    r = Rat.of(r)
                    self.c.uf_table.append((name, [Rat.of(x) for x in xs], r))
                return r
            self.c.uf_values[name] = h
        fl = 'p' if pos else ''
        return lambda *xs: jx.uf_call(name, xs, fl)

    def ufv(self, name, *xs, pos=False):
        h = self.c.uf_values.get(name)
        xs = [Rat.of(x) for x in xs]
        if h is not None:
            r = h(*xs)
            if r is not None:
                return r
        return alg.opaque(name, xs, pos=pos, kind='uf', data=(0,) * len(xs))

    def ufd(self, name, deriv, *xs):
        """Partial derivative of an uninterpreted callback (specification side)."""
        nm = name + ''.join(f"'{d}" for d in deriv)
        return alg.opaque(nm, [Rat.of(x) for x in xs], kind='uf', data=tuple(deriv))

    def raises(self, name, exc, fn):
        """The call is rejected with the given error (no symbolic value involved)."""
        self.goals.append(Goal(name, 'bool', _raises(exc, fn)))

    def rand_symbolic(self):
        self.c.rand_symbolic = True

    def uniform(self, key, shape=()):
        return self._draw('u', key, shape)

    def normal(self, key, shape=()):
        return self._draw('z', key, shape)

    def _draw(self, k, key, shape):
        key = np.asarray(key)
        if k == 'z':
            return obj(shape, jx.rand_symbols(self.c, 'normal', key, int(np.prod(shape, dtype=int))))
        return obj(shape, jx.rand_symbols(self.c, 'uniform', key, int(np.prod(shape, dtype=int))))

    def sample_scans(self):
        """Long scans are decided on their first, second and last step (from an arbitrary carry)."""
        self.c.scan_sample = True

    def draws(self):
        """[(kind, key, number of values)] of every draw the code made, in order."""
        return list(getattr(self.c, 'rand_draws', []))

    def sqrt(self, x):
        return _map(alg.sqrt, x)

    def log(self, x):
        return _map(alg.log, x)

    def exp(self, x):
        return _map(alg.exp, x)

    def sin(self, x):
        return _map(alg.sin, x)

    def cos(self, x):
        return _map(alg.cos, x)

    def lgamma(self, x):
        return alg.opaque('lgamma', [x if isinstance(x, Rat) else Rat.of(x)])

    def pi(self):
        return alg.pi()

    def cx(self, re, im):
        return Cx(re, im)

    def q(self, a, b=1):
        return Rat.of(Fraction(a, b))

    def eigh(self, K):
        """(lam, V) of a symmetric matrix given by spec."""
        return jx.eig_system(lift_arr(K))

    def chol(self, K):
        return jx.chol(lift_arr(K))

    def solve(self, A, B):
        return sym_solve(A, B)

    def cut(self, name, value, pos=False, nonzero=False):
        """Name a specified quantity: wherever the code computes exactly this value it is abbreviated by a fresh
        variable (sound generalisation: the equality is checked exactly at the point of replacement)."""
        if isinstance(value, np.ndarray):
            return obj(value.shape, [self.cut(f'{name}_{i}', v, pos, nonzero) for i, v in enumerate(value.reshape(-1))])
        value = Rat.of(value)
        if len(value.num) <= 1 and not value.den:
            return value
        for old, r in self.c.cuts.get(self.c.fp(value), ()):
            if (old - value).is_zero():
                return r
        g = self.c.gen(name, 'def', value, pos=pos, nonzero=nonzero)
        r = self.c.grat(g)
        self.c.cuts.setdefault(self.c.fp(value), []).append((value, r))
        return r

    def truncate(self, v, order):
        (m, _), = v.num.items()
        self.c.trunc[mono_fields(m)[0][0]] = order

    # goals
    def eq(self, name, lhs, rhs, tol=None):
        lhs, rhs = lift_arr(lhs), lift_arr(rhs)
        if lhs.shape != rhs.shape:
            self.goals.append(Goal(name + ':shape', 'shape', lhs.shape, rhs.shape))
            return
        self.goals.append(Goal(name, 'eq', lhs, rhs, tol=tol))

    def holds(self, name, rel, v):
        self.goals.append(Goal(name, 'rel', lift_arr(v), rel=rel))

    def true(self, name, cond):
        self.goals.append(Goal(name, 'bool', bool(cond)))

    def lemma(self, rel, v):
        """Auxiliary fact that has its own goal (proved separately), then used as an assumption."""
        self.holds('lemma', rel, v)

    def fact(self, rel, v):
        """A fact of real analysis about opaque functions (true at every point the assumptions allow)."""
        alg.assume(rel, v)


def uf_tables(c, env):
    """Values the point prescribes for uninterpreted callbacks: {name: [(arguments, value)]}."""
    ne, out = NumEval(c, env), {}
    for name, xs, r in c.uf_table:
        out.setdefault(name, []).append(([ne.val(x) for x in xs], ne.val(r)))
    for g in c.gens:
        if g.kind == 'uf' and g.name in env and g.data[0] == g.data[0].split("'")[0] and not any(g.data[2] or ()):
            out.setdefault(g.data[0], []).append(([ne.val(x) for x in g.data[1]], float(env[g.name])))
    return out


class NumAPI:
    """The same case executed on concrete floats by the unmodified code."""
    symbolic = False
    thin = None

    def __init__(self, env, c=None, tier='quick', seed=0):
        self.env, self.c, self.tier = env, c, tier
        self.goals = []
        self.tables = {}
        self.ufs = {}
        self.functions = set()
        self.bad = False
        self.rng = random.Random(seed)
        if c is not None:
            self.tables = uf_tables(c, env)

    def real(self, name, pos=False, nonneg=False, nonzero=False, lo=None, hi=None):
        if self.thin:
            i, a, b = thin_coeffs(self.thin, name, pos, nonneg, nonzero, lo, hi)
            return float(a) + float(b) * self._free(f't~{i}', lo=0, hi=1)
        return self._free(name, pos, nonneg, nonzero, lo, hi)

    def _free(self, name, pos=False, nonneg=False, nonzero=False, lo=None, hi=None):
        if name not in self.env:
            self.env[name] = sample(self.rng, pos, nonneg, lo, hi)
        return float(self.env[name])

    def reals(self, name, *shape, **kw):
        n = int(np.prod(shape, dtype=int))
        return np.array([self.real(f'{name}_{i}', **kw) for i in range(n)], dtype=float).reshape(shape)

    def int(self, name, lo=None, hi=None):
        if name not in self.env:
            lo = -3 if lo is None else lo
            self.env[name] = self.rng.randint(lo, lo + 6 if hi is None else hi)
        return int(self.env[name])

    def select(self, table, r, col=None):
        r = int(r)
        if not 0 <= r < len(table):
            return -1
        return int(table[r] if col is None else table[r][col])

    def scale(self, v, q):
        return v * q

    def const(self, x):
        return np.asarray(x, dtype=float) if not np.isscalar(x) else float(x)

    def assume(self, rel, v):
        v = float(v)
        if not {'>': v > 0, '>=': v >= 0, '=': abs(v) < 1e-12, '!=': v != 0}[rel]:
            self.bad = True

    def fact(self, rel, v):
        v = float(v)
        assert {'>': v > 0, '>=': v >= 0}[rel], 'analysis fact fails numerically'

    def decide(self, rel, v):
        v = float(v)
        return {'>': v > 0, '>=': v >= 0, '=': v == 0, '!=': v != 0}[rel]

    def run(self, fn, *args, **kw):
        args, kw = jax.tree_util.tree_map(lambda x: jnp.asarray(x) if isinstance(x, np.ndarray) and x.dtype.kind in 'fc'
                                          else x, (args, kw))
        r = fn(*args, **kw)
        return jax.tree_util.tree_map(lambda x: np.asarray(x) if isinstance(x, (jax.Array, np.generic, float, int))
                                      else x, r)

    def eager(self, fn, *args, **kw):
        return self.run(fn, *args, **kw)

    def eager_alloc(self, fn, *args, **kw):
        return self.eager_np(fn, *args, **kw)

    def eager_np(self, fn, *args, **kw):
        """numpy inputs stay numpy arrays."""
        r = fn(*args, **kw)
        return jax.tree_util.tree_map(lambda x: np.asarray(x) if isinstance(x, (jax.Array, np.generic, float, int))
                                      else x, r)

    def note(self, *names):
        pass

    def uf(self, name, pos=False, value=None, numeric=None):
        scale = self.env.get('scale~' + name, 1.)
        base = (lambda *xs: numeric(*xs) * scale) if numeric is not None else \
            (lambda *xs: uf_num(name, [jnp.asarray(x, dtype='float64') for x in xs], None, pos, jnp) * scale)
        self.ufs[name] = base
        tab = self.tables.get(name)
        if tab:
            keys = jnp.asarray([k for k, _ in tab])
            corr = jnp.asarray([v - float(base(*k)) for k, v in tab])

            def f(*xs):
                xs = jnp.broadcast_arrays(*[jnp.asarray(x, dtype='float64') for x in xs])
                pt = jnp.stack(xs, axis=-1)
                d = jnp.sum((pt[..., None, :] - keys) ** 2, axis=-1)
                i = jnp.argmin(d, axis=-1)
                return base(*xs) + corr[i] * jnp.maximum(0., 1. - 1e4 * jnp.min(d, axis=-1))
            self.ufs[name] = f
            return f
        return base

    def ufv(self, name, *xs, pos=False):
        f = self.ufs.get(name)
        if f is None:
            f = self.uf(name, pos)
        return float(f(*[float(x) for x in xs]))

    def ufd(self, name, deriv, *xs):
        return float(uf_num(name, [float(x) for x in xs], tuple(deriv), False))

    def raises(self, name, exc, fn):
        self.goals.append(Goal(name, 'bool', _raises(exc, fn)))

    def rand_symbolic(self):
        self.rand_log = []
        _activate(self)

    def uniform(self, key, shape=()):
        return self.draw('uniform', np.asarray(key), tuple(shape))

    def normal(self, key, shape=()):
        return self.draw('normal', np.asarray(key), tuple(shape))

    def draw(self, kind, key, shape):
        """The value of one draw: an input like any other, named by the key and the number of values."""
        n = int(np.prod(shape, dtype=int))
        tag = '_'.join(str(int(x)) for x in key.reshape(-1))
        if getattr(self, 'rand_free', False):
            r = np.random.default_rng([int(x) for x in key.reshape(-1)] + [n])
            return r.standard_normal(n).reshape(shape) if kind == 'normal' else r.random(n).reshape(shape)
        if kind == 'normal':
            vs = [self._free(f'z[{tag}|{n}]{i}') for i in range(n)]
        else:
            vs = [self._free(f'u[{tag}|{n}]{i}', nonneg=True, lo=0, hi=1) for i in range(n)]
        return np.array(vs, dtype=float).reshape(shape)

    def sample_scans(self):
        self.rand_free = True

    def draws(self):
        return list(self.rand_log)

    def sqrt(self, x):
        return np.sqrt(np.asarray(x, dtype=float))

    def log(self, x):
        return np.log(np.asarray(x, dtype=float))

    def exp(self, x):
        return np.exp(x)

    def sin(self, x):
        return np.sin(x)

    def cos(self, x):
        return np.cos(x)

    def lgamma(self, x):
        return math.lgamma(x)

    def pi(self):
        return math.pi

    def cx(self, re, im):
        return complex(re, im)

    def q(self, a, b=1):
        return a / b

    def eigh(self, K):
        w, v = np.linalg.eigh(np.asarray(K, dtype=float))
        return w, v

    def chol(self, K):
        try:
            return np.linalg.cholesky(np.asarray(K, dtype=float))
        except np.linalg.LinAlgError:
            self.bad = True                  # outside the assumptions of the case
            return np.full(np.shape(K), np.nan)

    def solve(self, A, B):
        return np.linalg.solve(np.asarray(A, dtype=float), np.asarray(B, dtype=float))

    def cut(self, name, value, pos=False, nonzero=False):
        return value

    def truncate(self, v, order):
        pass

    def eq(self, name, lhs, rhs, tol=None):
        lhs, rhs = np.asarray(lhs), np.asarray(rhs)
        if lhs.dtype == object:
            lhs = lhs.astype(complex if any(isinstance(x, complex) for x in lhs.reshape(-1)) else float)
        if rhs.dtype == object:
            rhs = rhs.astype(complex if any(isinstance(x, complex) for x in rhs.reshape(-1)) else float)
        if lhs.shape != rhs.shape:
            self.goals.append(Goal(name + ':shape', 'shape', lhs.shape, rhs.shape))
            return
        self.goals.append(Goal(name, 'eq', lhs, rhs, tol=tol))

    def holds(self, name, rel, v):
        self.goals.append(Goal(name, 'rel', np.asarray(v, dtype=float), rel=rel))

    def true(self, name, cond):
        self.goals.append(Goal(name, 'bool', bool(cond)))


_RAND = {'api': None, 'installed': False}


def _activate(api):
    """While a case with symbolic randomness runs on concrete numbers, jax.random's two base samplers return the case's
    input values instead of pseudo-random ones (the code under test is unchanged)."""
    import jax._src.random as R
    from jax.experimental import io_callback
    if not _RAND['installed']:
        _RAND['installed'] = True
        ou, on, onr = R._uniform, R._normal, R._normal_real

        def draw(kind, key, shape, dtype):
            shape = tuple(getattr(shape, 'positional', shape))
            kd = jax.random.key_data(key)

            def cb(k):
                k = np.asarray(k)
                a, out = _RAND['api'], []
                for one in k.reshape(-1, k.shape[-1]):
                    out.append(a.draw(kind, one, shape))
                    a.rand_log.append((kind, tuple(int(x) for x in one), int(np.prod(shape, dtype=int))))
                return np.array(out, dtype=float).reshape(k.shape[:-1] + shape).astype(dtype)
            if isinstance(kd, jax.core.Tracer):
                return io_callback(cb, jax.ShapeDtypeStruct(shape, dtype), kd)
            return jnp.asarray(cb(kd))

        def _uniform(key, shape, dtype, minval, maxval):
            if _RAND['api'] is None:
                return ou(key, shape, dtype, minval, maxval)
            return minval + draw('uniform', key, shape, dtype) * (maxval - minval)

        def _normal(key, shape, dtype):
            if _RAND['api'] is None:
                return on(key, shape, dtype)
            return draw('normal', key, shape, dtype)

        def _normal_real(key, shape, dtype):
            if _RAND['api'] is None:
                return onr(key, shape, dtype)
            return draw('normal', key, shape, dtype)
        R._uniform, R._normal, R._normal_real = _uniform, _normal, _normal_real
    if (_RAND['api'] is None) != (api is None):
        # part of JAX's trace-cache key: functions compiled in one mode are not reused in the other
        jax.config.update('jax_softmax_custom_jvp', api is not None)
    _RAND['api'] = api


def run_numeric(case, api):
    api.thin = case.thin
    try:
        case.fn(api, **case.params)
    finally:
        if _RAND['api'] is not None:
            _activate(None)


def _raises(exc, fn):
    try:
        fn()
    except exc:
        return True
    return False


def lift_arr(x):
    x = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
    if x.dtype != object:
        return to_obj(x)
    return elementwise(lambda v: v if isinstance(v, (jx._Inf, Pred)) else jx.lift(v), x)


def _map(f, x):
    if isinstance(x, np.ndarray):
        return elementwise(f, x)
    return f(x)


def sym_solve(A, B):
    A = np.asarray(A, dtype=object).copy()
    B = np.asarray(B, dtype=object).copy()
    vec = B.ndim == 1
    if vec:
        B = B[:, None]
    n = A.shape[0]
    for k in range(n):
        r = k
        while isinstance(A[r, k], Rat) and A[r, k].is_zero() or (not isinstance(A[r, k], Rat) and A[r, k] == 0):
            r += 1
        if r != k:
            A[[k, r]] = A[[r, k]]
            B[[k, r]] = B[[r, k]]
        for i in range(n):
            if i != k and not (isinstance(A[i, k], Rat) and A[i, k].is_zero()):
                f = A[i, k] / A[k, k]
                for j in range(k, n):
                    A[i, j] = A[i, j] - f * A[k, j]
                for j in range(B.shape[1]):
                    B[i, j] = B[i, j] - f * B[k, j]
    for i in range(n):
        for j in range(B.shape[1]):
            B[i, j] = B[i, j] / A[i, i]
    return B[:, 0] if vec else B


def sample(rng, pos, nonneg, lo, hi, wide=1):
    if wide != 1 and lo is None and hi is None and rng.random() < 0.5:
        return sample(rng, pos, nonneg, lo, hi) * wide
    if lo is not None and hi is not None:
        lo, hi = float(lo), float(hi)
        return lo + (hi - lo) * rng.choice([i / 64 for i in range(3, 62)])
    if pos or nonneg:
        base = float(lo) if lo is not None else 0.
        return base + rng.randrange(20, 140) / 64
    if lo is not None:
        return float(lo) + rng.randrange(10, 140) / 64
    if hi is not None:
        return float(hi) - rng.randrange(10, 140) / 64
    v = 0
    while v == 0:
        v = rng.randrange(-110, 111) / 64
    return v


# ------------------------------------------------------------------ deciding

REL_TOL = 1e-6


def num_mismatch(l, r, tol=None):
    """Index of a mismatching component, or None."""
    tol = tol or REL_TOL
    l, r = np.asarray(l), np.asarray(r)
    scale = np.maximum(np.abs(l), np.abs(r))
    fin = np.isfinite(scale)
    s = float(np.max(scale[fin])) if np.any(fin) else 1.0
    bad = ~(np.abs(l - r) <= tol * (scale + 1e-3 * s + 1e-3))
    same_nan = np.isnan(l) & np.isnan(r) | ((l == r) & ~np.isnan(l.real if np.iscomplexobj(l) else l))
    bad &= ~same_nan
    if np.any(bad):
        return tuple(int(x) for x in np.argwhere(bad)[0])
    return None


def goal_num_fails(g):
    if g.kind == 'eq':
        return num_mismatch(g.lhs, g.rhs, g.tol)
    if g.kind == 'shape':
        return () if tuple(g.lhs) != tuple(g.rhs) else None
    if g.kind == 'bool':
        return () if not g.lhs else None
    if g.kind == 'rel':
        v = np.asarray(g.lhs, dtype=float)
        eps = 1e-7
        bad = {'>': ~(v > -eps), '>=': ~(v >= -eps), '=': ~(np.abs(v) <= eps), '!=': ~(v != 0)}[g.rel]
        if np.any(bad):
            return tuple(int(x) for x in np.argwhere(bad)[0])
    return None


class Case:
    def __init__(self, name, fn, params=None, budget=200, max_paths=64, probes=3, bounds='', outside='',
                 box=True, exact_timeout=15000, validate=True, runner=None, thin=None):
        self.name, self.fn, self.params = name, fn, params or {}
        self.budget, self.max_paths, self.probes = budget, max_paths, probes
        self.bounds, self.outside = bounds, outside
        self.exact_timeout = exact_timeout
        self.validate = validate
        self.runner = runner
        self.thin = thin        # (number of parameters, share of bounded ranges): inputs are affine in those parameters


class Result:
    def __init__(self, case):
        self.case = case
        self.status = 'proved'
        self.reasons = []
        self.violations = []
        self.stats = dict(paths=0, goals=0, components=0, queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0,
                          eqns=0, traces=0, prims={}, validated=0, vacuity=0, lemma_instances=0, rounding=0)
        self.functions = set()
        self.contracts = set()
        self.wall = 0.0

    def incon(self, why):
        if self.status == 'proved':
            self.status = 'inconclusive'
        if why not in self.reasons:
            self.reasons.append(why)


def new_ctx(solver, prefix, deadline):
    c = Ctx(solver, prefix)
    c.neqns = 0
    c.ntraces = 0
    c.prims = {}
    c.deadline = deadline
    Ctx.cur = c
    return c


def find_point(c, solver, rng, need_path=True, tries=80):
    """A numeric point satisfying assumptions (and path): sampled then checked, else from the solver."""
    cons = list(c.assumptions) + (list(c.path) if need_path else [])
    for t in range(tries):
        env = {}
        for g in c.gens:
            if g.kind == 'var':
                env[g.name] = sample(rng, g.pos, g.nonneg, g.lo, g.hi, 1 if t < 30 else rng.choice([1, 3, 10, 60, 1 / 16]))
        if t >= 30:
            # positive callbacks of extreme size (very small or large likelihoods)
            for n in sorted({g.data[0].split("'")[0] for g in c.gens if g.kind == 'uf' and g.pos}):
                env['scale~' + n] = 10. ** rng.choice([0, 0, -14, -9, -5, 5, 9])
        try:
            ne = NumEval(c, env)
            ok = True
            for rel, p in cons:
                v, mg = ne.margin(p)
                if not {'>': v > mg, '>=': v >= 0, '=': abs(v) < 1e-20, '!=': abs(v) > mg, '<': v < -mg,
                        '<=': v <= 0}[rel]:
                    ok = False
                    break
            if ok:
                return env
        except (ValueError, ZeroDivisionError, Unsupported):
            continue
        if not cons:
            return env
    return model_point(c, solver, cons, [], rng)


def model_point(c, solver, cons, extra, rng, box=True, timeout=10000):
    """Ask the solver for a model of cons + extra (list of smt strings)."""
    gens = set()
    for rel, p in cons:
        smt.gens_of(p, gens)
    for p in [p for _, p in extra]:
        smt.gens_of(p, gens)
    ch = True
    while ch:
        ch = False
        for g in list(gens):
            if g in c.rules:
                e = smt.gens_of(c.rules[g]) - gens
                if e:
                    gens |= e
                    ch = True
    cong = []
    ufs = [i for i in sorted(gens) if c.gens[i].kind == 'uf']
    for a, i in enumerate(ufs):
        for j in ufs[a + 1:]:
            gi, gj = c.gens[i], c.gens[j]
            if gi.data[0] != gj.data[0] or gi.data[2] != gj.data[2] or len(gi.data[1]) != len(gj.data[1]) or len(cong) > 40:
                continue
            ds = [(x - y) for x, y in zip(gi.data[1], gj.data[1])]
            ds = [d.num for d in ds if not d.is_zero()]
            if sum(len(d) for d in ds) > 40:
                continue
            for d in ds:
                gens |= smt.gens_of(d)
            cong.append('(=> (and true ' + ' '.join(smt.rel_txt('=', d) for d in ds) + f') (= g{i} g{j}))')
    for tight in ((True, False) if box else (False,)):
        asserts = list(cong)
        for i in sorted(gens):
            asserts += smt.gen_constraints(c, i)
            g = c.gens[i]
            if tight and g.kind == 'var' and g.hi is None:
                if g.pos or g.nonneg:
                    asserts.append(f'(and (<= g{i} 8) (>= (* 8 g{i}) 1))')
                else:
                    asserts.append(f'(and (<= g{i} 8) (>= g{i} (- 8)))')
        asserts += [smt.rel_txt(r, p) for r, p in cons]
        asserts += [smt.rel_txt(r, p) for r, p in extra]
        want = [f'g{i}' for i in sorted(gens)]
        st, model = solver.check([(w, 'Real') for w in want], asserts, timeout_ms=timeout, want=want)
        if st == 'sat' and model is not None:
            env = {}
            for i, g in enumerate(c.gens):
                if g.kind == 'var':
                    v = model.get(f'g{i}')
                    env[g.name] = float(v) if v is not None else sample(rng, g.pos, g.nonneg, g.lo, g.hi)
                elif g.kind == 'uf' and f'g{i}' in model:
                    env[g.name] = float(model[f'g{i}'])
            # opaque generators were free for the solver: keep the point only if it really satisfies everything
            try:
                ne = NumEval(c, env)
                if all(_num_rel(r, ne.poly(p)) for r, p in list(cons) + [e for e in extra]):
                    return env
            except (ValueError, ZeroDivisionError, Unsupported, KeyError):
                pass
    return None


def _num_rel(rel, v):
    return {'>': v > 0, '>=': v >= -1e-12, '=': abs(v) < 1e-9, '!=': v != 0, '<': v < 0, '<=': v <= 1e-12}[rel]


def lemma_instances(c, p, max_inst=20000):
    """Instances of the eigen-decomposition contract needed to rewrite the monomials of p."""
    owner = {}
    for e in c.eigs:
        for i in range(e.n):
            owner[e.lam[i].idx] = (e, 'l', i)
            for a in range(e.n):
                owner[e.V[a][i].idx] = (e, 'v', a, i)
    if not owner:
        return []
    done = {}
    work = list(p.keys())
    seen = set(work)
    insts = []
    while work:
        m = work.pop()
        by = {}
        for gi, ex in mono_fields(m):
            o = owner.get(gi)
            if o is not None:
                by.setdefault(o[0].idx, []).append((gi, ex, o))
        for ei, fields in by.items():
            e = c.eigs[ei]
            vs = []
            lam = 0
            col = None
            ok = True
            sub = 0
            for gi, ex, o in fields:
                sub += ex << (BITS * gi)
                if o[1] == 'v':
                    vs += [o[2]] * ex
                    cc = o[3]
                else:
                    lam = ex
                    cc = o[2]
                if col is None:
                    col = cc
                elif col != cc:
                    ok = False
            if not ok or len(vs) != 2:
                continue
            a, b = sorted(vs)
            cof = m - sub
            key = (ei, a, b, lam, cof)
            if key in done:
                continue
            done[key] = True
            inst = {}
            for i in range(e.n):
                k = cof + (1 << (BITS * e.V[a][i].idx)) + (1 << (BITS * e.V[b][i].idx)) + (lam << (BITS * e.lam[i].idx))
                inst[k] = inst.get(k, 0) + 1
            rhs = e.power(lam)[a, b]
            if rhs.mono or rhs.den:
                continue
            inst = alg.psub(inst, alg.pmul_raw({cof: 1}, rhs.num))
            insts.append(inst)
            if len(insts) > max_inst:
                return insts
            for k in inst:
                if k not in seen:
                    seen.add(k)
                    work.append(k)
    return insts


def lra_query(solver, polys, goal, timeout=30000):
    """unsat of {inst = 0} and goal != 0 with every monomial an independent real (sound relaxation)."""
    ids = {}

    def t(p):
        d = smt.lcm_den(p)
        ts = []
        for m, cf in p.items():
            k = int(cf * d)
            if m == 0:
                ts.append(smt._num(k))
            else:
                v = ids.setdefault(m, f't{len(ids)}')
                ts.append(v if k == 1 else f'(* {smt._num(k)} {v})')
        return ts[0] if len(ts) == 1 else '(+ ' + ' '.join(ts) + ')'
    asserts = [f'(= {t(p)} 0)' for p in polys]
    asserts.append(f'(not (= {t(goal)} 0))')
    return solver.check([(v, 'Real') for v in ids.values()], asserts, logic='QF_LRA', timeout_ms=timeout)[0]


def rounding_query(c, solver, p, tol, refp=None):
    """|p| <= tol + 1e-9 * sum |c_m x^m| (c_m: the specified coefficients) over |x| <= 4, by LRA over the monomials."""
    def bnd(i):
        g = c.gens[i]
        if g.kind == 'const':
            return 4
        if g.lo is not None and g.hi is not None:
            return max(abs(g.lo), abs(g.hi))
        if g.kind == 'fun' and g.data[0] in ('sin', 'cos'):
            return 1
        return 4
    refp = refp or {}
    rel = Fraction(1, 10 ** 9)
    asserts, terms, decls = [], [], []
    for k, (m, cf) in enumerate(p.items()):
        b = Fraction(1)
        for i, e in mono_fields(m):
            b *= Fraction(bnd(i)) ** e
        v = f't{k}'            # |x^m|
        decls.append((v, 'Real'))
        asserts.append(f'(and (>= {v} 0) (<= {v} {smt.frac_txt(b)}))')
        terms.append(f'(* {smt.frac_txt(abs(Fraction(cf)) - rel * Fraction(refp.get(m, 0)))} {v})')
    s = terms[0] if len(terms) == 1 else '(+ ' + ' '.join(terms) + ')'
    asserts.append(f'(> {s} {smt.frac_txt(Fraction(tol))})')
    return solver.check(decls, asserts, logic='QF_LRA')[0] == 'unsat'


def rat_parts(c, r):
    """(num poly, den poly) with the denominator expanded."""
    d = {r.mono: 1}
    for f, e in r.den.items():
        d = c.pmul(d, alg.ppow(c, c.factors[f], e))
    return r.num, d


def discharge_zero_batch(c, solver, pairs, timeout=20000):
    """One query for components whose difference normalises to zero: the solver refutes any disequality."""
    disj = []
    gens = set()
    for l, r in pairs:
        nl, dl = l.num, {l.mono: 1}
        nr, dr = r.num, {r.mono: 1}
        for f, e in l.den.items():
            for _ in range(e):
                dl = alg.pmul_raw(dl, c.factors[f]) if len(dl) * len(c.factors[f]) < 4000 else dl
        # compare l = nl/DL, r = nr/DR ; common factors are divided out first
        ml = alg.mono_min(l.mono, r.mono)
        a = {l.mono - ml: 1}
        b = {r.mono - ml: 1}
        fa, fb = [], []
        for f in set(l.den) | set(r.den):
            k = l.den.get(f, 0) - r.den.get(f, 0)
            if k > 0:
                fa += [f] * k
            elif k < 0:
                fb += [f] * (-k)
        smt.gens_of(nl, gens)
        smt.gens_of(nr, gens)
        smt.gens_of(a, gens)
        smt.gens_of(b, gens)
        for f in fa + fb:
            smt.gens_of(c.factors[f], gens)

        def txt(n, mono, fs):
            d = smt.lcm_den(n)
            t = smt.poly_txt(n, d)
            parts = [t]
            if 0 not in mono:
                parts.append(smt.poly_txt(mono))
            parts += [smt.poly_txt(c.factors[f]) for f in fs]
            return (parts[0] if len(parts) == 1 else '(* ' + ' '.join(parts) + ')'), d
        tl, dl_ = txt(nl, b, fb)
        tr, dr_ = txt(nr, a, fa)
        disj.append(f'(not (= (* {dr_} {tl}) (* {dl_} {tr})))' if (dl_ != 1 or dr_ != 1) else f'(not (= {tl} {tr}))')
    rules = []
    need = set(gens)
    for g in sorted(gens):
        if g in c.rules:
            smt.gens_of(c.rules[g], need)
    asserts = [disj[0] if len(disj) == 1 else '(or ' + ' '.join(disj) + ')']
    st, _ = solver.check([(f'g{i}', 'Real') for i in sorted(need)], asserts, timeout_ms=timeout)
    return st


def decide_goals(api, res, case, rng, tried):
    """Decide every component of every goal on the current path."""
    c, solver = api.c, api.solver
    pending = []
    for gi, g in enumerate(api.goals):
        res.stats['goals'] += 1
        if g.kind == 'shape':
            pending.append((gi, (), None))
            continue
        if g.kind == 'bool':
            res.stats['components'] += 1
            if not g.lhs:
                pending.append((gi, (), None))
            continue
        if g.kind == 'rel':
            for idx in np.ndindex(g.lhs.shape):
                res.stats['components'] += 1
                x = g.lhs[idx]
                if not isinstance(x, Rat):
                    pending.append((gi, idx, None))
                    continue
                st = decide_rel(c, solver, g.rel, x, case)
                if st != 'unsat':
                    pending.append((gi, idx, ('rel', g.rel, x)))
            continue
        zero = []
        for idx in np.ndindex(g.lhs.shape):
            l, r = g.lhs[idx], g.rhs[idx]
            res.stats['components'] += 1
            comps = []
            if isinstance(l, Cx) or isinstance(r, Cx):
                if l is NAN or r is NAN:
                    pending.append((gi, idx, None))
                    continue
                l, r = Cx.of(l), Cx.of(r)
                comps = [(l.re, r.re), (l.im, r.im)]
            else:
                l, r = jx.num(l), jx.num(r)
                if not isinstance(l, Rat) or not isinstance(r, Rat):
                    if l is r:
                        continue
                    pending.append((gi, idx, None))
                    continue
                comps = [(l, r)]
            for a, b in comps:
                d = a - b
                if d.is_zero():
                    zero.append((a, b))
                else:
                    st = decide_diff(c, solver, d, a, b, res, case)
                    if st != 'unsat':
                        pending.append((gi, idx, ('diff', d)))
        # batch the zero differences
        k = 0
        while k < len(zero):
            batch, size = [], 0
            while k < len(zero) and (not batch or size < 4000):
                batch.append(zero[k])
                size += len(zero[k][0].num) + len(zero[k][1].num)
                k += 1
            st = discharge_zero_batch(c, solver, batch)
            if st == 'unknown':
                for a, b in batch:
                    p = (a - b)
                    # fall back to the expanded form
                    st2 = solver.check([], [f'(not (= {smt.poly_txt(p.num)} 0))'])[0]
                    if st2 != 'unsat':
                        res.incon(f'{g.name}: solver {st2}')
            elif st == 'sat':
                res.incon(f'{g.name}: solver refutes a normalised identity (encoding bug)')
    return pending


def decide_diff(c, solver, d, a, b, res, case):
    p = d.num
    if c.eigs:
        insts = lemma_instances(c, p)
        res.stats['lemma_instances'] += len(insts)
        if insts:
            st = lra_query(solver, insts, p)
            if st == 'unsat':
                return st
    # tiny coefficients: rounding of constants in the source
    mx = max(abs(v) for v in p.values())
    ref = max([abs(v) for v in a.num.values()] + [abs(v) for v in b.num.values()] + [Fraction(1, 10 ** 6)])
    if mx < ref * Fraction(1, 10 ** 9):
        refp = {}
        if not (d.mono or d.den or a.mono or a.den or b.mono or b.den):
            for q in (a.num, b.num):
                for m, v in q.items():
                    refp[m] = max(refp.get(m, 0), abs(v))
        if rounding_query(c, solver, p, Fraction(1, 10 ** 7) * max(ref, 1), refp):
            res.stats['rounding'] += 1
            return 'unsat'
    cons, gens = solver.closure(c, [p])
    asserts = []
    for i in sorted(gens):
        asserts += smt.gen_constraints(c, i)
    asserts += [smt.rel_txt(r, q) for r, q in cons]
    asserts.append(f'(not (= {smt.poly_txt(p)} 0))')
    st, _ = solver.check([(f'g{i}', 'Real') for i in sorted(gens)], asserts, timeout_ms=case.exact_timeout)
    return st


def decide_rel(c, solver, rel, x, case):
    """unsat of assumptions & path & not(x rel 0)."""
    k = x.const()
    p = x.num
    if k is not None:
        ok = {'>': k > 0, '>=': k >= 0, '=': k == 0, '!=': k != 0}[rel]
        return solver.check([], ['false' if ok else 'true'])[0]
    for i, e in mono_fields(x.mono):
        if e % 2 and not c.gens[i].pos:
            p = c.reduce({m + (1 << (BITS * i)): v for m, v in p.items()})
    for f, e in x.den.items():
        if e % 2 and not alg.known_pos(c.factors[f]):
            p = c.pmul(p, c.factors[f])
    cons, gens = solver.closure(c, [p])
    asserts = []
    for i in sorted(gens):
        asserts += smt.gen_constraints(c, i)
    asserts += [smt.rel_txt(r, q) for r, q in cons]
    asserts.append(smt.rel_txt(alg.NEG[rel], p))
    return solver.check([(f'g{i}', 'Real') for i in sorted(gens)], asserts, timeout_ms=case.exact_timeout)[0]


def replay_point(case, env, c=None, tier='quick'):
    """Run the case on the unmodified code with concrete inputs; list of failing goals."""
    old = Ctx.cur
    try:
        api = NumAPI(dict(env), c, tier)
        run_numeric(case, api)
        fails = []
        for g in api.goals:
            r = goal_num_fails(g)
            if r is not None:
                fails.append((g, r))
        return api, fails
    finally:
        Ctx.cur = old


def describe(g, idx):
    if g.kind == 'eq':
        return f'{g.name}{list(idx)}: code={g.lhs[idx]!r} expected={g.rhs[idx]!r}'
    if g.kind == 'rel':
        return f'{g.name}{list(idx)}: value={g.lhs[idx]!r} should be {g.rel} 0'
    return f'{g.name}: code={g.lhs} expected={g.rhs if g.kind == "shape" else True}'


def run_case(case, solver, tier, seed):
    if case.runner is not None:
        return case.runner(case, solver, tier, seed)
    res = Result(case)
    t0 = time.time()
    deadline = t0 + case.budget
    q0, s0 = solver.queries, solver.time
    r0 = dict(solver.results)
    rng = random.Random(f'{seed}:{case.name}')
    stack = [[]]
    probes_done = False
    try:
        while stack:
            if res.stats['paths'] >= case.max_paths:
                res.incon('path budget exhausted')
                break
            if time.time() > deadline:
                res.incon('time budget exhausted')
                break
            prefix = stack.pop()
            c = new_ctx(solver, prefix, deadline)
            api = SymAPI(c, tier, solver)
            api.thin = case.thin
            try:
                case.fn(api, **case.params)
            except Infeasible:
                stack += c.alternatives
                continue
            finally:
                res.functions |= api.functions
            stack += c.alternatives
            res.stats['paths'] += 1
            res.stats['eqns'] += c.neqns
            res.stats['traces'] += c.ntraces
            for k, v in c.prims.items():
                res.stats['prims'][k] = res.stats['prims'].get(k, 0) + v
            res.contracts |= c.contracts
            # vacuity witness: assumptions and path must be satisfiable
            env = find_point(c, solver, rng)
            if env is None:
                st = 'unknown'
                cons = list(c.assumptions) + list(c.path)
                gens = set()
                for _, p in cons:
                    smt.gens_of(p, gens)
                for g in list(gens):
                    if g in c.rules:
                        smt.gens_of(c.rules[g], gens)
                asserts = []
                for i in sorted(gens):
                    asserts += smt.gen_constraints(c, i)
                asserts += [smt.rel_txt(r, p) for r, p in cons]
                st, _ = solver.check([(f'g{i}', 'Real') for i in sorted(gens)], asserts)
                if st == 'unsat':
                    res.stats['paths'] -= 1
                    continue
                res.stats['unwitnessed'] = res.stats.get('unwitnessed', 0) + 1
            else:
                res.stats['vacuity'] += 1
            # translation validation on the witness
            if env is not None and case.validate:
                validate_path(res, case, api, env, rng, tier)
                if res.violations:
                    break
            pending = decide_goals(api, res, case, rng, None)
            if pending and not res.violations:
                hunt(res, case, api, pending, rng, tier)
            if res.violations:
                break
        if res.stats['paths'] and not res.stats['vacuity']:
            res.incon('no witness satisfies the assumptions of any path')
        if not res.stats['paths'] and not res.violations:
            res.incon('no feasible path')
    except Unsupported as e:
        res.incon(f'unsupported: {e}')
    except Budget as e:
        res.incon(f'budget: {e}')
    except RecursionError:
        res.incon('recursion')
    except Exception as e:  # encoder or code raised: inconclusive, decided by replay below
        res.incon(f'{type(e).__name__}: {str(e)[:300]}')
        res.trace = traceback.format_exc()
    if res.status != 'proved' and not res.violations:
        fallback(res, case, rng, tier)
    res.stats['queries'] = solver.queries - q0
    res.stats['solver_s'] = solver.time - s0
    for k in ('sat', 'unsat', 'unknown'):
        res.stats[k] = solver.results[k] - r0[k]
    res.wall = time.time() - t0
    if res.violations:
        res.status = 'violation'
    Ctx.cur = None
    return res


def validate_path(res, case, api, env, rng, tier):
    """Run the real code on points of this path: it must agree with the encoding, and with the specification.
    Points on which only rounding separates the two (ill-conditioned input) are replaced by other points."""
    c, solver = api.c, api.solver
    why, bad, good, numfail = None, 0, 0, []
    for t in range(6):
        if t:
            env = find_point(c, solver, rng, tries=40)
            if env is None:
                break
        try:
            napi, fails = replay_point(case, env, c, tier)
            if napi.bad:
                raise ValueError('assumption violated numerically')
            ne = NumEval(c, env)
            if len(napi.goals) != len(api.goals):
                raise ValueError('goal structure differs')
            if fails:
                for (g, idx) in fails:
                    gs = api.goals[next(i for i, x in enumerate(napi.goals) if x is g)]
                    if gs.kind == 'eq' and num_mismatch(ne.arr(gs.lhs), ne.arr(gs.rhs), gs.tol) is None:
                        continue
                    record_violation(res, case, env, c, fails, 'witness')
                    return
                numfail.append((env, fails))
                continue
            n = 0
            for gs, gn in zip(api.goals, napi.goals):
                if gs.kind == 'eq' and gn.kind == 'eq':
                    sv = ne.arr(gs.lhs)
                    k = num_mismatch(sv, gn.lhs, 2e-6)
                    if k is not None:
                        raise ValueError(f'{gs.name}{list(k)} encoded={sv[k]!r} real={gn.lhs[k]!r}')
                    n += 1
            res.stats['validated'] += n
            return
        except (ValueError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError) as e:
            why, bad = str(e), bad + 1
    if len(numfail) >= 4:
        env, fails = numfail[0]
        record_violation(res, case, env, c, fails, 'real code disagrees with its encoding and with the specification')
        return
    res.incon(f'translation validation failed on {bad} points: {why}')


def record_violation(res, case, env, c, fails, how):
    g, idx = fails[0]
    tables = uf_tables(c, env) if c is not None else {}
    res.violations.append(dict(case=case.name, env={k: float(v) for k, v in env.items()}, tables=tables,
                               goals=[describe(a, b) for a, b in fails[:8]], found_by=how))


def hunt(res, case, api, pending, rng, tier):
    """Turn undischarged components into a replayed counterexample, else inconclusive."""
    c, solver = api.c, api.solver
    todo = {gi for gi, _, _ in pending}

    def genuine(fails, napi, env):
        """Failures of undischarged goals that rounding does not explain (the encoding disagrees as well)."""
        if len(napi.goals) != len(api.goals):
            return fails
        out, ne = [], NumEval(c, env)
        for g, idx in fails:
            k = next(i for i, x in enumerate(napi.goals) if x is g)
            gs = api.goals[k]
            if k not in todo:
                continue
            try:
                if gs.kind == 'eq' and num_mismatch(ne.arr(gs.lhs), ne.arr(gs.rhs), gs.tol) is None:
                    continue
            except Exception:
                pass
            out.append((g, idx))
        return out
    # 1. sampled points on this path where the encoded difference is largest
    best = []
    t_end = time.time() + 40
    for t in range(24):
        if time.time() > t_end:
            break
        env = find_point(c, solver, rng, tries=40) if t < 24 else None
        if env is None:
            break
        try:
            napi, fails = replay_point(case, env, c, tier)
        except Exception:
            continue
        if napi.bad:
            continue
        fails = genuine(fails, napi, env)
        if fails:
            ground_confirm(solver, fails)
            record_violation(res, case, env, c, fails, 'solver-refuted goal, witness on path')
            return
        if t >= 5 and not any(p[2] for p in pending):
            break
    # 2. solver models of the negated goal, with a margin
    cons = list(c.assumptions) + list(c.path)
    for gi, idx, what in pending[:6]:
        if what is None:
            continue
        if what[0] == 'diff':
            p = what[1].num
            extras = [[('>', alg.psub(p, {0: Fraction(1, 100)}))], [('>', alg.psub(alg.pneg(p), {0: Fraction(1, 100)}))],
                      [('!=', p)]]
        else:
            extras = [[(alg.NEG[what[1]], what[2].num)]]
        for ex in extras:
            env = model_point(c, solver, cons, ex, rng, timeout=8000)
            if env is None:
                continue
            try:
                napi, fails = replay_point(case, env, c, tier)
            except Exception:
                continue
            fails = genuine(fails, napi, env)
            if napi.bad or not fails:
                continue
            record_violation(res, case, env, c, fails, 'solver model')
            return
    names = sorted({api.goals[gi].name for gi, _, _ in pending})
    res.incon('not discharged and no replayable counterexample: ' + ', '.join(names[:5]))


def ground_confirm(solver, fails):
    g, idx = fails[0]
    if g.kind != 'eq':
        return
    l, r = np.asarray(g.lhs)[idx], np.asarray(g.rhs)[idx]
    if np.iscomplexobj(l) or np.iscomplexobj(r) or not (np.isfinite(l) and np.isfinite(r)):
        return
    solver.check([], [f'(not (= {smt.frac_txt(Fraction(float(l)))} {smt.frac_txt(Fraction(float(r)))}))'])


def raised_in_code(e):
    """Innermost frame of ours (harness or code under test) belongs to the code under test."""
    repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + os.sep
    here = os.path.realpath(os.path.join(os.path.dirname(__file__), '..')) + os.sep
    last = None
    for fr, _ in traceback.walk_tb(e.__traceback__):
        f = os.path.realpath(fr.f_code.co_filename)
        if f.startswith(repo):
            last = 'repo'
        elif f.startswith(here):
            last = 'here'
    return last == 'repo'


def fallback(res, case, rng, tier):
    """The encoding could not decide: concretise the inputs to points (degenerate bound) and compare."""
    n, raised, numfail = 0, [], []
    t_end = time.time() + 60
    for t in range(40):
        if n >= 6 or time.time() > t_end:
            break
        try:
            api, fails = replay_point(case, {}, None, tier) if t == 0 else _fresh(case, rng, tier)
        except Exception as e:
            res.reasons.append(f'replay raised {type(e).__name__}: {str(e)[:200]}')
            res.raised = True
            if raised_in_code(e):
                raised.append(f'{type(e).__name__}: {str(e)[:300]}')
            if t > 3:
                break
            continue
        if api.bad:
            continue
        n += 1
        # without the encoding rounding cannot be told apart exactly: only clear differences count
        fails = [(g, i) for g, i in fails if g.kind != 'eq' or num_mismatch(g.lhs, g.rhs, max(1e-4, g.tol or 0)) is not None]
        if fails:
            numfail.append((api, fails))
            if len(numfail) >= 2:
                break
    if n == 0 and len(raised) >= 3:
        res.violations.append(dict(case=case.name, env={}, tables={}, goals=['the code raises on valid input: ' + raised[0]],
                                   found_by='point instance'))
    # one bad point may be rounding on an ill-conditioned input: two independent points are needed
    if len(numfail) >= 2 or (numfail and n <= 2):
        api, fails = numfail[0]
        res.violations.append(dict(case=case.name, env={k: float(v) for k, v in api.env.items()}, tables={},
                                   goals=[describe(a, b) for a, b in fails[:8]], found_by='point instance'))


def _fresh(case, rng, tier):
    api = NumAPI({}, None, tier, seed=rng.randrange(1 << 30))
    run_numeric(case, api)
    return api, [(g, r) for g in api.goals for r in [goal_num_fails(g)] if r is not None]
