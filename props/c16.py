"""C16: Bell and Hermite polynomials, Taylor quadrature, lists of functions."""
import math
import numpy as np
import jax.numpy as jnp
from engine.core import Case
from mfs.utils import partial_bell, complete_bell, hermite_probabilist, vmap_list_of_funcs, gamma, factorial, binom as mfs_binom
from mfs.one_dim.quadtures import taylor_quadrature
from .common import *

BOUNDS = 'Bell n <= 7 (9 thorough), all k, any arguments, as tuple or array; Hermite n <= 10 (14); Taylor order <= 5 (7) on ' \
         'polynomials of degree order + 2 with free coefficients and up to two extra operands; lists of up to 130 functions; ' \
         'Bell n <= 12, Hermite n <= 14 (16), Taylor order <= 9 along one-parameter families'
OUTSIDE = 'higher orders; rounding'


def pw(a, b, K):
    r = [0] * (K + 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if i + j <= K:
                r[i + j] = r[i + j] + x * y
    return r


def egf(api, xs, n, k):
    """n! [t^n] (sum_j x_j t^j / j!)^k / k!"""
    base = [0] + [xs[j - 1] * api.q(1, math.factorial(j)) for j in range(1, n + 1)]
    base += [0] * (n + 1 - len(base))
    r = [1] + [0] * n
    for _ in range(k):
        r = pw(r, base, n)
    return r[n] * api.q(math.factorial(n), math.factorial(k))


def bell(api, n, form):
    xs = api.reals('x', max(n, 1))
    for k in range(0, n + 1):
        m = max(n - k + 1, 1)
        exp = egf(api, xs, n, k)
        arg = xs[:m] if n else xs
        if form == 'array':
            out = api.run(lambda a: jnp.asarray(partial_bell(n, k, a), dtype='float64'), arg)
        else:
            out = api.eager_np(partial_bell, n, k, tuple(arg))
        api.eq(f'B{n},{k}', out, exp)
    # no way to partition fewer elements than blocks
    api.eq('B0,2', api.run(lambda a: jnp.asarray(partial_bell(0, 2, a)), xs), api.q(0))
    tot = 0
    for k in range(0, n + 1):
        tot = tot + egf(api, xs, n, k)
    if form == 'array':
        out = api.run(lambda a: jnp.asarray(complete_bell(n, a), dtype='float64'), xs)
    else:
        out = api.eager_np(complete_bell, n, tuple(xs))
    api.eq(f'B{n}', out, tot)
    api.note('mfs.utils.partial_bell', 'mfs.utils.complete_bell')


def hermite(api, lo, hi):
    x = api.real('x')
    for n in range(lo, hi + 1):
        s = 0
        for m in range(n // 2 + 1):
            s = s + api.q((-1) ** m * math.factorial(n), math.factorial(m) * math.factorial(n - 2 * m) * 2 ** m) \
                * x ** (n - 2 * m)
        api.eq(f'He{n}', api.run(lambda a: jnp.asarray(hermite_probabilist(n, a)), x), s)
    api.note('mfs.utils.hermite_probabilist')


def taylor(api, order, deg, nop):
    cms = api.reals('c', order + 2)
    mean = api.real('mean')
    co = api.reals('a', deg + 1)
    ops = [api.real(f'op{i}') for i in range(nop)]

    def f(x, *o):
        r = 0.
        for k in range(deg + 1):
            t = CO[k]
            for i, y in enumerate(o):
                t = t * (1. + y) if (k + i) % 2 else t + y
            r = r + t * x ** k
        return r
    box = {}

    def g(c, m, a, *o):
        nonlocal CO
        CO = a
        return taylor_quadrature(f, c, m, order, *o)
    CO = None
    out = api.run(g, cms, mean, co, *ops)
    api.note('mfs.one_dim.quadtures.taylor_quadrature', 'mfs.one_dim.quadtures.make_derivatives')
    cc = []
    for k in range(deg + 1):
        t = co[k]
        for i, y in enumerate(ops):
            t = t * (1 + y) if (k + i) % 2 else t + y
        cc.append(t)
    s = 0
    for r in range(order + 1):
        d = 0
        for k in range(r, deg + 1):
            d = d + math.comb(k, r) * cc[k] * mean ** (k - r)
        s = s + d * (cms[r] if r else 1)
    api.eq('expectation', out, s)


def funcs(api, n, d):
    x = api.reals('x', d) if d else api.real('x')
    fs = [api.uf(f'f{i}') for i in range(n)]

    def mk(i):
        return (lambda v: fs[i](*[v[k] for k in range(d)])) if d else (lambda v: fs[i](v))
    out = api.run(lambda v: vmap_list_of_funcs([mk(i) for i in range(n)])(v), x)
    api.note('mfs.utils.vmap_list_of_funcs')
    xs = list(x) if d else [x]
    api.eq('values', out, fin(np.array([api.ufv(f'f{i}', *xs) for i in range(n)], dtype=object)))


def gammas(api):
    n, k = api.real('n', pos=True), api.real('k', pos=True)
    api.assume('>', n - k)
    G = lambda v: api.exp(api.lgamma(v))
    api.eq('gamma', api.run(gamma, n), G(n))
    api.eq('factorial', api.run(factorial, n), G(n + 1))
    api.eq('binomial', api.run(mfs_binom, n, k), G(n + 1) / (G(k + 1) * G(n - k + 1)))
    for a in range(8):
        api.eq(f'{a}!', api.run(lambda v: factorial(float(a)) + 0 * v, n), api.q(math.factorial(a)), tol=1e-9)
        for b in range(a + 1):
            api.eq(f'binom({a},{b})', api.run(lambda v: mfs_binom(float(a), float(b)) + 0 * v, n), api.q(math.comb(a, b)), tol=1e-9)
    api.note('mfs.utils.gamma', 'mfs.utils.factorial', 'mfs.utils.binom')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for n in range(0, 10 if th else 8):
        for form in ('array', 'tuple'):
            out.append(Case(f'bell-{n}-{form}', bell, dict(n=n, form=form)))
    out.append(Case('hermite', hermite, dict(lo=0, hi=14 if th else 10)))
    for o in range(0, 8 if th else 6):
        for nop in (0, 1, 2):
            out.append(Case(f'taylor-{o}-{nop}op', taylor, dict(order=o, deg=o + 2, nop=nop)))
    for n in (1, 2, 3, 4, 5, 6, 8, 17, 70, 130):
        out.append(Case(f'funcs-{n}', funcs, dict(n=n, d=n % 3)))
    for n in (8, 9, 10, 11, 12):
        for form in ('array', 'tuple'):
            out.append(Case(f'family-bell-{n}-{form}', bell, dict(n=n, form=form), thin=(1, 1)))
    out.append(Case('family-hermite', hermite, dict(lo=11, hi=16 if th else 14), thin=(1, 1)))
    for o in (6, 7, 8, 9):
        out.append(Case(f'family-taylor-{o}', taylor, dict(order=o, deg=o + 2, nop=1), thin=(1, 1)))
    out.append(Case('gamma-binomial', gammas, {}))
    out.append(Case('family-funcs-9', funcs, dict(n=9, d=3), thin=(1, 1)))
    return out
