"""C12: resampling copies particles in proportion to their weights."""
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.classical_filters_smoothers import resampling as rs
from .common import *

BOUNDS = 'N <= 5 particles (6 thorough; multinomial 4 (5); up to 10 (14) along one-parameter families), every weight vector of the simplex and every value of the random draws; continuous ' \
         'resampling N <= 3 samples in any order and N = 4 in some (all thirds of the orders, N = 5, thorough), 1..4 requested samples; several keys'
OUTSIDE = 'more particles; the distribution of jax.random itself (draws are arbitrary values in [0, 1)); rounding (weights whose ' \
          'floating-point sum differs from one)'


TINY = (1, 10 ** 12)


def simplex0(api, n, pos=False):
    """Weights summing to one; zeros allowed unless pos (then at least 1e-12)."""
    w = [api.real(f'w{i}', nonneg=True, lo=0, hi=1) for i in range(1, n)]
    w = [1 - sum(w, 0)] + w if n > 1 else [api.q(1)]
    for x in w:
        api.assume('>=', x - api.q(*TINY) if pos else x)
    return fin(np.array(w, dtype=object))


def points(api, kind, n, key):
    if kind == 'systematic':
        u = np.asarray(api.uniform(key, ()), dtype=object)[()]
        return [(k + u) / api.q(n) for k in range(n)]
    if kind == 'stratified':
        u = api.uniform(key, (n,))
        return [(k + u[k]) / api.q(n) for k in range(n)]
    u = api.uniform(key, (n + 1,))
    e, s = [], 0
    for i in range(n + 1):
        if api.symbolic:
            api.assume('>', u[i])
        elif not u[i] > 0:
            api.bad = True
        s = s - api.log(u[i])
        api.fact('>', -api.log(u[i]))           # 0 < u < 1
        e.append(s)
    return [e[k] / e[n] for k in range(n)]


def discrete(api, kind, n, seed, zeros_ok):
    api.rand_symbolic()
    key = jax.random.PRNGKey(seed)
    w = simplex0(api, n, pos=not zeros_ok)
    pts = points(api, kind, n, key)
    idx = api.run(lambda w: getattr(rs, kind)(w, key), w)
    api.note(f'mfs.classical_filters_smoothers.resampling.{kind}',
             'mfs.classical_filters_smoothers.resampling._systematic_or_stratified' if kind != 'multinomial' else
             'mfs.classical_filters_smoothers.resampling._sorted_uniforms')
    api.true('shape', np.shape(idx) == (n,))
    ix = [int(x) for x in np.asarray(idx).reshape(-1)]
    api.true('in range', all(0 <= i < n for i in ix))
    api.true('ordered', all(a <= b for a, b in zip(ix, ix[1:])))
    cs = [0]
    for i in range(n):
        cs.append(cs[-1] + w[i])
    for k, i in enumerate(ix):
        # the k-th point lies in the closed cumulative interval of the particle it selects
        api.holds(f'{k} above', '>=', pts[k] - cs[i])
        api.holds(f'{k} below', '>=', cs[i + 1] - pts[k])


def continuous(api, n, m, seed, order):
    """order: the ranks of the samples (every sample vector with that ordering)."""
    api.rand_symbolic()
    key = jax.random.PRNGKey(seed)
    w = simplex0(api, n, pos=True)
    xs = [api.real('x0')]
    for i in range(1, n):
        xs.append(xs[-1] + api.real(f'g{i}', pos=True))
    inp = fin(np.array([xs[r] for r in order], dtype=object))
    u = api.uniform(key, (m,))
    z = [(k + u[k]) / api.q(m) for k in range(m)]
    ws = [None] * n
    for i, r in enumerate(order):
        ws[r] = w[i]
    cs, s = [], 0
    for i in range(n):
        cs.append(s + ws[i] / 2)
        s = s + ws[i]
    out = api.run(lambda x, w: rs.continuous_resampling(x, w, m, key), inp, w)
    exp = []
    for k in range(m):
        j = 0
        while j < n and api.decide('>=', z[k] - cs[j]):
            j += 1
        if j == 0:
            v = xs[0]
        elif j == n:
            v = xs[n - 1]
        else:
            v = xs[j - 1] + (xs[j] - xs[j - 1]) * (z[k] - cs[j - 1]) / (cs[j] - cs[j - 1])
        exp.append(v)
    api.note('mfs.classical_filters_smoothers.resampling.continuous_resampling',
             'mfs.classical_filters_smoothers.resampling._avg_n_nplusone')
    api.eq('samples', out, fin(np.array(exp, dtype=object)))


def cases(tier):
    th = tier == 'thorough'
    out = []
    for kind in ('systematic', 'stratified', 'multinomial'):
        for n in range(1, 7 if th else 6):
            if kind == 'multinomial' and n > (5 if th else 4):
                continue
            out.append(Case(f'{kind}-{n}', discrete, dict(kind=kind, n=n, seed=n, zeros_ok=True), max_paths=2000))
    import itertools
    for n, m in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2)] + ([(1, 4), (3, 4), (4, 3), (4, 4), (5, 2)] if th else []):
        perms = list(itertools.permutations(range(n)))
        for o in perms[::1 if n < 4 else 3 if n == 4 and th else 5 if n == 4 else 11]:
            out.append(Case(f'continuous-{n}-{m}-' + ''.join(map(str, o)), continuous,
                            dict(n=n, m=m, seed=7 * n + m, order=o), max_paths=400))
    for kind, n in [('systematic', 6), ('systematic', 7), ('systematic', 8), ('systematic', 10), ('stratified', 5), ('stratified', 6), ('stratified', 7), ('multinomial', 4), ('multinomial', 5)] + \
            ([('systematic', 14), ('stratified', 8), ('multinomial', 6)] if th else []):
        out.append(Case(f'family-{kind}-{n}', discrete, dict(kind=kind, n=n, seed=n, zeros_ok=True), max_paths=4000, thin=(1, f'1/{n}'), budget=600 if th else 300))
    for n, m in [(4, 3), (5, 2), (5, 3), (6, 2), (7, 1), (3, 5)]:
        o = list(range(n))[::-1]
        o[0], o[2] = o[2], o[0]
        out.append(Case(f'family-continuous-{n}-{m}', continuous, dict(n=n, m=m, seed=n, order=tuple(o)), max_paths=4000, thin=(1, f'1/{n}'), budget=600 if th else 300))
    return out
