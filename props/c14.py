"""C14: the grid filter integrates the discretised prediction and multiplies by the likelihood."""
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.classical_filters_smoothers.brute_force import brute_force_filter
from .common import *
from .sde import Jet

BOUNDS = 'grids of 2..5 points (3 for TME order > 1; uneven for Chapman-Kolmogorov), T <= 2 measurements, 1..3 integration steps, TME ' \
         'orders 1..2 (3 thorough); arbitrary (uninterpreted) drift, dispersion and likelihood; starting density, grid and step symbolic; ' \
         'grids <= 9, 9 integration steps, T <= 20 along one-parameter families'
OUTSIDE = 'finer grids and longer runs; convergence to the exact filter; rounding'


def trapz(v, xs):
    s = 0
    for i in range(len(xs) - 1):
        s = s + (v[i] + v[i + 1]) * (xs[i + 1] - xs[i]) / 2
    return s


def gradient(v, dx):
    n = len(v)
    out = [(v[1] - v[0]) / dx]
    for i in range(1, n - 1):
        out.append((v[i + 1] - v[i - 1]) / (2 * dx))
    out.append((v[n - 1] - v[n - 2]) / dx)
    return out


def npdf(api, x, m, s2):
    return api.exp(-(x - m) ** 2 / (2 * s2)) / api.sqrt(2 * api.pi() * s2)


def grid(api, n, even):
    x0 = api.real('x0')
    if even:
        h = api.real('h', pos=True)
        return [x0 + i * h for i in range(n)]
    xs = [x0]
    for i in range(1, n):
        xs.append(xs[-1] + api.real(f'h{i}', pos=True))
    return xs


def brute(api, n, T, steps, method, default=False, recur=False):
    even = method == 'kolmogorov'
    xs = grid(api, n, even)
    dt = api.real('dt', pos=True) * api.q(1, 8)
    ps0 = [api.real(f'p{i}', pos=True) for i in range(n)]
    ys = api.reals('y', T)
    a = api.uf('a')
    b = api.uf('b', pos=True)
    g = api.uf('g', pos=True)
    ddt = dt / steps
    order = int(method.split('-')[-1]) if 'tme' in method else 1
    m, s2 = [], []
    if even:
        A = [[api.ufv('a', x), api.ufd('a', (1,), x)] for x in xs]
        G = []
        for x in xs:
            b0, b1, b2 = api.ufv('b', x, pos=True), api.ufd('b', (1,), x), api.ufd('b', (2,), x)
            G.append([b0 * b0, 2 * b0 * b1, 2 * b1 * b1 + 2 * b0 * b2])
    else:
        jet = Jet(1, 1)
        mean, cov = jet.tme_mean_cov(order)
        for x in xs:
            f = lambda i, al: api.ufd('a', al, x) if al[0] else api.ufv('a', x)
            L = lambda i, j, al: api.ufd('b', al, x) if al[0] else api.ufv('b', x, pos=True)
            if method == 'chapman-euler':
                m.append(x + f(0, (0,)) * ddt)
                s2.append(L(0, 0, (0,)) ** 2 * ddt)
            else:
                m.append(jet.series(mean[0], ddt, [x], f, L, api.q))
                s2.append(jet.series(cov[0][0], ddt, [x], f, L, api.q))
                if order > 1:
                    api.assume('>', s2[-1])
                    m[-1] = api.cut(f'm{len(m)}', m[-1])
                    s2[-1] = api.cut(f'v{len(m)}', s2[-1], pos=True)

    def predict(ps):
        for _ in range(steps):
            if even:
                h = xs[1] - xs[0]
                d1 = gradient(ps, h)
                d2 = gradient(d1, h)
                ps = [p + ddt * (-(A[i][1] * p + A[i][0] * d1[i])
                                 + (G[i][2] * p + 2 * G[i][1] * d1[i] + G[i][0] * d2[i]) / 2) for i, p in enumerate(ps)]
            else:
                ps = [trapz([npdf(api, x, m[j], s2[j]) * ps[j] for j in range(n)], xs) for x in xs]
        return ps

    def step(st, k):
        ps = predict(list(st['ps']))
        up = [api.ufv('g', ys[k], x, pos=True) * p for x, p in zip(xs, ps)]
        Z = trapz(up, xs)
        if even:
            api.assume('!=', Z)
        return dict(ps=fin(np.array([u / Z for u in up], dtype=object)))
    rec = Recursion(api, T, dict(ps=fin(np.array(ps0, dtype=object))), step,
                    (lambda k: dict(ps=fin(np.array([api.real(f'q{k}_{i}', pos=True) for i in range(n)], dtype=object)))) if api.symbolic and recur else None,
                    ['ps'])
    kw = {} if default else dict(integration_steps=steps, pred_method=method)
    out = api.run(lambda p, x, y, dt: brute_force_filter(a, b, g, p, x, y, dt, **kw),
                  fin(np.array(ps0, dtype=object)), fin(np.array(xs, dtype=object)), ys, dt)
    api.note('mfs.classical_filters_smoothers.brute_force.brute_force_filter')
    spec = rec.finish()
    for k in range(T):
        api.eq(f'density{k}', out[k], spec[k]['ps'])
        api.eq(f'mass{k}', trapz(out[k], xs), api.q(1))
    api.true('shape', np.shape(out) == (T, n))


def unknown(api, method):
    xs = jnp.linspace(-1., 1., 5)
    api.raises(f'{method} is rejected', NotImplementedError,
               lambda: brute_force_filter(lambda x: -x, lambda x: x * 0 + 1., lambda y, x: jnp.exp(-(x - y) ** 2), jnp.ones(5),
                                          xs, jnp.zeros(2), 0.1, pred_method=method))


def cases(tier):
    th = tier == 'thorough'
    out = []
    for meth in ['chapman-euler', 'chapman-tme-1', 'chapman-tme-2', 'kolmogorov'] + (['chapman-tme-3'] if th else []):
        for n, T, st in [(2, 1, 1), (3, 1, 1), (2, 1, 2), (2, 1, 3), (2, 2, 1), (3, 2, 1), (2, 2, 2)] + ([(3, 1, 2)] if meth[-1] not in '23' or th else []) + \
                ([(4, 1, 1), (4, 2, 1)] if meth[-1] not in '23' else []) + ([(5, 1, 1)] if meth[-1] not in '23' else []) + \
                ([(3, 3, 1)] if th else []):
            rc = T > 1 and (n > 3 or (n > 2 and 'tme' in meth))
            out.append(Case(f'{meth}-n{n}-T{T}-s{st}', brute, dict(n=n, T=T, steps=st, method=meth, recur=rc), validate=not rc))
    out.append(Case('default', brute, dict(n=3, T=1, steps=1, method='chapman-tme-2', default=True)))
    for m in ['foo', 'euler', 'Kolmogorov']:
        out.append(Case(f'unknown-{m}', unknown, dict(method=m)))
    for meth, n, T, st in [('chapman-euler', n, 1, 1) for n in (6, 7, 8, 9)] + [('chapman-tme-1', n, 1, 1) for n in (6, 7, 8)] + [('kolmogorov', n, 1, 1) for n in (6, 7, 8, 9)] + \
            [('chapman-euler', 4, 1, 2), ('chapman-euler', 3, 1, 4), ('kolmogorov', 4, 1, 2), ('kolmogorov', 3, 1, 4), ('chapman-tme-1', 6, 1, 2), ('kolmogorov', 7, 1, 3), ('kolmogorov', 3, 2, 2),
                           ('chapman-euler', 3, 3, 1)]:
        out.append(Case(f'family-{meth}-n{n}-T{T}-s{st}', brute, dict(n=n, T=T, steps=st, method=meth, recur=False), thin=(1, 1), budget=300, validate=T == 1))
    for meth, n, T, st in [('chapman-euler', 2, 4, 1), ('chapman-euler', 2, 9, 1), ('chapman-euler', 2, 20, 1), ('chapman-euler', 3, 6, 1), ('chapman-euler', 2, 5, 2), ('kolmogorov', 3, 6, 1),
                           ('kolmogorov', 3, 12, 1), ('kolmogorov', 5, 4, 1), ('chapman-tme-1', 2, 5, 1), ('chapman-tme-2', 2, 4, 1), ('chapman-euler', 2, 1, 9), ('chapman-tme-1', 2, 1, 5)]:
        out.append(Case(f'family-long-{meth}-n{n}-T{T}-s{st}', brute, dict(n=n, T=T, steps=st, method=meth, recur=T > 1), thin=(1, 1), budget=50, validate=False))
    return out
