"""C01: the one-dimensional moment quadrature reproduces the moments it was built from."""
import numpy as np
from engine.core import Case
from mfs.one_dim import quadtures
from mfs.one_dim.quadtures import moment_quadrature
from .common import *

BOUNDS = 'n nodes (2n and 2n + 1 moments), n <= 6 quick / 9 thorough: mean, scale, all moments symbolic (any positive definite ' \
         'moment sequence, parametrised by its Jacobi matrix); n <= 20 (25) along one-parameter families'
OUTSIDE = 'larger n; moment sequences on the boundary of the moment cone (fewer than n support points); rounding'


def q1(api, n, mode, ldl, sort, odd=False):
    J = jacobi(api, 'j', n, mean0=(mode != 'raw'))
    ms = matpow00(J, 2 * n + odd)
    mean, scale = 0., 1.
    args = [ms]
    if mode != 'raw':
        mean = api.real('mean')
        args.append(mean)
    if mode == 'scaled':
        scale = api.real('scale', pos=True)
        args.append(scale)
    w, x = api.run(lambda *a: moment_quadrature(*a, sort_nodes=sort, ldl=ldl), *args)
    api.note('mfs.one_dim.quadtures.moment_quadrature', 'mfs.one_dim.quadtures.hankel_indices')
    if ldl:
        api.note('mfs.utils.ldl_chol', 'mfs.utils.ldl')
    api.true('shape', np.shape(w) == (n,) and np.shape(x) == (n,))
    sums = []
    for k in range(2 * n):
        s = 0
        for i in range(n):
            s = s + w[i] * ((x[i] - mean) / scale) ** k
        sums.append(s)
    api.eq('moments', fin(np.array(sums, dtype=object)), ms[:2 * n])
    api.holds('weights', '>=', w)
    if sort:
        for i in range(n - 1):
            api.holds('ascending', '>=', x[i + 1] - x[i])


def gw(api, n, sort):
    f = getattr(quadtures, '_gauss_quadrature_golub_welsch', None)
    if f is None:
        return
    J = jacobi(api, 'j', n)
    ms = matpow00(J, 2 * n)
    mean = api.real('mean')
    scale = api.real('scale', pos=True)
    w, x = api.run(lambda a, b, c: f(a, b, c, sort_nodes=sort), ms, mean, scale)
    api.note('mfs.one_dim.quadtures._gauss_quadrature_golub_welsch')
    m = np.shape(w)[0]
    sums = []
    for k in range(2 * (n - 1)):
        s = 0
        for i in range(m):
            s = s + w[i] * ((x[i] - mean) / scale) ** k
        sums.append(s)
    api.eq('moments', fin(np.array(sums, dtype=object)), ms[:2 * (n - 1)])


def cases(tier):
    out = []
    N = 6 if tier == 'quick' else 9
    for n in range(1, N + 1):
        for mode in ('raw', 'central', 'scaled'):
            for ldl in (False, True) if n <= 7 else (False,):
                for sort in ((False, True) if n <= 6 else (False,)):
                    out.append(Case(f'{mode}-n{n}{"-ldl" if ldl else ""}{"-sort" if sort else ""}', q1,
                                    dict(n=n, mode=mode, ldl=ldl, sort=sort), budget=60 * n,
                                    bounds=f'{2 * n} moments, {mode}'))
    for n in (1, 2, 3, 4):
        for mode in ('raw', 'central', 'scaled'):
            for ldl in (False, True):
                out.append(Case(f'odd-length-{mode}-n{n}{"-ldl" if ldl else ""}', q1, dict(n=n, mode=mode, ldl=ldl, sort=False, odd=True),
                                budget=60 * n, bounds=f'{2 * n + 1} moments'))
    for n in range(3, N + 1):
        out.append(Case(f'golub-welsch-n{n}', gw, dict(n=n, sort=False), budget=100, bounds=f'{2 * n} moments'))
    for n, mode, ldl in ([(k, m, l) for k in range(7, 10) for m in ('raw', 'central', 'scaled') for l in (False, True)] + [(k, m, False) for k in range(10, 21) for m in ('raw', 'central', 'scaled')] if tier == 'quick' else
                         [(k, m, l) for k in range(7, 26) for m in ('raw', 'central', 'scaled') for l in (False, True) if k <= 12 or not l]):
        out.append(Case(f'family-{mode}-n{n}{"-ldl" if ldl else ""}', q1, dict(n=n, mode=mode, ldl=ldl, sort=False), thin=(1, 1),
                        budget=300, bounds=f'{2 * n} moments, one-parameter family'))
    return out
