"""C02: the multidimensional moment quadrature reproduces all moments of total degree < 2N."""
import numpy as np
from engine.core import Case
from mfs.multi_dims.quadratures import moment_quadrature_nd, nd_cartesian_prod, nd_cartesian_prod_2, \
    nd_cartesian_prod_indices
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
from .common import *

BOUNDS = '(d, N) in {(1,1..4), (2,1..3), (3,1..2)} for all values; (2,4), (1,6), (1,8) quick and (2,5), (2,6), (1,12) thorough along one-parameter families; N = 2: every positive ' \
         'definite moment sequence; N >= 3: affine images (upper triangular, correlated) of independent variables with ' \
         'arbitrary marginal moment sequences; mean and scale vectors symbolic'
OUTSIDE = 'larger (d, N); for N >= 3 moment sequences outside the affine-product family; singular Gram matrices'


def quad(api, d, N, mode, kind, ldl, sort, corr=True):
    M = Measure(api, 'm', d, N, kind, corr=corr)
    inds = gram_and_hankel_indices_graded_lexico(N, d)
    idx = grlex(d, 2 * N - 1)
    mean = scale = None
    if mode == 'raw':
        ms = M.moments()
        w, x = api.run(lambda a: moment_quadrature_nd(a, inds, sort_nodes=sort, ldl=ldl), ms)
    else:
        mean = api.reals('mean', d)
        if mode == 'central':
            ms = M.moments()
            w, x = api.run(lambda a, b: moment_quadrature_nd(a, inds, b, sort_nodes=sort, ldl=ldl), ms, mean)
        else:
            scale = api.reals('scale', d, pos=True)
            ms = M.moments()
            w, x = api.run(lambda a, b, c: moment_quadrature_nd(a, inds, b, c, sort_nodes=sort, ldl=ldl), ms, mean, scale)
    api.note('mfs.multi_dims.quadratures.moment_quadrature_nd', 'mfs.multi_dims.quadratures.nd_cartesian_prod',
             'mfs.multi_dims.quadratures.nd_cartesian_prod_indices',
             'mfs.multi_dims.multi_indices.gram_and_hankel_indices_graded_lexico')
    r = np.shape(w)[0]
    api.true('shape', np.shape(x) == (r, d))
    sums = []
    for n in idx:
        s = 0
        for i in range(r):
            t = w[i]
            for k in range(d):
                if n[k]:
                    v = x[i, k]
                    if mean is not None:
                        v = v - mean[k]
                    if scale is not None:
                        v = v / scale[k]
                    t = t * v ** n[k]
            s = s + t
        sums.append(s)
    api.eq('moments', fin(np.array(sums, dtype=object)), ms)


def zero(v):
    return not v.num if hasattr(v, 'num') else bool(v == 0)


def matched(out, exp):
    """Rows of out in the order of exp when they are a permutation of each other (the order is not promised)."""
    out = np.asarray(out)
    if out.shape != exp.shape:
        return out
    same = lambda a, b: all(p is q or zero(p - q) for p, q in zip(a.reshape(-1), b.reshape(-1)))
    free, take = list(range(len(out))), []
    for i in range(len(exp)):
        k = next((k for k in free if same(out[k], exp[i])), None)
        if k is None:
            return out
        free.remove(k)
        take.append(k)
    return out[take]


def cart(api, d, n, m):
    """Every combination of one element per vector, once (m: length of vector elements, 0 for scalars)."""
    import itertools
    x = api.reals('x', d, n)
    combos = list(itertools.product(range(n), repeat=d))
    inds = np.asarray(nd_cartesian_prod_indices(d, n))
    api.true('indices', inds.shape == (n ** d, d) and sorted(tuple(int(v) for v in r) for r in inds) == combos)
    exp = O(n ** d, d)
    for i, c in enumerate(combos):
        for j in range(d):
            exp[i, j] = x[j, c[j]]
    api.eq('default', matched(api.run(lambda a: nd_cartesian_prod(a), x), exp), exp)
    api.eq('given', matched(api.run(lambda a: nd_cartesian_prod(a, inds), x), exp), exp)
    api.eq('meshgrid', matched(api.run(lambda a: nd_cartesian_prod_2(a), x), exp), exp)
    if d * n * n <= 32:
        y = api.reals('y', d, n, n)          # columns are the elements
        e3 = O(n ** d, n, d)
        for i, c in enumerate(combos):
            for j in range(d):
                for k in range(n):
                    e3[i, k, j] = y[j, k, c[j]]
        api.eq('columns', matched(api.run(lambda a: nd_cartesian_prod(a), y), e3), e3)
        api.eq('columns given', matched(api.run(lambda a: nd_cartesian_prod(a, inds), y), e3), e3)
    api.note('mfs.multi_dims.quadratures.nd_cartesian_prod', 'mfs.multi_dims.quadratures.nd_cartesian_prod_2',
             'mfs.multi_dims.quadratures.nd_cartesian_prod_indices')


def cases(tier):
    out = []
    for d, n in [(1, 1), (1, 2), (1, 3), (1, 5), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (3, 1), (3, 2), (3, 3), (3, 4), (4, 1), (4, 2), (4, 3), (5, 2), (6, 2)]:
        out.append(Case(f'cartesian-d{d}-n{n}', cart, dict(d=d, n=n, m=0)))
    dims = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)]
    for d, N in dims:
        for mode in ('raw', 'central', 'scaled'):
            for ldl in (False, True):
                kind = 'tensor' if N == 2 and d > 1 else 'product'
                out.append(Case(f'{mode}-d{d}-N{N}{"-ldl" if ldl else ""}', quad,
                                dict(d=d, N=N, mode=mode, kind=kind, ldl=ldl, sort=False), budget=250,
                                bounds=f'd={d}, degree <= {2 * N - 1}, {kind} family'))
    for mode in ('raw', 'central', 'scaled'):
        for d, N, ldl in [(2, 2, False), (2, 2, True), (1, 3, False), (3, 1, True)]:
            out.append(Case(f'{mode}-d{d}-N{N}{"-ldl" if ldl else ""}-sort', quad,
                            dict(d=d, N=N, mode=mode, kind='tensor' if N == 2 else 'product', ldl=ldl, sort=True)))
    th = tier == 'thorough'
    for d, N, mode, ldl in [(2, 4, 'raw', False), (2, 4, 'scaled', True), (2, 4, 'central', False), (4, 1, 'central', False)] + \
            [(1, N, m, l) for N in (5, 6, 7, 8, 9) for m in ('raw', 'central', 'scaled') for l in (False, True)] + \
            ([(2, 5, 'scaled', False), (2, 5, 'raw', True), (2, 6, 'raw', False), (1, 12, 'raw', False)] if th else []):
        out.append(Case(f'family-{mode}-d{d}-N{N}{"-ldl" if ldl else ""}', quad,
                        dict(d=d, N=N, mode=mode, kind='product', ldl=ldl, sort=False), budget=300 if not th else 1500, thin=(1, 1),
                        bounds=f'd={d}, degree <= {2 * N - 1}, one-parameter family'))
    return out
