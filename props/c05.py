"""C05: multi-index tables, ranks, sizes, Gram/Hankel indices, extraction of moments."""
import math
from fractions import Fraction
import numpy as np
from engine.core import Case
from engine.ints import run_int_case
from mfs.multi_dims.multi_indices import (generate_graded_lexico_multi_indices, graded_lexico_indexof_multi_index,
                                          sizeof_multi_indices, gram_and_hankel_indices_graded_lexico, find_indices)
from mfs.multi_dims.moments import extract_moments, extract_mean, extract_cov, marginalise_moments
from .common import *

BOUNDS = 'rank: every multi-index (no bound on the entries) for d <= 4 (5 thorough), every lower degree bound; size: every pair of ' \
         'degree bounds for d <= 5 (7); tables: d <= 4, degree <= 6 (9), every lower bound, and single large ones up to d = 6, degree 300; Gram/Hankel indices: (d, N) up to ' \
         '(1,70), (2,12), (3,6), (4,4); extraction: arbitrary moment arrays with 0..2 batch axes, d <= 8'
OUTSIDE = 'larger dimensions; degrees whose ranks exceed machine integers'


def binpoly(n, k):
    """C(n, k) for a fixed k >= 0 as a polynomial in n (0 for 0 <= n < k)."""
    r = 1
    for i in range(k):
        r = r * (n - i)
    return r, math.factorial(k)


def ratio(api, pair):
    return api.scale(pair[0], Fraction(1, pair[1]) if api.symbolic else 1 / pair[1])


def size(api, d):
    """sizeof = number of multi-indices with lower <= |x| <= upper, for all bounds."""
    u, l = api.int('u', 0), api.int('l', 0)
    got = api.run(sizeof_multi_indices, d, u, l)
    if u < l:
        api.eq('empty', got, 0)
    else:
        # |{|x| <= u}| = C(u + d, d); below l: C(l - 1 + d, d)
        api.eq('size', got, ratio(api, binpoly(u + d, d)) - ratio(api, binpoly(l - 1 + d, d)))
    api.eq('default', api.run(sizeof_multi_indices, d, u), ratio(api, binpoly(u + d, d)))


def rank_formula(api, n):
    """Number of multi-indices that precede n: smaller degree, or equal degree and lexicographically smaller."""
    d = len(n)
    tot = 0
    for x in n:
        tot = tot + x
    r = ratio(api, binpoly(tot - 1 + d, d))
    rest = tot
    for i in range(d - 1):
        # entries i of predecessors: 0..n_i - 1; the remaining d-1-i entries sum to the rest
        # sum_{j < n_i} C(rest - j + d-2-i, d-2-i) = C(rest + k, k) - C(rest - n_i + k, k), k = d-1-i
        k = d - 1 - i
        r = r + ratio(api, binpoly(rest + k, k)) - ratio(api, binpoly(rest - n[i] + k, k))
        rest = rest - n[i]
    return r


def rank(api, d, box):
    """Rank of a symbolic multi-index with a symbolic lower degree bound."""
    n = [api.int(f'n{i}', 0, box) for i in range(d)]
    exp = rank_formula(api, n)
    api.eq('rank', api.run(graded_lexico_indexof_multi_index, n), exp)
    l = api.int('l', 0, None if box is None else d * box)
    tot = n[0]
    for x in n[1:]:
        tot = tot + x
    api.assume('>=', tot - l)
    got = api.run(graded_lexico_indexof_multi_index, n, l)
    api.eq('rank-lower', got, exp - ratio(api, binpoly(l - 1 + d, d)))


def steps(api, d):
    """The rank grows by one from a multi-index to its successor in the order; the zero multi-index has rank zero."""
    n = [api.int(f'n{i}', 0) for i in range(d)]
    r = api.run(graded_lexico_indexof_multi_index, n)
    api.eq('zero', api.run(graded_lexico_indexof_multi_index, [0] * d), 0)
    # successor: move one unit from the last non-zero entry behind the first, to its left neighbour; the rest to the end
    last = d - 1
    while last > 0 and n[last] == 0:
        last -= 1
    m = list(n)
    if last == 0:
        tot = n[0]
        m = [0] * d
        m[d - 1] = tot + 1
    else:
        v = m[last]
        m[last] = 0
        m[last - 1] = m[last - 1] + 1
        m[d - 1] = m[d - 1] + v - 1
    api.eq('successor', api.run(graded_lexico_indexof_multi_index, m), r + 1)


def table(api, d, u, l):
    """The generated table, its length, and the rank of a symbolic member."""
    t = np.asarray(generate_graded_lexico_multi_indices(d, u, l) if l else generate_graded_lexico_multi_indices(d, u))
    api.note('mfs.multi_dims.multi_indices.generate_graded_lexico_multi_indices')
    exp = grlex(d, u, l)
    api.true('shape', t.ndim == 2 and t.shape == (len(exp), d) and t.dtype.kind == 'i')
    api.true('length', int(sizeof_multi_indices(d, u, l)) == len(t))
    if t.ndim != 2 or t.shape[1] != d:
        return
    # every member (symbolic) stands at the place its rank names
    n = [api.int(f'n{i}', 0, u) for i in range(d)]
    tot = n[0]
    for x in n[1:]:
        tot = tot + x
    api.assume('>=', u - tot)
    api.assume('>=', tot - l)
    r = rank_formula(api, n) - ratio(api, binpoly(l - 1 + d, d))
    api.holds('in-range', '>=', r)
    api.holds('in-range2', '>=', len(exp) - 1 - r)
    for j in range(d):
        api.eq(f'entry{j}', api.select(t, r, j), n[j])


def find(api, d, box):
    """find_indices on arrays of multi-indices (leading axes)."""
    import itertools
    arr = np.array(list(itertools.product(range(box + 1), repeat=d)), dtype='int64')
    got = np.asarray(find_indices(arr))
    api.true('shape', got.shape == (len(arr),))
    shp = np.asarray(find_indices(arr.reshape((1, len(arr), d))))
    api.true('shape2', shp.shape == (1, len(arr)) and np.array_equal(shp[0], got))
    api.true('scalar', int(find_indices(tuple(int(v) for v in arr[-1]))) == int(got[-1]))
    n = [api.int(f'n{i}', 0, box) for i in range(d)]
    pos = 0
    for x in n:
        pos = pos * (box + 1) + x
    api.eq('find', api.select(got, pos), rank_formula(api, n))
    api.note('mfs.multi_dims.multi_indices.find_indices')


def gram(api, N, d):
    """ms[inds] for the moments of a Dirac measure at a free point: products of basis monomials."""
    x = api.reals('x', d)
    ms = np.array([mono(x, n) for n in grlex(d, 2 * N - 1)], dtype=object)
    inds = np.asarray(gram_and_hankel_indices_graded_lexico(N, d))
    basis = grlex(d, N - 1)
    api.true('shape', inds.shape == (d + 1, len(basis), len(basis)))
    api.true('range', bool((inds >= 0).all() and (inds < len(ms)).all()))
    b = np.array([mono(x, n) for n in basis], dtype=object)
    exp = O(d + 1, len(basis), len(basis))
    for i in range(len(basis)):
        for j in range(len(basis)):
            exp[0, i, j] = b[i] * b[j]
            for k in range(d):
                exp[k + 1, i, j] = x[k] * b[i] * b[j]
    api.eq('gram-hankel', ms[np.clip(inds, 0, len(ms) - 1)], exp)
    api.note('mfs.multi_dims.multi_indices.gram_and_hankel_indices_graded_lexico')


def mono(x, n):
    r = x[0] * 0 + 1
    for v, k in zip(x, n):
        r = r * v ** int(k)
    return r


def extract(api, d, N, batch, how):
    idx = grlex(d, 2 * N - 1)
    ms = api.reals('m', *batch, len(idx))
    call = api.run if how == 'jax' else api.eager_alloc
    for k, n in enumerate(idx):
        api.eq(f'moment{n}', call(lambda a: extract_moments(a, n), ms), ms[..., k])
    for axis in range(d):
        out = call(lambda a: marginalise_moments(a, d, N, axis), ms)
        exp = O(*batch, 2 * N)
        for p in range(2 * N):
            exp[..., p] = ms[..., idx.index(tuple(p if j == axis else 0 for j in range(d)))]
        api.eq(f'marginal{axis}', out, exp)
    if how == 'np':
        exp = O(*batch, d)
        for i in range(d):
            exp[..., i] = ms[..., idx.index(tuple(int(i == j) for j in range(d)))]
        api.eq('mean', api.eager_alloc(extract_mean, ms, d), exp)
        exp = O(*batch, d, d)
        for i in range(d):
            for j in range(d):
                exp[..., i, j] = ms[..., idx.index(tuple(int(i == k) + int(j == k) for k in range(d)))]
        api.eq('cov', api.eager_alloc(extract_cov, ms, d), exp)
    api.note('mfs.multi_dims.moments.extract_moments', 'mfs.multi_dims.moments.marginalise_moments')


def cases(tier):
    th = tier == 'thorough'
    out = []
    I = lambda name, fn, **p: out.append(Case(name, fn, p, runner=run_int_case, budget=300, max_paths=4000))
    for d in range(1, 8 if th else 6):
        I(f'size-d{d}', size, d=d)
    for d in range(1, 6 if th else 5):
        I(f'rank-d{d}', rank, d=d, box=None)
        I(f'successor-d{d}', steps, d=d)
    for d, b in ((1, 9), (2, 6), (3, 3), (4, 2), (5, 1)):
        I(f'rank-box-d{d}', rank, d=d, box=b)
    for d in range(1, 5):
        top = (9 if th else 6) if d < 4 else (6 if th else 4)
        for u in range(0, top + 1):
            for l in range(0, u + 1):
                if l in (0, 1, 2, u) or u == top:
                    I(f'table-d{d}-u{u}-l{l}', table, d=d, u=u, l=l)
    for d, u, l in [(1, 140, 0), (1, 300, 3), (2, 24, 0), (2, 15, 9), (3, 11, 0), (3, 9, 5), (4, 7, 0), (5, 4, 0), (6, 4, 1)]:
        I(f'table-large-d{d}-u{u}-l{l}', table, d=d, u=u, l=l)
    for d, b in ((1, 8), (2, 5), (3, 3), (4, 2), (2, 20)):
        I(f'find-d{d}-{b}', find, d=d, box=b)
    for d, N in [(1, n) for n in range(1, 6)] + [(2, n) for n in range(1, 5)] + [(3, 1), (3, 2), (3, 3), (4, 2), (2, 12), (4, 4), (3, 6), (1, 70)] + \
            ([(2, 5), (2, 6), (3, 4), (4, 3), (5, 3), (1, 140), (6, 3)] if th else []):
        out.append(Case(f'gram-d{d}-N{N}', gram, dict(N=N, d=d)))
    for d in range(1, 5 if th else 4):
        for batch in ((), (2,), (2, 3)):
            for how in ('np', 'jax'):
                out.append(Case(f'extract-d{d}-b{len(batch)}-{how}', extract, dict(d=d, N=2, batch=batch, how=how)))
    out.append(Case('extract-d2-N3', extract, dict(d=2, N=3, batch=(), how='np')))
    for d, N, b, how in [(4, 1, (), 'jax'), (4, 2, (), 'np'), (5, 2, (), 'np'), (5, 2, (), 'jax'), (6, 2, (), 'np'), (6, 2, (2,), 'np'),
                         (7, 2, (), 'np'), (8, 2, (), 'np'), (1, 4, (), 'np'), (1, 5, (), 'jax'), (2, 4, (), 'jax'), (2, 5, (2,), 'np'), (3, 3, (), 'np')]:
        out.append(Case(f'extract-d{d}-N{N}-b{len(b)}-{how}', extract, dict(d=d, N=N, batch=b, how=how)))
    return out
