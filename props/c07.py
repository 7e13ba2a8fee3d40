"""C07: closed-form moments of Normal, uniform and Gaussian-mixture distributions."""
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.one_dim.moments import central_moment_of_normal, raw_moment_of_standard_normal, raw_moment_of_normal
from mfs.multi_dims.moments import raw_moments_mvn_mgf, central_moments_mvn_kan, raw_moments_mvn_kan, moments_nd_uniform
from mfs.utils import GaussianSum1D, GaussianSumND
from .common import *

BOUNDS = '1D order <= 10 (14 thorough); d <= 3, total order <= 6/5/4 for d = 1/2/3 (thorough 8/6/5); mixtures of 1..4 ' \
         'components in 1D (2N <= 8 moments), 1..3 components in d <= 2, 1..2 in d = 3; samplers up to 4 components, 3 draws; every mean, ' \
         'variance, weight and draw symbolic; higher orders (1D 18, d = 2: 7, d = 4: 4, d = 6: 2) and 6 components along one-parameter families'
OUTSIDE = 'higher orders and dimensions; Monte Carlo convergence of the samplers; rounding'


class Gauss:
    """Moments of N(m, P) by the integration-by-parts recursion (independent of the library's formulas)."""

    def __init__(self, m, P):
        self.m, self.P, self.d, self.memo = m, P, len(m), {}

    def __call__(self, n):
        n = tuple(int(x) for x in n)
        if any(x < 0 for x in n):
            return 0
        if sum(n) == 0:
            return 1
        if n in self.memo:
            return self.memo[n]
        i = next(k for k in range(self.d) if n[k])
        r = list(n)
        r[i] -= 1
        v = self.m[i] * self(r)
        for j in range(self.d):
            if r[j]:
                q = list(r)
                q[j] -= 1
                v = v + r[j] * self.P[i][j] * self(q)
        self.memo[n] = v
        return v


def oned(api, pmax, p0=0):
    mean, var = api.real('mean'), api.real('var', pos=True)
    g, c, s = Gauss([mean], [[var]]), Gauss([0], [[var]]), Gauss([0], [[1]])
    for p in range(p0, pmax + 1):
        api.eq(f'raw{p}', api.run(lambda m, v: raw_moment_of_normal(m, v, p), mean, var), g((p,)))
        api.eq(f'central{p}', api.run(lambda v: central_moment_of_normal(v, p), var), c((p,)))
        api.eq(f'standard{p}', api.run(lambda: raw_moment_of_standard_normal(p)), api.q(s((p,))))
        api.eq(f'raw{p}-mean0', api.run(lambda v: raw_moment_of_normal(0., v, p), var), c((p,)))
    api.note('mfs.one_dim.moments.raw_moment_of_normal', 'mfs.one_dim.moments.central_moment_of_normal',
             'mfs.one_dim.moments.raw_moment_of_standard_normal')


def sym_cov(api, name, d):
    P = zeros(d, d)
    if not api.symbolic:
        # any positive definite matrix: the formulas take roots of quadratic forms before discarding them
        pass
    for i in range(d):
        for j in range(i, d):
            P[i, j] = P[j, i] = api.real(f'{name}{i}{j}')
    return fin(P)


def spd_cov(api, name, d):
    """L L^T with free lower triangular L, positive diagonal: every positive definite matrix."""
    L = zeros(d, d)
    for i in range(d):
        for j in range(i + 1):
            L[i, j] = api.real(f'{name}{i}{j}', pos=(i == j))
    return fin(mm(L, L.T)), fin(L)


def mvn(api, d, lo, hi, path):
    m = api.reals('m', d)
    P, _ = spd_cov(api, 'L', d)
    g, c = Gauss(list(m), P), Gauss([0] * d, P)
    for n in grlex(d, hi, lo):
        if path == 'jax':
            api.eq(f'raw{n}', api.run(lambda a, b: jnp.asarray(raw_moments_mvn_kan(a, b, n)), m, P), g(n))
            api.eq(f'central{n}', api.run(lambda b: jnp.asarray(central_moments_mvn_kan(b, n)), P), c(n))
        elif path == 'numpy':
            idx = np.array(n)
            api.eq(f'raw{n}', api.eager_np(raw_moments_mvn_kan, m, P, idx), g(n))
            if sum(n) % 2 == 0:
                api.eq(f'central{n}', api.eager_np(central_moments_mvn_kan, P, n), c(n))
        else:
            api.eq(f'mgf{n}', api.run(lambda a, b: raw_moments_mvn_mgf(a, b, n), m, P), g(n))
    api.note('mfs.multi_dims.moments.raw_moments_mvn_kan', 'mfs.multi_dims.moments.central_moments_mvn_kan',
             'mfs.multi_dims.moments.raw_moments_mvn_mgf')


def uniform(api, d, hi, means, form):
    lo = [api.real(f'a{i}') for i in range(d)]
    up = [lo[i] + api.real(f'w{i}', pos=True) for i in range(d)]
    ce = [api.real(f'c{i}') for i in range(d)] if means else [0] * d
    b = [(lo[i], up[i]) for i in range(d)]
    if form == 'array':
        b = fin(np.array([[lo[i], up[i]] for i in range(d)], dtype=object))
        cc = fin(np.array(ce, dtype=object))
    else:
        cc = list(ce)
    for n in grlex(d, hi):
        exp = 1
        for i in range(d):
            t = 0
            for k in range(n[i] + 1):
                t = t + (up[i] - ce[i]) ** k * (lo[i] - ce[i]) ** (n[i] - k)
            exp = exp * t / (n[i] + 1)
        out = api.eager_np(moments_nd_uniform, b, n, cc) if means else api.eager_np(moments_nd_uniform, b, n)
        api.eq(f'{n}', out, exp)


def simplex(api, n):
    """Positive weights summing to one."""
    w = [api.real(f'w{i}', pos=True, lo=0, hi=1) for i in range(n - 1)]
    last = 1
    for x in w:
        last = last - x
    if n > 1:
        api.assume('>', last)
    return fin(np.array(w + [last], dtype=object))


def gs1_inputs(api, n):
    return api.reals('m', n), api.reals('v', n, pos=True), simplex(api, n) if n > 1 else fin(np.array([api.q(1)], dtype=object))


def gs1(api, n, N, default=False):
    ms, vs, ws = gs1_inputs(api, n)
    g = api.run((lambda a, b, c: GaussianSum1D.new(a, b, c)) if default else
                (lambda a, b, c: GaussianSum1D.new(a, b, c, N=N)), ms, vs, ws)
    api.note('mfs.utils.GaussianSum1D.new')
    K = 2 * N

    def mom(p, centre=0):
        t = 0
        for k in range(n):
            t = t + ws[k] * Gauss([ms[k] - centre], [[vs[k]]])((p,))
        return t
    mean = mom(1)
    var = mom(2, mean)
    api.eq('mean', g.mean, mean)
    api.eq('variance', g.variance, var)
    api.eq('rms', g.rms, fin(np.array([mom(p) for p in range(K)], dtype=object)))
    cms = [mom(p, mean) for p in range(K)]
    api.eq('cms', g.cms, fin(np.array(cms, dtype=object)))
    sd = api.sqrt(var)
    api.eq('scms', g.scms, fin(np.array([cms[p] / sd ** p for p in range(K)], dtype=object)))
    api.eq('means', g.means, ms)
    api.eq('variances', g.variances, vs)
    api.eq('weights', g.weights, ws)


def npdf(api, x, m, v):
    return api.exp(-((x - m) ** 2) / (2 * v)) / api.sqrt(2 * api.pi() * v)


def gs1_pdf(api, n, k):
    ms, vs, ws = gs1_inputs(api, n)
    xs = api.reals('x', k) if k else api.real('x')
    out = api.run(lambda a, b, c, x: GaussianSum1D.new(a, b, c).pdf(x), ms, vs, ws, xs)
    api.note('mfs.utils.GaussianSum1D.pdf')
    pts = list(xs) if k else [xs]
    api.eq('pdf', out, fin(np.array([sum((ws[i] * npdf(api, x, ms[i], vs[i]) for i in range(n)), 0 * pts[0])
                                     for x in pts], dtype=object)))


def gsn_inputs(api, n, d):
    ms = api.reals('m', n, d)
    Ps, Ls = zip(*[spd_cov(api, f'L{k}_', d) for k in range(n)])
    return ms, fin(np.stack([np.asarray(P) for P in Ps])), Ls, \
        simplex(api, n) if n > 1 else fin(np.array([api.q(1)], dtype=object))


def gsn(api, n, d, N):
    ms, Ps, _, ws = gsn_inputs(api, n, d)
    idx = grlex(d, 2 * N - 1)
    g = api.eager(GaussianSumND.new, ms, Ps, ws, np.array(idx))
    api.note('mfs.utils.GaussianSumND.new')

    def mom(q, centre=None):
        t = 0
        for k in range(n):
            c = [ms[k, i] - (centre[i] if centre is not None else 0) for i in range(d)]
            t = t + ws[k] * Gauss(c, Ps[k])(q)
        return t
    mean = [mom([int(i == j) for j in range(d)]) for i in range(d)]
    cov = [[mom([int(i == k) + int(j == k) for k in range(d)], mean) for j in range(d)] for i in range(d)]
    api.eq('mean', g.mean, fin(np.array(mean, dtype=object)))
    api.eq('cov', g.cov, fin(np.array(cov, dtype=object)))
    api.eq('rms', g.rms, fin(np.array([mom(q) for q in idx], dtype=object)))
    api.eq('cms', g.cms, fin(np.array([mom(q, mean) for q in idx], dtype=object)))
    api.true('d', int(g.d) == d)
    api.eq('covs', g.covs, Ps)
    api.eq('means', g.means, ms)
    api.eq('weights', g.weights, ws)


def gsn_pdf(api, n, d, log):
    ms, Ps, Ls, ws = gsn_inputs(api, n, d)
    x = api.reals('x', d)

    tot = 0
    for k in range(n):
        z = api.solve(Ls[k], fin(np.array([x[i] - ms[k, i] for i in range(d)], dtype=object)))
        det = 1
        for i in range(d):
            det = det * Ls[k][i, i]
        q = 0
        for v in z:
            q = q + v * v
        tot = tot + ws[k] * api.exp(-q / 2) / det / api.sqrt(2 * api.pi()) ** d

    def f(a, b, c, x):
        z = jnp.zeros(1)
        g = GaussianSumND(d=d, means=a, covs=b, weights=c, mean=z, cov=z, rms=z, cms=z)
        return g.logpdf(x) if log else g.pdf(x)
    out = api.run(f, ms, Ps, ws, x)
    api.note('mfs.utils.GaussianSumND.pdf', 'mfs.utils.GaussianSumND.logpdf')
    api.eq('pdf', api.exp(out) if log else out, tot)


def sampled(api, n, d, m, seed):
    """m draws from an n-component mixture (d = 0: the scalar class): component by weight, affine Gaussian draw."""
    api.rand_symbolic()
    key = jax.random.PRNGKey(seed)
    if d == 0:
        ms, vs, ws = gs1_inputs(api, n)
        z = jnp.zeros(1)
        out = api.run(lambda a, b, c: GaussianSum1D(means=a, variances=b, weights=c, mean=z, variance=z, rms=z, cms=z,
                                                    scms=z).sampler(key, m), ms, vs, ws)
        api.note('mfs.utils.GaussianSum1D.sampler')
    else:
        ms, Ps, Ls, ws = gsn_inputs(api, n, d)
        z = jnp.zeros(1)
        out = api.run(lambda a, b, c: GaussianSumND(d=d, means=a, covs=b, weights=c, mean=z, cov=z, rms=z,
                                                    cms=z).sampler(key, m), ms, Ps, ws)
        api.note('mfs.utils.GaussianSumND.sampler')
    D = max(d, 1)
    log = api.draws()
    us, zs = [k for t, k, _ in log if t == 'uniform'], [k for t, k, _ in log if t == 'normal']
    api.true('keys differ', len(set(us + zs)) == len(us + zs))
    ok = sum(q for t, _, q in log if t == 'uniform') == m and sum(q for t, _, q in log if t == 'normal') == m * D
    api.true('one uniform and one normal vector per draw', ok)
    if not ok or len(us) != 1 or len(zs) != 1:
        return
    u = api.uniform(np.array(us[0], dtype='uint32'), (m,))
    e = api.normal(np.array(zs[0], dtype='uint32'), (m, D))
    exp = O(m, D)
    for i in range(m):
        r, c, cs = 1 - u[i], 0, ws[0]
        while c < n - 1 and not api.decide('>=', cs - r):
            c += 1
            cs = cs + ws[c]
        for j in range(D):
            if d == 0:
                exp[i, j] = ms[c] + api.sqrt(vs[c]) * e[i, j]
            else:
                exp[i, j] = ms[c, j]
                for k in range(j + 1):
                    exp[i, j] = exp[i, j] + Ls[c][j, k] * e[i, k]
    api.eq('draws', out, fin(exp[:, 0] if d == 0 else exp))


def cases(tier):
    th = tier == 'thorough'
    out = [Case('normal-1d', oned, dict(pmax=10)),
           Case('uniform-1d', uniform, dict(d=1, hi=7 if th else 6, means=False, form='list')),
           Case('uniform-1d-means', uniform, dict(d=1, hi=6, means=True, form='array')),
           Case('uniform-2d', uniform, dict(d=2, hi=4, means=False, form='array')),
           Case('uniform-2d-means', uniform, dict(d=2, hi=4, means=True, form='list')),
           Case('uniform-3d-means', uniform, dict(d=3, hi=3, means=True, form='list'))]
    if th:
        out.append(Case('normal-1d-high', oned, dict(pmax=14, p0=11)))
    top = {1: 8, 2: 6, 3: 5} if th else {1: 6, 2: 5, 3: 4}
    for d in (1, 2, 3):
        for p in ('jax', 'numpy', 'mgf'):
            for s in range(0, top[d] + 1):
                if p == 'mgf' and s > {1: 5, 2: 4, 3: 3}[d]:
                    continue
                out.append(Case(f'mvn-{p}-d{d}-order{s}', mvn, dict(d=d, lo=s, hi=s, path=p), budget=300))
    for n in (1, 2, 3, 4):
        for N in (1, 2, 3, 4):
            out.append(Case(f'mixture1d-{n}comp-N{N}', gs1, dict(n=n, N=N)))
        out.append(Case(f'mixture1d-pdf-{n}comp', gs1_pdf, dict(n=n, k=n)))
    out.append(Case('mixture1d-default', gs1, dict(n=2, N=2, default=True)))
    out.append(Case('mixture1d-pdf-scalar', gs1_pdf, dict(n=2, k=0)))
    for n, d, N in [(1, 1, 2), (2, 1, 2), (1, 2, 1), (2, 2, 1), (1, 2, 2), (2, 2, 2), (3, 1, 2), (3, 1, 3), (3, 2, 1), (1, 3, 1), (2, 3, 1), (3, 2, 2), (1, 3, 2), (1, 4, 1), (2, 1, 3), (1, 2, 3)] + ([(2, 3, 2), (1, 4, 2), (2, 2, 3)] if th else []):
        out.append(Case(f'mixtureNd-{n}comp-d{d}-N{N}', gsn, dict(n=n, d=d, N=N), budget=300))
    for n, d in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (4, 1), (3, 2), (1, 3)]:
        out.append(Case(f'mixtureNd-pdf-{n}comp-d{d}', gsn_pdf, dict(n=n, d=d, log=False)))
        if n < 3:
            out.append(Case(f'mixtureNd-logpdf-{n}comp-d{d}', gsn_pdf, dict(n=n, d=d, log=True)))
    for n, d, m in [(1, 0, 2), (2, 0, 1), (2, 0, 2), (3, 0, 1), (1, 1, 1), (2, 1, 2), (1, 2, 2), (2, 2, 1), (1, 0, 1), (1, 0, 3), (2, 0, 3), (1, 1, 3), (2, 1, 1), (3, 1, 1), (3, 0, 2), (2, 2, 2), (2, 3, 1), (3, 2, 1), (4, 0, 1), (1, 4, 1)] + \
            ([(3, 0, 3), (2, 0, 4), (4, 0, 2), (2, 2, 3), (2, 4, 1)] if th else []):
        out.append(Case(f'sampler-{n}comp-d{d}-{m}draws', sampled, dict(n=n, d=d, m=m, seed=n + 3 * m), max_paths=200))
    F = dict(thin=(1, '1/8'), budget=300)
    out.append(Case('family-normal-1d', oned, dict(p0=11, pmax=24 if th else 18), **F))
    for p in ('jax', 'numpy'):
        for d, s in [(1, 7), (1, 8), (1, 9), (1, 10), (1, 11), (1, 12), (2, 6), (2, 7), (3, 5), (4, 0), (4, 1), (4, 2), (4, 3), (4, 4), (5, 1), (5, 2), (5, 3), (6, 2)] + ([(2, 8), (3, 6), (4, 5)] if th else []):
            out.append(Case(f'family-mvn-{p}-d{d}-order{s}', mvn, dict(d=d, lo=s, hi=s, path=p), **F))
    out.append(Case('family-mvn-mgf-d4-order3', mvn, dict(d=4, lo=3, hi=3, path='mgf'), **F))
    out.append(Case('family-uniform-1d', uniform, dict(d=1, hi=14, means=True, form='list'), **F))
    out.append(Case('family-uniform-2d', uniform, dict(d=2, hi=8, means=False, form='list'), **F))
    out.append(Case('family-uniform-4d', uniform, dict(d=4, hi=2, means=True, form='array'), **F))
    out.append(Case('family-mixture1d-5comp', gs1, dict(n=5, N=6), **F))
    out.append(Case('family-mixture1d-pdf-6comp', gs1_pdf, dict(n=6, k=2), **F))
    out.append(Case('family-mixtureNd-4comp', gsn, dict(n=4, d=2, N=2), **F))
    out.append(Case('family-mixtureNd-d3', gsn, dict(n=2, d=3, N=2), **F))
    out.append(Case('family-mixtureNd-pdf', gsn_pdf, dict(n=3, d=3, log=False), **F))
    out.append(Case('family-mixtureNd-logpdf', gsn_pdf, dict(n=2, d=3, log=True), **F))
    out.append(Case('family-sampler-5comp', sampled, dict(n=5, d=0, m=2, seed=3), max_paths=400, **F))
    out.append(Case('family-sampler-3comp-d3', sampled, dict(n=3, d=3, m=2, seed=4), max_paths=400, **F))
    return out
