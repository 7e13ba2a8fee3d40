"""C11: sigma-point rules integrate polynomials against a Gaussian exactly."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.classical_filters_smoothers.quadratures import SigmaPoints, gaussian_expectation
from .common import *
from .c07 import Gauss

BOUNDS = 'cubature d <= 6 (7 thorough), degree 3; Gauss-Hermite d = 1 order <= 6, d = 2 order <= 5, d = 3 order <= 3, every ' \
         'monomial of degree <= 2 order - 1; mean and square root symbolic (irrational rule constants: ' \
         '|mean|, |root| <= 4); cubature d <= 9, order <= 9 (d = 1), 7 (d = 2), d <= 5 along one-parameter families'
OUTSIDE = 'higher orders and dimensions; integrands that are not polynomials; rounding'


def mk(kind, d, order):
    if kind == 'cubature':
        return SigmaPoints.cubature(d)
    if order is None:
        return SigmaPoints.gauss_hermite(d)
    return SigmaPoints.gauss_hermite(d, order)


def root(api, d, tri=True, k=''):
    L = zeros(d, d)
    for i in range(d):
        for j in range(i + 1 if tri else d):
            L[i, j] = api.real(f'L{k}{i}{j}')
    return fin(L)


def rule(api, kind, d, order, lo, hi, npts):
    m = api.reals('m', d)
    L = root(api, d)
    g = Gauss(list(m), mm(L, L.T))
    idx = grlex(d, hi, lo)

    def f(m, L):
        sp = mk(kind, d, order)
        chi = sp.gen_sigma_points(m, L)
        ev = jnp.stack([jnp.prod(chi ** jnp.asarray(n), axis=1) for n in idx], axis=1)
        a = sp.expectation(ev)
        b = sp.expectation_from_nodes(lambda c: jnp.stack([jnp.prod(c ** jnp.asarray(n), axis=1) for n in idx], axis=1), chi)
        return a, b, chi, sp.w, sp.expectation(ev[:, 0]), sp.expectation(ev[:, :, None] * jnp.ones((1, 1, 2)))
    a, b, chi, w, sc, mat = api.run(f, m, L)
    api.note('mfs.classical_filters_smoothers.quadratures.SigmaPoints.' + kind,
             'mfs.classical_filters_smoothers.quadratures.SigmaPoints.gen_sigma_points',
             'mfs.classical_filters_smoothers.quadratures.SigmaPoints.expectation',
             'mfs.classical_filters_smoothers.quadratures.SigmaPoints.expectation_from_nodes')
    exp = fin(np.array([g(n) + 0 * m[0] for n in idx], dtype=object))
    api.eq('expectation', a, exp)
    api.eq('from_nodes', b, exp)
    api.eq('scalar integrand', sc, exp[0])
    api.eq('matrix integrand', mat, fin(np.stack([exp, exp], axis=1)))
    api.true('points', np.shape(chi) == (npts, d) and np.shape(w) == (npts,))
    sp = mk(kind, d, order)
    api.true('attributes', sp.d == d and sp.n_points == npts)
    for i in range(npts):
        api.holds(f'positive weight {i}', '>', w[i])


def gexp(api, T, d, order, force):
    """Expectation of several functions under T Gaussians."""
    ms = [api.reals(f'm{t}_', d) for t in range(T)]
    Ls = [root(api, d, True, f'{t}_') for t in range(T)]
    if force:
        M, C = np.array([m[0] for m in ms], dtype=object), np.array([L[0, 0] for L in Ls], dtype=object)
        if force == 2:
            M = M.reshape(T, 1)
    else:
        M, C = np.stack(ms), np.stack(Ls)
    M, C = fin(M), fin(C)
    hi = min(2 * (order or 10) - 1, 3)
    idx = grlex(d, hi, 1)

    def f(M, C):
        fun = lambda chi: jnp.stack([jnp.prod(chi ** jnp.asarray(n), axis=-1) for n in idx], axis=-1)
        kw = dict(force_shape=True) if force else {}
        if order is not None:
            kw['order'] = order
        if d > 1:
            kw['d'] = d
        return gaussian_expectation(M, C, fun, **kw)
    out = api.run(f, M, C)
    api.note('mfs.classical_filters_smoothers.quadratures.gaussian_expectation')
    exp = []
    for t in range(T):
        g = Gauss(list(ms[t]), mm(Ls[t], Ls[t].T))
        exp.append([g(n) for n in idx])
    api.eq('E', out, fin(np.array(exp, dtype=object)))


def cases(tier):
    th = tier == 'thorough'
    out = []
    for d in range(1, 8 if th else 7):
        out.append(Case(f'cubature-{d}', rule, dict(kind='cubature', d=d, order=None, lo=0, hi=3, npts=2 * d)))
    for o in range(1, 7):
        out.append(Case(f'gauss_hermite-1-{o}', rule, dict(kind='gauss_hermite', d=1, order=o, lo=0, hi=2 * o - 1, npts=o)))
    out.append(Case('gauss_hermite-1-default', rule, dict(kind='gauss_hermite', d=1, order=None, lo=0, hi=5, npts=3)))
    for o in range(1, 6):
        out.append(Case(f'gauss_hermite-2-{o}', rule, dict(kind='gauss_hermite', d=2, order=o, lo=0, hi=2 * o - 1, npts=o ** 2)))
    for o in range(1, 4):
        out.append(Case(f'gauss_hermite-3-{o}', rule,
                        dict(kind='gauss_hermite', d=3, order=o, lo=0, hi=min(2 * o - 1, 5), npts=o ** 3)))
    for T, d, o, fo in [(1, 1, 3, 0), (2, 1, 2, 1), (3, 1, 4, 2), (1, 1, None, 1), (2, 2, 2, 0), (1, 2, 3, 0), (1, 3, 2, 0), (2, 1, 5, 3), (3, 1, 6, 1), (2, 2, 4, 0), (3, 2, 2, 0), (2, 3, 2, 0), (1, 3, 3, 0), (5, 1, 3, 2)]:
        out.append(Case(f'expectation-T{T}-d{d}-o{o}{"-force%d" % fo if fo else ""}', gexp, dict(T=T, d=d, order=o, force=fo)))
    for o in (7, 8, 9) + ((10, 12) if th else ()):
        out.append(Case(f'family-gauss_hermite-1-{o}', rule, dict(kind='gauss_hermite', d=1, order=o, lo=0, hi=2 * o - 1, npts=o), thin=(1, 1)))
    out.append(Case('family-gauss_hermite-2-6', rule, dict(kind='gauss_hermite', d=2, order=6, lo=0, hi=7, npts=36), thin=(1, 1)))
    out.append(Case('family-gauss_hermite-4-2', rule, dict(kind='gauss_hermite', d=4, order=2, lo=0, hi=3, npts=16), thin=(1, 1)))
    out.append(Case('family-gauss_hermite-3-4', rule, dict(kind='gauss_hermite', d=3, order=4, lo=0, hi=5, npts=64), thin=(1, 1)))
    out.append(Case('family-gauss_hermite-2-7', rule, dict(kind='gauss_hermite', d=2, order=7, lo=0, hi=6, npts=49), thin=(1, 1)))
    out.append(Case('family-gauss_hermite-5-2', rule, dict(kind='gauss_hermite', d=5, order=2, lo=0, hi=2, npts=32), thin=(1, 1)))
    out.append(Case('family-gauss_hermite-4-3', rule, dict(kind='gauss_hermite', d=4, order=3, lo=0, hi=3, npts=81), thin=(1, 1)))
    for d in (7, 8, 9):
        out.append(Case(f'family-cubature-{d}', rule, dict(kind='cubature', d=d, order=None, lo=0, hi=3 if d < 8 else 2, npts=2 * d), thin=(1, 1)))
    return out
