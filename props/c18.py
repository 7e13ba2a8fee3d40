"""C18: LTI discretisation is exact and SDE simulation follows the given moments."""
import math
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.utils import discretise_lti_sde, simulate_sde
from .common import *

BOUNDS = 'discretisation: d = 1, 2 with every real-diagonalisable drift (distinct eigenvalues), triangular d = 2, strictly triangular ' \
         '(nilpotent) d <= 3 (4 thorough, 6 along one-parameter families): exact for every time step; every drift matrix of d <= 4 through a stated order of dt (8 for ' \
         'd = 1 .. 3 for d = 4); noise dimension 1..3. Simulation: d <= 3, T <= 4, 1..5 integration steps (d <= 5, T <= 30, steps <= 40 along one-parameter families), arbitrary (uninterpreted) ' \
         'mean and covariance functions, every value of the noise, several seeds'
OUTSIDE = 'larger dimensions; defective or complex-eigenvalue drift matrices beyond the stated order of dt; the Pade approximation error ' \
          'inside jax expm; the pseudo-random generator itself; rounding'


def expm_series(A, dt, K):
    d = A.shape[0]
    T = eye(d)
    out = [T]
    for k in range(1, K + 1):
        T = mm(T, A)
        out.append(T)
    return out


def check_series(api, A, B, dt, K):
    """F = sum A^k dt^k/k!,  Q = sum_{i,j} A^i BB' A'^j dt^{i+j+1} / (i! j! (i+j+1))."""
    F, Q = api.run(discretise_lti_sde, A, B, dt)
    d = A.shape[0]
    Kn = K if api.symbolic else 40
    P = expm_series(np.asarray(A, dtype=object), dt, Kn)
    F0 = zeros(d, d)
    for k in range(Kn + 1):
        F0 = F0 + P[k] * (dt ** k * api.q(1, math.factorial(k)))
    L = [mm(P[k], B) for k in range(Kn)]
    Q0 = zeros(d, d)
    for i in range(Kn):
        for j in range(Kn - i):
            q = api.q(1, math.factorial(i) * math.factorial(j) * (i + j + 1)) if i + j < 30 or api.symbolic else 0
            Q0 = Q0 + mm(L[i], L[j].T) * (dt ** (i + j + 1) * q)
    api.eq('F', F, fin(F0))
    api.eq('Q', Q, fin(Q0))


def series(api, d, dw, K):
    A, B = api.reals('A', d, d), api.reals('B', d, dw)
    tau = api.real('tau', pos=True)
    api.truncate(tau, K)
    dt = tau * api.q(1, 256)      # the factor only serves the numerical validation of the encoding
    check_series(api, A, B, dt, K)


def nilpotent(api, d, dw):
    A = zeros(d, d)
    for i in range(d):
        for j in range(i + 1, d):
            A[i, j] = api.real(f'A{i}{j}')
    dt = api.real('dt', pos=True, hi=2)
    check_series(api, fin(A), api.reals('B', d, dw), dt, 2 * d)


def diagonalisable(api, d, dw, kind):
    """Q = sum_{k,l} E_k BB' E_l' (exp((l_k + l_l) dt) - 1)/(l_k + l_l) with the spectral projectors E_k."""
    dt = api.real('dt', pos=True, hi=2)
    lam = [api.real(f'l{k}', nonzero=True, lo=-2, hi=2) for k in range(d)]
    if d == 1:
        A = np.array([[lam[0]]], dtype=object)
    elif kind == 'triangular':
        A = np.array([[lam[0], api.real('c')], [0, lam[1]]], dtype=object)
    else:
        a, b = api.real('a'), api.real('b', nonzero=True)
        e = lam[0] + lam[1] - a
        A = np.array([[a, b], [(a * e - lam[0] * lam[1]) / b, e]], dtype=object)
    for i in range(d):
        for j in range(i):
            api.assume('!=', lam[i] - lam[j])
            api.assume('!=', lam[i] + lam[j])
    B = api.reals('B', d, dw)
    if api.symbolic:
        from engine import alg
        ls = [alg.Rat.of(l * dt) for l in lam]
        api.c.expm_eigs = [ls, ls + [-l for l in ls]]
    F, Q = api.run(discretise_lti_sde, fin(A), B, dt)
    Es = []
    for k in range(d):
        E = eye(d)
        for j in range(d):
            if j != k:
                E = mm(E, A - eye(d) * lam[j]) / (lam[k] - lam[j])
        Es.append(E)
    F0, Q0 = zeros(d, d), zeros(d, d)
    BB = mm(B, np.asarray(B, dtype=object).T)
    for k in range(d):
        F0 = F0 + Es[k] * api.exp(lam[k] * dt)
        for l in range(d):
            s = lam[k] + lam[l]
            Q0 = Q0 + mm(mm(Es[k], BB), Es[l].T) * ((api.exp(s * dt) - 1) / s)
    api.eq('F', F, fin(F0))
    api.eq('Q', Q, fin(Q0))


def simulate(api, d, T, n, diag, seed, scalar=False):
    api.rand_symbolic()
    key = jax.random.PRNGKey(seed)
    dt = api.real('dt', pos=True)
    f = [api.uf(f'm{i}') for i in range(d)]
    g = {(i, j): api.uf(f'c{i}{j}', pos=(i == j)) for i in range(d) for j in range(i + 1) if i == j or not diag}

    def m_and_cov(x, h):
        xs = [x[i] for i in range(d)]
        m = jnp.stack([f[i](*xs, h) for i in range(d)])
        L = jnp.stack([jnp.stack([g[i, j](*xs, h) if (i, j) in g else jnp.zeros(()) for j in range(d)]) for i in range(d)])
        return m, L @ L.T

    x0 = api.real('x0') if scalar else api.reals('x0', d)
    kw = dict(diagonal_cov=True) if diag else {}
    if n > 1:
        kw['integration_steps'] = n
    out = api.run(lambda x0, dt: simulate_sde(m_and_cov, x0, dt, T, key, **kw), x0, dt)
    api.note('mfs.utils.simulate_sde')
    dr = api.draws()
    num = sum(m for _, _, m in dr)
    api.true('one standard normal value per coordinate, sub-step and interval', num == T * n * d and all(k == 'normal' for k, _, _ in dr))
    api.true('no key is used twice', len(set(k for _, k, _ in dr)) == len(dr))
    if num != T * n * d:
        return
    z = []
    for _, k, m in dr:
        z += list(np.asarray(api.normal(np.array(k, dtype=np.uint32), (m,)), dtype=object))
    h = dt / api.q(n)
    x = [x0] if scalar else [x0[i] for i in range(d)]
    exp, p = [], 0
    for _ in range(T):
        for _ in range(n):
            e, p = z[p:p + d], p + d
            x = [api.ufv(f'm{i}', *x, h) + sum((api.ufv(f'c{i}{j}', *x, h, pos=(i == j)) * e[j] for j in range(i + 1) if (i, j) in g), 0)
                 for i in range(d)]
        exp.append(x)
    api.eq('trajectory', out, fin(np.array(exp, dtype=object)))


def cases(tier):
    th = tier == 'thorough'
    out = []
    S = [(1, 1, 8), (1, 2, 8), (1, 3, 6), (2, 1, 7), (2, 2, 6), (2, 3, 5), (3, 1, 4), (3, 2, 4), (3, 3, 3), (4, 1, 3), (4, 2, 3)]
    if th:
        S += [(2, 1, 9), (2, 2, 8), (3, 1, 5), (5, 1, 3)]
    for d, dw, K in S:
        out.append(Case(f'series-{d}-{dw}-order{K}', series, dict(d=d, dw=dw, K=K), budget=300))
    for d, dw in [(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)] + ([(4, 1), (4, 2)] if th else []):
        out.append(Case(f'nilpotent-{d}-{dw}', nilpotent, dict(d=d, dw=dw), budget=300))
    for d, dw, kind in [(1, 1, ''), (1, 2, ''), (2, 1, 'triangular'), (2, 2, 'triangular'), (2, 1, 'full'), (2, 2, 'full')]:
        out.append(Case(f'diagonalisable-{d}-{dw}' + ('-' + kind if kind else ''), diagonalisable, dict(d=d, dw=dw, kind=kind), budget=300))
    C = [(1, 1, 1, 0), (1, 2, 1, 0), (1, 1, 3, 0), (1, 2, 2, 0), (2, 1, 1, 0), (2, 2, 1, 0), (2, 1, 2, 0), (2, 2, 2, 1), (1, 3, 1, 1), (2, 1, 2, 1), (2, 1, 1, 1), (1, 3, 3, 0), (2, 3, 2, 0), (3, 1, 2, 0), (3, 2, 1, 1), (1, 2, 5, 1), (1, 4, 2, 0), (1, 1, 4, 0), (2, 2, 3, 0), (2, 2, 3, 1), (3, 1, 1, 0), (3, 1, 1, 1)]
    if th:
        C += [(2, 4, 2, 0), (2, 2, 4, 1), (3, 2, 2, 0), (1, 5, 3, 0)]
    for d, T, n, diag in C:
        out.append(Case(f'simulate-d{d}-T{T}-n{n}' + ('-diag' if diag else ''), simulate, dict(d=d, T=T, n=n, diag=bool(diag), seed=d + 10 * T)))
    out.append(Case('simulate-scalar', simulate, dict(d=1, T=2, n=2, diag=False, seed=5, scalar=True)))
    for d, dw in [(4, 1), (4, 2), (4, 4), (5, 1), (5, 3), (6, 2)]:
        out.append(Case(f'family-nilpotent-{d}-{dw}', nilpotent, dict(d=d, dw=dw), budget=300, thin=(1, 1)))
    for d, T, n, diag in [(3, 2, 2, 0), (3, 1, 2, 1), (1, 6, 1, 0), (1, 2, 7, 0), (4, 1, 2, 0), (4, 2, 1, 1), (2, 5, 1, 0), (1, 5, 2, 1), (5, 1, 1, 0), (1, 1, 12, 0), (2, 1, 6, 1), (1, 12, 1, 0)]:
        out.append(Case(f'family-simulate-d{d}-T{T}-n{n}' + ('-diag' if diag else ''), simulate, dict(d=d, T=T, n=n, diag=bool(diag), seed=d + 10 * T),
                        thin=(1, 1), budget=300))
    for d, T, n, diag in [(1, 30, 1, 0), (2, 10, 2, 0), (1, 5, 10, 1), (1, 1, 40, 0)]:
        out.append(Case(f'family-long-simulate-d{d}-T{T}-n{n}', simulate, dict(d=d, T=T, n=n, diag=bool(diag), seed=d + T), thin=(1, 1), budget=50))
    return out
