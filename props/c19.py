"""C19: the posterior Cramer-Rao recursion is the exact information recursion."""
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.utils import posterior_cramer_rao
from .common import *

BOUNDS = 'arbitrary (uninterpreted) log densities with dx = 1, dy <= 3, 1..4 samples, T <= 4; dx = 2 with 1..3 samples, T <= 2; linear-Gaussian models ' \
         'with dx <= 2 (3 thorough, one step), dy <= 3: any symmetric positive starting information, trajectories and measurements; dx <= 5, 8 samples, T <= 30 along one-parameter families'
OUTSIDE = 'larger dimensions, more samples and longer histories; validity of the bound itself; rounding'


def sub(a, b):
    return np.asarray(a, dtype=object) - np.asarray(b, dtype=object)


def sym(api, name, d):
    M = zeros(d, d)
    for i in range(d):
        for j in range(i + 1):
            M[i, j] = M[j, i] = api.real(f'{name}{i}{j}')
    return fin(M)


def inv(api, M):
    return api.solve(M, fin(eye(M.shape[0])))


def generic(api, d, dy, N, T, symmetric=True):
    """Hessians of uninterpreted log densities, in Tichavsky's recursion."""
    lp, lg = api.uf('lp'), api.uf('lg')
    tr = lambda xt, xs: lp(*[xt[i] for i in range(d)], *[xs[i] for i in range(d)])
    li = lambda y, x: lg(*[y[i] for i in range(dy)], *[x[i] for i in range(d)])
    X = api.reals('x', T + 1, N, d)
    Y = api.reals('y', T, N, dy)
    j0 = sym(api, 'j', d) if symmetric else api.reals('j', d, d)

    def unit(n, *ks):
        a = [0] * n
        for k in ks:
            a[k] += 1
        return tuple(a)

    def mats(k):
        D11, D12, D22 = zeros(d, d), zeros(d, d), zeros(d, d)
        for n in range(N):
            a = list(X[k + 1, n]) + list(X[k, n])
            b = list(Y[k, n]) + list(X[k + 1, n])
            for i in range(d):
                for j in range(d):
                    D11[i, j] = D11[i, j] - api.ufd('lp', unit(2 * d, d + i, d + j), *a) / N
                    D12[i, j] = D12[i, j] - api.ufd('lp', unit(2 * d, d + i, j), *a) / N
                    D22[i, j] = D22[i, j] - api.ufd('lp', unit(2 * d, i, j), *a) / N \
                        - api.ufd('lg', unit(dy + d, dy + i, dy + j), *b) / N
        return D11, D12, D22

    def step(st, k):
        D11, D12, D22 = mats(k)
        M = np.asarray(st['J'], dtype=object) + D11
        det = M[0, 0] if d == 1 else M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
        api.assume('!=', det)
        return dict(J=fin(sub(D22, mm(D12.T, api.solve(fin(M), fin(D12))))))

    def fresh(k):
        return dict(J=sym(api, f'J{k}_', d) if symmetric else api.reals(f'J{k}_', d, d))
    R = Recursion(api, T, dict(J=j0), step, fresh, ['J'])
    out = api.run(lambda X, Y, j0: posterior_cramer_rao(X, Y, j0, tr, li), X, Y, j0)
    api.note('mfs.utils.posterior_cramer_rao')
    spec = R.finish()
    for k in range(T):
        api.eq(f'J{k}', out[k], spec[k]['J'])
    api.true('length', np.shape(out) == (T, d, d))


def lower(api, name, d):
    L = zeros(d, d)
    for i in range(d):
        for j in range(i + 1):
            L[i, j] = api.real(f'{name}{i}{j}', pos=(i == j))
    return L


def linear(api, d, dy, N, T):
    """J_k = P_k^{-1}, with P the covariance of the Kalman filter (Joseph-free textbook form)."""
    F, H = api.reals('F', d, d), api.reals('H', dy, d)
    Lq, Lr = lower(api, 'q', d), lower(api, 'r', dy)
    Qi, Ri = fin(mm(Lq.T, Lq)), fin(mm(Lr.T, Lr))               # information matrices of the noises
    X, Y = api.reals('x', T + 1, N, d), api.reals('y', T, N, dy)
    Lp = lower(api, 'p', d)
    j0 = fin(mm(Lp, Lp.T))

    def run(F, H, Qi, Ri, X, Y, j0):
        tr = lambda xt, xs: -0.5 * jnp.dot(xt - F @ xs, Qi @ (xt - F @ xs))
        li = lambda y, x: -0.5 * jnp.dot(y - H @ x, Ri @ (y - H @ x))
        return posterior_cramer_rao(X, Y, j0, tr, li)

    def step(st, k):
        # prediction and update, multiplied out so that only polynomial identities remain:  J = (F P F' + Q)^{-1} + H' R^{-1} H
        P = inv(api, st['J'])
        Q = inv(api, Qi)
        Pp = mm(mm(F, P), np.asarray(F, dtype=object).T) + np.asarray(Q, dtype=object)
        return dict(J=fin(np.asarray(inv(api, fin(Pp)), dtype=object) + mm(mm(np.asarray(H, dtype=object).T, Ri), H)))

    def fresh(k):
        L = lower(api, f'J{k}_', d)
        return dict(J=fin(mm(L, L.T)))
    R = Recursion(api, T, dict(J=j0), step, fresh, ['J'])
    out = api.run(run, F, H, Qi, Ri, X, Y, j0)
    api.note('mfs.utils.posterior_cramer_rao')
    spec = R.finish()
    for k in range(T):
        api.eq(f'J{k}', out[k], spec[k]['J'])


def cases(tier):
    th = tier == 'thorough'
    out = []
    G = [(1, 1, 1, 1), (1, 1, 2, 1), (1, 1, 3, 1), (1, 1, 1, 2), (1, 1, 2, 3), (1, 2, 2, 2), (2, 1, 1, 1), (2, 1, 2, 1), (2, 1, 1, 2), (2, 2, 1, 1), (2, 1, 2, 2), (2, 2, 2, 2), (1, 1, 3, 3), (2, 1, 3, 1), (1, 3, 1, 1), (1, 2, 4, 1), (1, 1, 1, 4)]
    if th:
        G += [(3, 1, 1, 1), (2, 3, 2, 2), (1, 1, 5, 5), (2, 1, 4, 1)]
    for d, dy, N, T in G:
        out.append(Case(f'generic-dx{d}-dy{dy}-N{N}-T{T}', generic, dict(d=d, dy=dy, N=N, T=T), budget=300, validate=T == 1))
    out.append(Case('generic-any-start', generic, dict(d=2, dy=1, N=1, T=1, symmetric=False), budget=300))
    Ls = [(1, 1, 1, 1), (1, 1, 2, 3), (1, 2, 1, 2), (2, 1, 1, 1), (2, 1, 2, 2), (2, 2, 1, 1), (2, 2, 2, 2), (1, 3, 3, 1), (2, 3, 1, 1), (2, 1, 3, 1)]
    if th:
        Ls += [(3, 1, 1, 1)]
    for d, dy, N, T in Ls:
        out.append(Case(f'kalman-dx{d}-dy{dy}-N{N}-T{T}', linear, dict(d=d, dy=dy, N=N, T=T), budget=400, validate=T == 1))
    for d, dy, N, T in [(3, 2, 1, 1), (3, 1, 2, 1), (1, 1, 5, 4), (2, 1, 4, 2), (3, 3, 1, 1), (3, 1, 3, 1), (4, 1, 1, 1), (2, 3, 3, 1), (1, 1, 8, 1), (1, 1, 1, 7)]:
        out.append(Case(f'family-generic-dx{d}-dy{dy}-N{N}-T{T}', generic, dict(d=d, dy=dy, N=N, T=T), budget=300, thin=(1, 1), validate=T == 1))
    for d, dy, N, T in [(3, 3, 1, 1), (4, 1, 2, 1), (2, 1, 1, 5), (3, 1, 3, 1), (4, 4, 1, 1), (5, 2, 1, 1), (3, 1, 1, 2)]:
        out.append(Case(f'family-kalman-dx{d}-dy{dy}-N{N}-T{T}', linear, dict(d=d, dy=dy, N=N, T=T), budget=300, thin=(1, 1), validate=T == 1))
    for d, N, T in [(1, 2, 15), (2, 1, 6), (1, 1, 30)]:
        out.append(Case(f'family-long-generic-{d}-{N}-{T}', generic, dict(d=d, dy=1, N=N, T=T), budget=50, thin=(1, 1), validate=False))
        out.append(Case(f'family-long-kalman-{d}-{N}-{T}', linear, dict(d=d, dy=1, N=N, T=T), budget=50, thin=(1, 1), validate=False))
    return out
