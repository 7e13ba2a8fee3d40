"""C09: the Kalman filter and RTS smoother compute the exact conditional Gaussians of a linear-Gaussian model."""
import numpy as np
import jax.numpy as jnp
from engine.core import Case
from mfs.classical_filters_smoothers.gfs import kf, rts
from .common import *
from .c07 import spd_cov

BOUNDS = 'dx <= 3, dy <= 3 for one step from any state; T <= 4 steps: later steps from an arbitrary carried state; joint Gaussian ' \
         'T <= 3 unabridged for dx = dy = 1; every model matrix symbolic; dx <= 6, dy <= 4 and T <= 25 along one-parameter families'
OUTSIDE = 'singular innovation or prediction covariances; larger dimensions; rounding'


def tr(a):
    return np.asarray(a, dtype=object).T


def add(a, b, s=1):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        r[i] = a[i] + s * b[i]
    return r


def sub(a, b):
    return add(a, b, -1)


def det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    s = 0
    for j in range(n):
        s = s + (-1) ** j * A[0, j] * det(np.delete(np.delete(A, 0, 0), j, 1))
    return s


def inv_sym(A):
    """Adjugate inverse of a small symmetric matrix."""
    n = A.shape[0]
    d = det(A)
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            M = np.delete(np.delete(A, j, 0), i, 1)
            R[i, j] = (-1) ** (i + j) * (det(M) if n > 1 else 1) / d
    return R, d


def cut_sym(api, name, A):
    """Abbreviate a symmetric positive definite matrix: its entries become variables, positive leading minors assumed."""
    A = np.asarray(A, dtype=object)
    n = A.shape[0]
    if not api.symbolic:
        return A
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i + 1):
            R[i, j] = R[j, i] = api.cut(f'{name}{i}{j}', A[i, j], pos=(i == j))
    for k in range(2, n + 1):
        api.assume('>', det(R[:k, :k]))
    return R


def cut_vec(api, name, v):
    return np.array([api.cut(f'{name}{i}', x) for i, x in enumerate(v)], dtype=object) if api.symbolic else v


def condition(api, mp, Vp, pred, C, S, y):
    """Gaussian conditioning: x ~ (mp, Vp), y ~ (pred, S), Cov(x, y) = C.  Returns mean, covariance, -log N(y)."""
    Si, d = inv_sym(S)
    r = sub(y, pred)
    G = mm(C, Si)
    m = add(mp, mm(G, r))
    V = sub(Vp, mm(G, tr(C)))
    dy = S.shape[0]
    nell = api.q(1, 2) * (dy * api.log(2 * api.pi()) + api.log(d) + dot(r, mm(Si, r)))
    return fin(m), fin(V), nell


class Model:
    def __init__(self, api, dx, dy, diag=False):
        self.F, self.H = api.reals('F', dx, dx), api.reals('H', dy, dx)
        self.Sig, _ = spd_cov(api, 'Q', dx)
        self.Xi, _ = spd_cov(api, 'R', dy)
        self.api, self.dx, self.dy = api, dx, dy

    def step(self, m, P, y, tag):
        api = self.api
        mp = cut_vec(api, f'mp{tag}', mm(self.F, m))
        Vp = cut_sym(api, f'Vp{tag}', add(mm(mm(self.F, P), tr(self.F)), self.Sig))
        S = cut_sym(api, f'S{tag}', add(mm(mm(self.H, Vp), tr(self.H)), self.Xi))
        pred = cut_vec(api, f'py{tag}', mm(self.H, mp))
        return condition(api, mp, Vp, pred, mm(Vp, tr(self.H)), S, y)


def run_filter(api, T, dx, fresh, go, step):
    """Drive a Gaussian filter over T steps; every step after the first is decided from an arbitrary carried state."""
    m0 = api.reals('m0_', dx)
    P0, _ = spd_cov(api, 'P0_', dx)

    def one(st, t):
        m, V, nl = step(st['m'], st['V'], t)
        return dict(m=m, V=V, nell=st['nell'] + nl)

    def new(t):
        return dict(m=api.reals(f'm{t}_', dx), V=spd_cov(api, f'P{t}_', dx)[0], nell=api.real(f'nell{t}'))
    rec = Recursion(api, T, dict(m=m0, V=P0, nell=api.q(0)), one, new if fresh else None, ('m', 'V'))
    ms, Vs, ne = go(m0, P0)
    sp = rec.finish()
    api.eq('means', ms, stack([s['m'] for s in sp]))
    api.eq('covariances', Vs, stack([s['V'] for s in sp]))
    api.eq('nell', ne, stack([s['nell'] for s in sp]))


def filt(api, dx, dy, T, fresh):
    M = Model(api, dx, dy)
    ys = api.reals('y', T, dy)
    run_filter(api, T, dx, fresh, lambda m0, P0: api.run(kf, M.F, M.Sig, M.H, M.Xi, m0, P0, ys),
               lambda m, P, t: M.step(m, P, ys[t], t))


def smooth_step(api, mf, Vf, mp, Vp, D, ms, Vs):
    """x_k | x_{k+1} by conditioning, averaged over the smoothed x_{k+1}.  D = Cov(x_k, x_{k+1})."""
    Vi, _ = inv_sym(Vp)
    G = mm(D, Vi)
    return fin(add(mf, mm(G, sub(ms, mp)))), fin(add(sub(Vf, mm(G, tr(D))), mm(mm(G, Vs), tr(G))))


def run_smoother(api, T, dx, fresh, go, step):
    """step(mf, Vf, ms, Vs, t): the smoothed state at t from the filtered state at t and the smoothed state at t + 1."""
    mfs = [api.reals(f'mf{t}_', dx) for t in range(T)]
    vfs = [spd_cov(api, f'Pf{t}_', dx)[0] for t in range(T)]
    if api.symbolic and fresh:
        # variables stand for the filtering covariances (positive definiteness is only needed through the predictions)
        for t in range(T):
            V = zeros(dx, dx)
            for i in range(dx):
                for j in range(i + 1):
                    V[i, j] = V[j, i] = api.cut(f'vf{t}_{i}{j}', vfs[t][i, j], pos=i == j)
            vfs[t] = V

    def one(st, k):
        m, V = step(mfs[T - 2 - k], vfs[T - 2 - k], st['m'], st['V'], T - 2 - k)
        return dict(m=m, V=V)

    def new(k):
        V = zeros(dx, dx)
        for i in range(dx):
            for j in range(i + 1):
                V[i, j] = V[j, i] = api.real(f'Ps{k}_{i}{j}')
        return dict(m=api.reals(f'ms{k}_', dx), V=V)
    args = stack(mfs), stack(vfs)
    if T == 1:
        ms, Vs = go(*args)
        sp = []
    else:
        rec = Recursion(api, T - 1, dict(m=mfs[-1], V=vfs[-1]), one, new if fresh else None, ('m', 'V'))
        ms, Vs = go(*args)
        sp = rec.finish()
    api.eq('means', ms, stack([s['m'] for s in sp[::-1]] + [mfs[-1]]))
    api.eq('covariances', Vs, stack([s['V'] for s in sp[::-1]] + [vfs[-1]]))


def smoother(api, dx, T, fresh):
    F = api.reals('F', dx, dx)
    Sig, _ = spd_cov(api, 'Q', dx)

    def step(mf, Vf, nm, nv, t):
        mp = cut_vec(api, f'mp{t}', mm(F, mf))
        Vp = cut_sym(api, f'Vp{t}', add(mm(mm(F, Vf), tr(F)), Sig))
        return smooth_step(api, mf, Vf, mp, Vp, mm(Vf, tr(F)), nm, nv)
    run_smoother(api, T, dx, fresh, lambda m, v: api.run(rts, F, Sig, m, v), step)


def batch(api, T):
    """dx = dy = 1: filter and smoother against conditioning the joint Gaussian of the whole history at once."""
    f, h = api.real('f'), api.real('h')
    q, r, m0, p0 = api.real('q', pos=True), api.real('r', pos=True), api.real('m0'), api.real('p0', pos=True)
    y = api.reals('y', T, 1)
    A = lambda v: fin(np.array([[v]], dtype=object))
    ms, vs, ne = api.run(kf, A(f), A(q), A(h), A(r), fin(np.array([m0], dtype=object)), A(p0), y)
    sm, sv = api.run(rts, A(f), A(q), ms, vs)
    # joint of x_1..x_T
    mean, K = [], zeros(T, T)
    m, p = m0, p0
    for t in range(T):
        m, p = f * m, f * f * p + q
        mean.append(m)
        K[t, t] = p
        for s in range(t):
            K[t, s] = K[s, t] = K[s, s] * f ** (t - s)
    for k in range(1, T + 1):
        S = zeros(k, k)
        for i in range(k):
            for j in range(k):
                S[i, j] = h * h * K[i, j] + (r if i == j else 0)
        Si, d = inv_sym(S)
        res = np.array([y[i, 0] - h * mean[i] for i in range(k)], dtype=object)
        z = mm(Si, res)
        c = np.array([h * K[k - 1, i] for i in range(k)], dtype=object)
        api.eq(f'filter mean {k}', ms[k - 1, 0], mean[k - 1] + dot(c, z))
        api.eq(f'filter cov {k}', vs[k - 1, 0, 0], K[k - 1, k - 1] - dot(c, mm(Si, c)))
        if k == T:
            for t in range(T):
                c = np.array([h * K[t, i] for i in range(k)], dtype=object)
                api.eq(f'smooth mean {t}', sm[t, 0], mean[t] + dot(c, z))
                api.eq(f'smooth cov {t}', sv[t, 0, 0], K[t, t] - dot(c, mm(Si, c)))
        api.eq(f'nell {k}', ne[k - 1], api.q(1, 2) * (k * api.log(2 * api.pi()) + api.log(d) + dot(res, z)))


def cases(tier):
    th = tier == 'thorough'
    out = []
    for dx in (1, 2, 3):
        for dy in (1, 2, 3):
            out.append(Case(f'kf-{dx}-{dy}-T1', filt, dict(dx=dx, dy=dy, T=1, fresh=False), budget=400))
    for dx, dy in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)]:
        for T in (2, 3, 4):
            out.append(Case(f'kf-{dx}-{dy}-T{T}', filt, dict(dx=dx, dy=dy, T=T, fresh=True), validate=False, budget=400))
    for dx in (1, 2, 3):
        out.append(Case(f'rts-{dx}-T1', smoother, dict(dx=dx, T=1, fresh=False)))
        out.append(Case(f'rts-{dx}-T2', smoother, dict(dx=dx, T=2, fresh=True), budget=400))
        out.append(Case(f'rts-{dx}-T3', smoother, dict(dx=dx, T=3, fresh=True), validate=False, budget=400))
    for T in (1, 2, 3):
        out.append(Case(f'joint-T{T}', batch, dict(T=T), budget=600))
    for dx, dy in [(4, 1), (4, 2), (4, 3), (4, 4), (1, 4), (2, 4), (3, 4), (5, 1), (5, 2), (5, 3), (6, 1), (6, 2)]:
        out.append(Case(f'family-kf-{dx}-{dy}', filt, dict(dx=dx, dy=dy, T=1, fresh=False), thin=(1, 1), budget=400))
    for dx in (4, 5, 6):
        out.append(Case(f'family-rts-{dx}', smoother, dict(dx=dx, T=1, fresh=False), thin=(1, 1), budget=400))
    for dx, dy, T in [(1, 1, 4), (1, 1, 9), (1, 2, 5), (2, 1, 4), (2, 2, 4), (3, 1, 3), (3, 2, 2)]:
        out.append(Case(f'family-kf-{dx}-{dy}-T{T}', filt, dict(dx=dx, dy=dy, T=T, fresh=True), thin=(1, 1), validate=False, budget=400))
    for dx, T in [(1, 4), (1, 9), (2, 4), (3, 4)]:
        out.append(Case(f'family-rts-{dx}-T{T}', smoother, dict(dx=dx, T=T, fresh=True), thin=(1, 1), validate=False, budget=400))
    out.append(Case('family-kf-2-1-T5', filt, dict(dx=2, dy=1, T=5, fresh=True), thin=(1, 1), validate=False, budget=400))
    out.append(Case('family-rts-2-T5', smoother, dict(dx=2, T=5, fresh=True), thin=(1, 1), validate=False, budget=400))
    for dx, dy, T in [(1, 1, 25), (2, 2, 12), (3, 1, 6)]:
        out.append(Case(f'family-long-kf-{dx}-{dy}-T{T}', filt, dict(dx=dx, dy=dy, T=T, fresh=True), thin=(1, 1), validate=False, budget=50))
        if dx < 3:
            out.append(Case(f'family-long-rts-{dx}-{dy}-T{T}', smoother, dict(dx=dx, T=T, fresh=True), thin=(1, 1), validate=False, budget=50))
    return out
