"""C10: the nonlinear Gaussian filters and smoothers compute their defining recursions for arbitrary model functions."""
import numpy as np
import jax.numpy as jnp
from engine.core import Case
from mfs.classical_filters_smoothers.gfs import ekf, eks, cd_ekf, cd_eks, sgp_filter, sgp_smoother, cd_sgp_filter, \
    cd_sgp_smoother
from mfs.classical_filters_smoothers.quadratures import SigmaPoints, rk4_m_cov, rk4_m_cov_backward
from .common import *
from .c07 import spd_cov
from .c09 import add, sub, tr, det, inv_sym, cut_sym, cut_vec, condition, run_filter, run_smoother, smooth_step

BOUNDS = 'dx, dy <= 2, noise dimension <= 2, model functions uninterpreted (any smooth function, ' \
         'derivatives as further uninterpreted functions), T <= 3 with later steps from an arbitrary state; rules: ' \
         'cubature and Gauss-Hermite of order <= 3; dx <= 5, dy, dw <= 3, T <= 20 along one-parameter families'
OUTSIDE = 'larger dimensions and rules; model functions whose intermediate covariances are not positive definite'


class Vec:
    """A vector-valued uninterpreted function of n scalars (optionally with trailing parameters)."""

    def __init__(self, api, name, n_in, n_out, pos=()):
        self.api, self.name, self.n, self.m, self.pos = api, name, n_in, n_out, pos
        self.fs = [api.uf(f'{name}{i}', pos=i in pos) for i in range(n_out)]

    def __call__(self, *xs):               # JAX side
        return jnp.stack([f(*xs) for f in self.fs])

    def val(self, xs):
        return np.array([self.api.ufv(f'{self.name}{i}', *xs, pos=i in self.pos) for i in range(self.m)], dtype=object)

    def jac(self, xs, k):
        """d f_i / d x_j for the first k arguments"""
        J = zeros(self.m, k)
        for i in range(self.m):
            for j in range(k):
                J[i, j] = self.api.ufd(f'{self.name}{i}', [1 if a == j else 0 for a in range(len(xs))], *xs)
        return J


class Sym:
    """Symmetric-matrix-valued uninterpreted function, positive diagonal."""

    def __init__(self, api, name, n_in, d):
        self.api, self.name, self.d = api, name, d
        self.fs = {(i, j): api.uf(f'{name}{i}{j}', pos=i == j) for i in range(d) for j in range(i + 1)}

    def __call__(self, *xs):
        c = lambda i, j: 1. if i == j else 0.25
        return jnp.stack([jnp.stack([c(i, j) * self.fs[max(i, j), min(i, j)](*xs) for j in range(self.d)])
                          for i in range(self.d)])

    def val(self, xs):
        R = zeros(self.d, self.d)
        for i in range(self.d):
            for j in range(i + 1):
                v = self.api.ufv(f'{self.name}{i}{j}', *xs, pos=i == j)
                R[i, j] = R[j, i] = v if i == j else self.api.q(1, 4) * v
        return R


class Model:
    def __init__(self, api, dx, dy, affine=False, const=False):
        self.api, self.dx, self.dy, self.const = api, dx, dy, const
        self.dt = api.real('dt', pos=True) * api.q(1, 200)
        self.f, self.Q = Vec(api, 'f', dx + 1, dx), Sym(api, 'Q', dx + 1, dx)
        self.h = Vec(api, 'h', dx, dy)
        self.R = Sym(api, 'R', dx, dy)
        if const:
            self.R0, _ = spd_cov(api, 'R0_', dy)

    # callbacks
    def state(self, x, dt):
        xs = [x[i] for i in range(self.dx)] + [dt]
        return self.f(*xs), self.Q(*xs)

    def meas(self, x, R0=None):
        xs = [x[i] for i in range(self.dx)]
        return self.h(*xs), (self.R(*xs) if R0 is None else R0)

    # specification
    def meas_lin(self, mp, Vp, y, tag):
        api = self.api
        H = self.h.jac(list(mp), self.dx)
        pred = self.h.val(list(mp))
        S = cut_sym(api, f'S{tag}', add(mm(mm(H, Vp), tr(H)), self.R.val(list(mp))))
        return condition(api, mp, Vp, pred, mm(Vp, tr(H)), S, y)

    def sp(self, rule, m, V):
        """Sigma points of N(m, V)"""
        L = np.asarray(self.api.chol(V), dtype=object)
        return [np.array([m[i] + dot(L[i], xi) for i in range(len(m))], dtype=object) for xi in rule.xi]

    def meas_sgp(self, rule, mp, Vp, y, tag):
        api = self.api
        X = self.sp(rule, mp, Vp)
        hs = [self.h.val(list(x)) for x in X]
        pred = cut_vec(api, f'py{tag}', wsum(rule.w, hs))
        S = wsum(rule.w, [outer(a, a) + (0 if self.const else self.R.val(list(x))) for a, x in zip(hs, X)])
        S = sub(S, outer(pred, pred))
        if self.const:
            S = add(S, self.R0)
        C = sub(wsum(rule.w, [outer(x, a) for x, a in zip(X, hs)]), outer(mp, pred))
        C = api.cut(f'C{tag}', C) if api.symbolic else C
        return condition(api, mp, Vp, pred, C, cut_sym(api, f'S{tag}', S), y)

    def pred_lin(self, m, V, tag):
        xs = list(m) + [self.dt]
        F = self.f.jac(xs, self.dx)
        mp = self.f.val(xs)
        return mp, cut_sym(self.api, f'Vp{tag}', add(mm(mm(F, V), tr(F)), self.Q.val(xs))), mm(V, tr(F))

    def pred_sgp(self, rule, m, V, tag):
        X = self.sp(rule, m, V)
        fs = [self.f.val(list(x) + [self.dt]) for x in X]
        mp = cut_vec(self.api, f'mp{tag}', wsum(rule.w, fs))
        Vp = sub(wsum(rule.w, [outer(a, a) + self.Q.val(list(x) + [self.dt]) for a, x in zip(fs, X)]), outer(mp, mp))
        D = sub(wsum(rule.w, [outer(x, a) for x, a in zip(X, fs)]), outer(m, mp))
        return mp, cut_sym(self.api, f'Vp{tag}', Vp), D


def outer(a, b):
    r = zeros(len(a), len(b))
    for i in range(len(a)):
        for j in range(len(b)):
            r[i, j] = a[i] * b[j]
    return r


def wsum(w, xs):
    s = np.asarray(xs[0], dtype=object) * w[0]
    for a, x in zip(w[1:], xs[1:]):
        s = add(s, np.asarray(x, dtype=object) * a)
    return s


class Rule:
    """The specification's copy of a rule: exact nodes and weights."""

    def __init__(self, api, kind, d):
        q, s = api.q, api.sqrt
        if kind == 'cubature':
            r = s(q(d))
            self.xi = [np.array([sg * r if i == j else 0 for j in range(d)], dtype=object) for sg in (1, -1) for i in range(d)]
            self.w = [q(1, 2 * d)] * (2 * d)
            self.code = SigmaPoints.cubature(d)
        else:
            one = {2: ([-1, 1], [q(1, 2)] * 2), 3: ([-s(q(3)), 0, s(q(3))], [q(1, 6), q(2, 3), q(1, 6)])}[kind]
            self.xi, self.w = [], []
            for k in np.ndindex(*([kind] * d)):
                self.xi.append(np.array([one[0][i] for i in k], dtype=object))
                w = q(1)
                for i in k:
                    w = w * one[1][i]
                self.w.append(w)
            self.code = SigmaPoints.gauss_hermite(d, kind)


def ekf_case(api, dx, dy, T, fwd):
    M = Model(api, dx, dy)
    ys = api.reals('y', T, dy)

    def step(m, V, t):
        mp, Vp, _ = M.pred_lin(m, V, t)
        return M.meas_lin(mp, Vp, ys[t], t)
    run_filter(api, T, dx, T > 1,
               lambda m0, P0: api.run(lambda m, P, dt, y: ekf(M.state, M.meas, m, P, dt, y, fwd_jacobian=fwd), m0, P0, M.dt, ys),
               step)
    api.note('mfs.classical_filters_smoothers.gfs.ekf')


def eks_case(api, dx, T):
    M = Model(api, dx, 1)

    def step(mf, Vf, nm, nv, t):
        mp, Vp, D = M.pred_lin(mf, Vf, t)
        return smooth_step(api, mf, Vf, mp, Vp, D, nm, nv)
    run_smoother(api, T, dx, T > 1, lambda m, v: api.run(lambda a, b, dt: eks(M.state, a, b, dt), m, v, M.dt), step)
    api.note('mfs.classical_filters_smoothers.gfs.eks')


def sgp_case(api, dx, dy, T, rule, const, flag):
    M = Model(api, dx, dy, const=const)
    R = Rule(api, rule, dx)
    ys = api.reals('y', T, dy)

    def step(m, V, t):
        mp, Vp, _ = M.pred_sgp(R, m, V, t)
        return M.meas_sgp(R, mp, Vp, ys[t], t)

    def go(m0, P0):
        if const:
            return api.run(lambda m, P, dt, y, R0: sgp_filter(M.state, lambda x: M.meas(x, R0), R.code, m, P, dt, y,
                                                              const_measurement_cov=flag), m0, P0, M.dt, ys, M.R0)
        return api.run(lambda m, P, dt, y: sgp_filter(M.state, M.meas, R.code, m, P, dt, y, const_measurement_cov=flag),
                       m0, P0, M.dt, ys)
    run_filter(api, T, dx, T > 1, go, step)
    api.note('mfs.classical_filters_smoothers.gfs.sgp_filter')


def sgps_case(api, dx, T, rule):
    M = Model(api, dx, 1)
    R = Rule(api, rule, dx)

    def step(mf, Vf, nm, nv, t):
        mp, Vp, D = M.pred_sgp(R, mf, Vf, t)
        return smooth_step(api, mf, Vf, mp, Vp, D, nm, nv)
    run_smoother(api, T, dx, T > 1, lambda m, v: api.run(lambda a, b, dt: sgp_smoother(M.state, R.code, a, b, dt), m, v, M.dt),
                 step)
    api.note('mfs.classical_filters_smoothers.gfs.sgp_smoother')


def rk4(api, ode, m, V, dt, tag, sym=True, spd=False):
    """One classical Runge-Kutta step of (m, V)' = ode(m, V); the stage states are abbreviated."""
    cutV = (lambda n, v: cut_sym(api, n, v)) if spd else (lambda n, v: cut_mat(api, n, v))
    h = api.q(1, 2)
    k1 = ode(m, V)
    st = lambda k, c, j: (cut_vec(api, f'sm{tag}{j}', add(m, np.asarray(k[0], dtype=object) * (dt * c))),
                          cutV(f'sv{tag}{j}', add(V, np.asarray(k[1], dtype=object) * (dt * c))))
    k2 = ode(*st(k1, h, 2))
    k3 = ode(*st(k2, h, 3))
    k4 = ode(*st(k3, 1, 4))
    comb = lambda i: add(add(k1[i], np.asarray(k2[i], dtype=object) * 2), add(np.asarray(k3[i], dtype=object) * 2, k4[i]))
    return add(m, comb(0) * (dt * api.q(1, 6))), add(V, comb(1) * (dt * api.q(1, 6)))


def cut_mat(api, name, A):
    A = np.asarray(A, dtype=object)
    if not api.symbolic:
        return A
    R = np.empty(A.shape, dtype=object)
    for i in np.ndindex(A.shape):
        R[i] = api.cut(f'{name}{i[0]}{i[1]}', A[i])
    return R


class SDE:
    def __init__(self, api, dx, dw, const=False):
        self.api, self.dx, self.dw = api, dx, dw
        self.a = Vec(api, 'a', dx, dx)
        self.b = Vec(api, 'b', dx, dx * dw)
        self.B = api.reals('B', dx, dw) if const else None

    def drift(self, x):
        return self.a(*[x[i] for i in range(self.dx)])

    def disp(self, x):
        return self.b(*[x[i] for i in range(self.dx)]).reshape(self.dx, self.dw)

    def gamma(self, m):
        B = self.B if self.B is not None else self.b.val(list(m)).reshape(self.dx, self.dw)
        return mm(B, tr(B))

    def lin(self, m, V):
        J = self.a.jac(list(m), self.dx)
        return self.a.val(list(m)), add(add(mm(V, tr(J)), mm(J, V)), self.gamma(m))

    def sgp(self, M, R, m, V):
        X = M.sp(R, m, V)
        fs = [self.a.val(list(x)) for x in X]
        C = wsum(R.w, [outer(sub(x, m), f) for x, f in zip(X, fs)])
        return wsum(R.w, fs), add(add(C, tr(C)), self.gamma(m))


def cd_case(api, dx, dy, dw, T, kind, fwd=False, const=False, flag=False):
    """kind: 'ekf' or a rule"""
    M = Model(api, dx, dy, const=const)
    S = SDE(api, dx, dw, const=kind != 'ekf')
    ys = api.reals('y', T, dy)
    R = None if kind == 'ekf' else Rule(api, kind, dx)

    def step(m, V, t):
        ode = S.lin if R is None else (lambda a, b: S.sgp(M, R, a, b))
        mp, Vp = rk4(api, ode, m, V, M.dt, t, spd=R is not None)
        mp, Vp = cut_vec(api, f'mp{t}', mp), cut_sym(api, f'Vp{t}', Vp)
        return M.meas_lin(mp, Vp, ys[t], t) if R is None else M.meas_sgp(R, mp, Vp, ys[t], t)

    def go(m0, P0):
        if R is None:
            return api.run(lambda m, P, dt, y: cd_ekf(S.drift, S.disp, M.meas, m, P, dt, y, fwd_jacobian=fwd), m0, P0, M.dt, ys)
        if const:
            return api.run(lambda m, P, dt, y, B, R0: cd_sgp_filter(S.drift, B, lambda x: M.meas(x, R0), R.code, m, P, dt, y,
                                                                    const_measurement_cov=flag), m0, P0, M.dt, ys, S.B, M.R0)
        return api.run(lambda m, P, dt, y, B: cd_sgp_filter(S.drift, B, M.meas, R.code, m, P, dt, y,
                                                            const_measurement_cov=flag), m0, P0, M.dt, ys, S.B)
    run_filter(api, T, dx, T > 1, go, step)
    api.note('mfs.classical_filters_smoothers.gfs.cd_ekf' if R is None else 'mfs.classical_filters_smoothers.gfs.cd_sgp_filter',
             'mfs.classical_filters_smoothers.quadratures.rk4_m_cov')


def cds_case(api, dx, dw, T, kind):
    M = Model(api, dx, 1)
    S = SDE(api, dx, dw, const=kind != 'ekf')
    R = None if kind == 'ekf' else Rule(api, kind, dx)

    def step(mf, Vf, nm, nv, t):
        Vi, _ = inv_sym(cut_sym(api, f'Vfc{t}', Vf))
        stage = iter(range(4))

        def ode(m, V):
            k = next(stage)
            g = S.gamma(m)
            A = cut_mat(api, f'A{t}{k}', mm(g, Vi))
            if R is None:
                J = add(S.a.jac(list(m), dx), A)
                w = cut_vec(api, f'w{t}{k}', mm(Vi, sub(m, mf)))
                return add(S.a.val(list(m)), mm(g, w)), sub(add(mm(J, V), mm(V, tr(J))), g)
            em, eV = S.sgp(M, R, m, V)
            return add(em, mm(A, sub(m, mf))), sub(add(eV, add(mm(A, V), mm(V, tr(A)))), add(g, g))
        m, V = rk4(api, ode, nm, nv, -M.dt, t, spd=R is not None)
        return m, V

    def go(m, v):
        if R is None:
            return api.run(lambda a, b, dt: cd_eks(S.drift, S.disp, a, b, dt), m, v, M.dt)
        return api.run(lambda a, b, dt, B: cd_sgp_smoother(S.drift, B, R.code, a, b, dt), m, v, M.dt, S.B)
    run_smoother(api, T, dx, T > 1, go, step)
    api.note('mfs.classical_filters_smoothers.gfs.cd_eks' if R is None else 'mfs.classical_filters_smoothers.gfs.cd_sgp_smoother',
             'mfs.classical_filters_smoothers.quadratures.rk4_m_cov_backward')


def rk_case(api, d, back):
    n = d + d * d
    k = n * (2 if back else 1)
    g = Vec(api, 'g', k, n)
    m, V = api.reals('m', d), api.reals('V', d, d)
    mf, Vf = api.reals('mf', d), api.reals('Vf', d, d)
    dt = api.real('dt')
    ex = (list(mf) + list(np.asarray(Vf).reshape(-1))) if back else []

    def spec(a, b):
        r = g.val(list(a) + list(np.asarray(b, dtype=object).reshape(-1)) + ex)
        return r[:d], r[d:].reshape(d, d)

    em, eV = rk4(api, spec, m, V, dt, 0)

    def ode(*xs):
        r = g(*[x for a in xs for x in jnp.ravel(a)])
        return r[:d], r[d:].reshape(d, d)
    if back:
        rm, rV = api.run(lambda a, b, c, e, h: rk4_m_cov_backward(ode, a, b, c, e, h), m, V, mf, Vf, dt)
    else:
        rm, rV = api.run(lambda a, b, h: rk4_m_cov(ode, a, b, h), m, V, dt)
    api.note('mfs.classical_filters_smoothers.quadratures.rk4_m_cov' + ('_backward' if back else ''))
    api.eq('mean', rm, fin(em))
    api.eq('cov', rV, fin(eV))


def affine(api, dx, dy, which):
    """On affine models the extended and sigma-point recursions are the Kalman recursions."""
    from .c09 import Model as Lin
    M = Lin(api, dx, dy)
    b, c = api.reals('b', dx), api.reals('c', dy)
    ys = api.reals('y', 1, dy)
    kind, sm = which

    def step(m, P, t):
        mp = add(mm(M.F, m), b)
        Vp = cut_sym(api, 'Vp', add(mm(mm(M.F, P), tr(M.F)), M.Sig))
        S = cut_sym(api, 'S', add(mm(mm(M.H, Vp), tr(M.H)), M.Xi))
        pred = add(mm(M.H, mp), c)
        return condition(api, mp, Vp, pred, mm(Vp, tr(M.H)), S, ys[t])

    def go(m0, P0):
        def f(m, P, y, F, Q, H, R, b, c):
            st, me = (lambda x, dt: (F @ x + b, Q)), (lambda x: (H @ x + c, R))
            if kind == 'ekf':
                return ekf(st, me, m, P, 1., y)
            return sgp_filter(st, me, Rule(api, kind, dx).code, m, P, 1., y)
        return api.run(f, m0, P0, ys, M.F, M.Sig, M.H, M.Xi, b, c)

    def sstep(mf, Vf, nm, nv, t):
        mp = add(mm(M.F, mf), b)
        Vp = cut_sym(api, 'Vp', add(mm(mm(M.F, Vf), tr(M.F)), M.Sig))
        return smooth_step(api, mf, Vf, mp, Vp, mm(Vf, tr(M.F)), nm, nv)

    def sgo(m, v):
        def f(m, v, F, Q, b):
            st = lambda x, dt: (F @ x + b, Q)
            if kind == 'ekf':
                return eks(st, m, v, 1.)
            return sgp_smoother(st, Rule(api, kind, dx).code, m, v, 1.)
        return api.run(f, m, v, M.F, M.Sig, b)
    if sm:
        run_smoother(api, 2, dx, False, sgo, sstep)
    else:
        run_filter(api, 1, dx, False, go, step)


def cases(tier):
    th = tier == 'thorough'
    out = []
    kw = dict(budget=300, exact_timeout=60)
    for dx, dy in [(1, 1), (1, 2), (2, 1), (2, 2)]:
        for fwd in (False, True):
            for T in (1, 2):
                out.append(Case(f'ekf-{dx}-{dy}-T{T}{"-fwd" if fwd else ""}', ekf_case, dict(dx=dx, dy=dy, T=T, fwd=fwd),
                                validate=T == 1, **kw))
    for dx in (1, 2):
        for T in (1, 2, 3):
            out.append(Case(f'eks-{dx}-T{T}', eks_case, dict(dx=dx, T=T), validate=T < 3, **kw))
    rules = [(1, 'cubature'), (1, 2), (1, 3), (2, 'cubature'), (2, 2), (2, 3)] + ([(3, 'cubature')] if th else [])
    for dx, rule in rules:
        for dy in (1, 2):
            for const, flag in ((False, False), (True, True), (True, False)):
                for T in ((1, 2) if not const else (1,)):
                    out.append(Case(f'sgp-{rule}-{dx}-{dy}-T{T}{"-const" if const else ""}{"-flag" if flag else ""}', sgp_case,
                                    dict(dx=dx, dy=dy, T=T, rule=rule, const=const, flag=flag), validate=T == 1, **kw))
        for T in (1, 2, 3):
            out.append(Case(f'sgps-{rule}-{dx}-T{T}', sgps_case, dict(dx=dx, T=T, rule=rule), validate=T < 3, **kw))
    for d in (1, 2) + ((3,) if th else ()):
        for back in (False, True):
            out.append(Case(f'rk4-{d}{"-back" if back else ""}', rk_case, dict(d=d, back=back), **kw))
    for dx, dy, dw in [(1, 1, 1), (1, 2, 2), (2, 1, 1), (2, 2, 2)]:
        for fwd in (False, True):
            out.append(Case(f'cdekf-{dx}-{dy}-{dw}{"-fwd" if fwd else ""}', cd_case,
                            dict(dx=dx, dy=dy, dw=dw, T=1, kind='ekf', fwd=fwd), **kw))
    out.append(Case('cdekf-1-1-1-T2', cd_case, dict(dx=1, dy=1, dw=1, T=2, kind='ekf'), validate=False, **kw))
    for dx, dw in [(1, 1), (2, 1), (2, 2)]:
        out.append(Case(f'cdeks-{dx}-{dw}', cds_case, dict(dx=dx, dw=dw, T=2, kind='ekf'), **kw))
    out.append(Case('cdeks-1-1-T3', cds_case, dict(dx=1, dw=1, T=3, kind='ekf'), validate=False, **kw))
    for dx, dy, dw, rule in [(1, 1, 1, 'cubature'), (1, 2, 2, 3), (2, 1, 1, 'cubature'), (2, 2, 2, 'cubature')]:
        for const, flag in ((False, False), (True, True)):
            out.append(Case(f'cdsgp-{rule}-{dx}-{dy}-{dw}{"-const" if const else ""}', cd_case,
                            dict(dx=dx, dy=dy, dw=dw, T=1, kind=rule, const=const, flag=flag), **kw))
    for dx, dw, rule in [(1, 1, 'cubature'), (1, 2, 3), (2, 2, 'cubature')]:
        out.append(Case(f'cdsgps-{rule}-{dx}-{dw}', cds_case, dict(dx=dx, dw=dw, T=2, kind=rule), **kw))
    for kind in ('ekf', 'cubature', 3):
        for dx, dy in [(1, 1), (1, 2), (2, 1), (2, 2)]:
            out.append(Case(f'affine-{kind}-{dx}-{dy}', affine, dict(dx=dx, dy=dy, which=(kind, False)), **kw))
        for dx in (1, 2):
            out.append(Case(f'affine-smooth-{kind}-{dx}', affine, dict(dx=dx, dy=1, which=(kind, True)), **kw))
    F = dict(thin=(1, 1), **kw)
    for dx, dy in [(3, 1), (3, 2), (3, 3), (1, 3), (2, 3), (4, 1), (4, 2), (5, 1)]:
        for fwd in (False, True):
            out.append(Case(f'family-ekf-{dx}-{dy}{"-fwd" if fwd else ""}', ekf_case, dict(dx=dx, dy=dy, T=1, fwd=fwd), **F))
    for dx, dy, T in [(1, 1, 3), (2, 1, 3), (2, 2, 3), (3, 1, 2)]:
        out.append(Case(f'family-ekf-{dx}-{dy}-T{T}', ekf_case, dict(dx=dx, dy=dy, T=T, fwd=False), validate=False, **F))
    out.append(Case('family-ekf-1-1-T4', ekf_case, dict(dx=1, dy=1, T=4, fwd=False), validate=False, **F))
    for dx in (3, 4) if tier == 'thorough' else (3,):
        out.append(Case(f'family-eks-{dx}', eks_case, dict(dx=dx, T=2), **F))
    for dx, dy, rule in [(3, 1, 'cubature'), (3, 2, 'cubature'), (3, 3, 'cubature'), (2, 3, 'cubature'), (1, 3, 'cubature'), (1, 3, 3), (2, 1, 3), (3, 1, 2), (4, 1, 'cubature')]:
        for const, flag in ((False, False), (True, True), (True, False)):
            out.append(Case(f'family-sgp-{rule}-{dx}-{dy}{"-const" if const else ""}{"-flag" if flag else ""}', sgp_case,
                            dict(dx=dx, dy=dy, T=1, rule=rule, const=const, flag=flag), **F))
    for dx, rule, T in [(3, 'cubature', 1), (1, 3, 3), (2, 3, 2)]:
        out.append(Case(f'family-sgps-{rule}-{dx}', sgps_case, dict(dx=dx, T=T, rule=rule), validate=T < 3, **F))
    for back in (False, True):
        out.append(Case(f'family-rk4-3{"-back" if back else ""}', rk_case, dict(d=3, back=back), **F))
    for dx, dy, dw in [(3, 2, 2), (3, 1, 3), (2, 1, 3), (1, 3, 1), (3, 3, 1)]:
        for fwd in (False, True):
            out.append(Case(f'family-cdekf-{dx}-{dy}-{dw}{"-fwd" if fwd else ""}', cd_case, dict(dx=dx, dy=dy, dw=dw, T=1, kind='ekf', fwd=fwd), **F))
        for const, flag in ((False, False), (True, True), (True, False)):
            out.append(Case(f'family-cdsgp-{dx}-{dy}-{dw}{"-const" if const else ""}{"-flag" if flag else ""}', cd_case,
                            dict(dx=dx, dy=dy, dw=dw, T=1, kind='cubature', const=const, flag=flag), **F))
    for dx, dw in [(3, 2), (3, 1), (3, 3), (2, 3), (1, 3)]:
        out.append(Case(f'family-cdeks-{dx}-{dw}', cds_case, dict(dx=dx, dw=dw, T=2, kind='ekf'), **F))
        out.append(Case(f'family-cdsgps-{dx}-{dw}', cds_case, dict(dx=dx, dw=dw, T=2, kind='cubature'), **F))
    for kind in ('ekf', 'cubature'):
        for dx, dy in [(3, 1), (3, 2), (3, 3), (4, 1), (1, 3), (2, 3)]:
            out.append(Case(f'family-affine-{kind}-{dx}-{dy}', affine, dict(dx=dx, dy=dy, which=(kind, False)), **F))
        out.append(Case(f'family-affine-smooth-{kind}-3', affine, dict(dx=3, dy=1, which=(kind, True)), **F))
    F = dict(F, budget=50)
    for T in (6, 9, 20):
        out.append(Case(f'family-long-ekf-T{T}', ekf_case, dict(dx=1, dy=1, T=T, fwd=False), validate=False, **F))
        out.append(Case(f'family-long-eks-T{T}', eks_case, dict(dx=1, T=T), validate=False, **F))
        out.append(Case(f'family-long-sgp-T{T}', sgp_case, dict(dx=1, dy=1, T=T, rule='cubature', const=False, flag=False), validate=False, **F))
        out.append(Case(f'family-long-sgps-T{T}', sgps_case, dict(dx=1, T=T, rule='cubature'), validate=False, **F))
        out.append(Case(f'family-long-cdekf-T{T}', cd_case, dict(dx=1, dy=1, dw=1, T=T, kind='ekf'), validate=False, **F))
        out.append(Case(f'family-long-cdeks-T{T}', cds_case, dict(dx=1, dw=1, T=T, kind='ekf'), validate=False, **F))
        out.append(Case(f'family-long-cdsgp-T{T}', cd_case, dict(dx=1, dy=1, dw=1, T=T, kind='cubature', const=False, flag=False), validate=False, **F))
        out.append(Case(f'family-long-cdsgps-T{T}', cds_case, dict(dx=1, dw=1, T=T, kind='cubature'), validate=False, **F))
    for T in (4, 6):
        out.append(Case(f'family-long-ekf-2-2-T{T}', ekf_case, dict(dx=2, dy=2, T=T, fwd=False), validate=False, **F))
        out.append(Case(f'family-long-eks-2-T{T}', eks_case, dict(dx=2, T=T), validate=False, **F))
        out.append(Case(f'family-long-sgp-2-1-T{T}', sgp_case, dict(dx=2, dy=1, T=T, rule='cubature', const=False, flag=False), validate=False, **F))
    return out
