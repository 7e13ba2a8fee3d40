"""C08: SDE conditional-moment generators."""
import math
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.one_dim import moments as m1
from mfs.multi_dims import moments as md
from .common import *
from .c07 import Gauss
from .sde import Jet

BOUNDS = '1D: orders below 2N with N <= 4 (5 thorough), TME order 1..3; d = 2: degree <= 5 (6 thorough), Wiener dimension 1..3; d = 3: degree ' \
         '<= 3 (5), Wiener dimension 1..3; d = 4: degree 2; TME order 1..2 (d = 2, degree <= 3), else 1; two states per call; drift and dispersion arbitrary (uninterpreted); ' \
         'state, step, centre and scale symbolic'
OUTSIDE = 'higher TME orders, degrees and dimensions; accuracy of the TME expansion itself; rounding'


class Funcs:
    """Abstract drift and dispersion: code side (jax) and specification side (values of derivatives)."""

    def __init__(self, api, d, w, scalar):
        self.api, self.d, self.w, self.scalar = api, d, w, scalar
        self.fu = [api.uf(f'f{i}') for i in range(d)]
        # in one dimension the dispersion is nonnegative by convention (its sign does not change the distribution)
        self.Lu = [[api.uf(f'L{i}{j}', pos=(d == 1 and w == 1)) for j in range(w)] for i in range(d)]
        self.pos = d == 1 and w == 1
        self.jet = Jet(d, w)

    def drift(self, x):
        if self.scalar:
            return self.fu[0](x)
        return jnp.stack([f(*[x[i] for i in range(self.d)]) for f in self.fu])

    def disp(self, x):
        if self.scalar:
            return self.Lu[0][0](x)
        return jnp.stack([jnp.stack([g(*[x[i] for i in range(self.d)]) for g in r]) for r in self.Lu])

    def at(self, x):
        api = self.api
        f = lambda i, al: api.ufd(f'f{i}', al, *x) if any(al) else api.ufv(f'f{i}', *x)
        L = lambda i, j, al: api.ufd(f'L{i}{j}', al, *x) if any(al) else api.ufv(f'L{i}{j}', *x, pos=self.pos)
        return f, L

    def mean_cov(self, x, dt, order, cut=None):
        f, L = self.at(x)
        z = (0,) * self.d
        d = self.d
        if order == 0:
            m = [x[i] + f(i, z) * dt for i in range(d)]
            P = [[sum((L(i, k, z) * L(j, k, z) for k in range(self.w)), 0) * dt for j in range(d)] for i in range(d)]
        else:
            mean, cov = self.jet.tme_mean_cov(order)
            m = [self.jet.series(mean[i], dt, x, f, L, self.api.q) for i in range(d)]
            P = [[self.jet.series(cov[i][j], dt, x, f, L, self.api.q) for j in range(d)] for i in range(d)]
        if d == 1 and order > 1:
            self.api.assume('>', P[0][0])
        if cut is not None:
            m = [self.api.cut(f'{cut}m{i}', v) for i, v in enumerate(m)]
            for i in range(d):
                for j in range(i, d):
                    P[i][j] = P[j][i] = self.api.cut(f'{cut}P{i}{j}', P[i][j], pos=(d == 1))
        return m, P

    def tme_moment(self, n, x, dt, order):
        f, L = self.at(x)
        return self.jet.series(self.jet.tme_moment(n, order), dt, x, f, L, self.api.q)


def shift_scale(E, n, c, s):
    """E[prod ((X_i - c_i)/s_i)^{n_i}] from raw moments E(multi-index)."""
    import itertools
    tot = 0
    for k in itertools.product(*[range(a + 1) for a in n]):
        t = E(k)
        for i, (a, b) in enumerate(zip(n, k)):
            t = t * math.comb(a, b) * (-c[i]) ** (a - b)
        tot = tot + t
    for i, a in enumerate(n):
        tot = tot / s[i] ** a
    return tot


def one_dim(api, kind, N, order, X=2, part='raw'):
    F = Funcs(api, 1, 1, True)
    dt = api.real('dt', pos=True) * api.q(1, 4)
    xs = api.reals('x', X)
    c, s = api.real('c'), api.real('s', pos=True)
    K = 2 * N
    ms, Ps, E = [], [], []
    for t in range(X):
        if kind == 'tme':
            E.append(lambda n, t=t: F.tme_moment(n, [xs[t]], dt, order))
        else:
            m, P = F.mean_cov([xs[t]], dt, 0 if kind == 'euler' else order, cut=f't{t}' if order > 1 else None)
            E.append(Gauss(m, P))
            ms.append(m[0]), Ps.append(P[0][0])
    if kind == 'tme' and part == 'mean':
        for t in range(X):
            m, P = F.mean_cov([xs[t]], dt, order)
            ms.append(m[0]), Ps.append(P[0][0])

    def gen(dt):
        # tme calls the functions with shape-(1,) states
        dr = lambda x: F.fu[0](x)
        di = lambda x: F.Lu[0][0](x)
        if kind == 'euler':
            return m1.sde_cond_moments_euler(dr, di, dt, N)
        if kind == 'tme_normal':
            return m1.sde_cond_moments_tme_normal(dr, di, dt, order, N)
        return m1.sde_cond_moments_tme(dr, di, dt, order)
    ns = jnp.arange(K)
    api.note({'euler': 'mfs.one_dim.moments.sde_cond_moments_euler', 'tme_normal': 'mfs.one_dim.moments.sde_cond_moments_tme_normal',
              'tme': 'mfs.one_dim.moments.sde_cond_moments_tme'}[kind])
    if part == 'raw':
        out = api.run(lambda x, dt: gen(dt)[0](x, ns), xs, dt)
        api.eq('raw', out, fin(np.array([[E[t]((n,)) + 0 * xs[0] for n in range(K)] for t in range(X)], dtype=object)))
    elif part == 'central':
        out = api.run(lambda x, dt, c: gen(dt)[1](x, ns, c), xs, dt, c)
        api.eq('central', out, fin(np.array([[shift_scale(E[t], (n,), [c], [1]) + 0 * xs[0] for n in range(K)] for t in range(X)], dtype=object)))
    elif part == 'scaled':
        out = api.run(lambda x, dt, c, s: gen(dt)[2](x, ns, c, s), xs, dt, c, s)
        api.eq('scaled', out, fin(np.array([[shift_scale(E[t], (n,), [c], [s]) + 0 * xs[0] for n in range(K)] for t in range(X)], dtype=object)))
    else:
        m, (m2, v) = api.run(lambda x, dt: (gen(dt)[3](x), gen(dt)[4](x)), xs, dt)
        api.eq('mean', m, fin(np.array(ms, dtype=object)))
        api.eq('mean of mean_var', m2, fin(np.array(ms, dtype=object)))
        api.eq('var', v, fin(np.array(Ps, dtype=object)))


def multi_dim(api, kind, d, w, hi, order, part, X=2):
    F = Funcs(api, d, w, False)
    dt = api.real('dt', pos=True) * api.q(1, 4)
    xs = api.reals('x', X, d)
    c, s = api.reals('c', d), api.reals('s', d, pos=True)
    idx = grlex(d, hi)
    table = np.array(idx, dtype='int64')
    E, ms, Ps = [], [], []
    for t in range(X):
        x = list(xs[t])
        if kind == 'tme':
            E.append(lambda n, x=x: F.tme_moment(n, x, dt, order))
            if part == 'mean':
                m, P = F.mean_cov(x, dt, order)
        else:
            m, P = F.mean_cov(x, dt, 0 if kind == 'euler' else order, cut=f't{t}' if part != 'mean' else None)
            E.append(Gauss(m, P))
        if part == 'mean':
            ms.append(m), Ps.append([P[i][i] for i in range(d)])

    def gen(dt):
        if kind == 'euler':
            return md.sde_cond_moments_euler_maruyama(F.drift, F.disp, dt, table)
        if kind == 'tme_normal':
            return md.sde_cond_moments_tme_normal(F.drift, F.disp, dt, order, table)
        return md.sde_cond_moments_tme(F.drift, F.disp, dt, order)
    sel = jnp.asarray(table) if kind == 'tme' else jnp.arange(len(idx))
    api.note({'euler': 'mfs.multi_dims.moments.sde_cond_moments_euler_maruyama',
              'tme_normal': 'mfs.multi_dims.moments.sde_cond_moments_tme_normal', 'tme': 'mfs.multi_dims.moments.sde_cond_moments_tme'}[kind])
    z = 0 * xs[0, 0]
    if part == 'raw':
        out = api.run(lambda x, dt: gen(dt)[0](x, sel), xs, dt)
        api.eq('raw', out, fin(np.array([[E[t](n) + z for n in idx] for t in range(X)], dtype=object)))
    elif part == 'central':
        out = api.run(lambda x, dt, c: gen(dt)[1](x, sel, c), xs, dt, c)
        api.eq('central', out, fin(np.array([[shift_scale(E[t], n, c, [1] * d) + z for n in idx] for t in range(X)], dtype=object)))
    elif part == 'scaled':
        out = api.run(lambda x, dt, c, s: gen(dt)[2](x, sel, c, s), xs, dt, c, s)
        api.eq('scaled', out, fin(np.array([[shift_scale(E[t], n, c, s) + z for n in idx] for t in range(X)], dtype=object)))
    else:
        m, (m2, v) = api.run(lambda x, dt: (gen(dt)[3](x), gen(dt)[4](x)), xs, dt)
        api.eq('mean', m, fin(np.array(ms, dtype=object)))
        api.eq('mean of mean_var', m2, fin(np.array(ms, dtype=object)))
        api.eq('var', v, fin(np.array(Ps, dtype=object)))


def cases(tier):
    th = tier == 'thorough'
    out = []
    for part in ('raw', 'central', 'scaled', 'mean'):
        for N in (1, 2, 3, 4) + ((5,) if th else ()):
            out.append(Case(f'1d-euler-N{N}-{part}', one_dim, dict(kind='euler', N=N, order=1, part=part)))
            for o in (1, 2, 3):
                out.append(Case(f'1d-tme_normal{o}-N{N}-{part}', one_dim, dict(kind='tme_normal', N=N, order=o, part=part, X=1 if o > 2 else 2)))
                if not (part == 'mean' and N > 1):
                    out.append(Case(f'1d-tme{o}-N{N}-{part}', one_dim, dict(kind='tme', N=N, order=o, part=part, X=1 if o > 2 else 2)))
        for d, w, hi, top in [(1, 1, 3, 2), (2, 1, 3, 2), (2, 2, 3, 2), (2, 3, 3, 1), (2, 2, 4, 1), (2, 2, 5, 1), (3, 1, 3, 1), (3, 2, 3, 1), (3, 3, 2, 1), (4, 1, 2, 1)] + \
                ([(2, 1, 5, 2), (2, 2, 6, 1), (3, 1, 3, 2), (3, 3, 3, 1), (3, 1, 5, 1), (4, 4, 2, 1), (5, 1, 2, 1)] if th else []):
            ex = '' if top == (2 if d < 3 and hi < 4 else 1) else f'-top{top}'
            out.append(Case(f'{d}d-w{w}-euler-deg{hi}-{part}{ex}', multi_dim, dict(kind='euler', d=d, w=w, hi=hi, order=1, part=part)))
            for o in range(1, top + 1):
                out.append(Case(f'{d}d-w{w}-tme_normal{o}-deg{hi}-{part}{ex}', multi_dim,
                                dict(kind='tme_normal', d=d, w=w, hi=hi, order=o, part=part, X=1)))
                out.append(Case(f'{d}d-w{w}-tme{o}-deg{hi}-{part}{ex}', multi_dim,
                                dict(kind='tme', d=d, w=w, hi=hi, order=o, part=part, X=1)))
    return out
