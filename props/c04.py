"""C04: the multidimensional moment filters perform the Bayes recursion on the moment quadrature, in every mode."""
import itertools
import math
import numpy as np
import jax.numpy as jnp
from engine.core import Case
from engine import alg, jx
from mfs.multi_dims.filtering import moment_filter_nd_rms, moment_filter_nd_cms, moment_filter_nd_scms
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico, generate_graded_lexico_multi_indices
from .common import *

BOUNDS = '(d, N) in {(1,1),(1,2),(1,3),(2,1),(2,2)} quick, plus (2,3),(3,2) thorough; T <= 2 steps, 20 for (1,2), 6 for (2,2) (later ones from an ' \
         'arbitrary state); transition moments and measurement density are uninterpreted functions; both callback ' \
         'signatures, both decompositions; (1,5), (2,3), (3,2) quick along one-parameter families; moment arrays of every wrong '\
         'length up to twice the right one'
OUTSIDE = 'larger (d, N); singular Gram matrices; steps whose predictive likelihood is not positive'


def gauss_nd(ms, d, N):
    """Numeric specification of the rule: (weights, nodes) of the compressed multiplication operators."""
    idx = {n: i for i, n in enumerate(grlex(d, 2 * N - 1))}
    basis = grlex(d, N - 1)
    add = lambda a, b, k=None: tuple(x + y + (1 if k == i else 0) for i, (x, y) in enumerate(zip(a, b)))
    G = np.array([[ms[idx[add(a, b)]] for b in basis] for a in basis], dtype=float)
    L = np.linalg.cholesky(G)
    lams, Vs = [], []
    for k in range(d):
        H = np.array([[ms[idx[add(a, b, k)]] for b in basis] for a in basis], dtype=float)
        K = np.linalg.solve(L, np.linalg.solve(L, H).T).T
        lam, V = np.linalg.eigh((K + K.T) / 2)
        lams.append(lam)
        Vs.append(V)
    return rule(lams, Vs, d)


def rule(lams, Vs, d):
    """Weights e0' V1 (V1' V2) ... (V_{d-1}' V_d) e0 over the product grid of eigenvalues."""
    s = len(lams[0])
    w, x = [], []
    for c in itertools.product(range(s), repeat=d):
        t = Vs[0][0, c[0]] * Vs[d - 1][0, c[d - 1]]
        for k in range(d - 1):
            u = 0
            for j in range(s):
                u = u + Vs[k][j, c[k]] * Vs[k + 1][j, c[k + 1]]
            t = t * u
        w.append(t)
        x.append([lams[k][c[k]] for k in range(d)])
    return w, x


def num_mean(x, k):
    d = len(x)
    s = 0.2 + 0.1 * k
    for j in range(d):
        s = s + (0.5 if j == k else 0.2) * jnp.sin(x[j] + 0.3 * j)
    return s


def cm_numeric(*a):
    """E[X^n | x] for independent Gaussians with means num_mean and variances 0.4 + 0.1 k (correlated through x)."""
    a = [jnp.asarray(v, dtype='float64') for v in a]
    d = len(a) // 2
    x, n = a[:d], a[d:]
    out = 1.
    for k in range(d):
        m, v = num_mean(x, k), 0.4 + 0.1 * k
        f = 0.
        for p in range(8):
            s = 0.
            for i in range(0, p + 1, 2):
                s = s + math.comb(p, i) * m ** (p - i) * v ** (i // 2) * math.prod(range(1, i, 2))
            f = f + jnp.where(jnp.round(n[k]) == p, s, 0.)
        out = out * f
    return out


def pdf_numeric(y, *x):
    return jnp.exp(-0.5 * (y - sum((0.6 + 0.2 * k) * v for k, v in enumerate(x))) ** 2) + 0.1


def var_numeric(k, *x):
    return 0.4 + 0.1 * k + 0.2 * jnp.cos(x[0]) ** 2


class State:
    def __init__(self, api, d, N, name=None, ms=None, kind='product'):
        self.api, self.d, self.N = api, d, N
        if name is not None:
            self.M = Measure(api, name, d, N, kind)
            if api.symbolic:
                Ks = self.M.mult_matrices()
                lams, Vs = zip(*[api.eigh(K) for K in Ks])
                w, self.x = rule(lams, Vs, d)
                self.w = [api.cut(f'{name}W{i}', v, nonzero=True) for i, v in enumerate(w)]
                self.mean = list(self.M.mu)
                return
            self.ms = self.M.moments()
        else:
            self.ms = np.asarray(ms, dtype=float)
        self.idx = {n: i for i, n in enumerate(grlex(d, 2 * N - 1))}
        self.w, self.x = gauss_nd(self.ms, d, N)
        self.mean = [self.ms[self.idx[tuple(int(i == k) for i in range(d))]] if N > 0 else 0 for k in range(d)]

    def moments(self, centre=None, scale=None):
        if self.api.symbolic:
            return self.M.moments(centre, scale)
        out = []
        for n in grlex(self.d, 2 * self.N - 1):
            c = centre if centre is not None else [0.] * self.d
            s = 0.
            for k in itertools.product(*[range(i + 1) for i in n]):
                t = self.ms[self.idx[k]]
                for j in range(self.d):
                    t = t * math.comb(n[j], k[j]) * (-c[j]) ** (n[j] - k[j])
                s += t
            for j in range(self.d):
                if scale is not None:
                    s = s / scale[j] ** n[j]
            out.append(s)
        return np.array(out)


def filt(api, d, N, mode, stable, T, sig, kind):
    sym = api.symbolic
    idx = grlex(d, 2 * N - 1)
    z = len(idx)
    y = api.reals('y', T)
    states, preds, scales = [], [], []

    def find(st, x):
        for i, p in enumerate(st.x):
            if all(a.same(b) for a, b in zip(p, x)):
                return i
        return None

    def v_cm(*a):
        x, n = a[:d], tuple(int(v) for v in a[d:])
        for st, pr, sc in zip(states, preds, scales):
            if find(st, x) == len(st.x) - 1 and sum(n) < 2 * N:
                s = pr.M.moment(n)
                for l in range(len(st.x) - 1):
                    s = s - st.w[l] * api.ufv('cm', *st.x[l], *n)
                return s / st.w[-1]
        return None

    def v_var(k, *x):
        for st, pr, sc in zip(states, preds, scales):
            if find(st, x) == len(st.x) - 1:
                s = sc[int(k)] * sc[int(k)]
                for l in range(len(st.x) - 1):
                    s = s - st.w[l] * api.ufv('cv', k, *st.x[l])
                return s / st.w[-1]
        return None

    cm = api.uf('cm', value=v_cm if sym else None, numeric=cm_numeric)
    cv = api.uf('cv', value=v_var if sym else None, numeric=var_numeric)
    pdf = api.uf('pdf', pos=True, numeric=pdf_numeric)

    def add_state(t):
        st = State(api, d, N, f's{t}', kind=kind)
        states.append(st)
        preds.append(State(api, d, N, f'p{t}', kind=kind))
        scales.append([api.real(f'sc{t}_{k}', pos=True) for k in range(d)])
        return st

    st = add_state(0) if sym else State(api, d, N, 's0', kind=kind)
    scale0 = api.reals('scale0', d, pos=True)

    def mono(x, n, c=None, s=None):
        t = 1
        for k in range(d):
            if n[k]:
                v = x[k] if c is None else x[k] - c[k]
                if s is not None:
                    v = v / s[k]
                t = t * v ** n[k]
        return t

    def step(st, t, nell):
        if sym:
            pr = preds[t]
        else:
            pm = [float(sum(w * api.ufv('cm', *x, *n) for w, x in zip(st.w, st.x))) for n in idx]
            pr = State(api, d, N, ms=pm)
        q = [w * api.ufv('pdf', y[t], *x, pos=True) for w, x in zip(pr.w, pr.x)]
        Z = 0
        for v in q:
            Z = Z + v
        api.assume('>', Z)
        Z = api.cut(f'Z{t}', Z, pos=True)

        def ex(f):
            s = 0
            for v, x in zip(q, pr.x):
                s = s + v * f(x)
            return s / Z
        nl = nell - api.log(Z)
        if mode == 'raw':
            post = fin(np.array([ex(lambda x: mono(x, n)) if sum(n) else 1 for n in idx], dtype=object))
            return (post, None, None, nl), (None if sym else post)
        mean = [ex(lambda x: x[k]) for k in range(d)]
        raw = None if sym else [ex(lambda x: mono(x, n)) if sum(n) else 1 for n in idx]
        mean = [api.cut(f'mean{t}_{k}', m) for k, m in enumerate(mean)]
        ma = fin(np.array(mean, dtype=object))
        if mode == 'central':
            post = fin(np.array([ex(lambda x: mono(x, n, mean)) if sum(n) else 1 for n in idx], dtype=object))
            return (post, ma, None, nl), raw
        var = [ex(lambda x: (x[k] - mean[k]) ** 2) for k in range(d)]
        for v in var:
            api.assume('>', v)
        var = [api.cut(f'var{t}_{k}', v, pos=True) for k, v in enumerate(var)]
        sc = [api.sqrt(v) for v in var]
        post = fin(np.array([ex(lambda x: mono(x, n, mean, sc)) if sum(n) else 1 for n in idx], dtype=object))
        return (post, ma, fin(np.array(sc, dtype=object)), nl), raw

    spec = []
    if sym:
        spec.append(step(st, 0, api.q(0))[0])

        def hook(c, k, L, carry):
            if L != T or k != len(spec):
                return carry
            e = spec[k - 1]

            def eq(a, b):
                a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
                return a.shape == b.shape and all((alg.Rat.of(x) - u).is_zero() for x, u in
                                                  zip(a.reshape(-1), b.reshape(-1)))
            want = [('m', e[0]), ('nell', e[3])] + ([('mean', e[1])] if e[1] is not None else []) + \
                ([('scale', e[2])] if e[2] is not None else [])
            hit = [None] * len(carry)
            for i, leaf in enumerate(carry):
                if jx.is_sym(leaf):
                    for tag, v in want:
                        if tag not in hit and eq(leaf, v):
                            hit[i] = tag
                            break
            if set(h for h in hit if h) != set(t for t, _ in want):
                return carry
            st2 = add_state(k)
            nell2 = api.real(f'nell{k}')
            vals = dict(nell=nell2)
            if mode == 'raw':
                vals['m'] = st2.moments()
            else:
                vals['mean'] = fin(np.array(st2.mean, dtype=object))
                if mode == 'central':
                    vals['m'] = st2.moments(st2.mean)
                else:
                    s2 = api.reals(f'rs{k}', d, pos=True)
                    vals['scale'] = s2
                    vals['m'] = st2.moments(st2.mean, s2)
            new = list(carry)
            for i, h in enumerate(hit):
                if h:
                    v = vals[h]
                    v = v if isinstance(v, np.ndarray) else jx.obj((), [v])
                    new[i] = jx.elementwise(jx.lift, v)
            spec.append(step(st2, k, nell2)[0])
            return new
        if T > 1:
            api.c.scan_hook = hook
    else:
        nl, s_ = 0., st
        for t in range(T):
            e, raw = step(s_, t, nl)
            nl = e[3]
            spec.append(e)
            s_ = State(api, d, N, ms=raw if raw is not None else e[0])

    mi = generate_graded_lexico_multi_indices(d, 2 * N - 1, 0)
    inds = gram_and_hankel_indices_graded_lexico(N, d)
    table = np.asarray(idx)

    def select(cols, sel):
        cols = jnp.stack(cols, axis=-1)
        if sig == 'multi-index':
            sel = jnp.argmax(jnp.all(jnp.asarray(sel)[:, None, :] == table[None], axis=-1), axis=-1)
        return cols[..., sel]

    def base(x, n):
        return cm(*[x[..., k] for k in range(d)], *[float(v) for v in n])

    def raw_cb(x, sel):
        return select([base(x, n) for n in idx], sel)

    def cent_cols(x, mean):
        b = {n: base(x, n) for n in idx}
        cols = []
        for n in idx:
            s = 0.
            for k in itertools.product(*[range(i + 1) for i in n]):
                t = b[k]
                for j in range(d):
                    t = t * math.comb(n[j], k[j]) * (-mean[j]) ** (n[j] - k[j])
                s = s + t
            cols.append(s)
        return cols

    def cent_cb(x, sel, mean):
        return select(cent_cols(x, mean), sel)

    def scaled_cb(x, sel, mean, scale):
        cols = [c / math.prod([scale[j] ** n[j] for j in range(d)]) for c, n in zip(cent_cols(x, mean), idx)]
        return select(cols, sel)

    def mean_cb(x):
        return jnp.stack([base(x, [int(i == k) for i in range(d)]) for k in range(d)], axis=-1)

    def mv_cb(x):
        return mean_cb(x), jnp.stack([cv(jnp.full(x.shape[:-1], float(k)), *[x[..., j] for j in range(d)])
                                      for k in range(d)], axis=-1)

    def pdf_cb(yy, x):
        return pdf(yy, *[x[k] for k in range(d)])

    means = scs = None
    order = (mi, inds)
    mean0 = fin(np.array(st.mean, dtype=object))
    if mode == 'raw':
        ms, nl = api.run(lambda a, b: moment_filter_nd_rms((raw_cb, sig), pdf_cb, b, order, a, stable=stable),
                         st.moments(), y)
        api.note('mfs.multi_dims.filtering.moment_filter_nd_rms')
    elif mode == 'central':
        ms, means, nl = api.run(lambda a, m, b: moment_filter_nd_cms((cent_cb, sig), mean_cb, pdf_cb, b, order, a, m,
                                                                     stable=stable), st.moments(st.mean), mean0, y)
        api.note('mfs.multi_dims.filtering.moment_filter_nd_cms')
    else:
        ms, means, scs, nl = api.run(
            lambda a, m, s, b: moment_filter_nd_scms((scaled_cb, sig), mv_cb, pdf_cb, b, order, a, m, s, stable=stable),
            st.moments(st.mean, scale0), mean0, scale0, y)
        api.note('mfs.multi_dims.filtering.moment_filter_nd_scms')
    api.note('mfs.multi_dims.quadratures.moment_quadrature_nd',
             'mfs.multi_dims.multi_indices.gram_and_hankel_indices_graded_lexico')
    if len(spec) < T:
        raise alg.Unsupported('the recursion state could not be identified')
    api.true('shape', np.shape(ms) == (T, z))
    for t in range(T):
        api.eq(f'moments{t}', ms[t], spec[t][0])
        if means is not None:
            api.eq(f'mean{t}', means[t], spec[t][1])
        if scs is not None:
            api.eq(f'scale{t}', scs[t], spec[t][2])
    api.eq('nell', nl, spec[-1][3])


def ill_sized(api, d, N, mode, sig):
    """A moment array of any other length than the table is rejected (lengths 1 .. 2z, and those of other orders)."""
    mi = generate_graded_lexico_multi_indices(d, 2 * N - 1, 0)
    inds = gram_and_hankel_indices_graded_lexico(N, d)
    z = mi.shape[0]

    def cb(x, sel, *_):
        return jnp.ones(x.shape[:-1] + (len(sel),)) * (1. + jnp.sum(x ** 2, axis=-1))[..., None]
    pdf = lambda y, x: jnp.exp(-(y - x[0]) ** 2)
    for m in sorted(set(range(1, 2 * z + 1)) | {math.comb(2 * n - 1 + d, d) for n in (1, 2, 3, 4)}):
        if m == z:
            continue
        a = jnp.asarray(np.resize(np.arange(1., z + 1.), m))
        if mode == 'raw':
            fn = lambda: moment_filter_nd_rms((cb, sig), pdf, jnp.zeros(2), (mi, inds), a)
        elif mode == 'central':
            fn = lambda: moment_filter_nd_cms((cb, sig), lambda x: x, pdf, jnp.zeros(2), (mi, inds), a, jnp.zeros(d))
        else:
            fn = lambda: moment_filter_nd_scms((cb, sig), lambda x: (x, x * 0 + 1), pdf, jnp.zeros(2), (mi, inds), a, jnp.zeros(d), jnp.ones(d))
        api.raises(f'{m} moments instead of {z} are rejected', ValueError, fn)


def cases(tier):
    out = []
    for mode in ('raw', 'central', 'scaled'):
        for d, N, sig in [(1, 2, 'index'), (2, 2, 'multi-index'), (3, 1, 'index')]:
            out.append(Case(f'ill-sized-{mode}-d{d}-N{N}', ill_sized, dict(d=d, N=N, mode=mode, sig=sig)))
    dims = [(1, 2), (1, 3), (2, 1), (2, 2)]
    if tier == 'thorough':
        dims += [(2, 3), (3, 2)]
    for d, N in dims:
        kind = 'tensor' if N == 2 and d > 1 else 'product'
        for mode in ('raw', 'central', 'scaled'):
            if N == 1 and mode == 'scaled':
                continue
            for stable, sig, T in ((False, 'multi-index', 1), (True, 'index', 1), (False, 'index', 2)):
                if T > 1 and N == 1:
                    continue
                big = (d, N) in ((2, 3), (3, 2))
                out.append(Case(f'{mode}-d{d}-N{N}-{sig}-T{T}{"-stable" if stable else ""}', filt,
                                dict(d=d, N=N, mode=mode, stable=stable, T=T, sig=sig, kind=kind),
                                budget=1500 if big else 300, validate=T == 1,
                                bounds=f'd={d}, degree <= {2 * N - 1}, {T} steps'))
    th = tier == 'thorough'
    for d, N in [(1, 5), (2, 3), (3, 2)] + ([(2, 4), (3, 3), (4, 2)] if th else []):
        for mode, stable, sig in (('raw', False, 'multi-index'), ('central', True, 'multi-index'), ('scaled', False, 'index'), ('raw', True, 'index'),
                                  ('scaled', True, 'multi-index')):
            if mode == 'scaled' and (d == 3 or sig == 'index') and not th:
                continue
            out.append(Case(f'family-{mode}-d{d}-N{N}-{sig}{"-stable" if stable else ""}', filt,
                            dict(d=d, N=N, mode=mode, stable=stable, T=1, sig=sig, kind='product'), thin=(1, 1),
                            budget=300 if not th else 1500, bounds=f'd={d}, degree <= {2 * N - 1}, one-parameter family'))
    for d, N, mode, T in [(1, 2, 'raw', 4), (1, 2, 'central', 6), (1, 2, 'raw', 9), (1, 2, 'raw', 20), (1, 3, 'scaled', 3), (1, 3, 'raw', 12), (2, 2, 'raw', 3), (2, 2, 'central', 3), (2, 2, 'raw', 6), (2, 2, 'scaled', 3)]:
        for thin in (None,):
            out.append(Case(f'{"family-" if thin else ""}long-{mode}-d{d}-N{N}-T{T}', filt, dict(d=d, N=N, mode=mode, stable=False, T=T, sig='index', kind='product'), thin=thin, validate=False, budget=50, bounds=f'{T} steps'))
    return out
