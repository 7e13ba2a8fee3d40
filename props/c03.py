"""C03: the 1D moment filters perform the Bayes recursion on the moment quadrature, in every mode."""
import math
import numpy as np
import jax.numpy as jnp
from engine.core import Case
from engine import alg, jx
from mfs.one_dim.filtering import moment_filter_rms, moment_filter_cms, moment_filter_scms
from .common import *

BOUNDS = 'n <= 4 nodes (2n moments) quick / 5 thorough, T <= 4 steps in general, 33 raw / 20 central / 8 scaled for 4..6 moments (each later step from an arbitrary state); ' \
         'transition moments and measurement density are uninterpreted functions; n <= 10 (14) along one-parameter families'
OUTSIDE = 'larger n; degenerate moment sequences; rounding'


def gauss(api, ms, n):
    """Numeric Gauss rule of a moment sequence (specification side)."""
    ms = np.asarray(ms, dtype=float)
    G = np.array([[ms[i + j] for j in range(n)] for i in range(n)])
    H = np.array([[ms[i + j + 1] for j in range(n)] for i in range(n)])
    L = np.linalg.cholesky(G)
    K = np.linalg.solve(L, np.linalg.solve(L, H).T).T
    lam, V = np.linalg.eigh((K + K.T) / 2)
    return V[0] ** 2, lam


def cm_numeric(x, j):
    """j-th raw moment of N(0.8 sin(x) + 0.3 x + 0.2, 0.5)"""
    x, j = jnp.asarray(x, dtype='float64'), jnp.asarray(j)
    m = 0.8 * jnp.sin(x) + 0.3 * x + 0.2
    out = 0.
    for k in range(0, 10):
        s = 0.
        for i in range(0, k + 1, 2):
            s = s + math.comb(k, i) * m ** (k - i) * 0.5 ** (i // 2) * math.prod(range(1, i, 2))
        out = out + jnp.where(jnp.round(j) == k, s, 0.)
    return out


def pdf_numeric(y, x):
    return jnp.exp(-0.5 * (y - 0.7 * x) ** 2) + 0.1


def var_numeric(x):
    return 0.4 + 0.3 * jnp.cos(x) ** 2


class State:
    """Symbolic: Jacobi matrix (gives raw moments, nodes, weights). Numeric: moments only."""

    def __init__(self, api, n, J=None, ms=None):
        self.api, self.n = api, n
        if J is not None:
            self.ms = matpow00(J, 2 * n)
            if api.symbolic:
                lam, V = api.eigh(J)
                self.x, self.w = list(lam), [V[0, i] * V[0, i] for i in range(n)]
                self.var = J[0, 1] * J[0, 1] if n > 1 else 0
                return
        else:
            self.ms = ms
        self.w, self.x = gauss(api, self.ms, n)

    def mean(self):
        return self.ms[1]

    def central(self, c, s=1):
        out = []
        for j in range(2 * self.n):
            t = 0
            for k in range(j + 1):
                t = t + binom(j, k) * self.ms[k] * (-c) ** (j - k)
            out.append(t / s ** j)
        return fin(np.array(out, dtype=object))


def filt(api, n, mode, stable, T):
    y = api.reals('y', T)
    ys = y
    states, preds, scales = [], [], []
    sym = api.symbolic
    N = 2 * n
    target = {}

    def node_index(st, x):
        for i in range(n):
            if st.x[i].same(x):
                return i
        return None

    # value of the transition callbacks at the last node of each state is chosen such that the
    # predicted moments are those of a (symbolic) Jacobi matrix: any predicted moments are covered
    def v_cm(x, j):
        j = int(j)
        for st, pr, sc in zip(states, preds, scales):
            i = node_index(st, x)
            if i == n - 1:
                if j >= N:
                    return None
                s = pr.ms[j]
                for l in range(n - 1):
                    s = s - st.w[l] * api.ufv('cm', st.x[l], j)
                return s / st.w[n - 1]
        return None

    def v_var(x):
        for st, pr, sc in zip(states, preds, scales):
            i = node_index(st, x)
            if i == n - 1:
                s = sc * sc
                for l in range(n - 1):
                    s = s - st.w[l] * api.ufv('cv', st.x[l])
                return s / st.w[n - 1]
        return None

    cm = api.uf('cm', value=v_cm if sym else None, numeric=cm_numeric)
    cv = api.uf('cv', value=v_var if sym else None, numeric=var_numeric)
    pdf = api.uf('pdf', pos=True, numeric=pdf_numeric)

    def add_state(t):
        st = State(api, n, J=jacobi(api, f's{t}', n))
        states.append(st)
        preds.append(State(api, n, J=jacobi(api, f'p{t}', n)))
        scales.append(api.real(f'sc{t}', pos=True))
        return st

    st = State(api, n, J=jacobi(api, 's0', n)) if not sym else add_state(0)
    scale0 = api.real('scale0', pos=True)
    nell = 0
    outs = []

    def step(st, t, nell):
        """Specification: one Bayes step from st; returns posterior raw moments."""
        if sym:
            pr = preds[t]
        else:
            pm = [float(sum(st.w[i] * api.ufv('cm', st.x[i], j) for i in range(n))) for j in range(N)]
            pr = State(api, n, ms=np.array(pm))
        lik = [api.ufv('pdf', y[t], x, pos=True) for x in pr.x]
        Z = 0
        for i in range(n):
            Z = Z + pr.w[i] * lik[i]
        post = []
        for j in range(N):
            s = 0
            for i in range(n):
                s = s + pr.w[i] * lik[i] * pr.x[i] ** j
            post.append(s / Z)

        def cent(j, c):
            s = 0
            for i in range(n):
                s = s + pr.w[i] * lik[i] * (pr.x[i] - c) ** j
            return s / Z
        return post, cent, nell - api.log(Z)

    def expected(post, cent):
        """(moments, mean, scale) as the mode reports them"""
        if mode == 'raw':
            return fin(np.array(post, dtype=object)), None, None
        m = post[1]
        if mode == 'central':
            return fin(np.array([cent(j, m) for j in range(N)], dtype=object)), m, None
        sc = api.sqrt(cent(2, m))
        return fin(np.array([cent(j, m) / sc ** j for j in range(N)], dtype=object)), m, sc

    spec = []
    if sym:
        post, cent, nl = step(st, 0, api.q(0))
        spec.append(expected(post, cent) + (nl,))
        fresh = {}

        def hook(c, k, L, carry):
            """Replace carry leaves that equal the specified posterior by an arbitrary fresh state."""
            if L != T or k != len(spec):
                return carry
            e = spec[k - 1]
            new = list(carry)
            done = 0

            def eq(a, b):
                a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
                return a.shape == b.shape and all((alg.Rat.of(x) - u).is_zero() for x, u in
                                                  zip(a.reshape(-1), b.reshape(-1)))
            hit = [None] * len(carry)
            want = [('m', e[0]), ('nell', e[3])] + ([('mean', e[1])] if e[1] is not None else []) + \
                ([('scale', e[2])] if e[2] is not None else [])
            for i, leaf in enumerate(carry):
                if not jx.is_sym(leaf):
                    continue
                for tag, v in want:
                    if tag not in hit and eq(leaf, v):
                        hit[i] = tag
                        break
            if set(h for h in hit if h) != set(t for t, _ in want):
                return carry
            st2 = add_state(k)
            nell2 = api.real(f'nell{k}')
            if mode == 'raw':
                vals = dict(m=st2.ms, nell=nell2)
            elif mode == 'central':
                vals = dict(m=st2.central(st2.mean()), mean=st2.mean(), nell=nell2)
            else:
                # the reported scale is a free positive number: the recursion does not depend on it
                s2 = api.real(f'rs{k}', pos=True)
                vals = dict(m=st2.central(st2.mean(), s2), mean=st2.mean(), scale=s2, nell=nell2)
            for i, h in enumerate(hit):
                if h:
                    v = vals[h]
                    new[i] = v if isinstance(v, np.ndarray) else jx.obj((), [alg.Rat.of(v)])
                    new[i] = jx.elementwise(jx.lift, new[i])
            post, cent, nl = step(st2, k, nell2)
            spec.append(expected(post, cent) + (nl,))
            return new
        if T > 1:
            api.c.scan_hook = hook
    else:
        nl = 0.
        s_ = st
        for t in range(T):
            post, cent, nl = step(s_, t, nl)
            spec.append(expected(post, cent) + (nl,))
            s_ = State(api, n, ms=np.array([float(p) for p in post]))

    orders = list(range(N))
    means = scs = None

    def raw_cb(x, p):
        return jnp.stack([cm(x, float(k)) for k in orders], axis=-1)[..., p]

    def cent_cb(x, p, mean):
        cols = []
        for j in orders:
            s = 0.
            for k in range(j + 1):
                s = s + math.comb(j, k) * cm(x, float(k)) * (-mean) ** (j - k)
            cols.append(s)
        return jnp.stack(cols, axis=-1)[..., p]

    def scaled_cb(x, p, mean, scale):
        return cent_cb(x, p, mean) / scale ** p

    def pdf_cb(y_, x):
        return pdf(y_, x)

    if mode == 'raw':
        ms, nl = api.run(lambda a, b: moment_filter_rms(raw_cb, pdf_cb, a, b, stable=stable), st.ms, ys)
        api.note('mfs.one_dim.filtering.moment_filter_rms')
    elif mode == 'central':
        ms, means, nl = api.run(lambda a, b, c: moment_filter_cms(cent_cb, lambda x: cm(x, 1.), pdf_cb, a, b, c,
                                                                  stable=stable), st.central(st.mean()), st.mean(), ys)
        api.note('mfs.one_dim.filtering.moment_filter_cms')
    else:
        ms, means, scs, nl = api.run(
            lambda a, b, c, d: moment_filter_scms(scaled_cb, lambda x: (cm(x, 1.), cv(x)), pdf_cb, a, b, c, d,
                                                  stable=stable), st.central(st.mean(), scale0), st.mean(), scale0, ys)
        api.note('mfs.one_dim.filtering.moment_filter_scms')
    api.note('mfs.one_dim.quadtures.moment_quadrature')
    if len(spec) < T:
        raise alg.Unsupported('the recursion state could not be identified')
    api.true('shape', np.shape(ms) == (T, N))
    for t in range(T):
        api.eq(f'moments{t}', ms[t], spec[t][0])
        if means is not None:
            api.eq(f'mean{t}', means[t], spec[t][1])
        if scs is not None:
            api.eq(f'scale{t}', scs[t], spec[t][2])
    api.eq('nell', nl, spec[-1][3])


def cases(tier):
    out = []
    N = 4 if tier == 'quick' else 5
    for n in range(1, N + 1):
        for mode in ('raw', 'central', 'scaled'):
            if n == 1 and mode == 'scaled':
                continue
            for stable in (False, True):
                for T in (1, 2) if n > 1 else (1,):
                    out.append(Case(f'{mode}-n{n}-T{T}{"-stable" if stable else ""}', filt,
                                    dict(n=n, mode=mode, stable=stable, T=T), budget=200, validate=T == 1,
                                    bounds=f'{2 * n} moments, {T} steps'))
    for n in (2, 3):
        for mode in ('raw', 'central', 'scaled'):
            for T in (3, 4) if (n, mode) != (2, 'scaled') else (3,):
                out.append(Case(f'{mode}-n{n}-T{T}', filt, dict(n=n, mode=mode, stable=False, T=T), validate=False, bounds=f'{2 * n} moments, {T} steps'))
    th = tier == 'thorough'
    for n in (5, 6, 7, 8, 9, 10) if not th else (5, 6, 7, 8, 9, 10, 11, 12, 14):
        for stable in (False, True):
            out.append(Case(f'family-raw-n{n}{"-stable" if stable else ""}', filt, dict(n=n, mode='raw', stable=stable, T=1),
                            thin=(1, 1), budget=300, bounds=f'{2 * n} moments, one-parameter family'))
    for n in (5,):
        for mode in ('central', 'scaled'):
            for stable in (False, True):
                out.append(Case(f'family-{mode}-n{n}{"-stable" if stable else ""}', filt, dict(n=n, mode=mode, stable=stable, T=1),
                                thin=(1, 1), budget=300, bounds=f'{2 * n} moments, one-parameter family'))
    for n, mode, T in [(1, 'raw', 12), (2, 'raw', 6), (2, 'raw', 12), (2, 'raw', 33), (2, 'central', 8), (2, 'central', 20), (3, 'raw', 7), (3, 'raw', 16), (3, 'central', 6), (3, 'scaled', 5), (3, 'scaled', 8), (4, 'raw', 5)]:
        for thin in (None,):
            out.append(Case(f'{"family-" if thin else ""}long-{mode}-n{n}-T{T}', filt, dict(n=n, mode=mode, stable=False, T=T), thin=thin, validate=False, budget=50, bounds=f'{2 * n} moments, {T} steps'))
    return out
