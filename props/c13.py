"""C13: particle filters propagate, weight, resample and accumulate correctly."""
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.classical_filters_smoothers.smc import bootstrap_filter, particle_filter
from mfs.classical_filters_smoothers.resampling import systematic
from .common import *

BOUNDS = 'n <= 3 particles (5 thorough), T <= 4 (n = 1), 3 (n = 2), and n <= 9, T <= 24 with weight-independent resampling, state dimension <= 3; arbitrary (uninterpreted) transition, proposal, densities ' \
         'and likelihood, every value of the random draws, every outcome of a weight-dependent resampling scheme; key ' \
         'distinctness on the PRNG keys of T <= 8 steps from 3 seeds'
OUTSIDE = 'more particles and steps; Monte Carlo convergence; the pseudo-random generator itself; rounding'


class Model:
    """Callbacks whose draws can be told apart by their kind and size, whatever keys the filter hands out."""

    def __init__(self, api, n, dx, flat=False, ydim=1, fixed=None):
        self.fixed = fixed
        self.api, self.n, self.dx, self.flat, self.ydim = api, n, dx, flat, ydim
        self.f = [api.uf(f'f{i}') for i in range(dx)]
        self.g = api.uf('g', pos=True)
        self.p = api.uf('p', pos=True)
        self.q = api.uf('q', pos=True)
        self.asked = []

    # code side
    def cols(self, x):
        return [x] if self.flat else [x[:, i] for i in range(self.dx)]

    def pack(self, cs):
        return cs[0] if self.flat else jnp.stack(cs, axis=1)

    def init(self, key, num):
        self.asked.append(num)
        z = jax.random.normal(key, (num * self.dx,))
        return z if self.flat else z.reshape(num, self.dx)

    def ysc(self, y):
        return [y] if self.ydim == 0 else [y[i] for i in range(self.ydim)]

    def trans(self, x, key):
        u = jax.random.normal(key, (self.n * self.dx + 1,))[:-1].reshape(self.n, self.dx)
        cs = self.cols(x)
        return self.pack([self.f[i](*cs) + u[:, i] for i in range(self.dx)])

    def prop(self, x, y, key):
        u = jax.random.normal(key, (self.n * self.dx + 1,))[:-1].reshape(self.n, self.dx)
        cs = self.cols(x)
        return self.pack([self.f[i](*cs, *self.ysc(y)) + u[:, i] for i in range(self.dx)])

    def lik(self, y, x):
        return self.g(*self.ysc(y), *self.cols(x))

    def pdens(self, x, a):
        return self.p(*self.cols(x), *self.cols(a))

    def qdens(self, x, a, y):
        return self.q(*self.cols(x), *self.cols(a), *self.ysc(y))

    def resample(self, w, key):
        u = jax.random.uniform(key, (self.n,))
        if self.fixed is not None:
            return jnp.array(self.fixed)
        return jnp.minimum(jnp.sum(jnp.cumsum(w)[None, :] <= u[:, None], axis=1), self.n - 1)

    # specification side
    def s_resample(self, w, u):
        if self.fixed is not None:
            return list(self.fixed)
        out = []
        for j in range(self.n):
            c, i = 0, 0
            for k in range(self.n - 1):
                c = c + w[k]
                if not self.api.decide('>=', u[j] - c):
                    break
                i += 1
            out.append(i)
        return out


def split_draws(api, n, dx, T, name=''):
    """Keys of the initial draw, the propagations and the resamplings, read off the draws that were made."""
    d = api.draws()
    ini = [k for (t, k, m) in d if t == 'normal' and m == n * dx]
    pro = [k for (t, k, m) in d if t == 'normal' and m == n * dx + 1]
    res = [k for (t, k, m) in d if t == 'uniform']
    ok = len(ini) == 1 and len(pro) == T and len(res) == T and len(d) == 2 * T + 1
    api.true(name + 'one initial draw, one propagation and one resampling per step', ok)
    api.true(name + 'all keys differ', len(set(ini + pro + res)) == len(ini + pro + res))
    return (ini[0], pro, res) if ok else None


def norm_weights(w):
    s = 0
    for x in w:
        s = s + x
    return [x / s for x in w], s


def boot(api, n, T, dx, seed, conti=False, ydim=1, general=False, fixed=None):
    api.rand_symbolic()
    flat = conti
    M = Model(api, n, dx, flat, ydim, fixed)
    ys = api.reals('y', *((T, ydim) if ydim else (T,)))
    key = jax.random.PRNGKey(seed)
    if general:
        out = api.run(lambda ys: particle_filter(M.prop, M.qdens, M.pdens, M.lik, ys, M.init, key, n, M.resample), ys)
    else:
        out, nell = api.run(lambda ys: bootstrap_filter(M.trans, M.lik, ys, M.init, key, n, M.resample,
                                                        **(dict(conti_resampling=True) if conti else {})), ys)
    api.note('mfs.classical_filters_smoothers.smc.' + ('particle_filter' if general else 'bootstrap_filter'))
    api.true('number of particles asked for', M.asked == [n])
    keys = split_draws(api, n, dx, T)
    api.true('shape', np.shape(out) == ((T, n) if flat else (T, n, dx)))
    if keys is None:
        return
    kini, kpro, kres = keys
    z = api.normal(kini, (n * dx,))
    x = [[z[i * dx + j] for j in range(dx)] for i in range(n)]
    acc, nl = [], 0
    for t in range(T):
        y = [ys[t]] if ydim == 0 else [ys[t, i] for i in range(ydim)]
        u = api.normal(kpro[t], (n * dx + 1,))
        new = [[api.ufv(f'f{j}', *x[i], *(y if general else [])) + u[i * dx + j] for j in range(dx)] for i in range(n)]
        w = []
        for i in range(n):
            v = api.ufv('g', *y, *new[i], pos=True)
            if general:
                v = v * api.ufv('p', *new[i], *x[i], pos=True) / api.ufv('q', *new[i], *x[i], *y, pos=True)
            w.append(v)
        wn, s = norm_weights(w)
        if not general:
            nl = nl - api.log(s / n)
        ur = api.uniform(kres[t], (n,))
        if conti:
            x = [[v] for v in inverse_cdf(api, [r[0] for r in new], wn, [(k + ur[k]) / api.q(n) for k in range(n)])]
        else:
            x = [new[i] for i in M.s_resample(wn, ur)]
        acc.append([r[0] for r in x] if flat else [list(r) for r in x])
    api.eq('particles', out, fin(np.array(acc, dtype=object)))
    if not general:
        api.eq('nell', nell, nl)


def inverse_cdf(api, xs, ws, zs):
    n = len(xs)
    order = []
    for i in range(n):
        j = 0
        while j < len(order) and api.decide('>=', xs[i] - xs[order[j]]):
            j += 1
        order.insert(j, i)
    xs, ws = [xs[i] for i in order], [ws[i] for i in order]
    cs, s = [], 0
    for i in range(n):
        cs.append(s + ws[i] / 2)
        s = s + ws[i]
    out = []
    for z in zs:
        j = 0
        while j < n and api.decide('>=', z - cs[j]):
            j += 1
        if j == 0 or j == n:
            out.append(xs[0] if j == 0 else xs[n - 1])
        else:
            out.append(xs[j - 1] + (xs[j] - xs[j - 1]) * (z - cs[j - 1]) / (cs[j] - cs[j - 1]))
    return out


def keys_only(api, T, seeds, general):
    """Longer runs with one particle: only the keys matter."""
    for s in seeds:
        api.rand_symbolic()
        if api.symbolic:
            api.c.rand_draws = []
        M = Model(api, 1, 1)
        ys = api.reals('y', T, 1)
        key = jax.random.PRNGKey(s)
        if general:
            out = api.run(lambda ys: particle_filter(M.prop, M.qdens, M.pdens, M.lik, ys, M.init, key, 1, M.resample), ys)
        else:
            out, nell = api.run(lambda ys: bootstrap_filter(M.trans, M.lik, ys, M.init, key, 1, M.resample), ys)
        split_draws(api, 1, 1, T, f'seed {s}: ')


def cases(tier):
    th = tier == 'thorough'
    out = []
    for n, T, dx in [(1, 2, 1), (2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 1, 1), (3, 1, 2), (1, 3, 1), (1, 4, 1), (1, 1, 3), (2, 3, 1), (2, 1, 3)] + ([(4, 1, 1), (2, 3, 2), (3, 2, 1), (3, 2, 2), (1, 6, 2), (5, 1, 1)] if th else []):
        for gen in (False, True):
            out.append(Case(f'{"particle" if gen else "bootstrap"}-n{n}-T{T}-dx{dx}', boot,
                            dict(n=n, T=T, dx=dx, seed=n + 10 * T + dx, general=gen, ydim=(0 if n == 1 else dx)), max_paths=2000, budget=600 if not th else 2400))
    for n, T in [(1, 2), (2, 1)] + ([(2, 2), (3, 1)] if th else []):
        out.append(Case(f'bootstrap-continuous-n{n}-T{T}', boot, dict(n=n, T=T, dx=1, seed=5, conti=True), max_paths=2000, budget=600 if not th else 2400))
    for gen in (False, True):
        out.append(Case(f'keys-{"particle" if gen else "bootstrap"}', keys_only, dict(T=8, seeds=[0, 1, 666], general=gen)))
    # longer histories and more particles with a resampling scheme that ignores the weights (a single path)
    for n, T, fx in [(1, 6, [0]), (1, 24, [0]), (2, 4, [1, 0]), (2, 12, [1, 1]), (3, 3, [2, 0, 0]), (3, 8, [1, 2, 0]), (4, 2, [3, 1, 1, 0]), (5, 3, [4, 0, 2, 2, 1]), (9, 2, [8, 0, 1, 2, 3, 4, 4, 4, 7])]:
        for gen in (False, True):
            out.append(Case(f'fixed-{"particle" if gen else "bootstrap"}-n{n}-T{T}', boot,
                            dict(n=n, T=T, dx=1 + T % 2, seed=n + 10 * T, general=gen, ydim=T % 2, fixed=fx), budget=50))
    return out
