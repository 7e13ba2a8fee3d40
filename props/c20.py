"""C20: the bundled state-space models are what they are documented to be."""
import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.one_dim.ss_models import benes_bernoulli, well_poisson
from mfs.multi_dims.ss_models import satellite_orbital_stability, prey_predator
from .common import *
from .c07 import Gauss
from .sde import Jet

BOUNDS = 'every state, parameter and emission; measurements 0/1 (Bernoulli) and 0..6 (Poisson, 12 thorough); initial moments for N <= 7 (10 ' \
         'thorough; two-dimensional 4 (5)); simulation: first, second and (from an arbitrary state) last sub-step of the first, second and (from an arbitrary ' \
         'state) last interval, every noise value; two seeds'
OUTSIDE = 'Poisson counts above the bound (the mass function sums to one only in the limit); sub-steps not sampled (same loop body); ' \
          'the pseudo-random generator itself; rounding'


def num(api, v):
    return np.asarray(api.const(v), dtype=object)[()] if api.symbolic else v


def grid(api, dt, T, ts, dt0, T0):
    api.true('step', float(dt) == dt0)
    api.true('number of steps', int(T) == T0)
    api.eq('time grid', np.asarray(ts), np.array([dt0 * (k + 1) for k in range(T0)]), tol=1e-6)


def init1(api, N):
    for mk in (lambda: benes_bernoulli(N), lambda: well_poisson(3., N)):
        r = mk()
        ic = r[3]
        g = [Gauss([m], [[0.05]]) for m in (-0.5, 0.5)]
        rms = [sum(0.5 * h((p,)) for h in g) for p in range(2 * N)]
        sc = [rms[p] / math.sqrt(0.3) ** p for p in range(2 * N)]
        api.eq('means', np.asarray(ic.means), np.array([-0.5, 0.5]), tol=1e-9)
        api.eq('variances', np.asarray(ic.variances), np.array([0.05, 0.05]), tol=1e-9)
        api.eq('weights', np.asarray(ic.weights), np.array([0.5, 0.5]), tol=1e-9)
        api.eq('mean', np.asarray(ic.mean), np.array(0.), tol=1e-9)
        api.eq('variance', np.asarray(ic.variance), np.array(0.3), tol=1e-9)
        api.eq('raw moments', np.asarray(ic.rms), np.array(rms), tol=1e-9)
        api.eq('central moments', np.asarray(ic.cms), np.array(rms), tol=1e-9)
        api.eq('scaled moments', np.asarray(ic.scms), np.array(sc), tol=1e-9)
    api.note('mfs.one_dim.ss_models.benes_bernoulli', 'mfs.one_dim.ss_models.well_poisson', 'mfs.utils.GaussianSum1D.new')


def init2(api, N):
    mi = np.array(grlex(2, 2 * N - 1))
    r = prey_predator(mi)
    gs = r[3]
    g = [Gauss([1., 1.], [[v, 0.], [0., v]]) for v in (0.001, 0.002)]
    c = [Gauss([0., 0.], [[v, 0.], [0., v]]) for v in (0.001, 0.002)]
    api.true('dimension', int(gs.d) == 2)
    api.eq('means', np.asarray(gs.means), np.ones((2, 2)), tol=1e-9)
    api.eq('covariances', np.asarray(gs.covs), np.array([np.eye(2) * 0.001, np.eye(2) * 0.002]), tol=1e-9)
    api.eq('weights', np.asarray(gs.weights), np.array([0.5, 0.5]), tol=1e-9)
    api.eq('mean', np.asarray(gs.mean), np.ones(2), tol=1e-9)
    api.eq('covariance', np.asarray(gs.cov), np.eye(2) * 0.0015, tol=1e-9)
    api.eq('raw moments', np.asarray(gs.rms), np.array([sum(0.5 * h(n) for h in g) for n in mi]), tol=1e-9)
    api.eq('central moments', np.asarray(gs.cms), np.array([sum(0.5 * h(n) for h in c) for n in mi]), tol=1e-9)
    api.note('mfs.multi_dims.ss_models.prey_predator', 'mfs.utils.GaussianSumND.new')


def benes(api, form):
    dt, T, ts, _, drift, disp, logistic, pmf, _ = benes_bernoulli(2)
    grid(api, dt, T, ts, 1e-2, 100)
    n = 1 if form == 'scalar' else 3
    x = api.real('x') if form == 'scalar' else api.reals('x', n)
    xs = [x] if form == 'scalar' else list(x)
    sh = (lambda v: v[0]) if form == 'scalar' else (lambda v: fin(np.array(v, dtype=object)))
    ex = [api.exp(2 * v) for v in xs]
    api.eq('drift', api.run(drift, x), sh([(e - 1) / (e + 1) for e in ex]))
    api.eq('dispersion', api.run(lambda v: jnp.asarray(disp(v)) + jnp.zeros_like(v), x), sh([api.q(1) for _ in xs]))
    em = [1 / (1 + api.exp(-v ** 3 / 5)) for v in xs]
    api.eq('emission', api.run(logistic, x), sh(em))
    tot = []
    for y in (0, 1):
        for yy in (y, float(y)):
            out = api.run(lambda v: pmf(yy, v), x)
            api.eq(f'pmf({yy!r})', out, sh([e if y else 1 - e for e in em]))
        tot.append(out)
    api.eq('total mass', fin(tot[0] + tot[1]), sh([api.q(1) for _ in xs]))
    api.note('mfs.one_dim.ss_models.benes_bernoulli')


def well(api, ymax, form, y0=0):
    dt, T, ts, _, drift, disp, emission, pmf, _ = well_poisson(2.)
    grid(api, dt, T, ts, 1e-2, 1000)
    n = 1 if form == 'scalar' else 2
    x = api.real('x') if form == 'scalar' else api.reals('x', n)
    p = api.real('p')
    xs = [x] if form == 'scalar' else list(x)
    sh = (lambda v: v[0]) if form == 'scalar' else (lambda v: fin(np.array(v, dtype=object)))
    api.eq('drift', api.run(drift, x, p), sh([v * (1 - p * v ** 2) for v in xs]))
    api.eq('dispersion', api.run(lambda v: jnp.asarray(disp(v)) + jnp.zeros_like(v), x), sh([api.q(1) for _ in xs]))
    em = [api.log(1 + api.exp(p * v)) for v in xs]
    for e in em:
        api.fact('>', e)                                    # log(1 + e^a) > 0
    api.eq('emission', api.run(emission, x, p), sh(em))
    for y in range(y0, ymax + 1):
        out = api.run(lambda v, q: pmf(y, v, q), x, p)
        # Poisson mass at y:  e^{-emission} emission^y / y!
        api.eq(f'pmf({y})', out, sh([e ** y * api.exp(-e) * api.q(1, math.factorial(y)) for e in em]), tol=1e-9)
    api.note('mfs.one_dim.ss_models.well_poisson')


def satellite(api, default):
    x = api.reals('x', 2)
    if default:
        a = b = c = api.q(1)
        d, s = satellite_orbital_stability()
        dr, di = api.run(d, x), api.run(s, x)
    else:
        a, b, c = api.real('a'), api.real('b'), api.real('c')
        dr = api.run(lambda a, b, c, x: satellite_orbital_stability(a, b, c)[0](x), a, b, c, x)
        di = api.run(lambda a, b, c, x: satellite_orbital_stability(a, b, c)[1](x), a, b, c, x)
    s1, s2 = api.sin(x[0]), api.sin(2 * x[0])
    api.eq('drift', dr, fin(np.array([x[1], -b * x[1] - s1 - c * s2], dtype=object)))
    api.eq('dispersion', di, fin(np.array([[0, 0], [0, -a * b * x[1] - b * s1]], dtype=object)))
    api.note('mfs.multi_dims.ss_models.satellite_orbital_stability')


def prey(api):
    dt, T, ts, _, drift, disp, emission, pmf, _ = prey_predator(np.array(grlex(2, 3)))
    grid(api, dt, T, ts, 1e-3, 2000)
    x = api.reals('x', 2)
    a, s = api.q(4), num(api, 0.1)
    api.eq('drift', api.run(drift, x), fin(np.array([x[0] * (a - a * x[1]), x[1] * (a * x[0] - a)], dtype=object)))
    api.eq('dispersion', api.run(disp, x), fin(np.array([[s * x[0], 0], [0, s * x[1]]], dtype=object)))
    u = api.real('u')
    api.eq('emission', api.run(emission, u), 1 / (1 + api.exp(1 - u ** 3)))
    e = 1 / (1 + api.exp(1 - x[0] ** 3))
    tot = []
    for y in (0, 1):
        for yy in (y, float(y)):
            out = api.run(lambda v: pmf(yy, v), x)
            api.eq(f'pmf({yy!r})', out, e if y else 1 - e)
        tot.append(out)
    api.eq('total mass', fin(tot[0] + tot[1]), api.q(1))
    api.note('mfs.multi_dims.ss_models.prey_predator')


def uses(api, want):
    """The draws that were made, by kind and size, and that no key serves two of them."""
    dr = api.draws()
    api.true('draws', sorted((k, m) for k, _, m in dr) == sorted(want))
    api.true('no key is used twice', len(set(k for _, k, _ in dr)) == len(dr))
    return dr if sorted((k, m) for k, _, m in dr) == sorted(want) else None


def increments(api, log, out, x0, z, T, n, d, step):
    """Symbolic: every logged sub-step, and how sub-steps, intervals and outputs are chained.  Numeric: two intervals."""
    if api.symbolic:
        from engine.alg import Unsupported
        arr_ = lambda a: np.asarray(a, dtype=object).reshape(-1)
        if [r['length'] for r in log] != [T] * 3 or any([i['length'] for i in r['inner']] != [n] * 3 for r in log) or \
                any(len(r['carry']) != 1 or len(i['carry']) != 1 for r in log for i in r['inner']):
            raise Unsupported('simulation is not a scan over intervals of a scan over sub-steps')
        api.eq('start', arr_(log[0]['carry'][0]), np.array(x0, dtype=object))
        for r in log:
            api.eq('first sub-step starts at the previous state', arr_(r['inner'][0]['carry'][0]), arr_(r['carry'][0]))
            for i in r['inner']:
                p = (r['step'] * n + i['step']) * d
                new = step(list(arr_(i['carry'][0])), z[p:p + d])
                api.eq('sub-step', arr_(i['out'][0]), np.array(new, dtype=object))
            api.eq('interval ends at the last sub-step', arr_(r['out'][0]), arr_(r['inner'][-1]['out'][0]))
            api.eq('trajectory', arr_(out[r['step']]), arr_(r['out'][0]))
    else:
        x = list(x0)
        for k in range(2):
            for s in range(n):
                p = (k * n + s) * d
                x = step(x, z[p:p + d])
            o = np.asarray(out[k], dtype=float).reshape(-1)
            for nm in ('start', 'first sub-step starts at the previous state', 'sub-step', 'interval ends at the last sub-step', 'trajectory'):
                api.eq(nm, o, np.array(x, dtype=float), tol=1e-6)


def simulate1(api, model, seed):
    api.rand_symbolic()
    api.sample_scans()
    key = jax.random.PRNGKey(seed)
    x0 = api.real('x0')
    T, n = (100 if model == 'benes' else 1000), 100
    if model == 'benes':
        out = api.run(lambda x: benes_bernoulli(2)[-1](x, key), x0)
    else:
        p = api.real('p', lo=0, hi=4)
        out = api.run(lambda x, p: well_poisson(p)[-1](x, key), x0, p)
    api.note(f'mfs.one_dim.ss_models.{"benes_bernoulli" if model == "benes" else "well_poisson"}', 'mfs.utils.simulate_sde')
    api.true('shape', np.shape(out) == (T,))
    dr = uses(api, [('normal', T * n)])
    if dr is None or np.shape(out) != (T,):
        return
    z = np.asarray(api.normal(np.array(dr[0][1], dtype=np.uint32), (dr[0][2],)), dtype=object)
    jet = Jet(1, 1)
    mean, cov = jet.tme_mean_cov(3)
    h = num(api, 1e-2) / api.q(100)

    def poly_tanh():
        # derivatives of tanh as polynomials in t = tanh
        out = [{1: 1}]
        for _ in range(8):
            new = {}
            for e, c in out[-1].items():
                if e:
                    new[e - 1] = new.get(e - 1, 0) + c * e
                    new[e + 1] = new.get(e + 1, 0) - c * e
            out.append(new)
        return out
    PT = poly_tanh()

    def step(x, e):
        if model == 'benes':
            E = api.exp(2 * x[0])
            t = (E - 1) / (E + 1)
            f = lambda i, al: sum((c * t ** k for k, c in PT[al[0]].items()), api.q(0))
        else:
            f = lambda i, al: [x[0] * (1 - p * x[0] ** 2), 1 - 3 * p * x[0] ** 2, -6 * p * x[0], -6 * p][al[0]] if al[0] < 4 else api.q(0)
        L = lambda i, j, al: api.q(1) if al == (0,) else api.q(0)
        m = jet.series(mean[0], h, x, f, L, api.q)
        v = jet.series(cov[0][0], h, x, f, L, api.q)
        if api.symbolic:
            api.assume('>', v)
        return [m + api.sqrt(v) * e[0]]
    increments(api, getattr(api.c, 'scan_log', []) if api.symbolic else None, out, [x0], z, T, n, 1, step)


def simulate2(api, seed):
    api.rand_symbolic()
    api.sample_scans()
    key = jax.random.PRNGKey(seed)
    T, n = 2000, 100
    sim = prey_predator(np.array(grlex(2, 3)))[-1]
    x0, xs, ys = api.run(lambda: sim(key))
    api.note('mfs.multi_dims.ss_models.prey_predator')
    api.true('shapes', np.shape(x0) == (2,) and np.shape(xs) == (T, 2) and np.shape(ys) == (T,))
    dr = uses(api, [('uniform', 1), ('normal', 2), ('normal', T * n * 2), ('uniform', T)])
    if dr is None or np.shape(xs) != (T, 2):
        return
    get = lambda kind, m: next(np.asarray(getattr(api, kind)(np.array(k, dtype=np.uint32), (m,)), dtype=object)
                               for t, k, mm_ in dr if (t, mm_) == (kind, m))
    u0, z0, z, uy = get('uniform', 1), get('normal', 2), get('normal', T * n * 2), get('uniform', T)
    # initial state: one of the two components, chosen by u0 with equal probability
    if api.symbolic:
        api.assume('!=', u0[0] - api.q(1, 2))
    hi = api.decide('>', u0[0] - api.q(1, 2))
    got = np.asarray(x0, dtype=object)
    for i in range(2):
        dev = (got[i] - 1) ** 2
        v = [num(api, 0.001) * z0[i] ** 2, num(api, 0.002) * z0[i] ** 2]
        api.eq('initial state', dev, v[0] if hi else v[1], tol=1e-9)
        api.holds('initial state follows the noise', '>=', (got[i] - 1) * z0[i])
    h, s = num(api, 1e-3) / api.q(100), num(api, 0.1)

    def step(x, e):
        a = 4
        dw = [api.sqrt(h) * v for v in e]
        f = [x[0] * (a - a * x[1]), x[1] * (a * x[0] - a)]
        return [x[i] + f[i] * h + s * x[i] * dw[i] + s ** 2 * x[i] * (dw[i] ** 2 - h) / 2 for i in range(2)]
    increments(api, [r for r in getattr(api.c, 'scan_log', []) if r['length'] == T] if api.symbolic else None, xs, list(got), z, T, n, 2, step)
    ix = (0, 1, T - 1)
    for k in ix:
        pr = 1 / (1 + api.exp(1 - np.asarray(xs, dtype=object)[k, 0] ** 3))
        y = np.asarray(ys)[k]
        if api.symbolic:
            from engine import jx
            from engine.alg import Pred
            if isinstance(y, Pred) and y.rel in ('>', '>=') and (y.val - (pr - uy[k])).is_zero():
                api.eq('measurement is drawn with the emission probability', y.val, pr - uy[k])
                continue
            y = jx.force(y)
        else:
            y = bool(y)
        api.holds('measurement is drawn with the emission probability', '>=', (pr - uy[k]) if y else (uy[k] - pr))


def cases(tier):
    th = tier == 'thorough'
    out = []
    for N in (1, 2, 3, 4, 5, 6, 7) + ((8, 9, 10) if th else ()):
        out.append(Case(f'init-1d-{N}', init1, dict(N=N)))
    for N in (1, 2, 3, 4) + ((5,) if th else ()):
        out.append(Case(f'init-2d-{N}', init2, dict(N=N)))
    for form in ('scalar', 'array'):
        out.append(Case(f'benes-{form}', benes, dict(form=form)))
        out.append(Case(f'well-{form}', well, dict(ymax=3 if form == 'array' else 6, form=form), budget=400))
    if th:
        out.append(Case('well-scalar-high', well, dict(ymax=12, y0=7, form='scalar'), budget=600))
    for d in (True, False):
        out.append(Case('satellite' + ('-default' if d else ''), satellite, dict(default=d)))
    out.append(Case('prey-predator', prey))
    for seed in (0, 3) + ((11, 666) if th else ()):
        for m in ('benes', 'well'):
            out.append(Case(f'simulate-{m}-{seed}', simulate1, dict(model=m, seed=seed), validate=False, budget=400))
        out.append(Case(f'simulate-prey-{seed}', simulate2, dict(seed=seed), validate=False, budget=400))
    return out
