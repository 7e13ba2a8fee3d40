"""C06: conversions between raw, central and scaled moments, and to cumulants, are those of one random variable."""
import numpy as np
import jax.numpy as jnp
from engine.core import Case
from mfs.one_dim.moments import raw_to_central, central_to_raw, raw_to_scaled, scaled_to_central, sms_to_cumulants
from .common import *

BOUNDS = 'sequences of 2..9 moments quick / 2..12 thorough (cumulants 2..8 / 2..10), every entry symbolic; up to 21 moments and 11 ' \
         'cumulants along one-parameter families'
OUTSIDE = 'longer sequences; rounding'


def shift(ms, c):
    """E[(X - c)^n] from E[X^n]."""
    out = []
    for n in range(len(ms)):
        t = 0
        for k in range(n + 1):
            t = t + binom(n, k) * ms[k] * (-c) ** (n - k)
        out.append(t)
    return fin(np.array(out, dtype=object))


def raw(api, s):
    r = api.reals('m', s)
    r[0] = 1
    return r


def cen(api, s):
    r = api.reals('c', s)
    r[0] = 1
    r[1] = 0
    return r


def r2c(api, s):
    m = raw(api, s)
    api.eq('central', api.run(raw_to_central, m), shift(m, m[1]))


def c2r(api, s):
    c = cen(api, s)
    mean = api.real('mean')
    r = api.run(central_to_raw, c, mean)
    api.eq('raw', r, shift(c, -mean))


def round_trip(api, s):
    m = raw(api, s)
    api.eq('raw-central-raw', api.run(central_to_raw, api.run(raw_to_central, m), m[1]), m)
    c = cen(api, s)
    mean = api.real('mean')
    api.eq('central-raw-central', api.run(raw_to_central, api.run(central_to_raw, c, mean)), c)


def r2s(api, s, given):
    m = raw(api, s)
    if given:
        scale = api.real('scale', pos=True)
        out = api.run(raw_to_scaled, m, scale)
        kw = api.run(lambda a, b: raw_to_scaled(a, scale=b), m, scale)
        api.eq('keyword', kw, out)
    else:
        var = m[2] - m[1] * m[1]
        api.assume('>', var)
        scale = api.sqrt(var)
        out = api.run(raw_to_scaled, m)
    c = shift(m, m[1])
    exp = fin(np.array([c[n] / scale ** n for n in range(s)], dtype=object))
    api.eq('scaled', out, exp)
    api.eq('back', api.run(scaled_to_central, out, scale), c)


def s2c(api, s):
    m = api.reals('s', s)
    scale = api.real('scale')
    api.eq('central', api.run(scaled_to_central, m, scale),
           fin(np.array([m[n] * scale ** n for n in range(s)], dtype=object)))


def cum(api, s, mode):
    """Cumulants by the moment recursion on raw moments."""
    sm = api.reals('s', s)
    sm[0] = 1
    if mode == 'raw':
        mean, scale = 0., 1.
        ms = sm
    else:
        sm[1] = 0
        mean = 0. if mode == 'centred' else api.real('mean')
        scale = api.real('scale', pos=True)
        ms = shift(np.array([sm[n] * scale ** n for n in range(s)], dtype=object), -mean)
    k = [None] * s
    for n in range(1, s):
        t = ms[n]
        for j in range(1, n):
            t = t - binom(n - 1, j - 1) * k[j] * ms[n - j]
        k[n] = t
    out = api.run(sms_to_cumulants, sm, mean, scale)
    api.eq('cumulants', out, fin(np.array(k[1:], dtype=object)))


def cases(tier):
    th = tier == 'thorough'
    out = []
    for s in range(2, 13 if th else 10):
        out.append(Case(f'raw_to_central-{s}', r2c, dict(s=s)))
        out.append(Case(f'central_to_raw-{s}', c2r, dict(s=s)))
        out.append(Case(f'round_trip-{s}', round_trip, dict(s=s)))
        out.append(Case(f'raw_to_scaled-scale-{s}', r2s, dict(s=s, given=True)))
        if s > 2:
            out.append(Case(f'raw_to_scaled-default-{s}', r2s, dict(s=s, given=False)))
        out.append(Case(f'scaled_to_central-{s}', s2c, dict(s=s)))
    for s in range(2, 11 if th else 9):
        for mode in ('scaled', 'centred', 'raw'):
            out.append(Case(f'cumulants-{mode}-{s}', cum, dict(s=s, mode=mode)))
    for s in (10, 11, 12, 13, 14, 15, 16, 18, 20, 21):
        for nm, fn, kw in (('raw_to_central', r2c, {}), ('central_to_raw', c2r, {}), ('round_trip', round_trip, {}),
                           ('raw_to_scaled-scale', r2s, dict(given=True)), ('raw_to_scaled-default', r2s, dict(given=False)),
                           ('scaled_to_central', s2c, {})):
            if nm == 'round_trip' and s > 16:          # rounding of the composition
                continue
            out.append(Case(f'family-{nm}-{s}', fn, dict(s=s, **kw), thin=(1, 1), bounds=f'{s} moments, one-parameter family'))
    for mode in ('scaled', 'centred', 'raw'):
        for s in (9, 10, 11):
            out.append(Case(f'family-cumulants-{mode}-{s}', cum, dict(s=s, mode=mode), thin=(1, 1)))
    return out
