"""C17: density approximations and characteristic functions."""
import math
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.one_dim import pdf_approximations as pa
from mfs.one_dim.moments import characteristic_fn, characteristic_from_pdf
from .common import *

BOUNDS = 'Gram-Charlier: 2..7 cumulants (9 thorough, ..12 along one-parameter families); Legendre: 1..8 moments (10; ..16 families), any interval; saddle point: 4 moments, x at ' \
         'the mean, and one-parameter families of saddle equations with three real roots (with one, the formula has no real value); characteristic function: 1..4 nodes (5), three ' \
         'moment conventions; trapezoidal transforms: 2..5 grid points; all moments, locations and grids symbolic'
OUTSIDE = 'more moments; saddle equations of degree above three; accuracy of the approximations; rounding'


def moments_from_cumulants(k):
    """Raw moments m_0.. of a variable with cumulants k[0] = kappa_1, ...  (m_n = sum C(n-1, j-1) kappa_j m_{n-j})."""
    m = [1]
    for n in range(1, len(k) + 1):
        s = 0
        for j in range(1, n + 1):
            s = s + math.comb(n - 1, j - 1) * k[j - 1] * m[n - j]
        m.append(s)
    return m


def hermite_coeffs(n):
    """He_n as {power: coefficient}."""
    a, b = {0: 1}, {1: 1}
    if n == 0:
        return a
    for j in range(1, n):
        c = {p + 1: v for p, v in b.items()}
        for p, v in a.items():
            c[p] = c.get(p, 0) - j * v
        a, b = b, c
    return b


def gram_charlier(api, K, X):
    """pdf(x) = phi(z)/sigma sum_j E[He_j(Z)]/j! He_j(z): the only combination of He_0..He_K times the Gaussian whose
    mass and first K moments are those of the given cumulants (orthogonality)."""
    mean = api.real('k1')
    sig = api.real('sig', pos=True)
    kz = [api.real(f'k{j}') for j in range(3, K + 1)]          # standardised cumulants: any value
    cum = [mean, sig ** 2] + [v * sig ** (j + 3) for j, v in enumerate(kz)]
    xs = api.reals('x', X)
    out = api.run(lambda c, x: pa.gram_charlier(c)(x), fin(np.array(cum, dtype=object)), xs)
    api.note('mfs.one_dim.pdf_approximations.gram_charlier')
    mz = moments_from_cumulants([0, 1] + kz)
    exp = []
    for x in xs:
        z = (x - mean) / sig
        s = 0
        for j in range(K + 1):
            he = hermite_coeffs(j)
            s = s + sum((v * mz[p] for p, v in he.items()), 0) * sum((v * z ** p for p, v in he.items()), 0) * api.q(1, math.factorial(j))
        exp.append(api.exp(-(x - mean) ** 2 / (2 * sig ** 2)) / api.sqrt(2 * api.pi() * sig ** 2) * s)
    api.eq('pdf', out, fin(np.array(exp, dtype=object)))


def legendre_coeffs(k):
    from fractions import Fraction
    a, b = {0: Fraction(1)}, {1: Fraction(1)}
    if k == 0:
        return a
    for n in range(1, k):
        c = {p + 1: v * Fraction(2 * n + 1, n + 1) for p, v in b.items()}
        for p, v in a.items():
            c[p] = c.get(p, 0) - v * Fraction(n, n + 1)
        a, b = b, c
    return b


def legendre(api, n, X, default):
    """Mass and moments of the expansion over [a, b], integrated exactly, against the given ones."""
    rms = [api.q(1)] + [api.real(f'm{i}') for i in range(1, n)]
    xs = api.reals('x', X)
    if default:
        a, b = api.q(-1), api.q(1)
        out = api.run(lambda r, x: pa.legendre_poly_expansion(r)(x), fin(np.array(rms, dtype=object)), xs)
    else:
        a = api.real('a')
        w = api.real('w', pos=True)
        b = a + w
        out = api.run(lambda r, a, b, x: pa.legendre_poly_expansion(r, a, b)(x), fin(np.array(rms, dtype=object)), a, b, xs)
    api.note('mfs.one_dim.pdf_approximations.legendre_poly_expansion')
    al, be = 2 / (b - a), -(a + b) / (b - a)
    tm = []
    for k in range(n):
        s = 0
        for j in range(k + 1):
            s = s + math.comb(k, j) * al ** j * be ** (k - j) * rms[j]
        tm.append(s)
    exp = []
    for x in xs:
        t = al * x + be
        s = 0
        for k in range(n):
            lc = legendre_coeffs(k)
            q = lambda v: api.q(v.numerator, v.denominator)
            s = s + api.q(2 * k + 1, 2) * sum((q(v) * tm[p] for p, v in lc.items()), 0) * sum((q(v) * t ** p for p, v in lc.items()), 0)
        exp.append(al * s)
    api.eq('pdf', out, fin(np.array(exp, dtype=object)))


def roots_hook(sets, named):
    """Contract of the nonsymmetric eigenvalue routine: the eigenvalues are the roots of the characteristic polynomial.
    The candidate root sets are checked symbolically against each matrix the code builds."""
    from engine import alg, jx

    def h(eqn, ins):
        a = jx.to_obj(ins[0])
        n = a.shape[-1]
        mats = a.reshape(-1, n, n)
        outs = []
        for M in mats:
            # Faddeev-LeVerrier
            c, N = [alg.ONE], np.full((n, n), alg.ZERO, dtype=object)
            I = np.full((n, n), alg.ZERO, dtype=object)
            for i in range(n):
                I[i, i] = alg.ONE
            for k in range(1, n + 1):
                N = np.array(mm(M, N), dtype=object) + c[-1] * I
                MN = mm(M, N)
                tr = alg.ZERO
                for i in range(n):
                    tr = tr + MN[i, i]
                c.append(tr * alg.Rat.of(-1) / alg.Rat.of(k))
            for rs in sets:
                p = [alg.Cx(alg.ONE, alg.ZERO)]
                for (re, im) in rs:
                    z = alg.Cx(alg.Rat.of(re), alg.Rat.of(im))
                    new = p + [alg.Cx(alg.ZERO, alg.ZERO)]
                    for i, v in enumerate(p):
                        new[i + 1] = new[i + 1] - z * v
                    p = new
                if len(p) == len(c) and all(v.im.is_zero() and (v.re - w).is_zero() for v, w in zip(p, c)):
                    outs += [alg.Cx(alg.Rat.of(re), alg.Rat.of(im)) for re, im in named]
                    break
            else:
                raise jx.Unsupported('eigenvalues not identified')
        w = jx.obj(a.shape[:-1], outs)
        res = [w]
        for v in eqn.outvars[1:]:
            raise jx.Unsupported('nonsymmetric eigenvectors')
        return res
    return h


def saddle(api, kind):
    mean, sig = api.real('mean'), api.real('sig', pos=True)
    if kind == 'mean':
        s2 = api.real('s2', pos=True)
        s3 = api.real('s3', nonzero=True)
        x = mean
        rr = -2 * s2 / s3
        rs = [(rr, 0), (0, 0), (0, 0)]
        tau = 0
    else:
        # saddle cubics with the real roots r1 = -a tau (nearest to the Gaussian saddle point -tau), r2 = b and r3
        a, b, lo, hi = kind
        tau = api.real('tau', nonzero=True, lo=Fraction(lo), hi=Fraction(hi))
        q = lambda v: api.q(*Fraction(v).as_integer_ratio())
        r1, r2 = -q(a) * tau, q(b)
        S, P = r1 + r2, r1 * r2
        D = 1 + S * tau / 2
        api.assume('!=', D)
        r3 = (-S - P * tau / 2 - 3 / tau) / D
        api.assume('!=', r3)
        e2, e3 = P + r3 * S, P * r3
        s3 = -6 / e3
        s2 = e2 * s3 * tau / 6
        x = mean - tau * sig
        rs = [(r1, 0), (r2, 0), (r3, 0)]
        r3c = r3
    sms = fin(np.array([api.q(1), api.q(0), s2, s3], dtype=object))
    guess = -tau
    # nearest real root to the Gaussian saddle point
    if kind == 'mean':
        best = 0
    else:
        best = r1
        for r in (r2, r3c):
            api.assume('>', (r - guess) ** 2 - (best - guess) ** 2)
    p = lambda u: 1 + s2 * u ** 2 / 2 + s3 * u ** 3 / 6
    p1 = lambda u: s2 * u + s3 * u ** 2 / 2
    p2 = lambda u: s2 + s3 * u
    # where the formula is real: p > 0 and K'' > 0 at the saddle point
    pb0 = p(best)
    kpp0 = sig ** 2 * (p2(best) * p(best) - p1(best) ** 2) / p(best) ** 2
    if kind == 'mean':
        pb, kpp = api.cut('pb', pb0, pos=True), api.cut('kpp', kpp0, pos=True)
    else:
        pb, kpp = pb0, kpp0
        api.assume('>', pb0)
        api.assume('>', kpp0)
    if api.symbolic:
        api.c.eig_hook = roots_hook([rs], rs if kind == 'mean' else [(r1, 0), (r2, 0), (r3c, 0)])
    out = api.run(lambda s, m, c, x: pa.saddle_point(s, m, c)(x), sms, mean, sig, fin(np.array([x], dtype=object)))
    api.note('mfs.one_dim.pdf_approximations.saddle_point')
    s = best / sig
    exp = api.exp(s * mean - s * x) * pb / api.sqrt(2 * api.pi() * kpp)
    api.assume('>', pb0)
    api.assume('>', kpp0)
    api.eq('root', mean + sig * p1(best) / pb0, x)
    api.eq('pdf', out, fin(np.array([exp], dtype=object)))


def cgf(api, n, mode):
    ms = api.reals('m', n)
    z = api.real('z')
    mean = api.real('mean') if mode != 'raw' else 0
    sc = api.real('sc', pos=True) if mode == 'scaled' else 1
    args = [z, ms] + ([mean] if mode != 'raw' else []) + ([sc] if mode == 'scaled' else [])
    s = 0
    for k in range(n):
        s = s + (z * sc) ** k * ms[k] * api.q(1, math.factorial(k))
    api.assume('>', s)
    out = api.run(pa.truncated_cumulant_generating_function, *args)
    api.eq('cgf', out, z * mean + api.log(s))


def chf(api, n, mode):
    J = jacobi(api, 'j', n, mean0=(mode != 'raw'))
    ms = matpow00(J, 2 * n)
    z = api.real('z')
    args = [z, ms]
    mean, sc = 0, 1
    if mode != 'raw':
        mean = api.real('mean')
        args.append(mean)
    if mode == 'scaled':
        sc = api.real('sc', pos=True)
        args.append(sc)
    out = api.run(characteristic_fn, *args)
    lam, V = api.eigh(J)
    re, im = 0, 0
    for k in range(n):
        x = mean + sc * lam[k]
        re = re + V[0, k] ** 2 * api.cos(z * x)
        im = im + V[0, k] ** 2 * api.sin(z * x)
    api.eq('characteristic function', out, api.cx(re, im))


def trapc(v, xs):
    s = 0
    for i in range(len(xs) - 1):
        s = s + (v[i] + v[i + 1]) * (xs[i + 1] - xs[i]) / 2
    return s


def grid(api, n):
    xs = [api.real('x0')]
    for i in range(1, n):
        xs.append(xs[-1] + api.real(f'h{i}', pos=True))
    return xs


def chpdf(api, n):
    xs = grid(api, n)
    ps = api.reals('p', n)
    z = api.real('z')
    out = api.run(characteristic_from_pdf, z, ps, fin(np.array(xs, dtype=object)))
    api.eq('integral', out, api.cx(trapc([api.cos(z * x) * p for x, p in zip(xs, ps)], xs),
                                   trapc([api.sin(z * x) * p for x, p in zip(xs, ps)], xs)))


def invf(api, n):
    zs = grid(api, n)
    a, b = api.reals('re', n), api.reals('im', n)
    x = api.real('loc')
    out = api.run(lambda x, a, b, z: pa.inverse_fourier(x, a + 1.j * b, z), x, a, b, fin(np.array(zs, dtype=object)))
    api.note('mfs.one_dim.pdf_approximations.inverse_fourier')
    # Re[(cos - i sin)(a + i b)]
    v = [api.cos(x * z) * a[i] + api.sin(x * z) * b[i] for i, z in enumerate(zs)]
    api.eq('density', out, trapc(v, zs) / (2 * api.pi()))


def cases(tier):
    th = tier == 'thorough'
    out = []
    for K in (2, 3, 4, 5, 6, 7) + ((8, 9) if th else ()):
        out.append(Case(f'gram_charlier-{K}', gram_charlier, dict(K=K, X=2 if K < 6 else 1), budget=400))
    for n in (1, 2, 3, 4, 5, 6, 7, 8) + ((9, 10) if th else ()):
        out.append(Case(f'legendre-{n}', legendre, dict(n=n, X=2 if n < 5 else 1, default=False)))
        out.append(Case(f'legendre-{n}-default', legendre, dict(n=n, X=2 if n < 5 else 1, default=True)))
    out.append(Case('saddle-mean', saddle, dict(kind='mean')))
    fams = [(1, 8, '1/4', '1'), ('7/8', 4, '1/4', '1'), ('9/8', -6, '-1', '-1/4'), ('3/4', -8, '1/20', '1/5')]
    if th:
        fams += [('5/4', 6, '1/20', '1/2'), ('3/4', 3, '1/4', '1'), (1, -3, '-1', '-1/4'), ('7/8', -6, '1/20', '1/5')]
    for i, k in enumerate(fams):
        out.append(Case(f'saddle-three-{i}', saddle, dict(kind=k)))
    for mode in ('raw', 'central', 'scaled'):
        for n in (1, 2, 3, 4, 5, 6) + ((7, 8, 10) if th else ()):
            out.append(Case(f'cgf-{mode}-{n}', cgf, dict(n=n, mode=mode)))
        for n in (1, 2, 3, 4) + ((5,) if th else ()):
            out.append(Case(f'characteristic-{mode}-{n}', chf, dict(n=n, mode=mode)))
    for n in (2, 3, 4, 5):
        out.append(Case(f'characteristic_from_pdf-{n}', chpdf, dict(n=n)))
        out.append(Case(f'inverse_fourier-{n}', invf, dict(n=n)))
    for K in (8, 9, 10, 11, 12):
        out.append(Case(f'family-gram_charlier-{K}', gram_charlier, dict(K=K, X=1), budget=400, thin=(1, 1)))
    for n in (9, 10, 11, 12, 13, 16):
        out.append(Case(f'family-legendre-{n}', legendre, dict(n=n, X=2, default=False), thin=(1, 1)))
    for mode in ('raw', 'central', 'scaled'):
        for n in (7, 9, 10, 12):
            out.append(Case(f'family-cgf-{mode}-{n}', cgf, dict(n=n, mode=mode), thin=(1, 1)))
        for n in (5, 6, 7, 8):
            out.append(Case(f'family-characteristic-{mode}-{n}', chf, dict(n=n, mode=mode), thin=(1, 1)))
    for n in (6, 7, 12, 33):
        out.append(Case(f'family-characteristic_from_pdf-{n}', chpdf, dict(n=n), thin=(1, 1)))
        out.append(Case(f'family-inverse_fourier-{n}', invf, dict(n=n), thin=(1, 1)))
    return out
