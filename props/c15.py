"""C15: LDL factorisation, LDL-based square root, Lanczos tridiagonalisation and Ritz pairs."""
import numpy as np
import jax
import jax.numpy as jnp
from engine.core import Case
from mfs.utils import ldl, ldl_chol, lanczos, lanczos_ritz
from .common import *

BOUNDS = 'LDL: every symmetric matrix with non-zero leading minors, n <= 6 (7 thorough); square root: n <= 5 (6), sign ' \
         'patterns of the pivots (all for n <= 3); Lanczos: every symmetric n <= 3 matrix and unit start vector in general position, 1 <= m <= n; ' \
         'n <= 10 (LDL, square root) and n <= 8 (Lanczos) along one-parameter families'
OUTSIDE = 'larger matrices; breakdown (zero pivots, invariant Krylov spaces); rounding'


def unit_lower(api, n):
    L = eye(n)
    for i in range(n):
        for j in range(i):
            L[i, j] = api.real(f'l{i}{j}')
    return L


def build(api, n, signs=None):
    L = unit_lower(api, n)
    D = []
    for i in range(n):
        if signs is None:
            D.append(api.real(f'd{i}', nonzero=True))
        else:
            v = api.real(f'd{i}', pos=True)
            D.append(v if signs[i] > 0 else -v)
    LD = O(n, n)
    for i in range(n):
        for j in range(n):
            LD[i, j] = L[i, j] * D[j]
    return fin(mm(LD, L.T)), fin(L), fin(np.array(D, dtype=object))


def ldl_case(api, n):
    A, L, D = build(api, n)
    l, d = api.run(ldl, A)
    api.eq('L', l, L)
    api.eq('D', d, D)


def ldl_entries(api, n):
    """Same, from the matrix entries: reconstruction."""
    A = zeros(n, n)
    for i in range(n):
        for j in range(i + 1):
            A[i, j] = A[j, i] = api.real(f'a{i}{j}')
    A = fin(A)
    for k in range(1, n + 1):
        api.assume('!=', det(A[:k, :k]))
    l, d = api.run(ldl, A)
    R = O(n, n)
    for i in range(n):
        for j in range(n):
            R[i, j] = l[i, j] * d[j]
    api.eq('L D L^T', fin(mm(R, np.asarray(l).T)), A)
    for i in range(n):
        api.eq(f'unit{i}', l[i, i], api.q(1))
        for j in range(i + 1, n):
            api.eq(f'lower{i}{j}', l[i, j], api.q(0))


def det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    s = 0
    for j in range(n):
        M = np.delete(np.delete(A, 0, 0), j, 1)
        s = s + (-1) ** j * A[0, j] * det(M)
    return s


def chol_case(api, n, signs, eps):
    A, L, D = build(api, n, signs)
    if eps:
        e = api.real('eps', pos=True)
        R = api.run(lambda a, b: ldl_chol(a, b), A, e)
    else:
        s = 0
        for v in np.asarray(A).reshape(-1):
            s = s + v * v
        e = api.sqrt(s) * api.q(1, 10 ** 8)
        R = api.run(ldl_chol, A)
    api.note('mfs.utils.ldl_chol', 'mfs.utils.ldl')
    exp = O(n, n)
    for i in range(n):
        for j in range(n):
            exp[i, j] = L[i, j] * (api.sqrt(D[j]) if signs[j] > 0 else e)
    api.eq('root', R, fin(exp))
    if all(x > 0 for x in signs):
        api.eq('R R^T', fin(mm(R, np.asarray(R).T)), A)


def rot(api, n, i, j, t):
    """Rational parametrisation of a plane rotation."""
    Q = eye(n)
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    Q[i, i] = Q[j, j] = c
    Q[i, j], Q[j, i] = -s, s
    return Q


def lz_inputs(api, n, e1=False):
    """A = Q T Q^T with T unreduced tridiagonal: then v0 = Q e1 and the Krylov basis is Q up to the sign convention."""
    T = jacobi(api, 'T', n)
    Q = eye(n)
    if e1:
        pairs = [(i, j) for i in range(1, n) for j in range(i + 1, n)]
    else:
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for i, j in pairs:
        Q = mm(Q, rot(api, n, i, j, api.real(f't{i}{j}')))
    A = mm(mm(Q, T), Q.T)
    for i in range(n):
        for j in range(i):
            A[i, j] = A[j, i]
    return fin(A), fin(Q), fin(T)


def lz(api, n, m, e1):
    A, Q, T = lz_inputs(api, n, e1)
    V, al, be = api.run(lambda a, v: lanczos(a, v, m), A, Q[:, 0])
    api.note('mfs.utils.lanczos')
    api.eq('V', V, Q[:, :m])
    api.eq('alpha', al, fin(np.array([T[i, i] for i in range(m)], dtype=object)))
    api.true('beta-shape', np.shape(be) == (m - 1,))
    if m > 1:
        api.eq('beta', be, fin(np.array([T[i, i + 1] for i in range(m - 1)], dtype=object)))


def ritz(api, n, m, e1, sort):
    A, Q, T = lz_inputs(api, n, e1)
    r = api.real('norm', pos=True)
    v0 = fin(np.array([Q[i, 0] * r for i in range(n)], dtype=object))
    X, lam = api.run(lambda a, v: lanczos_ritz(a, v, m, sort_eigenvalues=sort), A, v0)
    api.note('mfs.utils.lanczos_ritz', 'mfs.utils.lanczos')
    api.true('shapes', np.shape(X) == (n, m) and np.shape(lam) == (m,))
    # sum_j lam_j^k x_j = Q_m T_m^k e1 |v0|
    v = zeros(m)
    v[0] = r
    for k in range(0, 2 * m):
        s = fin(np.array([dot(X[i], [lam[j] ** k for j in range(m)]) for i in range(n)], dtype=object))
        api.eq(f'power{k}', s, fin(mm(Q[:, :m], v)))
        v = mm(T[:m, :m], v)
    if sort:
        for j in range(m - 1):
            api.holds(f'sorted{j}', '>=', lam[j + 1] - lam[j])


def cases(tier):
    import itertools
    th = tier == 'thorough'
    out = []
    for n in range(1, 8 if th else 7):
        out.append(Case(f'ldl-{n}', ldl_case, dict(n=n)))
    for n in range(1, 6 if th else 5):
        out.append(Case(f'ldl-entries-{n}', ldl_entries, dict(n=n)))
    for n in range(1, 7 if th else 6):
        pats = list(itertools.product((1, -1), repeat=n))
        if n > 3:
            pats = [p for p in pats if sum(x < 0 for x in p) <= 1] + [(-1,) * n]
        for p in pats:
            for eps in (True, False):
                out.append(Case(f'ldl_chol-{"".join("+" if x > 0 else "-" for x in p)}{"-eps" if eps else ""}', chol_case,
                                dict(n=n, signs=p, eps=eps)))
    for n, e1 in [(1, False), (2, False), (3, False), (3, True)] + ([(4, True)] if th else []):
        for m in range(1, n + 1):
            out.append(Case(f'lanczos-{n}-{m}{"-e1" if e1 else ""}', lz, dict(n=n, m=m, e1=e1), budget=300))
    for n, e1 in [(1, False), (2, False), (3, True)]:
        for m in range(1, n + 1):
            for sort in (True, False):
                out.append(Case(f'ritz-{n}-{m}{"-sort" if sort else ""}', ritz, dict(n=n, m=m, e1=e1, sort=sort), budget=300))
    for n in (6, 7, 8, 9, 10):
        out.append(Case(f'family-ldl-{n}', ldl_case, dict(n=n), thin=(1, 1)))
    for p in ['+' * n for n in (6, 7, 8, 9, 10)] + ['++++-+-+', '-' * 6, '-+-+-+'] + ['+' * i + '-' + '+' * (n - 1 - i) for n in (6, 7) for i in range(n)]:
        for eps in (True, False):
            out.append(Case(f'family-ldl_chol-{p}{"-eps" if eps else ""}', chol_case, dict(n=len(p), signs=tuple(1 if x == '+' else -1 for x in p), eps=eps),
                            thin=(1, 1)))
    for n, m in [(4, 1), (4, 2), (4, 3), (4, 4), (5, 1), (5, 2), (5, 3), (5, 4), (6, 2), (6, 3), (6, 4), (7, 3), (8, 2)]:
        out.append(Case(f'family-lanczos-{n}-{m}', lz, dict(n=n, m=m, e1=False), budget=300, thin=(1, 1)))
        out.append(Case(f'family-ritz-{n}-{m}', ritz, dict(n=n, m=m, e1=False, sort=False), budget=300, thin=(1, 1)))
        if m < 4:
            out.append(Case(f'family-ritz-{n}-{m}-sort', ritz, dict(n=n, m=m, e1=False, sort=True), budget=300, thin=(1, 1)))
    return out
