"""Shared builders for the property cases (pure specification code: nothing here comes from /repo)."""
import math
from fractions import Fraction
import numpy as np


def O(*shape):
    a = np.empty(shape, dtype=object)
    return a


def zeros(*shape):
    a = O(*shape)
    a[...] = 0
    return a


def arr(x):
    """Nested list -> object array (symbolic) or float array (numeric)."""
    x = np.array(x, dtype=object)
    return fin(x)


def fin(a):
    """Object array of plain floats -> float array (numeric side); symbolic arrays stay objects."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        items = [a[()]] if a.shape == () else list(a.reshape(-1))
        if all(isinstance(v, (int, float, np.floating, np.integer)) for v in items):
            return a.astype(float)
        if all(isinstance(v, (int, float, complex, np.floating, np.integer, np.complexfloating)) for v in items):
            return a.astype(complex)
    return a


def dot(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    s = 0
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        s = s + x * y
    return s


def mm(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if b.ndim == 1:
        return np.array([dot(a[i], b) for i in range(a.shape[0])], dtype=object)
    r = O(a.shape[0], b.shape[1])
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            r[i, j] = dot(a[i], b[:, j])
    return r


def eye(n):
    r = zeros(n, n)
    for i in range(n):
        r[i, i] = 1
    return r


def jacobi(api, name, n, mean0=False):
    """Symmetric tridiagonal Jacobi matrix with free diagonal and positive off-diagonal: every positive
    definite moment sequence of length 2n arises from exactly one."""
    J = zeros(n, n)
    for i in range(n):
        J[i, i] = 0 if (mean0 and i == 0) else api.real(f'{name}a{i}')
    for i in range(n - 1):
        J[i, i + 1] = J[i + 1, i] = api.real(f'{name}b{i}', pos=True)
    return J


def matpow00(J, k):
    """[ (J^0)_00, ..., (J^{k-1})_00 ]"""
    n = J.shape[0]
    v = zeros(n)
    v[0] = 1
    out = []
    for _ in range(k):
        out.append(v[0])
        v = mm(J, v)
    return fin(np.array(out, dtype=object))


def binom(n, k):
    return math.comb(n, k)


def nell_terms(api, vals):
    s = 0
    for v in vals:
        s = s - api.log(v)
    return s


def grlex(d, upper, lower=0):
    """Multi-indices in graded lexicographic order, written independently of the library."""
    import itertools
    out = []
    for s in range(lower, upper + 1):
        layer = [t for t in itertools.product(range(s + 1), repeat=d) if sum(t) == s]
        out += sorted(layer)
    return out


def compositions_expand(mu, A, n):
    """prod_k (mu_k + sum_j A_kj z_j)^{n_k} as {exponent of z: coefficient}."""
    d = len(mu)
    poly = {(0,) * d: 1}
    for k in range(d):
        for _ in range(n[k]):
            new = {}
            for e, c in poly.items():
                terms = [(e, mu[k])]
                for j in range(d):
                    if A[k][j] is not None:
                        f = list(e)
                        f[j] += 1
                        terms.append((tuple(f), A[k][j]))
                for f, w in terms:
                    v = c * w
                    new[f] = new[f] + v if f in new else v
            poly = new
    return poly


class Measure:
    """A d-dimensional moment sequence with a positive definite Gram matrix, for degrees < 2N.

    kind 'tensor' (N = 2): x = mu + A z, z whitened with an arbitrary symmetric third-moment tensor: every such sequence.
    kind 'product': x = mu + A z with A upper triangular, z independent with arbitrary Jacobi matrices (any N).
    """

    def __init__(self, api, name, d, N, kind='product', centred=False, corr=True):
        self.api, self.d, self.N, self.kind = api, d, N, kind
        self.mu = [0 if centred else api.real(f'{name}mu{k}') for k in range(d)]
        self.A = [[None] * d for _ in range(d)]
        for k in range(d):
            for j in range(k, d):
                if j == k:
                    self.A[k][j] = api.real(f'{name}A{k}{j}', pos=True)
                elif corr:
                    self.A[k][j] = api.real(f'{name}A{k}{j}')
        if kind == 'tensor':
            import itertools
            self.tau = {t: api.real(f'{name}t' + ''.join(map(str, t)))
                        for t in itertools.combinations_with_replacement(range(d), 3)}
        else:
            self.J = []
            for j in range(d):
                J = zeros(N, N)
                # z_j has mean 0; unit variance is carried by A (N = 1: a point)
                for i in range(1, N):
                    J[i, i] = api.real(f'{name}J{j}a{i}')
                for i in range(N - 1):
                    J[i, i + 1] = J[i + 1, i] = 1 if i == 0 else api.real(f'{name}J{j}b{i}', pos=True)
                self.J.append(J)
            self.zm = [matpow00(J, 2 * N) for J in self.J]

    def ez(self, e):
        if self.kind == 'tensor':
            idx = [j for j in range(self.d) for _ in range(e[j])]
            if len(idx) == 0:
                return 1
            if len(idx) == 1:
                return 0
            if len(idx) == 2:
                return 1 if idx[0] == idx[1] else 0
            return self.tau[tuple(idx)]
        v = 1
        for j in range(self.d):
            v = v * self.zm[j][e[j]]
        return v

    def moment(self, n, centre=None, scale=None):
        mu = self.mu if centre is None else [m - c for m, c in zip(self.mu, centre)]
        s = 0
        for e, c in compositions_expand(mu, self.A, n).items():
            s = s + c * self.ez(e)
        if scale is not None:
            for k in range(self.d):
                s = s / scale[k] ** n[k]
        return s

    def moments(self, centre=None, scale=None):
        return fin(np.array([self.moment(n, centre, scale) for n in grlex(self.d, 2 * self.N - 1)], dtype=object))

    def mult_matrices(self, centre=None):
        """Compressed multiplication matrices in the orthonormal polynomial basis ordered like grlex."""
        d, N = self.d, self.N
        basis = grlex(d, N - 1)
        pos = {b: i for i, b in enumerate(basis)}
        Z = []
        for j in range(d):
            M = zeros(len(basis), len(basis))
            for a in basis:
                for b in basis:
                    if self.kind == 'tensor':
                        e = [x + y for x, y in zip(a, b)]
                        e[j] += 1
                        M[pos[a], pos[b]] = self.ez(tuple(e))
                    else:
                        if all(a[k] == b[k] for k in range(d) if k != j):
                            M[pos[a], pos[b]] = self.J[j][a[j], b[j]]
            Z.append(M)
        mu = self.mu if centre is None else [m - c for m, c in zip(self.mu, centre)]
        Ks = []
        for k in range(d):
            K = zeros(len(basis), len(basis))
            for i in range(len(basis)):
                K[i, i] = mu[k]
            for j in range(d):
                if self.A[k][j] is not None:
                    for p in range(len(basis)):
                        for q in range(len(basis)):
                            K[p, q] = K[p, q] + self.A[k][j] * Z[j][p, q]
            Ks.append(fin(K))
        return Ks


class Recursion:
    """Decide a recursion step by step: at every scan step the carry leaves that equal the specified state of the previous
    step are replaced by an arbitrary state (matched by value, not by position), so each step is decided from any state.

    step(state: dict, k) -> dict of the specified outputs of step k (same tags as the state, more allowed)
    fresh(k) -> dict of arbitrary values for step k's incoming state (tags a subset of the state's)
    """

    def __init__(self, api, T, init, step, fresh, essential):
        self.api, self.T, self.step, self.fresh, self.essential = api, T, step, fresh, essential
        self.spec = []
        self.state = init
        self.live = api.symbolic and fresh is not None
        self.advance()
        if self.live and T > 1:
            api.c.scan_hook = self.hook

    def advance(self):
        out = self.step(self.state, len(self.spec))
        self.spec.append(out)
        self.state = {t: out[t] for t in self.state}

    def hook(self, c, k, L, carry):
        from engine import alg, jx
        if not self.live or k != len(self.spec) or k >= self.T:
            return carry
        e = self.state

        def same(a, b):
            a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            return a.shape == b.shape and all((jx.lift(x) - jx.lift(u)).is_zero() if not isinstance(jx.lift(x), alg.Cx)
                                              else False for x, u in zip(a.reshape(-1), b.reshape(-1)))
        hit = {}
        for i, leaf in enumerate(carry):
            if not jx.is_sym(leaf):
                continue
            for t, v in e.items():
                if t not in hit.values() and same(leaf, v):
                    hit[i] = t
                    break
        if not set(self.essential) <= set(hit.values()):
            self.live = False
            return carry
        f = self.fresh(k)
        new = list(carry)
        for i, t in hit.items():
            v = f[t]
            new[i] = jx.elementwise(jx.lift, np.asarray(v, dtype=object)) if isinstance(v, np.ndarray) \
                else jx.obj((), [alg.Rat.of(v)])
            self.state[t] = v
        self.advance()
        return new

    def finish(self):
        if self.api.symbolic:
            self.api.c.scan_hook = None
        while len(self.spec) < self.T:
            self.advance()
        return self.spec


def stack(xs):
    return fin(np.stack([np.asarray(x, dtype=object) for x in xs]))
