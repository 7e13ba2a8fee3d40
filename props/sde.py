"""Infinitesimal-generator algebra for the specifications: polynomials in x and in the (abstract) drift and dispersion and
their partial derivatives.  Written from the definition; shares nothing with tme or the library."""
import math
from fractions import Fraction
import numpy as np


class Jet:
    """d-dimensional Ito diffusion dX = f dt + L dW with abstract f_i and L_ij: expressions are {monomial: coefficient}, a
    monomial is a sorted tuple of symbols ('x', i) / ('f', i, alpha) / ('L', i, j, alpha)."""

    def __init__(self, d, dw):
        self.d, self.dw = d, dw
        z = (0,) * d
        self.f = [{(('f', i, z),): Fraction(1)} for i in range(d)]
        self.L = [[{(('L', i, j, z),): Fraction(1)} for j in range(dw)] for i in range(d)]
        self.G = [[self.add(*[self.mul(self.L[i][k], self.L[j][k]) for k in range(dw)]) for j in range(d)] for i in range(d)]

    @staticmethod
    def add(*es):
        out = {}
        for e in es:
            for m, c in e.items():
                out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c}

    @staticmethod
    def scale(e, k):
        return {m: c * k for m, c in e.items()}

    @staticmethod
    def mul(a, b):
        out = {}
        for m, c in a.items():
            for n, k in b.items():
                t = tuple(sorted(m + n, key=repr))
                out[t] = out.get(t, 0) + c * k
        return {m: c for m, c in out.items() if c}

    def diff(self, e, k):
        out = {}
        for m, c in e.items():
            for p, s in enumerate(m):
                rest = m[:p] + m[p + 1:]
                if s[0] == 'x':
                    if s[1] != k:
                        continue
                    t = rest
                else:
                    al = list(s[-1])
                    al[k] += 1
                    t = tuple(sorted(rest + (s[:-1] + (tuple(al),),), key=repr))
                out[t] = out.get(t, 0) + c
        return {m: c for m, c in out.items() if c}

    def gen(self, e):
        """The generator applied to e."""
        terms = []
        ds = [self.diff(e, i) for i in range(self.d)]
        for i in range(self.d):
            if ds[i]:
                terms.append(self.mul(self.f[i], ds[i]))
        for i in range(self.d):
            for j in range(self.d):
                h = self.diff(ds[i], j)
                if h:
                    terms.append(self.scale(self.mul(self.G[i][j], h), Fraction(1, 2)))
        return self.add(*terms) if terms else {}

    def iterates(self, e, order):
        out = [e]
        for _ in range(order):
            out.append(self.gen(out[-1]))
        return out

    def mono(self, n, centre=False):
        m = ()
        for i, k in enumerate(n):
            m += (('x', i),) * k
        return {tuple(sorted(m, key=repr)): Fraction(1)}

    def tme_moment(self, n, order):
        """[coefficient of dt^r], r = 0..order, of E[X^n]."""
        return [self.scale(e, Fraction(1, math.factorial(r))) for r, e in enumerate(self.iterates(self.mono(n), order))]

    def tme_mean_cov(self, order):
        """Means and covariances as lists of dt coefficients, Cov_r = (A^r(xx^T) - sum C(r,s) A^s x A^{r-s} x^T) / r!."""
        d = self.d
        unit = lambda i: tuple(1 if k == i else 0 for k in range(d))
        xs = [self.iterates(self.mono(unit(i)), order) for i in range(d)]
        mean = [[self.scale(e, Fraction(1, math.factorial(r))) for r, e in enumerate(xs[i])] for i in range(d)]
        cov = [[None] * d for _ in range(d)]
        for i in range(d):
            for j in range(d):
                n = [0] * d
                n[i] += 1
                n[j] += 1
                its = self.iterates(self.mono(n), order)
                cs = []
                for r in range(order + 1):
                    t = [its[r]]
                    for s in range(r + 1):
                        t.append(self.scale(self.mul(xs[i][s], xs[j][r - s]), -Fraction(math.comb(r, s))))
                    cs.append(self.scale(self.add(*t), Fraction(1, math.factorial(r))))
                cov[i][j] = cs
        return mean, cov

    def value(self, e, x, f, L, q):
        """Evaluate with x the point, f(i, alpha) and L(i, j, alpha) the values of the abstract functions' derivatives."""
        memo = {}

        def sym(s):
            v = memo.get(s)
            if v is None:
                v = x[s[1]] if s[0] == 'x' else (f(s[1], s[2]) if s[0] == 'f' else L(s[1], s[2], s[3]))
                memo[s] = v
            return v
        tot = 0
        for m, c in e.items():
            t = q(c.numerator, c.denominator) if isinstance(c, Fraction) else q(c)
            for s in m:
                t = t * sym(s)
            tot = tot + t
        return tot

    def series(self, es, dt, x, f, L, q):
        tot, p = 0, 1
        for e in es:
            tot = tot + self.value(e, x, f, L, q) * p
            p = p * dt
        return tot
