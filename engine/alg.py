"""Exact symbolic scalars: rational functions over named generators.

A value is  num / (mono * prod(factor_k ** e_k))  where num is a sparse multivariate polynomial
with rational coefficients (dict: packed monomial -> int/Fraction), mono a packed monomial and
factor_k interned polynomials.  Generators are free real variables, square roots (with the rewrite
s**2 -> radicand), or opaque applications (uninterpreted callbacks, exp/log/..., eigen-systems).
Nothing in here decides a property: this is the expression layer the SMT queries are printed from.
"""
from fractions import Fraction
from functools import reduce
import math
import operator
import random
import numpy as np

BITS = 16
FM = (1 << BITS) - 1
P61 = (1 << 61) - 1
SMALLP = 65521


class Unsupported(Exception):
    """The encoder met something outside its reach (recorded as inconclusive, never as success)."""


class Infeasible(Exception):
    """The current path condition is unsatisfiable."""


class Budget(Exception):
    pass


# ------------------------------------------------------------------ polynomials (dicts)

def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = _n(v)
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = -c
        else:
            v = v - c
            if v == 0:
                del r[m]
            else:
                r[m] = _n(v)
    return r


def pscale(a, k):
    if k == 0:
        return {}
    return {m: _n(c * k) for m, c in a.items()}


def pmul_raw(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m1, c1), = a.items()
        if c1 == 1:
            return {m + m1: c for m, c in b.items()}
        return {m + m1: _n(c * c1) for m, c in b.items()}
    if len(a) * len(b) > 6_000_000:
        raise Unsupported(f'polynomial product too large ({len(a)}x{len(b)})')
    r = {}
    get = r.get
    bi = list(b.items())
    for m1, c1 in a.items():
        for m2, c2 in bi:
            m = m1 + m2
            v = get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    out = {}
    for m, c in r.items():
        if c != 0:
            out[m] = _n(c)
    return out


def mono_fields(m):
    out = []
    i = 0
    while m:
        e = m & FM
        if e:
            out.append((i, e))
        m >>= BITS
        i += 1
    return out


def mono_gcd_all(a):
    """Packed monomial dividing every term of a (componentwise min)."""
    it = iter(a)
    g = next(it, 0)
    for m in it:
        if g == 0:
            return 0
        # componentwise min of g and m over g's fields
        ng = 0
        for i, e in mono_fields(g):
            f = (m >> (BITS * i)) & FM
            e = f if f < e else e
            if e:
                ng |= e << (BITS * i)
        g = ng
    return g


def mono_min(a, b):
    g = 0
    for i, e in mono_fields(a):
        f = (b >> (BITS * i)) & FM
        e = f if f < e else e
        if e:
            g |= e << (BITS * i)
    return g


def mono_max(a, b):
    return a + b - mono_min(a, b)


def mono_divides(a, b):
    """a | b"""
    for i, e in mono_fields(a):
        if ((b >> (BITS * i)) & FM) < e:
            return False
    return True


def pcontent(a):
    """Rational content (positive)."""
    num, den = 0, 1
    for c in a.values():
        if isinstance(c, Fraction):
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
        else:
            num = math.gcd(num, c)
        # keep exact
    return Fraction(num, den)


def pdivexact(a, b):
    """Exact quotient a/b in Q[gens] or None. Packed-int order is a monomial (lex) order."""
    if not a:
        return {}
    if len(b) == 1:
        (mb, cb), = b.items()
        r = {}
        for m, c in a.items():
            if not mono_divides(mb, m):
                return None
            r[m - mb] = _n(Fraction(c) / cb)
        return r
    import heapq
    mb = max(b)
    cb = b[mb]
    rest = [(m, c) for m, c in b.items() if m != mb]
    # quick check: trailing monomial
    if not mono_divides(min(b), min(a)) or not mono_divides(mb, max(a)):
        return None
    r = dict(a)
    heap = [-m for m in r]
    heapq.heapify(heap)
    q = {}
    unit = cb == 1
    limit = 50 * len(a) + 2000
    steps = 0
    while heap:
        m = -heapq.heappop(heap)
        c = r.pop(m, None)
        if c is None or c == 0:
            continue
        if not mono_divides(mb, m):
            return None
        qm = m - mb
        qc = c if unit else _n(Fraction(c) / cb)
        q[qm] = qc
        steps += 1
        if steps > limit:
            return None
        for m2, c2 in rest:
            k = qm + m2
            v = r.get(k)
            if v is None:
                r[k] = -qc * c2
                heapq.heappush(heap, -k)
            else:
                v = v - qc * c2
                r[k] = v
    return q


def ppow(ctx, a, n):
    r = {0: 1}
    base = a
    while n:
        if n & 1:
            r = ctx.pmul(r, base)
        n >>= 1
        if n:
            base = ctx.pmul(base, base)
    return r


def psqrt(a):
    """Exact polynomial square root or None."""
    if not a:
        return {}
    lead = max(a)
    for i, e in mono_fields(lead):
        if e % 2:
            return None
    for i, e in mono_fields(min(a)):
        if e % 2:
            return None
    c = Fraction(a[lead])
    if c < 0:
        return None
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if rn * rn != c.numerator or rd * rd != c.denominator:
        return None
    lm = 0
    for i, e in mono_fields(lead):
        lm |= (e // 2) << (BITS * i)
    q = {lm: _n(Fraction(rn, rd))}
    rem = psub(a, pmul_raw(q, q))
    lc2 = 2 * Fraction(rn, rd)
    bound = len(a) * 2 + 10
    while rem:
        m = max(rem)
        if not mono_divides(lm, m):
            return None
        tm = m - lm
        if tm >= lm:
            return None
        t = {tm: _n(Fraction(rem[m]) / lc2)}
        # rem -= 2 q t + t^2
        rem = psub(rem, padd(pscale(pmul_raw(q, t), 2), pmul_raw(t, t)))
        q = padd(q, t)
        bound -= 1
        if bound < 0:
            return None
    return q


# ------------------------------------------------------------------ context

class Gen:
    __slots__ = ('idx', 'name', 'kind', 'data', 'pos', 'nonneg', 'nonzero', 'numeric', 'lo', 'hi')

    def __init__(self, idx, name, kind, data=None, pos=False, nonneg=False, nonzero=False):
        self.idx, self.name, self.kind, self.data = idx, name, kind, data
        self.pos, self.nonneg, self.nonzero = pos, nonneg or pos, nonzero or pos
        self.numeric = None
        self.lo = self.hi = None


class Ctx:
    """One symbolic execution (one path): generators, facts, decisions."""
    cur = None

    def __init__(self, solver=None, prefix=(), seed=0):
        self.gens = []
        self.rules = {}        # gen idx -> replacement poly for g^2
        self.rule_mask = 0
        self.trunc = {}        # gen idx -> max exponent kept
        self.trunc_mask = 0
        self.factors = []      # interned denominator factors (dict polys)
        self.factor_key = {}
        self.factor_zero = []
        self.rnd = random.Random(12345)
        self.valp = []         # gen valuations mod SMALLP
        self.val61 = []        # gen valuations mod P61
        self.named = {}
        self.cache = {}
        self.opaque = {}       # fingerprint -> list of (args, gens)
        self.assumptions = []  # list of (rel, Rat-poly dict, tag)   rel in '>','>=','=','!='
        self.side = []         # definedness obligations
        self.path = []         # decided predicates [(rel, poly)]
        self.solver = solver
        self.prefix = list(prefix)
        self.ndec = 0
        self.alternatives = []
        self.signcache = {}
        self.eigs = []
        self.stats = {}
        self.contracts = set()
        self.lemmas = []
        self.decl_box = {}

    # -- generators
    def gen(self, name, kind='var', data=None, **kw):
        g = Gen(len(self.gens), name, kind, data, **kw)
        self.gens.append(g)
        self.valp.append(self.rnd.randrange(1, SMALLP))
        self.val61.append(self.rnd.randrange(1, P61))
        return g

    def var(self, name, pos=False, nonneg=False, nonzero=False, lo=None, hi=None):
        if name in self.named:
            return self.named[name]
        g = self.gen(name, 'var', None, pos=pos, nonneg=nonneg, nonzero=nonzero)
        g.lo, g.hi = lo, hi
        r = Rat({1 << (BITS * g.idx): 1})
        self.named[name] = r
        return r

    def grat(self, g):
        return Rat({1 << (BITS * g.idx): 1})

    # -- polynomial arithmetic with rewrite rules
    def pmul(self, a, b):
        r = pmul_raw(a, b)
        return self.reduce(r)

    def reduce(self, r):
        if not (self.rules or self.trunc) or not r:
            return r
        if self.trunc:
            for gi, k in self.trunc.items():
                sh = BITS * gi
                if any(((m >> sh) & FM) > k for m in r):
                    r = {m: c for m, c in r.items() if ((m >> sh) & FM) <= k}
        if self.rules:
            mask = self.rule_mask
            while True:
                hit = None
                for m in r:
                    x = m & mask
                    if x:
                        for gi in self.rules:
                            if ((m >> (BITS * gi)) & FM) >= 2:
                                if hit is None or gi > hit:
                                    hit = gi
                if hit is None:
                    break
                sh = BITS * hit
                rep = self.rules[hit]
                keep = {}
                buckets = {}
                for m, c in r.items():
                    e = (m >> sh) & FM
                    if e >= 2:
                        k = e // 2
                        m2 = m - ((2 * k) << sh)
                        buckets.setdefault(k, {})
                        d = buckets[k]
                        d[m2] = d.get(m2, 0) + c
                    else:
                        v = keep.get(m)
                        if v is None:
                            keep[m] = c
                        else:
                            v += c
                            if v == 0:
                                del keep[m]
                            else:
                                keep[m] = v
                for k, d in buckets.items():
                    p = {0: 1}
                    for _ in range(k):
                        p = pmul_raw(p, rep)
                    keep = padd(keep, pmul_raw(d, p))
                r = keep
        return r

    # -- modular evaluation
    def peval(self, a, vals, p, override=None):
        s = 0
        cache = {}
        for m, c in a.items():
            if isinstance(c, Fraction):
                v = c.numerator % p * pow(c.denominator, -1, p) % p
            else:
                v = c % p
            i = 0
            mm = m
            while mm:
                e = mm & FM
                if e:
                    k = (i, e)
                    t = cache.get(k)
                    if t is None:
                        b = override[i] if override and i in override else vals[i]
                        t = pow(b, e, p)
                        cache[k] = t
                    v = v * t % p
                mm >>= BITS
                i += 1
            s += v
        return s % p

    def fp(self, rat):
        """Fingerprint of a rational function (mod 2^61-1)."""
        n = self.peval(rat.num, self.val61, P61)
        d = self.peval({rat.mono: 1}, self.val61, P61)
        for f, e in rat.den.items():
            d = d * pow(self.peval(self.factors[f], self.val61, P61), e, P61) % P61
        return n * pow(d, -1, P61) % P61

    # -- denominator factors
    def intern_factor(self, p):
        key = frozenset(p.items())
        k = self.factor_key.get(key)
        if k is None:
            k = len(self.factors)
            self.factors.append(p)
            self.factor_key[key] = k
            self.factor_zero.append(self._zero_of(p))
        return k

    def _zero_of(self, p):
        """A point (gen override) where p vanishes mod SMALLP, or None."""
        gens = set()
        for m in p:
            for i, e in mono_fields(m):
                gens.add(i)
        for gi in sorted(gens):
            sh = BITS * gi
            co = {}
            bad = False
            for m, c in p.items():
                e = (m >> sh) & FM
                if e > 1:
                    bad = True
                    break
                co.setdefault(e, {})[m - (e << sh)] = c
            if bad or 1 not in co:
                continue
            try:
                a = self.peval(co[1], self.valp, SMALLP)
                b = self.peval(co.get(0, {}), self.valp, SMALLP)
            except ValueError:
                continue
            if a:
                return {gi: -b * pow(a, -1, SMALLP) % SMALLP}
        # brute force root in one generator
        for gi in sorted(gens)[:2]:
            sh = BITS * gi
            co = {}
            for m, c in p.items():
                e = (m >> sh) & FM
                co.setdefault(e, {})[m - (e << sh)] = c
            try:
                cs = {e: self.peval(q, self.valp, SMALLP) for e, q in co.items()}
            except ValueError:
                continue
            if all(v == 0 for v in cs.values()):
                continue
            import numpy as np
            x = np.arange(SMALLP, dtype=np.int64)
            acc = np.zeros_like(x)
            for e in range(max(cs), -1, -1):
                acc = (acc * x + cs.get(e, 0)) % SMALLP
            z = np.nonzero(acc == 0)[0]
            if len(z):
                return {gi: int(z[0])}
        return None

    def maybe_divisible(self, num, f):
        z = self.factor_zero[f]
        if z is None:
            return True
        try:
            return self.peval(num, self.valp, SMALLP, z) == 0
        except ValueError:
            return True

    def factor_poly(self, p):
        """Write nonzero polynomial p = c * mono * prod factors; p must be sqrt-free."""
        c = pcontent(p)
        g = mono_gcd_all(p)
        if c != 1 or g:
            p = {m - g: _n(Fraction(v) / c) for m, v in p.items()}
        lead = p[max(p)]
        if lead < 0:
            p = pneg(p)
            c = -c
        den = {}
        if len(p) == 1:
            (m, v), = p.items()
            return _n(c * v), g + m, den
        key = frozenset(p.items())
        k = self.factor_key.get(key)
        if k is not None:
            return _n(c), g, {k: 1}
        for f in range(len(self.factors)):
            while len(p) > 1 and self.maybe_divisible(p, f):
                q = pdivexact(p, self.factors[f])
                if q is None:
                    break
                den[f] = den.get(f, 0) + 1
                p = q
        if len(p) == 1:
            (m, v), = p.items()
            return _n(c * v), g + m, den
        c2 = pcontent(p)
        if p[max(p)] < 0:
            c2 = -c2
        if c2 != 1:
            p = pscale(p, 1 / c2)
            c = c * c2
        r = psqrt(p)
        if r is not None:
            k = self.intern_factor(r if r[max(r)] > 0 else pneg(r))
            den[k] = den.get(k, 0) + 2
        else:
            k = self.intern_factor(p)
            den[k] = den.get(k, 0) + 1
        return _n(c), g, den

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


def ctx():
    return Ctx.cur


class Rat:
    __slots__ = ('num', 'mono', 'den')

    def __init__(self, num, mono=0, den=None):
        self.num, self.mono, self.den = num, mono, den or {}

    # -- construction helpers
    @staticmethod
    def of(x):
        if isinstance(x, Rat):
            return x
        if isinstance(x, Cx):
            raise Unsupported('complex where real expected')
        if isinstance(x, bool) or type(x).__name__ == 'bool_':
            return Rat({0: 1}) if x else Rat({})
        if isinstance(x, int):
            return Rat({0: x} if x else {})
        if isinstance(x, Fraction):
            return Rat({0: _n(x)} if x else {})
        if isinstance(x, float) or hasattr(x, 'dtype'):
            if hasattr(x, 'dtype'):
                if x.dtype.kind in 'iub':
                    return Rat.of(int(x))
                if x.dtype.kind == 'c':
                    x = complex(x)
                    if x.imag != 0:
                        raise Unsupported('complex where real expected')
                    x = x.real
                x = float(x)
            return snap(x)
        raise Unsupported(f'cannot lift {type(x)}')

    def const(self):
        """Fraction value if constant else None."""
        if not self.num:
            return 0
        if self.mono or self.den or len(self.num) > 1:
            return None
        return self.num.get(0)

    def is_zero(self):
        return not self.num

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, Cx):
            return o + self
        o = Rat.of(o)
        if not self.num:
            return o
        if not o.num:
            return self
        if self.mono == o.mono and self.den == o.den:
            return _norm(padd(self.num, o.num), self.mono, self.den)
        c = Ctx.cur
        m = mono_max(self.mono, o.mono)
        a = {k + (m - self.mono): v for k, v in self.num.items()} if m != self.mono else self.num
        b = {k + (m - o.mono): v for k, v in o.num.items()} if m != o.mono else o.num
        den = dict(self.den)
        for f, e in o.den.items():
            if den.get(f, 0) < e:
                den[f] = e
        for f, e in den.items():
            ea, eb = self.den.get(f, 0), o.den.get(f, 0)
            if ea < e:
                a = c.pmul(a, ppow(c, c.factors[f], e - ea))
            if eb < e:
                b = c.pmul(b, ppow(c, c.factors[f], e - eb))
        if m != self.mono:
            a = c.reduce(a)
        if m != o.mono:
            b = c.reduce(b)
        return _norm(padd(a, b), m, den)

    __radd__ = __add__

    def __neg__(self):
        return Rat(pneg(self.num), self.mono, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, Cx):
            return -(o - self)
        return self + (-Rat.of(o))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return Rat.of(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, Cx):
            return o * self
        o = Rat.of(o)
        if not self.num or not o.num:
            return ZERO
        if not o.mono and not o.den and len(o.num) == 1 and 0 in o.num:
            k = o.num[0]
            return self if k == 1 else Rat(pscale(self.num, k), self.mono, self.den)
        if not self.mono and not self.den and len(self.num) == 1 and 0 in self.num:
            k = self.num[0]
            return o if k == 1 else Rat(pscale(o.num, k), o.mono, o.den)
        c = Ctx.cur
        a, b = self.num, o.num
        ma, mb = self.mono, o.mono
        da, db = self.den, o.den
        if db:
            a, db = _cancel(c, a, db)
        if da:
            b, da = _cancel(c, b, da)
        num = c.pmul(a, b)
        den = dict(da)
        for f, e in db.items():
            den[f] = den.get(f, 0) + e
        # after rewriting s**2 further cancellation may be possible
        recheck = bool(c.rules) and bool(den)
        return _norm(num, ma + mb, den, recheck)

    __rmul__ = __mul__

    def inv(self):
        c = Ctx.cur
        if not self.num:
            raise ZeroDivisionError('symbolic division by exact zero')
        num = self.num
        extra = {0: 1}
        # rationalise square roots in the numerator (they would end up in a denominator)
        if c.rules:
            for gi in sorted(c.rules, reverse=True):
                sh = BITS * gi
                if not any((m >> sh) & FM for m in num):
                    continue
                A, B = {}, {}
                for m, v in num.items():
                    if (m >> sh) & FM:
                        B[m - (1 << sh)] = v
                    else:
                        A[m] = v
                if A:
                    conj = padd(A, pneg({m + (1 << sh): v for m, v in B.items()}))
                else:
                    conj = {1 << sh: 1}
                extra = c.pmul(extra, conj)
                num = c.pmul(num, conj)
                if not num:
                    raise ZeroDivisionError('symbolic division by exact zero (conjugate)')
        if c.trunc:
            for gi in c.trunc:
                if any((m >> (BITS * gi)) & FM for m in num):
                    raise Unsupported('division by a truncated series')
        c.side.append(('!=', self.num))
        k, g, den = c.factor_poly(num)
        # result numerator: extra * mono_self * den_self ;  denominator: k * g * den
        top = extra
        if self.mono:
            top = c.reduce({m + self.mono: v for m, v in top.items()})
        for f, e in self.den.items():
            t = min(e, den.get(f, 0))
            if t:
                den[f] -= t
                if not den[f]:
                    del den[f]
            if e - t:
                top = c.pmul(top, ppow(c, c.factors[f], e - t))
        top = pscale(top, 1 / Fraction(k))
        return _norm(top, g, den, recheck=True)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, Cx):
            return Cx(self, ZERO) / o
        o = Rat.of(o)
        k = o.const()
        if k is not None:
            if k == 0:
                raise ZeroDivisionError('division by zero')
            return Rat(pscale(self.num, 1 / Fraction(k)), self.mono, self.den)
        if not self.num:
            Ctx.cur.side.append(('!=', o.num))
            return ZERO
        return self * o.inv()

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return Rat.of(o) / self

    def __pow__(self, n):
        if isinstance(n, np.ndarray) and n.ndim:
            return NotImplemented
        if isinstance(n, Rat):
            k = n.const()
            if k is None:
                return exp(n * log(self))
            n = k
        if hasattr(n, 'dtype'):
            n = n.item()
        if isinstance(n, float):
            n = Fraction(snap_fraction(n))
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if isinstance(n, int):
            if n == 0:
                return ONE
            if n < 0:
                return (self ** (-n)).inv()
            r = None
            base = self
            while n:
                if n & 1:
                    r = base if r is None else r * base
                n >>= 1
                if n:
                    base = base * base
            return r
        if isinstance(n, Fraction) and n.denominator == 2:
            return sqrt(self) ** n.numerator
        return exp(Rat.of(n) * log(self))

    def __rpow__(self, b):
        return Rat.of(b) ** self

    def __abs__(self):
        if decide('>=', self):
            return self
        return -self

    # -- comparisons produce predicates
    def __lt__(self, o):
        return Pred('>', Rat.of(o) - self)

    def __le__(self, o):
        return Pred('>=', Rat.of(o) - self)

    def __gt__(self, o):
        return Pred('>', self - o)

    def __ge__(self, o):
        return Pred('>=', self - o)

    def same(self, o):
        return (self - o).is_zero()

    def __bool__(self):
        k = self.const()
        if k is not None:
            return k != 0
        return not decide('=', self)

    def __float__(self):
        k = self.const()
        if k is None:
            raise Unsupported('symbolic value used as a concrete float')
        return float(k)

    def __index__(self):
        k = self.const()
        if k is None or k != int(k):
            raise Unsupported('symbolic value used as an index')
        return int(k)

    __int__ = __index__

    def __repr__(self):
        return show(self)

    # numpy ufunc hooks on object arrays
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO


class Pred:
    """rel(poly): value > 0, >= 0, = 0, != 0 for a Rat."""
    __slots__ = ('rel', 'val')

    def __init__(self, rel, val):
        self.rel, self.val = rel, val

    def __bool__(self):
        return decide(self.rel, self.val)

    def neg(self):
        if self.rel == '>':
            return Pred('>=', -self.val)
        if self.rel == '>=':
            return Pred('>', -self.val)
        return Pred('!=' if self.rel == '=' else '=', self.val)


def _cancel(c, num, den):
    out = None
    for f, e in den.items():
        k = 0
        while k < e and c.maybe_divisible(num, f):
            q = pdivexact(num, c.factors[f])
            if q is None:
                break
            num = q
            k += 1
        if k:
            if out is None:
                out = dict(den)
            if e - k:
                out[f] = e - k
            else:
                del out[f]
    return num, (den if out is None else out)


def _norm(num, mono, den, recheck=True):
    if not num:
        return ZERO
    if mono:
        g = mono
        for m in num:
            if not g:
                break
            g = mono_min(g, m)
        if g:
            num = {m - g: v for m, v in num.items()}
            mono -= g
        if Ctx.cur.rules:
            # move square-root generators out of the monomial denominator
            c = Ctx.cur
            for gi in list(c.rules):
                e = (mono >> (BITS * gi)) & FM
                if e:
                    sh = BITS * gi
                    mono -= e << sh
                    # 1/s^e = s^(e%2) / R^((e+1)//2)
                    if e % 2:
                        num = c.pmul(num, {1 << sh: 1})
                    k, g2, d2 = c.factor_poly(c.rules[gi])
                    t = (e + 1) // 2
                    num = pscale(num, 1 / Fraction(k) ** t)
                    mono += g2 * t
                    den = dict(den)
                    for f, x in d2.items():
                        den[f] = den.get(f, 0) + x * t
                    return _norm(num, mono, den)
    if den and recheck:
        num, den = _cancel(Ctx.cur, num, den)
    return Rat(num, mono, den)


ZERO = Rat({})
ONE = Rat({0: 1})


# ------------------------------------------------------------------ constants

_KNOWN_SNAP = {}


def snap_fraction(x, ulps=6):
    """Nearest 'intended' rational of a float, or its exact value."""
    if x == int(x) if math.isfinite(x) else False:
        return Fraction(int(x))
    if not math.isfinite(x):
        raise Unsupported(f'non-finite constant {x}')
    tol = ulps * math.ulp(x)
    s = repr(x)
    if 'e' not in s or True:
        f = Fraction(s)
        mant = s.replace('-', '').replace('.', '').split('e')[0].strip('0')
        if len(mant) <= 12:
            return f
    for d in (3, 7, 9, 11, 13, 6, 12, 18, 36, 24, 27, 48, 49, 60, 64, 81, 120, 360, 720, 5040, 40320, 45, 90, 105, 135,
              35, 63, 70, 126, 130, 140, 180, 210, 240, 252, 280, 315, 420, 504, 630, 840, 945, 1260, 1680, 2520,
              3628800, 362880):
        n = round(x * d)
        if n and abs(n / d - x) <= (tol if d > 200 else max(tol, 16 * math.ulp(x))) and abs(n) < 10 ** 9:
            return Fraction(n, d)
    f = Fraction(x).limit_denominator(2000)
    if f and abs(float(f) - x) <= tol:
        return f
    if abs(x) < 1e-3:
        # n/d of a power of ten
        k = 1 - math.floor(math.log10(abs(x)))
        y = Fraction(x) * 10 ** k
        for d in (3, 6, 12, 24, 120, 720):
            n = round(y * d)
            if n and abs(Fraction(n, d) - y) <= y * Fraction(1, 10 ** 15) and abs(n) < 10 ** 7:
                return Fraction(n, d) / 10 ** k
    return None


def snap(x):
    if x == 0:
        return ZERO
    r = _KNOWN_SNAP.get(x)
    if r is None:
        r = _snap(x)
        _KNOWN_SNAP[x] = r
    kind, f, g = r
    if kind == 'q':
        return Rat({0: _n(f)})
    if kind == 'sqrt':
        return sqrt(Rat.of(f)) * g
    if kind == 'pi':
        return pi() * f
    if kind == 'sqrtpi':
        return sqrt(pi() * f) * g
    if kind == 'invpi':
        return Rat.of(f) / pi()
    if kind == 'isqrtpi':
        return ONE / sqrt(pi() * f) * g
    if kind == 'log':
        return log(Rat.of(f)) * g
    if kind == 'logpi':
        return log(Rat.of(f) * pi()) * g
    raise AssertionError


def _simple(f):
    return f is not None and f.numerator.bit_length() <= 24 and f.denominator.bit_length() <= 24


def _snap(x):
    f = snap_fraction(x)
    if f is not None:
        return ('q', f, 1)
    sg = 1 if x > 0 else -1
    a = abs(x)
    for kind, y in (('sqrt', a * a), ('pi', a / math.pi), ('sqrtpi', a * a / math.pi), ('invpi', a * math.pi),
                    ('isqrtpi', 1 / (a * a * math.pi))):
        f = snap_fraction(y, 10)
        if _simple(f):
            if kind in ('pi', 'invpi'):
                return (kind, f * sg, 1)
            return (kind, f, sg)
    if 1e-3 < a < 30:
        f = snap_fraction(math.exp(a), 12)
        if _simple(f):
            return ('log', f, sg)
        f = snap_fraction(math.exp(a) / math.pi, 12)
        if _simple(f):
            return ('logpi', f, sg)
        for k in range(1, 13):
            if abs(a - k / 2 * math.log(2 * math.pi)) < 4 * math.ulp(a):
                return ('logpi', Fraction(2), Fraction(sg * k, 2))
    return ('q', Fraction(x), 1)


def pi():
    c = Ctx.cur
    g = c.named.get('#pi')
    if g is None:
        gg = c.gen('pi', 'const', math.pi, pos=True)
        gg.lo, gg.hi = Fraction(314159265358979, 10 ** 14), Fraction(314159265358980, 10 ** 14)
        g = c.grat(gg)
        c.named['#pi'] = g
    return g


# ------------------------------------------------------------------ square roots and opaque functions

def _sqfree_int(n):
    """n = s^2 * r for small prime factors."""
    s = 1
    p = 2
    while p * p <= n and p < 2000:
        while n % (p * p) == 0:
            n //= p * p
            s *= p
        p += 1
    r = math.isqrt(n)
    if r * r == n:
        return s * r, 1
    return s, n


def sqrt(x):
    x = Rat.of(x)
    c = Ctx.cur
    if not x.num:
        return ZERO
    if x.const() == 1:
        return ONE
    key = None
    if c.rules and (reduce(operator.or_, x.num) & c.rule_mask):
        # nested radicals: opaque radicand is fine, still polynomial rule
        pass
    # x = n / (mono*den); sqrt = sqrt(n*mono_odd*den_odd) / (sqrt even parts)
    n = x.num
    outd_mono = 0
    mm = 0
    for i, e in mono_fields(x.mono):
        if e % 2:
            mm |= 1 << (BITS * i)
            e += 1
        outd_mono |= (e // 2) << (BITS * i)
    if mm:
        n = c.reduce({m + mm: v for m, v in n.items()})
    outd = {}
    for f, e in x.den.items():
        if e % 2:
            n = c.pmul(n, c.factors[f])
            e += 1
        outd[f] = e // 2
    # now sqrt(n)/ (outd_mono*outd), sign of denominator must be handled: |.|
    res = _sqrt_poly(n)
    d = Rat({outd_mono: 1})
    for f, e in outd.items():
        d = d * Rat(ppow(c, c.factors[f], e))
    if d.const() is None:
        if not decide('>', d):
            d = -d
        return res / d
    return res


def _sqrt_poly(n):
    c = Ctx.cur
    ct = pcontent(n)
    g = mono_gcd_all(n)
    ge = go = 0
    for i, e in mono_fields(g):
        ge |= (e // 2) << (BITS * i)
        if e % 2:
            go |= 1 << (BITS * i)
    p = {m - g: _n(Fraction(v) / ct) for m, v in n.items()}
    lead = p[max(p)]
    out = Rat({ge: 1})
    if ge and out.const() is None:
        if not decide('>=', out):
            out = -out
    cn = ct.numerator * ct.denominator
    s, r = _sqfree_int(cn)
    out = out * Fraction(s, ct.denominator)
    rad = {0: r}
    if len(p) == 1 and lead == 1:
        pass
    else:
        # pull known factors out in pairs
        single = []
        if len(p) > 1:
            for f in range(len(c.factors)):
                k = 0
                while len(p) > 1 and c.maybe_divisible(p, f):
                    q = pdivexact(p, c.factors[f])
                    if q is None:
                        break
                    p = q
                    k += 1
                if k // 2:
                    fr = Rat(ppow(c, c.factors[f], k // 2))
                    if not decide('>=', fr):
                        fr = -fr
                    out = out * fr
                if k % 2:
                    single.append(f)
        q = psqrt(p)
        if q is not None:
            qr = Rat(q)
            if qr.const() is None and not decide('>=', qr):
                qr = -qr
            out = out * qr
            p = {0: 1}
        for f in single:
            p = c.pmul(p, c.factors[f])
        rad = pscale(p, r)
    if go:
        rad = {m + go: v for m, v in rad.items()}
        rad = c.reduce(rad)
    if rad == {0: 1}:
        return out
    if not rad:
        return ZERO
    # split off single positive generator / factor radicands for canonicity: sqrt(ab)=sqrt(a)sqrt(b) for a>=0
    pieces = _split_radicand(rad)
    for q in pieces:
        out = out * _sqrt_gen(q)
    return out


def _split_radicand(rad):
    c = Ctx.cur
    pieces = []
    g = mono_gcd_all(rad)
    rest = rad
    for i, e in mono_fields(g):
        gg = c.gens[i]
        if gg.nonneg or gg.kind == 'const':
            one = 1 << (BITS * i)
            pieces.append({one: 1})
            rest = {m - one: v for m, v in rest.items()}
    ct = pcontent(rest)
    if ct != 1 and len(rest) >= 1:
        rest = pscale(rest, 1 / ct)
        cn = ct.numerator
        assert ct.denominator == 1
        pieces.append({0: cn})
    if len(rest) > 1:
        for f in range(len(c.factors)):
            fp_ = c.factors[f]
            if len(rest) > len(fp_) and c.maybe_divisible(rest, f):
                q = pdivexact(rest, fp_)
                if q is not None and known_nonneg(fp_):
                    pieces.append(fp_)
                    rest = q
    if rest != {0: 1}:
        pieces.append(rest)
    return pieces


def _sqrt_gen(rad):
    c = Ctx.cur
    key = ('sqrt', frozenset(rad.items()))
    g = c.cache.get(key)
    if g is None:
        c.side.append(('>=', rad))
        gg = c.gen(f'sqrt{len(c.gens)}', 'sqrt', rad, nonneg=True)
        if known_pos(rad):
            gg.pos = gg.nonzero = True
        c.rules[gg.idx] = rad
        c.rule_mask |= FM << (BITS * gg.idx)
        g = c.grat(gg)
        c.cache[key] = g
    return g


def known_nonneg(p):
    c = Ctx.cur
    for m, v in p.items():
        if v < 0:
            return False
        for i, e in mono_fields(m):
            if e % 2 and not c.gens[i].nonneg:
                return False
    return True


def known_pos(p):
    c = Ctx.cur
    if not p or not known_nonneg(p):
        return False
    for m in p:
        if all(c.gens[i].nonzero for i, e in mono_fields(m)):
            return True
    return False


def nonzero_known(r):
    """Cheap sufficient test for r != 0."""
    r = Rat.of(r)
    if known_pos(r.num) or known_pos(pneg(r.num)):
        return True
    c = Ctx.cur
    return len(r.num) == 1 and all(c.gens[i].nonzero for m in r.num for i, e in mono_fields(m))


def opaque(name, args, pos=False, nonneg=False, nonzero=False, kind='fun', data=None):
    """Generator for name(args), shared between equal arguments."""
    c = Ctx.cur
    args = tuple(Rat.of(a) for a in args)
    key = (name,) + tuple(c.fp(a) for a in args)
    lst = c.opaque.setdefault(key, [])
    for a, g in lst:
        if all(x.same(y) for x, y in zip(a, args)):
            return c.grat(g)
    g = c.gen(f'{name}_{len(c.gens)}', kind, (name, args, data), pos=pos, nonneg=nonneg, nonzero=nonzero)
    lst.append((args, g))
    return c.grat(g)


def exp(x):
    if isinstance(x, Cx):
        e = exp(x.re) if not x.re.is_zero() else ONE
        return Cx(e * cos(x.im), e * sin(x.im))
    x = Rat.of(x)
    c = Ctx.cur
    if x.is_zero():
        return ONE
    if c.trunc:
        mask = 0
        for gi in c.trunc:
            mask |= FM << (BITS * gi)
        if all(m & mask for m in x.num) and not x.den and not (x.mono & mask):
            # exp of a truncated series without constant term
            r, t = ONE, ONE
            K = max(c.trunc.values())
            for k in range(1, K + 1):
                t = t * x / k
                r = r + t
            return r
    # split additive terms: exp(sum) = prod exp(term); exp(k*log a) = a^k
    out = ONE
    rest = ZERO
    if not x.den and not x.mono:
        for m, v in x.num.items():
            f = mono_fields(m)
            if len(f) == 1 and f[0][1] == 1 and c.gens[f[0][0]].kind == 'log' and \
                    (isinstance(v, int) or v.denominator in (1, 2)):
                out = out * (c.gens[f[0][0]].data[1][0] ** v)
            else:
                rest = rest + Rat({m: v})
    else:
        rest = x
        logs = sorted({i for m in x.num for i, e in mono_fields(m) if e == 1 and c.gens[i].kind == 'log'})
        for i in logs:
            u = 1 << (BITS * i)
            A = {m - u: v for m, v in x.num.items() if (m >> (BITS * i)) & FM == 1}
            k = (Rat(A) / (ONE / Rat({0: 1}, x.mono, dict(x.den)))).const()
            if k is not None and (isinstance(k, int) or k.denominator in (1, 2)):
                out = out * (c.gens[i].data[1][0] ** k)
                rest = rest - c.grat(c.gens[i]) * k
    if rest.is_zero():
        return out
    # canonical sign so exp(-a) = 1/exp(a)
    lead = rest.num[max(rest.num)]
    if lead < 0:
        return out / _exp_gen(-rest)
    return out * _exp_gen(rest)


def _exp_gen(x):
    c = Ctx.cur
    ex = [g for g in c.gens if g.kind == 'exp']
    if ex and len(ex) <= 12 and not any(g.data[1][0].same(x) for g in ex):
        # exp(a - b) and exp(a + b) of known exponentials
        for i, g in enumerate(ex):
            d = x - g.data[1][0]
            e = x + g.data[1][0]
            for h in ex[i:]:
                a = h.data[1][0]
                if d.same(a):
                    return c.grat(g) * c.grat(h)
                if d.same(-a):
                    return c.grat(g) / c.grat(h)
                if e.same(a):
                    return c.grat(h) / c.grat(g)
    return opaque('exp', (x,), pos=True, kind='exp')


def log(x):
    x = Rat.of(x)
    c = Ctx.cur
    k = x.const()
    if k is not None:
        if k <= 0:
            raise Unsupported('log of non-positive constant')
        return _log_rational(Fraction(k))
    if not decide('>', x):
        raise Unsupported('log of a non-positive value')
    out = ZERO
    num = x.num
    # single-term numerator splits into generator logs
    ct = pcontent(num)
    g = mono_gcd_all(num)
    rest = {m - g: _n(Fraction(v) / ct) for m, v in num.items()}
    out = out + _log_rational(ct)

    def lg(i):
        gg = c.gens[i]
        r = c.grat(gg)
        if gg.kind == 'exp':
            return gg.data[1][0]
        if gg.kind == 'sqrt':
            return log(Rat(gg.data)) / 2
        return opaque('log', (r,), kind='log')
    odd = []
    neg_unknown = False
    for i, e in mono_fields(g):
        if c.gens[i].pos or decide('>', c.grat(c.gens[i])):
            out = out + lg(i) * e
        else:
            neg_unknown = True
            out = out + opaque('log', (-c.grat(c.gens[i]),), kind='log') * e
            if e % 2:
                rest = pneg(rest)
    for i, e in mono_fields(x.mono):
        if c.gens[i].pos or decide('>', c.grat(c.gens[i])):
            out = out - lg(i) * e
        else:
            out = out - opaque('log', (-c.grat(c.gens[i]),), kind='log') * e
            if e % 2:
                rest = pneg(rest)
    for f, e in x.den.items():
        fr = Rat(c.factors[f])
        if not decide('>', fr):
            fr = -fr
            if e % 2:
                rest = pneg(rest)
        out = out - opaque('log', (fr,), kind='log') * e
    if rest != {0: 1}:
        # pull out known denominators factors
        if len(rest) > 1:
            for f in range(len(c.factors)):
                while len(rest) > 1 and c.maybe_divisible(rest, f):
                    q = pdivexact(rest, c.factors[f])
                    if q is None:
                        break
                    fr = Rat(c.factors[f])
                    if not decide('>', fr):
                        fr = -fr
                        q = pneg(q)
                    out = out + opaque('log', (fr,), kind='log')
                    rest = q
        if rest != {0: 1}:
            if len(rest) == 1 and 0 in rest:
                out = out + _log_rational(Fraction(rest[0]))
            else:
                out = out + opaque('log', (Rat(rest),), kind='log')
    return out


def _log_rational(q):
    if q == 1:
        return ZERO
    if q <= 0:
        raise Unsupported('log of a non-positive constant')

    def li(n):
        r = ZERO
        p = 2
        while n > 1 and p * p <= n and p < 4000:
            k = 0
            while n % p == 0:
                n //= p
                k += 1
            if k:
                r = r + opaque('log', (Rat.of(p),), pos=True, kind='log') * k
            p += 1
        if n > 1:
            r = r + opaque('log', (Rat.of(n),), pos=True, kind='log')
        return r
    return li(q.numerator) - li(q.denominator)


def sin(x):
    x = Rat.of(x)
    if x.is_zero():
        return ZERO
    if x.num[max(x.num)] < 0:
        return -sin(-x)
    return _trig(x)[1]


def cos(x):
    x = Rat.of(x)
    if x.is_zero():
        return ONE
    if x.num[max(x.num)] < 0:
        x = -x
    return _trig(x)[0]


def _trig(x):
    c = Ctx.cur
    s = opaque('sin', (x,), kind='fun')
    co = opaque('cos', (x,), kind='fun')
    (m, _), = co.num.items()
    gi = mono_fields(m)[0][0]
    if gi not in c.rules:
        c.rules[gi] = psub({0: 1}, pmul_raw(s.num, s.num))
        c.rule_mask |= FM << (BITS * gi)
    return co, s


def tanh(x):
    x = Rat.of(x)
    e = exp(x * 2)
    return (e - 1) / (e + 1)


class Cx:
    """Complex pair of Rats."""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = Rat.of(re), Rat.of(im)

    @staticmethod
    def of(x):
        if isinstance(x, Cx):
            return x
        if isinstance(x, complex) or (hasattr(x, 'dtype') and x.dtype.kind == 'c'):
            x = complex(x)
            return Cx(snap(x.real), snap(x.imag))
        return Cx(Rat.of(x), ZERO)

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = Cx.of(o)
        return Cx(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return self + (-Cx.of(o))

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return Cx.of(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = Cx.of(o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = Cx.of(o)
        d = o.re * o.re + o.im * o.im
        return Cx((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return Cx.of(o) / self

    def __pow__(self, n):
        n = int(n)
        if n < 0:
            return Cx(ONE, ZERO) / (self ** (-n))
        r = Cx(ONE, ZERO)
        for _ in range(n):
            r = r * self
        return r

    def conjugate(self):
        return Cx(self.re, -self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __repr__(self):
        return f'({self.re!r} + i {self.im!r})'


# ------------------------------------------------------------------ decisions

def decide(rel, val):
    """Truth of `val rel 0` on the current path; forks when both outcomes are feasible."""
    c = Ctx.cur
    val = Rat.of(val)
    k = val.const()
    if k is not None:
        return {'>': k > 0, '>=': k >= 0, '=': k == 0, '!=': k != 0}[rel]
    # multiply away the denominator: sign of num * den (odd parts)
    p = val.num
    if rel in ('>', '>='):
        odd = 0
        for i, e in mono_fields(val.mono):
            if e % 2 and not c.gens[i].pos:
                odd |= 1 << (BITS * i)
        if odd:
            p = c.reduce({m + odd: v for m, v in p.items()})
        for f, e in val.den.items():
            if e % 2 and not known_pos(c.factors[f]):
                if c.decide_known('>', c.factors[f]) is True:
                    continue
                if c.decide_known('>', pneg(c.factors[f])) is True:
                    p = pneg(p)
                    continue
                p = c.pmul(p, c.factors[f])
    # strip positive monomials and content
    g = mono_gcd_all(p)
    ct = pcontent(p)
    strip = 0
    for i, e in mono_fields(g):
        gg = c.gens[i]
        if gg.pos:
            strip |= e << (BITS * i)
        elif gg.nonzero or rel in ('=', '!='):
            k2 = e if (rel in ('=', '!=') and gg.nonzero) else (e - e % 2 if gg.nonzero else 0)
            if k2:
                strip |= k2 << (BITS * i)
    if strip or ct != 1:
        p = {m - strip: _n(Fraction(v) / ct) for m, v in p.items()}
    return c.decide_poly(rel, p)


def _decide_known(self, rel, p):
    """True/False if already implied (cheaply or by cache), else None."""
    if rel == '>' and known_pos(p):
        return True
    if rel == '>' and known_nonneg(pneg(p)):
        return False
    if rel == '>=' and known_nonneg(p):
        return True
    if rel == '>=' and known_pos(pneg(p)):
        return False
    if rel in ('=', '!='):
        if known_pos(p) or known_pos(pneg(p)):
            return rel == '!='
    key = frozenset(p.items())
    if key in self.signcache:
        s = self.signcache[key]     # subset of {-1,0,1}
        sat = {'>': {1}, '>=': {0, 1}, '=': {0}, '!=': {-1, 1}}[rel]
        if s <= sat:
            return True
        if not (s & sat):
            return False
    nkey = frozenset((m, -v) for m, v in p.items())
    if nkey in self.signcache:
        s = {-x for x in self.signcache[nkey]}
        sat = {'>': {1}, '>=': {0, 1}, '=': {0}, '!=': {-1, 1}}[rel]
        if s <= sat:
            return True
        if not (s & sat):
            return False
    return None


def _fact(self, rel, p):
    sat = {'>': {1}, '>=': {0, 1}, '=': {0}, '!=': {-1, 1}, '<': {-1}, '<=': {-1, 0}}[rel]
    key = frozenset(p.items())
    s = self.signcache.get(key, {-1, 0, 1})
    self.signcache[key] = s & sat


NEG = {'>': '<=', '>=': '<', '=': '!=', '!=': '='}


def _decide_poly(self, rel, p):
    k = self.decide_known(rel, p)
    if k is not None:
        return k
    i = self.ndec
    self.ndec += 1
    if i < len(self.prefix):
        choice, forced = self.prefix[i]
    else:
        t = self.solver.feasible(self, rel, p) if self.solver else True
        f = self.solver.feasible(self, NEG[rel], p) if self.solver else True
        if not t and not f:
            raise Infeasible()
        if t and f:
            choice, forced = True, False
            self.alternatives.append(self.prefix[:i] + [(False, False)])
        else:
            choice, forced = bool(t), True
        self.prefix.append((choice, forced))
    r = rel if choice else NEG[rel]
    self.fact(r, p)
    self.path.append((r, p))
    return choice


Ctx.decide_known = _decide_known
Ctx.decide_poly = _decide_poly
Ctx.fact = _fact


def assume(pred_rel, val):
    """Add an assumption `val rel 0` to the current context."""
    c = Ctx.cur
    val = Rat.of(val)
    k = val.const()
    if k is not None:
        ok = {'>': k > 0, '>=': k >= 0, '=': k == 0, '!=': k != 0}[pred_rel]
        if not ok:
            raise Infeasible()
        return
    p = val.num
    if pred_rel in ('>', '>='):
        odd = 0
        for i, e in mono_fields(val.mono):
            if e % 2 and not c.gens[i].pos:
                odd |= 1 << (BITS * i)
        if odd:
            p = c.reduce({m + odd: v for m, v in p.items()})
        for f, e in val.den.items():
            if e % 2 and not known_pos(c.factors[f]):
                p = c.pmul(p, c.factors[f])
    c.assumptions.append((pred_rel, p))
    c.fact(pred_rel, p)
    ct = pcontent(p)
    if ct != 1:
        c.fact(pred_rel, pscale(p, 1 / ct))


# ------------------------------------------------------------------ printing / numeric evaluation

def show_poly(p, c=None):
    c = c or Ctx.cur
    if not p:
        return '0'
    ts = []
    for m, v in sorted(p.items(), reverse=True)[:30]:
        t = '*'.join(c.gens[i].name + (f'^{e}' if e > 1 else '') for i, e in mono_fields(m))
        ts.append(f'{v}' + ('*' + t if t else ''))
    return ' + '.join(ts) + (' + ...' if len(p) > 30 else '')


def show(r):
    s = show_poly(r.num)
    if r.mono or r.den:
        c = Ctx.cur
        d = [c.gens[i].name + (f'^{e}' if e > 1 else '') for i, e in mono_fields(r.mono)]
        d += [f'({show_poly(c.factors[f])})' + (f'^{e}' if e > 1 else '') for f, e in r.den.items()]
        s = f'({s})/({"*".join(d)})'
    return s
