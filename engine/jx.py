"""Symbolic interpreter for jaxprs: the real functions of /repo are traced by JAX itself and the
resulting intermediate representation is executed over exact symbolic reals (engine.alg)."""
import math
import numpy as np
import jax
import jax.numpy as jnp
from jax import core, lax
from jax.interpreters import ad, batching, mlir
from . import alg
from .alg import Rat, Cx, Pred, Ctx, Unsupported, Budget, ZERO, ONE

jax.config.update('jax_enable_x64', True)


# ------------------------------------------------------------------ NaN marker

class _NaN:
    """Undefined value (division by exact zero, out-of-bounds fill)."""
    __array_priority__ = 2000

    def _s(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = _s
    __rpow__ = __neg__ = __abs__ = sqrt = exp = log = conjugate = _s

    def __repr__(self):
        return 'NaN'

    def is_zero(self):
        return False

    def const(self):
        return None

    real = property(_s)
    imag = property(_s)


NAN = _NaN()


def is_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def lift(x):
    if isinstance(x, (Rat, Cx, Pred, _NaN)):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        if math.isnan(x.real) or math.isnan(x.imag):
            return NAN
        if math.isinf(x.real) and x.imag == 0:
            return INF if x.real > 0 else NINF
        return Cx.of(x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else NINF
        return Rat.of(x)
    return Rat.of(x)


class _Inf:
    __array_priority__ = 2000

    def __init__(self, s):
        self.s = s

    def __neg__(self):
        return NINF if self.s > 0 else INF

    def __repr__(self):
        return 'inf' if self.s > 0 else '-inf'

    def _add(self, o):
        return NAN if o is NAN or (isinstance(o, _Inf) and o.s != self.s) else self
    __add__ = __radd__ = _add

    def __sub__(self, o):
        return self._add(-o)

    def __rsub__(self, o):
        return (-self)._add(o)

    def __mul__(self, o):
        if isinstance(o, _Inf):
            return INF if o.s == self.s else NINF
        if o is NAN:
            return NAN
        o = Rat.of(o)
        if alg.decide('>', o):
            return self
        if alg.decide('=', o):
            return NAN
        return -self
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.__mul__(o)

    def __rtruediv__(self, o):
        return ZERO

    def __abs__(self):
        return INF

    def __pow__(self, n):
        return NAN

    def const(self):
        return None

    def is_zero(self):
        return False


INF, NINF = _Inf(1), _Inf(-1)


def to_obj(a):
    """Concrete array -> object array of exact constants."""
    a = np.asarray(a)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    flat = out.reshape(-1) if a.shape else None
    if a.shape == ():
        out[()] = lift(a[()])
        return out
    src = a.reshape(-1)
    for i in range(src.size):
        flat[i] = lift(src[i])
    return out


def obj(shape, items):
    out = np.empty(shape, dtype=object)
    if shape == ():
        out[()] = items[0]
        return out
    f = out.reshape(-1)
    for i, x in enumerate(items):
        f[i] = x
    return out


def force(p):
    if isinstance(p, Pred):
        return bool(p)
    if isinstance(p, Rat):
        return bool(p)
    return bool(p)


# ------------------------------------------------------------------ uninterpreted callback primitive

uf_p = core.Primitive('uf')


def _uf_abs(*xs, name, deriv, flags):
    return core.ShapedArray(xs[0].shape, np.dtype('float64'))


uf_p.def_abstract_eval(_uf_abs)


def _uf_batch(args, dims, *, name, deriv, flags):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    out = []
    for a, d in zip(args, dims):
        if d is batching.not_mapped:
            out.append(jnp.broadcast_to(a[None], (size,) + a.shape))
        else:
            out.append(jnp.moveaxis(a, d, 0))
    return uf_p.bind(*out, name=name, deriv=deriv, flags=flags), 0


batching.primitive_batchers[uf_p] = _uf_batch


def _uf_jvp(primals, tangents, *, name, deriv, flags):
    y = uf_p.bind(*primals, name=name, deriv=deriv, flags=flags)
    t = None
    for i, tg in enumerate(tangents):
        if type(tg) is ad.Zero:
            continue
        d = list(deriv)
        d[i] += 1
        part = uf_p.bind(*primals, name=name, deriv=tuple(d), flags='') * tg
        t = part if t is None else t + part
    if t is None:
        t = jnp.zeros_like(y)
    return y, t


ad.primitive_jvps[uf_p] = _uf_jvp


def uf_call(name, xs, flags=''):
    xs = [jnp.asarray(x, dtype='float64') for x in xs]
    xs = jnp.broadcast_arrays(*xs) if len(xs) > 1 else xs
    return uf_p.bind(*xs, name=name, deriv=(0,) * len(xs), flags=flags)


# ------------------------------------------------------------------ interpreter

PRIMS = {}


def prim(*names):
    def deco(f):
        for n in names:
            PRIMS[n] = f
        return f
    return deco


def elementwise(f, *arrs):
    arrs = [to_obj(a) for a in arrs]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, dtype=object)
    if shape == ():
        out[()] = f(*[a[()] for a in arrs])
        return out
    of = out.reshape(-1)
    fl = [a.reshape(-1) for a in arrs]
    for i in range(of.size):
        of[i] = f(*[x[i] for x in fl])
    return out


def _safe(f):
    def g(*a):
        try:
            return f(*a)
        except ZeroDivisionError:
            return NAN
    return g


def ew(name, f):
    f = _safe(f)

    def rule(eqn, ins):
        return [elementwise(f, *ins)]
    PRIMS[name] = rule


def num(x):
    """Predicates/bools as numbers."""
    if isinstance(x, Pred):
        return ONE if bool(x) else ZERO
    if isinstance(x, bool):
        return ONE if x else ZERO
    return x


ew('add', lambda a, b: num(a) + num(b))
ew('add_any', lambda a, b: num(a) + num(b))
ew('sub', lambda a, b: num(a) - num(b))
ew('mul', lambda a, b: num(a) * num(b))
ew('div', lambda a, b: _div(a, b))
ew('neg', lambda a: -a)


def _div(a, b):
    a, b = num(a), num(b)
    if isinstance(b, Rat) and b.is_zero():
        return NAN
    return a / b


def _pow(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(a, Rat) and isinstance(b, Rat) and a.is_zero():
        k = b.const()
        if k is None:
            raise Unsupported('0 ** symbolic')
        return ONE if k == 0 else (ZERO if k > 0 else NAN)
    if isinstance(b, Rat) and isinstance(a, Cx):
        return a ** int(b)
    return a ** b


ew('pow', _pow)
ew('sqrt', lambda a: a if a in (NAN, INF) else _sqrt(a))


def _sqrt(a):
    if isinstance(a, Cx):
        raise Unsupported('complex sqrt')
    k = a.const()
    if k is not None and k < 0:
        return NAN
    return alg.sqrt(a)


ew('rsqrt', lambda a: ONE / _sqrt(a))
ew('exp', lambda a: a if a in (NAN, INF) else (ZERO if a is NINF else alg.exp(a)))
ew('log', lambda a: a if a in (NAN, INF) else _log(a))


def _log(a):
    if isinstance(a, Rat):
        k = a.const()
        if k is not None and k == 0:
            return NINF
        if k is not None and k < 0:
            return NAN
        if k is None and not alg.decide('>', a):
            if alg.decide('=', a):
                return NINF
            return NAN
    return alg.log(a)


ew('log1p', lambda a: _log(a + 1))
ew('expm1', lambda a: alg.exp(a) - 1)
ew('sin', lambda a: alg.sin(a))
ew('cos', lambda a: alg.cos(a))
ew('tanh', lambda a: alg.tanh(a))
ew('logistic', lambda a: ONE / (ONE + alg.exp(-a)))
ew('square', lambda a: a * a)
ew('real', lambda a: a if a is NAN or isinstance(a, _Inf) else a.real)
ew('imag', lambda a: a if a is NAN else (ZERO if isinstance(a, _Inf) else a.imag))
ew('conj', lambda a: a.conjugate())
ew('complex', lambda a, b: Cx(a, b))
ew('stop_gradient', lambda a: a)
ew('copy', lambda a: a)
ew('copy_p', lambda a: a)
ew('reduce_precision', lambda a: a)
ew('optimization_barrier', lambda a: a)
ew('is_finite', lambda a: not (a is NAN or a is INF or a is NINF))


def _abs(a):
    if a is NAN:
        return a
    if isinstance(a, Cx):
        if a.im.is_zero():
            return abs(a.re)
        return alg.sqrt(a.re * a.re + a.im * a.im)
    return abs(a)


ew('abs', _abs)


def _sign(a):
    if alg.decide('>', a):
        return ONE
    return ZERO if alg.decide('=', a) else -ONE


ew('sign', _sign)


def _isinf(*xs):
    return any(isinstance(x, _Inf) for x in xs)


def _lt(a, b):
    a, b = num(a), num(b)
    if a is NAN or b is NAN:
        return False
    if isinstance(a, _Inf) or isinstance(b, _Inf):
        if isinstance(a, _Inf) and isinstance(b, _Inf):
            return a.s < b.s
        return (b.s > 0) if isinstance(b, _Inf) else a.s < 0
    return Pred('>', Rat.of(b) - a)


def _le(a, b):
    a, b = num(a), num(b)
    if a is NAN or b is NAN:
        return False
    if _isinf(a, b):
        if isinstance(a, _Inf) and isinstance(b, _Inf):
            return a.s <= b.s
        return (b.s > 0) if isinstance(b, _Inf) else a.s < 0
    return Pred('>=', Rat.of(b) - a)


def _eq(a, b):
    a, b = num(a), num(b)
    if a is NAN or b is NAN:
        return False
    if _isinf(a, b):
        return isinstance(a, _Inf) and isinstance(b, _Inf) and a.s == b.s
    if isinstance(a, Cx) or isinstance(b, Cx):
        d = Cx.of(a) - b
        return alg.decide('=', d.re) and alg.decide('=', d.im)
    d = Rat.of(a) - b
    k = d.const()
    if k is not None:
        return k == 0
    return Pred('=', d)


def _not(p):
    if isinstance(p, Pred):
        return p.neg()
    return not force(p)


ew('lt', _lt)
ew('le', _le)
ew('lt_to', _lt)
ew('le_to', _le)
ew('gt', lambda a, b: _lt(b, a))
ew('ge', lambda a, b: _le(b, a))
ew('eq', _eq)
ew('ne', lambda a, b: _not(_eq(a, b)) if not (a is NAN or b is NAN) else True)
ew('not', _not)
ew('and', lambda a, b: (b if a is True else a if b is True else force(a) and force(b)))
ew('or', lambda a, b: (b if a is False else a if b is False else force(a) or force(b)))


def _max(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(a, _Inf):
        return a if a.s > 0 else b
    if isinstance(b, _Inf):
        return b if b.s > 0 else a
    return a if alg.decide('>=', a - b) else b


def _min(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(a, _Inf):
        return a if a.s < 0 else b
    if isinstance(b, _Inf):
        return b if b.s < 0 else a
    return b if alg.decide('>=', a - b) else a


ew('max', _max)
ew('min', _min)
ew('clamp', lambda lo, x, hi: _min(_max(x, lo), hi))


@prim('integer_pow')
def _integer_pow(eqn, ins):
    y = eqn.params['y']
    return [elementwise(_safe(lambda a: _pow(a, Rat.of(y)) if isinstance(a, Rat) else a ** y), ins[0])]


@prim('convert_element_type')
def _convert(eqn, ins):
    dt = np.dtype(eqn.params['new_dtype'])
    a = ins[0]
    if dt.kind == 'f':
        return [elementwise(lambda x: num(x).real if isinstance(x, Cx) else num(x), a)]
    if dt.kind == 'c':
        return [elementwise(lambda x: Cx.of(num(x)), a)]
    if dt.kind == 'b':
        return [elementwise(lambda x: x if isinstance(x, (Pred, bool)) else _not(_eq(x, ZERO)), a)]
    # to integer: must be decidable
    out = np.empty(a.shape, dtype=dt)
    f = out.reshape(-1) if a.shape else None
    items = [a[()]] if a.shape == () else list(a.reshape(-1))
    for i, x in enumerate(items):
        if isinstance(x, (Pred, bool)):
            v = int(force(x))
        elif isinstance(x, Rat) and x.const() is not None:
            v = int(x.const())
        else:
            raise Unsupported('symbolic float -> int')
        if f is None:
            out[()] = v
        else:
            f[i] = v
    return [out]


@prim('select_n')
def _select_n(eqn, ins):
    p, *cs = ins
    cs = [to_obj(c) for c in cs]
    shape = cs[0].shape
    p = np.broadcast_to(np.asarray(p, dtype=object) if not is_sym(p) else p, shape)

    def same(a, b):
        if a is b:
            return True
        if isinstance(a, Rat) and isinstance(b, Rat):
            return a.num == b.num and a.mono == b.mono and a.den == b.den
        return False
    out = np.empty(shape, dtype=object)
    pf = [p[()]] if shape == () else p.reshape(-1)
    cf = [[c[()]] if shape == () else c.reshape(-1) for c in cs]
    res = []
    for i in range(len(pf)):
        q = pf[i]
        if len(cf) == 2 and same(cf[0][i], cf[1][i]):
            res.append(cf[0][i])
            continue
        if isinstance(q, (Pred, bool, np.bool_)):
            q = int(force(q))
        else:
            q = int(q)
        res.append(cf[q][i])
    return [obj(shape, res)]


# ---- data movement through integer ids

def _ids(shapes):
    out, start = [], 1
    for s in shapes:
        n = int(np.prod(s, dtype=int))
        out.append(np.arange(start, start + n, dtype='int64').reshape(s))
        start += n
    return out


def _move(eqn, ins, which):
    """Run the real primitive on ids for operands in `which`."""
    objs = [to_obj(ins[i]) for i in which]
    ids = _ids([o.shape for o in objs])
    pool = [None]
    for o in objs:
        pool += [o[()]] if o.shape == () else list(o.reshape(-1))
    args = [jnp.asarray(x) for x in ins if False]
    args = []
    k = 0
    for i, x in enumerate(ins):
        if i in which:
            args.append(jnp.asarray(ids[k]))
            k += 1
        else:
            if is_sym(x):
                x = concretise(x)
            args.append(jnp.asarray(x))
    params = dict(eqn.params)
    fill = NAN
    if 'fill_value' in params:                 # out-of-bounds entries get id 0
        fv = params['fill_value']
        if fv is not None and not (isinstance(fv, float) and fv != fv):
            fill = to_obj(np.asarray(fv))[()]
        params['fill_value'] = 0
    r = eqn.primitive.bind(*args, **params)
    rs = r if eqn.primitive.multiple_results else [r]
    out = []
    for r in rs:
        r = np.asarray(r)
        items = [pool[v] if 0 < v < len(pool) else fill for v in ([int(r)] if r.shape == () else r.reshape(-1).tolist())]
        out.append(obj(r.shape, items))
    return out


def concretise(x):
    """Object array whose entries are constants -> integer/bool numpy array."""
    items = [x[()]] if x.shape == () else list(x.reshape(-1))
    vals = []
    for v in items:
        if isinstance(v, Pred):
            vals.append(bool(v))
        elif isinstance(v, Rat):
            k = v.const()
            if k is None:
                raise Unsupported('symbolic value where a concrete one is needed')
            vals.append(int(k) if k == int(k) else float(k))
        else:
            vals.append(v)
    return np.array(vals).reshape(x.shape)


for _name in ('reshape', 'broadcast_in_dim', 'transpose', 'squeeze', 'expand_dims', 'rev', 'slice'):
    PRIMS[_name] = lambda eqn, ins: _move(eqn, ins, [0])
PRIMS['gather'] = lambda eqn, ins: _move(eqn, ins, [0])
PRIMS['dynamic_slice'] = lambda eqn, ins: _move(eqn, ins, [0])
PRIMS['dynamic_update_slice'] = lambda eqn, ins: _move(eqn, ins, [0, 1])
PRIMS['concatenate'] = lambda eqn, ins: _move(eqn, ins, list(range(len(ins))))
PRIMS['pad'] = lambda eqn, ins: _move(eqn, ins, [0, 1])
PRIMS['scatter'] = lambda eqn, ins: _move(eqn, ins, [0, 2])


@prim('scatter-add', 'scatter_add', 'scatter-mul', 'scatter_mul')
def _scatter_add(eqn, ins):
    mul = 'mul' in eqn.primitive.name
    operand, idx, upd = to_obj(ins[0]), ins[1], to_obj(ins[2])
    if is_sym(idx):
        idx = concretise(idx)
    uf = [upd[()]] if upd.shape == () else list(upd.reshape(-1))
    out = operand.copy()
    of = out.reshape(-1) if out.shape else None
    CH = 50
    params = {k: v for k, v in eqn.params.items()}
    from jax._src.lax import slicing
    for s in range(0, len(uf), CH):
        u = np.zeros(len(uf), dtype='int64')
        n = min(CH, len(uf) - s)
        u[s:s + n] = 2 ** np.arange(n, dtype='int64')
        zero = jnp.zeros(operand.shape, dtype='int64')
        dn = params['dimension_numbers']
        r = np.asarray(lax.scatter_add(zero, jnp.asarray(idx), jnp.asarray(u.reshape(upd.shape)), dn,
                                       indices_are_sorted=params['indices_are_sorted'],
                                       unique_indices=params['unique_indices'], mode=params['mode']))
        rf = [int(r)] if r.shape == () else r.reshape(-1).tolist()
        for j, v in enumerate(rf):
            k = 0
            while v:
                if v & 1:
                    x = uf[s + k]
                    if of is None:
                        out[()] = out[()] * x if mul else out[()] + x
                    else:
                        of[j] = of[j] * x if mul else of[j] + x
                v >>= 1
                k += 1
    return [out]


def _reduce(f, init):
    def rule(eqn, ins):
        a = to_obj(ins[0])
        axes = eqn.params['axes']
        keep = [i for i in range(a.ndim) if i not in axes]
        shape = tuple(a.shape[i] for i in keep)
        k = int(np.prod([a.shape[i] for i in axes], dtype=int))
        flat = np.transpose(a, keep + list(axes)).reshape((int(np.prod(shape, dtype=int)), k))
        res = []
        for row in flat:
            acc = init
            for x in row:
                acc = x if acc is None else f(acc, x)
            res.append(acc)
        return [obj(shape, res)]
    return rule


PRIMS['reduce_sum'] = _reduce(lambda a, b: num(a) + num(b), ZERO)
PRIMS['reduce_prod'] = _reduce(lambda a, b: num(a) * num(b), ONE)
PRIMS['reduce_max'] = _reduce(_max, None)
PRIMS['reduce_min'] = _reduce(_min, None)
PRIMS['reduce_and'] = _reduce(lambda a, b: force(a) and force(b), True)
PRIMS['reduce_or'] = _reduce(lambda a, b: force(a) or force(b), False)


def _cum(f):
    def rule(eqn, ins):
        a = to_obj(ins[0])
        ax, rev = eqn.params['axis'], eqn.params['reverse']
        a = np.moveaxis(a, ax, 0).copy()
        rng = range(a.shape[0])
        rng = list(reversed(rng)) if rev else list(rng)
        acc = None
        for i in rng:
            if acc is None:
                acc = a[i].copy() if isinstance(a[i], np.ndarray) else a[i]
            else:
                acc = elementwise(f, acc if isinstance(acc, np.ndarray) else obj((), [acc]),
                                  a[i] if isinstance(a[i], np.ndarray) else obj((), [a[i]]))
                if acc.shape == ():
                    acc = acc[()]
            a[i] = acc
        return [np.moveaxis(a, 0, ax)]
    return rule


PRIMS['cumsum'] = _cum(lambda x, y: x + y)
PRIMS['cumprod'] = _cum(lambda x, y: x * y)
PRIMS['cummax'] = _cum(_max)
PRIMS['cummin'] = _cum(_min)


@prim('argmax', 'argmin')
def _arg(eqn, ins):
    a = to_obj(ins[0])
    ax, = eqn.params['axes']
    sgn = 1 if eqn.primitive.name == 'argmax' else -1
    b = np.moveaxis(a, ax, -1)
    shape = b.shape[:-1]
    flat = b.reshape((int(np.prod(shape, dtype=int)), b.shape[-1]))
    res = []
    for row in flat:
        best = 0
        for i in range(1, len(row)):
            p = _lt(row[best], row[i]) if sgn > 0 else _lt(row[i], row[best])
            if force(p):
                best = i
        res.append(best)
    return [np.array(res, dtype=eqn.params['index_dtype']).reshape(shape)]


@prim('sort')
def _sort(eqn, ins):
    dim, nk = eqn.params['dimension'], eqn.params['num_keys']
    arrs = [np.moveaxis(to_obj(a) if (is_sym(a) or i < nk) else np.asarray(a), dim, -1) for i, a in enumerate(ins)]
    shape = arrs[0].shape
    n = shape[-1]
    outs = [np.empty(shape, dtype=a.dtype) for a in arrs]
    lead = int(np.prod(shape[:-1], dtype=int))
    fa = [a.reshape(lead, n) for a in arrs]
    fo = [o.reshape(lead, n) for o in outs]
    for r in range(lead):
        order = []
        for i in range(n):
            pos = len(order)
            while pos > 0 and _less([fa[k][r][i] for k in range(nk)], [fa[k][r][order[pos - 1]] for k in range(nk)]):
                pos -= 1
            order.insert(pos, i)
        for k in range(len(arrs)):
            for j, i in enumerate(order):
                fo[k][r][j] = fa[k][r][i]
    return [np.moveaxis(o.reshape(shape), -1, dim) for o in outs]


def _less(a, b):
    for x, y in zip(a, b):
        if force(_lt(x, y)):
            return True
        if len(a) > 1 and not force(_eq(x, y)):
            return False
    return False


def _matmul(a, b):
    """(m,k) x (k,n) over objects, skipping zeros."""
    m, k = a.shape
    n = b.shape[1]
    out = np.empty((m, n), dtype=object)
    for i in range(m):
        for j in range(n):
            s = ZERO
            for t in range(k):
                x, y = a[i, t], b[t, j]
                if isinstance(x, Rat) and not x.num or isinstance(y, Rat) and not y.num:
                    if x is not NAN and y is not NAN:
                        continue
                s = s + x * y
            out[i, j] = s
    return out


@prim('dot_general')
def _dot_general(eqn, ins):
    (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
    a, b = to_obj(ins[0]), to_obj(ins[1])
    lf = [i for i in range(a.ndim) if i not in lc and i not in lb]
    rf = [i for i in range(b.ndim) if i not in rc and i not in rb]
    bs = [a.shape[i] for i in lb]
    cs = int(np.prod([a.shape[i] for i in lc], dtype=int))
    A = np.transpose(a, list(lb) + lf + list(lc)).reshape([int(np.prod(bs, dtype=int)),
                                                          int(np.prod([a.shape[i] for i in lf], dtype=int)), cs])
    B = np.transpose(b, list(rb) + list(rc) + rf).reshape([int(np.prod(bs, dtype=int)), cs,
                                                          int(np.prod([b.shape[i] for i in rf], dtype=int))])
    out = np.empty((A.shape[0], A.shape[1], B.shape[2]), dtype=object)
    for i in range(A.shape[0]):
        out[i] = _matmul(A[i], B[i])
    return [out.reshape(bs + [a.shape[i] for i in lf] + [b.shape[i] for i in rf])]


# ---- linear algebra

def chol(A):
    n = A.shape[0]
    L = np.empty((n, n), dtype=object)
    L[:] = ZERO
    for j in range(n):
        s = A[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        kc = s.const() if isinstance(s, Rat) else None
        if kc is not None and kc <= 0:
            L[:] = NAN
            return L
        d = alg.sqrt(s)
        L[j, j] = d
        for i in range(j + 1, n):
            t = A[i, j]
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            L[i, j] = t / d
    return L


def _batched(f, a, outcore):
    lead = a.shape[:-2]
    flat = a.reshape((-1,) + a.shape[-2:])
    return [f(x) for x in flat], lead


@prim('cholesky')
def _cholesky(eqn, ins):
    a = to_obj(ins[0])
    rs, lead = _batched(chol, a, None)
    out = np.empty(a.shape, dtype=object)
    flat = out.reshape((-1,) + a.shape[-2:])
    for i, r in enumerate(rs):
        flat[i] = r
    return [out]


def tri_solve(a, b, left, lower, trans, unit):
    """Solve op(a) x = b (left) or x op(a) = b, using one triangle of a."""
    n = a.shape[0]
    T = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if i == j:
                T[i, j] = ONE if unit else a[i, i]
            elif (i > j) == lower:
                T[i, j] = a[i, j]
            else:
                T[i, j] = ZERO
    lo = lower
    if trans:
        T, lo = T.T, not lo
    if not left:
        T, lo, b = T.T, not lo, b.T
    x = np.empty(b.shape, dtype=object)
    rng = range(n) if lo else range(n - 1, -1, -1)
    for c in range(b.shape[1]):
        for i in rng:
            s = b[i, c]
            for k in (range(i) if lo else range(i + 1, n)):
                t = T[i, k]
                if isinstance(t, Rat) and not t.num:
                    continue
                s = s - t * x[k, c]
            x[i, c] = _div(s, T[i, i]) if not unit else s
    return x if left else x.T


@prim('triangular_solve')
def _tri(eqn, ins):
    p = eqn.params
    a, b = to_obj(ins[0]), to_obj(ins[1])
    lead = a.shape[:-2]
    fa = a.reshape((-1,) + a.shape[-2:])
    fb = b.reshape((-1,) + b.shape[-2:])
    out = np.empty(b.shape, dtype=object)
    fo = out.reshape((-1,) + b.shape[-2:])
    for i in range(fa.shape[0]):
        fo[i] = tri_solve(fa[i], fb[i], p['left_side'], p['lower'], p['transpose_a'], p['unit_diagonal'])
    return [out]


@prim('lu')
def _lu(eqn, ins):
    a = to_obj(ins[0])
    lead = a.shape[:-2]
    if lead:
        outs = [_lu_one(x) for x in a.reshape((-1,) + a.shape[-2:])]
        L = np.empty(a.shape, dtype=object)
        fl = L.reshape((-1,) + a.shape[-2:])
        for i, o in enumerate(outs):
            fl[i] = o[0]
        piv = np.stack([o[1] for o in outs]).reshape(lead + outs[0][1].shape)
        per = np.stack([o[2] for o in outs]).reshape(lead + outs[0][2].shape)
        return [L, piv.astype('int32'), per.astype('int32')]
    l, p, q = _lu_one(a)
    return [l, p.astype('int32'), q.astype('int32')]


def _lu_one(a):
    """LU with the first not-identically-zero pivot (solution identical for any pivot order)."""
    A = a.copy()
    n = A.shape[0]
    perm = np.arange(n)
    piv = np.arange(n)
    for k in range(n):
        r = k
        while r < n and (isinstance(A[r, k], Rat) and A[r, k].is_zero()):
            r += 1
        if r == n:
            raise Unsupported('singular LU')
        piv[k] = r
        if r != k:
            A[[k, r]] = A[[r, k]]
            perm[[k, r]] = perm[[r, k]]
        for i in range(k + 1, n):
            f = A[i, k] / A[k, k]
            A[i, k] = f
            if isinstance(f, Rat) and f.is_zero():
                continue
            for j in range(k + 1, n):
                A[i, j] = A[i, j] - f * A[k, j]
    return A, piv, perm


class Eig:
    """Eigen-system of a symmetric matrix B (canonical affine representative)."""

    def __init__(self, idx, B, n):
        self.idx, self.B, self.n = idx, B, n
        c = Ctx.cur
        self.lam = [c.gen(f'lam{idx}_{i}', 'eig', (self, 'lam', i)) for i in range(n)]
        self.V = [[c.gen(f'V{idx}_{a}_{i}', 'eig', (self, 'V', a, i)) for i in range(n)] for a in range(n)]
        self.powers = None

    def power(self, j):
        if self.powers is None:
            I = np.empty((self.n, self.n), dtype=object)
            I[:] = ZERO
            for i in range(self.n):
                I[i, i] = ONE
            self.powers = [I]
        while len(self.powers) <= j:
            self.powers.append(_matmul(self.powers[-1], self.B))
        return self.powers[j]


def eig_system(K):
    """(lambda array, V array) for symmetric K; identical up to affine maps K -> (K - a I)/b."""
    c = Ctx.cur
    n = K.shape[0]
    if n == 1:
        return obj((1,), [K[0, 0]]), obj((1, 1), [ONE])
    a = K[0, 0]
    b = None
    for i in range(n):
        for j in range(i):
            if not K[i, j].is_zero():
                b = K[i, j]
                break
        if b is not None:
            break
    if b is None:
        b = ONE
    B = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            x = K[max(i, j), min(i, j)]
            B[i, j] = (x - a if i == j else x) / b
    key = ('eigh', n) + tuple(c.fp(B[i, j]) for i in range(n) for j in range(i + 1))
    for e in c.opaque.get(key, []):
        if all(e.C[i, j].same(B[i, j]) for i in range(n) for j in range(i + 1)):
            break
    else:
        S = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                S[i, j] = K[max(i, j), min(i, j)]
        e = Eig(len(c.eigs), S, n)
        e.C, e.a, e.b = B, a, b
        c.eigs.append(e)
        c.opaque.setdefault(key, []).append(e)
        c.contracts.add(f'eigh({n}x{n}): K = V diag(lam) V^T, V orthogonal')
        tri = all(S[i, j].is_zero() for i in range(n) for j in range(n) if abs(i - j) > 1)
        if tri and all(alg.nonzero_known(S[i, i + 1]) for i in range(n - 1)):
            # unreduced Jacobi matrix: first and last components of every eigenvector are non-zero
            c.contracts.add('eigh: eigenvectors of an unreduced symmetric tridiagonal matrix have non-zero end components')
            for i in range(n):
                e.V[0][i].nonzero = e.V[n - 1][i].nonzero = True
        else:
            alg.assume('=', sum((c.grat(g) * c.grat(g) for g in e.V[0]), -ONE))
    r_ = b / e.b
    lam = obj((n,), [(c.grat(g) - e.a) * r_ + a for g in e.lam])
    V = np.empty((n, n), dtype=object)
    for r in range(n):
        for i in range(n):
            V[r, i] = c.grat(e.V[r][i])
    return lam, V


@prim('eigh')
def _eigh(eqn, ins):
    a = to_obj(ins[0])
    low = eqn.params['lower']
    lead = a.shape[:-2]
    n = a.shape[-1]
    Vs = np.empty(a.shape, dtype=object)
    Ls = np.empty(lead + (n,), dtype=object)
    fa = a.reshape((-1, n, n))
    fv, fl = Vs.reshape((-1, n, n)), Ls.reshape((-1, n))
    for k in range(fa.shape[0]):
        K = fa[k]
        S = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                hi, lo_ = max(i, j), min(i, j)
                S[i, j] = K[hi, lo_] if low else K[lo_, hi]
        lam, V = eig_system(S)
        if eqn.params.get('sort_eigenvalues') and n > 1:
            kk = ('eigsorted', tuple(frozenset(x.num.items()) for x in lam))
            c = Ctx.cur
            if kk not in c.cache:
                c.cache[kk] = True
                c.contracts.add('eigh(sort_eigenvalues=True): eigenvalues ascend')
                for i in range(n - 1):
                    alg.assume('>=', lam[i + 1] - lam[i])
        fv[k], fl[k] = V, lam
    return [Vs, Ls]


@prim('eig')
def _eig(eqn, ins):
    h = getattr(Ctx.cur, 'eig_hook', None)
    if h is None:
        raise Unsupported('nonsymmetric eig')
    return h(eqn, ins)


# ---- control flow and calls

@prim('pjit', 'jit', 'xla_call', 'closed_call', 'core_closed_call')
def _pjit(eqn, ins):
    name = eqn.params.get('name', '')
    h = HOOKS.get(name)
    if h is not None:
        r = h(eqn, ins)
        if r is not None:
            return r
    jx = eqn.params.get('jaxpr') or eqn.params.get('call_jaxpr')
    if not hasattr(jx, 'consts'):
        return run_jaxpr(jx, [], ins)
    return run_jaxpr(jx.jaxpr, jx.consts, ins)


HOOKS = {}


@prim('custom_jvp_call', 'custom_vjp_call')
def _cjvp(eqn, ins):
    jx = eqn.params['call_jaxpr']
    return run_jaxpr(jx.jaxpr, jx.consts, ins)


@prim('custom_vjp_call_jaxpr')
def _cvjp(eqn, ins):
    jx = eqn.params['fun_jaxpr']
    return run_jaxpr(jx.jaxpr, jx.consts, ins)


@prim('remat', 'checkpoint', 'remat2')
def _remat(eqn, ins):
    return run_jaxpr(eqn.params['jaxpr'], [], ins)


@prim('custom_linear_solve')
def _cls(eqn, ins):
    cl, jx = eqn.params['const_lengths'], eqn.params['jaxprs']
    n = [cl.matvec, cl.vecmat, cl.solve, cl.transpose_solve]
    off = 0
    parts = []
    for k in n:
        parts.append(ins[off:off + k])
        off += k
    b = ins[off:]
    s = jx.solve
    return run_jaxpr(s.jaxpr, s.consts, list(parts[2]) + list(b))


@prim('scan')
def _scan(eqn, ins):
    p = eqn.params
    nc, ncar, L, rev = p['num_consts'], p['num_carry'], p['length'], p['reverse']
    jx = p['jaxpr']
    consts, carry, xs = ins[:nc], list(ins[nc:nc + ncar]), ins[nc + ncar:]
    ys = None
    c = Ctx.cur
    hook = getattr(c, 'scan_hook', None)
    if getattr(c, 'scan_sample', False) and L > SAMPLE:
        return _scan_sampled(eqn, c, jx, consts, carry, xs, L, rev, ncar)
    order = range(L - 1, -1, -1) if rev else range(L)
    nys = len(eqn.outvars) - ncar
    ys = [[None] * L for _ in range(nys)]
    for step, i in enumerate(order):
        xi = [np.asarray(x)[i] if not is_sym(x) else x[i] for x in xs]
        xi = [x if isinstance(x, np.ndarray) else (obj((), [x]) if isinstance(x, (Rat, Cx, Pred, bool, _NaN, _Inf))
                                                   else np.asarray(x)) for x in xi]
        if hook is not None and step > 0:
            carry = hook(c, step, L, carry)
        out = run_jaxpr(jx.jaxpr, jx.consts, list(consts) + carry + xi)
        carry = out[:ncar]
        for k in range(nys):
            ys[k][i] = out[ncar + k]
    res = list(carry)
    for k in range(nys):
        if L == 0:
            av = eqn.outvars[ncar + k].aval
            res.append(np.zeros(av.shape, dtype=av.dtype))
        elif any(is_sym(y) for y in ys[k]):
            st = np.empty((L,) + ys[k][0].shape, dtype=object)
            for i in range(L):
                st[i] = to_obj(ys[k][i]) if ys[k][i].shape else to_obj(ys[k][i])[()]
            res.append(st)
        else:
            res.append(np.stack([np.asarray(y) for y in ys[k]]))
    return res


SAMPLE = 8


def _fresh(c, tag, av):
    n = int(np.prod(av.shape, dtype=int))
    return obj(av.shape, [c.var(f'{tag}_{i}') for i in range(n)])


def _scan_sampled(eqn, c, jx, consts, carry, xs, L, rev, ncar):
    """Long scans: the first step and, from arbitrary carries, the second and the last one; every executed step is logged and the outputs of
    the others are arbitrary."""
    if rev:
        raise Unsupported('reversed long scan')
    c.scan_depth = getattr(c, 'scan_depth', 0) + 1
    if not hasattr(c, 'scan_log'):
        c.scan_log = []
    try:
        av = [v.aval for v in eqn.outvars]
        if any(not np.issubdtype(a.dtype, np.floating) for a in av[:ncar]):
            raise Unsupported('long scan with a discrete carry')
        c.scan_count = uid = getattr(c, 'scan_count', 0) + 1
        ys = [_fresh(c, f'skip{uid}_{k}', a.update(shape=a.shape[1:])) for k, a in enumerate(av[ncar:])]
        ys = [np.broadcast_to(y, (L,) + y.shape).copy() for y in ys]
        for i in (0, 1, L - 1):
            if i:
                carry = [_fresh(c, f'hav{uid}_{i}_{k}', a) for k, a in enumerate(av[:ncar])]
            xi = [np.asarray(x)[i] if not is_sym(x) else x[i] for x in xs]
            xi = [x if isinstance(x, np.ndarray) else (obj((), [x]) if isinstance(x, (Rat, Cx, Pred, bool, _NaN, _Inf))
                                                       else np.asarray(x)) for x in xi]
            mark = len(c.scan_log)
            out = run_jaxpr(jx.jaxpr, jx.consts, list(consts) + list(carry) + xi)
            c.scan_log.append(dict(depth=c.scan_depth, length=L, step=i, carry=list(carry), xs=xi, out=out[:ncar], ys=out[ncar:],
                                   inner=c.scan_log[mark:]))
            del c.scan_log[mark:-1]
            carry = out[:ncar]
            for k in range(len(ys)):
                ys[k][i] = to_obj(out[ncar + k]) if out[ncar + k].shape else to_obj(out[ncar + k])[()]
        return list(carry) + ys
    finally:
        c.scan_depth -= 1


@prim('while')
def _while(eqn, ins):
    p = eqn.params
    cn, bn = p['cond_nconsts'], p['body_nconsts']
    cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
    for it in range(100000):
        r, = run_jaxpr(p['cond_jaxpr'].jaxpr, p['cond_jaxpr'].consts, list(cc) + carry)
        v = r[()] if isinstance(r, np.ndarray) else r
        if not force(v):
            return carry
        if it > 5000:
            raise Budget('while loop bound')
        carry = run_jaxpr(p['body_jaxpr'].jaxpr, p['body_jaxpr'].consts, list(bc) + carry)
    raise Unsupported('while bound')


@prim('cond')
def _cond(eqn, ins):
    idx = ins[0]
    v = idx[()] if isinstance(idx, np.ndarray) else idx
    if isinstance(v, (Pred, bool, np.bool_)):
        v = int(force(v))
    elif isinstance(v, Rat):
        v = int(v)
    br = eqn.params['branches']
    v = max(0, min(len(br) - 1, int(v)))
    return run_jaxpr(br[v].jaxpr, br[v].consts, ins[1:])


@prim('uf')
def _uf(eqn, ins):
    p = eqn.params
    c = Ctx.cur
    name = p['name'] + (''.join(f"'{d}" for d in p['deriv']) if any(p['deriv']) else '')

    def f(*xs):
        h = c.uf_values.get(p['name']) if hasattr(c, 'uf_values') else None
        if h is not None and not any(p['deriv']):
            r = h(*xs)
            if r is not None:
                return r
        return alg.opaque(name, xs, pos='p' in p['flags'], kind='uf', data=p['deriv'])
    return [elementwise(f, *ins)]


@prim('erf', 'erfc', 'erf_inv', 'lgamma', 'digamma', 'atan2', 'atan', 'asin', 'acos', 'tan', 'sinh', 'cosh',
      'exp2', 'cbrt', 'floor', 'ceil', 'round', 'rem', 'nextafter', 'log2', 'asinh', 'acosh', 'atanh')
def _generic(eqn, ins):
    name = eqn.primitive.name
    arrs = [to_obj(a) for a in ins]

    def f(*xs):
        ks = [x.const() if isinstance(x, Rat) else None for x in xs]
        if all(k is not None for k in ks):
            r = eqn.primitive.bind(*[jnp.asarray(float(k)) for k in ks], **eqn.params)
            return lift(float(r))
        if name in ('floor', 'ceil', 'round', 'rem', 'nextafter'):
            raise Unsupported(name)
        return alg.opaque(name, xs)
    return [elementwise(f, *arrs)]


def rand_symbols(c, kind, key, n):
    """Symbols of one draw: JAX's bits depend on the key and the number of values, not on their arrangement."""
    tag = '_'.join(str(int(x)) for x in np.asarray(key).reshape(-1))
    if getattr(c, 'scan_sample', False) and n > 700:
        # one symbol for all the values in the middle: only used by steps that are not examined
        kw = dict(nonneg=True, lo=0, hi=1) if kind != 'normal' else {}
        p = 'z' if kind == 'normal' else 'u'
        mid = c.var(f'{p}[{tag}|{n}]mid', **kw)
        vs = [mid] * n
        for i in list(range(402)) + list(range(n - 201, n)):
            vs[i] = c.var(f'{p}[{tag}|{n}]{i}', **kw)
        return vs
    if kind == 'normal':
        return [c.var(f'z[{tag}|{n}]{i}') for i in range(n)]
    vs = [c.var(f'u[{tag}|{n}]{i}', nonneg=True, lo=0, hi=1) for i in range(n)]
    for v in vs:
        key2 = ('ult', frozenset(v.num.items()))
        if key2 not in c.cache:
            c.cache[key2] = True
            alg.assume('>', ONE - v)
    return vs


def _rand_hook(kind):
    def h(eqn, ins):
        c = Ctx.cur
        if not getattr(c, 'rand_symbolic', False):
            return None
        if is_sym(ins[0]):
            raise Unsupported('symbolic PRNG key')
        key = np.asarray(jax.random.key_data(ins[0]) if str(getattr(ins[0], 'dtype', '')).startswith('key') else ins[0])
        shape = tuple(eqn.outvars[0].aval.shape)
        batch = key.shape[:-1]
        if shape[:len(batch)] != batch:
            raise Unsupported('batched PRNG keys')
        each = shape[len(batch):]
        n = int(np.prod(each, dtype=int))
        if not hasattr(c, 'rand_draws'):
            c.rand_draws = []
        vs = []
        for k in key.reshape(-1, key.shape[-1]):
            c.rand_draws.append((kind, tuple(int(x) for x in k), n))
            vs += rand_symbols(c, kind, k, n)
        a = obj(shape, vs)
        if kind == 'uniform':
            lo, hi = to_obj(ins[1]), to_obj(ins[2])
            return [elementwise(lambda u, l, h_: l + u * (h_ - l), a, lo, hi)]
        return [a]
    return h


HOOKS['_uniform'] = _rand_hook('uniform')
HOOKS['_normal'] = _rand_hook('normal')
HOOKS['_normal_real'] = _rand_hook('normal')


def _expm_hook(eqn, ins):
    """exp(A) as its power series; exact under the truncation order of the context."""
    c = Ctx.cur
    A = to_obj(ins[0])
    if not is_sym(ins[0]):
        return None
    n = A.shape[-1]
    if A.ndim != 2:
        raise Unsupported('batched expm')
    T = np.empty((n, n), dtype=object)
    T[:] = ZERO
    for i in range(n):
        T[i, i] = ONE
    for eigs in getattr(c, 'expm_eigs', ()):
        # f(A) = sum_k f(l_k) prod_{j != k} (A - l_j)/(l_k - l_j) for distinct l_k annihilating A (checked)
        sh = [A - elementwise(lambda x: x * l, T) for l in eigs]
        R = T
        for M in sh:
            R = _matmul(R, M)
        if not all(x.is_zero() for x in R.reshape(-1)):
            continue
        S = elementwise(lambda x: ZERO * x, T)
        for k, l in enumerate(eigs):
            E = T
            for j, m in enumerate(eigs):
                if j != k:
                    E = _matmul(E, elementwise(lambda x: x / (l - m), sh[j]))
            f = alg.exp(l)
            S = elementwise(lambda x, y: x + f * y, S, E)
        c.contracts.add('expm(A) = sum_k exp(l_k) prod_{j!=k} (A - l_j)/(l_k - l_j) for distinct roots l_k of an annihilating polynomial')
        return [S]
    S = T.copy()
    K = max(c.trunc.values()) if c.trunc else 2 * n + 2
    for k in range(1, K + 2):
        T = _matmul(T, A)
        T = elementwise(lambda x: x / k, T)
        if all(x.is_zero() for x in T.reshape(-1)):
            c.contracts.add('expm(A) = sum_k A^k/k! (terminating or truncated at the stated order)')
            return [S]
        S = elementwise(lambda x, y: x + y, S, T)
    raise Unsupported('expm does not terminate within the truncation order')


HOOKS['expm'] = _expm_hook

_lit_cache = {}


def run_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if type(v) is core.Literal:
            return np.asarray(v.val)
        return env[v]

    def write(v, val):
        env[v] = val
    for v, x in zip(jaxpr.constvars, consts):
        write(v, x if is_sym(x) or isinstance(x, np.ndarray) else _np(x))
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, x in zip(jaxpr.invars, args):
        write(v, x)
    c = Ctx.cur
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        name = eqn.primitive.name
        anysym = any(is_sym(x) for x in ins)
        c.neqns += 1
        if c.deadline and c.neqns % 16 == 0:
            import time
            if time.time() > c.deadline:
                raise Budget('case time budget')
        if not anysym and name in ('pjit',) and eqn.params.get('name') in HOOKS and getattr(c, 'rand_symbolic', False):
            anysym = True
        if not anysym and name in ('pjit', 'scan', 'while', 'cond', 'custom_jvp_call', 'custom_vjp_call_jaxpr', 'uf') \
                and (getattr(c, 'rand_symbolic', False) or _has_uf(eqn)):
            anysym = True
        if not anysym:
            outs = _bind(eqn, ins)
        else:
            rule = PRIMS.get(name)
            if rule is None:
                raise Unsupported(f'primitive {name}')
            outs = rule(eqn, ins)
            c.prims[name] = c.prims.get(name, 0) + 1
            fixed = []
            for o, v in zip(outs, eqn.outvars):
                if is_sym(o):
                    k = np.dtype(v.aval.dtype).kind if str(v.aval.dtype)[:3] != 'key' else 'k'
                    if k in 'iu':
                        o = concretise(o).astype(v.aval.dtype)
                    elif k == 'b':
                        items = [o[()]] if o.shape == () else o.reshape(-1)
                        if all(isinstance(x, (bool, np.bool_)) for x in items):
                            o = np.array([bool(x) for x in items]).reshape(o.shape)
                if tuple(o.shape) != tuple(v.aval.shape):
                    o = np.broadcast_to(o, v.aval.shape)
                if c.cuts and is_sym(o) and name in CUT_PRIMS:
                    o = _apply_cuts(c, o)
                fixed.append(o)
            outs = fixed
        for v, o in zip(eqn.outvars, outs):
            if type(v) is not core.DropVar:
                write(v, o)
    return [read(v) for v in jaxpr.outvars]


CUT_PRIMS = {'dot_general', 'div', 'mul', 'add', 'sub', 'reduce_sum', 'reduce_prod', 'sqrt', 'integer_pow', 'pow',
             'exp', 'log', 'neg', 'cumsum', 'triangular_solve', 'custom_linear_solve', 'add_any', 'scatter-add'}


def _apply_cuts(c, o):
    changed = None
    flat = [o[()]] if o.shape == () else o.reshape(-1)
    for i, x in enumerate(flat):
        if isinstance(x, Rat) and (len(x.num) > 1 or x.den):
            for v, r in c.cuts.get(c.fp(x), ()):
                if v.same(x):
                    if changed is None:
                        changed = list(flat)
                    changed[i] = r
                    c.stats['cuts'] = c.stats.get('cuts', 0) + 1
                    break
    return o if changed is None else obj(o.shape, changed)


_uf_memo = {}


def _has_uf(eqn):
    def walk(j):
        j = getattr(j, 'jaxpr', j)
        if id(j) in _uf_memo and _uf_memo[id(j)][0] is j:
            return _uf_memo[id(j)][1]
        r = False
        for e in j.eqns:
            if e.primitive is uf_p:
                r = True
                break
            if _has_uf(e):
                r = True
                break
        _uf_memo[id(j)] = (j, r)
        return r
    if eqn.primitive is uf_p:
        return True
    for v in eqn.params.values():
        vs = v if isinstance(v, (tuple, list)) else [v]
        for x in vs:
            if hasattr(x, 'eqns') or hasattr(getattr(x, 'jaxpr', None), 'eqns'):
                if walk(x):
                    return True
    return False


def _np(x):
    if str(getattr(x, 'dtype', '')).startswith('key'):
        return x
    return np.asarray(x)


def _bind(eqn, ins):
    subfuns, params = eqn.primitive.get_bind_params(eqn.params)
    r = eqn.primitive.bind(*subfuns, *[jnp.asarray(x) if isinstance(x, np.ndarray) else x for x in ins], **params)
    rs = r if eqn.primitive.multiple_results else [r]
    return [_np(x) for x in rs]


# ------------------------------------------------------------------ tracing

class BoolFork(Exception):
    pass


class _TraceState:
    cur = None


class _TraceBools:
    """Fork Python branches on traced booleans (`if mean == 0.`)."""

    def __init__(self, plan):
        self.plan, self.rec = plan, []

    def __enter__(self):
        _TraceState.cur = self
        return self

    def __exit__(self, *a):
        _TraceState.cur = None


def _tracer_bool(self, _orig=core.Tracer.__bool__):
    st = _TraceState.cur
    if st is None:
        return _orig(self)
    if isinstance(self.aval, core.ConcreteArray):
        return _orig(self)
    i = len(st.rec)
    st.rec.append(self)
    return st.plan[i] if i < len(st.plan) else True


core.Tracer.__bool__ = _tracer_bool


def _has_sym(x):
    return isinstance(x, (Rat, Cx)) or (isinstance(x, np.ndarray) and x.dtype == object)


def trace_and_run(fn, args, kwargs):
    """Run fn(*args, **kwargs) symbolically; leaves of args that are Rat/object arrays are symbolic."""
    leaves, tree = jax.tree_util.tree_flatten((args, kwargs), is_leaf=lambda x: _has_sym(x))
    leaves = [jnp.asarray(x) if isinstance(x, np.ndarray) and x.dtype.kind in 'fc' else x for x in leaves]
    symidx = [i for i, x in enumerate(leaves) if _has_sym(x)]
    symvals = []
    structs = []
    for i in symidx:
        x = leaves[i]
        if not isinstance(x, np.ndarray):
            x = obj((), [x])
        x = elementwise(lift, x) if any(not isinstance(v, (Rat, Cx)) for v in x.reshape(-1)) else x
        cplx = any(isinstance(v, Cx) for v in x.reshape(-1))
        symvals.append(x)
        structs.append(jax.ShapeDtypeStruct(x.shape, 'complex128' if cplx else 'float64'))
    c = Ctx.cur
    plan = []
    while True:
        box = {}
        with _TraceBools(plan) as st:
            def g(*sv):
                ls = list(leaves)
                for k, i in enumerate(symidx):
                    ls[i] = sv[k]
                a, kw = jax.tree_util.tree_unflatten(tree, ls)
                r = fn(*a, **kw)
                fl, tr = jax.tree_util.tree_flatten(r)
                box['tree'] = tr
                box['static'] = [x if not isinstance(x, (core.Tracer, jax.Array, np.ndarray, float, int, complex,
                                                         np.generic)) else None for x in fl]
                fl = [jnp.asarray(x) if s is None else jnp.asarray(0.) for x, s in zip(fl, box['static'])]
                box['n'] = len(fl)
                return fl + [jnp.asarray(b) for b in st.rec]
            try:
                closed = jax.make_jaxpr(g)(*structs)
            except core.UnexpectedTracerError as e:
                raise Unsupported('python branch on an inner traced value') from e
        c.ntraces += 1
        outs = run_jaxpr(closed.jaxpr, closed.consts, symvals)
        res, bools = outs[:box['n']], outs[box['n']:]
        # resolve the python branches in order
        redo = False
        newplan = []
        for k, b in enumerate(bools):
            v = b[()] if isinstance(b, np.ndarray) else b
            took = plan[k] if k < len(plan) else True
            truth = force(v)
            newplan.append(truth)
            if truth != took:
                redo = True
                break
        if not redo:
            break
        plan = newplan
        if len(plan) > 64:
            raise Unsupported('too many python branches')
    res = [r if is_sym(r) else to_obj(r) for r in res]
    return jax.tree_util.tree_unflatten(box['tree'], res)


# ------------------------------------------------------------------ eager mode (Python-level symbolic execution)

def _any_sym(x):
    return any(_has_sym(v) for v in jax.tree_util.tree_leaves(x, is_leaf=_has_sym))


class Shim:
    """Stands for a jax / jax.numpy / math module inside the code under test: calls on symbolic values are traced and
    executed symbolically, everything else goes to the real module."""

    def __init__(self, mod):
        object.__setattr__(self, '_mod', mod)

    def __getattr__(self, name):
        v = getattr(self._mod, name)
        if isinstance(v, type(jax)):
            return Shim(v)
        if isinstance(v, type) or not callable(v):
            return v
        return _eager(v, self._mod)


_MATH = {'sqrt': alg.sqrt, 'exp': alg.exp, 'log': alg.log, 'sin': alg.sin, 'cos': alg.cos}


def _eager(f, mod=None):
    def w(*a, **k):
        if _any_sym((a, k)):
            if mod is math:
                g = _MATH.get(f.__name__)
                if g is None:
                    raise Unsupported(f'math.{f.__name__} of a symbolic value')
                return g(*a)
            return trace_and_run(f, a, k)
        r = f(*a, **k)
        return _eager(r) if callable(r) and not isinstance(r, type) else r
    w.__name__ = getattr(f, '__name__', 'f')
    return w


class NpShim:
    """numpy whose float allocations can hold symbolic values."""

    def __getattr__(self, k):
        f = getattr(np, k)
        if k in ('zeros', 'ones', 'empty', 'full'):
            def alloc(*a, **kw):
                r = f(*a, **kw)
                return to_obj(np.nan_to_num(r) if k == 'empty' else r) if r.dtype.kind == 'f' else r
            return alloc
        if k in ('zeros_like', 'ones_like', 'empty_like'):
            def like(a, *r, **kw):
                a = np.asarray(a)
                o = f(np.zeros(a.shape) if a.dtype == object else a, *r, **kw)
                return to_obj(np.nan_to_num(o) if k == 'empty_like' else o) if o.dtype.kind == 'f' else o
            return like
        return f


def run_eager(fn, args, kwargs, alloc=False):
    import sys
    saved = []
    mods = (jax, jnp, jax.lax, jax.scipy, jax.random, math)
    try:
        for name, m in list(sys.modules.items()):
            if name.split('.')[0] != 'mfs' or m is None:
                continue
            for k, v in list(vars(m).items()):
                if isinstance(v, type(jax)) and (v in mods or v.__name__.startswith('jax')):
                    saved.append((m, k, v))
                    setattr(m, k, Shim(v))
                elif alloc and v is np:
                    saved.append((m, k, v))
                    setattr(m, k, NpShim())
        r = fn(*args, **kwargs)
    finally:
        for m, k, v in saved:
            setattr(m, k, v)
    return jax.tree_util.tree_map(lambda x: x if _has_sym(x) else (to_obj(np.asarray(x)) if isinstance(
        x, (jax.Array, np.ndarray, float, int, np.generic)) else x), r, is_leaf=_has_sym)
