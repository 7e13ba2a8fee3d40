"""Development aid: behaviour-preserving edits of a copy of the repository (no check uses this).
python3 tools/refactor.py COPY [BATCH]   applies the edits of a batch (1, 2 or all) and reports those that do not apply."""
import sys
R = sys.argv[1]
batch = sys.argv[2] if len(sys.argv) > 2 else 'all'
E = []


def e(b, f, old, new):
    E.append((b, f, old, new))


Q1 = 'mfs/one_dim/quadtures.py'
e(1, Q1, "    inds = jnp.arange(n)[:, None] + jnp.arange(n)[None, :]\n", "    r = jnp.arange(n)\n    inds = jnp.add.outer(r, r) if hasattr(jnp.add, 'outer') else r.reshape(-1, 1) + r.reshape(1, -1)\n")
e(1, Q1, "    n = math.floor(ms.shape[0] / 2)\n", "    n = ms.shape[0] // 2\n")
e(1, Q1, "    result = derivative_funcs[0](mean, *operands)\n    for r in range(1, order + 1):\n        result += derivative_funcs[r](mean, *operands) * cms[r] / math.factorial(r)\n    return result",
  "    terms = [g(mean, *operands) * (1. if r == 0 else cms[r] / math.factorial(r)) for r, g in enumerate(derivative_funcs)]\n    return sum(terms[1:], terms[0])")
F1 = 'mfs/one_dim/filtering.py'
e(1, F1, "        rms = jnp.einsum('ij,i->j', state_cond_raw_moments(nodes, moment_powers), weights)", "        rms = weights @ state_cond_raw_moments(nodes, moment_powers)")
e(2, F1, "    (_, nell_ys), rmss = jax.lax.scan(scan_body, (rms0, 0.), ys)\n",
  "    carry, outs = (rms0, 0.), []\n    for t in range(ys.shape[0]):\n        carry, o = scan_body(carry, ys[t])\n        outs.append(o)\n    nell_ys, rmss = carry[1], jnp.stack(outs)\n")
Q2 = 'mfs/multi_dims/quadratures.py'
e(1, Q2, "    inds = d * [[i for i in range(n)]]\n    return np.asarray(tuple(itertools.product(*inds)), dtype='int64')",
  "    return np.array(list(itertools.product(range(n), repeat=d)), dtype='int64').reshape(-1, d)")
e(2, Q2, "        return jnp.diagonal(x.T[inds], axis1=1, axis2=2)", "        return jnp.stack([x[k][inds[:, k]] for k in range(x.shape[0])], axis=1)")
M2 = 'mfs/multi_dims/multi_indices.py'
e(1, M2, "    base_pos = sizeof_multi_indices(d, total_sum - 1, 0)\n    pos = base_pos\n", "    pos = sizeof_multi_indices(d, total_sum - 1)\n")
e(2, M2, "    for i in range(d):\n        gram_multi_indices[:, :, i] += 1\n        inds[i + 1] = find_indices(gram_multi_indices)\n        gram_multi_indices[:, :, i] -= 1\n",
  "    for i, unit in enumerate(np.eye(d, dtype='int64')):\n        inds[i + 1] = find_indices(gram_multi_indices + unit)\n")
C = 'mfs/classical_filters_smoothers/'
e(1, C + 'quadratures.py', "        w = jnp.ones(shape=(n_points,)) / n_points\n", "        w = jnp.full((n_points,), 1. / n_points)\n")
e(1, C + 'quadratures.py', "        return m + jnp.einsum('ij,...j->...i', chol_of_v, self.xi)", "        return m + self.xi @ chol_of_v.T")
e(1, C + 'quadratures.py', "        return jnp.einsum('i,i...->...', self.w, evals_of_integrand)", "        return jnp.tensordot(self.w, evals_of_integrand, axes=1)")
e(2, C + 'resampling.py', "    idx = jnp.searchsorted(jnp.cumsum(weights),\n", "    cdf = jnp.cumsum(weights)\n    idx = jnp.searchsorted(cdf,\n")
e(1, C + 'resampling.py', "    xs, ws = samples[idx], weights[idx]\n", "    xs = jnp.take(samples, idx)\n    ws = jnp.take(weights, idx)\n")
e(1, C + 'smc.py', "        weights = weights / weights.sum()\n        _key, _ = jax.random.split(_key)\n        if conti", "        total = jnp.sum(weights)\n        _key = jax.random.split(_key)[0]\n        weights = weights / total\n        if conti")
U = 'mfs/utils.py'
e(1, U, "    cov = AB[0:d, :] @ F.T\n", "    cov = jnp.matmul(AB[:d], F.T)\n")
e(1, U, "    return jnp.einsum('ij,j->ij', l, jnp.where(d < 0, eps, jnp.sqrt(d)))", "    return l * jnp.where(d >= 0, jnp.sqrt(d), eps)[None, :]")
e(2, U, "        return sum([partial_bell(n, k, xs) for k in range(1, n + 1)])", "        total = partial_bell(n, 1, xs)\n        for k in range(2, n + 1):\n            total = total + partial_bell(n, k, xs)\n        return total")
e(2, U, "        return x * hermite_probabilist(n - 1, x) - (n - 1) * hermite_probabilist(n - 2, x)", "        a, b = 1., x\n        for k in range(1, n):\n            a, b = b, x * b - k * a\n        return b")
e(1, U, "        return jnp.sum(pdfs * self.weights[None, :], axis=1)", "        return pdfs @ self.weights")
e(1, U, "        x, _ = jax.lax.scan(integration_body, x, normal_inc)\n        return x, x", "        x = jax.lax.scan(integration_body, x, normal_inc)[0]\n        return x, x")
e(2, U, "        j = d22 - d12.T @ jnp.linalg.solve(j + d11, d12)\n", "        info = j + d11\n        j = d22 - d12.T @ (jnp.linalg.inv(info) @ d12)\n")
e(2, U, "        beta = jnp.sqrt(jnp.sum(w ** 2))\n", "        beta = jnp.linalg.norm(w)\n")
e(1, U, "        return jax.vmap(select_func, in_axes=(0, None))(jnp.arange(len(funcs)), x)", "        return jnp.stack([jnp.asarray(f(x)) for f in funcs])")
MO = 'mfs/one_dim/moments.py'
e(1, MO, "    return sms * jnp.array([scale ** n for n in range(sms.shape[0])])", "    return sms * scale ** jnp.arange(sms.shape[0])")
e(2, MO, "        return math.factorial(p) / (2 ** (p / 2) * math.factorial(int(p / 2)))", "        return float(math.prod(range(1, p, 2)))")
e(1, MO, "    return jnp.dot(jnp.exp(1.j * z * nodes), weights)", "    return jnp.sum(weights * jnp.exp(1.j * (z * nodes)))")
P = 'mfs/one_dim/pdf_approximations.py'
e(1, P, "        return base_func(x) * sum(z)\n", "        total = z[0]\n        for term in z[1:]:\n            total = total + term\n        return total * base_func(x)\n")
e(2, P, "        return 1 / jnp.sqrt(2 * math.pi * variance) * jnp.exp(-(x - mean) ** 2 / 2 / variance)", "        return jax.scipy.stats.norm.pdf(x, mean, jnp.sqrt(variance))")
MM = 'mfs/multi_dims/moments.py'
e(1, MM, "    multi_indices = np.zeros((2 * N, d), dtype='int64')\n    multi_indices[:, var_axis] = np.arange(2 * N)\n", "    multi_indices = np.outer(np.arange(2 * N), np.eye(d, dtype='int64')[var_axis])\n")
e(2, MM, "    for i in range(d):\n        for j in range(d):\n            multi_index = [0] * d\n            multi_index[i] = 1\n            multi_index[j] += 1\n            cov[..., i, j] = extract_moments(ms, multi_index)\n",
  "    for i in range(d):\n        for j in range(i, d):\n            multi_index = [int(k == i) + int(k == j) for k in range(d)]\n            cov[..., i, j] = cov[..., j, i] = extract_moments(ms, multi_index)\n")
e(1, 'mfs/one_dim/ss_models.py', "        return 1 / (1 + jnp.exp(-x ** 3 / 5))", "        return jax.nn.sigmoid(x ** 3 / 5)")
e(2, 'mfs/one_dim/ss_models.py', "        return jnp.log(1. + jnp.exp(p * x))", "        return jnp.log1p(jnp.exp(p * x))")
e(2, 'mfs/multi_dims/ss_models.py', "        return jnp.diag(sigma * x)", "        return sigma * x[:, None] * jnp.eye(2)")
F2 = 'mfs/multi_dims/filtering.py'
e(1, F2, "        nell -= jnp.log(pdf_y)\n        return (rms, nell), rms", "        return (rms, nell - jnp.log(pdf_y)), rms")
e(2, C + 'gfs.py', "        vp = jac_F @ vf @ jac_F.T + Sigma\n        mf, vf, n_ell_inc", "        vp = Sigma + jnp.linalg.multi_dot([jac_F, vf, jac_F.T])\n        mf, vf, n_ell_inc")
ok = 0
for b, f, old, new in E:
    if batch not in ('all', str(b)):
        continue
    p = f'{R}/{f}'
    s = open(p).read()
    if old not in s:
        print('does not apply:', f, repr(old[:70]))
        continue
    open(p, 'w').write(s.replace(old, new))
    ok += 1
print(ok, 'edits')
