"""Development aid: a second set of behaviour-preserving edits, on sources normalised by ast.unparse (no check uses this).
python3 tools/refactor2.py COPY"""
import ast, glob, sys
R = sys.argv[1]
for f in glob.glob(R + '/mfs/**/*.py', recursive=True):
    t = ast.unparse(ast.parse(open(f).read())) + '\n'
    open(f, 'w').write(t)
C = 'mfs/classical_filters_smoothers/'
E = [
 (C + 'gfs.py', "    z = jax.scipy.linalg.solve_triangular(chol, x - mu, lower=True)\n    return -0.5 * (jnp.dot(z, z) + 2 * jnp.sum(jnp.log(math.sqrt(2 * math.pi) * jnp.diagonal(chol))))",
  "    z = jnp.linalg.solve(chol, x - mu)\n    n = chol.shape[0]\n    return -0.5 * jnp.sum(z * z) - jnp.sum(jnp.log(jnp.diag(chol))) - 0.5 * n * math.log(2 * math.pi)"),
 (C + 'gfs.py', "        K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T\n", "        K = jnp.linalg.solve(S, H @ vp).T\n"),
 (C + 'gfs.py', "    c, low = jax.scipy.linalg.cho_factor(vp)\n    G = jax.scipy.linalg.cho_solve((c, low), DT).T\n", "    G = jax.scipy.linalg.solve(vp, DT, assume_a='pos').T\n"),
 (C + 'gfs.py', "    K = jax.scipy.linalg.cho_solve((chol, True), C.T).T\n", "    tmp = jax.scipy.linalg.solve_triangular(chol, C.T, lower=True)\n    K = jax.scipy.linalg.solve_triangular(chol, tmp, lower=True, trans=1).T\n"),
 (C + 'gfs.py', "    return (F @ m, F @ P @ F.transpose() + Sigma)", "    FP = jnp.einsum('ij,jk->ik', F, P)\n    return (jnp.einsum('ij,j->i', F, m), jnp.einsum('ik,lk->il', FP, F) + Sigma)"),
 (C + 'gfs.py', "    _, (mfs, vfs, n_ell) = jax.lax.scan(scan_body, (m0, v0, 0.0), ys)\n    return (mfs, vfs, n_ell)",
  "    def step(carry, y):\n        new, _ = scan_body(carry, y)\n        return new, new\n    return jax.lax.scan(step, (m0, v0, 0.0), ys)[1]"),
 ('mfs/one_dim/quadtures.py', "    R = ldl_chol(G) if ldl else jax.lax.linalg.cholesky(G)\n    K = jax.lax.linalg.triangular_solve(R, jax.lax.linalg.triangular_solve(R, H, left_side=True, lower=True), left_side=False, lower=True, transpose_a=True)\n    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)\n",
  "    if ldl:\n        R = ldl_chol(G)\n    else:\n        R = jnp.linalg.cholesky(G)\n    Y = jax.scipy.linalg.solve_triangular(R, H, lower=True)\n    K = jax.scipy.linalg.solve_triangular(R, Y.T, lower=True).T\n    if sort_nodes:\n        eigen_vals, eigen_vectors = jnp.linalg.eigh(K)\n    else:\n        eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=False)\n"),
 ('mfs/one_dim/moments.py', "        return jax.lax.cond(n >= j, lambda _: bn_coeffs[n, j] * cms[j] * mean ** (n - j), lambda _: 0.0, 0.0)\n    return jnp.sum(summand(inds, inds), axis=1)",
  "        return jnp.where(n >= j, bn_coeffs[n, j] * cms[j] * mean ** jnp.maximum(n - j, 0), 0.0)\n    return jnp.sum(summand(inds, inds), axis=1)"),
 ('mfs/one_dim/moments.py', "    s = rms.shape[0]\n    inds = jnp.arange(s)\n    bn_coeffs = _make_pascal_triangle(s)\n", "    s = rms.shape[0]\n    if s > 0:\n        return jnp.stack([sum([math.comb(n, j) * (-rms[1]) ** (n - j) * rms[j] for j in range(n + 1)]) for n in range(s)])\n    inds = jnp.arange(s)\n    bn_coeffs = _make_pascal_triangle(s)\n"),
 (C + 'resampling.py', "    idx = jnp.searchsorted(jnp.cumsum(weights), _sorted_uniforms(n, key))\n", "    idx = jnp.sum(jnp.cumsum(weights)[None, :] < _sorted_uniforms(n, key)[:, None], axis=1)\n"),
 (C + 'brute_force.py', "        return jnp.trapz(jax.scipy.stats.norm.pdf(x, m, scale) * ps, xs)", "        v = jnp.exp(jax.scipy.stats.norm.logpdf(x, m, scale)) * ps\n        return 0.5 * jnp.sum((v[1:] + v[:-1]) * jnp.diff(xs))"),
 (C + 'brute_force.py', "        return jax.lax.scan(body, ps, jnp.arange(integration_steps))[0]\n\n    def pred_chapman", "        return jax.lax.fori_loop(0, integration_steps, lambda i, q: euler(q), ps)\n\n    def pred_chapman"),
 (C + 'brute_force.py', "        ps = measurement_cond_pdf(y, xs) * ps / jnp.trapz(measurement_cond_pdf(y, xs) * ps, xs)\n", "        ps = measurement_cond_pdf(y, xs) * ps\n        ps = ps / jnp.trapz(ps, xs)\n"),
 ('mfs/utils.py', "    _, (vs, alphas, betas) = jax.lax.scan(scan_body, (v0, w0), jnp.arange(m - 1))\n    return (jnp.vstack([v0, vs]).T, jnp.hstack([alpha0, alphas]), betas)",
  "    carry, vs, alphas, betas = ((v0, w0), [v0], [alpha0], [])\n    for _ in range(m - 1):\n        carry, (v, al, be) = scan_body(carry, None)\n        vs.append(v)\n        alphas.append(al)\n        betas.append(be)\n    return (jnp.stack(vs, axis=1), jnp.stack(alphas), jnp.array(betas))"),
 ('mfs/utils.py', "    htt_logpdf_transition = jax.vmap(jax.hessian(logpdf_transition, argnums=0), in_axes=[0, 0])", "    htt_logpdf_transition = jax.vmap(jax.jacrev(jax.grad(logpdf_transition, argnums=0), argnums=0), in_axes=[0, 0])"),
 ('mfs/utils.py', "            x = m + jax.lax.linalg.cholesky(cov) @ normal_inc", "            x = m + jnp.dot(jnp.linalg.cholesky(cov), normal_inc)"),
 ('mfs/utils.py', "    phi = jnp.vstack([jnp.hstack([A, B @ B.T]), jnp.hstack([jnp.zeros_like(A), -A.T])])\n", "    phi = jnp.block([[A, B @ B.T], [jnp.zeros_like(A), -A.T]])\n"),
 ('mfs/utils.py', "    l = jnp.eye(n).at[1:, 0].set(mat[1:, 0] / mat[0, 0])\n    d = jnp.ones((n,)) * mat[0, 0]\n", "    l = jnp.eye(n)\n    l = l.at[1:, 0].set(mat[1:, 0] / mat[0, 0])\n    d = jnp.full((n,), mat[0, 0])\n"),
 ('mfs/utils.py', "        eps = 1e-08 * jnp.linalg.norm(mat, 'fro')", "        eps = 1e-08 * jnp.sqrt(jnp.sum(mat ** 2))"),
 ('mfs/utils.py', "        scms = cms / jnp.sqrt(variance) ** jnp.arange(2 * N)", "        scale = jnp.sqrt(variance)\n        scms = jnp.stack([cms[p] / scale ** p for p in range(2 * N)])"),
 ('mfs/multi_dims/quadratures.py', "    weights = jnp.prod(jnp.einsum('ijk,ijk->ik', combs_eigvectors[:, :, :-1], combs_eigvectors[:, :, 1:]), axis=1) * combs_eigvectors[:, 0, 0] * combs_eigvectors[:, 0, -1]",
  "    weights = combs_eigvectors[:, 0, 0] * combs_eigvectors[:, 0, -1]\n    for k in range(d - 1):\n        weights = weights * jnp.sum(combs_eigvectors[:, :, k] * combs_eigvectors[:, :, k + 1], axis=1)"),
 ('mfs/multi_dims/quadratures.py', "    Ks = orthonormalisation(Hs)", "    Ks = jnp.stack([orthonormalisation(Hs[k:k + 1])[0] for k in range(d)])"),
 ('mfs/multi_dims/multi_indices.py', "    if not np.any(multi_index[1:]):", "    if all(v == 0 for v in multi_index[1:]):"),
 ('mfs/multi_dims/multi_indices.py', "    for i in range(1, z):\n        multi_indices[i, :] = _next_graded_lexico_multi_index(multi_indices[i - 1, :])", "    i = 1\n    while i < z:\n        multi_indices[i] = _next_graded_lexico_multi_index(multi_indices[i - 1])\n        i += 1"),
 ('mfs/one_dim/pdf_approximations.py', "    smgf = jnp.einsum('i,i', smgf_coeffs, ms)", "    smgf = jnp.vdot(smgf_coeffs, ms)"),
 ('mfs/one_dim/pdf_approximations.py', "    return jnp.real(jnp.trapz(jnp.exp(-1j * x * zs) * cfs, zs)) / (2 * math.pi)", "    v = jnp.cos(x * zs) * jnp.real(cfs) + jnp.sin(x * zs) * jnp.imag(cfs)\n    return jnp.trapz(v, zs) / (2 * math.pi)"),
 (C + 'quadratures.py', "        xi = math.sqrt(d) * jnp.concatenate([jnp.eye(d), -jnp.eye(d)], axis=0)", "        xi = jnp.kron(jnp.array([[1.0], [-1.0]]), math.sqrt(d) * jnp.eye(d))"),
 (C + 'quadratures.py', "        hermite_roots = np.flip(np.roots(hermite_coeff[-1]))\n", "        hermite_roots = np.sort(np.roots(hermite_coeff[-1]).real)\n"),
 (C + 'smc.py', "        nell -= jnp.log(jnp.mean(weights))\n", "        nell = nell + jnp.log(weights.shape[0]) - jnp.log(jnp.sum(weights))\n"),
 ('mfs/multi_dims/filtering.py', "        return jnp.prod(((x - mean) / scale) ** multi_index) * measurement_cond_pdf(y, x)", "        z = (x - mean) / scale\n        out = measurement_cond_pdf(y, x)\n        for k in range(d):\n            out = out * z[k] ** multi_index[k]\n        return out"),
 ('mfs/one_dim/filtering.py', "        return ((x - mean) / scale) ** n * measurement_cond_pdf(y, x)", "        return jnp.power((x - mean) / scale, n) * measurement_cond_pdf(y, x)"),
]
n = 0
for f, a, b in E:
    s = open(f'{R}/{f}').read()
    if a not in s:
        print('does not apply', f, repr(a[:80]))
        continue
    open(f'{R}/{f}', 'w').write(s.replace(a, b))
    n += 1
print(n, 'edits')
