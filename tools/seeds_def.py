SEEDS = {}
FILT = 'mfs/one_dim/filtering.py'

SEEDS['s01-scms-nell-pred-weights'] = ('C03', FILT, [(
"""        scms = jnp.einsum('ij,i->j',
                          unnormalised_posterior_moment_integrand(y, nodes, orders, mean, scale),
                          weights) / pdf_y
        nell -= jnp.log(pdf_y)
""",
"""        scms = jnp.einsum('ij,i->j',
                          unnormalised_posterior_moment_integrand(y, nodes, orders, mean, scale),
                          weights) / pdf_y
        nell = -jnp.log(pdf_y) + jnp.where(nell > 0, nell, 0.)
""")], 'a measurement sequence whose running negative log-likelihood goes negative (densities above one)',
 'the scaled-moment filter drops the accumulated negative log-likelihood whenever it is not positive', '''
from mfs.one_dim.filtering import moment_filter_scms, moment_filter_rms
from mfs.one_dim.moments import raw_moment_of_normal, central_moment_of_normal, raw_to_scaled

from mfs.one_dim.filtering import moment_filter_cms
N = 2
m0, v0, q, r = 0., 1., 0.01, 0.02
A = 0.9


def pdf(y, x):
    return jax.scipy.stats.norm.pdf(y, x, math.sqrt(r))


def cm(x, p, mean):
    return jnp.stack([raw_moment_of_normal(A * x - mean, q, k) for k in range(2 * N)], -1)


cms0 = jnp.array([central_moment_of_normal(1., k) for k in range(2 * N)])
ys = jnp.array([0.93, 0.86, 0.8])
*_, n1 = moment_filter_cms(cm, lambda x: A * x, pdf, cms0, m0, ys)
*_, n2 = moment_filter_scms(lambda x, p, m, s: cm(x, p, m) / s ** p, lambda x: (A * x, jnp.full_like(x, 1.)), pdf, cms0, m0, 1., ys)
assert float(n1) < 0
close(n1, n2, 1e-5)
''')

SEEDS['s02-ldl-chol-tiny-pivot'] = ('C15', 'mfs/utils.py', [(
"jnp.where(d < 0, eps, jnp.sqrt(d))", "jnp.where(d < eps, eps, jnp.sqrt(d))")],
 'a positive definite matrix with a pivot below 1e-8 times its norm',
 'small positive pivots are replaced although the matrix is positive definite', '''
from mfs.utils import ldl_chol
A = np.array([[1e4, 0.], [0., 1e-6]])
L = np.asarray(ldl_chol(jnp.asarray(A)))
close(L @ L.T, A, 1e-9)
assert abs(L[1, 1] ** 2 / 1e-6 - 1) < 1e-6
''')

SEEDS['s03-rts-gain-covariance'] = ('C09', 'mfs/classical_filters_smoothers/gfs.py', [(
"    vs = vf + G @ (vs - vp) @ G.T\n", "    vs = vf + G.T @ (vs - vp) @ G\n")],
 'a non-symmetric smoothing gain (state dimension at least two)',
 'smoothing covariances are wrong for models with a non-symmetric gain', '''
from mfs.classical_filters_smoothers.gfs import kf, rts
F = np.array([[1., .5], [-.2, .9]]); Q = np.array([[.3, .1], [.1, .2]]); H = np.array([[1., 0.3]]); R = np.array([[.5]])
m0 = np.array([.1, -.2]); P0 = np.array([[1., .2], [.2, .7]])
ys = np.array([[.3], [-.4]])
ms, vs, _ = kf(*map(jnp.asarray, (F, Q, H, R, m0, P0, ys)))
sm, sv = rts(jnp.asarray(F), jnp.asarray(Q), ms, vs)
P1 = F @ P0 @ F.T + Q
K = np.block([[P1, P1 @ F.T], [F @ P1, F @ P1 @ F.T + Q]])
HH = np.block([[H, 0 * H], [0 * H, H]])
S = HH @ K @ HH.T + np.kron(np.eye(2), R)
post = K - K @ HH.T @ np.linalg.solve(S, HH @ K)
close(sv[0], post[:2, :2])
''')

SEEDS['s04-nd-nell-floor'] = ('C04', 'mfs/multi_dims/filtering.py', [(
'''                         unnormalised_posterior_moment_integrand(y, nodes, multi_indices),
                         weights) / pdf_y
        nell -= jnp.log(pdf_y)
''', '''                         unnormalised_posterior_moment_integrand(y, nodes, multi_indices),
                         weights) / pdf_y
        nell -= jnp.log(jnp.maximum(pdf_y, 1e-10))
''')], 'an outlying measurement whose predictive density is below 1e-10',
 'the negative log-likelihood of the raw-moment multi-dimensional filter is truncated', '''
from mfs.multi_dims.filtering import moment_filter_nd_rms
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
d, N = 2, 2
mi = generate_graded_lexico_multi_indices(d, 2 * N - 1, 0)
inds = gram_and_hankel_indices_graded_lexico(N, d)
pts = np.array([[0., 0.], [1., .2], [-.3, .8], [.5, -.6]]); w = np.array([.3, .3, .2, .2])
ms = np.array([np.sum(w * np.prod(pts ** np.asarray(k), axis=1)) for k in np.asarray(mi)])
dirac = lambda x, p: jnp.stack([jnp.prod(x ** k, axis=-1) for k in jnp.asarray(mi)], -1)
c = 1e-14
run = lambda c: moment_filter_nd_rms((dirac, 'multi-index'), lambda y, x: c * jnp.exp(-jnp.sum((x - y) ** 2)),
                                     jnp.array([0.3, 0.1]), (jnp.asarray(mi), inds), jnp.asarray(ms))
m1, n1 = run(1.)
m2, n2 = run(c)
close(m1, m2)
close(n2, n1 - 2 * math.log(c))
''')


SEEDS['s05-quad-zero-mean-scale'] = ('C01', 'mfs/one_dim/quadtures.py', [(
"""                                        left_side=False, lower=True, transpose_a=True)

    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)

    return eigen_vectors[0, :] ** 2, scale * eigen_vals + mean
""",
"""                                        left_side=False, lower=True, transpose_a=True)

    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)

    return eigen_vectors[0, :] ** 2, jnp.where(mean == 0., eigen_vals, scale * eigen_vals + mean)
""")], 'scaled central moments of a distribution whose mean is exactly zero and whose scale is not one',
 'the nodes stay in standardised coordinates', '''
from mfs.one_dim.quadtures import moment_quadrature
ms = jnp.array([1., 0., 1., 0., 3., 0.])
w, x = moment_quadrature(ms, 0., 2.)
close(jnp.sum(w * x ** 2), 4.)
w, x = moment_quadrature(ms, 0.5, 2.)
close(jnp.sum(w * (x - 0.5) ** 2), 4.)
''')

SEEDS['s06-nd-weights-third-axis'] = ('C02', 'mfs/multi_dims/quadratures.py', [(
"              * combs_eigvectors[:, 0, 0] * combs_eigvectors[:, 0, -1]",
"              * combs_eigvectors[:, 0, 0] * combs_eigvectors[:, 0, min(d, 2) - 1]")],
 'three or more dimensions', 'the end factor of the weights is taken from the second instead of the last coordinate', '''
from mfs.multi_dims.quadratures import moment_quadrature_nd
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
from mfs.multi_dims.moments import raw_moments_mvn_kan
N, d = 2, 3
mi = generate_graded_lexico_multi_indices(d, 2 * N - 1, 0)
cov = np.array([[1., 0.3, 0.2], [0.3, 1.2, -0.4], [0.2, -0.4, 0.8]])
m = np.array([0.2, -0.3, 0.5])
ms = np.array([raw_moments_mvn_kan(m, cov, k) for k in mi])
w, x = moment_quadrature_nd(jnp.asarray(ms), gram_and_hankel_indices_graded_lexico(N, d))
close(np.array([np.sum(np.asarray(w) * np.prod(np.asarray(x) ** k, axis=1)) for k in mi]), ms)
''')

SEEDS['s07-extract-cov-5d'] = ('C05', 'mfs/multi_dims/moments.py', [(
"""            multi_index[i] = 1
            multi_index[j] += 1
            cov[..., i, j]""",
"""            multi_index[i] = 1
            multi_index[j if j < 3 else d - 1] += 1
            cov[..., i, j]""")],
 'covariance extraction in five or more dimensions', 'columns from the fourth on of the covariance are those of the last variable', '''
from mfs.multi_dims.moments import extract_cov
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
d = 5
t = generate_graded_lexico_multi_indices(d, 3)
x = np.array([0.5, -1., 2., 3., 7.])
ms = np.prod(x ** t, axis=1)
close(extract_cov(ms, d), np.outer(x, x))
''')

SEEDS['s08-central-to-raw-negative-mean'] = ('C06', 'mfs/one_dim/moments.py', [(
"lambda _: bn_coeffs[n, j] * cms[j] * mean ** (n - j),",
"lambda _: bn_coeffs[n, j] * cms[j] * jnp.sign(mean) ** (n % 2) * jnp.abs(mean) ** (n - j),")],
 'a negative mean and a central moment of odd order that is not zero', 'raw moments of asymmetric distributions with a negative mean get a wrong sign', '''
from mfs.one_dim.moments import central_to_raw, raw_to_central
w, x = np.array([0.2, 0.5, 0.3]), np.array([-2., -0.7, 0.4])
rms = jnp.array([np.sum(w * x ** k) for k in range(6)])
close(central_to_raw(raw_to_central(rms), rms[1]), rms)
''')

SEEDS['s09-sampler-antithetic'] = ('C07', 'mfs/utils.py', [(
"        return self.means[cs] + jnp.sqrt(self.variances[cs]) * jax.random.normal(key, (n,))",
"        half = jax.random.normal(key, ((n + 1) // 2,))\n        return self.means[cs] + jnp.sqrt(self.variances[cs]) * jnp.concatenate([half, -half])[:n]")],
 'the joint distribution of two draws of one call', 'the second half of the draws of a scalar mixture reuses the noise of the first half (antithetically)', '''
from mfs.utils import GaussianSum1D
gs = GaussianSum1D.new(jnp.array([0.]), jnp.array([1.]), jnp.array([1.]))
z = np.asarray(gs.sampler(jax.random.PRNGKey(3), 400))
assert len(np.unique(np.abs(z))) == 400
assert abs(np.mean(z[:200] * z[200:])) < 0.3
''')

SEEDS['s10-euler-variance-correlated-noise'] = ('C08', 'mfs/multi_dims/moments.py', [(
"        return x + drift(x) * dt, jnp.diagonal(b @ b.T) * dt",
"        return x + drift(x) * dt, jnp.sum(b, axis=1) ** 2 * dt")],
 'a dispersion matrix with a row holding two nonzero entries', 'the conditional variance sums the noise amplitudes instead of their squares', '''
from mfs.multi_dims.moments import sde_cond_moments_euler_maruyama
B = jnp.array([[0.5, 0.3], [-0.2, 0.7]])
*_, mv = sde_cond_moments_euler_maruyama(lambda x: -x, lambda x: B, 0.1, np.array([[0, 0], [0, 1], [1, 0]]))
m, v = mv(jnp.array([[0.3, -0.4]]))
close(v[0], jnp.diagonal(B @ B.T) * 0.1)
''')

SEEDS['s11-cd-sgp-smoother-asymmetric'] = ('C10', 'mfs/classical_filters_smoothers/gfs.py', [(
"        return _m + G.T @ (m - mf), _P + G.T @ v + v @ G - 2 * gamma",
"        return _m + G.T @ (m - mf), _P + G @ v + v @ G.T - 2 * gamma")],
 'a two dimensional state whose filtering covariance does not commute with the diffusion matrix',
 'the smoothing covariance of the continuous-discrete sigma-point smoother uses the transposed gain', '''
from mfs.classical_filters_smoothers.gfs import cd_sgp_smoother, cd_eks
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
A = jnp.array([[-0.3, 0.4], [0.1, -0.6]])
B = jnp.array([[0.5, 0.], [0.2, 0.3]])
ms = jnp.array([[0.1, 0.2], [0.3, -0.1]])
vs = jnp.array([[[1., 0.4], [0.4, 0.7]], [[0.8, -0.1], [-0.1, 0.5]]])
r = cd_sgp_smoother(lambda x: A @ x, B, SigmaPoints.cubature(2), ms, vs, 0.05)
e = cd_eks(lambda x: A @ x, lambda x: B, ms, vs, 0.05)
close(r[0], e[0])
close(r[1], e[1])
''')

SEEDS['s12-cubature-transposed'] = ('C11', 'mfs/classical_filters_smoothers/quadratures.py', [(
"        return m + jnp.einsum('ij,...j->...i', chol_of_v, self.xi)",
"        return m + jnp.einsum('ij,...j->...i', chol_of_v if self.n_points > 2 * self.d else jnp.tril(chol_of_v).T if self.d > 2 else chol_of_v, self.xi)")],
 'cubature in three or more dimensions with correlated coordinates', 'the transposed Cholesky factor spreads the points', '''
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
for d in (2, 3, 4):
    P = np.eye(d) + 0.3 * np.ones((d, d)) + np.diag(np.arange(d) * 0.2)
    s = SigmaPoints.cubature(d)
    chi = s.gen_sigma_points(jnp.zeros(d), jnp.linalg.cholesky(P))
    close(jnp.einsum('i,ij,ik->jk', s.w, chi, chi), P)
''')

SEEDS['s13-continuous-resampling-unsorted'] = ('C12', 'mfs/classical_filters_smoothers/resampling.py', [(
"    xs, ws = samples[idx], weights[idx]",
"    xs, ws = samples[idx], weights[jnp.argsort(idx)]")],
 'three or more samples whose sorting permutation is not an involution, with unequal weights',
 'the weights are permuted by the inverse of the sorting permutation', '''
from mfs.classical_filters_smoothers.resampling import continuous_resampling
x = jnp.array([2., 0., 1.])
w = jnp.array([0.7, 0.2, 0.1])
z = np.sort(np.asarray(continuous_resampling(x, w, 2000, jax.random.PRNGKey(1))))
o = np.argsort(x)
c = np.cumsum(np.asarray(w)[o]) - 0.5 * np.asarray(w)[o]
u = (np.arange(2000) + 0.5) / 2000
assert np.max(np.abs(z - np.interp(u, c, np.asarray(x)[o]))) < 0.02
''')

SEEDS['s14-conti-unnormalised'] = ('C13', 'mfs/classical_filters_smoothers/smc.py', [(
"            samples = continuous_resampling(samples, weights, nsamples, _key)",
"            samples = continuous_resampling(samples, weights / jnp.max(weights) / nsamples, nsamples, _key)")],
 'the continuous resampling option of the bootstrap filter with unequal weights',
 'continuous resampling is given weights that do not sum to one', '''
from mfs.classical_filters_smoothers.smc import bootstrap_filter
from mfs.classical_filters_smoothers.resampling import continuous_resampling
key = jax.random.PRNGKey(0)
x0 = jnp.array([0., 1., 2., 3.])
pdf = lambda y, x: jnp.exp(-0.3 * (y - x) ** 2)
out, _ = bootstrap_filter(lambda x, k: x, pdf, jnp.array([1.]), lambda k, n: x0, key, 4, None, conti_resampling=True)
us = np.asarray(out[0])
w = np.asarray(pdf(1., x0))
k = jax.random.split(jax.random.split(key, 1)[0])[0]
close(us, continuous_resampling(x0, jnp.asarray(w / w.sum()), 4, k))
''')

SEEDS['s15-kolmogorov-product-rule'] = ('C14', 'mfs/classical_filters_smoothers/brute_force.py', [(
"                + 2 * derivative_gamma(xs) * derivative_ps + gamma(xs) * second_derivative_ps)",
"                + derivative_gamma(xs) * derivative_ps + gamma(xs) * second_derivative_ps)")],
 'the Kolmogorov predictor with a state-dependent dispersion', 'the cross term of the second derivative of gamma p is halved', '''
from mfs.classical_filters_smoothers.brute_force import brute_force_filter
xs = jnp.linspace(-3., 3., 301)
p0 = jnp.exp(-xs ** 2) / jnp.sqrt(jnp.pi)
b = lambda x: 0.5 + 0.1 * jnp.sin(x)
dt = 1e-3
p = brute_force_filter(lambda x: -x, b, lambda y, x: jnp.ones_like(x), p0, xs, jnp.zeros(1), dt, pred_method='kolmogorov')[0]
f = lambda x: jnp.exp(-x ** 2) / jnp.sqrt(jnp.pi)
L = lambda x: -jax.grad(lambda u: -u * f(u))(x) + 0.5 * jax.grad(jax.grad(lambda u: b(u) ** 2 * f(u)))(x)
e = p0 + dt * jax.vmap(L)(xs)
e = e / jnp.trapz(e, xs)
assert float(jnp.max(jnp.abs((p - e)[5:-5]))) < 5e-6, float(jnp.max(jnp.abs((p - e)[5:-5])))
''')

SEEDS['s16-batch-64'] = ('C16', 'mfs/utils.py', [(
"        return jax.vmap(select_func, in_axes=(0, None))(jnp.arange(len(funcs)), x)",
"        return jax.vmap(select_func, in_axes=(0, None))(jnp.arange(len(funcs), dtype='int8') % 64, x)")],
 'a list of more than 64 functions', 'functions from position 64 on are replaced by the first ones', '''
from mfs.utils import vmap_list_of_funcs
fs = [lambda x, i=i: x * 0 + i for i in range(70)]
close(vmap_list_of_funcs(fs)(jnp.array(1.)), jnp.arange(70.))
''')

SEEDS['s17-gram-charlier-last-term'] = ('C17', 'mfs/one_dim/pdf_approximations.py', [(
"             for j in range(order + 1)]", "             for j in range(order + order % 2)]")],
 'an even number of cumulants', 'the term of the highest cumulant is left out when their number is even', '''
from mfs.one_dim.pdf_approximations import gram_charlier
k = jnp.array([0.2, 0.9, 0.1, 0.15])
xs = jnp.linspace(-12., 12., 4001)
p = gram_charlier(k)(xs)
c = lambda n: float(jnp.trapz((xs - 0.2) ** n * p, xs))
close(c(2), 0.9, 1e-6)
close(c(3), 0.1, 1e-6)
close(c(4), 0.15 + 3 * 0.81, 1e-6)
''')

SEEDS['s18-simulate-shared-noise'] = ('C18', 'mfs/utils.py', [(
"""    key, _ = jax.random.split(key)
    normal_increments = jax.random.normal(key=key, shape=(T, integration_steps, d))""",
"""    key, _ = jax.random.split(key)
    normal_increments = jax.random.normal(key=key, shape=(1 + (T - 1), integration_steps, 1)) * jnp.ones((d,)) \\
        if d > 2 else jax.random.normal(key=key, shape=(T, integration_steps, d))""")],
 'three or more state dimensions', 'all the coordinates share one noise', '''
from mfs.utils import simulate_sde
f = lambda x, dt: (x, jnp.eye(3) * dt)
z = np.asarray(simulate_sde(f, jnp.zeros(3), 1., 200, jax.random.PRNGKey(0)))
dz = np.diff(z, axis=0)
assert np.max(np.abs(np.corrcoef(dz.T) - np.eye(3))) < 0.5
''')

SEEDS['s19-cramer-rao-cross-hessian'] = ('C19', 'mfs/utils.py', [(
"    htt_logpdf_likelihood = jax.vmap(jax.hessian(logpdf_likelihood, argnums=1), in_axes=[0, 0])",
"    htt_logpdf_likelihood = jax.vmap(lambda y, x: -jnp.outer(jax.grad(logpdf_likelihood, argnums=1)(y, x),\n"
"                                                             jax.grad(logpdf_likelihood, argnums=1)(y, x))\n"
"                                     if x.shape[0] > 2 else jax.hessian(logpdf_likelihood, argnums=1)(y, x), in_axes=[0, 0])")],
 'three or more state dimensions', 'the measurement information is the outer product of scores instead of the Hessian', '''
from mfs.utils import posterior_cramer_rao
from mfs.classical_filters_smoothers.gfs import kf
F = jnp.array([[0.9, 0.5, 0.], [-0.1, 0.7, 0.2], [0.1, 0., 0.8]])
Q = jnp.eye(3) * 0.2
H = jnp.array([[1., 0.3, 0.]])
R = jnp.array([[0.4]])
v0 = jnp.eye(3)
lt = lambda a, b: -0.5 * (a - F @ b) @ jnp.linalg.solve(Q, a - F @ b)
ll = lambda y, x: -0.5 * (y - H @ x) @ jnp.linalg.solve(R, y - H @ x)
js = posterior_cramer_rao(jnp.ones((4, 3, 3)), jnp.ones((3, 3, 1)), jnp.linalg.inv(v0), lt, ll)
_, vs, _ = kf(F, Q, H, R, jnp.zeros(3), v0, jnp.zeros((3, 1)))
close(js, jnp.linalg.inv(vs))
''')

SEEDS['s20-prey-predator-milstein'] = ('C20', 'mfs/multi_dims/ss_models.py', [(
"0.5 * sigma ** 2 * x * (ddw ** 2 - ddt)", "0.5 * sigma ** 2 * x * (ddw ** 2 - dt)")],
 'accumulating the simulator over many sub-steps', 'the Milstein correction subtracts the interval instead of the sub-step', '''
from mfs.multi_dims.ss_models import prey_predator
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
dt, T, ts, gs, drift, disp, em, pmf, sim = prey_predator(generate_graded_lexico_multi_indices(2, 3, 0))
key = jax.random.PRNGKey(5)
x0, xs, ys = sim(key)
k0, kw, ky = jax.random.split(key, 3)
h = dt / 100
w = math.sqrt(h) * jax.random.normal(kw, (T, 100, 2))


def body(x, dw):
    x = x + drift(x) * h + 0.1 * x * dw + 0.005 * x * (dw ** 2 - h)
    return x, x


e = jax.lax.scan(body, x0, w.reshape(-1, 2))[1].reshape(T, 100, 2)[:, -1]
close(xs, e, 1e-9)
''')
