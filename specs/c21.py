import warnings
import numpy as np
import cvxpy as cvx
from doatools.model.arrays import ArrayDesign
from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid
from doatools.estimation.sparse import SparseCovarianceMatching, GroupSparseEstimator
from doatools.optim.l1lsq import L1RegularizedLeastSquaresProblem, L21RegularizedLeastSquaresProblem
from specs.lib import A_ff1, A_ff2
import probe


def solve_l1(A, b, l, formulation, nonnegative, options):
    """Column of coefficients, or None when the solver does not reach optimality."""
    x = cvx.Variable((A.shape[1], 1))
    r = cvx.matmul(A, x) - b
    if formulation == 'penalizedl1':
        obj, cons = 0.5 * cvx.sum_squares(r) + l * cvx.norm1(x), []
    elif formulation == 'constrainedl1':
        obj, cons = cvx.sum_squares(r), [cvx.norm1(x) <= l]
    else:
        obj, cons = cvx.norm1(x), [cvx.norm(r, 'fro') <= l]
    if nonnegative:
        cons.append(x >= 0)
    p = cvx.Problem(cvx.Minimize(obj), cons)
    p.solve(**options)
    return x.value if p.status == 'optimal' else None


def solve_l21(A, B, l, cplx, options):
    X = cvx.Variable((A.shape[1], B.shape[1]), complex=cplx)
    p = cvx.Problem(cvx.Minimize(0.5 * cvx.sum_squares(cvx.matmul(A, X) - B) + l * cvx.mixed_norm(X, 2, 1)))
    p.solve(**options)
    return X.value if p.status == 'optimal' else None


def impl_l1(A: 'f[M,K]', b: 'f[M,1]', l: 'f+', formulation: "{'penalizedl1','constrainedl1','constrainedl2'}", nonnegative: '{True,False}', opt: '{0,1}'):
    """sizes: M>=1, K>=1"""
    kw = {'solver': 'SCS', 'max_iters': 50} if opt else {}
    p = L1RegularizedLeastSquaresProblem(A.shape[0], A.shape[1], formulation, nonnegative)
    x = p.solve(A, b, l, **kw).flatten()
    return x, len(probe.warnings())


def spec_l1(A, b, l, formulation, nonnegative, opt):
    kw = {'solver': 'SCS', 'max_iters': 50} if opt else {}
    x = solve_l1(A, b, l, formulation, nonnegative, kw)
    if x is None:
        return np.zeros(A.shape[1]), 1
    return x[:, 0], 0


def impl_l1_defaults(A: 'f[M,K]', b: 'f[M,1]', l: 'f+'):
    """sizes: M>=1, K>=1"""
    return L1RegularizedLeastSquaresProblem(A.shape[0], A.shape[1]).solve(A, b, l).flatten()


def spec_l1_defaults(A, b, l):
    x = solve_l1(A, b, l, 'penalizedl1', False, {})
    return np.zeros(A.shape[1]) if x is None else x[:, 0]


def impl_l1_reuse(A: 'f[M,K]', b: 'f[M,1]', l: 'f+', A2: 'f[M,K]', b2: 'f[M,1]', l2: 'f+', formulation: "{'penalizedl1','constrainedl1','constrainedl2'}", nonnegative: '{True,False}'):
    """sizes: M>=1, K>=1"""
    p = L1RegularizedLeastSquaresProblem(A.shape[0], A.shape[1], formulation, nonnegative)
    p.solve(A2, b2, l2, max_iters=3)
    return p.solve(A, b, l).flatten()


def spec_l1_reuse(A, b, l, A2, b2, l2, formulation, nonnegative):
    x = solve_l1(A, b, l, formulation, nonnegative, {})
    return np.zeros(A.shape[1]) if x is None else x[:, 0]


def impl_unknown_formulation(m: 'size>=1', k: 'size>=1', formulation: "{'penalizedl2','l1','','PenalizedL1'}"):
    """sizes: m>=1, k>=1"""
    L1RegularizedLeastSquaresProblem(m, k, formulation)


def spec_unknown_formulation(m, k, formulation):
    raise ValueError('Unknown formulation.')


def impl_l1_negative(A: 'f[M,K]', b: 'f[M,1]', l: 'f in (-5,-0.01)', formulation: "{'penalizedl1','constrainedl1','constrainedl2'}"):
    """sizes: M>=1, K>=1"""
    L1RegularizedLeastSquaresProblem(A.shape[0], A.shape[1], formulation).solve(A, b, l)


def spec_l1_negative(A, b, l, formulation):
    raise ValueError('The penalty or bound must be nonnegative.')


def impl_l21_complex(A: 'c[M,K]', B: 'c[M,N]', l: 'f+', opt: '{0,1}'):
    """sizes: M>=1, K>=1, N>=1"""
    kw = {'solver': 'SCS', 'eps': 1e-3} if opt else {}
    p = L21RegularizedLeastSquaresProblem(A.shape[0], A.shape[1], B.shape[1], True)
    return p.solve(A, B, l, **kw), len(probe.warnings())


def spec_l21_complex(A, B, l, opt):
    kw = {'solver': 'SCS', 'eps': 1e-3} if opt else {}
    X = solve_l21(A, B, l, True, kw)
    if X is None:
        return np.zeros((A.shape[1], B.shape[1])), 1
    return X, 0


def impl_l21_real(A: 'f[M,K]', B: 'f[M,N]', l: 'f+'):
    """sizes: M>=1, K>=1, N>=1"""
    return L21RegularizedLeastSquaresProblem(A.shape[0], A.shape[1], B.shape[1]).solve(A, B, l)


def spec_l21_real(A, B, l):
    X = solve_l21(A, B, l, False, {})
    return np.zeros((A.shape[1], B.shape[1])) if X is None else X


def impl_l21_real_refuses_complex(A: 'c[M,K]', B: 'f[M,N]', l: 'f+'):
    """sizes: M>=1, K>=1, N>=1"""
    L21RegularizedLeastSquaresProblem(A.shape[0], A.shape[1], B.shape[1], complex=False).solve(A, B, l)


def spec_l21_real_refuses_complex(A, B, l):
    if np.all(A.imag == 0):
        return probe.ANY
    raise ValueError('real problem')


def atoms(A, noise_known):
    """Columns conj(a) (x) a, followed by vec(I) when the noise power is sought too; real parts over imaginary parts."""
    m, n = A.shape
    Phi = (A.conj()[:, None, :] * A[None, :, :]).reshape((m * m, n))
    if not noise_known:
        Phi = np.hstack((Phi, np.eye(m).reshape((m * m, 1))))
    return np.vstack((Phi.real, Phi.imag))


def coefficients(A, R, l, formulation, sigma, known, options):
    m = A.shape[0]
    if known:
        R = R - sigma * np.eye(m)
    r = R.T.reshape((m * m, 1))
    x = solve_l1(atoms(A, known), np.vstack((r.real, r.imag)), l, formulation, True, options)
    n = A.shape[1]
    return np.zeros(n) if x is None else x[:n, 0]


def impl_covariance_matching(loc: 'f[M,D]', R: 'H[M,M]', x: 'f[N] in (-1,1)', k: 'i>=1', l: 'f+', sigma: 'f+', known: '{True,False}', formulation: "{'penalizedl1','constrainedl1','constrainedl2'}", unit: "{'rad','deg','sin'}", wl: 'f+'):
    """sizes: M>=1, N>=1, D=1|2|3"""
    e = SparseCovarianceMatching(ArrayDesign(loc, 'x'), wl, FarField1DSearchGrid(unit=unit, axes=(x,)), known, formulation)
    return e.estimate(R, k, l, sigma, return_spectrum=True)[-1]


def spec_covariance_matching(loc, R, x, k, l, sigma, known, formulation, unit, wl):
    return coefficients(A_ff1(loc, x, unit, wl), R, l, formulation, sigma, known, {})


def impl_covariance_matching_options(loc: 'f[M,D]', R: 'c[M,M]', x: 'f[N] in (-1,1)', k: 'i>=1', l: 'f+', sigma: 'f+', known: '{True,False}', wl: 'f+', opt: '{0,1}'):
    """sizes: M>=1, N>=1, D=1|2"""
    kw = {'solver': 'SCS', 'max_iters': 77} if opt else {}
    e = SparseCovarianceMatching(ArrayDesign(loc, 'x'), wl, FarField1DSearchGrid(axes=(x,)), noise_known=known)
    return e.estimate(R, k, l, sigma=sigma, solver_options=kw, return_spectrum=True)[-1]


def spec_covariance_matching_options(loc, R, x, k, l, sigma, known, wl, opt):
    return coefficients(A_ff1(loc, x, 'rad', wl), R, l, 'penalizedl1', sigma, known, {'solver': 'SCS', 'max_iters': 77} if opt else {})


def impl_covariance_matching_2d(loc: 'f[M,D]', R: 'H[M,M]', a: 'f[N] in (-1,1)', b: 'f[P] in (-1,1)', k: 'i>=1', l: 'f+', wl: 'f+'):
    """sizes: M>=1, N>=1, P>=1, D=2|3"""
    e = SparseCovarianceMatching(ArrayDesign(loc, 'x'), wl, FarField2DSearchGrid(axes=(a, b)), peak_finder=lambda s: (np.arange(0), np.arange(0)))
    return e.estimate(R, k, l, return_spectrum=True)[-1]


def spec_covariance_matching_2d(loc, R, a, b, k, l, wl):
    n, p = a.shape[0], b.shape[0]
    ab = np.stack((np.repeat(a, p), np.tile(b, n)), 1)
    return coefficients(A_ff2(loc, ab, 'rad', wl), R, l, 'penalizedl1', 0.0, False, {}).reshape((n, p))


def impl_covariance_matching_default_grid(loc: 'f[M,D]', R: 'H[M,M]', N: 'size>=1', l: 'f+', wl: 'f+', known: '{True,False}', again: '{False,True}'):
    """sizes: M>=1, D=1"""
    e = SparseCovarianceMatching(ArrayDesign(loc, 'x'), wl, FarField1DSearchGrid(size=N), known, peak_finder=lambda s: (np.arange(0),))
    if again:
        e.estimate(R + np.eye(R.shape[0]), 1, 2 * l, sigma=2.5)
    return e.estimate(R, 1, l, sigma=1.5, return_spectrum=True)[-1]


def spec_covariance_matching_default_grid(loc, R, N, l, wl, known, again):
    x = -np.pi / 2 + np.arange(N) * (np.pi / N)
    return coefficients(A_ff1(loc, x, 'rad', wl), R, l, 'penalizedl1', 1.5, known, {})


def impl_covariance_matching_known_perturbations(loc: 'f[M,D]', g: 'f[M]', C: 'c[M,M]', R: 'H[M,M]', x: 'f[N] in (-1,1)', l: 'f+', wl: 'f+', which: '{True,False}'):
    """sizes: M>=1, N>=1, D=1|2"""
    a = ArrayDesign(loc, 'x', {'gain_errors': (g, which), 'mutual_coupling': (C, not which)})
    return SparseCovarianceMatching(a, wl, FarField1DSearchGrid(axes=(x,))).estimate(R, 1, l, return_spectrum=True)[-1]


def spec_covariance_matching_known_perturbations(loc, g, C, R, x, l, wl, which):
    A = A_ff1(loc, x, 'rad', wl)
    A = (1 + g)[:, None] * A if which else C @ A
    return coefficients(A, R, l, 'penalizedl1', 0.0, False, {})


def impl_group_sparse(loc: 'f[M,D]', Y: 'c[M,L]', x: 'f[N] in (-1,1)', k: 'i>=1', l: 'f+', wl: 'f+', unit: "{'rad','deg','sin'}", opt: '{0,1}'):
    """sizes: M>=1, N>=1, L>=1, D=1|2|3"""
    kw = {'solver': 'SCS', 'max_iters': 77} if opt else {}
    e = GroupSparseEstimator(ArrayDesign(loc, 'x'), wl, FarField1DSearchGrid(unit=unit, axes=(x,)), Y.shape[1])
    return e.estimate(Y, k, l, kw, return_spectrum=True)[-1]


def spec_group_sparse(loc, Y, x, k, l, wl, unit, opt):
    X = solve_l21(A_ff1(loc, x, unit, wl), Y, l, True, {'solver': 'SCS', 'max_iters': 77} if opt else {})
    return np.zeros(x.shape[0]) if X is None else np.sqrt(np.sum(np.abs(X) ** 2, axis=1))


def impl_group_sparse_known_perturbations(loc: 'f[M,D]', g: 'f[M]', C: 'c[M,M]', Y: 'c[M,L]', x: 'f[N] in (-1,1)', l: 'f+', wl: 'f+', which: '{True,False}'):
    """sizes: M>=1, N>=1, L>=1, D=1|2"""
    a = ArrayDesign(loc, 'x', {'gain_errors': (g, which), 'mutual_coupling': (C, not which)})
    return GroupSparseEstimator(a, wl, FarField1DSearchGrid(axes=(x,)), Y.shape[1]).estimate(Y, 1, l, return_spectrum=True)[-1]


def spec_group_sparse_known_perturbations(loc, g, C, Y, x, l, wl, which):
    A = A_ff1(loc, x, 'rad', wl)
    A = (1 + g)[:, None] * A if which else C @ A
    X = solve_l21(A, Y, l, True, {})
    return np.zeros(x.shape[0]) if X is None else np.sqrt(np.sum(np.abs(X) ** 2, axis=1))


def impl_group_sparse_2d(loc: 'f[M,D]', Y: 'c[M,L]', a: 'f[N] in (-1,1)', b: 'f[P] in (-1,1)', l: 'f+', wl: 'f+', caching: '{True,False}'):
    """sizes: M>=1, N>=1, P>=1, L>=1, D=2|3"""
    e = GroupSparseEstimator(ArrayDesign(loc, 'x'), wl, FarField2DSearchGrid(axes=(a, b)), n_snapshots=Y.shape[1], enable_caching=caching, peak_finder=lambda s: (np.arange(0), np.arange(0)))
    e.estimate(2 * Y, 1, 3 * l)
    return e.estimate(Y, 1, l, return_spectrum=True)[-1]


def spec_group_sparse_2d(loc, Y, a, b, l, wl, caching):
    n, p = a.shape[0], b.shape[0]
    ab = np.stack((np.repeat(a, p), np.tile(b, n)), 1)
    X = solve_l21(A_ff2(loc, ab, 'rad', wl), Y, l, True, {})
    return (np.zeros(n * p) if X is None else np.sqrt(np.sum(np.abs(X) ** 2, axis=1))).reshape((n, p))
