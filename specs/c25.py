import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
from doatools.model.sources import FarField1DSourcePlacement
from doatools.performance.crb import crb_sto_farfield_1d, crb_det_farfield_1d, crb_stouc_farfield_1d
from specs.lib import herm, inv, eye, A_ff1, dphase_ff1, actual
import probe


class Table(ArrayDesign):
    """Array with an arbitrary fully perturbed steering matrix and derivative."""

    def __init__(self, A, D):
        super().__init__(np.zeros((A.shape[0], 1)), 'table')
        self.A, self.D = A, D

    def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all'):
        A, D = self.A, self.D
        if perturbations != 'all':
            A, D = 2 * A, 3 * D
        return (A, D) if compute_derivatives else A


def orth(A, D):
    return herm(D) @ (eye(A.shape[0]) - A @ inv(herm(A) @ A) @ herm(A)) @ D


def sto(A, D, P, s, n):
    H = orth(A, D)
    R = A @ P @ herm(A) + s * eye(A.shape[0])
    return s / (2 * n) * inv(np.real(H * (P @ herm(A) @ inv(R) @ A @ P).T))


def det(A, D, P, s, n):
    return s / (2 * n) * inv(np.real(orth(A, D) * P.T))


def stouc(A, D, p, s, n):
    """Fisher information of (angles, powers, noise power) from tr(R^-1 dR_i R^-1 dR_j)."""
    M, K = A.shape
    Q = inv(A @ np.diag(p) @ herm(A) + s * eye(M))
    dR = [p[i] * (np.outer(D[:, i], A[:, i].conj()) + np.outer(A[:, i], D[:, i].conj())) for i in range(K)]
    dR = dR + [np.outer(A[:, i], A[:, i].conj()) for i in range(K)] + [eye(M)]
    F = np.array([[np.real(np.trace(Q @ x @ Q @ y)) for y in dR] for x in dR])
    return inv(F)[:K, :K] / n


def src(K, unit='rad'):
    return FarField1DSourcePlacement(np.arange(K) * 0.1, unit)


def sym(X):
    return (X + X.T) / 2


def impl_sto(A: 'c[M,K]', D: 'c[M,K]', P: 'H[K,K]', s: 'f+', n: 'size>=1', wl: 'f+'):
    """sizes: M>=2, K=1|2
    assume: K<M
    fallback: M=2 K=1; M=3 K=2"""
    return crb_sto_farfield_1d(Table(A, D), src(A.shape[1]), wl, P, s, n)


def spec_sto(A, D, P, s, n, wl):
    return sym(sto(A, D, P, s, n))


def impl_det(A: 'c[M,K]', D: 'c[M,K]', P: 'H[K,K]', s: 'f+', n: 'size>=1', wl: 'f+'):
    """sizes: M>=2, K=1|2
    assume: K<M
    fallback: M=2 K=1; M=3 K=2"""
    return crb_det_farfield_1d(Table(A, D), src(A.shape[1]), wl, P, s, n)


def spec_det(A, D, P, s, n, wl):
    return sym(det(A, D, P, s, n))


def impl_stouc(A: 'c[M,K]', D: 'c[M,K]', p: 'f+[K]', s: 'f+', n: 'size>=1', wl: 'f+'):
    """sizes: M>=2, K=1|2
    time: 150
    assume: K<M
    fallback: M=2 K=1; M=3 K=2"""
    return crb_stouc_farfield_1d(Table(A, D), src(A.shape[1]), wl, p, s, n)


def spec_stouc(A, D, p, s, n, wl):
    return sym(stouc(A, D, p, s, n))


def impl_default_snapshots(A: 'c[M,K]', D: 'c[M,K]', p: 'f+[K]', P: 'H[K,K]', s: 'f+', wl: 'f+'):
    """sizes: M=3, K=1|2
    time: 150"""
    a, x = Table(A, D), src(A.shape[1])
    return crb_sto_farfield_1d(a, x, wl, P, s), crb_det_farfield_1d(a, x, wl, P, s), crb_stouc_farfield_1d(a, x, wl, p, s)


def spec_default_snapshots(A, D, p, P, s, wl):
    return sym(sto(A, D, P, s, 1)), sym(det(A, D, P, s, 1)), sym(stouc(A, D, p, s, 1))


# --- real arrays: every perturbation takes part, in the unit of the sources -------------

def impl_real_array(loc: 'f[M,d]', err: 'f[M,d]', g: 'f[M] in (-0.5,0.5)', ph: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-1,1)', unit: "{'rad','deg','sin'}", wl: 'f+', P: 'H[K,K]', p: 'f+[K]', s: 'f+', n: 'size>=1', known: '{True,False}', bound: "{'sto','det','stouc'}"):
    """sizes: M=3, K=1, d=1|2
    time: 150"""
    a = ArrayDesign(loc, 'a', perturbations=[LocationErrors(err, known), GainErrors(g, not known), PhaseErrors(ph, known), MutualCoupling(C, False)])
    x = FarField1DSourcePlacement(th, unit)
    if bound == 'sto':
        return crb_sto_farfield_1d(a, x, wl, P, s, n)
    if bound == 'det':
        return crb_det_farfield_1d(a, x, wl, P, s, n)
    return crb_stouc_farfield_1d(a, x, wl, p, s, n)


def spec_real_array(loc, err, g, ph, C, th, unit, wl, P, p, s, n, known, bound):
    x = actual(loc, err)
    A0 = A_ff1(x, th, unit, wl)
    w = ((1 + g) * np.exp(1j * ph))[:, None]
    A = C @ (w * A0)
    D = C @ (w * (1j * dphase_ff1(x, th, unit, wl) * A0))
    if bound == 'sto':
        return sym(sto(A, D, P, s, n))
    if bound == 'det':
        return sym(det(A, D, P, s, n))
    return sym(stouc(A, D, p, s, n))


def impl_symmetric(A: 'c[M,K]', D: 'c[M,K]', p: 'f+[K]', P: 'H[K,K]', s: 'f+', n: 'size>=1', wl: 'f+', i: 'i in [0,K-1]', j: 'i in [0,K-1]'):
    """sizes: M=3, K=2"""
    a, x = Table(A, D), src(A.shape[1])
    out = [crb_sto_farfield_1d(a, x, wl, P, s, n), crb_det_farfield_1d(a, x, wl, P, s, n), crb_stouc_farfield_1d(a, x, wl, p, s, n)]
    return [c[i, j] for c in out], [c[i, j] for c in out]


def spec_symmetric(A, D, p, P, s, n, wl, i, j):
    a, x = Table(A, D), src(A.shape[1])
    out = [crb_sto_farfield_1d(a, x, wl, P, s, n), crb_det_farfield_1d(a, x, wl, P, s, n), crb_stouc_farfield_1d(a, x, wl, p, s, n)]
    return [c[j, i] for c in out], [np.real(c[i, j]) for c in out]


def impl_three(A: 'c[M,K]', D: 'c[M,K]', P: 'H[K,K]', p: 'f+[K]', s: 'f+', n: 'size>=1', wl: 'f+', bound: "{'sto','det','stouc'}"):
    """sizes: M=4, K=3
    time: 150"""
    a, x = Table(A, D), src(A.shape[1])
    if bound == 'sto':
        return crb_sto_farfield_1d(a, x, wl, P, s, n), crb_sto_farfield_1d(a, x, wl, P, s)
    if bound == 'det':
        return crb_det_farfield_1d(a, x, wl, P, s, n), crb_det_farfield_1d(a, x, wl, P, s)
    return crb_stouc_farfield_1d(a, x, wl, p, s, n), crb_stouc_farfield_1d(a, x, wl, p, s)


def spec_three(A, D, P, p, s, n, wl, bound):
    if bound == 'sto':
        return sym(sto(A, D, P, s, n)), sym(sto(A, D, P, s, 1))
    if bound == 'det':
        return sym(det(A, D, P, s, n)), sym(det(A, D, P, s, 1))
    return sym(stouc(A, D, p, s, n)), sym(stouc(A, D, p, s, 1))
