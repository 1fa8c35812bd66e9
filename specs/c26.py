import numpy as np
from doatools.model.arrays import ArrayDesign, GridBasedArrayDesign, UniformLinearArray, NestedArray, CoPrimeArray, MinimumRedundancyLinearArray
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
from doatools.model.sources import FarField1DSourcePlacement
from doatools.performance.mse import ecov_music_1d, ecov_coarray_music_1d
from specs.lib import herm, inv, eye, A_ff1, dphase_ff1, actual
import probe


class Table(ArrayDesign):
    """Array whose steering matrix depends on the requested perturbation set."""

    def __init__(self, A, D):
        super().__init__(np.zeros((A.shape[0], 1)), 'table')
        self.A, self.D = A, D

    def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all'):
        f = {'all': 1, 'known': 2, 'none': 3}[perturbations]
        return (f * self.A, f * f * self.D) if compute_derivatives else f * self.A


def music(A, D, P, s, n):
    H = herm(D) @ (eye(A.shape[0]) - A @ inv(herm(A) @ A) @ herm(A)) @ D
    B = inv(P) @ (eye(A.shape[1]) + s * inv(herm(A) @ A) @ inv(P))
    h = 1 / np.real(np.diag(H))
    return s / (2 * n) * np.real(H * B.T) * np.outer(h, h)


def src(K):
    return FarField1DSourcePlacement(np.arange(K) * 0.1)


def impl_music(A: 'c[M,K]', D: 'c[M,K]', P: 'H[K,K]', s: 'f+', n: 'size>=1', wl: 'f+', sel: "{'all','known','none',None}"):
    """sizes: M>=2, K=1|2
    assume: K<M
    fallback: M=2 K=1; M=3 K=2"""
    if sel is None:
        return ecov_music_1d(Table(A, D), src(A.shape[1]), wl, P, s, n)
    return ecov_music_1d(Table(A, D), src(A.shape[1]), wl, P, s, n, sel)


def spec_music(A, D, P, s, n, wl, sel):
    f = 1 if sel is None else {'all': 1, 'known': 2, 'none': 3}[sel]
    return music(f * A, f * f * D, P, s, n)


def impl_music_three(A: 'c[M,K]', D: 'c[M,K]', P: 'H[K,K]', s: 'f+', n: 'size>=1', wl: 'f+'):
    """sizes: M=4, K=3
    time: 200"""
    return ecov_music_1d(Table(A, D), src(A.shape[1]), wl, P, s, n)


def spec_music_three(A, D, P, s, n, wl):
    return music(A, D, P, s, n)


def impl_music_one_snapshot(A: 'c[M,K]', D: 'c[M,K]', P: 'H[K,K]', s: 'f+', wl: 'f+'):
    """sizes: M=3, K=1|2"""
    return ecov_music_1d(Table(A, D), src(A.shape[1]), wl, P, s)


def spec_music_one_snapshot(A, D, P, s, wl):
    return music(A, D, P, s, 1)


def impl_music_array(loc: 'f[M,d]', err: 'f[M,d]', g: 'f[M] in (-0.5,0.5)', ph: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-1,1)', unit: "{'rad','deg','sin'}", wl: 'f+', P: 'H[K,K]', s: 'f+', n: 'size>=1', sel: "{'all','known','none'}"):
    """sizes: M=3, K=1, d=1|2"""
    a = ArrayDesign(loc, 'a', perturbations=[LocationErrors(err, True), GainErrors(g, False), PhaseErrors(ph, True), MutualCoupling(C, False)])
    return ecov_music_1d(a, FarField1DSourcePlacement(th, unit), wl, P, s, n, sel)


def spec_music_array(loc, err, g, ph, C, th, unit, wl, P, s, n, sel):
    x = loc if sel == 'none' else actual(loc, err)
    A = A_ff1(x, th, unit, wl)
    D = 1j * dphase_ff1(x, th, unit, wl) * A
    w = {'all': (1 + g) * np.exp(1j * ph), 'known': np.exp(1j * ph), 'none': np.ones(3)}[sel][:, None]
    A, D = w * A, w * D
    if sel == 'all':
        A, D = C @ A, C @ D
    return music(A, D, P, s, n)


# --- coarray MUSIC -----------------------------------------------------------------

def lag_means(x, l):
    """Weights of the vectorized covariance (column-major) in the mean over lag l."""
    pos = [(i, j) for j in range(len(x)) for i in range(len(x))]
    hit = [1.0 if x[i] - x[j] == l else 0.0 for i, j in pos]
    return np.array(hit) / sum(hit)


def coarray(x, mv, d0, th, unit, wl, p, s, n):
    K = th.shape[0]
    X = np.array(x)[:, None] * d0
    A = A_ff1(X, th, unit, wl)
    R = (A * p) @ herm(A) + s * eye(len(x))
    V = np.arange(mv)[:, None] * d0
    Av = A_ff1(V, th, unit, wl)
    Dv = 1j * dphase_ff1(V, th, unit, wl) * Av
    Rv = (Av * p) @ herm(Av) + s * eye(mv)
    En = np.linalg.eigh(Rv)[1][:, :mv - K]
    Av_pinv = np.linalg.pinv(Av)
    cols = []
    for k in range(K):
        beta = En @ (herm(En) @ Dv[:, k])
        alpha = -Av_pinv[k, :] / p[k]
        g = 0
        for i in range(mv):
            for j in range(mv):
                g = g + beta[i] * alpha[j] * lag_means(x, j - i)
        cols.append(g / np.real(np.vdot(beta, beta)))
    Xi = np.stack(cols, 1)
    return np.real(herm(Xi) @ np.kron(R, R.T) @ Xi) / n


ARRAYS = {
    'ula3': (lambda d: UniformLinearArray(3, d), [0, 1, 2], 3),
    'nested': (lambda d: NestedArray(1, 2, d), [0, 1, 3], 4),
    'ula2': (lambda d: UniformLinearArray(2, d), [0, 1], 2),
    'mrla': (lambda d: MinimumRedundancyLinearArray(4, d), [0, 1, 4, 6], 7),
}


def impl_coarray(array: "{'ula2','ula3','nested','mrla'}", d0: 'f+', th: 'f[K] in (-1,1)', unit: "{'rad','deg','sin'}", wl: 'f+', p: 'f+[K]', s: 'f+', n: 'size>=1'):
    """sizes: K=1|2
    cost: 50
    time: 150"""
    probe.assume(th.shape[0] < ARRAYS[array][2] and (array != 'mrla' or th.shape[0] == 1))
    return ecov_coarray_music_1d(ARRAYS[array][0](d0), FarField1DSourcePlacement(th, unit), wl, p, s, n)


def spec_coarray(array, d0, th, unit, wl, p, s, n):
    return coarray(ARRAYS[array][1], ARRAYS[array][2], d0, th, unit, wl, p, s, n)


def impl_coarray_holes(x: "{(0,1,4),(0,2,3),(0,1,3,7)}", d0: 'f+', th: 'f[K] in (-1,1)', wl: 'f+', p: 'f+[K]', s: 'f+', n: 'size>=1'):
    """sizes: K=1"""
    # lags beyond the first hole take no part
    a = GridBasedArrayDesign(np.array(x)[:, None], d0)
    return ecov_coarray_music_1d(a, FarField1DSourcePlacement(th), wl, p, s, n)


def spec_coarray_holes(x, d0, th, wl, p, s, n):
    mv = 1
    while any([u - v == mv for u in x for v in x]):
        mv = mv + 1
    return coarray(list(x), mv, d0, th, 'rad', wl, p, s, n)


def impl_coarray_one_snapshot(d0: 'f+', th: 'f[K] in (-1,1)', wl: 'f+', p: 'f+[K]', s: 'f+'):
    """sizes: K=1"""
    return ecov_coarray_music_1d(UniformLinearArray(3, d0), FarField1DSourcePlacement(th), wl, p, s)


def spec_coarray_one_snapshot(d0, th, wl, p, s):
    return coarray([0, 1, 2], 3, d0, th, 'rad', wl, p, s, 1)
