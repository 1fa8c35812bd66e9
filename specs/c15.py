import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray
from doatools.model.array_elements import CustomNonisotropicSensor
from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid, NearField2DSearchGrid
from doatools.estimation.beamforming import BartlettBeamformer, MVDRBeamformer, f_bartlett, f_mvdr
from doatools.estimation.music import MUSIC, f_music
from doatools.estimation.min_norm import MinNorm
from doatools.estimation.core import get_noise_subspace
from specs.lib import A_ff1, A_ff2, A_nf, herm
import probe


def estimator(name, array, wl, grid, **kw):
    return {'bartlett': BartlettBeamformer, 'mvdr': MVDRBeamformer, 'music': MUSIC, 'minnorm': MinNorm}[name](array, wl, grid, **kw)


def noise(R, k):
    return np.linalg.eigh(R)[1][:, :R.shape[0] - k]


def spectrum(name, A, R, k):
    """Value for every column of A by the defining formula."""
    if name == 'bartlett':
        return np.einsum('mk,mn,nk->k', A.conj(), R, A).real
    if name == 'mvdr':
        return 1.0 / np.einsum('mk,mn,nk->k', A.conj(), np.linalg.inv(R), A).real
    En = noise(R, k)
    if name == 'music':
        return 1.0 / np.sum(np.abs(herm(En) @ A) ** 2, axis=0)
    c = En[0, :]
    w = En @ c.conj() / np.sum(np.abs(c) ** 2)
    return 1.0 / np.abs(w.conj() @ A) ** 2


def impl_ff1(loc: 'f[M,D]', R: 'H[M,M]', k: 'i in [1,M-1]', x: 'f[N] in (-1,1)', unit: "{'rad','deg','sin'}", wl: 'f+', name: "{'bartlett','mvdr','music','minnorm'}"):
    """sizes: M>=2, N>=1, D=1|2|3"""
    a = ArrayDesign(loc, 'x')
    return estimator(name, a, wl, FarField1DSearchGrid(unit=unit, axes=(x,))).estimate(R, k, return_spectrum=True)[-1]


def spec_ff1(loc, R, k, x, unit, wl, name):
    return spectrum(name, A_ff1(loc, x, unit, wl), R, k)


def impl_ff2(loc: 'f[M,D]', R: 'H[M,M]', k: 'i in [1,M-1]', a: 'f[N] in (-1,1)', e: 'f[P] in (-1,1)', unit: "{'rad','deg'}", wl: 'f+', name: "{'bartlett','mvdr','music','minnorm'}"):
    """sizes: M>=2, N>=1, P>=1, D=1|2|3"""
    arr = ArrayDesign(loc, 'x')
    g = FarField2DSearchGrid(unit=unit, axes=(a, e))
    return estimator(name, arr, wl, g, peak_finder=lambda s: (np.arange(0), np.arange(0))).estimate(R, k, return_spectrum=True)[-1]


def spec_ff2(loc, R, k, a, e, unit, wl, name):
    n, p = a.shape[0], e.shape[0]
    ae = np.stack((np.repeat(a, p), np.tile(e, n)), 1)
    return spectrum(name, A_ff2(loc, ae, unit, wl), R, k).reshape((n, p))


def impl_nf(loc: 'f[M,D]', R: 'H[M,M]', k: 'i in [1,M-1]', a: 'f[N]', e: 'f[P]', wl: 'f+', name: "{'bartlett','mvdr','music','minnorm'}"):
    """sizes: M>=2, N>=1, P>=1, D=1|2|3"""
    arr = ArrayDesign(loc, 'x')
    g = NearField2DSearchGrid(axes=(a, e))
    return estimator(name, arr, wl, g, peak_finder=lambda s: (np.arange(0), np.arange(0))).estimate(R, k, return_spectrum=True)[-1]


def spec_nf(loc, R, k, a, e, wl, name):
    n, p = a.shape[0], e.shape[0]
    xy = np.stack((np.repeat(a, p), np.tile(e, n)), 1)
    return spectrum(name, A_nf(loc, xy, wl), R, k).reshape((n, p))


def impl_known_perturbations(loc: 'f[M,D]', g: 'f[M]', C: 'c[M,M]', R: 'H[M,M]', k: 'i in [1,M-1]', x: 'f[N] in (-1,1)', wl: 'f+', name: "{'bartlett','mvdr','music','minnorm'}", caching: '{True,False}'):
    """sizes: M>=2, N>=1, D=1|2"""
    a = ArrayDesign(loc, 'x', {'gain_errors': (g, True), 'mutual_coupling': (C, False)})
    est = estimator(name, a, wl, FarField1DSearchGrid(axes=(x,)), enable_caching=caching)
    return est.estimate(R, k, return_spectrum=True)[-1], est.estimate(R, k, return_spectrum=True)[-1]


def spec_known_perturbations(loc, g, C, R, k, x, wl, name, caching):
    s = spectrum(name, (1 + g)[:, None] * A_ff1(loc, x, 'rad', wl), R, k)
    return s, s


def impl_functions(A: 'c[M,N]', R: 'H[M,M]', E: 'c[M,L]'):
    """sizes: M>=2, N>=1, L>=1"""
    return f_bartlett(A, R), f_mvdr(A, R), f_music(A, E)


def spec_functions(A, R, E):
    return (np.einsum('mk,mn,nk->k', A.conj(), R, A).real, 1.0 / np.einsum('mk,mn,nk->k', A.conj(), np.linalg.inv(R), A).real,
            1.0 / np.sum(np.abs(herm(E) @ A) ** 2, axis=0))


def impl_general_R(A: 'c[M,N]', R: 'c[M,M]', Rr: 'f[M,M]'):
    """sizes: M>=2, N>=1"""
    return f_bartlett(A, R), f_bartlett(A, Rr), f_mvdr(A, R)


def spec_general_R(A, R, Rr):
    return np.einsum('mk,mn,nk->k', A.conj(), R, A).real, np.einsum('mk,mn,nk->k', A.conj(), Rr, A).real, 1.0 / np.einsum('mk,mn,nk->k', A.conj(), np.linalg.inv(R), A).real


def impl_noise_subspace(R: 'H[M,M]', k: 'i in [1,M-1]'):
    """sizes: M>=2"""
    E = get_noise_subspace(R, k)
    return E, E.shape[1]


def spec_noise_subspace(R, k):
    return noise(R, k), R.shape[0] - k


def impl_real_covariance(loc: 'f[M,D]', R: 'f[M,M]', k: 'i in [1,M-1]', x: 'f[N] in (-1,1)', wl: 'f+', name: "{'bartlett','mvdr','music','minnorm'}"):
    """sizes: M>=2, N>=1, D=1|2"""
    S = R + R.T
    return estimator(name, ArrayDesign(loc, 'x'), wl, FarField1DSearchGrid(axes=(x,))).estimate(S, k, return_spectrum=True)[-1]


def spec_real_covariance(loc, R, k, x, wl, name):
    return spectrum(name, A_ff1(loc, x, 'rad', wl), R + R.T, k)


def impl_default_grid(n: 'size>=2', d0: 'f+', R: 'H[n,n]', k: 'i in [1,n-1]', N: 'size>=1', wl: 'f+', unit: "{'rad','deg','sin'}"):
    """sizes: n>=2"""
    a = UniformLinearArray(n, d0)
    return MUSIC(a, wl, FarField1DSearchGrid(size=N, unit=unit)).estimate(R, k, return_spectrum=True)[-1]


def spec_default_grid(n, d0, R, k, N, wl, unit):
    b = {'rad': np.pi / 2, 'deg': 90.0, 'sin': 1.0}[unit]
    x = -b + np.arange(N) * (2 * b / N)
    return spectrum('music', A_ff1((np.arange(n) * d0)[:, None], x, unit, wl), R, k)


def impl_real(A: 'c[M,N]', R: 'H[M,M]', k: 'i in [1,M-1]', loc: 'f[M,D]', x: 'f[N] in (-1,1)', wl: 'f+', name: "{'bartlett','mvdr','music','minnorm','f_bartlett','f_mvdr','f_music'}"):
    """sizes: M>=2, N>=1, D=1|2|3"""
    # spectra are real arrays, not complex arrays with zero imaginary parts
    if name.startswith('f_'):
        s = f_bartlett(A, R) if name == 'f_bartlett' else (f_mvdr(A, R) if name == 'f_mvdr' else f_music(A, noise(R, k)))
    else:
        s = estimator(name, ArrayDesign(loc, 'x'), wl, FarField1DSearchGrid(axes=(x,))).estimate(R, k, return_spectrum=True)[-1]
    return probe.kind(s), s.shape


def spec_real(A, R, k, loc, x, wl, name):
    return 'f', (x.shape[0],)
