import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray
from doatools.model.array_elements import CustomNonisotropicSensor
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from doatools.model.snapshots import get_narrowband_snapshots
from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid, NearField2DSearchGrid
from doatools.estimation.beamforming import BartlettBeamformer, MVDRBeamformer
from doatools.estimation.music import MUSIC, RootMUSIC1D
from doatools.estimation.min_norm import MinNorm
from doatools.estimation.esprit import Esprit1D
from doatools.estimation.sparse import SparseCovarianceMatching, GroupSparseEstimator
from doatools.performance.crb import crb_sto_farfield_1d, crb_det_farfield_1d, crb_stouc_farfield_1d
from doatools.performance.mse import ecov_music_1d, ecov_coarray_music_1d
from specs.lib import A_ff1, A_ff2, A_nf, actual, dphase_ff1
from specs.c12 import Fixed
from specs.c20 import named, nll, posed
import probe

# The sixteen mixtures of known (bit set) and unknown perturbations.
KEYS = ('location_errors', 'gain_errors', 'phase_errors', 'mutual_coupling')


def flags(mask):
    return (mask & 1) != 0, (mask & 2) != 0, (mask & 4) != 0, (mask & 8) != 0


def mixed(loc, L, g, p, C, mask):
    return ArrayDesign(loc, 'x', {k: (v, f) for k, v, f in zip(KEYS, (L, g, p, C), flags(mask))})


def chosen(mask, sel):
    if sel == 'all':
        return True, True, True, True
    if sel == 'known':
        return flags(mask)
    return False, False, False, False


def locations(loc, L, mask, sel):
    return actual(loc, L) if chosen(mask, sel)[0] else loc


def deform(A, g, p, C, mask, sel):
    _, fg, fp, fc = chosen(mask, sel)
    if fg:
        A = (1 + g)[:, None] * A
    if fp:
        A = np.exp(1j * p)[:, None] * A
    if fc:
        A = C @ A
    return A


class Visible(ArrayDesign):
    """Array whose steering matrix, whatever is asked, is the one of a chosen perturbation set."""

    def __init__(self, loc, L, g, p, C, mask, sel):
        super().__init__(loc, 'visible')
        self.args = (loc, L, g, p, C, mask, sel)

    def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all'):
        loc, L, g, p, C, mask, sel = self.args
        x = locations(loc, L, mask, sel)
        s = sources.locations
        if isinstance(sources, FarField1DSourcePlacement):
            A = A_ff1(x, s, sources.units[0], wavelength)
        elif isinstance(sources, FarField2DSourcePlacement):
            A = A_ff2(x, s, sources.units[0], wavelength)
        else:
            A = A_nf(x, s, wavelength)
        if compute_derivatives:
            D = A * (1j * dphase_ff1(x, s, sources.units[0], wavelength))
            return deform(A, g, p, C, mask, sel), deform(D, g, p, C, mask, sel)
        return deform(A, g, p, C, mask, sel)


# ------------------------------------------------------------ the selector itself
def impl_selector(loc: 'f[M,D]', L: 'f[M,2]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-1,1)', wl: 'f+', mask: '{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}', sel: "{'all','known','none'}"):
    """sizes: M>=1, K>=1, D=1|2|3"""
    a = mixed(loc, L, g, p, C, mask)
    s = FarField1DSourcePlacement(th)
    return a.steering_matrix(s, wl, perturbations=sel), a.steering_matrix(s, wl, True, sel)


def spec_selector(loc, L, g, p, C, th, wl, mask, sel):
    v = Visible(loc, L, g, p, C, mask, sel)
    s = FarField1DSourcePlacement(th)
    return v.steering_matrix(s, wl), v.steering_matrix(s, wl, True)


def impl_selector_default(loc: 'f[M,D]', L: 'f[M,E]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', x: 'f[K,2] in (0.1,1)', wl: 'f+', mask: '{0,6,9,15}', near: '{True,False}'):
    """sizes: M>=1, K>=1, D=1|2, E=1|2|3"""
    s = NearField2DSourcePlacement(x) if near else FarField2DSourcePlacement(x)
    return mixed(loc, L, g, p, C, mask).steering_matrix(s, wl)


def spec_selector_default(loc, L, g, p, C, x, wl, mask, near):
    y = actual(loc, L)
    return deform(A_nf(y, x, wl) if near else A_ff2(y, x, 'rad', wl), g, p, C, mask, 'all')


def impl_selector_2d(loc: 'f[M,D]', L: 'f[M,E]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', x: 'f[K,2] in (0.1,1)', wl: 'f+', mask: '{1,6,9,14}', near: '{True,False}', sel: "{'known','none'}"):
    """sizes: M>=1, K>=1, D=1|2, E=1|2|3"""
    s = NearField2DSourcePlacement(x) if near else FarField2DSourcePlacement(x)
    return mixed(loc, L, g, p, C, mask).steering_matrix(s, wl, False, sel)


def spec_selector_2d(loc, L, g, p, C, x, wl, mask, near, sel):
    y = locations(loc, L, mask, sel)
    return deform(A_nf(y, x, wl) if near else A_ff2(y, x, 'rad', wl), g, p, C, mask, sel)


def impl_selector_elements(loc: 'f[M,2]', L: 'f[M,2]', x: 'f[K,2] in (0.1,1)', wl: 'f+', known: '{True,False}', sel: "{'all','known','none'}"):
    """sizes: M=2, K=1|2"""
    e = CustomNonisotropicSensor(lambda r, az, el, pol: np.sin(az) + r)
    a = ArrayDesign(loc, 'x', {'location_errors': (L, known)}, e)
    return a.steering_matrix(NearField2DSourcePlacement(x), wl, perturbations=sel)


def spec_selector_elements(loc, L, x, wl, known, sel):
    y = actual(loc, L) if sel == 'all' or sel == 'known' and known else loc
    dx, dy = x[:, 0] - y[:, 0][:, None], x[:, 1] - y[:, 1][:, None]
    return (np.sin(np.arctan2(dy, dx)) + np.sqrt(dx ** 2 + dy ** 2)) * A_nf(y, x, wl)


def impl_selector_unperturbed(loc: 'f[M,D]', th: 'f[K] in (-1,1)', wl: 'f+', sel: "{'all','known','none'}"):
    """sizes: M>=1, K>=1, D=1|2|3"""
    return ArrayDesign(loc, 'x').steering_matrix(FarField1DSourcePlacement(th), wl, perturbations=sel)


def spec_selector_unperturbed(loc, th, wl, sel):
    return A_ff1(loc, th, 'rad', wl)


def impl_bad_selector(loc: 'f[M,D]', g: 'f[M]', th: 'f[K] in (-1,1)', wl: 'f+', perturbed: '{True,False}', sel: "{'unknown','ALL','',None,True,'al'}", derivatives: '{True,False}'):
    """sizes: M>=1, K>=1, D=1|2|3"""
    a = ArrayDesign(loc, 'x', {'gain_errors': (g, True)} if perturbed else [])
    a.steering_matrix(FarField1DSourcePlacement(th), wl, derivatives, sel)


def spec_bad_selector(loc, g, th, wl, perturbed, sel, derivatives):
    raise ValueError('selector')


def impl_bad_selector_bound(loc: 'f[M,D]', g: 'f[M]', th: 'f[K] in (-1,1)', P: 'H[K,K]', s: 'f+', wl: 'f+', sel: "{'unknown','Known',''}"):
    """sizes: M=3, K=1|2, D=1"""
    ecov_music_1d(ArrayDesign(loc, 'x', {'gain_errors': (g, True)}), FarField1DSourcePlacement(th), wl, P, s, 1, sel)


def spec_bad_selector_bound(loc, g, th, P, s, wl, sel):
    raise ValueError('selector')


# ------------------------------------------------------------ estimators
def spectral(name, a, wl, grid, **kw):
    return {'bartlett': BartlettBeamformer, 'mvdr': MVDRBeamformer, 'music': MUSIC, 'minnorm': MinNorm}[name](a, wl, grid, **kw)


def impl_spectral(loc: 'f[M,D]', L: 'f[M,2]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', R: 'H[M,M]', k: 'i in [1,M-1]', x: 'f[N] in (-1,1)', wl: 'f+', mask: '{0,1,2,4,8,7,11,13,14,15}', name: "{'bartlett','mvdr','music','minnorm'}"):
    """sizes: M>=2, N>=1, D=1"""
    return spectral(name, mixed(loc, L, g, p, C, mask), wl, FarField1DSearchGrid(axes=(x,)), peak_finder=lambda s: (np.arange(0),)).estimate(R, k, return_spectrum=True)[-1]


def spec_spectral(loc, L, g, p, C, R, k, x, wl, mask, name):
    return spectral(name, Visible(loc, L, g, p, C, mask, 'known'), wl, FarField1DSearchGrid(axes=(x,)), peak_finder=lambda s: (np.arange(0),)).estimate(R, k, return_spectrum=True)[-1]


def impl_spectral_2d(loc: 'f[M,D]', L: 'f[M,3]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', R: 'H[M,M]', k: 'i in [1,M-1]', x: 'f[N] in (-1,1)', y: 'f[P] in (-1,1)', wl: 'f+', mask: '{0,5,10,15}', near: '{True,False}', caching: '{True,False}'):
    """sizes: M>=2, N>=1, P>=1, D=2"""
    grid = NearField2DSearchGrid(axes=(x, y)) if near else FarField2DSearchGrid(axes=(x, y))
    e = MVDRBeamformer(mixed(loc, L, g, p, C, mask), wl, grid, enable_caching=caching, peak_finder=lambda s: (np.arange(0), np.arange(0)))
    e.estimate(R, k)
    return e.estimate(R, k, return_spectrum=True)[-1]


def spec_spectral_2d(loc, L, g, p, C, R, k, x, y, wl, mask, near, caching):
    grid = NearField2DSearchGrid(axes=(x, y)) if near else FarField2DSearchGrid(axes=(x, y))
    return MVDRBeamformer(Visible(loc, L, g, p, C, mask, 'known'), wl, grid, peak_finder=lambda s: (np.arange(0), np.arange(0))).estimate(R, k, return_spectrum=True)[-1]


def impl_refined(loc: 'f[M,D]', L: 'f[M,1]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', R: 'H[M,M]', wl: 'f+', mask: '{0,3,12,15}'):
    """sizes: M=2, D=1"""
    e = BartlettBeamformer(mixed(loc, L, g, p, C, mask), wl, FarField1DSearchGrid(axes=(np.linspace(-1, 1, 3),)), peak_finder=lambda s: (np.array([1]),))
    ok, s = e.estimate(R, 1, refine_estimates=True, refinement_density=2, refinement_iters=1)
    return ok, s.locations


def spec_refined(loc, L, g, p, C, R, wl, mask):
    e = BartlettBeamformer(Visible(loc, L, g, p, C, mask, 'known'), wl, FarField1DSearchGrid(axes=(np.linspace(-1, 1, 3),)), peak_finder=lambda s: (np.array([1]),))
    ok, s = e.estimate(R, 1, refine_estimates=True, refinement_density=2, refinement_iters=1)
    return ok, s.locations


def impl_ml(loc: 'f[M,D]', L: 'f[M,2]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', R: 'H[M,M]', th: 'f[K] in (-1,1)', x: 'f[K] in (-1,1)', wl: 'f+', mask: '{0,1,2,4,8,7,11,13,14,15}', name: "{'cml','wsf'}"):
    """sizes: M>=2, K>=1, D=1
    assume: K<M
    fallback: M=2 K=1; M=3 K=2"""
    return posed(named(name)(mixed(loc, L, g, p, C, mask), wl), R, FarField1DSourcePlacement(th))['fun'](x)


def spec_ml(loc, L, g, p, C, R, th, x, wl, mask, name):
    A = deform(A_ff1(locations(loc, L, mask, 'known'), x, 'rad', wl), g, p, C, mask, 'known')
    return nll(name, A, R, x.shape[0])


class Recorder(ArrayDesign):
    """Array with a free steering matrix for each perturbation set; stub of the perturbation machinery."""

    def __init__(self, m):
        super().__init__(np.zeros((m, 2)), 'recorder')

    def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all'):
        return probe.field('a' + perturbations, self.size, sources.locations, wavelength)


def impl_ml_sets(m: 'size', R: 'H[m,m]', th: 'f[K] in (-1,1)', x: 'f[K] in (-1,1)', wl: 'f+', name: "{'aml','cml','wsf'}"):
    """sizes: K=1|2, m=3"""
    v = posed(named(name)(Recorder(m), wl), R, FarField1DSourcePlacement(th))['fun'](x)
    probe.require(v < np.inf)
    return v


def spec_ml_sets(m, R, th, x, wl, name):
    return nll(name, probe.field('aknown', m, x, wl), R, x.shape[0])


def impl_sparse(loc: 'f[M,D]', L: 'f[M,1]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', R: 'H[M,M]', x: 'f[N] in (-1,1)', l: 'f+', wl: 'f+', mask: '{0,1,2,4,8,6,9}'):
    """sizes: M>=1, N>=1, D=1"""
    e = SparseCovarianceMatching(mixed(loc, L, g, p, C, mask), wl, FarField1DSearchGrid(axes=(x,)), peak_finder=lambda s: (np.arange(0),))
    return e.estimate(R, 1, l, return_spectrum=True)[-1]


def spec_sparse(loc, L, g, p, C, R, x, l, wl, mask):
    e = SparseCovarianceMatching(Visible(loc, L, g, p, C, mask, 'known'), wl, FarField1DSearchGrid(axes=(x,)), peak_finder=lambda s: (np.arange(0),))
    return e.estimate(R, 1, l, return_spectrum=True)[-1]


def impl_group_sparse(loc: 'f[M,D]', L: 'f[M,1]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', Y: 'c[M,T]', x: 'f[N] in (-1,1)', l: 'f+', wl: 'f+', mask: '{0,1,2,4,8,6,9,15}'):
    """sizes: M>=1, N>=1, T>=1, D=1"""
    e = GroupSparseEstimator(mixed(loc, L, g, p, C, mask), wl, FarField1DSearchGrid(axes=(x,)), Y.shape[1], peak_finder=lambda s: (np.arange(0),))
    return e.estimate(Y, 1, l, return_spectrum=True)[-1]


def spec_group_sparse(loc, L, g, p, C, Y, x, l, wl, mask):
    e = GroupSparseEstimator(Visible(loc, L, g, p, C, mask, 'known'), wl, FarField1DSearchGrid(axes=(x,)), Y.shape[1], peak_finder=lambda s: (np.arange(0),))
    return e.estimate(Y, 1, l, return_spectrum=True)[-1]


# ------------------------------------------------------------ snapshots and bounds
def impl_snapshots(loc: 'f[M,D]', L: 'f[M,2]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-1,1)', S: 'c[K,N]', wl: 'f+', mask: '{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}'):
    """sizes: M>=1, K>=1, N>=1, D=1|2"""
    return get_narrowband_snapshots(mixed(loc, L, g, p, C, mask), FarField1DSourcePlacement(th), wl, Fixed(S), n_snapshots=S.shape[1])


def spec_snapshots(loc, L, g, p, C, th, S, wl, mask):
    return deform(A_ff1(actual(loc, L), th, 'rad', wl), g, p, C, mask, 'all') @ S


def bound_of(which, a, th, wl, P, s):
    src = FarField1DSourcePlacement(th)
    if which == 'sto':
        return crb_sto_farfield_1d(a, src, wl, P, s, 7)
    if which == 'det':
        return crb_det_farfield_1d(a, src, wl, P, s, 7)
    if which == 'stouc':
        return crb_stouc_farfield_1d(a, src, wl, np.real(np.diag(P)), s, 7)
    return ecov_music_1d(a, src, wl, P, s, 7)


def impl_bounds(loc: 'f[M,1]', L: 'f[M,2]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-1,1)', P: 'H[K,K]', s: 'f+', wl: 'f+', mask: '{0,1,2,4,8,15}', which: "{'sto','det','stouc','mse'}"):
    """sizes: M=2, K=1"""
    return bound_of(which, mixed(loc, L, g, p, C, mask), th, wl, P, s)


def spec_bounds(loc, L, g, p, C, th, P, s, wl, mask, which):
    return bound_of(which, Visible(loc, L, g, p, C, mask, 'all'), th, wl, P, s)


def impl_mse_selected(loc: 'f[M,1]', L: 'f[M,2]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-1,1)', P: 'H[K,K]', s: 'f+', wl: 'f+', mask: '{0,1,2,4,8,7,15}', sel: "{'all','known','none'}"):
    """sizes: M=2, K=1"""
    return ecov_music_1d(mixed(loc, L, g, p, C, mask), FarField1DSourcePlacement(th), wl, P, s, 7, sel)


def spec_mse_selected(loc, L, g, p, C, th, P, s, wl, mask, sel):
    return ecov_music_1d(Visible(loc, L, g, p, C, mask, sel), FarField1DSourcePlacement(th), wl, P, s, 7)
