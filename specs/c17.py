import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray, UniformCircularArray, GridBasedArrayDesign, CoPrimeArray
from doatools.model.array_elements import CustomNonisotropicSensor
from doatools.model.sources import FarField1DSourcePlacement
from doatools.estimation.grid import FarField1DSearchGrid
from doatools.estimation.core import ensure_covariance_size, ensure_n_resolvable_sources
from doatools.estimation.beamforming import BartlettBeamformer, MVDRBeamformer
from doatools.estimation.music import MUSIC, RootMUSIC1D
from doatools.estimation.min_norm import MinNorm
from doatools.estimation.esprit import Esprit1D
from doatools.estimation.ml import AMLEstimator, CMLEstimator, WSFEstimator
from doatools.estimation.sparse import SparseCovarianceMatching, GroupSparseEstimator
from doatools.estimation.coarray import CoarrayACMBuilder1D
from doatools.estimation.preprocessing import spatial_smooth
import probe


class Table(ArrayDesign):
    """An array of a given size with an arbitrary steering matrix."""

    def __init__(self, m):
        super().__init__(np.zeros((m, 2)), 'table')

    def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all'):
        return probe.field('a', self.size, sources.locations, wavelength)


def grid(n=None):
    return FarField1DSearchGrid(size=3 if n is None else n)


def nopeak(s):
    return (np.arange(0),)


def refused(f):
    """Name of the exception class of the refusal, ValueError for its subclasses, '' when accepted."""
    try:
        f()
    except ValueError:
        return 'ValueError'
    return ''


def spectral(name, a):
    return {'bartlett': BartlettBeamformer, 'mvdr': MVDRBeamformer, 'music': MUSIC, 'minnorm': MinNorm, 'scm': SparseCovarianceMatching}[name](a, 1.0, grid(), peak_finder=nopeak)


# ------------------------------------------------------------ covariance shape and number of sources
def impl_spectral(m: 'size>=1', R: 'c[P,Q]', k: 'i>=1', name: "{'bartlett','mvdr','music','minnorm','scm'}"):
    """sizes: P>=1, Q>=1, m>=1"""
    e = spectral(name, Table(m))
    if name == 'scm':
        return refused(lambda: e.estimate(R, k, 1.5))
    if R.shape[0] == m and R.shape[1] == m:
        return refused(lambda: e.estimate(R + R.conj().T, k))
    return refused(lambda: e.estimate(R, k))


def spec_spectral(m, R, k, name):
    bad = R.shape[0] != m or R.shape[1] != m
    if name in ('music', 'minnorm') and k > m - 1:
        bad = True
    return 'ValueError' if bad else ''


def impl_vector_elements(m: 'size>=1', k: 'i>=1', out: '{2,3}', name: "{'music','minnorm'}"):
    """sizes: m>=1"""
    # the limit is set by the number of elements, whatever each of them puts out
    a = ArrayDesign(np.zeros((m, 2)), 'v', element=CustomNonisotropicSensor(lambda r, az, el, p: r, out))
    e = spectral(name, a)
    probe.assume(k > m - 1)
    return refused(lambda: e.estimate(np.eye(m), k)), refused(lambda: e.estimate(np.eye(out * m), k))


def spec_vector_elements(m, k, out, name):
    return 'ValueError', 'ValueError'


def impl_spectral_ndim(m: 'size>=1', v: 'c[P]', t: 'c[P,Q,T]', name: "{'bartlett','mvdr','music','minnorm','scm'}"):
    """sizes: P>=1, Q>=1, T>=1, m>=2"""
    e = spectral(name, Table(m))
    x = (1, 2.0) if name == 'scm' else (1,)
    return refused(lambda: e.estimate(v, *x)), refused(lambda: e.estimate(t, *x)), refused(lambda: e.estimate(np.ones(m), *x)), refused(lambda: e.estimate(np.ones((m, m, 1)), *x)), refused(lambda: e.estimate(np.ones((m, m, m)), *x)), refused(lambda: e.estimate(np.array(1.0), *x))


def spec_spectral_ndim(m, v, t, name):
    return ('ValueError',) * 6


def impl_ml(m: 'size>=1', R: 'c[P,Q]', th: 'f[K] in (-1,1)', name: "{'aml','cml','wsf'}", unit: "{'rad','deg','sin'}"):
    """sizes: P>=1, Q>=1, K>=1, m>=1
    fallback: P=2 Q=2 K=1 m=2; P=3 Q=2 K=1 m=3; P=2 Q=3 K=1 m=3; P=2 Q=2 K=2 m=2; P=3 Q=3 K=2 m=3"""
    e = {'aml': AMLEstimator, 'cml': CMLEstimator, 'wsf': WSFEstimator}[name](Table(m), 1.0)
    s = FarField1DSourcePlacement(th, unit)
    if R.shape[0] == m and R.shape[1] == m and th.shape[0] <= m - 1:
        return '', e.get_max_resolvable_sources(), ''
    # a refused call leaves no estimates behind
    r = refused(lambda: e.estimate(R, s))
    return r, e.get_max_resolvable_sources(), probe.catch(e.get_last_estimates)


def spec_ml(m, R, th, name, unit):
    bad = R.shape[0] != m or R.shape[1] != m or th.shape[0] > m - 1
    return 'ValueError' if bad else '', m - 1, 'RuntimeError' if bad else ''


def impl_ml_accepts(m: 'size', R: 'H[m,m]', th: 'f[K] in (-1,1)', name: "{'aml','cml','wsf'}"):
    """sizes: m=2|3, K=1|2
    assume: K<m"""
    e = {'aml': AMLEstimator, 'cml': CMLEstimator, 'wsf': WSFEstimator}[name](Table(m), 1.0)
    return refused(lambda: e.estimate(R, FarField1DSourcePlacement(th)))


def spec_ml_accepts(m, R, th, name):
    return ''


def impl_ml_ndim(m: 'size>=2', v: 'c[P]', t: 'c[P,Q,T]', name: "{'aml','cml','wsf'}"):
    """sizes: P>=1, Q>=1, T>=1, m>=2"""
    e = {'aml': AMLEstimator, 'cml': CMLEstimator, 'wsf': WSFEstimator}[name](Table(m), 1.0)
    s = FarField1DSourcePlacement([0.1])
    return refused(lambda: e.estimate(v, s)), refused(lambda: e.estimate(t, s)), refused(lambda: e.estimate(np.ones((m, m, m)), s)), refused(lambda: e.estimate(np.ones(m), s))


def spec_ml_ndim(m, v, t, name):
    return ('ValueError',) * 4


def impl_root_music(R: 'c[P,Q]', k: 'i>=1', unit: "{'rad','deg','sin'}"):
    """sizes: P>=1, Q>=1
    fallback: P=2 Q=2; P=2 Q=3; P=3 Q=2; P=1 Q=1"""
    bad = R.shape[0] != R.shape[1] or k > R.shape[0] - 1
    if bad:
        return refused(lambda: RootMUSIC1D(1.0).estimate(R, k, unit=unit))
    return ''


def spec_root_music(R, k, unit):
    return 'ValueError' if R.shape[0] != R.shape[1] or k > R.shape[0] - 1 else ''


def impl_root_music_ndim(v: 'c[P]', t: 'c[P,Q,T]', k: 'i>=1'):
    """sizes: P>=1, Q>=1, T>=1"""
    e = RootMUSIC1D(1.0)
    return refused(lambda: e.estimate(v, k)), refused(lambda: e.estimate(t, k)), refused(lambda: e.estimate(t[:, :, 0:1] + np.zeros((1, 1, 1)), 1))


def spec_root_music_ndim(v, t, k):
    return 'ValueError', 'ValueError', 'ValueError'


def impl_helpers(m: 'size>=1', R: 'c[P,Q]', k: 'i>=0', n: 'i>=0'):
    """sizes: P>=1, Q>=1, m>=1"""
    return refused(lambda: ensure_covariance_size(R, Table(m))), refused(lambda: ensure_n_resolvable_sources(k, n))


def spec_helpers(m, R, k, n):
    return 'ValueError' if R.shape[0] != m or R.shape[1] != m else '', 'ValueError' if k > n else ''


# ------------------------------------------------------------ ESPRIT
def impl_esprit_sources(R: 'H[M,M]', k: 'i>=1', d: 'i', formulation: "{'ls','tls'}", rw: "{'default','none'}"):
    """sizes: M>=1
    assume: d<M"""
    if k <= R.shape[0] - d and d >= 1:
        return ''
    return refused(lambda: Esprit1D(1.0).estimate(R, k, None, d, formulation, rw))


def spec_esprit_sources(R, k, d, formulation, rw):
    return 'ValueError' if d < 1 or k > R.shape[0] - d else ''


def impl_esprit_accepts(R: 'H[M,M]', k: '{1,2,3}', d: '{1,2,3}', formulation: "{'ls','tls'}", rw: "{'default','none'}"):
    """sizes: M=3|4"""
    if k > R.shape[0] - d:
        return True
    return Esprit1D(1.0).estimate(R, k, None, d, formulation, rw)[0]


def spec_esprit_accepts(R, k, d, formulation, rw):
    return True


def impl_esprit_weights(R: 'H[M,M]', w: 'f+[Q]', d: 'i in [1,M-1]'):
    """sizes: M=3, Q>=1"""
    return refused(lambda: Esprit1D(1.0).estimate(R, 1, displacement=d, row_weights=w)), refused(lambda: Esprit1D(1.0).estimate(R, 1, displacement=d, row_weights=w[:, None])), refused(lambda: Esprit1D(1.0).estimate(R, 1, displacement=d, row_weights=np.ones((1, 3 - d))))


def spec_esprit_weights(R, w, d):
    return 'ValueError' if w.shape[0] != R.shape[0] - d else '', 'ValueError', 'ValueError'


def impl_esprit_options(R: 'H[M,M]', d: 'i in [1,M-1]'):
    """sizes: M=3"""
    e = Esprit1D(1.0)
    return [refused(lambda: e.estimate(R, 1, displacement=d, formulation=x)) for x in ('svd', 'LS', '', 'tls ')], [refused(lambda: e.estimate(R, 1, displacement=d, row_weights=x)) for x in ('uniform', 'None', '', None, [1.0, 1.0], 2.0, (1.0,))]


def spec_esprit_options(R, d):
    return ['ValueError'] * 4, ['ValueError'] * 7


# ------------------------------------------------------------ sparse estimators
def impl_sparse_refinement(R: 'H[m,m]'):
    """sizes: m=2"""
    # refining this grid at its third point gives a grid of the same size again
    a = SparseCovarianceMatching(Table(2), 1.0, grid(5), peak_finder=lambda s: (np.array([2]),))
    return refused(lambda: a.estimate(R, 1, 0.5, refine_estimates=True, refinement_density=2, refinement_iters=1))


def spec_sparse_refinement(R):
    return 'ValueError'


def impl_group_refinement(Y: 'c[m,N]'):
    """sizes: N=1, m=2"""
    b = GroupSparseEstimator(Table(2), 1.0, grid(5), 1, peak_finder=lambda s: (np.array([2]),))
    return refused(lambda: b.estimate(Y, 1, 0.5, refine_estimates=True, refinement_density=2, refinement_iters=1))


def spec_group_refinement(Y):
    return 'ValueError'


def impl_sparse_sigma(m: 'size>=1', R: 'H[m,m]', l: 'f+', s: 'f+', known: '{True,False}'):
    """sizes: m>=1"""
    a = SparseCovarianceMatching(Table(m), 1.0, grid(), known, peak_finder=nopeak)
    return refused(lambda: a.estimate(R, 1, l)), refused(lambda: a.estimate(R, 1, l, s)), refused(lambda: a.estimate(R, 1, l, sigma=None)), refused(lambda: a.estimate(R, 1, l, sigma=0.0))


def spec_sparse_sigma(m, R, l, s, known):
    x = 'ValueError' if known else ''
    return x, '', x, ''


def impl_sparse_formulation(m: 'size>=1', f: "{'penalizedl1','constrainedl1','constrainedl2','l1','','penalized'}", known: '{True,False}'):
    """sizes: m>=1"""
    return refused(lambda: SparseCovarianceMatching(Table(m), 1.0, grid(), known, f))


def spec_sparse_formulation(m, f, known):
    return '' if f in ('penalizedl1', 'constrainedl1', 'constrainedl2') else 'ValueError'


def impl_snapshot_shape(m: 'size>=1', n: 'size>=1', Y: 'c[P,Q]', l: 'f+'):
    """sizes: P>=1, Q>=1, m>=1, n>=1"""
    return refused(lambda: GroupSparseEstimator(Table(m), 1.0, grid(), n, peak_finder=nopeak).estimate(Y, 1, l))


def spec_snapshot_shape(m, n, Y, l):
    return 'ValueError' if Y.shape[0] != m or Y.shape[1] != n else ''


# ------------------------------------------------------------ coarray and smoothing
def impl_coarray_array(loc: 'f[M,1]', n: '{2,3,4}', d: 'f+'):
    """sizes: M>=1"""
    g2 = GridBasedArrayDesign(np.array([[0, 0], [1, 0], [0, 1]]), 0.5, 'planar')
    c = [ArrayDesign(loc, 'x'), UniformCircularArray(4, 1.0), g2, None, 5]
    return [refused(lambda: CoarrayACMBuilder1D(a)) for a in c], refused(lambda: CoarrayACMBuilder1D(UniformLinearArray(n, d)))


def spec_coarray_array(loc, n, d):
    return ['ValueError'] * 5, ''


def impl_coarray_input(R: 'c[P,Q]', v: 'c[P]', m: '{3,4}', how: "{'ss','da','SS','x','',None}", call: '{True,False}'):
    """sizes: P>=1, Q>=1"""
    b = CoarrayACMBuilder1D(UniformLinearArray(m, 0.5))
    if call:
        return refused(lambda: b(R, how)), refused(lambda: b(v))
    return refused(lambda: b.transform(R, how)), refused(lambda: b.transform(v, 'da'))


def spec_coarray_input(R, v, m, how, call):
    return 'ValueError' if R.shape[0] != m or R.shape[1] != m or how not in ('ss', 'da') else '', 'ValueError'


def impl_smoothing(R: 'c[M,M]', l: 'i', fb: '{True,False}'):
    """sizes: M>=1"""
    return refused(lambda: spatial_smooth(R, l, fb))


def spec_smoothing(R, l, fb):
    return 'ValueError' if l < 1 or l > R.shape[0] else ''


# ------------------------------------------------------------ refused before anything is computed
class Early(ArrayDesign):
    """An array that cannot be used: reaching its steering matrix is an error of another kind."""

    def __init__(self, m):
        super().__init__(np.zeros((m, 2)), 'early')

    def steering_matrix(self, *args, **kwargs):
        raise KeyError('computed')


def impl_early_spectral(m: 'size>=2', R: 'c[P,Q]', k: 'i>=1', cache: '{True,False}', name: "{'bartlett','mvdr','music','minnorm'}"):
    """sizes: P>=1, Q>=1, m>=2"""
    a = Early(m)
    C = {'bartlett': BartlettBeamformer, 'mvdr': MVDRBeamformer, 'music': MUSIC, 'minnorm': MinNorm}[name]
    make = lambda: C(a, 1.0, grid(), peak_finder=nopeak, enable_caching=cache)
    if R.shape[0] == m and R.shape[1] == m:
        R = R + R.conj().T
    return probe.catch(lambda: make().estimate(R, k))


def spec_early_spectral(m, R, k, cache, name):
    bad = R.shape[0] != m or R.shape[1] != m
    if name in ('music', 'minnorm') and k > m - 1:
        bad = True
    return 'ValueError' if bad else 'KeyError'


def impl_early_group(m: 'size>=1', n: 'size>=1', Y: 'c[P,Q]', l: 'f+'):
    """sizes: P>=1, Q>=1, m>=1, n>=1"""
    e = GroupSparseEstimator(Early(m), 1.0, grid(), n, peak_finder=nopeak)
    return probe.catch(lambda: e.estimate(Y, 1, l)), probe.catch(lambda: e.estimate(Y, 1, l, return_spectrum=True))


def spec_early_group(m, n, Y, l):
    r = 'ValueError' if Y.shape[0] != m or Y.shape[1] != n else 'KeyError'
    return r, r


def impl_early_sparse(m: 'size>=1', R: 'c[P,Q]', l: 'f+', known: '{True,False}', given: '{True,False}', form: "{'penalizedl1','constrainedl1','constrainedl2'}"):
    """sizes: P>=1, Q>=1, m>=1"""
    e = SparseCovarianceMatching(Early(m), 1.0, grid(), known, form, peak_finder=nopeak)
    return probe.catch(lambda: e.estimate(R, 1, l, 0.5 if given else None))


def spec_early_sparse(m, R, l, known, given, form):
    return 'ValueError' if R.shape[0] != m or R.shape[1] != m or (known and not given) else 'KeyError'


def impl_early_ml(m: 'size', R: 'c[P,Q]', th: 'f[K] in (-1,1)', name: "{'aml','cml','wsf'}"):
    """sizes: P=2|3|4, Q=2|3|4, K=1|2|3|4, m=3"""
    e = {'aml': AMLEstimator, 'cml': CMLEstimator, 'wsf': WSFEstimator}[name](Early(m), 1.0)
    bad = R.shape[0] != m or R.shape[1] != m or th.shape[0] > m - 1
    if not bad:
        return 'ValueError'
    return probe.catch(lambda: e.estimate(R, FarField1DSourcePlacement(th)))


def spec_early_ml(m, R, th, name):
    return 'ValueError'
