"""Integer-typed inputs give what the equal floating-point inputs give."""
import numpy as np
from doatools.model.arrays import (ArrayDesign, UniformLinearArray, NestedArray, CoPrimeArray, MinimumRedundancyLinearArray,
                                   UniformCircularArray, UniformRectangularArray, GridBasedArrayDesign)
from doatools.model.coarray import WeightFunction1D, compute_location_differences, compute_unique_location_differences
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
from doatools.model.signals import ComplexStochasticSignal, RandomPhaseSignal
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from doatools.estimation.core import get_noise_subspace
from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid, NearField2DSearchGrid
from doatools.estimation.music import MUSIC, RootMUSIC1D, f_music
from doatools.estimation.min_norm import MinNorm
from doatools.estimation.beamforming import BartlettBeamformer, MVDRBeamformer, f_bartlett, f_mvdr
from doatools.estimation.esprit import Esprit1D
from doatools.estimation.sparse import SparseCovarianceMatching, GroupSparseEstimator
from doatools.estimation.coarray import CoarrayACMBuilder1D
from doatools.estimation.preprocessing import spatial_smooth, l1_svd
from doatools.estimation.source_number import aic, mdl, sorte, ld_stat
from doatools.estimation.ml import CMLEstimator, WSFEstimator
from doatools.performance.crb import crb_sto_farfield_1d, crb_det_farfield_1d, crb_stouc_farfield_1d
from doatools.performance.mse import ecov_music_1d, ecov_coarray_music_1d
from doatools.performance.utils import unify_p_to_matrix, unify_p_to_vector, reduce_output_matrix
from doatools.utils.conversion import ae2broad, convert_angles, cart2spherical
from doatools.utils.math import abs_squared, cartesian, khatri_rao, projm, vec
from specs.c20 import Table, Outcome, posed
import probe


def real(x):
    return 1.0 * x


def place(kind, x, unit):
    return FarField1DSourcePlacement(x[:, 0], unit) if kind == 'ff1' else (FarField2DSourcePlacement(x, unit) if kind == 'ff2' else NearField2DSourcePlacement(x))


def sources(loc, x, wl, kind, unit, d):
    s = place(kind, x, unit)
    t = s.as_unit('m' if kind == 'nf' else 'rad')
    u = s.as_unit('m' if kind == 'nf' else 'deg')
    return s.phase_delay_matrix(loc, wl, d and kind == 'ff1'), s.calc_spherical_coords(loc), t.locations, u.locations, s[0:1].as_unit('m' if kind == 'nf' else 'rad').locations


def impl_sources(loc: 'i[M,D]', x: 'i[K,2] in (0,1)', wl: 'i>=1', kind: "{'ff1','ff2','nf'}", unit: "{'rad','deg'}", d: '{True,False}'):
    """sizes: M>=1, D=1|2|3, K>=1"""
    return sources(loc, x, wl, kind, unit, d)


def spec_sources(loc, x, wl, kind, unit, d):
    return sources(real(loc), real(x), real(wl), kind, unit, d)


def impl_array(loc: 'i[M,D]', err: 'i[M,E]', g: 'i[M]', ph: 'i[M]', C: 'i[M,M]', x: 'i[K,2] in (0,1)', wl: 'f+', which: "{'none','loc','gain','phase','mc','all'}", kind: "{'ff1','nf'}"):
    """sizes: M>=1, D=1|2|3, E=1|2|3, K>=1"""
    return array(loc, err, g, ph, C, x, wl, which, kind)


def array(loc, err, g, ph, C, x, wl, which, kind):
    P = {'none': [], 'loc': [LocationErrors(err)], 'gain': [GainErrors(g)], 'phase': [PhaseErrors(ph)], 'mc': [MutualCoupling(C)],
         'all': [LocationErrors(err), GainErrors(g), PhaseErrors(ph), MutualCoupling(C)]}[which]
    a = ArrayDesign(loc, 'a', P)
    return a.steering_matrix(place(kind, x, 'rad'), wl, kind == 'ff1'), a.element_locations, a.actual_element_locations


def spec_array(loc, err, g, ph, C, x, wl, which, kind):
    return array(real(loc), real(err), real(g), real(ph), real(C), real(x), wl, which, kind)


def impl_mixed(loc: 'i[M,D]', err: 'f[M,E]', g: 'f[M]', C: 'c[M,M]', x: 'f[K,2] in (0,1)', wl: 'f+', swap: '{True,False}', kind: "{'ff1','ff2','nf'}"):
    """sizes: M>=1, D=1|2|3, E=1|2|3, K>=1"""
    # integer locations with real errors, and the other way round
    P = [GainErrors(g), MutualCoupling(C)]
    a = ArrayDesign(err, 'a', P + [LocationErrors(loc)]) if swap else ArrayDesign(loc, 'a', P + [LocationErrors(err)])
    return a.steering_matrix(place(kind, x, 'rad'), wl), a.actual_element_locations


def spec_mixed(loc, err, g, C, x, wl, swap, kind):
    P = [GainErrors(g), MutualCoupling(C)]
    a = ArrayDesign(err, 'a', P + [LocationErrors(real(loc))]) if swap else ArrayDesign(real(loc), 'a', P + [LocationErrors(err)])
    return a.steering_matrix(place(kind, x, 'rad'), wl), a.actual_element_locations


def designs(kind, n, d):
    return {'ula': lambda: UniformLinearArray(n, d), 'nested': lambda: NestedArray(2, 2, d), 'coprime': lambda: CoPrimeArray(2, 3, d), 'mrla': lambda: MinimumRedundancyLinearArray(4, d),
            'uca': lambda: UniformCircularArray(n, d), 'ura': lambda: UniformRectangularArray(2, 3, d), 'grid': lambda: GridBasedArrayDesign(np.array([[0, 1], [2, 0]]), d)}[kind]()


def impl_designs(kind: "{'ula','nested','coprime','mrla','uca','ura','grid'}", n: 'size>=1', d: 'i>=1'):
    a = designs(kind, n, d)
    return a.element_locations, a.actual_element_locations


def spec_designs(kind, n, d):
    a = designs(kind, n, real(d))
    return a.element_locations, a.actual_element_locations


def impl_lists(a: 'i', b: 'i', c: 'i', e: 'i', wl: 'f+'):
    # lists of Python integers
    s = FarField1DSourcePlacement([a, b]).phase_delay_matrix(np.array([[c], [e]]), wl)
    t = NearField2DSourcePlacement([[a, b], [c, e]])
    d = ArrayDesign([[a, b], [c, e]], 'a', [LocationErrors([[0.5, 0.25], [0, 1]]), GainErrors([0, 1]), PhaseErrors([1, 0]), MutualCoupling([[1, 0], [0, 1]])])
    return s, t.phase_delay_matrix(np.array([[9.0, 0.0]]), wl), d.actual_element_locations, d.steering_matrix(t, wl)


def spec_lists(a, b, c, e, wl):
    a, b, c, e = real(a), real(b), real(c), real(e)
    s = FarField1DSourcePlacement(np.array([a, b])).phase_delay_matrix(np.array([[c], [e]]), wl)
    t = NearField2DSourcePlacement(np.array([[a, b], [c, e]]))
    d = ArrayDesign(np.array([[a, b], [c, e]]), 'a', [LocationErrors(np.array([[0.5, 0.25], [0.0, 1.0]])), GainErrors(np.array([0.0, 1.0])), PhaseErrors(np.array([1.0, 0.0])), MutualCoupling(np.eye(2))])
    return s, t.phase_delay_matrix(np.array([[9.0, 0.0]]), wl), d.actual_element_locations, d.steering_matrix(t, wl)


def grids(kind, x, y, unit):
    return FarField1DSearchGrid(unit=unit, axes=(x,)) if kind == 'ff1' else (FarField2DSearchGrid(unit=unit, axes=(x, y)) if kind == 'ff2' else NearField2DSearchGrid(axes=(x, y)))


def grid_view(g, n):
    c = (1,) * n
    r = g.create_refined_grid_at(c, density=4, span=1)
    q = g.create_refined_grids_at(*(np.array([k]) for k in c), density=3, span=1)[0]
    return g.source_placement.locations, r.axes, r.source_placement.locations, q.axes, r.create_refined_grid_at((2,) * n, density=2).axes


def impl_grids(x: 'i[L] in (-1,1)', y: 'i[N] in (0,1)', kind: "{'ff1','ff2','nf'}", unit: "{'rad','deg'}"):
    """sizes: L=3, N=4"""
    return grid_view(grids(kind, x, y, unit), 1 if kind == 'ff1' else 2)


def spec_grids(x, y, kind, unit):
    return grid_view(grids(kind, real(x), real(y), unit), 1 if kind == 'ff1' else 2)


def impl_grid_bounds(lo: 'i in (-1,0)', hi: 'i in (1,2)', n: 'size>=1', unit: "{'rad','deg','sin'}"):
    return bounded(lo, hi, n, unit)


def bounded(lo, hi, n, unit):
    return (FarField1DSearchGrid(lo, hi, n, unit).axes, FarField2DSearchGrid((lo, lo), (hi, hi), (n, 2), 'deg').axes, FarField2DSearchGrid([lo, 0], [hi, 1], n).axes,
            NearField2DSearchGrid((lo, lo), (hi, hi), (2, n)).axes, NearField2DSearchGrid([lo, hi], [hi, lo], n).axes, FarField1DSearchGrid(lo, size=n, unit=unit).axes)


def spec_grid_bounds(lo, hi, n, unit):
    return bounded(real(lo), real(hi), n, unit)


def impl_segments(a: 'i in (-9,9)', b: 'i in (-9,9)', c: 'i in (-9,9)', d: 'i in (-9,9)', n: 'i in [1,3]', m: 'i in [1,3]', arr: '{True,False}'):
    return segments(a, b, c, d, n, m, arr)


def segments(a, b, c, d, n, m, arr):
    start, stop = [a, c], [b, d]
    return FarField1DSearchGrid(np.array(start) if arr else start, np.array(stop) if arr else stop, [n, m], 'deg').axes


def spec_segments(a, b, c, d, n, m, arr):
    return segments(real(a), real(b), real(c), real(d), n, m, arr)


def one(s):
    return (np.array([1]),)


def show(r):
    return [r[0], None if r[1] is None else r[1].locations] + list(r[2:])


def spectral(name, x, R, refine):
    e = {'music': MUSIC, 'minnorm': MinNorm, 'bartlett': BartlettBeamformer, 'mvdr': MVDRBeamformer}[name](Table(R.shape[0]), 1.0, FarField1DSearchGrid(unit='deg', axes=(x,)), peak_finder=one)
    return show(e.estimate(R, 1, return_spectrum=True, refine_estimates=refine, refinement_density=3, refinement_iters=2))


def impl_spectral(R: 'i[m,m]', x: 'i[L] in (-9,9)', name: "{'music','minnorm','bartlett','mvdr'}", refine: '{True,False}'):
    """sizes: m=2, L=3"""
    S = R + R.T
    return spectral(name, x, S, refine)


def spec_spectral(R, x, name, refine):
    return spectral(name, real(x), real(R + R.T), refine)


def impl_functions(A: 'i[M,K]', R: 'i[M,M]', E: 'i[M,L]'):
    S = R + R.T
    return f_music(A, E), f_bartlett(A, S), f_mvdr(A, S), projm(A), projm(A, True), khatri_rao(A, A), vec(R), abs_squared(A), get_noise_subspace(S, 1)


def spec_functions(A, R, E):
    A, E, R = real(A), real(E), real(R)
    S = R + R.T
    return f_music(A, E), f_bartlett(A, S), f_mvdr(A, S), projm(A), projm(A, True), khatri_rao(A, A), vec(R), abs_squared(A), get_noise_subspace(S, 1)


def impl_mixed_functions(A: 'i[M,K]', B: 'c[M,K]', X: 'f[M,K]', R: 'H[M,M]', E: 'i[M,L]', T: 'i[M,M]'):
    # one argument integer, the others not
    return khatri_rao(A, B), khatri_rao(A, X), khatri_rao(B, A), f_music(B, E), f_music(A, X), f_bartlett(A, R), f_mvdr(A, R), f_bartlett(B, T + T.T), f_mvdr(B, T + T.T)


def spec_mixed_functions(A, B, X, R, E, T):
    A, E, T = real(A), real(E), real(T)
    return khatri_rao(A, B), khatri_rao(A, X), khatri_rao(B, A), f_music(B, E), f_music(A, X), f_bartlett(A, R), f_mvdr(A, R), f_bartlett(B, T + T.T), f_mvdr(B, T + T.T)


def impl_search_free(R: 'i[m,m]', d: 'i>=1', wl: 'i>=1', w: 'i[q] in (1,9)', name: "{'rootmusic','ls','tls'}", unit: "{'rad','deg','sin'}"):
    """sizes: m=3, q=2
    paths: 100"""
    S = R + R.T
    return search_free(S, d, wl, w, name, unit)


def search_free(S, d, wl, w, name, unit):
    if name == 'rootmusic':
        return show(RootMUSIC1D(wl).estimate(S[1:, 1:], 1, d, unit))
    return show(Esprit1D(wl).estimate(S, 1, d, formulation=name, row_weights=w, unit=unit))


def spec_search_free(R, d, wl, w, name, unit):
    return search_free(real(R + R.T), real(d), real(wl), real(w), name, unit)


def impl_preprocessing(R: 'i[M,M]', l: 'i in [1,M]', fb: '{True,False}', Y: 'i[M,N]', k: 'i>=1'):
    return spatial_smooth(R, l, fb), l1_svd(Y, k)


def spec_preprocessing(R, l, fb, Y, k):
    return spatial_smooth(real(R), l, fb), l1_svd(real(Y), k)


def impl_coarray(R: 'i[M,M]', kind: "{'ula','nested'}", how: "{'ss','da'}"):
    """sizes: M=3"""
    return CoarrayACMBuilder1D(UniformLinearArray(3, 1) if kind == 'ula' else NestedArray(1, 2, 1)).transform(R, how)


def spec_coarray(R, kind, how):
    return CoarrayACMBuilder1D(UniformLinearArray(3, 1.0) if kind == 'ula' else NestedArray(1, 2, 1.0)).transform(real(R), how)


def impl_sorte(l: 'i[M] in (1,99)'):
    """sizes: M=5
    paths: 300"""
    return sorte(l)


def spec_sorte(l):
    return sorte(real(l))


def impl_large_eigenvalues(l: 'i[M] in (1,9)', n: 'i>=2', k: '{0,1}'):
    """sizes: M=4"""
    # the product of the eigenvalues exceeds the range of machine integers
    return ld_stat(l * 100000000, k, n), aic(l * 100000000, n), mdl(l * 100000000, n)


def spec_large_eigenvalues(l, n, k):
    l = real(l)
    return ld_stat(l * 1e8, k, n), aic(l * 1e8, n), mdl(l * 1e8, n)


def impl_source_number(l: 'i[M] in (1,9)', R: 'i[M,M]', n: 'i>=2', k: 'i>=0'):
    """sizes: M=4
    assume: k<M"""
    return ld_stat(l, k, n), aic(l, n), mdl(l, n), sorte(l), sorte(R + R.T)


def spec_source_number(l, R, n, k):
    l, R = real(l), real(R)
    return ld_stat(l, k, n), aic(l, n), mdl(l, n), sorte(l), sorte(R + R.T)


def impl_ml(R: 'i[m,m]', th: 'i[K] in (-1,1)', x: 'f[K] in (-1,1)', name: "{'cml','wsf'}"):
    """sizes: m=3, K=1|2"""
    e = {'cml': CMLEstimator, 'wsf': WSFEstimator}[name](Table(3), 1)
    p = posed(e, R + R.T, FarField1DSourcePlacement(th))
    return p['fun'](x), p['x0'], p['bounds'], e.get_last_estimates().locations


def spec_ml(R, th, x, name):
    e = {'cml': CMLEstimator, 'wsf': WSFEstimator}[name](Table(3), 1.0)
    p = posed(e, real(R + R.T), FarField1DSourcePlacement(real(th)))
    return p['fun'](x), p['x0'], p['bounds'], e.get_last_estimates().locations


def ml_result(R, x, y, kind, ok):
    probe.result_of('minimize', Outcome(y.reshape(-1) if kind != 'ff1' else y[:, 0], ok))
    e = CMLEstimator(Table(3), 1)
    return show(e.estimate(R, place(kind, x, 'rad')))


def impl_ml_result(R: 'i[m,m]', x: 'i[K,2] in (0,1)', y: 'f[K,2] in (0,1)', kind: "{'ff1','ff2','nf'}", ok: '{True,False}'):
    """sizes: m=3, K=1|2"""
    # the estimate is the optimiser's point, never truncated
    return ml_result(R + R.T, x, y, kind, ok)


def spec_ml_result(R, x, y, kind, ok):
    return [True, y[:, 0] if kind == 'ff1' else y] if ok else [False, None]


def impl_sparse(R: 'i[m,m]', Y: 'i[m,N]', l: 'i>=1', s: 'i>=1', known: '{True,False}'):
    """sizes: m=2, N=2"""
    return sparse(R + R.T, Y, l, s, known)


def sparse(S, Y, l, s, known):
    g = FarField1DSearchGrid(-1.0, 1.0, 3)
    return (show(SparseCovarianceMatching(Table(2), 1.0, g, known, peak_finder=one).estimate(S, 1, l, s, return_spectrum=True)),
            show(GroupSparseEstimator(Table(2), 1.0, g, 2, peak_finder=one).estimate(Y, 1, l, return_spectrum=True)))


def spec_sparse(R, Y, l, s, known):
    return sparse(real(R + R.T), real(Y), real(l), real(s), known)


def bounds(a, th, unit, wl, p, P, s, n):
    t = FarField1DSourcePlacement(th, unit)
    return crb_stouc_farfield_1d(a, t, wl, p, s, n), crb_sto_farfield_1d(a, t, wl, P, s, n), crb_det_farfield_1d(a, t, wl, P, s, n), ecov_music_1d(a, t, wl, P, s, n)


def impl_bounds(loc: 'i[M,1]', th: 'i[K] in (-1,1)', unit: "{'rad','deg'}", p: 'i[K] in (1,9)', P: 'i[K,K] in (1,9)', s: 'i>=1', n: 'i>=1', wl: 'i>=1'):
    """sizes: M=3, K=2"""
    return bounds(ArrayDesign(loc, 'a'), th, unit, wl, p, P, s, n)


def spec_bounds(loc, th, unit, p, P, s, n, wl):
    return bounds(ArrayDesign(real(loc), 'a'), real(th), unit, real(wl), real(p), real(P), real(s), n)


def impl_coarray_bound(th: 'i[K] in (-1,1)', p: 'i[K] in (1,9)', s: 'i>=1', n: 'i>=1', d: 'i>=1', wl: 'i>=1'):
    """sizes: K=1|2"""
    return ecov_coarray_music_1d(NestedArray(1, 2, d), FarField1DSourcePlacement(th), wl, p, s, n)


def spec_coarray_bound(th, p, s, n, d, wl):
    return ecov_coarray_music_1d(NestedArray(1, 2, real(d)), FarField1DSourcePlacement(real(th)), real(wl), real(p), real(s), n)


def impl_powers(p: 'i', v: 'i[K]', P: 'i[K,K]', a: 'i', b: 'i', mode: "{'full','diag','mean_diag'}"):
    return unify_p_to_matrix(p, 3), unify_p_to_vector(p, 3), unify_p_to_matrix(v, v.shape[0]), unify_p_to_vector(P, v.shape[0]), unify_p_to_matrix([a, b], 2), unify_p_to_vector([a, b], 2), reduce_output_matrix(P, mode)


def spec_powers(p, v, P, a, b, mode):
    p, v, P, a, b = real(p), real(v), real(P), real(a), real(b)
    return unify_p_to_matrix(p, 3), unify_p_to_vector(p, 3), unify_p_to_matrix(v, v.shape[0]), unify_p_to_vector(P, v.shape[0]), unify_p_to_matrix([a, b], 2), unify_p_to_vector([a, b], 2), reduce_output_matrix(P, mode)


def impl_conversions(x: 'i[L,2]', u: "{'rad','deg','sin'}", v: "{'rad','deg','sin'}", c: 'i[L,D]', a: 'i[L]', b: 'i[N]'):
    """sizes: L>=1, D=1|2|3, N>=1"""
    return ae2broad(x), convert_angles(x, u, v), cart2spherical(c), cartesian(a, b)


def spec_conversions(x, u, v, c, a, b):
    return ae2broad(real(x)), convert_angles(real(x), u, v), cart2spherical(real(c)), cartesian(real(a), real(b))


def impl_differences(loc: 'i[M,D]'):
    """sizes: M>=1, D=1|2|3"""
    return compute_location_differences(loc)


def spec_differences(loc):
    return compute_location_differences(real(loc))


def emitted(m, n, c, v, kind):
    s = {'scalar': lambda: ComplexStochasticSignal(m, c), 'vector': lambda: ComplexStochasticSignal(m, v), 'phase': lambda: RandomPhaseSignal(m, c), 'phases': lambda: RandomPhaseSignal(m, v)}[kind]()
    return s.emit(n), s.emit(n + 1)


def impl_signals(m: 'size>=1', n: 'size>=1', c: 'i>=1', v: 'i[m] in (1,9)', kind: "{'scalar','vector','phase','phases'}"):
    return emitted(m, n, c, v, kind)


def spec_signals(m, n, c, v, kind):
    return emitted(m, n, real(c), real(v), kind)


def impl_grid_designs(ix: 'i[M,D] in (0,9)', B: 'i[D,E]', d: 'i[D] in (1,9)', s: 'i>=1', how: "{'bases','list','array','scalar'}"):
    """sizes: M>=1, D=1|2, E=1|2|3"""
    a = grid_design(ix, B, d, s, how)
    return a.element_locations, a.bases, a.d0, a.actual_element_locations


def grid_design(ix, B, d, s, how):
    if how == 'bases':
        return GridBasedArrayDesign(ix, bases=B)
    return GridBasedArrayDesign(ix, s if how == 'scalar' else (d if how == 'array' else [v for v in d]))


def spec_grid_designs(ix, B, d, s, how):
    a = grid_design(real(ix), real(B), real(d), real(s), how)
    return a.element_locations, a.bases, a.d0, a.actual_element_locations
