"""Reuse: whatever was called before on the same objects, a call gives what a fresh object gives."""
import numpy as np
import warnings
from doatools.model.arrays import ArrayDesign, UniformLinearArray, NestedArray, UniformCircularArray, GridBasedArrayDesign
from doatools.model.array_elements import CustomNonisotropicSensor
from doatools.model.coarray import WeightFunction1D
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from doatools.estimation.core import SpectrumBasedEstimatorBase
from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid, NearField2DSearchGrid
from doatools.estimation.music import MUSIC, RootMUSIC1D
from doatools.estimation.min_norm import MinNorm
from doatools.estimation.beamforming import BartlettBeamformer, MVDRBeamformer
from doatools.estimation.esprit import Esprit1D
from doatools.estimation.ml import AMLEstimator, CMLEstimator, WSFEstimator
from doatools.estimation.sparse import SparseCovarianceMatching, GroupSparseEstimator
from doatools.estimation.coarray import CoarrayACMBuilder1D
from doatools.optim.l1lsq import L1RegularizedLeastSquaresProblem, L21RegularizedLeastSquaresProblem
from specs.c20 import Table, posed
import probe


def kinds(name):
    return {'music': MUSIC, 'minnorm': MinNorm, 'bartlett': BartlettBeamformer, 'mvdr': MVDRBeamformer}[name]


def quiet(f):
    """Runs a call that may be refused."""
    return probe.catch(f)


def one(s):
    return (np.array([2]),)


def show(r):
    return [r[0], None if r[1] is None else r[1].locations, None if r[1] is None else r[1].units] + list(r[2:])


def earlier(e, what, Q, m):
    """Calls made on the estimator before the one under test."""
    if what == 'other':
        e.estimate(Q, 1)
    elif what == 'spectrum':
        e.estimate(Q, 1, return_spectrum=True)
    elif what == 'refined':
        e.estimate(Q, 1, refine_estimates=True, refinement_density=2, refinement_iters=2)
    elif what == 'few':
        quiet(lambda: e.estimate(Q, 2))
    elif what == 'shape':
        quiet(lambda: e.estimate(Q[:, 1:], 1))
    elif what == 'many':
        quiet(lambda: e.estimate(Q, m + 3))
    elif what == 'keyword':
        quiet(lambda: e.estimate(Q, 1, no_such_option=True))
    else:
        quiet(lambda: e.estimate(Q, 1, refine_estimates=True, refinement_density=0))
        e.estimate(Q, 1, refine_estimates=True, refinement_iters=1)
        e.estimate(Q, 1)


def impl_spectral(m: 'size>=1', R: 'H[m,m]', Q: 'H[m,m]', name: "{'music','minnorm','bartlett','mvdr'}", what: "{'other','spectrum','refined','few','shape','many','keyword','mixed'}", cache: '{True,False}'):
    """sizes: m=4"""
    e = kinds(name)(Table(m), 1.0, FarField1DSearchGrid(-1.0, 1.0, 5), peak_finder=one, enable_caching=cache)
    earlier(e, what, Q, m)
    return show(e.estimate(R, 1, return_spectrum=True)), show(e.estimate(R, 1))


def spec_spectral(m, R, Q, name, what, cache):
    e = kinds(name)(Table(m), 1.0, FarField1DSearchGrid(-1.0, 1.0, 5), peak_finder=one, enable_caching=not cache)
    r = show(e.estimate(R, 1, return_spectrum=True))
    return r, r[:3]


def impl_refined(m: 'size>=1', R: 'H[m,m]', Q: 'H[m,m]', name: "{'music','bartlett'}", what: "{'other','refined','few','mixed'}", cache: '{True,False}'):
    """sizes: m=2"""
    e = kinds(name)(Table(m), 1.0, FarField1DSearchGrid(-1.0, 1.0, 5), peak_finder=one, enable_caching=cache)
    earlier(e, what, Q, m)
    return show(e.estimate(R, 1, refine_estimates=True, refinement_density=2, refinement_iters=1))


def spec_refined(m, R, Q, name, what, cache):
    e = kinds(name)(Table(m), 1.0, FarField1DSearchGrid(-1.0, 1.0, 5), peak_finder=one)
    return show(e.estimate(R, 1, refine_estimates=True, refinement_density=2, refinement_iters=1))


class User(SpectrumBasedEstimatorBase):
    """Estimator whose spectrum is an arbitrary function of the steering matrix."""

    def estimate(self, w, k, **kwargs):
        return self._estimate(lambda A: np.abs(w @ A) ** 2, k, **kwargs)


def impl_shared_grid(M: 'size>=1', w: 'c[M]', u: 'c[M]', x: 'f[N] in (-1,1)', loc: 'f[M,1]', other: 'f[M,1]', wl: 'f+', wl2: 'f+', cache: '{True,False}'):
    """sizes: N>=4"""
    # two estimators on one grid, with different arrays and wavelengths
    g = FarField1DSearchGrid(axes=(x,))
    a, b = ArrayDesign(loc, 'a'), ArrayDesign(other, 'b')
    e, f, h = (User(*p, peak_finder=one, enable_caching=cache) for p in ((a, wl, g), (b, wl, g), (a, wl2, g)))
    f.estimate(u, 1)
    h.estimate(u, 1)
    r = e.estimate(w, 1, return_spectrum=True)
    r[1].locations[0] = 0.5
    s = e.estimate(w, 1, return_spectrum=True)
    return show(s), show(f.estimate(w, 1, return_spectrum=True))[3], show(h.estimate(w, 1, return_spectrum=True))[3], g.axes[0], g.source_placement.locations


def spec_shared_grid(M, w, u, x, loc, other, wl, wl2, cache):
    def sp(loc, wl):
        return np.abs(w @ np.exp(1j * (2 * np.pi / wl) * loc * np.sin(x))) ** 2
    return [True, x[2:3], ('rad',), sp(loc, wl)], sp(other, wl), sp(loc, wl2), x, x


def impl_shared_array(m: '{2,3}', g: 'f[m]', R: 'H[m,m]', th: 'f[K] in (-1,1)', wl: 'f+'):
    """sizes: m=2|3, K>=1"""
    a = UniformLinearArray(R.shape[0], 0.5)
    s = FarField1DSourcePlacement(th)
    x = a.steering_matrix(s, wl)
    b = a.get_perturbed_copy([GainErrors(g, True)])
    b.steering_matrix(s, wl, True)
    b.steering_matrix(s, wl, perturbations='known')
    MUSIC(b, wl, FarField1DSearchGrid(size=5), peak_finder=one).estimate(R, 1)
    y = a.steering_matrix(s, wl)
    d = a.steering_matrix(s, wl, True)
    return y - x, d[0] - x, a.is_perturbed, a.element_locations - b.element_locations


def spec_shared_array(m, g, R, th, wl):
    n = R.shape[0]
    return np.zeros((n, th.shape[0])), np.zeros((n, th.shape[0])), False, np.zeros((n, 1))


def placement(kind, x, unit):
    return FarField1DSourcePlacement(x[:, 0], unit) if kind == 'ff1' else (FarField2DSourcePlacement(x, unit) if kind == 'ff2' else NearField2DSourcePlacement(x))


def impl_array_calls(loc: 'f[M,D]', err: 'f[M,2]', C: 'c[M,M]', x: 'f[K,2] in (0,1)', y: 'f[L,2] in (0,1)', wl: 'f+', wl2: 'f+', kind: "{'ff1','ff2','nf'}", first: "{'ff1','ff2','nf'}", use: "{'all','known','none'}"):
    """sizes: M>=1, D=1|2|3, K>=1, L>=1"""
    a = ArrayDesign(loc, 'a', [LocationErrors(err, True), MutualCoupling(C)])
    s, t = placement(kind, x, 'rad'), placement(first, y, 'deg')
    a.steering_matrix(t, wl2)
    quiet(lambda: a.steering_matrix(t, wl, False, 'nothing'))
    a.steering_matrix(s, wl2, perturbations='none')
    a.steering_matrix(s, wl, perturbations='known')
    return a.steering_matrix(s, wl, perturbations=use), s.locations, t.locations, a.actual_element_locations


def spec_array_calls(loc, err, C, x, y, wl, wl2, kind, first, use):
    a = ArrayDesign(loc, 'a', [LocationErrors(err, True), MutualCoupling(C)])
    s = placement(kind, x, 'rad')
    A = a.steering_matrix(s, wl, perturbations=use)
    return A, s.locations, y[:, 0] if first == 'ff1' else y, ArrayDesign(loc, 'b', [LocationErrors(err)]).actual_element_locations


def impl_placement_calls(loc: 'f[M,D]', x: 'f[K,2] in (0,1)', wl: 'f+', kind: "{'ff1','ff2','nf'}", d: '{True,False}'):
    """sizes: M>=1, D=1|2|3, K>=2"""
    s = placement(kind, x, 'rad')
    quiet(lambda: s.phase_delay_matrix(loc, wl * 2, True))
    s.calc_spherical_coords(loc)
    s.as_unit('m' if kind == 'nf' else 'deg')
    quiet(lambda: s.as_unit('parsec'))
    s[0:1].phase_delay_matrix(loc, wl)
    s[[1]]
    if kind == 'ff2':
        d = False
    return s.phase_delay_matrix(loc, wl, d), s.calc_spherical_coords(loc), s.locations, s.units, s.valid_ranges, len(s)


def spec_placement_calls(loc, x, wl, kind, d):
    s, t = placement(kind, x, 'rad'), placement(kind, x, 'rad')
    return s.phase_delay_matrix(loc, wl, d and kind != 'ff2'), t.calc_spherical_coords(loc), x[:, 0] if kind == 'ff1' else x, s.units, s.valid_ranges, x.shape[0]


def impl_root_music(m: 'size>=1', R: 'H[m,m]', Q: 'H[n,n]', wl: 'f+', d: 'f+', e: 'f+', what: "{'other','many','shape'}", last: '{True,False}', unit: "{'rad','deg','sin'}"):
    """sizes: m=2, n=2
    paths: 100"""
    if unit == 'sin':
        e = 2 * wl
    r = RootMUSIC1D(wl)
    if what == 'other':
        quiet(lambda: r.estimate(Q, 1, e, unit))
    elif what == 'many':
        quiet(lambda: r.estimate(Q, 5, e))
    else:
        quiet(lambda: r.estimate(Q[:, 1:], 1, e, unit))
    return show(r.estimate(R, 1) if last else r.estimate(R, 1, d))


def spec_root_music(m, R, Q, wl, d, e, what, last, unit):
    return show(RootMUSIC1D(wl).estimate(R, 1, wl / 2 if last else d))


def impl_esprit(m: 'size>=1', R: 'H[m,m]', Q: 'H[n,n]', wl: 'f+', d: 'f+', e: 'f+', w: 'f+[q]', form: "{'ls','tls'}", first: "{'ls','tls'}", unit: "{'rad','deg','sin'}"):
    """sizes: m=3, n=4, q=2"""
    if unit == 'sin':
        e = 2 * wl
    r = Esprit1D(wl)
    r.estimate(Q, 1, e, displacement=2, formulation=first, row_weights=w, unit=unit)
    quiet(lambda: r.estimate(Q, 1, row_weights=w, formulation='none'))
    r.estimate(Q, 2, row_weights='none')
    ok, x = r.estimate(R, 1, d, formulation=form)
    ok, y = r.estimate(R, 1, formulation=form, row_weights='default')
    return x.locations, x.units, y.locations, y.units


def spec_esprit(m, R, Q, wl, d, e, w, form, first, unit):
    ok, x = Esprit1D(wl).estimate(R, 1, d, formulation=form)
    ok, y = Esprit1D(wl).estimate(R, 1, wl / 2, formulation=form)
    return x.locations, ('rad',), y.locations, ('rad',)


def ml(name):
    return {'aml': AMLEstimator, 'cml': CMLEstimator, 'wsf': WSFEstimator}[name]


class UnitTable(Table):
    """The unit of the sources matters too."""

    def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all'):
        return probe.field('a', self.size, sources.locations, wavelength if sources.units[0] == 'rad' else -wavelength)


def impl_ml(m: 'size', R: 'H[m,m]', Q: 'H[m,m]', th: 'f[K] in (-pi/2,pi/2)', ph: 'f[L] in (-1,1)', x: 'f[K] in (-pi/2,pi/2)', z: 'f[L] in (-1,1)', name: "{'cml','wsf'}", fail: '{True,False}'):
    """sizes: m=3, K=1|2, L=1|2"""
    e = ml(name)(UnitTable(m), 1.0)
    f0 = posed(e, Q, FarField1DSourcePlacement(ph, 'sin'))['fun']
    f0(z)
    if fail:
        quiet(lambda: e.estimate(Q[:, 1:], FarField1DSourcePlacement(ph, 'sin')))
        quiet(lambda: e.estimate(Q, FarField1DSourcePlacement([0.1, 0.2, 0.3])))
    p = posed(e, R, FarField1DSourcePlacement(th))
    return p['fun'](x), p['x0'], p['bounds'], p['method'], p['fun'](x)


def spec_ml(m, R, Q, th, ph, x, z, name, fail):
    p = posed(ml(name)(UnitTable(m), 1.0), R, FarField1DSourcePlacement(th))
    v = p['fun'](x)
    return v, p['x0'], p['bounds'], p['method'], v


def impl_ml_shared(m: 'size', R: 'H[m,m]', Q: 'H[m,m]', th: 'f[K] in (-pi/2,pi/2)', x: 'f[K] in (-pi/2,pi/2)', name: "{'cml','wsf'}", other: "{'cml','wsf'}"):
    """sizes: m=3, K=1|2"""
    # two estimators on one array and one initial placement
    a, s = Table(m), FarField1DSourcePlacement(th)
    e, f = ml(name)(a, 1.0), ml(other)(a, 1.0)
    p = posed(e, R, s)
    q = posed(f, Q, s)
    q['fun'](x)
    return p['fun'](x), s.locations, q['x0']


def spec_ml_shared(m, R, Q, th, x, name, other):
    return posed(ml(name)(Table(m), 1.0), R, FarField1DSourcePlacement(th))['fun'](x), th, th


def impl_coarray(R: 'c[M,M]', Q: 'c[M,M]', kind: "{'ula','nested','grid'}", how: "{'ss','da'}"):
    """sizes: M=3"""
    a = UniformLinearArray(3, 1.0) if kind == 'ula' else (NestedArray(1, 2, 1.0) if kind == 'nested' else GridBasedArrayDesign(np.array([[0], [2], [3]]), 1.0))
    b = CoarrayACMBuilder1D(a)
    b.transform(Q, 'ss')
    quiet(lambda: b.transform(Q, 'other'))
    quiet(lambda: b.transform(Q[:, 1:]))
    b.get_virtual_ula('v')
    b.transform(Q, 'da')
    v = b.get_virtual_ula()
    return b.transform(R, how), b.input_size, b.output_size, v.name, v.element_locations


def spec_coarray(R, Q, kind, how):
    a = UniformLinearArray(3, 1.0) if kind == 'ula' else (NestedArray(1, 2, 1.0) if kind == 'nested' else GridBasedArrayDesign(np.array([[0], [2], [3]]), 1.0))
    b = CoarrayACMBuilder1D(a)
    x = CoarrayACMBuilder1D(a).transform(R, how)
    v = b.get_virtual_ula()
    return x, 3, b.output_size, v.name, v.element_locations


def weight_view(w, which):
    if which == 0:
        return [w.get_central_ula_size(), w.get_central_ula_size(True)]
    if which == 1:
        return [w.get_coarray_selection_matrix(), w.get_coarray_selection_matrix(True)]
    if which == 2:
        return [w.differences(), w.weights(), len(w)]
    return [[w.weight_of(d) for d in (-2, 0, 1, 7)], [w.indices_of(d) for d in (-2, 0, 1, 7)], w(1)]


def impl_weights(kind: "{'ula','nested','grid'}", which: '{0,1,2,3}', order: "{'up','down','twice'}"):
    a = UniformLinearArray(3, 1.0) if kind == 'ula' else (NestedArray(1, 2, 1.0) if kind == 'nested' else GridBasedArrayDesign(np.array([[0], [2], [3]]), 1.0))
    w = WeightFunction1D(a)
    for i in ([0, 1, 2, 3] if order == 'up' else ([3, 2, 1, 0] if order == 'down' else [which, which])):
        weight_view(w, i)
    return weight_view(w, which)


def spec_weights(kind, which, order):
    a = UniformLinearArray(3, 1.0) if kind == 'ula' else (NestedArray(1, 2, 1.0) if kind == 'nested' else GridBasedArrayDesign(np.array([[0], [2], [3]]), 1.0))
    return weight_view(WeightFunction1D(a), which)


def impl_grid_calls(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', kind: "{'ff2','nf'}", unit: "{'rad','deg'}"):
    """sizes: L=3, P=4"""
    g = FarField2DSearchGrid(unit=unit, axes=(x, y)) if kind == 'ff2' else NearField2DSearchGrid(axes=(x, y))
    g.create_refined_grid_at((1, 2), density=2, span=1)
    quiet(lambda: g.create_refined_grid_at((1,), density=2, span=1))
    first = g.source_placement.locations
    g.create_refined_grids_at(np.array([0, 2]), np.array([0, 3]), density=3, span=1)
    s = g.source_placement
    s.as_unit('m' if kind == 'nf' else 'rad')
    r = g.create_refined_grid_at((2, 1), density=3, span=1)
    return g.source_placement.locations, g.axes, g.shape, g.size, g.units, r.axes, r.source_placement.locations


def spec_grid_calls(x, y, kind, unit):
    g = FarField2DSearchGrid(unit=unit, axes=(x, y)) if kind == 'ff2' else NearField2DSearchGrid(axes=(x, y))
    h = FarField2DSearchGrid(unit=unit, axes=(x, y)) if kind == 'ff2' else NearField2DSearchGrid(axes=(x, y))
    r = h.create_refined_grid_at((2, 1), density=3, span=1)
    return g.source_placement.locations, (x, y), (3, 4), 12, g.units, r.axes, r.source_placement.locations


def impl_sparse(m: 'size', R: 'H[m,m]', Q: 'H[m,m]', l: 'f+', l2: 'f+', s: 'f+', form: "{'penalizedl1','constrainedl1','constrainedl2'}", known: '{True,False}', cache: '{True,False}', zero: '{True,False}'):
    """sizes: m=2"""
    l = 0 if zero else l
    e = SparseCovarianceMatching(Table(m), 1.0, FarField1DSearchGrid(-1.0, 1.0, 3), known, form, peak_finder=one, enable_caching=cache)
    e.estimate(Q, 1, l2, 0.5, solver_options={'max_iters': 3})
    quiet(lambda: e.estimate(Q[:, 1:], 1, l2, 0.5))
    e.estimate(Q, 2, l2, 0.25)
    return show(e.estimate(R, 1, l, s, return_spectrum=True))


def spec_sparse(m, R, Q, l, l2, s, form, known, cache, zero):
    l = 0 if zero else l
    e = SparseCovarianceMatching(Table(m), 1.0, FarField1DSearchGrid(-1.0, 1.0, 3), known, form, peak_finder=one)
    return show(e.estimate(R, 1, l, s, return_spectrum=True))


def impl_group_sparse(m: 'size', Y: 'c[m,N]', Z: 'c[m,N]', l: 'f+', l2: 'f+', cache: '{True,False}', zero: '{True,False}'):
    """sizes: m=2, N=2"""
    l = 0 if zero else l
    e = GroupSparseEstimator(Table(m), 1.0, FarField1DSearchGrid(-1.0, 1.0, 3), 2, peak_finder=one, enable_caching=cache)
    e.estimate(Z, 1, l2, solver_options={'max_iters': 3})
    quiet(lambda: e.estimate(Z[:, 1:], 1, l2))
    e.estimate(Z, 2, l2)
    return show(e.estimate(Y, 1, l, return_spectrum=True))


def spec_group_sparse(m, Y, Z, l, l2, cache, zero):
    l = 0 if zero else l
    e = GroupSparseEstimator(Table(m), 1.0, FarField1DSearchGrid(-1.0, 1.0, 3), 2, peak_finder=one)
    return show(e.estimate(Y, 1, l, return_spectrum=True))


def impl_twins(m: 'size', R: 'H[m,m]', Q: 'H[m,m]', l: 'f+', known: '{True,False}'):
    """sizes: m=2"""
    # two objects of one class never influence each other
    g = FarField1DSearchGrid(-1.0, 1.0, 3)
    a = Table(m)
    e, f = (SparseCovarianceMatching(a, 1.0, g, known, peak_finder=one) for _ in range(2))
    f.estimate(Q, 1, 2 * l, 0.5)
    x, y = (MUSIC(a, w, g, peak_finder=one) for w in (1.0, 2.0))
    y.estimate(Q, 1)
    return show(e.estimate(R, 1, l, 0.25, return_spectrum=True)), show(x.estimate(R, 1, return_spectrum=True))


def spec_twins(m, R, Q, l, known):
    g = FarField1DSearchGrid(-1.0, 1.0, 3)
    e = SparseCovarianceMatching(Table(m), 1.0, g, known, peak_finder=one)
    x = MUSIC(Table(m), 1.0, g, peak_finder=one)
    return show(e.estimate(R, 1, l, 0.25, return_spectrum=True)), show(x.estimate(R, 1, return_spectrum=True))


def impl_solvers(A: 'f[M,K]', b: 'f[M,1]', B: 'f[M,2]', l: 'f+', A2: 'f[M,K]', b2: 'f[M,1]', l2: 'f+', form: "{'penalizedl1','constrainedl1','constrainedl2'}", zero: '{True,False}'):
    """sizes: M=2, K=2"""
    p = L1RegularizedLeastSquaresProblem(2, 2, form)
    q = L21RegularizedLeastSquaresProblem(2, 2, 2)
    p.solve(A2, b2, l2)
    quiet(lambda: p.solve(A2, b2[1:], l2))
    q.solve(A2, B * 2, l2)
    z = 0 if zero else l
    return p.solve(A, b, z), q.solve(A, B, z)


def spec_solvers(A, b, B, l, A2, b2, l2, form, zero):
    l = 0 if zero else l
    return L1RegularizedLeastSquaresProblem(2, 2, form).solve(A, b, l), L21RegularizedLeastSquaresProblem(2, 2, 2).solve(A, B, l)


def impl_overwritten(m: 'size>=1', R: 'H[m,m]', Q: 'H[m,m]', name: "{'music','minnorm','bartlett','mvdr'}", cache: '{True,False}', refine: '{True,False}'):
    """sizes: m=3"""
    # the caller reuses one buffer for its covariances
    e = kinds(name)(Table(m), 1.0, FarField1DSearchGrid(-1.0, 1.0, 5), peak_finder=one, enable_caching=cache)
    X = Q.copy()
    e.estimate(X, 1, refine_estimates=refine, refinement_density=2, refinement_iters=1)
    X[:, :] = R
    return show(e.estimate(X, 1, return_spectrum=True)), X


def spec_overwritten(m, R, Q, name, cache, refine):
    e = kinds(name)(Table(m), 1.0, FarField1DSearchGrid(-1.0, 1.0, 5), peak_finder=one)
    return show(e.estimate(R, 1, return_spectrum=True)), R


def impl_overwritten_search_free(m: 'size>=1', R: 'H[m,m]', Q: 'H[m,m]', wl: 'f+', name: "{'root','ls','tls'}"):
    """sizes: m=2
    paths: 200"""
    e = RootMUSIC1D(wl) if name == 'root' else Esprit1D(wl)
    o = {} if name == 'root' else {'formulation': name}
    X = Q.copy()
    quiet(lambda: e.estimate(X, 1, **o))
    X[:, :] = R
    return show(e.estimate(X, 1, **o))


def spec_overwritten_search_free(m, R, Q, wl, name):
    e = RootMUSIC1D(wl) if name == 'root' else Esprit1D(wl)
    return show(e.estimate(R, 1, **({} if name == 'root' else {'formulation': name})))


def impl_overwritten_ml(m: 'size', R: 'H[m,m]', Q: 'H[m,m]', th: 'f[K] in (-1,1)', ph: 'f[K] in (-1,1)', x: 'f[K] in (-1,1)', z: 'f[K] in (-1,1)', name: "{'cml','wsf'}"):
    """sizes: m=3, K=1|2"""
    e = ml(name)(Table(m), 1.0)
    X, s = Q.copy(), FarField1DSourcePlacement(ph)
    posed(e, X, s)['fun'](z)
    X[:, :] = R
    s.locations[:] = th
    p = posed(e, X, s)
    return p['fun'](x), p['x0'], p['fun'](z)


def spec_overwritten_ml(m, R, Q, th, ph, x, z, name):
    p = posed(ml(name)(Table(m), 1.0), R, FarField1DSourcePlacement(th))
    return p['fun'](x), th, p['fun'](z)


def impl_overwritten_sparse(m: 'size', R: 'H[m,m]', Q: 'H[m,m]', Y: 'c[m,2]', Z: 'c[m,2]', l: 'f+', s: 'f+', known: '{True,False}'):
    """sizes: m=2"""
    g = FarField1DSearchGrid(-1.0, 1.0, 3)
    e = SparseCovarianceMatching(Table(m), 1.0, g, known, peak_finder=one)
    f = GroupSparseEstimator(Table(m), 1.0, g, 2, peak_finder=one)
    X, W = Q.copy(), Z.copy()
    e.estimate(X, 1, l, s)
    f.estimate(W, 1, l)
    X[:, :] = R
    W[:, :] = Y
    return show(e.estimate(X, 1, l, s, return_spectrum=True)), show(f.estimate(W, 1, l, return_spectrum=True))


def spec_overwritten_sparse(m, R, Q, Y, Z, l, s, known):
    g = FarField1DSearchGrid(-1.0, 1.0, 3)
    e = SparseCovarianceMatching(Table(m), 1.0, g, known, peak_finder=one)
    f = GroupSparseEstimator(Table(m), 1.0, g, 2, peak_finder=one)
    return show(e.estimate(R, 1, l, s, return_spectrum=True)), show(f.estimate(Y, 1, l, return_spectrum=True))


def impl_overwritten_sources(loc: 'f[M,D]', x: 'f[K,2] in (0,1)', y: 'f[K,2] in (0,1)', wl: 'f+', kind: "{'ff1','ff2','nf'}", d: '{True,False}'):
    """sizes: M>=1, D=1|2|3, K>=1"""
    # a placement whose locations are changed afterwards
    d = d and kind == 'ff1'
    a, s = ArrayDesign(loc, 'a'), placement(kind, y, 'rad')
    a.steering_matrix(s, wl, d)
    s.phase_delay_matrix(loc, wl, d)
    s.calc_spherical_coords(loc)
    s.as_unit('m' if kind == 'nf' else 'deg')
    if kind == 'ff1':
        s.locations[:] = x[:, 0]
    else:
        s.locations[:] = x
    return a.steering_matrix(s, wl, d), s.phase_delay_matrix(loc, wl, d), s.calc_spherical_coords(loc), s.as_unit('m' if kind == 'nf' else 'deg').locations, s[0:1].locations


def spec_overwritten_sources(loc, x, y, wl, kind, d):
    d = d and kind == 'ff1'
    a, s = ArrayDesign(loc, 'a'), placement(kind, x, 'rad')
    return a.steering_matrix(s, wl, d), s.phase_delay_matrix(loc, wl, d), s.calc_spherical_coords(loc), s.as_unit('m' if kind == 'nf' else 'deg').locations, s[0:1].locations


def impl_overwritten_coarray(R: 'c[M,M]', Q: 'c[M,M]', how: "{'ss','da'}"):
    """sizes: M=3"""
    b = CoarrayACMBuilder1D(NestedArray(1, 2, 1.0))
    X = Q.copy()
    r = b.transform(X, how)
    r[0, 0] = 0
    X[:, :] = R
    return b.transform(X, how), b(X, how)


def spec_overwritten_coarray(R, Q, how):
    x = CoarrayACMBuilder1D(NestedArray(1, 2, 1.0)).transform(R, how)
    return x, x
