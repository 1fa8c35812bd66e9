"""Argument purity. The scenarios of the other properties are analysed for stores into the objects handed over (check.py,
dsa/effects.py); the obligations here state which results never share memory with the arguments, and add scenarios that
those leave out."""
import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray, GridBasedArrayDesign, UniformRectangularArray
from doatools.model.coarray import WeightFunction1D, compute_location_differences, compute_unique_location_differences
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from doatools.estimation.core import get_noise_subspace, ensure_covariance_size
from doatools.estimation.grid import FarField1DSearchGrid, FarField2DSearchGrid, NearField2DSearchGrid
from doatools.estimation.music import MUSIC, RootMUSIC1D
from doatools.estimation.esprit import Esprit1D
from doatools.estimation.preprocessing import spatial_smooth, l1_svd
from doatools.estimation.coarray import CoarrayACMBuilder1D
from doatools.estimation.source_number import aic, mdl, sorte
from doatools.performance.crb import crb_sto_farfield_1d, crb_det_farfield_1d, crb_stouc_farfield_1d
from doatools.performance.mse import ecov_music_1d, ecov_coarray_music_1d
from doatools.utils.conversion import convert_angles
from doatools.utils.math import cartesian, unique_rows
import probe


def impl_convert_unit(th: 'f[K] in (-1/2,1/2)', u: "{'rad','deg','sin'}", w: "{'rad','deg','sin'}"):
    """sizes: K>=1"""
    s = FarField1DSourcePlacement(th, u)
    t = s.as_unit(w)
    sh = probe.shares(t.locations, th), probe.shares(t.locations, s.locations)
    t.locations[0] = 0.25
    y = convert_angles(th, u, w)
    return sh, s.locations, th, probe.shares(y, th)


def spec_convert_unit(th, u, w):
    return (False, False), th, th, False


def impl_convert_unit_2d(x: 'f[K,2] in (0,1/2)', u: "{'rad','deg'}", w: "{'rad','deg'}"):
    """sizes: K>=1"""
    s = FarField2DSourcePlacement(x, u)
    t = s.as_unit(w)
    sh = probe.shares(t.locations, x), probe.shares(t.locations, s.locations)
    t.locations[0, 1] = 0.25
    return sh, s.locations, x


def spec_convert_unit_2d(x, u, w):
    return (False, False), x, x


def impl_convert_unit_nf(x: 'f[K,2]'):
    """sizes: K>=1"""
    s = NearField2DSourcePlacement(x)
    t = s.as_unit('m')
    sh = probe.shares(t.locations, x), probe.shares(t.locations, s.locations)
    t.locations[0, 1] = 0.25
    return sh, s.locations, x


def spec_convert_unit_nf(x):
    return (False, False), x, x


def impl_selected(th: 'f[K] in (-1/2,1/2)', how: "{'slice','list','array'}"):
    """sizes: K>=3"""
    s = FarField1DSourcePlacement(th)
    key = slice(0, 2) if how == 'slice' else ([0, 1] if how == 'list' else np.array([0, 1]))
    t = s[key]
    sh = probe.shares(t.locations, th), probe.shares(t.locations, s.locations)
    t.locations[0] = 0.25
    return sh, s.locations, th


def spec_selected(th, how):
    return (False, False), th, th


def impl_perturbed_locations(loc: 'f[M,D]', err: 'f[M,E]'):
    """sizes: M>=1, D=1|2|3, E=1|2|3"""
    p = LocationErrors(err)
    x = p.perturb_sensor_locations(loc)
    a = ArrayDesign(loc, 'a', [p])
    y, z = a.actual_element_locations, ArrayDesign(loc, 'b').actual_element_locations
    sh = [probe.shares(v, w) for v in (x, y, z, a.element_locations) for w in (loc, err)]
    x[0, 0] = 7.0
    y[0, 0] = 8.0
    z[0, 0] = 9.0
    return sh, loc, err, a.element_locations


def spec_perturbed_locations(loc, err):
    return [False] * 8, loc, err, loc


def impl_steering_result(loc: 'f[M,1]', th: 'f[K] in (-1,1)', wl: 'f+', der: '{True,False}'):
    """sizes: M>=1, K>=1"""
    s = FarField1DSourcePlacement(th)
    a = ArrayDesign(loc, 'a')
    A = a.steering_matrix(s, wl, der)
    for x in (A if der else (A,)):
        x[0, 0] = 0.0
    B = a.steering_matrix(s, wl, der)
    return B[0] if der else B, th, loc


def spec_steering_result(loc, th, wl, der):
    return np.exp(1j * (2 * np.pi / wl) * loc * np.sin(th)), th, loc


def impl_copies(g: 'f[M]', C: 'c[M,M]', d0: 'f+'):
    """sizes: M>=2"""
    d = {'gain_errors': (g, True)}
    l = [MutualCoupling(C)]
    a = UniformLinearArray(g.shape[0], d0, 'a', perturbations=d)
    b = a.get_perturbed_copy(l)
    c = b.get_perturbed_copy({'phase_errors': (g, False)})
    f = b.get_perturbation_free_copy()
    return len(d), len(l), d['gain_errors'][1], len(a.perturbations), len(b.perturbations), len(c.perturbations), len(f.perturbations), g, C


def spec_copies(g, C, d0):
    return 1, 1, True, 1, 2, 3, 0, g, C


def impl_smooth(R: 'c[M,M]', n: '{1,2}', fb: '{True,False}'):
    """sizes: M=3|4"""
    x = spatial_smooth(R, n, fb)
    sh = probe.shares(x, R)
    x[0, 0] = 5.0
    return sh, R


def spec_smooth(R, n, fb):
    return False, R


def impl_coarray_built(R: 'c[M,M]', how: "{'da','ss'}"):
    """sizes: M=3"""
    b = CoarrayACMBuilder1D(UniformLinearArray(3, 1.0))
    x = b.transform(R, how)
    y = b(R)
    sh = probe.shares(x, R), probe.shares(y, R)
    x[0, 0] = 5.0
    y[0, 0] = 5.0
    return sh, R, b.transform(R, how) - b.transform(R, how)


def spec_coarray_built(R, how):
    return (False, False), R, np.zeros((3, 3))


def impl_virtual_array(d0: 'f+', ref: 'f[M,1]'):
    """sizes: M=3"""
    a = UniformLinearArray(3, d0)
    b = CoarrayACMBuilder1D(a)
    v = b.get_virtual_ula()
    x, y = v.element_locations, v.element_indices
    x[0, 0] = 5.0
    y[0, 0] = 5
    return a.element_locations, a.element_indices, v.element_locations


def spec_virtual_array(d0, ref):
    i = np.arange(3)[:, None]
    return d0 * i, i, d0 * i


def impl_estimates_of_grid(peak: '{1,2,3}', R: 'H[m,m]', refine: '{False,True}'):
    """sizes: m=2"""
    g = FarField1DSearchGrid(-1.0, 1.0, 5)
    e = MUSIC(UniformLinearArray(2, 0.5), 1.0, g, peak_finder=lambda s: (np.array([peak]),))
    ok, est = e.estimate(R, 1, refine_estimates=refine, refinement_density=2, refinement_iters=1)[:2]
    sh = probe.shares(est.locations, g.axes[0]), probe.shares(est.locations, g.source_placement.locations)
    x, y = g.axes[0].copy(), g.source_placement.locations.copy()
    est.locations[0] = 0.75
    probe.same(g.axes[0], x)
    probe.same(g.source_placement.locations, y)
    return sh, R


def spec_estimates_of_grid(peak, R, refine):
    return (False, False), R


def impl_grid_axes(x: 'f[L] in (-1,1)', unit: "{'rad','deg','sin'}"):
    """sizes: L=4"""
    axes = (x,)
    g = FarField1DSearchGrid(unit=unit, axes=axes)
    h = g.create_refined_grid_at((1,), density=3, span=1)
    r = g.create_refined_grids_at(np.array([1, 2]), density=3, span=1)
    sh = [probe.shares(h.axes[0], x), probe.shares(r[0].axes[0], x), probe.shares(g.source_placement.locations[0:1], x) and False]
    h.axes[0][0] = 0.0
    r[1].axes[0][0] = 0.0
    return sh, x, g.axes[0], len(axes)


def spec_grid_axes(x, unit):
    return [False] * 3, x, x, 1


def impl_grid_axes_2d(x: 'f[L] in (0,1)', y: 'f[P] in (0,1)', unit: "{'rad','deg'}"):
    """sizes: L=3, P=4"""
    axes = (x, y)
    g = FarField2DSearchGrid(unit=unit, axes=axes)
    h = g.create_refined_grid_at((1, 1), density=3, span=1)
    loc = g.source_placement.locations
    sh = [probe.shares(h.axes[0], x), probe.shares(h.axes[1], y), probe.shares(loc, x), probe.shares(loc, y)]
    h.axes[0][0] = 0.0
    return sh, x, y, g.axes


def spec_grid_axes_2d(x, y, unit):
    return [False] * 4, x, y, (x, y)


def impl_helpers(x: 'f[L]', y: 'f[P]', loc: 'f[M,D]'):
    """sizes: L=2, P=3, M=2, D=2"""
    c = cartesian(x, y)
    d = compute_location_differences(loc)
    c[0, 0] = 1.0
    d[0, 0] = 1.0
    return x, y, loc


def spec_helpers(x, y, loc):
    return x, y, loc


def impl_model_order(x: 'f+[M]', how: "{'aic','mdl','sorte'}"):
    """sizes: M=4"""
    if how == 'aic':
        aic(x, 10)
    elif how == 'mdl':
        mdl(x, 10)
    else:
        sorte(x)
    return x


def spec_model_order(x, how):
    return x


def impl_l1svd(Y: 'c[M,N]', k: '{1,2}'):
    """sizes: M=3, N=4"""
    z = l1_svd(Y, k)
    sh = probe.shares(z, Y)
    z[0, 0] = 1.0
    return sh, Y


def spec_l1svd(Y, k):
    return False, Y
