import numpy as np
from doatools.model.arrays import (ArrayDesign, GridBasedArrayDesign, UniformLinearArray, NestedArray, CoPrimeArray, MinimumRedundancyLinearArray, UniformCircularArray,
                                   UniformRectangularArray)
from doatools.model.coarray import WeightFunction1D
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
from doatools.model.sources import FarField1DSourcePlacement
import probe


def make(kind, d0, p):
    if kind == 'ula':
        return UniformLinearArray(3, d0, perturbations=p)
    if kind == 'nested':
        return NestedArray(1, 2, d0, perturbations=p)
    if kind == 'coprime':
        return CoPrimeArray(1, 2, d0, '2m', perturbations=p)
    if kind == 'mrla':
        return MinimumRedundancyLinearArray(3, d0, perturbations=p)
    if kind == 'uca':
        return UniformCircularArray(3, d0, perturbations=p)
    if kind == 'ura':
        return UniformRectangularArray(3, 1, d0, perturbations=p)
    return ArrayDesign(np.array([[0.0], [1.0], [2.0]]) * d0, 'x', p)


def state(a, wl):
    s = FarField1DSourcePlacement([0.1, 0.2])
    return [a.size, a.ndim, a.actual_ndim, a.element_locations, a.actual_element_locations, a.is_perturbed, len(a.perturbations), a.steering_matrix(s, wl), a.steering_matrix(s, wl, perturbations='none')]


def scribble(x):
    """Overwrites an accessor's result in place."""
    if isinstance(x, list):
        while len(x) > 0:
            x.pop()
        x.append(0)
    else:
        x[:] = -1


def impl_locations(loc: 'f[M,D]', wl: 'f+', th: 'f[K] in (-1,1)', times: '{1,2}'):
    """sizes: M>=1, D=1|2|3, K>=1"""
    a = ArrayDesign(loc, 'x')
    s = FarField1DSourcePlacement(th)
    before = a.steering_matrix(s, wl)
    for _ in range(times):
        scribble(a.element_locations)
        scribble(a.actual_element_locations)
        scribble(a.perturbations)
    return a.element_locations, a.actual_element_locations, len(a.perturbations), a.steering_matrix(s, wl) - before, a.size, a.ndim


def spec_locations(loc, wl, th, times):
    return loc, loc, 0, np.zeros((loc.shape[0], th.shape[0])), loc.shape[0], loc.shape[1]


def impl_locations_perturbed(loc: 'f[M,D]', err: 'f[M,E]', g: 'f[M]', wl: 'f+', th: 'f[K] in (-1,1)'):
    """sizes: M>=1, D=1|2|3, E=1|2|3, K>=1"""
    a = ArrayDesign(loc, 'x', [LocationErrors(err), GainErrors(g)])
    s = FarField1DSourcePlacement(th)
    x0, x1, x2 = a.steering_matrix(s, wl), a.actual_element_locations, [p.__class__.__name__ for p in a.perturbations]
    scribble(a.element_locations)
    scribble(a.actual_element_locations)
    scribble(a.perturbations)
    return (a.element_locations, a.actual_element_locations - x1, [p.__class__.__name__ for p in a.perturbations], a.steering_matrix(s, wl) - x0, a.is_perturbed,
            a.has_perturbation(LocationErrors), a.get_perturbation_params(GainErrors))


def spec_locations_perturbed(loc, err, g, wl, th):
    m = loc.shape[0]
    return loc, np.zeros((m, max(loc.shape[1], err.shape[1]))), ['LocationErrors', 'GainErrors'], np.zeros((m, th.shape[0])), True, True, g


def impl_every_design(kind: "{'ula','nested','coprime','mrla','uca','ura','custom'}", d0: 'f+', g: 'f[3]', wl: 'f+', known: '{True,False}'):
    a = make(kind, d0, [GainErrors(g, known)])
    before = state(a, wl)
    scribble(a.element_locations)
    scribble(a.actual_element_locations)
    scribble(a.perturbations)
    after = state(a, wl)
    probe.same(after, before)
    return probe.shares(a.element_locations, a.element_locations), probe.shares(a.actual_element_locations, a.actual_element_locations), a.perturbations is a.perturbations


def spec_every_design(kind, d0, g, wl, known):
    return False, False, False


def impl_every_design_plain(kind: "{'ula','nested','coprime','mrla','uca','ura','custom'}", d0: 'f+', wl: 'f+'):
    a = make(kind, d0, [])
    before = state(a, wl)
    scribble(a.element_locations)
    scribble(a.actual_element_locations)
    scribble(a.perturbations)
    b = make(kind, d0, [])
    probe.same(state(a, wl), before)
    probe.same(state(b, wl), before)
    return probe.shares(a.element_locations, a.actual_element_locations)


def spec_every_design_plain(kind, d0, wl):
    return False


def impl_copies(kind: "{'ula','nested','uca','ura','custom'}", d0: 'f+', g: 'f[3]', wl: 'f+'):
    """Scribbling on what a copy hands out leaves the original alone, and the other way round."""
    a = make(kind, d0, [GainErrors(g)])
    b, c = a.get_perturbed_copy([PhaseErrors(g)]), a.get_perturbation_free_copy()
    xa, xb, xc = state(a, wl), state(b, wl), state(c, wl)
    for x in (a, b, c):
        scribble(x.element_locations)
        scribble(x.actual_element_locations)
        scribble(x.perturbations)
    probe.same(state(a, wl), xa)
    probe.same(state(b, wl), xb)
    probe.same(state(c, wl), xc)


def spec_copies(kind, d0, g, wl):
    return None


def impl_indices(kind: "{'ula','nested','coprime','mrla','ura'}", d0: 'f+'):
    a, b = make(kind, d0, []), make(kind, d0, [])
    before = b.element_indices
    x = a.element_indices
    scribble(x)
    scribble(a.element_indices)
    c = make(kind, d0, [])
    probe.same(a.element_indices, before)
    probe.same(c.element_indices, before)
    probe.same(c.element_locations, b.element_locations)
    return probe.shares(a.element_indices, a.element_indices)


def spec_indices(kind, d0):
    return False


def impl_indices_given(idx: 'i[M,D]', d0: 'f+'):
    """sizes: M>=1, D=1|2"""
    a = GridBasedArrayDesign(idx, d0, 'g')
    scribble(a.element_indices)
    return a.element_indices, a.element_locations, idx


def spec_indices_given(idx, d0):
    return idx, d0 * idx, idx


def weight(w, d):
    n = len(d)
    return [len(w), w.differences(), w.weights(), [w(x) for x in d], [w.weight_of(x) for x in d], [w.indices_of(x) for x in d], w.get_central_ula_size(), w.get_central_ula_size(True),
            w.get_coarray_selection_matrix(), w.get_coarray_selection_matrix(True)]


def impl_weights(kind: "{'ula','nested','coprime','mrla'}", order: "{'before','after'}"):
    d = [-3, -2, -1, 0, 1, 2, 3, 5]
    w, v = WeightFunction1D(make(kind, 1.0, [])), WeightFunction1D(make(kind, 1.0, []))
    before = weight(v, d)
    if order == 'after':
        weight(w, d)
    scribble(w.differences())
    scribble(w.weights())
    for x in d:
        scribble(w.indices_of(x))
    scribble(w.get_coarray_selection_matrix())
    scribble(w.get_coarray_selection_matrix(True))
    probe.same(weight(w, d), before)
    probe.same(weight(WeightFunction1D(make(kind, 1.0, [])), d), before)


def spec_weights(kind, order):
    return None
