import numpy as np
from doatools.model.arrays import (ArrayDesign, GridBasedArrayDesign, UniformLinearArray, NestedArray, CoPrimeArray, UniformCircularArray, UniformRectangularArray)
from doatools.model.sources import FarField1DSourcePlacement
from doatools.model.array_elements import CustomNonisotropicSensor
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
from specs.lib import A_ff1
import probe


def build(kind, m, d0, p):
    if kind == 'custom':
        return ArrayDesign(np.arange(m) * d0, 'base', perturbations=p)
    if kind == 'ula':
        return UniformLinearArray(m, d0, 'base', perturbations=p)
    if kind == 'uca':
        return UniformCircularArray(m, d0, 'base', perturbations=p)
    return UniformRectangularArray(m, 1, d0, 'base', perturbations=p)


def view(a):
    return [a.name, a.is_perturbed, [p.__class__.__name__ for p in a.perturbations], [p.params for p in a.perturbations], [p.is_known for p in a.perturbations]]


def impl_free_copy(g: 'f[M]', C: 'c[M,M]', d0: 'f+', kind: "{'custom','ula','uca','ura'}"):
    """sizes: M>=1"""
    a = build(kind, g.shape[0], d0, {'gain_errors': (g, True), 'mutual_coupling': (C, False)})
    b, c = a.get_perturbation_free_copy(), a.get_perturbation_free_copy('new')
    return (view(a), view(b), view(c), b is a, b.element is a.element, a.element_locations - b.element_locations, c.element_locations - a.element_locations, b.size, c.ndim - a.ndim,
            b.__class__ is a.__class__, c.__class__ is a.__class__, b.get_perturbation_free_copy().name, c.get_perturbation_free_copy().name)


def spec_free_copy(g, C, d0, kind):
    m = g.shape[0]
    d = 1 if kind in ('custom', 'ula') else 2
    z = np.zeros((m, d))
    return (['base', True, ['GainErrors', 'MutualCoupling'], [g, C], [True, False]], ['base', False, [], [], []], ['new', False, [], [], []], False, True, z, z, m, 0, True, True, 'base', 'new')


def impl_perturbed_copy(g: 'f[M]', h: 'f[M]', phi: 'f[M]', C: 'c[M,M]', d0: 'f+', form: "{'dict','list'}", kind: "{'custom','ula','uca','ura'}"):
    """sizes: M>=1"""
    a = build(kind, g.shape[0], d0, {'gain_errors': (g, True), 'mutual_coupling': (C, False)})
    new = {'phase_errors': (phi, True), 'gain_errors': (h, False)} if form == 'dict' else [PhaseErrors(phi, True), GainErrors(h, False)]
    b, c = a.get_perturbed_copy(new), a.get_perturbed_copy(new, 'new')
    return view(a), view(b), view(c), b.__class__ is a.__class__, b.element is a.element, a.element_locations - b.element_locations, a.size - b.size


def spec_perturbed_copy(g, h, phi, C, d0, form, kind):
    new = [['GainErrors', 'MutualCoupling', 'PhaseErrors'], [h, C, phi], [False, False, True]]
    d = 1 if kind in ('custom', 'ula') else 2
    return ['base', True, ['GainErrors', 'MutualCoupling'], [g, C], [True, False]], ['base', True] + new, ['new', True] + new, True, True, np.zeros((g.shape[0], d)), 0


def impl_chain(g: 'f[M]', h: 'f[M]', phi: 'f[M]', C: 'c[M,M]', L: 'f[M,2]', d0: 'f+', th: 'f[K] in (-1,1)', wl: 'f+'):
    """sizes: M>=1, K>=1"""
    m = g.shape[0]
    s = FarField1DSourcePlacement(th, 'sin')
    a = UniformLinearArray(m, d0, 'base', perturbations=[GainErrors(g)])
    r0 = a.steering_matrix(s, wl)
    b = a.get_perturbed_copy({'mutual_coupling': (C, True)}, 'b')
    rb = b.steering_matrix(s, wl)
    c = b.get_perturbed_copy({'gain_errors': (h, True), 'location_errors': (L, False)}, 'c')
    d = c.get_perturbation_free_copy('d')
    e = d.get_perturbed_copy([PhaseErrors(phi)])
    c.steering_matrix(s, wl)
    e.steering_matrix(s, wl, perturbations='known')
    f = e.get_perturbation_free_copy()
    f.get_perturbed_copy([GainErrors(h)])
    return [view(x) for x in (a, b, c, d, e, f)], a.steering_matrix(s, wl) - r0, b.steering_matrix(s, wl) - rb, d.steering_matrix(s, wl), e.steering_matrix(s, wl), a.actual_element_locations, f.steering_matrix(s, wl)


def spec_chain(g, h, phi, C, L, d0, th, wl):
    m = g.shape[0]
    x = np.arange(m)[:, None] * d0
    A = A_ff1(x, th, 'sin', wl)
    z = np.zeros((m, th.shape[0]))
    return ([['base', True, ['GainErrors'], [g], [False]], ['b', True, ['GainErrors', 'MutualCoupling'], [g, C], [False, True]],
             ['c', True, ['GainErrors', 'MutualCoupling', 'LocationErrors'], [h, C, L], [True, True, False]], ['d', False, [], [], []], ['d', True, ['PhaseErrors'], [phi], [False]], ['d', False, [], [], []]],
            z, z, A, np.exp(1j * phi)[:, None] * A, x, A)


def impl_original_safe(g: 'f[M]', h: 'f[M]', d0: 'f+', op: "{'free','copy','both'}"):
    """sizes: M>=2"""
    a = UniformLinearArray(g.shape[0], d0, 'base', perturbations=[GainErrors(g.copy())])
    b = a.get_perturbation_free_copy('x') if op == 'free' else a.get_perturbed_copy([PhaseErrors(h)], 'x')
    if op == 'both':
        b = b.get_perturbation_free_copy('y').get_perturbed_copy([PhaseErrors(h)], 'z')
    b.element_locations[0] = 5.0
    b.actual_element_locations[0] = 5.0
    b.element_indices[0] = 5
    b.perturbations.append(3)
    return view(a), a.element_locations, a.element_indices, a.actual_element_locations, len(b.perturbations)


def spec_original_safe(g, h, d0, op):
    i = np.arange(g.shape[0])[:, None]
    return ['base', True, ['GainErrors'], [g], [False]], i * d0, i, i * d0, {'free': 0, 'copy': 2, 'both': 1}[op]


def impl_failed_copy(g: 'f[M]', h: 'f[N]', d0: 'f+'):
    """sizes: M>=1, N>=1
    assume: N<M"""
    a = UniformLinearArray(g.shape[0], d0, 'base', perturbations=[GainErrors(g)])
    r = probe.catch(lambda: a.get_perturbed_copy([PhaseErrors(g), GainErrors(h)], 'x'))
    return r, view(a)


def spec_failed_copy(g, h, d0):
    return 'RuntimeError', ['base', True, ['GainErrors'], [g], [False]]


def impl_kinds(d0: 'f+', g: 'f[N]', phi: 'f[N]'):
    """sizes: N=6"""
    out = []
    e = CustomNonisotropicSensor(lambda r, az, el, p: r, 1)
    for a in (NestedArray(2, 4, d0, element=e), CoPrimeArray(2, 3, d0, element=e), UniformRectangularArray(2, 3, d0, element=e), UniformCircularArray(6, d0, element=e)):
        b = a.get_perturbed_copy([GainErrors(g)])
        c = b.get_perturbation_free_copy()
        out.append((b.__class__ is a.__class__, c.__class__ is a.__class__, b.element is e, c.element is e, b.name, c.name, a.is_perturbed, b.is_perturbed, c.is_perturbed))
    n = NestedArray(2, 4, d0).get_perturbed_copy([GainErrors(g)])
    q = UniformRectangularArray(2, 3, d0).get_perturbation_free_copy('z')
    return out, n.n1, n.n2, n.d0, n.element_indices[:, 0], q.shape, q.bases, UniformCircularArray(6, d0).get_perturbed_copy([GainErrors(g)]).radius


def spec_kinds(d0, g, phi):
    t = [(True, True, True, True, n, n, False, True, False) for n in ('Nested (2,4)', 'Co-prime (2,3)', 'URA 2x3', 'UCA 6')]
    return t, 2, 4, np.array([d0]), np.array([0, 1, 2, 5, 8, 11]), (2, 3), np.array([[d0, 0], [0, d0]]), d0


def impl_copy_element(g: 'f[M]', h: 'f[M]', d0: 'f+', name: "{'', 'x', 'a copy of the array whose name is a whole sentence', None}", out: '{1,2}'):
    """sizes: M>=1"""
    # whatever it is called, a copy measures with the element of the original
    e = CustomNonisotropicSensor(lambda r, az, el, p: r, out)
    a = ArrayDesign(np.arange(g.shape[0]) * d0, 'base', [LocationErrors(g[:, None])], element=e)
    b, c = a.get_perturbation_free_copy(name), a.get_perturbed_copy([LocationErrors(h[:, None])], name)
    return b.element is e, c.element is e, b.output_size, c.output_size, a.element is e


def spec_copy_element(g, h, d0, name, out):
    return True, True, g.shape[0] * out, g.shape[0] * out, True


def impl_copy_names(g: 'f[M]', h: 'f[M]', d0: 'f+', name: "{'', '0', 'base', 'x', ' ', 'a copy of the array whose name is a whole sentence'}", kind: "{'custom','ula','uca','ura'}", old: "{'base','',None}"):
    """sizes: M>=1"""
    a = build(kind, g.shape[0], d0, [GainErrors(g)]) if old is None else ArrayDesign(np.arange(g.shape[0]) * d0, old, [GainErrors(g)])
    b, c = a.get_perturbation_free_copy(name), a.get_perturbed_copy([PhaseErrors(h)], name)
    return b.name, c.name, a.get_perturbation_free_copy(new_name=name).name, a.get_perturbed_copy({}, new_name=name).name, c.get_perturbation_free_copy().name, b.get_perturbed_copy([GainErrors(h)]).name


def spec_copy_names(g, h, d0, name, kind, old):
    return (name,) * 6
