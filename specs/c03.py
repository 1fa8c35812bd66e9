import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling, ArrayPerturbation
from specs.lib import A_ff1, A_ff2, A_nf, dphase_ff1, actual


def apply(loc, perts, steer):
    """perts: list of (type, parameters) in the order given."""
    for t, p in perts:
        if t == 'loc':
            loc = actual(loc, p)
    A = steer(loc)
    for t, p in perts:
        if t == 'gain':
            A = (1 + p)[:, None] * A
        if t == 'phase':
            A = np.exp(1j * p)[:, None] * A
        if t == 'mc':
            A = p @ A
    return A


def make(perts, form):
    if form == 'dict':
        names = {'loc': 'location_errors', 'gain': 'gain_errors', 'phase': 'phase_errors', 'mc': 'mutual_coupling'}
        return {names[t]: (p, False) for t, p in perts}
    cls = {'loc': LocationErrors, 'gain': GainErrors, 'phase': PhaseErrors, 'mc': MutualCoupling}
    return [cls[t](p) for t, p in perts]


def choose(order, err, g, phi, C):
    par = {'l': ('loc', err), 'g': ('gain', g), 'p': ('phase', phi), 'c': ('mc', C)}
    return [par[x] for x in order]


def impl_ff1(loc: 'f[M,D]', err: 'f[M,E]', g: 'f[M]', phi: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+',
             order: "{'l','g','p','c','gp','gc','cg','pc','cp','lgpc','cpgl','gcpl','lcg'}", form: "{'dict','list'}"):
    """sizes: M>=2, K>=1, D=1|2|3, E=1|2|3"""
    return ArrayDesign(loc, 'x', make(choose(order, err, g, phi, C), form)).steering_matrix(FarField1DSourcePlacement(th), wl)


def spec_ff1(loc, err, g, phi, C, th, wl, order, form):
    return apply(loc, choose(order, err, g, phi, C), lambda x: A_ff1(x, th, 'rad', wl))


def impl_ff2(loc: 'f[M,D]', err: 'f[M,E]', g: 'f[M]', phi: 'f[M]', C: 'c[M,M]', az: 'f[K] in (-pi,pi)', el: 'f[K] in (-pi/2,pi/2)', wl: 'f+',
             order: "{'l','g','p','c','lgpc','cpgl'}"):
    """sizes: M>=2, K>=1, D=1|2|3, E=1|2|3"""
    return ArrayDesign(loc, 'x', make(choose(order, err, g, phi, C), 'dict')).steering_matrix(FarField2DSourcePlacement(np.stack((az, el), 1)), wl)


def spec_ff2(loc, err, g, phi, C, az, el, wl, order):
    return apply(loc, choose(order, err, g, phi, C), lambda x: A_ff2(x, np.stack((az, el), 1), 'rad', wl))


def impl_nf(loc: 'f[M,D]', err: 'f[M,E]', g: 'f[M]', phi: 'f[M]', C: 'c[M,M]', src: 'f[K,2]', wl: 'f+',
            order: "{'l','g','p','c','lgpc','cpgl'}"):
    """sizes: M>=2, K>=1, D=1|2|3, E=1|2|3"""
    return ArrayDesign(loc, 'x', make(choose(order, err, g, phi, C), 'dict')).steering_matrix(NearField2DSourcePlacement(src), wl)


def spec_nf(loc, err, g, phi, C, src, wl, order):
    return apply(loc, choose(order, err, g, phi, C), lambda x: A_nf(x, src, wl))


def impl_deriv(loc: 'f[M,D]', err: 'f[M,E]', g: 'f[M]', phi: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+', order: "{'l','g','p','c','lgpc','cpgl'}"):
    """sizes: M>=2, K>=1, D=1|2|3, E=1|2|3"""
    a = ArrayDesign(loc, 'x', make(choose(order, err, g, phi, C), 'dict'))
    return a.steering_matrix(FarField1DSourcePlacement(th), wl, True)[1]


def spec_deriv(loc, err, g, phi, C, th, wl, order):
    return apply(loc, choose(order, err, g, phi, C), lambda x: A_ff1(x, th, 'rad', wl) * 1j * dphase_ff1(x, th, 'rad', wl))


def impl_locations(loc: 'f[M,D]', err: 'f[M,E]', g: 'f[M]'):
    """sizes: M>=1, D=1|2|3, E=1|2|3"""
    a = ArrayDesign(loc, 'x', {'gain_errors': (g, True), 'location_errors': (err, False)})
    return a.actual_element_locations, a.actual_ndim, a.element_locations, a.ndim, a.size, a.is_perturbed


def spec_locations(loc, err, g):
    d = loc.shape[1]
    return actual(loc, err), max(d, err.shape[1]), loc, d, loc.shape[0], True


def impl_nominal_unchanged(loc: 'f[M,D]', err: 'f[M,E]', src: 'f[K,2]', wl: 'f+'):
    """sizes: M>=1, K>=1, D=1|2|3, E=1|2|3"""
    a = ArrayDesign(loc, 'x', {'location_errors': (err, False)})
    s = NearField2DSourcePlacement(src)
    a.steering_matrix(s, wl)
    x = a.actual_element_locations
    a.steering_matrix(s, wl)
    return a.element_locations, a.actual_element_locations, a.steering_matrix(s, wl, perturbations='none')


def spec_nominal_unchanged(loc, err, src, wl):
    return loc, actual(loc, err), A_nf(loc, src, wl)


def impl_later_perturbation(g: 'f[M]', C: 'c[M,M]', h: 'f[M]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+', d0: 'f+'):
    """sizes: M>=2, K>=1"""
    a = UniformLinearArray(g.shape[0], d0, perturbations={'gain_errors': (g, True)})
    b = a.get_perturbed_copy([MutualCoupling(C)])
    return b.steering_matrix(FarField1DSourcePlacement(th), wl)


def spec_later_perturbation(g, C, h, th, wl, d0):
    return C @ ((1 + g)[:, None] * A_ff1((np.arange(g.shape[0]) * d0)[:, None], th, 'rad', wl))


def impl_direct_operators(loc: 'f[M,D]', err: 'f[M,E]', g: 'f[M]', phi: 'f[M]', C: 'c[M,M]', A: 'c[M,K]', B: 'c[M,K]'):
    """sizes: M>=1, K>=1, D=1|2|3, E=1|2|3"""
    out = [LocationErrors(err).perturb_sensor_locations(loc)]
    for p in (GainErrors(g), PhaseErrors(phi), MutualCoupling(C), LocationErrors(err)):
        x, dx = p.perturb_steering_matrix(A, [B])
        out.append((x, dx[0], len(dx)))
    for p in (GainErrors(g), PhaseErrors(phi), MutualCoupling(C), ArrayPerturbation(g)):
        out.append(p.perturb_sensor_locations(loc))
    return out


def spec_direct_operators(loc, err, g, phi, C, A, B):
    G, P = (1 + g)[:, None], np.exp(1j * phi)[:, None]
    return [actual(loc, err), (G * A, G * B, 1), (P * A, P * B, 1), (C @ A, C @ B, 1), (A, B, 1), loc, loc, loc, loc]
