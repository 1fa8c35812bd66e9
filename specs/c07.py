import numpy as np
from doatools.model.arrays import ArrayDesign
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from specs.lib import A_ff1, dphase_ff1, actual, bound
import probe


def impl_deriv(loc: 'f[M,D]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+', unit: "{'rad','deg'}"):
    """sizes: M>=1, K>=1, D=1|2|3"""
    x = th if unit == 'rad' else th * (180 / np.pi)
    return ArrayDesign(loc, 'x').steering_matrix(FarField1DSourcePlacement(x, unit), wl, True)


def spec_deriv(loc, th, wl, unit):
    x = th if unit == 'rad' else th * (180 / np.pi)
    A = A_ff1(loc, x, unit, wl)
    return A, 1j * dphase_ff1(loc, x, unit, wl) * A


def impl_deriv_sin(loc: 'f[M,D]', th: 'f[K] in (-1,1)', wl: 'f+'):
    """sizes: M>=1, K>=1, D=1|2|3"""
    return ArrayDesign(loc, 'x').steering_matrix(FarField1DSourcePlacement(th, 'sin'), wl, True)


def spec_deriv_sin(loc, th, wl):
    A = A_ff1(loc, th, 'sin', wl)
    return A, 1j * dphase_ff1(loc, th, 'sin', wl) * A


def impl_phase(loc: 'f[M,D]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+', unit: "{'rad','deg'}"):
    """sizes: M>=1, K>=1, D=1|2|3"""
    x = th if unit == 'rad' else th * (180 / np.pi)
    s = FarField1DSourcePlacement(x, unit)
    return s.phase_delay_matrix(loc, wl, True)[1], s.phase_delay_matrix(loc, wl, True)[0] - s.phase_delay_matrix(loc, wl)


def spec_phase(loc, th, wl, unit):
    x = th if unit == 'rad' else th * (180 / np.pi)
    return dphase_ff1(loc, x, unit, wl), np.zeros((loc.shape[0], th.shape[0]))


def impl_deriv_perturbed(loc: 'f[M,D]', err: 'f[M,E]', g: 'f[M]', phi: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-1,1)', wl: 'f+', flags: "{(1,1,1,1),(0,1,0,1),(1,0,1,0)}",
                         sel: "{'all','known','none'}"):
    """sizes: M>=2, K>=1, D=1|2|3, E=1|2|3"""
    a = ArrayDesign(loc, 'x', {'location_errors': (err, bool(flags[0])), 'gain_errors': (g, bool(flags[1])), 'phase_errors': (phi, bool(flags[2])), 'mutual_coupling': (C, bool(flags[3]))})
    return a.steering_matrix(FarField1DSourcePlacement(th, 'sin'), wl, compute_derivatives=True, perturbations=sel)


def spec_deriv_perturbed(loc, err, g, phi, C, th, wl, flags, sel):
    use = [sel == 'all' or (sel == 'known' and f) for f in flags]
    if use[0]:
        loc = actual(loc, err)
    A = A_ff1(loc, th, 'sin', wl)
    D = 1j * dphase_ff1(loc, th, 'sin', wl) * A
    if use[1]:
        A, D = (1 + g)[:, None] * A, (1 + g)[:, None] * D
    if use[2]:
        A, D = np.exp(1j * phi)[:, None] * A, np.exp(1j * phi)[:, None] * D
    if use[3]:
        A, D = C @ A, C @ D
    return A, D


def impl_same_matrix(loc: 'f[M,D]', err: 'f[M,E]', g: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+', sel: "{'all','known'}"):
    """sizes: M>=2, K>=1, D=1|2|3, E=1|2"""
    a = ArrayDesign(loc, 'x', {'location_errors': (err, True), 'mutual_coupling': (C, False), 'gain_errors': (g, True)})
    s = FarField1DSourcePlacement(th)
    return a.steering_matrix(s, wl, perturbations=sel) - a.steering_matrix(s, wl, True, perturbations=sel)[0]


def spec_same_matrix(loc, err, g, C, th, wl, sel):
    return np.zeros((loc.shape[0], th.shape[0]))


def impl_refused(loc: 'f[M,D]', src: 'f[K,2] in (0.1,1)', wl: 'f+', unit: "{'rad','deg','nf'}", through: '{True,False}', sel: "{'all','known'}"):
    """sizes: M>=1, K>=1, D=1|2|3"""
    # no derivatives (rather than wrong ones) for placements with two coordinates per source
    s = NearField2DSourcePlacement(src) if unit == 'nf' else FarField2DSourcePlacement(src, unit)
    if through:
        return ArrayDesign(loc, 'x').steering_matrix(s, wl, True, perturbations=sel)
    return s.phase_delay_matrix(loc, wl, True)


def spec_refused(loc, src, wl, unit, through, sel):
    raise ValueError('derivatives')
