import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray, UniformCircularArray, UniformRectangularArray
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from specs.lib import A_ff1, A_ff2, A_nf, bound
import probe


def in_range(th, unit):
    b = bound(unit)
    probe.assume(np.all(th <= b))
    probe.assume(np.all(th >= -b))


def impl_ff1_rad(loc: 'f[M,D]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+'):
    """sizes: M>=1, K>=1, D=1|2|3"""
    return ArrayDesign(loc, 'x').steering_matrix(FarField1DSourcePlacement(th), wl)


def spec_ff1_rad(loc, th, wl):
    return A_ff1(loc, th, 'rad', wl)


def impl_ff1_deg(loc: 'f[M,D]', th: 'f[K] in (-90,90)', wl: 'f+'):
    """sizes: M>=1, K>=1, D=1|2|3"""
    return ArrayDesign(loc, 'x').steering_matrix(FarField1DSourcePlacement(th, 'deg'), wl)


def spec_ff1_deg(loc, th, wl):
    return A_ff1(loc, th, 'deg', wl)


def impl_ff1_sin(loc: 'f[M,D]', th: 'f[K] in (-1,1)', wl: 'f+'):
    """sizes: M>=1, K>=1, D=1|2|3"""
    return ArrayDesign(loc, 'x').steering_matrix(FarField1DSourcePlacement(th, 'sin'), wl)


def spec_ff1_sin(loc, th, wl):
    return A_ff1(loc, th, 'sin', wl)


def impl_ff2(loc: 'f[M,D]', az: 'f[K] in (-pi,pi)', el: 'f[K] in (-pi/2,pi/2)', wl: 'f+', unit: "{'rad','deg'}"):
    """sizes: M>=1, K>=1, D=1|2|3"""
    f = 1.0 if unit == 'rad' else 180 / np.pi
    return ArrayDesign(loc, 'x').steering_matrix(FarField2DSourcePlacement(np.stack((az * f, el * f), 1), unit), wl)


def spec_ff2(loc, az, el, wl, unit):
    return A_ff2(loc, np.stack((az, el), 1), 'rad', wl)


def impl_nf(loc: 'f[M,D]', src: 'f[K,2]', wl: 'f+'):
    """sizes: M>=1, K>=1, D=1|2|3"""
    return ArrayDesign(loc, 'x').steering_matrix(NearField2DSourcePlacement(src), wl)


def spec_nf(loc, src, wl):
    return A_nf(loc, src, wl)


def impl_vector_locations(loc: 'f[M]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+'):
    """sizes: M>=1, K>=1"""
    return ArrayDesign(loc, 'x').steering_matrix(FarField1DSourcePlacement(th), wl)


def spec_vector_locations(loc, th, wl):
    return A_ff1(loc[:, None], th, 'rad', wl)


def impl_designs(m: 'size>=1', n: 'size>=1', d0: 'f+', th: 'f[K] in (-pi/2,pi/2)', src: 'f[K,2]', wl: 'f+'):
    """sizes: K>=1"""
    s = FarField1DSourcePlacement(th)
    q = NearField2DSourcePlacement(src)
    u, c, r = UniformLinearArray(m, d0), UniformCircularArray(m, d0), UniformRectangularArray(m, n, d0)
    return [x.steering_matrix(p, wl) for x in (u, c, r) for p in (s, q)]


def spec_designs(m, n, d0, th, src, wl):
    u = (np.arange(m) * d0)[:, None]
    i = np.arange(m)
    c = np.stack((d0 * np.cos(2 * np.pi * i / m), d0 * np.sin(2 * np.pi * i / m)), 1)
    k = np.arange(m * n)
    r = np.stack((d0 * (k // n), d0 * (k % n)), 1)
    out = []
    for l in (u, c, r):
        out.append(A_ff1(l, th, 'rad', wl))
        out.append(A_nf(l, src, wl))
    return out


def impl_all_selectors(loc: 'f[M,D]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+', sel: "{'all','known','none'}"):
    """sizes: M>=1, K>=1, D=1|2|3"""
    return ArrayDesign(loc, 'x').steering_matrix(FarField1DSourcePlacement(th), wl, perturbations=sel)


def spec_all_selectors(loc, th, wl, sel):
    return A_ff1(loc, th, 'rad', wl)


def impl_dimensions(loc: 'f[M,D]', th: 'f[K] in (-1,1)', src: 'f[K,2] in (0.1,1)', wl: 'f+', which: "{'ff1','ff2','nf'}"):
    """sizes: M>=1, K>=1, D=0|1|2|3|4|5"""
    # only one-, two- and three-dimensional positions have a phase
    s = {'ff1': FarField1DSourcePlacement(th), 'ff2': FarField2DSourcePlacement(src), 'nf': NearField2DSourcePlacement(src)}[which]
    return s.phase_delay_matrix(loc, wl)


def spec_dimensions(loc, th, src, wl, which):
    if loc.shape[1] > 3 or loc.shape[1] < 1:
        raise ValueError('dimension')
    return probe.ANY
