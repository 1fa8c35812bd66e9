import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray
from doatools.model.array_elements import CustomNonisotropicSensor, IsotropicScalarSensor, ISOTROPIC_SCALAR_SENSOR, ArrayElement
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from specs.lib import A_ff1, A_ff2, A_nf, actual, coord, rad
import probe


def g1(r, az, el):
    return 2.0 + np.cos(az) + 3.0 * np.sin(el) + 1j * az


def g2(r, az, el):
    return np.sin(az) * np.cos(el) - el


def g3(r, az, el):
    return r / (1.0 + r) + 2.0 * np.cos(az) - np.sin(el)


# --- far field ---------------------------------------------------------------

def az_ff1(th, unit):
    if unit == 'sin':
        return np.pi / 2 - np.arcsin(th)
    return np.pi / 2 - rad(th, unit)


def impl_scalar_ff1(loc: 'f[M,D]', th: 'f[K] in (-1,1)', wl: 'f+', unit: "{'rad','deg','sin'}", flatten: '{True,False}'):
    """sizes: M>=2, K>=1, D=1|2|3"""
    a = ArrayDesign(loc, 'x', element=CustomNonisotropicSensor(lambda r, az, el, p: g1(r, az, el)))
    return a.steering_matrix(FarField1DSourcePlacement(th, unit), wl, flatten=flatten), a.output_size, a.element.is_scalar, a.element.is_isotropic


def spec_scalar_ff1(loc, th, wl, unit, flatten):
    return g1(None, az_ff1(th, unit), 0.0 * th)[None, :] * A_ff1(loc, th, unit, wl), loc.shape[0], True, False


def impl_scalar_ff2(loc: 'f[M,D]', ae: 'f[K,2] in (-1,1)', wl: 'f+', unit: "{'rad','deg'}"):
    """sizes: M>=2, K>=1, D=1|2|3"""
    a = ArrayDesign(loc, 'x', element=CustomNonisotropicSensor(lambda r, az, el, p: g1(r, az, el)))
    return a.steering_matrix(FarField2DSourcePlacement(ae, unit), wl)


def spec_scalar_ff2(loc, ae, wl, unit):
    return g1(None, rad(ae[:, 0], unit), rad(ae[:, 1], unit))[None, :] * A_ff2(loc, ae, unit, wl)


def impl_scalar_perturbed(loc: 'f[M,D]', g: 'f[M]', phi: 'f[M]', C: 'c[M,M]', err: 'f[M,E]', ae: 'f[K,2] in (-1,1)', wl: 'f+', sel: "{'all','known','none'}"):
    """sizes: M>=2, K>=1, D=1|2|3, E=1|2|3"""
    a = ArrayDesign(loc, 'x', {'location_errors': (err, True), 'gain_errors': (g, True), 'phase_errors': (phi, False), 'mutual_coupling': (C, False)},
                    CustomNonisotropicSensor(lambda r, az, el, p: g1(r, az, el)))
    return a.steering_matrix(FarField2DSourcePlacement(ae), wl, perturbations=sel)


def spec_scalar_perturbed(loc, g, phi, C, err, ae, wl, sel):
    x = loc if sel == 'none' else actual(loc, err)
    A = g1(None, ae[:, 0], ae[:, 1])[None, :] * A_ff2(x, ae, 'rad', wl)
    if sel != 'none':
        A = (1 + g)[:, None] * A
    if sel == 'all':
        A = C @ (np.exp(1j * phi)[:, None] * A)
    return A


def impl_vector_ff(loc: 'f[M,D]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+', flatten: '{True,False}'):
    """sizes: M>=2, K>=1, D=1|2|3"""
    a = ArrayDesign(loc, 'x', element=CustomNonisotropicSensor(lambda r, az, el, p: np.stack((g1(r, az, el), g2(r, az, el))), 2))
    return a.steering_matrix(FarField1DSourcePlacement(th), wl, flatten=flatten), a.output_size, a.size, a.element.is_scalar, a.element.output_size


def spec_vector_ff(loc, th, wl, flatten):
    A = A_ff1(loc, th, 'rad', wl)
    az = np.pi / 2 - th
    S1, S2 = g1(None, az, 0 * th)[None, :] * A, g2(None, az, 0 * th)[None, :] * A
    return np.concatenate((S1, S2)) if flatten else np.stack((S1, S2)), 2 * loc.shape[0], loc.shape[0], False, 2


def impl_vector_default_flatten(loc: 'f[M,D]', ae: 'f[K,2] in (-1,1)', wl: 'f+'):
    """sizes: M>=2, K>=1, D=1|2|3"""
    a = ArrayDesign(loc, 'x', element=CustomNonisotropicSensor(lambda r, az, el, p: np.stack((g1(r, az, el), g2(r, az, el), np.cos(az))), 3))
    return a.steering_matrix(FarField2DSourcePlacement(ae), wl), a.output_size


def spec_vector_default_flatten(loc, ae, wl):
    A = A_ff2(loc, ae, 'rad', wl)
    az, el = ae[:, 0], ae[:, 1]
    return np.concatenate((g1(None, az, el)[None, :] * A, g2(None, az, el)[None, :] * A, np.cos(az)[None, :] * A)), 3 * loc.shape[0]


# --- near field ----------------------------------------------------------------

def sph(loc, src):
    dx, dy, dz = src[:, 0] - coord(loc, 0), src[:, 1] - coord(loc, 1), -coord(loc, 2)
    dz = dz + 0.0 * dx
    return np.sqrt(dx ** 2 + dy ** 2 + dz ** 2), np.arctan2(dy, dx), (dx ** 2 + dy ** 2), dz


def impl_scalar_nf_2d(loc: 'f[M,D]', err: 'f[M,E]', src: 'f[K,2]', wl: 'f+', sel: "{'all','none'}"):
    """sizes: M>=2, K>=1, D=1|2, E=1|2"""
    a = ArrayDesign(loc, 'x', {'location_errors': (err, False)}, CustomNonisotropicSensor(lambda r, az, el, p: r * np.cos(az) + el + np.sin(az)))
    return a.steering_matrix(NearField2DSourcePlacement(src), wl, perturbations=sel)


def spec_scalar_nf_2d(loc, err, src, wl, sel):
    x = actual(loc, err) if sel == 'all' else loc
    r, az, _, _ = sph(x, src)
    return (r * np.cos(az) + np.sin(az)) * A_nf(x, src, wl)


def impl_scalar_nf_3d(loc: 'f[M,3]', src: 'f[K,2]', wl: 'f+'):
    """sizes: M>=2, K>=1"""
    a = ArrayDesign(loc, 'x', element=CustomNonisotropicSensor(lambda r, az, el, p: r + az))
    return a.steering_matrix(NearField2DSourcePlacement(src), wl)


def spec_scalar_nf_3d(loc, src, wl):
    r, az, _, _ = sph(loc, src)
    return (r + az) * A_nf(loc, src, wl)


def impl_vector_nf(loc: 'f[M,D]', src: 'f[K,2]', wl: 'f+', flatten: '{True,False}'):
    """sizes: M>=2, K>=1, D=1|2|3"""
    a = ArrayDesign(loc, 'x', element=CustomNonisotropicSensor(lambda r, az, el, p: np.stack((r, az)), 2))
    return a.steering_matrix(NearField2DSourcePlacement(src), wl, flatten=flatten), a.output_size


def spec_vector_nf(loc, src, wl, flatten):
    r, az, _, _ = sph(loc, src)
    A = A_nf(loc, src, wl)
    return np.concatenate((r * A, az * A)) if flatten else np.stack((r * A, az * A)), 2 * loc.shape[0]


def impl_vector_nf_moved(loc: 'f[M,D]', err: 'f[M,E]', src: 'f[K,2]', wl: 'f+', sel: "{'all','known','none'}", known: '{True,False}'):
    """sizes: M>=2, K>=1, D=1|2, E=1|2"""
    a = ArrayDesign(loc, 'x', {'location_errors': (err, known)}, CustomNonisotropicSensor(lambda r, az, el, p: np.stack((r, az)), 2))
    return a.steering_matrix(NearField2DSourcePlacement(src), wl, perturbations=sel)


def spec_vector_nf_moved(loc, err, src, wl, sel, known):
    x = actual(loc, err) if sel == 'all' or (sel == 'known' and known) else loc
    r, az, _, _ = sph(x, src)
    A = A_nf(x, src, wl)
    return np.concatenate((r * A, az * A))


def impl_vector_ff_moved(loc: 'f[M,D]', err: 'f[M,E]', ae: 'f[K,2] in (-1,1)', wl: 'f+', sel: "{'all','known','none'}", known: '{True,False}'):
    """sizes: M>=2, K>=1, D=1|2|3, E=1|2|3"""
    a = ArrayDesign(loc, 'x', {'location_errors': (err, known)}, CustomNonisotropicSensor(lambda r, az, el, p: np.stack((g1(r, az, el), g2(r, az, el))), 2))
    return a.steering_matrix(FarField2DSourcePlacement(ae), wl, perturbations=sel)


def spec_vector_ff_moved(loc, err, ae, wl, sel, known):
    x = actual(loc, err) if sel == 'all' or (sel == 'known' and known) else loc
    A = A_ff2(x, ae, 'rad', wl)
    return np.concatenate((g1(None, ae[:, 0], ae[:, 1])[None, :] * A, g2(None, ae[:, 0], ae[:, 1])[None, :] * A))


# --- what the response function is given --------------------------------------------

def impl_arguments(loc: 'f[M,D]', th: 'f[K] in (-1,1)', ae: 'f[K,2] in (-1,1)', src: 'f[K,2]', wl: 'f+', kind: "{'f1','f2','nf'}"):
    """sizes: M>=2, K>=1, D=1|2|3"""
    s = {'f1': FarField1DSourcePlacement(th, 'sin'), 'f2': FarField2DSourcePlacement(ae, 'deg'), 'nf': NearField2DSourcePlacement(src)}[kind]
    seen = []

    def f(r, az, el, p):
        seen.append((r, az, el, p))
        return np.ones(r.shape)
    a = ArrayDesign(loc, 'x', element=CustomNonisotropicSensor(f))
    A = a.steering_matrix(s, wl)
    r, az, el = s.calc_spherical_coords(loc if kind == 'nf' else np.zeros((1, 1)))
    return len(seen), seen[0], A


def spec_arguments(loc, th, ae, src, wl, kind):
    s = {'f1': FarField1DSourcePlacement(th, 'sin'), 'f2': FarField2DSourcePlacement(ae, 'deg'), 'nf': NearField2DSourcePlacement(src)}[kind]
    r, az, el = s.calc_spherical_coords(loc if kind == 'nf' else np.zeros((1, 1)))
    A = A_ff1(loc, th, 'sin', wl) if kind == 'f1' else (A_ff2(loc, ae, 'deg', wl) if kind == 'f2' else A_nf(loc, src, wl))
    return 1, (r, az, el, None), A


# --- direct evaluation and its guards -------------------------------------------------

def impl_response(r: 'f[M,K]', az: 'f[M,K]', el: 'f[M,K]', pol: 'c[M,K,P]', out: '{1,2}', polarized: '{True,False}', give: '{True,False}'):
    """sizes: M>=1, K>=1, P>=1"""
    seen = []

    def f(r, az, el, p):
        seen.append(p)
        return g1(r, az, el) if out == 1 else np.stack((g1(r, az, el), g2(r, az, el)))
    e = CustomNonisotropicSensor(f, out, polarized)
    S = e.calc_spatial_response(r, az, el, pol if give else None)
    return S, seen[0], e.is_polarized, e.output_size, e.is_scalar


def spec_response(r, az, el, pol, out, polarized, give):
    if give and not polarized:
        raise ValueError('polarization')
    S = g1(r, az, el) if out == 1 else np.stack((g1(r, az, el), g2(r, az, el)))
    return S, (pol if give else None), polarized, out, out == 1


def impl_response_shapes(r: 'f[M,K]', az: 'f[N,K]', el: 'f[M,L]', which: "{'az','el','both'}"):
    """sizes: M>=1, K>=1, N>=1, L>=1"""
    e = CustomNonisotropicSensor(lambda r, az, el, p: r)
    return e.calc_spatial_response(r, az if which != 'el' else r, el if which != 'az' else r)


def spec_response_shapes(r, az, el, which):
    if which != 'el' and az.shape[0] != r.shape[0] or which != 'az' and el.shape[1] != r.shape[1]:
        raise ValueError('shape')
    return r


def impl_response_rank(r: 'f[M,K]', v: 'f[K]', s: 'f'):
    """sizes: M>=1, K>=1"""
    e = CustomNonisotropicSensor(lambda r, az, el, p: r)
    i = IsotropicScalarSensor()
    return [probe.catch(lambda: x.calc_spatial_response(r, *ae)) for x in (e, i) for ae in ((v, r), (r, v), (s, s), (r, s))] + [i.calc_spatial_response(v, v, v), i.calc_spatial_response(s, s, s)]


def spec_response_rank(r, v, s):
    return ['ValueError'] * 8 + [np.ones(v.shape[0]), 1.0]


def impl_polarization_shape(r: 'f[M,K]', pol: 'c[N,L,P]'):
    """sizes: M>=1, K>=1, N>=1, L>=1, P>=1"""
    e = CustomNonisotropicSensor(lambda r, az, el, p: p[:, :, 0], 1, True)
    return e.calc_spatial_response(r, r, r, pol)


def spec_polarization_shape(r, pol):
    if r.shape[0] != pol.shape[0] or r.shape[1] != pol.shape[1]:
        raise ValueError('shape')
    return pol[:, :, 0]


def impl_polarization_rank(r: 'f[M,K]', p1: 'c[K]', p2: 'c[M,K]', p4: 'c[M,K,P,Q]'):
    """sizes: M>=1, K>=1, P>=1, Q>=1"""
    e = CustomNonisotropicSensor(lambda r, az, el, p: r, 1, True)
    return [probe.catch(lambda: e.calc_spatial_response(r, r, r, p)) for p in (p1, p2, p4)]


def spec_polarization_rank(r, p1, p2, p4):
    return ['ValueError'] * 3


def impl_polarization_flat(r: 'f[M]', s: 'f[M,K,L]', p1: 'c[M]', p2: 'c[M,P]', p4: 'c[M,K,L,P]', bad: 'c[M,K,P]'):
    """sizes: M>=1, K>=1, L>=1, P>=1"""
    # one axis more than the coordinates, whatever the number of axes of those
    seen = []

    def f(r, az, el, p):
        seen.append(p)
        return r
    e = CustomNonisotropicSensor(f, 1, True)
    a, b = e.calc_spatial_response(r, r, r, p2), e.calc_spatial_response(s, s, s, p4)
    return a, b, seen[0], seen[1], probe.catch(lambda: e.calc_spatial_response(r, r, r, p1)), probe.catch(lambda: e.calc_spatial_response(s, s, s, bad)), len(seen)


def spec_polarization_flat(r, s, p1, p2, p4, bad):
    return r, s, p2, p4, 'ValueError', 'ValueError', 2


def impl_isotropic(r: 'f[M,K]', pol: 'c[M,K,P]'):
    """sizes: M>=1, K>=1, P>=1"""
    e = ISOTROPIC_SCALAR_SENSOR
    return e.calc_spatial_response(r, r, r), probe.catch(lambda: e.calc_spatial_response(r, r, r, pol)), e.output_size, e.is_scalar, e.is_isotropic, e.is_polarized


def spec_isotropic(r, pol):
    return np.ones(r.shape), 'ValueError', 1, True, True, False


# --- derivatives -----------------------------------------------------------------------

def impl_derivatives(loc: 'f[M,D]', th: 'f[K] in (-1,1)', wl: 'f+', out: '{1,2}', unit: "{'rad','sin'}"):
    """sizes: M>=2, K>=1, D=1|2|3"""
    a = ArrayDesign(loc, 'x', element=CustomNonisotropicSensor(lambda r, az, el, p: np.ones((out,) + r.shape) if out > 1 else np.ones(r.shape), out))
    return probe.catch(lambda: a.steering_matrix(FarField1DSourcePlacement(th, unit), wl, True)), probe.catch(lambda: a.steering_matrix(FarField1DSourcePlacement(th, unit), wl))


def spec_derivatives(loc, th, wl, out, unit):
    return 'RuntimeError', None


class Iso3(ArrayElement):
    """Isotropic element with three outputs."""
    @property
    def output_size(self):
        return 3

    @property
    def is_isotropic(self):
        return True

    @property
    def is_polarized(self):
        return False

    def _calc_spatial_response(self, r, az, el, polarization):
        return np.stack((np.ones(r.shape), 2 * np.ones(r.shape), -1j * np.ones(r.shape)))


def impl_isotropic_vector(loc: 'f[M,D]', th: 'f[K] in (-pi/2,pi/2)', wl: 'f+'):
    """sizes: M>=2, K>=1, D=1|2|3"""
    a = ArrayDesign(loc, 'x', element=Iso3())
    s = FarField1DSourcePlacement(th)
    return a.steering_matrix(s, wl), a.output_size, probe.catch(lambda: a.steering_matrix(s, wl, True))


def spec_isotropic_vector(loc, th, wl):
    A = A_ff1(loc, th, 'rad', wl)
    return np.concatenate((A, 2 * A, -1j * A)), 3 * loc.shape[0], 'RuntimeError'


def impl_output_size(n: 'size>=1', d0: 'f+', out: '{1,2,3,6}'):
    a = UniformLinearArray(n, d0, element=CustomNonisotropicSensor(lambda r, az, el, p: r, out))
    b = UniformLinearArray(n, d0)
    return a.output_size, a.size, b.output_size, b.size


def spec_output_size(n, d0, out):
    return out * n, n, n, n
