import numpy as np
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from specs.lib import bound, coord
import probe


def impl_admit_1d(x: 'f[K]', unit: "{'rad','deg','sin'}"):
    """sizes: K>=1"""
    s = FarField1DSourcePlacement(x, unit)
    return s.locations, s.units, s.size, len(s), s.valid_ranges, s.is_far_field


def spec_admit_1d(x, unit):
    b = bound(unit)
    if np.any(x < -b) or np.any(x > b):
        raise ValueError('range')
    return x, (unit,), x.shape[0], x.shape[0], ((-b, b),), True


def impl_admit_2d(x: 'f[K,2]', unit: "{'rad','deg'}"):
    """sizes: K>=1"""
    s = FarField2DSourcePlacement(x, unit)
    return s.locations, s.units, s.size, len(s), s.valid_ranges, s.is_far_field


def spec_admit_2d(x, unit):
    b = bound(unit)
    if np.any(x[:, 0] < -2 * b) or np.any(x[:, 0] > 2 * b) or np.any(x[:, 1] < -b) or np.any(x[:, 1] > b):
        raise ValueError('range')
    return x, (unit, unit), x.shape[0], x.shape[0], ((-2 * b, 2 * b), (-b, b)), True


def impl_admit_nf(x: 'f[K,2]'):
    """sizes: K>=1"""
    s = NearField2DSourcePlacement(x)
    return s.locations, s.units, s.size, len(s), s.valid_ranges, s.is_far_field


def spec_admit_nf(x):
    return x, ('m', 'm'), x.shape[0], x.shape[0], ((-np.inf, np.inf), (-np.inf, np.inf)), False


def impl_lists(a: 'f in (-1,1)', b: 'f in (-1,1)', unit: "{'rad','deg'}"):
    s = FarField1DSourcePlacement([a, b], unit)
    t = FarField2DSourcePlacement([[a, b], [b, a]], unit)
    u = NearField2DSourcePlacement([[a, b], [b, a]])
    return s.locations, t.locations, u.locations


def spec_lists(a, b, unit):
    m = np.array([[a, b], [b, a]])
    return np.array([a, b]), m, m


def impl_defaults(x: 'f[K] in (-1,1)'):
    """sizes: K>=1"""
    return FarField1DSourcePlacement(x).units, FarField2DSourcePlacement(np.stack((x, x), 1)).units


def spec_defaults(x):
    return ('rad',), ('rad', 'rad')


def impl_bad_unit_1d(x: 'f[K] in (-1,1)', unit: "{'m','degree','RAD','',None}"):
    """sizes: K>=1"""
    return FarField1DSourcePlacement(x, unit)


def spec_bad_unit_1d(x, unit):
    raise ValueError('unit')


def impl_bad_unit_2d(x: 'f[K,2] in (-1,1)', unit: "{'m','sin','RAD','',None}"):
    """sizes: K>=1"""
    return FarField2DSourcePlacement(x, unit)


def spec_bad_unit_2d(x, unit):
    raise ValueError('unit')


def impl_bad_shape(x: 'f[K,D] in (-1,1)', y: 'f[K,2,2] in (-1,1)', v: 'f[K] in (-1,1)', case: "{0,1,2,3,4,5,6,7,8,9}"):
    """sizes: K>=1, D=1|3"""
    if case > 6:
        z = np.array(0.5)
        return FarField1DSourcePlacement(z) if case == 7 else FarField2DSourcePlacement(z) if case == 8 else NearField2DSourcePlacement(z)
    if case == 0:
        return FarField1DSourcePlacement(x)
    if case == 1:
        return FarField2DSourcePlacement(x)
    if case == 2:
        return FarField2DSourcePlacement(y)
    if case == 3:
        return FarField2DSourcePlacement(v)
    if case == 4:
        return NearField2DSourcePlacement(x)
    if case == 5:
        return NearField2DSourcePlacement(v)
    return NearField2DSourcePlacement(y)


def spec_bad_shape(x, y, v, case):
    raise ValueError('shape')


def r2(x, unit):
    return x if unit == 'rad' else (x * (180 / np.pi) if unit == 'deg' else np.sin(x))


def impl_as_unit_1d(th: 'f[K] in (-pi/2,pi/2)', f: "{'rad','deg','sin'}", t: "{'rad','deg','sin'}"):
    """sizes: K>=1"""
    s = FarField1DSourcePlacement(r2(th, f), f).as_unit(t)
    return s.locations, s.units, s


def spec_as_unit_1d(th, f, t):
    return r2(th, t), (t,), FarField1DSourcePlacement(r2(th, t), t)


def impl_as_unit_2d(az: 'f[K] in (-pi,pi)', el: 'f[K] in (-pi/2,pi/2)', f: "{'rad','deg'}", t: "{'rad','deg'}"):
    """sizes: K>=1"""
    s = FarField2DSourcePlacement(np.stack((r2(az, f), r2(el, f)), 1), f).as_unit(t)
    return s.locations, s.units, s


def spec_as_unit_2d(az, el, f, t):
    x = np.stack((r2(az, t), r2(el, t)), 1)
    return x, (t, t), FarField2DSourcePlacement(x, t)


def impl_round_trip(th: 'f[K] in (-pi/2,pi/2)', f: "{'rad','deg','sin'}", t: "{'rad','deg','sin'}"):
    """sizes: K>=1"""
    return FarField1DSourcePlacement(r2(th, f), f).as_unit(t).as_unit(f).locations


def spec_round_trip(th, f, t):
    return r2(th, f)


def impl_same_unit_copy(x: 'f[K] in (-1,1)', y: 'f[K,2] in (-1,1)', unit: "{'rad','deg','sin'}"):
    """sizes: K>=1"""
    a = FarField1DSourcePlacement(x.copy(), unit)
    b = a.as_unit(unit)
    c = NearField2DSourcePlacement(y.copy())
    d = c.as_unit('m')
    b.locations[0] = 0.5
    d.locations[0, 0] = 0.5
    r = [a.locations, c.locations, a is b, c is d, d.units]
    if unit != 'sin':
        e = FarField2DSourcePlacement(y.copy(), unit)
        g = e.as_unit(unit)
        g.locations[0, 1] = 0.5
        r.append(e.locations)
    return r


def spec_same_unit_copy(x, y, unit):
    r = [x, y, False, False, ('m', 'm')]
    if unit != 'sin':
        r.append(y)
    return r


def impl_nf_as_unit_refuse(y: 'f[K,2]', unit: "{'rad','deg','sin','km'}"):
    """sizes: K>=1"""
    return NearField2DSourcePlacement(y).as_unit(unit)


def spec_nf_as_unit_refuse(y, unit):
    raise ValueError('unit')


def impl_from_z(z: 'c[K]', wl: 'f+', d0: 'f+', unit: "{'rad','deg','sin'}"):
    """sizes: K>=1"""
    s = np.angle(z) * wl / (2 * np.pi * d0)
    probe.assume(np.all(s <= 1))
    probe.assume(np.all(s >= -1))
    p = FarField1DSourcePlacement.from_z(z, wl, d0, unit)
    return p.locations, p.units, p


def spec_from_z(z, wl, d0, unit):
    s = np.angle(z) * wl / (2 * np.pi * d0)
    x = np.sort(s if unit == 'sin' else (np.arcsin(s) if unit == 'rad' else np.arcsin(s) * (180 / np.pi)))
    return x, (unit,), FarField1DSourcePlacement(np.array([0.0]))


def impl_from_z_default(z: 'c[K]', wl: 'f+', d0: 'f+'):
    """sizes: K>=1"""
    s = np.angle(z) * wl / (2 * np.pi * d0)
    probe.assume(np.all(s <= 1))
    probe.assume(np.all(s >= -1))
    return FarField1DSourcePlacement.from_z(z, wl, d0).locations


def spec_from_z_default(z, wl, d0):
    return np.sort(np.arcsin(np.angle(z) * wl / (2 * np.pi * d0)))


def impl_spherical_1d(th: 'f[K] in (-pi/2,pi/2)', ref: 'f[M,D]', unit: "{'rad','deg','sin'}"):
    """sizes: K>=1, M>=1, D=1|2|3"""
    return FarField1DSourcePlacement(r2(th, unit), unit).calc_spherical_coords(ref)


def spec_spherical_1d(th, ref, unit):
    m, k = ref.shape[0], th.shape[0]
    one = np.ones((m, k))
    return np.inf * one, (np.pi / 2 - th) * one, np.zeros((m, k))


def impl_spherical_2d(az: 'f[K] in (-pi,pi)', el: 'f[K] in (-pi/2,pi/2)', ref: 'f[M,D]', unit: "{'rad','deg'}"):
    """sizes: K>=1, M>=1, D=1|2|3"""
    return FarField2DSourcePlacement(np.stack((r2(az, unit), r2(el, unit)), 1), unit).calc_spherical_coords(ref)


def spec_spherical_2d(az, el, ref, unit):
    one = np.ones((ref.shape[0], az.shape[0]))
    return np.inf * one, az * one, el * one


def impl_spherical_nf(src: 'f[K,2]', ref: 'f[M,D]'):
    """sizes: K>=1, M>=1, D=1|2|3"""
    return NearField2DSourcePlacement(src).calc_spherical_coords(ref)


def spec_spherical_nf(src, ref):
    dx = src[:, 0] - coord(ref, 0)
    dy = src[:, 1] - coord(ref, 1)
    dz = 0 - coord(ref, 2) + 0 * dx
    el = np.arctan2(dz, np.sqrt(dx ** 2 + dy ** 2)) if ref.shape[1] == 3 else 0 * dx
    return np.sqrt(dx ** 2 + dy ** 2 + dz ** 2), np.arctan2(dy, dx), el
