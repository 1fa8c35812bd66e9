import numpy as np
from doatools.model.arrays import (ArrayDesign, GridBasedArrayDesign, UniformLinearArray, NestedArray, CoPrimeArray, MinimumRedundancyLinearArray,
                                   UniformCircularArray, UniformRectangularArray)
from doatools.model.array_elements import CustomNonisotropicSensor, IsotropicScalarSensor, ISOTROPIC_SCALAR_SENSOR
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
import probe

NAMES = {'custom': 'c', 'grid': None, 'ula': 'ULA 6', 'nested': 'Nested (2,4)', 'coprime': 'Co-prime (2,3)', 'mrla': 'MRLA 6', 'uca': 'UCA 6', 'ura': 'URA 2x3'}


def build(kind, d0, **kw):
    if kind == 'custom':
        return ArrayDesign(np.arange(6) * d0, kw.pop('name', 'c'), **kw)
    if kind == 'grid':
        return GridBasedArrayDesign(np.arange(6)[:, None], d0, **kw)
    if kind == 'ula':
        return UniformLinearArray(6, d0, **kw)
    if kind == 'nested':
        return NestedArray(2, 4, d0, **kw)
    if kind == 'coprime':
        return CoPrimeArray(2, 3, d0, **kw)
    if kind == 'mrla':
        return MinimumRedundancyLinearArray(6, d0, **kw)
    if kind == 'uca':
        return UniformCircularArray(6, d0, **kw)
    return UniformRectangularArray(2, 3, d0, **kw)


def table(a):
    return [a.name, a.element, a.is_perturbed, len(a.perturbations), [p.__class__.__name__ for p in a.perturbations], [p.params for p in a.perturbations], [p.is_known for p in a.perturbations],
            [a.has_perturbation(t) for t in (LocationErrors, GainErrors, PhaseErrors, MutualCoupling)]]


def impl_defaults(d0: 'f+', kind: "{'custom','grid','ula','nested','coprime','mrla','uca','ura'}"):
    a = build(kind, d0)
    return table(a), a.element.is_scalar, a.element.is_isotropic, a.element.output_size, a.size


def spec_defaults(d0, kind):
    return [NAMES[kind], ISOTROPIC_SCALAR_SENSOR, False, 0, [], [], [], [False] * 4], True, True, 1, 6


def impl_name(d0: 'f+', kind: "{'custom','grid','ula','nested','coprime','mrla','uca','ura'}"):
    return build(kind, d0, name='My array').name, build(kind, d0).name, build(kind, d0, name='').name


def spec_name(d0, kind):
    return 'My array', NAMES[kind], ''


class Special(IsotropicScalarSensor):
    """An isotropic element of another class."""
    pass


def impl_own_isotropic(d0: 'f+', kind: "{'custom','grid','ula','nested','coprime','mrla','uca','ura'}", special: '{True,False}'):
    e = Special() if special else IsotropicScalarSensor()
    a = build(kind, d0, element=e)
    return a.element is e, a.element is ISOTROPIC_SCALAR_SENSOR, build(kind, d0).element is ISOTROPIC_SCALAR_SENSOR


def spec_own_isotropic(d0, kind, special):
    return True, False, True


def impl_element(d0: 'f+', kind: "{'custom','grid','ula','nested','coprime','mrla','uca','ura'}"):
    e = CustomNonisotropicSensor(lambda r, az, el, p: r, 3, True)
    a = build(kind, d0, element=e)
    b = build(kind, d0)
    return a.element is e, a.output_size, a.element.output_size, b.element is ISOTROPIC_SCALAR_SENSOR, a.is_perturbed, a.name


def spec_element(d0, kind):
    return True, 18, 3, True, False, NAMES[kind]


def impl_perturb(d0: 'f+', L: 'f[N,2]', g: 'f[N]', phi: 'f[N]', C: 'c[N,N]', form: "{'dict','list','dictlist'}", flags: "{(True,False,True,False),(False,True,False,True)}",
                 kind: "{'custom','grid','ula','nested','coprime','mrla','uca','ura'}"):
    """sizes: N=6"""
    f = flags
    if form == 'list':
        p = [GainErrors(g, f[1]), LocationErrors(L, f[0]), MutualCoupling(C, f[3]), PhaseErrors(phi, f[2])]
    else:
        p = {'gain_errors': (g, f[1]), 'location_errors': (L, f[0]), 'mutual_coupling': [C, f[3]] if form == 'dictlist' else (C, f[3]), 'phase_errors': (phi, f[2])}
    a = build(kind, d0, perturbations=p, name='n')
    return (table(a), [a.is_perturbation_known(t) for t in (LocationErrors, GainErrors, PhaseErrors, MutualCoupling)], a.get_perturbation_params(LocationErrors), a.get_perturbation_params(GainErrors),
            a.get_perturbation_params(PhaseErrors), a.get_perturbation_params(MutualCoupling), a.element is ISOTROPIC_SCALAR_SENSOR, build(kind, d0).is_perturbed)


def spec_perturb(d0, L, g, phi, C, form, flags, kind):
    f = flags
    return (['n', ISOTROPIC_SCALAR_SENSOR, True, 4, ['GainErrors', 'LocationErrors', 'MutualCoupling', 'PhaseErrors'], [g, L, C, phi], [f[1], f[0], f[3], f[2]], [True] * 4], list(f), L, g, phi, C, True, False)


def impl_single(d0: 'f+', g: 'f[N]', form: "{'dict','list'}", kind: "{'custom','grid','ula','nested','coprime','mrla','uca','ura'}"):
    """sizes: N=6"""
    a = build(kind, d0, perturbations={'gain_errors': (g, True)} if form == 'dict' else [GainErrors(g, True)])
    return table(a), build(kind, d0, perturbations={}).is_perturbed, build(kind, d0, perturbations=[]).is_perturbed, build(kind, d0).perturbations


def spec_single(d0, g, form, kind):
    return [NAMES[kind], ISOTROPIC_SCALAR_SENSOR, True, 1, ['GainErrors'], [g], [True], [False, True, False, False]], False, False, []


def impl_default_known(g: 'f[N]'):
    """sizes: N>=1"""
    return [p.is_known for p in (GainErrors(g), PhaseErrors(g), LocationErrors(g[:, None]), MutualCoupling(g[:, None] * g))]


def spec_default_known(g):
    return [False] * 4


def impl_all_options(d0: 'f+', L: 'f[N,1]', kind: "{'custom','grid','ula','nested','coprime','mrla','uca','ura'}"):
    """sizes: N=6"""
    e = CustomNonisotropicSensor(lambda r, az, el, p: r, 2)
    a = build(kind, d0, perturbations={'location_errors': (L, True)}, element=e, name='z')
    return a.name, a.element is e, [p.params for p in a.perturbations], [p.is_known for p in a.perturbations], a.output_size


def spec_all_options(d0, L, kind):
    return 'z', True, [L], [True], 12


def impl_no_leak(d0: 'f+', g: 'f[N]', kind: "{'custom','grid','ula','nested','coprime','mrla','uca','ura'}"):
    """sizes: N=6"""
    a = build(kind, d0)
    b = build(kind, d0, perturbations={'gain_errors': (g, False)}, name='b')
    a.perturbations.append(GainErrors(g))
    c = build(kind, d0)
    d = a.get_perturbed_copy([GainErrors(g)], 'd')
    e = build(kind, d0)
    return [table(x) for x in (a, c, e)], b.name, b.is_perturbed, d.name, d.is_perturbed


def spec_no_leak(d0, g, kind):
    t = [NAMES[kind], ISOTROPIC_SCALAR_SENSOR, False, 0, [], [], [], [False] * 4]
    return [t, t, t], 'b', True, 'd', True


def impl_grid_options(ix: 'i[M,D] in (0,9)', B: 'f[D,E]', g: 'f[M]', d0: 'f+'):
    """sizes: M>=1, D=1|2, E=1|2|3"""
    a = GridBasedArrayDesign(ix, bases=B, name='q', perturbations=[GainErrors(g, True)])
    b = GridBasedArrayDesign(ix, d0, 'r', None, perturbations={'gain_errors': (g, False)})
    return a.name, [p.params for p in a.perturbations], [p.is_known for p in a.perturbations], b.name, [p.params for p in b.perturbations], [p.is_known for p in b.perturbations]


def spec_grid_options(ix, B, g, d0):
    return 'q', [g], [True], 'r', [g], [False]


def impl_uca_names(n: 'size>=1', m: 'size>=1', d0: 'f+'):
    return UniformLinearArray(5, d0, 'x').name, UniformCircularArray(5, d0, 'y').name, UniformRectangularArray(2, 3, d0, 'z').name, NestedArray(2, 3, d0, 'w').name, CoPrimeArray(2, 3, d0, 'm', 'v').name, MinimumRedundancyLinearArray(3, d0, 'u').name, CoPrimeArray(3, 2, d0).name


def spec_uca_names(n, m, d0):
    return 'x', 'y', 'z', 'w', 'v', 'u', 'Co-prime (3,2)'


def sized(kind, n, d0, **kw):
    """An array with n elements (ula, uca, ura: one row) or of n-dependent size."""
    if kind == 'ula':
        return UniformLinearArray(n, d0, **kw)
    if kind == 'uca':
        return UniformCircularArray(n, d0, **kw)
    if kind == 'ura':
        return UniformRectangularArray(n, 3, d0, **kw)
    if kind == 'tall':
        return UniformRectangularArray(2, n, d0, **kw)
    return GridBasedArrayDesign(np.arange(n)[:, None], d0, **kw)


def options(make, a, b, named, g):
    """What an array built with every option reports."""
    e = CustomNonisotropicSensor(lambda r, az, el, p: r, 3, True)
    kw = {'element': e, 'perturbations': {'location_errors': (g, True)}}
    if named:
        kw['name'] = 'mine'
    x, y = make(a, b, **kw), make(a, b)
    return x.element is e, [p.params for p in x.perturbations], [p.is_known for p in x.perturbations], [p.__class__ for p in x.perturbations], x.name if named else 'mine', y.element is ISOTROPIC_SCALAR_SENSOR, y.is_perturbed, y.name if not named else None, x.size, y.size


def expected(g, named, name, n):
    return True, [g], [True], [LocationErrors], 'mine', True, False, name if not named else None, n, n


def impl_options_sized(n: 'size>=1', g: 'f[P,1]', d0: 'f+', named: '{True,False}', kind: "{'ula','uca','grid'}"):
    """sizes: P>=1"""
    g = g[np.zeros(n, dtype=int)]
    r = options(lambda a, b, **kw: sized(kind, a, b, **kw), n, d0, named, g)
    return r[:7] + r[8:]


def spec_options_sized(n, g, d0, named, kind):
    r = expected(g[np.zeros(n, dtype=int)], named, None, n)
    return r[:7] + r[8:]


def impl_options_mrla(n: '{1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20}', g: 'f[P,1]', d0: 'f+', named: '{True,False}'):
    """sizes: P>=1"""
    return options(lambda a, b, **kw: MinimumRedundancyLinearArray(a, b, **kw), n, d0, named, g[np.zeros(n, dtype=int)])


def spec_options_mrla(n, g, d0, named):
    return expected(g[np.zeros(n, dtype=int)], named, 'MRLA ' + str(n), n)


def impl_options_pairs(a: '{1,2,3,4,5}', b: '{1,2,3,4,5}', g: 'f[P,1]', d0: 'f+', named: '{True,False}', kind: "{'nested','coprime','single','ura','ula','uca'}"):
    """sizes: P>=1"""
    if kind in ('coprime', 'single') and not (a, b) in PAIRS:
        return None
    n = counted(kind, a, b)
    return options({'nested': lambda x, y, **kw: NestedArray(x[0], x[1], y, **kw), 'coprime': lambda x, y, **kw: CoPrimeArray(x[0], x[1], y, **kw), 'single': lambda x, y, **kw: CoPrimeArray(x[0], x[1], y, 'm', **kw),
                    'ura': lambda x, y, **kw: UniformRectangularArray(x[0], x[1], y, **kw), 'ula': lambda x, y, **kw: UniformLinearArray(x[0] + 5 * x[1], y, **kw), 'uca': lambda x, y, **kw: UniformCircularArray(x[0] + 5 * x[1], y, **kw)}[kind],
                   (a, b), d0, named, g[np.zeros(n, dtype=int)])


PAIRS = [(2, 3), (3, 2), (3, 4), (2, 5), (5, 2), (4, 5), (5, 3), (1, 2), (2, 1), (1, 5)]


def counted(kind, a, b):
    return {'nested': a + b, 'coprime': min(a, b) * 2 + max(a, b) - 1, 'single': a + b - 1, 'ura': a * b, 'ula': a + 5 * b, 'uca': a + 5 * b}[kind]


def spec_options_pairs(a, b, g, d0, named, kind):
    if kind in ('coprime', 'single') and not (a, b) in PAIRS:
        return None
    n = counted(kind, a, b)
    s = '(' + str(a) + ',' + str(b) + ')'
    return expected(g[np.zeros(n, dtype=int)], named, {'nested': 'Nested ' + s, 'coprime': 'Co-prime ' + s, 'single': 'Co-prime ' + s, 'ura': 'URA ' + str(a) + 'x' + str(b), 'ula': 'ULA ' + str(n), 'uca': 'UCA ' + str(n)}[kind], n)
