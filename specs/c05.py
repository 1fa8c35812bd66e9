import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray, UniformCircularArray
from doatools.model.array_elements import CustomNonisotropicSensor
from doatools.model.perturbations import LocationErrors, GainErrors, PhaseErrors, MutualCoupling
import probe

VEC = (GainErrors, PhaseErrors)


def cls(name):
    return {'loc': LocationErrors, 'gain': GainErrors, 'phase': PhaseErrors, 'mc': MutualCoupling}[name]


def key(name):
    return {'loc': 'location_errors', 'gain': 'gain_errors', 'phase': 'phase_errors', 'mc': 'mutual_coupling'}[name]


def report(p):
    return p.params, p.is_known


# --- shape of the parameters ------------------------------------------------

def impl_loc_2d(p: 'f[M,E]', known: '{True,False}'):
    """sizes: M>=1, E>=1"""
    return report(LocationErrors(p, known))


def spec_loc_2d(p, known):
    if p.shape[1] > 3:
        raise ValueError('dim')
    return p, known


def impl_loc_wrong_ndim(v: 'f[M]', t: 'f[M,N,P]', s: 'f'):
    """sizes: M>=1, N>=1, P>=1"""
    return [probe.catch(lambda: LocationErrors(x)) for x in (v, t, s, np.zeros((4, 0)), [1.0, 2.0])]


def spec_loc_wrong_ndim(v, t, s):
    return ['ValueError'] * 5


def impl_vec(p: 'f[M]', known: '{True,False}', which: "{'gain','phase'}"):
    """sizes: M>=1"""
    return report(cls(which)(p, known))


def spec_vec(p, known, which):
    return p, known


def impl_vec_wrong_ndim(m: 'f[M,N]', t: 'f[M,N,P]', s: 'f', which: "{'gain','phase'}"):
    """sizes: M>=1, N>=1, P>=1"""
    return [probe.catch(lambda: cls(which)(x)) for x in (m, t, s, [[1.0, 2.0]], m[:1, :], m[:, :1])]


def spec_vec_wrong_ndim(m, t, s, which):
    return ['ValueError'] * 6


def impl_mc(p: 'c[M,N]', known: '{True,False}'):
    """sizes: M>=1, N>=1"""
    return report(MutualCoupling(p, known))


def spec_mc(p, known):
    if p.shape[0] != p.shape[1]:
        raise ValueError('square')
    return p, known


def impl_mc_wrong_ndim(v: 'f[M]', t: 'f[M,M,M]', s: 'f'):
    """sizes: M>=1"""
    return [probe.catch(lambda: MutualCoupling(x)) for x in (v, t, s, [[1.0, 2.0]])]


def spec_mc_wrong_ndim(v, t, s):
    return ['ValueError'] * 4


def impl_lists(a: 'f', b: 'f', c: 'c', known: '{True,False}'):
    ps = [LocationErrors([[a], [b]], known), LocationErrors([[a, b]], known), LocationErrors([[a, b, a]], known), LocationErrors(((a,), (b,)), known),
          GainErrors([a, b], known), PhaseErrors([a, b], known), GainErrors((a, b), known), MutualCoupling([[a, b], [b, a]], known), MutualCoupling([[c]], known)]
    return [report(p) for p in ps]


def spec_lists(a, b, c, known):
    v, m = np.array([a, b]), np.array([[a, b], [b, a]])
    return [(x, known) for x in (np.array([[a], [b]]), np.array([[a, b]]), np.array([[a, b, a]]), np.array([[a], [b]]), v, v, v, m, np.array([[c]]))]


def impl_default_known(g: 'f[M]', C: 'c[M,M]', e: 'f[M,2]'):
    """sizes: M>=1"""
    return [p.is_known for p in (GainErrors(g), PhaseErrors(g), MutualCoupling(C), LocationErrors(e))]


def spec_default_known(g, C, e):
    return [False] * 4


# --- size against the array --------------------------------------------------

def impl_size(loc: 'f[M,D]', e: 'f[N,E]', g: 'f[N]', C: 'c[N,N]', which: "{'loc','gain','phase','mc'}", form: "{'dict','list','copy','copydict'}"):
    """sizes: M>=1, N>=1, D=1|2|3, E=1|2|3"""
    x = {'loc': e, 'gain': g, 'phase': g, 'mc': C}[which]
    if form == 'dict':
        a = ArrayDesign(loc, 'x', {key(which): (x, True)})
    elif form == 'list':
        a = ArrayDesign(loc, 'x', [cls(which)(x, True)])
    elif form == 'copy':
        a = ArrayDesign(loc, 'x').get_perturbed_copy([cls(which)(x, True)])
    else:
        a = ArrayDesign(loc, 'x').get_perturbed_copy({key(which): (x, True)})
    return report(a.perturbations[0]), len(a.perturbations), a.has_perturbation(cls(which)), a.is_perturbation_known(cls(which)), a.get_perturbation_params(cls(which))


def spec_size(loc, e, g, C, which, form):
    x = {'loc': e, 'gain': g, 'phase': g, 'mc': C}[which]
    if loc.shape[0] != x.shape[0]:
        raise RuntimeError('size')
    return (x, True), 1, True, True, x


def impl_ula_size(n: 'size>=1', g: 'f[N]', which: "{'gain','phase'}", d0: 'f+'):
    """sizes: N>=1"""
    a = UniformLinearArray(n, d0, perturbations=[cls(which)(g)])
    return report(a.perturbations[0])


def spec_ula_size(n, g, which, d0):
    if g.shape[0] != n:
        raise RuntimeError('size')
    return g, False


# --- elements ------------------------------------------------------------------

def impl_nonscalar(loc: 'f[M,D]', e: 'f[M,E]', g: 'f[M]', C: 'c[M,M]', which: "{'loc','gain','phase','mc'}", out: '{1,2,3,6}', form: "{'dict','list','copy'}"):
    """sizes: M>=1, D=1|2|3, E=1|2|3"""
    x = {'loc': e, 'gain': g, 'phase': g, 'mc': C}[which]
    el = CustomNonisotropicSensor(lambda r, az, el_, p: np.ones((out,) + r.shape), out)
    if form == 'dict':
        a = ArrayDesign(loc, 'x', {key(which): (x, False)}, el)
    elif form == 'list':
        a = ArrayDesign(loc, 'x', [cls(which)(x)], el)
    else:
        a = ArrayDesign(loc, 'x', element=el).get_perturbed_copy([cls(which)(x)])
    return report(a.perturbations[0])


def spec_nonscalar(loc, e, g, C, which, out, form):
    if which != 'loc' and out > 1:
        raise RuntimeError('scalar')
    return {'loc': e, 'gain': g, 'phase': g, 'mc': C}[which], False


# --- duplicates ------------------------------------------------------------------

def impl_duplicates(loc: 'f[M,D]', e: 'f[M,E]', g: 'f[M]', h: 'f[M]', C: 'c[M,M]', pair: "{'gg','pp','cc','ll','gpg','lgl','gp','pg','lc','cgp'}"):
    """sizes: M>=1, D=1|2|3, E=1|2|3"""
    par = {'g': lambda: GainErrors(g), 'p': lambda: PhaseErrors(h, True), 'c': lambda: MutualCoupling(C), 'l': lambda: LocationErrors(e)}
    a = ArrayDesign(loc, 'x', [par[x]() for x in pair])
    return [report(p) for p in a.perturbations]


def spec_duplicates(loc, e, g, h, C, pair):
    for i in range(len(pair)):
        for j in range(i):
            if pair[i] == pair[j]:
                raise RuntimeError('duplicate')
    par = {'g': (g, False), 'p': (h, True), 'c': (C, False), 'l': (e, False)}
    return [par[x] for x in pair]


def impl_duplicates_in_copy(loc: 'f[M,D]', g: 'f[M]', h: 'f[M]'):
    """sizes: M>=1, D=1|2|3"""
    a = ArrayDesign(loc, 'x', [GainErrors(g)])
    b = a.get_perturbed_copy([GainErrors(h, True)])
    return [report(p) for p in b.perturbations], [report(p) for p in a.perturbations]


def spec_duplicates_in_copy(loc, g, h):
    return [(h, True)], [(g, False)]


def impl_applicable(loc: 'f[M,D]', e: 'f[N,E]', g: 'f[N]', C: 'c[N,N]', out: '{1,2}'):
    """sizes: M>=1, N>=1, D=1|2|3, E=1|2|3"""
    a = ArrayDesign(loc, 'x', element=CustomNonisotropicSensor(lambda r, az, el_, p: r, out))
    return [p.is_applicable_to(a)[0] for p in (LocationErrors(e), GainErrors(g), PhaseErrors(g), MutualCoupling(C))]


def spec_applicable(loc, e, g, C, out):
    same = bool(loc.shape[0] == e.shape[0])
    ok = same and out == 1
    return [same, ok, ok, ok]


def impl_failed_leaves_array(loc: 'f[M,D]', g: 'f[M]', h: 'f[N]'):
    """sizes: M>=1, N>=1, D=1|2|3
    assume: M<N"""
    a = ArrayDesign(loc, 'x', [GainErrors(g)])
    r = probe.catch(lambda: a.get_perturbed_copy([GainErrors(h)]))
    return r, [report(p) for p in a.perturbations]


def spec_failed_leaves_array(loc, g, h):
    return 'RuntimeError', [(g, False)]


# --- location arguments of the array itself ----------------------------------------

def impl_array_shape(m: 'f[M,D]'):
    """sizes: M>=1, D>=1"""
    a = ArrayDesign(m, 'x')
    return a.element_locations, a.ndim, a.size


def spec_array_shape(m):
    if m.shape[1] > 3:
        raise ValueError('dim')
    return m, m.shape[1], m.shape[0]


def impl_array_vector(v: 'f[M]', t: 'f[M,N,P]'):
    """sizes: M>=1, N>=1, P>=1"""
    a = ArrayDesign(v, 'x')
    return a.element_locations, a.ndim, a.size, probe.catch(lambda: ArrayDesign(t, 'x'))


def spec_array_vector(v, t):
    return v[:, None], 1, v.shape[0], 'ValueError'
