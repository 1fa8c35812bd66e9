import numpy as np
from doatools.model.arrays import ArrayDesign, GridBasedArrayDesign, UniformLinearArray, NestedArray, CoPrimeArray, MinimumRedundancyLinearArray, UniformRectangularArray, UniformCircularArray
from doatools.model.coarray import WeightFunction1D, compute_location_differences
from doatools.estimation.coarray import CoarrayACMBuilder1D
import probe

IDX = {'ula1': [0], 'ula3': [0, 1, 2], 'nested22': [0, 1, 2, 5], 'nested13': [0, 1, 3, 5], 'coprime23': [0, 2, 4, 3, 6, 9], 'coprime23m': [0, 2, 4, 3],
       'mrla4': [0, 1, 4, 6], 'gap': [0, 3, 7], 'shuffled': [4, 0, 1, 6], 'negative': [-2, 0, 1, 5], 'repeated': [0, 1, 1, 3], 'large': [0, 2000, 2001, 4000]}


def design(name, d0):
    if name == 'ula1':
        return UniformLinearArray(1, d0)
    if name == 'ula3':
        return UniformLinearArray(3, d0)
    if name == 'nested22':
        return NestedArray(2, 2, d0)
    if name == 'nested13':
        return NestedArray(1, 3, d0)
    if name == 'coprime23':
        return CoPrimeArray(2, 3, d0)
    if name == 'coprime23m':
        return CoPrimeArray(2, 3, d0, 'm')
    if name == 'mrla4':
        return MinimumRedundancyLinearArray(4, d0)
    return GridBasedArrayDesign(np.array(IDX[name])[:, np.newaxis], d0, name)


def lags(x):
    """lag -> positions (row + column * M) of the column-major vectorized covariance."""
    out = {}
    m = len(x)
    for j in range(m):
        for i in range(m):
            out.setdefault(x[i] - x[j], []).append(j * m + i)
    return out


def central(tab):
    mv = 0
    while mv in tab:
        mv += 1
    return mv


NAMES = "{'ula1','ula3','nested22','nested13','coprime23','coprime23m','mrla4','gap','shuffled','negative','repeated','large'}"


def impl_weights(name: "{'ula1','ula3','nested22','nested13','coprime23','coprime23m','mrla4','gap','shuffled','negative','repeated','large'}", d0: 'f+'):
    """"""
    w = WeightFunction1D(design(name, d0))
    probes = list(range(-11, 12))
    return (w.differences(), w.weights(), [w.weight_of(x) for x in probes], [w(x) for x in probes], len(w), np.sum(w.weights()), [w.weight_of(x) for x in (0.5, 100000)])


def spec_weights(name, d0):
    tab = lags(IDX[name])
    ds = sorted(tab)
    probes = list(range(-11, 12))
    n = [len(tab.get(x, [])) for x in probes]
    return (np.array(ds), np.array([len(tab[x]) for x in ds]), n, n, len(ds), len(IDX[name]) ** 2, [0, 0])


def impl_indices(name: "{'ula1','ula3','nested22','nested13','coprime23','coprime23m','mrla4','gap','shuffled','negative','repeated','large'}", d0: 'f+'):
    """"""
    w = WeightFunction1D(design(name, d0))
    return [sorted(list(w.indices_of(x))) for x in list(range(-11, 12)) + [2000, -1999]], list(w.indices_of(0.25)), list(w.indices_of(99999))


def spec_indices(name, d0):
    tab = lags(IDX[name])
    return [sorted(tab.get(x, [])) for x in list(range(-11, 12)) + [2000, -1999]], [], []


def impl_central(name: "{'ula1','ula3','nested22','nested13','coprime23','coprime23m','mrla4','gap','shuffled','negative','repeated','large'}", d0: 'f+', order: '{0,1}'):
    """"""
    w = WeightFunction1D(design(name, d0))
    if order:
        a = w.get_central_ula_size(True)
        b = w.get_central_ula_size()
    else:
        b = w.get_central_ula_size()
        a = w.get_central_ula_size(exclude_negative_part=True)
    return a, b, w.get_central_ula_size(False)


def spec_central(name, d0, order):
    mv = central(lags(IDX[name]))
    return mv, 2 * mv - 1, 2 * mv - 1


def impl_selection(name: "{'ula1','ula3','nested22','nested13','coprime23','coprime23m','mrla4','gap','shuffled','negative','repeated','large'}", d0: 'f+'):
    """"""
    w = WeightFunction1D(design(name, d0))
    return w.get_coarray_selection_matrix(), w.get_coarray_selection_matrix(True), w.get_coarray_selection_matrix(exclude_negative_part=False)


def selection(name, positive):
    x = IDX[name]
    tab = lags(x)
    mv = central(tab)
    ds = list(range(0 if positive else 1 - mv, mv))
    F = np.zeros((len(ds), len(x) ** 2))
    for r in range(len(ds)):
        for q in tab[ds[r]]:
            F[r, q] = 1.0 / len(tab[ds[r]])
    return F


def spec_selection(name, d0):
    F = selection(name, False)
    return F, selection(name, True), F


def lag_means(name, R):
    x = IDX[name]
    m = len(x)
    tab = lags(x)
    mv = central(tab)
    z = []
    for d in range(1 - mv, mv):
        s = 0.0
        for q in tab[d]:
            s = s + R[q % m, q // m]
        z.append(s / len(tab[d]))
    return z, mv


def augmented(name, R, method):
    z, mv = lag_means(name, R)
    S = np.zeros((mv, mv), dtype=np.complex128)
    if method == 'da':
        for i in range(mv):
            for j in range(mv):
                S[i, j] = z[i - j + mv - 1]
    else:
        for i in range(mv):
            for j in range(mv):
                t = 0.0
                for q in range(mv):
                    t = t + z[q + i] * np.conj(z[q + j])
                S[i, j] = t / mv
    return S


def impl_acm(name: "{'ula1','ula3','nested22','nested13','coprime23','coprime23m','mrla4','gap','shuffled','negative','repeated'}", R: 'c[M,M]', d0: 'f+', method: "{'ss','da'}"):
    """sizes: M=1|3|4|6"""
    b = CoarrayACMBuilder1D(design(name, d0))
    if len(IDX[name]) != R.shape[0]:
        return probe.catch(lambda: b.transform(R, method)), 0, 0, 0
    X = b.transform(R, method)
    return X, b(R, method), X.shape, b.input_size


def spec_acm(name, R, d0, method):
    if len(IDX[name]) != R.shape[0]:
        return 'ValueError', 0, 0, 0
    S = augmented(name, R, method)
    return S, S, S.shape, R.shape[0]


def impl_acm_default(R: 'H[M,M]', S: 'c[M,M]', d0: 'f+'):
    """sizes: M=4"""
    b = CoarrayACMBuilder1D(NestedArray(2, 2, d0))
    x = b.transform(R, 'da')
    y = b(S)
    z = b.transform(R)
    return x, y, z, b(S, 'da'), x - x.conj().T, z - z.conj().T


def spec_acm_default(R, S, d0):
    O = np.zeros((6, 6))
    return augmented('nested22', R, 'da'), augmented('nested22', S, 'ss'), augmented('nested22', R, 'ss'), augmented('nested22', S, 'da'), O, O


def impl_sizes(name: "{'ula1','ula3','nested22','nested13','coprime23','coprime23m','mrla4','gap','shuffled','negative','repeated'}", d0: 'f+'):
    """"""
    a = design(name, d0)
    b = CoarrayACMBuilder1D(a)
    v = b.get_virtual_ula()
    u = b.get_virtual_ula('mine')
    return b.output_size, b.input_size, v.size, v.d0, v.element_locations, v.name, u.name, u.size, u.d0, type(v).__name__, v.is_perturbed


def spec_sizes(name, d0):
    mv = central(lags(IDX[name]))
    n = design(name, d0).name
    return (mv, len(IDX[name]), mv, np.array([d0]), (np.arange(mv) * d0)[:, np.newaxis], 'Virtual ULA of ' + n, 'mine', mv, np.array([d0]), 'UniformLinearArray', False)


def impl_refused(loc: 'f[M,D]', R: 'c[M,N]', which: "{'plain','ura','uca'}"):
    """sizes: M>=2, N>=1, D=1|2"""
    a = {'plain': ArrayDesign(loc, 'x'), 'ura': UniformRectangularArray(2, 2, 0.5), 'uca': UniformCircularArray(3, 1.0)}[which]
    return probe.catch(lambda: WeightFunction1D(a)), probe.catch(lambda: CoarrayACMBuilder1D(a))


def spec_refused(loc, R, which):
    return 'ValueError', 'ValueError'


def impl_guards(R: 'c[A,B]', method: "{'SS','toeplitz','',None,'sda'}"):
    """sizes: A>=1, B>=1"""
    b = CoarrayACMBuilder1D(UniformLinearArray(3, 0.5))
    return probe.catch(lambda: b(R)), probe.catch(lambda: b.transform(np.eye(3), method)), probe.catch(lambda: b.transform(np.ones(9)))


def spec_guards(R, method):
    return None if R.shape[0] == 3 and R.shape[1] == 3 else 'ValueError', 'ValueError', 'ValueError'


def impl_perturbed_array(g: 'f[M]', R: 'c[M,M]', d0: 'f+', method: "{'ss','da'}"):
    """sizes: M=4"""
    a = NestedArray(2, 2, d0, perturbations={'gain_errors': (g, False)})
    b = CoarrayACMBuilder1D(a)
    return b(R, method), b.get_virtual_ula().is_perturbed


def spec_perturbed_array(g, R, d0, method):
    return augmented('nested22', R, method), False


def impl_differences(x: 'f[M,D]'):
    """sizes: M>=1, D=1|2|3"""
    return compute_location_differences(x)


def spec_differences(x):
    m, d = x.shape
    q = np.arange(m * m)
    return x[q % m, :] - x[q // m, :]


def impl_untouched(R: 'c[M,M]', method: "{'ss','da'}"):
    """sizes: M=4"""
    b = CoarrayACMBuilder1D(NestedArray(2, 2, 0.5))
    c = R.copy()
    X = b(R, method)
    sh = probe.shares(X, R)
    X[0, 0] = 5.0
    return R - c, sh, b(R, method)


def spec_untouched(R, method):
    return np.zeros((4, 4)), False, augmented('nested22', R, method)


def impl_copies(d0: 'f+'):
    """"""
    w = WeightFunction1D(NestedArray(2, 2, d0))
    d, g, F, i = w.differences(), w.weights(), w.get_coarray_selection_matrix(), w.indices_of(1)
    d[0] = 50
    g[0] = 50
    F[0, 0] = 50.0
    i.append(3)
    w.indices_of(99).append(4)
    return w.differences(), w.weights(), w.get_coarray_selection_matrix(), w.indices_of(1), w.indices_of(99), w.weight_of(1)


def spec_copies(d0):
    tab = lags(IDX['nested22'])
    ds = sorted(tab)
    return np.array(ds), np.array([len(tab[x]) for x in ds]), selection('nested22', False), tab[1], [], len(tab[1])


def impl_unnamed(d0: 'f+', bases: '{True,False}'):
    i = np.array([[0], [1], [2], [5]])
    b = CoarrayACMBuilder1D(GridBasedArrayDesign(i, bases=np.array([[d0]])) if bases else GridBasedArrayDesign(i, d0))
    v = b.get_virtual_ula()
    return v.size, v.element_locations, b.get_virtual_ula('mine').name


def spec_unnamed(d0, bases):
    return 6, np.arange(6)[:, np.newaxis] * d0, 'mine'


def impl_two_arrays(d0: 'f+', d1: 'f+', one: "{'mrla4','nested22','shuffled','repeated'}", two: "{'mrla4','shuffled','negative'}", named: '{True,False}', R: 'c[M,M]', method: "{'da'}"):
    """sizes: M=4"""
    # the coarrays of two arrays do not depend on each other, even when name and size agree
    a, b = (GridBasedArrayDesign(np.array(IDX[n])[:, np.newaxis], d, 'array' if named else None) for n, d in ((one, d0), (two, d1)))
    w = WeightFunction1D(a)
    w.get_central_ula_size()
    CoarrayACMBuilder1D(a)
    v = WeightFunction1D(b)
    c = CoarrayACMBuilder1D(b)
    u = c.get_virtual_ula()
    return [v.differences(), v.weights(), v.get_central_ula_size(), v.get_coarray_selection_matrix(), w.differences(), w.weights(), w.get_central_ula_size(), c.output_size, c(R, method), u.size, u.d0]


def spec_two_arrays(d0, d1, one, two, named, R, method):
    out = []
    for n in (two, one):
        t = lags(IDX[n])
        k = sorted(t)
        out += [np.array(k), np.array([len(t[x]) for x in k]), 2 * central(t) - 1]
    mv = central(lags(IDX[two]))
    return out[:3] + [selection(two, False)] + out[3:] + [mv, augmented(two, R, method), mv, np.array([d1])]
