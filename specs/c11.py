import numpy as np
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
import probe


def make(kind, x, y):
    if kind == 'f1':
        return FarField1DSourcePlacement(x.copy(), 'sin')
    if kind == 'f2':
        return FarField2DSourcePlacement(y.copy(), 'deg')
    return NearField2DSourcePlacement(y.copy())


def units(kind):
    return {'f1': ('sin',), 'f2': ('deg', 'deg'), 'nf': ('m', 'm')}[kind]


def data(kind, x, y):
    return x if kind == 'f1' else y


def impl_slice(x: 'f[K] in (-1,1)', y: 'f[K,2] in (-1,1)', kind: "{'f1','f2','nf'}", a: 'i in [0,K]', b: 'i in [0,K]', step: "{1,2,-1}"):
    """sizes: K>=1"""
    p = make(kind, x, y)
    q = p[a:b:step]
    return q.locations, q.units, q.size, len(q), q.is_far_field, q.valid_ranges, q, p.locations


def spec_slice(x, y, kind, a, b, step):
    p = make(kind, x, y)
    d = data(kind, x, y)
    s = d[a:b:step]
    return s, units(kind), s.shape[0], s.shape[0], p.is_far_field, p.valid_ranges, p, d


def impl_slice_open(x: 'f[K] in (-1,1)', y: 'f[K,2] in (-1,1)', kind: "{'f1','f2','nf'}", n: 'i in [1,K]'):
    """sizes: K>=1"""
    p = make(kind, x, y)
    return [q.locations for q in (p[:n], p[n - 1:], p[:], p[-n:], p[::-1])]


def spec_slice_open(x, y, kind, n):
    d = data(kind, x, y)
    return [d[:n], d[n - 1:], d, d[-n:], d[::-1]]


def impl_index_array(x: 'f[K] in (-1,1)', y: 'f[K,2] in (-1,1)', ix: 'i[L] in (0,K-1)', kind: "{'f1','f2','nf'}"):
    """sizes: K>=1, L>=1"""
    p = make(kind, x, y)
    q = p[ix]
    return q.locations, q.units, q.size, len(q), q


def spec_index_array(x, y, ix, kind):
    d = data(kind, x, y)
    return d[ix], units(kind), ix.shape[0], ix.shape[0], make(kind, x, y)


def impl_index_list(x: 'f[K] in (-1,1)', y: 'f[K,2] in (-1,1)', a: 'i in [0,K-1]', b: 'i in [0,K-1]', kind: "{'f1','f2','nf'}"):
    """sizes: K>=1"""
    p = make(kind, x, y)
    q, r, s = p[[a, b]], p[[a]], p[[b, a, a]]
    return q.locations, q.size, q.units, r.locations, len(r), s.locations, s, p.size


def spec_index_list(x, y, a, b, kind):
    d = data(kind, x, y)
    return np.stack((d[a], d[b])), 2, units(kind), d[[a]], 1, np.stack((d[b], d[a], d[a])), make(kind, x, y), d.shape[0]


def impl_bool_mask(x: 'f[K] in (-1,1)', y: 'f[K,2] in (-1,1)', kind: "{'f1','f2','nf'}"):
    """sizes: K=3"""
    p = make(kind, x, y)
    q = p[np.array([True, False, True])]
    r = p[[True, False, True]]
    return q.locations, q.size, r.locations, r.size, len(r), p[[False, True, False]].locations, p[np.array([False, False, False])].size, p[[True, True, True]].locations


def spec_bool_mask(x, y, kind):
    d = data(kind, x, y)
    return d[[0, 2]], 2, d[[0, 2]], 2, 2, d[[1]], 0, d


def impl_scalar(x: 'f[K] in (-1,1)', y: 'f[K,2] in (-1,1)', a: 'i in [0,K-1]', kind: "{'f1','f2','nf'}"):
    """sizes: K>=1"""
    p = make(kind, x, y)
    return p[a], p[-1]


def spec_scalar(x, y, a, kind):
    d = data(kind, x, y)
    return d[a], d[d.shape[0] - 1]


def impl_refuse(x: 'f[K] in (-1,1)', y: 'f[K,2] in (-1,1)', kind: "{'f1','f2','nf'}"):
    """sizes: K>=3"""
    p = make(kind, x, y)
    return [probe.catch(lambda: p[np.array([[0, 1], [1, 0]])]), probe.catch(lambda: p[np.zeros((1, 1), dtype=int)]), probe.catch(lambda: p[(0, 1)]), probe.catch(lambda: p[None]), probe.catch(lambda: p[{}])]


def spec_refuse(x, y, kind):
    return ['ValueError', 'ValueError', 'KeyError', 'KeyError', 'KeyError']


def impl_independent(x: 'f[K] in (-1,1)', y: 'f[K,2] in (-1,1)', kind: "{'f1','f2','nf'}", how: "{0,1,2,3,4,5,6,7,8,9,10}"):
    """sizes: K=3|4"""
    p = make(kind, x, y)
    key = [slice(0, 2), [0, 1], np.array([0, 1]), slice(None), np.arange(len(p)), list(range(len(p))), np.ones(len(p), dtype=bool), slice(0, None), np.arange(2), slice(None, None, 2), slice(None, None, -1)][how]
    q = p[key]
    q.locations[0] = 0.25
    before = p.locations.copy()
    r = p[key]
    p.locations[1] = 0.125
    return before, r.locations, p is q, q is r


def spec_independent(x, y, kind, how):
    d = data(kind, x, y)
    s = d if how in (3, 4, 5, 6, 7) else (d[::2] if how == 9 else (d[::-1] if how == 10 else d[:2]))
    return d, s, False, False


def impl_one_chosen(x: 'f[K] in (-1,1)', y: 'f[K,2] in (-1,1)', kind: "{'f1','f2','nf'}", how: "{0,1,2,3,4,5,6,7,8,9}"):
    """sizes: K=3|4"""
    p = make(kind, x, y)
    key = [[0], [1], [-1], np.array([0]), np.array([-2]), slice(0, 1), slice(-1, None), [-1, -2], np.arange(len(p)) == 1, np.arange(len(p)) == 0][how]
    q = p[key]
    q.locations[0] = 0.25
    before = p.locations.copy()
    r = p[key]
    p.locations[:] = 0.125
    return before, r.locations, q.locations[0], q is r


def spec_one_chosen(x, y, kind, how):
    d = data(kind, x, y)
    K = d.shape[0]
    i = [0, 1, K - 1, 0, K - 2, 0, K - 1, K - 1, 1, 0][how]
    s = d[i:i + 1] if how != 7 else np.stack((d[K - 1], d[K - 2]))
    return d, s, 0.25 + 0 * d[0], False


def impl_select_steering(th: 'f[K] in (-1,1)', ix: 'i[L] in (0,K-1)', loc: 'f[M,1]', wl: 'f+'):
    """sizes: K>=1, L>=1, M>=1"""
    return FarField1DSourcePlacement(th, 'sin')[ix].phase_delay_matrix(loc, wl)


def spec_select_steering(th, ix, loc, wl):
    return 2 * np.pi / wl * loc * th[ix]


def impl_conversion_after_select(th: 'f[K] in (-1,1)', ix: 'i[L] in (0,K-1)', u: "{'rad','deg'}"):
    """sizes: K>=1, L>=1"""
    p = FarField1DSourcePlacement(th, 'sin')
    a, b = p[ix].as_unit(u), p.as_unit(u)[ix]
    return a.locations, a.units, b.locations, b.units, p.units


def spec_conversion_after_select(th, ix, u):
    s = np.arcsin(th[ix]) * (180 / np.pi if u == 'deg' else 1)
    return s, (u,), s, (u,), ('sin',)
