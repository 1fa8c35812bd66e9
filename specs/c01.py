import numpy as np
from doatools.model.arrays import (ArrayDesign, GridBasedArrayDesign, UniformLinearArray, NestedArray, CoPrimeArray, MinimumRedundancyLinearArray,
                                   UniformCircularArray, UniformRectangularArray)
from math import gcd
import probe


def impl_ula(n: 'size>=1', d0: 'f+'):
    a = UniformLinearArray(n, d0)
    return a.element_indices, a.element_locations, a.bases, a.d0, a.size, a.ndim, a.output_size


def spec_ula(n, d0):
    i = np.arange(n)[:, None]
    return i, i * d0, np.array([[d0]]), np.array([d0]), n, 1, n


def impl_nested(n1: 'size>=1', n2: 'size>=1', d0: 'f+'):
    a = NestedArray(n1, n2, d0)
    return a.element_indices, a.element_locations, a.d0, a.bases, a.size, a.n1, a.n2, a.ndim


def spec_nested(n1, n2, d0):
    i = np.concatenate((np.arange(n1), (n1 + 1) * (np.arange(n2) + 1) - 1))[:, None]
    return i, i * d0, np.array([d0]), np.array([[d0]]), n1 + n2, n1, n2, 1


def impl_coprime(m: 'size>=1', n: 'size>=1', d0: 'f+', mode: "{'2m','m','2M','M'}"):
    a = CoPrimeArray(m, n, d0, mode)
    return a.element_indices, a.element_locations, a.d0, a.bases, a.size, a.coprime_pair, a.mode, a.ndim


def spec_coprime(m, n, d0, mode):
    if gcd(m, n) != 1:
        raise ValueError('not co-prime')
    if m > n:
        m, n = n, m
    e = 2 * m - 1 if mode.lower() == '2m' else m - 1
    i = np.concatenate((m * np.arange(n), n * (np.arange(e) + 1)))[:, None]
    return i, i * d0, np.array([d0]), np.array([[d0]]), n + e, (m, n), mode.lower(), 1


def impl_coprime_default(m: 'size>=1', n: 'size>=1', d0: 'f+'):
    return CoPrimeArray(m, n, d0).size, CoPrimeArray(m, n, d0).mode


def spec_coprime_default(m, n, d0):
    if gcd(m, n) != 1:
        raise ValueError('not co-prime')
    if m > n:
        m, n = n, m
    return n + 2 * m - 1, '2m'


def impl_coprime_refuse(m: 'size>=1', n: 'size>=1', d0: 'f+', mode: "{'', '3m', 'n', '2m '}"):
    return CoPrimeArray(m, n, d0, mode)


def spec_coprime_refuse(m, n, d0, mode):
    raise ValueError('mode')


def impl_mrla(n: "{1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20}", d0: 'f+'):
    a = MinimumRedundancyLinearArray(n, d0)
    ix = [int(x) for x in a.element_indices[:, 0]]
    diffs = {x - y for x in ix for y in ix if x >= y}
    return a.size, a.ndim, a.element_indices.shape, min(ix), len(set(ix)), all([d in diffs for d in range(max(ix) + 1)]), a.element_locations - a.element_indices * d0, a.d0, a.bases


def spec_mrla(n, d0):
    return n, 1, (n, 1), 0, n, True, np.zeros((n, 1)), np.array([d0]), np.array([[d0]])


def impl_mrla_refuse(n: "{-1,0,21,22,100}", d0: 'f+'):
    return MinimumRedundancyLinearArray(n, d0)


def spec_mrla_refuse(n, d0):
    raise ValueError('size')


def impl_uca(n: 'size>=1', r: 'f+'):
    a = UniformCircularArray(n, r)
    return a.element_locations, a.radius, a.size, a.ndim


def spec_uca(n, r):
    t = 2 * np.pi * np.arange(n) / n
    return np.stack((r * np.cos(t), r * np.sin(t)), 1), r, n, 2


def impl_ura(m: 'size>=1', n: 'size>=1', d0: 'f+'):
    a = UniformRectangularArray(m, n, d0)
    return a.element_indices, a.element_locations, a.d0, a.bases, a.size, a.shape, a.ndim


def spec_ura(m, n, d0):
    k = np.arange(m * n)
    i = np.stack((k // n, k % n), 1)
    return i, i * d0, np.array([d0, d0]), np.array([[d0, 0], [0, d0]]), m * n, (m, n), 2


def impl_ura_two_spacings(m: 'size>=1', n: 'size>=1', dx: 'f+', dy: 'f+', form: "{'tuple','list','array'}"):
    d = (dx, dy) if form == 'tuple' else ([dx, dy] if form == 'list' else np.array([dx, dy]))
    a = UniformRectangularArray(m, n, d)
    return a.element_locations, a.d0, a.bases


def spec_ura_two_spacings(m, n, dx, dy, form):
    k = np.arange(m * n)
    return np.stack(((k // n) * dx, (k % n) * dy), 1), np.array([dx, dy]), np.array([[dx, 0], [0, dy]])


def impl_grid(ix: 'i[M,D] in (-9,9)', d0: 'f+'):
    """sizes: M>=1, D=1|2|3"""
    a = GridBasedArrayDesign(ix, d0)
    return a.element_locations, a.element_indices, a.d0, a.bases, a.size, a.ndim


def spec_grid(ix, d0):
    d = ix.shape[1]
    return ix * d0, ix, d0 * np.ones(d), d0 * np.eye(d), ix.shape[0], d


def impl_grid_vector(ix: 'i[M,D] in (-9,9)', d: 'f+[D]'):
    """sizes: M>=1, D=1|2|3"""
    a = GridBasedArrayDesign(ix, d)
    return a.element_locations, a.element_indices, a.d0, a.bases, a.size, a.ndim


def spec_grid_vector(ix, d):
    return ix * d, ix, d, np.diag(d), ix.shape[0], ix.shape[1]


def impl_grid_bases(ix: 'i[M,D] in (-9,9)', B: 'f[D,E]'):
    """sizes: M>=1, D=1|2|3, E=1|2|3"""
    a = GridBasedArrayDesign(ix, None, 'x', B)
    return a.element_locations, a.element_indices, a.d0, a.bases, a.size, a.ndim


def spec_grid_bases(ix, B):
    return np.sum(ix[:, :, None] * B[None], 1), ix, np.sqrt(np.sum(B * B, 1)), B, ix.shape[0], B.shape[1]


def impl_grid_refuse(ix: 'i[M,D] in (-9,9)', B: 'f[F,E]', d: 'f+[G]', case: "{0,1,2}"):
    """sizes: M>=1, D=1|2|3, E=1|2, F=1|2|3, G=1|2|3|4"""
    probe.assume(B.shape[0] != ix.shape[1])
    probe.assume(d.shape[0] > ix.shape[1])
    if case == 0:
        return GridBasedArrayDesign(ix, None, 'x', B)
    if case == 1:
        return GridBasedArrayDesign(ix, d)
    return GridBasedArrayDesign(ix, np.stack((d, d)))


def spec_grid_refuse(ix, B, d, case):
    raise ValueError('shape')


def impl_custom(v: 'f[M]', x: 'f[M,D]'):
    """sizes: M>=1, D=1|2|3"""
    a, b = ArrayDesign(v, 'v'), ArrayDesign(x, 'x')
    return a.element_locations, a.ndim, a.size, b.element_locations, b.ndim, b.size, b.actual_element_locations, b.actual_ndim, a.output_size


def spec_custom(v, x):
    m = v.shape[0]
    return v[:, None], 1, m, x, x.shape[1], m, x, x.shape[1], m


def impl_custom_list(a: 'f', b: 'f', c: 'f', d: 'f'):
    return ArrayDesign([a, b, c], 'x').element_locations, ArrayDesign([[a, b], [c, d]], 'y').element_locations


def spec_custom_list(a, b, c, d):
    return np.array([[a], [b], [c]]), np.array([[a, b], [c, d]])


def impl_custom_refuse(x: 'f[M,D]', y: 'f[M,2,2]', case: "{0,1}"):
    """sizes: M>=1, D=4|5"""
    return ArrayDesign(x if case == 0 else y, 'x')


def spec_custom_refuse(x, y, case):
    raise ValueError('shape')
