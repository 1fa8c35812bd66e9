import numpy as np
from doatools.estimation.music import RootMUSIC1D
from doatools.estimation.esprit import Esprit1D, get_default_row_weights
from doatools.model.sources import FarField1DSourcePlacement
from specs.lib import herm
import probe


def placement(z, wl, d, unit):
    """Sources whose phase shift over a spacing d is the angle of z."""
    s = np.angle(z) * wl / (2 * np.pi * d)
    if unit == 'sin':
        return FarField1DSourcePlacement(np.sort(s), 'sin')
    t = np.sort(np.arcsin(s))
    return FarField1DSourcePlacement(t if unit == 'rad' else t * (180 / np.pi), unit)


def show(r):
    if r[1] is None:
        return r[0], len(r), None
    return r[0], len(r), r[1], r[1].locations, r[1].units, r[1].size


# --- root-MUSIC -------------------------------------------------------------------

def projector(R, k):
    En = np.linalg.eigh(R)[1][:, :R.shape[0] - k]
    return En @ herm(En)


def impl_polynomial(R: 'H[M,M]', k: 'size>=1', wl: 'f+', q: 'i in [0,2*M-2]'):
    """sizes: M>=2
    assume: k<M
    fallback: M=2 k=1; M=3 k=1; M=3 k=2; M=4 k=2"""
    c = probe.argument_of('roots', lambda: RootMUSIC1D(wl).estimate(R, k))[0]
    return c, c.shape


def spec_polynomial(R, k, wl, q):
    M = R.shape[0]
    C = projector(R, k)
    c = np.array([np.trace(C, offset=M - 1 - i) for i in range(2 * M - 1)])
    return c, (2 * M - 1,)


PATTERNS = {
    # reciprocal pairs of distinct moduli
    'two': lambda p, q: [np.exp(1j * p) / 2, 2 * np.exp(1j * p)],
    'two_swapped': lambda p, q: [2 * np.exp(1j * p), np.exp(1j * p) / 2],
    'four': lambda p, q: [np.exp(1j * p) / 2, 2 * np.exp(1j * p), 0.8 * np.exp(1j * q), 1.25 * np.exp(1j * q)],
    'four_mixed': lambda p, q: [1.25 * np.exp(1j * q), np.exp(1j * p) / 2, 2 * np.exp(1j * p), 0.8 * np.exp(1j * q)],
    'four_inside_first': lambda p, q: [0.8 * np.exp(1j * q), np.exp(1j * p) / 2, 1.25 * np.exp(1j * q), 2 * np.exp(1j * p)],
    # double roots on the circle
    'on_circle': lambda p, q: [0.6 + 0.8j, 0.6 + 0.8j],
    'circle_and_pair': lambda p, q: [0.6 + 0.8j, 2 * np.exp(0.25j), 0.6 + 0.8j, np.exp(0.25j) / 2],
    'pair_and_circle': lambda p, q: [2 * np.exp(0.25j), 0.6 + 0.8j, np.exp(0.25j) / 2, 0.6 + 0.8j],
    'two_on_circle': lambda p, q: [0.6 + 0.8j, 0.8 - 0.6j, 0.8 - 0.6j, 0.6 + 0.8j],
}


def survivors(pattern, p, q):
    """Roots kept, the closest to the circle first."""
    a, b = np.exp(1j * p) / 2, 0.8 * np.exp(1j * q)
    c = 0.6 + 0.8j
    if pattern in ('two', 'two_swapped'):
        return [a]
    if pattern in ('four', 'four_mixed', 'four_inside_first'):
        return [b, a]
    if pattern == 'on_circle':
        return [c]
    if pattern == 'two_on_circle':
        return [c, 0.8 - 0.6j]
    return [c, np.exp(0.25j) / 2]


def impl_selection(R: 'H[M,M]', k: '{1,2}', pattern: "{'two','two_swapped','four','four_mixed','four_inside_first','on_circle','circle_and_pair','pair_and_circle','two_on_circle'}", p: 'f in (-1.5,1.5)', q: 'f in (-1.5,1.5)', d: 'f+', g: 'f in (0.1,2)', unit: "{'rad','deg','sin'}", default: '{True,False}'):
    """sizes: M=3"""
    probe.result_of('roots', np.array(PATTERNS[pattern](p, q)))
    return show(RootMUSIC1D(d * g).estimate(R, k, None, unit) if default else RootMUSIC1D(d * g).estimate(R, k, d0=d, unit=unit))


def spec_selection(R, k, pattern, p, q, d, g, unit, default):
    z = survivors(pattern, p, q)
    if len(z) < k:
        return False, 2, None
    return show((True, placement(np.array(z[:k]), d * g, d * g / 2 if default else d, unit)))


def impl_music_default_unit(R: 'H[M,M]', p: 'f in (-1.5,1.5)', wl: 'f+'):
    """sizes: M=2"""
    probe.result_of('roots', np.array(PATTERNS['two'](p, p)))
    return show(RootMUSIC1D(wl).estimate(R, 1))


def spec_music_default_unit(R, p, wl):
    return show((True, placement(np.array([np.exp(1j * p) / 2]), wl, wl / 2, 'rad')))


# --- ESPRIT ----------------------------------------------------------------------------

def rotation(R, k, delta, w, formulation):
    M = R.shape[0]
    Es = np.linalg.eigh(R)[1][:, M - k:]
    n = M - delta
    E1, E2 = w[:, None] * Es[:n, :], w[:, None] * Es[delta:, :]
    if formulation == 'ls':
        return np.linalg.inv(herm(E1) @ E1) @ (herm(E1) @ E2)
    E = np.hstack((E1, E2))
    # eigenvectors in the order of decreasing eigenvalues: the last k span the noise
    V = np.linalg.eigh(herm(E) @ E)[1][:, ::-1]
    return -(V[:k, k:] @ np.linalg.inv(V[k:, k:]))


def impl_esprit_rotation(R: 'H[M,M]', k: 'size>=1', delta: 'size>=1', w: 'f[M-delta]', wl: 'f+', how: "{'none','custom'}", formulation: "{'ls','tls'}"):
    """sizes: M>=2
    assume: k+delta<=M
    fallback: M=3 k=1 delta=1; M=3 k=2 delta=1; M=4 k=1 delta=2"""
    return probe.argument_of('eigvals', lambda: Esprit1D(wl).estimate(R, k, displacement=delta, formulation=formulation, row_weights=w if how == 'custom' else 'none'))[0]


def spec_esprit_rotation(R, k, delta, w, wl, how, formulation):
    return rotation(R, k, delta, w if how == 'custom' else np.ones(R.shape[0] - delta), formulation)


def impl_esprit_defaults(R: 'H[M,M]', k: 'size>=1', wl: 'f+', case: "{'all','weights','displacement','formulation'}"):
    """sizes: M=2|3|4|5
    assume: k<M
    fallback: M=2 k=1; M=3 k=1; M=3 k=2; M=4 k=1"""
    kw = {'all': {}, 'weights': {'row_weights': 'default'}, 'displacement': {'displacement': 1}, 'formulation': {'formulation': 'ls'}}[case]
    return probe.argument_of('eigvals', lambda: Esprit1D(wl).estimate(R, k, **kw))[0]


def spec_esprit_defaults(R, k, wl, case):
    return rotation(R, k, 1, weights(R.shape[0] - 1), 'ls')


def weights(m):
    return np.sqrt(np.array([min(i + 1, m - i) for i in range(m)]))


def impl_default_weights(m: 'size>=1', i: 'i in [0,m-1]'):
    """fallback: m=1; m=2; m=3; m=4; m=5; m=6"""
    w = get_default_row_weights(m)
    return w.shape, w[i]


def spec_default_weights(m, i):
    return (m,), np.sqrt(i + 1 if 2 * (i + 1) <= m + 1 else m - i)


def impl_esprit_estimates(R: 'H[M,M]', k: 'size>=1', delta: 'size>=1', g: 'f in (0.1,2)', d: 'f+', e: 'c[k]', unit: "{'rad','deg','sin'}", default: '{True,False}', formulation: "{'ls','tls'}"):
    """sizes: M>=2
    assume: k+delta<=M
    fallback: M=3 k=1 delta=1; M=3 k=2 delta=1; M=4 k=1 delta=2"""
    probe.result_of('eigvals', e)
    E = Esprit1D(d * g)
    return show(E.estimate(R, k, None if default else d, delta, formulation, 'none', unit))


def spec_esprit_estimates(R, k, delta, g, d, e, unit, default, formulation):
    return show((True, placement(e, d * g, (d * g / 2 if default else d) * delta, unit)))
