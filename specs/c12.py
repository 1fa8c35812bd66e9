import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray
from doatools.model.array_elements import CustomNonisotropicSensor
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from doatools.model.signals import ComplexStochasticSignal, RandomPhaseSignal, SignalGenerator
from doatools.model.snapshots import get_narrowband_snapshots
from doatools.utils.math import randcn
from specs.lib import A_ff1, A_ff2, A_nf, actual
import probe


def outer(x, y):
    return np.einsum('it,js->ijts', x, y)


def white(C, n):
    """Covariance of samples that are independent over time."""
    return np.einsum('ij,ts->ijts', C, np.eye(n))


def moments(x, y):
    """Means, covariances and pseudo-covariances of two emissions, and their cross-covariances."""
    return (probe.expect(x), probe.expect(outer(x, x.conj())), probe.expect(outer(x, x)), probe.expect(outer(y, y.conj())),
            probe.expect(outer(x, y.conj())), probe.expect(outer(x, y)), probe.linear_in(x, 'normal'))


def stated(C, m, n):
    O = np.zeros((m, m, n, n))
    W = white(C, n) + 0j
    return np.zeros((m, n)), W, O, W, O, O, True


def impl_randcn(m: 'size>=1', n: 'size>=1'):
    return moments(randcn((m, n)), randcn((m, n)))


def spec_randcn(m, n):
    return stated(np.eye(m), m, n)


def impl_randcn_shapes(m: 'size>=1', n: 'size>=1', k: 'size>=1'):
    x, y = randcn((m,)), randcn((m, n, k))
    return x.shape, y.shape, probe.expect(x * x.conj()), probe.expect(y * y.conj()), probe.expect(x * x), probe.linear_in(y, 'normal')


def spec_randcn_shapes(m, n, k):
    return (m,), (m, n, k), np.ones(m) + 0j, np.ones((m, n, k)) + 0j, np.zeros(m), True


def impl_stochastic_scalar(m: 'size>=1', n: 'size>=1', c: 'f+'):
    s = ComplexStochasticSignal(m, c)
    return moments(s.emit(n), s.emit(n)), s.emit(n).shape, s.dim


def spec_stochastic_scalar(m, n, c):
    return stated(c * np.eye(m), m, n), (m, n), m


def impl_stochastic_default(m: 'size>=1', n: 'size>=1'):
    s = ComplexStochasticSignal(m)
    return moments(s.emit(n), s.emit(n)), s.dim


def spec_stochastic_default(m, n):
    return stated(np.eye(m), m, n), m


def impl_stochastic_vector(c: 'f+[M]', n: 'size>=1'):
    """sizes: M>=1"""
    s = ComplexStochasticSignal(c.shape[0], c)
    return moments(s.emit(n), s.emit(n)), s.emit(n).shape, s.dim


def spec_stochastic_vector(c, n):
    m = c.shape[0]
    return stated(c * np.eye(m), m, n), (m, n), m


def impl_stochastic_integer(c: 'i[M] in (1,9)', s: 'i in [1,9]', n: 'size>=1'):
    """sizes: M>=1"""
    m = c.shape[0]
    v, w = ComplexStochasticSignal(m, c), ComplexStochasticSignal(m, s)
    return moments(v.emit(n), v.emit(n)), moments(w.emit(n), w.emit(n))


def spec_stochastic_integer(c, s, n):
    m = c.shape[0]
    return stated(c * np.eye(m), m, n), stated(s * np.eye(m), m, n)


def impl_stochastic_matrix(C: 'H[M,M]', n: 'size>=1'):
    """sizes: M>=1
    fallback: M=1 n=2; M=2 n=2"""
    s = ComplexStochasticSignal(C.shape[0], C)
    return moments(s.emit(n), s.emit(n)), s.emit(n).shape, s.dim


def spec_stochastic_matrix(C, n):
    m = C.shape[0]
    return stated(C, m, n), (m, n), m


def impl_stochastic_guards(m: 'i>=1', c: 'f+[L]', C: 'f[A,B]', T: 'f[A,B,L]'):
    """sizes: L>=1, A>=1, B>=1"""
    return probe.catch(lambda: ComplexStochasticSignal(m, c)), probe.catch(lambda: ComplexStochasticSignal(m, T))


def spec_stochastic_guards(m, c, C, T):
    return None if c.shape[0] == m else 'ValueError', 'ValueError'


def impl_stochastic_guard_matrix(m: 'i>=1', C: 'f[A,B]'):
    """sizes: A>=1, B>=1"""
    return probe.catch(lambda: ComplexStochasticSignal(m, C))


def spec_stochastic_guard_matrix(m, C):
    return None if C.shape[0] == m and C.shape[1] == m else 'ValueError'


def phases(s, n):
    """Amplitude and phase of samples relative to a uniform draw over a full circle: y = y0 exp(+-2 pi j u)."""
    y = s.emit(n)
    u = np.array([[probe.draw('u01', 1, i, t) for t in range(y.shape[1])] for i in range(y.shape[0])])
    z = np.exp(2j * np.pi * u)
    probe.pin('uniform01', 0.0)
    y0 = s.emit(n)
    return np.abs(y), (y - y0 * z) * (y - y0 / z), probe.draws_in(y), y.shape


def impl_phase_scalar(a: 'f+', n: '{1,2,3}', m: '{1,2}'):
    """"""
    return phases(RandomPhaseSignal(m, a), n)


def spec_phase_scalar(a, n, m):
    return a * np.ones((m, n)), np.zeros((m, n)), 1, (m, n)


def impl_phase_default(n: 'size>=1', m: 'size>=1'):
    s = RandomPhaseSignal(m)
    return np.abs(s.emit(n)), s.dim


def spec_phase_default(n, m):
    return np.ones((m, n)), m


def impl_phase_vector(a: 'f+[M]', n: 'size>=1'):
    """sizes: M>=1"""
    s = RandomPhaseSignal(a.shape[0], a)
    return np.abs(s.emit(n)), s.dim, s.emit(n).shape


def spec_phase_vector(a, n):
    m = a.shape[0]
    return np.tile(a[:, None], (1, n)), m, (m, n)


def impl_phase_vector_uniform(a: 'f+[M]', n: '{1,2}'):
    """sizes: M=1|3"""
    return phases(RandomPhaseSignal(a.shape[0], a), n)


def spec_phase_vector_uniform(a, n):
    m = a.shape[0]
    return np.tile(a[:, None], (1, n)), np.zeros((m, n)), 1, (m, n)


def impl_phase_integer(a: 'i[M] in (1,9)', s: 'i in [1,9]', n: 'size>=1'):
    """sizes: M>=1"""
    m = a.shape[0]
    return np.abs(RandomPhaseSignal(m, a).emit(n)), np.abs(RandomPhaseSignal(m, s).emit(n))


def spec_phase_integer(a, s, n):
    m = a.shape[0]
    return np.tile(a[:, None], (1, n)), s * np.ones((m, n))


def impl_phase_guard(m: 'i>=1', a: 'f+[L]'):
    """sizes: L>=1"""
    return probe.catch(lambda: RandomPhaseSignal(m, a))


def spec_phase_guard(m, a):
    return None if m == a.shape[0] else 'ValueError'


def impl_phase_independent(m: 'size>=1', n: 'size>=1'):
    """Successive emissions use new draws."""
    s = RandomPhaseSignal(m)
    x, y = s.emit(n), s.emit(n)
    return probe.draws_in(x), probe.draws_in(y), probe.draws_in(x * y)


def spec_phase_independent(m, n):
    return 1, 1, 2


# ------------------------------------------------------------ snapshots
class Fixed(SignalGenerator):
    """Emits the leading columns of a table and records the requested lengths."""

    def __init__(self, S):
        self.S = S
        self.asked = []

    @property
    def dim(self):
        return self.S.shape[0]

    def emit(self, n):
        self.asked.append(n)
        return self.S[:, :n].copy()


def impl_model(loc: 'f[M,D]', th: 'f[K] in (-1,1)', S: 'c[K,N]', W: 'c[M,N]', wl: 'f+', cov: '{True,False}', noisy: '{True,False}'):
    """sizes: M>=1, K>=1, N>=1, D=1|2|3"""
    s, w = Fixed(S), Fixed(W)
    n = S.shape[1]
    r = get_narrowband_snapshots(ArrayDesign(loc, 'x'), FarField1DSourcePlacement(th), wl, s, w if noisy else None, n, cov)
    return r if cov else (r,), s.asked, w.asked


def spec_model(loc, th, S, W, wl, cov, noisy):
    n = S.shape[1]
    Y = A_ff1(loc, th, 'rad', wl) @ S
    if noisy:
        Y = Y + W
    return ((Y, Y @ Y.conj().T / n) if cov else (Y,)), [n], [n] if noisy else []


def impl_model_other(loc: 'f[M,D]', x: 'f[K,2] in (-1,1)', S: 'c[K,N]', wl: 'f+', kind: "{'ff2','nf'}"):
    """sizes: M>=1, K>=1, N>=1, D=1|2|3"""
    src = FarField2DSourcePlacement(x) if kind == 'ff2' else NearField2DSourcePlacement(x)
    return get_narrowband_snapshots(ArrayDesign(loc, 'x'), src, wl, Fixed(S), n_snapshots=S.shape[1])


def spec_model_other(loc, x, S, wl, kind):
    return (A_ff2(loc, x, 'rad', wl) if kind == 'ff2' else A_nf(loc, x, wl)) @ S


def impl_model_defaults(loc: 'f[M,D]', th: 'f[K] in (-1,1)', S: 'c[K,N]', W: 'c[M,N]', wl: 'f+'):
    """sizes: M>=1, K>=1, N>=1, D=1|2"""
    a, src = ArrayDesign(loc, 'x'), FarField1DSourcePlacement(th)
    return get_narrowband_snapshots(a, src, wl, Fixed(S)), get_narrowband_snapshots(a, src, wl, Fixed(S), Fixed(W)), get_narrowband_snapshots(a, src, wl, Fixed(S), return_covariance=True)


def spec_model_defaults(loc, th, S, W, wl):
    Y = A_ff1(loc, th, 'rad', wl) @ S[:, :1]
    return Y, Y + W[:, :1], (Y, Y @ Y.conj().T)


def impl_model_perturbed(loc: 'f[M,D]', L: 'f[M,2]', g: 'f[M]', p: 'f[M]', C: 'c[M,M]', th: 'f[K] in (-1,1)', S: 'c[K,N]', wl: 'f+', known: '{True,False}'):
    """sizes: M>=1, K>=1, N>=1, D=1|2"""
    a = ArrayDesign(loc, 'x', {'location_errors': (L, known), 'gain_errors': (g, not known), 'phase_errors': (p, known), 'mutual_coupling': (C, not known)})
    return get_narrowband_snapshots(a, FarField1DSourcePlacement(th), wl, Fixed(S), n_snapshots=S.shape[1])


def spec_model_perturbed(loc, L, g, p, C, th, S, wl, known):
    A = A_ff1(actual(loc, L), th, 'rad', wl)
    return C @ (np.exp(1j * p)[:, None] * ((1 + g)[:, None] * A)) @ S


def impl_model_vector_elements(loc: 'f[M,2]', th: 'f[K] in (-1,1)', S: 'c[K,N]', W: 'c[Q,N]', wl: 'f+'):
    """sizes: M=2, Q=4, K=1|2, N>=1"""
    e = CustomNonisotropicSensor(lambda r, az, el, p: np.stack((np.sin(az), np.cos(az))), 2)
    a = ArrayDesign(loc, 'x', element=e)
    return get_narrowband_snapshots(a, FarField1DSourcePlacement(th), wl, Fixed(S), Fixed(W), S.shape[1]), a.output_size


def spec_model_vector_elements(loc, th, S, W, wl):
    A = A_ff1(loc, th, 'rad', wl)
    az = np.pi / 2 - th
    return np.concatenate((np.sin(az) * A, np.cos(az) * A), 0) @ S + W, 4


def impl_random_snapshots(loc: 'f[M,D]', th: 'f[K] in (-1,1)', wl: 'f+', c: 'f+', s: 'f+', n: 'size>=1'):
    """sizes: M>=1, K>=1, D=1"""
    m, k = loc.shape[0], th.shape[0]
    Y = get_narrowband_snapshots(ArrayDesign(loc, 'x'), FarField1DSourcePlacement(th), wl, ComplexStochasticSignal(k, c), ComplexStochasticSignal(m, s), n)
    return probe.expect(Y), probe.expect(np.einsum('it,jt->ijt', Y, Y.conj())), probe.expect(np.einsum('it,jt->ijt', Y, Y))


def spec_random_snapshots(loc, th, wl, c, s, n):
    m = loc.shape[0]
    A = A_ff1(loc, th, 'rad', wl)
    R = c * (A @ A.conj().T) + s * np.eye(m)
    return np.zeros((m, n)), np.tile(R[:, :, None], (1, 1, n)), np.zeros((m, m, n))


def impl_untouched(loc: 'f[M,D]', th: 'f[K] in (-1,1)', S: 'c[K,N]', W: 'c[M,N]', wl: 'f+', c: 'f+[K]', C: 'H[K,K]'):
    """sizes: M=2, K=2, N=2, D=1"""
    a, b, d = c.copy(), C.copy(), S.copy()
    x = ComplexStochasticSignal(2, c)
    y = ComplexStochasticSignal(2, C)
    z = RandomPhaseSignal(2, c)
    x.emit(3), y.emit(3), z.emit(3)
    t = th.copy()
    get_narrowband_snapshots(ArrayDesign(loc, 'x'), FarField1DSourcePlacement(th), wl, Fixed(S), Fixed(W), 2, True)
    return c - a, C - b, S - d, th - t


def spec_untouched(loc, th, S, W, wl, c, C):
    return np.zeros(2), np.zeros((2, 2)), np.zeros((2, 2)), np.zeros(2)
