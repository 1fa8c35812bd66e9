import numpy as np
from doatools.model.arrays import ArrayDesign, UniformLinearArray, NestedArray
from doatools.model.sources import FarField1DSourcePlacement, FarField2DSourcePlacement, NearField2DSourcePlacement
from doatools.performance.crb import crb_sto_farfield_1d, crb_det_farfield_1d, crb_stouc_farfield_1d
from doatools.performance.mse import ecov_music_1d, ecov_coarray_music_1d
from doatools.performance.utils import unify_p_to_matrix, unify_p_to_vector, reduce_output_matrix
from specs.lib import A_ff1
import probe
from probe import ANY


# ------------------------------------------------------------ powers
def impl_unify_scalar(p: 'f', k: 'size>=1'):
    return unify_p_to_matrix(p, k), unify_p_to_vector(p, k)


def spec_unify_scalar(p, k):
    return p * np.eye(k), p * np.ones(k)


def impl_unify_vector(p: 'f[K]'):
    """sizes: K>=1"""
    k = p.shape[0]
    return unify_p_to_matrix(p, k), unify_p_to_vector(p, k)


def spec_unify_vector(p):
    return np.eye(p.shape[0]) * p, p


def impl_unify_list(a: 'f', b: 'f', c: 'f'):
    return (unify_p_to_matrix([a, b, c], 3), unify_p_to_vector([a, b, c], 3), unify_p_to_matrix([a], 1), unify_p_to_vector([a], 1))


def spec_unify_list(a, b, c):
    return (np.array([[a, 0, 0], [0, b, 0], [0, 0, c]]), np.array([a, b, c]), np.array([[a]]), np.array([a]))


def impl_unify_mixed_list(a: 'i>=1', b: 'f', c: 'c'):
    # the elements of a list may be of different numeric types
    return [unify_p_to_matrix(p, len(p)) for p in ([a, b], [b, a], [a, b, b], [a, c], [1, b])], [unify_p_to_vector(p, len(p)) for p in ([a, b], [b, a], [a, b, b], [a, c], [1, b])]


def spec_unify_mixed_list(a, b, c):
    v = [np.array([a, b]), np.array([b, a]), np.array([a, b, b]), np.array([a, c]), np.array([1, b])]
    return [np.diag(p) for p in v], v


def impl_unify_matrix(P: 'c[K,K]', Q: 'f[K,K]'):
    """sizes: K>=1"""
    k = P.shape[0]
    return unify_p_to_matrix(P, k), unify_p_to_vector(P, k), unify_p_to_matrix(Q, k), unify_p_to_vector(Q, k)


def spec_unify_matrix(P, Q):
    i = np.arange(P.shape[0])
    return P, P[i, i], Q, Q[i, i]


def impl_unify_refused(p: 'f[L]', P: 'f[A,B]', T: 'f[A,B,L]', k: 'i>=1', form: "{'vec','mat','tensor'}"):
    """sizes: L>=1, A>=1, B>=1"""
    x = {'vec': p, 'mat': P, 'tensor': T}[form]
    return probe.catch(lambda: unify_p_to_matrix(x, k)), probe.catch(lambda: unify_p_to_vector(x, k))


def spec_unify_refused(p, P, T, k, form):
    if form == 'vec':
        ok = p.shape[0] == k
    elif form == 'mat':
        ok = P.shape[0] == k and P.shape[1] == k
    else:
        ok = False
    e = None if ok else 'ValueError'
    return e, e


def impl_unify_list_refused(a: 'f', b: 'f', k: 'i>=1'):
    return probe.catch(lambda: unify_p_to_matrix([a, b], k)), probe.catch(lambda: unify_p_to_vector([a, b], k))


def spec_unify_list_refused(a, b, k):
    e = None if k == 2 else 'ValueError'
    return e, e


# ------------------------------------------------------------ output reduction
def impl_reduce(x: 'f[K,K]', mode: "{'full','diag','mean_diag'}"):
    """sizes: K>=1"""
    return reduce_output_matrix(x, mode)


def spec_reduce(x, mode):
    if mode == 'full':
        return x
    d = x[np.arange(x.shape[0]), np.arange(x.shape[0])]
    return d if mode == 'diag' else np.sum(d) / x.shape[0]


def impl_reduce_refused(x: 'f[K,K]', mode: "{'Full','trace','mean',None,'','DIAG','diagonal'}"):
    """sizes: K>=1"""
    return reduce_output_matrix(x, mode)


def spec_reduce_refused(x, mode):
    raise ValueError()


class Table(ArrayDesign):
    """An array whose steering and derivative matrices are given."""

    def __init__(self, A, D):
        super().__init__(np.zeros((A.shape[0], 1)), 't')
        self.A, self.D = A, D

    def steering_matrix(self, sources, wavelength, compute_derivatives=False, perturbations='all', flatten=True):
        return (self.A, self.D) if compute_derivatives else self.A


PERF = {'sto': crb_sto_farfield_1d, 'det': crb_det_farfield_1d, 'stouc': crb_stouc_farfield_1d, 'music': ecov_music_1d, 'coarray': ecov_coarray_music_1d}


def impl_forms(A: 'c[M,K]', D: 'c[M,K]', th: 'f[K] in (-1,1)', p: 'f+', s: 'f+', wl: 'f+', n: 'i>=1', name: "{'sto','stouc','music'}"):
    """sizes: M>=2, K=1|2|3
    fallback: M=4
    assume: K < M"""
    a, src = Table(A, D), FarField1DSourcePlacement(th)
    k = th.shape[0]
    f = PERF[name]
    return (f(a, src, wl, p, s, n), f(a, src, wl, [p] * k, s, n), f(a, src, wl, p * np.ones(k), s, n), f(a, src, wl, p * np.eye(k), s, n))


def spec_forms(A, D, th, p, s, wl, n, name):
    a, src = Table(A, D), FarField1DSourcePlacement(th)
    k = th.shape[0]
    x = PERF[name](a, src, wl, p * np.eye(k), s, n)
    return x, x, x, x


def impl_forms_vector(A: 'c[M,K]', D: 'c[M,K]', th: 'f[K] in (-1,1)', p: 'f+[K]', s: 'f+', wl: 'f+', n: 'i>=1', name: "{'sto','stouc','music'}"):
    """sizes: M>=2, K>=1
    fallback: M=4 K=1; M=4 K=2
    assume: K < M"""
    a, src = Table(A, D), FarField1DSourcePlacement(th)
    return PERF[name](a, src, wl, p, s, n)


def spec_forms_vector(A, D, th, p, s, wl, n, name):
    a, src = Table(A, D), FarField1DSourcePlacement(th)
    return PERF[name](a, src, wl, np.eye(p.shape[0]) * p, s, n)


def impl_diagonal_only(A: 'c[M,K]', D: 'c[M,K]', th: 'f[K] in (-1,1)', P: 'H[K,K]', s: 'f+', wl: 'f+', n: 'i>=1'):
    """sizes: M>=2, K>=1
    fallback: M=4 K=1; M=4 K=2
    assume: K < M"""
    return crb_stouc_farfield_1d(Table(A, D), FarField1DSourcePlacement(th), wl, P, s, n)


def spec_diagonal_only(A, D, th, P, s, wl, n):
    i = np.arange(th.shape[0])
    return crb_stouc_farfield_1d(Table(A, D), FarField1DSourcePlacement(th), wl, P[i, i], s, n)


def impl_forms_coarray(th: 'f[K] in (-1,1)', p: 'f+', s: 'f+', wl: 'f+', d0: 'f+', n: 'i>=1'):
    """sizes: K=1|2"""
    a, src = UniformLinearArray(3, d0), FarField1DSourcePlacement(th)
    k = th.shape[0]
    f = ecov_coarray_music_1d
    return (f(a, src, wl, p, s, n), f(a, src, wl, [p] * k, s, n), f(a, src, wl, p * np.ones(k), s, n))


def spec_forms_coarray(th, p, s, wl, d0, n):
    x = ecov_coarray_music_1d(UniformLinearArray(3, d0), FarField1DSourcePlacement(th), wl, p * np.eye(th.shape[0]), s, n)
    return x, x, x


# ------------------------------------------------------------ guards
def impl_bad_length(A: 'c[M,K]', D: 'c[M,K]', th: 'f[K] in (-1,1)', p: 'f+[L]', P: 'f[R,C]', s: 'f+', wl: 'f+', form: "{'vec','mat'}", name: "{'sto','stouc','music'}"):
    """sizes: M>=2, K>=1, L>=1, R>=1, C>=1
    fallback: M=4 K=2 L=3 R=2 C=3; M=4 K=2 L=1 R=3 C=2
    assume: K < M"""
    return PERF[name](Table(A, D), FarField1DSourcePlacement(th), wl, {'vec': p, 'mat': P}[form], s)


def spec_bad_length(A, D, th, p, P, s, wl, form, name):
    if form == 'vec' and p.shape[0] == th.shape[0] or form == 'mat' and P.shape[0] == th.shape[0] and P.shape[1] == th.shape[0]:
        return ANY
    raise ValueError()


def impl_bad_length_coarray(th: 'f[K] in (-1,1)', p: 'f+[L]', P: 'f[R,C]', s: 'f+', wl: 'f+', form: "{'vec','mat'}"):
    """sizes: K=1|2, L>=1, R>=1, C>=1"""
    return ecov_coarray_music_1d(UniformLinearArray(4, 0.5), FarField1DSourcePlacement(th), wl, {'vec': p, 'mat': P}[form], s)


def spec_bad_length_coarray(th, p, P, s, wl, form):
    if form == 'vec' and p.shape[0] == th.shape[0] or form == 'mat' and P.shape[0] == th.shape[0] and P.shape[1] == th.shape[0]:
        return ANY
    raise ValueError()


def impl_det_power(A: 'c[M,K]', D: 'c[M,K]', th: 'f[K] in (-1,1)', p: 'f+[K]', P: 'f[R,C]', T: 'f[K,K,K]', s: 'f+', wl: 'f+', form: "{'vec','mat','tensor'}"):
    """sizes: M>=2, K>=1, R>=1, C>=1
    assume: K < M"""
    return crb_det_farfield_1d(Table(A, D), FarField1DSourcePlacement(th), wl, {'vec': p, 'mat': P, 'tensor': T}[form], s)


def spec_det_power(A, D, th, p, P, T, s, wl, form):
    if form == 'mat' and P.shape[0] == th.shape[0] and P.shape[1] == th.shape[0]:
        return ANY
    raise ValueError()


def impl_bad_sources(loc: 'f[M,D]', x: 'f[K,2] in (-1,1)', wl: 'f+', s: 'f+', name: "{'sto','det','stouc','music','coarray'}", kind: "{'ff2','nf'}"):
    """sizes: M>=4, K>=1, D=1|2
    assume: K < M"""
    a = UniformLinearArray(4, 0.5) if name == 'coarray' else ArrayDesign(loc, 'x')
    src = FarField2DSourcePlacement(x) if kind == 'ff2' else NearField2DSourcePlacement(x)
    return PERF[name](a, src, wl, np.eye(x.shape[0]), s)


def spec_bad_sources(loc, x, wl, s, name, kind):
    raise ValueError()


def impl_too_many_music(A: 'c[M,K]', D: 'c[M,K]', th: 'f[K] in (-1,1)', s: 'f+', wl: 'f+'):
    """sizes: M>=1, K>=1
    assume: K >= M"""
    return ecov_music_1d(Table(A, D), FarField1DSourcePlacement(th), wl, 1.0, s)


def spec_too_many_music(A, D, th, s, wl):
    raise ValueError()


def impl_count_coarray(th: 'f[K] in (-1,1)', s: 'f+', wl: 'f+', which: "{'ula3','nested','ula1'}"):
    """sizes: K=1|2|3|5|6|7"""
    a = {'ula3': UniformLinearArray(3, 0.5), 'nested': NestedArray(2, 2, 0.5), 'ula1': UniformLinearArray(1, 0.5)}[which]
    e = probe.catch(lambda: ecov_coarray_music_1d(a, FarField1DSourcePlacement(th), wl, 1.0, s))
    return e == 'ValueError'


def spec_count_coarray(th, s, wl, which):
    return th.shape[0] >= {'ula3': 3, 'nested': 6, 'ula1': 1}[which]


def impl_perturbed_coarray(g: 'f[M]', C: 'c[M,M]', L: 'f[M,1]', th: 'f[K] in (-1,1)', s: 'f+', wl: 'f+', which: "{'gain_errors','phase_errors','mutual_coupling','location_errors'}", known: '{True,False}'):
    """sizes: K=1, M=4"""
    v = {'gain_errors': g, 'phase_errors': g, 'mutual_coupling': C, 'location_errors': L}[which]
    return ecov_coarray_music_1d(UniformLinearArray(4, 0.5, perturbations={which: (v, known)}), FarField1DSourcePlacement(th), wl, 1.0, s)


def spec_perturbed_coarray(g, C, L, th, s, wl, which, known):
    raise ValueError()


def impl_coarray_array(loc: 'f[M,D]', th: 'f[K] in (-1,1)', s: 'f+', wl: 'f+'):
    """sizes: M>=2, D=1|2, K=1"""
    return ecov_coarray_music_1d(ArrayDesign(loc, 'x'), FarField1DSourcePlacement(th), wl, 1.0, s)


def spec_coarray_array(loc, th, s, wl):
    raise ValueError()


def impl_mode_refused(A: 'c[M,K]', D: 'c[M,K]', th: 'f[K] in (-1,1)', s: 'f+', wl: 'f+', mode: "{'trace','Full',None,''}", name: "{'sto','det','stouc','music'}"):
    """sizes: M>=2, K>=1
    assume: K < M"""
    return PERF[name](Table(A, D), FarField1DSourcePlacement(th), wl, np.eye(th.shape[0]), s, return_mode=mode)


def spec_mode_refused(A, D, th, s, wl, mode, name):
    raise ValueError()


def impl_mode_refused_coarray(th: 'f[K] in (-1,1)', s: 'f+', wl: 'f+', mode: "{'trace','Full',None,''}"):
    """sizes: K=1"""
    return ecov_coarray_music_1d(UniformLinearArray(3, 0.5), FarField1DSourcePlacement(th), wl, 1.0, s, return_mode=mode)


def spec_mode_refused_coarray(th, s, wl, mode):
    raise ValueError()


def impl_modes(A: 'c[M,K]', D: 'c[M,K]', th: 'f[K] in (-1,1)', P: 'H[K,K]', s: 'f+', wl: 'f+', n: 'i>=1', name: "{'sto','det','stouc','music'}"):
    """sizes: M>=2, K=1|2
    fallback: M=4
    assume: K < M"""
    a, src, f = Table(A, D), FarField1DSourcePlacement(th), PERF[name]
    return f(a, src, wl, P, s, n, return_mode='full'), f(a, src, wl, P, s, n, return_mode='diag'), f(a, src, wl, P, s, n, return_mode='mean_diag'), f(a, src, wl, P, s, n)


def spec_modes(A, D, th, P, s, wl, n, name):
    x = PERF[name](Table(A, D), FarField1DSourcePlacement(th), wl, P, s, n)
    i = np.arange(th.shape[0])
    d = x[i, i]
    return x, d, np.sum(d) / d.shape[0], x


def impl_modes_coarray(th: 'f[K] in (-1,1)', p: 'f+[K]', s: 'f+', wl: 'f+', n: 'i>=1'):
    """sizes: K=1|2"""
    a, src, f = UniformLinearArray(3, 0.5), FarField1DSourcePlacement(th), ecov_coarray_music_1d
    return f(a, src, wl, p, s, n, return_mode='full'), f(a, src, wl, p, s, n, return_mode='diag'), f(a, src, wl, p, s, n, return_mode='mean_diag'), f(a, src, wl, p, s, n)


def spec_modes_coarray(th, p, s, wl, n):
    x = ecov_coarray_music_1d(UniformLinearArray(3, 0.5), FarField1DSourcePlacement(th), wl, p, s, n)
    i = np.arange(th.shape[0])
    d = x[i, i]
    return x, d, np.sum(d) / d.shape[0], x
