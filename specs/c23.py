import numpy as np
from doatools.estimation.preprocessing import spatial_smooth, l1_svd
import probe


def smooth(R, l):
    m = R.shape[0] - l + 1
    return sum(R[i:i + m, i:i + m] for i in range(l)) / l


def smooth_general(R, l):
    """Element (p, q) is the mean of R[p + i, q + i] over the l subarrays."""
    m = R.shape[0] - l + 1
    F = np.zeros((m, m), dtype=R.dtype if np.iscomplexobj(R) else np.float64)
    for i in range(l):
        F = F + R[i:i + m, i:i + m]
    return F / l


def fb_mean(F):
    n = F.shape[0]
    i = np.arange(n)
    return 0.5 * (F + F[n - 1 - i, :][:, n - 1 - i].conj())


def impl_forward(R: 'c[M,M]', l: 'i in [1,M]'):
    """sizes: M>=1
    fallback: M=1; M=3; M=4"""
    return spatial_smooth(R, l)


def spec_forward(R, l):
    return smooth_general(R, l)


def impl_backward(R: 'c[M,M]', l: 'i in [1,M]'):
    """sizes: M>=1
    fallback: M=1; M=3; M=4"""
    return spatial_smooth(R, l, True), spatial_smooth(R, l, fb=True)


def spec_backward(R, l):
    F = fb_mean(smooth_general(R, l))
    return F, F


def impl_real(R: 'f[M,M]', l: 'i in [1,M]', fb: '{True,False}'):
    """sizes: M>=1
    fallback: M=1; M=3; M=4"""
    return spatial_smooth(R, l, fb)


def spec_real(R, l, fb):
    F = smooth_general(R, l)
    return fb_mean(F) if fb else F


def impl_integer(R: 'i[M,M] in (-9,9)', l: 'i in [1,M]', fb: '{True,False}'):
    """sizes: M>=1
    fallback: M=1; M=3; M=4"""
    return spatial_smooth(R, l, fb)


def spec_integer(R, l, fb):
    F = smooth_general(R, l)
    return fb_mean(F) if fb else F


def impl_hermitian(R: 'H[M,M]', l: 'i in [1,M]'):
    """sizes: M>=1
    fallback: M=1; M=3; M=4"""
    F, B = spatial_smooth(R, l), spatial_smooth(R, l, True)
    return F - F.conj().T, B - B.conj().T


def spec_hermitian(R, l):
    n = R.shape[0] - l + 1
    return np.zeros((n, n)), np.zeros((n, n))


def impl_fixed(R: 'c[5,5]', l: '{1,2,3,4,5}'):
    """"""
    return spatial_smooth(R, l), spatial_smooth(R, l, True)


def spec_fixed(R, l):
    F = smooth(R, l)
    return F, fb_mean(F)


def impl_guard(R: 'c[M,M]', l: 'i', fb: '{True,False}'):
    """sizes: M>=1
    fallback: M=2; M=3"""
    return probe.catch(lambda: spatial_smooth(R, l, fb))


def spec_guard(R, l, fb):
    return 'ValueError' if l < 1 or l > R.shape[0] else None


def impl_untouched(R: 'c[M,M]', S: 'f[M,M]', l: 'i in [1,M]', fb: '{True,False}'):
    """sizes: M>=1
    fallback: M=1; M=3"""
    a, b = R.copy(), S.copy()
    x, y = spatial_smooth(R, l, fb), spatial_smooth(S, l, fb)
    sh = probe.shares(x, R), probe.shares(y, S)
    x[0, 0] = 77.0
    y[0, 0] = 78.0
    return R - a, S - b, sh


def spec_untouched(R, S, l, fb):
    m = R.shape[0]
    return np.zeros((m, m)), np.zeros((m, m)), (False, False)


def impl_l1_svd(Y: 'c[M,N]', k: 'i>=1'):
    """sizes: M>=1, N>=1
    fallback: M=3 N=2; M=2 N=4
    assume: k <= M; k <= N"""
    c = Y.copy()
    X = l1_svd(Y, k)
    return X, X.shape, Y - c


def spec_l1_svd(Y, k):
    U, s, _ = np.linalg.svd(Y, full_matrices=False)
    return U[:, np.arange(k)] * s[np.arange(k)], (Y.shape[0], k), np.zeros(Y.shape)


def impl_l1_svd_many(Y: 'c[M,N]', k: 'i>=1'):
    """sizes: M=1|2, N=1|2|3"""
    # more components than there are: all of them
    probe.assume(k > min(Y.shape[0], Y.shape[1]))
    X = l1_svd(Y, k)
    return X, X.shape


def spec_l1_svd_many(Y, k):
    U, s, _ = np.linalg.svd(Y, full_matrices=False)
    return U * s, (Y.shape[0], min(Y.shape[0], Y.shape[1]))


def impl_l1_svd_real(Y: 'f[M,N]', k: 'i>=1'):
    """sizes: M>=1, N>=1
    fallback: M=3 N=2; M=2 N=4
    assume: k <= M; k <= N"""
    return l1_svd(Y, k)


def spec_l1_svd_real(Y, k):
    U, s, _ = np.linalg.svd(Y, full_matrices=False)
    return U[:, np.arange(k)] * s[np.arange(k)]
