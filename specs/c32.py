import numpy as np
from doatools.utils.math import vec, khatri_rao, projm, abs_squared, cartesian
from doatools.utils.conversion import ae2broad, convert_angles, cart2spherical, ANGULAR_COV_MAT
from specs.lib import herm, inv


def impl_vec(A: 'c[M,N]'):
    """sizes: M>=1, N>=1"""
    return vec(A)


def spec_vec(A):
    m, n = A.shape
    i = np.arange(m * n)
    return A[i % m, i // m][:, None]


def impl_kr(A: 'c[M,K]', B: 'c[N,K]'):
    """sizes: M>=1, N>=1, K>=1"""
    return khatri_rao(A, B)


def spec_kr(A, B):
    return (A[:, None, :] * B[None, :, :]).reshape((A.shape[0] * B.shape[0], A.shape[1]))


def impl_kr_mixed(A: 'f[M,K]', B: 'c[N,K]'):
    """sizes: M>=1, N>=1, K>=1"""
    return khatri_rao(A, B), khatri_rao(B, A)


def spec_kr_mixed(A, B):
    return (A[:, None, :] * B[None, :, :]).reshape((A.shape[0] * B.shape[0], A.shape[1])), (B[:, None, :] * A[None, :, :]).reshape((A.shape[0] * B.shape[0], A.shape[1]))


def impl_kr_refuse(A: 'f[M,K]', B: 'f[N,L]'):
    """sizes: M>=1, N>=1, K>=0, L>=0"""
    return khatri_rao(A, B).shape


def spec_kr_refuse(A, B):
    if A.shape[1] != B.shape[1]:
        raise ValueError('columns')
    return (A.shape[0] * B.shape[0], A.shape[1])


def impl_projm_complex(A: 'c[M,K]'):
    """sizes: M>=1, K>=1
    assume: K<=M"""
    return projm(A)


def spec_projm_complex(A):
    return A @ inv(herm(A) @ A) @ herm(A)


def impl_projm_real(A: 'f[M,K]'):
    """sizes: M>=1, K>=1
    assume: K<=M"""
    return projm(A), projm(A, False)


def spec_projm_real(A):
    P = A @ inv(A.T @ A) @ A.T
    return P, P


def impl_projm_pinv(A: 'c[M,K]', B: 'f[M,K]'):
    """sizes: M>=1, K>=1
    assume: K<=M
    fallback: M=3 K=1; M=3 K=2; M=4 K=3"""
    return projm(A, True), projm(B, use_pinv=True)


def spec_projm_pinv(A, B):
    return A @ inv(herm(A) @ A) @ herm(A), B @ inv(B.T @ B) @ B.T


def impl_abs_squared(A: 'c[M,N]', b: 'f[M]', s: 'c'):
    """sizes: M>=1, N>=1"""
    return abs_squared(A), abs_squared(b), abs_squared(A[:, 0])


def spec_abs_squared(A, b, s):
    return (A * A.conj()).real, b * b, (A[:, 0].conj() * A[:, 0]).real


def impl_cartesian2(x: 'f[M]', y: 'f[N]'):
    """sizes: M>=1, N>=1"""
    return cartesian(x, y)


def spec_cartesian2(x, y):
    n = y.shape[0]
    i = np.arange(x.shape[0] * n)
    return np.stack((x[i // n], y[i % n]), 1)


def impl_cartesian13(x: 'f[M]', y: 'f[N]', z: 'f[L]'):
    """sizes: M>=1, N>=1, L>=1"""
    return cartesian(x), cartesian(x, y, z)


def spec_cartesian13(x, y, z):
    n, l = y.shape[0], z.shape[0]
    i = np.arange(x.shape[0] * n * l)
    return x[:, None], np.stack((x[i // (n * l)], y[(i // l) % n], z[i % l]), 1)


def impl_cartesian45(x: 'f[M]', y: 'f[N]', z: 'f[L]', w: 'f[K]', v: 'f[P]'):
    """sizes: M=2, N=1|3, L=2, K=2, P=1|2"""
    return cartesian(x, y, z, w), cartesian(x, y, z, w, v)


def spec_cartesian45(x, y, z, w, v):
    n, l, k, p = y.shape[0], z.shape[0], w.shape[0], v.shape[0]
    i = np.arange(x.shape[0] * n * l * k)
    j = np.arange(x.shape[0] * n * l * k * p)
    return (np.stack((x[i // (n * l * k)], y[(i // (l * k)) % n], z[(i // k) % l], w[i % k]), 1),
            np.stack((x[j // (n * l * k * p)], y[(j // (l * k * p)) % n], z[(j // (k * p)) % l], w[(j // p) % k], v[j % p]), 1))


def tab(x, f, t):
    if f == 'deg':
        x = x * np.pi / 180
    if f == 'sin':
        x = np.arcsin(x)
    if t == 'deg':
        return x * 180 / np.pi
    if t == 'sin':
        return np.sin(x)
    return x


def impl_convert(x: 'f[M,N] in (-1,1)', f: "{'rad','deg','sin'}", t: "{'rad','deg','sin'}"):
    """sizes: M>=1, N>=1"""
    return convert_angles(x, f, t)


def spec_convert(x, f, t):
    if f == t:
        return x
    return tab(x, f, t)


def impl_convert_copy(x: 'f[M]', f: "{'rad','deg','sin'}"):
    """sizes: M>=1"""
    y = convert_angles(x, f, f)
    y[0] = 7.0
    return x


def spec_convert_copy(x, f):
    return x


def impl_ae2broad(x: 'f[M,2]'):
    """sizes: M>=1"""
    return ae2broad(x)


def spec_ae2broad(x):
    return np.arcsin(np.cos(x[:, 0]) * np.cos(x[:, 1]))[:, None]


def impl_cart2spherical(x: 'f[M,D]'):
    """sizes: M>=1, D=1|2|3"""
    return cart2spherical(x)


def spec_cart2spherical(x):
    d = x.shape[1]
    z = np.zeros(x.shape[0])
    a = x[:, 0]
    b = x[:, 1] if d > 1 else z
    c = x[:, 2] if d > 2 else z
    el = np.arctan2(c, np.sqrt(a ** 2 + b ** 2)) if d > 2 else z
    r = np.abs(a) if d == 1 else np.sqrt(a ** 2 + b ** 2 + c ** 2)
    return np.stack((r, np.arctan2(b, a), el), 1)


def impl_cart2spherical_kinds(x: 'i[M,D]', y: 'f[M,D]'):
    """sizes: M>=1, D=1|2|3"""
    return cart2spherical(x), cart2spherical(y)


def spec_cart2spherical_kinds(x, y):
    return spec_cart2spherical(1.0 * x), spec_cart2spherical(y)
