import numpy as np
from doatools.utils.math import unique_rows
import probe


def kept(x, atol, rtol):
    """A row is kept iff it is not within the tolerance of a row kept before it."""
    tol = atol + rtol * max(abs(np.min(x)), abs(np.max(x)))
    ks = []
    for k in range(x.shape[0]):
        if not any(np.all(np.abs(x[i, :] - x[k, :]) <= tol) for i in ks):
            ks.append(k)
    return ks


def impl_rows(x: 'f[N,D] in (-2,2)', atol: 'f in (0,2)', rtol: 'f in (0,1)'):
    """sizes: N=1|2|3|4, D=1|2|3
    paths: 400"""
    return unique_rows(x, atol, rtol)


def spec_rows(x, atol, rtol):
    return x[kept(x, atol, rtol), :]


def impl_five(x: 'f[N,D] in (-2,2)', atol: 'f in (0,2)'):
    """sizes: N=5, D=1|2
    paths: 400"""
    return unique_rows(x, atol)


def spec_five(x, atol):
    return x[kept(x, atol, 1e-8), :]


def impl_index(x: 'f[N,D] in (-2,2)', atol: 'f in (0,2)'):
    """sizes: N=1|2|3, D=1|2"""
    y, i = unique_rows(x, atol, return_index=True)
    return y, i, probe.kind(i)


def spec_index(x, atol):
    k = kept(x, atol, 1e-8)
    return x[k, :], np.array(k), 'i'


def impl_keywords(x: 'f[N,D] in (-2,2)', atol: 'f in (0,2)', rtol: 'f in (0,1)', which: '{0,1,2}'):
    """sizes: N=3, D=2"""
    if which == 0:
        return unique_rows(x, rtol=rtol, atol=atol)
    return unique_rows(x, atol=atol) if which == 1 else unique_rows(x, rtol=rtol)


def spec_keywords(x, atol, rtol, which):
    return x[kept(x, atol if which < 2 else 0.0, 1e-8 if which == 1 else rtol), :]


def impl_exact(x: 'i[N,D] in (-1,1)'):
    """sizes: N=1|2|3, D=1|2
    paths: 400"""
    # exact duplicates
    return unique_rows(x)


def spec_exact(x):
    return x[kept(x, 0.0, 1e-8), :]


def order(x, ks):
    """Lexicographical order of the rows ks of x: the first column is the primary key."""
    o = np.lexsort(tuple(x[ks, l] for l in range(x.shape[1] - 1, -1, -1)))
    return np.array(ks)[o]


def impl_boundary(x: 'i[N,D] in (-2,2)', atol: 'i in [0,2]'):
    """sizes: N=2|3, D=1
    paths: 400"""
    # differences equal to the tolerance match
    return unique_rows(x, atol, 0.0)


def spec_boundary(x, atol):
    return x[kept(x, atol, 0.0), :]


def impl_sorted(x: 'f[N,D] in (-2,2)', atol: 'f in (0,1)'):
    """sizes: N=1|2|3, D=1|2
    paths: 400"""
    return unique_rows(x, atol, sort=True)


def spec_sorted(x, atol):
    return x[order(x, kept(x, atol, 1e-8)), :]


def impl_sorted_index(x: 'f[N,D] in (-2,2)', atol: 'f in (0,1)'):
    """sizes: N=1|2|3, D=1|2
    paths: 400"""
    y, i = unique_rows(x, atol, sort=True, return_index=True)
    return y, i


def spec_sorted_index(x, atol):
    ks = order(x, kept(x, atol, 1e-8))
    return x[ks, :], np.array(ks)


def impl_empty(D: 'size>=1'):
    """sizes: D>=1"""
    x = np.zeros((0, D))
    y, i = unique_rows(x, return_index=True)
    return unique_rows(x).shape, y.shape, i.shape, probe.kind(i), unique_rows(x, sort=True).shape


def spec_empty(D):
    return (0, D), (0, D), (0,), 'i', (0, D)


def impl_refused(x: 'f[N]', X: 'f[N,K,D]'):
    """sizes: N>=1, K>=1, D>=1"""
    return probe.catch(lambda: unique_rows(x)), probe.catch(lambda: unique_rows(X))


def spec_refused(x, X):
    return 'ValueError', 'ValueError'


def impl_fresh(x: 'f[N,D] in (-2,2)', atol: 'f in (0,2)', dup: '{False,True}'):
    """sizes: N=2|3, D=1|2"""
    y = unique_rows(x, atol)
    return probe.shares(y, x)


def spec_fresh(x, atol, dup):
    return False


def impl_default():
    """sizes: N=1"""
    # the default tolerance is 1e-8 of the largest magnitude, and nothing absolute
    a = unique_rows(np.array([[4.0, 0.0], [4.0, 2e-8], [4.0, 7e-8], [-100.0, 0.0]]))
    b = unique_rows(np.array([[4.0, 0.0], [4.0, 2e-8], [4.0, 7e-8], [0.0, 0.0]]))
    c = unique_rows(np.array([[1e-12], [2e-12], [3e-12]]))
    y, i = unique_rows(np.array([[3.0], [1.0], [3.0], [2.0]]), 0.0, 1e-8, True, True)
    z, j = unique_rows(np.array([[3.0], [1.0], [3.0], [2.0]]), 0.0, 1e-8, True)
    return a, b, c, y, i, z, j


def spec_default():
    return (np.array([[4.0, 0.0], [-100.0, 0.0]]), np.array([[4.0, 0.0], [4.0, 7e-8], [0.0, 0.0]]),
            np.array([[1e-12], [2e-12], [3e-12]]), np.array([[1.0], [2.0], [3.0]]), np.array([1, 3, 0]), np.array([[3.0], [1.0], [2.0]]), np.array([0, 1, 3]))
