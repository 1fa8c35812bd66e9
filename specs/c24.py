import numpy as np
from doatools.estimation.source_number import aic, mdl, sorte, ld_stat
import probe


def stat(l, k, n):
    """n (M-k) log(arithmetic / geometric mean) of the M-k smallest of ascending eigenvalues."""
    d = l.shape[0] - k
    x = l[np.arange(d)]
    return n * d * np.log((np.sum(x) / d) / np.prod(x) ** (1.0 / d))


def criterion(l, n, name):
    m = l.shape[0]
    c = np.zeros(m)
    for k in range(m):
        pen = k * (2 * m - k)
        c[k] = stat(l, k, n) + (pen if name == 'aic' else 0.5 * (pen + 1) * np.log(n))
    return np.argmin(c)


def gap_ratio(l):
    """Minimizer of the ratio of consecutive variances of the (descending) eigenvalue gaps, plus one."""
    m = l.shape[0]
    d = l[::-1]
    gaps = d[np.arange(m - 1)] - d[np.arange(1, m)]
    var = [np.mean((gaps[k:] - np.mean(gaps[k:])) ** 2) for k in range(m - 1)]
    r = []
    for k in range(m - 3):
        r.append(np.inf if np.abs(var[k]) < np.finfo(np.float64).eps else var[k + 1] / var[k])
    return np.argmin(np.array(r)) + 1


def impl_stat(l: 'f+[M]', k: 'i>=0', n: 'i>=1'):
    """sizes: M>=1
    fallback: M=1; M=4
    assume: k < M"""
    return ld_stat(l, k, n)


def spec_stat(l, k, n):
    return stat(l, k, n)


def impl_stat_guard(R: 'f+[M,M]', k: 'i>=0', n: 'i>=1'):
    """sizes: M>=1
    assume: k < M"""
    return ld_stat(R, k, n)


def spec_stat_guard(R, k, n):
    raise ValueError()


def impl_vector(l: 'f+[M]', n: 'i>=2', name: "{'aic','mdl'}"):
    """sizes: M>=1
    fallback: M=1; M=2; M=3; M=4"""
    return (aic if name == 'aic' else mdl)(l, n)


def spec_vector(l, n, name):
    return criterion(l, n, name)


def impl_matrix(R: 'H[M,M]', n: 'i>=2', name: "{'aic','mdl'}"):
    """sizes: M>=1
    fallback: M=1; M=2; M=3; M=4"""
    return (aic if name == 'aic' else mdl)(R, n)


def spec_matrix(R, n, name):
    return criterion(np.linalg.eigvalsh(R), n, name)


def impl_interchange(R: 'H[M,M]', n: 'i>=2'):
    """sizes: M=4|5"""
    l = np.linalg.eigvalsh(R)
    return (aic(R, n), mdl(R, n), sorte(R))


def spec_interchange(R, n):
    l = np.linalg.eigvalsh(R)
    return (aic(l, n), mdl(l, n), sorte(l))


def impl_sorte(l: 'f+[M]'):
    """sizes: M=4|5"""
    return sorte(l)


def spec_sorte(l):
    return gap_ratio(l)


def impl_sorte_distinct(l: 'f+[M]'):
    """sizes: M=6|7"""
    return sorte(l)


def spec_sorte_distinct(l):
    m = l.shape[0]
    gaps = l[::-1][np.arange(m - 1)] - l[::-1][np.arange(1, m)]
    for k in range(m - 2):
        if np.abs(np.var(gaps[k:])) < np.finfo(np.float64).eps:
            return probe.ANY
    return gap_ratio(l)


EQUAL = [[1, 2, 3, 4, 9], [1, 2, 3, 5, 7, 9], [1, 5, 6, 7, 8, 9], [1, 1, 1, 1, 1], [1, 1, 1, 4, 9, 13, 17], [2, 2, 2, 3, 7, 19], [1, 3, 4, 6, 7, 9, 10]]


def impl_sorte_equal_gaps(k: '{0,1,2,3,4,5,6}'):
    """sizes: M=1"""
    # equally spaced eigenvalues: gaps without variance are skipped
    return sorte(np.array(EQUAL[k], dtype=np.float64))


def spec_sorte_equal_gaps(k):
    return gap_ratio(np.array(EQUAL[k], dtype=np.float64))


def impl_sorte_matrix(R: 'H[M,M]'):
    """sizes: M=4|5"""
    return sorte(R)


def spec_sorte_matrix(R):
    return gap_ratio(np.linalg.eigvalsh(R))


def impl_sorte_guard(l: 'f+[M]', R: 'H[M,M]'):
    """sizes: M=1|2|3"""
    return probe.catch(lambda: sorte(l)), probe.catch(lambda: sorte(R))


def spec_sorte_guard(l, R):
    return 'ValueError', 'ValueError'


def impl_untouched(l: 'f+[M]', R: 'H[M,M]', n: 'i>=2'):
    """sizes: M=4"""
    a, b = l.copy(), R.copy()
    aic(l, n), mdl(l, n), sorte(l), aic(R, n), mdl(R, n), sorte(R)
    return l, R


def spec_untouched(l, R, n):
    return l, R
