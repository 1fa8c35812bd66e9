"""Further NumPy / SciPy functions, by their definitions."""
import itertools
from . import terms as tm
from .terms import T, ONE, ZERO
from .values import *
from .npcore import *
from . import npcore as nc
from . import npfuncs as nf
from .npfuncs import reg, F, LA, axis_arg, m_ravel, sum_term, kind_arg, f_solve, f_inv, lit_arr, f_tril, f_triu, lam_of


def seq1(I, v):
    a = to_arr(I, v)
    return m_ravel(I, a)


@reg('convolve a v mode=full')
def f_convolve(I, a, v, mode):
    a, v = seq1(I, a), seq1(I, v)
    n, m = a.shape[0], v.shape[0]
    g, h = a.snap(), v.snap()
    off, size = ZERO, n + m - 1
    if mode != 'full':
        d = tm.decide_ge(n - m)
        if d is None:
            d = I.decide(tm.ind_ge(n - m))
        lo, hi = (m, n) if d else (n, m)
        if mode == 'valid':
            off, size = lo - 1, hi - lo + 1
        elif mode == 'same':
            off, size = tm.floordiv(lo - 1, T(2)), hi
        else:
            raise Undecided('convolve mode')

    def get(idx):
        k = idx[0] + off
        c = tm.as_int(m)
        if c is not None and c <= 40:
            r = ZERO
            for j in range(c):
                i = k - j
                lo, hi = tm.decide_ge(i), tm.decide_ge(n - 1 - i)
                if lo is False or hi is False:
                    continue
                t = h((T(j),)) * g((i,))
                if lo is not True:
                    t = tm.ind_ge(i) * t
                if hi is not True:
                    t = tm.ind_ge(n - 1 - i) * t
                r = r + t
            return r
        return sum_term(n, lambda i: tm.ind_ge(k - i) * tm.ind_ge(m - 1 - k + i) * g((i,)) * h((k - i,)))
    return new_arr((size,), kmax(a.kind, v.kind), get)


@reg('correlate a v mode=valid')
def f_correlate(I, a, v, mode):
    v = seq1(I, v)
    g, m = v.snap(), v.shape[0]
    return f_convolve(I, a, new_arr(v.shape, v.kind, lambda idx: tm.conj(g((m - 1 - idx[0],)))), mode)


@reg('polyval p x')
def f_polyval(I, p, x):
    p = seq1(I, p)
    n = tm.as_int(p.shape[0])
    if n is None or n > 12:
        raise Undecided('polyval')
    g = p.snap()
    x = x if is_num(x) else to_arr(I, x)
    r = 0
    for i in range(n):
        r = binop(I, 'Add', binop(I, 'Mult', r, x), mk(g((T(i),)), p.kind))
    return r


@reg('vander x N=None increasing=False')
def f_vander(I, x, N, increasing):
    x = seq1(I, x)
    n = x.shape[0] if N is None else term_of(N)
    g = x.snap()
    c = tm.as_int(n)
    if c is None or c > 12:
        raise Undecided('vander')
    return new_arr((x.shape[0], n), x.kind, lambda idx: pick([tm.power(g((idx[0],)), (j if increasing else c - 1 - j)) for j in range(c)], idx[1]))


@reg('cumprod a axis=None dtype=None', None, 'cumproduct', 'nancumprod')
def f_cumprod(I, a, axis, dtype):
    a = to_arr(I, a)
    if axis is None:
        a, axis = m_ravel(I, a), 0
    ax = axis_arg(I, axis, a.ndim)
    c = tm.as_int(a.shape[ax])
    if c is None or c > 12:
        raise Undecided('cumprod')
    g = a.snap()

    def upto(idx, k):
        r = ONE
        for i in range(k + 1):
            r = r * g(tuple(T(i) if d == ax else idx[d] for d in range(a.ndim)))
        return r
    return new_arr(a.shape, kind_arg(dtype, nf.ksum(a.kind)), lambda idx: pick([upto(idx, k) for k in range(c)], idx[ax]))


def count_below(I, a, v, right):
    """Positions of v in the sorted vector a."""
    a = seq1(I, a)
    g, n = a.snap(), a.shape[0]
    c = tm.as_int(n)

    def one(t):
        def ind(i):
            return tm.ind_ge(t - g((i,))) if right else tm.b_not(tm.ind_ge(g((i,)) - t))
        if c is not None and c <= 40:
            return tm.add_all([ind(T(i)) for i in range(c)])
        return sum_term(n, ind)
    return map1(I, v, one, lambda k: 'i')


@reg('searchsorted a v side=left sorter=None')
def f_searchsorted(I, a, v, side, sorter):
    if sorter is not None:
        raise Undecided('sorter')
    return count_below(I, a, v if is_num(v) else to_arr(I, v), side == 'right')


@reg('digitize x bins right=False')
def f_digitize(I, x, bins, right):
    return count_below(I, bins, x if is_num(x) else to_arr(I, x), not right)


@reg('nan_to_num x copy=True nan=0.0 posinf=None neginf=None')
def f_nan_to_num(I, x, copy, nan, posinf, neginf):
    x = x if is_num(x) else to_arr(I, x)

    def one(t):
        if tm._has_inf(t):
            raise Undecided('nan_to_num')
        return t
    return map1(I, x, one, lambda k: k) if copy is True else x


@reg('real_if_close a tol=100')
def f_real_if_close(I, a, tol):
    raise Undecided('real_if_close')


@reg('fromfunction function shape dtype=None')
def f_fromfunction(I, function, shape, dtype):
    sh = nf.shape_arg(I, shape)
    k = kind_arg(dtype, 'f')
    return I.call(function, [new_arr(sh, k, lambda idx, d=d: idx[d]) for d in range(len(sh))])


def _from(name):
    def f(I, arr, k):
        a = to_arr(I, arr)
        return I.call(F[name + '_indices'], [mk(a.shape[0], 'i'), k])
    reg('%s_indices_from arr k=0' % name)(f)


_from('triu')
_from('tril')


@reg('diag_indices_from arr')
def f_dif(I, arr):
    a = to_arr(I, arr)
    return I.call(F['diag_indices'], [mk(a.shape[0], 'i'), a.ndim])


@reg('array_equiv a1 a2')
def f_array_equiv(I, a1, a2):
    try:
        x = I.compare('Eq', to_arr(I, a1), to_arr(I, a2))
    except Exception:
        raise Undecided('array_equiv')
    return I.call(F['all'], [x])


@reg('heaviside x1 x2')
def f_heaviside(I, x1, x2):
    return map2(I, x1, x2, lambda t, u: tm.case(tm.ind_eq(t), u, tm.ind_ge(t)), lambda p, q: 'f')


@reg('signbit x')
def f_signbit(I, x):
    return map1(I, x if is_num(x) else to_arr(I, x), lambda t: tm.b_not(tm.ind_ge(t)), lambda k: 'b')


@reg('asfarray a dtype=None')
def f_asfarray(I, a, dtype):
    x = to_arr(I, a)
    return x if x.kind in 'fc' else I.call(F['array'], [x, ], {'dtype': nf.F['float64']}) if 'float64' in nf.F else binop(I, 'Mult', x, 1.0)


@reg('atleast_3d a')
def f_atleast_3d(I, a):
    a = to_arr(I, a)
    if a.ndim == 0:
        return nc.reshape_to(I, a, (ONE, ONE, ONE))
    if a.ndim == 1:
        return nc.reshape_to(I, a, (ONE, a.shape[0], ONE))
    if a.ndim == 2:
        return nc.reshape_to(I, a, tuple(a.shape) + (ONE,))
    return a


@reg('rollaxis a axis start=0')
def f_rollaxis(I, a, axis, start):
    a = to_arr(I, a)
    ax = axis_arg(I, axis, a.ndim)
    start = start + a.ndim if start < 0 else start
    if ax < start:
        start -= 1
    return I.call(F['moveaxis'], [a, ax, start])


@reg('apply_along_axis func1d axis arr')
def f_apply_along_axis(I, func1d, axis, arr):
    a = to_arr(I, arr)
    ax = axis_arg(I, axis, a.ndim)
    rest = [d for d in range(a.ndim) if d != ax]
    ns = [tm.as_int(a.shape[d]) for d in rest]
    if any(n is None for n in ns):
        raise Undecided('apply_along_axis')
    tot = 1
    for n in ns:
        tot *= n
    if tot > 64 or tot == 0:
        raise Undecided('apply_along_axis')
    g = a.snap()
    res = {}
    for p in itertools.product(*[range(n) for n in ns]):
        def at(idx, p=p):
            full = [None] * a.ndim
            full[ax] = idx[0]
            for d, i in zip(rest, p):
                full[d] = T(i)
            return g(tuple(full))
        r = I.call(func1d, [new_arr((a.shape[ax],), a.kind, at)])
        if isinstance(r, Unk):
            return r
        res[p] = r if is_num(r) else to_arr(I, r)
    first = next(iter(res.values()))
    if is_num(first):
        kind = kmax(*[kind_of(x) for x in res.values()])
        return new_arr(tuple(a.shape[d] for d in rest), kind, lambda idx: select([(p, term_of(x)) for p, x in res.items()], idx))
    if any(is_num(x) or x.ndim != 1 or not I.same_dim(x.shape[0], first.shape[0]) for x in res.values()):
        raise Undecided('apply_along_axis')
    gs = {p: x.snap() for p, x in res.items()}
    kind = kmax(*[x.kind for x in res.values()])
    sh = [a.shape[d] for d in rest]
    sh.insert(ax, first.shape[0])
    return new_arr(tuple(sh), kind, lambda idx: select([(p, h((idx[ax],))) for p, h in gs.items()], [idx[d] for d in rest]))


def select(cases, idx):
    cs = [tm.as_int(i) for i in idx]
    if all(c is not None for c in cs):
        return dict(cases)[tuple(cs)]
    r = ZERO
    for p, t in cases:
        c = ONE
        for i, q in zip(idx, p):
            c = c * tm.ind_eq(i - q)
        r = r + c * t
    return r


# ---------------------------------------------------------------- scipy.linalg
def cho_factor(I, a, k):
    return (a[0], True)


def cho_solve(I, a, k):
    if not isinstance(a[0], tuple):
        raise Undecided('cho_solve')
    return I.call(LA['solve'], [a[0][0], a[1]])


def solve_triangular(I, a, k):
    k = dict(k)
    names = ['a', 'b', 'trans', 'lower', 'unit_diagonal']
    for n, v in zip(names, a):
        k[n] = v
    if set(k) - set(names) - {'check_finite', 'overwrite_b'} or k.get('unit_diagonal', False) is not False:
        raise Undecided('solve_triangular')
    m = (f_tril if I.truth(k.get('lower', False)) else f_triu)(I, k['a'], 0)
    tr = k.get('trans', 0)
    if tr in (1, 'T', 2, 'C'):
        m = nc.transpose(m, [1, 0])
        if tr in (2, 'C'):
            m = map1(I, m, tm.conj, lambda k: k)
    return I.call(LA['solve'], [m, k['b']])


def hankel(I, a, k):
    c = seq1(I, a[0])
    r = a[1] if len(a) > 1 else k.get('r')
    n = c.shape[0]
    g = c.snap()
    if r is None:
        return new_arr((n, n), c.kind, lambda idx: tm.ind_ge(n - 1 - idx[0] - idx[1]) * g((idx[0] + idx[1],)))
    r = seq1(I, r)
    h = r.snap()
    return new_arr((n, r.shape[0]), kmax(c.kind, r.kind), lambda idx: tm.case(tm.ind_ge(n - 1 - idx[0] - idx[1]), g((idx[0] + idx[1],)), h((idx[0] + idx[1] - n + 1,))))


SL = {'cho_factor': cho_factor, 'cho_solve': cho_solve, 'lu_factor': cho_factor, 'lu_solve': cho_solve, 'solve_triangular': solve_triangular, 'hankel': hankel,
      'svdvals': lambda I, a, k: I.call(LA['svd'], [a[0]], {'compute_uv': False}), 'pinvh': lambda I, a, k: I.call(LA['pinv'], [a[0]])}


def methods():
    return {'cumprod': lambda I, v: Native(lambda I, a, k: I.call(F['cumprod'], [v] + list(a), k), 'cumprod'),
            'searchsorted': lambda I, v: Native(lambda I, a, k: I.call(F['searchsorted'], [v] + list(a), k), 'searchsorted')}


F['product'] = F['prod']
F['alltrue'], F['sometrue'] = F['all'], F['any']
F['invert'] = F['bitwise_not'] = Native(lambda I, a, k: I.np.unop(I, 'Invert', a[0] if is_num(a[0]) else to_arr(I, a[0])), 'invert')
nf.METHODS.update(methods())
