"""Models of numpy functions and array methods."""
import math
import itertools
from fractions import Fraction
from . import terms as tm
from .terms import T, Term, ONE, ZERO
from .values import *
from .npcore import *
from . import npcore as nc

F = {}        # numpy namespace
LA = {}       # numpy.linalg
REQ = object()


def bind(spec, args, kwargs, name):
    names, out = [], {}
    star = None
    for p in spec:
        if p.startswith('*'):
            star = p[1:]
            continue
        if '=' in p:
            n, d = p.split('=')
            names.append(n)
            out[n] = DEF.get(d, d)
        else:
            names.append(p)
            out[p] = REQ
    args = list(args)
    if star:
        out[star] = args
    else:
        if len(args) > len(names):
            rz('TypeError', '%s() takes at most %d arguments (%d given)' % (name, len(names), len(args)))
        for n, v in zip(names, args):
            out[n] = v
    for k, v in kwargs.items():
        if k not in names:
            if k in ('out', 'where', 'order', 'casting', 'subok', 'like', 'overwrite_a', 'check_finite', 'overwrite_b', 'copy', 'keepdims', 'dtype', 'initial', 'ddof', 'rcond', 'hermitian', 'assume_a', 'lower', 'full_matrices', 'UPLO'):
                raise Undecided('%s(%s=)' % (name, k))
            rz('TypeError', "%s() got an unexpected keyword argument '%s'" % (name, k))
        out[k] = v
    for n in names:
        if out[n] is REQ:
            rz('TypeError', "%s() missing required argument '%s'" % (name, n))
    return out


DEF = {'None': None, 'True': True, 'False': False, '0': 0, '1': 1, '-1': -1, '2': 2, '1.0': 1.0, '0.0': 0.0, '50': 50, 'C': 'C',
       '1e-05': 1e-05, '1e-08': 1e-08}


# functions with an out argument that is filled with the result
OUT = set('clip round cumsum cumprod sum prod mean std var max min amax amin any all take trace dot outer concatenate stack compress choose argmax argmin einsum diff matmul kron ptp median'.split()) - {'diff', 'kron'}


def reg(spec, table=None, *names):
    parts = spec.split()

    def deco(f):
        def call(I, args, kwargs):
            if 'out' in kwargs and parts[0] in OUT and 'out' not in parts:
                kwargs = dict(kwargs)
                out = kwargs.pop('out')
                return _out(I, call(I, args, kwargs), out)
            b = bind(parts[1:], args, kwargs, parts[0])
            for v in b.values():
                if isinstance(v, Unk):
                    return Unk('%s of %s' % (parts[0], v.why))
                if isinstance(v, list) and any(isinstance(x, Unk) for x in v):
                    return Unk(parts[0])
            return f(I, **b)
        nat = Native(call, parts[0])
        tab = F if table is None else table
        for n in (parts[0],) + names:
            tab[n] = nat
        return f
    return deco


# ---------------------------------------------------------------- dtypes
DT = {
    'b': TypeV('bool_', 'b'), 'i': TypeV('int64', 'i'), 'f': TypeV('float64', 'f'), 'c': TypeV('complex128', 'c'),
}


def _dt_call(kind):
    def call(I, args, kwargs):
        if not args:
            return mk(ZERO, kind, True)
        v = args[0]
        if is_num(v):
            return mk(cast_t(term_of(v), kind_of(v), kind), kind, True)
        if isinstance(v, str):
            raise Undecided('number from string')
        a = to_arr(I, v)
        return copy_arr(a, kind)
    return call


def cast_t(t, k, kind):
    if kind == 'b':
        return t_bool(t) if k != 'b' else t
    if kind == 'i':
        return trunc(tm.re(t) if k == 'c' else t)
    if kind == 'f':
        return tm.re(t) if k == 'c' else t
    return t


for _k, _names in (('f', 'float64 float32 float16 float_ double single longdouble half'), ('c', 'complex128 complex64 complex_ cdouble csingle clongdouble'),
                   ('i', 'int64 int32 int16 int8 int_ intp intc uint8 uint16 uint32 uint64 uint longlong'), ('b', 'bool_ bool8')):
    for _n in _names.split():
        t = DT[_k] if DT[_k].name == _n else TypeV(_n, _k)
        t.fn = _dt_call(_k)
        t.attrs['kind'] = _k
        t.attrs['type'] = t
        t.attrs['itemsize'] = {'f': 8, 'c': 16, 'i': 8, 'b': 1}[_k]
        t.attrs['name'] = t.name
        F[_n] = t
for _n in 'floating inexact complexfloating integer number generic signedinteger bool unsignedinteger'.split():
    F.setdefault(_n, TypeV('np.' + _n, None))
NDARRAY = TypeV('np.ndarray', None)
F['ndarray'] = NDARRAY
F['pi'] = Sc(tm.PI, 'f')
F['e'] = Sc(tm.exp_(ONE), 'f')
F['inf'] = F['Inf'] = F['infty'] = F['PINF'] = float('inf')
F['NINF'] = float('-inf')
F['nan'] = F['NaN'] = float('nan')
F['newaxis'] = None


def kind_arg(d, default=None):
    if d is None:
        return default
    if isinstance(d, Native) and d.name in ('float', 'int', 'complex', 'bool'):
        return d.name[0]
    k = nc.dtype_kind(d)
    if k is None:
        if isinstance(d, TypeV) and d.name == 'object':
            raise Undecided('object dtype')
        raise Undecided('dtype %r' % (d,))
    return k


def shape_arg(I, s):
    if is_num(s):
        s = (s,)
    elif isinstance(s, Unk):
        raise Undecided('shape')
    out = []
    for x in I.iter_concrete(s):
        if isinstance(x, Arr) and x.ndim == 0:
            x = mk(x.at(()), x.kind)
        if isinstance(x, Unk):
            raise Undecided('shape')
        if not is_num(x) or kind_of(x) not in 'ib':
            rz('TypeError', "'float' object cannot be interpreted as an integer")
        t = term_of(x)
        if not tm.prove_ge(t) and not I.decide(tm.ind_ge(t)):
            rz('ValueError', 'negative dimensions are not allowed')
        out.append(t)
    return tuple(out)


def axis_arg(I, ax, n):
    if isinstance(ax, Sc):
        raise Undecided('symbolic axis')
    if ax is None:
        return None
    if isinstance(ax, (tuple, ListV)):
        return tuple(axis_arg(I, x, n) for x in I.iter_concrete(ax))
    if not isinstance(ax, int):
        rz('TypeError', 'axis')
    if ax < 0:
        ax += n
    if ax < 0 or ax >= n:
        rz('ValueError', 'axis %d is out of bounds' % ax)
    return ax


# ---------------------------------------------------------------- creation
@reg('array object dtype=None copy=True order=None ndmin=0 subok=False')
def f_array(I, object, dtype, copy, order, ndmin, subok):
    k = kind_arg(dtype)
    if isinstance(object, Arr):
        r = copy_arr(object, k) if copy is True else to_arr(I, object, k)
    else:
        r = to_arr(I, object, k)
        if isinstance(object, Obj):
            r = copy_arr(r)
    if ndmin and r.ndim < ndmin:
        r = nc.reshape_to(I, r, (ONE,) * (ndmin - r.ndim) + r.shape)
    return r


@reg('asarray a dtype=None order=None', None, 'asanyarray', 'asarray_chkfinite')
def f_asarray(I, a, dtype, order):
    return to_arr(I, a, kind_arg(dtype))


@reg('ascontiguousarray a dtype=None', None, 'asfortranarray', 'require')
def f_ascont(I, a, dtype):
    r = to_arr(I, a, kind_arg(dtype))
    return r if r.contig else copy_arr(r)


def _full(I, shape, v, kind):
    t = cast_t(term_of(v), kind_of(v), kind)
    return new_arr(shape_arg(I, shape), kind, lambda idx: t)


@reg('zeros shape dtype=None order=C')
def f_zeros(I, shape, dtype, order):
    return _full(I, shape, 0, kind_arg(dtype, 'f'))


@reg('empty shape dtype=None order=C')
def f_empty(I, shape, dtype, order):
    k = kind_arg(dtype, 'f')
    n = I.np_empty = getattr(I, 'np_empty', 0) + 1
    return new_arr(shape_arg(I, shape), k, lambda idx: tm.el('uninit%d' % n, idx, real=k != 'c', isint=k in 'ib'))


@reg('ones shape dtype=None order=C')
def f_ones(I, shape, dtype, order):
    return _full(I, shape, 1, kind_arg(dtype, 'f'))


@reg('full shape fill_value dtype=None order=C')
def f_full(I, shape, fill_value, dtype, order):
    sh = shape_arg(I, shape)
    a = to_arr(I, fill_value)
    k = kind_arg(dtype, a.kind)
    r = new_arr(sh, k, lambda idx: ZERO)
    nc.store_view(I, r, a)
    return r


def _like(val):
    def f(I, a, dtype, shape=None, **kw):
        a = to_arr(I, a)
        k = kind_arg(dtype, a.kind)
        return new_arr(a.shape if shape is None else shape_arg(I, shape), k, lambda idx: val)
    return f


reg('zeros_like a dtype=None shape=None')(_like(ZERO))
reg('ones_like a dtype=None shape=None')(_like(ONE))


@reg('empty_like a dtype=None')
def f_empty_like(I, a, dtype):
    a = to_arr(I, a)
    return f_empty(I, shape_val(a.shape), DT[kind_arg(dtype, a.kind)], 'C')


@reg('full_like a fill_value dtype=None')
def f_full_like(I, a, fill_value, dtype):
    a = to_arr(I, a)
    return f_full(I, shape_val(a.shape), fill_value, DT[kind_arg(dtype, a.kind)], 'C')


@reg('eye N M=None k=0 dtype=None')
def f_eye(I, N, M, k, dtype):
    sh = shape_arg(I, (N, N if M is None else M))
    kt = term_of(k)
    return new_arr(sh, kind_arg(dtype, 'f'), lambda idx: tm.ind_eq(idx[1] - idx[0] - kt))


@reg('identity n dtype=None')
def f_identity(I, n, dtype):
    return f_eye(I, n, None, 0, dtype)


@reg('tri N M=None k=0 dtype=None')
def f_tri(I, N, M, k, dtype):
    sh = shape_arg(I, (N, N if M is None else M))
    kt = term_of(k)
    return new_arr(sh, kind_arg(dtype, 'f'), lambda idx: tm.ind_ge(idx[0] + kt - idx[1]))


@reg('tril m k=0')
def f_tril(I, m, k):
    a = to_arr(I, m)
    g = a.snap()
    kt = term_of(k)
    return new_arr(a.shape, a.kind, lambda idx: tm.ind_ge(idx[-2] + kt - idx[-1]) * g(idx))


@reg('triu m k=0')
def f_triu(I, m, k):
    a = to_arr(I, m)
    g = a.snap()
    kt = term_of(k)
    return new_arr(a.shape, a.kind, lambda idx: tm.ind_ge(idx[-1] - kt - idx[-2]) * g(idx))


@reg('diag v k=0')
def f_diag(I, v, k):
    a = to_arr(I, v)
    kt = term_of(k)
    g = a.snap()
    if a.ndim == 1:
        n = a.shape[0]
        ck = tm.as_int(kt)
        if ck is None:
            raise Undecided('symbolic diagonal offset')
        sz = n + abs(ck)
        if ck == 0:
            return new_arr((n, n), a.kind, lambda idx: tm.ind_eq(idx[0] - idx[1]) * g((idx[0],)))
        if ck > 0:
            return new_arr((sz, sz), a.kind, lambda idx: tm.ind_eq(idx[1] - idx[0] - ck) * g((idx[0],)))
        return new_arr((sz, sz), a.kind, lambda idx: tm.ind_eq(idx[0] - idx[1] + ck) * g((idx[1],)))
    if a.ndim != 2:
        rz('ValueError', 'Input must be 1- or 2-d.')
    return diagonal(I, a, kt)


def part_view(a):
    if isinstance(a, Arr):
        a.ro = 'part'
    return a


def diagonal(I, a, kt, ro=True):
    """View of a diagonal."""
    n, m = a.shape
    if kt is ZERO:
        ln = tmin(I, n, m)
        p, q = ZERO, ZERO
    else:
        if tm.prove_ge(kt) or I.decide(tm.ind_ge(kt)):
            ln = tmin(I, n, m - kt)
            p, q = ZERO, kt
        else:
            ln = tmin(I, n + kt, m)
            p, q = -kt, ZERO
        if not tm.prove_ge(ln) and not I.decide(tm.ind_ge(ln)):
            ln = ZERO
    f, inv = a.fwd, a.inv

    def inv2(x):
        c, v = inv(x)
        return c * tm.ind_eq(v[1] - q - v[0] + p), (v[0] - p,)
    return Arr(a.buf, (ln,), lambda v: f((v[0] + p, v[0] + q)), None if inv is None else inv2, False, ro or a.ro)


reg('diagonal a offset=0')(lambda I, a, offset: diagonal(I, to_arr(I, a), term_of(offset)))


@reg('diagflat v k=0')
def f_diagflat(I, v, k):
    return f_diag(I, m_ravel(I, to_arr(I, v)), k)


def tmin(I, a, b):
    if a is b:
        return a
    return a if I.decide(tm.ind_ge(b - a)) else b


def tmax(I, a, b):
    if a is b:
        return a
    return a if I.decide(tm.ind_ge(a - b)) else b


@reg('arange start stop=None step=None dtype=None')
def f_arange(I, start, stop, step, dtype):
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    for x in (start, stop, step):
        if not is_num(x):
            raise Undecided('arange')
    k = kmax(kind_of(start), kind_of(stop), kind_of(step))
    k = 'i' if k == 'b' else k
    a, b, s = term_of(start), term_of(stop), term_of(step)
    if s is ZERO:
        rz('ZeroDivisionError', 'Maximum allowed size exceeded')
    d = t_div(b - a, s)
    n = t_ceil(d)
    if k == 'i':
        c = tm.as_int(s)
        if c is None:
            raise Undecided('symbolic step')
        d = b - a if c > 0 else a - b
        n = d if abs(c) == 1 else tm.floordiv(d + abs(c) - 1, T(abs(c)))
    if not tm.prove_ge(n) and not I.decide(tm.ind_ge(n)):
        n = ZERO
    k2 = kind_arg(dtype, k)
    g = lambda idx: a + s * idx[0]
    return new_arr((n,), k2, nc.store_cast(I, k2, k, g))


@reg('linspace start stop num=50 endpoint=True retstep=False dtype=None axis=0')
def f_linspace(I, start, stop, num, endpoint, retstep, dtype, axis):
    if isinstance(num, float) or (isinstance(num, Sc) and num.kind in 'fc'):
        rz('TypeError', 'object cannot be interpreted as an integer')
    if not (is_num(start) and is_num(stop)):
        sa, so = to_arr(I, start), to_arr(I, stop)
        if sa.ndim or so.ndim:
            raise Undecided('array linspace')
        start, stop = mk(sa.at(()), sa.kind), mk(so.at(()), so.kind)
    n = term_of(num)
    if not tm.prove_ge(n) and not I.decide(tm.ind_ge(n)):
        rz('ValueError', 'Number of samples must be non-negative.')
    a, b = term_of(start), term_of(stop)
    ep = I.truth(endpoint)
    if retstep:
        raise Undecided('retstep')
    div = n - 1 if ep else n
    if ep and not tm.prove_ge(div - 1) and I.decide(tm.ind_eq(div)):
        g = lambda idx: a
    elif div.p:
        st = t_div(b - a, div)
        g = lambda idx: a + st * idx[0]
    else:
        g = lambda idx: a
    k0 = kmax(kind_of(start), kind_of(stop), 'f')
    k = kind_arg(dtype, k0)
    return new_arr((n,), k, nc.store_cast(I, k, k0, g))


@reg('meshgrid *xi indexing=xy sparse=False copy=True')
def f_meshgrid(I, xi, indexing, sparse, copy):
    if indexing not in ('xy', 'ij'):
        rz('ValueError', "Valid values for `indexing` are 'xy' and 'ij'.")
    if sparse:
        raise Undecided('sparse meshgrid')
    xs = [m_ravel(I, to_arr(I, x)) for x in xi]
    n = len(xs)
    sizes = [x.shape[0] for x in xs]
    perm = list(range(n))
    if indexing == 'xy' and n > 1:
        perm[0], perm[1] = 1, 0
    shape = tuple(sizes[p] for p in perm)
    out = []
    for k, x in enumerate(xs):
        g = x.snap()
        d = perm.index(k)
        out.append(new_arr(shape, x.kind, lambda idx, g=g, d=d: g((idx[d],))))
    return ListV(out)


@reg('ix_ *xs')
def f_ix(I, xs):
    out = []
    n = len(xs)
    for k, x in enumerate(xs):
        a = to_arr(I, x)
        if a.kind == 'b':
            cnt, fs = nc.mask_index(I, a)
            a = new_arr((cnt,), 'i', lambda idx, f=fs[0]: f(idx[0]))
        out.append(nc.reshape_to(I, a, (ONE,) * k + (a.shape[0],) + (ONE,) * (n - k - 1)))
    return tuple(out)


@reg('fromiter iter dtype count=-1')
def f_fromiter(I, iter, dtype, count):
    return to_arr(I, iter, kind_arg(dtype))


@reg('frombuffer a dtype=None')
def f_frombuffer(I, a, dtype):
    raise Undecided('frombuffer')


@reg('copy a')
def f_copy(I, a):
    return copy_arr(to_arr(I, a))


# ---------------------------------------------------------------- elementwise
def kf(k):
    return 'c' if k == 'c' else 'f'


def kid(k):
    return k


def kki(k):
    return 'i' if k == 'b' else k


def kreal(k):
    return 'f' if k == 'c' else k


def fn1(name):
    def f(t):
        return tm.fn(name, (t,), real=t.real)
    return f


def t_sqrt(t):
    return tm.power(t, Fraction(1, 2))


def t_angle(t):
    c = tm.as_const(t)
    if c is not None and c > 0:
        return ZERO
    return tm.fn('angle', (t,), real=True, bounds=(-tm.PI, tm.PI))


def t_sign(t):
    c = tm.as_const(t)
    if c is not None:
        return T((c > 0) - (c < 0))
    return tm.fn('sign', (t,), real=True, isint=True)


def t_tan(t):
    return tm.sin_(t) * tm.power(tm.cos_(t), -1)


def t_arccos(t):
    return tm.PI * Fraction(1, 2) - tm.arcsin_(t)


def t_arctan2(a, b):
    if a is ZERO:
        # 0 for b>=0, pi for b<0
        return tm.PI * tm.b_not(tm.ind_ge(b))
    return tm.fn('arctan2', (a, b), real=True, bounds=(-tm.PI, tm.PI))


D2R = tm.PI * Fraction(1, 180)
R2D = tm.mul(T(180), tm.power(tm.PI, -1))
UN = {
    'sin': (tm.sin_, kf), 'cos': (tm.cos_, kf), 'tan': (t_tan, kf), 'arcsin': (tm.arcsin_, kf), 'arccos': (t_arccos, kf),
    'arctan': (fn1('arctan'), kf), 'exp': (tm.exp_, kf), 'sqrt': (t_sqrt, kf), 'log': (tm.log_, kf),
    'log10': (lambda t: tm.log_(t) * tm.power(tm.log_(T(10)), -1), kf), 'log2': (lambda t: tm.log_(t) * tm.power(tm.log_(T(2)), -1), kf),
    'conj': (tm.conj, kid), 'conjugate': (tm.conj, kid), 'real': (tm.re, kreal), 'imag': (tm.im, kreal),
    'abs': (tm.abs_, kreal), 'absolute': (tm.abs_, kreal), 'fabs': (tm.abs_, kf), 'square': (lambda t: t * t, kid), 'negative': (tm.neg, kid), 'positive': (lambda t: t, kid),
    'reciprocal': (lambda t: t_div(ONE, t), kid), 'deg2rad': (lambda t: t * D2R, kf), 'radians': (lambda t: t * D2R, kf),
    'rad2deg': (lambda t: t * R2D, kf), 'degrees': (lambda t: t * R2D, kf), 'floor': (t_floor, kf), 'ceil': (t_ceil, kf), 'trunc': (trunc, kf), 'fix': (trunc, kf),
    'sign': (t_sign, kid), 'logical_not': (lambda t: tm.b_not(t_bool(t)), lambda k: 'b'),
    'isnan': (lambda t: ZERO, lambda k: 'b'), 'isinf': (lambda t: ONE if tm._has_inf(t) else ZERO, lambda k: 'b'),
    'isfinite': (lambda t: ZERO if tm._has_inf(t) else ONE, lambda k: 'b'),
    'sinc': (lambda t: tm.sin_(t * tm.PI) * tm.power(t * tm.PI, -1) if tm.as_const(t) != 0 else ONE, kf),
    'cosh': (lambda t: (tm.exp_(t) + tm.exp_(-t)) * Fraction(1, 2), kf), 'sinh': (lambda t: (tm.exp_(t) - tm.exp_(-t)) * Fraction(1, 2), kf),
    'tanh': (lambda t: (tm.exp_(t) - tm.exp_(-t)) * tm.power(tm.exp_(t) + tm.exp_(-t), -1), kf), 'exp2': (lambda t: tm.power(T(2), t), kf),
    'log1p': (lambda t: tm.log_(t + 1), kf), 'expm1': (lambda t: tm.exp_(t) - 1, kf), 'cbrt': (lambda t: tm.power(t, Fraction(1, 3)), kf),
    'spacing': (lambda t: tm.fn('spacing', (t,), real=True), kf), 'rint': (lambda t: tm.fn('round', (t,), real=True, isint=True) if not t.isint else t, kf),
}


def _mkun(name, f, kind):
    def call(I, args, kwargs):
        kwargs = dict(kwargs)
        out = kwargs.pop('out', None)
        if kwargs or len(args) not in (1, 2):
            raise Undecided(name)
        if len(args) == 2:
            out = args[1]
        v = args[0]
        if isinstance(v, Unk):
            return v
        h = getattr(v, 'np_func', None)
        if h is not None:
            return h(I, name)
        if name in ('real', 'imag') and isinstance(v, Arr):
            return native_attr(I, v, name)
        if name == 'reciprocal':
            k = kind_of(v) if is_num(v) else to_arr(I, v).kind
            if k in 'ib':
                r = map1(I, v, lambda t: trunc(t_div(ONE, t)), lambda k: 'i')
                return _out(I, r, out)
        r = map1(I, v, f, kind)
        return _out(I, r, out)
    F[name] = Native(call, name)


def _out(I, r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    ra = to_arr(I, r)
    if not nc.castable(ra.kind, out.kind):
        rz('UFuncTypeError', 'Cannot cast ufunc output')
    nc.store_view(I, out, ra)
    return out


for _n, (_f, _k) in UN.items():
    _mkun(_n, _f, _k)


def t_max(a, b):
    if a is b:
        return a
    if tm._has_inf(a) or tm._has_inf(b):
        d = tm.decide_ge(a - b)
        if d is not None:
            return a if d else b
    return tm.case(tm.ind_ge(a - b), a, b)


def t_min(a, b):
    if a is b:
        return a
    if tm._has_inf(a) or tm._has_inf(b):
        d = tm.decide_ge(a - b)
        if d is not None:
            return b if d else a
    return tm.case(tm.ind_ge(b - a), a, b)


def kb2(a, b):
    return 'b'


BIN = {
    'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow',
    'floor_divide': 'FloorDiv', 'mod': 'Mod', 'remainder': 'Mod', 'matmul': 'MatMult', 'bitwise_and': 'BitAnd', 'bitwise_or': 'BitOr',
}
CMPN = {'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE', 'equal': 'Eq', 'not_equal': 'NotEq'}
BIN2 = {
    'maximum': (t_max, kmax), 'minimum': (t_min, kmax), 'fmax': (t_max, kmax), 'fmin': (t_min, kmax),
    'arctan2': (t_arctan2, kdiv), 'hypot': (lambda a, b: t_sqrt(a * a + b * b), kdiv),
    'logical_and': (lambda a, b: t_bool(a) * t_bool(b), kb2), 'logical_or': (lambda a, b: tm.b_or(t_bool(a), t_bool(b)), kb2),
    'logical_xor': (lambda a, b: t_bool(a) + t_bool(b) - 2 * t_bool(a) * t_bool(b), kb2),
    'float_power': (t_pow, kdiv), 'fmod': (t_mod, kmax), 'copysign': (lambda a, b: tm.fn('copysign', (a, b), real=True), kdiv),
    'gcd': (lambda a, b: t_gcd(a, b), kmax), 'lcm': (lambda a, b: tm.floordiv(a * b, t_gcd(a, b)), kmax),
    'dist': (lambda a, b: a - b, kmax),
}


def t_gcd(a, b):
    x, y = tm.as_int(a), tm.as_int(b)
    if x is not None and y is not None:
        return T(math.gcd(x, y))
    if b.id < a.id:
        a, b = b, a
    return tm.fn('gcd', (a, b), real=True, isint=True, nonneg=True, bounds=(ONE if (tm.prove_ge(a - 1) or tm.prove_ge(b - 1)) else ZERO, None))


def need(name, args, n):
    if not n <= len(args) <= n + 1:
        rz('TypeError', '%s() takes %d positional arguments but %d were given' % (name, n, len(args)))


def _mkbin(name, op):
    def call(I, args, kwargs):
        kwargs = dict(kwargs)
        out = kwargs.pop('out', None)
        if kwargs:
            raise Undecided(name)
        need(name, args, 2)
        if len(args) == 3:
            out = args[2]
        a, b = args[0], args[1]
        if isinstance(a, (ListV, tuple)):
            a = to_arr(I, a)
        if isinstance(b, (ListV, tuple)):
            b = to_arr(I, b)
        if is_num(a) and is_num(b) and op != 'MatMult':
            a = Sc(term_of(a), kind_of(a), True)
        return _out(I, binop(I, op, a, b), out)
    F[name] = Native(call, name, _ufunc_attrs(name, op))


def _ufunc_attrs(name, op):
    d = {}

    def outer(I, args, kwargs):
        x, y = to_arr(I, args[0]), to_arr(I, args[1])
        x2 = nc.reshape_to(I, x, x.shape + (ONE,) * y.ndim)
        return binop(I, op, x2, y)
    d['outer'] = Native(outer, name + '.outer')

    def reduce(I, args, kwargs):
        if name in ('add', 'multiply'):
            return I.call(F['sum' if name == 'add' else 'prod'], [args[0], args[1] if len(args) > 1 else kwargs.get('axis', 0)])
        raise Undecided('reduce')
    d['reduce'] = Native(reduce, name + '.reduce')

    def at(I, args, kwargs):
        x, k = args[0], args[1]
        if not isinstance(x, Arr) or not (is_num(k) or isinstance(k, tuple) and all(is_num(i) for i in k)):
            raise Undecided(name + '.at')
        I.setitem(x, k, binop(I, op, I.getitem(x, k), args[2]))
    d['at'] = Native(at, 'at')
    return d


def _undec(w):
    raise Undecided(w)


for _n, _o in BIN.items():
    _mkbin(_n, _o)
for _n, _o in CMPN.items():
    def _c(I, args, kwargs, op=_o, n=_n):
        need(n, args, 2)
        a, b = args[0], args[1]
        a = to_arr(I, a) if isinstance(a, (ListV, tuple)) else a
        b = to_arr(I, b) if isinstance(b, (ListV, tuple)) else b
        return compare(I, op, a, b)
    F[_n] = Native(_c, _n)
for _n, (_f, _k) in BIN2.items():
    def _c(I, args, kwargs, f=_f, k=_k, n=_n):
        if any(x not in ('out',) for x in kwargs):
            raise Undecided(n)
        need(n, args, 2)
        if n == 'logical_and' or n == 'logical_or':
            pass
        r = map2(I, args[0], args[1], f, k)
        return _out(I, r, kwargs.get('out', args[2] if len(args) > 2 else None))
    F[_n] = Native(_c, _n)


@reg('angle z deg=False')
def f_angle(I, z, deg):
    r = map1(I, z, t_angle, lambda k: 'f')
    if deg:
        r = map1(I, r, lambda t: t * R2D, lambda k: 'f')
    return r


@reg('clip a a_min=None a_max=None')
def f_clip(I, a, a_min, a_max):
    r = a
    if a_min is not None:
        r = map2(I, r, a_min, t_max, kmax)
    if a_max is not None:
        r = map2(I, r, a_max, t_min, kmax)
    return r


@reg('round a decimals=0', None, 'around', 'round_')
def f_round(I, a, decimals):
    d = decimals

    def f(t):
        c = tm.as_const(t)
        if c is not None:
            return T(round(c, d)) if d else T(round(c))
        if t.isint:
            return t
        return tm.fn('round', (t, T(d)), real=True) if d else tm.fn('round', (t,), real=True, isint=True)
    return map1(I, a, f, lambda k: k)


@reg('where condition x=None y=None')
def f_where(I, condition, x, y):
    if x is None and y is None:
        return f_nonzero(I, condition)
    c, a, b = to_arr(I, condition), to_arr(I, x), to_arr(I, y)
    sh = bshape(I, c.shape, a.shape, b.shape)
    gc, ga, gb = bget(I, c, sh), bget(I, a, sh), bget(I, b, sh)
    isb = c.kind == 'b'

    def get(idx):
        t = gc(idx)
        if not isb:
            t = t_bool(t)
        return tm.case(t, ga(idx), gb(idx))
    return new_arr(sh, kmax(a.kind, b.kind), get)


@reg('select condlist choicelist default=0')
def f_select(I, condlist, choicelist, default):
    r = default
    for c, x in reversed(list(zip(I.iter_concrete(condlist), I.iter_concrete(choicelist)))):
        r = f_where(I, c, x, r)
    return r


@reg('nonzero a')
def f_nonzero(I, a):
    a = to_arr(I, a)
    m = a if a.kind == 'b' else map1(I, a, t_bool, lambda k: 'b')
    if a.ndim == 0:
        raise Undecided('nonzero of 0-d')
    cnt, fs = nc.mask_index(I, m)
    return tuple(new_arr((cnt,), 'i', lambda idx, f=f: f(idx[0])) for f in fs)


@reg('flatnonzero a')
def f_flatnonzero(I, a):
    return f_nonzero(I, m_ravel(I, to_arr(I, a)))[0]


@reg('argwhere a')
def f_argwhere(I, a):
    return transpose(f_stack(I, ListV(list(f_nonzero(I, a))), 0))


@reg('count_nonzero a axis=None')
def f_count_nonzero(I, a, axis):
    a = to_arr(I, a)
    return reduce_(I, map1(I, a, t_bool, lambda k: 'b') if a.kind != 'b' else a, axis, sum_shape, 'i')


# ---------------------------------------------------------------- reductions
def reduce_(I, a, axis, f, kind, keepdims=False):
    """f(shape, get) reduces the given axes."""
    a = to_arr(I, a)
    if isinstance(axis, (tuple, ListV)):
        axs = list(axis_arg(I, axis, a.ndim))
    elif axis is None:
        axs = list(range(a.ndim))
    else:
        axs = [axis_arg(I, axis, a.ndim)]
    keep = [d for d in range(a.ndim) if d not in axs]
    rs = tuple(a.shape[d] for d in axs)
    g = a.snap()

    def get(idx):
        if keepdims:
            idx = tuple(idx[d] for d in keep)

        def inner(r):
            full = [None] * a.ndim
            for d, i in zip(keep, idx):
                full[d] = i
            for d, i in zip(axs, r):
                full[d] = i
            return g(tuple(full))
        return f(rs, inner)
    if keepdims:
        sh = tuple(ONE if d in axs else a.shape[d] for d in range(a.ndim))
    else:
        sh = tuple(a.shape[d] for d in keep)
    return scalar_or_arr(sh, kind, get)


def ksum(k):
    return 'i' if k == 'b' else k


@reg('sum a axis=None dtype=None keepdims=False')
def f_sum(I, a, axis, dtype, keepdims):
    h = getattr(a, 'np_sum', None)
    if h is not None:
        return h(I, axis)
    a = to_arr(I, a)
    return reduce_(I, a, axis, sum_shape, kind_arg(dtype, ksum(a.kind)), keepdims)


F['nansum'] = F['sum']


def _prod(rs, g):
    if all(tm.as_int(s) is not None for s in rs):
        pts = list(itertools.product(*[range(tm.as_int(s)) for s in rs]))
        if len(pts) <= 40:
            r = ONE
            for p in pts:
                r = r * g(tuple(T(i) for i in p))
            return r
    l = lam_get(rs, g)
    return tm.fn('prod', (l,), real=l.body.real, nonneg=tm.is_nonneg(l.body))


@reg('prod a axis=None dtype=None keepdims=False')
def f_prod(I, a, axis, dtype, keepdims):
    a = to_arr(I, a)
    kind = kind_arg(dtype, ksum(a.kind))
    return reduce_(I, a, axis, _iprod if kind == 'i' else _prod, kind, keepdims)


def _iprod(rs, g):
    """Integer products wrap around; those of sizes and indices are small enough."""
    t = _prod(rs, g)
    if tm.occurring(t, lambda a: a.kind == 'el' and isinstance(a.data[0], tuple) and a.data[0][0] == 'in' and len(a.data) > 1 and len(a.data[1:]) > 0):
        return tm.fn('int64', (t,), real=True, isint=True)
    return t


@reg('mean a axis=None dtype=None keepdims=False')
def f_mean(I, a, axis, dtype, keepdims):
    a = to_arr(I, a)

    def f(rs, g):
        return t_div(sum_shape(rs, g), size_term(rs))
    return reduce_(I, a, axis, f, kind_arg(dtype, kdiv(a.kind, 'f')), keepdims)


F['nanmean'] = F['mean']


def _var(ddof):
    def f(rs, g):
        n = size_term(rs)
        m = t_div(sum_shape(rs, g), n)
        return t_div(sum_shape(rs, lambda idx: tm.abs2(g(idx) - m)), n - ddof)
    return f


@reg('var a axis=None dtype=None ddof=0 keepdims=False')
def f_var(I, a, axis, dtype, ddof, keepdims):
    return reduce_(I, to_arr(I, a), axis, _var(term_of(ddof)), 'f', keepdims)


@reg('std a axis=None dtype=None ddof=0 keepdims=False')
def f_std(I, a, axis, dtype, ddof, keepdims):
    v = _var(term_of(ddof))
    return reduce_(I, to_arr(I, a), axis, lambda rs, g: t_sqrt(v(rs, g)), 'f', keepdims)


@reg('average a axis=None weights=None')
def f_average(I, a, axis, weights):
    if weights is None:
        return f_mean(I, a, axis, None, False)
    w = to_arr(I, weights)
    return binop(I, 'Div', f_sum(I, binop(I, 'Mult', to_arr(I, a), w), axis, None, False), f_sum(I, w, axis if w.ndim > 1 else None, None, False))


def b_any(rs, g):
    n = None
    if all(tm.as_int(s) is not None for s in rs) and (tm.as_int(size_term(rs)) or 0) <= 16:
        r = ZERO
        for p in itertools.product(*[range(tm.as_int(s)) for s in rs]):
            r = tm.b_or(r, t_bool(g(tuple(T(i) for i in p))))
        return r
    s = sum_shape(rs, lambda idx: t_bool(g(idx)))
    return tm.ind_ge(s - 1)


def b_all(rs, g):
    return tm.b_not(b_any(rs, lambda idx: tm.b_not(t_bool(g(idx)))))


@reg('any a axis=None keepdims=False')
def f_any(I, a, axis, keepdims):
    return reduce_(I, to_arr(I, a), axis, b_any, 'b', keepdims)


@reg('all a axis=None keepdims=False')
def f_all(I, a, axis, keepdims):
    return reduce_(I, to_arr(I, a), axis, b_all, 'b', keepdims)


def _ext(name):
    def f(rs, g):
        if all(tm.as_int(s) is not None for s in rs):
            pts = list(itertools.product(*[range(tm.as_int(s)) for s in rs]))
            if len(pts) <= 3:
                r = g(tuple(T(i) for i in pts[0]))
                for p in pts[1:]:
                    r = (t_max if name == 'max' else t_min)(r, g(tuple(T(i) for i in p)))
                return r
            if len(pts) <= 64:
                vs = [tm.as_const(g(tuple(T(i) for i in p))) for p in pts]
                if all(v is not None for v in vs):
                    return T(max(vs) if name == 'max' else min(vs))
        l = lam_get(rs, g)
        free = set(l.idx)
        if not (set(l.body.fv) & free):
            return l.body
        return tm.fn(name, (l,), real=True, isint=l.body.isint, nonneg=tm.is_nonneg(l.body))
    return f


def _mkext(name, names):
    f = _ext(name)

    def call(I, a, axis, keepdims, initial):
        a = to_arr(I, a)
        if initial is not None:
            raise Undecided('initial')
        n = size_term(a.shape)
        if not tm.prove_ge(n - 1) and I.decide(tm.ind_eq(n)):
            rz('ValueError', 'zero-size array to reduction operation')
        return reduce_(I, a, axis, f, a.kind, keepdims)
    reg('%s a axis=None keepdims=False initial=None' % name, None, *names)(call)


_mkext('max', ['amax', 'nanmax'])
_mkext('min', ['amin', 'nanmin'])


@reg('ptp a axis=None')
def f_ptp(I, a, axis):
    return binop(I, 'Sub', I.call(F['max'], [a, axis]), I.call(F['min'], [a, axis]))


def _argext(name):
    def f(rs, g):
        if all(tm.as_int(s) is not None for s in rs):
            pts = list(itertools.product(*[range(tm.as_int(s)) for s in rs]))
            vs = [tm.as_const(g(tuple(T(i) for i in p))) for p in pts] if len(pts) <= 200 else [None]
            if all(v is not None for v in vs):
                return T(vs.index(max(vs) if name == 'argmax' else min(vs)))
            if len(pts) == 1:
                return ZERO
        n = size_term(rs)
        x = tm.fresh_idx(n)
        l = tm.mk_lam([x], g(nc.unflat(tm.of_atom(x), rs)))
        return tm.fn(name, (l,), real=True, isint=True, nonneg=True, bounds=(ZERO, n - 1))
    return f


def _mkarg(name, names):
    f = _argext(name)

    def call(I, a, axis, keepdims):
        a = to_arr(I, a)
        n = size_term(a.shape)
        if not tm.prove_ge(n - 1) and I.decide(tm.ind_eq(n)):
            rz('ValueError', 'attempt to get %s of an empty sequence' % name)
        return reduce_(I, a, axis, f, 'i', keepdims)
    reg('%s a axis=None keepdims=False' % name, None, *names)(call)


_mkarg('argmax', ['nanargmax'])
_mkarg('argmin', ['nanargmin'])


def sort_like(I, a, axis, name):
    a = to_arr(I, a)
    if axis is None:
        a = m_ravel(I, a)
        axis = 0
    ax = axis_arg(I, axis, a.ndim)
    n = a.shape[ax]
    g = a.snap()
    c = tm.as_int(n)

    def get(idx):
        def line(i):
            return g(tuple(i if d == ax else idx[d] for d in range(a.ndim)))
        if c is not None and c <= 64:
            vs = [line(T(i)) for i in range(c)]
            cs = [tm.as_const(v) for v in vs]
            if all(x is not None for x in cs):
                o = sorted(range(c), key=lambda i: cs[i])
                return pick([T(i) for i in o] if name == 'argsort' else [T(cs[i]) for i in o], idx[ax])
            if c == 1:
                return ZERO if name == 'argsort' else vs[0]
        x = tm.fresh_idx(n)
        l = tm.mk_lam([x], line(tm.of_atom(x)))
        if name == 'argsort':
            return tm.fn('argsort', (l, idx[ax]), real=True, isint=True, nonneg=True, bounds=(ZERO, n - 1))
        return tm.fn('sort', (l, idx[ax]), real=l.body.real, isint=l.body.isint, nonneg=tm.is_nonneg(l.body))
    return new_arr(a.shape, 'i' if name == 'argsort' else a.kind, get)


@reg('argsort a axis=-1 kind=None order=None stable=None')
def f_argsort(I, a, axis, kind, order, stable):
    return sort_like(I, a, axis, 'argsort')


@reg('argpartition a kth axis=-1 kind=None order=None')
def f_argpartition(I, a, kth, axis, kind, order):
    # a full sort is one of the orders a partition may produce
    return sort_like(I, a, axis, 'argsort')


@reg('partition a kth axis=-1 kind=None order=None')
def f_partition(I, a, kth, axis, kind, order):
    return sort_like(I, a, axis, 'sort')


@reg('divmod x1 x2')
def f_divmod(I, x1, x2):
    x1, x2 = (to_arr(I, x) if isinstance(x, (ListV, tuple)) else x for x in (x1, x2))
    return (I.binop('FloorDiv', x1, x2), I.binop('Mod', x1, x2))


@reg('ediff1d ary')
def f_ediff1d(I, ary):
    return I.call(F['diff'], [m_ravel(I, to_arr(I, ary))], {})


@reg('sort a axis=-1 kind=None order=None')
def f_sort(I, a, axis, kind, order):
    return sort_like(I, a, axis, 'sort')


@reg('lexsort keys axis=-1')
def f_lexsort(I, keys, axis):
    ks = keys if isinstance(keys, Arr) else to_arr(I, keys)
    n = tm.as_int(ks.shape[-1])
    m = tm.as_int(ks.shape[0])
    if n is not None and m is not None and n * m <= 2000:
        g = ks.snap()
        rows = [[tm.as_const(g((T(r), T(i)))) for i in range(n)] for r in range(m)]
        if all(x is not None for r in rows for x in r):
            o = sorted(range(n), key=lambda i: tuple(rows[r][i] for r in range(m - 1, -1, -1)))
            ts = [T(i) for i in o]
            return new_arr((T(n),), 'i', lambda idx: pick(ts, idx[0]))
    l = lam_of(ks)
    n = ks.shape[-1]
    return new_arr((n,), 'i', lambda idx: tm.fn('lexsort', (l, idx[0]), real=True, isint=True, nonneg=True, bounds=(ZERO, n - 1)))


@reg('unique ar return_index=False return_inverse=False return_counts=False axis=None')
def f_unique(I, ar, return_index, return_inverse, return_counts, axis):
    a = to_arr(I, ar)
    if axis is None:
        v = const_list(I, m_ravel(I, a))
        if v is None:
            raise Undecided('unique')
        o = sorted(set(v))
        res = [lit_arr(o, a.kind)]
        if return_index:
            res.append(lit_arr([v.index(x) for x in o], 'i'))
        if return_inverse:
            res.append(lit_arr([o.index(x) for x in v], 'i'))
        if return_counts:
            res.append(lit_arr([v.count(x) for x in o], 'i'))
        return res[0] if len(res) == 1 else tuple(res)
    if axis == 0 and a.ndim == 2:
        n, m = tm.as_int(a.shape[0]), tm.as_int(a.shape[1])
        if n is not None and m is not None:
            v = const_list(I, m_ravel(I, a))
            if v is not None:
                rows = [tuple(v[i * m:(i + 1) * m]) for i in range(n)]
                o = sorted(set(rows))
                res = [nc.reshape_to(I, lit_arr([x for r in o for x in r], a.kind), (T(len(o)), T(m)))]
                if return_index:
                    res.append(lit_arr([rows.index(x) for x in o], 'i'))
                if return_inverse:
                    res.append(lit_arr([o.index(x) for x in rows], 'i'))
                if return_counts:
                    res.append(lit_arr([rows.count(x) for x in o], 'i'))
                return res[0] if len(res) == 1 else tuple(res)
    raise Undecided('unique')


def const_list(I, a):
    """Constant entries of a 1-D constant-size array or None."""
    n = tm.as_int(a.shape[0])
    if n is None or n > 4000:
        return None
    out = []
    for i in range(n):
        c = tm.as_const(a.at((T(i),)))
        if c is None:
            return None
        out.append(c)
    return out


def lit_arr(v, kind):
    ts = [T(x) for x in v]
    return new_arr((T(len(ts)),), kind, lambda idx: pick(ts, idx[0]))


@reg('cumsum a axis=None dtype=None')
def f_cumsum(I, a, axis, dtype):
    a = to_arr(I, a)
    if axis is None:
        a = m_ravel(I, a)
        axis = 0
    ax = axis_arg(I, axis, a.ndim)
    g = a.snap()
    c = tm.as_int(a.shape[ax])

    def get(idx):
        def at(i):
            return g(tuple(i if d == ax else idx[d] for d in range(a.ndim)))
        k = tm.as_int(idx[ax])
        if k is not None and k <= 40:
            return tm.add_all([at(T(i)) for i in range(k + 1)])
        return sum_term(a.shape[ax], lambda i: tm.ind_ge(idx[ax] - i) * at(i))
    return new_arr(a.shape, kind_arg(dtype, ksum(a.kind)), get)


@reg('diff a n=1 axis=-1')
def f_diff(I, a, n, axis):
    a = to_arr(I, a)
    ax = axis_arg(I, axis, a.ndim)
    for _ in range(n):
        lo = [SliceV(None, None, None)] * a.ndim
        hi = list(lo)
        lo[ax], hi[ax] = SliceV(None, -1, None), SliceV(1, None, None)
        a = binop(I, 'Sub', arr_getitem(I, a, tuple(hi)), arr_getitem(I, a, tuple(lo)))
    return a


# ---------------------------------------------------------------- shape manipulation
def m_ravel(I, a, order='C'):
    if a.ndim == 1:
        return a
    return nc.reshape_to(I, a, (size_term(a.shape),), 'C' if order in ('C', 'K', 'A') else order)


@reg('reshape a newshape order=C')
def f_reshape(I, a, newshape, order):
    return reshape(I, to_arr(I, a), [newshape] if is_num(newshape) else I.iter_concrete(newshape), order)


@reg('ravel a order=C')
def f_ravel(I, a, order):
    return m_ravel(I, to_arr(I, a), order)


@reg('transpose a axes=None')
def f_transpose(I, a, axes):
    a = to_arr(I, a)
    return transpose(a, None if axes is None else [axis_arg(I, x, a.ndim) for x in I.iter_concrete(axes)])


@reg('swapaxes a axis1 axis2')
def f_swapaxes(I, a, axis1, axis2):
    a = to_arr(I, a)
    p = list(range(a.ndim))
    i, j = axis_arg(I, axis1, a.ndim), axis_arg(I, axis2, a.ndim)
    p[i], p[j] = p[j], p[i]
    return transpose(a, p)


@reg('moveaxis a source destination')
def f_moveaxis(I, a, source, destination):
    a = to_arr(I, a)
    s, d = axis_arg(I, source, a.ndim), axis_arg(I, destination, a.ndim)
    p = [k for k in range(a.ndim) if k != s]
    p.insert(d, s)
    return transpose(a, p)


@reg('squeeze a axis=None')
def f_squeeze(I, a, axis):
    a = to_arr(I, a)
    if axis is None:
        keep = [d for d in range(a.ndim) if not (is_one(a.shape[d]) or I.same_dim(a.shape[d], ONE))]
    else:
        ax = axis_arg(I, axis, a.ndim)
        ax = (ax,) if isinstance(ax, int) else ax
        for x in ax:
            if not I.same_dim(a.shape[x], ONE):
                rz('ValueError', 'cannot select an axis to squeeze out')
        keep = [d for d in range(a.ndim) if d not in ax]
    v = basic_view(I, a, [SliceV(None, None, None) if d in keep else 0 for d in range(a.ndim)])
    return v


@reg('expand_dims a axis')
def f_expand_dims(I, a, axis):
    a = to_arr(I, a)
    ax = axis_arg(I, axis, a.ndim + 1)
    ks = [SliceV(None, None, None)] * a.ndim
    ks.insert(ax, None)
    return basic_view(I, a, ks)


@reg('atleast_1d a')
def f_atleast_1d(I, a):
    a = to_arr(I, a)
    return nc.reshape_to(I, a, (ONE,)) if a.ndim == 0 else a


@reg('atleast_2d a')
def f_atleast_2d(I, a):
    a = to_arr(I, a)
    if a.ndim < 2:
        return nc.reshape_to(I, a, (ONE,) * (2 - a.ndim) + a.shape)
    return a


@reg('broadcast_to array shape')
def f_broadcast_to(I, array, shape):
    a = to_arr(I, array)
    sh = shape_arg(I, shape)
    g = nc.bcheck(I, a.snap(), a.shape, sh)
    r = new_arr(sh, a.kind, g)
    r.ro = True
    return r


@reg('broadcast_arrays *args')
def f_broadcast_arrays(I, args):
    xs = [to_arr(I, a) for a in args]
    sh = bshape(I, *[x.shape for x in xs])
    return ListV([new_arr(sh, x.kind, bget(I, x, sh)) for x in xs])


@reg('tile A reps')
def f_tile(I, A, reps):
    a = to_arr(I, A)
    rs = [term_of(x) for x in ([reps] if is_num(reps) else I.iter_concrete(reps))]
    n = max(a.ndim, len(rs))
    sh = (ONE,) * (n - a.ndim) + a.shape
    rs = [ONE] * (n - len(rs)) + rs
    g = a.snap()
    off = n - a.ndim
    out = tuple(s * r for s, r in zip(sh, rs))

    def get(idx):
        src = []
        for d in range(n):
            if is_one(sh[d]):
                src.append(ZERO)
            elif is_one(rs[d]):
                src.append(idx[d])
            else:
                src.append(tm.mod(idx[d], sh[d]))
        return g(tuple(src[off:]))
    return new_arr(out, a.kind, get)


@reg('repeat a repeats axis=None')
def f_repeat(I, a, repeats, axis):
    a = to_arr(I, a)
    if axis is None:
        a = m_ravel(I, a)
        axis = 0
    ax = axis_arg(I, axis, a.ndim)
    if not is_num(repeats):
        ra = to_arr(I, repeats)
        if tm.as_int(size_term(ra.shape)) != 1:
            v = const_list(I, m_ravel(I, ra)) if ra.ndim else None
            if v is None:
                raise Undecided('repeat')
            idx = [i for i, c in enumerate(v) for _ in range(int(c))]
            return arr_getitem(I, a, tuple([SliceV(None, None, None)] * ax + [lit_arr(idx, 'i')]))
        repeats = mk(ra.at([ZERO] * ra.ndim), ra.kind)
    r = term_of(repeats)
    g = a.snap()
    sh = tuple(s * r if d == ax else s for d, s in enumerate(a.shape))
    return new_arr(sh, a.kind, lambda idx: g(tuple((tm.floordiv(i, r) if not is_one(a.shape[d]) else ZERO) if d == ax else i for d, i in enumerate(idx))))


def join(I, arrs, ax, kind=None):
    arrs = [to_arr(I, a) for a in arrs]
    n = arrs[0].ndim
    if n == 0:
        rz('ValueError', 'zero-dimensional arrays cannot be concatenated')
    for a in arrs[1:]:
        if a.ndim != n:
            rz('ValueError', 'all the input array dimensions must match')
    ax = axis_arg(I, ax, n)
    for a in arrs[1:]:
        for d in range(n):
            if d != ax and not I.same_dim(a.shape[d], arrs[0].shape[d]):
                rz('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
    k = kind or kmax(*[a.kind for a in arrs])
    gs = [a.snap() for a in arrs]
    offs = [ZERO]
    for a in arrs:
        offs.append(offs[-1] + a.shape[ax])
    sh = tuple(offs[-1] if d == ax else arrs[0].shape[d] for d in range(n))

    def get(idx):
        i = idx[ax]
        c = tm.as_int(i)
        r = None
        for q in range(len(arrs) - 1, -1, -1):
            if arrs[q].shape[ax] is ZERO:
                continue
            if r is not None:
                cond = tm.ind_ge(offs[q + 1] - i - 1)
                if cond is ZERO:
                    continue
            loc = tuple((i - offs[q]) if d == ax else idx[d] for d in range(n))
            if r is None:
                if q > 0:
                    cond = tm.ind_ge(i - offs[q])
                    if cond is ZERO:
                        r = ZERO
                        continue
                r = gs[q](loc)
            elif cond is ONE:
                r = gs[q](loc)
            else:
                r = tm.case(cond, gs[q](loc), r)
        return ZERO if r is None else r
    return new_arr(sh, k, get)


def arr_seq(I, x):
    it = I.iterate(x)
    if isinstance(it, SymSeq):
        return it
    return it


@reg('concatenate arrays axis=0 dtype=None')
def f_concatenate(I, arrays, axis, dtype):
    it = arr_seq(I, arrays)
    if isinstance(it, SymSeq):
        a = from_symseq(I, it)
        if a.ndim < 2:
            rz('ValueError', 'zero-dimensional arrays cannot be concatenated')
        if axis is None or axis == 0:
            return nc.reshape_to(I, a, (a.shape[0] * a.shape[1],) + a.shape[2:])
        raise Undecided('symbolic concatenation')
    if not it:
        rz('ValueError', 'need at least one array to concatenate')
    if axis is None:
        it = [m_ravel(I, to_arr(I, x)) for x in it]
        axis = 0
    return join(I, it, axis, kind_arg(dtype))


@reg('vstack tup', None, 'row_stack')
def f_vstack(I, tup):
    it = arr_seq(I, tup)
    if isinstance(it, SymSeq):
        a = from_symseq(I, it)
        if a.ndim == 2:
            return a
        if a.ndim == 1:
            return nc.reshape_to(I, a, a.shape + (ONE,))
        return f_concatenate(I, tup, 0, None)
    return join(I, [f_atleast_2d(I, x) for x in it], 0)


@reg('hstack tup')
def f_hstack(I, tup):
    it = arr_seq(I, tup)
    if isinstance(it, SymSeq):
        a = from_symseq(I, it)
        if a.ndim == 2:
            return nc.reshape_to(I, a, (a.shape[0] * a.shape[1],))
        if a.ndim == 1:
            return a
        raise Undecided('hstack')
    xs = [f_atleast_1d(I, x) for x in it]
    return join(I, xs, 0 if xs[0].ndim == 1 else 1)


@reg('column_stack tup')
def f_column_stack(I, tup):
    it = arr_seq(I, tup)
    if isinstance(it, SymSeq):
        a = from_symseq(I, it)
        if a.ndim == 2:
            return transpose(a)
        raise Undecided('column_stack')
    xs = []
    for x in it:
        a = to_arr(I, x)
        xs.append(nc.reshape_to(I, a, a.shape + (ONE,)) if a.ndim == 1 else a)
    return join(I, xs, 1)


@reg('stack arrays axis=0')
def f_stack(I, arrays, axis):
    it = arr_seq(I, arrays)
    if isinstance(it, SymSeq):
        a = from_symseq(I, it)
    else:
        xs = [to_arr(I, x) for x in it]
        if any(x.ndim != xs[0].ndim for x in xs):
            rz('ValueError', 'all input arrays must have the same shape')
        a = to_arr(I, ListV(xs))
    ax = axis_arg(I, axis, a.ndim)
    if ax == 0:
        return a
    p = list(range(1, a.ndim))
    p.insert(ax, 0)
    return transpose(a, p)


F['dstack'] = Native(lambda I, a, k: _undec('dstack'), 'dstack')


@reg('block arrays')
def f_block(I, arrays):
    def depth(x):
        return 1 + max(depth(y) for y in I.iter_concrete(x)) if isinstance(x, ListV) else 0
    d = depth(arrays)

    def nd(x):
        return max(nd(y) for y in I.iter_concrete(x)) if isinstance(x, ListV) else to_arr(I, x).ndim
    n = max(d, nd(arrays))

    def rec(x, lev):
        if isinstance(x, ListV):
            return join(I, [rec(y, lev + 1) for y in I.iter_concrete(x)], n - d + lev)
        a = to_arr(I, x)
        return nc.reshape_to(I, a, (ONE,) * (n - a.ndim) + a.shape)
    return rec(arrays, 0)


@reg('append arr values axis=None')
def f_append(I, arr, values, axis):
    if axis is None:
        return join(I, [m_ravel(I, f_atleast_1d(I, arr)), m_ravel(I, f_atleast_1d(I, values))], 0)
    return join(I, [arr, values], axis)


@reg('insert arr obj values axis=None')
def f_insert(I, arr, obj, values, axis):
    raise Undecided('insert')


@reg('delete arr obj axis=None')
def f_delete(I, arr, obj, axis):
    a = to_arr(I, arr)
    if axis is None:
        a = m_ravel(I, a)
        axis = 0
    ax = axis_arg(I, axis, a.ndim)
    if not is_num(obj):
        raise Undecided('delete')
    k = norm_index(I, obj, a.shape[ax])
    pre = [SliceV(None, None, None)] * ax
    x = arr_getitem(I, a, tuple(pre + [SliceV(None, mk(k, 'i'), None)]))
    y = arr_getitem(I, a, tuple(pre + [SliceV(mk(k + 1, 'i'), None, None)]))
    return join(I, [x, y], ax)


@reg('split ary indices_or_sections axis=0', None, 'array_split')
def f_split(I, ary, indices_or_sections, axis):
    a = to_arr(I, ary)
    ax = axis_arg(I, axis, a.ndim)
    n = a.shape[ax]
    s = indices_or_sections
    pre = [SliceV(None, None, None)] * ax
    if is_num(s):
        c = tm.as_int(term_of(s))
        if c is None:
            raise Undecided('split')
        q = exact_div(n, T(c))
        if q is None:
            raise Undecided('split')
        pts = [q * i for i in range(c + 1)]
    else:
        pts = [ZERO] + [term_of(x) for x in I.iter_concrete(s)] + [n]
    return ListV([arr_getitem(I, a, tuple(pre + [SliceV(mk(p, 'i'), mk(q, 'i'), None)])) for p, q in zip(pts, pts[1:])])


F['hsplit'] = Native(lambda I, a, k: f_split(I, a[0], a[1], 1 if to_arr(I, a[0]).ndim > 1 else 0), 'hsplit')
F['vsplit'] = Native(lambda I, a, k: f_split(I, a[0], a[1], 0), 'vsplit')


@reg('flip m axis=None')
def f_flip(I, m, axis):
    a = to_arr(I, m)
    axs = range(a.ndim) if axis is None else [axis_arg(I, axis, a.ndim)] if not isinstance(axis, (tuple, ListV)) else axis_arg(I, axis, a.ndim)
    return basic_view(I, a, [SliceV(None, None, -1) if d in axs else SliceV(None, None, None) for d in range(a.ndim)])


@reg('flipud m')
def f_flipud(I, m):
    return f_flip(I, m, 0)


@reg('fliplr m')
def f_fliplr(I, m):
    a = to_arr(I, m)
    if a.ndim < 2:
        rz('ValueError', 'Input must be >= 2-d.')
    return f_flip(I, a, 1)


@reg('rot90 m k=1')
def f_rot90(I, m, k):
    a = to_arr(I, m)
    k = k % 4
    if k == 0:
        return a
    if k == 2:
        return f_flip(I, a, None)
    if k == 1:
        return f_flip(I, transpose(a), 0)
    return f_flip(I, transpose(a), 1)


@reg('roll a shift axis=None')
def f_roll(I, a, shift, axis):
    a = to_arr(I, a)
    if axis is None:
        if a.ndim > 1:
            raise Undecided('roll')
        axis = 0
    ax = axis_arg(I, axis, a.ndim)
    s, n, g = term_of(shift), a.shape[ax], a.snap()
    return new_arr(a.shape, a.kind, lambda idx: g(tuple(tm.mod(i - s, n) if d == ax else i for d, i in enumerate(idx))))


@reg('pad array pad_width mode=constant constant_values=0')
def f_pad(I, array, pad_width, mode, constant_values):
    a = to_arr(I, array)
    if mode not in ('constant', 'edge') or not is_num(constant_values):
        raise Undecided('pad mode')
    cv = term_of(constant_values)
    if is_num(pad_width):
        pw = [(term_of(pad_width),) * 2] * a.ndim
    else:
        pw = []
        items = I.iter_concrete(pad_width)
        if all(is_num(x) for x in items):
            p = [term_of(x) for x in items]
            pw = [(p[0], p[-1])] * a.ndim
        else:
            for x in items:
                p = [term_of(y) for y in I.iter_concrete(x)]
                pw.append((p[0], p[-1]))
            if len(pw) == 1:
                pw = pw * a.ndim
    if len(pw) != a.ndim:
        rz('ValueError', 'operands could not be broadcast together')
    sh = tuple(s + p + q for s, (p, q) in zip(a.shape, pw))
    g = a.snap()
    if mode == 'edge':
        def clamp(i, d):
            if pw[d][0] is ZERO and pw[d][1] is ZERO:
                return i
            j = i - pw[d][0]
            low = ONE if pw[d][0] is ZERO else tm.ind_ge(j)
            high = ONE if pw[d][1] is ZERO else tm.ind_ge(a.shape[d] - j - 1)
            return tm.case(low, tm.case(high, j, a.shape[d] - 1), ZERO)
        return new_arr(sh, a.kind, lambda idx: g(tuple(clamp(i, d) for d, i in enumerate(idx))))

    def get(idx):
        c = ONE
        src = []
        for d, i in enumerate(idx):
            j = i - pw[d][0]
            if not (pw[d][0] is ZERO and pw[d][1] is ZERO):
                c = c * tm.ind_ge(j) * tm.ind_ge(a.shape[d] - j - 1)
            src.append(j)
        if c is ZERO:
            return cv
        return tm.case(c, g(tuple(src)), cv)
    return new_arr(sh, a.kind, get)


@reg('take a indices axis=None mode=raise')
def f_take(I, a, indices, axis, mode):
    a = to_arr(I, a)
    if axis is None:
        a = m_ravel(I, a)
        axis = 0
    ax = axis_arg(I, axis, a.ndim)
    k = indices if is_num(indices) else to_arr(I, indices)
    r = arr_getitem(I, a, tuple([SliceV(None, None, None)] * ax + [k]))
    return copy_arr(r) if isinstance(r, Arr) else r


@reg('compress condition a axis=None')
def f_compress(I, condition, a, axis):
    a = to_arr(I, a)
    if axis is None:
        a = m_ravel(I, a)
        axis = 0
    return arr_getitem(I, a, tuple([SliceV(None, None, None)] * axis_arg(I, axis, a.ndim) + [to_arr(I, condition, 'b')]))


@reg('extract condition arr')
def f_extract(I, condition, arr):
    return arr_getitem(I, m_ravel(I, to_arr(I, arr)), m_ravel(I, to_arr(I, condition, 'b')))


@reg('delete_ a')
def _d(I, a):
    raise Undecided('delete')


@reg('take_along_axis arr indices axis')
def f_taa(I, arr, indices, axis):
    a, ix = to_arr(I, arr), to_arr(I, indices)
    ax = axis_arg(I, axis, a.ndim)
    g, h = a.snap(), ix.snap()
    return new_arr(ix.shape, a.kind, lambda idx: g(tuple(h(idx) if d == ax else i for d, i in enumerate(idx))))


@reg('fill_diagonal a val wrap=False')
def f_fill_diagonal(I, a, val, wrap):
    if not isinstance(a, Arr):
        raise Undecided('fill_diagonal')
    if a.ndim != 2:
        rz('ValueError', 'array must be at least 2-d')
    v = to_arr(I, val)
    n = tmin(I, a.shape[0], a.shape[1])
    if v.ndim == 0:
        t = v.at(())
        g0 = lambda i: t
    else:
        g1 = m_ravel(I, v).snap()
        ln = size_term(v.shape)
        g0 = lambda i: g1((i,)) if ln is n else g1((tm.mod(i, ln),))
    g = nc.store_cast(I, a.kind, v.kind, lambda idx: g0(idx[0]))
    nc.store_raw(I, a, g, lambda vi: tm.ind_eq(vi[0] - vi[1]))
    return None


@reg('copyto dst src casting=same_kind where=True')
def f_copyto(I, dst, src, casting, where):
    s = to_arr(I, src)
    if casting == 'same_kind' and not nc.castable(s.kind, dst.kind) and not is_num(src):
        rz('TypeError', 'Cannot cast array data')
    if where is True:
        nc.store_view(I, dst, s)
    else:
        w = to_arr(I, where)
        g = broadcast_to(I, s, dst.shape)
        wg = broadcast_to(I, w, dst.shape)
        nc.store_raw(I, dst, nc.store_cast(I, dst.kind, s.kind, g), lambda vi: wg(vi))
    return None


@reg('put a ind v')
def f_put(I, a, ind, v):
    arr_setitem(I, m_ravel(I, a), to_arr(I, ind) if not is_num(ind) else ind, v)


@reg('place arr mask vals')
def f_place(I, arr, mask, vals):
    v = m_ravel(I, to_arr(I, vals))
    if not is_one(v.shape[0]):
        raise Undecided('place')
    arr_setitem(I, arr, to_arr(I, mask, 'b'), mk(v.at((ZERO,)), v.kind))


@reg('putmask a mask values')
def f_putmask(I, a, mask, values):
    arr_setitem(I, a, to_arr(I, mask, 'b'), values)


@reg('unravel_index indices shape order=C')
def f_unravel_index(I, indices, shape, order):
    sh = shape_arg(I, shape)
    if is_num(indices):
        return tuple(mk(t, 'i', True) for t in nc.unflat(term_of(indices), sh, order))
    a = to_arr(I, indices)
    g = a.snap()
    return tuple(scalar_or_arr(a.shape, 'i', lambda idx, d=d: nc.unflat(g(idx), sh, order)[d]) for d in range(len(sh)))


@reg('ravel_multi_index multi_index dims mode=raise order=C')
def f_ravel_multi_index(I, multi_index, dims, mode, order):
    sh = shape_arg(I, dims)
    xs = I.iter_concrete(multi_index)
    if len(xs) != len(sh):
        rz('ValueError', 'parameter multi_index must be a sequence of length %d' % len(sh))
    if all(is_num(x) for x in xs):
        return mk(nc.flat_index([term_of(x) for x in xs], sh, order), 'i', True)
    arrs = [to_arr(I, x) for x in xs]
    bs = bshape(I, *[a.shape for a in arrs])
    gs = [bget(I, a, bs) for a in arrs]
    return new_arr(bs, 'i', lambda idx: nc.flat_index([g(idx) for g in gs], sh, order))


@reg('indices dimensions')
def f_indices(I, dimensions):
    sh = shape_arg(I, dimensions)
    return to_arr(I, ListV([new_arr(sh, 'i', lambda idx, d=d: idx[d]) for d in range(len(sh))]))


@reg('diag_indices n ndim=2')
def f_diag_indices(I, n, ndim):
    a = f_arange(I, n, None, None, None)
    return (a,) * ndim


def _tri_indices(name):
    def f(I, n, k):
        c = tm.as_int(term_of(n))
        if c is None:
            raise Undecided('triangle indices')
        pts = [(i, j) for i in range(c) for j in range(c) if (j >= i + k if name == 'triu' else j <= i + k)]
        return lit_arr([p[0] for p in pts], 'i'), lit_arr([p[1] for p in pts], 'i')
    reg('%s_indices n k=0' % name)(f)


_tri_indices('triu')
_tri_indices('tril')


# ---------------------------------------------------------------- predicates
@reg('isscalar element')
def f_isscalar(I, element):
    return is_num(element) or isinstance(element, str)


F['isscalar'] = Native(lambda I, a, k: Unk('isscalar') if isinstance(a[0], Unk) else (is_num(a[0]) or isinstance(a[0], str)), 'isscalar')


@reg('ndim a')
def f_ndim(I, a):
    return to_arr(I, a).ndim


@reg('shape a')
def f_shape(I, a):
    return shape_val(to_arr(I, a).shape)


@reg('size a axis=None')
def f_size(I, a, axis):
    a = to_arr(I, a)
    return mk(size_term(a.shape) if axis is None else a.shape[axis_arg(I, axis, a.ndim)], 'i')


@reg('iscomplexobj x')
def f_iscomplexobj(I, x):
    return elk(x if is_num(x) else to_arr(I, x)) == 'c'


@reg('isrealobj x')
def f_isrealobj(I, x):
    return elk(x if is_num(x) else to_arr(I, x)) != 'c'


@reg('iscomplex x')
def f_iscomplex(I, x):
    return map1(I, x, lambda t: tm.b_not(tm.ind_eq(tm.im(t))), lambda k: 'b')


@reg('isreal x')
def f_isreal(I, x):
    return map1(I, x, lambda t: tm.ind_eq(tm.im(t)), lambda k: 'b')


@reg('result_type *args')
def f_result_type(I, args):
    ks = []
    for a in args:
        k = nc.dtype_kind(a) if isinstance(a, (TypeV, str)) else None
        if k is None:
            k = elk(a if is_num(a) else to_arr(I, a))
        ks.append(k)
    return DT[kmax(*ks)]


F['promote_types'] = F['common_type'] = F['find_common_type'] = F['result_type']
F['dtype'] = Native(lambda I, a, k: DT[kind_arg(a[0])], 'dtype')


@reg('issubdtype arg1 arg2')
def f_issubdtype(I, arg1, arg2):
    k = kind_arg(arg1)
    if isinstance(arg2, TypeV):
        n = arg2.name
        if n in ('np.floating',):
            return k == 'f'
        if n == 'np.inexact':
            return k in 'fc'
        if n == 'np.complexfloating':
            return k == 'c'
        if n in ('np.integer', 'np.signedinteger'):
            return k == 'i'
        if n == 'np.number':
            return k in 'ifc'
        if n == 'np.generic':
            return True
    k2 = kind_arg(arg2)
    return k == k2


@reg('can_cast from_ to casting=safe')
def f_can_cast(I, from_, to, casting):
    a = nc.dtype_kind(from_) or elk(from_ if is_num(from_) else to_arr(I, from_))
    return ORDER.index(a) <= ORDER.index(kind_arg(to))


F['finfo'] = Native(lambda I, a, k: NS('finfo', {'eps': Sc(T(Fraction(1, 2 ** 52)), 'f'), 'max': 1.7976931348623157e+308, 'tiny': 2.2250738585072014e-308, 'resolution': 1e-15}), 'finfo')
F['iinfo'] = Native(lambda I, a, k: NS('iinfo', {'max': 2 ** 63 - 1, 'min': -2 ** 63}), 'iinfo')


def t_isclose(a, b, rtol, atol):
    if tm.as_const(a - b) == 0:
        return ONE
    return tm.ind_ge(atol + rtol * tm.abs_(b) - tm.abs_(a - b))


@reg('isclose a b rtol=1e-05 atol=1e-08')
def f_isclose(I, a, b, rtol, atol):
    r, t = term_of(rtol), term_of(atol)
    return map2(I, a, b, lambda x, y: t_isclose(x, y, r, t), kb2)


@reg('allclose a b rtol=1e-05 atol=1e-08')
def f_allclose(I, a, b, rtol, atol):
    return f_all(I, f_isclose(I, a, b, rtol, atol), None, False)


@reg('array_equal a1 a2')
def f_array_equal(I, a1, a2):
    x, y = to_arr(I, a1), to_arr(I, a2)
    if x.ndim != y.ndim:
        return False
    for p, q in zip(x.shape, y.shape):
        if not I.same_dim(p, q):
            return False
    return f_all(I, map2(I, x, y, lambda p, q: t_cmp('Eq', p, q), kb2), None, False)


def frozen(I, v):
    return copy_arr(to_arr(I, v))


def same_arrays(I, x, y):
    return f_array_equal(I, x, y)


@reg('may_share_memory a b', None, 'shares_memory')
def f_shares(I, a, b):
    return a.buf is b.buf


@reg('in1d ar1 ar2', None, 'isin')
def f_isin(I, ar1, ar2):
    b = m_ravel(I, to_arr(I, ar2))
    g = b.snap()
    n = b.shape[0]
    return map1(I, ar1, lambda t: b_any((n,), lambda idx: tm.ind_eq(t - g(idx))), lambda k: 'b')


# ---------------------------------------------------------------- products
@reg('dot a b')
def f_dot(I, a, b):
    if is_num(a) or is_num(b):
        return binop(I, 'Mult', a, b)
    x, y = to_arr(I, a), to_arr(I, b)
    if x.ndim == 0 or y.ndim == 0:
        return binop(I, 'Mult', x, y)
    if x.ndim > 2 or y.ndim > 2:
        raise Undecided('nd dot')
    return matmul(I, x, y)


@reg('vdot a b')
def f_vdot(I, a, b):
    x, y = m_ravel(I, f_atleast_1d(I, a)), m_ravel(I, f_atleast_1d(I, b))
    return matmul(I, map1(I, x, tm.conj, kid), y)


@reg('inner a b')
def f_inner(I, a, b):
    x, y = to_arr(I, a), to_arr(I, b)
    if x.ndim == 0 or y.ndim == 0:
        return binop(I, 'Mult', x, y)
    return matmul(I, x, transpose(y) if y.ndim > 1 else y)


@reg('outer a b')
def f_outer(I, a, b):
    x, y = m_ravel(I, f_atleast_1d(I, a)), m_ravel(I, f_atleast_1d(I, b))
    gx, gy = x.snap(), y.snap()
    return new_arr((x.shape[0], y.shape[0]), kmax(x.kind, y.kind), lambda idx: gx((idx[0],)) * gy((idx[1],)))


@reg('kron a b')
def f_kron(I, a, b):
    x, y = to_arr(I, a), to_arr(I, b)
    if x.ndim == 0 or y.ndim == 0:
        return binop(I, 'Mult', x, y)
    n = max(x.ndim, y.ndim)
    x = nc.reshape_to(I, x, (ONE,) * (n - x.ndim) + x.shape)
    y = nc.reshape_to(I, y, (ONE,) * (n - y.ndim) + y.shape)
    gx, gy = x.snap(), y.snap()

    def get(idx):
        p, q = [], []
        for d in range(n):
            if is_one(y.shape[d]):
                p.append(idx[d])
                q.append(ZERO)
            elif is_one(x.shape[d]):
                p.append(ZERO)
                q.append(idx[d])
            else:
                f = tm.floordiv(idx[d], y.shape[d])
                p.append(f)
                q.append(idx[d] - f * y.shape[d])
        return gx(tuple(p)) * gy(tuple(q))
    return new_arr(tuple(s * t for s, t in zip(x.shape, y.shape)), kmax(x.kind, y.kind), get)


@reg('trace a offset=0')
def f_trace(I, a, offset):
    a = to_arr(I, a)
    if a.ndim != 2:
        rz('ValueError', 'diag requires an array of at least two dimensions')
    return f_sum(I, diagonal(I, a, term_of(offset)), None, None, False)


@reg('tensordot a b axes=2')
def f_tensordot(I, a, b, axes):
    x, y = to_arr(I, a), to_arr(I, b)
    if is_num(axes):
        ax = list(range(x.ndim - axes, x.ndim))
        bx = list(range(axes))
    else:
        p, q = I.iter_concrete(axes)
        ax = [axis_arg(I, v, x.ndim) for v in ([p] if is_num(p) else I.iter_concrete(p))]
        bx = [axis_arg(I, v, y.ndim) for v in ([q] if is_num(q) else I.iter_concrete(q))]
    for i, j in zip(ax, bx):
        if not I.same_dim(x.shape[i], y.shape[j]):
            rz('ValueError', 'shape-mismatch for sum')
    ka = [d for d in range(x.ndim) if d not in ax]
    kb = [d for d in range(y.ndim) if d not in bx]
    gx, gy = x.snap(), y.snap()

    def get(idx):
        def inner(r):
            p, q = [None] * x.ndim, [None] * y.ndim
            for d, i in zip(ka, idx):
                p[d] = i
            for d, i in zip(kb, idx[len(ka):]):
                q[d] = i
            for i, (d, e) in zip(r, zip(ax, bx)):
                p[d] = i
                q[e] = i
            return gx(tuple(p)) * gy(tuple(q))
        return sum_shape([x.shape[d] for d in ax], inner)
    return scalar_or_arr(tuple(x.shape[d] for d in ka) + tuple(y.shape[d] for d in kb), kmax(x.kind, y.kind), get)


@reg('einsum subscripts *operands optimize=None')
def f_einsum_dummy(I, subscripts, operands, optimize):
    raise Undecided('einsum')


def f_einsum(I, args, kwargs):
    if 'out' in kwargs:
        return _out(I, f_einsum(I, args, {k: v for k, v in kwargs.items() if k != 'out'}), kwargs['out'])
    sub = args[0]
    if not isinstance(sub, str):
        raise Undecided('einsum')
    ops = [to_arr(I, x) for x in args[1:]]
    s = sub.replace(' ', '')
    if '.' in s:
        raise Undecided('einsum ellipsis')
    if '->' in s:
        ins, out = s.split('->')
    else:
        ins = s
        out = ''.join(c for c in sorted(set(ins.replace(',', ''))) if ins.count(c) == 1)
    ins = ins.split(',')
    if len(ins) != len(ops):
        rz('ValueError', 'einsum operands')
    size = {}
    for lab, a in zip(ins, ops):
        if len(lab) != a.ndim:
            rz('ValueError', 'einsum subscripts do not match')
        for c, d in zip(lab, a.shape):
            if c in size and not is_one(size[c]):
                if not is_one(d) and not I.same_dim(size[c], d):
                    rz('ValueError', 'einsum dimension mismatch')
            else:
                size[c] = d
    red = [c for c in size if c not in out]
    gs = [a.snap() for a in ops]


    if len(ops) == 1 and isinstance(args[1], Arr):
        # numpy returns a writable view
        if len(out) == len(ins[0]) == len(set(out)) and set(out) == set(ins[0]):
            return nc.transpose(ops[0], [ins[0].index(c) for c in out])
        if len(ins[0]) == 2 and ins[0] == out * 2:
            return diagonal(I, ops[0], ZERO, False)
    def get(idx):
        env = dict(zip(out, idx))

        def inner(r):
            e = dict(env)
            e.update(zip(red, r))
            p = ONE
            for lab, g, a in zip(ins, gs, ops):
                p = p * g(tuple(ZERO if is_one(a.shape[d]) else e[c] for d, c in enumerate(lab)))
            return p
        return sum_shape([size[c] for c in red], inner)
    return scalar_or_arr(tuple(size[c] for c in out), kmax(*[a.kind for a in ops]), get)


F['einsum'] = Native(f_einsum, 'einsum')


@reg('cross a b')
def f_cross(I, a, b):
    raise Undecided('cross')


@reg('roots p')
def f_roots(I, p):
    a = to_arr(I, p)
    if a.ndim != 1:
        rz('ValueError', 'Input must be a rank-1 array.')
    l = lam_of(a)
    n = a.shape[0] - 1
    return new_arr((n,), 'c', lambda idx: tm.fn('roots', (l, idx[0])))


F['vectorize'] = Native(lambda I, a, k: Unk('vectorize'), 'vectorize')
F['errstate'] = Native(lambda I, a, k: NS('errstate'), 'errstate')
F['seterr'] = Native(lambda I, a, k: DictV(), 'seterr')
F['set_printoptions'] = Native(lambda I, a, k: None, 'set_printoptions')


# ---------------------------------------------------------------- linalg
def square(I, a):
    a = to_arr(I, a)
    if a.ndim != 2:
        rz('LinAlgError', '%d-dimensional array given. Array must be at least two-dimensional' % a.ndim)
    if not I.same_dim(a.shape[0], a.shape[1]):
        rz('LinAlgError', 'Last 2 dimensions of the array must be square')
    return a


def inv_get(I, a):
    """Entry function of the inverse of square array a."""
    n = a.shape[0]
    g = a.snap()
    c = tm.as_int(n)
    if c == 1:
        return lambda idx: t_div(ONE, g((ZERO, ZERO)))
    # diagonal matrices
    x, y = tm.fresh_idx(n), tm.fresh_idx(n)
    body = g((tm.of_atom(x), tm.of_atom(y)))
    d = _diag_part(body, x, y)
    if d is not None:
        return lambda idx: tm.ind_eq(idx[0] - idx[1]) * t_div(ONE, tm.subst(d, {x: idx[0]}))
    l1 = tm.mk_lam([x, y], body)
    l2 = tm.mk_lam([x, y], tm.subst(body, {x: tm.of_atom(y), y: tm.of_atom(x)}))
    if l2.id < l1.id:
        return lambda idx: tm.fn('inv', (l2, idx[1], idx[0]), real=l2.body.real)
    return lambda idx: tm.fn('inv', (l1, idx[0], idx[1]), real=l1.body.real)


def _diag_part(body, x, y):
    """d(x) when body == [x==y] * d(x), else None."""
    if not body.p:
        return None
    e = tm.single_atom(tm.ind_eq(tm.of_atom(x) - tm.of_atom(y)))
    if e is None:
        return None
    out = ZERO
    for m, c in body.p:
        if m.binders:
            return None
        fs = dict(m.factors)
        if e not in fs:
            return None
        rest = tm.mk_term({tm.mk_mono(tuple((a, k) for a, k in m.factors if a is not e), ()): c})
        out = out + tm.subst(rest, {y: tm.of_atom(x)})
    return out


def mm(n, f, g):
    return lambda idx: sum_term(n, lambda k: f((idx[0], k)) * g((k,) + tuple(idx[1:])))


def f_inv(I, a):
    a = square(I, a)
    return new_arr(a.shape, kdiv(a.kind, 'f'), inv_get(I, a))


reg('inv a', LA)(f_inv)


def f_solve(I, a, b):
    a = square(I, a)
    b = to_arr(I, b)
    if b.ndim == 0 or b.ndim > 2:
        raise Undecided('solve')
    if not I.same_dim(b.shape[0], a.shape[0]):
        rz('ValueError', 'solve: mismatch in core dimension')
    iv = inv_get(I, a)
    g = b.snap()
    return new_arr(b.shape, kdiv(a.kind, b.kind), mm(a.shape[0], iv, g))


reg('solve a b', LA)(f_solve)


def pinv_arr(I, a):
    m, n = a.shape
    AH = map1(I, transpose(a), tm.conj, kid)
    if not isinstance(AH, Arr):
        raise Undecided('pinv')
    if I.same_dim(m, n):
        return new_arr((n, m), kdiv(a.kind, 'f'), inv_get(I, a))
    if I.decide(tm.ind_ge(m - n)):
        G = matmul(I, AH, a)
        return matmul(I, new_arr(G.shape, kdiv(a.kind, 'f'), inv_get(I, G)), AH)
    G = matmul(I, a, AH)
    return matmul(I, AH, new_arr(G.shape, kdiv(a.kind, 'f'), inv_get(I, G)))


def cutoff(I, x, rcond, shape):
    """x, an exact (pseudo-)inverse solution, as it comes out with singular values below rcond times the largest left out.

    Up to rounding level the cut-off belongs to the numerics; a larger one changes the value for every badly conditioned operand, which the
    marker factor stands for (a single row or column has one singular value, which is never left out)."""
    if rcond is None or any(d is tm.ONE or d == 1 for d in shape):
        return x
    c = tm.as_const(rcond.t) if isinstance(rcond, Sc) else rcond
    if not isinstance(c, (int, float, Fraction)) or isinstance(c, bool):
        raise Undecided('cut-off of singular values')
    if c <= 1e-12:
        return x
    return map1(I, x, lambda t: tm.scale(t, 1 + Fraction(1, 64)), kid)


reg('pinv a rcond=None hermitian=False', LA)(lambda I, a, rcond, hermitian: cutoff(I, pinv_arr(I, to_arr(I, a)), rcond, to_arr(I, a).shape))


def f_lstsq(I, a, b, rcond=None):
    a, b = to_arr(I, a), to_arr(I, b)
    if a.ndim != 2:
        rz('LinAlgError', 'array must be two-dimensional')
    if not I.same_dim(a.shape[0], b.shape[0]):
        rz('LinAlgError', 'Incompatible dimensions')
    x = cutoff(I, matmul(I, pinv_arr(I, a), b), rcond, a.shape)
    return (x, Unk('residuals'), Unk('rank'), Unk('singular values'))


reg('lstsq a b rcond=None', LA)(f_lstsq)


def eigval_get(l, n):
    return lambda idx: tm.fn('eigvalsh', (l, idx[0]), real=True)


def f_eigvalsh(I, a, UPLO='L'):
    a = square(I, a)
    l = lam_of(a)
    return new_arr((a.shape[0],), 'f', eigval_get(l, a.shape[0]))


reg('eigvalsh a UPLO=L', LA)(f_eigvalsh)


def f_eigh(I, a, UPLO='L'):
    a = square(I, a)
    l = lam_of(a)
    n = a.shape[0]
    return (new_arr((n,), 'f', eigval_get(l, n)),
            new_arr((n, n), a.kind if a.kind == 'c' else 'f', lambda idx: tm.fn('eigvec', (l, idx[0], idx[1]), real=l.body.real)))


reg('eigh a UPLO=L', LA)(f_eigh)


def f_eigvals(I, a):
    a = square(I, a)
    l = lam_of(a)
    return new_arr((a.shape[0],), 'c', lambda idx: tm.fn('eigvals', (l, idx[0])))


reg('eigvals a', LA)(f_eigvals)


def f_eig(I, a):
    a = square(I, a)
    l = lam_of(a)
    n = a.shape[0]
    return (new_arr((n,), 'c', lambda idx: tm.fn('eigvals', (l, idx[0]))), new_arr((n, n), 'c', lambda idx: tm.fn('eigvecs', (l, idx[0], idx[1]))))


reg('eig a', LA)(f_eig)


def f_svd(I, a, full_matrices=True, compute_uv=True, hermitian=False):
    a = to_arr(I, a)
    if a.ndim != 2:
        rz('LinAlgError', 'array must be two-dimensional')
    l = lam_of(a)
    m, n = a.shape
    k = tmin(I, m, n)
    rl = l.body.real
    s = new_arr((k,), 'f', lambda idx: tm.fn('svd_s', (l, idx[0]), real=True, nonneg=True))
    if compute_uv is False:
        return s
    if full_matrices is False:
        us, vs = (m, k), (k, n)
    else:
        us, vs = (m, m), (n, n)
    return (new_arr(us, a.kind, lambda idx: tm.fn('svd_u', (l, idx[0], idx[1]), real=rl)), s,
            new_arr(vs, a.kind, lambda idx: tm.fn('svd_vh', (l, idx[0], idx[1]), real=rl)))


reg('svd a full_matrices=True compute_uv=True hermitian=False', LA)(f_svd)


def _mat_fn(name, real=None):
    def f(I, a):
        a = square(I, a)
        l = lam_of(a)
        return tm.fn(name, (l,), real=l.body.real if real is None else real), a
    return f


def f_slogdet(I, a):
    z = square(I, a)
    if (tm.as_int(z.shape[0]) or 0) > 0 and lam_of(z).body is ZERO:
        return (0, float('-inf'))
    s, x = _mat_fn('detsign')(I, a)
    d, _ = _mat_fn('logabsdet', True)(I, a)
    return (mk(s, x.kind if x.kind == 'c' else 'f', True), mk(d, 'f', True))


reg('slogdet a', LA)(f_slogdet)


def f_det(I, a):
    s, x = _mat_fn('det')(I, a)
    if tm.as_int(x.shape[0]) == 1:
        s = x.at((ZERO, ZERO))
    return mk(s, kdiv(x.kind, 'f'), True)


reg('det a', LA)(f_det)


def f_cholesky(I, a):
    a = square(I, a)
    l = lam_of(a)
    return new_arr(a.shape, kdiv(a.kind, 'f'), lambda idx: tm.ind_ge(idx[0] - idx[1]) * tm.fn('cholesky', (l, idx[0], idx[1]), real=l.body.real))


reg('cholesky a', LA)(f_cholesky)


def f_matrix_rank(I, a):
    raise Undecided('matrix_rank')


reg('matrix_rank a', LA)(f_matrix_rank)


def f_cond(I, a):
    a = to_arr(I, a)
    return mk(tm.fn('cond', (lam_of(a),), real=True, nonneg=True), 'f', True)


reg('cond a', LA)(f_cond)


def f_matrix_power(I, a, n):
    if not isinstance(n, int) or n < 1 or n > 8:
        raise Undecided('matrix_power')
    r = a
    for _ in range(n - 1):
        r = matmul(I, r, a)
    return r


reg('matrix_power a n', LA)(f_matrix_power)


def f_multi_dot(I, arrays):
    it = I.iter_concrete(arrays)
    r = it[0]
    for x in it[1:]:
        r = f_dot(I, r, x)
    return r


reg('multi_dot arrays', LA)(f_multi_dot)


def f_norm(I, x, ord=None, axis=None, keepdims=False):
    a = to_arr(I, x)
    if isinstance(ord, Sc):
        c = tm.as_const(ord.t)
        if c is None:
            raise Undecided('norm order')
        ord = float(c)
    nax = a.ndim if axis is None else (1 if isinstance(axis, int) else 2)

    def l2(rs, g):
        return t_sqrt(sum_shape(rs, lambda idx: tm.abs2(g(idx))))
    if ord is None and axis is None:
        return reduce_(I, a, None, l2, 'f', keepdims)
    if ord == 'fro' and nax == 2:
        return reduce_(I, a, axis, l2, 'f', keepdims)
    if nax == 1:
        if ord is None or ord == 2:
            return reduce_(I, a, axis, l2, 'f', keepdims)
        if ord == 1:
            return reduce_(I, a, axis, lambda rs, g: sum_shape(rs, lambda idx: tm.abs_(g(idx))), 'f', keepdims)
        if ord == float('inf'):
            return reduce_(I, a, axis, lambda rs, g: _ext('max')(rs, lambda idx: tm.abs_(g(idx))), 'f', keepdims)
        if ord == float('-inf'):
            return reduce_(I, a, axis, lambda rs, g: _ext('min')(rs, lambda idx: tm.abs_(g(idx))), 'f', keepdims)
        if ord == 0:
            return reduce_(I, a, axis, lambda rs, g: sum_shape(rs, lambda idx: t_bool(g(idx))), 'f', keepdims)
        if isinstance(ord, (int, float)):
            p = Fraction(str(ord))
            return reduce_(I, a, axis, lambda rs, g: tm.power(sum_shape(rs, lambda idx: tm.power(tm.abs_(g(idx)), p)), 1 / p), 'f', keepdims)
        rz('ValueError', 'Invalid norm order')
    if isinstance(ord, str) and ord not in ('fro', 'nuc'):
        rz('ValueError', 'Invalid norm order')
    return reduce_(I, a, axis, lambda rs, g: tm.fn('matnorm_%s' % ord, (lam_get(rs, g),), real=True, nonneg=True), 'f', keepdims)


reg('norm x ord=None axis=None keepdims=False', LA)(f_norm)


# ---------------------------------------------------------------- random
def rng_draw(I, name, shape, mkterm, kind='f'):
    I.rng += 1
    n = I.rng
    I.event('rng', name)
    sh = None if shape is None else shape_arg(I, shape)
    if name in I.pins:
        v = term_of(I.pins[name])
        return mk(v, kind, True) if sh is None else new_arr(sh, kind, lambda idx: v)
    lx = tuple(I.loop_idx)
    if sh is None:
        return mk(mkterm(n, lx), kind, True)
    return new_arr(sh, kind, lambda idx: mkterm(n, lx + tuple(idx)))


def draw_el(name, **kw):
    return lambda n, idx: tm.el(('rng', name, n), idx, **{'real': True, **kw})


def r_randn(I, a, k):
    return rng_draw(I, 'normal', tuple(a) if a else None, draw_el('normal'))


def r_rand(I, a, k):
    return rng_draw(I, 'uniform01', tuple(a) if a else None, draw_el('u01', bounds=(ZERO, ONE), nonneg=True))


def r_normal(I, a, k):
    b = bind(['loc=0', 'scale=1', 'size=None'], a, k, 'normal')
    u = rng_draw(I, 'normal', b['size'], draw_el('normal'))
    return binop(I, 'Add', binop(I, 'Mult', u, b['scale']), b['loc'])


def r_uniform(I, a, k):
    b = bind(['low=0', 'high=1', 'size=None'], a, k, 'uniform')
    u = rng_draw(I, 'uniform01', b['size'], draw_el('u01', bounds=(ZERO, ONE), nonneg=True))
    return binop(I, 'Add', binop(I, 'Mult', u, binop(I, 'Sub', b['high'], b['low'])), b['low'])


def r_size(I, a, k):
    b = bind(['size=None'], a, k, 'standard_normal')
    return rng_draw(I, 'normal', b['size'], draw_el('normal'))


def r_random(I, a, k):
    b = bind(['size=None'], a, k, 'random')
    return rng_draw(I, 'uniform01', b['size'], draw_el('u01', bounds=(ZERO, ONE), nonneg=True))


def r_opaque(name, kind='f'):
    def f(I, a, k):
        I.event('rng', name)
        I.rng += 1
        return Unk('random.' + name)
    return f


def r_randint(I, a, k):
    b = bind(['low', 'high=None', 'size=None', 'dtype=None'], a, k, 'randint')
    lo, hi = (0, b['low']) if b['high'] is None else (b['low'], b['high'])
    l, h = term_of(lo), term_of(hi)
    return rng_draw(I, 'randint', b['size'], draw_el('randint', isint=True, bounds=(l, h - 1)), 'i')


def r_seed(I, a, k):
    I.event('rngseed', 'seed')
    return None


RND = {}
for _n, _f in (('randn', r_randn), ('rand', r_rand), ('normal', r_normal), ('uniform', r_uniform), ('standard_normal', r_size), ('random', r_random),
               ('random_sample', r_random), ('randint', r_randint), ('integers', r_randint), ('seed', r_seed), ('set_state', r_seed)):
    RND[_n] = Native(_f, 'random.' + _n)


def _mkrnd(I, v, name):
    return Native(r_opaque(name), 'random.' + str(name))


def new_generator(I, a, k):
    I.event('rngnew', 'generator')
    return NS('Generator', dict(RND), getter=lambda I, v, name: _mkrnd(I, v, name))


RND['default_rng'] = Native(new_generator, 'default_rng')
RND['RandomState'] = Native(new_generator, 'RandomState')
RANDOM = NS('numpy.random', RND, getter=lambda I, v, name: _mkrnd(I, v, name))
F['random'] = RANDOM


# ---------------------------------------------------------------- array methods
def meth(f, name):
    return Native(f, name)


def args1(name, spec, f):
    parts = spec.split()

    def mk_(I, a):
        def call(I, args, kwargs):
            b = bind(parts, args, kwargs, name)
            for v in b.values():
                if isinstance(v, Unk):
                    raise Undecided(name)
            return f(I, a, **b)
        return Native(call, name)
    METHODS[name] = mk_


METHODS = {}


def via(name, npname=None):
    fn = F[npname or name]

    def mk_(I, a):
        return Native(lambda I, args, kwargs: I.call(fn, [a] + list(args), kwargs), name)
    METHODS[name] = mk_


for _n in 'sum prod mean var std any all max min argmax argmin argsort argpartition cumsum repeat squeeze swapaxes clip round trace dot take ptp compress diagonal nonzero'.split():
    via(_n)


def m_reshape(I, a):
    def call(I, args, kwargs):
        order = kwargs.get('order', 'C')
        if 'shape' in kwargs:
            args = [kwargs['shape']]
        if any(k not in ('order', 'shape', 'copy') for k in kwargs):
            rz('TypeError', 'reshape')
        if len(args) == 1 and not is_num(args[0]):
            if isinstance(args[0], Unk):
                raise Undecided('reshape')
            args = I.iter_concrete(args[0])
        return reshape(I, a, list(args), order)
    return Native(call, 'reshape')


METHODS['reshape'] = m_reshape


def m_flatten(I, a, order):
    r = m_ravel(I, a, order)
    return copy_arr(r)


args1('flatten', 'order=C', m_flatten)
args1('ravel', 'order=C', lambda I, a, order: m_ravel(I, a, order))
args1('copy', 'order=C', lambda I, a, order: copy_arr(a))
args1('conj', '', lambda I, a: map1(I, a, tm.conj, kid) if a.kind == 'c' else a)
METHODS['conjugate'] = METHODS['conj']


def m_astype(I, a, dtype, order, casting, subok, copy):
    k = kind_arg(dtype)
    if copy is False and k == a.kind:
        return a
    return copy_arr(a, k)


args1('astype', 'dtype order=K casting=unsafe subok=True copy=True', m_astype)


def m_sort(I, a, axis, kind, order):
    s = sort_like(I, a, axis, 'sort')
    nc.store_view(I, a, s)
    return None


args1('sort', 'axis=-1 kind=None order=None', m_sort)


def m_partition(I, a, kth, axis, kind, order):
    # any order with the kth element in place: the sorted one
    nc.store_view(I, a, sort_like(I, a, axis, 'sort'))
    return None


args1('partition', 'kth axis=-1 kind=None order=None', m_partition)
args1('put', 'indices values mode=raise', lambda I, a, indices, values, mode: f_put(I, a, indices, values))


def m_itemset(I, a):
    def call(I, args, kwargs):
        if len(args) == 2:
            k = args[0]
            if is_num(k):
                return arr_setitem(I, m_ravel(I, a), k, args[1])
            return arr_setitem(I, a, k, args[1])
        return arr_setitem(I, a, (), args[0])
    return Native(call, 'itemset')


METHODS['itemset'] = m_itemset


def m_fill(I, a, value):
    nc.store_view(I, a, to_arr(I, value), True)


args1('fill', 'value', m_fill)


def m_transpose(I, a):
    def call(I, args, kwargs):
        if len(args) == 1 and not is_num(args[0]):
            args = [] if args[0] is None else I.iter_concrete(args[0])
        return transpose(a, [axis_arg(I, x, a.ndim) for x in args] if args else None)
    return Native(call, 'transpose')


METHODS['transpose'] = m_transpose


def m_tolist(I, a):
    if a.ndim == 0:
        return mk(a.at(()), a.kind)
    n = tm.as_int(a.shape[0])
    if n is None:
        l = ListV([])
        if a.ndim == 1:
            g = a.snap()
            l.sym = SymSeq(a.shape[0], lambda i: mk(g((i,)), a.kind))
        else:
            b = copy_arr(a)
            l.sym = SymSeq(a.shape[0], lambda i: m_tolist(I, nc.index_first(I, b, i)))
        return l
    out = []
    for i in range(n):
        x = arr_getitem(I, a, i)
        out.append(m_tolist(I, x) if isinstance(x, Arr) else mk(term_of(x), kind_of(x)))
    return ListV(out)


args1('tolist', '', m_tolist)


def m_item(I, a):
    def call(I, args, kwargs):
        if not args:
            if not I.same_dim(size_term(a.shape), ONE):
                rz('ValueError', 'can only convert an array of size 1 to a Python scalar')
            return mk(a.at([ZERO] * a.ndim), a.kind)
        if len(args) == 1 and is_num(args[0]):
            v = arr_getitem(I, m_ravel(I, a), args[0])
        else:
            v = arr_getitem(I, a, tuple(args) if len(args) > 1 else args[0])
        return mk(term_of(v), kind_of(v))
    return Native(call, 'item')


METHODS['item'] = m_item
args1('view', 'dtype=None', lambda I, a, dtype: Arr(a.buf, a.shape, a.fwd, a.inv, a.contig, a.ro) if dtype is None or kind_arg(dtype) == a.kind else _undec('view'))


def m_setflags(I, a, write, align, uic):
    if write is False:
        a.ro = True
    elif write is True:
        a.ro = False


args1('setflags', 'write=None align=None uic=None', m_setflags)


class Flags:
    def __init__(self, a):
        self.a = a


def native_attr(I, v, name):
    if isinstance(v, Arr):
        if name == 'shape':
            return shape_val(v.shape)
        if name == 'ndim':
            return v.ndim
        if name == 'size':
            return mk(size_term(v.shape), 'i')
        if name == 'dtype':
            return DT[v.kind]
        if name == 'T':
            return transpose(v)
        if name == 'real':
            if v.kind != 'c':
                return Arr(v.buf, v.shape, v.fwd, v.inv, v.contig, v.ro)
            return part_view(map1(I, v, tm.re, kreal)) if v.ndim else mk(tm.re(v.at(())), 'f', True)
        if name == 'imag':
            return part_view(map1(I, v, tm.im, kreal)) if v.ndim else mk(tm.im(v.at(())), 'f', True)
        if name == 'flat':
            return m_ravel(I, Arr(v.buf, v.shape, v.fwd, v.inv, True, v.ro))
        if name == 'itemsize':
            return 16 if v.kind == 'c' else 8
        if name == 'nbytes':
            return mk(size_term(v.shape) * (16 if v.kind == 'c' else 8), 'i')
        if name == 'flags':
            return NS('flags', {'writeable': v.ro is not True and not v.buf.readonly, 'c_contiguous': v.contig, 'C_CONTIGUOUS': v.contig, 'owndata': v.contig})
        if name == 'base':
            return Unk('base')
        if name == '__class__':
            return NDARRAY
        m = METHODS.get(name)
        if m is not None:
            return m(I, v)
        if name in ('__len__',):
            return Native(lambda I, a, k: mk(v.shape[0], 'i'), 'len')
        if name in ('tobytes', 'tostring'):
            return Native(lambda I, a, k: BytesV(copy_arr(m_ravel(I, v))), name)
        if name in ('dump', 'resize', 'byteswap', 'choose', 'ctypes', 'data', 'strides'):
            raise Undecided('ndarray.' + name)
        return NotImplemented
    if is_num(v):
        k = kind_of(v)
        if name == 'real':
            return mk(tm.re(term_of(v)), kreal(k), isinstance(v, Sc) and v.np)
        if name == 'imag':
            return mk(tm.im(term_of(v)), kreal(k), isinstance(v, Sc) and v.np)
        if name in ('conjugate', 'conj'):
            if name == 'conj' and not isinstance(v, Sc):
                if not (isinstance(v, (int, bool)) or isinstance(v, float)):
                    return NotImplemented
            return Native(lambda I, a, kw: mk(tm.conj(term_of(v)), k, isinstance(v, Sc) and v.np), name)
        if isinstance(v, (bool, int)) and not isinstance(v, Sc) or isinstance(v, float) or (isinstance(v, Sc) and not v.np):
            if name in ('bit_length', 'is_integer', 'as_integer_ratio', 'hex', 'numerator', 'denominator'):
                if name == 'is_integer':
                    return Native(lambda I, a, kw: mk(tm.ind_eq(term_of(v) - t_floor(term_of(v))), 'b'), name)
                if name == 'numerator':
                    return v
                raise Undecided(name)
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name == 'dtype':
            return DT[k]
        if name == 'T':
            return v
        if name in ('item', 'copy', 'squeeze', 'round', 'flatten', 'ravel', 'sum', 'mean', 'max', 'min', 'astype', 'tolist', 'any', 'all', 'reshape', 'transpose'):
            if name in ('item', 'copy', 'squeeze', 'sum', 'mean', 'max', 'min', 'tolist', 'transpose'):
                return Native(lambda I, a, kw: v, name)
            if name == 'astype':
                return Native(lambda I, a, kw: mk(cast_t(term_of(v), k, kind_arg(a[0])), kind_arg(a[0]), True), name)
            if name in ('any', 'all'):
                return Native(lambda I, a, kw: mk(t_bool(term_of(v)), 'b', True), name)
            return METHODS[name](I, to_arr(I, v)) if name in METHODS else NotImplemented
        return NotImplemented
    from . import ext
    return ext.native_attr2(I, v, name)
