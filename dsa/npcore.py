"""Arrays: creation, views, indexing, broadcasting, arithmetic."""
from fractions import Fraction
from . import terms as tm
from .terms import T, Term, ONE, ZERO
from .values import *
from . import values as V

EXPAND = 8          # constant-size sums up to this length are written out


def rz(name, msg=''):
    from .interp import raise_
    raise_(name, msg)


# ---------------------------------------------------------------- basics
def new_arr(shape, kind, get):
    return Arr(Buf(shape, kind, memo_get(get)), shape)


def shape_val(shape):
    return tuple(mk(s, 'i') for s in shape)


def size_term(shape):
    n = ONE
    for s in shape:
        n = n * s
    return n


def is_one(s):
    return s is ONE


def arr_val(a, idx):
    return mk(a.at(idx), a.kind, True)


def scalar_or_arr(shape, kind, get):
    if shape:
        return new_arr(shape, kind, get)
    return mk(get(()), kind, True)


def copy_arr(a, kind=None):
    g = a.snap()
    k = kind or a.kind
    if k == 'i' and a.kind in 'fc':
        h = lambda idx: trunc(g(idx))
    elif k == 'b' and a.kind != 'b':
        h = lambda idx: tm.b_not(tm.ind_eq(g(idx)))
    elif k in 'fi' and a.kind == 'c':
        h = lambda idx: tm.re(g(idx))
    else:
        h = g
    return new_arr(a.shape, k, h)


def trunc(t):
    if t.isint:
        return t
    c = tm.as_const(t)
    if c is not None:
        return tm.const(int(c))
    return tm.fn('trunc', (t,), real=True, isint=True, nonneg=tm.is_nonneg(t))


def is_arrlike(v):
    return isinstance(v, (Arr, ListV, tuple, SymSeq, RangeV)) or is_num(v)


def to_arr(I, v, kind=None):
    """Array view of an array-like value (no copy of arrays); Unk passes."""
    if isinstance(v, Arr):
        return v if kind is None or kind == v.kind else copy_arr(v, kind)
    if isinstance(v, Unk):
        raise Undecided('array from unknown: ' + v.why)
    if is_num(v):
        t, k = term_of(v), kind_of(v)
        a = new_arr((), k, lambda idx: t)
        return a if kind is None or kind == k else copy_arr(a, kind)
    if isinstance(v, Obj):
        f, _ = v.cls.lookup('__array__')
        if f is not None:
            return to_arr(I, I.call(I.bind(f, v, v.cls), []), kind)
    if isinstance(v, (ListV, tuple, SymSeq, RangeV)) or isinstance(v, Obj):
        it = I.iterate(v)
        if isinstance(it, SymSeq):
            return from_symseq(I, it, kind)
        if not it:
            return new_arr((ZERO,), kind or 'f', lambda idx: ZERO)
        if all(is_num(x) for x in it):
            ts = [term_of(x) for x in it]
            k = kmax(*[kind_of(x) for x in it])
            a = new_arr((T(len(it)),), k, lambda idx: pick(ts, idx[0]))
        else:
            if any(isinstance(x, str) for x in it):
                raise Undecided('string array')
            if any(isinstance(x, (Unk,)) for x in it):
                raise Undecided('array from unknown entry')
            if any(not is_arrlike(x) for x in it):
                raise Undecided('object array')
            xs = [to_arr(I, x) for x in it]
            sh = xs[0].shape
            for x in xs[1:]:
                if len(x.shape) != len(sh):
                    rz('ValueError', 'inhomogeneous shape')
                for p, q in zip(sh, x.shape):
                    if not I.same_dim(p, q):
                        rz('ValueError', 'inhomogeneous shape')
            gs = [x.snap() for x in xs]
            k = kmax(*[x.kind for x in xs])
            a = new_arr((T(len(it)),) + tuple(sh), k, lambda idx: pick([g(idx[1:]) for g in gs], idx[0]) if tm.as_int(idx[0]) is None else gs[tm.as_int(idx[0])](idx[1:]))
        return a if kind is None or kind == a.kind else copy_arr(a, kind)
    raise Undecided('array from %r' % (v,))


def from_symseq(I, s, kind=None):
    x = tm.of_atom(tm.fresh_idx(s.n))
    v = s.get(x)
    if is_num(v):
        k = kind_of(v)
        a = new_arr((s.n,), k, lambda idx: term_of(s.get(idx[0])))
    elif isinstance(v, Arr):
        if any(tm.single_atom(x) in d.fv for d in v.shape):
            raise Undecided('ragged')
        a = new_arr((s.n,) + v.shape, v.kind, lambda idx: s.get(idx[0]).at(idx[1:]))
    else:
        raise Undecided('array from symbolic sequence')
    return a if kind is None or kind == a.kind else copy_arr(a, kind)


def pick(ts, i):
    """ts[i] for a term index."""
    c = tm.as_int(i)
    if c is not None:
        return ts[c] if 0 <= c < len(ts) else ZERO
    n = len(ts)
    if n > 40:
        if all(tm.as_const(t) is not None for t in ts):
            pass
        else:
            raise Undecided('large literal at symbolic index')
    first = ts[0]
    if all(t is first for t in ts):
        return first
    # affine sequences stay affine
    if n > 2:
        d = ts[1] - ts[0]
        if all((ts[k + 1] - ts[k]) is d for k in range(1, n - 1)):
            return ts[0] + d * i
    elif n == 2:
        return ts[0] + (ts[1] - ts[0]) * i if False else tm.case(tm.ind_eq(i), ts[0], ts[1])
    if n > 6 and all(tm.as_const(t) is not None for t in ts):
        return tm.table(ts, i)
    r = ts[-1]
    for k in range(n - 2, -1, -1):
        if ts[k] is not r:
            r = tm.case(tm.ind_eq(i - k), ts[k], r)
    return r


def sum_term(size, f):
    """Sum of f(i) for i < size (f maps a Term index to a Term)."""
    c = tm.as_int(size)
    if c is not None and c <= EXPAND:
        return tm.add_all([f(T(i)) for i in range(max(0, c))])
    x = tm.fresh_idx(size)
    return tm.sum_over(f(tm.of_atom(x)), x)


def sum_shape(shape, f):
    def rec(k, idx):
        if k == len(shape):
            return f(tuple(idx))
        return sum_term(shape[k], lambda i: rec(k + 1, idx + [i]))
    return rec(0, [])


def lam_of(a):
    """Lam for the current contents of an array."""
    xs = [tm.fresh_idx(s) for s in a.shape]
    return tm.mk_lam(xs, a.at([tm.of_atom(x) for x in xs]))


def lam_get(shape, get):
    xs = [tm.fresh_idx(s) for s in shape]
    return tm.mk_lam(xs, get(tuple(tm.of_atom(x) for x in xs)))


# ---------------------------------------------------------------- broadcasting
def bshape(I, *shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        r = ONE
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            r = bdim(I, r, s[k])
        out.append(r)
    return tuple(out)


def bdim(I, a, b):
    if a is b or is_one(b):
        return a
    if is_one(a):
        return b
    e = tm.decide_eq(a - b)
    if e is True:
        return a
    if e is None and I.same_dim(a, b):
        return a if tm.as_const(a) is not None else b
    if I.same_dim(a, ONE):
        return b
    if I.same_dim(b, ONE):
        return a
    rz('ValueError', 'operands could not be broadcast together')


def bget(I, a, shape):
    """Entry function of array a broadcast to shape."""
    g = a.snap()
    return bget_s(g, a.shape, shape)


def bget_s(g, sh, shape):
    off = len(shape) - len(sh)
    ones = [is_one(s) or (s is not shape[off + k] and tm.decide_eq(s - 1) is True) for k, s in enumerate(sh)]

    def get(idx):
        return g(tuple(ZERO if o else idx[off + k] for k, o in enumerate(ones)))
    return get


def broadcast_to(I, a, shape):
    """get function after checking that a broadcasts to exactly shape."""
    if len(a.shape) > len(shape):
        # leading ones may be dropped on assignment
        extra = len(a.shape) - len(shape)
        for s in a.shape[:extra]:
            if not I.same_dim(s, ONE):
                rz('ValueError', 'could not broadcast')
        g0 = a.snap()
        return bcheck(I, lambda idx: g0((ZERO,) * extra + tuple(idx)), a.shape[extra:], shape)
    return bcheck(I, a.snap(), a.shape, shape)


def bcheck(I, g, sh, shape):
    off = len(shape) - len(sh)
    ones = []
    for k, s in enumerate(sh):
        d = shape[off + k]
        if s is d:
            ones.append(False)
        elif is_one(s):
            ones.append(True)
        elif I.same_dim(s, d):
            ones.append(False)
        elif I.same_dim(s, ONE):
            ones.append(True)
        else:
            rz('ValueError', 'could not broadcast input array')
    return lambda idx: g(tuple(ZERO if o else idx[off + k] for k, o in enumerate(ones)))


# ---------------------------------------------------------------- elementwise
def as_operand(I, v):
    if isinstance(v, Arr):
        return v
    return to_arr(I, v)


def map1(I, v, f, kind):
    """Elementwise unary function; kind: kind->kind."""
    if isinstance(v, Unk):
        return v
    if is_num(v):
        k = kind(kind_of(v))
        return mk(f(term_of(v)), k, True)
    a = to_arr(I, v)
    g = a.snap()
    return scalar_or_arr(a.shape, kind(a.kind), lambda idx: f(g(idx)))


def map2(I, a, b, f, kind):
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    if is_num(a) and is_num(b):
        return mk(f(term_of(a), term_of(b)), kind(kind_of(a), kind_of(b)), True)
    x, y = as_operand(I, a), as_operand(I, b)
    sh = bshape(I, x.shape, y.shape)
    gx, gy = bget(I, x, sh), bget(I, y, sh)
    return scalar_or_arr(sh, kind(x.kind, y.kind), lambda idx: f(gx(idx), gy(idx)))


def t_div(a, b):
    if not b.p:
        if not a.p:
            return tm.of_atom(tm.atom('fn', ('nan',), real=True))
        c = tm.as_const(a)
        if c is not None:
            return tm.INF if c > 0 else -tm.INF
        return tm.fn('div0', (a,), real=a.real)
    r = inf_div(a, b)
    if r is not None:
        return r
    return tm.mul(a, tm.power(b, -1))


def inf_div(a, b):
    if any(x.kind == 'inf' for m, _ in b.p for x, e in m.factors):
        if not any(x.kind == 'inf' for m, _ in a.p for x, e in m.factors) and len(b.p) == 1:
            return ZERO
    return None


def t_pow(a, b):
    c = tm.as_const(b)
    if c is not None:
        if not (c.denominator == 1 and abs(c) > 12 and len(a.p) > 1):
            return tm.power(a, c)
    ca = tm.as_const(a)
    if ca == 1:
        return ONE
    if b.isint and not a.tainted and tm.is_nonneg(b) and ca is not None and False:
        pass
    return tm.fn('pow', (a, b), real=a.real and b.real and (tm.is_nonneg(a) or b.isint), nonneg=a.real and tm.is_nonneg(a))


def t_floordiv(a, b):
    if a.isint and b.isint:
        return tm.floordiv(a, b)
    ca, cb = tm.as_const(a), tm.as_const(b)
    if ca is not None and cb:
        import math
        return tm.const(math.floor(ca / cb))
    return t_floor(t_div(a, b))


def t_floor(t):
    if t.isint:
        return t
    c = tm.as_const(t)
    if c is not None:
        import math
        return tm.const(math.floor(c))
    return tm.fn('floor', (t,), real=True, isint=True, nonneg=tm.is_nonneg(t))


def t_ceil(t):
    if t.isint:
        return t
    c = tm.as_const(t)
    if c is not None:
        import math
        return tm.const(math.ceil(c))
    return tm.fn('ceil', (t,), real=True, isint=True, nonneg=tm.is_nonneg(t))


def t_mod(a, b):
    if a.isint and b.isint:
        return tm.mod(a, b)
    ca, cb = tm.as_const(a), tm.as_const(b)
    if ca is not None and cb:
        return tm.const(ca % cb)
    return a - b * t_floor(t_div(a, b))


def t_bool(t):
    """0/1 term of a value used as boolean"""
    a = tm.single_atom(t)
    if a is not None and a.kind == 'ind':
        return t
    c = tm.as_const(t)
    if c is not None:
        return ONE if c else ZERO
    return tm.b_not(tm.ind_eq(t))


def is01(v):
    return kind_of(v) == 'b' if is_num(v) else v.kind == 'b'


def kdiv(a, b):
    return kmax(a, b, 'f')


def kadd(a, b):
    k = kmax(a, b)
    return k


def kint(a, b):
    k = kmax(a, b)
    return 'i' if k == 'b' else k


def t_sub(a, b):
    return tm.add(a, tm.neg(b))


OPS = {
    'Add': (tm.add, kadd), 'Sub': (t_sub, kint), 'Mult': (tm.mul, kadd),
    'Div': (t_div, kdiv), 'Pow': (t_pow, kint), 'FloorDiv': (t_floordiv, kint),
    'Mod': (t_mod, kint),
    'BitAnd': (tm.b_and, kadd), 'BitOr': (tm.b_or, kadd),
    'BitXor': (lambda a, b: a + b - 2 * a * b, kadd),
}


def inf_mul(a, b):
    return tm.mul(a, b)


def binop(I, op, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk('operand: %s' % (a.why if isinstance(a, Unk) else b.why))
    h = getattr(a, 'np_binop', None) or getattr(b, 'np_binop', None)
    if h is not None:
        return h(I, op, a, b)
    na, nb = is_num(a), is_num(b)
    if na and nb:
        return scalar_binop(I, op, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, (str, DictV, type(None))) or isinstance(b, (str, DictV, type(None))):
            rz('TypeError', 'unsupported operand')
        if not (is_arrlike(a) and is_arrlike(b)):
            if isinstance(a, (NS, Native)) or isinstance(b, (NS, Native)):
                return Unk('operator on native')
            rz('TypeError', 'unsupported operand')
        if op == 'MatMult':
            return matmul(I, a, b)
        if op not in OPS:
            raise Undecided('operator ' + op)
        f, k = OPS[op]
        if op.startswith('Bit') and not (elk(a) == 'b' and elk(b) == 'b'):
            if 'f' in (elk(a), elk(b)) or 'c' in (elk(a), elk(b)):
                rz('TypeError', 'ufunc not supported for the input types')
            raise Undecided('bit operation on integers')
        if op == 'Sub' and elk(a) == 'b' and elk(b) == 'b':
            rz('TypeError', 'numpy boolean subtract')
        if op == 'Pow' and elk(a) in 'ib' and elk(b) in 'ib':
            c = tm.as_const(term_of(b)) if nb else None
            if c is not None and c < 0:
                rz('ValueError', 'Integers to negative integer powers are not allowed.')
        if op == 'Add' and elk(a) == 'b' and elk(b) == 'b':
            f = tm.b_or
        return map2(I, a, b, f, k)
    # sequences and strings
    if op == 'Add':
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, ListV) and isinstance(b, ListV):
            if a.sym or b.sym:
                return seq_concat(I, a, b)
            return ListV(a.items + b.items)
        if isinstance(a, (ListV, SymSeq)) and isinstance(b, (ListV, SymSeq)):
            return seq_concat(I, a, b)
    if op == 'Mult':
        if isinstance(b, (str, tuple, ListV)) and na:
            a, b, na, nb = b, a, nb, na
        if isinstance(a, (str, tuple, ListV)) and nb:
            if kind_of(b) not in 'ib':
                rz('TypeError', "can't multiply sequence by non-int")
            if isinstance(b, Sc):
                if isinstance(a, ListV) and len(a.items) == 1 and not a.sym:
                    x = a.items[0]
                    l = ListV([])
                    l.sym = SymSeq(b.t, lambda i: x)
                    return l
                if isinstance(a, ListV) and not a.sym:
                    items = list(a.items)
                    m = len(items)
                    l = ListV([])
                    l.sym = SymSeq(b.t * m, lambda i: seq_pick(I, items, tm.mod(i, T(m))))
                    return l
                raise Undecided('symbolic repetition')
            if isinstance(a, ListV):
                if a.sym:
                    raise Undecided('repeat symbolic')
                return ListV(a.items * b)
            return a * b
    if op == 'Mod' and isinstance(a, str):
        return str_mod(I, a, b)
    if isinstance(a, SetV) and isinstance(b, SetV):
        r = {'BitAnd': a.s & b.s, 'BitOr': a.s | b.s, 'Sub': a.s - b.s}.get(op)
        if r is not None:
            return SetV(r)
    if isinstance(a, DictV) and isinstance(b, DictV) and op == 'BitOr':
        d = DictV(a.d)
        d.d.update(b.d)
        return d
    if isinstance(a, (NS, Native)) or isinstance(b, (NS, Native)):
        return Unk('operator on native')
    rz('TypeError', 'unsupported operand type(s) for %s' % op)


def elk(v):
    return kind_of(v) if is_num(v) else (v.kind if isinstance(v, Arr) else 'f')


def seq_pick(I, items, i):
    c = tm.as_int(i)
    if c is not None:
        return items[c]
    if all(is_num(x) for x in items):
        return mk(pick([term_of(x) for x in items], i), kmax(*[kind_of(x) for x in items]))
    if all(isinstance(x, tuple) and len(x) == len(items[0]) for x in items):
        return tuple(seq_pick(I, [x[k] for x in items], i) for k in range(len(items[0])))
    if all(x is items[0] for x in items):
        return items[0]
    raise Undecided('symbolic pick')


def seq_concat(I, a, b):
    x, y = I.iterate(a), I.iterate(b)

    def n(z):
        return z.n if isinstance(z, SymSeq) else T(len(z))

    def g(z, i):
        return z.get(i) if isinstance(z, SymSeq) else seq_pick(I, z, i)
    nx = n(x)
    l = ListV([])

    def get(i):
        d = tm.decide_ge(i - nx)
        if d is True:
            return g(y, i - nx)
        if d is False:
            return g(x, i)
        u, w = g(x, i), g(y, i - nx)
        if is_num(u) and is_num(w):
            return mk(tm.case(tm.ind_ge(i - nx), term_of(w), term_of(u)), kmax(kind_of(u), kind_of(w)))
        raise Undecided('symbolic concat')
    l.sym = SymSeq(nx + n(y), get)
    return l


def str_mod(I, a, b):
    args = b if isinstance(b, tuple) else (b,)
    out = []
    for x in args:
        if isinstance(x, (int, float, str, complex)) and not isinstance(x, Sc):
            out.append(x)
        else:
            out.append(PStr(I, x))
    try:
        return a % tuple(out)
    except TypeError:
        import re
        return inexact(re.sub(r'%[-+ 0-9.]*[a-zA-Z]', '%s', a) % tuple(out))
    except ValueError as e:
        rz('ValueError', str(e))


class PStr:
    """Formats any abstract value with a deterministic placeholder."""
    def __init__(self, I, v):
        self.I, self.v = I, v

    def __str__(self):
        return to_str(self.I, self.v)

    def __format__(self, spec):
        s = to_str(self.I, self.v)
        return inexact(s) if spec else s
    __repr__ = __str__

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return PStr(self.I, self.I.getattr(self.v, n))

    def __getitem__(self, k):
        return PStr(self.I, self.I.getitem(self.v, k))


# symbolic numbers in strings: the exact ones, ⟦id:term⟧; other formatted values are ⟪...⟫
MARKS = {}


def inexact(s):
    return s.replace('⟦', '⟪').replace('⟧', '⟫')


def to_str(I, v):
    if isinstance(v, str):
        return str(v)
    if v is None or isinstance(v, (bool, int, float, complex)):
        return str(v)
    if isinstance(v, Sc):
        c = tm.as_const(v.t)
        if c is not None:
            return str(int(c)) if v.kind in 'ib' else str(float(c))
        if v.kind == 'b':
            return '⟪%s⟫' % tm.show(v.t)
        MARKS[v.t.id] = v.t
        return '⟦%d:%s⟧' % (v.t.id, tm.show(v.t))
    if isinstance(v, tuple):
        return '(' + ', '.join(to_repr(I, x) for x in v) + (',)' if len(v) == 1 else ')')
    if isinstance(v, ListV) and not v.sym:
        return '[' + ', '.join(to_repr(I, x) for x in v.items) + ']'
    if isinstance(v, Arr):
        return '⟪array⟫'
    if isinstance(v, Obj):
        f, _ = v.cls.lookup('__str__')
        if f is None:
            f, _ = v.cls.lookup('__repr__')
        if f is not None:
            r = I.call(I.bind(f, v, v.cls), [])
            return r if isinstance(r, str) else '<str>'
        if 'args' in v.attrs:
            a = v.attrs['args']
            return to_str(I, a[0]) if len(a) == 1 else to_str(I, a)
        return '<%s object>' % v.cls.name
    if isinstance(v, ClassV):
        return "<class '%s'>" % v.name
    return '⟪%s⟫' % type(v).__name__


def to_repr(I, v):
    return repr(str(v)) if isinstance(v, str) else to_str(I, v)


def fmt(I, x, spec, conv):
    if conv == ord('r'):
        s = to_repr(I, x)
        return format(s, spec) if spec else s
    if isinstance(x, (int, float, complex, str)) and not isinstance(x, Sc):
        try:
            return format(x, spec)
        except ValueError as e:
            rz('ValueError', str(e))
    if isinstance(x, Sc):
        c = tm.as_const(x.t)
        if c is not None and x.kind in 'if':
            try:
                return format(int(c) if x.kind == 'i' else float(c), spec)
            except ValueError as e:
                rz('ValueError', str(e))
    s = to_str(I, x)
    return inexact(s) if spec else s


def scalar_binop(I, op, a, b):
    ka, kb = kind_of(a), kind_of(b)
    npf = (isinstance(a, Sc) and a.np) or (isinstance(b, Sc) and b.np)
    ta, tb = term_of(a), term_of(b)
    if op == 'MatMult':
        rz('TypeError', 'unsupported operand type(s) for @')
    if op in ('Div', 'FloorDiv', 'Mod') and not npf and tm.as_const(tb) == 0:
        rz('ZeroDivisionError', 'division by zero')
    if op.startswith('Bit'):
        if ka == 'b' and kb == 'b':
            return mk(OPS[op][0](ta, tb), 'b', npf)
        ca, cb = tm.as_int(ta), tm.as_int(tb)
        if ca is not None and cb is not None:
            return {'BitAnd': ca & cb, 'BitOr': ca | cb, 'BitXor': ca ^ cb}[op]
        raise Undecided('bit operation')
    if op in ('LShift', 'RShift'):
        ca, cb = tm.as_int(ta), tm.as_int(tb)
        if cb is not None:
            if op == 'LShift':
                return mk(ta * (1 << cb), 'i')
            return mk(tm.floordiv(ta, T(1 << cb)), 'i')
        raise Undecided('shift')
    f, k = OPS[op]
    kk = k(ka, kb)
    if kk == 'b':
        kk = 'i'
    if op == 'Pow':
        c = tm.as_const(tb)
        if kk == 'i' and c is not None and c < 0:
            if npf:
                rz('ValueError', 'Integers to negative integer powers are not allowed.')
            kk = 'f'
        if tm.as_const(ta) == 0 and c is not None and c < 0:
            if not npf:
                rz('ZeroDivisionError', '0 to a negative power')
        if kk == 'f' and c is not None and c.denominator != 1:
            ca = tm.as_const(ta)
            if ca is not None and ca < 0 and not npf:
                kk = 'c'
        # repeated multiplication for integer powers of scalars
    return mk(f(ta, tb), kk, npf)


def matmul(I, a, b):
    if is_num(a) or is_num(b):
        rz('ValueError', 'matmul: input operand does not have enough dimensions')
    x, y = to_arr(I, a), to_arr(I, b)
    if x.ndim == 0 or y.ndim == 0:
        rz('ValueError', 'matmul: input operand does not have enough dimensions')
    kx = x.shape[-1]
    ky = y.shape[0] if y.ndim == 1 else y.shape[-2]
    if not I.same_dim(kx, ky):
        rz('ValueError', 'matmul: Input operand 1 has a mismatch in its core dimension 0')
    kind = kmax(x.kind, y.kind)
    gx, gy = x.snap(), y.snap()
    n = kx if tm.as_const(kx) is not None else ky
    bx, by = x.shape[:-2] if x.ndim > 1 else (), y.shape[:-2] if y.ndim > 1 else ()
    bs = bshape(I, bx, by) if (bx or by) else ()
    nb = len(bs)
    if nb:
        px = bget_s(lambda i: i, bx, bs)
        py = bget_s(lambda i: i, by, bs)
    rows = (x.shape[-2],) if x.ndim > 1 else ()
    cols = (y.shape[-1],) if y.ndim > 1 else ()

    def get(idx):
        bi = idx[:nb]
        r = idx[nb:nb + len(rows)]
        c = idx[nb + len(rows):]
        xi = tuple(px(bi)) if nb else ()
        yi = tuple(py(bi)) if nb else ()
        return sum_term(n, lambda k: tm.mul(gx(xi + r + (k,)), gy(yi + (k,) + c)))
    return scalar_or_arr(bs + rows + cols, kind, get)


def unop(I, op, v):
    if isinstance(v, Unk):
        return v
    h = getattr(v, 'np_unop', None)
    if h is not None:
        return h(I, op)
    if isinstance(v, (NS,)):
        return Unk('unary on native')
    if op == 'USub':
        if is_num(v):
            k = kind_of(v)
            return mk(-term_of(v), 'i' if k == 'b' else k, isinstance(v, Sc) and v.np)
        if isinstance(v, Arr):
            if v.kind == 'b':
                rz('TypeError', 'The numpy boolean negative is not supported')
            return map1(I, v, tm.neg, lambda k: k)
        if isinstance(v, Obj):
            c, _ = v.cls.lookup('__neg__')
            if c is not None:
                return I.call(I.bind(c, v, v.cls), [])
    if op == 'UAdd':
        if is_num(v):
            return v
        if isinstance(v, Arr):
            return copy_arr(v)
    if op == 'Invert':
        if isinstance(v, Arr) and v.kind == 'b':
            return map1(I, v, tm.b_not, lambda k: k)
        if isinstance(v, Sc) and v.kind == 'b':
            return mk(tm.b_not(v.t), 'b', v.np)
        if is_num(v) and kind_of(v) in 'ib':
            return mk(-term_of(v) - 1, 'i')
        if isinstance(v, Arr) and v.kind == 'i':
            return map1(I, v, lambda t: -t - 1, lambda k: k)
        if isinstance(v, Arr):
            rz('TypeError', 'ufunc invert not supported')
    rz('TypeError', 'bad operand type for unary')


def c_lt(a, b):   # a < b
    return tm.b_not(tm.ind_ge(a - b))


CMP = {
    'Lt': c_lt, 'LtE': lambda a, b: tm.ind_ge(b - a),
    'Gt': lambda a, b: c_lt(b, a), 'GtE': lambda a, b: tm.ind_ge(a - b),
    'Eq': lambda a, b: tm.ind_eq(a - b), 'NotEq': lambda a, b: tm.b_not(tm.ind_eq(a - b)),
}


def t_cmp(op, a, b, cplx=False):
    if op in ('Eq', 'NotEq') and not (a.real and b.real):
        d = a - b
        r = tm.ind_eq(d)
        if r is ONE or r is ZERO:
            pass
        return r if op == 'Eq' else tm.b_not(r)
    if cplx and not (a.real and b.real):
        # NumPy orders complex values lexicographically
        ar, br, ai, bi = tm.re(a), tm.re(b), tm.im(a), tm.im(b)
        e = tm.ind_eq(ar - br)
        return e * CMP[op](ai, bi) + tm.b_not(e) * CMP[{'LtE': 'Lt', 'GtE': 'Gt'}.get(op, op)](ar, br)
    return CMP[op](a, b)


def compare(I, op, a, b):
    for v, w in ((a, b), (b, a)):
        h = getattr(v, 'np_compare', None)
        if h is not None:
            return h(I, op, a, b)
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk('comparison: ' + (a.why if isinstance(a, Unk) else b.why))
    if is_num(a) and is_num(b):
        npf = (isinstance(a, Sc) and a.np) or (isinstance(b, Sc) and b.np)
        if op not in ('Eq', 'NotEq') and 'c' in (kind_of(a), kind_of(b)) and not npf:
            rz('TypeError', "'<' not supported between instances of 'complex'")
        return mk(t_cmp(op, term_of(a), term_of(b), 'c' in (kind_of(a), kind_of(b))), 'b', npf)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if op in ('Eq', 'NotEq'):
                x = a if isinstance(a, Arr) else b
                return new_arr(x.shape, 'b', lambda idx: ONE if op == 'NotEq' else ZERO)
            rz('TypeError', 'comparison not supported')
        if not is_arrlike(a) or not is_arrlike(b):
            return Unk('array comparison')
        cplx = any(x.kind == 'c' if isinstance(x, Arr) else is_num(x) and kind_of(x) == 'c' for x in (a, b))
        return map2(I, a, b, lambda x, y: t_cmp(op, x, y, cplx), lambda p, q: 'b')
    if op in ('Eq', 'NotEq'):
        r = eq_val(I, a, b)
        if isinstance(r, Unk):
            return r
        if op == 'Eq':
            return r
        if isinstance(r, bool):
            return not r
        return mk(tm.b_not(r.t), 'b')
    # ordering
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)):
        return seq_order(I, op, I.iter_concrete(a), I.iter_concrete(b))
    if isinstance(a, Obj) or isinstance(b, Obj):
        n = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        if isinstance(a, Obj):
            c, _ = a.cls.lookup(n)
            if c is not None:
                return I.call(I.bind(c, a, a.cls), [b])
    if isinstance(a, NS) or isinstance(b, NS):
        return Unk('native comparison')
    rz('TypeError', "ordering not supported between instances of '%s' and '%s'" % (type_name(a), type_name(b)))


def seq_order(I, op, a, b):
    for x, y in zip(a, b):
        if not I.truth(compare(I, 'Eq', x, y)):
            return compare(I, op, x, y)
    n, m = len(a), len(b)
    return {'Lt': n < m, 'LtE': n <= m, 'Gt': n > m, 'GtE': n >= m}[op]


def eq_val(I, a, b):
    if a is b:
        return True
    if isinstance(a, Obj):
        c, _ = a.cls.lookup('__eq__')
        if c is not None:
            return I.call(I.bind(c, a, a.cls), [b])
    if isinstance(a, (TypeV,)) or isinstance(b, (TypeV,)):
        ka, kb = dtype_kind(a), dtype_kind(b)
        if ka and kb:
            return ka == kb
        return False
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)
    if a is None or b is None:
        return False
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, ListV) and isinstance(b, ListV):
        x, y = I.iterate(a), I.iterate(b)
        if isinstance(x, SymSeq) or isinstance(y, SymSeq):
            return Unk('symbolic sequence equality')
        if len(x) != len(y):
            return False
        acc = ONE
        for p, q in zip(x, y):
            r = compare(I, 'Eq', p, q)
            if isinstance(r, Unk):
                return r
            if isinstance(r, Arr):
                r = I.truth(r)
            if r is False:
                return False
            if isinstance(r, Sc):
                acc = acc * r.t
        return mk(acc, 'b')
    if isinstance(a, DictV) and isinstance(b, DictV):
        if a.unknown or b.unknown:
            return Unk('havocked dict')
        if set(a.d) != set(b.d):
            return False
        acc = ONE
        for k in a.d:
            r = compare(I, 'Eq', a.d[k][1], b.d[k][1])
            if isinstance(r, Unk):
                return r
            acc = acc * T(r) if isinstance(r, bool) else acc * r.t
        return mk(acc, 'b')
    if isinstance(a, SetV) and isinstance(b, SetV):
        return a.s == b.s
    return False


# ---------------------------------------------------------------- in-place
def store_cast(I, buf_kind, k, g, scalar=False):
    """Entry function converting values of kind k for a buffer of buf_kind."""
    if buf_kind == k:
        return g
    if buf_kind == 'c':
        return g
    if buf_kind == 'f':
        if k == 'c':
            if scalar:
                rz('TypeError', "can't convert complex to float")
            return lambda idx: tm.re(g(idx))
        return g
    if buf_kind == 'i':
        if k == 'b':
            return g
        if k == 'c' and scalar:
            rz('TypeError', "can't convert complex to int")
        return lambda idx: trunc(tm.re(g(idx)))
    if buf_kind == 'b':
        return lambda idx: t_bool(g(idx))
    return g


def inplace(I, op, a, v):
    if isinstance(v, Unk):
        raise Undecided('in-place with unknown: ' + v.why)
    if op == 'MatMult':
        r = matmul(I, a, v)
        rk = r.kind
    else:
        if op not in OPS:
            raise Undecided('in-place ' + op)
        if not is_arrlike(v):
            rz('TypeError', 'unsupported operand')
        f, k = OPS[op]
        if op.startswith('Bit') and not (a.kind == 'b' and elk(to_arr(I, v)) == 'b'):
            raise Undecided('in-place bit operation')
        if op == 'Add' and a.kind == 'b' and elk(to_arr(I, v)) == 'b':
            f = tm.b_or
        r = map2(I, a, v, f, k)
        rk = r.kind if isinstance(r, Arr) else kind_of(r)
    if not castable(rk, a.kind):
        rz('UFuncTypeError', "Cannot cast ufunc output from dtype %s to %s with casting rule 'same_kind'" % (rk, a.kind))
    if isinstance(r, Arr):
        if len(r.shape) != len(a.shape):
            rz('ValueError', 'non-broadcastable output operand')
        for p, q in zip(r.shape, a.shape):
            if not I.same_dim(p, q):
                rz('ValueError', 'non-broadcastable output operand')
    store_view(I, a, to_arr(I, r))
    return a


def castable(k, into):
    return ORDER.index(k) <= ORDER.index(into) or (k == into)


def store_view(I, a, v, scalar=False):
    """a[...] = v with v already an array."""
    g = broadcast_to(I, v, a.shape)
    g = store_cast(I, a.kind, v.kind, g, scalar)
    store_raw(I, a, g)


def store_raw(I, a, g, cond=None):
    """Write entry function g through view a (where cond(view idx) holds)."""
    buf = a.buf
    old = buf.get
    inv = a.inv
    if a.ro:
        if a.ro == 'part':
            raise Undecided('store through a real-part view')
        rz('ValueError', 'assignment destination is read-only')
    if inv is None:
        raise Undecided('store through a non-invertible view')
    if inv is V._ident_inv and cond is None:
        I.set_buf(buf, memo_get(g))
        return

    def get(x):
        c, vi = inv(tuple(x))
        if c is ZERO:
            return old(x)
        vi = tuple(vi)
        if cond is not None:
            c = c * cond(vi)
        if c is ZERO:
            return old(x)
        if c is ONE:
            return g(vi)
        return tm.case(c, g(vi), old(x))
    I.set_buf(buf, memo_get(get))


# ---------------------------------------------------------------- views
def transpose(a, axes=None):
    n = a.ndim
    axes = tuple(range(n))[::-1] if axes is None else axes
    f, inv = a.fwd, a.inv
    back = [axes.index(k) for k in range(n)]
    sh = tuple(a.shape[k] for k in axes)

    def fwd(v):
        return f(tuple(v[back[k]] for k in range(n)))

    def inv2(x):
        c, v = inv(x)
        return c, tuple(v[k] for k in axes)
    nontriv = [k for k in axes if not is_one(a.shape[k])]
    return Arr(a.buf, sh, fwd, None if inv is None else inv2, a.contig and nontriv == sorted(nontriv), a.ro)


def flat_index(idx, shape, order='C'):
    r = ZERO
    rng = range(len(shape)) if order == 'C' else range(len(shape) - 1, -1, -1)
    for k in rng:
        r = r * shape[k] + idx[k]
    return r


def unflat(flat, shape, order='C'):
    n = len(shape)
    out = [None] * n
    rng = list(range(n - 1, -1, -1)) if order == 'C' else list(range(n))
    nz = [k for k in rng if not is_one(shape[k])]
    for k in rng:
        if is_one(shape[k]):
            out[k] = ZERO
    if not nz:
        return tuple(out)
    r = flat
    for k in nz[:-1]:
        q = tm.floordiv(r, shape[k])
        out[k] = r - q * shape[k]
        r = q
    out[nz[-1]] = r
    return tuple(out)


def resolve_shape(I, a_size, shape):
    sh = []
    neg = None
    for k, s in enumerate(shape):
        if not is_num(s):
            if isinstance(s, Unk):
                raise Undecided('shape')
            rz('TypeError', 'an integer is required')
        if kind_of(s) not in 'ib':
            rz('TypeError', "'float' object cannot be interpreted as an integer")
        t = term_of(s)
        c = tm.as_int(t)
        if c == -1:
            if neg is not None:
                rz('ValueError', 'can only specify one unknown dimension')
            neg = k
            sh.append(None)
        else:
            sh.append(t)
    rest = ONE
    for s in sh:
        if s is not None:
            rest = rest * s
    if neg is not None:
        if tm.as_const(rest) == 0:
            rz('ValueError', 'cannot reshape')
        q = exact_div(a_size, rest)
        if q is None:
            q = tm.floordiv(a_size, rest)
            if not I.decide(tm.ind_eq(a_size - q * rest)):
                rz('ValueError', 'cannot reshape array')
        sh[neg] = q
    else:
        if not I.same_dim(rest, a_size):
            rz('ValueError', 'cannot reshape array')
    return tuple(sh)


def exact_div(a, b):
    if b is ONE:
        return a
    if not a.p:
        return ZERO
    if len(b.p) == 1:
        q = tm.mul(a, tm.power(b, -1))
        if q.isint:
            return q
        return None
    # multi-term divisor: try a few quotients
    q = tm.mul(a, tm.power(b, -1))
    if q.isint:
        return q
    # polynomial quotient guess: a = b * m with m a monomial of a / lead of b
    for m, c in a.p:
        for m2, c2 in b.p:
            cand = tm.mul(tm.mk_term({m: c}), tm.power(tm.mk_term({m2: c2}), -1))
            if cand.isint and tm.mul(cand, b) is a:
                return cand
    return None


def reshape(I, a, shape, order='C'):
    shape = resolve_shape(I, size_term(a.shape), shape)
    return reshape_to(I, a, shape, order)


def reshape_to(I, a, shape, order='C'):
    old = a.shape
    nt = [k for k, s in enumerate(old) if not is_one(s)]
    nn = [k for k, s in enumerate(shape) if not is_one(s)]
    simple = len(nt) == len(nn) and all(old[p] is shape[q] for p, q in zip(nt, nn))
    if simple:
        m1 = dict(zip(nt, nn))
        m2 = dict(zip(nn, nt))

        def to_old(v):
            return tuple(v[m1[k]] if k in m1 else ZERO for k in range(len(old)))

        def to_new(v):
            return tuple(v[m2[k]] if k in m2 else ZERO for k in range(len(shape)))
    else:
        def to_old(v):
            return unflat(flat_index(v, shape, order), old, order)

        def to_new(v):
            return unflat(flat_index(v, old, order), shape, order)
    if (a.contig and order == 'C') or simple or (order == 'F' and len(nt) <= 1 and a.contig):
        f, inv = a.fwd, a.inv

        def inv2(x):
            c, v = inv(x)
            return c, to_new(v)
        return Arr(a.buf, shape, lambda v: f(to_old(v)), None if inv is None else inv2, a.contig, a.ro)
    g = a.snap()
    return new_arr(shape, a.kind, lambda v: g(to_old(v)))


# ---------------------------------------------------------------- indexing
def norm_index(I, k, n, check=True):
    """Non-negative Term for integer index k into a dimension of size n."""
    if isinstance(k, Sc) and k.kind == 'f' or isinstance(k, float):
        rz('IndexError', 'only integers, slices are valid indices')
    t = term_of(k)
    if tm.prove_ge(t):
        pass
    elif tm.prove_ge(-t - 1):
        t = t + n
    elif not I.decide(tm.ind_ge(t)):
        t = t + n
    if check:
        if not tm.prove_ge(t) and not I.decide(tm.ind_ge(t)):
            rz('IndexError', 'index out of bounds')
        if not tm.prove_ge(n - t - 1) and not I.decide(tm.ind_ge(n - t - 1)):
            rz('IndexError', 'index out of bounds')
    return t


def norm_slice(I, s, n):
    """(start, length, step) terms/ints."""
    if s.c is None:
        step = 1
    else:
        if isinstance(s.c, Unk):
            raise Undecided('slice step')
        step = tm.as_int(term_of(s.c))
        if step is None:
            raise Undecided('symbolic step')
        if step == 0:
            rz('ValueError', 'slice step cannot be zero')

    def bound(x, lo, hi):
        # clamp into [lo, hi] after negative wrap
        if isinstance(x, Unk):
            raise Undecided('slice bound: ' + x.why)
        if isinstance(x, float) or (isinstance(x, Sc) and x.kind in 'fc'):
            rz('TypeError', 'slice indices must be integers')
        if isinstance(x, Arr):
            if x.kind != 'i' or size_term(x.shape) is not ONE:
                rz('TypeError', 'slice indices must be integers')
            t = x.at([ZERO] * x.ndim)
        else:
            t = term_of(x)
        if not tm.prove_ge(t):
            if tm.prove_ge(-t - 1) or not I.decide(tm.ind_ge(t)):
                t = t + n
        if not tm.prove_ge(t - lo) and not I.decide(tm.ind_ge(t - lo)):
            return lo
        if not tm.prove_ge(hi - t) and not I.decide(tm.ind_ge(hi - t)):
            return hi
        return t
    if step > 0:
        a = ZERO if s.a is None else bound(s.a, ZERO, n)
        b = n if s.b is None else bound(s.b, ZERO, n)
        d = b - a
        ln = d if step == 1 else tm.floordiv(d + (step - 1), T(step))
        if not tm.prove_ge(d) and not I.decide(tm.ind_ge(d)):
            ln = ZERO
    else:
        a = n - 1 if s.a is None else bound(s.a, T(-1), n - 1)
        b = T(-1) if s.b is None else bound(s.b, T(-1), n - 1)
        d = a - b
        ln = d if step == -1 else tm.floordiv(d + (-step - 1), T(-step))
        if not tm.prove_ge(d) and not I.decide(tm.ind_ge(d)):
            ln = ZERO
    return a, ln, step


def is_intkey(k):
    return is_num(k) and not isinstance(k, bool) and not (isinstance(k, Sc) and k.kind == 'b')


def split_key(I, a, k):
    """List of per-axis keys."""
    ks = list(k) if isinstance(k, tuple) else [k]
    nd = 0
    for x in ks:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, Arr) and x.kind == 'b':
            nd += x.ndim
        else:
            nd += 1
    if nd > a.ndim:
        rz('IndexError', 'too many indices for array')
    out = []
    seen = False
    for x in ks:
        if x is Ellipsis:
            if seen:
                rz('IndexError', 'an index can only have a single ellipsis')
            seen = True
            out.extend([SliceV(None, None, None)] * (a.ndim - nd))
        else:
            out.append(x)
    if not seen:
        out.extend([SliceV(None, None, None)] * (a.ndim - nd))
    return out


def key_arr(I, x):
    """Index arrays given as lists/tuples/ranges."""
    if isinstance(x, (ListV, SymSeq, RangeV, tuple)):
        y = to_arr(I, x)
        if y.ndim == 1 and y.shape[0] is ZERO:
            y = copy_arr(y, 'i')
        return y
    return x


def basic_view(I, a, ks):
    """View for keys that are ints, slices or newaxis."""
    plan = []      # per source axis: ('int', t) | ('sl', start, step, outdim)
    shape = []
    contig = a.contig
    ax = 0
    first_partial = False
    for x in ks:
        if x is None:
            shape.append(ONE)
            continue
        n = a.shape[ax]
        if isinstance(x, SliceV):
            if x.a is None and x.b is None and x.c is None:
                plan.append(('sl', ZERO, 1, len(shape), n))
                shape.append(n)
            else:
                s, ln, st = norm_slice(I, x, n)
                plan.append(('sl', s, st, len(shape), ln))
                shape.append(ln)
                if not (s is ZERO and st == 1 and ln is n):
                    # contiguous only for the leading axis with all prior axes ints/ones
                    if st != 1 or any(not is_one(q) for q in shape[:-1]):
                        contig = False
        else:
            t = norm_index(I, x, n)
            plan.append(('int', t))
            if any(not is_one(q) for q in shape) and not is_one(n):
                contig = False
        ax += 1
    f, inv = a.fwd, a.inv
    nshape = len(shape)

    def fwd(v):
        src = []
        for p in plan:
            if p[0] == 'int':
                src.append(p[1])
            else:
                _, s, st, d, ln = p
                i = v[d]
                src.append(s + i if st == 1 else s + i * st)
        return f(tuple(src))

    if inv is None:
        inv2 = None
    else:
        def inv2(x):
            c, src = inv(x)
            if c is ZERO:
                return c, ()
            out = [ZERO] * nshape
            for p, y in zip(plan, src):
                if c is ZERO:
                    return ZERO, ()
                if p[0] == 'int':
                    c = c * tm.ind_eq(y - p[1])
                else:
                    _, s, st, d, ln = p
                    if st == 1:
                        i = y - s
                        if not (s is ZERO and ln is None):
                            c = c * tm.ind_ge(i) * tm.ind_ge(ln - i - 1)
                    elif st == -1:
                        i = s - y
                        c = c * tm.ind_ge(i) * tm.ind_ge(ln - i - 1)
                    else:
                        d0 = (y - s) if st > 0 else (s - y)
                        q = tm.floordiv(d0, T(abs(st)))
                        c = c * tm.ind_eq(d0 - q * abs(st)) * tm.ind_ge(q) * tm.ind_ge(ln - q - 1)
                        i = q
                    out[d] = i
            return c, tuple(out)
    return Arr(a.buf, tuple(shape), fwd, inv2, contig, a.ro)


def arr_getitem(I, a, k):
    if isinstance(k, Unk):
        return Unk('index ' + k.why)
    if isinstance(k, tuple) and any(isinstance(x, Unk) for x in k):
        return Unk('index')
    if isinstance(k, str) or isinstance(k, float):
        rz('IndexError', 'only integers, slices... are valid indices')
    if isinstance(k, bool) or isinstance(k, Sc) and k.kind == 'b':
        raise Undecided('boolean scalar index')
    if isinstance(k, ListV) or isinstance(k, SymSeq):
        k = key_arr(I, k)
    ks = [key_arr(I, x) if isinstance(x, (ListV, tuple, SymSeq, RangeV)) else x for x in split_key(I, a, k)]
    for x in ks:
        if isinstance(x, (float,)) or (isinstance(x, Sc) and x.kind in 'fc') or (isinstance(x, Arr) and x.kind in 'fc'):
            rz('IndexError', 'only integers, slices, ... are valid indices')
        if not (x is None or isinstance(x, (SliceV, Arr)) or is_intkey(x)):
            if isinstance(x, Obj):
                raise Undecided('object index')
            rz('IndexError', 'only integers, slices, ... are valid indices')
    ks = [mk(x.at(()), x.kind) if isinstance(x, Arr) and x.ndim == 0 and x.kind == 'i' else x for x in ks]
    if all(not isinstance(x, Arr) for x in ks):
        v = basic_view(I, a, ks)
        if not v.shape:
            return mk(v.at(()), v.kind, True)
        return v
    return fancy_get(I, a, ks)


def index_first(I, a, i):
    """a[i] for a Term i known in range."""
    plan_shape = a.shape[1:]
    f, inv = a.fwd, a.inv
    if not plan_shape:
        return mk(a.at((i,)), a.kind, True)

    def inv2(x):
        c, v = inv(x)
        if c is ZERO:
            return c, ()
        return c * tm.ind_eq(v[0] - i), tuple(v[1:])
    return Arr(a.buf, plan_shape, lambda v: f((i,) + tuple(v)), None if inv is None else inv2, a.contig, a.ro)


def mask_index(I, m):
    """(count, [index functions]) for boolean mask m."""
    shape = m.shape
    g = m.snap()
    if all(tm.as_int(s) is not None for s in shape):
        import itertools
        pts = list(itertools.product(*[range(tm.as_int(s)) for s in shape]))
        if len(pts) <= 256:
            vals = [g(tuple(T(i) for i in p)) for p in pts]
            if I.local is None and len(pts) <= 6:
                sel = [p for p, v in zip(pts, vals) if I.decide(v)]
            elif all(v is ONE or v is ZERO for v in vals):
                sel = [p for p, v in zip(pts, vals) if v is ONE]
            else:
                sel = None
            if sel is not None:
                fs = [(lambda i, d=d: pick([T(p[d]) for p in sel], i) if sel else ZERO) for d in range(len(shape))]
                return T(len(sel)), fs
    cnt = sum_shape(shape, g)
    if cnt is size_term(shape):
        if len(shape) == 1:
            return cnt, [lambda i: i]
        return cnt, [(lambda i, d=d: unflat(i, shape)[d]) for d in range(len(shape))]
    l = lam_get(shape, g)
    return cnt, [(lambda i, d=d: tm.fn('nonzero', (T(d), l, i), real=True, isint=True, nonneg=True, bounds=(ZERO, shape[d] - 1))) for d in range(len(shape))]


def fancy_plan(I, a, ks):
    """Expand masks and integer arrays into index functions."""
    out = []       # entries: ('new',) ('sl', SliceV, axis) ('int', t, axis) ('arr', shape, get, axis)
    ax = 0
    for x in ks:
        if x is None:
            out.append(('new',))
        elif isinstance(x, SliceV):
            out.append(('sl', x, ax))
            ax += 1
        elif isinstance(x, Arr):
            if x.kind == 'b':
                for d in range(x.ndim):
                    if not I.same_dim(x.shape[d], a.shape[ax + d]):
                        rz('IndexError', 'boolean index did not match')
                cnt, fs = mask_index(I, x)
                for d in range(x.ndim):
                    out.append(('arr', (cnt,), (lambda idx, f=fs[d]: f(idx[0])), ax + d))
                ax += x.ndim
            else:
                n = a.shape[ax]
                g = x.snap()
                check_range(I, x, g, n)
                out.append(('arr', x.shape, wrap_neg(I, x, g, n), ax))
                ax += 1
        else:
            out.append(('int', norm_index(I, x, a.shape[ax]), ax))
            ax += 1
    return out


def check_range(I, x, g, n):
    """Bounds obligation for an index array (branches to IndexError)."""
    if all(tm.as_int(s) is not None for s in x.shape):
        import itertools
        pts = list(itertools.product(*[range(tm.as_int(s)) for s in x.shape]))
        if len(pts) <= 64:
            for p in pts:
                t = g(tuple(T(i) for i in p))
                if not tm.prove_ge(t + n) and not I.decide(tm.ind_ge(t + n)):
                    rz('IndexError', 'index out of bounds')
                if not tm.prove_ge(n - t - 1) and not I.decide(tm.ind_ge(n - t - 1)):
                    rz('IndexError', 'index out of bounds')
            return
    xs = [tm.of_atom(tm.fresh_idx(s)) for s in x.shape]
    t = g(tuple(xs))
    ok = tm.prove_ge(t + n) and tm.prove_ge(n - t - 1)
    if not ok:
        bad = sum_shape(x.shape, lambda idx: tm.b_not(tm.ind_ge(g(idx) + n) * tm.ind_ge(n - g(idx) - 1)))
        if I.decide(tm.ind_ge(bad - 1)):
            rz('IndexError', 'index out of bounds')


def wrap_neg(I, x, g, n):
    def get(idx):
        t = g(tuple(idx))
        d = tm.decide_ge(t)
        if d is True:
            return t
        if d is False:
            return t + n
        return tm.case(tm.ind_ge(t), t, t + n)
    return get


def fancy_layout(I, a, plan):
    """Result shape and map from result index to source index."""
    arrs = [p for p in plan if p[0] == 'arr']
    bs = bshape(I, *[p[1] for p in arrs])
    gets = {id(p): bget_s(p[2], p[1], bs) for p in arrs}
    # position of the broadcast dims: first if advanced indices are separated
    pos = [i for i, p in enumerate(plan) if p[0] in ('arr', 'int')]
    sep = any(plan[i][0] in ('sl', 'new') for i in range(pos[0], pos[-1] + 1))
    shape = []
    order = []
    if sep:
        shape.extend(bs)
        boff = 0
    else:
        boff = None
    slots = []
    for p in plan:
        if p[0] in ('arr', 'int'):
            if boff is None:
                boff = len(shape)
                shape.extend(bs)
            slots.append(None)
        elif p[0] == 'new':
            slots.append(len(shape))
            shape.append(ONE)
        else:
            s, ln, st = norm_slice(I, p[1], a.shape[p[2]])
            slots.append((len(shape), s, st))
            shape.append(ln)

    def src(idx):
        b = tuple(idx[boff:boff + len(bs)])
        out = [None] * a.ndim
        for p, sl in zip(plan, slots):
            if p[0] == 'arr':
                out[p[3]] = gets[id(p)](b)
            elif p[0] == 'int':
                out[p[2]] = p[1]
            elif p[0] == 'sl':
                d, s, st = sl
                out[p[2]] = s + idx[d] if st == 1 else s + idx[d] * st
        return tuple(out)
    return tuple(shape), src


def fancy_get(I, a, ks):
    plan = fancy_plan(I, a, ks)
    shape, src = fancy_layout(I, a, plan)
    g = a.snap()
    return new_arr(shape, a.kind, lambda idx: g(src(tuple(idx))))


def arr_setitem(I, a, k, v):
    if isinstance(v, Unk):
        raise Undecided('store of unknown: ' + v.why)
    if isinstance(k, Unk):
        raise Undecided('store at unknown index')
    if isinstance(k, (ListV, SymSeq)):
        k = key_arr(I, k)
    ks = [key_arr(I, x) if isinstance(x, (ListV, tuple, SymSeq, RangeV)) else x for x in split_key(I, a, k)]
    for x in ks:
        if isinstance(x, (float, str)) or (isinstance(x, Sc) and x.kind in 'fc') or (isinstance(x, Arr) and x.kind in 'fc'):
            rz('IndexError', 'only integers, slices, ... are valid indices')
        if isinstance(x, Unk):
            raise Undecided('store at unknown index')
    scalar = is_num(v)
    if not is_arrlike(v):
        if v is None or isinstance(v, str):
            rz('TypeError' if v is None else 'ValueError', 'bad value')
        raise Undecided('store of %r' % (v,))
    ks = [mk(x.at(()), x.kind) if isinstance(x, Arr) and x.ndim == 0 and x.kind == 'i' else x for x in ks]
    if all(not isinstance(x, Arr) for x in ks):
        view = basic_view(I, a, ks)
        va = to_arr(I, v)
        if not view.shape and va.ndim > 0:
            if not I.same_dim(size_term(va.shape), ONE):
                rz('ValueError', 'setting an array element with a sequence.')
            t = va.at([ZERO] * va.ndim)
            kk = va.kind
            va = new_arr((), kk, lambda idx: t)
        store_view(I, view, va, scalar or not view.shape)
        return
    masks = [x for x in ks if isinstance(x, Arr) and x.kind == 'b']
    if len(masks) == 1 and sum(isinstance(x, Arr) for x in ks) == 1 and ks[0] is masks[0]:
        m = masks[0]
        rest = ks[1:]
        if m.ndim == a.ndim or all(isinstance(x, SliceV) and x.a is None and x.b is None for x in rest):
            va = to_arr(I, v)
            mg = m.snap()
            nm = m.ndim
            if va.ndim == 0:
                g = store_cast(I, a.kind, va.kind, lambda idx: va_get(()), True)
                va_get = va.snap()
                store_raw(I, a, g, lambda vi: mg(tuple(vi[:nm])))
                return
            cnt, fs = mask_index(I, m)
            if nm == 1 and cnt is m.shape[0]:
                store_view(I, a, va)
                return
            # x[mask] = y[mask]-like stores: value i goes to the i-th hit
            raise Undecided('array store through a mask')
    plan = fancy_plan(I, a, ks)
    shape, src = fancy_layout(I, a, plan)
    va = to_arr(I, v)
    g = broadcast_to(I, va, shape)
    g = store_cast(I, a.kind, va.kind, g, scalar)
    import itertools
    if all(tm.as_int(s) is not None for s in shape):
        pts = list(itertools.product(*[range(tm.as_int(s)) for s in shape]))
        if len(pts) <= 256:
            st = [(src(tuple(T(i) for i in p)), g(tuple(T(i) for i in p))) for p in pts]
            buf, old, inv = a.buf, a.buf.get, a.inv
            if inv is None:
                raise Undecided('store')

            def get(x):
                c0, vi = inv(tuple(x))
                r = old(x)
                if c0 is ZERO:
                    return r
                for s, val in st:
                    c = c0
                    for p, q in zip(s, vi):
                        c = c * tm.ind_eq(q - p)
                        if c is ZERO:
                            break
                    r = tm.case(c, val, r)
                return r
            I.set_buf(buf, memo_get(get))
            return
    # one symbolic axis per index array: affine diagonal stores
    diag = diag_store(I, a, plan, shape, src, g)
    if not diag:
        raise Undecided('symbolic fancy store')


def diag_store(I, a, plan, shape, src, g):
    """Stores at affine index vectors (e.g. a[i, i + c] for i < n)."""
    if len(shape) != 1:
        return False
    x = tm.fresh_idx(shape[0])
    s = src((tm.of_atom(x),))
    lead = None
    for d, t in enumerate(s):
        if x in t.fv:
            v = tm._solve_eq(t, x)
            if v is None:
                return False
            if lead is None:
                lead = d
    if lead is None:
        return False
    buf, old, inv = a.buf, a.buf.get, a.inv
    if inv is None:
        return False

    def get(xx):
        c0, vi = inv(tuple(xx))
        if c0 is ZERO:
            return old(xx)
        i = tm._solve_eq(s[lead] - vi[lead], x)
        if i is None:
            raise Undecided('diagonal store')
        c = c0 * tm.ind_ge(i) * tm.ind_ge(shape[0] - i - 1)
        for p, q in zip(src((i,)), vi):
            c = c * tm.ind_eq(q - p)
        return tm.case(c, g((i,)), old(xx))
    I.set_buf(buf, memo_get(get))
    return True


def dtype_kind(v):
    """Kind letter of a dtype-like value, or None."""
    if isinstance(v, TypeV):
        return v.kind
    if isinstance(v, str):
        s = str(v)
        if s.startswith(('float', 'f')) or s in ('d',):
            return 'f'
        if s.startswith(('complex', 'c')):
            return 'c'
        if s.startswith(('int', 'uint', 'i', 'u')):
            return 'i'
        if s.startswith('bool') or s == '?':
            return 'b'
    return None


def type_name(v):
    if v is None:
        return 'NoneType'
    if isinstance(v, Obj):
        return v.cls.name
    if isinstance(v, Sc):
        return {'b': 'bool', 'i': 'int', 'f': 'float', 'c': 'complex'}[v.kind]
    return {Arr: 'numpy.ndarray', ListV: 'list', DictV: 'dict', SetV: 'set', RangeV: 'range', SymSeq: 'list', FuncV: 'function', BoundM: 'method', Native: 'builtin_function_or_method', ClassV: 'type', TypeV: 'type', ModV: 'module'}.get(type(v), type(v).__name__)


def symseq_slice(I, o, k):
    a, ln, st = norm_slice(I, k, o.n)
    l = ListV([])
    l.sym = SymSeq(ln, lambda i: o.get(a + i * st))
    return l


def arr_setattr(I, a, name, val):
    if name == 'shape':
        v = reshape(I, a, list(I.iter_concrete(val)) if not is_num(val) else [val])
        a.shape, a.fwd, a.inv, a.contig = v.shape, v.fwd, v.inv, v.contig
        I.event('setshape', a.buf)
        return
    if name in ('real', 'imag'):
        if a.kind != 'c':
            if name == 'real':
                store_view(I, a, to_arr(I, val), is_num(val))
                return
            rz('TypeError', 'array does not have imaginary part to set')
        va = to_arr(I, val)
        g = broadcast_to(I, va, a.shape)
        old = a.snap()
        if name == 'real':
            store_raw(I, a, lambda idx: tm.re(g(idx)) + tm.J * tm.im(old(idx)))
        else:
            store_raw(I, a, lambda idx: tm.re(old(idx)) + tm.J * tm.re(g(idx)))
        return
    if name == 'dtype':
        raise Undecided('dtype assignment')
    rz('AttributeError', name)
