"""Builtins, methods of builtin types and external modules."""
import math
import itertools
import os
from fractions import Fraction
from . import terms as tm
from .terms import T, Term, ONE, ZERO
from .values import *
from . import values as V
from .npcore import *
from . import npcore as nc
from . import npfuncs as nf
from .npfuncs import F, LA, bind, lit_arr
from . import npmore


class NT(tuple):
    """namedtuple instance."""
    fields = ()
    cls = None


class IterV:
    """An iterator object over concrete items (or a symbolic sequence)."""
    def __init__(self, it):
        self.it, self.pos = it, 0

    def iterate_hook(self, I):
        if isinstance(self.it, SymSeq):
            if self.pos == 0:
                self.pos = -1
                return self.it
            raise Undecided('partially consumed iterator')
        r = self.it[self.pos:]
        self.pos = len(self.it)
        return r


def N(f, name, **attrs):
    return Native(f, name, attrs)


def need(b):
    for v in b.values():
        if isinstance(v, Unk):
            raise Undecided('unknown argument: ' + v.why)
    return b


# ---------------------------------------------------------------- sequences
def seq(I, v):
    """list of values or SymSeq (constant lengths expanded)."""
    it = I.iterate(v)
    if isinstance(it, SymSeq):
        c = tm.as_int(it.n)
        if c is not None and c <= 64:
            return [it.get(T(i)) for i in range(c)]
    return it


def from_sym(s):
    l = ListV([])
    l.sym = s
    return l


def settled(I, it):
    """The elements as they are now: numbers taken from an array do not follow later changes of it."""
    if isinstance(it, SymSeq):
        from . import loops
        x = loops.loop_index(I, it.n)
        v = it.get(tm.of_atom(x))
        if all(isinstance(y, (Sc, int, float, str)) for y in (v if isinstance(v, tuple) else (v,))):
            return SymSeq(it.n, lambda i: loops.subst_val(v, {x: T(i)}, next(V._c)), it.islist)
    return it


def b_len(I, a, k):
    v = a[0]
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, ListV):
        return mk(v.sym.n, 'i') if v.sym else len(v.items)
    if isinstance(v, SymSeq):
        return mk(v.n, 'i')
    if isinstance(v, DictV):
        if v.unknown:
            return Unk('len')
        return len(v.d)
    if isinstance(v, SetV):
        return len(v.s)
    if isinstance(v, RangeV):
        return mk(I.range_len(v), 'i')
    if isinstance(v, Arr):
        if v.ndim == 0:
            rz('TypeError', 'len() of unsized object')
        return mk(v.shape[0], 'i')
    if isinstance(v, Obj):
        f, _ = v.cls.lookup('__len__')
        if f is not None:
            return I.call(I.bind(f, v, v.cls), [])
    if isinstance(v, Unk):
        return Unk('len of ' + v.why)
    rz('TypeError', 'object of type %s has no len()' % nc.type_name(v))


def b_range(I, a, k):
    for x in a:
        if isinstance(x, Unk):
            return Unk('range')
        if isinstance(x, Arr) and x.ndim == 0:
            pass
        elif not is_num(x) or kind_of(x) not in 'bi':
            rz('TypeError', "'%s' object cannot be interpreted as an integer" % nc.type_name(x))
    a = [mk(x.at(()), x.kind) if isinstance(x, Arr) else x for x in a]
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    return RangeV(*a)


def b_zip(I, a, k):
    its = [seq(I, x) for x in a]
    if not its:
        return ListV([])
    if all(isinstance(x, list) for x in its):
        return ListV([tuple(t) for t in zip(*its)])
    ns = [x.n if isinstance(x, SymSeq) else T(len(x)) for x in its]
    n = ns[0]
    for m in ns[1:]:
        if m is not n:
            n = n if I.decide(tm.ind_ge(m - n)) else m
    c = tm.as_int(n)
    gets = [x.get if isinstance(x, SymSeq) else (lambda i, x=x: I.getitem(tuple(x), mk(i, 'i'))) for x in its]
    if c is not None and c <= 64:
        return ListV([tuple(g(T(i)) for g in gets) for i in range(c)])
    return SymSeq(n, lambda i: tuple(g(i) for g in gets))


def b_enumerate(I, a, k):
    b = bind(['iterable', 'start=0'], a, k, 'enumerate')
    it = seq(I, b['iterable'])
    s = b['start']
    if isinstance(it, SymSeq):
        return SymSeq(it.n, lambda i: (nc.binop(I, 'Add', mk(i, 'i'), s), it.get(i)))
    return ListV([(nc.binop(I, 'Add', i, s), x) for i, x in enumerate(it)])


def b_map(I, a, k):
    f = a[0]
    if len(a) == 2:
        it = seq(I, a[1])
        if isinstance(it, SymSeq):
            from . import loops
            return loops.sym_map(I, it, lambda v: I.call(f, [v]))
        return ListV([I.call(f, [x]) for x in it])
    z = b_zip(I, a[1:], {})
    it = seq(I, z)
    if isinstance(it, SymSeq):
        from . import loops
        return loops.sym_map(I, it, lambda v: I.call(f, list(v)))
    return ListV([I.call(f, list(x)) for x in it])


def b_filter(I, a, k):
    it = seq(I, a[1])
    if isinstance(it, SymSeq):
        raise Undecided('filter of symbolic sequence')
    f = (lambda x: x) if a[0] is None else (lambda x: I.call(a[0], [x]))
    return ListV([x for x in it if I.truth(f(x))])


def b_reversed(I, a, k):
    it = seq(I, a[0])
    if isinstance(it, SymSeq):
        return SymSeq(it.n, lambda i: it.get(it.n - 1 - i))
    return ListV(it[::-1])


def b_sum(I, a, k):
    b = bind(['iterable', 'start=0'], a, k, 'sum')
    if isinstance(b['iterable'], Unk):
        return Unk('sum')
    it = seq(I, b['iterable'])
    if isinstance(it, SymSeq):
        x = nc.from_symseq(I, it)
        return nc.binop(I, 'Add', b['start'], I.call(F['sum'], [x, 0]))
    r = b['start']
    for x in it:
        r = I.binop('Add', r, x)
    return r


def b_any(I, a, k):
    if isinstance(a[0], Unk):
        return Unk('any')
    it = seq(I, a[0])
    if isinstance(it, SymSeq):
        x = nc.from_symseq(I, it)
        return I.call(F['any'], [x])
    acc = ZERO
    for x in it:
        if isinstance(x, Sc):
            acc = tm.b_or(acc, t_bool(x.t))
        elif isinstance(x, Unk):
            return x
        elif I.truth(x):
            return True
    return mk(acc, 'b')


def b_all(I, a, k):
    if isinstance(a[0], Unk):
        return Unk('all')
    it = seq(I, a[0])
    if isinstance(it, SymSeq):
        x = nc.from_symseq(I, it)
        return I.call(F['all'], [x])
    acc = ONE
    for x in it:
        if isinstance(x, Sc):
            acc = tm.b_and(acc, t_bool(x.t))
        elif isinstance(x, Unk):
            return x
        elif not I.truth(x):
            return False
    return mk(acc, 'b')


def minmax(name):
    op = nf.t_max if name == 'max' else nf.t_min

    def f(I, a, k):
        key = k.get('key')
        items = a if len(a) > 1 else seq(I, a[0])
        if any(isinstance(x, Unk) for x in a):
            return Unk(name)
        if isinstance(items, SymSeq):
            if key is not None:
                raise Undecided(name)
            return I.call(F[name], [nc.from_symseq(I, items)])
        if not items:
            if 'default' in k:
                return k['default']
            rz('ValueError', '%s() arg is an empty sequence' % name)
        if key is None and all(is_num(x) for x in items):
            if any(isinstance(x, Sc) for x in items):
                t = term_of(items[0])
                for x in items[1:]:
                    t = op(t, term_of(x))
                return mk(t, kmax(*[kind_of(x) for x in items]))
            return (max if name == 'max' else min)(items)
        if key is None and all(isinstance(x, str) for x in items):
            return (max if name == 'max' else min)(items)
        kf = (lambda x: x) if key is None else (lambda x: I.call(key, [x]))
        best, bk = items[0], kf(items[0])
        for x in items[1:]:
            y = kf(x)
            if I.truth(I.compare('Gt' if name == 'max' else 'Lt', y, bk)):
                best, bk = x, y
        return best
    return f


def do_sort(I, items, key, reverse):
    kf = (lambda x: x) if key is None else (lambda x: I.call(key, [x]))
    ks = [(kf(x), x) for x in items]
    if all(isinstance(y, (bool, int, float)) for y, _ in ks) or all(isinstance(y, str) for y, _ in ks):
        return [x for _, x in sorted(ks, key=lambda p: p[0], reverse=bool(reverse))]
    if len(ks) > 7:
        raise Undecided('sort of symbolic values')
    out = []
    for y, x in ks:
        i = len(out)
        while i > 0 and I.truth(I.compare('Gt' if reverse else 'Lt', y, out[i - 1][0])):
            i -= 1
        out.insert(i, (y, x))
    return [x for _, x in out]


def b_sorted(I, a, k):
    it = seq(I, a[0])
    if isinstance(it, SymSeq):
        if k.get('key') is None:
            x = nc.from_symseq(I, it)
            s = nf.sort_like(I, x, -1, 'sort')
            if k.get('reverse'):
                s = nf.f_flip(I, s, None)
            return nf.m_tolist(I, s)
        raise Undecided('sorted')
    return ListV(do_sort(I, it, k.get('key'), k.get('reverse', False)))


# ---------------------------------------------------------------- types
def isinst(I, v, c):
    if isinstance(c, tuple):
        r = False
        for x in c:
            q = isinst(I, v, x)
            if q is True:
                return True
            if isinstance(q, Unk):
                r = q
        return r
    if isinstance(v, Unk) or isinstance(c, Unk):
        return Unk('isinstance')
    if isinstance(c, ClassV):
        if c.name == 'object' and c.builtin:
            return True
        if isinstance(v, Obj):
            return v.cls.issub(c)
        if isinstance(v, NT):
            return v.cls is c
        return False
    if isinstance(c, NS):
        if c.name in ('Iterable', 'Sequence', 'Collection', 'Sized', 'Container', 'Mapping', 'Callable', 'Hashable'):
            n = c.name
            if n == 'Callable':
                return b_callable(I, [v], {})
            if isinstance(v, DictV):
                return n != 'Sequence'
            if n == 'Mapping':
                return False
            if isinstance(v, (ListV, tuple, str, SymSeq, RangeV)):
                return True
            if isinstance(v, (Arr, SetV)):
                return n != 'Sequence'
            if isinstance(v, Obj):
                return v.cls.lookup('__iter__')[0] is not None
            return False
        if c.name in ('Number', 'Complex', 'Real', 'Integral', 'Rational'):
            if not is_num(v):
                return False
            k = kind_of(v)
            if isinstance(v, Sc) and v.np and k == 'b':
                return False
            return k in {'Number': 'bifc', 'Complex': 'bifc', 'Real': 'bif', 'Integral': 'bi', 'Rational': 'bi'}[c.name]
        return Unk('isinstance ' + c.name)
    if isinstance(c, TypeV):
        n = c.name
        if n == 'object':
            return True
        if n == 'np.ndarray':
            return isinstance(v, Arr)
        if n in ('int', 'float', 'complex', 'bool'):
            if not is_num(v):
                return False
            k = kind_of(v)
            isnp = isinstance(v, Sc) and v.np
            if n == 'int':
                return k in 'bi' and not isnp
            if n == 'bool':
                return k == 'b' and not isnp
            return k == n[0]
        if n == 'str':
            return isinstance(v, str)
        if n == 'list':
            return isinstance(v, ListV) or (isinstance(v, SymSeq) and v.islist)
        if n == 'tuple':
            return isinstance(v, tuple) or (isinstance(v, SymSeq) and not v.islist)
        if n == 'dict':
            return isinstance(v, DictV)
        if n == 'set':
            return isinstance(v, SetV)
        if n == 'range':
            return isinstance(v, RangeV)
        if n == 'slice':
            return isinstance(v, SliceV)
        if n == 'type':
            return isinstance(v, (ClassV, TypeV))
        if n in ('NoneType',):
            return v is None
        if n in ('property', 'staticmethod', 'classmethod', 'super', 'bytes', 'frozenset'):
            return False
        # numpy scalar types: plain Python numbers are not instances
        if isinstance(v, Sc) and v.np:
            k = v.kind
            if n.startswith('np.'):
                return k in {'np.floating': 'f', 'np.inexact': 'fc', 'np.complexfloating': 'c', 'np.integer': 'i', 'np.number': 'ifc', 'np.generic': 'bifc',
                             'np.signedinteger': 'i', 'np.bool': 'b', 'np.unsignedinteger': ''}.get(n, '')
            return c.kind == k and c is nf.DT.get(k)
        return False
    rz('TypeError', 'isinstance() arg 2 must be a type')


def b_isinstance(I, a, k):
    return isinst(I, a[0], a[1])


def b_issubclass(I, a, k):
    c = a[1] if isinstance(a[1], tuple) else (a[1],)
    if any(isinstance(x, Unk) for x in a):
        return Unk('issubclass')
    if not isinstance(a[0], (ClassV, TypeV)):
        rz('TypeError', 'issubclass() arg 1 must be a class')
    r = False
    for x in c:
        if isinstance(a[0], ClassV) and isinstance(x, ClassV):
            r = r or a[0].issub(x) or (x.name == 'object' and x.builtin)
        else:
            r = r or a[0] is x or (isinstance(x, TypeV) and x.name == 'object')
    return r


def b_callable(I, a, k):
    v = a[0]
    if isinstance(v, Unk):
        return Unk('callable')
    if isinstance(v, Obj):
        return v.cls.lookup('__call__')[0] is not None
    return isinstance(v, (FuncV, BoundM, Native, TypeV, ClassV))


def conv(kind):
    def f(I, a, k):
        if not a:
            return {'i': 0, 'f': 0.0, 'c': 0j, 'b': False}[kind]
        v = a[0]
        if isinstance(v, Unk):
            return Unk('conversion')
        if kind == 'b':
            if isinstance(v, Sc):
                return mk(t_bool(v.t), 'b')
            return I.truth(v)
        if isinstance(v, str):
            try:
                return {'i': int, 'f': float, 'c': complex}[kind](v)
            except ValueError as e:
                rz('ValueError', str(e))
        if isinstance(v, Arr):
            if v.ndim and not I.same_dim(size_term(v.shape), ONE):
                rz('TypeError', 'only length-1 arrays can be converted to Python scalars')
            v = mk(v.at([ZERO] * v.ndim), v.kind)
        if not is_num(v):
            rz('TypeError', '%s() argument must be a string or a number' % {'i': 'int', 'f': 'float', 'c': 'complex'}[kind])
        if kind == 'c' and len(a) > 1:
            return nc.binop(I, 'Add', v, nc.binop(I, 'Mult', 1j, a[1]))
        kv = kind_of(v)
        if kind in 'if' and kv == 'c':
            rz('TypeError', "can't convert complex to %s" % kind)
        if not isinstance(v, Sc):
            try:
                return {'i': int, 'f': float, 'c': complex}[kind](v)
            except (OverflowError, ValueError) as e:
                rz(type(e).__name__, str(e))
        return mk(nf.cast_t(v.t, kv, kind), kind)
    return f


def b_str(I, a, k):
    return nc.to_str(I, a[0]) if a else ''


def b_list(I, a, k):
    if not a:
        return ListV([])
    if isinstance(a[0], Unk):
        return Unk('list')
    it = settled(I, seq(I, a[0]))
    return from_sym(it) if isinstance(it, SymSeq) else ListV(it)


def b_tuple(I, a, k):
    if not a:
        return ()
    if isinstance(a[0], Unk):
        return Unk('tuple')
    it = settled(I, seq(I, a[0]))
    return SymSeq(it.n, it.get, False) if isinstance(it, SymSeq) else tuple(it)


def b_dict(I, a, k):
    d = DictV()
    if a:
        if isinstance(a[0], Unk):
            return Unk('dict')
        if isinstance(a[0], DictV):
            d.d.update(a[0].d)
        else:
            for p in I.iter_concrete(a[0]):
                x, y = I.iter_concrete(p)
                d.d[I.hkey(x, d.d)] = (x, y)
    for n, v in k.items():
        d.d[('str', n)] = (n, v)
    return d


def b_set(I, a, k):
    s = SetV()
    if a:
        if isinstance(a[0], Unk):
            return Unk('set')
        if isinstance(a[0], SetV):
            s.s |= a[0].s
            return s
        for x in I.iter_concrete(a[0]):
            s.s.add(I.hkey(x, s.s))
    return s


def unhkey(h):
    if h[0] in ('num', 'str'):
        return h[1]
    if h[0] == 'none':
        return None
    if h[0] == 'tup':
        return tuple(unhkey(x) for x in h[1:])
    raise Undecided('set element')


def b_abs(I, a, k):
    v = a[0]
    if isinstance(v, Unk):
        return v
    if isinstance(v, (bool, int, float)):
        return abs(v)
    if is_num(v) or isinstance(v, Arr):
        return nc.unop_abs(I, v)
    if hasattr(v, 'np_func'):
        return v.np_func(I, 'abs')
    rz('TypeError', 'bad operand type for abs()')


def _abs(I, v):
    r = I.call(F['abs'], [v])
    if isinstance(v, Sc) and not v.np and isinstance(r, Sc):
        return mk(r.t, r.kind)
    return r


nc.unop_abs = _abs


def b_round(I, a, k):
    b = bind(['number', 'ndigits=None'], a, k, 'round')
    v = b['number']
    if isinstance(v, Unk):
        return v
    if isinstance(v, (int, float)) and not isinstance(b['ndigits'], Sc):
        return round(v, b['ndigits']) if b['ndigits'] is not None else round(v)
    r = I.call(F['round'], [v] if b['ndigits'] is None else [v, b['ndigits']])
    if b['ndigits'] is None and isinstance(r, Sc):
        return mk(r.t, 'i')
    return r


def b_hasattr(I, a, k):
    if isinstance(a[0], Unk):
        return Unk('hasattr')
    S = object()
    from .interp import real_names
    if isinstance(a[1], str) and a[1] in real_names(a[0]):
        return True
    r = I.getattr(a[0], a[1], S)
    return r is not S


def b_getattr(I, a, k):
    if not isinstance(a[1], str):
        return Unk('getattr')
    return I.getattr(a[0], a[1], *(a[2:] or []))


def b_setattr(I, a, k):
    if not isinstance(a[1], str):
        raise Undecided('setattr')
    I.setattr(a[0], a[1], a[2])


TYPES = {}


def b_type(I, a, k):
    if len(a) == 3:
        raise Undecided('type()')
    v = a[0]
    if isinstance(v, Unk):
        return v
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, NT):
        return v.cls
    if isinstance(v, Arr):
        return nf.NDARRAY
    if isinstance(v, Sc) and v.np:
        return nf.DT[v.kind]
    if is_num(v):
        return TYPES[{'b': 'bool', 'i': 'int', 'f': 'float', 'c': 'complex'}[kind_of(v)]]
    for c, n in ((str, 'str'), (tuple, 'tuple'), (ListV, 'list'), (SymSeq, 'list'), (DictV, 'dict'), (SetV, 'set'), (RangeV, 'range')):
        if isinstance(v, c):
            return TYPES[n]
    if v is None:
        return TYPES['NoneType']
    return Unk('type')


def b_iter(I, a, k):
    return IterV(seq(I, a[0]))


def b_next(I, a, k):
    it = a[0]
    if isinstance(it, ListV) and not it.sym:
        # generators are materialised as lists: consume from the front
        if it.items:
            return it.items.pop(0)
        if len(a) > 1:
            return a[1]
        rz('StopIteration')
    if isinstance(it, IterV) and isinstance(it.it, list):
        if it.pos < len(it.it):
            it.pos += 1
            return it.it[it.pos - 1]
        if len(a) > 1:
            return a[1]
        rz('StopIteration')
    raise Undecided('next')


def b_slice(I, a, k):
    a = list(a)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(*(a + [None])[:3])


def b_print(I, a, k):
    I.event('print')


def b_id(I, a, k):
    I.__dict__.setdefault('kept', []).append(a[0])
    return id(a[0])


def b_divmod(I, a, k):
    return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))


def b_pow(I, a, k):
    if len(a) != 2:
        raise Undecided('pow')
    return I.binop('Pow', a[0], a[1])


def b_hash(I, a, k):
    h = I.hkey(a[0])
    if has_sym(h):
        raise Undecided('hash')
    return hash(h) & 0xffff


def b_vars(I, a, k):
    return I.getattr(a[0], '__dict__')


# least number of positional arguments
LEAST = dict(len=1, enumerate=1, map=2, filter=2, reversed=1, sum=1, any=1, all=1, min=1, max=1, sorted=1, isinstance=2, issubclass=2, callable=1, abs=1, round=1,
             hasattr=2, getattr=2, setattr=3, iter=1, next=1, id=1, divmod=2, pow=2, hash=1, repr=1, format=1, ord=1, chr=1, delattr=2)
EXACT = ('len', 'isinstance', 'issubclass', 'callable', 'abs', 'hasattr', 'setattr', 'any', 'all', 'reversed', 'id', 'hash', 'repr', 'ord', 'chr', 'delattr', 'divmod')


def arity(n, f):
    lo = LEAST.get(n, 0)

    def call(I, a, k):
        if len(a) + len(k) < lo or n in EXACT and len(a) > lo:
            rz('TypeError', '%s expects %d arguments' % (n, lo))
        return f(I, a, k)
    return call if lo else f


def make_builtins(I):
    from .interp import BUILTIN_EXC, OBJECT
    B = {}
    B.update(BUILTIN_EXC)
    for n, f in (('len', b_len), ('zip', b_zip), ('enumerate', b_enumerate), ('map', b_map), ('filter', b_filter), ('reversed', b_reversed), ('sum', b_sum),
                 ('any', b_any), ('all', b_all), ('min', minmax('min')), ('max', minmax('max')), ('sorted', b_sorted), ('isinstance', b_isinstance),
                 ('issubclass', b_issubclass), ('callable', b_callable), ('abs', b_abs), ('round', b_round), ('hasattr', b_hasattr), ('getattr', b_getattr),
                 ('setattr', b_setattr), ('iter', b_iter), ('next', b_next), ('print', b_print), ('id', b_id), ('divmod', b_divmod), ('pow', b_pow),
                 ('hash', b_hash), ('vars', b_vars), ('repr', lambda I, a, k: nc.to_repr(I, a[0])), ('format', lambda I, a, k: nc.fmt(I, a[0], a[1] if len(a) > 1 else '', -1)),
                 ('ord', lambda I, a, k: ord(a[0])), ('chr', lambda I, a, k: chr(a[0])), ('delattr', b_delattr)):
        B[n] = Native(arity(n, f), n)
    for n, kd, f in (('int', 'i', conv('i')), ('float', 'f', conv('f')), ('complex', 'c', conv('c')), ('bool', 'b', conv('b')), ('str', None, b_str),
                     ('list', None, b_list), ('tuple', None, b_tuple), ('dict', None, b_dict), ('set', None, b_set), ('frozenset', None, b_set),
                     ('range', None, b_range), ('type', None, b_type), ('slice', None, b_slice), ('object', None, lambda I, a, k: Obj(OBJECT)),
                     ('property', None, lambda I, a, k: PropV(*(list(a) + [None, None])[:2])), ('staticmethod', None, lambda I, a, k: StaticM(a[0])),
                     ('classmethod', None, lambda I, a, k: ClassM(a[0])), ('NoneType', None, None), ('bytes', None, None), ('super', None, None)):
        t = TYPES.get(n)
        if t is None:
            t = TYPES[n] = TypeV(n, kd, f)
        B[n] = t
    TYPES['dict'].attrs['fromkeys'] = Native(lambda I, a, k: DictV({I.hkey(x): (x, a[1] if len(a) > 1 else None) for x in I.iter_concrete(a[0])}), 'fromkeys')
    for nm in ('list', 'dict', 'str', 'tuple', 'set'):
        for meth in ('append', 'extend', 'get', 'items', 'keys', 'values', 'update', 'join', 'format', 'lower', 'upper', 'strip', 'copy', 'index', 'count'):
            if hasattr({'list': list, 'dict': dict, 'str': str, 'tuple': tuple, 'set': set}[nm], meth):
                TYPES[nm].attrs.setdefault(meth, Native(lambda I, a, k, meth=meth: I.call(I.getattr(a[0], meth), a[1:], k), meth))
    B['Ellipsis'] = Ellipsis
    B['NotImplemented'] = NS('NotImplemented')
    B['__name__'] = '__main__'
    B['__debug__'] = True
    return B


def b_delattr(I, a, k):
    o, n = a
    if isinstance(o, Obj) and n in o.attrs:
        old = o.attrs.pop(n)
        I.undo(lambda: o.attrs.__setitem__(n, old))
        I.event('setattr', o, n)
    else:
        rz('AttributeError', n)


# ---------------------------------------------------------------- methods of builtin types
def lmut(I, l):
    """Record a general mutation of list l."""
    if l.sym:
        raise Undecided('mutation of a symbolic list')
    old = list(l.items)

    def und():
        l.items[:] = old
    I.undo(und)
    I.event('listmut', l)
    if I.list_watch is not None:
        I.list_watch[l.id] = (l, None)


def list_attr(I, l, name):
    def append(I, a, k):
        if l.sym:
            s = l.sym
            v = a[0]
            n = s.n

            def get(i):
                c = tm.decide_ge(n - 1 - i)
                if c is True:
                    return s.get(i)
                if c is False:
                    return v
                u = s.get(i)
                if is_num(u) and is_num(v):
                    return mk(tm.case(tm.ind_ge(n - 1 - i), term_of(u), term_of(v)), kmax(kind_of(u), kind_of(v)))
                raise Undecided('append to symbolic list')
            old = l.sym
            I.undo(lambda: setattr(l, 'sym', old))
            l.sym = SymSeq(n + 1, get)
            I.event('listmut', l)
            if I.list_watch is not None:
                I.list_watch[l.id] = (l, None)
            return None
        I.list_extend(l, [a[0]])

    def extend(I, a, k):
        it = settled(I, seq(I, a[0]))
        if isinstance(it, SymSeq) or l.sym:
            r = nc.binop(I, 'Add', l, from_sym(it) if isinstance(it, SymSeq) else ListV(it))
            old, oi = l.sym, list(l.items)

            def und():
                l.sym = old
                l.items[:] = oi
            I.undo(und)
            l.sym, l.items = r.sym, list(r.items)
            I.event('listmut', l)
            if I.list_watch is not None:
                I.list_watch[l.id] = (l, None)
            return None
        I.list_extend(l, it)

    def insert(I, a, k):
        lmut(I, l)
        if not isinstance(a[0], int):
            raise Undecided('insert')
        l.items.insert(a[0], a[1])

    def pop(I, a, k):
        lmut(I, l)
        i = a[0] if a else -1
        if not isinstance(i, int):
            raise Undecided('pop')
        try:
            return l.items.pop(i)
        except IndexError:
            rz('IndexError', 'pop from empty list')

    def remove(I, a, k):
        lmut(I, l)
        for i, x in enumerate(l.items):
            if x is a[0] or I.truth(I.compare('Eq', x, a[0])):
                del l.items[i]
                return None
        rz('ValueError', 'list.remove(x): x not in list')

    def sort(I, a, k):
        if l.sym:
            if k.get('key') is not None:
                raise Undecided('sort')
            r = b_sorted(I, [l], k)
            old = l.sym
            I.undo(lambda: setattr(l, 'sym', old))
            l.sym = r.sym
            I.event('listmut', l)
            return None
        lmut(I, l)
        l.items[:] = do_sort(I, list(l.items), k.get('key'), k.get('reverse', False))

    def reverse(I, a, k):
        lmut(I, l)
        l.items.reverse()

    def copy(I, a, k):
        r = ListV(list(l.items))
        r.sym = l.sym
        return r

    def clear(I, a, k):
        lmut(I, l)
        del l.items[:]

    return seq_common(I, l, name) or {'append': append, 'extend': extend, 'insert': insert, 'pop': pop, 'remove': remove, 'sort': sort, 'reverse': reverse,
                                      'copy': copy, 'clear': clear}.get(name)


def seq_common(I, l, name):
    def items():
        it = seq(I, l)
        if isinstance(it, SymSeq):
            raise Undecided(name)
        return it

    def index(I, a, k):
        for i, x in enumerate(items()):
            if x is a[0] or I.truth(I.compare('Eq', x, a[0])):
                return i
        rz('ValueError', 'is not in list')

    def count(I, a, k):
        n = 0
        for x in items():
            if x is a[0] or I.truth(I.compare('Eq', x, a[0])):
                n += 1
        return n
    if name == '__len__':
        return lambda I, a, k: b_len(I, [l], {})
    if name == '__iter__':
        return lambda I, a, k: b_iter(I, [l], {})
    if name == '__getitem__':
        return lambda I, a, k: I.getitem(l, a[0])
    if name == '__contains__':
        return lambda I, a, k: I.contains(a[0], l)
    return {'index': index, 'count': count}.get(name)


def dict_attr(I, d, name):
    def chk():
        if d.unknown:
            raise Undecided('havocked dict')

    def mut():
        chk()
        old = dict(d.d)

        def und():
            d.d.clear()
            d.d.update(old)
        I.undo(und)
        I.event('dictmut', d)

    def items(I, a, k):
        chk()
        return ListV([(x, y) for x, y in d.d.values()])

    def keys(I, a, k):
        chk()
        return ListV([x for x, y in d.d.values()])

    def values(I, a, k):
        chk()
        return ListV([y for x, y in d.d.values()])

    def get(I, a, k):
        if d.unknown:
            return Unk('dict.get')
        h = I.hkey(a[0], d.d)
        return d.d[h][1] if h in d.d else (a[1] if len(a) > 1 else k.get('default'))

    def pop(I, a, k):
        mut()
        h = I.hkey(a[0], d.d)
        if h in d.d:
            return d.d.pop(h)[1]
        if len(a) > 1:
            return a[1]
        rz('KeyError', a[0])

    def update(I, a, k):
        mut()
        if a:
            if isinstance(a[0], Unk):
                if isinstance(d, AttrView):
                    raise Undecided('attributes updated from an unknown mapping')
                d.unknown = True
                return None
            d.d.update(b_dict(I, a, {}).d)
        for n, v in k.items():
            d.d[('str', n)] = (n, v)

    def setdefault(I, a, k):
        h = I.hkey(a[0], d.d)
        chk()
        if h not in d.d:
            mut()
            d.d[h] = (a[0], a[1] if len(a) > 1 else None)
        return d.d[h][1]

    def clear(I, a, k):
        mut()
        d.d.clear()

    def copy(I, a, k):
        chk()
        return DictV(d.d)

    def popitem(I, a, k):
        mut()
        if not d.d:
            rz('KeyError', 'popitem')
        h = list(d.d)[-1]
        return d.d.pop(h)
    if name == '__contains__':
        return lambda I, a, k: I.contains(a[0], d)
    return {'items': items, 'keys': keys, 'values': values, 'get': get, 'pop': pop, 'update': update, 'setdefault': setdefault, 'clear': clear, 'copy': copy,
            'popitem': popitem, '__len__': lambda I, a, k: len(d.d), '__iter__': lambda I, a, k: IterV([x for x, y in d.d.values()]),
            '__getitem__': lambda I, a, k: I.getitem(d, a[0])}.get(name)


def set_attr(I, s, name):
    def other(x):
        return x.s if isinstance(x, SetV) else {I.hkey(y, s.s) for y in I.iter_concrete(x)}

    def add(I, a, k):
        h = I.hkey(a[0], s.s)
        had = h in s.s
        if not had:
            I.undo(lambda: s.s.discard(h))
        s.s.add(h)
        I.event('setmut', s)

    def discard(I, a, k):
        h = I.hkey(a[0], s.s)
        if h in s.s:
            I.undo(lambda: s.s.add(h))
        elif name == 'remove':
            rz('KeyError', a[0])
        s.s.discard(h)
        I.event('setmut', s)

    def upd(I, a, k):
        for x in a:
            o = other(x) - s.s
            I.undo(lambda o=o: s.s.difference_update(o))
            s.s |= o
        I.event('setmut', s)
    alg = {'union': lambda a, b: a | b, 'intersection': lambda a, b: a & b, 'difference': lambda a, b: a - b, 'symmetric_difference': lambda a, b: a ^ b}
    if name in alg:
        def f(I, a, k):
            r = set(s.s)
            for x in a:
                r = alg[name](r, other(x))
            return SetV(r)
        return f
    rel = {'issubset': lambda a, b: a <= b, 'issuperset': lambda a, b: a >= b, 'isdisjoint': lambda a, b: not (a & b)}
    if name in rel:
        return lambda I, a, k: rel[name](s.s, other(a[0]))
    return {'add': add, 'discard': discard, 'remove': discard, 'update': upd, 'copy': lambda I, a, k: SetV(s.s), '__len__': lambda I, a, k: len(s.s)}.get(name)


def str_format(I, s, a, k):
    def w(x):
        if isinstance(x, (int, float, str, complex)) and not isinstance(x, Sc):
            return x
        return nc.PStr(I, x)
    try:
        return s.format(*[w(x) for x in a], **{n: w(x) for n, x in k.items()})
    except (IndexError, KeyError, ValueError) as e:
        rz(type(e).__name__, str(e))
    except (TypeError, AttributeError) as e:
        rz(type(e).__name__, str(e))


def str_attr(I, s, name):
    if name == 'format':
        return lambda I, a, k: str_format(I, s, a, k)
    if name == 'join':
        def join(I, a, k):
            it = seq(I, a[0])
            if isinstance(it, SymSeq):
                raise Undecided('join')
            if any(isinstance(x, Unk) for x in it):
                return Unk('join')
            if not all(isinstance(x, str) for x in it):
                rz('TypeError', 'sequence item: expected str instance')
            return s.join(it)
        return join
    m = getattr(str, name, None)
    if m is None or name.startswith('__'):
        return None

    def f(I, a, k):
        try:
            r = m(s, *a, **k)
        except (TypeError, ValueError) as e:
            rz(type(e).__name__, str(e))
        return ListV(r) if isinstance(r, list) else r
    return f


def native_attr2(I, v, name):
    f = None
    if isinstance(v, str):
        f = str_attr(I, v, name)
    elif isinstance(v, NT):
        if name in v.fields:
            return v[v.fields.index(name)]
        if name == '_fields':
            return tuple(v.fields)
        if name == '_asdict':
            f = lambda I, a, k: DictV({('str', n): (n, x) for n, x in zip(v.fields, v)})
        elif name == '_replace':
            def f(I, a, k):
                if any(n not in v.fields for n in k):
                    rz('ValueError', 'unexpected field names')
                return make_nt(v.cls, v.fields, [k.get(n, x) for n, x in zip(v.fields, v)])
        elif name == '__class__':
            return v.cls
        else:
            f = seq_common(I, v, name)
    elif isinstance(v, tuple):
        f = seq_common(I, v, name)
    elif isinstance(v, ListV):
        f = list_attr(I, v, name)
    elif isinstance(v, DictV):
        f = dict_attr(I, v, name)
    elif isinstance(v, SetV):
        f = set_attr(I, v, name)
    elif isinstance(v, RangeV):
        if name in ('start', 'stop', 'step'):
            return getattr(v, name)
        f = seq_common(I, v, name)
    elif isinstance(v, SymSeq):
        f = seq_common(I, v, name)
    elif isinstance(v, SliceV):
        m = {'start': 'a', 'stop': 'b', 'step': 'c'}.get(name)
        if m:
            return getattr(v, m)
    elif isinstance(v, IterV):
        if name == '__next__':
            f = lambda I, a, k: b_next(I, [v], {})
        elif name == '__iter__':
            f = lambda I, a, k: v
    elif isinstance(v, PropV):
        if name == 'setter':
            f = lambda I, a, k: PropV(v.fget, a[0])
        elif name == 'getter':
            f = lambda I, a, k: PropV(a[0], v.fset)
        elif name in ('fget', 'fset'):
            return getattr(v, name)
    elif hasattr(v, 'ext_attr'):
        return v.ext_attr(I, name)
    elif v is None and name == '__class__':
        return TYPES['NoneType']
    if f is None:
        return NotImplemented
    return Native(f, name)


# ---------------------------------------------------------------- copy
def deep(I, v, memo):
    if id(v) in memo:
        return memo[id(v)][1]

    def put(r):
        memo[id(v)] = (v, r)
        return r
    if isinstance(v, Arr):
        # views of one buffer become independent arrays in numpy's deepcopy too
        return put(nc.copy_arr(v))
    if isinstance(v, ListV):
        r = put(ListV([]))
        r.items = [deep(I, x, memo) for x in v.items]
        if v.sym:
            s = v.sym
            r.sym = SymSeq(s.n, lambda i: deep(I, s.get(i), {}), s.islist)
        return r
    if isinstance(v, NT):
        return put(make_nt(v.cls, v.fields, [deep(I, x, memo) for x in v]))
    if isinstance(v, tuple):
        return put(tuple(deep(I, x, memo) for x in v))
    if isinstance(v, DictV):
        r = put(DictV())
        r.d = {h: (deep(I, x, memo) if not isinstance(x, (ClassV, FuncV)) else x, deep(I, y, memo)) for h, (x, y) in v.d.items()}
        r.d = {(I.hkey(x) if not isinstance(x, str) else ('str', x)): (x, y) for x, y in r.d.values()}
        r.unknown = v.unknown
        return r
    if isinstance(v, SetV):
        return put(SetV(v.s))
    if isinstance(v, SymSeq):
        return put(SymSeq(v.n, lambda i: deep(I, v.get(i), {}), v.islist))
    if isinstance(v, Obj):
        f, _ = v.cls.lookup('__deepcopy__')
        if f is not None:
            return put(I.call(I.bind(f, v, v.cls), [DictV()]))
        if getattr(v.cls, 'is_enum_member', False) or any(getattr(b, 'is_enum', False) for b in v.cls.mro):
            return v
        r = put(Obj(v.cls))
        r.hooks = v.hooks
        r.attrs = {n: deep(I, x, memo) for n, x in v.attrs.items()}
        return r
    return v


def shallow(I, v):
    if isinstance(v, Arr):
        return nc.copy_arr(v)
    if isinstance(v, ListV):
        r = ListV(list(v.items))
        r.sym = v.sym
        return r
    if isinstance(v, DictV):
        r = DictV(v.d)
        r.unknown = v.unknown
        return r
    if isinstance(v, SetV):
        return SetV(v.s)
    if isinstance(v, Obj):
        f, _ = v.cls.lookup('__copy__')
        if f is not None:
            return I.call(I.bind(f, v, v.cls), [])
        if any(getattr(b, 'is_enum', False) for b in v.cls.mro):
            return v
        r = Obj(v.cls, v.attrs)
        r.hooks = v.hooks
        return r
    return v


# ---------------------------------------------------------------- namedtuple
def make_nt(cls, fields, vals):
    r = NT(vals)
    r.fields = list(fields)
    r.cls = cls
    return r


def namedtuple(I, a, k):
    name, fields = a[0], a[1]
    if isinstance(fields, str):
        fs = fields.replace(',', ' ').split()
    else:
        fs = I.iter_concrete(fields)
    defaults = I.iter_concrete(k['defaults']) if k.get('defaults') is not None else []
    c = ClassV(name, [], {}, None, True)

    def new(I, cls, args, kwargs):
        vals = dict(zip(fs[len(fs) - len(defaults):], defaults)) if defaults else {}
        if len(args) > len(fs):
            rz('TypeError', 'too many arguments')
        for n, v in zip(fs, args):
            vals[n] = v
        for n, v in kwargs.items():
            if n not in fs:
                rz('TypeError', 'unexpected keyword argument')
            vals[n] = v
        for n in fs:
            if n not in vals:
                rz('TypeError', 'missing argument')
        return make_nt(cls, fs, [vals[n] for n in fs])
    c.native_new = new
    c.d['_fields'] = tuple(fs)
    c.d['_make'] = ClassM(Native(lambda I, a, k: new(I, a[0], I.iter_concrete(a[1]), {}), '_make'))
    return c


# ---------------------------------------------------------------- scipy
def sp_find_peaks(I, a, k):
    x = a[0]
    if isinstance(x, Unk):
        return Unk('find_peaks')
    x = nc.to_arr(I, x)
    if x.ndim != 1:
        rz('ValueError', '`x` must be a 1-D array')
    extra = []
    names = ['height', 'threshold', 'distance', 'prominence', 'width', 'wlen', 'rel_height', 'plateau_size']
    kw = dict(zip(names, a[1:]))
    kw.update(k)
    for n in names:
        v = kw.pop(n, None)
        if v is None or (n == 'rel_height' and v == 0.5):
            continue
        if not is_num(v):
            raise Undecided('find_peaks(%s)' % n)
        extra += [n, term_of(v)]
    if kw:
        raise Undecided('find_peaks')
    l = lam_of(x)
    m = new_arr(x.shape, 'b', lambda idx: tm.ind_ge(tm.fn('peakmask', (l, idx[0]) + tuple(extra), real=True, isint=True, nonneg=True) - 1))
    idx = I.call(F['nonzero'], [m])
    return (idx[0], DictV())


def tkey(v):
    if v is None or isinstance(v, (str, bool)):
        return str(v)
    if is_num(v):
        return term_of(v)
    if isinstance(v, tuple):
        return None
    return None


def sp_maximum_filter(I, a, k):
    b = bind(['input', 'size=None', 'footprint=None', 'output=None', 'mode=reflect', 'cval=0.0', 'origin=0'], a, k, 'maximum_filter')
    need(b)
    x = nc.to_arr(I, b['input'])
    if b['output'] is not None:
        raise Undecided('maximum_filter(output)')
    extra = [b['mode'] if isinstance(b['mode'], str) else '?']
    if b['footprint'] is not None:
        f = nc.to_arr(I, b['footprint'])
        extra += ['fp', lam_of(f)]
    elif b['size'] is not None:
        s = b['size']
        if is_num(s):
            extra += ['size'] + [term_of(s)] * x.ndim
        else:
            extra += ['size'] + [term_of(y) for y in I.iter_concrete(s)]
    else:
        rz('RuntimeError', 'no footprint or filter size provided')
    extra += [term_of(b['cval'])]
    if is_num(b['origin']):
        extra += [term_of(b['origin'])] * x.ndim
    else:
        extra += [term_of(y) for y in I.iter_concrete(b['origin'])]
    l = lam_of(x)
    return new_arr(x.shape, x.kind, lambda idx: tm.fn('maxfilter', (l,) + tuple(idx) + tuple(extra), real=True))


def sp_toeplitz(I, a, k):
    b = need(bind(['c', 'r=None'], a, k, 'toeplitz'))
    c = nf.m_ravel(I, nc.to_arr(I, b['c']))
    if b['r'] is None:
        gr = c.snap()
        r = new_arr(c.shape, c.kind, lambda idx: tm.conj(gr(idx)))
    else:
        r = nf.m_ravel(I, nc.to_arr(I, b['r']))
    gc, gr = c.snap(), r.snap()
    kind = kmax(c.kind, r.kind)

    def get(idx):
        i, j = idx
        return tm.case(tm.ind_ge(i - j), gc((i - j,)), gr((j - i,)))
    return new_arr((c.shape[0], r.shape[0]), kind, get)


def sp_cdist(I, a, k):
    b = need(bind(['XA', 'XB', 'metric=euclidean'], a, k, 'cdist'))
    x, y = nc.to_arr(I, b['XA']), nc.to_arr(I, b['XB'])
    if x.ndim != 2 or y.ndim != 2:
        rz('ValueError', 'XA must be a 2-dimensional array.')
    if not I.same_dim(x.shape[1], y.shape[1]):
        rz('ValueError', 'number of columns')
    gx, gy = x.snap(), y.snap()
    d = x.shape[1]
    if b['metric'] == 'euclidean':
        f = lambda idx: nf.t_sqrt(sum_term(d, lambda q: tm.power(gx((idx[0], q)) - gy((idx[1], q)), 2)))
    elif b['metric'] == 'sqeuclidean':
        f = lambda idx: sum_term(d, lambda q: tm.power(gx((idx[0], q)) - gy((idx[1], q)), 2))
    elif b['metric'] == 'cityblock':
        f = lambda idx: sum_term(d, lambda q: tm.abs_(gx((idx[0], q)) - gy((idx[1], q))))
    else:
        raise Undecided('cdist metric')
    return new_arr((x.shape[0], y.shape[0]), 'f', f)


def sp_sqrtm(I, a, k):
    x = nc.to_arr(I, a[0])
    l = lam_of(x)
    return new_arr(x.shape, x.kind, lambda idx: tm.fn('sqrtm', (l,) + tuple(idx), real=False))


def sp_minimize(I, a, k):
    b = bind(['fun', 'x0', 'args=None', 'method=None', 'jac=None', 'hess=None', 'hessp=None', 'bounds=None', 'constraints=None', 'tol=None', 'callback=None', 'options=None'], a, k, 'minimize')
    need({n: v for n, v in b.items() if n in ('fun', 'x0')})
    x0 = nc.to_arr(I, b['x0'])
    n = x0.shape[0]
    args = b['args']
    args = [] if args is None else (list(args) if isinstance(args, tuple) else ([args] if not isinstance(args, ListV) else list(args.items)))
    x = new_arr((n,), 'f', lambda idx: tm.el('xev', idx, real=True))
    I.event('minimize', b)
    v = I.call(b['fun'], [x] + args)
    if isinstance(v, Arr):
        v = mk(v.at([ZERO] * v.ndim), v.kind)
    if not is_num(v):
        raise Undecided('objective')
    key = [term_of(v), lam_of(x0)]
    bd = b['bounds']
    if bd is not None:
        it = seq(I, bd)
        if isinstance(it, SymSeq):
            y = tm.fresh_idx(it.n)
            p = it.get(tm.of_atom(y))
            lo, hi = I.iter_concrete(p)
            key += [tm.mk_lam([y], bterm(lo)), tm.mk_lam([y], bterm(hi))]
        else:
            los, his = [], []
            for p in it:
                lo, hi = I.iter_concrete(p)
                los.append(bterm(lo))
                his.append(bterm(hi))
            key += [lam_of(new_arr((T(len(los)),), 'f', lambda idx: pick(los, idx[0]))), lam_of(new_arr((T(len(his)),), 'f', lambda idx: pick(his, idx[0])))]
    for n_ in ('jac', 'hess', 'hessp', 'constraints', 'callback'):
        if b[n_] is not None and not (n_ == 'constraints' and isinstance(b[n_], (tuple, ListV)) and not b_len(I, [b[n_]], {})):
            raise Undecided('minimize(%s)' % n_)
    key.append(b['method'] if isinstance(b['method'], str) else 'none')
    opt = ''
    if isinstance(b['options'], DictV):
        opt = ','.join('%s=%s' % (kk, nc.to_str(I, vv)) for kk, vv in sorted(b['options'].d.values(), key=lambda p: str(p[0])))
    key.append(opt)
    key.append('none' if b['tol'] is None else nc.to_str(I, b['tol']))
    key = tuple(key)
    ok = tm.ind_ge(tm.fn('minimize_ok', key, real=True, isint=True, nonneg=True, bounds=(ZERO, ONE)) - 1)
    res = NS('OptimizeResult', {
        'x': new_arr((x0.shape[0],), 'f', lambda idx: tm.fn('minimize_x', key + (idx[0],), real=True)),
        'success': mk(ok, 'b'), 'fun': Sc(tm.fn('minimize_fun', key, real=True), 'f', True),
        'status': Sc(tm.fn('minimize_status', key, real=True, isint=True), 'i'), 'message': Unk('message')})
    return res


def bterm(v):
    if v is None:
        return tm.fn('nobound', (), real=True)
    return term_of(v)


# ---------------------------------------------------------------- cvxpy
class CE:
    """cvxpy expression; ev(ctx) computes its value with parameters filled in
    and variables replaced by element atoms."""

    def __init__(self, shape, ev, kind='expr', real=True):
        self.shape, self.ev, self.kind = shape, ev, kind
        self.attrs = {}
        self.real = real

    def wrap(self, I, v):
        if isinstance(v, CE):
            return v.ev
        return lambda ctx: v

    def np_binop(self, I, op, a, b):
        fa, fb = self.wrap(I, a), self.wrap(I, b)

        def ev(ctx):
            x, y, o = fa(ctx), fb(ctx), op
            if o == 'Mult' and isinstance(x, Arr) and isinstance(y, Arr) and x.ndim and y.ndim and not (cvx_scalar(x) or cvx_scalar(y)):
                o = 'MatMult'
            return nc.binop(I, o, x, y)
        return CE(None, ev)

    def np_unop(self, I, op):
        return CE(None, lambda ctx: nc.unop(I, op, self.ev(ctx)))

    def np_compare(self, I, op, a, b):
        fa, fb = self.wrap(I, a), self.wrap(I, b)
        return CE(None, lambda ctx: (op, fa(ctx), fb(ctx)), 'constraint')

    def np_func(self, I, name):
        f = F[name]
        return CE(None, lambda ctx: I.call(f, [self.ev(ctx)]))

    def ext_attr(self, I, name):
        if name in self.attrs:
            return self.attrs[name]
        if name in ('T', 'H'):
            f = lambda x: nc.transpose(nc.to_arr(I, x))
            if name == 'H':
                f = lambda x: I.call(F['conj'], [nc.transpose(nc.to_arr(I, x))])
            return CE(None if self.shape is None else self.shape[::-1], lambda ctx: f(self.ev(ctx)))
        if name == 'shape' and self.shape is not None:
            return shape_val(self.shape)
        if name == 'size' and self.shape is not None:
            return mk(size_term(self.shape), 'i')
        if name == 'ndim' and self.shape is not None:
            return len(self.shape)
        if name == 'value':
            return None if self.kind in ('param', 'var') else Unk('expression value')
        if name in ('is_dcp', 'is_dpp'):
            return Native(lambda I, a, k: True, name)
        return Unk('cvxpy.' + str(name))

    def ext_setattr(self, I, name, val):
        if name != 'value' or self.kind not in ('param', 'var'):
            raise Undecided('assignment to cvxpy attribute ' + str(name))
        if val is not None and self.kind == 'param':
            v = nc.to_arr(I, val)
            if v.ndim != len(self.shape):
                rz('ValueError', 'Invalid dimensions for Parameter value.')
            for p, q in zip(v.shape, self.shape):
                if not I.truth(mk(tm.ind_eq(p - q), 'b')):
                    rz('ValueError', 'Invalid dimensions for Parameter value.')
            if v.kind == 'c' and not self.cplx:
                if not I.truth(I.call(F['all'], [nc.compare(I, 'Eq', I.call(F['imag'], [v]), 0)])):
                    rz('ValueError', 'Parameter value must be real.')
                v = I.call(F['real'], [v])
            if self.nonneg and not I.truth(I.call(F['all'], [nc.compare(I, 'GtE', v, 0)])):
                rz('ValueError', 'Parameter value must be nonnegative.')
            val = v
        old = self.attrs.get('value')
        I.undo(lambda: self.attrs.__setitem__('value', old))
        self.attrs['value'] = val


def cvx_scalar(x):
    return all(s is ONE for s in x.shape)


def cvx_module(I):
    def call1(f):
        return Native(f, 'cvx')

    def expr(I, f, *xs):
        fs = [x.ev if isinstance(x, CE) else (lambda ctx, x=x: x) for x in xs]
        return CE(None, lambda ctx: f(*[g(ctx) for g in fs]))

    def parameter(I, a, k):
        b = bind(['shape=None', 'complex=False', 'nonneg=False', 'name=None', 'value=None', 'hermitian=False', 'PSD=False', 'symmetric=False', 'pos=False'], a, k, 'Parameter')
        sh = () if b['shape'] is None else nf.shape_arg(I, b['shape'])
        p = CE(sh, None, 'param')
        p.attrs['value'] = None
        if b['hermitian'] or b['PSD'] or b['symmetric'] or b['pos']:
            raise Undecided('parameter attributes')

        def ev(ctx):
            v = p.attrs['value']
            if v is None:
                rz('ValueError', 'A Parameter (whose name is unknown) does not have a value associated with it')
            if isinstance(v, Arr) and v.ndim == 0:
                return mk(v.at([]), v.kind)
            return v
        p.ev = ev
        p.nonneg = I.truth(b['nonneg'])
        p.cplx = I.truth(b['complex'])
        if b['value'] is not None:
            p.ext_setattr(I, 'value', b['value'])
        return p

    def variable(I, a, k):
        b = bind(['shape=None', 'complex=False', 'nonneg=False', 'name=None', 'pos=False', 'hermitian=False', 'PSD=False', 'boolean=False', 'integer=False'], a, k, 'Variable')
        sh = () if b['shape'] is None else nf.shape_arg(I, b['shape'])
        p = CE(sh, None, 'var')
        p.attrs['value'] = None
        p.cplx = I.truth(b['complex'])
        p.nonneg = I.truth(b['nonneg'])
        flags = [n for n in ('pos', 'hermitian', 'PSD', 'boolean', 'integer') if b[n]]

        def ev(ctx):
            n = ctx['vars'].setdefault(id(p), (len(ctx['vars']), p, flags))[0]
            nm = ('cvxvar', n, ctx['point'])
            if not sh:
                return Sc(tm.el(nm, (ZERO,), real=not p.cplx), 'c' if p.cplx else 'f')
            return new_arr(sh, 'c' if p.cplx else 'f', lambda idx: tm.el(nm, idx, real=not p.cplx))
        p.ev = ev
        return p

    def norm(I, a, k):
        b = bind(['X', 'p=2', 'axis=None', 'keepdims=False'], a, k, 'norm')
        p = b['p']

        def f(x):
            x = nc.to_arr(I, x)
            if p == 1 and b['axis'] is None:
                return I.call(F['sum'], [I.call(F['abs'], [x])])
            if p == 'fro':
                return nf.f_norm(I, x, 'fro')
            if b['axis'] is None and x.ndim == 2 and p == 2:
                if any(s is ONE for s in x.shape):
                    return nf.f_norm(I, x, 'fro')
                return nf.f_norm(I, x, 2)
            if b['axis'] is None and p == 2:
                return nf.f_norm(I, x, None)
            if b['axis'] is None and x.ndim == 2 and p in ('inf', float('inf')):
                return nf.f_norm(I, nf.m_ravel(I, x), float('inf'))
            return nf.f_norm(I, x, p, b['axis'], b['keepdims'])
        return expr(I, f, b['X'])

    def pnorm(I, a, k):
        b = bind(['x', 'p=2', 'axis=None', 'keepdims=False'], a, k, 'pnorm')
        return expr(I, lambda x: nf.f_norm(I, nc.to_arr(I, x) if b['axis'] is not None else nf.m_ravel(I, nc.to_arr(I, x)), b['p'], b['axis'], b['keepdims']), b['x'])

    def mixed_norm(I, a, k):
        b = bind(['X', 'p=2', 'q=1'], a, k, 'mixed_norm')
        return expr(I, lambda x: nf.f_norm(I, nf.f_norm(I, nc.to_arr(I, x), b['p'], 1), b['q']), b['X'])

    def f_sum(I, a, k):
        b = bind(['expr', 'axis=None', 'keepdims=False'], a, k, 'sum')
        return expr(I, lambda x: I.call(F['sum'], [x, b['axis']], {'keepdims': b['keepdims']}), b['expr'])

    def sumsq(I, a, k):
        return expr(I, lambda x: I.call(F['sum'], [I.binop('Pow', I.call(F['abs'], [x]), 2)]), a[0])

    def np1(name):
        return call1(lambda I, a, k: expr(I, lambda x: I.call(F[name], [x]), a[0]))

    def npn(name):
        def f(I, a, k):
            xs = a[0] if len(a) == 1 and not isinstance(a[0], CE) else a
            return expr(I, lambda *ys: I.call(F[name], [list(ys)]), *I.iter_concrete(xs))
        return call1(f)

    def minimize(I, a, k):
        e = a[0]
        return NS('Minimize', {'expr': e, 'args': (e,)})

    def maximize(I, a, k):
        e = a[0]
        return NS('Minimize', {'expr': e.np_unop(I, 'USub'), 'args': (e,)})

    def scalar(I, v):
        if isinstance(v, Arr):
            if not cvx_scalar(v):
                rz('ValueError', 'The objective must be scalar.')
            v = mk(v.at([ZERO] * v.ndim), v.kind)
        return tm.re(term_of(v))

    def problem(I, a, k):
        b = bind(['objective', 'constraints=None'], a, k, 'Problem')
        cons = [] if b['constraints'] is None else b['constraints']
        pr = NS('Problem', {'status': None, 'objective': b['objective'], 'value': None})

        def solve(I, a, k):
            e = b['objective'].attrs['expr']
            if not isinstance(e, CE):
                raise Undecided('objective')
            # The minimiser depends on the objective up to positive factors and powers only:
            # compare its values at three generic points by the quotient of logarithms of ratios.
            ctx = {'vars': {}, 'point': 0}
            obj = []
            for pt in range(3):
                ctx['point'] = pt
                obj.append(scalar(I, e.ev(ctx)))
            ctx['point'] = 0
            if all(tm.is_nonneg(o) for o in obj):
                lo = [tm.log_(o) for o in obj]
                key = ['objective', tm.fn('quotient', (lo[0] - lo[1], lo[2] - lo[1]), real=True)]
            else:
                key = ['objective', tm.fn('quotient', (obj[0] - obj[1], obj[2] - obj[1]), real=True)]
            cl = ZERO

            def con(op, l, r):
                l, r = nc.to_arr(I, l), nc.to_arr(I, r)
                if op == 'GtE':
                    op, l, r = 'LtE', r, l
                if op not in ('LtE', 'Eq'):
                    raise Undecided('strict constraint')
                if op == 'LtE' and arr_nonneg(l) and arr_nonneg(r):
                    l, r = nc.binop(I, 'Pow', l, 2), nc.binop(I, 'Pow', r, 2)
                d = nc.to_arr(I, nc.binop(I, 'Sub', l, r))
                free = [s for s in d.shape if s is not ONE]

                def at(idx):
                    it = iter(idx)
                    return d.at([ZERO if s is ONE else next(it) for s in d.shape])
                return tm.fn('cvxcon', (op, nc.lam_get(free, at)), real=True)
            seen = set()
            for c in (I.iter_concrete(cons) if cons else []):
                if not isinstance(c, CE):
                    raise Undecided('constraint')
                t = con(*c.ev(ctx))
                if t.id not in seen:
                    seen.add(t.id)
                    cl = cl + t
            key += ['constraints']
            for n, p, flags in sorted(ctx['vars'].values(), key=lambda q: q[0]):
                if p.nonneg:
                    t = con('LtE', 0, p.ev(ctx))
                    if t.id not in seen:
                        seen.add(t.id)
                        cl = cl + t
            key.append(cl)
            for n, p, flags in sorted(ctx['vars'].values(), key=lambda q: q[0]):
                key += ['complex' if p.cplx else 'real'] + flags
                key += [s for s in p.shape]
            opts = []
            for n, x in sorted(k.items()):
                if n in ('warm_start', 'verbose'):
                    continue
                try:
                    opts += ['option', n, term_of(x)] if isinstance(x, (Sc, int, float)) and not isinstance(x, bool) else ['option', n, nc.to_str(I, x)]
                except TypeError:
                    opts += ['option', n, nc.to_str(I, x)]
            I.event('cvxsolve', len(k))
            key = tuple(key + opts)
            pr.attrs['status'] = Status(key)
            pr.attrs['value'] = Sc(tm.fn('cvxval', key, real=True), 'f')
            for n, p, flags in ctx['vars'].values():
                p.attrs['value'] = new_arr(p.shape, 'c' if p.cplx else 'f', lambda idx, n=n, p=p: tm.fn('cvxsol', key + (T(n),) + tuple(idx), real=not p.cplx))
            return pr.attrs['value']
        pr.attrs['solve'] = Native(solve, 'solve')
        pr.attrs['is_dcp'] = pr.attrs['is_dpp'] = Native(lambda I, a, k: True, 'is_dcp')
        return pr

    A = {'Parameter': call1(parameter), 'Variable': call1(variable), 'norm': call1(norm), 'sum': call1(f_sum), 'sum_squares': call1(sumsq), 'Minimize': call1(minimize),
         'Maximize': call1(maximize), 'Problem': call1(problem),
         'norm1': call1(lambda I, a, k: norm(I, [a[0], 1], {})), 'norm2': call1(lambda I, a, k: norm(I, [a[0], 2], {})),
         'norm_inf': call1(lambda I, a, k: norm(I, [a[0], 'inf'], {})),
         'pnorm': call1(pnorm), 'matmul': call1(lambda I, a, k: expr(I, lambda x, y: nc.matmul(I, x, y), a[0], a[1])),
         'abs': np1('abs'), 'real': np1('real'), 'imag': np1('imag'), 'conj': np1('conj'), 'sqrt': np1('sqrt'), 'transpose': np1('transpose'), 'max': np1('max'),
         'hstack': npn('hstack'), 'vstack': npn('vstack'),
         'square': call1(lambda I, a, k: expr(I, lambda x: I.binop('Pow', x, 2), a[0])),
         'multiply': call1(lambda I, a, k: expr(I, lambda x, y: nc.binop(I, 'Mult', x, y), a[0], a[1])),
         'mixed_norm': call1(mixed_norm), 'OPTIMAL': 'optimal', 'OPTIMAL_INACCURATE': 'optimal_inaccurate', 'INFEASIBLE': 'infeasible', 'UNBOUNDED': 'unbounded',
         'SolverError': I_exc()}
    return ModV('cvxpy', A)


def arr_nonneg(a):
    return tm.is_nonneg(a.at([tm.of_atom(tm.fresh_idx(s)) for s in a.shape]))


def I_exc():
    from .interp import BUILTIN_EXC
    return ClassV('SolverError', [BUILTIN_EXC['Exception']], {}, None, True)


class Status:
    """Problem status, an unknown function of the problem: optimal, optimal_inaccurate or something else."""
    CODES = {'optimal': 0, 'optimal_inaccurate': 1, 'infeasible': 2, 'unbounded': 3}

    def __init__(self, key):
        self.t = tm.fn('cvx_status', key, real=True, isint=True, nonneg=True, bounds=(ZERO, T(4)))

    def np_compare(self, I, op, a, b):
        o = b if a is self else a
        if o in self.CODES and op in ('Eq', 'NotEq'):
            t = tm.ind_eq(self.t - T(self.CODES[o]))
            return mk(t if op == 'Eq' else tm.b_not(t), 'b')
        return Unk('status')


# ---------------------------------------------------------------- recorders (plotting)
class Rec:
    """Opaque object whose method calls are recorded as events."""
    def __init__(self, path, store=None):
        self.path = path
        self.store = store if store is not None else {}


def rec(path):
    def getter(I, v, name):
        if isinstance(name, tuple):
            return rec(path + '[]')
        if name.startswith('__'):
            return Unk(name)
        return rec(path + '.' + name)

    def call(I, v, a, k):
        I.events.append(('rec', I.where(), path, list(a), dict(k)))
        name = path.split('.')[-1]
        if name in ('get_xlim', 'get_ylim', 'get_zlim'):
            return tuple(mk(tm.fn('limit', (name, T(i)), real=True), 'f') for i in range(2))
        return rec(path + '()')
    return NS('rec:' + path, {}, getter, call)


# ---------------------------------------------------------------- modules
def make_ext_modules(I):
    from .interp import BUILTIN_EXC, OBJECT
    X = {}
    F.setdefault('linalg', None)
    la = dict(LA)
    la['LinAlgError'] = BUILTIN_EXC['LinAlgError']
    LAm = ModV('numpy.linalg', la)
    np_attrs = dict(F)
    np_attrs['linalg'] = LAm
    np_attrs['newaxis'] = None
    np_attrs['__version__'] = '1.26.4'
    npm = ModV('numpy', np_attrs)
    X['numpy'] = npm
    X['numpy.linalg'] = LAm
    X['numpy.random'] = nf.RANDOM

    def m1(name):
        f = F.get(name)
        return Native(lambda I, a, k: unnp(I.call(f, a, k)), name)

    def unnp(v):
        return mk(v.t, v.kind) if isinstance(v, Sc) else v

    def mlog(I, a, k):
        r = unnp(I.call(F['log'], [a[0]]))
        if isinstance(a[0], (int, float)) and not isinstance(a[0], Sc) and a[0] <= 0:
            rz('ValueError', 'math domain error')
        if len(a) > 1:
            r = nc.binop(I, 'Div', r, I.call(F['log'], [a[1]]))
        return r

    def mint(f):
        def g(I, a, k):
            v = a[0]
            if isinstance(v, Arr):
                v = conv('f')(I, [v], {})
            if isinstance(v, (int, float)):
                return {'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc}[f](v)
            if isinstance(v, Unk):
                return v
            return mk({'ceil': nc.t_ceil, 'floor': nc.t_floor, 'trunc': nc.trunc}[f](v.t), 'i')
        return Native(g, f)

    def mgcd(I, a, k):
        if any(not is_num(x) or kind_of(x) not in 'bi' for x in a):
            if any(isinstance(x, Unk) for x in a):
                return Unk('gcd')
            rz('TypeError', 'gcd')
        t = ZERO
        if all(isinstance(x, int) for x in a):
            return math.gcd(*a)
        t = term_of(a[0])
        for x in a[1:]:
            t = nf.t_gcd(t, term_of(x))
        return mk(t, 'i')
    M = {'pi': Sc(tm.PI, 'f'), 'inf': float('inf'), 'nan': float('nan'), 'e': Sc(tm.exp_(ONE), 'f'), 'log': Native(mlog, 'log'), 'gcd': Native(mgcd, 'gcd')}
    for n in ('ceil', 'floor', 'trunc'):
        M[n] = mint(n)
    for n in ('sqrt', 'exp', 'sin', 'cos', 'tan', 'log2', 'log10', 'log1p', 'hypot', 'isnan', 'isinf', 'isfinite', 'radians', 'degrees', 'sinh', 'cosh', 'tanh', 'copysign'):
        if n in F:
            M[n] = m1(n)
    for n, p in (('asin', 'arcsin'), ('acos', 'arccos'), ('atan', 'arctan'), ('atan2', 'arctan2'), ('fabs', 'abs'), ('pow', 'power'), ('prod', 'prod'), ('fsum', 'sum')):
        if p in F:
            M[n] = m1(p)
    X['math'] = ModV('math', M)
    X['cmath'] = ModV('cmath', {n: M[n] for n in ('pi', 'exp') if n in M})
    ref = Native(lambda I, a, k: Native(lambda I, b, k: a[0], 'weakref'), 'ref')
    wd = Native(lambda I, a, k: b_dict(I, a, {}), 'WeakDictionary')
    X['weakref'] = ModV('weakref', {'ref': ref, 'proxy': Native(lambda I, a, k: a[0], 'proxy'), 'WeakKeyDictionary': wd, 'WeakValueDictionary': wd,
                                    'WeakSet': Native(lambda I, a, k: b_set(I, a, {}), 'WeakSet')})
    dig = Native(lambda I, a, k: NS('hash', {n: Native(lambda I, b, k: a[0], n) for n in ('hexdigest', 'digest')}) if len(a) == 1 else Unk('hash'), 'hash')
    X['hashlib'] = ModV('hashlib', {n: dig for n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'blake2b', 'blake2s')})
    X['copy'] = ModV('copy', {'copy': Native(lambda I, a, k: shallow(I, a[0]), 'copy'), 'deepcopy': Native(lambda I, a, k: deep(I, a[0], {}), 'deepcopy')})

    def warn(I, a, k):
        c = k.get('category', a[1] if len(a) > 1 else None)
        I.event('warn', c.name if isinstance(c, ClassV) else 'UserWarning')
    X['warnings'] = ModV('warnings', {'warn': Native(warn, 'warn'), 'filterwarnings': Native(lambda I, a, k: None, 'f'), 'simplefilter': Native(lambda I, a, k: None, 'f'),
                                      'catch_warnings': Native(lambda I, a, k: NS('catch_warnings'), 'c')})
    ABC = ClassV('ABC', [OBJECT], {}, None, True)
    ABC.is_abc = True

    def absm(I, a, k):
        for f in _fs(a[0]):
            f.abstract = True
        return a[0]

    def _fs(v):
        from .interp import funcs_of
        return funcs_of(v)

    def absprop(I, a, k):
        for f in _fs(a[0]):
            f.abstract = True
        return PropV(a[0])
    X['abc'] = ModV('abc', {'ABC': ABC, 'ABCMeta': TypeV('ABCMeta'), 'abstractmethod': Native(absm, 'abstractmethod'), 'abstractproperty': Native(absprop, 'abstractproperty')})
    ENUM = ClassV('Enum', [OBJECT], {}, None, True)
    ENUM.is_enum = True
    X['enum'] = ModV('enum', {'Enum': ENUM, 'IntEnum': ENUM, 'unique': Native(lambda I, a, k: a[0], 'unique'), 'auto': Native(lambda I, a, k: Unk('auto'), 'auto')})

    def defaultdict(I, a, k):
        raise Undecided('defaultdict')
    ABCS = {n: NS(n) for n in ('Iterable', 'Sequence', 'Collection', 'Sized', 'Container', 'Mapping', 'Callable', 'Hashable')}
    cabc = ModV('collections.abc', ABCS)
    X['collections.abc'] = cabc
    X['collections'] = ModV('collections', {'namedtuple': Native(namedtuple, 'namedtuple'), 'OrderedDict': TYPES.get('dict'), 'defaultdict': Native(defaultdict, 'defaultdict'), 'abc': cabc})
    X['numbers'] = ModV('numbers', {n: NS(n) for n in ('Number', 'Complex', 'Real', 'Integral', 'Rational')})
    X['typing'] = ModV('typing', {'NamedTuple': Unk('NamedTuple')}, missing=lambda n: NS('typing.' + n, {}, getter=lambda I, v, name: v))
    X['__future__'] = ModV('__future__', {}, missing=lambda n: None)

    def itl(f):
        def g(I, a, k):
            its = []
            for x in a:
                if isinstance(x, (int, type(None))):
                    its.append(x)
                else:
                    it = seq(I, x)
                    if isinstance(it, SymSeq):
                        raise Undecided('itertools')
                    its.append(it)
            return ListV([x if not isinstance(x, list) else tuple(x) for x in f(*its, **k)])
        return Native(g, 'itertools')

    def itrepeat(I, a, k):
        if len(a) < 2:
            raise Undecided('repeat')
        return nc.binop(I, 'Mult', ListV([a[0]]), a[1])

    def itchain(I, a, k):
        r = ListV([])
        for x in a:
            r = nc.binop(I, 'Add', r, b_list(I, [x], {}))
        return r
    chain = Native(itchain, 'chain', {'from_iterable': Native(lambda I, a, k: itchain(I, I.iter_concrete(a[0]), {}), 'from_iterable')})

    def accumulate(I, a, k):
        it = I.iter_concrete(a[0])
        f = a[1] if len(a) > 1 else k.get('func')
        out = []
        for x in it:
            out.append(x if not out else (I.binop('Add', out[-1], x) if f is None else I.call(f, [out[-1], x])))
        return ListV(out)
    X['itertools'] = ModV('itertools', {'product': itl(itertools.product), 'combinations': itl(itertools.combinations), 'permutations': itl(itertools.permutations),
                                        'combinations_with_replacement': itl(itertools.combinations_with_replacement), 'chain': chain,
                                        'zip_longest': itl(itertools.zip_longest), 'islice': itl(itertools.islice), 'repeat': Native(itrepeat, 'repeat'), 'accumulate': Native(accumulate, 'accumulate'),
                                        'starmap': Native(lambda I, a, k: ListV([I.call(a[0], I.iter_concrete(x)) for x in I.iter_concrete(a[1])]), 'starmap')})

    def partial(I, a, k):
        f, a0, k0 = a[0], list(a[1:]), dict(k)
        return Native(lambda I, a, k: I.call(f, a0 + list(a), {**k0, **k}), 'partial')

    def reduce(I, a, k):
        it = I.iter_concrete(a[1])
        if len(a) > 2:
            r = a[2]
        else:
            if not it:
                rz('TypeError', 'reduce() of empty sequence')
            r, it = it[0], it[1:]
        for x in it:
            r = I.call(a[0], [r, x])
        return r

    def lru(I, a, k):
        if a and isinstance(a[0], FuncV):
            return cached(a[0])
        return Native(lambda I, a, k: cached(a[0]), 'lru_cache')

    def cached(f):
        tab = {}

        def call(I, a, k):
            h = I.hkey(tuple(a) + tuple((n, v) for n, v in sorted(k.items())), tab)
            if h not in tab:
                tab[h] = I.call(f, a, k)
                I.event('setmodattr', f, 'cache')
            return tab[h]
        return Native(call, f.name, {'method': True, 'cache_clear': Native(lambda I, a, k: tab.clear(), 'cache_clear')})

    def cached_property(I, a, k):
        f = a[0]

        def get(I, a, k):
            o = a[0]
            n = '@cached:' + f.name
            if n not in o.attrs:
                o.attrs[n] = I.call(f, [o])
            return o.attrs[n]
        return PropV(Native(get, f.name))
    X['functools'] = ModV('functools', {'partial': Native(partial, 'partial'), 'reduce': Native(reduce, 'reduce'), 'lru_cache': Native(lru, 'lru_cache'), 'cache': Native(lru, 'cache'),
                                        'wraps': Native(lambda I, a, k: Native(lambda I, a, k: a[0], 'wraps'), 'wraps'), 'cached_property': Native(cached_property, 'cached_property')})
    ops = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'matmul': 'MatMult', 'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow'}
    O = {n: Native(lambda I, a, k, o=o: I.binop(o, a[0], a[1]), n) for n, o in ops.items()}
    O.update({n: Native(lambda I, a, k, o=o: I.compare(o, a[0], a[1]), n) for n, o in (('eq', 'Eq'), ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'))})
    O['itemgetter'] = Native(lambda I, a, k: Native(lambda I, b, k: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], x) for x in a), 'itemgetter'), 'itemgetter')
    O['attrgetter'] = Native(lambda I, a, k: Native(lambda I, b, k: I.getattr(b[0], a[0]), 'attrgetter'), 'attrgetter')
    O['neg'] = Native(lambda I, a, k: nc.unop(I, 'USub', a[0]), 'neg')
    X['operator'] = ModV('operator', O)

    sig = ModV('scipy.signal', {'find_peaks': Native(sp_find_peaks, 'find_peaks')})
    ndi = ModV('scipy.ndimage', {'maximum_filter': Native(sp_maximum_filter, 'maximum_filter')})
    X['scipy.ndimage.filters'] = ndi
    sl = {n: LA[n] for n in ('inv', 'solve', 'eigh', 'eigvalsh', 'eig', 'eigvals', 'svd', 'norm', 'pinv', 'lstsq', 'cholesky', 'det') if n in LA}
    sl.update({'toeplitz': Native(sp_toeplitz, 'toeplitz'), 'sqrtm': Native(sp_sqrtm, 'sqrtm'), 'LinAlgError': BUILTIN_EXC['LinAlgError']})
    if 'block_diag' in F:
        sl['block_diag'] = F['block_diag']
    sl.update({n: Native(f, n) for n, f in npmore.SL.items()})
    slm = ModV('scipy.linalg', sl)
    dist = ModV('scipy.spatial.distance', {'cdist': Native(sp_cdist, 'cdist')})
    spt = ModV('scipy.spatial', {'distance': dist})
    opt = ModV('scipy.optimize', {'minimize': Native(sp_minimize, 'minimize')})
    X.update({'scipy.signal': sig, 'scipy.ndimage': ndi, 'scipy.linalg': slm, 'scipy.spatial': spt, 'scipy.spatial.distance': dist, 'scipy.optimize': opt})
    X['scipy'] = ModV('scipy', {'signal': sig, 'ndimage': ndi, 'linalg': slm, 'spatial': spt, 'optimize': opt})
    X['cvxpy'] = cvx_module(I)
    plt = rec('plt')
    X['matplotlib.pyplot'] = plt
    X['matplotlib.colors'] = rec('colors')
    X['matplotlib'] = ModV('matplotlib', {'pyplot': plt, 'colors': X['matplotlib.colors']}, missing=lambda n: rec('mpl.' + n))
    X['mpl_toolkits'] = rec('mpl_toolkits')
    X['mpl_toolkits.mplot3d'] = rec('mplot3d')
    X['os'] = ModV('os', {}, missing=lambda n: Unk('os.' + n))
    X['sys'] = ModV('sys', {}, missing=lambda n: Unk('sys.' + n))
    X['time'] = ModV('time', {}, missing=lambda n: Unk('time.' + n))
    X['random'] = NS('random', {}, getter=lambda I, v, name: nf._mkrnd(I, v, name))
    return X
