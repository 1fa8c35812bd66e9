"""Abstract values and heap of the interpreter."""
from collections.abc import MutableMapping
from itertools import count
from . import terms as tm
from .terms import T, Term

_c = count(1)


class Unk:
    """Top: nothing is known about this value."""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why


class Undecided(Exception):
    """The analysis cannot decide this partition."""


class Sc:
    """Symbolic scalar.  kind in 'b' 'i' 'f' 'c'; np: numpy scalar."""
    __slots__ = ('t', 'kind', 'np')

    def __init__(self, t, kind, np=False):
        self.t, self.kind, self.np = t, kind, np

    def __repr__(self):
        return 'Sc<%s>(%s)' % (self.kind, self.t)


class Buf:
    __slots__ = ('shape', 'kind', 'get', 'id', 'tag', 'readonly')

    def __init__(self, shape, kind, get, tag=None):
        self.shape, self.kind, self.get, self.tag = tuple(shape), kind, get, tag
        self.id = next(_c)
        self.readonly = False


class Arr:
    """View on a buffer: fwd maps view indices to buffer indices, inv maps a
    buffer index to (condition, view index) or is None."""
    __slots__ = ('buf', 'shape', 'fwd', 'inv', 'contig', 'ro')

    def __init__(self, buf, shape, fwd=None, inv=None, contig=True, ro=False):
        self.buf, self.shape, self.ro = buf, tuple(shape), ro
        if fwd is None:
            fwd = _ident
            inv = _ident_inv
        self.fwd, self.inv, self.contig = fwd, inv, contig

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, idx):
        return self.buf.get(tuple(self.fwd(tuple(idx))))

    def snap(self):
        """Entry function frozen at the current contents."""
        g, f = self.buf.get, self.fwd
        if f is _ident:
            return g
        return lambda idx: g(tuple(f(tuple(idx))))

    def __repr__(self):
        return 'Arr<%s>%s' % (self.kind, tuple(self.shape))


def _ident(v):
    return v


def _ident_inv(x):
    return tm.ONE, x


def memo_get(f):
    cache = {}

    def get(idx):
        k = tuple(i.id for i in idx)
        r = cache.get(k)
        if r is None or r[0] != EPOCH[0]:
            r = (EPOCH[0], f(idx))
            cache[k] = r
        return r[1]
    return get


EPOCH = [0]


class ListV:
    __slots__ = ('items', 'id', 'sym', 'tag')

    def __init__(self, items, tag=None):
        self.items = list(items)
        self.sym = None
        self.id = next(_c)
        self.tag = tag

    def __repr__(self):
        return 'ListV(%r)' % (self.items,)


class SymSeq:
    """Sequence of symbolic length n, item i given by get(Term)."""
    __slots__ = ('n', 'get', 'islist')

    def __init__(self, n, get, islist=True):
        self.n, self.get, self.islist = n, get, islist


class BytesV:
    """The bytes of an array."""
    __slots__ = ('arr', 'kind')

    def __init__(self, arr):
        self.arr, self.kind = arr, 'bytes ' + arr.kind


class Same:
    """Identity of an object as part of a dictionary key."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def has_sym(h):
    return h[0] in ('sym', 'seq', 'fstr') or h[0] == 'tup' and any(has_sym(x) for x in h[1:])


class DictV:
    __slots__ = ('d', 'id', 'unknown')

    def __init__(self, d=None):
        self.d = dict(d or {})
        self.id = next(_c)
        self.unknown = False


class _Attrs(MutableMapping):
    """The attributes of an object, seen as the items of its __dict__."""

    def __init__(self, attrs):
        self.a = attrs

    def __getitem__(self, h):
        return (h[1], self.a[h[1]]) if isinstance(h, tuple) and len(h) == 2 and h[0] == 'str' else {}[h]

    def __setitem__(self, h, kv):
        self.a[h[1]] = kv[1]

    def __delitem__(self, h):
        del self.a[h[1]]

    def __iter__(self):
        return iter([('str', k) for k in self.a])

    def __len__(self):
        return len(self.a)


class AttrView(DictV):
    """obj.__dict__"""
    __slots__ = ('view',)

    def __init__(self, obj):
        self.view = _Attrs(obj.attrs)
        self.id = obj.id
        self.unknown = False

    @property
    def d(self):
        return self.view


class SetV:
    __slots__ = ('s', 'id')

    def __init__(self, s=()):
        self.s = set(s)
        self.id = next(_c)


class RangeV:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c


class SliceV:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class ClassV:
    def __init__(self, name, bases=(), d=None, module=None, builtin=False):
        self.name, self.bases, self.d = name, list(bases), dict(d or {})
        self.module, self.builtin = module, builtin
        self.id = next(_c)
        self.mro = _mro(self)

    def lookup(self, name):
        for c in self.mro:
            if name in c.d:
                return c.d[name], c
        return None, None

    def issub(self, o):
        return o in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


def _mro(c):
    seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
    out = [c]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in q[1:] for q in seqs):
                break
        else:
            raise TypeError('mro')
        out.append(h)
        for q in seqs:
            if q and q[0] is h:
                q.pop(0)
        seqs = [q for q in seqs if q]
    return out


class Obj:
    __slots__ = ('cls', 'attrs', 'id', 'hooks')

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})
        self.id = next(_c)
        self.hooks = None

    def __repr__(self):
        return '<%s object>' % self.cls.name


class FuncV:
    __slots__ = ('node', 'env', 'defaults', 'kwdefaults', 'module', 'name', 'cls', 'abstract', 'attrs', 'isgen')

    def __init__(self, node, env, defaults, kwdefaults, module, name):
        self.node, self.env, self.defaults, self.kwdefaults = node, env, defaults, kwdefaults
        self.module, self.name = module, name
        self.cls = None
        self.abstract = False
        self.attrs = {}
        self.isgen = None

    def __repr__(self):
        return '<function %s>' % self.name


class BoundM:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Native:
    __slots__ = ('fn', 'name', 'attrs')

    def __init__(self, fn, name, attrs=None):
        self.fn, self.name = fn, name
        self.attrs = attrs or {}

    def __repr__(self):
        return '<native %s>' % self.name


class TypeV:
    """Builtin / numpy type object (int, float, np.ndarray, np.float64...)."""
    __slots__ = ('name', 'kind', 'fn', 'attrs')

    def __init__(self, name, kind=None, fn=None, attrs=None):
        self.name, self.kind, self.fn = name, kind, fn
        self.attrs = attrs or {}

    def __repr__(self):
        return '<type %s>' % self.name


class PropV:
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ClassM:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ModV:
    def __init__(self, name, attrs=None, missing=None):
        self.name, self.attrs, self.missing = name, dict(attrs or {}), missing

    def __repr__(self):
        return '<module %s>' % self.name


class NS:
    """Free-form native object: attribute access through a dict/func."""
    def __init__(self, name, attrs=None, getter=None, call=None):
        self.name, self.attrs, self.getter, self.call = name, dict(attrs or {}), getter, call
        self.id = next(_c)

    def __repr__(self):
        return '<%s>' % self.name


class PyRaise(Exception):
    """A Python exception raised by the analysed program."""
    where = ''

    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        return '%s(%s)' % (self.exc.cls.name, ', '.join(str(a)[:80] for a in self.exc.attrs.get('args', ())))


ORDER = 'bifc'


def kmax(*ks):
    return max(ks, key=ORDER.index)


def is_num(v):
    return isinstance(v, (bool, int, float, complex, Sc))


def kind_of(v):
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if isinstance(v, float):
        return 'f'
    if isinstance(v, complex):
        return 'c'
    return v.kind


def term_of(v):
    return v.t if isinstance(v, Sc) else T(v)


def mk(t, kind, np=False):
    """Scalar value for a term; concrete when exactly representable."""
    c = tm.as_const(t)
    if c is not None:
        if kind == 'b':
            if c in (0, 1):
                return bool(c)
        elif kind == 'i':
            if c.denominator == 1:
                return int(c)
        elif kind == 'f' and not np:
            f = float(c)
            if tm.as_const(T(f)) == c:
                return f
    return Sc(t, kind, np)
