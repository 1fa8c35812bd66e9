"""Abstract interpreter for the Python subset used by the repository."""
import ast
import os
import re
import builtins as pyb
from . import terms as tm
from .terms import T, Term
from .values import *
from . import values as V

MAX_STEPS = 400000
BUILTIN_EXC = {}


def _mkexc():
    def walk(e, base):
        c = ClassV(e.__name__, [base] if base else [], {}, None, True)
        BUILTIN_EXC[e.__name__] = c
        for s in e.__subclasses__():
            if s.__module__ == 'builtins' and s.__name__ not in BUILTIN_EXC:
                walk(s, c)
    walk(BaseException, None)
    BUILTIN_EXC['IOError'] = BUILTIN_EXC['EnvironmentError'] = BUILTIN_EXC['OSError']


_mkexc()
OBJECT = ClassV('object', [], {}, None, True)
BUILTIN_EXC['LinAlgError'] = ClassV('LinAlgError', [BUILTIN_EXC['ValueError']], {}, None, True)
BUILTIN_EXC['UFuncTypeError'] = ClassV('UFuncTypeError', [BUILTIN_EXC['TypeError']], {}, None, True)


def raise_(name, msg=''):
    raise PyRaise(Obj(BUILTIN_EXC[name], {'args': (msg,)}))


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Env:
    __slots__ = ('vars', 'parent', 'globals', 'globs', 'nonlocs', 'func', 'self0', 'yields')

    def __init__(self, parent, globals_, func=None):
        self.vars, self.parent, self.globals = {}, parent, globals_
        self.globs, self.nonlocs, self.func, self.self0, self.yields = (), (), func, None, None


class SymStr(str):
    pass


class Branches:
    """Decision vector of one trace partition."""

    def __init__(self, decisions):
        self.decisions = list(decisions)
        self.pos = 0
        self.guards = []

    def choose(self, term):
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = True
            self.decisions.append(d)
        self.pos += 1
        self.guards.append((term, d))
        return d


MAX_GUARDS = 14


PROTOCOL = {}
for _n, _o in [('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('pow', 'Pow'), ('matmul', 'MatMult'),
               ('and', 'BitAnd'), ('or', 'BitOr'), ('xor', 'BitXor')]:
    PROTOCOL['__%s__' % _n] = ('bin', _o)
    PROTOCOL['__r%s__' % _n] = ('rbin', _o)
    PROTOCOL['__i%s__' % _n] = ('iop', _o)
for _n, _o in [('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq')]:
    PROTOCOL['__%s__' % _n] = ('cmp', _o)
PROTOCOL['__getitem__'] = ('get', None)
PROTOCOL['__setitem__'] = ('set', None)
PROTOCOL_NONE = (type(None), str)
ND_NAMES = frozenset("""T __abs__ __add__ __and__ __array__ __array_finalize__ __array_function__ __array_interface__ __array_prepare__ __array_priority__ __array_struct__
__array_ufunc__ __array_wrap__ __bool__ __buffer__ __class__ __class_getitem__ __complex__ __contains__ __copy__ __deepcopy__ __delattr__ __delitem__
__dir__ __divmod__ __dlpack__ __dlpack_device__ __doc__ __eq__ __float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __getstate__
__gt__ __hash__ __iadd__ __iand__ __ifloordiv__ __ilshift__ __imatmul__ __imod__ __imul__ __index__ __init__ __init_subclass__ __int__ __invert__
__ior__ __ipow__ __irshift__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lshift__ __lt__ __matmul__ __mod__ __mul__ __ne__ __neg__
__new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__
__ror__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __sub__
__subclasshook__ __truediv__ __xor__ all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes
cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder
nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes
take tobytes tofile tolist tostring trace transpose var view""".split())
NP_NAMES = frozenset("""T __abs__ __add__ __and__ __array__ __array_interface__ __array_priority__ __array_struct__ __array_wrap__ __bool__ __buffer__ __ceil__ __class__
__class_getitem__ __complex__ __copy__ __deepcopy__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __float__ __floor__ __floordiv__ __format__ __ge__
__getattribute__ __getformat__ __getitem__ __getnewargs__ __getstate__ __gt__ __hash__ __index__ __init__ __init_subclass__ __int__ __invert__ __le__
__lshift__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__
__rfloordiv__ __rlshift__ __rmod__ __rmul__ __ror__ __round__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setstate__
__sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __trunc__ __xor__ all any argmax argmin argsort as_integer_ratio astype base bit_count
byteswap choose clip compress conj conjugate copy cumprod cumsum data denominator diagonal dtype dump dumps fill flags flat flatten fromhex getfield
hex imag is_integer item itemset itemsize max mean min nbytes ndim newbyteorder nonzero numerator prod ptp put ravel real repeat reshape resize round
searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view""".split())


def real_names(v):
    """Attributes that the modelled value has in reality."""
    if isinstance(v, Arr):
        return ND_NAMES
    if isinstance(v, Sc):
        return NP_NAMES if v.np else dir(complex) if v.kind == 'c' else dir(float) if v.kind == 'f' else dir(int)
    if isinstance(v, (bool, int, float, complex, str, tuple)):
        return dir(v)
    if isinstance(v, ListV):
        return dir(list)
    if isinstance(v, DictV):
        return dir(dict)
    if isinstance(v, SetV):
        return dir(set)
    if isinstance(v, RangeV):
        return dir(range)
    return ()


class Interp:
    def __init__(self, root, package_dirs, sources=None):
        self.root = root
        self.dirs = package_dirs      # package name -> directory
        self.sources = sources if sources is not None else {}
        self.modules = {}
        self.branches = Branches([])
        self.steps = 0
        self.events = []
        self.journal = None
        self.local = None             # local fork stack for loop bodies
        self.stack = []
        self.loop_depth = 0
        self.rng = 0
        self.draws = []               # uses of the random state with the functions on the stack
        self.watch = None             # effect analysis (dsa/effects.py): observer of calls that enter the repository from caller code
        self.names = []               # qualified names of the functions on the stack
        self.used = {}                # in order of first call: (module, qualname) of analysed functions
        from . import npmodel
        self.np = npmodel
        self.builtins = npmodel.make_builtins(self)
        self.ext = npmodel.make_ext_modules(self)

    # ------------------------------------------------------------ events
    def event(self, kind, *info):
        self.events.append((kind, self.where()) + info)
        if kind in ('rng', 'rngseed', 'rngnew'):
            self.draws.append((kind, self.where(), info, list(self.names)))

    def where(self):
        if self.stack:
            f, node = self.stack[-1]
            return '%s:%s' % (f, getattr(node, 'lineno', '?'))
        return '?'

    # ------------------------------------------------------------ journal
    def undo(self, f):
        if self.journal is not None:
            self.journal.append(f)

    def set_buf(self, buf, get):
        if buf.readonly:
            raise_('ValueError', 'assignment destination is read-only')
        old = buf.get
        self.undo(lambda: setattr(buf, 'get', old))
        buf.get = get
        if self.loop_watch is not None:
            self.loop_watch.setdefault(buf.id, buf)
        self.event('store', buf)

    loop_watch = None
    list_watch = None
    loop_idx = ()

    # ------------------------------------------------------------ modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parts = name.split('.')
        if name in self.ext:
            return self.ext[name]
        if parts[0] not in self.dirs:
            top = self.ext.get(parts[0])
            if top is not None:
                v = top
                for p in parts[1:]:
                    v = self.getattr(v, p)
                return v
            return Unk('module ' + name)
        base = self.dirs[parts[0]]
        path = os.path.join(base, *parts[1:])
        if os.path.isdir(path):
            f = os.path.join(path, '__init__.py')
            pkg = True
        else:
            f = path + '.py'
            pkg = False
        if not os.path.exists(f):
            raise PyRaise(Obj(BUILTIN_EXC['ModuleNotFoundError'], {'args': (name,)}))
        if len(parts) > 1 and '.'.join(parts[:-1]) not in self.modules:
            self.load('.'.join(parts[:-1]))
            if name in self.modules:
                return self.modules[name]
        tree = self.parse(f)
        m = ModV(name)
        m.attrs['__name__'] = name
        m.attrs['__file__'] = f
        m.pkg = pkg
        m.file = f
        self.modules[name] = m
        if len(parts) > 1:
            par = self.load('.'.join(parts[:-1]))
            if isinstance(par, ModV):
                par.attrs[parts[-1]] = m
        env = Env(None, m)
        env.vars = m.attrs
        self.stack.append((os.path.relpath(f, self.root) if f.startswith(self.root) else os.path.basename(f), tree))
        try:
            self.block(tree.body, env)
        except PyRaise:
            self.modules.pop(name, None)
            raise
        finally:
            self.stack.pop()
        return m

    _trees = {}

    def parse(self, f):
        st = os.stat(f)
        k = (f, st.st_mtime_ns, st.st_size)
        t = Interp._trees.get(k)
        if t is None:
            with open(f, encoding='utf-8') as fh:
                t = ast.parse(fh.read(), f)
            Interp._trees[k] = t
        return t

    # ------------------------------------------------------------ branching
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, complex, str, tuple)):
            return bool(v)
        if isinstance(v, Sc):
            if v.kind == 'b':
                return self.decide(v.t)
            return self.decide(tm.b_not(tm.ind_eq(v.t)))
        if isinstance(v, ListV):
            if v.sym:
                return self.decide(tm.ind_ge(v.sym.n - 1))
            return bool(v.items)
        if isinstance(v, SymSeq):
            return self.decide(tm.ind_ge(v.n - 1))
        if isinstance(v, DictV):
            if v.unknown:
                raise Undecided('truth of havocked dict')
            return bool(v.d)
        if isinstance(v, SetV):
            return bool(v.s)
        if isinstance(v, RangeV):
            n = self.range_len(v)
            return self.decide(tm.ind_ge(n - 1))
        if isinstance(v, Arr):
            n = tm.ONE
            for s in v.shape:
                n = n * s
            if self.decide(tm.ind_eq(n - 1)):
                return self.truth(mk(v.at([tm.ZERO] * v.ndim), v.kind))
            raise_('ValueError', 'The truth value of an array with more than one element is ambiguous.')
        if isinstance(v, Obj):
            f, c = v.cls.lookup('__bool__')
            if f is not None:
                return self.truth(self.call(BoundM(f, v), []))
            f, c = v.cls.lookup('__len__')
            if f is not None:
                return self.truth(self.call(BoundM(f, v), []))
            return True
        if isinstance(v, Unk):
            raise Undecided('branch on unknown: %s at %s' % (v.why, self.where()))
        return True

    def decide(self, cond):
        if cond is tm.ONE:
            return True
        if cond is tm.ZERO:
            return False
        if tm.tainted(cond):
            raise Undecided('branch on unknown condition at %s' % self.where())
        # re-normalise under the current facts
        c = renorm(cond)
        if c is tm.ONE:
            return True
        if c is tm.ZERO:
            return False
        for t, d in self.branches.guards:
            if t is c:
                return d
            if t is tm.b_not(c):
                return not d
        # products of indicators known to vanish
        u = self.drop_zero(c)
        if u is tm.ONE:
            return True
        if u is tm.ZERO:
            return False
        # unit propagation through earlier compound guards
        for t, d in self.branches.guards:
            if len(t.p) > 1 or (len(t.p) == 1 and len(t.p[0][0].factors) > 1):
                u = renorm(t)
                if u is not t:
                    if u is c:
                        return d
                    if u is tm.b_not(c):
                        return not d
        if self.local is not None and self.local.is_local(c):
            d = self.local.choose(c)
        else:
            if len(self.branches.guards) >= MAX_GUARDS:
                raise Undecided('too many partitions')
            d = self.branches.choose(c)
        self.assume(c, d)
        return d

    def drop_zero(self, c):
        zero = []
        for t, d in self.branches.guards:
            p = t if not d else tm.b_not(t)
            if len(p.p) == 1 and p.p[0][1] == 1 and not p.p[0][0].binders and len(p.p[0][0].factors) > 1 and all(a.kind == 'ind' for a, e in p.p[0][0].factors):
                zero.append({a for a, e in p.p[0][0].factors})
        if not zero:
            return c
        keep = {m: k for m, k in c.p if not any(z <= {a for a, e in m.factors} for z in zero)}
        return c if len(keep) == len(c.p) else tm.mk_term(keep)

    def assume(self, c, d):
        V.EPOCH[0] += 1
        ctx = tm.CTX
        self._assume(ctx, c, d)
        tm.clear_caches()

    def _assume(self, ctx, c, d):
        a = tm.single_atom(c)
        if a is None:
            a = tm.single_atom(tm.b_not(c))
            if a is not None:
                d = not d
        if a is not None and a.kind == 'ind':
            ctx.assume[a] = d
            rel, t = a.data
            if rel == 'ge':
                if d:
                    ctx.ge_facts.append(t)
                elif t.isint:
                    ctx.ge_facts.append(tm.neg(t) - 1)
                else:
                    ctx.ge_facts.append(tm.neg(t))
            elif d:
                ctx.eq_facts.append(t)
                if len(t.p) <= 2:
                    ms = [(m, c) for m, c in t.p if m.factors]
                    if len(ms) == 1 and len(ms[0][0].factors) == 1 and not ms[0][0].binders and ms[0][0].factors[0][1] == 1:
                        x = ms[0][0].factors[0][0]
                        if x.kind in ('sym', 'el') and x.real:
                            v = tm.scale(tm.mk_term({m: c for m, c in t.p if not m.factors}), -1 / ms[0][1])
                            ctx.lo[x] = ctx.hi[x] = v
            forall_facts(ctx, rel, t, d)
            return
        # conjunction of indicators taken true
        if d and len(c.p) == 1 and c.p[0][1] == 1 and not c.p[0][0].binders:
            for a, e in c.p[0][0].factors:
                if a.kind == 'ind':
                    self._assume(ctx, tm.of_atom(a), True)
        elif not d and len(c.p) > 1:
            n = tm.b_not(c)
            if len(n.p) == 1 and n.p[0][1] == 1 and not n.p[0][0].binders:
                for a, e in n.p[0][0].factors:
                    if a.kind == 'ind':
                        self._assume(ctx, tm.of_atom(a), True)

    def lt(self, a, b):
        """a < b decided (branching when unknown), integer Terms."""
        return self.decide(tm.ind_ge(b - a - 1))

    def same_dim(self, a, b):
        d = a - b
        return self.decide(tm.ind_eq(d))

    # ------------------------------------------------------------ attributes
    def protocol(self, v, name):
        """Special methods of built-in values and arrays called by name."""
        kind, op = PROTOCOL[name]
        num = isinstance(v, (Arr, Sc, bool, int, float, complex))
        if kind == 'bin' and num:
            return Native(lambda I, a, k: I.binop(op, v, a[0]), name)
        if kind == 'rbin' and num:
            return Native(lambda I, a, k: I.binop(op, a[0], v), name)
        if kind == 'iop' and isinstance(v, Arr):
            return Native(lambda I, a, k: I.iop(op, v, a[0]), name)
        if kind == 'cmp' and num:
            return Native(lambda I, a, k: I.compare(op, v, a[0]), name)
        if num and not isinstance(v, Arr):
            return None
        if kind == 'get':
            return Native(lambda I, a, k: I.getitem(v, a[0]), name)
        if kind == 'set' and isinstance(v, (Arr, ListV, DictV)):
            return Native(lambda I, a, k: I.setitem(v, a[0], a[1]), name)
        return None

    def getattr(self, v, name, default=KeyError):
        try:
            return self._getattr(v, name)
        except PyRaise as e:
            if default is not KeyError and e.exc.cls.issub(BUILTIN_EXC['AttributeError']):
                return default
            raise

    def _getattr(self, v, name):
        if isinstance(v, Unk):
            return Unk(v.why + '.' + name)
        if isinstance(v, Obj):
            if v.hooks and name in v.hooks:
                return v.hooks[name](self, v)
            c, owner = v.cls.lookup(name)
            if isinstance(c, PropV):
                return self.call(c.fget, [v])
            if name in v.attrs:
                return v.attrs[name]
            if name == '__class__':
                return v.cls
            if name == '__dict__':
                return AttrView(v)
            if c is not None:
                return self.bind(c, v, v.cls)
            if name == '__init__':
                return Native(lambda I, a, k: None, 'object.__init__')
            g, owner = v.cls.lookup('__getattr__')
            if g is not None:
                return self.call(BoundM(g, v), [name])
            if v.cls.issub(BUILTIN_EXC['BaseException']) and name == 'args':
                return ()
            if any(getattr(b, 'unknown', False) for b in v.cls.mro):
                return Unk('attribute of unknown base')
            raise_('AttributeError', "'%s' object has no attribute '%s'" % (v.cls.name, name))
        if isinstance(v, ClassV):
            if name == '__class__':
                return Unk('metaclass')
            if name == '__members__' and hasattr(v, 'members'):
                return DictV({('str', m.attrs['name']): (m.attrs['name'], m) for m in v.members})
            if name == '__name__' or name == '__qualname__':
                return v.name
            if name == '__mro__':
                return tuple(v.mro)
            if name == '__module__':
                return v.module.name if v.module else 'builtins'
            c, owner = v.lookup(name)
            if c is None:
                if any(getattr(b, 'unknown', False) for b in v.mro):
                    return Unk('attribute of unknown base')
                if name in ('__init__', '__new__'):
                    return Native(lambda I, a, k: None, 'object.' + name)
                raise_('AttributeError', "type object '%s' has no attribute '%s'" % (v.name, name))
            if isinstance(c, StaticM):
                return c.f
            if isinstance(c, ClassM):
                return BoundM(c.f, v)
            return c
        if isinstance(v, ModV):
            if name in v.attrs:
                return v.attrs[name]
            full = v.name + '.' + name
            if v.name.split('.')[0] in self.dirs:
                try:
                    return self.load(full)
                except PyRaise:
                    pass
                raise_('AttributeError', "module '%s' has no attribute '%s'" % (v.name, name))
            if v.missing:
                return v.missing(name)
            return Unk(full)
        if isinstance(v, NS):
            if name in v.attrs:
                return v.attrs[name]
            if v.getter:
                return v.getter(self, v, name)
            return Unk(v.name + '.' + name)
        if isinstance(v, FuncV):
            if name in v.attrs:
                return v.attrs[name]
            if name in ('__name__', '__qualname__'):
                return v.name
            return Unk('function attribute ' + name)
        if isinstance(v, BoundM):
            if name == '__self__':
                return v.self
            if name == '__func__':
                return v.func
            return self._getattr(v.func, name)
        if isinstance(v, (TypeV, Native)):
            if name in v.attrs:
                return v.attrs[name]
            if name == '__name__':
                return v.name
            return Unk('%s.%s' % (v.name, name))
        if isinstance(v, SuperV):
            return v.get(self, name)
        r = self.np.native_attr(self, v, name)
        if r is not NotImplemented:
            return r
        if name in PROTOCOL and not isinstance(v, PROTOCOL_NONE):
            r = self.protocol(v, name)
            if r is not None:
                return r
        if name in real_names(v):
            raise Undecided("attribute '%s' of %s" % (name, self.np.type_name(v)))
        raise_('AttributeError', "'%s' object has no attribute '%s'" % (self.np.type_name(v), name))

    def bind(self, c, obj, cls):
        if isinstance(c, FuncV):
            return BoundM(c, obj)
        if isinstance(c, StaticM):
            return c.f
        if isinstance(c, ClassM):
            return BoundM(c.f, cls)
        if isinstance(c, Native) and c.attrs.get('method'):
            return BoundM(c, obj)
        return c

    def setattr(self, v, name, val):
        if isinstance(v, Obj):
            if v.hooks and ('set_' + name) in v.hooks:
                v.hooks['set_' + name](self, v, val)
                return
            c, owner = v.cls.lookup(name)
            if isinstance(c, PropV):
                if c.fset is None:
                    raise_('AttributeError', "can't set attribute '%s'" % name)
                self.call(c.fset, [v, val])
                return
            had = name in v.attrs
            old = v.attrs.get(name)
            self.undo((lambda: v.attrs.__setitem__(name, old)) if had else (lambda: v.attrs.pop(name, None)))
            v.attrs[name] = val
            self.event('setattr', v, name)
        elif isinstance(v, ClassV):
            old = v.d.get(name)
            v.d[name] = val
            self.event('setclassattr', v, name)
        elif isinstance(v, ModV):
            v.attrs[name] = val
            self.event('setmodattr', v, name)
        elif isinstance(v, NS):
            self.event('nssetattr', v, name, val)
            v.attrs[name] = val
        elif isinstance(v, FuncV):
            v.attrs[name] = val
            self.event('setmodattr', v, name)
        elif isinstance(v, Arr):
            self.np.arr_setattr(self, v, name, val)
        elif isinstance(v, Unk):
            pass
        elif hasattr(v, 'ext_setattr'):
            v.ext_setattr(self, name, val)
        else:
            raise_('AttributeError', 'cannot set attribute ' + name)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Undecided('step budget')
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Native):
            if self.hooks and f.name in self.hooks:
                return self.hooks[f.name](self, args, kwargs)
            return f.fn(self, list(args), kwargs)
        if isinstance(f, TypeV):
            if f.fn is None:
                return Unk('call of %s' % f.name)
            return f.fn(self, list(args), kwargs)
        if isinstance(f, NS):
            if f.call:
                return f.call(self, f, list(args), kwargs)
            return Unk('call of %s' % f.name)
        if isinstance(f, Unk):
            return Unk('call of ' + f.why)
        if isinstance(f, Obj):
            c, o = f.cls.lookup('__call__')
            if c is not None:
                return self.call(self.bind(c, f, f.cls), args, kwargs)
        raise_('TypeError', "'%s' object is not callable" % self.np.type_name(f))

    def instantiate(self, cls, args, kwargs):
        if getattr(cls, 'native_new', None):
            return cls.native_new(self, cls, args, kwargs)
        if cls.issub(BUILTIN_EXC['BaseException']):
            o = Obj(cls, {'args': tuple(args)})
            init, owner = cls.lookup('__init__')
            if init is not None:
                self.call(BoundM(init, o), args, kwargs)
            return o
        if any(getattr(b, 'is_enum', False) for b in cls.mro):
            for m in getattr(cls, 'members', []):
                if m is args[0] or self.truth(self.compare('Eq', m.attrs['value'], args[0])):
                    return m
            raise_('ValueError', 'not a valid %s' % cls.name)
        if any(getattr(b, 'is_abc', False) for b in cls.mro):
            ab = self.abstract_names(cls)
            if ab:
                raise_('TypeError', "Can't instantiate abstract class %s with abstract methods %s" % (cls.name, ', '.join(sorted(ab))))
        o = Obj(cls)
        init, owner = cls.lookup('__init__')
        if init is not None:
            self.call(self.bind(init, o, cls), args, kwargs)
        elif (args or kwargs) and not any(getattr(b, 'unknown', False) for b in cls.mro):
            raise_('TypeError', '%s() takes no arguments' % cls.name)
        return o

    def abstract_names(self, cls):
        names = set()
        for c in cls.mro:
            for n, v in c.d.items():
                names.add(n)
        out = set()
        for n in names:
            v, o = cls.lookup(n)
            if is_abstract(v):
                out.add(n)
        return out

    def call_func(self, f, args, kwargs):
        node = f.node
        a = node.args
        env = Env(f.env, f.module, f)
        if len(self.stack) > 60:
            raise Undecided('call depth')
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = env.vars
        npos = len(pos)
        if len(args) > npos:
            if a.vararg is None:
                raise_('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, npos, len(args)))
            vals[a.vararg.arg] = tuple(args[npos:])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vals[n] = v
        kwn = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwn:
                if k in vals and k in pos:
                    raise_('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise_('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DictV({('str', k): (k, v) for k, v in extra.items()})
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (npos - nd)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    raise_('TypeError', "%s() missing required argument: '%s'" % (f.name, n))
        for n, d in zip(kwn, f.kwdefaults):
            if n not in vals:
                if d is KeyError:
                    raise_('TypeError', "%s() missing keyword argument '%s'" % (f.name, n))
                vals[n] = d
        if args:
            env.self0 = args[0]
        if isinstance(node, ast.Lambda):
            self.stack.append((self.stack[-1][0] if self.stack else '?', node))
            try:
                return self.eval(node.body, env)
            finally:
                self.stack.pop()
        mod = f.module
        fname = mod.file if hasattr(mod, 'file') else '?'
        rel = os.path.relpath(fname, self.root) if fname.startswith(self.root) else os.path.basename(fname)
        q = (f.cls.name + '.' if f.cls else '') + f.name
        self.used[(rel, q)] = True
        w = self.watch
        tok = w.enter(self, f, mod, vals, args) if w is not None else None
        self.names.append((getattr(mod, 'attrs', {}).get('__name__', ''), f))
        self.stack.append((rel, node))
        if f.isgen is None:
            f.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_func(node))
        if f.isgen:
            env.yields = []
        try:
            self.block(node.body, env)
            r = None
        except _Ret as e:
            r = e.v
        finally:
            self.stack.pop()
            self.names.pop()
            if w is not None:
                w.leave(self, tok)
        if f.isgen:
            return ListV(env.yields)
        return r

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Undecided('step budget')
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], s)
        m = getattr(self, 's_' + s.__class__.__name__, None)
        if m is None:
            raise Undecided('statement %s' % s.__class__.__name__)
        try:
            m(s, env)
        except PyRaise as e:
            if not e.where:
                e.where = self.where()
            raise

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise _Ret(None if s.value is None else self.eval(s.value, env))

    def s_Break(self, s, env):
        raise _Brk()

    def s_Continue(self, s, env):
        raise _Cont()

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = s.op.__class__.__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            r = self.iop(op, cur, self.eval(s.value, env))
            self.store_name(t.id, r, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            r = (self.binop if isinstance(o, Arr) and t.attr in ('real', 'imag') and o.kind == 'c' else self.iop)(op, cur, self.eval(s.value, env))
            if not (r is cur and isinstance(r, Arr)) or not isinstance(o, Obj):
                self.setattr(o, t.attr, r)
            elif r is cur and isinstance(o, Obj):
                c, _ = o.cls.lookup(t.attr)
                if isinstance(c, PropV) and c.fset is None:
                    raise_('AttributeError', "can't set attribute '%s'" % t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            r = self.iop(op, cur, self.eval(s.value, env))
            if r is cur and isinstance(r, Arr) and isinstance(o, Arr) and r.buf is o.buf:
                return
            self.setitem(o, k, r)
        else:
            raise Undecided('augmented target')

    def iop(self, op, cur, v):
        if isinstance(cur, Arr):
            return self.np.inplace(self, op, cur, v)
        if isinstance(cur, ListV) and op == 'Add':
            if cur.sym or isinstance(v, (SymSeq, Unk)) or (isinstance(v, ListV) and v.sym):
                return self.binop(op, cur, v)
            self.list_extend(cur, self.iter_concrete(v))
            return cur
        return self.binop(op, cur, v)

    def list_extend(self, l, items):
        n = list.__len__(l.items)
        self.undo(lambda: l.items.__delitem__(slice(n, None)))
        l.items.extend(items)
        self.event('listmut', l)
        if self.list_watch is not None:
            self.list_watch.setdefault(l.id, (l, n))

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while True:
            if not self.truth(self.eval(s.test, env)):
                self.block(s.orelse, env)
                return
            n += 1
            if n > 400:
                raise Undecided('while loop bound')
            try:
                self.block(s.body, env)
            except _Brk:
                return
            except _Cont:
                continue

    def s_For(self, s, env):
        it = self.iterate(self.eval(s.iter, env))
        if isinstance(it, SymSeq):
            n = it.n
            c = tm.as_int(n)
            if c is not None and c <= 64:
                it = [it.get(T(i)) for i in range(c)]
            else:
                from . import loops
                loops.sym_for(self, s, it, env)
                return
        broke = False
        for x in it:
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except _Brk:
                broke = True
                break
            except _Cont:
                continue
        if not broke:
            self.block(s.orelse, env)

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        for d in reversed(s.decorator_list):
            f = self.decorate(self.eval(d, env), f)
        self.store_name(s.name, f, env)

    def make_func(self, s, env):
        a = s.args
        defs = [self.eval(d, env) for d in a.defaults]
        kwd = [KeyError if d is None else self.eval(d, env) for d in a.kw_defaults]
        f = FuncV(s, env, defs, kwd, env.globals, getattr(s, 'name', '<lambda>'))
        return f

    def decorate(self, d, f):
        if isinstance(d, TypeV) and d.name == 'property':
            return PropV(f)
        if isinstance(d, TypeV) and d.name == 'staticmethod':
            return StaticM(f)
        if isinstance(d, TypeV) and d.name == 'classmethod':
            return ClassM(f)
        return self.call(d, [f])

    def s_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        unknown = False
        bs = []
        for b in bases:
            if isinstance(b, ClassV):
                bs.append(b)
            elif isinstance(b, TypeV) and b.name == 'object':
                pass
            else:
                unknown = True
        abc = False
        for k in s.keywords:
            if k.arg == 'metaclass':
                v = self.eval(k.value, env)
                abc = True
        e = Env(env, env.globals)
        e.vars['__module__'] = env.globals.name
        self.block(s.body, e)
        if not bs:
            bs = [OBJECT]
        c = ClassV(s.name, bs, e.vars, env.globals)
        c.unknown = unknown
        if abc:
            c.is_abc = True
        for n, v in e.vars.items():
            for f in funcs_of(v):
                if f.cls is None:
                    f.cls = c
        if any(getattr(b, 'is_enum', False) for b in c.mro):
            c.members = []
            for n, v in list(c.d.items()):
                if not n.startswith('_') and not isinstance(v, (FuncV, PropV, StaticM, ClassM)):
                    m = Obj(c, {'name': n, 'value': v, '_value_': v, '_name_': n})
                    c.d[n] = m
                    c.members.append(m)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env), [v])
        self.store_name(s.name, v, env)

    def s_Import(self, s, env):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.store_name(a.asname, m, env)
            else:
                self.store_name(a.name.split('.')[0], self.load(a.name.split('.')[0]), env)

    def s_ImportFrom(self, s, env):
        name = s.module or ''
        if s.level:
            cur = env.globals.name.split('.')
            if not getattr(env.globals, 'pkg', False):
                cur = cur[:-1]
            cur = cur[:len(cur) - (s.level - 1)]
            name = '.'.join(cur + ([name] if name else []))
        m = self.load(name)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, ModV):
                    allv = m.attrs.get('__all__')
                    for k, v in list(m.attrs.items()):
                        if not k.startswith('_') and (allv is None or k in [x for x in allv.items]):
                            self.store_name(k, v, env)
                continue
            try:
                v = self.getattr(m, a.name)
            except PyRaise as e:
                if e.exc.cls.name == 'AttributeError':
                    raise_('ImportError', 'cannot import name %s from %s' % (a.name, name))
                raise
            self.store_name(a.asname or a.name, v, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            if self.cur_exc:
                raise PyRaise(self.cur_exc[-1])
            raise_('RuntimeError', 'No active exception to reraise')
        v = self.eval(s.exc, env)
        if isinstance(v, ClassV):
            v = self.call(v, [])
        if isinstance(v, Obj):
            raise PyRaise(v)
        raise Undecided('raise of unknown')

    cur_exc = ()

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ts = self.eval(h.type, env)
                        ts = ts if isinstance(ts, tuple) else (ts,)
                        ok = False
                        for t in ts:
                            if isinstance(t, ClassV):
                                ok = ok or e.exc.cls.issub(t)
                            elif isinstance(t, Unk):
                                raise Undecided('unknown exception type')
                    if ok:
                        if h.name:
                            self.store_name(h.name, e.exc, env)
                        old = self.cur_exc
                        self.cur_exc = old + (e.exc,)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_With(self, s, env):
        ctxs = []
        for it in s.items:
            c = self.eval(it.context_expr, env)
            v = Unk('context')
            if isinstance(c, Obj):
                v = self.call(self.getattr(c, '__enter__'), [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            ctxs.append(c)
        try:
            self.block(s.body, env)
        finally:
            for c in ctxs:
                if isinstance(c, Obj):
                    self.call(self.getattr(c, '__exit__'), [None, None, None])

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise_('AssertionError', '')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    old = o.attrs.pop(t.attr)
                    self.undo(lambda: o.attrs.__setitem__(t.attr, old))
                    self.event('setattr', o, t.attr)
                else:
                    raise_('AttributeError', t.attr)

    def s_Global(self, s, env):
        env.globs = tuple(env.globs) + tuple(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocs = tuple(env.nonlocs) + tuple(s.names)

    # ------------------------------------------------------------ names
    def load_name(self, n, env):
        e = env
        first = True
        while e is not None:
            if first and n in e.globs:
                break
            if n in e.vars:
                # class bodies are not enclosing scopes for functions
                return e.vars[n]
            e = e.parent
            first = False
        g = env.globals.attrs
        if n in g:
            return g[n]
        if n in self.builtins:
            return self.builtins[n]
        raise_('NameError', "name '%s' is not defined" % n)

    def store_name(self, n, v, env):
        if n in env.globs:
            tgt = env.globals.attrs
            self.event('setmodattr', env.globals, n)
        elif n in env.nonlocs:
            e = env.parent
            while e is not None and n not in e.vars:
                e = e.parent
            tgt = e.vars if e is not None else env.vars
        else:
            tgt = env.vars
        if self.journal is not None:
            had, old = n in tgt, tgt.get(n)
            self.journal.append((lambda: tgt.__setitem__(n, old)) if had else (lambda: tgt.pop(n, None)))
        tgt[n] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Unk):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Unk(v.why + '[]'), env)
                return
            it = self.iterate(v)
            if isinstance(it, SymSeq):
                c = tm.as_int(it.n)
                if c is None:
                    if star:
                        raise Undecided('starred unpack of symbolic sequence')
                    if not self.decide(tm.ind_eq(it.n - len(t.elts))):
                        raise_('ValueError', 'wrong number of values to unpack')
                    c = len(t.elts)
                it = [it.get(T(i)) for i in range(c)]
            it = list(it)
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(it) < len(t.elts) - 1:
                    raise_('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], it[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, ListV(it[i:len(it) - after]), env)
                for e, x in zip(t.elts[i + 1:], it[len(it) - after:]):
                    self.assign(e, x, env)
                return
            if len(it) != len(t.elts):
                raise_('ValueError', 'wrong number of values to unpack (expected %d, got %d)' % (len(t.elts), len(it)))
            for e, x in zip(t.elts, it):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        else:
            raise Undecided('assignment target')

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + e.__class__.__name__, None)
        if m is None:
            return Unk('expression ' + e.__class__.__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        if e.value is Ellipsis:
            return Ellipsis
        return e.value

    def e_Name(self, e, env):
        return self.load_name(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        return self.eval(s, env)

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return ListV(self.elts(e.elts, env))

    def e_Set(self, e, env):
        s = SetV()
        for v in self.elts(e.elts, env):
            s.s.add(self.hkey(v, s.s))
        return s

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                out.extend(self.iter_concrete(v))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = DictV()
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, env)
                if not isinstance(m, DictV):
                    raise Undecided('dict unpack')
                d.d.update(m.d)
            else:
                kk = self.eval(k, env)
                d.d[self.hkey(kk, d.d)] = (kk, self.eval(v, env))
        return d

    def hkey(self, k, table=()):
        """Canonical key of k in a dictionary or set with the canonical keys in table; equal symbolic keys are told apart by cases."""
        h = self.hkey0(k)
        if table and h not in table:
            sym = has_sym(h)
            for h2 in list(table):
                if (sym or has_sym(h2)) and self.same_key(h, h2):
                    return h2
        return h

    def same_key(self, h, g):
        if h == g:
            return True
        if {h[0], g[0]} <= {'num', 'sym'}:
            return self.truth(self.compare('Eq', *[mk(x[1], 'c') if x[0] == 'sym' else x[1] for x in (h, g)]))
        if h[0] == g[0] == 'tup':
            return len(h) == len(g) and all(self.same_key(x, y) for x, y in zip(h[1:], g[1:]))
        if h[0] == g[0] == 'fstr':
            if h[1] != g[1]:
                raise Undecided('formatted key')
            return all(self.same_key(x, y) for x, y in zip(h[2:], g[2:]))
        if {h[0], g[0]} == {'fstr', 'str'}:
            raise Undecided('formatted key')
        if h[0] == g[0] == 'seq':
            if h[1] != g[1]:
                return False
            return self.truth(self.np.same_arrays(self, h[2].v, g[2].v))
        if {h[0], g[0]} == {'seq', 'tup'} and 'tuple' in (h[1], g[1]):
            raise Undecided('symbolic key')
        return False

    def hkey0(self, k):
        if isinstance(k, Sc):
            return ('sym', k.t)
        if isinstance(k, SymSeq) and not k.islist:
            if tm.as_int(k.n) is not None:
                return ('tup',) + tuple(self.hkey0(k.get(tm.const(i))) for i in range(tm.as_int(k.n)))
            return ('seq', 'tuple', Same(self.np.frozen(self, k)))
        if isinstance(k, BytesV):
            return ('seq', k.kind, Same(k.arr))
        if isinstance(k, (bool, int, float)):
            return ('num', k)
        if isinstance(k, str):
            if "⟪" in k:
                raise Undecided('formatted key')
            if '⟦' in k:
                x = re.split('⟦([0-9]+):[^⟧]*⟧', k)
                return ('fstr', tuple(x[::2])) + tuple(('sym', self.np.MARKS[int(i)]) for i in x[1::2])
            return ('str', str(k))
        if k is None:
            return ('none',)
        if isinstance(k, tuple):
            return ('tup',) + tuple(self.hkey0(x) for x in k)
        if isinstance(k, (ClassV, Obj, FuncV, Native, TypeV, ModV, NS)):
            if isinstance(k, Obj) and k.cls.lookup('__hash__')[0] is not None:
                raise Undecided('hashed object')
            return ('id', id(k))
        if isinstance(k, (ListV, DictV, Arr)):
            raise_('TypeError', 'unhashable type')
        raise Undecided('key %r' % (k,))

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(e.op.__class__.__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            n = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul', 'Mod': 'mod', 'Pow': 'pow', 'FloorDiv': 'floordiv'}.get(op)
            if isinstance(a, Obj):
                c, o = a.cls.lookup('__%s__' % n)
                if c is not None:
                    return self.call(self.bind(c, a, a.cls), [b])
            if isinstance(b, Obj):
                c, o = b.cls.lookup('__r%s__' % n)
                if c is not None:
                    return self.call(self.bind(c, b, b.cls), [a])
            raise_('TypeError', 'unsupported operand')
        return self.np.binop(self, op, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Unk):
                return v
            if isinstance(v, Sc) and v.kind == 'b':
                return mk(tm.b_not(v.t), 'b')
            return not self.truth(v)
        return self.np.unop(self, e.op.__class__.__name__, v)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not (isinstance(v, Sc) and v.kind == 'b') else False
            if not isand and t:
                return v if not (isinstance(v, Sc) and v.kind == 'b') else True
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            res = self.compare(op.__class__.__name__, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if isinstance(a, Unk) or isinstance(b, Unk):
                r = Unk('is') if not (a is b) else True
                if (a is None or b is None):
                    return Unk('is None of unknown')
                return r
            r = (a is b) or (type(a) is type(b) and isinstance(a, (bool, int, str, float)) and a == b)
            if isinstance(a, Sc) or isinstance(b, Sc):
                if a is None or b is None:
                    r = False
                elif isinstance(a, bool) or isinstance(b, bool):
                    sa, sb = (a, b) if isinstance(a, Sc) else (b, a)
                    r = self.truth(sa) == sb if sa.kind == 'b' and not sa.np else False
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            if op == 'In':
                return r
            if isinstance(r, bool):
                return not r
            if isinstance(r, Sc):
                return mk(tm.b_not(r.t), 'b')
            return r
        if isinstance(a, BytesV) or isinstance(b, BytesV):
            r = isinstance(a, BytesV) and isinstance(b, BytesV) and a.kind == b.kind and self.np.same_arrays(self, a.arr, b.arr)
            return r if op == 'Eq' else Unk('bytes') if op != 'NotEq' else not self.truth(r)
        if op in ('Eq', 'NotEq') and isinstance(a, str) and isinstance(b, str) and ('⟪' in a + b or '⟦' in a + b):
            if '⟪' in a + b or '⟦' not in a or '⟦' not in b:
                return Unk('formatted strings')
            r = self.same_key(self.hkey0(a), self.hkey0(b))
            return r if op == 'Eq' else not r
        return self.np.compare(self, op, a, b)

    def contains(self, x, c):
        if isinstance(c, Unk) or isinstance(x, Unk):
            return Unk('in')
        if isinstance(c, DictV):
            if c.unknown:
                return Unk('in havocked dict')
            return self.hkey(x, c.d) in c.d
        if isinstance(c, SetV):
            return self.hkey(x, c.s) in c.s
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise_('TypeError', 'in <string> requires string')
        if isinstance(c, NS) and c.getter:
            return Unk('in')
        if isinstance(c, Obj):
            f, o = c.cls.lookup('__contains__')
            if f is not None:
                return self.call(BoundM(f, c), [x])
        if isinstance(c, RangeV):
            st = tm.as_int(term_of(c.step))
            if st == 1 and is_num(x):
                t = term_of(x)
                return mk(tm.ind_ge(t - term_of(c.start)) * tm.ind_ge(term_of(c.stop) - t - 1), 'b')
        it = self.iterate(c)
        if isinstance(it, SymSeq):
            return Unk('in symbolic sequence')
        acc = tm.ZERO
        for y in it:
            if x is y:
                return True
            r = self.compare('Eq', x, y)
            if isinstance(r, Unk):
                return r
            if isinstance(r, Arr):
                r = self.truth(r)
            if r is True:
                return True
            if isinstance(r, Sc):
                acc = tm.b_or(acc, r.t)
        return mk(acc, 'b')

    def e_IfExp(self, e, env):
        c = self.eval(e.test, env)
        return self.eval(e.body if self.truth(c) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in env.vars:
            return self.make_super(e, env)
        f = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                if isinstance(v, Unk):
                    return Unk('call with unknown *args')
                if isinstance(f, Native) and f.attrs.get('symstar'):
                    it = self.iterate(v)
                    if isinstance(it, SymSeq) and tm.as_int(it.n) is None:
                        args.append(('*', it))
                        continue
                args.extend(self.iter_concrete(v))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, DictV) and not v.unknown:
                    for kk, (key, val) in v.d.items():
                        if not isinstance(key, str):
                            raise_('TypeError', 'keywords must be strings')
                        if key in kwargs:
                            raise_('TypeError', 'multiple values for keyword')
                        kwargs[key] = val
                else:
                    return Unk('call with unknown **kwargs')
            else:
                kwargs[k.arg] = v
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], e)
        return self.call(f, args, kwargs)

    def make_super(self, e, env):
        if e.args:
            cls = self.eval(e.args[0], env)
            obj = self.eval(e.args[1], env)
        else:
            x = env
            while x is not None and (x.func is None or x.func.cls is None):
                x = x.parent
            if x is None:
                raise Undecided('super')
            cls, obj = x.func.cls, x.self0
        return SuperV(cls, obj)

    def e_JoinedStr(self, e, env):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.eval(v.value, env)
                spec = ''
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env)
                out += self.np.fmt(self, x, spec, v.conversion)
        return out

    def e_FormattedValue(self, e, env):
        return self.np.fmt(self, self.eval(e.value, env), '', e.conversion)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Undecided('starred')

    def e_Yield(self, e, env):
        v = None if e.value is None else self.eval(e.value, env)
        x = env
        while x.yields is None:
            x = x.parent
        x.yields.append(v)
        return None

    def e_YieldFrom(self, e, env):
        x = env
        while x.yields is None:
            x = x.parent
        x.yields.extend(self.iter_concrete(self.eval(e.value, env)))
        return None

    def e_ListComp(self, e, env):
        r = self.comp(e.generators, env, lambda en: self.eval(e.elt, en))
        if isinstance(r, SymSeq):
            l = ListV([])
            l.sym = r
            return l
        return ListV(r)

    def e_GeneratorExp(self, e, env):
        r = self.comp(e.generators, env, lambda en: self.eval(e.elt, en))
        return r if isinstance(r, SymSeq) else ListV(r)

    def e_SetComp(self, e, env):
        r = self.comp(e.generators, env, lambda en: self.eval(e.elt, en))
        if isinstance(r, SymSeq):
            return Unk('symbolic set')
        s = SetV()
        for x in r:
            s.s.add(self.hkey(x, s.s))
        return s

    def e_DictComp(self, e, env):
        r = self.comp(e.generators, env, lambda en: (self.eval(e.key, en), self.eval(e.value, en)))
        if isinstance(r, SymSeq):
            return Unk('symbolic dict')
        d = DictV()
        for k, v in r:
            d.d[self.hkey(k, d.d)] = (k, v)
        return d

    def comp(self, gens, env, elt):
        out = []
        e0 = Env(env, env.globals, env.func)
        e0.self0 = env.self0
        sym = []

        def rec(k, en):
            if k == len(gens):
                out.append(elt(en))
                return
            g = gens[k]
            it = self.iterate(self.eval(g.iter, en))
            if isinstance(it, SymSeq):
                c = tm.as_int(it.n)
                if c is not None and c <= 64:
                    it = [it.get(T(i)) for i in range(c)]
                elif len(gens) == 1 and not g.ifs:
                    from . import loops
                    sym.append(loops.sym_comp(self, g.target, it, en, elt))
                    return
                else:
                    raise Undecided('symbolic nested comprehension')
            for x in it:
                self.assign(g.target, x, en)
                if all(self.truth(self.eval(c, en)) for c in g.ifs):
                    rec(k + 1, en)
        rec(0, e0)
        if sym:
            return sym[0]
        return out

    # ------------------------------------------------------------ iteration
    def range_len(self, r):
        a, b, c = term_of(r.start), term_of(r.stop), tm.as_int(term_of(r.step))
        if c is None or c == 0:
            raise Undecided('symbolic range step')
        d = b - a if c > 0 else a - b
        n = d if abs(c) == 1 else tm.floordiv(d + (abs(c) - 1), abs(c))
        if self.decide(tm.ind_ge(n)):
            return n
        return tm.ZERO

    def iterate(self, v):
        """Python list of values, or SymSeq."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            return v.sym if v.sym else list(v.items)
        if isinstance(v, SymSeq):
            return v
        if isinstance(v, str):
            return list(v)
        if isinstance(v, DictV):
            if v.unknown:
                raise Undecided('iteration over havocked dict')
            return [k for k, _ in v.d.values()]
        if isinstance(v, SetV):
            raise Undecided('iteration over set')
        if isinstance(v, RangeV):
            n = self.range_len(v)
            c = tm.as_int(n)
            a, st = term_of(v.start), term_of(v.step)
            if c is not None:
                if c > 600:
                    raise Undecided('long loop')
                return [mk(a + st * i, 'i') for i in range(c)]
            return SymSeq(n, lambda i: mk(a + st * i, 'i'))
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise_('TypeError', 'iteration over a 0-d array')
            c = tm.as_int(v.shape[0])
            if c is not None and c <= 600:
                return [self.getitem(v, i) for i in range(c)]
            return SymSeq(v.shape[0], lambda i: self.np.index_first(self, v, i))
        if isinstance(v, ClassV) and hasattr(v, 'members'):
            return list(v.members)
        if isinstance(v, Obj):
            f, o = v.cls.lookup('__iter__')
            if f is not None:
                return self.iterate(self.call(BoundM(f, v), []))
            f, o = v.cls.lookup('__getitem__')
            ln, o = v.cls.lookup('__len__')
            if f is not None and ln is not None:
                n = self.call(BoundM(ln, v), [])
                if isinstance(n, int):
                    return [self.call(BoundM(f, v), [i]) for i in range(n)]
                return SymSeq(term_of(n), lambda i: self.call(BoundM(f, v), [mk(i, 'i')]))
            raise_('TypeError', 'object is not iterable')
        if isinstance(v, Unk):
            raise Undecided('iteration over unknown: ' + v.why)
        if hasattr(v, 'iterate_hook'):
            return v.iterate_hook(self)
        if is_num(v) or v is None:
            raise_('TypeError', "'%s' object is not iterable" % self.np.type_name(v))
        raise Undecided('iteration over %r' % (v,))

    def iter_concrete(self, v):
        it = self.iterate(v)
        if isinstance(it, SymSeq):
            c = tm.as_int(it.n)
            if c is None:
                raise Undecided('symbolic length sequence')
            return [it.get(T(i)) for i in range(c)]
        return it

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        if isinstance(o, Unk):
            return Unk(o.why + '[]')
        if isinstance(o, Arr):
            return self.np.arr_getitem(self, o, k)
        if isinstance(o, DictV):
            if o.unknown:
                return Unk('havocked dict')
            h = self.hkey(k, o.d)
            if h not in o.d:
                raise_('KeyError', k)
            return o.d[h][1]
        if isinstance(o, ListV) and o.sym:
            o = o.sym
        if isinstance(o, (tuple, ListV, str)):
            items = o.items if isinstance(o, ListV) else o
            if isinstance(k, SliceV):
                if k.a is None and k.b is None and k.c is None:
                    r = items[:]
                else:
                    b = []
                    for x in (k.a, k.b, k.c):
                        if x is not None and not isinstance(x, int):
                            raise Undecided('symbolic list slice')
                        b.append(x)
                    r = items[slice(*b)]
                return ListV(r) if isinstance(o, ListV) else r
            if isinstance(k, Sc):
                return self.sym_item(list(items), k)
            if isinstance(k, bool) or isinstance(k, int):
                try:
                    return items[k]
                except IndexError:
                    raise_('IndexError', 'index out of range')
            if isinstance(k, Unk):
                return Unk('item')
            raise_('TypeError', 'indices must be integers')
        if isinstance(o, SymSeq):
            if isinstance(k, SliceV):
                return self.np.symseq_slice(self, o, k)
            if is_num(k):
                t = term_of(k)
                if not tm.prove_ge(t) and self.decide(tm.ind_ge(-t - 1)):
                    t = t + o.n
                return o.get(t)
            return Unk('symseq item')
        if isinstance(o, RangeV):
            if is_num(k):
                t = term_of(k)
                if tm.prove_ge(-t - 1):
                    t = t + self.range_len(o)
                return mk(term_of(o.start) + term_of(o.step) * t, 'i')
        if isinstance(o, Obj):
            c, ow = o.cls.lookup('__getitem__')
            if c is not None:
                return self.call(self.bind(c, o, o.cls), [k])
            raise_('TypeError', "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, (TypeV, ClassV)):
            return o
        if isinstance(o, NS):
            if o.getter:
                return o.getter(self, o, ('item', k))
            return Unk(o.name + '[]')
        if o is None or is_num(o) or isinstance(o, (FuncV, BoundM)):
            raise_('TypeError', "'%s' object is not subscriptable" % self.np.type_name(o))
        return Unk('getitem')

    def sym_item(self, items, k):
        """Item of a concrete sequence at a symbolic index."""
        if all(is_num(x) for x in items) and items:
            n = len(items)
            t = k.t
            if tm.prove_ge(-t - 1):
                t = t + n
            r = term_of(items[-1])
            for i in range(n - 2, -1, -1):
                r = tm.case(tm.ind_eq(t - i), term_of(items[i]), r)
            return mk(r, kmax(*[kind_of(x) for x in items]))
        raise Undecided('symbolic index into sequence')

    def setitem(self, o, k, v):
        if isinstance(o, Unk):
            return
        if isinstance(o, Arr):
            self.np.arr_setitem(self, o, k, v)
            return
        if isinstance(o, DictV):
            if self.loop_depth and self.loop_watch is not None:
                pass
            h = self.hkey(k, o.d)
            had, old = h in o.d, o.d.get(h)
            self.undo((lambda: o.d.__setitem__(h, old)) if had else (lambda: o.d.pop(h, None)))
            o.d[h] = (k, v)
            self.event('dictmut', o)
            return
        if isinstance(o, ListV):
            if o.sym:
                raise Undecided('store into symbolic list')
            if isinstance(k, int):
                try:
                    old = o.items[k]
                except IndexError:
                    raise_('IndexError', 'list assignment index out of range')
                self.undo(lambda: o.items.__setitem__(k, old))
                o.items[k] = v
                self.event('listmut', o)
                if self.list_watch is not None:
                    self.list_watch.setdefault(o.id, (o, None))
                return
            raise Undecided('symbolic list store')
        if isinstance(o, Obj):
            c, ow = o.cls.lookup('__setitem__')
            if c is not None:
                self.call(self.bind(c, o, o.cls), [k, v])
                return
        if isinstance(o, NS):
            self.event('nssetitem', o, k, v)
            return
        raise_('TypeError', 'object does not support item assignment')

    def delitem(self, o, k):
        if isinstance(o, DictV):
            h = self.hkey(k, o.d)
            if h not in o.d:
                raise_('KeyError', k)
            old = dict(o.d)

            def und():
                o.d.clear()
                o.d.update(old)
            self.undo(und)
            del o.d[h]
            self.event('dictmut', o)
        elif isinstance(o, ListV) and isinstance(k, int) and not o.sym:
            old = list(o.items)
            self.undo(lambda: o.items.__setitem__(slice(None), old))
            try:
                del o.items[k]
            except IndexError:
                raise_('IndexError', 'list')
            self.event('listmut', o)
        else:
            raise Undecided('del')


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def get(self, I, name):
        oc = self.obj.cls if isinstance(self.obj, Obj) else self.obj
        mro = oc.mro
        i = mro.index(self.cls) if self.cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.d:
                v = c.d[name]
                if isinstance(v, PropV):
                    return I.call(v.fget, [self.obj])
                return I.bind(v, self.obj, oc)
        if name == '__init__':
            return Native(lambda I, a, k: None, 'object.__init__')
        if any(getattr(b, 'unknown', False) for b in mro[i + 1:]):
            return Unk('super attribute')
        raise_('AttributeError', "'super' object has no attribute '%s'" % name)


def is_abstract(v):
    if isinstance(v, FuncV):
        return v.abstract
    if isinstance(v, PropV):
        return isinstance(v.fget, FuncV) and v.fget.abstract or getattr(v, 'abstract', False)
    if isinstance(v, (StaticM, ClassM)):
        return is_abstract(v.f)
    return False


def funcs_of(v):
    if isinstance(v, FuncV):
        return [v]
    if isinstance(v, PropV):
        return [f for f in (v.fget, v.fset) if isinstance(f, FuncV)]
    if isinstance(v, (StaticM, ClassM)):
        return funcs_of(v.f)
    return []


def walk_func(node):
    """AST nodes of a function body, not of nested functions."""
    st = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


_dummy = tm.idx_atom(('renorm',), tm.ZERO)


def forall_facts(ctx, rel, t, d):
    """Universally quantified consequences of t >= 0 / t < 0 for counts of indicators."""
    if rel == 'eq':
        ts = [t, tm.neg(t)] if d else []
    elif d:
        ts = [t]
    else:
        ts = [tm.neg(t) - 1] if t.isint else []
    for u in ts:
        cnt = [(m, c) for m, c in u.p if m.binders]
        rest = tm.mk_term({m: c for m, c in u.p if not m.binders})
        if not cnt or not all(len(m.factors) == 1 and m.factors[0][0].kind == 'ind' for m, c in cnt):
            continue
        if all(c < 0 for m, c in cnt) and tm.prove_ge(tm.neg(rest)):
            # -sum(ind) >= 0: every indicator is zero
            for m, c in cnt:
                ctx.foralls.append((m.factors[0][0], False))
        elif len(cnt) == 1 and cnt[0][1] == 1:
            n = tm.ONE
            for b in cnt[0][0].binders:
                n = n * b.data[1]
            if tm.prove_ge(tm.neg(rest) - n):
                ctx.foralls.append((cnt[0][0].factors[0][0], True))


def renorm(t):
    """Rebuild a term under the current facts."""
    ind = tm.occurring(t, lambda a: a.kind == 'ind')
    if not ind:
        return t
    # top-level indicator factors only
    r = tm.ZERO
    for m, c in t.p:
        if m.binders:
            r = r + tm.mk_term({m: c})
            continue
        p = tm.const(c)
        for a, e in m.factors:
            if a.kind == 'ind':
                p = p * (tm.ind_ge(a.data[1]) if a.data[0] == 'ge' else tm.ind_eq(a.data[1]))
            else:
                p = p * tm.of_atom(a, e)
        r = r + p
    return r
