"""Obligations: pairs of interpreted functions that must denote the same value.

impl_X exercises the analysed code, spec_X states the required result.  Both are
interpreted (never executed) over the same symbolic inputs; outcomes are compared
entry by entry through normal forms, then through random interpretation.
"""
import ast
import itertools
import os
import random
import re
import signal
import sys
import time
import traceback
from . import terms as tm
from .terms import T, ONE, ZERO
from .values import *
from . import values as V
from . import interp, npcore as nc
from .rinterp import Valuation, Undef, close, is_nan

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DSA_REPO', '/repo')
MAX_PATHS = 48


# ---------------------------------------------------------------- declarations
class Decl:
    pass


def parse_doc(doc):
    out = {}
    for line in (doc or '').splitlines():
        m = re.match(r'\s*(\w+):\s*(.*)$', line)
        if m:
            out.setdefault(m.group(1), '')
            out[m.group(1)] += (' ; ' if out[m.group(1)] else '') + m.group(2).strip()
    return out


def load_specs(pid):
    """[(module, obligation, node, doc)] for a property id."""
    d = os.path.join(VERIF, 'specs')
    out = []
    for f in sorted(os.listdir(d)):
        if not re.match(pid.lower() + r'(_\w+)?\.py$', f):
            continue
        tree = ast.parse(open(os.path.join(d, f)).read(), f)
        fn = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        for n in fn:
            if n.startswith('impl_'):
                if 'spec_' + n[5:] not in fn:
                    raise SystemExit('no spec for %s in %s' % (n, f))
                out.append((f[:-3], n[5:], fn[n], parse_doc(ast.get_docstring(fn[n]))))
    return out


def split_top(s, seps=',;'):
    out, depth, cur = [], 0, ''
    for c in s:
        if c in '([{':
            depth += 1
        if c in ')]}':
            depth -= 1
        if c in seps and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def instances(node, doc, fallback=False):
    """Enumerate fixed sizes and parameter choices: [(label, sizes, choices)]."""
    sizes = {}      # name -> list of ints or ('ge', lo)
    for part in split_top(doc.get('sizes', '')):
        m = re.match(r'(\w+)\s*=\s*([\d|]+)$', part)
        if m:
            sizes[m.group(1)] = [int(x) for x in m.group(2).split('|')]
            continue
        m = re.match(r'(\w+)\s*>=\s*(.+)$', part)
        if not m:
            raise SystemExit('bad sizes: ' + part)
        sizes[m.group(1)] = m.group(2)
    choices = {}
    a = node.args
    for p in a.args + a.kwonlyargs:
        ann = p.annotation.value
        if ann.startswith('{'):
            choices[p.arg] = list(ast.literal_eval('[' + ann[1:-1] + ']'))
    base = [sizes]
    if fallback:
        base = []
        alts = doc.get('fallback')
        if alts is None:
            # default: small distinct sizes
            kv = []
            for p in a.args + a.kwonlyargs:
                m = re.match(r'size\s*>=\s*(\d+)$', p.annotation.value)
                if m and p.arg not in sizes:
                    sizes[p.arg] = m.group(1)
            for i, (k, v) in enumerate((k, v) for k, v in sizes.items() if not isinstance(v, list)):
                if not re.match(r'\d+$', v):
                    return []
                kv.append('%s=%d' % (k, int(v) + (2 if i == 0 else 1)))
            if not kv:
                return []
            alts = ' '.join(kv)
        for alt in alts.split(';'):
            s = dict(sizes)
            for kv in alt.split():
                k, v = kv.split('=')
                s[k] = [int(v)]
            base.append(s)
    out = []
    for b in base:
        fixed = {k: v for k, v in b.items() if isinstance(v, list)}
        rest = {k: v for k, v in b.items() if not isinstance(v, list)}
        for fs in itertools.product(*fixed.values()):
            for cs in itertools.product(*choices.values()):
                s = dict(rest)
                s.update(zip(fixed, fs))
                ch = dict(zip(choices, cs))
                lab = ','.join(['%s=%s' % (k, v) for k, v in zip(fixed, fs)] + ['%s=%r' % (k, v) for k, v in ch.items()])
                out.append((lab, s, ch))
    return out


class Inputs:
    """Builds the symbolic inputs of one instance."""

    def __init__(self, node, doc, sizes, choices, pre=''):
        self.node, self.doc, self.sizes, self.choices, self.pre = node, doc, sizes, choices, pre
        self.ns = {'pi': tm.PI}
        self.syms = {}

    def size(self, name):
        if name in self.ns:
            return self.ns[name]
        v = self.sizes.get(name, '1')
        if isinstance(v, int):
            t = T(v)
        else:
            t = tm.sym(name, isint=True, nonneg=True)
            self.ns[name] = t
            tm.CTX.lo[tm.single_atom(t)] = T(self.expr(v))
        self.ns[name] = t
        return t

    def expr(self, s):
        for n in re.findall(r'[A-Za-z_]\w*', s):
            if n not in self.ns:
                if re.fullmatch(r'[A-Z]\w*', n) or n in self.sizes:
                    self.size(n)
        return T(eval(s, {'__builtins__': {}}, dict(self.ns)))

    def setup(self):
        """Declare sizes, integer parameters and assumptions in the context."""
        tm.POS.clear()
        for n in self.sizes:
            self.size(n)
        a = self.node.args
        for p in a.args + a.kwonlyargs:
            ann = p.annotation.value.strip()
            m = re.match(r'(size|i)\b(?!\[)\s*(.*)$', ann)
            if m and p.arg not in self.ns:
                if isinstance(self.sizes.get(p.arg), int):
                    self.ns[p.arg] = T(self.sizes[p.arg])
                    continue
                t = tm.sym(p.arg, isint=True, nonneg=(m.group(1) == 'size'))
                self.ns[p.arg] = t
                at = tm.single_atom(t)
                r = m.group(2)
                mm = re.match(r'>=\s*(.*)$', r)
                if mm:
                    tm.CTX.lo[at] = self.expr(mm.group(1))
                    if at not in self.ns and not self.ns.get('__nn'):
                        pass
                elif r.startswith('in'):
                    lo, hi = split_top(r[2:].strip()[1:-1])
                    tm.CTX.lo[at], tm.CTX.hi[at] = self.expr(lo), self.expr(hi)
                elif m.group(1) == 'size':
                    tm.CTX.lo[at] = ONE
        self.assumes = []
        for part in split_top(self.doc.get('assume', ''), ';'):
            m = re.match(r'(.*?)(<=|>=|<|>)(.*)$', part)
            l, op, r = self.expr(m.group(1)), m.group(2), self.expr(m.group(3))
            d = {'<': r - l - 1, '<=': r - l, '>': l - r - 1, '>=': l - r}[op]
            c = tm.as_const(d)
            if c is not None and c < 0:
                raise Infeasible()
            tm.CTX.ge_facts.append(d)
            self.assumes.append(d)
            # simple lower/upper bounds help the prover
            for at in [x for x in d.fv] or []:
                pass
        tm.clear_caches()

    def build(self):
        return {p.arg: self.value(p.arg, p.annotation.value.strip()) for p in self.node.args.args + self.node.args.kwonlyargs}

    def earlier(self, which):
        """Other values of the same sizes, and with which=2 other options."""
        c = dict(self.choices)
        if which == 2:
            for p in self.node.args.args + self.node.args.kwonlyargs:
                if p.arg in c:
                    vs = list(ast.literal_eval('[' + p.annotation.value[1:-1] + ']'))
                    at = [i for i, v in enumerate(vs) if repr(v) == repr(c[p.arg])]
                    c[p.arg] = vs[(at[0] + 1) % len(vs)] if at else c[p.arg]
        e = Inputs(self.node, self.doc, self.sizes, c, 'earlier ')
        e.ns, e.syms, e.assumes = self.ns, self.syms, self.assumes
        return e

    def value(self, name, ann):
        if ann.startswith('{'):
            return to_value(self.choices[name])
        if name in self.ns:
            return mk(self.ns[name], 'i')
        in_name = self.pre + name
        m = re.match(r'([fcibH])(\+|0\+)?(\[[^\]]*\])?\s*(?:in\s*\((.*)\)\s*)?$', ann)
        if not m:
            raise SystemExit('bad annotation %s: %s' % (name, ann))
        k, pos, shp, rng = m.groups()
        lo = hi = None
        if rng:
            lo, hi = [None if x in ('', 'None') else self.expr(x) for x in split_top(rng)]
        kw = {'real': k in 'fib', 'isint': k in 'ib', 'nonneg': bool(pos) or (lo is not None and tm.is_nonneg(lo))}
        if k == 'b':
            lo, hi = ZERO, ONE
            kw['nonneg'] = True
        b = (lo, hi) if rng or k == 'b' else None
        if shp is None:
            # scalars are zero-index elements of their own name
            t = tm.el(('in', in_name), (), bounds=b, **kw)
            if pos == '+':
                tm.POS.add(('in', in_name))
            return Sc(t, k)
        sh = tuple(self.expr(x) for x in split_top(shp[1:-1]))
        if k == 'H':
            return nc.new_arr(sh, 'c', lambda idx: tm.el(('herm', in_name), idx))
        if pos == '+':
            tm.POS.add(('in', in_name))
        if k == 'b':
            return nc.new_arr(sh, 'b', lambda idx: tm.ind_ge(tm.el(('in', in_name), idx, bounds=b, **kw) - 1))
        return nc.new_arr(sh, k, lambda idx: tm.el(('in', in_name), idx, bounds=b, **kw))


def to_value(v):
    if isinstance(v, list):
        return ListV([to_value(x) for x in v])
    if isinstance(v, tuple):
        return tuple(to_value(x) for x in v)
    if isinstance(v, dict):
        return DictV({('str', k): (k, to_value(x)) for k, x in v.items()})
    return v


# ---------------------------------------------------------------- probes available to specs
ANY = NS('ANY')


def probe_module(I):
    def evs(kind):
        return [e for e in I.events[I.mark_ev:] if e[0] == kind]
    A = {
        'ANY': ANY,
        'rng': Native(lambda I, a, k: ListV([e[2] for e in evs('rng')]), 'rng'),
        'rng_seeds': Native(lambda I, a, k: ListV([e[2] for e in evs('rngseed') + evs('rngnew')]), 'rng_seeds'),
        'warnings': Native(lambda I, a, k: ListV([e[2] for e in evs('warn')]), 'warnings'),
        'printed': Native(lambda I, a, k: len(evs('print')), 'printed'),
        'calls': Native(lambda I, a, k: ListV([rec_val(e) for e in evs('rec')]), 'calls'),
        'minimize_calls': Native(lambda I, a, k: ListV([min_val(e) for e in evs('minimize')]), 'minimize_calls'),
        'reset': Native(lambda I, a, k: setattr(I, 'mark_ev', len(I.events)), 'reset'),
        'set_global': Native(lambda I, a, k: None, 'set_global'),
        'assume': Native(p_assume, 'assume'),
        'require': Native(p_require, 'require'),
        'axes': Native(lambda I, a, k: __import__('dsa.ext', fromlist=['rec']).rec(a[0]), 'axes'),
        'same': Native(lambda I, a, k: I.same.append((a[0], a[1])), 'same'),
        'shares': Native(p_shares, 'shares'),
        'draw': Native(p_draw, 'draw'),
        'kind': Native(lambda I, a, k: kind_of(a[0]) if is_num(a[0]) else a[0].kind, 'kind'),
        'catch': Native(p_catch, 'catch'),
        'use': Native(lambda I, a, k: None, 'use'),
        'kl': Native(lambda I, a, k: None, 'kl'),
        'fn': Native(p_fn, 'fn'),
        'field': Native(p_field, 'field'),
        'argument_of': Native(p_argument_of, 'argument_of'),
        'call_of': Native(p_call_of, 'call_of'),
        'result_of': Native(p_result_of, 'result_of'),
        'pin': Native(p_pin, 'pin'),
        'expect': Native(p_expect, 'expect'),
        'draws_in': Native(p_draws_in, 'draws_in'),
        'linear_in': Native(p_linear_in, 'linear_in'),
    }
    return ModV('probe', A)


class Stop(Exception):
    def __init__(self, args):
        self.args_ = args


def p_argument_of(I, a, k):
    """Arguments of the first call of a named library function made by a thunk."""
    old = dict(I.hooks)

    def stop(I, a, k):
        raise Stop((tuple(a), k))
    I.hooks[a[0]] = stop
    try:
        I.call(a[1], list(a[2:]), {})
    except Stop as e:
        return e.args_[0]
    finally:
        I.hooks = old
    raise Undecided('%s is not called' % a[0])


def p_call_of(I, a, k):
    """Positional and keyword arguments of the first call of a named library function made by a thunk."""
    old = dict(I.hooks)

    def stop(I, a, k):
        raise Stop((tuple(a), DictV({('str', n): (n, v) for n, v in k.items()})))
    I.hooks[a[0]] = stop
    try:
        I.call(a[1], list(a[2:]), {})
    except Stop as e:
        return e.args_
    finally:
        I.hooks = old
    raise Undecided('%s is not called' % a[0])


def _is_draw(a, kind=None):
    return a.kind == 'el' and isinstance(a.data[0], tuple) and a.data[0][0] == 'rng' and kind in (None, a.data[0][1])


def _draw_factors(m):
    fs, bs = tm.open_mono(m)
    ds, rest = [], []
    for x, e in fs:
        t = x if isinstance(x, tm.Term) else tm.of_atom(x)
        if isinstance(x, tm.Atom) and _is_draw(x):
            ds.append((x, e))
        elif tm.occurring(t, _is_draw):
            raise Undecided('random draws inside a nonlinear function')
        else:
            rest.append((x, e))
    return ds, rest, bs


def expect_term(t):
    """Expectation over independent standard normal draws of a polynomial of degree at most two in them."""
    out = tm.ZERO
    for m, c in t.p:
        ds, rest, bs = _draw_factors(m)
        if any(not _is_draw(x, 'normal') or e.denominator != 1 or e < 0 for x, e in ds):
            raise Undecided('draws other than normal')
        deg = sum(e for _, e in ds)
        if deg % 2:
            continue
        r = tm.build(rest)
        if deg > 2:
            raise Undecided('moments above the second')
        if len(ds) == 2:
            x, y = ds[0][0], ds[1][0]
            if x.data[0] != y.data[0] or len(x.data) != len(y.data):
                continue
            for p, q in zip(x.data[1:], y.data[1:]):
                r = tm.mul(r, tm.ind_eq(p - q))
        for b in bs:
            r = tm.sum_over(r, b)
        out = out + tm.scale(r, c)
    return out


def _map_value(v, f, kind):
    if isinstance(v, Arr):
        g = v.snap()
        return nc.new_arr(v.shape, kind, lambda idx: f(g(tuple(idx))))
    return nc.mk(f(term_of(v)), kind, True)


def p_expect(I, a, k):
    return _map_value(a[0], expect_term, 'c')


def p_pin(I, a, k):
    """From now on draws of a kind have a fixed value."""
    I.pins[a[0]] = a[1]


def _generic(v):
    if isinstance(v, Arr):
        return v.snap()(tuple(tm.of_atom(tm.fresh_idx(d)) for d in v.shape))
    return term_of(v)


def p_draws_in(I, a, k):
    """Number of random draws (calls of a generator function) a value depends on."""
    return len({x.data[0] for x in tm.occurring(_generic(a[0]), _is_draw)})


def p_linear_in(I, a, k):
    """Whether a value is a homogeneous linear form in draws of one kind."""
    try:
        for m, c in _generic(a[0]).p:
            ds, rest, bs = _draw_factors(m)
            if len(ds) != 1 or ds[0][1] != 1 or not _is_draw(ds[0][0], a[1]):
                return False
    except Undecided:
        return False
    return True


def p_result_of(I, a, k):
    """From now on a named library function returns the given values, call after call."""
    vals = list(a[1:])

    def give(I, a_, k_):
        if not vals:
            raise Undecided('more calls than expected')
        v = vals.pop(0) if len(vals) > 1 else vals[0]
        return nc.copy_arr(v) if isinstance(v, Arr) else v
    I.hooks[a[0]] = give


def p_fn(I, a, k):
    """Uninterpreted real function of scalar arguments, by name."""
    ts = [term_of(x) if is_num(x) else nc.lam_of(nc.to_arr(I, x)) for x in a[1:]]
    return Sc(tm.fn('user_' + a[0], ts, real=True), 'f', True)


def p_field(I, a, k):
    """Matrix whose (i, j) entry is an uninterpreted complex function of i, the j-th row of a location array and further scalars."""
    name, m, x = a[0], T(term_of(a[1])), a[2]
    more = [term_of(y) for y in a[3:]]
    g = x.snap()
    d = 1 if x.ndim == 1 else tm.as_int(x.shape[1])

    def get(idx):
        i, j = idx
        ts = [i] + ([g((j,))] if x.ndim == 1 else [g((j, T(q))) for q in range(d)]) + more
        return tm.fn('user_%s_re' % name, ts, real=True) + tm.J * tm.fn('user_%s_im' % name, ts, real=True)
    return nc.new_arr((m, x.shape[0]), 'c', get)


def rec_val(e):
    return (e[2], tuple(e[3]), DictV({('str', n): (n, v) for n, v in e[4].items()}))


def min_val(e):
    return DictV({('str', n): (n, v) for n, v in e[2].items() if n != 'fun'})


def p_assume(I, a, k):
    v = a[0]
    if not I.truth(v):
        raise Infeasible()


class Required(Exception):
    pass


def p_require(I, a, k):
    """The condition holds wherever a valuation satisfying the path guards exists."""
    if not I.truth(a[0]):
        raise Required('required condition fails' if len(a) < 2 else a[1])


def p_shares(I, a, k):
    return isinstance(a[0], Arr) and isinstance(a[1], Arr) and a[0].buf is a[1].buf


def p_draw(I, a, k):
    """The n-th random draw of the run: draw(name, n, *idx)."""
    kw = {'bounds': (ZERO, tm.ONE), 'nonneg': True} if a[0] == 'u01' else {}
    return Sc(tm.el(('rng', a[0], a[1]), [term_of(x) for x in a[2:]], real=True, **kw), 'f')


def p_catch(I, a, k):
    """Name of the exception raised by a zero-argument callable, or None."""
    try:
        I.call(a[0], list(a[1:]), k)
    except PyRaise as e:
        return e.exc.cls.name
    return None


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- outcome comparison
class Leaf:
    def __init__(self, label, fr, a, b):
        self.label, self.fr, self.a, self.b = label, fr, a, b


class Diff(Exception):
    def __init__(self, label, why):
        self.label, self.why = label, why


def leaves(I, a, b, label, out):
    if a is ANY or b is ANY:
        return
    if isinstance(a, Unk) or isinstance(b, Unk):
        raise Undecided('%s: %s' % (label, (a if isinstance(a, Unk) else b).why))
    if isinstance(a, Arr) and a.ndim == 0:
        a = mk(a.at(()), a.kind)
    if isinstance(b, Arr) and b.ndim == 0:
        b = mk(b.at(()), b.kind)
    if is_num(a) and is_num(b):
        ta, tb = term_of(a), term_of(b)
        if a is not b:
            out.append(Leaf(label, (), ta, tb))
        return
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim:
            raise Diff(label, 'has %d dimensions instead of %d' % (a.ndim, b.ndim))
        for i, (p, q) in enumerate(zip(a.shape, b.shape)):
            if p is not q:
                out.append(Leaf('%s.shape[%d]' % (label, i), (), p, q))
        idx = tuple(ZERO if tm.as_int(s) == 1 else tm.of_atom(tm.fresh_idx(s)) for s in b.shape)
        xs = [tm.single_atom(x) for x in idx if x is not ZERO]
        x, y = a.at(idx), b.at(idx)
        if a.kind == 'c' and b.kind != 'c' and y is not ZERO and not any(tm.as_int(s) == 0 for s in b.shape):
            raise Diff(label, 'is a complex array instead of a real one')
        out.append(Leaf('%s[%s]' % (label, ','.join('ijklmn'[:len(xs)])), xs, x, y))
        return
    sa, sb = is_seq(a), is_seq(b)
    if sa and sb:
        na, nb = seq_len(a), seq_len(b)
        if na is not nb:
            ca, cb = tm.as_int(na), tm.as_int(nb)
            if ca is not None and cb is not None:
                raise Diff(label, 'has length %d instead of %d' % (ca, cb))
            out.append(Leaf('len(%s)' % label, (), na, nb))
        c = tm.as_int(nb)
        if c is not None and isinstance(seq_items(a), list) and isinstance(seq_items(b), list):
            for i, (x, y) in enumerate(zip(seq_items(a), seq_items(b))):
                leaves(I, x, y, '%s[%d]' % (label, i), out)
            return
        x = tm.fresh_idx(nb)
        tmp = []
        leaves(I, seq_get(I, a, x), seq_get(I, b, x), '%s[i]' % label, tmp)
        for l in tmp:
            l.fr = [x] + list(l.fr)
        out += tmp
        return
    if isinstance(a, DictV) and isinstance(b, DictV):
        if set(a.d) != set(b.d):
            raise Diff(label, 'has keys %s instead of %s' % (sorted(map(str, a.d)), sorted(map(str, b.d))))
        for h in a.d:
            leaves(I, a.d[h][1], b.d[h][1], '%s[%s]' % (label, a.d[h][0]), out)
        return
    if isinstance(a, SetV) and isinstance(b, SetV):
        if a.s != b.s:
            raise Diff(label, 'set differs')
        return
    if a is None and b is None:
        return
    if isinstance(a, str) and isinstance(b, str):
        if a != b:
            raise Diff(label, 'is %r instead of %r' % (str(a), str(b)))
        return
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a is not b and a.cls.name != b.cls.name:
            raise Diff(label, 'is a %s instead of a %s' % (a.cls.name, b.cls.name))
        return
    if isinstance(a, RangeV) and isinstance(b, RangeV):
        for n in ('start', 'stop', 'step'):
            leaves(I, getattr(a, n), getattr(b, n), label + '.' + n, out)
        return
    if a is b:
        return
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return
    if type(a) is type(b) and isinstance(a, (ClassV, TypeV, ModV)):
        if getattr(a, 'name', 0) != getattr(b, 'name', 1):
            raise Diff(label, 'is %s instead of %s' % (a.name, b.name))
        return
    if isinstance(a, NS) and isinstance(b, NS):
        if a.name != b.name:
            raise Diff(label, 'is %s instead of %s' % (a.name, b.name))
        return
    if (isinstance(a, (FuncV, BoundM, Native)) and isinstance(b, (FuncV, BoundM, Native))):
        return
    raise Diff(label, 'is a %s instead of a %s' % (nc.type_name(a), nc.type_name(b)))


def is_seq(v):
    return isinstance(v, (tuple, ListV, SymSeq))


def seq_items(v):
    if isinstance(v, ListV):
        return v.sym if v.sym else v.items
    if isinstance(v, tuple):
        return list(v)
    return v


def seq_len(v):
    s = seq_items(v)
    return s.n if isinstance(s, SymSeq) else T(len(s))


def seq_get(I, v, x):
    s = seq_items(v)
    return s.get(tm.of_atom(x)) if isinstance(s, SymSeq) else I.getitem(tuple(s), Sc(tm.of_atom(x), 'i'))


# ---------------------------------------------------------------- sampling
BASE_FN = {'let', 'sqrtm', 'cholesky', 'exp', 'sin', 'cos', 'tan', 'log', 'arcsin', 'arccos', 'arctan', 'arctan2', 'angle', 'floor', 'ceil', 'round', 'trunc', 'floordiv', 'inv', 'logabsdet', 'detsign', 'det',
           'max', 'min', 'max2', 'min2', 'prod', 'argmax', 'argmin', 'argsort', 'sort', 'sign', 'gcd', 'pow', 'nonzero', 'eigvalsh', 'eigvec', 'svd_s', 'lexsort', 'peakmask', 'maxfilter', 'copysign', 'nan', 'table', 'int64'}


def opaque_fns(t):
    """Library functions without a model; functions of the specification's own ('user_') are inputs, free to take any value."""
    return {a.data[0] for a in tm.occurring(t, lambda a: a.kind == 'fn' and a.data[0] not in BASE_FN) if not str(a.data[0]).startswith('user_')}


# what the convex solver model stands for: the minimiser of an unrestricted problem has no closed form
SOLVER_FNS = {'cvxsol', 'cvxval', 'cvxcon', 'quotient'}

_SIZE_CACHE = {}


def size_choices(guards, ctx):
    """Small values of the sizes that satisfy the guards on sizes alone, when those are not linear."""
    sel = []
    for t, d in guards:
        ats = tm.occurring(t, lambda a: a.kind in ('sym', 'el', 'idx', 'fn'))
        if ats and all(a.kind == 'sym' and a in ctx.lo for a in ats):
            sel.append((t, d, ats))
    if not any(len(m.factors) > 1 or any(e != 1 for _, e in m.factors) for t, d, _ in sel for a in tm.occurring(t, lambda a: a.kind == 'ind') for m, c in a.data[1].p):
        return None
    key = (id(ctx), tuple((t.id, d) for t, d, _ in sel))
    if key not in _SIZE_CACHE:
        _SIZE_CACHE.clear()
        ats = sorted({a for _, _, s in sel for a in s}, key=lambda a: a.id)
        out = []
        if len(ats) <= 4:
            val = Valuation(0, {}, None)
            val.over = {}
            try:
                rng = [range(int(val.term(ctx.lo[a], {})), int(val.term(ctx.lo[a], {})) + 6) for a in ats]
                for c in itertools.product(*rng):
                    v = Valuation(0, dict(zip(ats, c)), None)
                    v.over = {}
                    if all((abs(v.term(t, {})) > 0.5) == d for t, d, _ in sel):
                        out.append(dict(zip(ats, c)))
            except (Undef, KeyError, ZeroDivisionError):
                out = []
        _SIZE_CACHE[key] = sorted(out, key=lambda c: sum(c.values()))[:40]
    return _SIZE_CACHE[key] or None


def make_valuation(guards, inp, seed, maxsize=3, attempts=25):
    """A valuation satisfying the guards, or None."""
    rnd = random.Random(repr((seed, 'val')))
    syms, over = {}, {}
    ctx = tm.CTX
    if attempts > 1:
        ch = size_choices(guards, ctx)
        if ch:
            syms.update(rnd.choice(ch))
    for attempt in range(attempts):
        val = Valuation(seed, dict(syms), None)
        val.over = over
        # sizes: small values above their lower bound
        try:
            for a in ctx.lo:
                if a.kind == 'sym' and a not in val.syms:
                    l = val.term(ctx.lo[a], {})
                    h = val.term(ctx.hi[a], {}) if a in ctx.hi else None
                    top = l + maxsize if h is None else min(h, l + 12)
                    val.syms[a] = rnd.randint(int(l), int(max(top, l)))
                    syms[a] = val.syms[a]
        except Undef:
            return None
        bad = None
        for t, d in guards:
            try:
                v = val.term(t, {})
            except (Undef, ZeroDivisionError, OverflowError):
                return None
            if (abs(v) > 0.5) != d:
                bad = (t, d)
                break
        if bad is None:
            for f in inp.assumes:
                try:
                    if val.num(f) < 0:
                        bad = (tm.ind_ge(f), True)
                        break
                except Undef:
                    return None
        if bad is None:
            # bounds of adjusted symbols
            ok = True
            for a, x in val.syms.items():
                try:
                    if a in ctx.lo and x < val.num(ctx.lo[a]) - 1e-9 or a in ctx.hi and x > val.num(ctx.hi[a]) + 1e-9:
                        ok = False
                except Undef:
                    return None
            try:
                if ok and any(marginal(t, val) for t, d in guards):
                    ok = False
            except (Undef, ZeroDivisionError, OverflowError):
                return None
            if ok:
                fresh = Valuation(seed, dict(val.syms), None)
                fresh.over = over
                return fresh
            return None
        try:
            if not fix(bad[0], bad[1], val, syms, over, rnd) and rnd.random() < 0.3:
                return None
        except (Undef, KeyError, ZeroDivisionError, OverflowError):
            return None
    return None


def marginal(t, val):
    """Whether a guard is decided by rounding: a real comparison very close to its boundary but not on it."""
    for m, c in t.p:
        if m.binders:
            continue
        for a, e in m.factors:
            if a.kind != 'ind' or a.data[0] != 'ge' or a.data[1].isint or a.fv:
                continue
            u = a.data[1]
            v = abs(val.term(u, {}))
            scale = sum(abs(val.term(tm.mk_term({m2: c2}), {})) for m2, c2 in u.p) or 1
            if 1e-13 * scale < v < 1e-6 * scale:
                return True
    return False


def fix(t, d, val, syms, over, rnd, env=None, depth=0):
    """Adjust one atom so that guard t takes value d.  Keeps other choices."""
    env = env or {}
    syms.update(val.syms)
    a = tm.single_atom(t)
    if a is None or a.kind != 'ind':
        n = tm.b_not(t)
        a = tm.single_atom(n)
        if a is not None and a.kind == 'ind':
            d = not d
        else:
            # boolean combination: try to satisfy some literal
            lits = [x for m, c in t.p if not m.binders for x, e in m.factors if x.kind == 'ind']
            if not lits:
                return False
            a = rnd.choice(lits)
            d = rnd.random() < 0.7
    rel, u = a.data

    def ev(x):
        v = val.term(x, env)
        if isinstance(v, complex) and abs(v.imag) < 1e-9:
            v = v.real
        return v
    try:
        v = ev(u)
    except Undef:
        return False
    if isinstance(v, complex):
        return False
    # Hermitian matrices: move the diagonal of one of them
    hs = {x.data[0] for x in tm.occurring(u, lambda x: x.kind == 'el' and isinstance(x.data[0], tuple) and x.data[0][0] == 'herm')}
    if hs and not env and rnd.random() < 0.6:
        h = rnd.choice(sorted(hs, key=repr))
        k = (h, ('shift',))
        old = over.get(k, 0)
        w = v
        for _ in range(4):      # secant steps
            over[k] = over.get(k, 0) + 0.01
            val.memo.clear()
            slope = (ev(u) - w) / 0.01
            over[k] -= 0.01
            if isinstance(slope, complex) or abs(slope) < 1e-6:
                break
            over[k] += (-w + (0 if rel == 'eq' and d else rnd.uniform(0.1, 1) if d else -rnd.uniform(0.1, 1))) / slope
            val.memo.clear()
            w = ev(u)
            if isinstance(w, complex) or over[k] < -0.3:
                break
            if rel == 'eq' and d and abs(w) < 1e-12 or (rel != 'eq' or not d) and (w >= 0) == d:
                return True
        over[k] = old
        val.memo.clear()
    # counts of indicators: flip one literal at a random index
    cnt = [(m, c) for m, c in u.p if m.binders and any(x.kind == 'ind' for x, e in m.factors)]
    if cnt and depth < 3 and rnd.random() < 0.85:
        m, c = rnd.choice(cnt)
        if rel == 'eq':
            up = (v < 0) if d else rnd.random() < 0.5
        else:
            up = d
        en = dict(env)
        for x in m.binders:
            n = int(val.term(x.data[1], en))
            if n < 1:
                return False
            en[x] = rnd.randrange(n)
        want = up == (c > 0)
        lits = [x for x, e in m.factors if x.kind == 'ind']
        if want:
            bad = [x for x in lits if not val.ind(x, en)]
            if not bad:
                return True
            ok = True
            for x in bad:
                ok = fix(tm.of_atom(x), True, val, syms, over, rnd, en, depth + 1) and ok
            return ok
        if not all(val.ind(x, en) for x in lits):
            return True
        return fix(tm.of_atom(rnd.choice(lits)), False, val, syms, over, rnd, en, depth + 1)
    inner = [x for x in tm.occurring(u, lambda x: x.kind == 'ind')]
    if inner and depth < 3 and rnd.random() < 0.5:
        x = rnd.choice(sorted(inner, key=lambda x: x.id))
        if all(y in env for y in x.fv):
            return fix(tm.of_atom(x), not val.ind(x, env), val, syms, over, rnd, env, depth + 1)
    cands = []
    for m, c in u.p:
        if m.binders or len(m.factors) != 1 or m.factors[0][1] != 1:
            continue
        x = m.factors[0][0]
        if x.kind == 'sym':
            cands.append((x, None, c))
        elif x.kind == 'el' and x.real:
            try:
                ix = tuple(val.key(val.term(y, env)) for y in x.data[1:])
            except (KeyError, Undef):
                continue
            cands.append((x, ix, c))
    if not cands:
        # products such as (x*y - c): adjust an atom inside a monomial
        for m, c in u.p:
            if m.binders:
                continue
            for x, e in m.factors:
                if x.kind == 'el' and x.real and e == 1:
                    try:
                        ix = tuple(val.key(val.term(y, env)) for y in x.data[1:])
                        oth = ev(tm.mk_term({tm.mk_mono(tuple(f for f in m.factors if f[0] is not x), ()): c}))
                    except (KeyError, Undef):
                        continue
                    if oth and not isinstance(oth, complex):
                        cands.append((x, ix, oth))
    if not cands or rnd.random() < 0.15:
        return resample(u, val, over, rnd, env)
    x, ix, c = rnd.choice(cands)
    c = float(c)
    if rel == 'eq':
        delta = -v if d else rnd.choice([-1, 1, 2])
    else:
        if d:
            delta = -v + (rnd.randint(0, 2) if u.isint else rnd.uniform(0, 1.5))
        else:
            delta = -v - (rnd.randint(1, 2) if u.isint else rnd.uniform(0.01, 1.5))
    step = delta / c
    cur = val.syms[x] if ix is None else val.atom(x, env)
    new = cur + step
    if x.isint:
        if abs(new - round(new)) > 1e-9:
            new = round(new) + (1 if step > 0 else -1) * (0 if rel == 'eq' else 1)
            if rel == 'eq' and d:
                return False
        new = int(round(new))
    if ix is None:
        syms[x] = new
        return True
    return put(x, ix, new, val, over, env)


def put(x, ix, new, val, over, env):
    if isinstance(x.data[0], tuple) and x.data[0][0] == 'herm':
        # entries of a Hermitian positive definite matrix are not independent: take another matrix
        k = (x.data[0], ('salt',))
        over[k] = over.get(k, 0) + 1
        return True
    if x.bounds:
        for w, b in enumerate(x.bounds):
            if b is not None:
                try:
                    bv = val.term(T(b), env)
                except Undef:
                    continue
                if (w == 0 and new < bv - 1e-9) or (w == 1 and new > bv + 1e-9):
                    return False
    if x.nonneg and new < 0:
        return False
    over[(x.data[0], ix)] = new
    return True


def resample(u, val, over, rnd, env):
    """Redraw one entry occurring in u."""
    xs = []
    for x in sorted(tm.occurring(u, lambda x: x.kind == 'el'), key=lambda x: x.id):
        if all(y in env for y in x.fv):
            xs.append((x, env))
        else:
            e2 = dict(env)
            try:
                for y in sorted(x.fv, key=lambda y: y.id):
                    if y not in e2:
                        n = int(val.term(y.data[1], e2))
                        if n < 1:
                            raise Undef('empty')
                        e2[y] = rnd.randrange(n)
            except (Undef, KeyError):
                continue
            xs.append((x, e2))
    if not xs:
        return False
    x, e2 = rnd.choice(xs)
    try:
        ix = tuple(val.key(val.term(y, e2)) for y in x.data[1:])
        lo = hi = None
        if x.bounds:
            lo, hi = [None if b is None else val.term(T(b), e2) for b in x.bounds]
    except (Undef, KeyError):
        return False
    if x.isint:
        lo = 0 if lo is None else int(lo)
        new = rnd.randint(lo, lo + 6 if hi is None else int(hi))
    else:
        lo = (0.01 if x.nonneg else -4) if lo is None or lo == -float('inf') else lo
        hi = lo + 8 if hi is None or hi == float('inf') else hi
        new = rnd.uniform(lo, hi)
        if not x.real:
            new = complex(new, rnd.uniform(lo, hi))
    return put(x, ix, new, val, over, e2)


def _num(self, t):
    v = self.term(t, {})
    if isinstance(v, complex) and abs(v.imag) < 1e-12:
        v = v.real
    return v


Valuation.num = _num


def compare_at(val, leaf, limit=48, rel=False):
    """None when equal at this valuation, else (index, impl value, spec value); rel: however small the values."""
    dims = []
    env = {}
    idxs = [()]
    sizes = []
    for x in leaf.fr:
        n = val.integer(val.term(x.data[1], {}))
        sizes.append(n)
    allidx = list(itertools.product(*[range(max(0, n)) for n in sizes]))
    if len(allidx) > limit:
        allidx = random.Random(7).sample(allidx, limit)
    for ix in allidx:
        env = dict(zip(leaf.fr, ix))
        a = val.term(leaf.a, env)
        b = val.term(leaf.b, env)
        if is_nan(a) or is_nan(b):
            if is_nan(a) and is_nan(b):
                continue
            if not val.nan_ok:
                raise Undef('nan')
        if not close(a, b, 1e-6) or rel and abs(a - b) > 2e-3 * max(abs(a), abs(b)):
            return ix, a, b
    return None


def judge(leaf, guards, inp, nval, cfg):
    """'eq', 'agree', ('diff', witness) or ('undecided', why)."""
    a, b = leaf.a, leaf.b
    if a is b:
        return 'eq'
    if tm.tainted(a) or tm.tainted(b):
        return ('undecided', 'value of an unmodelled construct')
    if interp.renorm(a) is interp.renorm(b):
        return 'eq'
    good = 0
    seps = []
    fa, fb = opaque_fns(a), opaque_fns(b)
    opaque = fa ^ fb
    if not (fa and fb) and opaque <= SOLVER_FNS:
        # a solution handed out where the other side computes without any solver (or the reverse)
        opaque = set()
    for s in range(nval * 5):
        if good >= nval:
            break
        try:
            val = make_valuation(guards, inp, s, cfg.get('maxsize', 2))
            if val is None:
                continue
            r = compare_at(val, leaf)
        except (Undef, ZeroDivisionError, OverflowError, ValueError, RecursionError) as e:
            if cfg.get('debug'):
                print('valuation:', repr(e)[:200])
            continue
        good += 1
        if r is not None:
            seps.append((r, val))
            if len(seps) >= 2:
                break
    if good < 2 and any(atom_of_reals(t) for t, d in guards):
        # a partition of unusually small or large values
        t0 = time.process_time()
        for s, f in ((s, f) for s in range(3) for f in (1e-2, 1e-4, 1e-7, 30.0, 300.0)):
            if len(seps) >= 2 or time.process_time() - t0 > 3:
                break
            try:
                val = make_valuation(guards, inp, ('scale', s, f), cfg.get('maxsize', 2))
                if val is None:
                    continue
                r = compare_at(val, leaf, rel=True)
                if r is not None and not significant(r, val, leaf):
                    continue
            except (Undef, ZeroDivisionError, OverflowError, ValueError, RecursionError):
                continue
            good += 1
            if r is not None:
                seps.append((r, val))
        if len(seps) < 2:
            seps = []
    if not seps and good >= 2 and cfg.get('time') and (discrete(a) or discrete(b)):
        # selections hide differences of their operands: look at more and more varied operands
        t0 = time.process_time()
        for s in range(60):
            if time.process_time() - t0 > min(4, cfg['time'] / 8):
                break
            try:
                val = make_valuation(guards, inp, ('wide', s), 2 + s % 4)
                if val is None:
                    if s > 6 and good < 6:
                        break
                    continue
                r = compare_at(val, leaf)
            except (Undef, ZeroDivisionError, OverflowError, ValueError, RecursionError):
                continue
            good += 1
            if r is not None:
                seps.append((r, val))
                if len(seps) >= 2:
                    break
    if not seps and good >= 2:
        for k in probes_of_kinks(a, b, guards):
            if len(seps) >= 2:
                break
            seed, extra = k
            try:
                val = make_valuation(guards + extra, inp, seed, 2 + seed[1] % 3 if seed[0] == 'wide' else cfg.get('maxsize', 2))
                r = compare_at(val, leaf, rel=seed[0] == 'scale') if val is not None else None
                if r is not None and not significant(r, val, leaf):
                    r = None
            except (Undef, ZeroDivisionError, OverflowError, ValueError, RecursionError):
                continue
            if r is not None:
                seps.append((r, val))
        if len(seps) < 2:
            seps = []
    if len(seps) >= 2:
        if opaque:
            return ('undecided', 'different opaque library functions: %s' % ', '.join(sorted(map(str, opaque))))
        return ('diff', seps[0])
    if good < 2:
        return ('undecided', 'no valuation of the partition found')
    if seps:
        return ('undecided', 'single separation')
    return 'agree'


FACTORISATIONS = {'inv', 'det', 'logabsdet', 'detsign', 'eigvalsh', 'eigvec', 'svd_s', 'svd_u', 'svd_vh', 'sqrtm', 'cholesky'}


def atom_of_reals(t):
    """Whether a guard compares real numbers."""
    return bool(tm.occurring(t, lambda x: x.kind == 'ind' and not x.data[1].isint))


def kinks(t):
    """Where t changes from one expression to another: its comparisons, maxima, minima and roundings."""
    return tm.occurring(t, lambda x: x.kind == 'ind' and not (x.data[1].isint and x.fv) or x.kind == 'fn' and x.data[0] in ('max2', 'min2', 'floor', 'ceil', 'round', 'trunc', 'sign', 'copysign'))


def significant(r, val, leaf):
    """Whether a difference at values of unusual magnitude is one of the functions, not of the rounding of their evaluation."""
    ix, x, y = r
    v = Valuation(val.seed, dict(val.syms))
    v.over = val.over
    v.jitter = True
    env = dict(zip(leaf.fr, ix))
    d = abs(x - y)
    sizes = sum(abs(val.mono(m, env) * c) for t in (leaf.a, leaf.b) for m, c in t.p)
    noise = abs(v.term(leaf.a, env) - x) + abs(v.term(leaf.b, env) - y)
    return d == d and d > 1e-3 * max(abs(x), abs(y)) and d > 1e-6 * sizes and d > 1e2 * noise


def probes_of_kinks(a, b, guards):
    """Valuations on either side of every kink that only one of the two terms has: sampled values rarely get there."""
    ks = sorted(kinks(a) ^ kinks(b), key=lambda x: x.id)
    if not ks:
        return
    t0 = time.process_time()
    # (not through factorisations, whose rounding errors depend on the magnitudes)
    for s in range(0 if any(tm.occurring(t, lambda x: x.kind == 'fn' and x.data[0] in FACTORISATIONS) for t in (a, b)) else 2):
        for f in (1e-2, 1e-4, 1e-7, 30.0, 300.0):
            if time.process_time() - t0 > 3:
                return
            yield ('scale', s, f), []
    for s in range(40):
        if time.process_time() - t0 > 4:
            break
        yield ('wide', s), []
    for k in ks[:6]:
        u = k.data[1]
        if k.kind == 'fn':
            if k.data[0] not in ('max2', 'min2'):
                continue
            u = k.data[1] - k.data[2]
        g = tm.ind_eq(u) if k.kind == 'ind' and k.data[0] == 'eq' else tm.ind_ge(u)
        at0 = tm.subst(g, {x: ZERO for x in g.fv})
        if tm.as_const(at0) is not None:
            continue
        for s in range(4):
            for d in (True, False):
                if time.process_time() - t0 > 7:
                    return
                yield ('kink', k.id, s), [(at0, d)]


DISCRETE = {'argmin', 'argmax', 'argsort', 'lexsort', 'nonzero', 'sign', 'sort', 'max', 'min', 'max2', 'min2'}


def discrete(t):
    return bool(tm.occurring(t, lambda a: a.kind == 'fn' and a.data[0] in DISCRETE))


def feasible(guards, inp, cfg):
    for s in range(30):
        try:
            v = make_valuation(guards, inp, s, cfg.get('maxsize', 2))
        except (Undef, ZeroDivisionError, OverflowError, ValueError, RecursionError):
            continue
        if v is not None:
            return v
    return None


def likely(guards, inp, cfg):
    """A valuation among independent samples when several of them satisfy the guards."""
    vs = []
    for s in range(8):
        try:
            v = make_valuation(guards, inp, ('plain', s), cfg.get('maxsize', 2), 1)
        except (Undef, ZeroDivisionError, OverflowError, ValueError, RecursionError):
            continue
        if v is not None:
            vs.append(v)
        if len(vs) > 2:
            return v
    return None


# ---------------------------------------------------------------- running one obligation
class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def new_interp():
    I = interp.Interp(REPO, {'doatools': os.path.join(REPO, 'doatools'), 'specs': os.path.join(VERIF, 'specs')})
    I.mark_ev = 0
    I.hooks = {}
    I.pins = {}
    I.same = []
    I.ext['probe'] = probe_module(I)
    return I


def run_fn(I, mod, name, args):
    f = I.getattr(mod, name)
    I.mark_ev = len(I.events)
    I.rng = 0
    I.hooks = {}
    I.pins = {}
    try:
        return ('value', I.call(f, [], args))
    except PyRaise as e:
        return ('exc', e.exc, e.where)


def show_val(v):
    if isinstance(v, complex):
        return '%.6g%+.6gj' % (v.real, v.imag)
    if isinstance(v, float):
        return '%.6g' % v
    return str(v)


def show_guard(g):
    return '%s%s' % ('' if g[1] else 'not ', tm.show(g[0]))


class Result:
    def __init__(self, name, label):
        self.name, self.label = name, label
        self.paths = self.eq = self.agree = self.undec = self.leaves = self.infeasible = 0
        self.diff = None
        self.static = False
        self.why = []
        self.used = {}
        self.mode = 'symbolic'
        self.time = 0


def run_instance(modname, name, node, doc, inst, cfg):
    lab, sizes, choices = inst
    R = Result(name, lab)
    t0 = time.process_time()        # limits are CPU time, so that a busy machine decides the same obligations
    todo = [([], 0)]
    limit = cfg.get('time', 60)
    while todo and R.diff is None:
        if R.paths >= cfg.get('max_paths', MAX_PATHS):
            R.undec += 1
            R.why.append('partition limit')
            break
        dec, after = todo.pop()
        left = limit - (time.process_time() - t0)
        wall = cfg.get('deadline', time.time() + 1e6) - time.time()
        if left < 1 or wall < 1:
            R.undec += 1
            R.why.append('time limit')
            break
        R.paths += 1
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, left)
        signal.setitimer(signal.ITIMER_REAL, wall)
        br = None
        try:
            br = (effects_path if cfg.get('effects') else one_path)(R, modname, name, node, doc, sizes, choices, dec, dict(cfg, after=after) if after else cfg)
        except Timeout:
            R.undec += 1
            R.why.append('time limit')
            break
        except (Undecided, tm.Budget) as e:
            R.undec += 1
            R.why.append(str(e))
            br = getattr(R, 'cur', None)
        except RecursionError:
            R.undec += 1
            R.why.append('recursion')
            br = getattr(R, 'cur', None)
        except Infeasible:
            br = getattr(R, 'cur', None)
            R.infeasible += 1
        except MemoryError:
            raise
        except Exception as e:      # defect of the analyser itself: no verdict
            R.undec += 1
            R.why.append('internal: %s: %s | %s' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:] if cfg.get('debug') is None else traceback.format_exc()))
            br = getattr(R, 'cur', None)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
        if br is not None:
            for i in range(len(dec), len(br.decisions)):
                todo.append((br.decisions[:i] + [not br.decisions[i]], after))
        if cfg.get('stop_undec') and R.undec:
            break
        if not todo and R.static and not R.diff and after < (2 if choices else 1):
            # the repository keeps state of its own: the same again, after a call with other values or options
            todo.append(([], after + 1))
    R.time = time.process_time() - t0
    return R


# events that change state which outlives the objects of a scenario
STATIC = ('setclassattr', 'setmodattr')
STATE = ('listmut', 'dictmut', 'setmut', 'store', 'setattr')


def one_path(R, modname, name, node, doc, sizes, choices, dec, cfg):
    tm.set_ctx(tm.Ctx())
    V.EPOCH[0] += 1
    I = new_interp()
    I.branches = br = interp.Branches(dec)
    R.cur = br
    inp = Inputs(node, doc, sizes, choices)
    inp.setup()
    mod = I.load('specs.' + modname)
    mark, ev = next(V._c), len(I.events)
    if cfg.get('after'):
        try:
            run_fn(I, mod, 'impl_' + name, inp.earlier(cfg['after']).build())
        except (Required, Undecided):
            pass
        I.same = []
    a_args = inp.build()
    b_args = inp.build()
    try:
        a = run_fn(I, mod, 'impl_' + name, a_args)
    except Required as e:
        R.used.update({u: True for u in I.used if u[0].startswith('doatools')})
        v = likely(list(br.guards), inp, cfg)
        if v is None:
            raise Infeasible()
        R.diff = {'label': 'requirement', 'why': str(e), 'guards': [show_guard(g) for g in br.guards], 'witness': witness(v) if v is not None else {}}
        return br
    R.used.update({u: True for u in I.used if u[0].startswith('doatools')})
    touched = any(e[0] in STATIC or e[0] in STATE and e[1].startswith('doatools') and e[2].id < mark for e in I.events[ev:])
    R.static = R.static or touched
    same = list(I.same)
    if touched:
        # state the repository keeps for itself must not reach the reference: modules as freshly loaded
        J = new_interp()
        J.branches = br
        b = run_fn(J, J.load('specs.' + modname), 'spec_' + name, b_args)
    else:
        b = run_fn(I, mod, 'spec_' + name, b_args)
    out = []
    mism = None
    if a[0] != b[0]:
        if b[0] == 'value' and b[1] is ANY:
            return br
        da = 'raises %s' % a[1] if False else ('raises %s' % exc_str(I, a[1]) if a[0] == 'exc' else 'returns a value')
        db = 'raises %s' % exc_str(I, b[1]) if b[0] == 'exc' else 'a value is required'
        mism = ('outcome', '%s, but %s' % (da, db if b[0] == 'value' else 'it must raise %s' % b[1].cls.name))
        if a[0] == 'value' and isinstance(a[1], Unk):
            raise Undecided('outcome: ' + a[1].why)
    elif a[0] == 'exc':
        if not a[1].cls.issub(b[1].cls) and not b[1].cls.issub(a[1].cls):
            mism = ('outcome', 'raises %s instead of %s' % (exc_str(I, a[1]), exc_str(I, b[1])))
    else:
        try:
            leaves(I, a[1], b[1], 'result', out)
            for i, (x, y) in enumerate(same):
                leaves(I, x, y, 'same(%d)' % i, out)
        except Diff as e:
            mism = (e.label, e.why)
    guards = list(br.guards)
    if mism is not None:
        v = feasible(guards, inp, cfg)
        if v is None:
            R.undec += 1
            R.why.append('mismatch on a partition without a witness: %s %s [%s]' % (mism[0], mism[1], '; '.join(map(show_guard, guards))))
            return br
        R.diff = {'label': mism[0], 'why': mism[1], 'guards': [show_guard(g) for g in guards], 'witness': witness(v), 'where': a[2] if a[0] == 'exc' else ''}
        return br
    und = None
    for l in out:
        R.leaves += 1
        j = judge(l, guards, inp, cfg.get('nval', 4), cfg)
        if j == 'eq':
            R.eq += 1
        elif j == 'agree':
            R.agree += 1
        elif j[0] == 'diff':
            (ix, x, y), val = j[1]
            R.diff = {'label': l.label, 'why': 'at index %s is %s instead of %s' % (ix, show_val(x), show_val(y)), 'guards': [show_guard(g) for g in guards], 'witness': witness(val),
                      'impl': tm.show(l.a)[:400], 'spec': tm.show(l.b)[:400]}
            return br
        else:
            und = '%s: %s' % (l.label, j[1])
    if und:
        raise Undecided(und)
    return br


def draw_allowed(names):
    for m, f in names:
        if not m.startswith('doatools'):
            continue
        if f.cls is not None and f.name == 'emit' and any(c.name == 'SignalGenerator' for c in f.cls.mro):
            return True
        if f.cls is None and f.name in ('randcn', 'get_narrowband_snapshots'):
            return True
    return False


def effects_path(R, modname, name, node, doc, sizes, choices, dec, cfg):
    """One partition of a scenario, analysed for its effects only (its result is not compared)."""
    from . import effects
    tm.set_ctx(tm.Ctx())
    V.EPOCH[0] += 1
    I = new_interp()
    I.branches = br = interp.Branches(dec)
    R.cur = br
    inp = Inputs(node, doc, sizes, choices)
    inp.setup()
    mode = cfg['effects']
    mod = I.load('specs.' + modname)
    args = inp.build()
    obs = None
    if mode == 'writes':
        obs = I.watch = effects.Observer()
    try:
        run_fn(I, mod, 'impl_' + name, args)
    except Required:
        pass
    finally:
        R.used.update({u: True for u in I.used if u[0].startswith('doatools')})
    guards = list(br.guards)
    R.leaves += 1

    def bad(label, why, where, val=None):
        v = val if val is not None else likely(guards, inp, cfg)
        if v is None:
            R.undec += 1
            R.why.append('effect on a partition without a witness: %s' % why)
            return
        R.diff = {'label': label, 'why': why, 'guards': [show_guard(g) for g in guards], 'witness': witness(v), 'where': where}
    if mode == 'rng':
        for kind, where, info, names in I.draws:
            repo = [(m, f) for m, f in names if m.startswith('doatools')]
            if not repo and not where.startswith('doatools'):
                continue
            q = ' <- '.join((f.cls.name + '.' if f.cls else '') + f.name for m, f in reversed(repo)) or 'module body'
            if kind == 'rngseed':
                bad('randomness', 'the random state is seeded or replaced by %s' % q, where)
            elif kind == 'rngnew':
                bad('randomness', 'a separate generator is created by %s' % q, where)
            elif not draw_allowed(names):
                bad('randomness', 'random numbers (%s) are drawn by %s' % (info[0], q), where)
            if R.diff:
                return br
        R.eq += 1
        return br
    R.eq += obs.calls
    und = None
    for p in obs.pairs:
        out = []
        if p.what == 'an array':
            # a store is an effect even when it puts back an equal number (read-only buffers, rounding)
            bad('an array handed to %s' % p.call, 'the argument is written to', '')
            if R.diff:
                return br
            continue
        try:
            leaves(I, p.a, p.b, '%s handed to %s' % (p.what, p.call), out)
        except Diff as e:
            bad(e.label, 'modified: %s' % e.why, '')
            if R.diff:
                return br
            continue
        except Undecided as e:
            und = str(e)
            continue
        for l in out:
            R.leaves += 1
            j = judge(l, guards, inp, cfg.get('nval', 4), cfg)
            if j == 'eq':
                R.eq += 1
            elif j == 'agree':
                R.agree += 1
            elif j[0] == 'diff':
                (ix, x, y), val = j[1]
                bad(l.label, 'modified: at index %s is %s instead of %s' % (ix, show_val(x), show_val(y)), '', val)
                return br
            else:
                und = '%s: %s' % (l.label, j[1])
    if und:
        raise Undecided(und)
    return br


def exc_str(I, e):
    a = e.attrs.get('args', ())
    try:
        return '%s(%s)' % (e.cls.name, ', '.join(nc.to_str(I, x)[:100] for x in a))
    except Exception:
        return e.cls.name


def witness(val):
    out = {}
    for a, v in val.syms.items():
        out[str(a.data[0])] = plain(v)
    for (n, ix), v in list(val.over.items())[:12]:
        out['%s%s' % (n[1] if isinstance(n, tuple) else n, list(ix))] = plain(v)
    return out


def plain(v):
    if isinstance(v, complex):
        return '%.6g%+.6gj' % (v.real, v.imag)
    return round(v, 6) if isinstance(v, float) else v
