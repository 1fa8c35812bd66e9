"""Value-number domain: canonical index-notation terms.

A Term is a polynomial over interned atoms with rational coefficients; every
monomial may bind summation indices.  Terms are interned, so two terms that
have the same normal form are the same Python object.
"""
from fractions import Fraction
from itertools import permutations, count
import math

F0, F1 = Fraction(0), Fraction(1)
_ids = count(1)
_fresh = count(1)


class Budget(Exception):
    """Raised when a term grows past the analysis budget."""


MAX_MONOS = 6000

_atoms = {}
_monos = {}
_terms = {}
_lams = {}


class Atom:
    __slots__ = ('kind', 'data', 'id', 'real', 'isint', 'nonneg', 'h', 'fv', 'bounds')

    def __repr__(self):
        return show_atom(self)


class Lam:
    """A tensor-valued argument: body over canonical index atoms."""
    __slots__ = ('idx', 'body', 'id', 'h', 'fv')

    @property
    def sizes(self):
        return tuple(a.data[1] for a in self.idx)


class Mono:
    __slots__ = ('factors', 'binders', 'id', 'h', 'fv', 'real', 'isint')


class Term:
    __slots__ = ('p', 'id', 'h', 'fv', 'real', 'isint', 'tainted')

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, T(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(T(o)))

    def __rsub__(self, o):
        return add(T(o), neg(self))

    def __mul__(self, o):
        return mul(self, T(o))
    __rmul__ = __mul__

    def __neg__(self):
        return neg(self)

    def __truediv__(self, o):
        return mul(self, power(T(o), -1))

    def __rtruediv__(self, o):
        return mul(T(o), power(self, -1))

    def __pow__(self, e):
        return power(self, e)


# ---------------------------------------------------------------- context
class Ctx:
    """Facts about symbols: bounds and assumptions of the current partition."""

    def __init__(self):
        self.lo = {}        # atom -> Term
        self.hi = {}        # atom -> Term
        self.assume = {}    # ind atom -> bool
        self.ge_facts = []  # Terms known >= 0
        self.eq_facts = []  # Terms known == 0
        self.eq_rows = None
        self.foralls = []   # (indicator atom with free index variables, truth value)

    def fork(self):
        c = Ctx()
        c.lo, c.hi = dict(self.lo), dict(self.hi)
        c.assume = dict(self.assume)
        c.ge_facts = list(self.ge_facts)
        c.eq_facts = list(self.eq_facts)
        c.foralls = list(self.foralls)
        return c


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c
    clear_caches()


def clear_caches():
    """Forget results that may depend on the facts of the partition."""
    for c in (_prove_cache, _mul_cache, _mm_cache, _sum_cache, _sub_cache, _suba_cache, _nn_cache, _conj_cache):
        c.clear()


# ---------------------------------------------------------------- atoms
def _fvh(args):
    fv, h = frozenset(), 0
    for a in args:
        if isinstance(a, (Term, Lam, Atom)):
            if a.fv:
                fv = fv | a.fv
            if a.h > h:
                h = a.h
    return fv, h


def _akey(kind, data):
    return (kind,) + tuple(d.id if isinstance(d, (Term, Lam, Atom)) else ('c', type(d).__name__, d) for d in data)


def atom(kind, data, real=False, isint=False, nonneg=False, bounds=None):
    k = _akey(kind, data)
    if kind == 'el' or kind == 'sym':
        # the same name may be declared differently by different obligations
        k += (real, isint, nonneg, bounds and tuple(None if b is None else T(b).id for b in bounds))
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind, a.data, a.real, a.isint, a.nonneg, a.bounds = kind, data, real, isint, nonneg, bounds
        if kind == 'idx':
            a.fv, a.h = frozenset((a,)), 0
            s = data[1]
            if isinstance(s, Term):
                a.fv = a.fv | s.fv
                a.h = s.h
        elif kind == 'mark':
            # placeholder for a loop-carried value (scalar or buffer entry)
            fv, a.h = _fvh(data[1:])
            a.fv = fv | frozenset((a,))
        else:
            a.fv, a.h = _fvh(data)
        a.id = next(_ids)
        _atoms[k] = a
    return a


PI_A = atom('pi', (), real=True, nonneg=True)
J_A = atom('j', ())
INF_A = atom('inf', (), real=True, nonneg=True)


def mk_mono(factors, binders):
    factors = tuple(sorted(factors, key=lambda f: f[0].id))
    k = (tuple((a.id, e) for a, e in factors), tuple(b.id for b in binders))
    m = _monos.get(k)
    if m is None:
        m = Mono()
        m.factors, m.binders = factors, tuple(binders)
        fv, h = _fvh([a for a, _ in factors] + [b.data[1] for b in binders if isinstance(b.data[1], Term)])
        if binders:
            fv = fv - frozenset(binders)
            h = max(h, max(b.data[0][1] for b in binders))
        m.fv, m.h = fv, h
        m.real = all(a.real for a, e in factors)
        m.isint = all(a.isint and e > 0 and e.denominator == 1 for a, e in factors)
        m.id = next(_ids)
        _monos[k] = m
    return m


ONE_M = None


def mk_term(d):
    """d: dict Mono -> Fraction"""
    items = sorted(((m, c) for m, c in d.items() if c), key=lambda x: x[0].id)
    if len(items) > MAX_MONOS:
        raise Budget('term too large')
    k = tuple((m.id, c) for m, c in items)
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.p = tuple(items)
        fv, h = frozenset(), 0
        for m, _ in items:
            if m.fv:
                fv = fv | m.fv
            if m.h > h:
                h = m.h
        t.fv, t.h = fv, h
        t.real = all(m.real for m, _ in items)
        t.isint = all(m.isint and c.denominator == 1 for m, c in items)
        t.tainted = None
        t.id = next(_ids)
        _terms[k] = t
    return t


ONE_M = mk_mono((), ())
ZERO = mk_term({})
ONE = mk_term({ONE_M: F1})


def const(x):
    return mk_term({ONE_M: Fraction(x)})


def of_atom(a, e=F1):
    return mk_term({mk_mono(((a, Fraction(e)),), ()): F1})


PI = of_atom(PI_A)
J = of_atom(J_A)
INF = of_atom(INF_A)


def T(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        if math.isinf(x):
            return INF if x > 0 else neg(INF)
        if math.isnan(x):
            return of_atom(atom('fn', ('nan',), real=True))
        if x == math.pi:
            return PI
        return const(Fraction(repr(x)))
    if isinstance(x, complex):
        return add(T(x.real), mul(J, T(x.imag)))
    raise TypeError(type(x))


def as_const(t):
    """Fraction value of a constant term, else None."""
    if not t.p:
        return F0
    if len(t.p) == 1 and t.p[0][0] is ONE_M:
        return t.p[0][1]
    return None


def as_int(t):
    c = as_const(t)
    if c is not None and c.denominator == 1:
        return int(c)
    return None


def single_atom(t):
    """The atom when t is exactly one atom, else None."""
    if len(t.p) == 1 and t.p[0][1] == 1:
        m = t.p[0][0]
        if not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1:
            return m.factors[0][0]
    return None


# ---------------------------------------------------------------- constructors
def sym(name, real=True, isint=False, nonneg=False):
    return of_atom(atom('sym', (name,), real=real, isint=isint, nonneg=nonneg))


def idx_atom(name, size):
    return atom('idx', (name, size), real=True, isint=True, nonneg=True)


def mark_atom(name, args=(), real=False, isint=False, nonneg=False):
    return atom('mark', (name,) + tuple(args), real=real, isint=isint, nonneg=nonneg)


def fresh_idx(size):
    return idx_atom(('x', next(_fresh)), T(size))


def el(name, args, real=False, isint=False, nonneg=False, bounds=None):
    return of_atom(atom('el', (name,) + tuple(T(a) for a in args), real=real, isint=isint, nonneg=nonneg, bounds=bounds))


def fn(name, args, real=False, isint=False, nonneg=False, bounds=None):
    return of_atom(atom('fn', (name,) + tuple(args), real=real, isint=isint, nonneg=nonneg, bounds=bounds))


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if not a.p:
        return b
    if not b.p:
        return a
    d = dict(a.p)
    for m, c in b.p:
        s = d.get(m, F0) + c
        if s:
            d[m] = s
        else:
            d.pop(m, None)
    return mk_term(d)


def add_all(ts):
    d = {}
    for t in ts:
        for m, c in t.p:
            d[m] = d.get(m, F0) + c
    return mk_term(d)


def scale(t, c):
    if c == 0:
        return ZERO
    if c == 1:
        return t
    return mk_term({m: k * c for m, k in t.p})


def neg(t):
    return scale(t, -1)


_mul_cache = {}
SEAL = 60


def seal(t):
    """The value of t as one opaque factor, with its index variables as arguments."""
    if len(t.p) <= 3:
        return t
    xs = sorted((a for a in t.fv if a.kind == 'idx'), key=lambda a: (a.data[1].h, len(a.data[1].fv), a.id))
    return fn('let', (mk_lam(xs, t),) + tuple(of_atom(x) for x in xs), real=t.real, isint=t.isint, nonneg=is_nonneg(t))


def relet(l, *args):
    if len(l.body.p) <= 8 and all(not a.fv for a in args):
        return apply_lam(l, args)
    b = l.body
    return fn('let', (l,) + args, real=b.real, isint=b.isint, nonneg=is_nonneg(b))


def mul(a, b):
    if not a.p or not b.p:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    ca, cb = as_const(a), as_const(b)
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _mul_cache.get(k)
    if r is None:
        if len(a.p) * len(b.p) > SEAL:
            # name the larger factor instead of expanding the product
            if len(a.p) < len(b.p):
                a, b = b, a
            a = seal(a)
            if len(a.p) * len(b.p) > SEAL:
                b = seal(b)
        d = {}
        for m1, c1 in a.p:
            for m2, c2 in b.p:
                for m, c in mul_mono(m1, m2).p:
                    d[m] = d.get(m, F0) + c * c1 * c2
        r = mk_term(d)
        _mul_cache[k] = r
    return r


_mm_cache = {}


def mul_mono(m1, m2):
    if m1 is ONE_M:
        return mk_term({m2: F1})
    if m2 is ONE_M:
        return mk_term({m1: F1})
    k = (m1.id, m2.id) if m1.id < m2.id else (m2.id, m1.id)
    r = _mm_cache.get(k)
    if r is not None:
        return r
    if m1.binders or m2.binders:
        f1, b1 = open_mono(m1)
        f2, b2 = open_mono(m2)
        t = build(list(f1) + list(f2))
        r = t
        for b in b1 + b2:
            r = sum_over(r, b)
    else:
        r = build(list(m1.factors) + list(m2.factors))
    _mm_cache[k] = r
    return r


def open_mono(m):
    """Rename the bound indices of m to fresh ones."""
    if not m.binders:
        return m.factors, []
    ren, fresh = {}, []
    for b in m.binders:
        s = b.data[1]
        s2 = subst(s, ren) if ren and s.fv else s
        x = fresh_idx(s2)
        ren[b] = of_atom(x)
        fresh.append(x)
    fs = []
    for a, e in m.factors:
        t = subst_atom(a, ren)
        a2 = single_atom(t)
        if a2 is None:
            u = power(t, e)
            if len(u.p) == 1 and u.p[0][1] == 1 and not u.p[0][0].binders:
                fs.extend(u.p[0][0].factors)
            else:
                fs.append((t, e))
        else:
            fs.append((a2, e))
    return fs, fresh


def build(factors):
    """Term for a product of (Atom|Term, exponent) factors without binders."""
    coef = F1
    d = {}
    extra = []
    expargs = None
    stack = list(factors)
    while stack:
        a, e = stack.pop()
        if isinstance(a, Term):
            extra.append(power(a, e))
            continue
        if a.kind == 'fn' and a.data[0] == 'exp' and e.denominator == 1:
            arg = scale(a.data[1], e)
            expargs = arg if expargs is None else add(expargs, arg)
            continue
        d[a] = d.get(a, F0) + e
    if expargs is not None:
        ex = exp_(expargs)
        for_a = single_atom(ex)
        if for_a is not None and for_a.kind == 'fn' and for_a.data[0] == 'exp':
            d[for_a] = d.get(for_a, F0) + 1
        else:
            extra.append(ex)
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        k = a.kind
        if k == 'j':
            n = e % 4
            if n.denominator != 1:
                out.append((a, e))
                continue
            n = int(n)
            if n in (2, 3):
                coef = -coef
            if n in (1, 3):
                out.append((a, F1))
        elif k == 'ind':
            out.append((a, F1))
        elif k == 'grp' and e.denominator == 1 and e > 0:
            extra.append(power(a.data[0], e))
        else:
            out.append((a, e))
    # contradictory / implied indicators
    t = mk_term({mk_mono(tuple(out), ()): coef}) if out or coef else ZERO
    for x in extra:
        t = mul(t, x)
    return t


def _frac_pow(c, e):
    """c ** e exactly as Fraction or None."""
    if e.denominator == 1:
        return Fraction(c) ** int(e)
    if c < 0:
        return None
    n = round(c.numerator ** (1.0 / e.denominator))
    d = round(c.denominator ** (1.0 / e.denominator))
    if n ** e.denominator == c.numerator and d ** e.denominator == c.denominator:
        return Fraction(n, d) ** e.numerator
    return None


def nonneg_atom(a):
    return a.nonneg or a.kind == 'ind'


def power(t, e):
    e = Fraction(e)
    if e == 1:
        return t
    if e == 0:
        return ONE
    if not t.p:
        if e > 0:
            return ZERO
        return of_atom(atom('fn', ('div0',), real=True))
    c = as_const(t)
    if c is not None:
        r = _frac_pow(c, e)
        if r is not None:
            return const(r)
        if c > 0:
            # integer part of the exponent is exact
            ip = e.numerator // e.denominator
            fr = e - ip
            r = of_atom(atom('grp', (const(c),), real=True, nonneg=True), fr)
            return scale(r, Fraction(c) ** ip) if ip else r
        return of_atom(atom('grp', (const(c),)), e)
    if len(t.p) == 1:
        m, c = t.p[0]
        if not m.binders:
            if e.denominator == 1:
                r = build([(a, x * e) for a, x in m.factors])
                return scale(r, Fraction(c) ** int(e))
            # fractional power: split nonneg atoms out
            out, rest = [], []
            for a, x in m.factors:
                (out if nonneg_atom(a) else rest).append((a, x))
            if not rest and c > 0:
                return mul(build([(a, x * e) for a, x in out]), power(const(c), e))
            if rest and (out or c != 1) and c > 0:
                inner = mk_term({mk_mono(tuple(rest), ()): F1})
                return mul(mul(build([(a, x * e) for a, x in out]), power(const(c), e)), power(inner, e))
            if len(rest) == 1 and rest[0][0].kind == 'grp' and c == 1:
                a, x = rest[0]
                # ((u)^x)^e with u a square modulus (nonneg) handled by nonneg flag
                pass
            g = atom('grp', (t,), real=_pow_real(t, e), nonneg=_pow_nonneg(t, e))
            return of_atom(g, e)
    if e.denominator == 1 and 0 < e <= 4 and len(t.p) ** int(e) <= 2000:
        r = t
        for _ in range(int(e) - 1):
            r = mul(r, t)
        return r
    # content extraction
    lead = t.p[0][1]
    cfac = F1
    if e.denominator == 1 and lead != 1:
        cfac = lead
    elif e.denominator != 1 and abs(lead) != 1:
        cfac = abs(lead)
    common = None
    if e.denominator == 1 or True:
        for m, _ in t.p:
            fs = dict((a, x) for a, x in m.factors if (e.denominator == 1 or nonneg_atom(a)) and a.kind not in ('ind', 'j') and not (a.fv & frozenset(m.binders)))
            if common is None:
                common = fs
            else:
                common = {a: min(x, fs[a]) for a, x in common.items() if a in fs}
            if not common:
                break
    pre = ONE
    if common:
        t = _divide_out(t, common)
        pre = build([(a, x * e) for a, x in common.items()])
        return mul(pre, power(t, e))
    if cfac != 1:
        t = scale(t, 1 / cfac)
        return mul(power(const(cfac), e), power(t, e))
    g = atom('grp', (t,), real=_pow_real(t, e), nonneg=_pow_nonneg(t, e))
    return of_atom(g, e)


def _divide_out(t, common):
    """t with the factors of common (atom -> exponent, present in every monomial) removed."""
    r = ZERO
    for m, c in t.p:
        fs = [(a, x - common.get(a, F0)) for a, x in m.factors]
        fs = tuple((a, x) for a, x in fs if x)
        if m.binders:
            f, bs = open_mono(mk_mono(fs, m.binders))
            u = build(list(f))
            for b in bs:
                u = sum_over(u, b)
        else:
            u = mk_term({mk_mono(fs, ()): F1})
        r = add(r, scale(u, c))
    return r


def _pow_real(t, e):
    return t.real


def _pow_nonneg(t, e):
    return is_nonneg(t)


_nn_cache = {}


def is_nonneg(t):
    """Syntactic nonnegativity (sums of squared moduli, nonneg atoms...)."""
    r = _nn_cache.get(t.id)
    if r is None:
        r = all(_mono_nonneg(m, c) for m, c in t.p)
        _nn_cache[t.id] = r
    return r


def _mono_nonneg(m, c):
    if c < 0:
        return False
    fs = [(a, e) for a, e in m.factors if not nonneg_atom(a)]
    d = dict(fs)
    done = set()
    for a, e in fs:
        if a in done:
            continue
        if a.real and e.denominator == 1 and e % 2 == 0:
            done.add(a)
            continue
        ca = single_atom(conj(of_atom(a)))
        if ca is not None and ca in d and d[ca] == e and ca is not a:
            done.add(a)
            done.add(ca)
            continue
        return False
    return True


# ---------------------------------------------------------------- conj
_conj_cache = {}


def conj(t):
    if t.real:
        return t
    r = _conj_cache.get(t.id)
    if r is None:
        r = add_all([scale(conj_mono(m), c) for m, c in t.p])
        _conj_cache[t.id] = r
        _conj_cache[r.id] = t
    return r


def conj_mono(m):
    if m.real:
        return mk_term({m: F1})
    fs, bs = open_mono(m)
    r = build([(x, e) if isinstance(x, Atom) and x.real else (conj(x if isinstance(x, Term) else conj_atom(x)) if isinstance(x, Term) else conj_atom(x), e) for x, e in fs])
    for b in bs:
        r = sum_over(r, b)
    return r


HOLO = {'inv', 'sqrtm', 'pinv'}   # f(conj X) = conj f(X), entrywise results


def conj_atom(a):
    if a.real:
        return of_atom(a)
    k = a.kind
    if k == 'j':
        return neg(J)
    if k == 'el' and isinstance(a.data[0], tuple) and a.data[0][0] == 'herm':
        return of_atom(atom('el', (a.data[0], a.data[2], a.data[1])))
    if k == 'cj':
        return of_atom(a.data[0])
    if k == 'fn':
        n = a.data[0]
        if n == 'exp':
            return exp_(conj(a.data[1]))
        if n in HOLO:
            args = [lam_map(x, conj) if isinstance(x, Lam) else x for x in a.data[1:]]
            return of_atom(atom('fn', (n,) + tuple(args)))
    if k == 'grp':
        inner = conj(a.data[0])
        return power(inner, 1) if False else of_atom(atom('grp', (inner,), real=inner.real, nonneg=a.nonneg))
    return of_atom(atom('cj', (a,)))


def re(t):
    if t.real:
        return t
    return scale(add(t, conj(t)), Fraction(1, 2))


def im(t):
    if t.real:
        return ZERO
    return mul(scale(add(t, neg(conj(t))), Fraction(1, 2)), neg(J))


def abs2(t):
    return mul(t, conj(t))


def abs_(t):
    if t.real and is_nonneg(t):
        return t
    if t.real and is_nonneg(neg(t)):
        return neg(t)
    return power(abs2(t), Fraction(1, 2))


# ---------------------------------------------------------------- functions
def exp_(t):
    if not t.p:
        return ONE
    # exp of j*pi multiples
    c = None
    if len(t.p) == 1:
        m, k = t.p[0]
        if not m.binders and dict(m.factors) == {J_A: F1, PI_A: F1}:
            k = k % 2
            if k == 0:
                return ONE
            if k == 1:
                return const(-1)
            if k == Fraction(1, 2):
                return J
            if k == Fraction(3, 2):
                return neg(J)
    return of_atom(atom('fn', ('exp', t), real=t.real, nonneg=t.real))


def _pi_mult(t):
    if not t.p:
        return F0
    if len(t.p) == 1 and dict(t.p[0][0].factors) == {PI_A: F1} and not t.p[0][0].binders:
        return t.p[0][1]
    return None


def _lead_neg(t):
    return bool(t.p) and t.p[0][1] < 0


def sin_(t):
    k = _pi_mult(t)
    if k is not None:
        k = k % 2
        tab = {F0: 0, Fraction(1, 2): 1, F1: 0, Fraction(3, 2): -1, Fraction(1, 6): Fraction(1, 2), Fraction(5, 6): Fraction(1, 2)}
        if k in tab:
            return const(tab[k])
    s = _shift_halfpi(t)
    if s is not None:
        return s[0]
    a = single_atom(t)
    if a is not None and a.kind == 'fn' and a.data[0] == 'arcsin':
        return a.data[1]
    if _lead_neg(t):
        return neg(sin_(neg(t)))
    return fn('sin', (t,), real=t.real)


def cos_(t):
    k = _pi_mult(t)
    if k is not None:
        k = k % 2
        tab = {F0: 1, Fraction(1, 2): 0, F1: -1, Fraction(3, 2): 0, Fraction(1, 3): Fraction(1, 2)}
        if k in tab:
            return const(tab[k])
    s = _shift_halfpi(t)
    if s is not None:
        return s[1]
    a = single_atom(t)
    if a is not None and a.kind == 'fn' and a.data[0] == 'arcsin':
        return power(ONE - a.data[1] * a.data[1], Fraction(1, 2))
    if _lead_neg(t):
        return cos_(neg(t))
    return fn('cos', (t,), real=t.real)


_PI_M = of_atom(PI_A).p[0][0]


def _shift_halfpi(t):
    """(sin, cos) of t when it contains a multiple of pi/2 plus other terms."""
    if len(t.p) < 2:
        return None
    k = dict(t.p).get(_PI_M)
    if k is None:
        return None
    n = k * 2
    if n.denominator != 1:
        return None
    r = add(t, scale(PI, -k))
    n = int(n) % 4
    s, c = sin_(r), cos_(r)
    return [(s, c), (c, neg(s)), (neg(s), neg(c)), (neg(c), s)][n]


def arcsin_(t):
    if not t.p:
        return ZERO
    if _lead_neg(t):
        return neg(arcsin_(neg(t)))
    return fn('arcsin', (t,), real=t.real)


def log_(t):
    if t is ONE:
        return ZERO
    a = single_atom(t)
    if a is not None and a.kind == 'fn' and a.data[0] == 'exp' and a.real:
        return a.data[1]
    # log of a product of known nonneg factors
    if len(t.p) == 1 and not t.p[0][0].binders:
        m, c = t.p[0]
        if c > 0 and all(nonneg_atom(a) and a.kind != 'ind' for a, _ in m.factors) and (len(m.factors) > 1 or c != 1 or (m.factors and m.factors[0][1] != 1)):
            r = ZERO
            for a, e in m.factors:
                if a.kind == 'grp':
                    x = fn('log', (a.data[0],), real=True)
                else:
                    x = fn('log', (of_atom(a),), real=True)
                r = r + scale(x, e)
            if c != 1:
                r = r + fn('log', (const(c),), real=True)
            return r
    return fn('log', (t,), real=t.real and is_nonneg(t))


# ---------------------------------------------------------------- sums
_sum_cache = {}


def sum_over(t, ix):
    """Sum of t over index atom ix from 0 to size-1."""
    size = ix.data[1]
    k = (t.id, ix.id)
    r = _sum_cache.get(k)
    if r is None:
        b = _breakpoint(t, ix, size)
        if b is None:
            r = add_all([scale(sum_mono(m, ix), c) for m, c in t.p])
        else:
            # piecewise summand (concatenated blocks): sum the pieces separately
            r = ZERO
            for n_, off in ((b, ZERO), (add(size, neg(b)), b)):
                i = fresh_idx(n_)
                r = add(r, sum_over(_restrict(t, ix, add(off, of_atom(i))), i))
        _sum_cache[k] = r
    return r


def _solve_eq(t, ix):
    """ix value making linear term t zero, or None."""
    mo = ix_mono(ix)
    c = F0
    rest = {}
    for m, k in t.p:
        if m is mo:
            c = k
        elif ix in m.fv:
            return None
        else:
            rest[m] = k
    if c == 0:
        return None
    r = scale(mk_term(rest), -1 / c)
    if abs(c) != 1 and not r.isint:
        return None
    return r


def ix_mono(ix):
    return mk_mono(((ix, F1),), ())


def sum_mono(m, ix):
    size = ix.data[1]
    if ix not in m.fv:
        return mul(size, mk_term({m: F1}))
    n = as_int(size)
    if n == 0:
        return ZERO
    if n == 1:
        return subst(mk_term({m: F1}), {ix: ZERO})
    fs, bs = open_mono(m)
    # pull out factors independent of ix (keeps monomials flat: they are
    # products anyway, nothing to do) and eliminate Kronecker deltas
    for a, e in fs:
        if isinstance(a, Atom) and a.kind == 'ind' and a.data[0] == 'eq' and ix in a.fv:
            v = _solve_eq(a.data[1], ix)
            if v is not None:
                rest = [(x, y) for x, y in fs if x is not a]
                body = build(rest)
                for b in bs:
                    body = sum_over(body, b) if not (frozenset([b]) & v.fv) else body
                # binders appearing in v must stay outside
                r = subst(body, {ix: v})
                r = mul(r, mul(ind_ge(v), ind_ge(size - v - 1)))
                for b in bs:
                    if b in v.fv:
                        r = sum_over(r, b)
                return r
    # try also eliminating already-bound indices through deltas on them
    flat = []
    for a, e in fs:
        if isinstance(a, Term):
            t = build(fs)
            for b in bs:
                t = sum_over(t, b)
            return sum_over(t, ix)
        flat.append((a, e))
    return close_mono(flat, bs + [ix])


def _restrict(t, ix, v):
    """t at ix = v, looking into sealed factors."""
    out = []
    for m, c in t.p:
        if ix in m.fv and any(a.kind == 'fn' and a.data[0] == 'let' and ix in a.fv for a, e in m.factors):
            fs, bs = open_mono(m)
            u = build([(_open_let(a, ix, v) if isinstance(a, Atom) and ix in a.fv else a if isinstance(a, Atom) or ix not in a.fv else subst(a, {ix: v}), e) for a, e in fs])
            for x in bs:
                u = sum_over(u, x)
        else:
            u = subst(mk_term({m: F1}), {ix: v})
        out.append(scale(u, c))
    return add_all(out)


def _open_let(a, ix, v):
    if a.kind == 'fn' and a.data[0] == 'let':
        return seal(apply_lam(a.data[1], [subst(x, {ix: v}) if ix in x.fv else x for x in a.data[2:]]))
    return subst_atom(a, {ix: v})


def _breakpoint(t, ix, size):
    """Position inside the range of ix where an indicator of the summand switches."""
    best = None
    for m, c in t.p:
        if ix not in m.fv:
            continue
        bs = frozenset(m.binders)
        for a, e in m.factors:
            if ix not in a.fv:
                continue
            for b in _breaks(a, ix):
                if b.fv & bs or ix in b.fv or best is not None and best.id <= b.id:
                    continue
                if decide_ge(add(b, const(-1))) is True and decide_ge(add(add(size, neg(b)), const(-1))) is True:
                    best = b
    return best


def _breaks(a, ix):
    if a.kind == 'ind' and a.data[0] == 'ge':
        t = a.data[1]
        if t.isint:
            k = dict(t.p).get(ix_mono(ix), F0)
            if k == -1:
                return [add(t, add(of_atom(ix), ONE))]
            if k == 1:
                return [add(of_atom(ix), neg(t))]
    elif a.kind == 'fn' and a.data[0] == 'let':
        l = a.data[1]
        for x, arg in zip(l.idx, a.data[2:]):
            if single_atom(arg) is ix:
                out = []
                for b in _lam_breaks(l, x):
                    if b.fv & frozenset(l.idx):
                        b = subst(b, {y: g for y, g in zip(l.idx, a.data[2:])})
                    out.append(b)
                return out
    return ()


_lam_break_cache = {}


def _lam_breaks(l, x):
    k = (l.id, x.id)
    r = _lam_break_cache.get(k)
    if r is None:
        r = {}
        for m, _ in l.body.p:
            for a, e in m.factors:
                if x in a.fv and isinstance(a, Atom):
                    for b in _breaks(a, x):
                        if not b.fv & frozenset(m.binders) and x not in b.fv:
                            r[b.id] = b
        r = _lam_break_cache[k] = list(r.values())
    return r


_sig_cache = {}
_MASKS = {}


def _mask(name):
    a = _MASKS.get(name)
    if a is None:
        a = idx_atom(('m', name), ZERO)
        _MASKS[name] = a
    return of_atom(a)


def close_mono(factors, binders):
    """Canonically name the binders (fresh index atoms) of a monomial."""
    bs = list(binders)
    h = 1 + max([a.h for a, _ in factors] + [b.data[1].h for b in bs] + [0])
    if len(bs) > 1:
        # signature refinement
        col = {b: (b.data[1].id if not (b.data[1].fv & frozenset(bs)) else -1,) for b in bs}
        for _ in range(2 if len(bs) < 3 else 3):
            ranks = {v: i for i, v in enumerate(sorted(set(col.values())))}
            new = {}
            for b in bs:
                ren = {}
                for x in bs:
                    ren[x] = _mask(('self',)) if x is b else _mask(('o', ranks[col[x]]))
                sig = []
                for a, e in factors:
                    if b in a.fv:
                        sig.append((subst_atom(a, ren).id, e))
                new[b] = (ranks[col[b]], tuple(sorted(sig)))
            if len(set(new.values())) == len(set(col.values())) and _ > 0:
                col = new
                break
            col = new
        ranks = {v: i for i, v in enumerate(sorted(set(col.values()), key=repr))}
        groups = {}
        for b in bs:
            groups.setdefault(ranks[col[b]], []).append(b)
        orders = [[]]
        total = 1
        for g in sorted(groups):
            total *= math.factorial(len(groups[g]))
        for g in sorted(groups):
            mem = groups[g]
            if total <= 24:
                orders = [o + list(p) for o in orders for p in permutations(mem)]
            else:
                orders = [o + mem for o in orders]
    else:
        orders = [bs]
    best = None
    for o in orders:
        ren, names = {}, []
        for p, b in enumerate(o):
            s = b.data[1]
            s2 = subst(s, ren) if s.fv and ren else s
            nb = idx_atom(('s', h, p), s2)
            ren[b] = of_atom(nb)
            names.append(nb)
        nf = []
        ok = True
        for a, e in factors:
            t = subst_atom(a, ren)
            a2 = single_atom(t)
            if a2 is None:
                u = power(t, e)
                if len(u.p) == 1 and u.p[0][1] == 1 and not u.p[0][0].binders:
                    nf.extend(u.p[0][0].factors)
                    continue
                ok = False
                break
            nf.append((a2, e))
        if not ok:
            # renaming simplified something: keep the unsimplified factor order
            t = build([(subst_atom(a, ren), e) for a, e in factors])
            r = ZERO
            for m, c in t.p:
                mm = mk_mono(m.factors, tuple(names)) if not m.binders else None
                if mm is None:
                    raise Budget('nested binder')
                r = add(r, mk_term({mm: c}))
            return r
        key = tuple(sorted((a.id, e) for a, e in nf))
        if best is None or key < best[0]:
            best = (key, nf, names)
    merged = {}
    for a, e in best[1]:
        merged[a] = merged.get(a, F0) + e
    return mk_term({mk_mono(tuple(merged.items()), tuple(best[2])): F1})


# ---------------------------------------------------------------- substitution
_sub_cache = {}


def subst(t, env):
    """Replace index/other atoms by terms. env: Atom -> Term"""
    if not t.fv:
        return t
    rel = tuple(sorted(((k.id, v.id) for k, v in env.items() if k in t.fv)))
    if not rel:
        return t
    key = (t.id, rel)
    r = _sub_cache.get(key)
    if r is None:
        r = add_all([scale(subst_mono(m, env), c) for m, c in t.p])
        _sub_cache[key] = r
    return r


def subst_mono(m, env):
    if not any(k in m.fv for k in env):
        return mk_term({m: F1})
    fs, bs = open_mono(m)
    nbs = []
    ren = {}
    for b in bs:
        if b.data[1].fv and any(k in b.data[1].fv for k in env):
            nb = fresh_idx(subst(b.data[1], env))
            ren[b] = of_atom(nb)
            nbs.append(nb)
        else:
            nbs.append(b)
    if ren:
        env = dict(env)
        env.update(ren)
    out = []
    for a, e in fs:
        if isinstance(a, Term):
            out.append((subst(a, env), e))
        else:
            t = subst_atom(a, env)
            a2 = single_atom(t)
            out.append((a2, e) if a2 is not None else (t, e))
    r = build(out)
    for b in nbs:
        r = sum_over(r, b)
    return r


_suba_cache = {}


def subst_atom(a, env):
    if not a.fv:
        return of_atom(a)
    rel = tuple(sorted(((k.id, v.id) for k, v in env.items() if k in a.fv)))
    if not rel:
        return of_atom(a)
    key = (a.id, rel)
    r = _suba_cache.get(key)
    if r is None:
        r = _subst_atom(a, env)
        _suba_cache[key] = r
    return r


def _subst_atom(a, env):
    k = a.kind
    if k == 'mark':
        if a in env:
            return env[a]
        return of_atom(mark_atom(a.data[0], [subst(x, env) for x in a.data[1:]], a.real, a.isint, a.nonneg))
    if k == 'idx':
        if a in env:
            return env[a]
        # size depends on a substituted index
        return of_atom(idx_atom(a.data[0], subst(a.data[1], env)))
    if k == 'cj':
        return conj(subst_atom(a.data[0], env))
    if k == 'ind':
        t = subst(a.data[1], env)
        return ind_ge(t) if a.data[0] == 'ge' else ind_eq(t)
    if k == 'grp':
        # exponent applied by caller
        t = subst(a.data[0], env)
        if t is a.data[0]:
            return of_atom(a)
        return t if False else _grp_or(t)
    args = []
    for x in a.data[1:]:
        if isinstance(x, Term):
            args.append(subst(x, env))
        elif isinstance(x, Lam):
            args.append(subst_lam(x, env))
        else:
            args.append(x)
    if k == 'fn':
        rb = REBUILD.get(a.data[0])
        if rb is not None:
            return rb(*args)
    b = a.bounds
    if b is not None:
        b = tuple(subst(x, env) if isinstance(x, Term) else x for x in b)
    return of_atom(atom(k, (a.data[0],) + tuple(args), real=a.real, isint=a.isint, nonneg=a.nonneg, bounds=b))


def _grp_or(t):
    return t


def mk_lam(idx, body):
    """idx: list of (fresh) index atoms bound in body."""
    h = 1 + max([body.h] + [i.data[1].h for i in idx] + [0])
    ren, names = {}, []
    for p, b in enumerate(idx):
        s = b.data[1]
        s2 = subst(s, ren) if s.fv and ren else s
        nb = idx_atom(('l', h, p), s2)
        ren[b] = of_atom(nb)
        names.append(nb)
    body = subst(body, ren)
    k = (tuple(n.id for n in names), body.id)
    l = _lams.get(k)
    if l is None:
        l = Lam()
        l.idx, l.body = tuple(names), body
        fv = body.fv
        for n in names:
            fv = fv | n.data[1].fv
        l.fv = fv - frozenset(names)
        l.h = h
        l.id = next(_ids)
        _lams[k] = l
    return l


def open_lam(l):
    ren, fr = {}, []
    for b in l.idx:
        s = b.data[1]
        x = fresh_idx(subst(s, ren) if s.fv and ren else s)
        ren[b] = of_atom(x)
        fr.append(x)
    return fr, subst(l.body, ren)


def lam_map(l, f):
    fr, b = open_lam(l)
    return mk_lam(fr, f(b))


def subst_lam(l, env):
    if not any(k in l.fv for k in env):
        return l
    fr, b = open_lam(l)
    fr2, ren = [], dict(env)
    for x in fr:
        if x.data[1].fv and any(k in x.data[1].fv for k in env):
            y = fresh_idx(subst(x.data[1], env))
            ren[x] = of_atom(y)
            fr2.append(y)
        else:
            fr2.append(x)
    return mk_lam(fr2, subst(b, ren))


def apply_lam(l, args):
    return subst(l.body, {i: T(a) for i, a in zip(l.idx, args)})


# ---------------------------------------------------------------- indicators
def _prim(t, allow_neg):
    if not t.p:
        return t
    c = abs(t.p[0][1])
    if allow_neg and t.p[0][1] < 0:
        c = -c
    return scale(t, 1 / c) if c != 1 else t


def ind_ge(t):
    """[t >= 0]"""
    d = decide_ge(t)
    if d is True:
        return ONE
    if d is False:
        return ZERO
    if t.isint:
        # comparisons of one index variable against the ends of its range
        r = _idx_end(t)
        if r is not None:
            return r
        c = _content(t)
        if c != 1:
            t = scale(t, Fraction(1, c))
            k = dict(t.p).get(ONE_M, F0)
            if k.denominator != 1:
                t = add(t, const(math.floor(k) - k))
    else:
        t = _prim(t, False)
    a = atom('ind', ('ge', t), real=True, isint=True, nonneg=True)
    if a in CTX.assume:
        return ONE if CTX.assume[a] else ZERO
    return forall_known(a)


def _content(t):
    """gcd of the non-constant coefficients of an integer term."""
    g = 0
    for m, c in t.p:
        if m is not ONE_M:
            g = math.gcd(g, abs(c.numerator))
    return g or 1


def _idx_end(t):
    if len(t.p) > 2:
        return None
    x = c = None
    k = F0
    for m, cc in t.p:
        if m is ONE_M:
            k = cc
        elif len(m.factors) == 1 and m.factors[0][0].kind == 'idx' and m.factors[0][1] == 1 and not m.binders and abs(cc) == 1:
            if x is not None:
                return None
            x, c = m.factors[0][0], cc
        else:
            return None
    if x is None:
        return None
    if c == -1 and k == 0:
        return ind_eq(of_atom(x))
    if c == 1 and k == -1:
        n = x.data[1]
        if isinstance(n, Term) and as_const(n) == 2:
            return add(ONE, scale(ind_eq(of_atom(x)), -1))
    return None


def ind_eq(t):
    d = decide_eq(t)
    if d is True:
        return ONE
    if d is False:
        return ZERO
    if is_bool(t):
        return ONE - t
    if is_bool(ONE - t):
        return t_bool_id(ONE - t)
    t = _prim(t, True)
    if len(t.p) == 2 and t.isint:
        d = dict(t.p)
        if abs(d.get(ONE_M, F0)) == 1:
            r = _idx_end(t if d[ONE_M] == -1 else neg(t))
            if r is not None:
                return r
    a = atom('ind', ('eq', t), real=True, isint=True, nonneg=True)
    if a in CTX.assume:
        return ONE if CTX.assume[a] else ZERO
    return forall_known(a)


def t_bool_id(t):
    return t


def is_bool(t):
    """t is a product of indicators (0/1-valued)."""
    return len(t.p) == 1 and t.p[0][1] == 1 and not t.p[0][0].binders and len(t.p[0][0].factors) > 0 and all(a.kind == 'ind' for a, e in t.p[0][0].factors)


def forall_known(a):
    """The indicator atom as a term, decided by a universally quantified fact if one matches."""
    for pat, v in CTX.foralls:
        if pat.data[0] == a.data[0] and match_atom(pat, a):
            return ONE if v else ZERO
    return of_atom(a)


def match_atom(pat, a):
    """a is an instance of pat under some substitution of its free index variables."""
    if pat is a:
        return True
    t = a.data[1]
    u = pat.data[1]
    if not u.fv:
        return False
    pe = [x for x in occurring(u, lambda x: x.kind == 'el') if x.fv]
    if not pe:
        return False
    x = min(pe, key=lambda z: z.id)
    for y in occurring(t, lambda z: z.kind == 'el' and z.data[0] == x.data[0]):
        env = {}
        for p, q in zip(x.data[1:], y.data[1:]):
            at = single_atom(p)
            if at is not None and at.kind == 'idx' and at in u.fv and at not in env:
                env[at] = q
        if all(z in env for z in u.fv):
            if subst(u, env) is t and all(prove_ge(q) and prove_ge(subst(z.data[1], env) - 1 - q) for z, q in env.items()):
                return True
    return False


_prove_cache = {}


PI_LO, PI_HI = Fraction(333, 106), Fraction(355, 113)
TRIG = {'sin': 1, 'cos': 1, 'arcsin': 0, 'arctan': 0}


def atom_lo(a):
    if a in CTX.lo:
        return CTX.lo[a]
    if a.kind == 'pi':
        return const(PI_LO)
    if a.kind == 'fn' and a.data[0] in TRIG and a.real:
        return const(F1 * -1) if TRIG[a.data[0]] else PI * Fraction(-1, 2)
    if a.kind == 'fn' and a.data[0] in ('angle', 'arctan2'):
        return neg(PI)
    if a.kind == 'idx':
        return ZERO
    if a.kind == 'ind':
        return ZERO
    if a.bounds and a.bounds[0] is not None:
        return T(a.bounds[0])
    if a.nonneg:
        return ZERO
    return None


def _num_lo(t):
    """A numeric lower bound of a sum of products of pi and one atom with numeric bounds, or None."""
    s = 0.0
    for m, c in t.p:
        if m.binders:
            return None
        f, at = float(c), None
        for a, e in m.factors:
            if a.kind == 'pi':
                f *= 3.141592653589793 ** e
            elif at is None and e == 1 and a.real:
                at = a
            else:
                return None
        if at is not None:
            b = atom_lo(at) if f > 0 else atom_hi(at)
            if b is None:
                return None
            b = float(as_const(b)) if as_const(b) is not None else closed_value(b)
            if b is None:
                return None
            f *= b
        s += f
    return s


def _hi_of(t):
    """An upper bound of t by bounding its atoms from above, or None."""
    r = ZERO
    for m, c in t.p:
        if not m.factors:
            r = r + const(c)
            continue
        if m.binders:
            return None
        z = const(c)
        for a, e in m.factors:
            if e != 1:
                return None
            b = None
            if a.kind == 'idx' or (a.kind in ('el', 'fn') and a.bounds):
                b = atom_hi(a) if c > 0 else atom_lo(a)
                if b is None and a.kind == 'idx':
                    return None
            elif a.kind == 'fn' and a.data[0] in ('sort', 'max', 'min') and isinstance(a.data[1], Lam) and c > 0:
                b = _hi_of(open_lam(a.data[1])[1])
            if b is not None:
                if not (c > 0 and all(nonneg_atom(x) for x, _ in m.factors) or len(m.factors) == 1):
                    return None
                z = z * b
            else:
                z = z * of_atom(a)
        r = r + z
    return r


def atom_hi(a):
    if a in CTX.hi:
        return CTX.hi[a]
    if a.kind == 'pi':
        return const(PI_HI)
    if a.kind == 'fn' and a.data[0] in TRIG and a.real:
        return ONE if TRIG[a.data[0]] else PI * Fraction(1, 2)
    if a.kind == 'fn' and a.data[0] in ('angle', 'arctan2', 'arccos'):
        return PI
    if a.kind == 'fn' and a.data[0] == 'floordiv':
        h = _hi_of(a.data[1])
        if h is not None and prove_ge(a.data[2] - 1, 3):
            q = floordiv(h, a.data[2])
            if single_atom(q) is not a and not occurring(q, lambda x: x is a):
                return q
    if a.kind == 'idx':
        return a.data[1] - 1
    if a.kind == 'ind':
        return ONE
    if a.bounds and a.bounds[1] is not None:
        return T(a.bounds[1])
    return None


def prove_ge(t, depth=8, nf=1):
    """True when t >= 0 is derivable."""
    c = as_const(t)
    if c is not None:
        return c >= 0
    k = (t.id, depth, nf)
    r = _prove_cache.get(k)
    if r is None:
        _prove_cache[k] = False
        r = _prove_ge(t, depth, nf)
        if not r and depth > 2 and nf:
            for f in CTX.ge_facts:
                d = add(t, neg(f))
                if d is not t and len(d.p) <= len(t.p) + 2 and prove_ge(d, 4, nf - 1):
                    r = True
                    break
            if not r:
                for f in CTX.eq_facts:
                    cs = {F1, -F1}
                    tp = dict(t.p)
                    for m, c in f.p:
                        if m in tp and m.factors:
                            cs.add(-tp[m] / c)
                    for c in sorted(cs):
                        d = add(t, scale(f, c))
                        if len(d.p) <= len(t.p) + 2 and prove_ge(d, 4, nf - 1):
                            r = True
                            break
            if not r:
                r = _scaled_facts(t, nf)
        if not r and depth == 8 and _SPLIT[0] < 4:
            r = _by_cases(t)
        if not r and depth == 8 and t.real and not t.isint:
            lo = _num_lo(t)
            r = lo is not None and lo > 1e-9
        _prove_cache[k] = r
    return r


_SPLIT = [0]


def _scaled_facts(t, nf):
    """Use a known fact multiplied by a nonnegative atom of t."""
    ats = {a for m, c in t.p if len(m.factors) > 1 and not m.binders for a, e in m.factors if e == 1 and a.kind != 'ind' and nonneg_atom(a)}
    if not ats or len(ats) > 6:
        return False
    for f in CTX.ge_facts:
        if len(f.p) > 4:
            continue
        for a in ats:
            d = add(t, neg(mul(f, of_atom(a))))
            if len(d.p) <= len(t.p) and prove_ge(d, 4, nf - 1):
                return True
    return False


def _by_cases(t):
    """Case distinction on an integer indicator that is a plain factor of t."""
    cand = None
    for m, c in t.p:
        if m.binders:
            continue
        for a, e in m.factors:
            if a.kind == 'ind' and a.data[1].isint and (cand is None or a.id > cand.id) and not any(x.kind == 'ind' for n, _ in a.data[1].p for x, _ in n.factors):
                cand = a
    if cand is None:
        return False
    rel, u = cand.data
    G = globals()
    old = {n: G[n] for n in _CACHES}
    n1, n2 = len(CTX.ge_facts), len(CTX.eq_facts)
    _SPLIT[0] += 1
    try:
        for v in (ONE, ZERO):
            if rel == 'eq' and v is ZERO:
                pass
            elif rel == 'eq':
                CTX.eq_facts.append(u)
            else:
                CTX.ge_facts.append(u if v is ONE else neg(u) - 1)
            for n in _CACHES:
                G[n] = {}
            d = ZERO
            for m, c in t.p:
                if any(a is cand for a, e in m.factors):
                    if v is ONE:
                        d = add(d, mk_term({mk_mono(tuple((a, e) for a, e in m.factors if a is not cand), m.binders): c}))
                else:
                    d = add(d, mk_term({m: c}))
            ok = prove_ge(d, 8) or prove_ge(neg(CTX.ge_facts[-1]) - 1, 8, 0) if rel == 'ge' else prove_ge(d, 8)
            del CTX.ge_facts[n1:]
            del CTX.eq_facts[n2:]
            if not ok:
                return False
        return True
    finally:
        _SPLIT[0] -= 1
        del CTX.ge_facts[n1:]
        del CTX.eq_facts[n2:]
        G.update(old)


_CACHES = ('_prove_cache', '_mul_cache', '_mm_cache', '_sum_cache', '_sub_cache', '_suba_cache', '_nn_cache', '_conj_cache')


def _lin_atoms(t):
    """Atoms that occur in t only as plain (non-nested, exponent 1) factors."""
    occ, bad = {}, set()
    for m, c in t.p:
        if m.binders:
            for a, e in m.factors:
                bad.add(a)
            continue
        for a, e in m.factors:
            if e == 1:
                occ.setdefault(a, 0)
                occ[a] += 1
            else:
                bad.add(a)
    res = []
    for a in occ:
        if a in bad:
            continue
        # nested occurrence
        nested = False
        for b in occ:
            if b is not a and _occurs_in(a, b):
                nested = True
                break
        if not nested:
            res.append(a)
    return res


def _occurs_in(a, b):
    """a occurs inside atom b (b != a)."""
    if a.kind == 'idx':
        return a in b.fv
    return False


def _lo_pos(t):
    return all(c >= 0 and (m is ONE_M or all(nonneg_atom(a) or (atom_lo(a) is not None and prove_const_ge(atom_lo(a))) for a, e in m.factors)) for m, c in t.p)


def prove_const_ge(t):
    c = as_const(t)
    return c is not None and c >= 0


def _rank(a):
    if a.kind == 'pi':
        return (3, 0)
    if a.kind == 'idx':
        return (0, -a.id)
    if a.kind in ('fn', 'el', 'ind', 'grp', 'cj'):
        return (1, -a.id)
    return (2, -a.id)


def _prove_ge(t, depth, nf=0):
    if is_nonneg(t) or _lo_pos(t):
        return True
    if depth <= 0:
        return False
    cands = sorted(_lin_atoms(t), key=_rank)
    for a in cands:
        A, B = {}, {}
        for m, c in t.p:
            fs = dict(m.factors)
            if a in fs and not m.binders:
                fs2 = [(x, e) for x, e in m.factors if x is not a]
                A[mk_mono(tuple(fs2), ())] = c
            else:
                B[m] = c
        At, Bt = mk_term(A), mk_term(B)
        lo, hi = atom_lo(a), atom_hi(a)
        if lo is not None and _nn(At, depth):
            if prove_ge(Bt + At * lo, depth - 1, nf):
                return True
        if hi is not None and _nn(neg(At), depth):
            if prove_ge(Bt + _mul_cancel(At, hi), depth - 1, nf):
                return True
        if a.kind == 'idx' and depth > 3 and lo is not None and hi is not None and any(e < 0 for m, c in At.p for _, e in m.factors):
            # affine in an index: enough at both ends of its range
            if prove_ge(Bt + At * lo, depth - 2, nf) and prove_ge(Bt + _mul_cancel(At, hi), depth - 2, nf):
                return True
        if a.kind == 'fn' and a.data[0] in ('sort', 'max', 'min') and isinstance(a.data[1], Lam):
            # affine in an element of the list: enough to prove it for every element
            xs, body = open_lam(a.data[1])
            if prove_ge(Bt + At * body, depth - 1, nf):
                return True
        if a.kind == 'fn' and a.data[0] == 'floordiv' and len(a.data[2].p) == 1:
            # n*floordiv(s, n) = s - r with 0 <= r < n
            x, n = a.data[1], a.data[2]
            q = At * power(n, F1 * -1)
            if all(e > 0 for m, c in q.p for _, e in m.factors):
                r = fn('modr', (x, n), real=True, isint=True, nonneg=True, bounds=(ZERO, n - 1))
                if prove_ge(Bt + q * (x - r), depth - 1, nf):
                    return True
    # reciprocals of bounded positive atoms
    rec = {}
    for m, c in t.p:
        for x, e in m.factors:
            if x.kind in ('sym', 'el') and not m.binders:
                rec.setdefault(x, set()).add(e)
    for x, es in rec.items():
        if len(es) != 1 or min(es) >= 0:
            continue
        e = min(es)
        lo, hi = atom_lo(x), atom_hi(x)
        lo = as_const(lo) if lo is not None else None
        hi = as_const(hi) if hi is not None else None
        if e.denominator != 1 or not lo or lo <= 0:
            continue
        A, B = {}, {}
        for m, c in t.p:
            if any(y is x for y, _ in m.factors):
                A[mk_mono(tuple((y, k) for y, k in m.factors if y is not x), ())] = c
            else:
                B[m] = c
        At, Bt = mk_term(A), mk_term(B)
        if _nn(neg(At), depth):
            if prove_ge(Bt + scale(At, lo ** int(e)), depth - 1, nf):
                return True
        elif hi and _nn(At, depth) and prove_ge(Bt + scale(At, hi ** int(e)), depth - 1, nf):
            return True
    # counts of indicators are at most the size of their domain
    rep, hit = ZERO, False
    for m, c in t.p:
        if m.binders and c < 0 and all(x.kind == 'ind' for x, e in m.factors) and not any(b in x.data[1].fv for b in m.binders for x in m.binders):
            z = const(c)
            for x in m.binders:
                z = z * x.data[1]
            rep = rep + z
            hit = True
        else:
            rep = rep + mk_term({m: c})
    if hit and prove_ge(rep, depth - 1, nf):
        return True
    if CTX.foralls and t.p:
        q = _prim(t, False) if not t.isint else t
        return forall_known(atom('ind', ('ge', q), real=True, isint=True, nonneg=True)) is ONE
    return False


def _mul_cancel(t, h):
    """t * h, cancelling h against a reciprocal of h in every monomial of t."""
    if len(h.p) > 1:
        inv = power(h, -1)
        if len(inv.p) == 1 and not inv.p[0][0].binders:
            fs = dict(inv.p[0][0].factors)
            if fs and all(all(dict(m.factors).get(a, F0) <= e < 0 for a, e in fs.items() if a.kind == 'grp') and any(a.kind == 'grp' for a in fs) and not m.binders for m, c in t.p):
                return scale(mk_term({mk_mono(tuple((a, x) for a, x in _sub_exp(m.factors, fs)), ()): c for m, c in t.p}), 1 / inv.p[0][1])
    return mul(t, h)


def _sub_exp(factors, fs):
    d = dict(factors)
    for a, e in fs.items():
        d[a] = d.get(a, F0) - e
    return [(a, e) for a, e in d.items() if e]


def _nn(t, depth):
    c = as_const(t)
    if c is not None:
        return c >= 0
    return prove_ge(t, min(depth - 1, 3)) if depth > 1 else False


CLOSED_FN = {'exp', 'sin', 'cos', 'tan', 'log', 'arcsin', 'arccos', 'arctan', 'arctan2', 'angle', 'max2', 'min2'}
_closed = {}


def closed_value(t):
    """Numeric value of a real term without variables, when clearly nonzero."""
    k = t.id
    if k in _closed:
        return _closed[k]
    r = None
    if not t.fv and not occurring(t, lambda a: not (a.kind in ('pi', 'j', 'grp', 'cj') or (a.kind == 'fn' and a.data[0] in CLOSED_FN))):
        from .rinterp import Valuation, Undef
        try:
            v = Valuation(0, {}).term(t, {})
            if isinstance(v, complex) and abs(v.imag) < 1e-12:
                v = v.real
            if not isinstance(v, complex) and 1e-7 < abs(v) < 1e9:
                r = v
        except (Undef, OverflowError, ZeroDivisionError):
            pass
    _closed[k] = r
    return r


def decide_ge(t):
    c = as_const(t)
    if c is not None:
        return c >= 0
    if not t.fv:
        c = closed_value(t)
        if c is not None:
            return c >= 0
    if _has_inf(t):
        s = _inf_sign(t)
        if s is not None:
            return s > 0
    if not t.real:
        return None
    if prove_ge(t):
        return True
    if t.isint:
        if prove_ge(neg(t) - 1):
            return False
    elif prove_pos(neg(t)):
        return False
    return None


def prove_pos(t):
    """t > 0 strictly."""
    c = as_const(t)
    if c is not None:
        return c > 0
    if t.isint:
        return prove_ge(t - 1)
    k = ('pos', t.id)
    r = _prove_cache.get(k)
    if r is None:
        _prove_cache[k] = False
        r = _prove_pos(t)
        _prove_cache[k] = r
    return r


def _prove_pos(t):
    # monomial of positive atoms, or constant slack
    if len(t.p) == 1 and not t.p[0][0].binders:
        m, c = t.p[0]
        if c > 0 and all(_pos_atom(a) for a, e in m.factors):
            return True
    k = dict(t.p).get(ONE_M)
    if k is not None and k > 0 and prove_ge(t - k / 2):
        return True
    # sum with one strictly positive monomial and nonneg rest
    for m, c in t.p:
        if c > 0 and not m.binders and m is not ONE_M and all(_pos_atom(a) for a, e in m.factors):
            if prove_ge(add(t, mk_term({m: -c})), 4):
                return True
    h = _hi_of(neg(t))
    if h is not None and h is not t:
        h = as_const(h)
        if h is not None and h < 0:
            return True
    return False


POS = set()


def _pos_atom(a):
    if a.kind == 'pi' or a.kind == 'el' and a.data[0] in POS:
        return True
    lo = atom_lo(a)
    if lo is not None:
        c = as_const(lo)
        if c is not None and c > 0:
            return True
    if a.kind == 'fn' and a.data[0] == 'exp' and a.real:
        return True
    return False


def decide_eq(t):
    c = as_const(t)
    if c is not None:
        return c == 0
    if not t.fv and closed_value(t) is not None:
        return False
    if not t.real:
        return None
    for f in CTX.eq_facts:
        if t is f or t is neg(f):
            return True
    if len(CTX.eq_facts) > 1 and _eq_span(t):
        return True
    if CTX.eq_facts and any(len(m.factors) > 1 or m.factors and m.factors[0][1] != 1 for m, _ in t.p):
        u = _eq_subst(t)
        if u is not t:
            c = as_const(u)
            if c is not None:
                return c == 0
            if prove_pos(u) or prove_pos(neg(u)):
                return False
    if prove_pos(t) or prove_pos(neg(t)):
        return False
    return None


def _eq_subst(t):
    """t with scalars that known equalities define replaced in its products."""
    for f in CTX.eq_facts:
        for m, c in f.p:
            if len(m.factors) == 1 and m.factors[0][1] == 1 and not m.binders and abs(c) == 1:
                a = m.factors[0][0]
                if a.kind not in ('sym', 'el') or any(x is not m and any(b is a for b, _ in x.factors) for x, _ in f.p):
                    continue
                v = scale(add(f, mk_term({m: -c})), -1 / c)
                r = ZERO
                ch = False
                for n, k in t.p:
                    e = next((e for b, e in n.factors if b is a), None)
                    if e is None or e < 0 or e.denominator != 1 or n.binders:
                        r = add(r, mk_term({n: k}))
                        continue
                    ch = True
                    u = scale(mk_term({mk_mono(tuple((b, x) for b, x in n.factors if b is not a), ()): F1}), k)
                    for _ in range(int(e)):
                        u = mul(u, v)
                    r = add(r, u)
                if ch:
                    t = r
                break
    return t


def _eq_span(t):
    """t is a linear combination of the terms known to be zero on this path."""
    key = tuple(map(id, CTX.eq_facts))
    cached = CTX.eq_rows
    if cached is None or cached[0] != key:
        rows = []
        for f in CTX.eq_facts:
            d = _eliminate(dict(f.p), rows)
            if d:
                m = next((x for x in d if x.factors), None)
                if m is not None:
                    rows.append((m, d))
        cached = CTX.eq_rows = (key, rows, list(CTX.eq_facts))
    return not _eliminate(dict(t.p), cached[1])


def _eliminate(d, rows):
    for m, r in rows:
        c = d.get(m)
        if c:
            q = c / r[m]
            for k, v in r.items():
                n = d.get(k, 0) - q * v
                if n:
                    d[k] = n
                else:
                    d.pop(k, None)
    return d


def _has_inf(t):
    return any(a.kind == 'inf' for m, _ in t.p for a, e in m.factors)


def _inf_sign(t):
    s = None
    for m, c in t.p:
        if any(a.kind == 'inf' for a, e in m.factors):
            if len(m.factors) != 1:
                return None
            x = 1 if c > 0 else -1
            if s is not None and s != x:
                return None
            s = x
    # remaining atoms must be finite-ish: assume finite
    return s


def b_not(t):
    return ONE - t


def b_and(a, b):
    return mul(a, b)


def b_or(a, b):
    return a + b - a * b


# ---------------------------------------------------------------- integer ops
def floordiv(t, n):
    n = T(n)
    cn = as_const(n)
    if cn == 1 and t.isint:
        return t
    ct = as_const(t)
    if ct is not None and cn:
        return const(math.floor(ct / cn))
    q, r = {}, {}
    na = None
    if len(n.p) == 1 and not n.p[0][0].binders:
        nm, nc = n.p[0]
        for m, c in t.p:
            qt = None
            fs = dict(m.factors)
            ok = not m.binders
            if ok:
                for a, e in nm.factors:
                    if fs.get(a, F0) < e:
                        ok = False
                        break
            if ok and cn is not None:
                if m is ONE_M:
                    k = math.floor(c / nc)
                    if k:
                        q[ONE_M] = q.get(ONE_M, F0) + k
                    rest = c - k * nc
                    if rest:
                        r[m] = rest
                    continue
                if (c / nc).denominator != 1:
                    ok = False
            if ok:
                fs2 = {a: e - dict(nm.factors).get(a, F0) for a, e in fs.items()}
                qm = mk_mono(tuple((a, e) for a, e in fs2.items() if e), ())
                qt = c / nc
                if qt.denominator == 1 and qm.isint:
                    q[qm] = q.get(qm, F0) + qt
                    continue
            r[m] = c
    else:
        # multi-term divisor: exact multiple check only
        for k in (0, 1, -1, 2):
            d = t - n * k
            if prove_ge(d) and prove_ge(n - d - 1):
                return const(k)
        r = dict(t.p)
    Q, R = mk_term(q), mk_term(r)
    if not R.p:
        return Q
    if R.isint and n.isint:
        if prove_ge(R) and prove_ge(n - R - 1):
            return Q
        if prove_ge(R + n) and prove_ge(-R - 1):
            return Q - 1
    return Q + fn('floordiv', (R, n), real=True, isint=True, nonneg=prove_ge(R) and prove_ge(n))


def mod(t, n):
    n = T(n)
    return t - n * floordiv(t, n)


def lam_apply_fn(name, lam, idx, **kw):
    return of_atom(atom('fn', (name, lam) + tuple(T(i) for i in idx), **kw))


def table(*args):
    """Entry args[-1] of a literal table of constants."""
    ts, i = (args[0] if len(args) == 2 and isinstance(args[0], list) else list(args[:-1])), args[-1]
    c = as_int(i)
    if c is not None:
        return ts[c] if 0 <= c < len(ts) else ZERO
    vs = [as_const(t) for t in ts]
    return fn('table', tuple(ts) + (i,), real=True, isint=all(v.denominator == 1 for v in vs), nonneg=min(vs) >= 0, bounds=(const(min(vs)), const(max(vs))))


REBUILD = {
    'table': table,
    'exp': exp_, 'sin': sin_, 'cos': cos_, 'arcsin': arcsin_, 'log': log_, 'floordiv': floordiv,
}


def case(cond, a, b):
    """cond (0/1 term) ? a : b"""
    if cond is ONE:
        return a
    if cond is ZERO:
        return b
    if a is b:
        return a
    return b + cond * (a - b)


def taint(why):
    return of_atom(atom('fn', ('unk', next(_fresh), why)))


_taint_cache = {}


def tainted(t):
    r = _taint_cache.get(t.id)
    if r is None:
        r = any(_ta(a) for m, _ in t.p for a, e in m.factors) or any(tainted(b.data[1]) for m, _ in t.p for b in m.binders)
        _taint_cache[t.id] = r
    return r


_ta_cache = {}


def _ta(a):
    r = _ta_cache.get(a.id)
    if r is None:
        if a.kind == 'fn' and a.data[0] == 'unk':
            r = True
        else:
            r = False
            for x in a.data:
                if isinstance(x, Term) and a.kind != 'idx':
                    r = tainted(x)
                elif isinstance(x, Lam):
                    r = tainted(x.body) or any(tainted(s) for s in x.sizes)
                elif isinstance(x, Atom):
                    r = _ta(x)
                if r:
                    break
        _ta_cache[a.id] = r
    return r


def occurring(t, pred, acc=None, seen=None):
    """All atoms (nested) satisfying pred."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if t.id in seen:
        return acc
    seen.add(t.id)
    for m, _ in t.p:
        for a, e in m.factors:
            _occ_atom(a, pred, acc, seen)
        for b in m.binders:
            occurring(b.data[1], pred, acc, seen)
    return acc


def _occ_atom(a, pred, acc, seen):
    if a.id in seen:
        return
    seen.add(a.id)
    if pred(a):
        acc.add(a)
    for x in a.data:
        if isinstance(x, Term):
            occurring(x, pred, acc, seen)
        elif isinstance(x, Lam):
            occurring(x.body, pred, acc, seen)
            for s in x.sizes:
                occurring(s, pred, acc, seen)
        elif isinstance(x, Atom):
            _occ_atom(x, pred, acc, seen)


# ---------------------------------------------------------------- printing
def show_atom(a, d=0):
    k = a.kind
    if d > 6:
        return '..'
    if k == 'sym':
        return str(a.data[0])
    if k == 'idx':
        n = a.data[0]
        if isinstance(n, tuple):
            return '%s%s' % (n[0], '_'.join(str(x) for x in n[1:]))
        return str(n)
    if k == 'cj':
        return 'conj(%s)' % show_atom(a.data[0], d + 1)
    if k == 'pi':
        return 'pi'
    if k == 'j':
        return 'j'
    if k == 'inf':
        return 'inf'
    if k == 'ind':
        return '[%s %s 0]' % (show(a.data[1], d + 1), '>=' if a.data[0] == 'ge' else '==')
    if k == 'grp':
        return '(%s)' % show(a.data[0], d + 1)
    args = []
    for x in a.data[1:]:
        if isinstance(x, Term):
            args.append(show(x, d + 1))
        elif isinstance(x, Lam):
            args.append('{%s: %s}' % (','.join(show_atom(i) for i in x.idx), show(x.body, d + 1)))
        else:
            args.append(str(x))
    if k == 'el':
        return '%s[%s]' % (a.data[0], ','.join(args)) if args else str(a.data[0])
    return '%s(%s)' % (a.data[0], ','.join(args))


def show(t, d=0, limit=6):
    if not t.p:
        return '0'
    out = []
    for m, c in t.p[:limit]:
        fs = []
        for a, e in m.factors:
            s = show_atom(a, d)
            fs.append(s if e == 1 else '%s^%s' % (s, e))
        s = '*'.join(fs)
        if m.binders:
            s = 'sum{%s}(%s)' % (','.join('%s<%s' % (show_atom(b), show(b.data[1], d + 1)) for b in m.binders), s)
        if c == 1 and s:
            out.append(s)
        elif c == -1 and s:
            out.append('-' + s)
        else:
            out.append(str(c) + ('*' + s if s else ''))
    if len(t.p) > limit:
        out.append('... %d more' % (len(t.p) - limit))
    return ' + '.join(out)
