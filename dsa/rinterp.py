"""Randomised interpretation of value graphs (Gulwani & Necula style).

Used only to tell whether two *different* normal forms really denote
different functions; it can suppress an alarm, never raise one by itself.
"""
import cmath
import itertools
import math
import random
import zlib
from . import terms as tm
from .terms import Term, Lam


class Undef(Exception):
    """Value undefined at this valuation (division by zero, out of budget)."""


class Valuation:
    def __init__(self, seed, syms, el_sampler=None):
        self.seed = seed
        self.syms = syms          # atom -> number (int/float) for size symbols and scalars
        self.el_sampler = el_sampler or {}
        self.memo = {}
        self.unint = {}
        self.steps = 0
        self.max_steps = 1500000
        self.elmemo = {}
        self.over = {}
        self.nan_ok = False
        # a wide valuation draws magnitudes from several orders, so that the selections (argmin, comparisons ...) vary
        self.wide = isinstance(seed, tuple) and seed[0] == 'wide'
        self.jitter = False
        self.scale = seed[2] if isinstance(seed, tuple) and seed[0] == 'scale' else None

    # -- base values
    def rnd(self, key, real, lo=None, hi=None, isint=False):
        v = self.draw(key, real, lo, hi, isint)
        if isint:
            return v
        if self.jitter:
            v *= 1 + 1e-9 * math.sin(1 + zlib.crc32(repr(key).encode()) % 1000)
        if self.scale is None:
            return v
        if (hi is None or self.scale < 1 and hi >= 0) and (lo is None or self.scale < 1 and lo < 0.1 or self.scale > 1 and lo >= 0):
            return v * self.scale
        return v

    def draw(self, key, real, lo=None, hi=None, isint=False):
        r = random.Random(repr((self.seed, key)))
        if isint:
            a = 0 if lo is None else int(round(lo))
            b = a + 6 if hi is None else int(math.floor(hi + 1e-9))
            return r.randint(a, max(a, b))
        if real:
            if self.wide and hi is None and (lo is None or lo < 0.1):
                v = math.exp(r.uniform(-3, 5))
                return v if lo is not None else v * r.choice([-1, 1])
            if lo is not None or hi is not None:
                a = lo if lo is not None else hi - 2.0
                b = hi if hi is not None else lo + 2.0
                return r.uniform(a, b)
            return r.uniform(-2, 2)
        v = complex(r.uniform(-2, 2), r.uniform(-2, 2))
        return v * math.exp(r.uniform(-4, 4)) if self.wide else v

    def sym(self, a):
        v = self.syms.get(a)
        if v is None:
            v = self.rnd(('sym', a.data[0]), a.real, self._b(a, 0), self._b(a, 1), a.isint)
            self.syms[a] = v
        return v

    def _b(self, a, w):
        t = (tm.CTX.lo if w == 0 else tm.CTX.hi).get(a)
        if t is None and a.bounds and a.bounds[w] is not None:
            t = tm.T(a.bounds[w])
        if t is None:
            return 0.05 if (w == 0 and a.nonneg) else None
        v = self.term(t, {})
        if isinstance(v, complex):
            v = v.real
        if math.isinf(v):
            return None
        return v

    # -- terms
    def term(self, t, env):
        if not t.p:
            return 0
        fv = t.fv
        if fv:
            key = (t.id,) + tuple(sorted((a.id, env[a]) for a in fv if a in env))
        else:
            key = (t.id,)
        r = self.memo.get(key)
        if r is None:
            s = 0
            ps = t.p
            if len(ps) > 1 and any(a.kind == 'inf' for m, c in ps for a, e in m.factors):
                ps, s = self.infinite(ps, env)
            for m, c in ps:
                v = self.mono(m, env)
                if v != 0:
                    s = s + (v * c.numerator if c.denominator == 1 else (v * c.numerator) / c.denominator)
            r = s
            self.memo[key] = r
        return r

    def infinite(self, ps, env):
        """The finite monomials, and the sign of the summed coefficients of infinity."""
        fin, co = [], {}
        for m, c in ps:
            if not m.binders and [e for a, e in m.factors if a.kind == 'inf'] == [1]:
                r = tm.mk_mono(tuple(f for f in m.factors if f[0].kind != 'inf'), ())
                co[r] = co.get(r, 0) + c
            else:
                fin.append((m, c))
        k = self.term(tm.mk_term(co), env) if co else 0
        k = self._num(k)
        return fin, (0 if abs(k) < 1e-9 else math.copysign(math.inf, k))

    def mono(self, m, env):
        if m.binders:
            return self._sum(m, 0, dict(env))
        return self._prod(m, env)

    def _sum(self, m, k, env):
        if k == len(m.binders):
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undef('budget')
            return self._prod(m, env)
        b = m.binders[k]
        n = self.integer(self.term(b.data[1], env))
        s = 0
        for i in range(n):
            env[b] = i
            s = s + self._sum(m, k + 1, env)
        env.pop(b, None)
        return s

    def _prod(self, m, env):
        p = 1
        late = []
        for a, e in m.factors:
            if a.kind == 'ind':
                if not self.ind(a, env):
                    return 0
            else:
                late.append((a, e))
        for a, e in late:
            v = self.atom(a, env)
            if e != 1:
                v = self.pow(v, e)
            p = p * v
            if p == 0:
                # keep evaluating is pointless: exact zero
                return 0
        return p

    def pow(self, v, e):
        try:
            if e.denominator == 1:
                return v ** int(e)
            if isinstance(v, complex) and abs(v.imag) < 1e-12 * (1 + abs(v.real)):
                v = v.real
            if not isinstance(v, complex) and v < 0:
                if v > -1e-9:
                    v = 0.0
                    if e < 0:
                        raise Undef('pow')
                else:
                    return complex(v) ** float(e)
            return v ** float(e)
        except (ZeroDivisionError, OverflowError):
            raise Undef('pow')

    def ind(self, a, env):
        v = self.term(a.data[1], env)
        if is_nan(v):
            raise Undef('nan')
        if isinstance(v, complex):
            if a.data[0] == 'ge':
                v = v.real
            else:
                return abs(v) < 1e-9
        tol = 1e-9
        if self.scale is not None and self.scale < 1 and abs(v) < 1e-6:
            # relative to what is compared
            tol *= min(1.0, sum(abs(self.mono(m, env) * c) for m, c in a.data[1].p))
        if a.data[0] == 'ge':
            return v >= -tol
        return abs(v) <= tol

    def integer(self, v):
        if isinstance(v, complex):
            v = v.real
        r = int(round(v))
        if abs(r - v) > 1e-6:
            raise Undef('non-integer size')
        return r

    # -- atoms
    def atom(self, a, env):
        k = a.kind
        if k == 'sym':
            return self.sym(a)
        if k == 'idx':
            return env[a]
        if k == 'pi':
            return math.pi
        if k == 'j':
            return 1j
        if k == 'inf':
            return math.inf
        if k == 'cj':
            v = self.atom(a.data[0], env)
            return v.conjugate() if isinstance(v, complex) else v
        if k == 'grp':
            return self.term(a.data[0], env)
        if k == 'ind':
            return 1 if self.ind(a, env) else 0
        key = (a.id,) + tuple(sorted((x.id, env[x]) for x in a.fv if x in env)) if a.fv else (a.id,)
        r = self.memo.get(('a', key))
        if r is None:
            r = self._el(a, env) if k == 'el' else self._fn(a, env)
            self.memo[('a', key)] = r
        return r

    def _el(self, a, env):
        ix = tuple(self.key(self.term(x, env)) for x in a.data[1:])
        if self.over:
            o = self.over.get((a.data[0], ix))
            if o is not None:
                return o
        if isinstance(a.data[0], tuple) and a.data[0][0] == 'herm':
            i, j = ix
            h = a.data[0]
            shift = 0
            if self.over:
                k = self.over.get((h, ('salt',)))
                if i == j:
                    shift = self.over.get((h, ('shift',)), 0)
                if k:
                    h = (h, k)
            v = sum(self.rnd((h, 'b', i, q), False) * self.rnd((h, 'b', j, q), False).conjugate() for q in range(7))
            if self.wide:
                if i == j:
                    return v / 7 * 0.05 + abs(self.rnd((h, 'd', i), True)) + shift
                return v / 7 * 0.05
            return v / 7 + (1.0 + 0.3 * self.rnd((h, 'd', i), True) + shift if i == j else 0)
        s = self.el_sampler.get(a.data[0])
        if s is not None:
            return s(self, ix)
        lo = hi = None
        if a.bounds:
            lo, hi = [None if b is None else self._num(self.term(tm.T(b), env)) for b in a.bounds]
            lo = None if lo is not None and math.isinf(lo) else lo
            hi = None if hi is not None and math.isinf(hi) else hi
        if lo is None and a.nonneg:
            lo = 0.05
        return self.rnd((a.data[0], ix), a.real, lo, hi, a.isint)

    def _num(self, v):
        return v.real if isinstance(v, complex) else v

    def key(self, v):
        if isinstance(v, complex):
            if abs(v.imag) > 1e-9:
                return (round(v.real, 6), round(v.imag, 6))
            v = v.real
        if isinstance(v, float):
            r = round(v)
            return int(r) if abs(r - v) < 1e-9 else round(v, 6)
        return v

    def lam(self, l, env):
        """Materialise as nested lists, plus shape."""
        env = dict(env)
        sizes = []

        def rec(k):
            if k == len(l.idx):
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Undef('budget')
                return self.term(l.body, env)
            n = self.integer(self.term(l.idx[k].data[1], env))
            out = []
            for i in range(n):
                env[l.idx[k]] = i
                out.append(rec(k + 1))
            return out
        key = ('lam', l.id) + tuple(sorted((x.id, env[x]) for x in l.fv if x in env))
        r = self.memo.get(key)
        if r is None:
            r = rec(0)
            self.memo[key] = r
        return r

    def _fn(self, a, env):
        name = a.data[0]
        if name == 'unk':
            raise Undef('unknown')
        f = FN.get(name)
        args = a.data[1:]
        if name == 'let':
            l = args[0]
            e2 = {x: v for x, v in env.items() if x in l.fv}
            for x, v in zip(l.idx, args[1:]):
                e2[x] = self.integer(self.term(v, env))
            return self.term(l.body, e2)
        if name == 'nan':
            self.nan_ok = True
            return math.nan
        if f is not None:
            vals = [self.lam(x, env) if isinstance(x, Lam) else (self.term(x, env) if isinstance(x, Term) else x) for x in args]
            if self.nan_ok and _has_nan(vals):
                raise Undef('nan')
            try:
                return f(*vals)
            except (ZeroDivisionError, OverflowError, ValueError):
                raise Undef(name)
            except IndexError:
                pass        # out of range: any value, as such entries cancel or are never selected
        vals = [self.lam(x, env) if isinstance(x, Lam) else (self.term(x, env) if isinstance(x, Term) else x) for x in args]
        flat = []
        if self.nan_ok and _has_nan(vals):
            raise Undef('nan')

        def fl(v):
            if isinstance(v, list):
                flat.append(('n', len(v)))
                for y in v:
                    fl(y)
            elif isinstance(v, (int, float, complex)):
                flat.append(v)
            else:
                flat.append(('c', str(v)))
        for v in vals:
            fl(v)
        cls = self.unint.setdefault((name, len(flat)), [])
        for ref, tok in cls:
            if all(self.same(x, y) for x, y in zip(ref, flat)):
                break
        else:
            tok = len(cls)
            # a token that does not depend on evaluation order
            tok = repr([self.tok(x) for x in flat])
            cls.append((flat, tok))
        lo = hi = None
        if a.bounds:
            lo, hi = [None if b is None else self._num(self.term(tm.T(b), env)) for b in a.bounds]
        if lo is None and a.nonneg:
            lo = 0 if a.isint else 0.05
        return self.rnd(('fn', name, tok), a.real, lo, hi, a.isint)

    def tok(self, x):
        if isinstance(x, (int, float, complex)):
            x = complex(x)
            return (float('%.4g' % x.real) + 0.0, float('%.4g' % x.imag) + 0.0)
        return x

    def same(self, x, y):
        if isinstance(x, tuple) or isinstance(y, tuple):
            return x == y
        return close(x, y)


def close(x, y, tol=1e-7):
    try:
        if x == y:
            return True
        d = abs(x - y)
        if d == math.inf:
            return False
        return d <= tol * max(1.0, abs(x), abs(y)) if d == d else False
    except (OverflowError, TypeError):
        return False


def _matinv(M):
    n = len(M)
    A = [list(map(complex, r)) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(M)]
    for r in A:
        if len(r) != 2 * n:
            raise ValueError
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(A[i][c]))
        if abs(A[p][c]) < 1e-9:
            raise ZeroDivisionError
        A[c], A[p] = A[p], A[c]
        d = A[c][c]
        A[c] = [x / d for x in A[c]]
        for i in range(n):
            if i != c and A[i][c] != 0:
                f = A[i][c]
                A[i] = [x - f * y for x, y in zip(A[i], A[c])]
    return [r[n:] for r in A]


_invmemo = {}


def f_inv(M, i, j):
    k = id(M)
    r = _invmemo.get(k)
    if r is None or r[0] is not M:
        if len(_invmemo) > 400:
            _invmemo.clear()
        r = (M, _matinv(M))
        _invmemo[k] = r
    return r[1][_i(i)][_i(j)]


def f_det(M):
    n = len(M)
    A = [list(map(complex, r)) for r in M]
    d = 1
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(A[i][c]))
        if abs(A[p][c]) < 1e-12:
            return 0.0
        if p != c:
            A[c], A[p] = A[p], A[c]
            d = -d
        d *= A[c][c]
        for i in range(c + 1, n):
            f = A[i][c] / A[c][c]
            A[i] = [x - f * y for x, y in zip(A[i], A[c])]
    return d


def _i(x):
    if isinstance(x, complex):
        x = x.real
    r = int(round(x))
    if r < 0:
        raise IndexError
    return r


def _re(x):
    if isinstance(x, complex):
        if abs(x.imag) > 1e-9 * max(1, abs(x)):
            raise ValueError
        return x.real
    return x


def _uniq_extreme(v, f):
    v = [_re(x) for x in v]
    return f(v)


def _near(x, y):
    """Too close to be ordered reliably; exact ties are ordered by position."""
    return x != y and abs(x - y) < 1e-9 * max(1.0, abs(x), abs(y))


def _sorted_idx(v):
    v = [_re(x) for x in v]
    s = sorted(range(len(v)), key=lambda i: v[i])
    for a, b in zip(s, s[1:]):
        if _near(v[a], v[b]):
            raise ValueError('tie')
    return s


def f_argext(v, sgn):
    v = [sgn * _re(x) for x in v]
    if any(x != x for x in v):
        raise ValueError('nan')
    k = min(range(len(v)), key=lambda i: v[i])
    if any(_near(x, v[k]) for x in v):
        raise ValueError('tie')
    return k


def f_floordiv(a, b):
    return math.floor(_re(a) / _re(b) + 1e-9) if not (isinstance(a, int) and isinstance(b, int)) else a // b


def is_nan(v):
    return isinstance(v, (float, complex)) and v != v


def _has_nan(v):
    return any(_has_nan(x) for x in v) if isinstance(v, list) else is_nan(v)


def f_div0(*a):
    # numpy semantics of a division by an exact zero; the sign of the zero is not tracked
    if not a:
        return math.inf
    v = a[0]
    if isinstance(v, complex) and abs(v.imag) > 1e-12:
        return math.nan
    v = _re(v)
    if abs(v) < 1e-9:
        raise ValueError('0/0')
    return math.copysign(math.inf, v)


def _flat(v):
    if isinstance(v, list):
        out = []
        for x in v:
            out += _flat(x)
        return out
    return [v]


def f_arctan2(y, x):
    return math.atan2(_re(y), _re(x))


def eig_herm(M):
    """Ascending eigenvalues and eigenvectors of a Hermitian matrix (lower
    triangle), each vector normalised to a fixed phase."""
    k = id(M)
    r = _eigmemo.get(k)
    if r is not None and r[0] is M:
        return r[1]
    n = len(M)
    A = [[complex(M[i][j]) if i > j else complex(M[j][i]).conjugate() if i < j else complex(complex(M[i][i]).real) for j in range(n)] for i in range(n)]
    Q = [[1.0 + 0j if i == j else 0j for j in range(n)] for i in range(n)]
    for sweep in range(60):
        off = sum(abs(A[i][j]) ** 2 for i in range(n) for j in range(n) if i != j)
        tot = sum(abs(A[i][i]) ** 2 for i in range(n)) + off
        if off <= 1e-26 * max(tot, 1e-300):
            break
        for p in range(n - 1):
            for q in range(p + 1, n):
                g = A[p][q]
                if abs(g) < 1e-300:
                    continue
                ph = g / abs(g)
                th = 0.5 * math.atan2(2 * abs(g), (A[q][q] - A[p][p]).real)
                c, s_ = math.cos(th), math.sin(th)
                # columns
                for i in range(n):
                    x, y = A[i][p], A[i][q]
                    A[i][p] = c * x - s_ * ph.conjugate() * y
                    A[i][q] = s_ * ph * x + c * y
                    x, y = Q[i][p], Q[i][q]
                    Q[i][p] = c * x - s_ * ph.conjugate() * y
                    Q[i][q] = s_ * ph * x + c * y
                for i in range(n):
                    x, y = A[p][i], A[q][i]
                    A[p][i] = c * x - s_ * ph * y
                    A[q][i] = s_ * ph.conjugate() * x + c * y
    w = [A[i][i].real for i in range(n)]
    o = sorted(range(n), key=lambda i: w[i])
    vecs = []
    for k_ in o:
        v = [Q[i][k_] for i in range(n)]
        m = max(range(n), key=lambda i: abs(v[i]) - 1e-6 * i)
        ph = v[m] / abs(v[m])
        vecs.append([x / ph for x in v])
    res = ([w[i] for i in o], vecs)
    if len(_eigmemo) > 300:
        _eigmemo.clear()
    _eigmemo[k] = (M, res)
    return res


_eigmemo = {}
_svdmemo = {}


def svd(M):
    """Left vectors (as columns), descending singular values, right vectors (as columns); each right vector has a fixed phase."""
    r = _svdmemo.get(id(M))
    if r is not None and r[0] is M:
        return r[1]
    m, n = len(M), len(M[0]) if M else 0
    if not m or not n:
        raise Undef('empty')
    A = [[complex(x) for x in row] for row in M]
    k = min(m, n)
    w, v = eig_herm([[sum(A[q][i].conjugate() * A[q][j] for q in range(m)) for j in range(n)] for i in range(n)])
    w, v = w[::-1], v[::-1]
    s = [math.sqrt(max(x, 0.0)) for x in w[:k]]
    u = []
    for i in range(k):
        if s[i] <= 1e-7 * max(s[0], 1e-300):
            raise Undef('singular')
        u.append([sum(A[p][q] * v[i][q] for q in range(n)) / s[i] for p in range(m)])
    if m > k:
        _, e = eig_herm([[sum(A[i][q] * A[j][q].conjugate() for q in range(n)) for j in range(m)] for i in range(m)])
        u += e[:m - k][::-1]
    if not any(isinstance(x, complex) for row in M for x in row):
        u, v = [[x.real for x in c] for c in u], [[x.real for x in c] for c in v]
    res = (u, s, v)
    if len(_svdmemo) > 300:
        _svdmemo.clear()
    _svdmemo[id(M)] = (M, res)
    return res


def f_sqrtm(M, i, j):
    n = len(M)
    if any(abs(complex(M[p][q]) - complex(M[q][p]).conjugate()) > 1e-9 * (1 + abs(M[p][q])) for p in range(n) for q in range(n)):
        raise Undef('square root of a matrix that is not Hermitian')
    w, v = eig_herm(M)
    if min(w) < 0:
        raise Undef('square root of an indefinite matrix')
    i, j = _i(i), _i(j)
    return sum(math.sqrt(w[k]) * v[k][i] * v[k][j].conjugate() / sum(abs(x) ** 2 for x in v[k]) for k in range(n))


def f_cholesky(M, i, j):
    n = len(M)
    L = [[0j] * n for _ in range(n)]
    for a in range(n):
        for b in range(a + 1):
            s = complex(M[a][b]) - sum(L[a][k] * L[b][k].conjugate() for k in range(b))
            if a == b:
                if s.real <= 0:
                    raise Undef('matrix is not positive definite')
                L[a][b] = complex(math.sqrt(s.real))
            else:
                L[a][b] = s / L[b][b]
    return L[_i(i)][_i(j)]


def f_nonzero(d, M, i):
    d, i = _i(d), _i(i)
    out = []

    def walk(m, idx):
        if isinstance(m, list):
            for k, y in enumerate(m):
                walk(y, idx + [k])
        elif abs(m) > 1e-9:
            out.append(idx)
    walk(M, [])
    return out[i][d]


def f_peakmask(x, i, *extra):
    if extra:
        raise ValueError
    x = [_re(v) for v in x]
    i = _i(i)
    if i < 1 or i > len(x) - 2:
        return 0
    if abs(x[i] - x[i - 1]) < 1e-12 or abs(x[i] - x[i + 1]) < 1e-12:
        raise ValueError
    return 1 if x[i] > x[i - 1] and x[i] > x[i + 1] else 0


def f_maxfilter(x, *a):
    """Maximum over a window around one entry; ties with another entry are not decided."""
    p = next(i for i, v in enumerate(a) if isinstance(v, str))
    idx, mode, kind, rest = [_i(v) for v in a[:p]], a[p], a[p + 1], list(a[p + 2:])
    d = len(idx)
    if kind != 'size':
        raise ValueError
    size, cval, origin = [_i(v) for v in rest[:d]], rest[d], [_i(v) for v in rest[d + 1:]]
    shape, y = [], x
    for _ in range(d):
        shape.append(len(y))
        y = y[0] if len(y) else []

    def at(j, n):
        if mode == 'nearest':
            return min(max(j, 0), n - 1)
        if mode in ('wrap', 'grid-wrap'):
            return j % n
        if mode in ('reflect', 'grid-mirror'):
            j %= 2 * n
            return j if j < n else 2 * n - 1 - j
        if mode == 'mirror':
            if n == 1:
                return 0
            j %= 2 * n - 2
            return j if j < n else 2 * n - 2 - j
        if mode in ('constant', 'grid-constant'):
            return j if 0 <= j < n else None
        raise ValueError
    vals = set()
    for off in itertools.product(*[range(-(s // 2), s - s // 2) for s in size]):
        j = [at(i + o - g, n) for i, o, g, n in zip(idx, off, origin, shape)]
        if None in j:
            vals.add(('c', _re(cval)))
            continue
        y = x
        for k in j:
            y = y[k]
        vals.add((tuple(j), _re(y)))
    v = sorted((w for _, w in vals), reverse=True)
    if len(v) > 1 and abs(v[0] - v[1]) < 1e-12 * (1 + abs(v[0])):
        raise ValueError
    return v[0]


def f_lexsort(K, i):
    n = len(K[0])
    r = [[_re(v) for v in k] for k in K]
    return sorted(range(n), key=lambda j: tuple(r[k][j] for k in range(len(r) - 1, -1, -1)))[_i(i)]


def f_pow(a, b):
    r = a ** b
    return r


def f_table(*a):
    i = int(round(a[-1].real if isinstance(a[-1], complex) else a[-1]))
    return a[i] if 0 <= i < len(a) - 1 else 0


FN = {
    'table': f_table,
    'nonzero': f_nonzero,
    'sqrtm': f_sqrtm,
    'cholesky': f_cholesky,
    'eigvalsh': lambda M, i: eig_herm(M)[0][_i(i)],
    'eigvec': lambda M, i, k: eig_herm(M)[1][_i(k)][_i(i)],
    'svd_s': lambda M, i: svd(M)[1][_i(i)],
    'svd_u': lambda M, i, k: svd(M)[0][_i(k)][_i(i)],
    'svd_vh': lambda M, k, i: complex(svd(M)[2][_i(k)][_i(i)]).conjugate(),
    'peakmask': f_peakmask,
    'maxfilter': f_maxfilter,
    'lexsort': f_lexsort,
    'pow': f_pow,
    'copysign': lambda a, b: math.copysign(_re(a), _re(b)),
    'exp': lambda x: cmath.exp(x) if isinstance(x, complex) else math.exp(x),
    'log': lambda x: cmath.log(x) if isinstance(x, complex) and abs(x.imag) > 1e-12 else math.log(_re(x)),
    'sin': lambda x: cmath.sin(x) if isinstance(x, complex) else math.sin(x),
    'cos': lambda x: cmath.cos(x) if isinstance(x, complex) else math.cos(x),
    'tan': lambda x: math.tan(_re(x)),
    'arcsin': lambda x: math.asin(_re(x)),
    'arccos': lambda x: math.acos(_re(x)),
    'arctan': lambda x: math.atan(_re(x)),
    'arctan2': f_arctan2,
    'angle': lambda x: cmath.phase(x),
    'floor': lambda x: math.floor(_re(x)),
    'ceil': lambda x: math.ceil(_re(x)),
    'round': lambda x, d=0: round(_re(x), _i(d)),
    'trunc': lambda x: math.trunc(_re(x)),
    'floordiv': f_floordiv,
    'int64': lambda x: (int(_re(x)) + 2 ** 63) % 2 ** 64 - 2 ** 63,
    'inv': f_inv,
    'logabsdet': lambda M: math.log(abs(f_det(M))),
    'detsign': lambda M: f_det(M) / abs(f_det(M)),
    'det': f_det,
    'max': lambda v: _uniq_extreme(_flat(v), max),
    'min': lambda v: _uniq_extreme(_flat(v), min),
    'max2': lambda a, b: max(_re(a), _re(b)),
    'min2': lambda a, b: min(_re(a), _re(b)),
    'prod': lambda v: math.prod(_flat(v)),
    'argmax': lambda v: f_argext(_flat(v), -1),
    'argmin': lambda v: f_argext(_flat(v), 1),
    'argsort': lambda v, i: _sorted_idx(v)[_i(i)],
    'sort': lambda v, i: sorted(_re(x) for x in v)[_i(i)],
    'sign': lambda x: (x > 0) - (x < 0) if not isinstance(x, complex) else x / abs(x),
    'gcd': lambda a, b: math.gcd(_i(a), _i(b)),
    'nan': lambda: math.nan,
    'div0': f_div0,
}
