"""Summaries of loops and comprehensions over symbolic-length sequences.

The body is interpreted once for a generic iteration index x.  Values carried
from one iteration to the next are replaced by 'mark' atoms; the transfer of
one iteration is then solved for closed forms (injective stores, accumulations,
counters, lagged values, appends).  Anything else is Undecided.
"""
from . import terms as tm
from .terms import T, ONE, ZERO
from .values import *
from . import values as V
from .npcore import pick, new_arr, seq_concat
from . import npcore as nc

MAX_LOCAL = 24


class Local:
    """Decision vector for conditions that depend on the iteration index."""

    def __init__(self, x, marks, decisions, outer):
        self.x, self.marks = x, marks
        self.decisions, self.pos, self.guards, self.outer = list(decisions), 0, [], outer

    def is_local(self, c):
        if self.x in c.fv:
            return True
        if any(a.kind == 'mark' for a in c.fv):
            return True
        return self.outer is not None and self.outer.is_local(c)

    def choose(self, c):
        if not (self.x in c.fv or any(a.kind == 'mark' for a in c.fv)) and self.outer is not None and self.outer.is_local(c):
            return self.outer.choose(c)
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = True
            self.decisions.append(d)
        self.pos += 1
        self.guards.append((c, d))
        return d


class Poison(list):
    """Items of a list being appended to inside a summarised loop."""

    def __len__(self):
        raise Undecided('list read inside a summarised loop')
    __iter__ = __getitem__ = __contains__ = __bool__ = __len__


def contains_mark(t):
    return any(a.kind == 'mark' for a in t.fv)


def subst_view(v, env):
    """A view on an array made before the loop; the part seen may depend on the iteration."""
    fr = [tm.fresh_idx(s) for s in v.shape]
    ix = tuple(v.fwd(tuple(tm.of_atom(f) for f in fr)))
    if not any(a in t.fv for a in env for t in ix + tuple(v.shape)):
        return v

    def fwd(idx):
        e = {f: T(i) for f, i in zip(fr, idx)}
        return tuple(tm.subst(tm.subst(t, env), e) for t in ix)
    return Arr(v.buf, [tm.subst(s, env) for s in v.shape], fwd, None, False, v.ro)


def subst_val(v, env, start):
    if v is None or isinstance(v, (str, bool, int, float, complex, Unk)):
        return v
    if isinstance(v, Sc):
        t = tm.subst(v.t, env)
        return mk(t, v.kind, v.np)
    if isinstance(v, Arr):
        if v.buf.id < start:
            return subst_view(v, env)
        g = v.snap()
        xs = list(env)

        def get(idx):
            # entries are evaluated at fresh indices to avoid capture
            fr = [tm.fresh_idx(s) for s in v.shape]
            t = g(tuple(tm.of_atom(f) for f in fr))
            e = dict(env)
            t = tm.subst(t, e)
            return tm.subst(t, {f: T(i) for f, i in zip(fr, idx)})
        return new_arr([tm.subst(s, env) for s in v.shape], v.kind, get)
    from .ext import NT, make_nt
    if isinstance(v, NT):
        return make_nt(v.cls, v.fields, [subst_val(y, env, start) for y in v])
    if isinstance(v, tuple):
        return tuple(subst_val(y, env, start) for y in v)
    if isinstance(v, ListV):
        if v.id < start:
            return v
        r = ListV([subst_val(y, env, start) for y in v.items])
        if v.sym:
            s = v.sym
            r.sym = SymSeq(tm.subst(s.n, env), lambda i: subst_val(s.get(i), env, start), s.islist)
        return r
    if isinstance(v, SymSeq):
        return SymSeq(tm.subst(v.n, env), lambda i: subst_val(v.get(i), env, start), v.islist)
    if isinstance(v, Obj):
        if v.id < start:
            return v
        r = Obj(v.cls, {k: subst_val(y, env, start) for k, y in v.attrs.items()})
        r.hooks = v.hooks
        return r
    if isinstance(v, DictV):
        if v.id < start:
            return v
        return DictV({h: (k, subst_val(y, env, start)) for h, (k, y) in v.d.items()})
    return v


def merge(c, a, b):
    """Value that is a where c holds and b elsewhere."""
    if a is b:
        return a
    if is_num(a) and is_num(b):
        if not isinstance(a, Sc) and not isinstance(b, Sc) and type(a) is type(b) and a == b:
            return a
        return mk(tm.case(c, term_of(a), term_of(b)), kmax(kind_of(a), kind_of(b)))
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and all(p is q for p, q in zip(a.shape, b.shape)):
        ga, gb = a.snap(), b.snap()
        return new_arr(a.shape, kmax(a.kind, b.kind), lambda idx: tm.case(c, ga(idx), gb(idx)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b) is tuple:
        return tuple(merge(c, p, q) for p, q in zip(a, b))
    if isinstance(a, ListV) and isinstance(b, ListV) and not a.sym and not b.sym and len(a.items) == len(b.items):
        return ListV([merge(c, p, q) for p, q in zip(a.items, b.items)])
    if type(a) is type(b) and isinstance(a, (str, bool, int, float)) and a == b:
        return a
    return Unk('merge of branch values')


class Path:
    pass


class LoopRun:
    def __init__(self, I, x, env):
        self.I, self.x, self.env = I, x, env
        self.start = next(V._c)
        self.rng0 = I.rng

    def run(self, body, marks):
        """All local paths of one iteration."""
        paths = []
        todo = [[]]
        while todo:
            dec = todo.pop()
            p = self.one(body, marks, dec)
            paths.append(p)
            if len(paths) > MAX_LOCAL:
                raise Undecided('too many paths in a loop body')
            for i in range(len(dec), len(p.decisions)):
                todo.append(p.decisions[:i] + [False])
        return paths

    def one(self, body, marks, dec):
        I = self.I
        oj, ol, ow, olw = I.journal, I.local, I.loop_watch, I.list_watch
        I.journal = []
        I.local = loc = Local(self.x, marks, dec, ol)
        I.loop_watch, I.list_watch = {}, {}
        ctx = tm.CTX
        tm.set_ctx(ctx.fork())
        I.rng = self.rng0
        nev = len(I.events)
        I.loop_idx = I.loop_idx + (tm.of_atom(self.x),)
        pre = dict(self.env.vars) if self.env is not None else {}
        p = Path()
        p.outcome = None
        p.value = None
        try:
            marks()
            base = dict(self.env.vars) if self.env is not None else {}
            nj = len(I.journal)
            from .interp import _Brk, _Cont, _Ret
            try:
                p.value = body()
                p.outcome = 'end'
            except _Cont:
                p.outcome = 'end'
            except _Brk:
                p.outcome = 'break'
            except _Ret as e:
                p.outcome, p.value = 'return', e.v
            except PyRaise as e:
                p.outcome, p.value = 'raise', e
            V.EPOCH[0] += 1
            p.names = {}
            if self.env is not None:
                for k, v in self.env.vars.items():
                    if k not in base or base[k] is not v:
                        p.names[k] = v
            p.bufs = {}
            for i, b in I.loop_watch.items():
                if i < self.start:
                    p.bufs[i] = (b, self.freeze(b))
            p.lists = {}
            for i, (l, n) in I.list_watch.items():
                if i < self.start:
                    its = list.__getitem__(l.items, slice(None)) if isinstance(l.items, Poison) else None
                    p.lists[i] = (l, None if n is None else its)
            p.events = I.events[nev:]
            for e in p.events:
                if e[0] in ('setattr', 'dictmut', 'setmut', 'setclassattr', 'setmodattr', 'nssetattr', 'nssetitem'):
                    o = e[2]
                    if getattr(o, 'id', 0) < self.start:
                        raise Undecided('object mutated inside a summarised loop')
                if e[0] == 'rec':
                    raise Undecided('recorded call inside a summarised loop')
            p.rng = I.rng
            p.guards = list(loc.guards)
            p.decisions = list(loc.decisions)
            c = ONE
            for g, d in p.guards:
                c = tm.b_and(c, g if d else tm.b_not(g))
            p.cond = c
        finally:
            for f in reversed(I.journal):
                f()
            I.journal, I.local, I.loop_watch, I.list_watch = oj, ol, ow, olw
            I.loop_idx = I.loop_idx[:-1]
            if self.env is not None:
                for k in list(self.env.vars):
                    if k not in pre:
                        del self.env.vars[k]
                self.env.vars.update(pre)
            tm.set_ctx(ctx)
            V.EPOCH[0] += 1
        return p

    def freeze(self, b):
        """Contents of a buffer at generic indices, evaluated now."""
        fr = [tm.fresh_idx(s) for s in b.shape]
        t = b.get(tuple(tm.of_atom(f) for f in fr))
        return fr, t


def apply_fr(fr, t, idx):
    return tm.subst(t, {f: T(i) for f, i in zip(fr, idx)})


def loop_index(I, n):
    x = tm.fresh_idx(n)
    return x


def sym_comp(I, target, it, env, elt):
    n = it.n
    x = loop_index(I, n)
    lr = LoopRun(I, x, env)

    def body():
        I.assign(target, it.get(tm.of_atom(x)), env)
        return elt(env)
    return comp_result(I, lr, x, n, lr.run(body, lambda: None))


def comp_result(I, lr, x, n, paths):
    paths = handle_raises(I, lr, x, paths)
    for p in paths:
        if p.bufs or p.lists:
            raise Undecided('side effect in a comprehension')
        if p.outcome != 'end':
            raise Undecided('control flow in a comprehension')
    I.rng = paths[0].rng
    v = paths[-1].value
    for p in reversed(paths[:-1]):
        v = merge(p.cond, p.value, v)
    if isinstance(v, Unk):
        raise Undecided('comprehension value: ' + v.why)
    start = lr.start
    return SymSeq(n, lambda i: subst_val(v, {x: T(i)}, start))


def sym_map(I, it, f):
    x = loop_index(I, it.n)
    lr = LoopRun(I, x, None)
    return comp_result(I, lr, x, it.n, lr.run(lambda: f(it.get(tm.of_atom(x))), lambda: None))


def handle_raises(I, lr, x, paths):
    rs = [p for p in paths if p.outcome in ('raise', 'return')]
    if not rs:
        return paths
    kinds = {(p.outcome, p.value.exc.cls.name if p.outcome == 'raise' else id(p.value)) for p in rs}
    if len(kinds) > 1:
        raise Undecided('several exits in a loop')
    c = ZERO
    for p in rs:
        c = tm.b_or(c, p.cond)
        if p.outcome == 'return' and not (p.value is None or isinstance(p.value, (bool, str, int))):
            raise Undecided('return inside a summarised loop')
    if contains_mark(c):
        raise Undecided('exit depends on carried state')
    s = tm.sum_over(c, x)
    ex = tm.ind_ge(s - 1)
    if I.decide(ex):
        if rs[0].outcome == 'raise':
            raise rs[0].value
        from .interp import _Ret
        raise _Ret(rs[0].value)
    rest = [p for p in paths if p.outcome not in ('raise', 'return')]
    if not rest:
        raise Undecided('loop')
    return rest


def sym_for(I, stmt, it, env):
    n = it.n
    if not I.decide(tm.ind_ge(n - 1)):
        I.block(stmt.orelse, env)
        return
    if stmt.orelse:
        # executed after normal exhaustion; break is not summarised
        pass
    x = loop_index(I, n)
    lr = LoopRun(I, x, env)
    carried = {}       # name -> ('sc'|'arr'|'unk')
    bufs = {}
    lists = {}
    pre = dict(env.vars)
    uid = next(V._c)

    def body():
        I.assign(stmt.target, it.get(tm.of_atom(x)), env)
        I.block(stmt.body, env)

    def marks():
        for k in carried:
            v = pre[k]
            if is_num(v):
                kd = 'f' if kind_of(v) in 'if' and carried[k] == 'f' else kind_of(v)
                if carried[k] in 'bifc':
                    kd = carried[k]
                m = tm.mark_atom(('n', uid, k), (), real=kd != 'c', isint=kd in 'bi')
                env.vars[k] = Sc(tm.of_atom(m), kd)
            elif isinstance(v, Arr):
                kd = carried[k]
                env.vars[k] = new_arr(v.shape, kd, lambda idx, k=k, kd=kd: tm.of_atom(tm.mark_atom(('n', uid, k), idx, real=kd != 'c', isint=kd in 'bi')))
            else:
                env.vars[k] = Unk('carried value ' + k)
        for i, b in bufs.items():
            old = b.get
            I.journal.append(lambda b=b, old=old: setattr(b, 'get', old))
            b.get = memo_get(lambda idx, b=b: tm.of_atom(tm.mark_atom(('b', uid, b.id), idx, real=b.kind != 'c', isint=b.kind in 'bi')))
        for i, l in lists.items():
            old, osym = l.items, l.sym
            if osym:
                raise Undecided('append to a symbolic list in a summarised loop')
            I.journal.append(lambda l=l, old=old: setattr(l, 'items', old))
            l.items = Poison()
        V.EPOCH[0] += 1

    for rnd in range(6):
        paths = lr.run(body, marks)
        changed = False
        for p in paths:
            for k, v in p.names.items():
                if k in pre:
                    w = pre[k]
                    kd = None
                    if is_num(w) and is_num(v):
                        kd = kmax(kind_of(w), kind_of(v))
                    elif isinstance(w, Arr) and isinstance(v, Arr):
                        kd = kmax(w.kind, v.kind)
                    else:
                        kd = 'u'
                    if k not in carried or (carried[k] != kd and carried[k] != 'u' and kmax(carried[k], kd) != carried[k] if kd != 'u' else carried.get(k) != 'u'):
                        carried[k] = kd if k not in carried or kd == 'u' else kmax(carried[k], kd)
                        if kd == 'u':
                            carried[k] = 'u'
                        changed = True
            for i, (b, _) in p.bufs.items():
                if i not in bufs:
                    bufs[i] = b
                    changed = True
            for i, (l, its) in p.lists.items():
                if i not in lists:
                    lists[i] = l
                    changed = True
        if not changed:
            break
    else:
        raise Undecided('loop summary did not stabilise')
    for p in paths:
        if p.outcome == 'break':
            raise Undecided('break in a summarised loop')
    paths = handle_raises(I, lr, x, paths)
    I.rng = paths[0].rng
    if any(p.rng != I.rng for p in paths):
        raise Undecided('draws depend on the iteration')

    def mergep(f):
        v = f(paths[-1])
        for p in reversed(paths[:-1]):
            v = merge(p.cond, f(p), v)
        return v

    # ---- one-iteration transfer of every carried entity, at generic indices
    ents = {}       # key -> (fr, term, mark(fr))
    finals = {}
    names = set()
    for p in paths:
        names |= set(p.names)
    marked_env = {}
    for k in carried:
        v0 = pre[k]
        if carried[k] == 'u' or not (is_num(v0) or isinstance(v0, Arr)):
            continue
        kd = carried[k]
        if is_num(v0):
            m0 = Sc(tm.of_atom(tm.mark_atom(('n', uid, k), (), real=kd != 'c', isint=kd in 'bi')), kd)
        else:
            m0 = new_arr(v0.shape, kd, lambda idx, k=k, kd=kd: tm.of_atom(tm.mark_atom(('n', uid, k), idx, real=kd != 'c', isint=kd in 'bi')))
        v = mergep(lambda p: p.names.get(k, m0))
        if is_num(v):
            ents[('n', k)] = ((), term_of(v), tm.of_atom(tm.mark_atom(('n', uid, k), (), real=kd != 'c', isint=kd in 'bi')), lambda idx, v0=v0: term_of(v0), kd)
        elif isinstance(v, Arr) and isinstance(v0, Arr) and len(v.shape) == len(v0.shape) and all(I.same_dim(p_, q) for p_, q in zip(v.shape, v0.shape)):
            fr = [tm.fresh_idx(s) for s in v0.shape]
            ix = tuple(tm.of_atom(f) for f in fr)
            ents[('n', k)] = (fr, v.at(ix), tm.of_atom(tm.mark_atom(('n', uid, k), ix, real=kd != 'c', isint=kd in 'bi')), v0.snap(), kd)
    for i, b in bufs.items():
        fr = [tm.fresh_idx(s) for s in b.shape]
        ix = tuple(tm.of_atom(f) for f in fr)
        mk_ = tm.of_atom(tm.mark_atom(('b', uid, b.id), ix, real=b.kind != 'c', isint=b.kind in 'bi'))

        def bt(p):
            if i in p.bufs:
                f2, t2 = p.bufs[i][1]
                return Sc(apply_fr(f2, t2, ix), b.kind)
            return Sc(mk_, b.kind)
        v = mergep(bt)
        ents[('b', i)] = (fr, term_of(v), mk_, b.get, b.kind)

    # ---- solve
    X = tm.of_atom(x)
    solved = {}

    def resolve(t):
        """Substitute solved iteration-start values."""
        for _ in range(8):
            ms = [a for a in t.fv if a.kind == 'mark' and a.data[0][1] == uid and akey(a) in solved]
            if not ms:
                return t
            # outermost first: their index arguments may contain marks themselves
            env_ = {}
            for a in ms:
                env_[a] = solved[akey(a)][0](tuple(a.data[1:]), X)
            t = subst_marks(t, env_)
        return t

    def akey(a):
        return (a.data[0][0], a.data[0][2])

    progress = True
    pend = dict(ents)
    while pend and progress:
        progress = False
        for key, (fr, t, m, old, kd) in list(pend.items()):
            t = resolve(t)
            r = solve(x, n, fr, t, m, old)
            if r is not None:
                solved[key] = r
                del pend[key]
                progress = True
            else:
                pend[key] = (fr, t, m, old, kd)
    for key in list(pend):
        if key[0] == 'b':
            raise Undecided('loop-carried store not summarised')

    last = n - 1
    env_last = {x: last}

    def final_val(v):
        """Value computed in the last iteration."""
        def fix(u):
            if isinstance(u, Sc):
                t = resolve(u.t)
                if contains_mark(t):
                    return Unk('carried')
                return mk(t, u.kind, u.np)
            if isinstance(u, Arr):
                g = u.snap()

                def get(idx):
                    t = resolve(g(idx))
                    if contains_mark(t):
                        raise Undecided('carried')
                    return t
                return new_arr(u.shape, u.kind, get) if u.buf.id >= lr.start else u
            if isinstance(u, tuple) and type(u) is tuple:
                return tuple(fix(y) for y in u)
            if u is None or isinstance(u, (str, bool, int, float, complex)):
                return u
            if isinstance(u, (Obj, ListV, DictV)) and u.id < lr.start:
                return u
            if isinstance(u, (FuncV, ClassV, ModV, Native, TypeV, NS)):
                return u
            return Unk('value of the last iteration')
        return subst_val(fix(v), env_last, lr.start)

    newvals = {}
    for k in names:
        key = ('n', k)
        if key in solved:
            v0 = pre[k]
            fin = solved[key][1]
            kd = ents[key][4]
            if is_num(v0):
                newvals[k] = mk(fin(()), kd)
            else:
                newvals[k] = new_arr(v0.shape, kd, fin)
        elif k in carried and key in pend:
            newvals[k] = Unk('loop-carried ' + k)
        elif k in carried and carried[k] == 'u':
            newvals[k] = final_val(mergep(lambda p: p.names.get(k, pre[k])))
        else:
            if all(k in p.names for p in paths):
                newvals[k] = final_val(mergep(lambda p: p.names[k]))
            else:
                newvals[k] = Unk('conditionally assigned ' + k)
    # lists
    newlists = []
    for i, l in lists.items():
        its = [p.lists.get(i, (l, []))[1] for p in paths]
        if any(y is None for y in its):
            raise Undecided('list mutation in a summarised loop')
        if len({len(y) for y in its}) != 1 or len(its[0]) != 1:
            raise Undecided('conditional append in a summarised loop')
        v = its[-1][0]
        for p, y in reversed(list(zip(paths[:-1], its[:-1]))):
            v = merge(p.cond, y[0], v)
        if isinstance(v, Unk):
            raise Undecided('appended value: ' + v.why)
        v = resolve_val(v, resolve, lr.start)
        newlists.append((l, v))
    for key, s in solved.items():
        if key[0] == 'b':
            b = bufs[key[1]]
            I.set_buf(b, memo_get(s[1]))
    for k, v in newvals.items():
        I.store_name(k, v, env)
    for l, v in newlists:
        s = SymSeq(n, lambda i, v=v: subst_val(v, {x: T(i)}, lr.start))
        old, osym = list(l.items), l.sym

        def und(l=l, old=old, osym=osym):
            l.items, l.sym = old, osym
        I.undo(und)
        if l.items:
            q = ListV([])
            q.sym = s
            r = seq_concat(I, ListV(l.items), q)
            l.sym, l.items = r.sym, list(r.items)
        else:
            l.sym = s
        I.event('listmut', l)
        if I.list_watch is not None:
            I.list_watch[l.id] = (l, None)
    I.block(stmt.orelse, env)


def resolve_val(v, resolve, start):
    if isinstance(v, Sc):
        t = resolve(v.t)
        if contains_mark(t):
            raise Undecided('carried value appended')
        return mk(t, v.kind, v.np)
    if isinstance(v, Arr) and v.buf.id >= start:
        g = v.snap()
        fr = [tm.fresh_idx(s) for s in v.shape]
        t = resolve(g(tuple(tm.of_atom(f) for f in fr)))
        if contains_mark(t):
            raise Undecided('carried value appended')
        return new_arr(v.shape, v.kind, lambda idx: apply_fr(fr, t, idx))
    if type(v) is tuple:
        return tuple(resolve_val(y, resolve, start) for y in v)
    if isinstance(v, ListV) and v.id >= start and not v.sym:
        return ListV([resolve_val(y, resolve, start) for y in v.items])
    return v


def subst_marks(t, env):
    return tm.subst(t, env)


def solve(x, n, fr, t, m, old):
    """Closed form of an entity with one-iteration transfer t.

    Returns (value at the start of iteration X, final value) as functions, or
    None when other marks are still unresolved or no rule applies.
    """
    X = tm.of_atom(x)
    ma = tm.single_atom(m)

    def fr_sub(u, idx):
        return tm.subst(u, {f: T(i) for f, i in zip(fr, idx)})
    # reads of the same entity at indices that must equal the generic ones
    for a in [a for a in t.fv if a.kind == 'mark' and a is not ma and a.data[0] == ma.data[0] and len(a.data) == len(ma.data)]:
        one = tm.subst(t, {a: ONE})
        zero = tm.subst(t, {a: ZERO})
        c = one - zero
        if c * tm.of_atom(a) + zero is not t:
            continue
        e = ONE
        for p, q in zip(a.data[1:], ma.data[1:]):
            e = tm.b_and(e, tm.ind_eq(T(p) - T(q)))
        if c * (ONE - e) is ZERO:
            t = zero + c * m
    if ma not in t.fv:
        if contains_mark(t):
            return None
        # overwritten in every iteration
        def start(idx, xx):
            prev = tm.subst(fr_sub(t, idx), {x: xx - 1})
            return tm.case(tm.ind_eq(xx), old(tuple(idx)), prev)
        return start, lambda idx: tm.subst(fr_sub(t, idx), {x: n - 1})
    beta = tm.subst(t, {ma: ZERO})
    if contains_mark(beta):
        return None
    one = tm.subst(t, {ma: ONE})
    if contains_mark(one):
        return None
    alpha = one - beta
    if (alpha * m + beta) is not t:
        return None
    if alpha is ONE:
        return acc(x, n, fr, beta, ZERO, old)
    kappa = ONE - alpha
    # indicator-valued kappa: entries overwritten where kappa = 1
    if not is_ind(kappa):
        return None
    if not (kappa * beta is beta):
        return None
    s = tm.sum_over(kappa, x)
    if nbind(s) > nbind(kappa):
        return None
    return acc(x, n, fr, beta, kappa, old)


def nbind(t):
    return max([len(m.binders) for m, _ in t.p] or [0])


def is_ind(t):
    """0/1 valued: t*t == t by normal form."""
    return t is ONE or (t * t) is t


def acc(x, n, fr, beta, kappa, old):
    def total(size, idx):
        y = tm.fresh_idx(size)
        e = {x: tm.of_atom(y)}
        f = {a: T(i) for a, i in zip(fr, idx)}
        b = tm.sum_over(tm.subst(tm.subst(beta, e), f), y)
        k = tm.sum_over(tm.subst(tm.subst(kappa, e), f), y) if kappa is not ZERO else ZERO
        return old(tuple(idx)) * (ONE - k) + b

    def start(idx, xx):
        return total(xx, idx)
    return start, lambda idx: total(n, idx)
