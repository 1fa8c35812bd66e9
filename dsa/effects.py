"""Effects of repository calls, observed along an abstract run.

An Observer is attached to the interpreter. Every call that enters the repository from caller code (the scenario) is a
*boundary call*. At its entry the abstract heap reachable from the arguments and the receiver is recorded (buffer contents,
list / dict / set items, object attributes); at its exit every recorded object whose state was replaced by a store of the
repository, and which does not belong to the receiver, yields a pair (state before, state after). Any such store into an
array is an effect; containers and attributes are compared by value number, so putting back an equal value is none.

Ownership: an object belongs to a receiver when it was allocated while the receiver was being constructed or during one of
its own boundary calls. Private attributes that change from absent / None to a value are caches, not effects.

Random draws are recorded together with the functions on the stack.
"""
from .values import Arr, Buf, ListV, DictV, SetV, Obj, FuncV, BoundM
from . import values as V


def now():
    # the identity counter, without advancing it
    return int(repr(V._c)[6:-1])


def inner(x):
    if isinstance(x, Arr):
        return [x.buf]
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, ListV):
        return [] if x.sym else list(list.__getitem__(x.items, slice(None)))
    if isinstance(x, DictV):
        return [v for p in x.d.values() for v in p]
    if isinstance(x, Obj):
        return list(x.attrs.values())
    if isinstance(x, BoundM):
        return [x.self]
    return []


def state(x):
    if isinstance(x, Buf):
        return x.get
    if isinstance(x, ListV):
        return (x.sym, list(list.__getitem__(x.items, slice(None))))
    if isinstance(x, DictV):
        return dict(x.d)
    if isinstance(x, SetV):
        return set(x.s)
    if isinstance(x, Obj):
        return dict(x.attrs)


def closure(roots, depth=12):
    out, todo, seen = [], [(r, 0) for r in roots], set()
    while todo:
        x, d = todo.pop()
        if isinstance(x, (Buf, ListV, DictV, SetV, Obj)):
            if x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
        if d < depth:
            todo += [(y, d + 1) for y in inner(x)]
    return out, seen


class Pair:
    def __init__(self, what, call, a, b):
        self.what, self.call, self.a, self.b = what, call, a, b


class Observer:
    def __init__(self):
        self.depth = 0
        self.ranges = []
        self.pairs = []
        self.calls = 0
        self.seen = 0

    def owners(self, x):
        return [o for s, e, o in self.ranges if s <= x.id < e]

    def enter(self, I, f, mod, vals, args):
        repo = getattr(mod, 'attrs', {}).get('__name__', '').startswith('doatools')
        recv = args[0] if args and isinstance(args[0], Obj) and f.cls is not None else None
        tok = [repo, recv, f, now(), None, None, self.depth, len(I.events)]
        if repo and self.depth == 0:
            given = [v for v in vals.values() if v is not recv]
            _, direct = closure(given)
            objs, _ = closure(list(vals.values()))
            if recv is not None:
                # objects handed over as arguments may be the receiver's own parts as well
                direct = set(direct)
            tok[4] = [(x, state(x)) for x in objs]
            tok[5] = direct
            self.calls += 1
            self.seen += len(objs)
        if repo:
            self.depth += 1
        return tok

    def leave(self, I, tok):
        repo, recv, f, start, snap, direct, depth, nev = tok
        self.depth = depth
        if recv is not None and (snap is not None or f.name == '__init__'):
            self.ranges.append((start, now(), recv))
        if snap is None:
            return
        q = (f.cls.name + '.' if f.cls else '') + f.name
        # sites in the repository that stored into an object (callbacks of the caller may change the caller's objects)
        sites = {}
        for e in I.events[nev:]:
            if len(e) > 2 and e[1].startswith('doatools'):
                sites.setdefault(getattr(e[2], 'id', None), e[1])
        for x, old in snap:
            if x is recv or x.id not in sites:
                continue
            new = state(x)
            if isinstance(x, Buf):
                if new is old:
                    continue
            elif isinstance(x, ListV):
                if new[0] is old[0] and len(new[1]) == len(old[1]) and all(p is r for p, r in zip(new[1], old[1])):
                    continue
            elif isinstance(x, SetV):
                if new == old:
                    continue
            elif set(new) == set(old) and all(new[k] is old[k] for k in new):
                continue
            elif isinstance(x, DictV) and new and all(k in new and new[k] is old[k] for k in old) and all(k[0] in ('tup', 'sym', 'seq', 'fstr') for k in new):
                # memo tables, keyed by values: only the results computed with them matter (C18)
                continue
            own = self.owners(x)
            if any(o is recv for o in own):
                continue
            if x.id not in direct and own and not any(o.cls is not (recv.cls if recv is not None else None) for o in own):
                continue
            self.record(x, old, new, '%s, stored at %s' % (q, sites[x.id]))

    def record(self, x, old, new, q):
        if isinstance(x, Buf):
            a = Arr(Buf(x.shape, x.kind, old), x.shape)
            b = Arr(Buf(x.shape, x.kind, new), x.shape)
            self.pairs.append(Pair('an array', q, b, a))
        elif isinstance(x, ListV):
            if old[0] or new[0]:
                self.pairs.append(Pair('a list', q, None if new[0] else ListV(new[1]), None if old[0] else ListV(old[1])))
            else:
                self.pairs.append(Pair('a list', q, ListV(new[1]), ListV(old[1])))
        elif isinstance(x, DictV):
            self.pairs.append(Pair('a dictionary', q, DictV(new), DictV(old)))
        elif isinstance(x, SetV):
            self.pairs.append(Pair('a set', q, SetV(new), SetV(old)))
        else:
            for k in sorted(set(old) | set(new)):
                if k in old and k in new and old[k] is new[k]:
                    continue
                if k.startswith('_') and old.get(k) is None:
                    continue
                self.pairs.append(Pair('attribute %s of a %s' % (k, x.cls.name), q, new.get(k), old.get(k)))
