"""Whole-program rules over the syntax trees of the repository: who can reach the random state.

Nodes: every function, method, lambda and module body (class bodies, decorators and default values belong to the module
body). Edges: a reference to a name resolved through scopes and imports; an attribute load on `self` / `cls` resolved in the
class, its bases and its subclasses; any other attribute load to every method or callable attribute of that name. Functions
stored in attributes (`self._generator = lambda ...`) are reached through loads of that attribute, other nested functions
through the function that contains them. References count as calls, so the graph over-approximates.
"""
import ast
import os

STATE = {'seed', 'set_state', 'get_state', 'RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'PCG64DXSM', 'MT19937', 'Philox', 'SFC64',
         'BitGenerator', 'set_bit_generator', 'get_bit_generator'}
OTHER = {'random', 'secrets', 'uuid', 'numpy.random.mtrand'}
STOCHASTIC = {'scipy.optimize.differential_evolution', 'scipy.optimize.dual_annealing', 'scipy.optimize.basinhopping', 'scipy.sparse.linalg.eigs',
              'scipy.sparse.linalg.eigsh', 'scipy.sparse.linalg.svds', 'scipy.stats', 'os.urandom', 'os.getrandom', 'scipy.linalg.interpolative'}


class Fn:
    def __init__(self, mod, qual, node, cls=None, parent=None):
        self.mod, self.qual, self.node, self.cls, self.parent = mod, qual, node, cls, parent
        self.out = {}          # Fn -> site
        self.locals = {}
        self.defs = {}

    @property
    def name(self):
        return self.qual.rsplit('.', 1)[-1]

    def __repr__(self):
        return '%s:%s' % (self.mod.rel, self.qual)


class Cls:
    def __init__(self, mod, name, node):
        self.mod, self.name, self.node = mod, name, node
        self.methods = {}
        self.bases = []
        self.subs = []

    def up(self, seen=None):
        seen = set() if seen is None else seen
        if self in seen:
            return
        seen.add(self)
        yield self
        for b in self.bases:
            yield from b.up(seen)

    def down(self, seen=None):
        seen = set() if seen is None else seen
        if self in seen:
            return
        seen.add(self)
        yield self
        for b in self.subs:
            yield from b.down(seen)


class Mod:
    def __init__(self, name, rel, tree):
        self.name, self.rel, self.tree = name, rel, tree
        self.names = {}        # top-level name -> Fn | Cls | ('ext', dotted) | ('mod', Mod)
        self.body = Fn(self, '<module>', tree)


class _Ext:
    rel, name, tree = 'library', '', None


EXT = _Ext()


class Program:
    def __init__(self, root, package='doatools', skip=('tests',)):
        self.mods, self.fns, self.classes = {}, [], []
        self.ext = {}          # dotted name -> random primitive
        self.attr_fns = {}     # attribute name -> functions stored under it
        base = os.path.join(root, package)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in skip and x != '__pycache__')
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    n = rel[:-3].replace(os.sep, '.')
                    pkg = n.endswith('.__init__')
                    n = n[:-9] if pkg else n
                    m = Mod(n, rel, ast.parse(open(p).read(), p))
                    m.pkg = n if pkg else n.rsplit('.', 1)[0]
                    self.mods[n] = m
        for m in self.mods.values():
            self.declare(m)
        for m in self.mods.values():
            self.imports(m, m.tree, m.names)
        self.aliases()
        for c in self.classes:
            for b in c.node.bases:
                r = self.resolve(c.mod, b, {})
                if isinstance(r, Cls):
                    c.bases.append(r)
                    r.subs.append(c)
        self.methods = {}
        for f in self.fns:
            if f.cls is not None and f.parent is None:
                self.methods.setdefault(f.name, []).append(f)
        for rnd in range(2):
            for m in self.mods.values():
                self.scan(m.body)
            for f in self.fns:
                self.scan(f)

    # ---------------------------------------------------------------- declarations
    def declare(self, m):
        def body(stmts, qual, cls, parent):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Fn(m, qual + s.name, s, cls, parent)
                    self.fns.append(f)
                    if cls is not None and parent is None:
                        cls.methods[s.name] = f
                    elif parent is None:
                        m.names[s.name] = f
                    else:
                        parent.locals[s.name] = f
                        parent.defs.setdefault(s.name, set()).add(f)
                    nested(s, f)
                elif isinstance(s, ast.ClassDef):
                    c = Cls(m, s.name, s)
                    self.classes.append(c)
                    if parent is None:
                        m.names[s.name] = c
                    body(s.body, qual + s.name + '.', c, None)
                elif parent is None:
                    for b in ('body', 'orelse', 'finalbody'):
                        body(getattr(s, b, []) if not isinstance(s, (ast.FunctionDef, ast.Lambda)) else [], qual, cls, parent)
                    for h in getattr(s, 'handlers', []):
                        body(h.body, qual, cls, parent)

        def nested(node, f):
            for s in ast.iter_child_nodes(node):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    body([s], f.qual + '.', f.cls, f)
                elif isinstance(s, ast.Lambda):
                    g = Fn(m, '%s.<lambda:%d>' % (f.qual, s.lineno), s, f.cls, f)
                    f.locals[s] = g
                    self.fns.append(g)
                    nested(s, g)
                elif isinstance(s, ast.ClassDef):
                    body([s], f.qual + '.', None, f)
                else:
                    nested(s, f)
        body(m.tree.body, '', None, None)
        # lambdas of the module body

        def modl(node):
            for s in ast.iter_child_nodes(node):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                if isinstance(s, ast.Lambda):
                    g = Fn(m, '<lambda:%d>' % s.lineno, s, None, m.body)
                    m.body.locals[s] = g
                    self.fns.append(g)
                else:
                    modl(s)
        modl(m.tree)

    def imports(self, m, node, names):
        for s in ast.walk(node) if node is not m.tree else self.top(m.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        names[a.asname] = self.named(a.name)
                    else:
                        names[a.name.split('.')[0]] = self.named(a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    p = m.pkg.split('.')
                    p = p[:len(p) - s.level + 1]
                    base = '.'.join(p + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == '*':
                        mm = self.mods.get(base)
                        for k, v in (mm.names.items() if mm else ()):
                            names.setdefault(k, v)
                        continue
                    names[a.asname or a.name] = ('from', base, a.name)

    def top(self, tree):
        todo = list(tree.body)
        while todo:
            s = todo.pop(0)
            yield s
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for b in ('body', 'orelse', 'finalbody'):
                    todo += getattr(s, b, [])
                for h in getattr(s, 'handlers', []):
                    todo += h.body

    def named(self, dotted):
        return ('mod', self.mods[dotted]) if dotted in self.mods else ('ext', dotted)

    def deref(self, v, depth=0):
        if isinstance(v, tuple) and v[0] == 'from':
            if v[1] in self.mods:
                m = self.mods[v[1]]
                if v[1] + '.' + v[2] in self.mods:
                    return ('mod', self.mods[v[1] + '.' + v[2]])
                if depth < 20 and v[2] in m.names:
                    return self.deref(m.names[v[2]], depth + 1)
                return None
            return ('ext', v[1] + '.' + v[2])
        return v

    def aliases(self):
        for m in self.mods.values():
            for s in self.top(m.tree):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    if isinstance(s.value, (ast.Name, ast.Attribute)):
                        r = self.resolve(m, s.value, {})
                        if r is not None and not (isinstance(s.value, ast.Name) and s.value.id == s.targets[0].id):
                            m.names[s.targets[0].id] = r
                    elif isinstance(s.value, ast.Lambda):
                        m.names[s.targets[0].id] = m.body.locals.get(s.value)

    def resolve(self, m, e, scope):
        """Fn, Cls, ('ext', dotted), ('mod', Mod) or None."""
        if isinstance(e, ast.Name):
            v = scope.get(e.id, m.names.get(e.id))
            return self.deref(v)
        if isinstance(e, ast.Attribute):
            v = self.resolve(m, e.value, scope)
            if isinstance(v, tuple) and v[0] == 'ext':
                return ('ext', v[1] + '.' + e.attr)
            if isinstance(v, tuple) and v[0] == 'mod':
                n = v[1].name + '.' + e.attr
                return self.deref(v[1].names.get(e.attr)) if e.attr in v[1].names else (('mod', self.mods[n]) if n in self.mods else None)
            if isinstance(v, Cls):
                for c in v.up():
                    if e.attr in c.methods:
                        return c.methods[e.attr]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('getattr', '__import__') and e.args and isinstance(e.args[-1], ast.Constant):
            if e.func.id == '__import__':
                return self.named(str(e.args[0].value))
            return self.resolve(m, ast.Attribute(e.args[0], str(e.args[1].value), ast.Load()), scope) if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
        return None

    # ---------------------------------------------------------------- edges
    def own(self, f):
        """[(node, parent chain)] of the code that runs when f runs (nested function bodies excluded)."""
        out = []

        def go(node, chain):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node is not f.node:
                if f.node is f.mod.tree:
                    # defaults and decorators run at import
                    for x in node.args.defaults + [y for y in node.args.kw_defaults if y] + node.decorator_list:
                        go(x, chain + [node])
                return
            out.append((node, chain))
            if isinstance(node, ast.Lambda) and node is not f.node:
                return
            for c in ast.iter_child_nodes(node):
                go(c, chain + [node])
        go(f.node, [])
        return out

    def scope(self, f):
        scope, chain, g = {}, [], f
        while g is not None:
            chain.append(g)
            g = g.parent
        for g in reversed(chain):
            scope.update({k: v for k, v in g.locals.items() if isinstance(k, str)})
            if isinstance(g.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.imports(f.mod, g.node, scope)
        return scope

    def refs(self, f, s, scope, alias):
        """What a value expression node may denote: functions, attribute loads, random primitives."""
        m = f.mod
        if isinstance(s, ast.Lambda):
            return {f.locals[s]} if s in f.locals else set()
        if isinstance(s, ast.Name) and s.id in alias:
            return set(alias[s.id])
        r = self.resolve(m, s, scope)
        if isinstance(r, Fn):
            return {r}
        if isinstance(r, Cls):
            return {c.methods[n] for c in r.up() for n in ('__init__', '__new__') if n in c.methods}
        if isinstance(r, tuple) and r[0] == 'ext':
            x = self.external(r[1])
            return {x} if x is not None else set()
        if isinstance(s, ast.Attribute) and r is None:
            if isinstance(s.value, ast.Name) and s.value.id in alias:
                # a local name for a module such as np.random
                return {self.external(y.qual + '.' + s.attr) or y for y in alias[s.value.id] if isinstance(y, Fn) and y.mod is EXT} | {('attr', None, s.attr)}
            return {('attr', self.receiver(f, s), s.attr)}
        return set()

    def scan(self, f):
        m = f.mod
        scope = self.scope(f)
        nodes = self.own(f)
        alias = {k: set(v) for k, v in f.defs.items()}
        g = f.parent
        while g is not None:
            for k, v in getattr(g, 'alias', {}).items():
                alias.setdefault(k, set()).update(v)
            g = g.parent
        f.alias = alias
        f.returns = set()
        for rnd in range(3):
            for s, chain in nodes:
                if isinstance(s, ast.Lambda) and s is not f.node:
                    pass
                elif isinstance(s, (ast.Name, ast.Attribute)) and isinstance(getattr(s, 'ctx', None), ast.Load):
                    # the prefix of a resolved dotted name is no reference of its own
                    if chain and isinstance(chain[-1], ast.Attribute) and isinstance(self.resolve(m, chain[-1], scope), (tuple, Fn)):
                        continue
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id in ('getattr', '__import__'):
                    pass
                elif isinstance(s, ast.Call):
                    made = set()
                    for t in self.refs(f, s.func, scope, alias):
                        if isinstance(t, Fn):
                            made |= getattr(t, 'returns', set())
                        else:
                            for u in self.targets(t):
                                made |= getattr(u, 'returns', set())
                    if made:
                        self.put(f, s, chain, made, scope, alias)
                    continue
                else:
                    continue
                got = self.refs(f, s, scope, alias)
                if got:
                    self.put(f, s, chain, got, scope, alias)

    def put(self, f, s, chain, got, scope, alias):
        """Attribute the references to a call made here, a stored callable, a local name or the function's result."""
        child = s
        for p in reversed(chain):
            if isinstance(p, ast.Call):
                if child is p.func:
                    break
                r = self.resolve(f.mod, p.func, scope)
                if not (isinstance(r, tuple) and r[1] in ('functools.partial', 'functools.lru_cache', 'functools.wraps')):
                    break
            elif isinstance(p, (ast.Attribute, ast.BinOp, ast.Compare, ast.UnaryOp, ast.comprehension, ast.FormattedValue)) or isinstance(p, ast.Subscript) and child is not p.value:
                break
            elif isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and child is p.value:
                for t in p.targets if isinstance(p, ast.Assign) else [p.target]:
                    for u in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        while isinstance(u, (ast.Subscript, ast.Starred)):
                            u = u.value
                        if isinstance(u, ast.Attribute):
                            self.attr_fns.setdefault(u.attr, set()).update(got)
                        elif isinstance(u, ast.Name):
                            alias.setdefault(u.id, set()).update(got)
                            if f.node is f.mod.tree and not isinstance(p, ast.NamedExpr):
                                self.attr_fns.setdefault(u.id, set()).update(got)
                return
            elif isinstance(p, ast.Return) or isinstance(p, ast.Lambda) and p is f.node and isinstance(s, ast.Lambda):
                f.returns |= got
                return
            child = p
        for t in got:
            f.out.setdefault(t, s)

    def external(self, dotted):
        parts = dotted.split('.')
        dotted = '.'.join(parts)
        kind = None
        if dotted.startswith('numpy.random'):
            if len(parts) == 2:
                kind = 'space'
            else:
                kind = 'bad' if parts[2] in STATE or parts[2] == 'mtrand' and parts[-1] in STATE else 'draw'
        elif parts[0] in OTHER and len(parts) > 1 or any(dotted == x or dotted.startswith(x + '.') for x in STOCHASTIC):
            kind = 'bad'
        if kind is None:
            return None
        if dotted not in self.ext:
            x = self.ext[dotted] = Fn(EXT, dotted, None)
            x.kind = kind
        return self.ext[dotted]

    def receiver(self, f, s):
        g = f
        while g is not None and g.parent is not None and not isinstance(g.node, ast.FunctionDef):
            g = g.parent
        while g is not None and g.parent is not None:
            g = g.parent
        if isinstance(s.value, ast.Name) and g is not None and g.cls is not None and isinstance(g.node, ast.FunctionDef) and g.node.args.args and s.value.id == g.node.args.args[0].arg:
            return g.cls
        return None

    def targets(self, e, depth=0):
        if isinstance(e, Fn):
            return [e]
        _, cls, a = e
        out = []
        if depth < 4:
            for r in self.attr_fns.get(a, ()):
                if r != e:
                    out += self.targets(r, depth + 1)
        if cls is not None:
            hit = [c.methods[a] for c in {*cls.up(), *cls.down()} if a in c.methods]
            if hit or out:
                return out + hit
        return out + self.methods.get(a, [])


def random_rules(root):
    """Obligations of the randomness rule: ([(function, violations)], statistics)"""
    P = Program(root)
    body = {m.body for m in P.mods.values()}
    nodes = P.fns + [m.body for m in P.mods.values()]

    def sanctioned(f):
        if f.mod is EXT:
            return False
        if f.cls is None:
            return f.parent is None and f.name in ('randcn', 'get_narrowband_snapshots')
        return f.parent is None and f.name == 'emit' and any(c.name == 'SignalGenerator' for c in f.cls.up())

    callers, succ = {}, {}
    for f in nodes:
        succ[f] = {}
        for e, site in f.out.items():
            for t in P.targets(e):
                succ[f].setdefault(t, site)
                callers.setdefault(t, set()).add(f)
    # functions that draw, directly or through what they call
    drawing = {x: None for x in P.ext.values() if x.kind == 'draw'}
    todo = list(drawing)
    while todo:
        f = todo.pop()
        for c in callers.get(f, ()):
            if c not in drawing:
                drawing[c] = f
                todo.append(c)
    # a helper is fine when it is used, and only by sanctioned functions and such helpers
    helper = {f for f in drawing if not sanctioned(f) and f not in body}
    while True:
        bad = {f for f in helper if f.mod is not EXT and not all(sanctioned(c) or c in helper for c in callers.get(f, ()))
               or f.mod is not EXT and not callers.get(f, set()) - {f} and not isinstance(f.node, ast.Lambda)}
        if not bad:
            break
        helper -= bad

    def path(f):
        p = [f]
        while drawing[p[-1]] is not None:
            p.append(drawing[p[-1]])
        return ' -> '.join(map(repr, p[1:]))
    # what draws other than through a signal's emit
    direct = {x for x in P.ext.values() if x.kind == 'draw'}
    todo = list(direct)
    while todo:
        f = todo.pop()
        for c in callers.get(f, ()):
            if c not in direct and not (c.mod is not EXT and c.name == 'emit' and sanctioned(c)):
                direct.add(c)
                todo.append(c)
    out = []
    for f in nodes:
        v = []
        if f.mod is not EXT and f.cls is None and f.parent is None and f.name == 'get_narrowband_snapshots':
            for t, site in succ[f].items():
                if t in direct:
                    v.append('%s draws random numbers through %s rather than from its signals, at %s:%d' % (f, t, f.mod.rel, site.lineno))
        if f in drawing and not sanctioned(f) and f not in helper:
            # report where the unsanctioned use starts
            if any(t in drawing and (t.mod is EXT or sanctioned(t) or t in helper) for t in succ[f]):
                v.append('%s may draw random numbers: %s, at %s:%d' % (f, path(f), f.mod.rel, succ[f][drawing[f]].lineno))
        for t, site in succ[f].items():
            if t.mod is EXT and t.kind == 'bad':
                v.append('%s uses %s at %s:%d' % (f, t.qual, f.mod.rel, site.lineno))
        out.append((repr(f), v))
    return out, {'functions': len(P.fns), 'modules': len(P.mods), 'call_edges': sum(len(x) for x in succ.values()),
                 'random_primitives': sorted('%s (%d uses)' % (x.qual, len(callers.get(x, ()))) for x in P.ext.values() if x.kind != 'space'),
                 'drawing_functions': sorted(repr(f) for f in drawing if f.mod is not EXT), 'sanctioned': sorted(repr(f) for f in nodes if sanctioned(f)),
                 'helpers': sorted(repr(f) for f in helper if f.mod is not EXT)}
