"""Results the Python layer keeps between calls: dependence analysis over its syntax tree."""
import ast
import glob
import os

from ccload import REPO
from report import Finding

CACHERS = ('lru_cache', 'cache', 'cached_property', 'memoize', 'memoized', 'cached')
GROW = ('add', 'append', 'setdefault', 'update', 'insert', 'extend', 'appendleft', '__setitem__', 'push')
DROP = ('clear', 'pop', 'popitem', 'remove', 'discard')
MUTATORS = ('add', 'remove', 'discard', 'pop', 'clear', 'update', 'intersection_update', 'difference_update',
            'symmetric_difference_update', 'quotient_update', 'remainder_update', 'invert', 'flip')
MAKERS = ('dict', 'list', 'set', 'defaultdict', 'OrderedDict', 'WeakValueDictionary', 'WeakKeyDictionary', 'deque', 'Counter')
PURE = ('len', 'range', 'sorted', 'min', 'max', 'sum', 'frozenset', 'tuple', 'list', 'set', 'dict', 'isinstance', 'str', 'int', 'float', 'bool',
        'enumerate', 'zip', 'map', 'filter', 'iter', 'next', 'repr', 'hash', 'any', 'all', 'abs', 'type', 'super', 'id', 'hasattr', 'getattr')


def container(e):
    return isinstance(e, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(e, ast.Call) and (e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else '') in MAKERS


class Func:
    def __init__(self, mod, node, cls, outer=None):
        self.mod, self.node, self.cls, self.outer = mod, node, cls, outer
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.params = self.pos + [x.arg for x in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.name = '.'.join(x for x in ([outer.name] if outer else [cls] if cls else []) + [node.name] if x)
        self.decos = [d.func if isinstance(d, ast.Call) else d for d in node.decorator_list]
        self.kind = next((d.id for d in self.decos if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')), '')
        self.defs, self.conds, self.writes, self.rets = {}, {}, [], []
        self.globals = set()
        self.inner = []
        self.n = 0
        self.order = {}
        for s in node.body:
            self.scan(s, ())
        self.locals = set(self.params) | {d for d in self.defs if d not in self.globals}

    @property
    def me(self):
        return self.pos[0] if self.cls and self.kind != 'staticmethod' and self.pos else None

    def bind(self, t, e, conds):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append((e, conds))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, e, conds)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, e, conds)

    def scan(self, n, conds):
        self.n += 1
        self.order[n] = self.n
        self.conds[n] = conds
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.inner.append(n)
            self.defs.setdefault(n.name, []).append((ast.Constant(None), conds))
            return
        if isinstance(n, ast.ClassDef):
            return
        if isinstance(n, ast.Global):
            self.globals |= set(n.names)
        if isinstance(n, (ast.If, ast.While)):
            self.scan(n.test, conds)
            for s in n.body + n.orelse:
                self.scan(s, conds + (n.test,))
            return
        if isinstance(n, ast.IfExp):
            self.scan(n.test, conds)
            self.scan(n.body, conds + (n.test,))
            self.scan(n.orelse, conds + (n.test,))
            return
        if isinstance(n, ast.For):
            self.bind(n.target, n.iter, conds)
            self.writes.append((n.target, n.iter, conds, n, '='))
            self.scan(n.iter, conds)
            for s in n.body + n.orelse:
                self.scan(s, conds + (n.iter,))
            return
        if isinstance(n, ast.comprehension):
            self.bind(n.target, n.iter, conds)
        if isinstance(n, ast.withitem) and n.optional_vars is not None:
            self.bind(n.optional_vars, n.context_expr, conds)
        if isinstance(n, ast.Assign):
            for t in n.targets:
                self.bind(t, n.value, conds)
                self.writes.append((t, n.value, conds, n, '='))
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
            self.bind(n.target, n.value, conds)
            self.writes.append((n.target, n.value, conds, n, 'aug' if isinstance(n, ast.AugAssign) else '='))
        elif isinstance(n, ast.NamedExpr):
            self.bind(n.target, n.value, conds)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in GROW + DROP:
                self.writes.append((n.func.value, n, conds, n, n.func.attr))
            if isinstance(n.func.value, ast.Name):        # a local changed by its method
                self.defs.setdefault(n.func.value.id, []).append((n, conds)) if n.func.attr in GROW and n.func.value.id not in self.params else None
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
            t = ast.copy_location(ast.Attribute(n.args[0], str(n.args[1].value), ast.Store()), n)
            self.writes.append((t, n.args[2], conds, n, '='))
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                self.writes.append((t, None, conds, n, 'del'))
        elif isinstance(n, ast.Return):
            self.rets.append((n.value, conds, n))
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.rets.append((n.value, conds, n))
        for c in ast.iter_child_nodes(n):
            self.scan(c, conds)


class Pkg:
    def __init__(self):
        self.funcs, self.mods, self.classes = [], {}, {}
        for p in sorted(glob.glob(os.path.join(REPO, 'graphillion', '*.py'))):
            m = os.path.basename(p)[:-3]
            if m in ('release', 'tutorial'):
                continue
            t = ast.parse(open(p).read())
            self.mods[m] = (p, t)
            self.collect(m, t.body, None, None)
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f.node.name, []).append(f)
        # module and class level variables
        self.level = {}          # (owner, name) -> initial expression
        for m, (p, t) in self.mods.items():
            for s in t.body:
                self.top(m, s)
        for (m, c), n in self.classes.items():
            for s in n.body:
                self.top(c, s)
        self.fnames = {f.node.name for f in self.funcs}
        self.cnames = {c for m, c in self.classes}
        self._reads = {}

    def top(self, owner, s):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.level[(owner, t.id)] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            self.level[(owner, s.target.id)] = s.value

    def collect(self, m, body, cls, outer):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, n, cls, outer)
                self.funcs.append(f)
                self.collect(m, f.inner, None, f)
            elif isinstance(n, ast.ClassDef):
                self.classes[(m, n.name)] = n
                self.collect(m, n.body, n.name, None)
            elif isinstance(n, (ast.If, ast.Try)):
                self.collect(m, [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.stmt)], cls, outer)

    # -- where a target lives
    def place(self, f, t):
        """(owner, name, parts) when an expression names storage that outlives the call"""
        keys = []
        while isinstance(t, (ast.Subscript, ast.Call, ast.Starred)):
            if isinstance(t, ast.Subscript):
                keys.append(t.slice)
                t = t.value
            elif isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ('setdefault', 'get'):
                keys.append(t.args[0] if t.args else None)
                t = t.func.value
            else:
                return None
        keys.reverse()
        if isinstance(t, ast.Name):
            n = t.id
            if n in f.globals:
                return (f.mod, n), keys
            if n in f.locals:
                d = dict(zip(f.pos[len(f.pos) - len(f.node.args.defaults):], f.node.args.defaults))
                d.update({a.arg: e for a, e in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if e is not None})
                if n in d and container(d[n]) and n not in f.defs:
                    return (f.name + '()', n), keys
                # a local name for such storage
                ds = [x for x in f.defs.get(n, []) if not (isinstance(x[0], ast.Call) and isinstance(x[0].func, ast.Attribute) and isinstance(x[0].func.value, ast.Name) and x[0].func.value.id == n)]
                if len(ds) == 1 and n not in f.params and isinstance(ds[0][0], (ast.Name, ast.Attribute, ast.Subscript)) and not (
                        isinstance(ds[0][0], ast.Name) and ds[0][0].id == n):
                    r = self.place(f, ds[0][0])
                    if r:
                        return r[0], r[1] + keys
                return None
            o = f.outer
            while o is not None:
                if n in o.locals:
                    if any(isinstance(e, ast.AST) and container(e) for e, c in o.defs.get(n, [])) and self.returned(o, f):
                        return (o.name + '()', n), keys
                    return None
                o = o.outer
            if (f.mod, n) in self.level:
                return (f.mod, n), keys
            return None
        if isinstance(t, ast.Attribute):
            b = t.value
            if isinstance(b, ast.Name):
                if b.id in self.cnames and b.id not in f.locals:
                    return (b.id, t.attr), keys
                if b.id == 'cls' and f.cls or f.kind == 'classmethod' and b.id == f.me:
                    return (f.cls, t.attr), keys
                if b.id == f.me:
                    if (f.cls, t.attr) in self.level:
                        return (f.cls, t.attr), keys
                    return ('self', t.attr), keys
                if b.id in self.fnames and b.id not in f.locals:
                    return (b.id, t.attr), keys
                if b.id in self.mods and b.id not in f.locals:
                    return (b.id, t.attr), keys
            if isinstance(b, ast.Attribute) and b.attr == '__class__' or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'type':
                return (f.cls, t.attr), keys
        return None

    def returned(self, o, f):
        return any(isinstance(e, ast.AST) and any(isinstance(x, ast.Name) and x.id == f.node.name for x in ast.walk(e)) for e, c, n in o.rets if e is not None)


class Rules:
    def __init__(self):
        self.K = Pkg()
        self.out = []
        self.cov = dict(pyfuncs=len(self.K.funcs), pystate=0, pywrites=0)

    def rep(self, f, rule, what, node, msg):
        self.out.append(Finding('c08:%s:%s:%s' % (rule, f.name, what), 'graphillion/%s.py:%s' % (f.mod, getattr(node, 'lineno', f.node.lineno)), rule, msg))

    def setters(self):
        """functions that only establish a universe: named so, or called by those alone"""
        K = self.K
        s = {f for f in K.funcs if f.node.name.lstrip('_').startswith(('set_universe', 'set_vertex_universe', 'set_edge_universe'))}
        callers = {}
        for f in K.funcs:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call):
                    n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                    for g in K.byname.get(n, ()):
                        if g is not f:
                            callers.setdefault(g, set()).add(f)
        grow = True
        while grow:
            grow = False
            for g, cs in callers.items():
                if g not in s and g.node.name.startswith('_') and not g.node.name.startswith('__') and cs and cs <= s:
                    s.add(g)
                    grow = True
        return s

    def run(self):
        K = self.K
        S = self.setters()
        writes, state = {}, set()
        for f in K.funcs:
            for t, v, conds, node, how in f.writes:
                r = K.place(f, t)
                if r is None or how == '=' and isinstance(t, ast.Name) and t.id not in f.globals:
                    continue
                self.cov['pywrites'] += 1
                (own, name), keys = r
                if own == 'self':
                    own = 'self:%s' % f.cls
                elif f in S:
                    state.add((own, name))
                writes.setdefault((own, name), []).append((f, keys, v, conds, node, how))
        self.state = state
        self.cov['pystate'] = len(state)
        kept = {}
        for (own, name), ws in writes.items():
            q = [w for w in ws if w[0] not in S]
            if own.startswith('self:'):
                continue
            if not q or (own, name) in state and self.tables(own, name, q):
                continue
            if own in K.cnames and not any(self.isread(own, name, f) for f in K.funcs):
                continue
            kept[(own, name)] = (q, [w for w in ws if w[0] in S])
        self.memo = set(kept)
        for (own, name), (q, res) in sorted(kept.items()):
            self.kept(own, name, q, res, S)
        self.instances(writes)
        self.decorated()
        return self.out

    def tables(self, own, name, q):
        """storage of the universe: whether queries write it is C15's question"""
        return True

    def isread(self, own, name, f):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load) or isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                return True
        return False

    # -- dependence
    def reads(self, f, stack=()):
        """the universe state a function reads, directly or through the package or the native module"""
        K = self.K
        if f in K._reads:
            return K._reads[f]
        if f in stack:
            return set()
        r = set()
        for x in ast.walk(f.node):
            r |= self.reads1(f, x, stack + (f,))
        if not stack:
            K._reads[f] = r
        return r

    def reads1(self, f, x, stack=()):
        K = self.K
        r = set()
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            for own, n in self.state:
                if n == x.attr and isinstance(x.value, ast.Name) and (x.value.id == own or x.value.id in ('cls', 'self')):
                    r.add('%s.%s' % (own, n))
        if isinstance(x, ast.Name) and x.id in ('_graphillion', 'setset', 'setset_base') and isinstance(x.ctx, ast.Load):
            r.add('the native engine')
        if isinstance(x, ast.Call) and len(stack) < 12:
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
            if n not in GROW + DROP + PURE:
                for g in K.byname.get(n, ()):
                    r |= self.reads(g, stack)
        return r

    def deps(self, f, exprs, det, memo):
        """parameters and state a value depends on, stopping at names the key determines"""
        K = self.K
        out, seen = {}, set()

        def of(e):
            if e is None or not isinstance(e, ast.AST):
                return
            if ast.dump(e) in detx:
                return
            if isinstance(e, (ast.Attribute, ast.Name, ast.Subscript)):
                p = K.place(f, e)
                if p and p[0] in memo:
                    for k in p[1]:
                        of(k)
                    return
            if isinstance(e, ast.Name):
                var(e.id)
                return
            for s in self.reads1(f, e):
                out.setdefault(s, 'state')
            for c in ast.iter_child_nodes(e):
                if isinstance(c, (ast.expr_context, ast.operator, ast.cmpop)):
                    continue
                of(c)

        def var(n):
            if n in det or n in seen:
                return
            seen.add(n)
            if n in f.params:
                out.setdefault(n, 'param')
            for e, conds in f.defs.get(n, ()):
                of(e)
                for c in conds:
                    of(c)
            if n not in f.locals:
                o = f.outer
                while o is not None:
                    if n in o.params:
                        return
                    o = o.outer
                if (f.mod, n) in self.state:
                    out.setdefault(n, 'state')
        detx = {ast.dump(x) for x in det if isinstance(x, ast.AST)}
        det = {x for x in det if isinstance(x, str)}
        for e in exprs:
            of(e)
        return out

    def keydet(self, f, k, depth=0):
        """names a key determines"""
        out = set()
        if k is None or depth > 8:
            return out
        out.add(k)
        if isinstance(k, ast.Name):
            out.add(k.id)
            ds = f.defs.get(k.id, [])
            if len(ds) == 1 and k.id not in f.params:
                out |= self.keydet(f, ds[0][0], depth + 1)
        elif isinstance(k, (ast.Tuple, ast.List)):
            for x in k.elts:
                out |= self.keydet(f, x, depth + 1)
        elif isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id in ('tuple', 'frozenset', 'repr', 'str', 'list') and len(k.args) == 1:
            out |= self.keydet(f, k.args[0], depth + 1)
        elif isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr in ('items',):
            out |= self.keydet(f, k.func.value, depth + 1)
        elif isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == 'sorted' and len(k.args) == 1 and isinstance(k.args[0], ast.Call):
            out |= self.keydet(f, k.args[0], depth + 1)
        elif isinstance(k, ast.Starred):
            out |= self.keydet(f, k.value, depth + 1)
        return out

    def kept(self, own, name, q, res, S):
        K = self.K
        label = '%s.%s' % (own, name)
        # the universe is part of what the result depends on unless setting it drops the results
        resetters = {w[0] for w in res if w[5] in ('=', 'clear', 'del') and not w[1]}
        public = [f for f in S if not f.node.name.startswith('_') and f.cls]
        covered = bool(resetters) and all(self.reaches(f, resetters) for f in public)
        for f, keys, v, conds, node, how in q:
            if how in DROP or how == 'del' or how == '=' and not keys and v is not None and container(v) and not (getattr(v, 'elts', None) or getattr(v, 'keys', None) or getattr(v, 'generators', None)):
                continue
            key = list(keys)
            val = v
            if isinstance(v, ast.Call) and how in GROW:
                if how == 'setdefault' and len(v.args) == 2:
                    key.append(v.args[0])
                    val = v.args[1]
                elif how == 'add' and v.args:
                    key.append(v.args[0])
                    val = None
                elif how == 'insert' and len(v.args) == 2:
                    val = v.args[1]
                elif v.args:
                    val = v.args[0]
            det = set()
            for k in key:
                if k is not None:
                    det |= self.keydet(f, k)
                    for x in ast.walk(k):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('id', 'hash'):
                            self.rep(f, 'unpinned-key', name, node, 'a result is kept in %s under %s() of an object, which other objects share or take over' % (label, x.func.id))
            after = []
            for e, cds, rn in f.rets:
                if f.order[rn] < f.order[node]:
                    after += cds
            d = self.deps(f, [val] + list(conds) + (after if val is not None else []), det, self.memo)
            for n, kind in sorted(d.items()):
                if kind == 'state' and covered:
                    continue
                if kind == 'param' and n == f.me and f.kind == 'classmethod':
                    continue
                self.rep(f, 'key-misses', '%s:%s' % (name, n), node, 'a result kept in %s depends on %s, %s' % (
                    label, n, 'which the key it is filed under does not determine' if kind == 'param' else 'and is not dropped when the universe changes'))

    def reaches(self, f, targets, seen=None):
        seen = seen or set()
        if f in targets:
            return True
        seen.add(f)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                for g in self.K.byname.get(n, ()):
                    if g not in seen and self.reaches(g, targets, seen):
                        return True
        return False

    def instances(self, writes):
        """results kept in an object: dropped by everything that changes the object"""
        K = self.K
        attrs = {}
        for (own, name), ws in writes.items():
            if own.startswith('self:'):
                attrs.setdefault(own[5:], {})[name] = ws
        for cls, m in attrs.items():
            data = {n for n, ws in m.items() if any(w[0].node.name in ('__init__', '__new__', '__setstate__') for w in ws)}
            for name, ws in m.items():
                late = [w for w in ws if w[0].node.name not in ('__init__', '__new__', '__setstate__', '__setattr__') and w[2] is not None and not (
                    isinstance(w[2], ast.Constant) and w[2].value is None)]
                if not late or name == '_ss':
                    continue
                fs = [f for f in K.funcs if f.cls == cls]
                # only values computed in a query that hands something back
                late = [w for w in late if any(e is not None for e, c, n in w[0].rets) and not self.mutates(w[0], data - {name})]
                if not late:
                    continue
                for f, keys, v, conds, node, how in late:
                    det = set()
                    for k in keys:
                        if k is not None:
                            det |= self.keydet(f, k)
                    d = self.deps(f, [v] + list(conds), det | {f.me}, self.memo)
                    for n, kind in sorted(d.items()):
                        self.rep(f, 'key-misses', '%s:%s' % (name, n), node, 'a result kept in the object as %s depends on %s, which is not part of what it is filed under' % (name, n))
                wrote = {w[0] for w in ws}
                for f in fs:
                    if f in wrote or f.node.name in ('__init__', '__new__'):
                        continue
                    if self.mutates(f, data - {name}):
                        self.rep(f, 'kept-field', name, f.node, '%s changes the object without dropping the result kept as %s' % (f.name, name))

    def mutates(self, f, data):
        me = f.me
        if not me:
            return False

        def mine(e):
            return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me and (e.attr == '_ss' or e.attr in data)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS + GROW + DROP and mine(x.func.value):
                return True
            if isinstance(x, ast.AugAssign) and mine(x.target):
                return True
            if isinstance(x, (ast.Assign, ast.Delete)) and any(mine(t) or isinstance(t, ast.Subscript) and mine(t.value) for t in x.targets):
                return True
        return False

    def decorated(self):
        K = self.K
        for f in K.funcs:
            for d in f.decos:
                n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ''
                if n not in CACHERS or n in K.fnames:
                    continue
                r = self.reads(f)
                if f.me and f.kind != 'classmethod':
                    self.rep(f, 'cached', 'self', f.node, '%s is cached by object although its result depends on the contents of the object' % f.name)
                for s in sorted(r):
                    self.rep(f, 'cached', s, f.node, '%s is cached by its arguments although its result depends on %s' % (f.name, s))


def run():
    R = Rules()
    R.memo = set()
    fs = R.run()
    return fs, R.cov
