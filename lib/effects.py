"""Which families a C++ function may change: an interprocedural modification
analysis of the binding and the library (typed syntax trees).  The objects of
interest are families: graphillion::setset, its diagram handle, and the family
pointer of a Python object.  Pointers and references are followed flow-
insensitively to the parameters they may denote."""
from ccload import walk

CASTS = {'ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr',
         'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
         'ExprWithCleanups', 'ConstantExpr', 'CXXDynamicCastExpr'}
FAMILY = {'graphillion::setset', 'ZBDD', 'ZDD'}
HOLDER = ('PySetsetObject',)
# Python calls whose result is, or is part of, an argument
PART = ('PyTuple_GET_ITEM', 'PyTuple_GetItem', 'PyList_GET_ITEM', 'PyList_GetItem', 'PyDict_GetItem', 'PyDict_GetItemString',
        'PySequence_GetItem', 'PySequence_Fast', 'PyObject_GetIter', 'PyIter_Next', 'PyObject_GetItem', 'PyObject_GetAttrString',
        'PyObject_GetAttr', 'Py_NewRef', 'PySequence_Fast_GET_ITEM', 'PyWeakref_GetObject', '_PyObject_CAST', 'Py_XNewRef')
THIS = -1


def isfam(ty):
    t = (ty or '').replace('const ', '').replace('&', '').replace('*', '').strip()
    return t in FAMILY or t.split('::')[-1] in ('setset', 'ZBDD')


def famcls(c):
    return c in FAMILY or (c or '').split('::')[-1] in ('setset', 'ZBDD')


class Effects:
    def __init__(self, tus):
        self.f = {}
        for t in tus:
            for f in t['funcs']:
                if f.get('body') is not None and not f.get('dep'):
                    self.f.setdefault(f.get('mg') or f['name'], f)
        self.mods = {}      # mg -> {param index: (line, what, via)}
        self.rets = {}      # mg -> set of param indices the result may be (part of)
        self.outs = {}
        self.flow = {}
        self.share = {}
        self.nstores = 0
        self.solve()

    # -- where a pointer or reference may lead
    def prep(self, k, f):
        par = {p['d']: i for i, p in enumerate(f['params'])}
        asg = {}
        for n in list(walk(f['body'])) + [x for i in f.get('inits') or [] for x in walk(i.get('e') or {})]:
            if n['k'] == 'VarDecl':
                c = [x for x in n.get('c') or [] if x]
                if c and self.pointer(n.get('ty')):
                    asg.setdefault(n['d'], []).append(c[-1])
            elif n['k'] == 'BinaryOperator' and n.get('op') == '=':
                l = self.strip(n['c'][0])
                if l['k'] == 'DeclRefExpr' and self.pointer(l.get('ty')):
                    asg.setdefault(l['r'].get('d'), []).append(n['c'][1])
            elif n.get('fn') or n['k'] == 'CallExpr':
                a = self.args(n)
                for x in a:
                    s = self.strip(x)
                    if s['k'] == 'UnaryOperator' and s.get('op') == '&':
                        t = self.strip(s['c'][0])
                        if t['k'] == 'DeclRefExpr' and self.pointer(t.get('ty')):
                            asg.setdefault(t['r'].get('d'), []).extend(y for y in a if y is not x)
        return par, asg

    def pointer(self, ty):
        return bool(ty) and ('*' in ty or '&' in ty)

    def strip(self, e):
        while e['k'] in CASTS and e.get('c'):
            e = e['c'][0]
        return e

    def args(self, n):
        c = [x for x in n.get('c') or [] if x]
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNewExpr'):
            return c
        return c[1:]

    def root(self, e, ctx, seen=()):
        """parameters the object, pointer or reference e may lead to"""
        par, asg = ctx
        e = self.strip(e)
        k = e['k']
        if k == 'CXXThisExpr':
            return {THIS}
        if k == 'DeclRefExpr':
            d = e['r'].get('d')
            if d in par:
                return {par[d]}
            if d in seen or d not in asg:
                return set()
            out = set()
            for x in asg[d]:
                out |= self.root(x, ctx, seen + (d,))
            return out
        if k == 'ConditionalOperator':
            return self.root(e['c'][1], ctx, seen) | self.root(e['c'][2], ctx, seen)
        if k == 'BinaryOperator':
            if e.get('op') in ('+', '-'):
                return self.root(e['c'][0], ctx, seen) | self.root(e['c'][1], ctx, seen)
            return self.root(e['c'][1], ctx, seen) if e.get('op') in ('=', ',') else set()
        if k in ('MemberExpr', 'ArraySubscriptExpr', 'UnaryOperator'):
            c = [x for x in e.get('c') or [] if x]
            return self.root(c[0], ctx, seen) if c else {THIS}
        if k in ('CXXNewExpr',):
            return set()
        fn = e.get('fn')
        if fn or k == 'CallExpr':
            if not self.pointer(e.get('ty')) and not e.get('lv'):
                return set()
            a = self.args(e)
            out = set()
            g = e.get('mg')
            if fn in PART:
                for x in a:
                    out |= self.root(x, ctx, seen)
            elif g in self.f:
                for i in self.rets.get(g, ()):
                    x = self.argat(e, i)
                    if x is not None:
                        out |= self.root(x, ctx, seen)
            elif k == 'CXXOperatorCallExpr' and e.get('op') in ('[]', '*', '->') and a:
                out |= self.root(a[0], ctx, seen)
            elif fn in ('std::move', 'std::forward', 'std::addressof', 'std::as_const') and a:
                out |= self.root(a[0], ctx, seen)
            return out
        return set()

    def argat(self, e, i):
        """the argument bound to parameter i of the callee (THIS: the object)"""
        k = e['k']
        c = [x for x in e.get('c') or [] if x]
        member = e.get('cls') is not None and not e.get('mstatic') and k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr')
        if i == THIS:
            if k == 'CXXMemberCallExpr':
                m = self.strip(c[0])
                mc = [x for x in m.get('c') or [] if x]
                return mc[0] if m['k'] == 'MemberExpr' and mc else {'k': 'CXXThisExpr'}
            if k == 'CXXOperatorCallExpr' and member:
                return c[1]
            return None
        if k == 'CXXOperatorCallExpr' and member:
            i += 1
        a = self.args(e)
        return a[i] if i < len(a) else None

    # -- effects
    def solve(self):
        ctxs = {k: self.prep(k, f) for k, f in self.f.items()}
        self.ctxs = ctxs
        rel = {}
        for k, f in self.f.items():
            ns = []
            for n in walk(f['body']):
                if n['k'] in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'ReturnStmt', 'CXXDeleteExpr') or n.get('fn'):
                    ns.append(n)
            rel[k] = ns
        for k in self.f:
            self.mods[k], self.rets[k], self.share[k] = {}, set(), {}
        ch = True
        while ch:
            ch = False
            for k, f in self.f.items():
                if self.step(k, f, ctxs[k], rel[k]):
                    ch = True

    def note(self, k, roots, n, what, via=()):
        ch = False
        for r in roots:
            if r not in self.mods[k]:
                self.mods[k][r] = (n.get('l'), what, via)
                ch = True
        return ch

    def target(self, e):
        """is the assigned lvalue part of a family?"""
        e = self.strip(e)
        if isfam(e.get('ty')) and '*' not in (e.get('ty') or ''):
            return 'a family'
        if e['k'] == 'MemberExpr':
            if famcls(e.get('cls')):
                return 'a field of a family'
            if e.get('m') == 'ss' and e.get('cls') in HOLDER:
                return 'the family of an object'
        return None

    def step(self, k, f, ctx, ns):
        ch = False
        for n in ns:
            kk = n['k']
            if kk in ('BinaryOperator', 'CompoundAssignOperator') and n.get('op', '').endswith('=') and n.get('op') not in ('==', '!=', '<=', '>='):
                l = self.strip(n['c'][0])
                t = self.target(l)
                if t and not f.get('ctor'):
                    ch |= self.note(k, self.place(l, ctx), n, 'assigns ' + t)
                if l['k'] == 'MemberExpr' and l.get('m') == 'ss' and l.get('cls') in HOLDER:
                    self.nstores += 1
                    src, dst = self.root(n['c'][1], ctx), self.place(l, ctx)
                    if src - dst:
                        self.share[k].setdefault(n.get('l'), sorted(src - dst))
            elif kk == 'UnaryOperator' and n.get('op') in ('++', '--') and self.target(n['c'][0]):
                ch |= self.note(k, self.place(self.strip(n['c'][0]), ctx), n, 'changes ' + self.target(n['c'][0]))
            elif kk == 'CXXDeleteExpr':
                c = self.strip(n['c'][0])
                if isfam(c.get('ty')):
                    ch |= self.note(k, self.root(c, ctx), n, 'deletes a family')
            elif kk == 'ReturnStmt':
                c = [x for x in n.get('c') or [] if x]
                if c and self.pointer(f.get('ret')):
                    r = self.root(c[0], ctx)
                    if r - self.rets[k]:
                        self.rets[k] |= r
                        ch = True
            elif n.get('fn'):
                g = n.get('mg')
                if g in self.f:
                    for i, (l, what, via) in list(self.mods[g].items()):
                        x = self.argat(n, i)
                        if x is not None and len(via) < 6:
                            ch |= self.note(k, self.place(self.strip(x), ctx, True), n, what, (self.f[g]['name'],) + via)
                elif famcls(n.get('cls')) and not n.get('mconst') and not n.get('mstatic') and kk in ('CXXMemberCallExpr', 'CXXOperatorCallExpr') \
                        and n['fn'].split('::')[-1] not in ('operator==', 'operator!='):
                    x = self.argat(n, THIS)
                    if x is not None:
                        ch |= self.note(k, self.place(self.strip(x), ctx), n, 'calls ' + n['fn'])
                elif n['fn'] in ('std::swap', 'std::iter_swap', 'std::exchange'):
                    for x in self.args(n)[:2]:
                        if self.target(x):
                            ch |= self.note(k, self.place(self.strip(x), ctx), n, 'swaps a family')
        return ch

    def place(self, e, ctx, arg=False):
        """parameters whose object the lvalue e is inside of; an object variable
        of the function itself (or a parameter passed by value) is nobody's"""
        e = self.strip(e)
        x = e
        ptr = False
        while True:
            x = self.strip(x)
            k = x['k']
            c = [y for y in x.get('c') or [] if y]
            if k == 'MemberExpr' and c:
                ptr = ptr or bool(x.get('arrow'))
                x = c[0]
            elif k == 'UnaryOperator' and x.get('op') == '*' and c:
                ptr = True
                x = c[0]
            elif k == 'UnaryOperator' and x.get('op') == '&' and c:
                x = c[0]
            elif k == 'ArraySubscriptExpr' and c:
                ptr = True
                x = c[0]
            else:
                break
        if x['k'] == 'DeclRefExpr':
            ty = x.get('ty') or ''
            isptr = '*' in ty
            if not x['r'].get('isref') and not isptr and not ptr:
                return set()
        return self.root(e, ctx)
