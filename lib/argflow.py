"""Which Python arguments may reach which variable of the native code, independent of the order of statements.

Every function of the module table is followed together with the library functions it calls, each call apart
from other calls of the same function.  A statement moves what its operands hold into what it assigns, fills or
calls a modifying method of; conditions move nothing.  What a specification, a range or a library routine is
built from is read off as {position: arguments}."""
from ccload import walk
from sym import PASS
import natsearch as N

STMT = {'CompoundStmt', 'IfStmt', 'WhileStmt', 'DoStmt', 'ForStmt', 'CXXForRangeStmt', 'SwitchStmt', 'CaseStmt', 'DefaultStmt', 'LabelStmt', 'CXXTryStmt', 'CXXCatchStmt'}
CALLS = {'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'}
MAXDEPTH = 9


def statements(n):
    if n is None:
        return
    if n['k'] in STMT:
        if n['k'] == 'CXXForRangeStmt':
            yield 'range', n
        for c in n.get('c') or []:
            if c is not None:
                yield from statements(c)
    elif n['k'] == 'DeclStmt':
        for v in n.get('c') or []:
            if v is not None and v.get('d') is not None:
                yield 'decl', v
    elif n['k'] == 'ReturnStmt':
        yield 'ret', n
    else:
        yield 'expr', n


def root(x):
    """the variable an lvalue expression is part of"""
    while x is not None and x['k'] in PASS | {'MemberExpr', 'ArraySubscriptExpr', 'UnaryOperator', 'CXXOperatorCallExpr', 'CXXMemberCallExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr'}:
        c = [y for y in x.get('c') or [] if y is not None]
        if x['k'] == 'CXXOperatorCallExpr':
            x = c[1] if len(c) > 1 else None
        else:
            x = c[0] if c else None
    return x['r'].get('d') if x is not None and x['k'] == 'DeclRefExpr' and x['r'].get('k') != 'func' else None


class Flow:
    def __init__(self, S, f, sig):
        self.S = S
        self.E = {}
        self.src = {}
        self.n = 0
        self.uses = []          # (kind, name, method, arguments' expressions, context, function, line)
        self.funcs = 0
        self.sig = sig
        self.enter(f, 0, [f])

    def leaves(self, node):
        seen, todo, out = set(), [node], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            out |= self.src.get(x, set())
            todo.extend(self.E.get(x, ()))
        return out

    def of(self, e, ctx):
        """arguments an expression may hold"""
        out = set()
        for x in self.ops(e, ctx):
            out |= self.leaves(x)
        return out

    def ops(self, e, ctx):
        """variables and call results an expression is made of"""
        out = set()

        def go(x):
            if x is None:
                return
            if x['k'] == 'DeclRefExpr':
                if x['r'].get('d') is not None and x['r'].get('k') != 'func':
                    out.add((ctx, x['r']['d']))
                return
            if x['k'] in CALLS and (ctx, 'call', x.get('i')) in self.E and x.get('i') is not None:
                out.add((ctx, 'call', x['i']))
                return
            if x['k'] == 'ConditionalOperator':
                for y in x['c'][1:]:
                    go(y)
                return
            for y in x.get('c') or []:
                go(y)
        go(e)
        return out

    def edge(self, d, src):
        self.E.setdefault(d, set()).update(src - {d})

    def enter(self, f, ctx, chain):
        self.funcs += 1
        for i in f.get('inits') or []:
            pass
        for kind, s in statements(f['body']):
            for x in walk(s):
                if x.get('k') in CALLS:
                    self.call(x, ctx, f, chain)
            if kind == 'range':
                src = set()
                for x in s['c'][:-1]:
                    if x is not None:
                        src |= self.ops(x, ctx)
                self.edge((ctx, s['var']), src)
                for x in src:
                    self.edge(x, {(ctx, s['var'])}) if self.nonconst(s) else None
            elif kind == 'decl':
                src = set()
                for x in s.get('c') or []:
                    if x is not None:
                        src |= self.ops(x, ctx)
                d = (ctx, s['d'])
                self.edge(d, src)
                ty = s.get('ty', '')
                if ('&' in ty or '*' in ty and 'object' not in ty.lower()) and not ty.startswith('const '):
                    r = root(s['c'][0]) if s.get('c') and s['c'][0] else None
                    if r is not None:
                        self.edge((ctx, r), {d})
                for x in s.get('c') or []:
                    if x is not None:
                        self.touch(x, ctx)
            elif kind == 'ret':
                for x in s.get('c') or []:
                    if x is not None:
                        self.edge((ctx, 'ret'), self.ops(x, ctx))
                        self.touch(x, ctx)
            else:
                self.touch(s, ctx)

    def nonconst(self, s):
        return False

    def touch(self, s, ctx):
        """assignments, outputs and modifying methods inside an expression"""
        for x in walk(s):
            k = x.get('k')
            c = x.get('c') or []
            if k == 'BinaryOperator' and x['op'] == '=' or k == 'CompoundAssignOperator':
                r = root(c[0])
                if r is not None:
                    self.edge((ctx, r), self.ops(c[1], ctx) | self.index(c[0], ctx))
                    ty = c[0].get('ty', '')
                    if '*' in ty and 'object' not in ty.lower() and not ty.startswith('const ') and root(c[1]) is not None and c[0]['k'] == 'DeclRefExpr':
                        self.edge((ctx, root(c[1])), {(ctx, r)})      # an alias from now on
            elif k == 'CXXOperatorCallExpr' and x.get('op') in ('=', '+=', '<<', '>>', '|=', '&=', '-='):
                if len(c) > 2:
                    r = root(c[1])
                    if r is not None:
                        self.edge((ctx, r), self.ops(c[2], ctx) | self.index(c[1], ctx))
            elif k in CALLS:
                if (ctx, 'call', x.get('i')) in self.E:
                    continue                     # followed into its body
                args = c if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') else c[1:]
                if k == 'CXXOperatorCallExpr' and x.get('cls') is not None:
                    args = args[1:]
                if k == 'CXXMemberCallExpr' and not x.get('mconst') and c:
                    r = root(c[0])
                    if r is not None:
                        src = set()
                        for a in args:
                            if a is not None:
                                src |= self.ops(a, ctx)
                        self.edge((ctx, r), src)
                for i, (t, a) in enumerate(zip(list(x.get('pt') or []) + ['...'] * 20, args)):
                    if a is None:
                        continue
                    out = '&' in t and not t.startswith('const ') and '&&' not in t
                    y = a
                    while y is not None and y['k'] in PASS:
                        y = (y.get('c') or [None])[0]
                    if y is not None and y['k'] == 'UnaryOperator' and y.get('op') == '&' and not t.startswith('const '):
                        out = True
                    if not out:
                        continue
                    r = root(y)
                    if r is None:
                        continue
                    src = set()
                    for j, b in enumerate(args):
                        if j != i and b is not None:
                            src |= self.ops(b, ctx)
                    if k == 'CXXMemberCallExpr':
                        src |= self.ops(c[0], ctx)
                    self.edge((ctx, r), src)

    def index(self, lhs, ctx):
        """m[key] = value also moves the key"""
        out = set()
        for x in walk(lhs):
            if x.get('k') == 'CXXOperatorCallExpr' and x.get('op') == '[]' and len(x['c']) > 2:
                out |= self.ops(x['c'][2], ctx)
        return out

    def call(self, x, ctx, f, chain):
        fn = x.get('fn') or ''
        c = x.get('c') or []
        k = x['k']
        ctor = k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')
        args = c if ctor else c[1:]
        if k == 'CXXOperatorCallExpr' and x.get('cls') is not None:
            args = args[1:]
        if fn.startswith('PyArg_Parse'):
            i = 4 if 'Keyw' in fn else 2
            for name, u, opt in self.sig:
                if u in ('O!', 'O&'):
                    i += 1
                r = root(args[i]) if i < len(args) else None
                if r is not None:
                    self.src.setdefault((ctx, r), set()).add(name)
                i += 1
            self.E.setdefault((ctx, 'call', x.get('i')), set())
            return
        if ctor:
            self.uses.append(('new', x.get('cls') or fn.rsplit('::', 1)[0], fn.split('::')[-1], args, ctx, f, x, None))
            return
        g = self.S.byname.get(x.get('mg'))
        if k == 'CXXMemberCallExpr':
            self.uses.append(('call', x.get('cls') or '', fn.split('::')[-1], args, ctx, f, x, root(c[0])))
        else:
            self.uses.append(('call', '', fn.split('::')[-1], args, ctx, f, x, None))
        if g is None or not self.S.inline(g, x) or len(chain) > MAXDEPTH or any(h is g for h in chain):
            return
        self.n += 1
        ctx2 = self.n
        node = (ctx, 'call', x.get('i'))
        self.E.setdefault(node, set()).add((ctx2, 'ret'))
        for p, a in zip(g['params'], args):
            if a is None:
                continue
            self.edge((ctx2, p['d']), self.ops(a, ctx))
            ty = p['ty']
            if ('&' in ty or '*' in ty) and not ty.startswith('const ') and 'object' not in ty.lower():
                r = root(a)
                if r is not None:
                    self.edge((ctx, r), {(ctx2, p['d'])})
        self.enter(g, ctx2, chain + [g])


def run(d, res):
    """{python name: Flow} for the results of natsearch.run"""
    return {n: Flow(r['S'], r['f'], r['sig'] or []) for n, r in res.items()}
