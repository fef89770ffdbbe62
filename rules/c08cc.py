"""Results kept between calls: dependence analysis of every variable with static
storage in the library (typed syntax trees, interprocedural)."""
import ccload
from ccload import walk, rel, AnalysisBroken
from report import Finding

CAST = {'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr',
        'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr', 'SubstNonTypeTemplateParmExpr'}
CALLS = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr')
CONT = ('map', 'unordered_map', 'multimap', 'set', 'unordered_set', 'vector', 'deque', 'list', 'array', 'hash_map', 'MyHashMap', 'MyVector', 'multiset', 'MyHashTable')
# tables the interpreter reads; filled once, not results
TABLES = ('_typeobject', 'PyTypeObject', 'PyMethodDef', 'PyMemberDef', 'PyGetSetDef', 'PyNumberMethods', 'PySequenceMethods', 'PyModuleDef', 'PyMappingMethods')
ARITH = ('int', 'bool', 'unsigned', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'double', 'float', 'short', 'char', 'size_t', 'unsigned char', 'unsigned short')
PAIRS = ('make_pair', 'make_tuple', 'tie', 'pair', 'tuple', 'forward_as_tuple')
IDF = ('GetID',)
CACHE_LOOK = ('BDD_CacheZBDD', 'BDD_CacheBDD', 'BDD_CacheInt', 'bddrcache')
CACHE_ENT = ('BDD_CacheEnt', 'bddwcache')
LEVOF = ('BDD_LevOfVar', 'bddlevofvar', 'BDD_TopLev', 'Lev', 'BDD_TopLev')
VAROF = ('BDD_VarOfLev', 'bddvaroflev')
MAXSHIFT = 16


def base(n):
    return (n or '').split('<')[0].split('::')[-1]


def fname(x):
    n = x.get('fn') or ''
    i = n.rfind('::operator')
    if i >= 0:
        return n[i + 2:]
    d, out = 0, ''
    for c in reversed(n):          # the last component, template arguments left out
        if c == '>':
            d += 1
        elif c == '<':
            d -= 1
        elif d == 0:
            if c == ':':
                break
            out = c + out
    return out


def cls_of(ty):
    return (ty or '').replace('const ', '').replace('&', '').replace('*', '').strip()


def strip(n):
    while isinstance(n, dict):
        k = n.get('k')
        if k in CAST and n.get('c'):
            n = n['c'][-1]
        elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and n.get('c') and len([c for c in n['c'] if c and c.get('k') != 'CXXDefaultArgExpr']) == 1:
            a = strip(n['c'][0])
            t, u = cls_of(n.get('ty')), cls_of((a or {}).get('ty'))
            if a is not None and (t == u or t.startswith(('std::pair', 'std::tuple')) and u.startswith(('std::pair', 'std::tuple'))):
                n = a
            else:
                return n
        else:
            return n
    return n


def callee_args(n):
    """arguments of a call, the receiver first for members"""
    c = n.get('c') or []
    if n['k'] == 'CXXMemberCallExpr':
        m = c[0]
        while m is not None and m.get('k') in ('ParenExpr', 'ImplicitCastExpr'):
            m = m['c'][0]
        r = (m or {}).get('c') or [None]
        return [r[0]] + c[1:]
    return c[1:]


def ref(n):
    n = strip(n)
    if n is not None and n.get('k') == 'UnaryOperator' and n.get('op') in ('&', '*'):
        return ref(n['c'][0])
    if n is not None and n.get('k') == 'DeclRefExpr' and n['r'].get('k') in ('parm', 'var'):
        return n['r']
    return None


class Unit:
    """one translation unit"""

    def __init__(self, prog, src, tu):
        self.prog, self.src, self.tu = prog, src, tu
        self.globs = {g['d']: g for g in tu['globals']}
        self.funcs = [f for f in tu['funcs'] if f.get('body') and not f.get('dep')]
        self.fn = {}

    def func(self, f):
        i = id(f)
        if i not in self.fn:
            self.fn[i] = Fn(self, f)
        return self.fn[i]


class Fn:
    """definitions of the local variables of a function, with the conditions they stand under"""

    def __init__(self, unit, f):
        self.u, self.f = unit, f
        self.name = f['name']
        self.params = {p['d']: i for i, p in enumerate(f['params'])}
        self.defs, self.vars, self.order = {}, {}, {}
        self.conds = {}          # node id -> enclosing conditions
        self.rets = []
        self.stmts = []
        self.n = 0
        self.scan(f['body'], (), ())

    def add(self, r, e, conds, node, how='='):
        if r is not None and 'd' in r:
            self.defs.setdefault(r['d'], []).append((e, conds, node, how))

    def scan(self, n, conds, loops):
        if n is None or not isinstance(n, dict):
            return
        k = n.get('k')
        self.n += 1
        self.order[id(n)] = (self.n, loops)
        self.conds[id(n)] = conds
        c = n.get('c') or []
        if k == 'IfStmt' or k == 'SwitchStmt':
            pre = n.get('pre', 0)
            for x in c[:pre + 1]:
                self.scan(x, conds, loops)
            cc = conds + (c[pre],)
            for x in c[pre + 1:]:
                self.scan(x, cc, loops)
            return
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            lp = loops + (id(n),)
            cc = conds
            body = c
            if k == 'ForStmt':
                self.scan(c[0], conds, loops)
                cond = [x for x in c[1:-2] if x is not None]
                cc = conds + tuple(cond)
                for x in c[1:]:
                    self.scan(x, cc, lp)
                return
            if k == 'WhileStmt':
                cc = conds + tuple(x for x in c[:-1] if x is not None)
            if k == 'DoStmt':
                cc = conds + tuple(x for x in c[1:] if x is not None)
            for x in body:
                self.scan(x, cc, lp)
            if k == 'CXXForRangeStmt' and isinstance(n.get('var'), int):
                rng = next((x for x in walk(n) if x.get('k') == 'VarDecl' and str(x.get('n', '')).startswith('__range')), None)
                if rng is not None and rng.get('c'):
                    self.add({'d': n['var']}, rng['c'][0], conds, n)
            return
        if k == 'ConditionalOperator':
            self.scan(c[0], conds, loops)
            for x in c[1:]:
                self.scan(x, conds + (c[0],), loops)
            return
        if k == 'VarDecl':
            self.vars[n['d']] = n
            if c and c[0] is not None:
                self.add(n, c[0], conds, n)
        elif k in ('BinaryOperator', 'CompoundAssignOperator') and str(n.get('op', '')).endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            self.assign(c[0], c[1], conds, n, n['op'])
        elif k == 'UnaryOperator' and n.get('op') in ('++', '--'):
            self.assign(c[0], n, conds, n, '++')
        elif k == 'CXXOperatorCallExpr' and str(n.get('op', '')).endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            self.assign(c[1], c[2] if len(c) > 2 else n, conds, n, n['op'])
        elif k in CALLS:
            # arguments handed over to be changed
            g = self.u.prog.byname.get(n.get('mg'))
            args = callee_args(n)
            for i, a in enumerate(args):
                s = strip(a)
                r = ref(a)
                if r is None:
                    continue
                if k == 'CXXMemberCallExpr' and i == 0:
                    if not n.get('mconst') and not str(n.get('mg', '')).startswith('_ZNK'):
                        self.add(r, n, conds, n, 'call')
                    continue
                pt = self.ptype(n, g, i - (1 if k == 'CXXMemberCallExpr' else 0))
                if s is not None and s.get('k') == 'UnaryOperator' and s.get('op') == '&' or pt and ('&' in pt or '*' in pt) and 'const' not in pt and '&&' not in pt:
                    self.add(r, n, conds, n, 'call')
        if k == 'ReturnStmt':
            self.rets.append((c[0] if c else None, conds, n))
        for x in c:
            self.scan(x, conds, loops)

    def ptype(self, n, g, i):
        pt = n.get('pt')
        if isinstance(pt, list) and 0 <= i < len(pt):
            return pt[i]
        if g and 0 <= i < len(g['params']):
            return g['params'][i]['ty']
        return ''

    def assign(self, lhs, rhs, conds, node, how):
        l = strip(lhs)
        while l is not None and l.get('k') in ('MemberExpr', 'ArraySubscriptExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr', 'UnaryOperator'):
            if l['k'] == 'CXXOperatorCallExpr':
                l = strip(l['c'][1])
            elif l['k'] == 'CXXMemberCallExpr':
                l = strip(callee_args(l)[0])
            else:
                l = strip(l['c'][0])
            how = 'part'
        if l is not None and l.get('k') == 'DeclRefExpr':
            self.add(l['r'], rhs, conds, node, how)
            if how == 'part':       # the subscript selects what is changed
                self.add(l['r'], lhs, conds, node, how)


class Prog:
    def __init__(self, tus):
        self.units = [Unit(self, s, t) for s, t in tus.items()]
        self.byname, self.home = {}, {}
        for u in self.units:
            for f in u.funcs:
                m = f.get('mg') or f['name']
                if m not in self.byname or 'CompoundStmt' == f['body'].get('k') and not self.byname[m].get('body'):
                    self.byname[m] = f
                    self.home[m] = u
        self.sum = {}
        self.findings = []
        self.cov = dict(persistent=0, stores=0, lookups=0, keys=0, pins=0, functions=0, engine=0, fields=0)

    def rep(self, f, rule, what, line, msg):
        path = rel(f['file']) if 'file' in f else '?'
        self.findings.append(Finding('c08:%s:%s:%s' % (rule, f['name'] if 'name' in f else f['n'], what), '%s:%s' % (path, line), rule, msg))


def engine(f):
    return '/SAPPOROBDD/' in f['file'] or f['file'].startswith('SAPPOROBDD')


def library(f):
    p = f['file']
    return '/src/graphillion/' in p or p.endswith('pygraphillion.cc') or '/src/subsetting/' in p


class Deps:
    """what an expression depends on, stopping at what a key determines"""

    def __init__(self, P, fn, det=(), detexpr=(), memo=()):
        self.P, self.fn = P, fn
        self.det, self.detexpr, self.memo = set(det), set(detexpr), set(memo)
        self.seen = set()
        self.out = {}

    def of(self, n, why=''):
        if n is None or not isinstance(n, dict):
            return
        k = n.get('k')
        if k in ('UnaryExprOrTypeTraitExpr', 'CXXDefaultArgExpr') and k[0] == 'U':
            return
        if self.detexpr and canon(self.fn, n) in self.detexpr:
            return
        if k == 'DeclRefExpr':
            self.var(n['r'])
            return
        if k == 'CXXThisExpr':
            self.out.setdefault(('this', 'this'), why)
            return
        if k in CALLS:
            g = self.P.byname.get(n.get('mg'))
            if g is not None and not engine(g) and library(g):
                for x in retstate(self.P, n['mg']):
                    if x not in self.memo:
                        self.out.setdefault(('state', x), 'through %s' % n.get('fn'))
        for c in n.get('c') or []:
            self.of(c, why)

    def var(self, r):
        if r.get('k') not in ('parm', 'var'):
            return
        d = r['d']
        if d in self.det or d in self.seen:
            return
        self.seen.add(d)
        fn = self.fn
        if r.get('k') == 'parm' and d in fn.params:
            self.out.setdefault(('param', r['n']), '')
        elif r.get('s') in ('global', 'static_local'):
            nm = gname(fn, r)
            if nm not in self.memo and self.P.mutable(fn.u, d):
                self.out.setdefault(('state', nm), '')
            if nm not in self.memo or not self.P.mutable(fn.u, d):
                return
            return
        for e, conds, node, how in fn.defs.get(d, ()):
            if how != '++':
                self.of(e)
            for c in conds:
                self.of(c)


def gname(fn, r):
    if r.get('s') == 'static_local':
        return '%s::%s' % (fn.name, r['n'])
    return r['n']


def retstate(P, m, stack=()):
    """the mutable state the value of a function depends on"""
    if m in P.sum:
        return P.sum[m]
    if m in stack:
        return set()
    f = P.byname.get(m)
    if f is None:
        return set()
    P.sum[m] = set()
    for _ in range(2):
        fn = P.home[m].func(f)
        D = Deps(P, fn, memo=P.memo)
        for e, conds, node in fn.rets:
            D.of(e)
            for c in conds:
                D.of(c)
        # and what it hands back through references
        for d, i in fn.params.items():
            ty = f['params'][i]['ty'] or ''
            if ('&' in ty or '*' in ty) and not ty.startswith('const'):
                for e, conds, node, how in fn.defs.get(d, ()):
                    D.of(e)
                    for c in conds:
                        D.of(c)
        P.sum[m] = {x[1] for x in D.out if x[0] == 'state'}
    return P.sum[m]


def canon(fn, n, env=None, depth=0):
    """an expression as text, copies and casts removed, locals that are set once expanded"""
    n = strip(n)
    if n is None:
        return '?'
    k = n.get('k')
    if 'cv' in n and k != 'DeclRefExpr':
        return str(n['cv'])
    if k == 'DeclRefExpr':
        d = n['r'].get('d')
        if env and d in env:
            e, efn, eenv = env[d]
            return canon(efn, e, eenv, depth + 1)
        ds = fn.defs.get(d, ())
        if n['r'].get('s') == 'local' and len(ds) == 1 and ds[0][3] == '=' and ds[0][2].get('k') == 'VarDecl' and depth < 8 and not fn.order.get(id(ds[0][2]), (0, ()))[1]:
            return canon(fn, ds[0][0], env, depth + 1)
        return '%s#%s' % (n['r'].get('n'), d)
    if k in CALLS:
        nm = fname(n)
        g = fn.u.prog.byname.get(n.get('mg'))
        one = single(fn.u.prog, g) if g is not None and depth < 8 else None
        args = callee_args(n)
        if one is not None and k == 'CallExpr':
            gf, e = one
            return canon(gf, e, {p['d']: (a, fn, env) for p, a in zip(g['params'], args)}, depth + 1)
        return '%s(%s)' % (nm, ','.join(canon(fn, a, env, depth) for a in args if a is not None and a.get('k') != 'CXXDefaultArgExpr'))
    if k == 'CXXThisExpr':
        return 'this'
    if k == 'MemberExpr':
        return '%s.%s' % (canon(fn, n['c'][0], env, depth) if n.get('c') else '', n.get('m'))
    lab = str(n.get('op') or n.get('v') or n.get('fn') or k)
    return '%s[%s]' % (lab, ','.join(canon(fn, c, env, depth) for c in n.get('c') or []))


def single(P, g):
    """(function, expression) when it only returns an expression"""
    if g is None or engine(g):
        return None
    st = [s for s in g['body'].get('c') or [] if s is not None and s.get('k') != 'NullStmt']
    fn = P.home[g.get('mg') or g['name']].func(g)
    if st and st[-1].get('k') == 'ReturnStmt' and st[-1].get('c') and all(s.get('k') == 'DeclStmt' for s in st[:-1]) and not any(
            x.get('k') in CALLS and x.get('mg') == g.get('mg') for x in walk(g['body'])):
        if any(len(v) > 1 for d, v in fn.defs.items()):
            return None
        return fn, st[-1]['c'][0]
    return None


class Key:
    """what a key determines: variables, expressions, and the handles whose ids it holds"""

    def __init__(self, fn, n):
        self.fn = fn
        self.det, self.exprs, self.ids, self.levels = set(), set(), [], []
        self.walk(n, fn, None)

    def walk(self, n, fn, env, depth=0):
        if depth > 20:
            return
        raw = n
        n = strip(n)
        if n is None:
            return
        k = n.get('k')
        self.exprs.add(canon(fn, n, env))
        if k == 'DeclRefExpr':
            d = n['r'].get('d')
            if env and d in env:
                e, efn, eenv = env[d]
                return self.walk(e, efn, eenv, depth + 1)
            if fn is self.fn:
                self.det.add(d)
            ds = fn.defs.get(d, ())
            if n['r'].get('s') == 'local' and len(ds) == 1 and ds[0][3] == '=':
                self.walk(ds[0][0], fn, env, depth + 1)
            return
        if k in CALLS or k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
            nm = fname(n) if k in CALLS else base(cls_of(n.get('ty')))
            args = callee_args(n) if k in CALLS else (n.get('c') or [])
            args = [a for a in args if a is not None and a.get('k') != 'CXXDefaultArgExpr']
            g = fn.u.prog.byname.get(n.get('mg')) if k == 'CallExpr' else None
            one = single(fn.u.prog, g)
            if nm in IDF and len(args) == 1:
                self.ids.append((canon(fn, args[0], env), args[0], fn))
                return self.walk(args[0], fn, env, depth + 1)
            if one is not None:
                gf, e = one
                return self.walk(e, gf, {p['d']: (a, fn, env) for p, a in zip(g['params'], args)}, depth + 1)
            if nm in PAIRS or k == 'InitListExpr' or nm in ('pair', 'tuple') or k != 'CallExpr' and k not in CALLS and len(args) == 1:
                for a in args:
                    self.walk(a, fn, env, depth + 1)
                return
            if nm in VAROF and len(args) == 1:
                return self.walk(args[0], fn, env, depth + 1)
            return
        if k == 'BinaryOperator':
            a, b = strip(n['c'][0]), strip(n['c'][1])
            op = n.get('op')
            if op in ('+', '|', '^'):
                for x, y in ((a, b), (b, a)):
                    if x is not None and x.get('k') == 'BinaryOperator' and x.get('op') in ('<<', '*') and 'cv' in (strip(x['c'][1]) or {}):
                        c = int(strip(x['c'][1])['cv'])
                        if x['op'] == '<<' and c >= MAXSHIFT or x['op'] == '*' and c >= 1 << MAXSHIFT:
                            self.walk(x['c'][0], fn, env, depth + 1)
                            self.walk(y, fn, env, depth + 1)
                            return
            for x, y in ((a, b), (b, a)):
                if 'cv' in (y or {}) and op in ('+', '-', '^', '<<'):
                    self.walk(x, fn, env, depth + 1)
                    return
            return
        if k == 'UnaryOperator' and n.get('op') in ('-', '~', '+', '*', '&'):
            return self.walk(n['c'][0], fn, env, depth + 1)
        if k == 'MemberExpr' and n.get('c'):
            return


def terminal(text):
    return text in ('ZBDD(0)', 'ZBDD(1)', '0', '1') or text.startswith('ZBDD::ZBDD[') and text[11:-1] in ('0', '1', '0,', '1,') or text in ('bot()', 'top()')


def components(fn, n, env=None, depth=0):
    """the parts of a value put together as pairs, tuples or lists (as text)"""
    n = strip(n)
    out = {canon(fn, n, env)}
    if n is None or depth > 8:
        return out
    k = n.get('k')
    if k == 'DeclRefExpr':
        ds = fn.defs.get(n['r'].get('d'), ())
        if n['r'].get('s') == 'local':
            for e, c, node, how in ds:
                if how in ('=', 'part') and len(ds) <= 4:
                    out |= components(fn, e, env, depth + 1)
    if k in CALLS and fname(n) in PAIRS:
        for a in callee_args(n):
            if a is not None:
                out |= components(fn, a, env, depth + 1)
    elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
        for a in n.get('c') or []:
            if a is not None and a.get('k') != 'CXXDefaultArgExpr':
                out |= components(fn, a, env, depth + 1)
    elif k in CALLS:
        g = fn.u.prog.byname.get(n.get('mg'))
        one = single(fn.u.prog, g)
        if one is not None and k == 'CallExpr':
            out |= components(one[0], one[1], {p['d']: (a, fn, env) for p, a in zip(g['params'], callee_args(n))}, depth + 1)
    return out


# ---- levels of variables -------------------------------------------------
def intty(t):
    return cls_of(t) in ARITH or cls_of(t) in ('bddvar', 'elem_t', 'graphillion::elem_t', 'bddword')


class Levels:
    """which integer variables hold levels (positions), which are renumbered when the universe grows"""

    def __init__(self, P):
        self.P = P
        self.lev = set()         # (function, d)
        grow = True
        todo = []
        for u in P.units:
            for f in u.funcs:
                if (library(f) or f['file'].endswith(('ZBDD.cc', 'BDD.cc', 'CtoI.cc', 'PiDD.cc'))) and '/subsetting/' not in f['file']:
                    todo.append((u.func(f), list(walk(f['body']))))
        while grow:
            n0 = len(self.lev)
            for fn, nodes in todo:
                for x in nodes:
                    k = x.get('k')
                    if k in CALLS:
                        nm = fname(x)
                        args = callee_args(x)
                        g = P.byname.get(x.get('mg'))
                        if nm in VAROF and args:
                            self.mark(fn, args[0])
                        elif g is not None and k == 'CallExpr':
                            gi = g.get('mg') or g['name']
                            for p, a in zip(g['params'], args):
                                if (gi, p['n']) in self.lev:
                                    self.mark(fn, a)
                    elif k == 'BinaryOperator' and x.get('op') in ('==', '!=', '<', '<=', '>', '>='):
                        a, b = x['c']
                        if self.islev(fn, a):
                            self.mark(fn, b)
                        if self.islev(fn, b):
                            self.mark(fn, a)
                for d, ds in fn.defs.items():
                    for e, c, node, how in ds:
                        if how == '=' and self.islev(fn, e) and intty((fn.vars.get(d) or {}).get('ty') or 'int'):
                            self.lev.add(self.vkey(fn, d))
            grow = len(self.lev) != n0

    def key(self, fn):
        return fn.f.get('mg') or fn.name

    def vkey(self, fn, d):
        if d in fn.params:
            return (self.key(fn), fn.f['params'][fn.params[d]]['n'])
        return (self.key(fn), id(fn.u), d)

    def mark(self, fn, n):
        n = strip(n)
        if n is None:
            return
        if n.get('k') == 'BinaryOperator' and n.get('op') in ('+', '-') and 'cv' in (strip(n['c'][1]) or {}):
            return self.mark(fn, n['c'][0])
        if n.get('k') == 'DeclRefExpr' and n['r'].get('k') in ('parm', 'var') and n['r'].get('s') not in ('global', 'static_local') and intty(n.get('ty')):
            self.lev.add(self.vkey(fn, n['r']['d']))

    def islev(self, fn, n):
        n = strip(n)
        if n is None:
            return False
        if n.get('k') == 'BinaryOperator' and n.get('op') in ('+', '-'):
            a, b = strip(n['c'][0]), strip(n['c'][1])
            return 'cv' in (b or {}) and self.islev(fn, a)
        if n.get('k') == 'DeclRefExpr':
            return self.vkey(fn, n['r'].get('d')) in self.lev
        return n.get('k') in CALLS and fname(n) in LEVOF

    def raw(self, fn, n, env=None, depth=0):
        """a level used as such in an expression"""
        n = strip(n)
        if n is None or depth > 25:
            return None
        k = n.get('k')
        if k in CALLS:
            if fname(n) in VAROF:
                return None
            if fname(n) in LEVOF:
                return canon(fn, n, env)
            g = self.P.byname.get(n.get('mg'))
            one = single(self.P, g)
            if one is not None and k == 'CallExpr':
                return self.raw(one[0], one[1], {p['d']: (a, fn, env) for p, a in zip(g['params'], callee_args(n))}, depth + 1)
        if k == 'DeclRefExpr':
            d = n['r'].get('d')
            if env and d in env:
                e, efn, eenv = env[d]
                return self.raw(efn, e, eenv, depth + 1)
            ds = fn.defs.get(d, ())
            if n['r'].get('s') == 'local' and len(ds) == 1 and ds[0][3] == '=':
                return self.raw(fn, ds[0][0], env, depth + 1)
            if self.vkey(fn, d) in self.lev:
                return n['r']['n']
            return None
        for c in n.get('c') or []:
            r = self.raw(fn, c, env, depth + 1)
            if r:
                return r
        return None


# ---- accesses of a container ---------------------------------------------
LOOK = ('find', 'at', 'count', 'contains', 'lower_bound', 'upper_bound', 'equal_range', 'get', 'back', 'front', 'top')
STORE = ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'push_back', 'emplace_back', 'add', 'push', 'emplace_hint')
CLEAR = ('clear', 'erase', 'swap', 'resize', 'assign', 'pop_back', 'pop', 'shrink_to_fit')
NEUTRAL = ('end', 'size', 'empty', 'cend', 'reserve', 'max_size', 'capacity', 'rend', 'data')


def parents(body):
    p = {}
    for x in walk(body):
        for c in x.get('c') or []:
            if isinstance(c, dict):
                p[id(c)] = x
    return p


def up(par, x):
    """the nearest user of a value, casts skipped"""
    p = par.get(id(x))
    while p is not None and (p['k'] in CAST or p['k'] in ('CXXConstructExpr',) and len(p.get('c') or []) == 1 and cls_of(p.get('ty')) == cls_of(x.get('ty'))):
        x, p = p, par.get(id(p))
    return x, p


class Access:
    def __init__(self, kind, key, val, node, fn, conds, parts=()):
        self.kind, self.key, self.val, self.node, self.fn, self.conds = kind, key, val, node, fn, conds
        self.parts = list(parts)


class Memo:
    """every use of one persistent container"""

    def __init__(self, P, u, g, name):
        self.P, self.u, self.g, self.name = P, u, g, name
        self.acc, self.escapes, self.done = [], [], set()
        for f in u.funcs:
            self.visit(u.func(f), {g['d']})

    def visit(self, fn, ds):
        k = (id(fn), frozenset(ds))
        if k in self.done:
            return
        self.done.add(k)
        body = fn.f['body']
        nodes = list(walk(body))
        hits = [x for x in nodes if x.get('k') == 'DeclRefExpr' and x['r'].get('d') in ds and x['r'].get('k') in ('parm', 'var')]
        if not hits:
            return
        par = parents(body)
        slots = {}
        ds = set(ds)
        for x in hits:
            self.use(fn, par, x, ds, slots)
        # writes through iterators and references to an entry
        for d, key in slots.items():
            for x in nodes:
                if x.get('k') == 'DeclRefExpr' and x['r'].get('d') == d:
                    self.slot(fn, par, x, key)
        new = {d for d in ds} - set(k[1])
        if new:
            self.visit(fn, new)

    def conds(self, fn, n):
        return fn.conds.get(id(n), ())

    def use(self, fn, par, x, ds, slots):
        top, p = up(par, x)
        if p is None:
            return
        k = p['k']
        if k == 'UnaryOperator' and p.get('op') in ('&', '*'):
            return self.use(fn, par, p, ds, slots)
        if k == 'MemberExpr':
            q = par.get(id(p))
            while q is not None and q['k'] in CAST:
                q = par.get(id(q))
            if q is not None and q['k'] == 'CXXMemberCallExpr' and strip(q['c'][0]) is strip(p):
                m = p.get('m')
                args = [a for a in q['c'][1:] if a is not None and a.get('k') != 'CXXDefaultArgExpr']
                return self.method(fn, par, q, m, args, slots)
            return self.member(fn, par, p, slots)
        if k == 'CXXOperatorCallExpr':
            c = p['c']
            if p.get('op') == '[]' and strip(c[1]) is strip(top):
                return self.entry(fn, par, p, c[2], slots)
            if p.get('op') == '=' and strip(c[1]) is strip(top):
                self.acc.append(Access('clear', None, None, p, fn, self.conds(fn, p)))
                return
            if p.get('op') in ('->', '*'):
                return self.use(fn, par, p, ds, slots)
            self.acc.append(Access('neutral', None, None, p, fn, ()))
            return
        if k == 'ArraySubscriptExpr' and strip(p['c'][0]) is strip(top):
            return self.entry(fn, par, p, p['c'][1], slots)
        if k == 'VarDecl':
            if p.get('isref') or '*' in (p.get('ty') or '') or '&' in (p.get('tyw') or ''):
                ds.add(p['d'])
            return
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr'):
            g = self.P.byname.get(p.get('mg'))
            args = p.get('c') or []
            if k != 'CXXConstructExpr':
                args = args[1:]
            if g is not None:
                for a, q in zip(args, g['params']):
                    if a is not None and strip(a) is strip(top) or a is not None and any(y is x for y in walk(a)):
                        self.visit(self.P.home[g.get('mg') or g['name']].func(g), {q['d']})
                        return
            if fname(p) in ('swap',):
                self.acc.append(Access('clear', None, None, p, fn, self.conds(fn, p)))
                return
            self.escapes.append((fn, p))
            return
        if k == 'CXXForRangeStmt' or k == 'DeclStmt':
            self.acc.append(Access('iterate', None, None, p, fn, ()))

    def method(self, fn, par, q, m, args, slots):
        cd = self.conds(fn, q)
        if m in LOOK:
            self.acc.append(Access('look', args[0] if args else None, None, q, fn, cd))
            self.bind(fn, par, q, args[0] if args else None, slots)
        elif m in STORE:
            key = val = None
            if m in ('emplace', 'try_emplace', 'insert_or_assign') and len(args) == 2:
                key, val = args
            elif m == 'insert' and len(args) == 1 and cls_of(self.g['ty']).find('set<') < 0:
                a = strip(args[0])
                while a is not None and a.get('k') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr') and len(a.get('c') or []) == 1:
                    a = strip(a['c'][0])
                aa = callee_args(a) if a is not None and a['k'] in CALLS else (a or {}).get('c') or []
                aa = [y for y in aa if y is not None]
                if len(aa) == 2:
                    key, val = aa
                else:
                    val = args[0]
            elif m in ('insert', 'emplace') and args:
                key = val = args[-1]
            elif args:
                val = args[-1]
            self.acc.append(Access('store', key, val, q, fn, cd))
            self.bind(fn, par, q, key, slots)
        elif m in CLEAR:
            self.acc.append(Access('clear', None, None, q, fn, cd))
        elif m in NEUTRAL:
            pass
        elif m and m.startswith('operator'):
            pass
        elif m in ('begin', 'cbegin', 'rbegin', 'crbegin'):
            self.acc.append(Access('iterate', None, None, q, fn, cd))
        else:
            self.escapes.append((fn, q))

    def bind(self, fn, par, q, key, slots):
        top, p = up(par, q)
        while p is not None and p['k'] in ('MemberExpr',):
            top, p = up(par, p)
        if p is not None and p['k'] == 'VarDecl':
            slots[p['d']] = key
        elif p is not None and p['k'] in ('CXXOperatorCallExpr',) and p.get('op') == '=':
            r = ref(p['c'][1])
            if r:
                slots[r['d']] = key
        # cache.find(k)->second = v
        self.slot(fn, par, q, key)

    def entry(self, fn, par, p, key, slots):
        cd = self.conds(fn, p)
        x = p
        part = False
        while True:
            top, q = up(par, x)
            if q is None:
                break
            if q['k'] == 'MemberExpr' and strip(q['c'][0]) is strip(top):
                qq = par.get(id(q))
                if qq is not None and qq['k'] == 'CXXMemberCallExpr' and qq['c'][0] is q:
                    self.acc.append(Access('look' if str(qq.get('mg', '')).startswith('_ZNK') else 'store', key, qq, qq, fn, cd))
                    return
                x = q
                part = True
                continue
            if q['k'] == 'UnaryOperator' and q.get('op') in ('&', '*'):
                x = q
                continue
            if q['k'] in ('BinaryOperator', 'CompoundAssignOperator') and str(q.get('op', '')).endswith('=') and q['op'] not in ('==', '!=', '<=', '>=') and strip(q['c'][0]) is strip(top):
                self.acc.append(Access('store', key, q['c'][1], q, fn, self.conds(fn, q)))
                return
            if q['k'] == 'CXXOperatorCallExpr' and str(q.get('op', '')).endswith('=') and q['op'] not in ('==', '!=', '<=', '>=') and strip(q['c'][1]) is strip(top):
                self.acc.append(Access('store', key, q['c'][2], q, fn, self.conds(fn, q)))
                return
            if q['k'] == 'VarDecl' and (q.get('isref') or '*' in (q.get('ty') or '')):
                slots[q['d']] = key
            break
        self.acc.append(Access('look', key, None, p, fn, cd))

    def slot(self, fn, par, x, key):
        """an assignment below a reference to an entry"""
        y = x
        while True:
            top, q = up(par, y)
            if q is None:
                return
            if q['k'] == 'MemberExpr' or q['k'] == 'UnaryOperator' and q.get('op') == '*' or q['k'] == 'CXXOperatorCallExpr' and q.get('op') in ('->', '*') and strip(q['c'][1]) is strip(top):
                y = q
                continue
            if q['k'] in ('BinaryOperator', 'CompoundAssignOperator') and str(q.get('op', '')).endswith('=') and q['op'] not in ('==', '!=', '<=', '>=') and strip(q['c'][0]) is strip(top):
                if y is x and x.get('k') == 'DeclRefExpr' and not (x['r'].get('isref')):
                    return          # the iterator itself
                self.acc.append(Access('store', key, q['c'][1], q, fn, self.conds(fn, q)))
                return
            if q['k'] == 'CXXOperatorCallExpr' and q.get('op') == '=' and strip(q['c'][1]) is strip(top):
                if y is x and x.get('k') == 'DeclRefExpr' and not (x['r'].get('isref')):
                    return
                self.acc.append(Access('store', key, q['c'][2], q, fn, self.conds(fn, q)))
                return
            return


def member(self, fn, par, p, slots):
    self.escapes.append((fn, p))


Memo.member = member


def iscont(ty):
    t = cls_of(ty)
    return base(t) in CONT or t.startswith('std::') and base(t) in CONT


# ---- rules ---------------------------------------------------------------
class Rules:
    def __init__(self, P):
        self.P = P
        self.L = Levels(P)

    def owner(self, u, g):
        for f in u.funcs:
            fn = u.func(f)
            if g['d'] in fn.vars:
                return fn
        return None

    def run(self):
        P = self.P
        pers = []
        for u in P.units:
            for g in u.tu['globals']:
                p = g['file']
                if not (('/src/graphillion/' in p or p.endswith('pygraphillion.cc') or '/src/subsetting/' in p)) or 'MessageHandler' in g['n']:
                    continue
                own = self.owner(u, g) if g.get('static_local') else None
                if g.get('static_local') and own is None:
                    continue
                pers.append((u, g, own))
        P.memo = set()
        for u, g, own in pers:
            if iscont(g['ty']) and P.mutable(u, g['d']):
                P.memo.add('%s::%s' % (own.name, g['n']) if own else g['n'])
        done = set()
        groups = {}
        for u, g, own in pers:
            key = (g['file'], g['line'], g['n'])
            if key in done:
                continue
            done.add(key)
            P.cov['persistent'] += 1
            t = cls_of(g['ty'])
            self.init(u, g, own)
            if any(x in t for x in TABLES) or not P.mutable(u, g['d']):
                continue
            if t.startswith('char'):
                continue
            if iscont(t):
                self.container(u, g, own)
            else:
                groups.setdefault((id(u), id(own) if own else None), []).append((u, g, own))
        for (ku, ko), gs in groups.items():
            self.scalars(gs)
        self.fields()
        self.engine()
        P.cov['functions'] = sum(1 for u in P.units for f in u.funcs if library(f))

    def init(self, u, g, own):
        if not g.get('init'):
            return
        fn = own
        if fn is None:
            fn = Fn(u, dict(name=g['n'], file=g['file'], line=g['line'], params=[], body=g['init']))
        D = Deps(self.P, fn, memo=self.P.memo)
        D.of(g['init'])
        for (k, n) in sorted(D.out):
            if not own and k == 'param':
                continue
            f = dict(name=own.name if own else g['n'], file=g['file'])
            self.P.rep(f, 'frozen-input', '%s:%s' % (g['n'], n), g['line'],
                       '%s is computed once, from %s of the first call or the state at that time, and kept for all later calls' % (g['n'], n))

    def container(self, u, g, own):
        P = self.P
        name = '%s::%s' % (own.name, g['n']) if own else g['n']
        M = Memo(P, u, g, name)
        fdict = dict(name=own.name if own else g['n'], file=g['file'])
        for fn, n in M.escapes:
            P.rep(fdict, 'escapes', '%s:%s' % (g['n'], fn.name), n.get('l') or g['line'], 'the kept results in %s are handed to code that is not followed' % name)
        stores = [a for a in M.acc if a.kind == 'store']
        looks = [a for a in M.acc if a.kind == 'look']
        byfn = {}
        for a in M.acc:
            byfn.setdefault(id(a.fn), []).append(a)
        # a buffer that is emptied before it is used carries nothing over
        def scratch(accs):
            fn = accs[0].fn
            live = [a for a in accs if a.kind in ('store', 'look', 'iterate', 'clear')]
            live.sort(key=lambda a: fn.order.get(id(a.node), (0,))[0])
            return live and live[0].kind == 'clear' and not live[0].conds and not fn.order[id(live[0].node)][1]
        if own and len(byfn) == 1 and scratch(M.acc):
            return
        for a in M.acc:
            if a.kind == 'iterate' and looks + stores:
                P.rep(fdict, 'history', g['n'], a.node.get('l') or g['line'], 'results kept by earlier calls are enumerated in %s' % a.fn.name)
        if not looks:
            return          # only keeps things alive
        pins = {}
        for a in list(stores):
            self.lift(M, a, stores)
        stores = [a for a in stores if a.kind == 'store']
        fns = {}
        keep = self.keepers(u)
        for a in stores:
            P.cov['stores'] += 1
            fns.setdefault(a.fn.name, a)
            self.store(M, g, name, a, stores, looks, keep)
        for a in looks:
            P.cov['lookups'] += 1
            if a.key is not None:
                self.levelkey(a.fn, a.key, g['n'], a.node)
            mine = [s for s in stores if s.fn is a.fn and s.key is not None]
            if not mine or a.key is None:
                continue
            ck = canon(a.fn, a.key)
            same = [s for s in mine if canon(a.fn, s.key) == ck]
            if same:
                for s in same:
                    self.changed(M, g, name, a, s)
                continue
            ka = Key(a.fn, a.key)
            for s in mine:
                ks = Key(s.fn, s.key)
                if self.sig(ck) == self.sig(canon(s.fn, s.key)) and ka.det == ks.det or ka.det and not (ka.det - ks.det) and ka.det != ks.det or ka.det == ks.det and ka.det:
                    P.rep(dict(name=a.fn.name, file=a.fn.f['file']), 'key-differs', g['n'], a.node.get('l') or g['line'],
                          'a result kept in %s is looked up under %s and filed under %s' % (name, ck, canon(s.fn, s.key)))
                    break
        if len(fns) > 1:
            ks = {}
            for n, a in fns.items():
                ks.setdefault(canon(a.fn, a.key) if a.key is not None else '', []).append(n)
            tags = [self.tag(a) for a in fns.values()]
            if len(set(tags)) < len(tags):
                P.rep(fdict, 'shared', g['n'], g['line'], 'results of different computations (%s) are kept in %s under keys that do not tell them apart' % (', '.join(sorted(fns)), name))

    def tag(self, a):
        s = strip(a.key)
        consts = []
        for x in walk(s or {}):
            if x.get('k') in ('IntegerLiteral', 'StringLiteral', 'CharacterLiteral'):
                consts.append(str(x.get('cv', x.get('v', x.get('s')))))
            if x.get('k') == 'DeclRefExpr' and x['r'].get('k') == 'enum':
                consts.append(x['r']['n'])
        return tuple(consts)

    def sig(self, t):
        return ''.join(sorted(t))

    def lift(self, M, a, stores):
        """a helper that files what its caller computed: judged at the calls"""
        fn = a.fn
        r = ref(a.val) if a.val is not None else None
        if r is None or r.get('k') != 'parm' or (fn.f['ret'] or '') != 'void':
            return
        kp = Key(fn, a.key) if a.key is not None else None
        m = fn.f.get('mg') or fn.name
        calls = 0
        for u in self.P.units:
            if u is not fn.u:
                continue
            for f in u.funcs:
                cf = u.func(f)
                for x in walk(f['body']):
                    if x.get('k') in CALLS and x.get('mg') == m:
                        args = callee_args(x)
                        if x['k'] == 'CXXMemberCallExpr':
                            args = args[1:]
                        env = {p['d']: q for p, q in zip(fn.f['params'], args)}
                        kk = ref(a.key) if a.key is not None else None
                        key = env.get(kk['d']) if kk and kk['d'] in env else None
                        b = Access('store', key if key is not None else subst(a.key, env), env.get(r['d']), x, cf, cf.conds.get(id(x), ()))
                        stores.append(b)
                        calls += 1
        if calls:
            a.kind = 'lifted'

    def keepers(self, u):
        """what is put into containers that live as long as the process and are never emptied"""
        out = {}
        for g in u.tu['globals']:
            if not iscont(g['ty']):
                continue
            M = Memo(self.P, u, g, g['n'])
            if any(a.kind == 'clear' for a in M.acc):
                continue
            for a in M.acc:
                if a.kind == 'store' and a.val is not None:
                    out.setdefault(id(a.fn), {}).setdefault(g['d'], set()).update(components(a.fn, a.val))
        return out

    def store(self, M, g, name, a, stores, looks, keep):
        P, fn = self.P, a.fn
        f = dict(name=fn.name, file=fn.f['file'])
        line = a.node.get('l') or g['line']
        K = Key(fn, a.key) if a.key is not None else None
        if K is not None:
            P.cov['keys'] += 1
            self.levelkey(fn, a.key, g['n'], a.node)
        # handles behind ids stay alive with the entry
        if K is not None:
            held = set()
            for s in stores:
                if s.fn is fn and s.val is not None and (s is a or s.key is not None and canon(fn, s.key) == canon(fn, a.key)):
                    held |= components(fn, s.val)
            for dd, texts in (keep.get(id(fn)) or {}).items():
                if dd != g['d']:
                    held |= texts
            for text, e, kfn in K.ids:
                P.cov['pins'] += 1
                if terminal(text):
                    continue
                if text not in held and text not in K.handles(fn):
                    P.rep(f, 'unpinned-key', '%s:%s' % (g['n'], text.split('#')[0]), line,
                          'a result is kept in %s under the id of %s without keeping %s: after a garbage collection the id can name another family' % (name, text.split('#')[0], text.split('#')[0]))
        D = Deps(P, fn, det=K.det if K else (), detexpr=K.exprs if K else (), memo=P.memo)
        if a.val is not None:
            D.of(a.val)
        for c in a.conds:
            D.of(c)
        first = [x for x in looks if x.fn is fn]
        if first:
            lo = min(fn.order.get(id(x.node), (0,))[0] for x in first)
            for e, conds, node in fn.rets:
                if lo < fn.order[id(node)][0] < fn.order[id(a.node)][0]:
                    for c in conds:
                        D.of(c)
        for (k, n), why in sorted(D.out.items()):
            P.rep(f, 'key-misses', '%s:%s' % (g['n'], n), line,
                  'a result kept in %s depends on %s %s%s, which the key it is filed under does not determine' % (name, {'param': 'the argument', 'state': 'the state', 'this': 'the object'}[k], n, ' (%s)' % why if why else ''))

    def changed(self, M, g, name, look, st):
        fn = look.fn
        a, b = fn.order.get(id(look.node), (0, ())), fn.order.get(id(st.node), (0, ()))
        K = Key(fn, st.key)
        for d in K.det:
            for e, c, node, how in fn.defs.get(d, ()):
                o = fn.order.get(id(node), (0, ()))
                if a[0] < o[0] < b[0] and how != 'call':
                    nm = next((p['n'] for p in fn.f['params'] if p['d'] == d), (fn.vars.get(d) or {}).get('n'))
                    self.P.rep(dict(name=fn.name, file=fn.f['file']), 'key-changes', '%s:%s' % (g['n'], nm), node.get('l') or g['line'],
                               '%s, which the key of %s is made from, changes between the lookup and the store' % (nm, name))

    def levelkey(self, fn, key, what, node):
        r = self.L.raw(fn, key)
        if r:
            self.P.rep(dict(name=fn.name, file=fn.f['file']), 'level-key', '%s:%s' % (what, r.split('#')[0]), node.get('l') or fn.f['line'],
                       'a result is filed under the level %s; levels are renumbered when the universe grows' % r.split('#')[0])

    def scalars(self, gs):
        P = self.P
        u, _, own = gs[0]
        if own is None:
            for u, g, _ in gs:
                wr = [u.func(f) for f in u.funcs if g['d'] in u.func(f).defs]
                t = cls_of(g['ty'])
                if t in ARITH or t in ('elem_t', 'graphillion::elem_t'):
                    bad = [w for w in wr if (w.f['ret'] or '') != 'void' and not self.selfcontained(w, [x[1]['d'] for x in gs])]
                else:
                    bad = wr
                for w in bad:
                    self.entry(w, [x[1] for x in gs if x[1]['d'] in w.defs])
            return
        self.entry(own, [g for _, g, _ in gs])

    def selfcontained(self, fn, ds):
        for d in ds:
            for e, conds, node, how in fn.defs.get(d, ()):
                D = Deps(self.P, fn, det=ds, memo=self.P.memo)
                D.of(e)
                for c in conds:
                    D.of(c)
                if D.out:
                    return False
        return True

    def entry(self, fn, gs):
        """one kept result with its key in variables of their own"""
        P = self.P
        ds = [g['d'] for g in gs]
        if self.selfcontained(fn, ds):
            return
        det, exprs, keys = set(ds), set(), set()
        ids = []
        held = set()
        for x in walk(fn.f['body']):
            if x.get('k') == 'BinaryOperator' and x.get('op') in ('==', '!=') or x.get('k') == 'CXXOperatorCallExpr' and x.get('op') in ('==', '!='):
                c = x['c'][-2:]
                for a, b in ((c[0], c[1]), (c[1], c[0])):
                    r = ref(a)
                    if r and r.get('d') in ds:
                        for e, cd, node, how in fn.defs.get(r['d'], ()):
                            if node.get('k') != 'VarDecl' and canon(fn, e) == canon(fn, b):
                                K = Key(fn, b)
                                det |= K.det
                                exprs |= K.exprs
                                ids += K.ids
                                keys.add(r['d'])
        for d in ds:
            for e, cd, node, how in fn.defs.get(d, ()):
                if node.get('k') != 'VarDecl':
                    held |= components(fn, e)
        for text, e, kfn in ids:
            if not terminal(text) and text not in held:
                P.rep(dict(name=fn.name, file=fn.f['file']), 'unpinned-key', text.split('#')[0], fn.f['line'],
                      'a result is kept under the id of %s without keeping it' % text.split('#')[0])
        for g in gs:
            if g['d'] in keys:
                continue
            D = Deps(P, fn, det=det, detexpr=exprs, memo=P.memo)
            for e, cd, node, how in fn.defs.get(g['d'], ()):
                if node.get('k') == 'VarDecl':
                    continue
                D.of(e)
                for c in cd:
                    D.of(c)
            for (k, n), why in sorted(D.out.items()):
                P.rep(dict(name=fn.name, file=fn.f['file']), 'history', '%s:%s' % (g['n'], n), g['line'],
                      '%s keeps a value that depends on %s for later calls, and nothing ties it to that input' % (g['n'], n))

    def fields(self):
        """results kept inside a family object"""
        P = self.P
        seen = set()
        for u in P.units:
            for r in u.tu['records']:
                if not ('/src/graphillion/' in r['file'] or r['file'].endswith('pygraphillion.cc')) or r['n'] in seen:
                    continue
                seen.add(r['n'])
                kept = [x for x in r['fields'] if x.get('mut')]
                if r['n'].split('::')[-1] == 'PySetsetObject':
                    kept = [x for x in r['fields'] if x['n'] not in ('ob_base', 'ss')]
                P.cov['fields'] += len(r['fields'])
                if not kept:
                    continue
                names = {x['n'] for x in kept}
                core = {x['n'] for x in r['fields']} - names
                cn = r['n'].split('::')[-1]
                for v in P.units:
                    for f in v.funcs:
                        if not library(f):
                            continue
                        fn = v.func(f)
                        wrote, changed, line = set(), False, f['line']
                        for x in walk(f['body']):
                            if x.get('k') == 'MemberExpr' and (x.get('cls') or '').split('::')[-1] == cn:
                                w = self.written(fn, x, f)
                                if w and x['m'] in names:
                                    wrote.add(x['m'])
                                elif w and x['m'] in core:
                                    changed = True
                                    line = x.get('l') or line
                        if changed and f['name'].split('::')[-1] not in (cn, '~' + cn):
                            for n in sorted(names - wrote):
                                P.rep(dict(name=f['name'], file=f['file']), 'kept-field', '%s.%s' % (cn, n), line,
                                      'changes the family of a %s without dropping the result kept in %s' % (cn, n))

    def written(self, fn, x, f):
        par = fn.__dict__.get('par')
        if par is None:
            par = fn.par = parents(f['body'])
        y = x
        while True:
            top, q = up(par, y)
            if q is None:
                return False
            k = q['k']
            if k in ('BinaryOperator', 'CompoundAssignOperator') and str(q.get('op', '')).endswith('=') and q['op'] not in ('==', '!=', '<=', '>='):
                return strip(q['c'][0]) is strip(top)
            if k == 'CXXOperatorCallExpr' and str(q.get('op', '')).endswith('=') and q['op'] not in ('==', '!=', '<=', '>='):
                return strip(q['c'][1]) is strip(top)
            if k == 'UnaryOperator' and q.get('op') in ('++', '--'):
                return True
            if k == 'MemberExpr':
                qq = par.get(id(q))
                while qq is not None and qq['k'] in CAST:
                    qq = par.get(id(qq))
                if qq is not None and qq['k'] == 'CXXMemberCallExpr' and strip(qq['c'][0]) is strip(q):
                    return not str(qq.get('mg', '')).startswith('_ZNK')
                y = q
                continue
            if k == 'UnaryOperator' and q.get('op') == '*':
                y = q
                continue
            return False

    def engine(self):
        P = self.P
        for u in P.units:
            for f in u.funcs:
                if f['name'].split('::')[-1] in CACHE_LOOK + CACHE_ENT or f['file'].endswith('bddc.cc'):
                    continue
                calls = [x for x in walk(f['body']) if x.get('k') == 'CallExpr' and fname(x) in CACHE_LOOK + CACHE_ENT]
                if not calls:
                    continue
                fn = u.func(f)
                for x in calls:
                    P.cov['engine'] += 1
                    args = callee_args(x)
                    for a in args[1:3]:
                        self.levelkey(fn, a, 'cache', x)
                    if fname(x) in CACHE_ENT and len(args) > 3:
                        ks = [Key(fn, a) for a in args[1:3]]
                        D = Deps(P, fn, det=ks[0].det | ks[1].det, detexpr=ks[0].exprs | ks[1].exprs, memo=P.memo)
                        D.of(args[3])
                        for (k, n), why in sorted(D.out.items()):
                            if k == 'state' and library(f):
                                P.rep(dict(name=f['name'], file=f['file']), 'key-misses', 'cache:%s' % n, x.get('l') or f['line'],
                                      'a result kept in the operation cache depends on the state %s%s, which its key does not determine' % (n, ' (%s)' % why if why else ''))


def handles(self, fn):
    return set()


Key.handles = handles


def subst(n, env):
    if not isinstance(n, dict):
        return n
    if n.get('k') == 'DeclRefExpr' and n['r'].get('d') in env:
        return env[n['r']['d']]
    m = dict(n)
    if n.get('c'):
        m['c'] = [subst(c, env) for c in n['c']]
    return m


def mutable(self, u, d):
    k = (id(u), d)
    if k not in self.mut:
        w = False
        for f in u.funcs:
            fn = u.func(f)
            for e, c, node, how in fn.defs.get(d, ()):
                if node.get('k') != 'VarDecl' or node.get('d') != d:
                    w = True
        self.mut[k] = w
    return self.mut[k]


Prog.mutable = mutable


def run():
    tus = ccload.load()
    P = Prog(tus)
    P.mut, P.memo = {}, set()
    Rules(P).run()
    return P
