"""Value-numbering evaluator of C++ function bodies (typed syntax tree of
engine/extract.cc).  Every path of a function is followed with symbolic terms
for values; a condition the path has not settled forks it, a loop is replaced by
its arbitrary iteration: everything it may assign is forgotten, the body is
followed once.  No solver is involved; terms are compared for equality only.

Terms are tuples:
  ('c', n) integer constant          ('s', text) string literal
  ('p', name) parameter              ('this',)
  ('g', name[, epoch]) global        ('fld', base, field, epoch)
  ('bin', op, a, b) ('un', op, a)    ('call', name, args..., [serial])
  ('any', n) unknown                 ('adr', place)  ('obj', class, ...)
Places: ('V', (frame, decl, field...)) a variable, ('M', base term, field),
('G', name)."""
from ccload import AnalysisBroken, walk

PASS = {'ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr',
        'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
        'ExprWithCleanups', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr',
        'CXXDefaultInitExpr', 'CXXStdInitializerListExpr', 'CXXDynamicCastExpr'}
NEGREL = {'!=': '=='}
C0, C1 = ('c', 0), ('c', 1)


class St:
    __slots__ = ('env', 'mem', 'ep', 'facts', 'ev', 'x')

    def __init__(self):
        self.env, self.mem, self.ep, self.facts, self.ev, self.x = {}, {}, {}, {}, (), {}

    def copy(self):
        s = St.__new__(St)
        s.env, s.mem, s.ep, s.facts, s.ev, s.x = dict(self.env), dict(self.mem), dict(self.ep), dict(self.facts), self.ev, dict(self.x)
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.ep.items()),
                frozenset(self.facts.items()), self.ev, frozenset(self.x.items()))


class Out:
    def __init__(self):
        self.n, self.brk, self.cont, self.ret, self.thr, self.goto = [], [], [], [], [], []

    def add(self, o, n=True, loop=True):
        if n:
            self.n += o.n
        if loop:
            self.brk += o.brk
            self.cont += o.cont
        self.ret += o.ret
        self.thr += o.thr
        self.goto += o.goto


def uniq(sts):
    d = {}
    for s in sts:
        d.setdefault(s.key(), s)
    return list(d.values())


def uniqv(vs):
    d = {}
    for v, s in vs:
        d.setdefault((v, s.key()), (v, s))
    return list(d.values())


def cint(t):
    return t[1] if t[0] == 'c' else None


FOLD = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
        '<<': lambda a, b: a << b if 0 <= b < 64 else None, '>>': lambda a, b: a >> b if 0 <= b < 64 else None,
        '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
        '==': lambda a, b: int(a == b), '<': lambda a, b: int(a < b), '<=': lambda a, b: int(a <= b),
        '/': lambda a, b: a // b if b > 0 and a >= 0 else None, '%': lambda a, b: a % b if b > 0 and a >= 0 else None}
COMM = {'+', '*', '&', '|', '^', '=='}


def mk(op, a, b):
    if op == '!=':
        return neg(mk('==', a, b))
    if op == '>':
        return mk('<', b, a)
    if op == '>=':
        return neg(mk('<', a, b))
    if op == '<=':
        return neg(mk('<', b, a))
    x, y = cint(a), cint(b)
    if x is not None and y is not None and op in FOLD:
        r = FOLD[op](x, y)
        if r is not None:
            return ('c', r)
    if op == '==' and a == b and 'any' not in str(a[0]):
        return C1
    if op in ('+', '-', '|', '^', '<<', '>>') and y == 0:
        return a
    if op in ('+', '|', '^') and x == 0:
        return b
    if op == '-' and y is not None:
        return mk('+', a, ('c', -y))
    if op == '+' and a[0] == 'bin' and a[1] == '+' and y is not None and cint(a[3]) is not None:
        return mk('+', a[2], ('c', cint(a[3]) + y))
    if op in COMM and (x is not None or (y is None and repr(b) < repr(a))):
        a, b = b, a
    return ('bin', op, a, b)


def neg(t):
    if t[0] == 'c':
        return ('c', int(not t[1]))
    if t[0] == 'un' and t[1] == '!':
        return t[2]
    return ('un', '!', t)


class Sym:
    MAXST = 4000
    MAXDEPTH = 40
    ITE = False

    def __init__(self, tus):
        self.byname, self.records, self.globs = {}, {}, {}
        for t in tus:
            for f in t['funcs']:
                if f.get('body') is not None and not f.get('dep'):
                    self.byname.setdefault(f.get('mg') or f['name'], f)
            for r in t['records']:
                self.records.setdefault(r['n'], r)
            for g in t['globals']:
                self.globs.setdefault(g['n'], g)
        self.serial = 0
        self.stack = []
        self.thr = []
        self.tryd = 0
        self.inlined = set()
        self.nstates = 0
        self.constmemo = {}

    # -- to be overridden --------------------------------------------------------------------
    def on_call(self, e, fn, this, args, st, places):
        """[(value, state)] or None for the default treatment.  this/args are
        terms, places the place each argument (0: this) denotes, or None."""
        return None

    def on_construct(self, e, cls, args, st, places):
        return None

    def inline(self, f, e):
        return False

    def pure(self, e, fn):
        return bool(e.get('mconst') or e.get('mstatic'))

    def on_return(self, f, v, st):
        pass

    def on_store(self, place, v, e, st):
        pass

    def on_cond(self, t, e, st):
        pass

    def prune(self, n, sts):
        """states after a statement; an override may forget what does not matter"""
        return sts

    # -- helpers -------------------------------------------------------------------------------
    @property
    def fr(self):
        return len(self.stack)

    def any(self, tag=''):
        self.serial += 1
        return ('any', self.serial, tag)

    def stable_any(self, e, st, tag=''):
        """unknown value named after its site and how often the path was there"""
        k = ('n', e.get('i'), self.stack[-1].get('mg'), self.fr)
        n = st.x.get(k, 0)
        st.x[k] = n + 1
        return ('any', (self.stack[-1].get('mg'), e.get('i'), self.fr, n), tag)

    def load(self, place, st):
        if place[0] == 'V':
            k = place[1]
            if k in st.env:
                v = st.env[k]
                if v[0] == 'ref':
                    return self.load(v[1], st)
                return v
            if len(k) > 2:
                base = self.load(('V', k[:-1]), st) if k[:-1] in st.env else None
                if base is not None:
                    return self.field(base, k[-1], st)
                return ('fld', ('var',) + k[:-1], k[-1], 0)
            return ('var',) + k
        if place[0] == 'M':
            if (place[1], place[2]) in st.mem:
                return st.mem[(place[1], place[2])]
            return self.field(place[1], place[2], st)
        if place[0] == 'G':
            if ('G', place[1]) in st.mem:
                return st.mem[('G', place[1])]
            g = self.globs.get(place[1])
            if g and g.get('const') and g.get('init'):
                for x in walk(g['init']):
                    if 'cv' in x:
                        return ('c', int(x['cv']))
                    break
            return ('g', place[1], st.ep.get(place[1], 0) + st.ep.get('*', 0))
        return self.any()

    def field(self, base, f, st):
        if base[0] == 'rec':
            for k, v in base[2]:
                if k == f:
                    return v
        return ('fld', base, f, st.ep.get(f, 0) + st.ep.get('*', 0))

    def store(self, place, v, st, e=None):
        self.on_store(place, v, e, st)
        if place[0] == 'V':
            k = place[1]
            if k in st.env and st.env[k][0] == 'ref':
                return self.store(st.env[k][1], v, st, e)
            for q in [q for q in st.env if len(q) > len(k) and q[:len(k)] == k]:
                del st.env[q]
            st.env[k] = v
        elif place[0] == 'M':
            f = place[2]
            for q in [q for q in st.mem if q[1] == f and q[0] != place[1] and q[0] != 'G' and not self.noalias(q[0], place[1])]:
                del st.mem[q]
            st.ep[f] = st.ep.get(f, 0) + 1
            st.mem[(place[1], f)] = v
        elif place[0] == 'G':
            st.mem[('G', place[1])] = v
            st.ep[place[1]] = st.ep.get(place[1], 0) + 1

    def noalias(self, a, b):
        return False

    def clobber(self, st):
        """anything reachable from elsewhere may have changed"""
        st.mem = {}
        st.ep['*'] = st.ep.get('*', 0) + 1

    def value(self, v, st):
        """rvalue of an evaluated expression"""
        if v[0] == 'lv':
            return self.load(v[1], st)
        return v

    def fact(self, st, t):
        """truth of a term on this path, or None"""
        if t[0] == 'c':
            return t[1] != 0
        if t[0] in ('adr', 's', 'new'):
            return True
        if t[0] == 'un' and t[1] == '!':
            r = self.fact(st, t[2])
            return None if r is None else not r
        if t in st.facts:
            return st.facts[t]
        if t[0] == 'bin' and t[1] == '==':
            a, b = t[2], t[3]
            if a[0] in ('adr', 'new', 's') and b == C0 or b[0] in ('adr', 'new', 's') and a == C0:
                return False
            if b[0] == 'c':
                for u, r in st.facts.items():
                    if r and u[0] == 'bin' and u[1] == '==' and u[2] == a and u[3][0] == 'c':
                        return u[3][1] == b[1]
                if b[1] == 0 and a in st.facts:
                    return not st.facts[a]
        if t[0] == 'bin' and t[1] == '<':
            r = st.facts.get(('bin', '<', t[3], t[2]))
            if r is True:
                return False
            eq = mk('==', t[2], t[3])
            if st.facts.get(eq) is True:
                return False
        return None

    def assume(self, st, t, b):
        while t[0] == 'un' and t[1] == '!':
            t, b = t[2], not b
        if t[0] == 'bin' and t[1] == '==' and t[3] == C0:
            st.facts[t] = b
            return self.assume(st, t[2], not b) if t[2][0] in ('bin', 'un', 'call') else None
        st.facts[t] = b

    def truth(self, e, st):
        """[(bool, state)]"""
        k = e['k']
        if k in PASS and e.get('c'):
            return self.truth(e['c'][0], st)
        if k == 'UnaryOperator' and e['op'] == '!':
            return [(not b, s) for b, s in self.truth(e['c'][0], st)]
        if k == 'BinaryOperator' and e['op'] in ('&&', '||'):
            out = []
            for b, s in self.truth(e['c'][0], st):
                if b == (e['op'] == '||'):
                    out.append((b, s))
                else:
                    out += self.truth(e['c'][1], s)
            return out
        out = []
        for v, s in self.rv(e, st):
            out += self.split(v, e, s)
        return out

    def split(self, v, e, s):
        self.on_cond(v, e, s)
        r = self.fact(s, v)
        if r is not None:
            return [(r, s)]
        f = s.copy()
        self.assume(s, v, True)
        self.assume(f, v, False)
        return [(True, s), (False, f)]

    # -- expressions ---------------------------------------------------------------------------
    def rv(self, e, st):
        return [(self.value(v, s), s) for v, s in self.ev(e, st)]

    def rvs(self, es, st):
        out = [((), st)]
        for e in es:
            nxt = []
            for vs, s in out:
                if e is None:
                    nxt.append((vs + (self.any(),), s))
                else:
                    for v, s2 in self.ev(e, s):
                        nxt.append((vs + (v,), s2))
            out = nxt
        return out

    def ev(self, e, st):
        """[(value or ('lv', place), state)]"""
        if 'cv' in e and not e.get('lv') and e['k'] not in ('CallExpr', 'CXXMemberCallExpr'):
            return [(('c', int(e['cv'])), st)]
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(e, st)
        if k in PASS:
            if e.get('ck') == 'LValueToRValue':
                return self.rv(e['c'][0], st)
            if e.get('ck') in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
                return self.ev(e['c'][0], st)
            if e.get('ck') == 'ArrayToPointerDecay':
                out = []
                for v, s in self.ev(e['c'][0], st):
                    out.append((('adr', v[1]) if v[0] == 'lv' else v, s))
                return out
            if e.get('ck') == 'IntegralCast' or e.get('ck') in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToIntegral', 'IntegralToFloating', 'FloatingCast'):
                return [(self.convert(self.value(v, s), e, s), s) for v, s in self.ev(e['c'][0], st)]
            if e.get('ck') == 'NullToPointer':
                return [(C0, st)]
            c = [x for x in e.get('c') or [] if x]
            if not c:
                return [(self.stable_any(e, st), st)]
            return self.ev(c[0], st)
        kids = [x for x in e.get('c') or [] if isinstance(x, dict) and x.get('k')]
        out = []
        for vs, s in self.rvs(kids, st):
            out.append((self.stable_any(e, s, k), s))
        return out

    def convert(self, v, e, st):
        return v

    def e_IntegerLiteral(self, e, st):
        return [(('c', int(e['v'])), st)]

    def e_CharacterLiteral(self, e, st):
        return [(('c', int(e['v'])), st)]

    def e_CXXBoolLiteralExpr(self, e, st):
        return [(('c', int(bool(e['v']))), st)]

    def e_GNUNullExpr(self, e, st):
        return [(C0, st)]

    e_CXXNullPtrLiteralExpr = e_GNUNullExpr

    def e_StringLiteral(self, e, st):
        return [(('s', e.get('v', '')), st)]

    def e_FloatingLiteral(self, e, st):
        return [(('f', e.get('v')), st)]

    def e_CXXThisExpr(self, e, st):
        return [(st.env.get((self.fr, 'this'), ('this',)), st)]

    def e_DeclRefExpr(self, e, st):
        r = e['r']
        if r.get('k') == 'enum':
            return [(('c', int(r['v'])), st)]
        if r.get('k') == 'func':
            return [(('func', r['n'], r.get('mg')), st)]
        if r.get('s') in ('global', 'static_local') or (r.get('k') not in ('var', 'parm', 'ParmVar', 'Var') and r.get('k') != 'Binding'):
            return [(('lv', ('G', r['n'])), st)]
        k = (self.fr, r['d'])
        v = st.env.get(k)
        if v is not None and v[0] == 'ref':
            return [(('lv', v[1]), st)]
        return [(('lv', ('V', k)), st)]

    def e_MemberExpr(self, e, st):
        out = []
        m = e['m']
        if e['r'].get('k') == 'func':
            return self.ev(e['c'][0], st) if e.get('c') else [(self.any(), st)]
        if not e.get('c'):
            return [(('lv', ('G', e['r']['n'])), st)]
        for v, s in (self.rv(e['c'][0], st) if e.get('arrow') else self.ev(e['c'][0], st)):
            if v[0] == 'adr' and e.get('arrow'):
                v = ('lv', v[1])
                out.append((self.sub(v[1], m), s))
            elif v[0] == 'lv':
                out.append((self.sub(v[1], m), s))
            else:
                out.append((('lv', ('M', v, m)), s))
        return out

    def sub(self, place, m):
        if place[0] == 'V':
            return ('lv', ('V', place[1] + (m,)))
        if place[0] == 'M':
            return ('lv', ('M', ('at', place[1], place[2]), m))
        return ('lv', ('M', ('at', place), m))

    def e_ArraySubscriptExpr(self, e, st):
        out = []
        for vs, s in self.rvs(e['c'], st):
            a, b = self.value(vs[0], s), self.value(vs[1], s)
            out.append((('lv', ('M', mk('+', a, b) if False else a, ('[]', b))), s))
        return out

    def e_UnaryOperator(self, e, st):
        op, c = e['op'], e['c'][0]
        if op == '!':
            return [(neg(self.value(v, s)), s) for v, s in self.ev(c, st)]
        out = []
        for v, s in self.ev(c, st):
            if op == '&':
                out.append((('adr', v[1]) if v[0] == 'lv' else v, s))
            elif op == '*':
                v = self.value(v, s)
                if v[0] == 'adr':
                    out.append((('lv', v[1]), s))
                elif v[0] == 'func':
                    out.append((v, s))
                else:
                    out.append((('lv', ('M', v, '*')), s))
            elif op in ('++', '--'):
                old = self.value(v, s)
                new = mk('+', old, ('c', 1 if op == '++' else -1))
                if v[0] == 'lv':
                    self.store(v[1], new, s, e)
                out.append((old if e.get('post') else (v if v[0] == 'lv' else new), s))
            elif op == '-':
                v = self.value(v, s)
                out.append((('c', -v[1]) if v[0] == 'c' else ('un', '-', v), s))
            elif op == '+':
                out.append((self.value(v, s), s))
            elif op == '__extension__':
                out.append((v, s))
            else:
                out.append((('un', op, self.value(v, s)), s))
        return out

    def e_BinaryOperator(self, e, st):
        op = e['op']
        a, b = e['c']
        if op in ('&&', '||'):
            return [(('c', int(x)), s) for x, s in self.truth(e, st)]
        out = []
        if op == '=':
            for v, s in self.rv(b, st):
                for l, s2 in self.ev(a, s):
                    if l[0] == 'lv':
                        self.store(l[1], v, s2, e)
                    out.append((l, s2))
            return out
        if op == ',':
            for _, s in self.ev(a, st):
                out += self.ev(b, s)
            return out
        for x, s in self.rv(a, st):
            for y, s2 in self.rv(b, s):
                out.append((self.norm(mk(op, x, y)), s2))
        return out

    def norm(self, t):
        return t

    def e_CompoundAssignOperator(self, e, st):
        out = []
        for v, s in self.rv(e['c'][1], st):
            for l, s2 in self.ev(e['c'][0], s):
                if l[0] == 'lv':
                    self.store(l[1], mk(e['op'][:-1], self.load(l[1], s2), v), s2, e)
                out.append((l, s2))
        return out

    def calm(self, e):
        k = e.get('k')
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CompoundAssignOperator', 'CXXNewExpr', 'CXXThrowExpr', 'CXXConstructExpr') \
                or k == 'BinaryOperator' and e['op'] == '=' or k == 'UnaryOperator' and e['op'] in ('++', '--') or k == 'ConditionalOperator' and not e.get('w'):
            return False
        return all(self.calm(x) for x in e.get('c') or [] if isinstance(x, dict))

    def e_ConditionalOperator(self, e, st):
        out = []
        if self.ITE and e.get('w') and self.calm(e):
            c = self.rv(e['c'][0], st.copy())
            if len(c) == 1 and self.fact(c[0][1], c[0][0]) is None:
                a, b = self.rv(e['c'][1], st.copy()), self.rv(e['c'][2], st.copy())
                if len(a) == 1 and len(b) == 1:
                    return [(('ite', c[0][0], a[0][0], b[0][0]) if a[0][0] != b[0][0] else a[0][0], st)]
        for b, s in self.truth(e['c'][0], st):
            out += self.ev(e['c'][1 if b else 2], s)
        return out

    def e_CXXThrowExpr(self, e, st):
        for _, s in self.rvs([x for x in e.get('c') or [] if x], st):
            s = s.copy()
            self.thr.append(s)
        return []

    def e_InitListExpr(self, e, st):
        kids = [x for x in e.get('c') or [] if x]
        flds = e.get('fields')
        out = []
        for vs, s in self.rvs(kids, st):
            vs = tuple(self.value(v, s) for v in vs)
            if flds and len(flds) >= len(vs):
                out.append((('rec', e.get('ty'), tuple(zip(flds, vs))), s))
            elif len(vs) == 1 and e.get('w'):
                out.append((vs[0], s))
            else:
                out.append((('call', 'list') + vs, s))
        return out

    def e_CXXScalarValueInitExpr(self, e, st):
        return [(C0, st)]

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_LambdaExpr(self, e, st):
        return [(self.stable_any(e, st, 'lambda'), st)]

    def e_CXXNewExpr(self, e, st):
        kids = [x for x in e.get('c') or [] if x]
        out = []
        for vs, s in self.rvs(kids, st):
            vs = tuple(self.value(v, s) for v in vs)
            n = self.stable_any(e, s)
            out.append((('new', e.get('nty'), n[1]) + vs, s))
        return out

    # constructors
    def e_CXXConstructExpr(self, e, st):
        args = [x for x in e.get('c') or [] if x]
        out = []
        for vs, s in self.rvs(args, st):
            places = [None] + [v[1] if v[0] == 'lv' else None for v in vs]
            vals = tuple(self.value(v, s) for v in vs)
            cls = e.get('cls') or e.get('fn')
            r = self.on_construct(e, cls, vals, s, places)
            if r is not None:
                out += r
                continue
            if (e.get('copy') or e.get('move')) and len(vals) >= 1:
                out.append((vals[0], s))
                continue
            f = self.byname.get(e.get('mg'))
            if f is not None and self.inline(f, e) and self.fr < self.MAXDEPTH and not any(g is f for g in self.stack):
                out += self.run_ctor(f, e, vs, s)
                continue
            self.escape_args(e, vs, s, ctor=True)
            out.append((('call', cls + '::' + cls.split('::')[-1]) + vals, s))
        return out

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def run_ctor(self, f, e, vs, st):
        """the value of a constructed object: a record of its fields"""
        fr = self.fr + 1
        self.bind(f, vs, st, fr)
        okey = (fr, 'self')
        st.env[(fr, 'this')] = ('adr', ('V', okey))
        st.env[okey] = ('call', f['cls'] + '::' + f['cls'].split('::')[-1])
        self.stack.append(f)
        self.inlined.add(f['name'])
        cur = [st]
        thr = []
        for i in f.get('inits') or []:
            nxt = []
            for s in cur:
                ex = i.get('e')
                if ex is None:
                    nxt.append(s)
                    continue
                for v, s2 in self.ev(ex, s):
                    if i.get('m'):
                        if v[0] == 'lv' and i.get('isref'):
                            s2.env[okey + (i['m'],)] = ('ref', v[1])
                        else:
                            s2.env[okey + (i['m'],)] = self.value(v, s2)
                    elif i.get('base') or i.get('deleg'):
                        s2.env[okey] = self.value(v, s2)
                    nxt.append(s2)
            cur = nxt
        o = self.run(f['body'], cur)
        self.stack.pop()
        self.thr += o.thr
        out = []
        for s in o.n + [s for _, s in o.ret]:
            flds = tuple(sorted((k[2], self.load(('V', k), s)) for k in s.env if len(k) == 3 and k[:2] == okey))
            base = s.env.get(okey)
            s = s.copy()
            for k in [k for k in s.env if k[0] >= fr]:
                del s.env[k]
            if base is not None and base[0] == 'rec':
                flds = tuple(x for x in base[2] if x[0] not in dict(flds)) + flds
            out.append((('rec', f['cls'], flds), s))
        return uniqv(out)

    def bind(self, f, vs, st, fr):
        for p, v in zip(f['params'], vs):
            if '&' in p['ty'] and v[0] == 'lv':
                pl = v[1]
                if pl[0] == 'V' and pl[1] in st.env and st.env[pl[1]][0] == 'ref':
                    pl = st.env[pl[1]][1]
                st.env[(fr, p['d'])] = ('ref', pl)
            else:
                st.env[(fr, p['d'])] = self.value(v, st)

    def escape_args(self, e, vs, st, ctor=False, off=0):
        """arguments handed to an unknown function by non-const reference or
        pointer may change"""
        pt = e.get('pt') or []
        for i, v in enumerate(vs):
            t = pt[i] if i < len(pt) else '...'
            if '*' not in t and '&' not in t and t != '...':
                continue
            if t.startswith('const ') and ('&' in t or '*' in t) and '**' not in t.replace(' ', ''):
                continue
            pl = None
            if v[0] == 'lv' and '&' in t:
                if '&&' in t:
                    continue
                pl = v[1]
            else:
                w = self.value(v, st)
                if w[0] == 'adr':
                    pl = w[1]
            if pl is not None:
                old = self.load(pl, st)
                self.store(pl, self.stable_any(e, st, 'out'), st, e)

    # calls
    def e_CallExpr(self, e, st):
        c = e['c']
        args = c[1:]
        fn = e.get('fn')
        if fn is None:
            return self.indirect(e, c[0], args, st)
        out = []
        for vs, s in self.rvs(args, st):
            out += self.docall(e, fn, None, vs, s)
        return out

    e_UserDefinedLiteral = e_CallExpr

    def e_CXXMemberCallExpr(self, e, st):
        c = e['c']
        me = c[0]
        while me['k'] in PASS:
            me = me['c'][0]
        out = []
        fn = e.get('fn')
        if fn is None or me['k'] != 'MemberExpr':
            for vs, s in self.rvs(c[1:], st):
                out.append((self.stable_any(e, s), s))
            return out
        base = me['c'][0] if me.get('c') else None
        for b, s in (self.ev(base, st) if base else [(self.any(), st)]):
            if me.get('arrow'):
                b = self.value(b, s)
                b = ('lv', b[1]) if b[0] == 'adr' else ('deref', b)
            for vs, s2 in self.rvs(c[1:], s):
                out += self.docall(e, fn, b, vs, s2)
        return out

    def e_CXXOperatorCallExpr(self, e, st):
        c = e['c']
        fn = e.get('fn')
        out = []
        if fn is None:
            for vs, s in self.rvs(c[1:], st):
                out.append((self.stable_any(e, s), s))
            return out
        member = e.get('cls') is not None and not e.get('mstatic')
        for vs, s in self.rvs(c[1:], st):
            if member:
                out += self.docall(e, fn, vs[0], vs[1:], s)
            else:
                out += self.docall(e, fn, None, vs, s)
        return out

    def thisval(self, b, st):
        if b is None:
            return None
        if b[0] == 'lv':
            return self.load(b[1], st)
        if b[0] == 'deref':
            return self.load(('M', b[1], '*'), st)
        return b

    def docall(self, e, fn, this, vs, st):
        """this: None, ('lv', place), ('deref', pointer term) or a value"""
        vals = tuple(self.value(v, st) for v in vs)
        tpl = None
        if this is not None:
            tpl = this[1] if this[0] == 'lv' else (('M', this[1], '*') if this[0] == 'deref' else None)
        places = [tpl] + [v[1] if v[0] == 'lv' else None for v in vs]
        r = self.on_call(e, fn, self.thisval(this, st), vals, st, places)
        if r is not None:
            return r
        # assignment of objects: a value copy unless the class says otherwise
        if e.get('op') == '=' and this is not None and len(vals) == 1 and self.valueassign(e, fn):
            if tpl is not None:
                self.store(tpl, vals[0], st, e)
            return [(this if this[0] == 'lv' else vals[0], st)]
        f = self.byname.get(e.get('mg'))
        if f is not None and self.inline(f, e) and self.fr < self.MAXDEPTH and not any(g is f for g in self.stack):
            return self.run_call(f, e, this, vs, st)
        if fn in ('std::move', 'std::forward', 'std::as_const'):
            return [(vs[0], st)]
        if fn == 'std::swap' and len(vs) == 2 and all(v[0] == 'lv' for v in vs):
            self.store(vs[0][1], vals[1], st, e)
            self.store(vs[1][1], vals[0], st, e)
            return [(('c', 0), st)]
        if e.get('noreturn'):
            return []
        if self.pure(e, fn):
            self.escape_args(e, vs, st)
            tv = self.thisval(this, st)
            return [(('call', fn) + ((tv,) if tv is not None else ()) + vals, st)]
        self.escape_args(e, vs, st)
        tv = self.thisval(this, st)
        self.maythrow(e, st)
        if this is not None and not e.get('mconst') and tpl is not None:
            self.store(tpl, ('call', 'after ' + fn, tv) + vals, st, e)
        if e.get('repo'):
            self.clobber(st)
        x = self.stable_any(e, st)
        return [(('call', fn) + ((tv,) if tv is not None else ()) + vals + (x[1],), st)]

    def maythrow(self, e, st):
        if self.tryd > 0:
            self.thr.append(st.copy())

    def valueassign(self, e, fn):
        return True

    def indirect(self, e, ce, args, st):
        out = []
        for vs, s in self.rvs([ce] + args, st):
            self.clobber(s)
            out.append((self.stable_any(e, s, 'indirect'), s))
        return out

    def run_call(self, f, e, this, vs, st):
        fr = self.fr + 1
        st = st.copy()
        self.bind(f, vs, st, fr)
        if this is not None:
            if this[0] == 'lv':
                st.env[(fr, 'this')] = ('adr', this[1])
            elif this[0] == 'deref':
                st.env[(fr, 'this')] = this[1]
            else:
                st.env[(fr, 'self')] = this
                st.env[(fr, 'this')] = ('adr', ('V', (fr, 'self')))
        self.stack.append(f)
        self.inlined.add(f['name'])
        o = self.run(f['body'], [st])
        out = []
        isref = '&' in (f.get('ret') or '')
        for v, s in o.ret + [(('c', 0), s) for s in o.n]:
            if not isref:
                v = self.value(v, s)
            elif v[0] == 'lv' and v[1][0] == 'V' and v[1][1][0] >= fr:
                v = self.value(v, s)
            self.on_return(f, v, s)
            s = s.copy()
            for k in [k for k in s.env if k[0] >= fr]:
                del s.env[k]
            out.append((v, s))
        self.stack.pop()
        self.thr += o.thr
        return uniqv(out)

    # -- statements ----------------------------------------------------------------------------
    def run(self, n, sts):
        o = Out()
        if n is None:
            o.n = list(sts)
            return o
        m = getattr(self, 'x_' + n['k'], None)
        for st in sts:
            st = st.copy()
            if m:
                o.add(m(n, st))
            else:
                save, self.thr = self.thr, []
                o.n += [s for _, s in self.ev(n, st)]
                o.thr += self.thr
                self.thr = save
        o.n = uniq(self.prune(n, uniq(o.n)))
        self.nstates += len(o.n)
        if len(o.n) > self.MAXST:
            raise AnalysisBroken('too many paths in %s at line %s' % (self.stack[-1]['name'] if self.stack else '?', n.get('l')))
        return o

    def x_CompoundStmt(self, n, st, start=0):
        o = Out()
        cur = [st]
        kids = n.get('c') or []
        i = start
        while i < len(kids):
            r = self.run(kids[i], cur)
            o.add(r, n=False)
            cur = r.n
            i += 1
            if not cur:
                # a label further on may still be reached by a goto
                break
        o.n = cur
        # forward gotos to labels of this block
        for _ in range(20):
            here = [(g, s) for g, s in o.goto if any(k and k['k'] == 'LabelStmt' and k.get('label') == g for k in kids)]
            if not here:
                break
            o.goto = [x for x in o.goto if x not in here]
            for g, s in here:
                j = [q for q, k in enumerate(kids) if k and k['k'] == 'LabelStmt' and k.get('label') == g][0]
                r = self.x_CompoundStmt({'c': kids[j:]}, s)
                o.add(r)
        return o

    def x_DeclStmt(self, n, st):
        o = Out()
        save, self.thr = self.thr, []
        cur = [st]
        for v in n['c']:
            if v['k'] != 'VarDecl':
                continue
            key = (self.fr, v['d'])
            init = (v.get('c') or [None])[0]
            nxt = []
            for s in cur:
                for k in [k for k in s.env if k[:2] == key]:
                    del s.env[k]
                if v.get('static'):
                    nxt.append(s)
                elif init is None:
                    s.env[key] = ('undef',)
                    nxt.append(s)
                else:
                    for x, s2 in self.ev(init, s):
                        if v.get('isref') and x[0] == 'lv':
                            pl = x[1]
                            s2.env[key] = ('ref', pl)
                        else:
                            s2.env[key] = self.value(x, s2)
                        self.on_store(('V', key), s2.env[key], v, s2)
                        nxt.append(s2)
            cur = nxt
        o.n = cur
        o.thr = self.thr
        self.thr = save
        return o

    def x_IfStmt(self, n, st):
        o = Out()
        c = n['c']
        pre = n.get('pre', 0)
        cur = [st]
        for i in range(pre):
            r = self.run(c[i], cur)
            o.add(r, n=False)
            cur = r.n
        save, self.thr = self.thr, []
        t, f = [], []
        for s in cur:
            for b, s2 in self.truth(c[pre], s):
                (t if b else f).append(s2)
        o.thr += self.thr
        self.thr = save
        o.add(self.run(c[pre + 1], uniq(t)))
        f = uniq(f)
        if len(c) > pre + 2 and c[pre + 2] is not None:
            o.add(self.run(c[pre + 2], f))
        else:
            o.n += f
        return o

    def assigned(self, nodes):
        """declarations and fields a loop may change"""
        dv, fl, gl, anycall = set(), set(), set(), False
        def target(x):
            while x is not None and x['k'] in PASS | {'ArraySubscriptExpr', 'MemberExpr'} | {'UnaryOperator'}:
                if x['k'] == 'MemberExpr' and x['r'].get('k') != 'func':
                    fl.add(x['m'])
                if x['k'] == 'ArraySubscriptExpr':
                    fl.add('[]')
                if x['k'] == 'UnaryOperator' and x.get('op') == '*':
                    fl.add('*')
                x = (x.get('c') or [None])[0]
            if x is not None and x['k'] == 'DeclRefExpr':
                if x['r'].get('s') in ('global', 'static_local'):
                    gl.add(x['r']['n'])
                else:
                    dv.add(x['r'].get('d'))
        for n in nodes:
            for x in walk(n):
                k = x.get('k')
                if k == 'BinaryOperator' and x['op'] == '=' or k == 'CompoundAssignOperator':
                    target(x['c'][0])
                elif k == 'UnaryOperator' and x['op'] in ('++', '--', '&'):
                    target(x['c'][0])
                elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    pt = x.get('pt') or []
                    c = x.get('c') or []
                    args = c if k.startswith('CXXCon') or k.startswith('CXXTemp') else c[1:]
                    if k == 'CXXMemberCallExpr' and not x.get('mconst'):
                        target(c[0])
                    if k == 'CXXOperatorCallExpr' and x.get('cls') is not None:
                        if not x.get('mconst') and args:
                            target(args[0])
                        args = args[1:]
                    for t, a in zip(pt, args):
                        if a is not None and '&' in t and '&&' not in t and not t.startswith('const '):
                            target(a)
                    if x.get('repo') and not x.get('mconst'):
                        anycall = True
        return dv, fl, gl, anycall

    def havoc(self, n, nodes, st):
        dv, fl, gl, anycall = self.assigned(nodes)
        st = st.copy()
        site = (self.stack[-1].get('mg') if self.stack else '', n.get('i'), self.fr)
        for k in list(st.env):
            if k[0] == self.fr and k[1] in dv:
                v = st.env[k]
                if v[0] == 'ref':
                    self.store_quiet(v[1], ('any', site + (k[1],), 'loop'), st)
                elif len(k) > 2:
                    del st.env[k]
                else:
                    st.env[k] = ('any', site + (k[1],), 'loop')
        for q in list(st.mem):
            if q[0] == 'G':
                if q[1] in gl or anycall:
                    del st.mem[q]
            elif anycall or q[1] in fl or (isinstance(q[1], tuple) and '[]' in fl):
                del st.mem[q]
        for g in gl | fl:
            st.ep[g] = ('L', site) if False else st.ep.get(g, 0) + 1000
        if anycall:
            st.ep['*'] = st.ep.get('*', 0) + 1000
        return st

    def store_quiet(self, place, v, st):
        if place[0] == 'V':
            k = place[1]
            for q in [q for q in st.env if len(q) > len(k) and q[:len(k)] == k]:
                del st.env[q]
            st.env[k] = v
        elif place[0] == 'M':
            st.mem[(place[1], place[2])] = v
        else:
            st.mem[('G', place[1])] = v

    def loop(self, n, o, cur, cond, body, inc, dowhile=False):
        nodes = [x for x in (cond, body, inc) if x is not None]
        save, self.thr = self.thr, []
        if dowhile:   # first iteration is certain
            r = self.run(body, cur)
            o.add(r, n=False, loop=False)
            o.n += r.brk
            cur = r.n + r.cont
            nodes_first = cur
            t, f = [], []
            for s in cur:
                for b, s2 in self.truth(cond, s):
                    (t if b else f).append(s2)
            o.n += f
            cur = t
        heads = uniq([self.havoc(n, nodes, s) for s in cur])
        if not dowhile and cond is not None:
            # leaving at once keeps what was known before the loop
            out0 = []
            keep = []
            for s in cur:
                rs = self.truth(cond, s.copy())
                out0 += [s2 for b, s2 in rs if not b]
                if any(b for b, _ in rs):
                    keep.append(s)
            o.n += out0
            heads = uniq([self.havoc(n, nodes, s) for s in keep])
        t, f = [], []
        if dowhile:
            t = heads
        else:
            for s in heads:
                if cond is None:
                    t.append(s)
                else:
                    for b, s2 in self.truth(cond, s):
                        (t if b else f).append(s2)
        r = self.run(body, uniq(t))
        o.add(r, n=False, loop=False)
        o.n += r.brk
        aft = []
        for s in uniq(r.n + r.cont):
            if inc is not None:
                aft += [s2 for _, s2 in self.ev(inc, s)]
            else:
                aft.append(s)
        if cond is None:
            pass
        else:
            # after the arbitrary iteration the condition fails
            for s in uniq(aft):
                o.n += [s2 for b, s2 in self.truth(cond, s) if not b]
        o.thr += self.thr
        self.thr = save
        o.n = uniq(o.n)
        return o

    def x_WhileStmt(self, n, st):
        o = Out()
        c = n['c']
        pre = n.get('pre', 0)
        if pre:   # declaration in the condition: evaluated in each iteration
            return self.loop(n, o, [st], None, {'k': 'CompoundStmt', 'l': n['l'], 'i': n['i'], 'c': [
                c[0], {'k': 'IfStmt', 'l': n['l'], 'i': n['i'], 'c': [c[pre], c[pre + 1], {'k': 'BreakStmt', 'l': n['l']}]}]}, None)
        return self.loop(n, o, [st], c[0], c[1], None)

    def x_DoStmt(self, n, st):
        c = n['c']
        if 'cv' in c[1] and int(c[1]['cv']) == 0:
            o = Out()
            r = self.run(c[0], [st])
            o.add(r, loop=False)
            o.n += r.brk + r.cont
            return o
        return self.loop(n, Out(), [st], c[1], c[0], None, dowhile=True)

    def x_ForStmt(self, n, st):
        c = n['c']
        o = Out()
        r = self.run(c[0], [st])
        o.add(r, n=False)
        return self.loop(n, o, r.n, c[2], c[4], c[3])

    def x_CXXForRangeStmt(self, n, st):
        o = Out()
        c = n['c']
        cur = [st]
        rng = None
        for x in c:
            if x is not None and x['k'] == 'DeclStmt' and x['c'] and x['c'][0]['n'].startswith('__range'):
                r = self.run(x, cur)
                o.add(r, n=False)
                cur = r.n
                rng = x['c'][0]['d']
        body = c[-1]
        out = list(cur)
        heads = []
        for s in cur:
            h = self.havoc(n, [body], s)
            rv = self.load(('V', (self.fr, rng)), h) if rng is not None else self.any()
            h.env[(self.fr, n['var'])] = ('call', 'element', rv, ('any', (self.stack[-1].get('mg'), n['i'], self.fr), 'it'))
            heads.append(h)
        r = self.run(body, uniq(heads))
        o.add(r, n=False, loop=False)
        o.n = uniq(out + r.n + r.cont + r.brk)
        return o

    def x_SwitchStmt(self, n, st):
        o = Out()
        c = n['c']
        pre = n.get('pre', 0)
        cur = [st]
        for i in range(pre):
            r = self.run(c[i], cur)
            o.add(r, n=False)
            cur = r.n
        save, self.thr = self.thr, []
        vals = []
        for s in cur:
            vals += self.rv(c[pre], s)
        o.thr += self.thr
        self.thr = save
        body = c[pre + 1]
        kids = body.get('c') or []
        entries = []
        for i, k in enumerate(kids):
            x = k
            while x is not None and x['k'] in ('CaseStmt', 'DefaultStmt', 'LabelStmt'):
                if x['k'] == 'CaseStmt':
                    cv = None
                    for q in walk(x['c'][0]):
                        if 'cv' in q:
                            cv = int(q['cv'])
                            break
                    entries.append((cv, i))
                elif x['k'] == 'DefaultStmt':
                    entries.append(('default', i))
                x = x['c'][-1] if x.get('c') else None
        cases = [a for a, _ in entries if a != 'default']
        dflt = [i for a, i in entries if a == 'default']
        for v, s in vals:
            tgt = []
            if v[0] == 'c':
                tgt = [(i, s) for a, i in entries if a == v[1]]
                if not tgt:
                    tgt = [(i, s) for i in dflt]
                    if not tgt:
                        o.n.append(s)
            else:
                rest = s
                for a, i in entries:
                    if a == 'default':
                        continue
                    t = mk('==', v, ('c', a))
                    r = self.fact(rest, t)
                    if r is False:
                        continue
                    y = rest.copy()
                    self.assume(y, t, True)
                    tgt.append((i, y))
                    if r is True:
                        rest = None
                        break
                    rest = rest.copy()
                    self.assume(rest, t, False)
                if rest is not None:
                    if dflt:
                        tgt.append((dflt[0], rest))
                    else:
                        o.n.append(rest)
            by = {}
            for i, y in tgt:
                by.setdefault(i, []).append(y)
            for i, ys in by.items():
                for y in uniq(ys):
                    r = self.x_CompoundStmt(body, y.copy(), i)
                    o.add(r, loop=False)
                    o.n += r.brk
                    o.cont += r.cont
        o.n = uniq(o.n)
        return o

    def x_CaseStmt(self, n, st):
        return self.run(n['c'][-1], [st])

    x_DefaultStmt = x_LabelStmt = x_AttributedStmt = x_CaseStmt

    def x_ReturnStmt(self, n, st):
        o = Out()
        save, self.thr = self.thr, []
        c = [x for x in n.get('c') or [] if x]
        if c:
            isref = '&' in (self.stack[-1].get('ret') or '')
            o.ret = uniqv(self.ev(c[0], st) if isref else self.rv(c[0], st))
        else:
            o.ret = [(C0, st)]
        o.thr = self.thr
        self.thr = save
        return o

    def x_BreakStmt(self, n, st):
        o = Out()
        o.brk = [st]
        return o

    def x_ContinueStmt(self, n, st):
        o = Out()
        o.cont = [st]
        return o

    def x_NullStmt(self, n, st):
        o = Out()
        o.n = [st]
        return o

    def x_GotoStmt(self, n, st):
        o = Out()
        o.goto = [(n['label'], st)]
        return o

    def x_CXXTryStmt(self, n, st):
        o = Out()
        c = n['c']
        self.tryd += 1
        r = self.run(c[0], [st])
        self.tryd -= 1
        thr = uniq(r.thr)
        r.thr = []
        o.add(r)
        for s in thr:
            for h in c[1:]:
                s2 = s.copy()
                for k in [k for k in s2.env if k[0] > self.fr]:
                    del s2.env[k]
                if 'd' in h:
                    s2.env[(self.fr, h['d'])] = self.any('exception')
                body = [x for x in h['c'] if x and x['k'] == 'CompoundStmt']
                o.add(self.run(body[-1], [s2]))
        return o

    def x_omp(self, n, st):
        c = [x for x in n.get('c') or [] if x]
        return self.run(c[0], [st]) if c else self.x_NullStmt(n, st)

    x_OMPParallelDirective = x_OMPForDirective = x_OMPSingleDirective = x_OMPCriticalDirective = x_OMPParallelForDirective = x_omp

    # -- entry -----------------------------------------------------------------------------------
    def start(self, f, args=None, st=None):
        """paths of a function: (list of (returned value, state), thrown states)"""
        st = st or St()
        self.stack, self.thr, self.tryd = [f], [], 0
        for p in f['params']:
            k = (1, p['d'])
            if args and p['n'] in args:
                st.env[k] = args[p['n']]
            elif '&' in p['ty'] and '&&' not in p['ty'] and not p['ty'].startswith('const '):
                st.env[k] = ('ref', ('M', ('p', p['n']), '*'))
            else:
                st.env[k] = ('p', p['n'])
        o = self.run(f['body'], [st])
        self.stack = []
        return uniqv([(self.value(v, s), s) for v, s in o.ret] + [(C0, s) for s in o.n]), o.thr
