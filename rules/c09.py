"""The shared operation cache of the decision-diagram engine."""
import ccload
from ccload import AnalysisBroken, rel, walk
from report import Finding
from sym import Sym, St, mk, cint, uniq, C0

ENTRY = ('apply', 'bddrcache', 'bddwcache', 'bddgc', 'getnode', 'getbddp', 'getzbddp')
ENTF = {a + b for a in 'fgh' for b in ('', '_32', '_h8')} | {'op', 'Cache', '*'}
KEYF = ('op', 'f', 'g')


def has(t, p):
    if p(t):
        return True
    return isinstance(t, tuple) and any(has(x, p) for x in t if isinstance(x, tuple))


class Core(Sym):
    """bddc.cc: entries are two-part fields X_32 / X_h8 read and written by macros"""
    ITE = True

    def __init__(self, tus):
        super().__init__(tus)
        self.rel = {}
        self.slots = {}
        self.touch = set()       # functions that read or write entries
        for m, f in self.byname.items():
            if any(x.get('k') == 'MemberExpr' and x.get('cls') == 'B_CacheTable' for x in walk(f['body'])):
                self.touch.add(m)
        grow = True
        while grow:
            grow = False
            for m, f in self.byname.items():
                if m not in self.touch and any(x.get('k') == 'CallExpr' and x.get('mg') in self.touch for x in walk(f['body'])):
                    self.touch.add(m)
                    grow = True
        self.root = None

    def inline(self, f, e):
        """helpers split off from the function under examination"""
        m = f.get('mg') or f['name']
        if self.one is not None:
            return f.get('static') and f['name'] != 'gc1' and not any(x.get('k') in ('ForStmt', 'WhileStmt', 'DoStmt') for x in walk(f['body']))
        if f['name'] in ENTRY or m not in self.touch:
            return False
        return f.get('static')

    def relevant(self, f):
        m = f.get('mg') or f['name']
        if m not in self.rel:
            d = {p['d'] for p in f['params']}

            def names(n):
                for x in walk(n):
                    if x.get('k') == 'DeclRefExpr' and x['r'].get('s') == 'local' or x.get('k') == 'DeclRefExpr' and x['r'].get('k') == 'parm':
                        d.add(x['r']['d'])

            def visit(n):
                if n is None or not isinstance(n, dict):
                    return False
                k = n.get('k')
                hot = k == 'MemberExpr' and n.get('cls') == 'B_CacheTable' or k == 'CallExpr' and n.get('mg') in self.touch and n.get('fn') not in ENTRY
                for x in n.get('c') or []:
                    if isinstance(x, dict) and visit(x):
                        hot = True
                if hot and k in ('BinaryOperator', 'CompoundAssignOperator', 'CallExpr', 'VarDecl', 'ReturnStmt', 'ConditionalOperator'):
                    names(n)
                    if k == 'VarDecl':
                        d.add(n['d'])
                if hot and k in ('IfStmt', 'WhileStmt'):
                    names(n['c'][n.get('pre', 0)])
                return hot
            visit(f['body'])
            for _ in range(3):
                for x in walk(f['body']):
                    if x.get('k') == 'BinaryOperator' and x['op'] == '=' or x.get('k') == 'VarDecl' and x.get('c'):
                        t = x['d'] if x['k'] == 'VarDecl' else x['c'][0].get('r', {}).get('d')
                        src = x['c'][-1]
                        while src and src['k'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
                            src = src['c'][0]
                        if t in d and src and src['k'] == 'DeclRefExpr':
                            d.add(src['r'].get('d'))
            self.rel[m] = d
        return self.rel[m]

    def truth(self, e, st):
        # a conjunction of comparisons with one entry: one fork
        if e['k'] == 'BinaryOperator' and e['op'] == '&&':
            js, todo = [], [e]
            while todo:
                x = todo.pop(0)
                while x['k'] in ('ParenExpr', 'ImplicitCastExpr') and x['c'][0]['k'] in ('BinaryOperator', 'ParenExpr', 'ImplicitCastExpr'):
                    x = x['c'][0]
                if x['k'] == 'BinaryOperator' and x['op'] == '&&':
                    todo = x['c'] + todo
                else:
                    js.append(x)
            if all(x['k'] == 'BinaryOperator' and x['op'] == '==' and any(y.get('k') == 'MemberExpr' and y.get('cls') == 'B_CacheTable' for y in walk(x))
                   and not any(y.get('k') in ('CallExpr', 'CompoundAssignOperator') for y in walk(x)) for x in js):
                t = st.copy()
                for x in js:
                    r = self.rv(x, t)
                    if len(r) != 1:
                        break
                    v, t = r[0]
                    self.on_cond(v, x, t)
                    if self.fact(t, v) is False:
                        return [(False, t)]
                    self.assume(t, v, True)
                else:
                    f = t.copy()
                    f.facts = dict(st.facts)
                    return [(True, t), (False, f)]
        return super().truth(e, st)

    def prune(self, n, sts):
        if self.stack and self.stack[0]['name'] == 'bddgc':
            return sts
        if n['k'] not in ('IfStmt', 'SwitchStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'ConditionalOperator') or len(sts) < 2:
            return sts
        f = self.stack[-1]
        rel = self.relevant(f)
        fr = self.fr
        for s in sts:
            for k in list(s.env):
                if k[0] == fr and k[1] not in rel and k[1] != 'this' and s.env[k][0] != 'ref':
                    s.env[k] = ('any', ('pruned', k[1]))
            for q in list(s.mem):
                if q[0] == 'G' or not self.entry(q[0]):
                    del s.mem[q]
            for q in list(s.ep):
                if q not in ENTF:
                    del s.ep[q]
            for q in list(s.x):
                if q[0] == 'n':
                    del s.x[q]
            vals = {v for k, v in s.env.items()}
            for t in list(s.facts):
                if not s.facts[t] or t[:2] != ('bin', '==') or self.other(t, vals):
                    del s.facts[t]
        return sts

    def other(self, t, vals):
        """a fact about something else than parameters, entries or live values"""
        if t[0] == 'any' and isinstance(t[1], tuple) and t[1][0] == 'pruned':
            return True
        if t in vals and t[0] != 'un':
            return False
        if t[0] == 'fld':
            return not self.entry(t[1])
        if t[0] == 'any':
            return t not in vals
        if t[0] in ('c', 'p'):
            return False
        if t[0] == 'g':
            return t[1] != 'Cache'
        return any(self.other(x, vals) for x in t if isinstance(x, tuple))

    def e_ConditionalOperator(self, e, st):
        # counting references never matters here
        if any(x.get('k') == 'MemberExpr' and x.get('m') == 'varrfc' for x in walk(e['c'][0])) and \
                any(x.get('k') in ('CompoundAssignOperator', 'CallExpr') for b in e['c'][1:] for x in walk(b)):
            for b in e['c'][1:]:
                for x in walk(b):
                    if x.get('k') == 'CompoundAssignOperator':
                        if st.ev and st.ev[-1][0] == 'cmp':
                            st.ev += (('rfc',),)
            return [(C0, st)]
        return super().e_ConditionalOperator(e, st)

    def entry(self, base):
        return has(base, lambda t: t[:2] == ('g', 'Cache') or t[:1] == ('entry',) or t[:2] == ('call', 'calloc'))

    def norm(self, t):
        if t[0] == 'bin' and t[1] == '+' and ('g', 'Cache') in (t[2][:2], t[3][:2]):
            if self.one is not None:
                return self.one
            return ('entry', self.slots.setdefault(t, len(self.slots)))
        if t[0] == 'bin' and t[1] == '|':
            a, b = t[2], t[3]
            for lo, hi in ((a, b), (b, a)):
                if hi[0] == 'bin' and hi[1] == '<<' and hi[3] == ('c', 32):
                    h = hi[2]
                    if lo[0] == 'fld' and h[0] == 'fld' and lo[1] == h[1] and lo[2].endswith('_32') and h[2] == lo[2][:-3] + '_h8':
                        return ('fld', lo[1], lo[2][:-3], lo[3])
                    x = self.half(lo, '_32')
                    if x is not None and x == self.half(h, '_h8'):
                        return x
        return t

    def half(self, v, w):
        if w == '_32' and v[0] == 'bin' and v[1] == '&' and v[3] == ('c', 0xffffffff):
            return v[2]
        if w == '_h8' and v[0] == 'bin' and v[1] == '>>' and v[3] == ('c', 32):
            return v[2]
        if v[0] == 'c' and w == '_32':
            return None
        if v[0] == 'fld' and v[2].endswith(w):
            return ('fld', v[1], v[2][:-len(w)], 0)
        return None

    def on_store(self, place, v, e, st):
        if place[0] != 'M' or not isinstance(place[2], str):
            return
        f = place[2]
        if f == 'op' or f[:-3] in ('f', 'g', 'h') and f[-3:] in ('_32', '_h8'):
            st.ev += (('st', place[1], f, v),)

    def on_cond(self, t, e, st):
        if t[0] == 'un':
            t = t[2]
        if t[0] == 'bin' and t[1] == '==':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == 'fld' and a[2] in KEYF and self.entry(a[1]):
                    st.ev += (('cmp', a[1], a[2], b),)

    sw = None
    one = None               # while one entry stands for all

    def sub(self, place, m):
        if place[0] == 'M' and isinstance(place[2], tuple) and place[2][0] == '[]' and place[1][:2] == ('g', 'Cache'):
            return ('lv', ('M', self.norm(mk('+', place[1], place[2][1])), m))
        if place[0] == 'M' and place[2] == '*' and self.entry(place[1]):
            return ('lv', ('M', place[1], m))
        return super().sub(place, m)

    def loop(self, n, o, *a, **k):
        if n is self.sw:
            for s in a[0]:
                s.ev = tuple(x for x in s.ev if x[0] == 'gc1') + (('purge',),)
            o.n = list(a[0])
            return o
        return super().loop(n, o, *a, **k)

    def on_call(self, e, fn, this, args, st, places):
        if fn == 'gc1' and ('gc1',) not in st.ev:
            st.ev += (('gc1',),)
        if fn == 'rfc_inc_ovf' or fn == 'rfc_dec_ovf':
            return [(C0, st)]

    def stores(self, ev):
        """per entry: field -> last value"""
        d = {}
        for x in ev:
            if x[0] == 'st':
                d.setdefault(x[1], {})[x[2]] = x[3]
        out = []
        for base, m in d.items():
            g = {'op': m.get('op')}
            for k in 'fgh':
                lo, hi = m.get(k + '_32'), m.get(k + '_h8')
                if lo is None and hi is None:
                    g[k] = None
                elif lo is None or hi is None:
                    g[k] = ('half',)
                else:
                    x = self.half(lo, '_32')
                    y = self.half(hi, '_h8')
                    if x is None and y is None and lo[0] == 'c' and hi[0] == 'c':
                        x = y = ('c', lo[1] | hi[1] << 32)
                    g[k] = x if x == y and x is not None else ('half',)
            out.append((base, g))
        return out


def short(t, n=60):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'p' or t[0] == 'g':
        return t[1]
    if t[0] == 'c':
        return hex(t[1]) if t[1] > 9999 else str(t[1])
    if t[0] == 'fld':
        return '%s.%s' % (short(t[1], 20), t[2])
    if t[0] == 'bin':
        return ('(%s%s%s)' % (short(t[2]), t[1], short(t[3])))[:n]
    if t[0] == 'call':
        return ('%s(%s)' % (t[1].split('::')[-1], ','.join(short(x) for x in t[2:] if isinstance(x, tuple))))[:n]
    if t[0] == 'any':
        return '?'
    return str(t[0])


def facts_of(S, st, base):
    """what the path has established about the fields of an entry"""
    out = {}
    for t, b in st.facts.items():
        if b and t[0] == 'bin' and t[1] == '==':
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x[0] == 'fld' and x[2] in KEYF and x[1] == base:
                    out[x[2]] = y
    return out


SIDE = {('AT0', 'AT1'), ('AT1', 'AT0'), ('OFFSET', 'ONSET'), ('ONSET', 'OFFSET')}


class Engine:
    def __init__(self):
        self.out, self.n = [], {}

    def rep(self, fn, rule, detail, line, path, msg, via=()):
        self.out.append(Finding('%s:%s:%s' % (fn, rule, detail), '%s:%s' % (rel(path), line), rule, 'in %s: %s' % (fn, msg), via))

    # the engine's own operations -------------------------------------------------------------
    def core(self, tu):
        S = Core([tu])
        fs = {f['name']: f for f in tu['funcs'] if f.get('body') is not None}
        path = fs['bddrcache']['file'] if 'bddrcache' in fs else ''
        ap = [f for f in tu['funcs'] if f['name'] == 'apply' and f.get('body')]
        if len(ap) != 1 or 'bddrcache' not in fs or 'bddwcache' not in fs or 'bddgc' not in fs:
            raise AnalysisBroken('apply, bddrcache, bddwcache or bddgc is gone from bddc.cc')
        ap = ap[0]
        # which operations there are, and what each is given as g
        ops, consts_only, gnode = {}, {}, {}
        pidx = {p['n']: i for i, p in enumerate(ap['params'])}
        if not {'f', 'g', 'op'} <= set(pidx):
            pidx = {'f': 0, 'g': 1, 'op': 2}
        names = {p: ap['params'][i]['n'] for p, i in pidx.items()}
        for f in tu['funcs']:
            for x in walk(f.get('body')):
                if x.get('k') == 'CallExpr' and x.get('fn') == 'apply':
                    a = x['c'][1:]
                    o = a[pidx['op']]
                    g = a[pidx['g']]
                    oc = int(o['cv']) if 'cv' in o else None
                    if oc is None:
                        continue
                    ops.setdefault(oc, o.get('mac') or self.macro(o) or str(oc))
                    y = g
                    cast = False
                    while y['k'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and 'cv' not in y:
                        y = y['c'][0]
                    if 'cv' in g or 'cv' in y:
                        consts_only.setdefault(oc, set()).add(int(g.get('cv') or y.get('cv')))
                    else:
                        consts_only.setdefault(oc, set()).add(None)
                        if y.get('w') == 64:
                            gnode[oc] = True
        if len(ops) < 12:
            raise AnalysisBroken('only %d operations of the engine found' % len(ops))
        self.n['engine operations'] = len(ops)
        codes = {}
        for f in tu['funcs']:
            for x in walk(f.get('body')):
                if x.get('k') == 'CaseStmt':
                    pass
        # distinct names sharing a code
        byname = {}
        for f in tu['funcs']:
            for x in walk(f.get('body')):
                m = x.get('mac')
                if x.get('k') == 'IntegerLiteral' and m and m.startswith('BC_') and 'v' in x:
                    byname.setdefault(m, int(x['v']))
        inv = {}
        for k, v in byname.items():
            inv.setdefault(v, []).append(k)
        for v, ks in inv.items():
            if len(ks) > 1:
                self.rep('bddc.cc', 'shared-code', '+'.join(sorted(ks)), ap['line'], path, 'the operations %s have the same code %d' % (', '.join(sorted(ks)), v))
        nm = {v: ks[0][3:] for v, ks in inv.items()}
        hits = 0
        hnode = {}
        for oc in sorted(ops):
            args = {names['op']: ('c', oc)}
            cs = consts_only.get(oc, {None})
            if None not in cs and len(cs) == 1:
                args[names['g']] = ('c', list(cs)[0])
            rs, _ = S.start(ap, args)
            opn = nm.get(oc, str(oc))
            stores = 0
            for v, s in rs:
                # a hit
                for base in self.hitbases(S, v):
                    hits += 1
                    k = facts_of(S, s, base)
                    miss = [x for x in KEYF if x not in k]
                    if miss:
                        self.rep('apply', 'lookup-ignores', '%s:%s' % (opn, '+'.join(miss)), ap['line'], path,
                                 'a cached result is returned for operation %s without comparing %s of the entry' % (opn, ', '.join(miss)))
                    if any(q[0] == 'M' or True for q in ()):
                        pass
                if any(x[0] == 'st' for x in s.ev):
                    stores += 1
                    self.check_store(S, ap, path, opn, oc, nm, s, args, names, v)
            for v, s in rs:
                for base in self.hitbases(S, v):
                    inc = ('rfc',) in s.ev
                    hnode[oc] = hnode.get(oc, False) or inc
        self.n['cache hits in apply'] = hits
        if hits == 0:
            raise AnalysisBroken('no cache hit found in apply')
        # the entry points for operations built on top
        for v, s in S.start(fs['bddrcache'])[0]:
            for base in self.hitbases(S, v):
                k = facts_of(S, s, base)
                ps = fs['bddrcache']['params']
                want = {'op': ps[0]['n'], 'f': ps[1]['n'], 'g': ps[2]['n']}
                for x in KEYF:
                    if k.get(x) != ('p', want[x]):
                        self.rep('bddrcache', 'lookup-ignores', x, fs['bddrcache']['line'], path, 'a cached result is returned without comparing %s of the entry with the one asked for' % x)
        ps = fs['bddwcache']['params']
        for v, s in S.start(fs['bddwcache'])[0]:
            for base, g in S.stores(s.ev):
                for x, p in zip(('op', 'f', 'g', 'h'), ps):
                    if g[x] != ('p', p['n']):
                        self.rep('bddwcache', 'store-differs', x, fs['bddwcache']['line'], path, 'the entry does not store %s as given' % x)
        # entries are written whole
        for f in tu['funcs']:
            if f['name'] in ('apply', 'bddwcache') or f.get('body') is None:
                continue
            if not any(x.get('k') == 'MemberExpr' and x.get('cls') == 'B_CacheTable' for x in walk(f['body'])):
                continue
            if f['name'] == 'bddgc':
                continue
            for v, s in S.start(f)[0] + [(None, s) for s in []]:
                self.whole(S, f, path, s)
        self.purge(S, fs['bddgc'], path, ops, nm, gnode, hnode)

    def macro(self, e):
        for x in walk(e):
            if x.get('mac', '').startswith('BC_'):
                return x['mac']

    def hitbases(self, S, v):
        out = set()

        def f(t):
            if t[0] == 'fld' and t[2] in ('h', 'h_32') and S.entry(t[1]):
                out.add(t[1])
            for x in t:
                if isinstance(x, tuple):
                    f(x)
        f(v)
        return out

    def check_store(self, S, ap, path, opn, oc, nm, s, args, names, v):
        cmps = {}
        for x in s.ev:
            if x[0] == 'cmp':
                cmps.setdefault(x[1], {})[x[2]] = x[3]
        groups = S.stores(s.ev)
        for base, g in groups:
            bad = [k for k in ('op', 'f', 'g', 'h') if g[k] is None or g[k] == ('half',)]
            if bad:
                self.rep('apply', 'partial-store', '%s:%s' % (opn, '+'.join(bad)), ap['line'], path,
                         'an entry of operation %s is stored without %s' % (opn, ', '.join(bad)))
                continue
            so = cint(g['op'])
            look = [c for c in cmps.values()]
            if not look:
                self.rep('apply', 'store-without-lookup', opn, ap['line'], path, 'operation %s stores a result it never looks up' % opn)
                continue
            own = [c for c in look if 'op' not in c or c['op'] == g['op']]
            if own:
                for c in own:
                    for k in ('f', 'g'):
                        if k in c and c[k] != g[k]:
                            self.rep('apply', 'key-differs', '%s:%s' % (opn, k), ap['line'], path,
                                     'operation %s looks up with %s=%s and stores with %s' % (opn, k, short(c[k]), short(g[k])))
                if not self.eq(S, s, g['h'], v):
                    self.rep('apply', 'stores-other-result', opn, ap['line'], path,
                             'operation %s stores %s but returns %s' % (opn, short(g['h']), short(v)))
                # the operands are covered
                for k in ('f', 'g'):
                    p = ('p', names[k])
                    if names[k] in args:
                        continue
                    if not has(g['f'], lambda t: t == p) and not has(g['g'], lambda t: t == p) and \
                            not any(b and t[0] == 'bin' and t[1] == '==' and p in (t[2], t[3]) for t, b in s.facts.items()):
                        self.rep('apply', 'key-misses', '%s:%s' % (opn, k), ap['line'], path,
                                 'the entry of operation %s does not cover its operand %s' % (opn, k))
            else:
                n2 = nm.get(so, str(so))
                c = look[0]
                ok = (opn, n2) in SIDE and all(k not in c or c[k] == g[k] for k in ('f', 'g'))
                if ok:
                    fv = g['f']
                    res = [x for b2, x in groups if x['op'] and cint(x['op']) == oc]
                    h = res[0]['h'] if res else None
                    if n2 in ('AT0', 'AT1'):
                        ok = h is not None and self.eq(S, s, h, fv) and g['h'] in (h, fv)
                    elif n2 == 'ONSET':
                        ok = h is not None and self.eq(S, s, h, fv) and g['h'][0] == 'c'
                    else:
                        ok = h is not None and self.isconst(S, s, h) and g['h'] == fv
                if not ok:
                    self.rep('apply', 'foreign-store', '%s:%s' % (opn, n2), ap['line'], path,
                             'operation %s stores its result under the code of operation %s' % (opn, n2))

    def eq(self, S, s, a, b):
        return a == b or S.fact(s, mk('==', a, b)) is True

    def isconst(self, S, s, h):
        return h[0] == 'c' or any(b and t[0] == 'bin' and t[1] == '==' and h in (t[2], t[3]) and 'c' in (t[2][0], t[3][0]) for t, b in s.facts.items())

    def whole(self, S, f, path, s):
        for base, g in S.stores(s.ev):
            if cint(g['op'] or ('x',)) == 0:
                continue
            bad = [k for k in ('op', 'f', 'g', 'h') if g[k] is None or g[k] == ('half',)]
            if bad and not all(k in bad for k in 'fgh'):
                self.rep(f['name'], 'partial-store', '+'.join(bad), f['line'], path, 'an entry is written without %s' % ', '.join(bad))
                continue
            if bad:
                if g['op'] is not None:
                    self.rep(f['name'], 'partial-store', '+'.join(bad), f['line'], path, 'an entry is written without %s' % ', '.join(bad))
                continue
            src = {}
            for k in ('op', 'f', 'g', 'h'):
                if g[k][0] == 'fld':
                    src[k] = (g[k][1], g[k][2])
            if src and (len(src) < 4 or len({b for b, _ in src.values()}) > 1 or any(k != n for k, (_, n) in src.items())):
                self.rep(f['name'], 'mixed-copy', ','.join(sorted(k for k, (_, n) in src.items() if k != n)), f['line'], path,
                         'an entry is copied with its fields exchanged or from different entries')

    def purge(self, S, gc, path, ops, nm, gnode, hnode):
        """the loop of bddgc over the cache, one operation code at a time"""
        sw = None
        for x in walk(gc['body']):
            if x.get('k') in ('ForStmt', 'WhileStmt', 'DoStmt') and any(
                    y.get('k') == 'MemberExpr' and y.get('cls') == 'B_CacheTable' and y['m'] == 'op' for y in walk(x)):
                if sw is None or sw['l'] <= x['l'] and any(y is x for y in walk(sw)):
                    sw = x
        if sw is None:
            raise AnalysisBroken('bddgc does not go through the operation cache')
        body = {'ForStmt': lambda c: c[4], 'WhileStmt': lambda c: c[-1], 'DoStmt': lambda c: c[0]}[sw['k']](sw['c'])
        # an inner loop of the same kind would be the real one
        top = {}
        cases = 0
        allops = sorted(ops) + [20, 29, 66, 200]
        for oc in allops:
            st = St()
            S.stack, S.thr, S.tryd = [gc], [], 0
            # the entry under examination
            ent = None
            for y in walk(body):
                if y.get('k') == 'MemberExpr' and y.get('cls') == 'B_CacheTable':
                    b = y['c'][0]
                    while b['k'] in ('ImplicitCastExpr', 'ParenExpr'):
                        b = b['c'][0]
                    if b['k'] == 'DeclRefExpr':
                        ent = b['r']['d']
                        break
            E = ('entry', 'e')
            if ent is not None:
                st.env[(1, ent)] = E
            st.mem[(E, 'op')] = ('c', oc)
            S.one = E
            r = S.run(body, [st])
            S.one = None
            opn = nm.get(oc, 'code %d' % oc)
            need = ['f', 'h'] if oc in ops else ['f', 'g', 'h']
            if oc in ops and gnode.get(oc):
                need.append('g')
            for s in uniq(r.n + r.cont + r.brk):
                cases += 1
                if r.brk and s in r.brk:
                    self.rep('bddgc', 'purge-stops', opn, gc['line'], path, 'the purge of the cache stops at an entry of operation %s' % opn)
                fin = s.mem.get((E, 'op'))
                if fin is None:
                    # forgotten: the entry pointer was not a plain variable
                    fin = s.mem.get((E, 'op'))
                if fin == C0:
                    continue
                for k in need:
                    node = True
                    if k == 'h' and oc in ops and not hnode.get(oc):
                        node = False
                    if not self.alive(s, E, k, node):
                        self.rep('bddgc', 'stale-entry', '%s:%s' % (opn, k), gc['line'], path,
                                 'an entry of operation %s survives a collection without a test that the %s it refers to is still there' %
                                 (opn, {'f': 'first operand', 'g': 'second operand', 'h': 'result'}[k]))
        S.stack = []
        self.n['purge cases'] = cases
        # every way through a collection that may have reclaimed something purges
        S.sw = sw
        for v, s in S.start(gc)[0]:
            ks = [x[0] for x in s.ev if x[0] in ('gc1', 'purge')]
            if 'gc1' in ks and 'purge' not in ks[ks.index('gc1'):]:
                if not any(b and t[:2] == ('bin', '==') and has(t, lambda x: x[:2] == ('g', 'NodeUsed')) for t, b in s.facts.items()):
                    self.rep('bddgc', 'purge-skipped', 'path', gc['line'], path, 'nodes are reclaimed without dropping the cache entries that refer to them')
        S.sw = None
        # every entry is visited
        if sw['k'] == 'ForStmt':
            c = sw['c']
            lo = [x for x in walk(c[0])] if c[0] else []
            hi = [x for x in walk(c[2])] if c[2] else []
            ok1 = any(x.get('k') == 'DeclRefExpr' and x['r']['n'] == 'Cache' for x in lo) or any(x.get('cv') == '0' for x in lo)
            add = [x for x in lo if x.get('k') == 'BinaryOperator' and x['op'] in ('+', '-')]
            ok2 = any(x.get('k') == 'DeclRefExpr' and x['r']['n'] == 'CacheSpc' for x in hi)
            sub = [x for x in hi if x.get('k') == 'BinaryOperator' and x['op'] in ('-', '/', '>>')]
            if ok1 and ok2 and (add or sub):
                self.rep('bddgc', 'purge-range', 'range', sw['l'], path, 'the purge does not go through the whole cache')

    def alive(self, s, E, k, node):
        """the path has established that field k refers to nothing reclaimed"""
        def about(t):
            return has(t, lambda x: x[0] == 'fld' and x[1] == E and x[2] == k)
        for t, b in s.facts.items():
            if not about(t):
                continue
            if not node:
                # a count: must not be a reference into the table of long counts
                if t[0] == 'bin' and t[1] == '<' and t[2][0] == 'c' and not b:
                    return True
                if t[0] == 'bin' and t[1] == '<' and t[3][0] == 'c' and b:
                    return True
                continue
            if t[0] == 'bin' and t[1] == '&' and b:
                return True            # a constant
            if t[0] == 'bin' and t[1] == '==' and t[3] == C0 and t[2][0] == 'bin' and t[2][1] == '&' and not b:
                return True
            if t[0] == 'bin' and t[1] == '<' and not b and has(t[3], lambda x: x[:2] == ('g', 'NodeSpc')):
                return True            # not a node
            if t[0] == 'fld' and t[2] == 'varrfc' and b:
                return True
            if t[0] == 'bin' and t[1] == '==' and t[3] == C0 and t[2][0] == 'fld' and t[2][2] == 'varrfc' and not b:
                return True
        return False


# functions of one operand that lose nothing
INJ = ('GetID', 'bddcopy', 'BDDvar', 'bddprime', 'BDD_VarOfLev', 'BDD_LevOfVar', 'bddvaroflev', 'bddlevofvar')
INTS = ('int', 'unsigned int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'bddword', 'bddvar', 'bddp')


class Upper(Sym):
    """operations built on bddrcache / bddwcache"""

    def __init__(self, tus):
        super().__init__(tus)
        self.rel, self.aft = {}, {}
        # helpers that take the operation code (or a key) from their caller
        self.helpers = set()
        reach = {}
        for m, f in self.byname.items():
            for x in walk(f['body']):
                if x.get('k') == 'CallExpr' and x.get('fn') in ('bddrcache', 'bddwcache'):
                    o = x['c'][1]
                    if 'cv' not in o and self.constvar(o) is None:
                        self.helpers.add(m)
        grow = True
        while grow:
            grow = False
            for m, f in self.byname.items():
                if m in self.helpers:
                    continue
                for x in walk(f['body']):
                    if x.get('k') in ('CallExpr', 'CXXMemberCallExpr') and x.get('mg') in self.helpers:
                        args = x['c'][1:]
                        g = self.byname[x['mg']]
                        ok = any('cv' in a or self.constvar(a) is not None for a in args if a)
                        if not ok:
                            self.helpers.add(m)
                            grow = True
                            break
        # helpers that put a key together out of numbers
        self.keyers = set()
        for m, f in self.byname.items():
            for x in walk(f['body']):
                if x.get('k') in ('CallExpr', 'CXXMemberCallExpr') and (x.get('fn') in ('bddrcache', 'bddwcache') or x.get('mg') in self.helpers):
                    for y in (y for a in x['c'][1:] for y in walk(a)):
                        g = self.byname.get(y.get('mg')) if y.get('k') == 'CallExpr' else None
                        if g is not None and not g.get('cls') and y['mg'] not in self.helpers and y.get('fn', '').split('::')[-1] not in INJ and \
                                not g['file'].endswith(('bddc.cc', 'bddc.h')) and (g['ret'] or '').replace('const ', '').strip() in INTS and \
                                not any(z.get('k') in ('ForStmt', 'WhileStmt', 'DoStmt') or z.get('mg') == y['mg'] for z in walk(g['body'])):
                            self.keyers.add(y['mg'])

    def constvar(self, a):
        for x in walk(a):
            if x.get('k') == 'DeclRefExpr' and x['r'].get('s') == 'global':
                g = self.globs.get(x['r']['n'])
                if g and g.get('const') and g.get('init'):
                    for y in walk(g['init']):
                        if 'cv' in y:
                            return int(y['cv'])
            if x.get('k') == 'DeclRefExpr' and x['r'].get('k') == 'enum':
                return int(x['r']['v'])
        return None

    def inline(self, f, e):
        return (f.get('mg') or f['name']) in self.helpers or (f.get('mg') or f['name']) in self.keyers

    def after(self, f):
        """(variables, is the receiver) used between the lookup and the store"""
        m = f.get('mg') or f['name']
        if m not in self.aft:
            d, this, on = set(), False, False
            nodes = list(walk(f['body']))
            calls = [x for x in nodes if x.get('k') in ('CallExpr', 'CXXMemberCallExpr') and (x.get('fn') in ('bddrcache', 'bddwcache') or x.get('mg') in self.helpers)]
            if any(self.stores(x) for x in calls):
                inner = set()
                for x in nodes:
                    if any(x is c for c in calls):
                        on = True
                        inner |= {id(y) for y in walk(x)}
                    elif on and id(x) not in inner:
                        if x.get('k') == 'DeclRefExpr' and x['r'].get('s') == 'local' or x.get('k') == 'DeclRefExpr' and x['r'].get('k') == 'parm':
                            d.add(x['r']['d'])
                        if x.get('k') == 'CXXThisExpr':
                            this = True
            self.aft[m] = (d, this)
        return self.aft[m]

    def stores(self, x):
        if x.get('fn') == 'bddwcache':
            return True
        g = self.byname.get(x.get('mg'))
        return g is not None and x.get('mg') in self.helpers and any(
            y.get('k') in ('CallExpr', 'CXXMemberCallExpr') and y.get('mg') != x.get('mg') and self.stores(y) for y in walk(g['body']))

    def relevant(self, f):
        """variables the keys are computed from"""
        m = f.get('mg') or f['name']
        if m not in self.rel:
            d = {p['d'] for p in f['params']}

            def names(n):
                for x in walk(n):
                    if x.get('k') == 'DeclRefExpr' and 'd' in x['r']:
                        d.add(x['r']['d'])
            for x in walk(f['body']):
                if x.get('k') in ('CallExpr', 'CXXMemberCallExpr') and (x.get('fn') in ('bddrcache', 'bddwcache') or x.get('mg') in self.helpers):
                    for a in x['c'][1:4]:
                        if a is not None:
                            names(a)
            d |= self.after(f)[0]
            grow = True
            while grow:
                n0 = len(d)
                for x in walk(f['body']):
                    if x.get('k') == 'VarDecl' and x['d'] in d and x.get('c'):
                        names(x['c'][0])
                    if x.get('k') in ('BinaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr') and str(x.get('op', '')).endswith('='):
                        c = x['c'][1:] if x['k'] == 'CXXOperatorCallExpr' else x['c']
                        t = c[0]
                        while t is not None and t.get('c') and t['k'] != 'DeclRefExpr':
                            t = t['c'][0]
                        if t is not None and t.get('r', {}).get('d') in d and len(c) > 1 and x['op'] not in ('==', '<=', '>=', '!='):
                            names(c[1])
                grow = len(d) > n0
            self.rel[m] = d
        return self.rel[m]

    def prune(self, n, sts):
        if n['k'] not in ('IfStmt', 'SwitchStmt', 'ForStmt', 'WhileStmt', 'DoStmt') or len(sts) < 2:
            return sts
        rel, fr = self.relevant(self.stack[-1]), self.fr
        for s in sts:
            for k in list(s.env):
                if k[0] == fr and k[1] not in rel and k[1] != 'this' and s.env[k][0] != 'ref':
                    v = s.env[k]
                    s.env[k] = ('call', 'x::GetID', ('any', 'pruned')) if v[0] == 'call' and v[1].endswith('GetID') else ('any', ('pruned', k[1]))
            for q in list(s.x):
                if q[0] == 'n':
                    del s.x[q]
            s.mem = {q: v for q, v in s.mem.items() if q[0] != 'G'}
            s.ep = {}
            for t in list(s.facts):
                b = s.facts[t]
                if not b and t[0] == 'call' and t[1].split('::')[-1] == 'operator==' and strip(t[-1])[0] == 'c' and strip(t[2])[0] in ('p', 'fld', 'this'):
                    continue
                if not (b and t[:2] == ('bin', '==') and 'c' in (t[2][0], t[3][0])) and not (not b and t[0] in ('p', 'var', 'fld')) or has(t, lambda y: y[0] in ('any', 'call')):
                    del s.facts[t]
        return sts

    def on_call(self, e, fn, this, args, st, places):
        if fn == 'bddrcache':
            u = self.after(self.stack[0])[0]
            snap = tuple(sorted(((k[1], self.load(('V', k), st)) for k in st.env if len(k) == 2 and k[0] == 1 and k[1] in u), key=str))
            st.ev += (('look', args[0], args[1], args[2], e['l'], snap),)
            return [(('call', 'cached') + args, st)]
        if fn == 'bddwcache':
            st.ev += (('ent', args[0], args[1], args[2], args[3], e['l'], (self.excl(args[1], st), self.excl(args[2], st))),)
            return [(C0, st)]
        if e.get('op') in ('+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=') and places[0] is not None and e.get('cls'):
            v = ('call', fn, this) + args
            self.store(places[0], v, st, e)
            return [(v, st)]
        if e.get('cls') in ('ZBDD', 'BDD') and e.get('op') != '=':
            return [(('call', fn, this) + args, st)]
        return None

    def excl(self, t, st):
        """constant nodes a key operand is known not to be, or ('is', v)"""
        t = strip(t)
        if t[0] == 'c':
            return ('is', t[1] & 1)
        out = []
        if t[0] == 'call' and t[1].split('::')[-1] == 'GetID':
            x = strip(t[2])
            for u, b in st.facts.items():
                if not b and u[0] == 'call' and u[1].split('::')[-1] == 'operator==' and len(u) == 4:
                    a, c = strip(u[2]), strip(u[3])
                    if a == x and c[0] == 'c' and c[1] in (0, 1):
                        out.append(c[1])
        return ('not',) + tuple(sorted(out))

    def on_construct(self, e, cls, args, st, places):
        if cls in ('ZBDD', 'BDD') and not e.get('copy') and not e.get('move'):
            return [(('call', cls) + args, st)]

    def pure(self, e, fn):
        return True


def strip(t):
    while t[0] == 'call' and len(t) == 3 and t[1] in ('ZBDD', 'BDD'):
        t = t[2]
    return t


def leaves(t, keys):
    """inputs a value is computed from, apart from what the key holds"""
    t = strip(t)
    if t in keys or not t:
        return set()
    if t[0] in ('p', 'this'):
        return {t[:2]}
    if t[0] in ('fld', 'bin', 'un', 'call', 'rec', 'ite', 'adr'):
        out = set()
        for x in t[1:]:
            if isinstance(x, tuple):
                out |= leaves(x, keys)
        return out
    return set()


MAXLEV = 16


def injects(t):
    """what a key operand determines"""
    t = strip(t)
    if t[0] in ('p', 'this', 'fld', 'var'):
        if t[0] == 'fld' and t[1] == ('this',):
            return {t, ('this',)}
        if t[0] == 'fld' and t[2] == '*':
            return {t[1], t}
        return {t}
    n = t[1].split('::')[-1] if t[0] == 'call' else ''
    if n in INJ and len(t) == 3:
        return injects(t[2])
    if n == 'Change' and len(t) == 4 and strip(t[2])[0] == 'c':
        return injects(t[3])
    if n in ('operator+', 'operator|') and len(t) == 4:      # an unordered pair of variables
        a, b = strip(t[2]), strip(t[3])
        if all(x[0] == 'call' and x[1].split('::')[-1] == 'Change' and strip(x[2])[0] == 'c' for x in (a, b)):
            return injects(a) | injects(b)
    if t[0] == 'bin' and t[1] in ('+', '|', '^'):            # a pair of levels, each below 2^16
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == 'bin' and (a[1] == '<<' and a[3][0] == 'c' and a[3][1] >= MAXLEV or a[1] == '*' and a[3][0] == 'c' and a[3][1] >= 1 << MAXLEV):
                return injects(a[2]) | injects(b)
    if t[0] == 'bin' and t[1] in ('+', '^', '-') and t[3][0] == 'c':
        return injects(t[2])
    if t[0] == 'bin' and t[1] in ('<<', '*') and t[3][0] == 'c' and t[3][1]:
        return injects(t[2])
    if t[0] == 'un' and t[1] in ('-', '~'):
        return injects(t[2])
    return set()


def kind(S, rs):
    """is the looked-up word taken as a node (wrapped with a new reference) or a number"""
    return None


class Ops:
    def __init__(self, eng):
        self.eng = eng

    def run(self, tus):
        S = Upper(tus)
        todo = {}
        for m, f in S.byname.items():
            if m in S.helpers or f['name'] in ('bddrcache', 'bddwcache'):
                continue
            for x in walk(f['body']):
                if x.get('k') in ('CallExpr', 'CXXMemberCallExpr') and (x.get('mg') in S.helpers or x.get('fn') in ('bddrcache', 'bddwcache')):
                    todo[m] = f
        if len(todo) < 8:
            raise AnalysisBroken('only %d operations on top of the cache found' % len(todo))
        storers, lookers, kinds = {}, {}, {}
        for m, f in sorted(todo.items()):
            rs, _ = S.start(f)
            fn, path, L = f['name'], f['file'], f['line']
            for v, s in rs:
                looks = [x for x in s.ev if x[0] == 'look']
                for x in looks:
                    oc = cint(x[1])
                    if oc is None:
                        self.eng.rep(fn, 'unknown-code', 'look', x[4], path, 'the operation code of a lookup is not a constant')
                        continue
                    lookers.setdefault(oc, {}).setdefault(fn, set()).add((x[2] == x[3], f['file'], x[4]))
                for x in [x for x in s.ev if x[0] == 'ent']:
                    oc = cint(x[1])
                    if oc is None:
                        self.eng.rep(fn, 'unknown-code', 'ent', x[5], path, 'the operation code of a store is not a constant')
                        continue
                    storers.setdefault(oc, {}).setdefault(fn, (f, x[5], set(), set()))
                    storers[oc][fn][2].add((x[2] == x[3]))
                    storers[oc][fn][3].add(x[6])
                    mine = [y for y in looks if y[1] == x[1]]
                    if not mine:
                        other = sorted({str(cint(y[1])) for y in looks})
                        self.eng.rep(fn, 'store-without-lookup', str(oc), x[5], path,
                                     'a result is stored under code %d, which the operation does not look up%s' % (oc, ' (it looks up code %s)' % ','.join(other) if other else ''))
                    for y in mine:
                        for i, k in ((2, 'first'), (3, 'second')):
                            if strip(y[i]) != strip(x[i]):
                                self.eng.rep(fn, 'key-differs', '%d:%s' % (oc, k), x[5], path,
                                             'operation code %d is looked up with %s operand %s and stored with %s' % (oc, k, short(y[i]), short(x[i])))
                    # every input of what follows the lookup is determined by the key
                    det = injects(x[2]) | injects(x[3])
                    keys = {strip(x[2]), strip(x[3])}
                    keys |= {strip(k[2]) for k in keys if k[0] == 'call' and len(k) == 3}
                    need = set()
                    for y in mine:
                        for d, v in y[5]:
                            need |= leaves(v, keys)
                    if S.after(f)[1]:
                        need.add(('this',))
                    for p in need - det:
                        if any(b and t[0] == 'bin' and t[1] == '==' and p in (t[2], t[3]) and 'c' in (t[2][0], t[3][0]) for t, b in s.facts.items()):
                            continue
                        self.eng.rep(fn, 'key-misses', '%d:%s' % (oc, short(p)), x[5], path,
                                     'the key under which operation code %d stores its result does not determine its input %s (key operands %s and %s)' %
                                     (oc, short(p), short(x[2]), short(x[3])))
                    hv = strip(x[4])
                    node = hv[0] == 'call' and hv[1].split('::')[-1] == 'GetID'
                    kinds.setdefault(oc, set()).add(('node' if node else 'number', fn, x[5]))
        for oc, fs in storers.items():
            if len(fs) > 1 and not all(self.disjoint(fs[a][3], fs[b][3]) for a in fs for b in fs if a < b):
                n = sorted(fs)
                f, L = fs[n[0]][:2]
                self.eng.rep('+'.join(n), 'shared-code', str(oc), L, f['file'], 'the operations %s store their results under the same code %d' % (', '.join(n), oc))
            if oc < 20 or oc > 255:
                n = sorted(fs)[0]
                self.eng.rep(n, 'engine-code', str(oc), fs[n][1], fs[n][0]['file'], 'operation code %d belongs to the engine' % oc)
        for oc, fs in lookers.items():
            st = storers.get(oc, {})
            for fn, pats in fs.items():
                if fn not in st and st:
                    sp = set().union(*[v[2] for v in st.values()])
                    for same, path, L in pats:
                        if same not in sp:
                            self.eng.rep(fn, 'key-differs', '%d:shape' % oc, L, path, 'operation code %d is looked up with a different kind of key than it is stored with' % oc)
                    # a reader of another operation's entries
                    names = sorted(st)
                    if not any(self.related(S, todo, fn, n) for n in names):
                        self.eng.rep(fn, 'shared-code', str(oc), sorted(pats)[0][2], sorted(pats)[0][1],
                                     'looks up operation code %d, which operation %s stores under' % (oc, ', '.join(names)))
        for oc, ks in kinds.items():
            if len({k for k, _, _ in ks}) > 1:
                k = sorted(ks)[0]
                self.eng.rep(k[1], 'mixed-kind', str(oc), k[2], '', 'code %d stores both nodes and numbers' % oc)
        self.eng.n['operations on top of the cache'] = len(todo)
        self.eng.n['their codes'] = {oc: sorted(f.split('::')[-1] for f in fs) for oc, fs in sorted(storers.items())}
        return S

    def disjoint(self, xs, ys):
        """keys of two operations are never the same"""
        def apart(a, b):
            return a[0] == 'is' and (b[0] == 'is' and a[1] != b[1] or b[0] == 'not' and a[1] in b[1:])
        return all(any(apart(a[i], b[i]) or apart(b[i], a[i]) for i in (0, 1)) for a in xs for b in ys)

    def related(self, S, todo, a, b):
        """one of the two calls the other, or both are members of one class"""
        fa = [f for f in todo.values() if f['name'] == a]
        fb = [f for f in todo.values() if f['name'] == b]
        for x in fa:
            for y in fb:
                if x.get('cls') and x.get('cls') == y.get('cls'):
                    return True
                for n in walk(x['body']):
                    if n.get('mg') and n['mg'] == y.get('mg'):
                        return True
                for n in walk(y['body']):
                    if n.get('mg') and n['mg'] == x.get('mg'):
                        return True
        return False


def run():
    d = ccload.load(['SAPPOROBDD/bddc.cc', 'SAPPOROBDD/ZBDD.cc', 'SAPPOROBDD/BDD.cc', 'SAPPOROBDD/BDDCT.cc', 'graphillion/reconf.cc', 'graphillion/zdd.cc', 'graphillion/setset.cc'])
    eng = Engine()
    bd = [t for p, t in d.items() if p.endswith('bddc.cc')]
    if not bd:
        raise AnalysisBroken('bddc.cc is not built any more')
    eng.core(bd[0])
    Ops(eng).run([t for p, t in d.items() if not p.endswith('bddc.cc')])
    cov = dict(eng.n)
    cov['rule'] = ('an entry is returned only after its code and both operands were compared with the ones asked for; it is stored whole, under the key just looked up, '
                   'which determines every input of the operation; no two operations store under one code; a collection drops each entry that refers to a reclaimed node')
    cov['explanation'] = '%d engine operations with %d hit paths, %d operations built on the cache, %d purge cases' % (
        eng.n['engine operations'], eng.n['cache hits in apply'], eng.n['operations on top of the cache'], eng.n['purge cases'])
    return eng.out, cov, ['operation codes and operands are compared as values; the hash that chooses a slot does not matter for correctness',
                          'two different handles to one diagram have one node word (canonicity)']
