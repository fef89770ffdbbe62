"""C++ part of C11: the binding's slots and methods and the family class."""
import ccload, pyc
from ccload import AnalysisBroken, rel
from report import Finding
from sym import Sym, St
from venn import Venn, SETOPS, REL

PYCONST = {'_Py_TrueStruct': True, '_Py_FalseStruct': False}
ZOPS = {'+': 'union', '|': 'union', '&': 'intersection', '-': 'difference'}
CMP = {'Py_LT': (0, '<'), 'Py_LE': (1, '<='), 'Py_EQ': (2, '=='), 'Py_NE': (3, '!='), 'Py_GT': (4, '>'), 'Py_GE': (5, '>=')}


def zddval(t):
    return t[0] in ('fam',)


class CC(Sym):
    """families are terms ('fam', name) and ('zop', operation, a, b)"""
    k = 0

    def inline(self, f, e):
        return f['file'].startswith(ccload.REPO) and f['file'].endswith(('setset.cc', 'setset.h', 'pygraphillion.cc', 'pygraphillion.h')) or \
            f['name'] in ('graphillion::operator|',)

    def pure(self, e, fn):
        return True

    def clobber(self, st):
        pass

    def sub(self, place, m):
        if place[0] == 'M' and place[2] == '*':
            return ('lv', ('M', place[1], m))
        return super().sub(place, m)

    def isz(self, t):
        return t[0] in ('fam', 'zop', 'bot', 'null', 'all') or t[0] == 'call' and any(isinstance(x, tuple) and x and x[0] in ('fam', 'zop') for x in t[1:])

    def on_call(self, e, fn, this, args, st, places):
        op, short = e.get('op'), fn.split('::')[-1]
        if fn in ('Py_TYPE',):
            return [(('type', args[0]), st)]
        if fn in ('PyErr_Occurred',):
            return [(('c', 0), st)]
        if fn == 'PyType_IsSubtype' and args[0][0] == 'type':
            if args[0][1][0] == 'adr':
                return [(('c', int(args[1] == ('adr', ('G', 'PySetset_Type')))), st)]
            if args[0][1] == ('elem',):
                return [(('c', int(args[1] == ('adr', ('G', 'PySet_Type')))), st)]
            return None
        if fn in ('PyTuple_Size', 'PyTuple_GET_SIZE', 'Py_SIZE', 'PySequence_Size', 'PyObject_Size') and args and args[0] == ('tuple',):
            return [(('c', self.k), st)]
        if fn in ('PyTuple_GetItem', 'PyTuple_GET_ITEM', 'PySequence_GetItem') and args[0] == ('tuple',) and args[1][0] == 'c':
            return [(self.item(args[1][1]), st)]
        if short == 'setset_parse_set':
            return [(('c', 0), st)] if self.put(args, places, st) else None
        if fn == 'graphillion::complement' and self.isz(args[0]):
            return [(('zop', 'difference', ('all',), args[0]), st)]
        if fn == 'graphillion::bot':
            return [(('bot',), st)]
        if fn == 'graphillion::null':
            return [(('null',), st)]
        if fn in ('Py_INCREF', 'Py_DECREF', 'Py_XDECREF', 'Py_XINCREF'):
            return [(('c', 0), st)]
        if op is None and short.startswith('operator'):
            op = short[8:]
        allz = [x for x in ((this,) if this is not None else ()) + tuple(args)]
        cls = (e.get('cls') or '').split('::')[-1]
        if op in ZOPS and len(allz) == 2 and all(self.isz(x) for x in allz):
            return [(('zop', ZOPS[op], allz[0], allz[1]), st)]
        if op in ('+=', '|=', '&=', '-=') and cls in ('ZBDD', 'ZDD') and this is not None and self.isz(args[0]):
            v = ('zop', ZOPS[op[:-1]], this, args[0])
            if places[0] is not None:
                self.store(places[0], v, st, e)
            return [(('lv', places[0]) if places[0] is not None else v, st)]
        if op in ('==', '!=') and len(allz) == 2 and all(self.isz(x) for x in allz):
            t = ('rel', '==', allz[0], allz[1])
            return [(t if op == '==' else ('un', '!', t), st)]
        if cls in ('ZBDD', 'ZDD') and short == 'Intersec' and this is not None:
            return [(('zop', 'intersection', this, args[0]), st)]
        if fn in ('std::find',):
            return None
        return None

    def put(self, args, places, st):
        for i, a in enumerate(args):
            if a[0] == 'adr' and i:
                self.store(a[1], ('elems',), st)
                return True
        return False

    def item(self, i):
        return ('adr', ('V', (0, 'o%d' % i)))

    def on_construct(self, e, cls, args, st, places):
        if cls == 'graphillion::setset' and len(args) == 1:
            if args[0] == ('elems',):
                return [(('rec', cls, (('zdd_', ('fam', 'S')),)), st)]
        if cls in ('ZBDD',) and len(args) == 1 and args[0][0] == 'c':
            return [({0: ('bot',), -1: ('null',)}.get(args[0][1], ('call', 'ZBDD', args[0])), st)]
        return None

    def split(self, v, e, s):
        # what kind of object a Python value is has been chosen by the start state
        if v[0] == 'bin' and v[1] == '==':
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if a[0] == 'type' and b[0] == 'adr' and b[1][0] == 'G':
                    if a[1] == ('elem',):
                        return [(b[1][1] == 'PySet_Type', s)]
                    if a[1][0] == 'adr':
                        return [(b[1][1] == 'PySetset_Type', s)]
        if v[0] == 'bin' and v[1] == '&' or v[0] == 'bin' and v[2][0] == 'bin' and v[2][1] == '&':
            # tp_flags tests of PyLong_Check and the like
            t = v if v[1] == '&' else v[2]
            if any(x[0] == 'type' for x in subt(t)):
                return [(False, s)]
        return super().split(v, e, s)

    def e_CXXNewExpr(self, e, st):
        out = []
        for v, s in super().e_CXXNewExpr(e, st):
            if v[0] == 'new' and len(v) == 4 and v[3][0] == 'rec':
                k = (0, ('h',) + tuple([v[2]] if not isinstance(v[2], tuple) else v[2]))
                s.env[k] = v[3]
                out.append((('adr', ('V', k)), s))
            else:
                out.append((v, s))
        return out

    def indirect(self, e, ce, args, st):
        out = []
        for vs, s in self.rvs([ce] + args, st):
            n = s.x.get('alloc', 0)
            s.x['alloc'] = n + 1
            k = (0, 'new%d' % n)
            s.env[k] = ('pyobj',)
            out.append((('adr', ('V', k)), s))
        return out

    def e_MemberExpr(self, e, st):
        if e.get('m') in ('ob_size', 'ob_item'):
            for v, s in (self.rv(e['c'][0], st) if e.get('arrow') else self.ev(e['c'][0], st)):
                base = v
                if any(x == ('tuple',) for x in subt(base)) or base == ('tuple',):
                    return [((('c', self.k) if e['m'] == 'ob_size' else ('items',)), s)]
        return super().e_MemberExpr(e, st)

    def e_ArraySubscriptExpr(self, e, st):
        rs = self.rvs(e['c'], st)
        vs, s = rs[0]
        if len(rs) == 1 and self.value(vs[0], s) == ('items',):
            i = self.value(vs[1], s)
            return [(self.item(i[1]) if i[0] == 'c' and i[1] < self.k else ('any', 'item'), s)]
        return super().e_ArraySubscriptExpr(e, st)

    def loop(self, n, o, cur, cond, body, inc, dowhile=False):
        """a loop whose condition is decided by the known argument count is unrolled"""
        if cond is None or dowhile:
            return super().loop(n, o, cur, cond, body, inc, dowhile)
        start = cur
        for r in range(8):
            nxt = []
            for s in cur:
                rs = self.truth(cond, s.copy())
                if len(rs) != 1:
                    return super().loop(n, o, start, cond, body, inc, dowhile)
                if rs[0][0]:
                    nxt.append(rs[0][1])
                else:
                    o.n.append(rs[0][1])
            if not nxt:
                return o
            b = self.run(body, nxt)
            o.add(b, n=False, loop=False)
            o.n += b.brk
            cur = []
            for s in b.n + b.cont:
                cur += [s2 for _, s2 in self.ev(inc, s)] if inc is not None else [s]
        return super().loop(n, o, start, cond, body, inc, dowhile)


def subt(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


class Eval:
    def __init__(self, V, v):
        self.V, self.v = V, v

    def fam(self, t):
        """the regions a family term consists of, or None"""
        V = self.V
        if t[0] == 'fam':
            return V.base.get(t[1])
        if t[0] == 'bot':
            return 0
        if t[0] == 'all':
            return V.full
        if t[0] == 'zop':
            a, b = self.fam(t[2]), self.fam(t[3])
            return None if a is None or b is None else SETOPS[t[1]](V, a, b) & V.full
        if t[0] == 'rec':
            for k, x in t[2]:
                if k == 'zdd_':
                    return self.fam(x)
        return None

    def truth(self, t):
        if t[0] == 'c':
            return t[1] != 0
        if t[0] == 'un' and t[1] == '!':
            r = self.truth(t[2])
            return None if r is None else not r
        if t[0] == 'bin' and t[1] == '==' and t[3] == ('c', 0):
            r = self.truth(t[2])
            return None if r is None else not r
        if t[0] == 'rel':
            if ('null',) in (t[2], t[3]):
                return t[2] == t[3] if self.fam(t[2]) is not None or self.fam(t[3]) is not None or t[2] == t[3] else None
            a, b = self.fam(t[2]), self.fam(t[3])
            return None if a is None or b is None else not self.v & (a ^ b)
        if t[0] == 'adr' and t[1][0] == 'G':
            return PYCONST.get(t[1][1])
        return None

    def holds(self, facts):
        for t, b in facts.items():
            r = self.truth(t)
            if r is not None and r != b:
                return False
        return True


def multi(op):
    def f(V, v, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = SETOPS[op](V, r, x) & V.full
        return r
    return f


def relop(op):
    return lambda V, v, a, b: REL[op](v, a, b)


# (method or slot, form, operation): what the function must give
def table():
    T = []
    for slot, op in (('nb_or', 'union'), ('nb_and', 'intersection'), ('nb_subtract', 'difference'), ('nb_xor', 'symmetric_difference')):
        T.append((slot, 'binary', multi(op), 'new'))
        T.append(('nb_inplace_' + slot[3:], 'binary', multi(op), 'self'))
    for op in SETOPS:
        T.append((op, 'tuple', multi(op), 'new'))
        T.append((op + '_update' if op != 'union' else 'update', 'tuple', multi(op), 'none'))
    T.append(('nb_invert', 'unary', lambda V, v, a: V.full & ~a, 'new'))
    T.append(('invert', 'unary', lambda V, v, a: V.full & ~a, 'new'))
    T.append(('complement', 'int', lambda V, v, a: V.full & ~a, 'new'))
    T.append(('copy', 'unary', lambda V, v, a: a, 'new'))
    T.append(('nb_bool', 'unary', lambda V, v, a: bool(v & a), 'truth'))
    for m, op in (('isdisjoint', 'disjoint'), ('issubset', '<='), ('issuperset', '>=')):
        T.append((m, 'binary', relop(op), 'truth'))
    for c, (n, op) in CMP.items():
        T.append(('tp_richcompare', ('op', n, op), relop(op), 'truth'))
    T.append(('sq_contains', 'elem', lambda V, v, a, s: not v & s & ~a, 'truth'))
    T.append(('add', 'elem', lambda V, v, a, s: a | s, 'none'))
    T.append(('discard', 'elem', lambda V, v, a, s: a & ~s, 'none'))
    T.append(('remove', 'elem', lambda V, v, a, s: a & ~s if v & a & s else 'error', 'none'))
    T.append(('clear', 'unary', lambda V, v, a: 0, 'none'))
    return T


def run():
    d = ccload.load(['pygraphillion.cc', 'graphillion/setset.cc', 'graphillion/zdd.cc'])
    path = [p for p in d if p.endswith('pygraphillion.cc')]
    if not path:
        raise AnalysisBroken('setup.py no longer builds pygraphillion.cc')
    ents, slots, meths = pyc.tables(d[path[0]], path[0])
    byslot = {}
    for fn, role, desc, variants in ents:
        if desc.startswith('_graphillion.setset.'):
            byslot.setdefault(desc.split('.')[-1], fn)
    S = CC(d.values())
    S.MAXST = 20000
    out, checked, undecided, done = [], 0, [], []
    for name, form, spec, res in table():
        fn = byslot.get(name)
        f = S.byname.get(fn)
        if f is None:
            # an absent slot makes Python fall back to the plain operator or fail: existing tests notice
            undecided.append('%s: no such slot' % name)
            continue
        for k in ((0, 1, 2, 3) if form == 'tuple' else (1,)):
            n = {'binary': 1, 'tuple': k, 'unary': 0, 'int': 0, 'elem': 0}.get(form, 1)
            names = ['A'] + ['B%d' % i for i in range(n)] + (['S'] if form == 'elem' else [])
            V = Venn(names, ['S'] if form == 'elem' else ())
            label = name if form in ('unary', 'int', 'binary', 'elem') else '%s(%d others)' % (name, k) if form == 'tuple' else 'comparison ' + form[2]
            try:
                bad, und, nchk = one(S, f, form, n, V, spec, res)
            except AnalysisBroken as e:
                undecided.append('%s: %s' % (label, e))
                continue
            checked += nchk
            done.append(label)
            if und:
                undecided.append('%s: %s' % (label, und))
            for what in bad[:3]:
                out.append(Finding('c11:native:%s' % label, '%s:%s' % (rel(f['file']), f['line']), 'set-semantics', '%s (%s): %s' % (label, f['name'], what)))
    if len(done) < 30 or checked < 300:
        raise AnalysisBroken('only %d native operations decided (%d obligations); undecided: %s' % (len(done), checked, undecided[:4]))
    return out, dict(native_operations=done, native_obligations=checked, native_undecided=undecided, library_functions_followed=sorted(S.inlined))


def one(S, f, form, n, V, spec, res):
    st = St()
    P = [p['n'] for p in f['params']]

    def obj(i, nm):
        st.env[(0, i)] = ('pyobj',)
        st.env[(0, 'f' + i)] = ('rec', 'graphillion::setset', (('zdd_', ('fam', nm)),))
        st.env[(0, i, 'ss')] = ('adr', ('V', (0, 'f' + i)))
        return ('adr', ('V', (0, i)))
    args = {}
    if P:
        args[P[0]] = obj('self', 'A')
    others = [obj('o%d' % i, 'B%d' % i) for i in range(n)]
    S.k = n
    if len(P) > 1:
        args[P[1]] = ('tuple',) if form == 'tuple' else ('elem',) if form == 'elem' else ('int',) if form == 'int' else others[0] if others else ('c', 0)
    if len(P) > 2 and isinstance(form, tuple):
        args[P[2]] = ('c', form[1])
    rs, thr = S.start(f, args, st)
    bad, und, chk = [], None, 0
    decided = 0
    for v in V.vals:
        E = Eval(V, v)
        want = spec(V, v, *[V.base[x] for x in V.names])
        for val, s in rs:
            if not E.holds(s.facts):
                continue
            err = val == ('c', 0) and res in ('new', 'self', 'none') or val == ('c', -1)
            a = E.fam(S.load(('V', (0, 'fself', 'zdd_')), s))
            if err:
                if want == 'error' and a is not None and (a ^ V.base['A']) & v:
                    bad.append('fails although the receiver was changed')
                continue
            chk += 1
            pat = 'when %s' % nonempty(V, v)
            if res == 'truth':
                got = E.truth(val)
                if got is None:
                    und = 'result %s' % (str(val)[:120])
                    continue
                decided += 1
                if got != want:
                    bad.append('gives %s instead of %s %s' % (got, want, pat))
                continue
            if res == 'new':
                ss = S.load(('V', val[1][1] + ('ss',)), s) if val[0] == 'adr' and val[1][0] == 'V' else ('?',)
                r = E.fam(S.load(('V', ss[1][1] + ('zdd_',)), s)) if ss[0] == 'adr' and ss[1][0] == 'V' else None
            else:
                r = a
            if want == 'error':
                bad.append('succeeds on a set that is not a member')
                continue
            if r is None:
                und = 'family not a Boolean combination of the operands'
                continue
            decided += 1
            if (r ^ want) & v:
                bad.append('gives %s instead of %s %s' % (V.show(r), V.show(want), pat))
            if res == 'self' and val != args[P[0]]:
                bad.append('does not return its receiver')
    if not decided and und is None:
        und = 'no successful path found'
    seen = []
    for b in bad:
        if b not in seen:
            seen.append(b)
    return seen, und, chk


def nonempty(V, v):
    r = [x for x in range(1 << len(V.names)) if v >> x & 1]
    return 'the non-empty regions are ' + ', '.join('&'.join(n if x >> i & 1 else '~' + n for i, n in enumerate(V.names)) for x in r[:4])
