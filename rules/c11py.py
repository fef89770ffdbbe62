"""Python part of C11: operators, methods and in-place forms of every class."""
import ast
import pysym as P
import pyrun
from venn import Venn, SETOPS, REL
from c11cc import multi, relop

CL = ('GraphSet', 'VertexSetSet', 'EdgeVertexSetSet', 'DiGraphSet', 'setset')
NAT = {'union': 'union', 'update': 'union', '__or__': 'union', '__ior__': 'union', '__ror__': None,
       'intersection': 'intersection', 'intersection_update': 'intersection', '__and__': 'intersection', '__iand__': 'intersection',
       'difference': 'difference', 'difference_update': 'difference', '__sub__': 'difference', '__isub__': 'difference',
       'symmetric_difference': 'symmetric_difference', 'symmetric_difference_update': 'symmetric_difference',
       '__xor__': 'symmetric_difference', '__ixor__': 'symmetric_difference'}
NATREL = {'__eq__': '==', '__ne__': '!=', '__le__': '<=', '__lt__': '<', '__ge__': '>=', '__gt__': '>', 'issubset': '<=',
          'issuperset': '>=', 'isdisjoint': 'disjoint'}


def forms():
    """(label, number of other operands, body source, specification, result)"""
    F = []
    for op, sym in (('union', '|'), ('intersection', '&'), ('difference', '-'), ('symmetric_difference', '^')):
        F.append(('a %s b' % sym, 1, 'return a %s b' % sym, multi(op), 'new'))
        F.append(('a %s= b' % sym, 1, 'a %s= b\n return a' % sym, multi(op), 'self'))
        for k in range(4):
            bs = ', '.join('bcd'[:k])
            F.append(('a.%s(%s)' % (op, bs), k, 'return a.%s(%s)' % (op, bs), multi(op), 'new'))
            up = 'update' if op == 'union' else op + '_update'
            F.append(('a.%s(%s)' % (up, bs), k, 'a.%s(%s)\n return a' % (up, bs), multi(op), 'self'))
        F.append(('a %s a' % sym, 0, 'return a %s a' % sym, lambda V, v, a, op=op: SETOPS[op](V, a, a) & V.full, 'new'))
    F.append(('~a', 0, 'return ~a', lambda V, v, a: V.full & ~a, 'new'))
    F.append(('a.copy()', 0, 'return a.copy()', lambda V, v, a: a, 'new'))
    F.append(('bool(a)', 0, 'return bool(a)', lambda V, v, a: bool(v & a), 'truth'))
    F.append(('a.clear()', 0, 'a.clear()\n return a', lambda V, v, a: 0, 'self'))
    for r in ('==', '!=', '<=', '<', '>=', '>'):
        F.append(('a %s b' % r, 1, 'return a %s b' % r, relop(r), 'truth'))
    for m, r in (('issubset', '<='), ('issuperset', '>='), ('isdisjoint', 'disjoint')):
        F.append(('a.%s(b)' % m, 1, 'return a.%s(b)' % m, relop(r), 'truth'))
    return F


class Eval:
    def __init__(self, V, v):
        self.V, self.v = V, v

    def fam(self, t):
        V = self.V
        if not isinstance(t, tuple) or not t:
            return None
        if len(t) == 1 and t[0] in V.base:
            return V.base[t[0]]
        if t[0] == 'inst':
            return self.fam(t[2])
        if t[:2] == ('op', 'nat'):
            name, recv, args = t[2].split('.')[-1], t[3], list(t[4])
            if recv is None and args:
                recv, args = args[0], args[1:]
            a = self.fam(recv)
            if name in NAT and NAT[name]:
                for x in args:
                    if isinstance(x, tuple) and x and x[0] in ('star', 'listof', 'list'):
                        return None
                    b = self.fam(x)
                    if a is None or b is None:
                        return None
                    a = SETOPS[NAT[name]](V, a, b) & V.full
                return a
            if name in ('complement', '__invert__', 'invert') and a is not None:
                return V.full & ~a
            if name in ('copy', '__copy__'):
                return a
            if name == 'clear':
                return 0
            if name == '__init__':
                if not args or args[0] == P.NONE:
                    return 0
                return self.fam(args[0])
            if name == 'setset' and t[3] is None:
                return self.fam(t[4][0]) if t[4] else 0
        return None

    def truth(self, t):
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == 'k':
            return bool(t[2])
        if t[:2] == ('op', 'nat'):
            name = t[2].split('.')[-1]
            args = ([t[3]] if t[3] is not None else []) + list(t[4])
            if name in NATREL and len(args) == 2:
                a, b = self.fam(args[0]), self.fam(args[1])
                return None if a is None or b is None else REL[NATREL[name]](self.v, a, b)
            if name in ('__bool__', '__len__', 'len') and args:
                a = self.fam(args[0])
                return None if a is None else bool(self.v & a)
        if t[0] == 'op' and t[1] in ('not',):
            r = self.truth(t[2])
            return None if r is None else not r
        if t[0] == 'op' and t[1] in ('bool', 'truth'):
            return self.truth(t[2])
        if t[0] == 'op' and t[1] == 'len':
            a = self.fam(t[2])
            return None if a is None else bool(self.v & a)
        return None


def operand(st, cls, tag):
    if cls == 'setset':
        return st.alloc(P.Node('inst', cls='setset', fields={'$def': (tag,), '$init': P.K(True)}))
    b = st.alloc(P.Node('inst', cls='setset_base', fields={'$def': (tag,), '$init': P.K(True)}))
    return st.alloc(P.Node('inst', cls=cls, fields={'_ss': b, '$init': P.K(True)}))


PROG = None
LOC = {}


def evaluate(cls, label, k, body, spec, res):
    ev = P.Ev(PROG)
    names = ['A', 'B', 'C', 'D'][:k + 1]
    V = Venn(names)
    src = 'def _op(%s):\n %s\n' % (', '.join('abcd'[:k + 1]), body)
    fn = ast.parse(src).body[0]
    qual = '$op'
    mod = PROG.classes[cls].mod
    PROG.funcs[qual] = (fn, mod, None, 'plain')
    st = P.State()
    xs = [operand(st, cls, n) for n in names]
    rs = ev.run(qual, xs, st)
    bad, und, chk, good = [], None, 0, 0
    for v in V.vals:
        E = Eval(V, v)
        want = spec(V, v, *[V.base[x] for x in names])
        for s, how, val in rs:
            if how != 'ret' or not holds(E, ev, s):
                continue
            chk += 1
            pat = 'when ' + nonempty(V, v)
            # the operands that are not to change
            for x, n in list(zip(xs, names))[(1 if res == 'self' else 0):]:
                m = E.fam(ev.struct(s, x))
                if m is not None and (m ^ V.base[n]) & v:
                    bad.append('changes its operand ' + n)
            t = ev.struct(s, val)
            if res == 'truth':
                got = E.truth(t)
                if got is None:
                    und = 'result %s' % (str(t)[:150])
                    continue
                good += 1
                if got != want:
                    bad.append('gives %s instead of %s %s' % (got, want, pat))
                continue
            m = E.fam(t)
            if m is None:
                und = 'result %s' % (str(t)[:150])
                continue
            good += 1
            if (m ^ want) & v:
                bad.append('gives %s instead of %s %s' % (V.show(m), V.show(want), pat))
            if res == 'self' and val != xs[0]:
                bad.append('rebinds its receiver to another object')
            if val[0] == 'ref' and s.heap[val[1]].cls not in (cls, '_graphillion.setset' if cls == 'setset' else cls):
                bad.append('gives a %s' % s.heap[val[1]].cls)
    seen = []
    for b in bad:
        if b not in seen:
            seen.append(b)
    if not good and und is None:
        und = 'no path returns'
    return seen, und, chk, ev.reached


def holds(E, ev, s):
    for k, b in s.facts.items():
        if not isinstance(b, bool):
            continue
        t = k[1] if isinstance(k, tuple) and k and k[0] in ('truth', 'true') and len(k) == 2 else k
        r = E.truth(t)
        if r is not None and r != b:
            return False
    return True


def nonempty(V, v):
    r = [x for x in range(1 << len(V.names)) if v >> x & 1]
    return 'the non-empty regions are ' + ', '.join('&'.join(n if x >> i & 1 else '~' + n for i, n in enumerate(V.names)) for x in r[:4])


def defline(cls, label):
    """where the class defines the operation"""
    m = {'|': '__or__', '&': '__and__', '-': '__sub__', '^': '__xor__', '==': '__eq__', '!=': '__ne__', '<=': '__le__', '<': '__lt__', '>=': '__ge__', '>': '__gt__'}
    w = label.split()
    name = label.split('.')[1].split('(')[0] if '.' in label else '__invert__' if label == '~a' else '__bool__' if 'bool' in label else \
        m.get(w[1], '__i' + m.get(w[1][:-1], '____')[2:])
    d = PROG.classes[cls].attrs.get(name)
    line = getattr(d[1], 'lineno', 0) if d else PROG.classes[cls].node.lineno
    return '%s:%s' % (PROG.files.get(PROG.classes[cls].mod, '?').split('/')[-1], line)


def job(x):
    cls, i = x
    label, k, body, spec, res = FORMS[i]
    return evaluate(cls, label, k, body, spec, res)


FORMS = forms()


def run(prog):
    global PROG
    PROG = prog
    jobs = [(c, i) for c in CL for i in range(len(FORMS))]
    return jobs, pyrun.pmap(job, jobs)
