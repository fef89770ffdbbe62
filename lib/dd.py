"""Decision-diagram terms of the native searches, by value-numbering evaluation
of the C++ search functions (lib/sym.py).

  ('graph', n)              a graph object built by the function
  ('max',)                  number of variables created so far
  ('size', 'E'|'V', graph)  its edges / vertices
  ('spec', class, args)     a TdZdd specification; ('szdd', family, offset) reads a family
  ('and'|'or', a, b)        intersection or union of two specifications
  ('ddfull', n)             all subsets of n levels        ('dds', spec)  the diagram of a specification
  ('dsub', diagram, spec)   the subset of a diagram that a specification accepts
  ('rd', family, offset)    a diagram read from a family
  ('eval', diagram, evaluator, args)
  ('fam', ...) leaves and ('zop', op, a, b) as in rules/c11cc
"""
import ccload
from sym import Sym, mk, C0

GRAPH = ('tdzdd::Graph', 'Digraph', 'graphillion::Digraph', 'tdzdd::Digraph')
ZOPS = {'+': 'union', '|': 'union', '&': 'intersection', '-': 'difference'}
KEEP = {'zddReduce', 'bddReduce', 'useMultiProcessors', 'qddReduce', 'dump', 'dumpDot'}
SAME = {'addEdge', 'update', 'setColor', 'setDefaultColor', 'clearColors', 'dump', 'readEdges'}


def base(cls):
    c = (cls or '').split('<')[0]
    return c.split('::')[-1]


def isgraph(cls):
    return base(cls) in ('Graph', 'Digraph')


def isdd(cls):
    return base(cls) in ('DdStructure',)


def isz(t):
    return isinstance(t, tuple) and bool(t) and t[0] in ('fam', 'zop', 'bot', 'top', 'eval', 'filt')


class DD(Sym):
    MAXST = 8000

    def __init__(self, tus):
        super().__init__(tus)
        self.specs = self.derived()

    def derived(self):
        """classes that derive from a TdZdd specification or evaluator"""
        sp, todo = {}, True
        while todo:
            todo = False
            for n, r in self.records.items():
                if n in sp:
                    continue
                for b in r.get('bases') or []:
                    k = base(b)
                    k = 'spec' if k in ('DdSpec', 'DdSpecBase', 'PodArrayDdSpec', 'PodHybridDdSpec', 'HybridDdSpec', 'ScalarDdSpec', 'StatelessDdSpec',
                                        'PodStatelessDdSpec') else 'eval' if k == 'DdEval' else sp.get(b) or sp.get(b.split('<')[0])
                    if k:
                        sp[n] = k
                        todo = True
                        break
        return sp

    def kind(self, cls):
        return self.specs.get(cls) or self.specs.get((cls or '').split('<')[0]) or next(
            (k for n, k in self.specs.items() if base(n) == base(cls) and cls), None)

    def inline(self, f, e):
        p = f['file']
        if not p.startswith(ccload.REPO) or '/SAPPOROBDD/' in p or '/subsetting/' in p:
            return False
        cls = f.get('cls') or ''
        if self.kind(cls) or isgraph(cls) or base(cls) in ('VariableList', 'FrontierManager'):
            return False
        return True

    def pure(self, e, fn):
        return True

    def clobber(self, st):
        pass

    def on_construct(self, e, cls, args, st, places):
        if isgraph(cls):
            if args and args[0][0] == 'graph':
                return [(args[0], st)]
            if not args:
                return [(('graph', (self.stack[-1].get('name'), e.get('l'), self.fr)), st)]
        if isdd(cls):
            if not args:
                return [(('dd0',), st)]
            a = args[0]
            if a[0] in ('dds', 'dsub', 'ddfull', 'dd0', 'ddany', 'rd') and (e.get('copy') or e.get('move') or len(args) == 1):
                return [(a, st)]
            if a[0] in ('spec', 'and', 'or'):
                return [(('dds', a), st)]
            if a[0] == 'szdd':
                return [(('rd', a[1], a[2]), st)]
            if self.num(a):
                return [(('ddfull', a), st)]
            return [(('ddany', a), st)]
        k = self.kind(cls)
        if k == 'spec':
            b = base(cls)
            if (e.get('copy') or e.get('move')) and args:
                return [(args[0], st)]
            if b == 'SapporoZdd':
                return [(('szdd', args[0], args[1] if len(args) > 1 else C0), st)]
            if b in ('ZddIntersection', 'BddAnd') and len(args) == 2:
                return [(('and', args[0], args[1]), st)]
            if b in ('ZddUnion', 'BddOr') and len(args) == 2:
                return [(('or', args[0], args[1]), st)]
            return [(('spec', b) + args, st)]
        if k == 'eval':
            if (e.get('copy') or e.get('move')) and args:
                return [(args[0], st)]
            return [(('evaluator', base(cls)) + args, st)]
        if base(cls) == 'ZBDD':
            if not args or args[0] == C0:
                return [(('bot',), st)]
            if args[0] == ('c', 1):
                return [(('top',), st)]
            if (e.get('copy') or e.get('move')) or isz(args[0]):
                return [(args[0], st)]
        if cls == 'graphillion::setset':
            if (e.get('copy') or e.get('move')) and args:
                return [(args[0], st)]
            if not args:
                return [(('rec', cls, (('zdd_', ('bot',)),)), st)]
            if len(args) == 1 and isz(args[0]):
                return [(('rec', cls, (('zdd_', args[0]),)), st)]
        if base(cls) == 'pair' and len(args) == 2:
            return [(('rec', 'pair', (('first', args[0]), ('second', args[1]))), st)]
        return None

    def num(self, t):
        return t[0] in ('c', 'size', 'max') or t[0] == 'bin' and t[1] in '+-' and self.num(t[2]) and self.num(t[3])

    def on_call(self, e, fn, this, args, st, places):
        op, short, cls = e.get('op'), fn.split('::')[-1], e.get('cls') or ''
        if short in ('max_elem',) and fn.startswith('graphillion') or fn == 'BDD_VarUsed' or fn == 'bddvarused':
            return [(('max',), st)]
        if isgraph(cls) and this is not None:
            if short in ('edgeSize',):
                return [(('size', 'E', this), st)]
            if short in ('vertexSize',):
                return [(('size', 'V', this), st)]
            if short in SAME:
                return [(C0, st)]
        if isdd(cls) and this is not None:
            if short == 'zddSubset' and args:
                v = ('dsub', this, args[0])
                if places[0] is not None:
                    self.store(places[0], v, st, e)
                return [(C0, st)]
            if short in KEEP:
                return [(C0, st)]
            if short == 'evaluate' and args:
                return [(('eval', this) + tuple(args[0][1:]) if args[0][0] == 'evaluator' else ('eval', this, '?', args[0]), st)]
        if op is None and short.startswith('operator'):
            op = short[8:]
        allz = [x for x in ((this,) if this is not None else ()) + tuple(args)]
        if op in ZOPS and len(allz) == 2 and all(isz(x) for x in allz):
            return [(('zop', ZOPS[op], allz[0], allz[1]), st)]
        if op in ('==', '!=') and len(allz) == 2 and all(isz(x) for x in allz):
            t = ('rel', '==', allz[0], allz[1])
            return [(t if op == '==' else ('un', '!', t), st)]
        if op in ('+=', '&=', '-=') and base(cls) == 'ZBDD' and len(args) == 1:
            v = ('zop', ZOPS[op[:-1]], this, args[0])
            if places[0] is not None:
                self.store(places[0], v, st, e)
            return [(v, st)]
        if fn == 'graphillion::bot':
            return [(('bot',), st)]
        if fn == 'graphillion::top':
            return [(('top',), st)]
        if fn in ('omp_get_num_procs', 'omp_get_max_threads'):
            return [(('procs',), st)]
        return self.more(e, fn, this, args, st, places)

    def more(self, e, fn, this, args, st, places):
        return None

    def havoc(self, n, nodes, st):
        old = st.env
        st2 = super().havoc(n, nodes, st)
        for k, v in list(st2.env.items()):
            o = old.get(k)
            if o is not None and o != v and o[0] in ('graph', 'dd0', 'dds', 'dsub', 'ddfull', 'rd', 'szdd', 'spec', 'setset'):
                if o[0] in ('dds', 'dsub', 'ddfull', 'rd'):
                    # what a loop does to a diagram: only taking subsets is followed
                    ok = all(self.onlysub(x, k[1]) for x in nodes)
                    st2.env[k] = ('dsub', o, ('spec', 'loop')) if ok else v
                else:
                    st2.env[k] = o
        return st2

    def onlysub(self, n, d):
        for x in ccload.walk(n):
            if x.get('k') in ('BinaryOperator', 'CXXOperatorCallExpr') and x.get('op') == '=':
                c = x['c'][1:] if x['k'] == 'CXXOperatorCallExpr' else x['c']
                for y in ccload.walk(c[0]):
                    if y.get('k') == 'DeclRefExpr' and y['r'].get('d') == d:
                        return False
            elif x.get('k') in ('CallExpr', 'CXXConstructExpr') and any('&' in t and not t.startswith('const ') and '&&' not in t for t in x.get('pt') or []):
                for y in ccload.walk(x):
                    if y.get('k') == 'DeclRefExpr' and y['r'].get('d') == d:
                        return False
        return True


def lin(t):
    """a linear combination {atom: coefficient} of a numeric term, or None"""
    if t[0] == 'c':
        return {1: t[1]} if t[1] else {}
    if t[0] in ('max', 'size'):
        return {t: 1}
    if t[0] == 'bin' and t[1] in '+-':
        a, b = lin(t[2]), lin(t[3])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t[1] == '+' else -v)
        return {k: v for k, v in r.items() if v}
    return None


def showlin(t):
    r = lin(t)
    if r is None:
        return 'a value the analysis cannot follow'
    n = lambda k: '1' if k == 1 else 'the number of variables' if k == ('max',) else 'edges' if k[1] == 'E' else 'vertices'
    return ' '.join('%s%s' % ('+ ' if v == 1 else '- ' if v == -1 else '%+d*' % v, n(k)) for k, v in sorted(r.items(), key=repr)) or '0'
