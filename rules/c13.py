"""Each collection class translates through its own universe."""
import pysym as P
import pyrun
from ccload import AnalysisBroken
from report import Finding
from pyrun import OWN

SIZED = {'complement': 0, '_invert': 0, 'hitting': 0, 'flip_all': 0, 'probability': 0,
         'add_some_element': 0, 'remove_add_some_elements': 0, '__init__': 1}


def subterm(t, pred):
    if isinstance(t, tuple):
        if pred(t):
            return t
        for x in t:
            r = subterm(x, pred)
            if r is not None:
                return r
    return None


UNI = {'Universe.edge_universe': 'GraphSet', 'Universe.vertex_universe': 'VertexSetSet',
       'Universe.edge_vertex_universe': 'EdgeVertexSetSet'}


class Conv(P.Ev):
    def __init__(self, prog):
        super().__init__(prog)
        self.out = []
        self.uses = set()
        self.sizes = set()
        self.rets = 0
        self.root = None

    def owner(self):
        for f in reversed(self.stack):
            if f[0] in UNI:
                return UNI[f[0]], f[0]
            c = f[0].split('.')[0]
            if c in OWN:
                return c, f[0]
        return None, None

    def add(self, key, st, node, rule, msg):
        self.out.append((key, self.where(st, node), rule, msg,
                         tuple(f[0] for f in self.stack)))

    def on_tbl(self, st, table, field, node):
        c, q = self.owner()
        if c is None:
            return
        self.uses.add((q, table))
        if table != OWN[c]:
            self.add('c13:%s:%s' % (q, table), st, node, 'own-table',
                     '%s converts through %s, but the universe of %s is %s' % (q, table, c, OWN[c]))

    def is_size(self, v, table):
        a = ('op', 'len', ('tblf', table, 'int2obj'))
        b = ('op', 'len', ('tblf', table, 'obj2int'))
        return self.lin(v) in ((-1, {a: 1}), (0, {b: 1}))

    def on_native(self, st, name, recv, args, kwargs, node):
        short = name.split('.')[-1]
        c, q = self.owner()
        if c and name.startswith('setset.') and short in SIZED:
            v = kwargs.get('num_elems')
            if v is None and len(args) > SIZED[short]:
                v = args[SIZED[short]]
            if short == '__init__' and args:
                # the size only matters for constraints
                t = self.struct(st, args[0])
                if t[0] in ('inst', 'list', 'set'):
                    v = None
            if v is not None:
                self.sizes.add((q, short))
                if not self.is_size(v, OWN[c]):
                    self.add('c13:size:%s:%s' % (q, short), st, node, 'own-size',
                             '%s hands %s a universe size that is not the size of %s: %s' % (q, short, OWN[c], str(v)[:120]))
        if c:
            for a in list(args) + list(kwargs.values()):
                self.scan(st, self.struct(st, a), c, q, short, node)
        return None

    def scan(self, st, t, c, q, short, node):
        b = subterm(t, lambda x: len(x) == 3 and x[0] == 'tblf' and x[1] != OWN[c])
        if b is not None:
            self.add('c13:arg:%s:%s' % (q, short), st, node, 'own-table',
                     'a value that %s passes to the native %s was computed from %s, not from %s' % (q, short, b[1], OWN[c]))

    def raw(self, t, top=True):
        """a native element number or number set that reaches the caller untranslated"""
        if not isinstance(t, tuple) or not t:
            return None
        if t[0] == 'op' and len(t) > 1 and t[1] == 'natset':
            return t
        if t[0] == 'op' and len(t) > 1 and t[1] in ('nat', 'in', 'len', 'natiter'):
            return None
        if t[0] == 'inst':
            return None
        if t[0] == 'item' and len(t) == 3 and t[1][0] == 'tblf' and t[1][2] == 'int2obj':
            return None
        for x in t:
            r = self.raw(x, False)
            if r is not None:
                return r
        return None

    def leave(self, st, v, what):
        t = self.struct(st, v)
        self.rets += 1
        c, q = self.owner()
        if q is None:
            q = self.root
            c = UNI.get(q, q.split('.')[0])
        if self.raw(t) is not None:
            self.add('c13:raw:%s' % q, st, None, 'translated',
                     '%s hands native element numbers to its caller without translating them through %s' % (q, OWN[c]))
        b = subterm(t, lambda x: len(x) == 3 and x[0] == 'tblf' and x[1] != OWN[c])
        if b is not None and subterm(t, lambda x: len(x) == 3 and x[0] == 'inst') is None:
            self.add('c13:ret:%s' % q, st, None, 'own-table',
                     '%s returns a value translated through %s, not through %s' % (q, b[1], OWN[c]))

    def on_yield(self, st, v, node):
        self.leave(st, v, 'yields')


def job(x):
    qual, kind = x
    c, a = qual.split('.', 1)
    fn = PROG.classes[c].attrs[a][1]
    ev = Conv(PROG)
    ev.root = qual
    st, args = pyrun.start(ev, c, a, fn, kind)
    rs = ev.run(qual, args, st)
    for s, how, v in rs:
        if how == 'ret' and a not in ('__init__',):
            ev.leave(s, v, 'returns')
    return ev.out, ev.uses, ev.sizes, len(rs), ev.rets, ev.reached


class Setter(P.Ev):
    """which universes a function that sets one changes"""
    JOIN_AT = 1
    root = None

    def __init__(self, prog):
        super().__init__(prog)
        self.out, self.written = [], set()

    def wrote(self, st, t, node):
        self.written.add(t)
        if not t.startswith(SHARED[self.root]):
            self.out.append(('c13:set:%s:%s' % (self.root, t), self.where(st, node), 'own-universe',
                             '%s changes %s, which does not belong to the universe it sets' % (self.root, t), tuple(f[0] for f in self.stack)))

    def on_cset(self, st, cls, attr, val, node):
        if (cls, attr) in self.p.mutable:
            self.wrote(st, cls + '.' + attr, node)

    def on_mut(self, st, target, how, node):
        t = target
        while t and t[0] in ('item', 'elem', 'val', 'key', 'attr', 'slice', 'refv'):
            t = t[1]
        if t[0] == 'tblf':
            self.wrote(st, t[1], node)
        elif t[0] == 'cst':
            self.wrote(st, t[1] + '.' + t[2], node)


EDGES = ('Universe.',)
VERTS = ('Universe.v_objtable', 'Universe.weights')
SHARED = {'GraphSet.set_universe': EDGES, 'Universe.set_universe': EDGES, 'EdgeVertexSetSet.set_universe': EDGES,
          'VertexSetSet.set_universe': VERTS, 'Universe.set_vertex_universe': VERTS,
          'DiGraphSet.set_universe': ('DiGraphSet.',), 'setset.set_universe': ('setset.',)}


def setter(x):
    qual, kind = x
    c, a = qual.split('.', 1)
    ev = Setter(PROG)
    ev.root = qual
    st, args = pyrun.start(ev, c, a, PROG.classes[c].attrs[a][1], kind)
    rs = ev.run(qual, args, st)
    return ev.out, sorted(ev.written), len(rs)


PROG = None


def run():
    global PROG
    PROG = P.Prog()
    # setting a universe is what changes the tables, of other classes too
    ents = [(c + '.' + a, kind) for c, a, fn, kind in pyrun.methods(PROG)
            if a not in ('set_universe',)]
    ents += [(q, 'static') for q in UNI if q in PROG.funcs]
    res = pyrun.pmap(job, ents)
    fs, uses, sizes, reached, skipped, paths, rets = [], set(), set(), set(), [], 0, 0
    for x, r, err, dt in res:
        if err:
            skipped.append('%s: %s' % (x[0], err))
            continue
        out, u, s, n, k, re = r
        for key, wh, rule, msg, stack in out:
            fs.append(Finding(key, wh, rule, msg, ['entry ' + x[0]] + [q for q in stack]))
        uses |= u
        sizes |= s
        reached |= re
        paths += n
        rets += k
    sets = {}
    for x, r, err, dt in pyrun.pmap(setter, [(q, 'static') for q in SHARED if q in PROG.funcs], limit=600):
        if err:
            skipped.append('%s: %s' % (x[0], err))
            continue
        out, written, n = r
        for key, wh, rule, msg, stack in out:
            fs.append(Finding(key, wh, rule, msg, ['entry ' + x[0]] + [q for q in stack]))
        sets[x[0]] = written
        paths += n
    if len(sets) < 4:
        raise AnalysisBroken('only %d functions that set a universe analysed' % len(sets))
    if len(uses) < 60 or len(sizes) < 10:
        raise AnalysisBroken('only %d table uses and %d sizes found' % (len(uses), len(sizes)))
    cov = dict(entry_points=len(ents) - len(skipped), not_analysed=skipped, paths=paths, universes_set=sets,
               functions_evaluated=len(reached), table_uses=len(uses), size_arguments=len(sizes), results=rets,
               rule='inside a collection class every element table that is read, every universe size handed over and every translated result belongs to that class; a function that sets a universe changes no other universe',
               explanation='%d entry points on %d paths; %d (function, table) uses, %d size arguments and %d results checked'
               % (len(ents) - len(skipped), paths, len(uses), len(sizes), rets))
    return fs, cov, pyrun.ASSUME
