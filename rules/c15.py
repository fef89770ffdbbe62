"""Queries and rejected operations never extend the universe."""
import pysym as P
import pyrun
from ccload import AnalysisBroken
from report import Finding

CLASSES = ('GraphSet', 'VertexSetSet', 'EdgeVertexSetSet', 'DiGraphSet')
SETTERS = ('set_universe', 'set_vertex_universe', 'set_edge_universe', 'set_edge_vertex_universe')
STATE = ('Universe', 'DiGraphSet')


class Grow(P.Ev):
    root = None

    def __init__(self, prog):
        super().__init__(prog)
        self.out = []
        self.convs = set()
        self.crossings = set()
        self.rej = 0

    def add(self, key, st, node, rule, msg):
        self.out.append((key, self.where(st, node), rule, msg, tuple(f[0] for f in self.stack)))

    def target(self, st, t):
        """which part of a universe a changed object belongs to"""
        while t and t[0] in ('item', 'elem', 'val', 'key', 'attr', 'slice'):
            t = t[1]
        if t[0] == 'tblf' and t[1].split('.')[0] in STATE:
            return t[1] + '.' + t[2]
        if t[0] == 'cst' and t[1] in STATE:
            return t[1] + '.' + t[2]
        if t[0] == 'ref' and '$tbl' in st.heap[t[1]].fields and st.heap[t[1]].fields['$tbl'].split('.')[0] in STATE:
            return st.heap[t[1]].fields['$tbl']
        return None

    def fname(self):
        for f in reversed(self.stack):
            if f[0].split('.')[0] in CLASSES:
                return f[0]
        return self.root

    def on_mut(self, st, target, how, node):
        t = self.target(st, target)
        if t:
            self.add('c15:grow:%s:%s' % (self.fname(), t), st, node, 'universe-unchanged',
                     '%s can change %s (%s): an element that is not in the universe is added to it instead of being rejected' % (self.root, t, how))

    def on_cset(self, st, cls, attr, val, node):
        if cls in STATE and (cls, attr) in self.p.mutable:
            self.add('c15:set:%s:%s.%s' % (self.fname(), cls, attr), st, node, 'universe-unchanged',
                     '%s replaces %s.%s although it does not set a universe' % (self.root, cls, attr))

    def on_tbl(self, st, table, field, node):
        self.convs.add((self.fname(), table))

    def on_native(self, st, name, recv, args, kwargs, node):
        if name in P.N_FUNC_SET or name == '_reliability':
            for i, a in list(enumerate(args)) + sorted(kwargs.items()):
                self.scan(st, a, frozenset(st.facts.items()), name, i, node, set())
        return None

    def scan(self, st, v, facts, name, i, node, seen):
        """caller's vertices and edges cross into a search only once they are
        known to be in the universe"""
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == 'ref':
            if v[1] in seen:
                return
            n = st.heap[v[1]]
            for e in n.entries if n.kind in ('list', 'set', 'dict') else ():
                if n.kind == 'dict':
                    self.scan(st, e[1], facts | e[3], name, i, node, seen | {v[1]})
                    self.scan(st, e[2], facts | e[3], name, i, node, seen | {v[1]})
                else:
                    self.scan(st, e[1], facts | e[2], name, i, node, seen | {v[1]})
            return
        if v[0] == 'op' and v[1] == 'pickle':
            if not any(t[0] == 'arg' and t[1] != 'self' for t in P.subterms(v[2]) if t):
                return
            self.crossings.add((self.fname(), name, i))
            if not self.known(v[2], facts):
                self.add('c15:unchecked:%s:%s:%s' % (self.fname(), name, i), st, node, 'known-elements',
                         '%s passes a vertex or edge of its caller to %s (%s) without establishing that it is in the universe' % (self.fname(), name, i))
            return
        for y in v:
            self.scan(st, y, facts, name, i, node, seen)

    def known(self, x, facts):
        for f, b in facts:
            if b is not True or f[0] != 'op' or f[1] != 'in':
                continue
            c = f[3]
            if f[2] == x and (c[0] == 'cst' and c[2].lstrip('_') in ('vertices', 'isolated_vertices') or c[0] == 'tblf'):
                return True
            if x[0] == 'item' and c[0] == 'tblf' and x[1] in P.subterms(f[2]):
                return True
        return False

    def own(self, st, v):
        """the native family of the receiver"""
        s = ('arg', 'self')
        return v == ('attr', s, '_ss')


def job(x):
    qual, kind = x
    c, a = qual.split('.', 1)
    ev = Grow(PROG)
    ev.root = qual
    st, args = pyrun.start(ev, c, a, PROG.classes[c].attrs[a][1], kind)
    rs = ev.run(qual, args, st)
    out = []
    rej = 0
    for s, how, v in rs:
        if how != 'raise':
            continue
        rej += 1
        for e in s.evlist():
            if e[0] == 'nat' and e[1].startswith('setset.') and e[1][7:] in P.N_MUT and e[2] is not None and ev.own(s, e[2]):
                ev.out.append(('c15:partial:%s' % qual, e[5], 'rejected-unchanged',
                               '%s changes its collection (%s) on a path that then raises %s' % (qual, e[1], v.cls), ()))
    return ev.out, ev.convs, ev.reached, len(rs), rej, ev.crossings


PROG = None


def run():
    global PROG
    PROG = P.Prog()
    ents = [(c + '.' + a, kind) for c, a, fn, kind in pyrun.methods(PROG, CLASSES) if a not in SETTERS]
    ents += [('Universe.' + a, k) for c, a, fn, k in pyrun.methods(PROG, ('Universe',)) if a not in SETTERS]
    res = pyrun.pmap(job, ents)
    fs, reached, convs, skipped, paths, rej, cross = [], set(), set(), [], 0, 0, set()
    for x, r, err, dt in res:
        if err:
            skipped.append('%s: %s' % (x[0], err))
            continue
        out, cv, re, n, j, x2 = r
        cross |= x2
        for key, wh, rule, msg, stack in out:
            fs.append(Finding(key, wh, rule, msg, ['entry ' + x[0]] + list(stack)))
        reached |= re
        convs |= cv
        paths += n
        rej += j
    if len(cross) < 12 or len(convs) < 60 or len(skipped) > len(ents) // 4:
        raise AnalysisBroken('%d table uses, %d of %d entry points not analysed' % (len(convs), len(skipped), len(ents)))
    cov = dict(entry_points=len(ents) - len(skipped), not_analysed=skipped, paths=paths, rejecting_paths=rej,
               functions_evaluated=len(reached), table_uses=len(convs), crossings=['%s -> %s(%s)' % x for x in sorted(cross, key=str)],
               rule='no path of an operation other than setting a universe writes an element table, a vertex set or the weights; no path that ends in an exception raised by the library has changed the receiver; every vertex or edge of the caller that is passed to a native search is known to be in the universe',
               explanation='%d entry points on %d paths (%d of them rejecting), %d (function, table) uses, %d arguments passed on to native searches; none writes universe state'
               % (len(ents) - len(skipped), paths, rej, len(convs), len(cross)))
    return fs, cov, pyrun.ASSUME
