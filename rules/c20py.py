"""Python part of C20: the natives work on the elements of the current universe."""
import pysym as P
import pyrun
import c13
from pyrun import OWN

PROG = None
HISTORY = {'invert', '__invert__', 'num_elems', '_num_elems'}      # natives that count the elements of all universes so far
TRAV = ('op', 'traversed')
TOP = '_get_vertices_from_top'


class Nat(c13.Conv):
    """native calls of one public function"""

    def add(self, key, st, node, rule, msg):
        if rule == 'own-size':
            super().add(key.replace('c13:', 'c20:'), st, node, 'current-universe', msg)

    def on_native(self, st, name, recv, args, kwargs, node):
        short = name.split('.')[-1]
        c, q = self.owner()
        if short in HISTORY and name != 'setset.__init__':
            self.out.append(('c20:py:%s:%s' % (q, short), self.where(st, node), 'current-universe',
                             '%s uses the native %s, which counts the elements of the largest universe so far' % (q, short),
                             tuple(f[0] for f in self.stack)))
        return super().on_native(st, name, recv, args, kwargs, node)

    def on_tbl(self, *a):
        pass

    def scan(self, *a):
        pass


def job(x):
    qual, kind = x
    c, a = qual.split('.', 1)
    ev = Nat(PROG)
    ev.root = qual
    st, args = pyrun.start(ev, c, a, PROG.classes[c].attrs[a][1], kind)
    rs = ev.run(qual, args, st)
    return ev.out, ev.sizes, len(rs), ev.reached


class Tab(P.Ev):
    """the order in which the tables of a new universe are filled"""
    JOIN_AT = 1

    def __init__(self, prog):
        super().__init__(prog)
        self.n = 0

    def call_func(self, st, qual, args, kwargs, node):
        if qual == 'ObjectTable.add_elem':
            v = args[1] if len(args) > 1 else kwargs.get('elem')
            if v is not None:
                k = ('adds', args[0])
                st.user[k] = st.user.get(k, frozenset()) | {self.struct(st, v)}
                self.n += 1
        if qual.split('.')[-1] == '_traverse':
            return [(st, TRAV)]
        return super().call_func(st, qual, args, kwargs, node)

    def on_cset(self, st, cls, attr, val, node):
        if 'objtable' in attr:
            st.user[('table', cls, attr)] = val, self.where(st, node), tuple(f[0] for f in self.stack)


def sources(t):
    """the sequences whose order an element comes from"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x == TRAV or x[0] == 'arg':
            out.add(x)
        elif x[0] == 'tblf':
            out.add(x[:2])
        else:
            todo.extend(y for y in x if isinstance(y, tuple))
    return out


def natural(t):
    """an element of the vertices in the order in which the native conversions number them"""
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x:
            if x[0] == 'op' and len(x) > 2 and x[1] == 'nat' and x[2] == TOP:
                return True
            todo.extend(y for y in x if isinstance(y, tuple))
    return False


def name(s):
    return 'the traversed edges' if s == TRAV else 'its argument ' + s[1] if s[0] == 'arg' else s[1]


def setter(x):
    qual, kind = x
    c, a = qual.split('.', 1)
    ev = Tab(PROG)
    st, args = pyrun.start(ev, c, a, PROG.classes[c].attrs[a][1], kind)
    rs = ev.run(qual, args, st)
    out, n = {}, 0
    for s, how, v in rs:
        if how != 'ret':
            continue
        tab = {k[1:]: v for k, v in s.user.items() if k[0] == 'table'}
        adds = {k: s.user.get(('adds', v[0]), frozenset()) for k, v in tab.items()}
        E, V, EV = ('Universe', 'e_objtable'), ('Universe', 'v_objtable'), ('Universe', 'ev_objtable')
        se = set()
        for t in adds.get(E, ()):
            se |= sources(t)
        if E not in tab:
            se = {('tblf', 'Universe.e_objtable')}
        for T, what in ((V, 'vertices'), (EV, 'edges and vertices')):
            if T not in tab:
                continue
            val, where, path = tab[T]
            for t in adds[T]:
                n += 1
                b = sources(t)
                if E in tab and not se:
                    continue        # no edge on this path
                q = path[-1] if path else qual
                if T == V and not natural(t):
                    out[('c20:order:%s:%s' % (q, T[1]), where, 'same-order',
                         '%s numbers the vertices in the order of %s, but the conversions number them in the order in which the edges of the universe reach them' % (
                             q, ', '.join(sorted(name(y) for y in b)) or 'other values'), path)] = 1
                elif b - se:
                    out[('c20:order:%s:%s' % (q, T[1]), where, 'same-order',
                         '%s numbers the %s in the order of %s, but the edges of the universe in the order of %s' % (
                             q, what, ', '.join(sorted(name(y) for y in b - se)), ', '.join(sorted(name(y) for y in se))), path)] = 1
    return sorted(out), n, len(rs)


class Grow(P.Ev):
    """a new element number exists in the native layer before it is used"""

    def on_native(self, st, name, recv, args, kwargs, node):
        if name.split('.')[-1] in ('setset', '__init__'):
            for x in args:
                st.user['made'] = st.user.get('made', ()) + (self.struct(st, x),)
        return None


def members(t):
    """the numbers in the sets of a literal collection"""
    if isinstance(t, tuple) and t and t[0] in ('list', 'set', 'tup') and len(t) > 1 and isinstance(t[1], tuple):
        for e in t[1]:
            if isinstance(e, tuple) and e:
                x = e[1] if e[0] == 'one' and len(e) > 1 else e
                yield x
                for y in members(x):
                    yield y


def grow():
    out, n = [], 0
    q = 'ObjectTable.add_elem'
    if q not in PROG.funcs:
        return out, 0
    ev = Grow(PROG)
    ev.sink, ev.trying, ev.stack = [], 0, []
    st = P.State()
    ref = st.alloc(P.Node('inst', cls='ObjectTable', fields={'$tbl': 'Universe.e_objtable'}))
    for s, v in ev.call_func(st, q, (ref, ('arg', 'elem')), {}, None):
        for e in s.evlist():
            if e[0] == 'mut' and e[1][:1] == ('tblf',) and e[1][2] == 'obj2int' and e[2] == '__setitem__':
                n += 1
                num = e[3][1]
                if not any(num in list(members(m)) for m in s.user.get('made', ())):
                    out.append(('c20:grow', where(q), 'new-variables', '%s gives out a number for which the native layer may have no variable' % q, (q,)))
    return out, n


def where(qual):
    f = PROG.funcs.get(qual)
    return '%s:%d' % (f[1].path if hasattr(f[1], 'path') else f[1], f[0].lineno) if f else qual


def run(prog):
    global PROG
    PROG = prog
    ents = [(c + '.' + a, k) for c, a, fn, k in pyrun.methods(PROG) if a != 'set_universe']
    res = pyrun.pmap(job, ents)
    sets = [(c + '.' + a, PROG.classes[c].attrs[a][2]) for c in OWN.keys() | {'Universe'} if c in PROG.classes
            for a in ('set_universe', 'set_vertex_universe') if a in PROG.classes[c].attrs]
    res2 = pyrun.pmap(setter, sorted(sets))
    return ents, res, res2, grow()
