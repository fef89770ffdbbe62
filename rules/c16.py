"""Undirected edges mean the same in either orientation."""
import pysym as P
import pyrun
from ccload import AnalysisBroken
from report import Finding

CLASSES = ('GraphSet', 'EdgeVertexSetSet', 'Universe')
U, V, W = ('arg', 'U'), ('arg', 'V'), ('arg', 'W')
TABLES = {'GraphSet': 'Universe.e_objtable', 'EdgeVertexSetSet': 'Universe.ev_objtable'}

MAPPINGS = {'weights', 'costs', 'probabilities', 'default_weights', 'cost', 'weight', 'probability'}
ELEMENTS = {'obj', 'graph_or_edge', 'edge', 'edgesvertices', 'edges', 'graph', 'graph_or_edgevertex', 'edge_or_vertex',
            'graphset_or_constraints', 'edges_or_vertices', 'graphs', 'elem', 'element'}


def lst(st, kind, *vs):
    return st.alloc(P.Node(kind, entries=[('one', v, frozenset(), ()) for v in vs]), ('c16', kind) + vs)


def dic(st, *kvs):
    return st.alloc(P.Node('dict', entries=[('one', k, v, frozenset(), ()) for k, v in kvs]), ('c16', 'dict') + kvs)


def shapes(name):
    """(description, builder(state, edge tuple)) for a parameter that can carry edges"""
    several = name in ('graphset_or_constraints', 'graphs')
    E = lambda e: ('tup', e)
    if name == 'linear_constraints':
        yield 'a linear constraint', lambda st, e: lst(st, 'list', ('tup', (lst(st, 'list', E(e)), ('tup', (('arg', 'lo'), ('arg', 'hi'))))))
        yield 'a weighted linear constraint', lambda st, e: lst(st, 'list', ('tup', (lst(st, 'list', E(e + (W,))), ('tup', (('arg', 'lo'), ('arg', 'hi'))))))
    elif name in MAPPINGS:
        yield 'a key of the mapping', lambda st, e: dic(st, (E(e), W))
    elif name in ELEMENTS:
        if not several:
            yield 'an edge', lambda st, e: E(e)
            yield 'a weighted edge', lambda st, e: E(e + (W,))
            for k in ('set', 'list'):
                yield 'a %s with the edge' % k, lambda st, e, k=k: lst(st, k, E(e))
        else:
            yield 'a list of a list with the edge', lambda st, e: lst(st, 'list', lst(st, 'list', E(e)))
            yield 'a list of a set with the edge', lambda st, e: lst(st, 'list', lst(st, 'set', E(e)))
        for k in ('include', 'exclude') if several else ():
            yield 'an %s constraint' % k, lambda st, e, k=k: dic(st, (P.K(k), lst(st, 'list', E(e))))


class Orient(P.Ev):
    def seed(self, st):
        for t in ('Universe.e_objtable', 'Universe.ev_objtable'):
            st.facts[('op', 'in', ('tup', (U, V)), ('tblf', t, 'obj2int'))] = True
            st.facts[('op', 'in', ('tup', (V, U)), ('tblf', t, 'obj2int'))] = False
            for e in ((U, V, W), (V, U, W)):
                st.facts[('op', 'in', ('tup', e), ('tblf', t, 'obj2int'))] = False
        kind = ('cst', 'Universe', 'edge_vertex_kind')
        for e in (('tup', (U, V)), ('tup', (V, U))):
            st.facts[('op', 'in', e, kind)] = True
            st.facts[('truth', ('item', kind, e))] = True
            st.facts[('op', 'in', e, ('cst', 'Universe', 'vertices'))] = False
        st.facts[('op', 'in', ('tup', (V, U)), ('cst', 'Universe', 'weights'))] = False
        st.facts[('op', 'is', U, P.NONE)] = False
        st.facts[('op', 'is', V, P.NONE)] = False
        st.facts[('op', '==') + tuple(sorted((U, V), key=repr))] = False

    def on_mayraise(self, st, why, terms, node):
        if why == 'key' and terms[0][0] == 'tblf':
            self.event(st, 'lookup', terms[0][1], terms[1])


def outcomes(qual, kind, pname, build, e):
    c, a = qual.split('.', 1)
    fn = PROG.classes[c].attrs[a][1]
    ev = Orient(PROG)
    st, args = pyrun.start(ev, c, a, fn, kind)
    ev.seed(st)
    args[pname] = build(st, e)
    if a == 'set_universe':
        args.update(universe=lst(st, 'list', ('tup', (U, V))), traversal=P.K('as-is'), isolated=P.NONE)
    out = set()
    rs = ev.run(qual, args, st)
    calls = set()
    for s, how, v in rs:
        evs = []
        for x in s.evlist():
            if x[0] == 'nat':
                evs.append(('nat', x[1], s_(ev, s, x[2]), tuple(s_(ev, s, y) for y in x[3]), tuple((k, s_(ev, s, y)) for k, y in x[4])))
                calls.add(x[1])
            elif x[0] in ('cset', 'mut', 'setfield', 'lookup'):
                evs.append((x[0],) + tuple(s_(ev, s, y) for y in x[1:]))
        evs += [('state', k, s_(ev, s, x)) for k, x in sorted(s.cst.items()) if k[1] == 'weights']
        if a == '__init__' and how == 'ret':
            v = args['self']
        out.add((how, tuple(evs), s_(ev, s, v) if how == 'ret' else v.cls))
    return out, calls, len(rs), ev.reached


def s_(ev, st, x):
    return ev.struct(st, x) if isinstance(x, tuple) else x


def job(x):
    qual, kind, pname, i = x
    desc, build = list(shapes(pname))[i]
    a, calls, n1, reached = outcomes(qual, kind, pname, build, (U, V))
    b, _, n2, _ = outcomes(qual, kind, pname, build, (V, U))
    diff = None
    if a != b:
        da, db = sorted(a - b, key=repr), sorted(b - a, key=repr)
        diff = '%d outcome(s) only for (u, v), %d only for (v, u)' % (len(da), len(db))
        hs = {o[0] for o in db}, {o[0] for o in da}
        if hs[0] == {'raise'} and 'ret' in hs[1]:
            diff += '; (v, u) raises %s' % ', '.join(sorted({str(o[2]) for o in db}))
    return diff, n1 + n2, sorted(calls), reached, desc


PROG = None


def run():
    global PROG
    PROG = P.Prog()
    jobs = []
    ents = set()
    for c, a, fn, kind in pyrun.methods(PROG, CLASSES):
        if a == 'set_universe' and c != 'Universe' or c == 'Universe' and a != 'set_universe':
            continue
        pos, kwo, _, _ = pyrun.params(fn)
        for n in pos + kwo:
            for i, _ in enumerate(shapes(n)):
                jobs.append((c + '.' + a, kind, n, i))
                ents.add((c + '.' + a, n))
    res = pyrun.pmap(job, jobs)
    fs, skipped, paths, reached, conv = [], [], 0, set(), 0
    for x, r, err, dt in res:
        if err:
            skipped.append('%s(%s): %s' % (x[0], x[2], err))
            continue
        diff, n, calls, re, desc = r
        paths += n
        reached |= re
        conv += bool(calls)
        if diff:
            c, a = x[0].split('.', 1)
            f = PROG.classes[c].attrs[a][1]
            fs.append(Finding('c16:%s:%s' % (x[0], x[2]), '%s:%d (%s)' % (PROG.files[PROG.classes[c].mod].split('/')[-1], f.lineno, x[0]), 'same-in-both-orientations',
                              '%s treats (u, v) and (v, u) differently when the edge is given as %s in %s: %s' % (x[0], desc, x[2], diff)))
    if len(ents) < 20 or len(skipped) > len(jobs) // 4:
        raise AnalysisBroken('%d parameters that take edges, %d of %d shapes not analysed' % (len(ents), len(skipped), len(jobs)))
    cov = dict(parameters=['%s(%s)' % e for e in sorted(ents)], shapes=len(jobs), not_analysed=skipped, paths=paths,
               shapes_that_reach_the_native_layer=conv, functions_evaluated=len(reached),
               rule='evaluated with an edge of the universe written (u, v) and written (v, u), an operation makes the same native calls with the same arguments, changes the same state and returns or raises the same',
               explanation='%d edge-carrying parameters in %d shapes, both orientations compared over %d paths' % (len(ents), len(jobs), paths))
    return fs, cov, pyrun.ASSUME + ['which parameters carry edges is known by their documented names (lists in rules/c16.py)']
