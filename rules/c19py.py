"""Python side: which native argument a named parameter becomes, and its default."""
import ast

import pyrun
import pysym as P
from ccload import AnalysisBroken

GROUPS = {'vertex_groups', 'num_comps', 'root', 'roots', 'terminals'}
DEG = {'degree_constraints'}
# parameter -> the arguments of native searches that stand for it
TABLE = {
    'vertex_groups': GROUPS, 'vertices': GROUPS, 'root': GROUPS, 'roots': GROUPS, 'terminals': GROUPS,
    'terminal1': GROUPS, 'terminal2': GROUPS,
    'degree_constraints': DEG, 'num_edges': {'num_edges'}, 'no_loop': {'no_loop'},
    'graphset': {'search_space', 'graphset'}, 'linear_constraints': {'linear_constraints'},
    'k': DEG | {'num_edges', 'degree', 'deg_dist'}, 'a': DEG | {'num_edges', 'degree', 'deg_dist'}, 'b': DEG | {'num_edges', 'degree', 'deg_dist'},
    'f': DEG, 'degree': {'degree'}, 'is_connected': {'is_connected', 'num_comps', 'vertex_groups'}, 'deg_dist': {'deg_dist'},
    'num_comp_lb': {'num_comp_lb'}, 'num_comp_ub': {'num_comp_ub'}, 'weight_list': {'weight_list'}, 'ratio': {'ratio'},
    'lower': {'lower'}, 'upper': {'upper'}, 'num_comps': {'num_comps'}, 'forbidden_graphset': {'graphset'},
    'probabilities': {'probabilities'}, 's': {'s'}, 't': {'t'}, 'is_hamiltonian': {'is_hamiltonian'},
    'is_spanning': {'is_spanning', 'degree_constraints', 'vertex_groups'}, 'is_hamilton': {'degree_constraints', 'deg_dist'},
    'in_degree_constraints': {'in_degree_constraints'}, 'out_degree_constraints': {'out_degree_constraints'},
}
# parameters whose value, not a function of it, is the native argument
EXACT = {'num_comp_lb', 'num_comp_ub', 'ratio', 'lower', 'upper', 'num_comps', 's', 't', 'no_loop', 'is_hamiltonian', 'root'}
# may be left out when empty
EMPTYOK = {'weight_list', 'degree_constraints', 'vertex_groups', 'linear_constraints', 'roots', 'terminals', 'probabilities', 'deg_dist',
           'in_degree_constraints', 'out_degree_constraints', 'vertices'}
DIRECT = {'is_connected', 'no_loop', 'is_hamiltonian', 'is_spanning'}
FLAGS = {'is_connected': True, 'no_loop': False, 'is_hamiltonian': False, 'is_spanning': False, 'is_hamilton': False}
U32 = 4294967295
DEFAULTS = {
    ('partitions', 'num_comp_lb'): 1, ('partitions', 'num_comp_ub'): 32767,
    ('balanced_partitions', 'ratio'): 0.0, ('balanced_partitions', 'lower'): 0, ('balanced_partitions', 'upper'): U32 // 4,
    ('balanced_partitions', 'num_comps'): -1, ('balanced_partitions', 'weight_list'): None,
    ('weighted_induced_graphs', 'weight_list'): None, ('weighted_induced_graphs', 'lower'): 0, ('weighted_induced_graphs', 'upper'): U32 // 2,
    ('graphs', 'no_loop'): False, ('regular_graphs', 'degree'): None, ('regular_bipartite_graphs', 'degree'): None,
    ('trees', 'root'): None, ('rooted_forests', 'roots'): None,
}
for _p in ('vertex_groups', 'degree_constraints', 'num_edges', 'linear_constraints', 'in_degree_constraints', 'out_degree_constraints'):
    DEFAULTS[('graphs', _p)] = None
# query method -> natives its parameters are handed to
QUERY = {
    'smaller': {'size': {'smaller'}}, 'larger': {'size': {'larger'}}, 'len': {'size': {'set_size'}}, 'graph_size': {'size': {'set_size'}},
    'set_size': {'size': {'set_size'}},
    'quotient': {'other': {'quotient'}}, 'remainder': {'other': {'remainder'}}, 'join': {'other': {'join'}}, 'meet': {'other': {'meet'}},
    'subgraphs': {'other': {'subsets'}}, 'supergraphs': {'other': {'supersets'}}, 'non_subgraphs': {'other': {'non_subsets'}},
    'non_supergraphs': {'other': {'non_supersets'}}, 'subsets': {'other': {'subsets'}}, 'supersets': {'other': {'supersets'}},
    'non_subsets': {'other': {'non_subsets'}}, 'non_supersets': {'other': {'non_supersets'}},
    'min_iter': {'weights': {'min_iter'}}, 'max_iter': {'weights': {'max_iter'}},
    'cost_le': {'costs': {'cost_le'}, 'cost_bound': {'cost_le'}}, 'cost_ge': {'costs': {'cost_le'}, 'cost_bound': {'cost_le'}},
    'cost_eq': {'costs': {'cost_le'}, 'cost_bound': {'cost_le'}},
    'probability': {'probabilities': {'probability'}}, 'dump': {'fp': {'dump'}}, 'load': {'fp': {'load'}},
    'loads': {'s': {'loads'}, 'fp': {'loads'}}, 'isdisjoint': {'other': {'isdisjoint'}}, 'issubset': {'other': {'issubset'}},
    'issuperset': {'other': {'issuperset'}}, 'show_messages': {'flag': {'_show_messages'}},
}
CONTROL = {'terminal1', 'terminal2'}        # compared with each vertex
SOMETIMES = {'weights', 'costs', 'probabilities'}
CLASSES = ('GraphSet', 'DiGraphSet', 'VertexSetSet', 'EdgeVertexSetSet', 'setset')
NATIVE = {}
PROG = None


def is_nat(x):
    return isinstance(x, tuple) and x[:2] == ('op', 'nat') and len(x) > 4


def natives(t):
    """native calls a value was computed by"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if is_nat(x):
                if x in seen:
                    continue
                seen.add(x)
                yield x
            todo.extend(y for y in x if isinstance(y, tuple))


def leaves(t, top=True):
    """parameters a term is made of, native calls inside it apart"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x:
            if is_nat(x):
                continue
            if x[0] == 'arg' and len(x) == 2:
                out.add(x[1])
                continue
            todo.extend(y for y in x if isinstance(y, tuple))
    return out


def arguments(n):
    """(argument name or position, term) of a native call"""
    name = n[2].split('.')[-1]
    names = NATIVE.get(name)
    for i, y in enumerate(n[4]):
        yield (names[i] if names and i < len(names) else i), y
    for k, y in (n[5] if len(n) > 5 else ()):
        yield k, y


def strip(t):
    """the value itself, without a change of representation"""
    while True:
        if t[0] == 'op' and t[1] in ('pickle', 'float', 'int', 'bool', 'str') and len(t) >= 3 and isinstance(t[2], tuple):
            t = t[2]
        else:
            return t


def maybe(st, p):
    """is the parameter certainly None / falsy / given on this path?"""
    a = ('arg', p)
    none = falsy = None
    if st.facts.get(('type', a)) == 'NoneType':
        none = True
    elif st.facts.get(('type', a)) is not None:
        none = False
    for f, v in st.facts.items():
        if f[0] == 'op' and len(f) > 3 and f[1] in ('is', 'eq', '==') and f[2:4] in ((a, P.NONE), (P.NONE, a)):
            none = v
        if f == ('truth', a):
            falsy = not v
        if f[0] == 'op' and f[1] in ('eq', '==') and len(f) > 3 and ('op', 'len', a) in f[2:4] and P.K(0) in f[2:4] and v:
            falsy = True
        if f[0] == 'truth' and f[1] == ('op', 'len', a) and not v:
            falsy = True
    return none, falsy


MADE = {}


def evaluate(qual, kind, fix=None, drop=()):
    c, a = qual.split('.', 1)
    ev = Ev(PROG)
    ev.made = MADE
    st, args = pyrun.start(ev, c, a, PROG.classes[c].attrs[a][1], kind)
    for k, v in (fix or {}).items():
        args[k] = v
    for k in drop:
        args.pop(k, None)
    out = []
    for s, how, v in ev.run(qual, args, st):
        if how == 'ret':
            out.append((s, ev.struct(s, v)))
    return out


class Ev(P.Ev):
    """notes what is known of lengths when a triple is made"""
    made = None

    def ev(self, n, st):
        r = super().ev(n, st)
        if self.made is not None and type(n) is ast.Tuple and len(n.elts) == 3:
            for s, v in r:
                t = self.struct(s, v)
                if isinstance(t, tuple) and t[:1] == ('tup',):
                    self.made.setdefault(t[1], set()).add(frozenset((f, b) for f, b in s.facts.items() if 'len' in repr(f)))
        return r


def unwrap(t):
    while isinstance(t, tuple) and t[:2] in (('op', 'tuple'), ('op', 'list')) and len(t) > 2 and isinstance(t[2], tuple):
        t = t[2]
    return t


def lengths(facts, r):
    """lengths of r, of 1 to 5, that agree with the comparisons made"""
    OPS = {'==': lambda a, b: a == b, 'eq': lambda a, b: a == b, '!=': lambda a, b: a != b, 'ne': lambda a, b: a != b,
           '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
    out = set()
    for n in range(1, 6):
        ok = True
        for f, v in facts:
            if f[0] == 'op' and len(f) == 4 and f[1] in OPS:
                ab = []
                for x in f[2:]:
                    if isinstance(x, tuple) and x[:2] == ('op', 'len') and unwrap(x[2]) == unwrap(r):
                        ab.append(n)
                    elif isinstance(x, tuple) and x[:2] == ('k', 'int'):
                        ab.append(x[2])
                if len(ab) == 2 and OPS[f[1]](*ab) != bool(v):
                    ok = False
        if ok:
            out.add(n)
    return out


def const_default(fn, p):
    a = fn.args
    pos = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d.get(p)


def triples(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x:
            if is_nat(x):
                continue
            if x[0] == 'tup' and len(x) == 2 and len(x[1]) == 3:
                out.append(x[1])
                continue
            todo.extend(y for y in x if isinstance(y, tuple))
    return out


def lin(c0, *terms):
    return ('op', 'lin', c0, tuple(sorted(((a, c) for a, c in terms), key=repr)))


def canon(t):
    """a linear term with its summands in a fixed order"""
    if isinstance(t, tuple) and t[:2] == ('op', 'lin'):
        return ('op', 'lin', t[2], tuple(sorted(t[3], key=repr)))
    if isinstance(t, tuple) and t[:1] == ('k',) and len(t) == 3:
        return t
    return t


def range_ok(tr, r):
    """is (lower, upper, step) what the integer or range r allows?"""
    L, U, S = (canon(x) for x in tr)
    it = lambda i: ('item', r, P.K(i))
    one = P.K(1)
    good = [(r, lin(1, (r, 1)), one), (it(0), lin(1, (it(-1), 1)), lin(0, (it(0), -1), (it(1), 1))),
            (('attr', r, 'start'), ('attr', r, 'stop'), ('attr', r, 'step'))]
    return (L, U, S) in good


def single(tr, r):
    """bounds that are those of r if it has one item"""
    L, U, S = (canon(x) for x in tr)
    it = lambda i: ('item', r, P.K(i))
    return L in (it(0), it(-1)) and U in (lin(1, (it(0), 1)), lin(1, (it(-1), 1))) and S == P.K(1)


def bases(tr):
    """ranges a triple is computed from"""
    out = set()
    todo = list(tr)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x:
            if x[0] == 'item':
                out |= {x, x[1]}
            elif x[0] in ('val', 'arg', 'elem'):
                out.add(x)
            elif x[0] == 'attr':
                out.add(x[1])
            else:
                todo.extend(y for y in x if isinstance(y, tuple))
    return out


def job(x):
    MADE.clear()
    qual, kind = x
    c, a = qual.split('.', 1)
    fn = PROG.classes[c].attrs[a][1]
    ps = [p for p in sum((q for q in pyrun.params(fn)[:2]), []) if p not in ('self', 'cls')]
    out, cnt = [], dict(paths=0, args=0, ranges=0, flags=0, defaults=0, queries=0, given=0)

    def add(key, rule, msg):
        out.append(('c19:%s:%s' % (qual, key), '%s:%d (%s)' % (PROG.file_of(qual) if hasattr(PROG, 'file_of') else c, fn.lineno, qual), rule, msg))
    rs = evaluate(qual, kind)
    searches = False
    query, missed = {}, {}
    for s, t in rs:
        cnt['paths'] += 1
        reached = {}
        qn = {}
        ns = list(natives(t))
        lits = [n for n in ns if n[2].split('.')[-1] in NATIVE]
        if lits:
            searches = True
        for n in ns:
            name = n[2].split('.')[-1]
            for k, y in arguments(n):
                for p in leaves(y):
                    qn.setdefault(p, set()).add(name)
                    if name not in NATIVE or p not in TABLE or p not in ps:
                        continue
                    cnt['args'] += 1
                    if k not in TABLE[p]:
                        add('%s->%s.%s' % (p, name, k), 'argument-role', '%s hands its parameter %s to %s as %s' % (qual, p, name, k))
                    else:
                        reached.setdefault(p, set()).add(k)
                        if p in EXACT and k == p and strip(y) != ('arg', p):
                            add('%s=%s' % (p, k), 'argument-value', '%s hands %s over changed' % (qual, p))
            if name in NATIVE:
                for k, y in arguments(n):
                    ranges(qual, a, k, y, cnt, add)
        if a in QUERY:
            for p, nat in QUERY[a].items():
                if p not in ps:
                    continue
                if qn.get(p, set()) & nat:
                    query.setdefault(p, []).append(None)
                cnt['queries'] += 1
                none, falsy = maybe(s, p)
                if none or falsy:
                    continue
                if not qn.get(p, set()) & nat:
                    got = qn.get(p, set()) - {'__init__'}
                    query.setdefault(p, []).append(('%s->%s' % (p, '/'.join(sorted(nat))), 'argument-role', '%s: %s does not reach %s%s' % (
                        qual, p, ' or '.join(sorted(nat)), ', but ' + ', '.join(sorted(got)) if got else '')))
                for n in ns:
                    if n[2].split('.')[-1] in nat:
                        for k, y in arguments(n):
                            if p in leaves(y) and p == 'size' and strip(y) != ('arg', 'size'):
                                add('size', 'argument-value', '%s hands size over changed' % qual)
        if a in COST:
            cost(qual, a, t, cnt, add)
        if not lits and not searches:
            continue
        for p in ps:
            if p not in TABLE or p in FLAGS or p == 'graphset' or p in CONTROL:
                continue            # C14 decides for graphset
            none, falsy = maybe(s, p)
            if none is True or falsy is True and p in EMPTYOK or same(s, p, reached):
                continue
            cnt['given'] += 1
            k = (p, tuple((q, maybe(s, q)[0]) for q in ps if q != p))
            missed.setdefault(k, []).append(p in reached)
    for p, l in query.items():
        bad = [x for x in l if x]
        if bad and (p not in SOMETIMES or None not in l):
            add(*bad[0])
    for (p, others), l in missed.items():
        if not (any(l) if p in EMPTYOK | {'terminals', 'b', 'f'} else all(l)):
            with_ = ['%s %s' % (q, 'left out' if v else 'given') for q, v in others if v is not None]
            add('drop:' + p, 'argument-dropped', '%s: there is a path on which %s is given and reaches no native search%s' % (
                qual, p, ' (%s)' % ', '.join(with_) if with_ else ''))
    for p in ps:
        if p in CONTROL and searches:
            got = {t for s, t in rs if maybe(s, p)[0] is not True}
            none = {t for s, t in evaluate(qual, kind, {p: P.NONE})}
            cnt['given'] += 1
            if got <= none:
                add('drop:' + p, 'argument-dropped', '%s: the result is the same whether %s is given or not' % (qual, p))
    # flags
    for p in ps:
        if p in FLAGS and searches:
            sig = {}
            for val in (True, False):
                fs = {}
                for s, t in evaluate(qual, kind, {p: P.K(val)}):
                    k = tuple((q, maybe(s, q)[0]) for q in ps if q != p)
                    calls = set()
                    for n in natives(t):
                        if n[2].split('.')[-1] not in NATIVE:
                            continue
                        calls.add(n)
                        for k2, y in arguments(n):
                            if p in DIRECT and k2 == p:
                                cnt['flags'] += 1
                                if strip(y)[0] == 'k' and bool(strip(y)[2]) != val:
                                    add('flag:' + p, 'flag-polarity', '%s(%s=%s) calls %s with %s=%s' % (qual, p, val, n[2], k2, strip(y)[2]))
                            if val and p in ('is_spanning', 'is_hamilton') and k2 == 'degree_constraints':
                                for tr in triples(y):
                                    cnt['flags'] += 1
                                    if tr[0] == P.K(0):
                                        add('flag:' + p, 'flag-polarity', '%s(%s=True) allows vertices of degree 0' % (qual, p))
                    fs.setdefault(k, set()).add(t)
                sig[val] = fs
            for k in set(sig[True]) & set(sig[False]):
                cnt['flags'] += 1
                if sig[True][k] == sig[False][k]:
                    add('flag:' + p, 'argument-dropped', '%s: the result is the same whether %s is true or not%s' % (
                        qual, p, ' (with %s)' % ', '.join('%s%s' % (q, ' left out' if v else ' given') for q, v in k if v is not None) if any(v is not None for q, v in k) else ''))
    # defaults
    if searches or a == 'partitions':
        for p in ps:
            want = DEFAULTS.get((a, p), FLAGS[p] if p in FLAGS else None if p == 'graphset' else Ellipsis)
            if want is Ellipsis or p not in TABLE:
                continue
            d = const_default(fn, p)
            if d is None:
                continue
            cnt['defaults'] += 1
            base = {(tuple((q, maybe(s, q)[0]) for q in ps if q != p), t) for s, t in evaluate(qual, kind, drop=(p,))}
            doc = {(tuple((q, maybe(s, q)[0]) for q in ps if q != p), t) for s, t in evaluate(qual, kind, {p: P.K(want)})}
            if base != doc:
                add('default:' + p, 'default-value', '%s without %s is not what it is with the documented default %r' % (qual, p, want))
    return out, cnt, searches


def same(s, p, reached):
    """the path knows that the parameter equals one that arrives"""
    a = ('arg', p)
    for f, v in s.facts.items():
        if f[0] == 'op' and len(f) > 3 and a in f[2:4]:
            o = f[3] if f[2] == a else f[2]
            if isinstance(o, tuple) and o[:1] == ('arg',) and (f[1] in ('eq', '==') and v or f[1] in ('ne', '!=') and not v):
                return True
    return False


def ranges(qual, meth, k, y, cnt, add):
    c = qual.split('.')[0]
    if meth == 'graphs' and k in ('degree_constraints', 'num_edges', 'in_degree_constraints', 'out_degree_constraints'):
        for tr in triples(y):
            bs = [b for b in bases(tr) if k in leaves(b)]
            if not bs:
                continue
            cnt['ranges'] += 1
            if any(single(tr, b) for b in bs):
                # one value allowed: the range must be known to have one item
                b = next(b for b in bs if single(tr, b))
                if any(lengths(fs, b) - {1} for fs in MADE.get(tr, ())):
                    add('range:' + k, 'range', '%s: only the first value of the range given for %s is allowed though it may have more' % (qual, k)
                        if canon(tr[1]) == lin(1, (('item', b, P.K(0)), 1)) else
                        '%s: the step of the range given for %s is dropped' % (qual, k))
            elif not any(range_ok(tr, b) for b in bs):
                add('range:' + k, 'range', '%s: the bounds it hands over as %s are not those of the range it is given' % (qual, k))
    if k == 'linear_constraints' and meth == 'graphs':
        for tr in triples(y):
            es = [unwrap(z[1]) for z in (strip(tr[0]), strip(tr[1])) if z[:1] == ('item',)]
            if tr[2][:1] == ('k',) and es:
                cnt['ranges'] += 1
                if any(lengths(fs, es[0]) & {3} for fs in MADE.get(tr, ())):
                    add('range:weight', 'range', '%s: a weight given with an edge of a linear constraint is replaced by %r' % (qual, tr[2][2]))
        todo = [y]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple) and x:
                if x[0] == 'tup' and len(x) == 2 and len(x[1]) == 2 and all(strip(z)[:1] == ('item',) for z in x[1]):
                    lo, hi = (strip(z) for z in x[1])
                    if lo[1] == hi[1]:
                        cnt['ranges'] += 1
                        if (lo[2], hi[2]) not in ((P.K(0), P.K(1)), (P.K(0), P.K(-1))):
                            add('range:linear', 'range', '%s: item %s of the bounds is handed over as the lower and item %s as the upper bound' % (qual, lo[2], hi[2]))
                    continue
                todo.extend(z for z in x if isinstance(z, tuple))
    # the degrees that make the structure
    want = {'k_matchings': (P.K(0), 'k'), 'b_matchings': (P.K(0), 'b'), 'k_factors': (None, 'k'), 'f_factors': (None, 'f')}.get(meth)
    if want and k == 'degree_constraints':
        for tr in triples(y):
            lo, p = want
            if tr[2] != P.K(1) and lo is not None:
                # range(0, n) of unknown length has its step computed from its items
                pass
            if p not in leaves(('tup', tr)):
                continue
            cnt['ranges'] += 1
            L = canon(tr[0])
            if lo is None and leaves(L) != {p}:
                add('range:' + k, 'range', '%s: the least degree does not depend on %s' % (qual, p))


# (sign of the costs, bound) of cost_le(costs, bound) that make up the result;
# the complement of cost_le(c, x) is cost_le(-c, -x - 1)
_B = ('arg', 'cost_bound')
COST = {'cost_le': [(1, 1, 0), (-1, -1, -1)], 'cost_ge': [(-1, -1, 0), (1, 1, -1)],
        'cost_eq': [(1, 1, 0), (1, 1, -1), (-1, -1, 0), (-1, -1, -1)]}


def cost(qual, a, t, cnt, add):
    got = set()
    for n in natives(t):
        if n[2].split('.')[-1] != 'cost_le':
            continue
        sign, bound = set(), None
        for k, y in arguments(n):
            if k == 'cost_bound':
                y = canon(strip(y))
                if y == _B:
                    bound = (1, 0)
                elif y[:2] == ('op', 'lin') and len(y[3]) == 1 and y[3][0][0] == _B:
                    bound = (y[3][0][1], y[2])
            if k == 'costs':
                for z in entries(y):
                    if 'costs' in leaves(z):
                        z = strip(z)
                        sign.add(z[3][0][1] if z[:2] == ('op', 'lin') and len(z[3]) == 1 and z[2] == 0 else 1 if z[:2] != ('op', 'lin') else 0)
        if any(k == 'cost_bound' for k, y in arguments(n)) and bound is None:
            add('cost', 'argument-value', '%s hands cost_bound over changed' % qual)
        if bound is None or len(sign) != 1:
            continue
        cnt['queries'] += 1
        g = (sign.pop(),) + bound
        got.add(g)
        if g not in COST[a]:
            add('cost', 'argument-value', '%s asks for costs %s at most %s%d' % (
                qual, {1: 'as given', -1: 'negated'}.get(g[0], 'changed'), {1: 'cost_bound + ', -1: '-cost_bound + '}.get(g[1], '? '), g[2]))
    if a == 'cost_eq' and len(got) == 1:
        add('cost', 'argument-value', '%s uses one bound only' % qual)


def entries(y):
    todo = [y]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x:
            if x[0] in ('one', 'many') and len(x) > 1:
                yield x[-1]
            else:
                todo.extend(z for z in x if isinstance(z, tuple))


def run(sigs):
    global PROG, NATIVE
    PROG = P.Prog()
    NATIVE = {k: v for k, v in sigs.items()}
    ents = [(c + '.' + a, kind) for c, a, fn, kind in pyrun.methods(PROG, CLASSES)
            if not a.startswith('__') and a not in ('set_universe', 'universe')]
    res = pyrun.pmap(job, ents, limit=400)
    out, und, tot, searches = [], [], {}, []
    for x, r, err, dt in res:
        if err:
            und.append('%s: %s' % (x[0], err))
            continue
        o, cnt, s = r
        out += o
        for k, v in cnt.items():
            tot[k] = tot.get(k, 0) + v
        if s:
            searches.append(x[0])
    tot['slowest'] = round(max(r[3] for r in res), 1)
    if len(searches) < 20 or tot.get('args', 0) < 100:
        raise AnalysisBroken('only %d searches with %d arguments found' % (len(searches), tot.get('args', 0)))
    return out, tot, und, searches
