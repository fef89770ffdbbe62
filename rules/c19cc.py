"""Native side: what a named argument is used for."""
import argflow
import natsearch as N
from c14cc import given
from ccload import AnalysisBroken, walk
from report import Finding
from sym import PASS

WEIGHTS = {'num_comps', 'ratio', 'weight_list'}
# (class, method, parameter without underscores) -> arguments whose value that is
ROLE = {
    ('DegreeConstraint', 'setConstraint', 'v'): {'degree_constraints'},
    ('DegreeConstraint', 'setConstraint', 'c'): {'degree_constraints'},
    ('SizeConstraint', 'new', 'constraint'): {'num_edges'},
    ('FrontierBasedSearch', 'new', 'numuec'): {'num_comps'},
    ('FrontierBasedSearch', 'new', 'noloop'): {'no_loop'},
    ('LinearConstraints', 'addConstraint', 'expr'): {'linear_constraints'},
    ('LinearConstraints', 'addConstraint', 'lb'): {'linear_constraints'},
    ('LinearConstraints', 'addConstraint', 'ub'): {'linear_constraints'},
    ('Graph', 'setColor', 'v'): {'vertex_groups', 'terminals'},
    ('Digraph', 'setColor', 'v'): {'vertex_groups', 'terminals'},
    ('RegularSpec', 'new', 'degreelower'): {'degree'},
    ('RegularSpec', 'new', 'degreeupper'): {'degree'},
    ('RegularSpec', 'new', 'isconnected'): {'is_connected'},
    ('DegreeDistributionSpec', 'new', 'degranges'): {'deg_dist'},
    ('DegreeDistributionSpec', 'new', 'isconnected'): {'is_connected'},
    ('GraphPartitionSpec', 'new', 'lb'): {'num_comp_lb', 'num_comps'},
    ('GraphPartitionSpec', 'new', 'ub'): {'num_comp_ub', 'num_comps'},
    ('GraphPartitionSpec', 'new', 'noloop'): set(),
    ('ComponentRatioSpec', 'new', 'weightlist'): {'weight_list'},
    ('ComponentRatioSpec', 'new', 'lower'): {'lower'},
    ('ComponentRatioSpec', 'new', 'upper'): {'upper'},
    ('ComponentRatioSpec', 'new', 'ratio'): {'ratio'},
    ('ComponentWeightSpec', 'new', 'weightlist'): {'weight_list'},
    ('ComponentWeightSpec', 'new', 'lower'): {'lower'} | WEIGHTS,
    ('ComponentWeightSpec', 'new', 'upper'): {'upper'} | WEIGHTS,
    ('ComponentWeightInducedSpec', 'new', 'weightlist'): {'weight_list'},
    ('ComponentWeightInducedSpec', 'new', 'lower'): {'lower'},
    ('ComponentWeightInducedSpec', 'new', 'upper'): {'upper'},
    ('InducingColoringSpec', 'new', 'dd'): {'graphset'},
    ('FrontierDirectedSTPathSpec', 'new', 'ishamiltonian'): {'is_hamiltonian'},
    ('FrontierDirectedSTPathSpec', 'new', 's'): {'s'},
    ('FrontierDirectedSTPathSpec', 'new', 't'): {'t'},
    ('FrontierRootedForestSpec', 'new', 'roots'): {'roots'},
    ('FrontierRootedForestSpec', 'new', 'isspanning'): {'is_spanning'},
    ('FrontierRootedTreeSpec', 'new', 'root'): {'root'},
    ('FrontierRootedTreeSpec', 'new', 'isspanning'): {'is_spanning'},
    ('FrontierDegreeSpecifiedSpec', 'setIndegConstraint', 'v'): {'in_degree_constraints'},
    ('FrontierDegreeSpecifiedSpec', 'setIndegConstraint', 'c'): {'in_degree_constraints'},
    ('FrontierDegreeSpecifiedSpec', 'setOutdegConstraint', 'v'): {'out_degree_constraints'},
    ('FrontierDegreeSpecifiedSpec', 'setOutdegConstraint', 'c'): {'out_degree_constraints'},
}
REACH = {}
for _k, _v in ROLE.items():
    for _a in _v:
        REACH.setdefault(_a, set()).add(_k)
# specifications without which a given argument has no effect
NEED = {'degree_constraints': 'DegreeConstraint', 'num_edges': 'SizeConstraint', 'linear_constraints': 'LinearConstraints',
        'in_degree_constraints': 'FrontierDegreeSpecifiedSpec', 'out_degree_constraints': 'FrontierDegreeSpecifiedSpec',
        'vertex_groups': 'FrontierBasedSearch', 'deg_dist': 'DegreeDistributionSpec', 'degree': 'RegularSpec'}
FAMILY = {'search_space', 'graphset'}           # C14 decides what becomes of these
SCALAR = set('iLlndpfSUIKkhbs')
FLAGS = {'no_loop', 'is_connected', 'is_hamiltonian', 'is_spanning'}
ORDERED = [('lower', 'upper'), ('lb', 'ub'), ('min', 'max'), ('min', 'max', 'step'), ('degreelower', 'degreeupper')]


def norm(n):
    return (n or '').replace('_', '').lower()


def short(cls):
    return (cls or '').split('::')[-1].split('<')[0]


def peel(x):
    while x is not None and x['k'] in PASS | {'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'}:
        x = (x.get('c') or [None])[0]
    return x


def const_index(x):
    """(container, index) of x[2], x.first, x.at(1)"""
    x = peel(x)
    if x is None:
        return None
    c = x.get('c') or []
    if x['k'] == 'CXXOperatorCallExpr' and x.get('op') == '[]' and len(c) > 2:
        base, i = c[1], c[2]
    elif x['k'] == 'ArraySubscriptExpr':
        base, i = c[0], c[1]
    elif x['k'] == 'CXXMemberCallExpr' and (x.get('fn') or '').endswith('::at') and len(c) > 1:
        base, i = c[0], c[1]
    elif x['k'] == 'MemberExpr' and x.get('m') in ('first', 'second') and c:
        return key(c[0]), ('first', 'second').index(x['m'])
    elif x['k'] == 'UnaryOperator' and x.get('op') == '&' and c:
        return const_index(c[0])
    else:
        return None
    i = peel(i)
    if i is None or i['k'] != 'IntegerLiteral':
        return None
    return key(base), int(i['v'])


def key(x):
    """a printable name of an expression"""
    x = peel(x)
    if x is None:
        return '?'
    k = x['k']
    if k == 'DeclRefExpr':
        return x['r']['n']
    if k == 'MemberExpr':
        return key((x.get('c') or [None])[0]) + '.' + str(x.get('m'))
    return k + '(' + ','.join(key(y) for y in x.get('c') or [] if y is not None) + ')'


def parents(f):
    out = {}

    def go(n, up):
        if n is None:
            return
        out[id(n)] = up
        for i, y in enumerate(n.get('c') or []):
            go(y, (n, i))
    go(f['body'], None)
    return out


def params_of(S, x):
    g = S.byname.get(x.get('mg'))
    return [p['n'] for p in g['params']] if g else None


def specs(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x not in seen:
            seen.add(x)
            if x and x[0] == 'spec':
                out.add(x[1])
            todo.extend(x)
    return out


def spec_terms(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple) and x not in seen:
            seen.add(x)
            if x and x[0] == 'spec':
                out.append(x)
            todo.extend(x)
    return out


def negated(t, kw):
    """is the term the opposite of the flag?"""
    neg = False
    while t[0] == 'un' and t[1] == '!':
        neg, t = not neg, t[2]
    if t[0] == 'bin' and t[1] in ('==', '!='):
        a, b = t[2], t[3]
        o = None
        for x, y in ((a, b), (b, a)):
            if kw in N.leaves(x):
                o = y
        if o is None:
            return None
        if t[1] == '!=':
            neg = not neg
        if o == ('adr', ('G', '_Py_FalseStruct')) or o == ('c', 0):
            return not neg
        if o == ('adr', ('G', '_Py_TrueStruct')) or o == ('c', 1):
            return neg
        return None
    if t[0] in ('kw', 'kwopt') or t[0] == 'call' and len(t) == 3 and t[1] in ('PyObject_IsTrue',):
        return neg
    return None


def by_control(r, k):
    """is a specification built with 1 where the flag holds and with 0 where it does not?"""
    at = {True: {}, False: {}}
    for v, st in r['paths']:
        if v == ('c', 0):
            continue
        flag = None
        for t, b in st.facts.items():
            neg = negated(t, k)
            if neg is not None and k in N.leaves(t):
                flag = bool(b) != neg
        if flag is None:
            continue
        fam = N.family(r['S'], v, st)
        for t in spec_terms(fam if fam is not None else v):
            for i, a in enumerate(t[2:]):
                at[flag].setdefault((t[1], i), set()).add(a)
    ok = None
    for w in at[True]:
        if at[True][w] == {('c', 1)} and at[False].get(w) == {('c', 0)}:
            return 'as named'
        if at[True][w] == {('c', 0)} and at[False].get(w) == {('c', 1)}:
            ok = 'swapped'
    return ok


def where(f, x):
    return '%s:%s (%s)' % (f['file'].split('/repo/')[-1], x.get('l', f['line']), f['name'].split('::')[-1].split('<')[0])


def ordered(f, x, names, args, fs, n):
    """a[0], a[1] handed over as lower and upper"""
    pos = {norm(p): i for i, p in enumerate(names or [])}
    for want in ORDERED:
        if not all(w in pos and pos[w] < len(args) for w in want):
            continue
        ix = [const_index(args[pos[w]]) for w in want]
        for a, b, wa, wb in zip(ix, ix[1:], want, want[1:]):
            if a and b and a[0] == b[0]:
                n[0] += 1
                if a[1] >= b[1]:
                    fs.append(Finding('c19:order:%s:%s' % (f['name'].split('::')[-1], x.get('fn', '').split('::')[-1]), where(f, x), 'bound-order',
                                      'item %d of %s is used as %s and item %d as %s' % (a[1], a[0], wa, b[1], wb)))
    # a range of three items is handed over whole
    if short(x.get('cls')) == 'Range' or args and short(x.get('ty')) == 'Range':
        ix = [const_index(a) for a in args[:3]]
        if len(ix) >= 2 and ix[0] and ix[1] and ix[0][0] == ix[1][0] and len(ix) < 4:
            third = ix[2] if len(ix) > 2 else None
            n[0] += 1
            if args[2:3] in ([], [None]) or args[2]['k'] == 'CXXDefaultArgExpr' or third and third[1] != 2:
                fs.append(Finding('c19:order:%s:%s' % (f['name'].split('::')[-1], 'step'), where(f, x), 'bound-order',
                                  'the step of the range read from %s is not handed over' % ix[0][0]))


def run(d):
    res = N.run(d)
    fs, und = [], []
    n = dict(uses=0, reach=0, guards=0, paths=0, order=[0], inits=0)
    flows = argflow.run(d, {k: r for k, r in res.items() if r['sig']})
    natives, done = {}, set()
    for name, F in sorted(flows.items()):
        r = res[name]
        sig = {k: (u, o) for k, u, o in r['sig']}
        natives[name] = [k for k in sig]
        got = {}
        par = {}
        evaluated = set()
        for kind, cls, m, args, ctx, f, x, recv in F.uses:
            b = short(cls)
            meth = 'new' if kind == 'new' else m
            names = params_of(F.S, x)
            if kind == 'new' and b in ('Range', 'IntRange', 'RegularSpec') or meth == 'addConstraint':
                if (f['name'], x.get('i'), x.get('l')) not in done:
                    done.add((f['name'], x.get('i'), x.get('l')))
                    ordered(f, x, names or (['min', 'max', 'step'] if b.endswith('Range') else None), args, fs, n['order'])
            if meth == 'evaluate' or m == 'reliability':
                for a in args:
                    if a is not None:
                        evaluated |= F.of(a, ctx)
            if names is None:
                continue
            if kind == 'new':
                # a number of components fixes both bounds
                got2 = {norm(q): a is not None and 'num_comps' in F.of(a, ctx) for q, a in zip(names, args)}
                if b == 'GraphPartitionSpec' and len({got2.get('lb'), got2.get('ub')}) == 2:
                    fs.append(Finding('c19:bounds:%s:%s' % (name, b), where(f, x), 'argument-role',
                                      '%s: num_comps reaches only one of the two bounds of the number of components' % name))
            for i, a in enumerate(args):
                if a is None or i >= len(names):
                    continue
                role = (b, meth, norm(names[i]))
                if role not in ROLE:
                    continue
                n['uses'] += 1
                leaves = F.of(a, ctx) - {'graph'}
                allowed = ROLE[role]
                if allowed == set() or names[i] in ('v', 'expr'):
                    leaves -= FAMILY
                bad = leaves - allowed
                if role[2] == 'expr':
                    bad -= {'vertex_groups'}        # a level is computed from the graph
                if bad:
                    fs.append(Finding('c19:role:%s:%s.%s:%s' % (name, b, names[i], '+'.join(sorted(bad))), where(f, x), 'argument-role',
                                      '%s: %s of %s%s holds what %s was given for %s' % (
                                          name, names[i], b, '' if meth == 'new' else '.' + meth, name, ', '.join(sorted(bad)))))
                for k in leaves & allowed:
                    got.setdefault(k, set()).add(role)
                # what else has to be given for this use to happen
                if leaves & allowed:
                    if id(f) not in par:
                        par[id(f)] = parents(f)
                    up = par[id(f)].get(id(x))
                    while up is not None:
                        p, ci = up
                        if p['k'] == 'IfStmt' and ci > 0 or p['k'] == 'ConditionalOperator' and ci > 0:
                            cond = next(y for y in p['c'] if y is not None)
                            cl = F.of(cond, ctx) - {'graph'}
                            n['guards'] += 1
                            extra = cl - leaves - allowed - (WEIGHTS | {'lower', 'upper'} if 'ratio' in sig else set())
                            if extra and not cl & leaves:
                                fs.append(Finding('c19:guard:%s:%s:%s' % (name, '+'.join(sorted(leaves & allowed)), '+'.join(sorted(extra))), where(f, p), 'argument-guard',
                                                  '%s: %s is used only when %s holds, which depends on %s' % (
                                                      name, ', '.join(sorted(leaves & allowed)), key(cond)[:80], ', '.join(sorted(extra)))))
                            elif extra:
                                fs.append(Finding('c19:guard:%s:%s:%s' % (name, '+'.join(sorted(leaves & allowed)), '+'.join(sorted(extra))), where(f, p), 'argument-guard',
                                                  '%s: whether %s is used depends on %s too' % (name, ', '.join(sorted(leaves & allowed)), ', '.join(sorted(extra)))))
                        up = par[id(f)].get(id(p))
        for k in sig:
            if k == 'graph' or k in FAMILY:
                continue
            n['reach'] += 1
            ok = got.get(k) if k in REACH else k in evaluated
            if not ok and k in FLAGS:
                ok = by_control(r, k)
                if ok == 'swapped':
                    fs.append(Finding('c19:flag:%s:%s' % (name, k), where(r['f'], r['f']['body']), 'flag-polarity', '%s: %s has the opposite effect' % (name, k)))
            if not ok:
                fs.append(Finding('c19:dropped:%s:%s' % (name, k), where(r['f'], r['f']['body']), 'argument-dropped',
                                  '%s: nothing that constrains the search is built from the argument %s' % (name, k)))
        # path by path
        if r['error']:
            und.append('%s: %s' % (name, r['error']))
            continue
        for v, st in r['paths']:
            if v == ('c', 0):
                continue
            gv = {k: given(st.facts, k) for k in sig}
            if None in gv.values():
                continue
            fam = N.family(r['S'], v, st)
            if fam is None:
                fam = v
            n['paths'] += 1
            sp, lv = specs(fam), N.leaves(fam)
            tested = set()
            for t in st.facts:
                tested |= N.leaves(t)
            for k, (u, o) in sig.items():
                if k in NEED and gv[k] and NEED[k] not in sp and any(c[0] == NEED[k] for c in REACH.get(k, ())) | (k in ('vertex_groups',)):
                    fs.append(Finding('c19:path:%s:%s' % (name, k), where(r['f'], r['f']['body']), 'argument-dropped',
                                      '%s: there is a path on which %s is given and %s is not applied' % (name, k, NEED[k])))
                if u in SCALAR and k not in lv and k not in tested:
                    fs.append(Finding('c19:path:%s:%s' % (name, k), where(r['f'], r['f']['body']), 'argument-dropped',
                                      '%s: there is a path on which the result does not depend on %s' % (name, k)))
            for t in spec_terms(fam):
                for a in t[2:]:
                    lk = N.leaves(a) if isinstance(a, tuple) and a[:1] != ('with',) else ()
                    for k in FLAGS & set(lk):
                        if negated(a, k):
                            fs.append(Finding('c19:flag:%s:%s' % (name, k), where(r['f'], r['f']['body']), 'flag-polarity',
                                              '%s: %s gets the opposite of %s' % (name, t[1], k)))
                if t[1] == 'RegularSpec' and len(t) > 4:
                    for i, a in enumerate([x for x in t[2:] if x[:1] != ('graph',)][:2]):
                        for y in items(a):
                            n['order'][0] += 1
                            if y != i:
                                fs.append(Finding('c19:order:%s:RegularSpec' % name, where(r['f'], r['f']['body']), 'bound-order',
                                                  '%s: item %d of the degree pair is used as the %s degree' % (name, y, ('lower', 'upper')[i])))
    # the constructors keep what they are given under its name
    for tu in d.values():
        for f in tu['funcs']:
            cls = short(f.get('cls'))
            if (cls, 'new') not in {(a, b) for a, b, c in ROLE} or f['name'].split('::')[-1].split('<')[0] != cls or (f['file'], f['line']) in done:
                continue
            done.add((f['file'], f['line']))
            inits(f, fs, n)
    # the sequences that arguments are read from
    for tu in d.values():
        for f in tu['funcs']:
            if f['file'].endswith('pygraphillion.cc') and (f['file'], f['line']) not in done and f.get('body'):
                done.add((f['file'], f['line']))
                pairs(f, fs, n)
    if n['uses'] < 40 or n['reach'] < 30 or n['paths'] < 100:
        raise AnalysisBroken('only %d uses, %d arguments and %d paths of native searches found' % (n['uses'], n['reach'], n['paths']))
    return fs, n, und, natives


def items(t):
    """constant positions of sequence items inside a term"""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if len(x) > 3 and x[0] == 'call' and x[1] in ('PyTuple_GetItem', 'PySequence_GetItem', 'PyList_GetItem', 'PyTuple_GET_ITEM') and x[3][0] == 'c':
                out.append(x[3][1])
                continue
            todo.extend(x)
    return out


def last(nm):
    import re
    w = [x for x in re.split(r'_+', re.sub(r'([a-z])([A-Z])', r'\1_\2', nm or '')) if x]
    return w[-1].lower() if w else ''


def inits(f, fs, n):
    ps = {p['d']: p['n'] for p in f['params'] if p['n']}
    mem = []
    for i in f.get('inits') or []:
        m = i.get('m') or i.get('n')
        if m:
            mem.append((m, [x for c in i.get('c') or [i.get('e')] if c for x in walk(c)], i))
    for x in walk(f['body']) if f.get('body') else ():
        if x.get('k') == 'BinaryOperator' and x.get('op') == '=' and peel(x['c'][0]) is not None and peel(x['c'][0])['k'] == 'MemberExpr':
            mem.append((peel(x['c'][0])['m'], list(walk(x['c'][1])), x))
    names = [m for m, _, _ in mem]
    for m, es, i in mem:
        used = {ps[x['r']['d']] for x in es if x.get('k') == 'DeclRefExpr' and x['r'].get('d') in ps}
        mine = [p for p in ps.values() if last(p) == last(m)]
        if len(mine) != 1 or not used:
            continue
        n['inits'] += 1
        other = {q for q in used if q != mine[0] and any(last(q) == last(k) and k != m for k in names)}
        if mine[0] not in used and other:
            fs.append(Finding('c19:init:%s:%s' % (short(f['cls']), m), where(f, i), 'argument-role',
                              '%s keeps its parameter %s as %s' % (short(f['cls']), ', '.join(sorted(other)), m)))


def pairs(f, fs, n):
    """f(seq, 0, &p.first); f(seq, 1, &p.second)"""
    seen = {}
    for x in walk(f['body']):
        if x.get('k') != 'CallExpr' or 'from_sequence' not in (x.get('fn') or ''):
            continue
        args = x['c'][1:]
        i = peel(args[1]) if len(args) > 2 else None
        o = const_index(args[2]) if len(args) > 2 else None
        if i is None or i['k'] != 'IntegerLiteral' or o is None:
            continue
        n['order'][0] += 1
        seen.setdefault((key(args[0]), o[0]), []).append((int(i['v']), o[1], x))
    for (seq, out), l in seen.items():
        l.sort(key=lambda t: t[0])
        for a, b in zip(l, l[1:]):
            if a[1] >= b[1] or a[0] == b[0]:
                fs.append(Finding('c19:order:%s:%s' % (f['name'].split('::')[-1], out), where(f, b[2]), 'bound-order',
                                  'items %d and %d of %s become the %s and %s of %s' % (
                                      a[0], b[0], seq, ('first', 'second')[a[1]], ('first', 'second')[b[1]], out)))
