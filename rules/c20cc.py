"""Native part of C20: levels and the elements of the current universe."""
import ccload
import natsearch as N
import levels as L
from ccload import AnalysisBroken, walk, rel
from dd import showlin, DD
import dd as DDm
from report import Finding

C0 = ('c', 0)
MAX = ('max',)
# what the numbers of a result stand for; everything else returns sets of edges
OUT = {'to_vertexsetset': ('V',), 'to_edgevertexsetset': ('E', 'V')}
LEVELED = {'add_some_element', 'remove_add_some_elements'}
NATIVE_INVERT = {'invert', 'nb_invert'}     # of the bare native type: no universe of its own; no class of the package uses them (c20py)
NAMES = {'E': 'edges', 'V': 'vertices'}


class B(N.Bind):
    def __init__(self, *a):
        super().__init__(*a)
        self.init, self.varuse = {}, []

    def havoc(self, n, nodes, st):
        old = st.env
        st2 = super().havoc(n, nodes, st)
        for k, v in st2.env.items():
            if v[0] == 'any' and k in old and old[k] != v:
                self.init.setdefault(v, set()).add(old[k])
        return st2

    def more(self, e, fn, this, args, st, places):
        s = L.short(fn)
        if (s in L.VARARG and this is not None or fn in L.TOVAR) and args:
            self.varuse.append((s, args[0], dict(st.facts), e.get('l'), self.stack[-1]))
        return super().more(e, fn, this, args, st, places)


def source(t):
    """what a value was got from: the functions called for it"""
    got = set()

    def walk(t):
        if isinstance(t, tuple):
            if t[:1] == ('call',) and len(t) > 1 and isinstance(t[1], str):
                got.add(t[1].split('::')[-1].split('(')[0])
                return
            for x in t:
                walk(x)
    walk(t)
    return ''.join(':' + x for x in sorted(got))


def subs(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(y for y in x if isinstance(y, tuple))


def hasmax(t):
    return any(x == MAX for x in subs(t))


def dlin(t):
    """linear in max and sizes, or None"""
    l = DDm.lin(t)
    if l is None:
        r = L.lin(t)
        if all(k == 1 or det(k) for k in r):
            return r
    return l


def det(k):
    """a number that depends on the sizes of the graph in another way than plus or minus"""
    if not isinstance(k, tuple) or not k:
        return False
    if k[0] in ('max', 'size', 'c'):
        return True
    return (k[0] == 'call' and k[1] in ('std::max', 'std::min') or k[0] in ('bin', 'un')) and all(
        det(x) for x in k[2:] if isinstance(x, tuple))


def show(t):
    return showlin(t) if DDm.lin(t) is not None else 'another function of the sizes (%s)' % str(t)[:80]


def expect(units):
    return 'the number of variables minus ' + ' and '.join(NAMES[u] for u in units)


def offsets(t, units, inner=False):
    """(kind, offset, expected units) of every diagram read or written inside a family term"""
    if not isinstance(t, tuple) or not t:
        return
    if t[0] in ('rd', 'szdd') and len(t) > 2:
        yield ('read', t[2], ('E',))
        for x in offsets(t[1], ('E',)):
            yield x
        return
    if t[0] == 'eval':
        args = [x for x in t[3:] if isinstance(x, tuple) and x]
        off = next((x for x in reversed(args) if dlin(x) is not None), None)
        if off is not None:
            yield ('written', off, units)
        elif t[2] == 'ToZBDD':
            yield ('written', C0, units) if not args else ('written', args[-1], units)
        for x in offsets(t[1], ('E',)):
            yield x
        return
    for x in t:
        if isinstance(x, tuple):
            for y in offsets(x, units):
                yield y


def good(off, units):
    l = dlin(off)
    if l is None:
        return None
    l = dict(l)
    if l.pop(MAX, 0) != 1:
        return False
    for u in units:
        k = next((k for k in l if k != 1 and k[0] == 'size' and k[1] == u and l[k] == -1), None)
        if k is None:
            return False
        del l[k]
    return not l


class Reach:
    def __init__(self, S):
        self.S, self.calls = S, {}

    def of(self, mg):
        st, seen = [mg], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.S.byname.get(x)
            if f is None:
                continue
            if x not in self.calls:
                c = {y['mg'] for y in walk(f['body']) if y.get('mg')}
                for i in f.get('inits') or []:
                    for y in walk(i):
                        if isinstance(y, dict) and y.get('mg'):
                            c.add(y['mg'])
                self.calls[x] = c
            st.extend(self.calls[x])
        return seen


def run(d):
    path, ents = N.entries(d)
    S0 = B(d.values(), path)
    R = Reach(S0)
    fs, und, nent, npath, nobl, allreach = [], [], [], 0, 0, set()
    done = set()
    for fn, role, desc, variants in ents:
        f = S0.byname.get(fn)
        if f is None or (fn, desc) in done:
            continue
        done.add((fn, desc))
        name = desc.split('.')[-1]
        reach = R.of(fn)
        allreach |= reach
        funcs = [S0.byname[x] for x in reach if x in S0.byname]
        where = '%s:%s' % (rel(f['file']), f['line'])
        ne = [g for g in funcs if g['name'] in ('graphillion::num_elems', 'graphillion::setset::num_elems') and not g['params']]
        nobl += 1
        if ne and name not in NATIVE_INVERT:
            fs.append(Finding('c20:%s:num_elems' % desc, where, 'current-universe',
                              '%s depends on the largest universe so far (%s is reachable)' % (desc, ne[0]['name'])))
        lev = [g for g in funcs if L.short(g['name']) == 'max_elem' or (g.get('cls') or '').split('::')[-1] in ('SapporoZdd', 'ToZBDD')
               or any((x.get('fn') or '') in L.TOVAR | L.TOLEV for x in walk(g['body']))]
        if not lev:
            continue
        S = B(d.values(), path)
        try:
            rs, thr = S.start(f, {}, None)
        except AnalysisBroken as e:
            und.append('%s: %s' % (desc, str(e)[:100]))
            continue
        nent.append(desc)
        seen = set()
        for val, st in rs:
            npath += 1
            if val == C0:
                continue
            fam = N.family(S, val, st)
            t = fam if fam is not None else val
            if t in seen:
                continue
            seen.add(t)
            if name in LEVELED:
                for why in leveled(t):
                    nobl += 1
                    if why:
                        fs.append(Finding('c20:%s:levels' % desc, where, 'level-range', '%s: %s' % (desc, why)))
                continue
            if fam is None:
                continue
            for kind, off, units in offsets(t, OUT.get(name, ('E',))):
                nobl += 1
                g = None if off is None else good(off, units)
                if g is None:
                    und.append('%s: a diagram is %s with an offset the analysis cannot follow' % (desc, kind))
                elif not g:
                    fs.append(Finding('c20:%s:%s' % (desc, kind), where, 'offset', '%s: a diagram is %s with offset %s instead of %s' % (
                        desc, kind, show(off), expect(units))))
        for s, a, facts, line, g in S.varuse:
            nobl += 1
            b = loopuse(S, s, a, facts)
            if b:
                fs.append(Finding('c20:%s:%s' % (desc, g['name']), '%s:%s' % (rel(g['file']), line), 'element-range', '%s: %s' % (desc, b)))
    fu, nu, nfun = unitcheck(d, allreach)
    fs += fu
    fo, no = growth(d, S0, allreach)
    return fs + fo, dict(entries=nent, paths=npath, obligations=nobl + nu + no, functions_with_levels=nfun, undecided_native=sorted(set(und)))


def loopuse(S, s, a, facts):
    """a variable (or, for BDD_VarOfLev, a level) that a loop counts"""
    l = L.lin(a)
    x = [k for k in l if k != 1 and k[0] == 'any' and k[-1] == 'loop']
    if len(x) != 1 or l[x[0]] != 1 or any(k != 1 and k != x[0] and k != MAX and k[0] not in ('size',) for k in l):
        return None
    v = x[0]
    bounds = [i for i in S.init.get(v, ())]
    for k, b in facts.items():
        if k[0] == 'bin' and k[1] in ('<', '<=', '>', '>=', '!=', '==') and v in k[2:]:
            bounds += [y for y in k[2:] if y != v]
    if not bounds:
        return None
    m = any(hasmax(y) for y in bounds)
    own = l.get(MAX, 0) != 0
    if s in ('BDD_VarOfLev', 'bddvaroflev'):
        if not m and not own:
            return 'takes the lowest levels, whose elements are not those of the universe when there were larger ones'
    elif m and not own:
        return 'counts elements relative to the number of variables created so far instead of from 1'
    return None


def leveled(t):
    """what add_some_element and its like pass down: levels from the top to max - n + 1"""
    for x in subs(t):
        if x[0] != 'call' or L.short(x[1]).startswith('BDD_Cache'):
            continue
        if any(isinstance(a, tuple) and a and hasmax(a) and set(L.lin(a)) <= {MAX, 1} for a in x[2:]) and len(x) > 4 and not any(low(a) for a in x[2:]):
            yield 'the lowest level is not the number of variables minus the size of the universe plus 1'
        for a in x[2:]:
            if not isinstance(a, tuple) or not a or not hasmax(a):
                continue
            l = L.lin(a)
            if MAX not in l:
                continue
            kws = [k for k in l if k != 1 and k[0] in ('kw', 'kwopt')]
            rest = [k for k in l if k != 1 and k != MAX and k not in kws]
            if rest:
                continue
            if kws:
                yield None if l[MAX] == 1 and len(kws) == 1 and l[kws[0]] == -1 and l.get(1, 0) == 1 else \
                    'the lowest level is not the number of variables minus the size of the universe plus 1'
            else:
                c = l.get(1, 0)
                yield None if l[MAX] == 1 and -3 <= c <= 0 and (L.short(x[1]) not in ('BDD_VarOfLev', 'bddvaroflev') or c <= 0) else \
                    'the highest level is not the number of variables'


def low(a):
    if not isinstance(a, tuple) or not a or not hasmax(a):
        return False
    l = L.lin(a)
    kws = [k for k in l if k != 1 and k[0] in ('kw', 'kwopt')]
    return l.get(MAX) == 1 and len(kws) == 1 and l[kws[0]] == -1 and l.get(1, 0) == 1


def inferred(rs):
    """units of the parameters that are compared with a variable or a level"""
    out = {}
    for v, st in rs:
        for k in st.facts:
            if k[0] != 'bin' or k[1] not in ('<', '<=', '>', '>=', '==', '!='):
                continue
            for a, b in ((k[2], k[3]), (k[3], k[2])):
                u = L.unit(a)
                if u and isinstance(b, tuple) and b and b[0] == 'p':
                    out.setdefault(b, set()).add(u)
    return {p: next(iter(u)) for p, u in out.items() if len(u) == 1}


def strip(t):
    """without the epochs of fields"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'fld' and len(t) == 4:
        return ('fld', strip(t[1]), t[2], 0)
    if t and t[0] == 'unit':
        return strip(t[2])
    return tuple(strip(x) for x in t)


def isown(k):
    return k != 1 and k[0] == 'fld' and k[1] == ('this',)


def levelish(k):
    return k != 1 and (k == ('level',) or L.unit(k) == 'L' or any(x == ('level',) for x in subs(k)))


def unitcheck(d, reach):
    S = L.Lev(list(d.values()))
    K = DD(d.values())
    fs, n, nf = [], 0, 0
    hits = L.TOLEV | L.TOVAR | L.NEWLEV
    for mg, f in S.byname.items():
        if not f['file'].startswith(ccload.REPO) or '/SAPPOROBDD/' in f['file']:
            continue
        kind = K.kind(f.get('cls'))
        if mg not in reach and not (kind and (f.get('cls') or '') in classes(S, reach)):
            continue
        if not any((x.get('fn') or '') in hits or L.short(x.get('fn') or '') in L.VARARG | {'SetCostOfLev'} for x in walk(f['body'])):
            continue
        m = L.short(f['name'])
        args = {}
        if kind and m in ('getChild', 'evalNode') and len(f['params']) >= 2:
            args[f['params'][1]['n']] = ('level',)
        S.root, S.uses = f, []
        try:
            rs, thr = S.start(f, args)
        except AnalysisBroken:
            continue
        nf += 1
        pu = inferred(rs)
        where = lambda line: '%s:%s' % (rel(f['file']), line)
        for s, a, line, this in S.uses:
            if not a:
                continue
            n += 1
            u = L.unit(a[0])
            if not u:
                us = {pu[k] for k in L.lin(a[0]) if k in pu}
                u = next(iter(us)) if len(us) == 1 else ''
            bad = None
            if s in L.TOVAR_S or s in L.NEWLEV_S:
                if u == 'V':
                    bad = 'a variable is used as a level in %s' % s
            elif s in L.TOLEV_S or s in L.VARARG:
                if u == 'L':
                    bad = 'a level is used as a variable in %s' % s
            elif s == 'SetCostOfLev':
                if u != 'L' and not hasmax(a[0]):
                    bad = 'the cost of an element is stored under its number instead of its level'
            elif s == 'SetCost':
                if u == 'L':
                    bad = 'a level is used as a variable in SetCost'
            if bad:
                fs.append(Finding('c20:unit:%s:%s%s' % (f['name'], s, source(a[0])), where(line), 'variable-level', '%s: %s' % (f['name'], bad)))
            if s in L.NEWLEV_S and a[0] != ('c', 1):
                fs.append(Finding('c20:new:%s' % f['name'], where(line), 'new-variables', '%s creates a variable above existing ones' % f['name']))
            if kind and s in L.TOVAR_S:
                l = L.lin(strip(a[0]))
                if any(levelish(k) for k in l):
                    own = [k for k in l if isown(k)]
                    if len(own) != 1 or l[own[0]] != 1 or l.get(1, 0):
                        fs.append(Finding('c20:conv:%s' % f['name'], where(line), 'offset',
                                          '%s turns a level into a variable without adding the offset' % f['name']))
        if kind == 'spec' and m in ('getRoot', 'getChild'):
            for v, st in rs:
                l = L.lin(strip(v))
                lv = [k for k in l if k != 1 and L.unit(k) == 'L' and k[0] == 'call']
                if not lv:
                    continue
                n += 1
                own = [k for k in l if isown(k)]
                if len(lv) != 1 or l[lv[0]] != 1 or len(own) != 1 or l[own[0]] != -1 or l.get(1, 0):
                    fs.append(Finding('c20:conv:%s' % f['name'], where(f['line']), 'offset',
                                      '%s turns a variable into a level without subtracting the offset' % f['name']))
    return fs, n, nf


_CL = {}


def classes(S, reach):
    k = id(reach)
    if k not in _CL:
        out = set()
        for mg in reach:
            f = S.byname.get(mg)
            if f is not None and f.get('cls'):
                out.add(f['cls'])
        _CL.clear()
        _CL[k] = out
    return _CL[k]


def growth(d, S, reach):
    """a variable exists before it is used to make a set: single(e) creates up to e"""
    fs, n = [], 0
    for mg in reach:
        f = S.byname.get(mg)
        if f is None or f['name'] != 'graphillion::single':
            continue
        G = Grow(list(d.values()))
        try:
            rs, thr = G.start(f)
        except AnalysisBroken:
            continue
        for v, st in rs:
            for a, made in st.x.get('chg', ()):
                n += 1
                if a not in made:
                    fs.append(Finding('c20:single', '%s:%s' % (rel(f['file']), f['line']), 'new-variables',
                                      'graphillion::single uses an element whose variable may not exist'))
    return fs, n


class Grow(L.Lev):
    def inline(self, f, e):
        return f['name'].startswith('graphillion::') and f['name'] != 'graphillion::new_elems' and len(self.stack) < 4

    def on_call(self, e, fn, this, args, st, places):
        if fn == 'graphillion::new_elems' and args:
            st.x['made'] = st.x.get('made', ()) + (args[0],)
            return [(C0, st)]
        if L.short(fn) == 'Change' and args:
            st.x['chg'] = st.x.get('chg', ()) + ((args[0], st.x.get('made', ())),)
        return None
