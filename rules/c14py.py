"""Python part of C14: what every public search with a graphset parameter returns."""
import ast
import pysym as P
import pyrun
from pyrun import params
from c11py import operand
import c11py

PROG = None
SPACE = {}          # native search -> (keyword, position) of its search space
CL = ('GraphSet', 'DiGraphSet')
SUB = {'difference', 'smaller', 'larger', 'set_size', 'subsets', 'supersets', 'non_subsets', 'non_supersets', 'minimal', 'maximal',
       'cost_le', 'cost_ge', 'cost_eq', 'join_none', 'supersets_containing', 'including', 'excluding', 'minimize', 'maximize',
       'copy', '__copy__', 'len', 'difference_update', '__sub__', '__isub__', 'clear', 'remove_some_element'}
SUB -= {'remove_some_element'}
INT = {'intersection', '__and__', '__iand__', 'intersection_update'}
UNI = {'union', '__or__', '__ior__', 'update', 'symmetric_difference', '__xor__', '__ixor__', 'symmetric_difference_update'}


def targets(prog):
    for K in CL:
        for m, d in prog.classes[K].attrs.items():
            if d[0] == 'func' and not m.startswith('_'):
                pos, kwo, _, _ = params(d[1])
                if 'graphset' in pos + kwo:
                    yield K, m


def arg(t, kw, pos):
    """argument of a native call term, or None when it is left out"""
    for k, v in t[5] if len(t) > 5 else ():
        if k == kw:
            return v
    xs = t[4]
    if any(isinstance(x, tuple) and x and x[0] in ('star', 'starstar') for x in xs):
        return ('?',)
    return xs[pos] if pos is not None and pos < len(xs) else None


def none(t):
    return t is None or t == P.NONE


def empty(t):
    """a literal collection without sets"""
    return isinstance(t, tuple) and t and t[0] in ('list', 'set', 'tup') and not t[1]


def bounded(t):
    """True, or why the family is not limited to G, or None (cannot tell)"""
    if not isinstance(t, tuple) or not t:
        return None
    if t == ('G',):
        return True
    if t[0] == 'inst':
        if t[2] == ():
            return True                 # a new, empty set object
        return bounded(t[2])
    if t[0] in ('phi', 'join', 'or2') and len(t) > 1:
        rs = [bounded(x) for x in t[1:] if isinstance(x, tuple)]
        return worst(rs)
    if t[:2] == ('op', 'nat'):
        name, recv, args = t[2].split('.')[-1], t[3], list(t[4])
        if recv is None and args and '.' in t[2] and t[2].split('.')[0] == 'setset' and name != 'setset':
            recv, args = args[0], args[1:]
        if name in ('__init__', 'setset'):
            if not args or none(args[0]):
                return True
            if empty(args[0]):
                return True
            if args[0][0] in ('list', 'set', 'tup', 'dict'):
                return 'it builds a set of its own'
            return bounded(args[0])
        if recv is None:
            if name in SPACE:
                kw, pos = SPACE[name]
                a = arg(t, kw, pos)
                if none(a):
                    return 'it calls %s without a %s' % (name, kw)
                r = bounded(a)
                return r if r is True or r is None else 'it calls %s on another family (%s)' % (name, r)
            if name.startswith('_') or name in NOSPACE:
                return 'it returns what %s finds anywhere in the universe' % name
            return None
        if name in INT:
            rs = [bounded(recv)] + [bounded(x) for x in args]
            return True if True in rs else worst(rs)
        if name in UNI:
            return worst([bounded(recv)] + [bounded(x) for x in args])
        if name in SUB:
            return bounded(recv)
        if name in ('complement', '__invert__', 'invert'):
            return 'it complements a family'
        if name in ('add', 'add_some_element', 'flip', 'flip_all', 'remove_some_element', 'remove_add_some_elements', 'join', 'meet', 'quotient', 'remainder', 'hitting'):
            return 'it applies %s' % name
    return None


def worst(rs):
    if not rs:
        return None
    for r in rs:
        if isinstance(r, str):
            return r
    return None if None in rs else True


def free(t):
    """True when no G, no other search space: all subgraphs of the universe"""
    if not isinstance(t, tuple):
        return True
    if t[:2] == ('op', 'nat') and t[3] is None and t[2].split('.')[-1] in SPACE:
        kw, pos = SPACE[t[2].split('.')[-1]]
        a = arg(t, kw, pos)
        if not none(a):
            r = found(a)
            if r is not True:
                return r and 'it limits %s to %s although no graphset is given' % (t[2].split('.')[-1], r)
    rs = [free(x) for x in t if isinstance(x, tuple)]
    for r in rs:
        if isinstance(r, str):
            return r
    return None if None in rs else True


def found(t):
    """True for a family that comes from searches of its own, a description of a fixed one, None otherwise"""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'inst':
        return 'an empty family' if t[2] == () else found(t[2])
    if t[:2] == ('op', 'nat'):
        name, recv, args = t[2].split('.')[-1], t[3], list(t[4])
        if name in ('__init__', 'setset'):
            if not args or none(args[0]) or empty(args[0]):
                return 'an empty family'
            if args[0][0] == 'dict':
                return True if not args[0][1] else None         # {} places no constraint on a set
            if args[0][0] in ('list', 'set', 'tup'):
                return 'a family it builds'
            return found(args[0])
        if recv is None:
            return True if name in SPACE or name in NOSPACE or name.startswith('_') else None
        if name in UNI:
            rs = [found(x) for x in [recv] + args]
            return True if True in rs else rs[0]
        return found(recv)
    return None


def norm(t):
    """copies of a family are the family; which set class holds it does not matter"""
    if not isinstance(t, tuple):
        return t
    t = tuple(norm(x) for x in t)
    if len(t) == 3 and t[0] == 'inst':
        x = t[2]
        while isinstance(x, tuple) and len(x) > 4 and x[:2] == ('op', 'nat') and x[2].split('.')[-1] == '__init__' and len(x[4]) == 1 \
                and isinstance(x[4][0], tuple) and x[4][0][:1] == ('inst',) and x[4][0][1] == '$':
            x = x[4][0][2]
        return ('inst', '$' if t[1] in ('setset_base', '_graphillion.setset', 'setset') else t[1], x)
    return t


def operation(x):
    K, m, form = x
    d = PROG.classes[K].attrs[m]
    pos, kwo, va, ka = params(d[1])
    ps = [p for p in pos + kwo if p != 'graphset' and not (p in ('self', 'cls') and d[2] != 'static')]
    kw = ['%s=%s' % (p, p) for p in ps]
    if form == 'fn':
        body = 'h_ = %s(g_)\n return %s.%s(%s)' % (K, K, m, ', '.join(kw + ['graphset=h_']))
    elif form == 'none':
        body = 'return %s.%s(%s)' % (K, m, ', '.join(kw))
    else:
        body = 'h_ = %s(g_)\n return h_.%s(%s)' % (K, m, ', '.join(kw))
    f = ast.parse('def _op(%s):\n %s\n' % (', '.join(['g_'] + ps), body)).body[0]
    PROG.funcs['$op'] = (f, PROG.classes[K].mod, None, 'plain')
    ev = P.Ev(PROG)
    st = P.State()
    g = operand(st, K, 'G')
    if form != 'none':
        g = st.heap[g[1]].fields['_ss']
    rs = ev.run('$op', [g] + [('arg', p) for p in ps], st)
    bad, und, n, vals = [], [], 0, set()
    for s, how, v in rs:
        if how != 'ret':
            vals.add(('raise', str(getattr(v, 'name', None) or getattr(v, 'cls', ''))))
            continue
        n += 1
        t = norm(ev.struct(s, v))
        vals.add(('ret', repr(t)))
        r = free(t) if form == 'none' else bounded(t)
        if r is None:
            und.append(short(t))
        elif r is not True:
            bad.append(r)
    return sorted(set(bad)), und, n, sorted(vals), ev.reached


def short(t):
    while isinstance(t, tuple) and len(t) > 2 and t[0] == 'inst':
        t = t[2]
    return str(t)[:150]


def where(K, m):
    d = PROG.classes[K].attrs.get(m)
    return '%s:%s' % (PROG.files.get(PROG.classes[K].mod, '?').split('/')[-1], getattr(d[1], 'lineno', 0))


NOSPACE = set()


def run(prog, native):
    """native: {python name: result of natsearch.run}, with the search-space keyword of each"""
    global PROG, SPACE, NOSPACE
    PROG = c11py.PROG = prog
    res, table = native
    SPACE = {n: (kw, [x[0] for x in res[n]['sig']].index(kw)) for n, kw in table.items()}
    NOSPACE = set(res) - set(SPACE)
    jobs = [(K, m, f) for K, m in targets(prog) for f in ('fn', 'meth', 'none')]
    return pyrun.pmap(operation, jobs)
