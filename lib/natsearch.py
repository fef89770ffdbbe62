"""Native searches as terms over the arguments of their Python entry point.

Every function of the module table that parses keyword arguments is evaluated
together with the library functions it calls (lib/dd.py).  An argument is
('kw', name) when given and stays at its default otherwise; what a container or
string collects keeps the arguments it was filled from ('flow', site, {leaves})."""
import ccload, dd, pyc
from ccload import AnalysisBroken, walk
from sym import C0, C1, PASS

UNITS = {'O': 1, 'i': 1, 'd': 1, 'L': 1, 'l': 1, 'S': 1, 'U': 1, 'p': 1, 's': 1, 'n': 1, 'I': 1, 'K': 1, 'k': 1, 'h': 1, 'b': 1, 'f': 1, 'z': 1, 'y': 1, 'C': 1}


def leaves(t):
    out, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and x[0] in ('kw', 'kwopt'):
                out.add(x[1])
                continue
            if x and x[0] == 'flow':
                out |= x[2]
                continue
            st.extend(y for y in x if isinstance(y, tuple))
    return frozenset(out)


def units(fmt):
    """[(unit, optional)] of a PyArg format"""
    out, opt, i = [], False, 0
    fmt = fmt.split(':')[0].split(';')[0]
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c == '|':
            opt = True
        elif c == '$' or c in '()':
            pass
        elif c == 'O' and i < len(fmt) and fmt[i] in '!&':
            out.append(('O' + fmt[i], opt))
            i += 1
        elif c in UNITS:
            if i < len(fmt) and fmt[i] == '#':
                out.append((c + '#', opt))
                i += 1
            else:
                out.append((c, opt))
        else:
            raise AnalysisBroken('argument format %r is not known' % fmt)
    return out


def assigned_directly(nodes):
    out = set()
    for n in nodes:
        for x in walk(n):
            k = x.get('k')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and (k[0] == 'C' or x['op'] == '=') or k == 'UnaryOperator' and x['op'] in ('++', '--', '&'):
                y = x['c'][0]
                while y is not None and y['k'] in PASS:
                    y = (y.get('c') or [None])[0]
                if y is not None and y['k'] == 'DeclRefExpr':
                    out.add(y['r'].get('d'))
            for i, a in enumerate((x.get('c') or [])[1:]):
                t = (x.get('pt') or [])[i:i + 1]
                if t and '&' in t[0] and not t[0].startswith('const') and a is not None and a['k'] == 'DeclRefExpr':
                    out.add(a['r'].get('d'))
    return out


class Bind(dd.DD):
    MAXST = 30000

    def __init__(self, tus, path):
        super().__init__(tus)
        self.path = path
        self.sig = None

    def inline(self, f, e):
        if f['file'].endswith('pygraphillion.cc') or f['file'].endswith('pygraphillion.h'):
            return f['name'].split('::')[-1] not in ('translate_graph', 'input_graph')
        return super().inline(f, e)

    def strings(self, t):
        return t[1] if t[0] == 's' else None

    def more(self, e, fn, this, args, st, places):
        short = fn.split('::')[-1]
        if fn.startswith('PyArg_Parse'):
            kwf = 'Keyw' in fn
            fmt = args[2 if kwf else 1]
            fmt = fmt[1] if fmt[0] == 's' else None
            names = self.names() if kwf else None
            if fmt is None or kwf and names is None:
                raise AnalysisBroken('cannot read the argument format of %s' % self.stack[0]['name'])
            us = units(fmt)
            if kwf and len(us) != len(names):
                self.sig = ('mismatch', len(us), names)
                raise AnalysisBroken('%s: %d format units for %d names' % (self.stack[0]['name'], len(us), len(names)))
            i = 4 if kwf else 2
            sig = []
            for n, (u, opt) in enumerate(us):
                if u in ('O!', 'O&'):
                    i += 1
                name = names[n] if kwf else n
                sig.append((name, u, opt))
                a = args[i]
                i += 1
                if a[0] == 'adr':
                    old = self.load(a[1], st)
                    self.store(a[1], ('kw', name) if not opt or u[0] == 'O' else ('kwopt', name, old), st, e)
            self.sig = sig
            return [(C1, st)]
        if fn == 'PyErr_Occurred':
            return [(C0, st)]
        if fn in ('Py_INCREF', 'Py_DECREF', 'Py_XDECREF', 'Py_XINCREF', 'PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', 'Py_TYPE'):
            return [(('type', args[0]) if fn == 'Py_TYPE' else C0, st)]
        if short in ('translate_graph', 'input_graph') and len(args) == 2:
            if places[2] is not None:
                self.store(places[2], ('flow', 'graph', leaves(args[0])), st, e)
            return [(C1, st)]
        if this is not None and self.kind(e.get('cls')) == 'spec' and not e.get('mconst') and places[0] is not None and this[0] in ('spec', 'and', 'or'):
            self.store(places[0], this + (('with', short) + args,), st, e)
            return [(C0, st)]
        if short in ('tp_alloc',):
            return None
        return None

    def names(self):
        f = self.stack[0] if len(self.stack) == 1 else self.stack[-1]
        strs = {}
        for x in walk(f['body']):
            if x.get('k') == 'VarDecl' or x.get('k') == 'DeclStmt':
                for v in ([x] if x['k'] == 'VarDecl' else x.get('c') or []):
                    if v and v.get('k') == 'VarDecl' and v.get('c'):
                        for y in walk(v['c'][0]):
                            if y.get('k') == 'StringLiteral':
                                strs.setdefault(v['n'], y.get('v'))
                                break
        for x in walk(f['body']):
            if x.get('k') == 'DeclStmt':
                for v in x.get('c') or []:
                    if v and v.get('k') == 'VarDecl' and '*' in v.get('ty', '') and '[' in v.get('ty', '') and v.get('c'):
                        out = []
                        for y in walk(v['c'][0]):
                            if y.get('k') == 'DeclRefExpr' and y['r']['n'] in strs:
                                out.append(strs[y['r']['n']])
                            elif y.get('k') == 'StringLiteral':
                                out.append(y.get('v'))
                        return out
        return None

    def escape_args(self, e, vs, st, ctor=False, off=0):
        """what an unknown function fills in comes from its other arguments"""
        pt = e.get('pt') or []
        vals = [self.value(v, st) for v in vs]
        for i, v in enumerate(vs):
            t = pt[i] if i < len(pt) else '...'
            if '*' not in t and '&' not in t and t != '...' or 'PyObject' in t or '_object' in t:
                continue
            if t.startswith('const ') and ('&' in t or '*' in t) and '**' not in t.replace(' ', ''):
                continue
            pl = None
            if v[0] == 'lv' and '&' in t:
                if '&&' in t:
                    continue
                pl = v[1]
            elif vals[i][0] == 'adr':
                pl = vals[i][1]
            if pl is not None:
                old = self.load(pl, st)
                src = [x for j, x in enumerate(vals) if j != i and x[0] != 'adr'] + [self.load(x[1], st) for j, x in enumerate(vals) if j != i and x[0] == 'adr']
                lv = frozenset().union(leaves(old), *[leaves(x) for x in src])
                x = self.stable_any(e, st, 'out')
                tail = tuple(x for x in src if x[0] == 'c') if len(src) <= 3 else ()
                self.store(pl, ('flow', (x[1], tail), lv), st, e)

    def havoc(self, n, nodes, st):
        old = st.env
        st2 = super().havoc(n, nodes, st)
        direct = None
        for k, v in list(st2.env.items()):
            o = old.get(k)
            if o is not None and o != v and o[0] == 'adr' and len(k) == 2:
                if direct is None:
                    direct = assigned_directly(nodes)
                if k[1] not in direct:      # only what it points to is changed
                    st2.env[k] = o
                    continue
            if o is not None and o != v and v[0] == 'any':
                lv = leaves(o)
                if lv:
                    st2.env[k] = ('flow', ('loop',) + v[1], lv)
        return st2

    def indirect(self, e, ce, args, st):
        out = []
        for vs, s in self.rvs([ce] + args, st):
            n = s.x.get('alloc', 0)
            s.x['alloc'] = n + 1
            k = (0, 'new%d' % n)
            s.env[k] = ('pyobj',)
            out.append((('adr', ('V', k)), s))
        return out


def entries(d):
    path = [p for p in d if p.endswith('pygraphillion.cc')]
    if not path:
        raise AnalysisBroken('setup.py no longer builds pygraphillion.cc')
    ents, slots, meths = pyc.tables(d[path[0]], path[0])
    return path[0], ents


def run(d, want=None):
    """{python name: dict(f=function, sig=[(name, unit, optional)], paths=[(value, state)], error=...)}"""
    path, ents = entries(d)
    out = {}
    for fn, role, desc, variants in ents:
        if not desc.startswith('module.') or desc in out or want and desc.split('.')[-1] not in want:
            continue
        S = Bind(d.values(), path)
        f = S.byname.get(fn)
        if f is None or not any((x.get('fn') or '').startswith('PyArg_ParseTupleAndKeywords') for x in walk(f['body'])):
            continue
        try:
            rs, thr = S.start(f, {}, None)
            err = None
        except AnalysisBroken as e:
            rs, err = [], str(e)
        out[desc.split('.')[-1]] = dict(f=f, sig=S.sig, paths=rs, error=err, S=S)
    return out


def family(S, val, st):
    """the family inside a returned set object"""
    if val[0] == 'adr' and val[1][0] == 'V':
        ss = S.load(('V', val[1][1] + ('ss',)), st)
        if ss[0] == 'adr' and ss[1][0] == 'V':
            return S.load(('V', ss[1][1] + ('zdd_',)), st)
        if ss[0] == 'new':
            v = ss[3] if len(ss) > 3 else None
            if v and v[0] == 'rec':
                return dict(v[2]).get('zdd_')
            return v
        return ss
    return None
