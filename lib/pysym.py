"""Path-enumerating symbolic evaluator for the Python layer of /repo/graphillion.

The sources are parsed on every run; nothing of them is executed.  Values are
hashable terms, mutable objects live in a per-path heap, every repository
function that is called is evaluated in place (so a property is decided on what
an entry point does, however the work is split into helpers), loops are
evaluated for zero iterations and for an arbitrary one (after joining the state
with what earlier iterations leave behind), and each path ends in a returned
value or an exception.  Rules subclass Ev and get callbacks for native calls,
class-level state, universe tables and operations that may raise.

Terms
  ('k', type name, value)      constant          ('tup', (v, ...))    tuple
  ('arg', name)                caller's object   ('ref', oid)         heap object
  ('func', qual, self|None)    repo function     ('cls', name)        repo class
  ('nat', dotted)              native function   ('nbm', recv, name)  native method
  ('bi', name)                 builtin           ('lam', oid)         closure
  ('part', f, args, kwargs)    partial           ('mod', name)        module
  ('attr', b, n) ('item', b, k) ('elem', b, depth) ('op', name, ...)  opaque
  ('cst', cls, attr)           initial value of mutable class-level state
  ('tblf', table, field)       contents of a universe's initial element table
"""
import ast
import os
import sys

sys.setrecursionlimit(20000)

NONE = ('k', 'NoneType', None)
TRUE = ('k', 'bool', True)
FALSE = ('k', 'bool', False)


def K(v):
    return ('k', type(v).__name__, v)


def isk(v):
    return v[0] == 'k'


PYBUILTINS = {
    'isinstance', 'issubclass', 'len', 'range', 'enumerate', 'reversed', 'zip',
    'set', 'list', 'dict', 'tuple', 'frozenset', 'sorted', 'min', 'max', 'sum',
    'any', 'all', 'hash', 'eval', 'print', 'float', 'int', 'bool', 'str', 'repr',
    'next', 'iter', 'type', 'abs', 'getattr', 'setattr', 'hasattr', 'exit',
    'map', 'filter', 'super', 'object', 'staticmethod', 'round', 'bytes', 'id',
    'callable', 'ord', 'chr', 'divmod', 'pow', 'format', 'vars', 'property',
    'open', 'globals', 'locals'}
EXC = {'Exception', 'BaseException', 'KeyError', 'TypeError', 'ValueError',
       'RuntimeError', 'StopIteration', 'AssertionError', 'IndexError',
       'AttributeError', 'NotImplementedError', 'OverflowError', 'LookupError',
       'SystemExit', 'ImportError', 'MemoryError', 'ArithmeticError',
       'ZeroDivisionError', 'DeprecationWarning', 'Warning', 'UserWarning'}
EXC_BASE = {'KeyError': 'LookupError', 'IndexError': 'LookupError',
            'NotImplementedError': 'RuntimeError', 'LookupError': 'Exception',
            'OverflowError': 'ArithmeticError',
            'ZeroDivisionError': 'ArithmeticError',
            'SystemExit': 'BaseException', 'Exception': 'BaseException'}
BUILTYPES = {'set', 'frozenset', 'list', 'tuple', 'dict', 'int', 'str', 'float',
             'bool', 'bytes', 'NoneType'}

# native methods of _graphillion.setset: what they return
N_SET = {'copy', 'invert', 'complement', 'union', 'intersection', 'difference',
         'symmetric_difference', 'quotient', 'remainder', 'minimal', 'maximal',
         'hitting', 'smaller', 'larger', 'set_size', 'join', 'meet', 'subsets',
         'supersets', 'non_subsets', 'non_supersets', 'cost_le',
         'remove_some_element', 'add_some_element', 'remove_add_some_elements',
         'to_vertexsetset', 'to_edgevertexsetset',
         '__or__', '__and__', '__sub__', '__xor__', '__invert__',
         '__truediv__', '__mod__', '__floordiv__'}
N_MUT_SELF = {'__ior__', '__iand__', '__isub__', '__ixor__', '__itruediv__',
              '__imod__', '__ifloordiv__'}
N_MUT = {'update', 'intersection_update', 'difference_update',
         'symmetric_difference_update', 'quotient_update', 'remainder_update',
         'add', 'remove', 'discard', 'pop', 'clear', 'flip', 'flip_all',
         '__init__'} | N_MUT_SELF
N_ITER = {'iter', 'rand_iter', 'min_iter', 'max_iter', '__iter__'}
N_ELEM = {'pop', 'choice'}
N_VAL = {'isdisjoint', 'issubset', 'issuperset', '__contains__', '__len__', 'len',
         '__bool__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
         'probability', 'dump', 'dumps', '_enum', '_enums', '__repr__', '__hash__',
         '__str__'}
N_SETSET = N_SET | N_MUT | N_ITER | N_ELEM | N_VAL
N_FUNC_SET = {'load', 'loads', '_graphs', '_regular_graphs',
              '_odd_edges_subgraphs', '_degree_distribution_graphs',
              '_partitions', '_balanced_partitions', '_induced_graphs',
              '_weighted_induced_graphs', '_forbidden_induced_subgraphs',
              '_chordal_graphs', '_directed_cycles',
              '_directed_hamiltonian_cycles', '_directed_st_path',
              '_rooted_forests', '_rooted_trees', '_directed_graphs'}

LISTMUT = {'append', 'add', 'extend', 'update', 'insert', 'pop', 'popleft',
           'remove', 'discard', 'clear', 'sort', 'reverse', 'setdefault',
           'appendleft', 'extendleft', 'popitem', 'difference_update',
           'intersection_update', 'symmetric_difference_update', 'add_elem',
           '__setitem__', '__delitem__'}

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
          ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitOr: '|',
          ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>',
          ast.MatMult: '@'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv',
          '%': 'mod', '**': 'pow', '|': 'or', '&': 'and', '^': 'xor',
          '<<': 'lshift', '>>': 'rshift', '@': 'matmul'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
          ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
          ast.In: 'in', ast.NotIn: 'not in'}
CMPDUNDER = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__',
             '>': '__gt__', '>=': '__ge__'}
MIRROR = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- program

class ClassInfo:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.attrs = {}      # name -> ('func', FunctionDef, kind) | ('expr', ast)
        self.bases = []


class Prog:
    """The parsed package."""

    def __init__(self, root=None, skip=('tutorial', 'release')):
        self.root = root = root or os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'graphillion')
        self.mods = {}       # module name -> {global name: binding}
        self.classes = {}    # class name -> ClassInfo
        self.funcs = {}      # qualified name -> (FunctionDef, module, class|None, kind)
        self.files = {}
        self.parents = {}
        self.trees = []
        for f in sorted(os.listdir(root)):
            if not f.endswith('.py') or f[:-3] in skip:
                continue
            p = os.path.join(root, f)
            tree = ast.parse(open(p, encoding='utf-8').read(), p)
            for x in ast.walk(tree):
                for c in ast.iter_child_nodes(x):
                    self.parents[id(c)] = x
            self.trees.append(tree)
            name = 'graphillion' if f == '__init__.py' else 'graphillion.' + f[:-3]
            self.files[name] = p
            self._module(name, tree)
        self.mutable = self._mutable_state()

    def _module(self, name, tree):
        g = self.mods[name] = {}
        stack = list(tree.body)
        while stack:
            n = stack.pop(0)
            if isinstance(n, ast.Import):
                for a in n.names:
                    g[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    g[a.asname or a.name] = ('from', n.module, a.name)
            elif isinstance(n, ast.ClassDef):
                g[n.name] = ('class', n.name)
                self._class(name, n)
            elif isinstance(n, ast.FunctionDef):
                q = name + ':' + n.name
                self.funcs[q] = (n, name, None, 'plain')
                g[n.name] = ('func', q)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        g[t.id] = ('expr', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                stack = list(n.body) + stack

    def _class(self, mod, n):
        ci = ClassInfo(n.name, mod, n)
        self.classes[n.name] = ci
        for b in n.bases:
            ci.bases.append(ast.unparse(b))
        stack = list(n.body)
        while stack:
            s = stack.pop(0)
            if isinstance(s, ast.FunctionDef):
                kind = 'plain'
                for d in s.decorator_list:
                    dn = ast.unparse(d)
                    if dn in ('staticmethod', 'classmethod', 'property'):
                        kind = dn
                    else:
                        kind = 'unknown'
                ci.attrs[s.name] = ('func', s, kind)
                self.funcs[n.name + '.' + s.name] = (s, mod, n.name, kind)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = ('expr', s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                ci.attrs[s.target.id] = ('expr', s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                stack = list(s.body) + stack

    def mro(self, cls):
        out = []
        if cls in self.classes:
            out.append(cls)
            for b in self.classes[cls].bases:
                b = b.split('.')[-1] if not b.startswith('_graphillion') else b
                out += self.mro(b) if b in self.classes else [b]
        else:
            out.append(cls)
        return out

    def _mutable_state(self):
        """Class-level attributes some function of the package rebinds."""
        out = set()
        for q, (fn, mod, cls, kind) in self.funcs.items():
            for n in ast.walk(fn):
                ts = []
                if isinstance(n, ast.Assign):
                    ts = list(n.targets)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    ts = [n.target]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 \
                        and isinstance(n.args[0], ast.Name) and isinstance(n.args[1], ast.Constant):
                    ts = [ast.Attribute(value=n.args[0], attr=n.args[1].value)]
                flat = []
                while ts:
                    t = ts.pop()
                    if isinstance(t, (ast.Tuple, ast.List)):
                        ts = list(ts) + list(t.elts)
                    else:
                        flat.append(t)
                for t in flat:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        b = t.value.id
                        if b == 'cls' and cls:
                            b = cls
                        if b in self.classes and t.attr in self.classes[b].attrs:
                            out.add((b, t.attr))
        # containers that are class-level and mutated in place only
        for c, ci in self.classes.items():
            for a, d in ci.attrs.items():
                if d[0] == 'expr' and isinstance(d[1], ast.Call) and isinstance(d[1].func, ast.Name) \
                        and d[1].func.id in ('ObjectTable',):
                    out.add((c, a))
        return out

    def calls(self, cls):
        return self.classes[cls]


# ---------------------------------------------------------------- state

class State:
    __slots__ = ('frames', 'heap', 'cst', 'facts', 'events', 'n', 'loops', 'user', 'oks', 'cur', 'evh')

    def __init__(self):
        self.frames, self.heap, self.cst, self.facts = [], {}, {}, {}
        self.events, self.n, self.loops, self.user = None, 0, (), {}
        self.oks = frozenset()
        self.cur = None
        self.evh = 0

    def copy(self):
        s = State.__new__(State)
        s.frames = [dict(f) for f in self.frames]
        s.heap = dict(self.heap)
        s.cst = dict(self.cst)
        s.facts = dict(self.facts)
        s.events, s.n, s.loops = self.events, self.n, self.loops
        s.user = dict(self.user)
        s.oks = self.oks
        s.cur, s.evh = self.cur, self.evh
        return s

    OIDS = {}

    def alloc(self, node, site=None):
        """Names of objects are derived from where they are created, so that
        parallel paths agree on common objects and on no others."""
        k, site = 0, site or (id(self.cur), node.kind, node.cls)
        while True:
            o = State.OIDS.setdefault((site, k), len(State.OIDS) + 1)
            if o not in self.heap:
                self.heap[o] = node
                return ('ref', o)
            k += 1

    def evlist(self):
        out, e = [], self.events
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


class Node:
    """Immutable heap node. kind: list/set/dict/inst/iter/env.
    entries: list/set -> ((mult, value, facts, loops), ...);
             dict -> ((mult, key, value, facts, loops), ...)
    fields: inst -> dict (copied on write)"""
    __slots__ = ('kind', 'cls', 'entries', 'fields', 'depth', 'extra')

    def __init__(self, kind, cls=None, entries=(), fields=None, depth=0, extra=None):
        self.kind, self.cls, self.entries = kind, cls, tuple(entries)
        self.fields, self.depth, self.extra = fields or {}, depth, extra

    def key(self):
        return (self.kind, self.cls, self.entries,
                tuple(sorted(self.fields.items(), key=lambda x: x[0])), self.extra)

    def with_(self, **kw):
        n = Node(self.kind, self.cls, self.entries, self.fields, self.depth, self.extra)
        for k, v in kw.items():
            setattr(n, k, v)
        n.entries = tuple(n.entries)
        return n

    def conc(self):
        return all(e[0] == 'one' for e in self.entries)


class Exc:
    """An exception travelling on a path."""
    __slots__ = ('cls', 'args', 'why')

    def __init__(self, cls, args=(), why=None):
        self.cls, self.args, self.why = cls, args, why


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


# ---------------------------------------------------------------- evaluator

class Ev:
    MAXPATHS = 6000
    UNROLL = 40
    base_entry = None  # (name, module, definition) of the function run() evaluates
    JOIN_AT = 0      # join the states of a block when there are more than this
    MAXREC = 2
    MERGE = True

    def __init__(self, prog):
        self.p = prog
        self.sink = []
        self.trying = 0
        self.stack = []          # active (qual, node) calls
        self.deadline = None
        self.templates = {}
        self.notes = []
        self.nsteps = 0
        self.reached = set()
        self.flt = {}     # container -> what holds of the elements left out of it

    # ---- hooks
    def on_native(self, st, name, recv, args, kwargs, node):
        """Return None for the default result, or a list of (st, value)."""
        return None

    def on_mayraise(self, st, why, terms, node):
        pass

    def on_setattr(self, st, b, name, v, node):
        pass

    def on_mut(self, st, target, how, node):
        """An object that is not a fresh one of this call is changed."""
        pass

    def on_cset(self, st, cls, attr, val, node):
        pass

    def on_tbl(self, st, table, field, node):
        pass

    def on_opaque_call(self, st, fn, args, kwargs, node):
        pass

    def on_alloc_inst(self, st, cls, ref):
        pass

    def truth_hook(self, st, v):
        return None

    # ---- bookkeeping
    def where(self, st, node=None):
        f = self.stack[-1] if self.stack else self.base_entry or ('?', '?', None)
        n = node or st.cur or (self.base_entry[2] if self.base_entry else None)
        ln = getattr(n, 'lineno', 0)
        return '%s:%s (%s)' % (os.path.basename(self.p.files.get(f[1], '?')), ln, f[0])

    def event(self, st, *ev):
        st.events = (st.events, ev)
        st.evh = hash((st.evh, ev))

    def throw(self, st, exc):
        self.sink.append((st, exc))

    def mayraise(self, st, why, terms, node):
        k = (why, terms)
        if k in st.oks:
            return
        self.on_mayraise(st, why, terms, node)
        if self.trying:
            s2 = st.copy()
            self.throw(s2, Exc('?', (), why))
        st.oks = st.oks | {k}

    # ---- type knowledge
    def typeof(self, st, v):
        t = v[0]
        if t == 'k':
            return v[1]
        if t == 'tup':
            return 'tuple'
        if t == 'ref':
            n = st.heap[v[1]]
            return n.cls if n.kind == 'inst' else n.kind
        if t in ('func', 'nat', 'nbm', 'bi', 'lam', 'part', 'cls', 'mod'):
            return t
        f = st.facts.get(('type', v))
        if f:
            return f
        if t == 'attr' and v[2] == '_ss':
            return 'setset_base'
        if t in ('elem', 'key'):
            c = self.canon_container(v[1])
            if c[0] == 'tblf' and c[1] in ('Universe.e_objtable', 'DiGraphSet._objtable'):
                return 'tuple'
        if t == 'tblf':
            return {'obj2int': 'dict', 'int2obj': 'list'}.get(v[2])
        if t == 'op':
            if v[1] in ('natset',):
                return 'set'
            if v[1] in ('range',):
                return 'range'
            if v[1] in ('fstr', 'str', 'repr'):
                return 'str'
            if v[1] in ('pickle',):
                return 'bytes'
            if v[1] in ('len', 'num', 'lin', 'int', 'hash'):
                return 'int'
            if v[1] == 'float':
                return 'float'
        if t == 'cst':
            e = self.p.classes[v[1]].attrs.get(v[2])
            if e and e[0] == 'expr':
                if isinstance(e[1], ast.Dict):
                    return 'dict'
                if isinstance(e[1], ast.Call) and isinstance(e[1].func, ast.Name) and e[1].func.id in ('set', 'dict', 'list'):
                    return e[1].func.id
        if t == 'slice':
            return self.typeof(st, v[1])
        return None

    def is_subtype(self, a, b):
        if a == b:
            return True
        if a == 'bool' and b == 'int':
            return True
        if a in self.p.classes:
            if b == 'object':
                return True
            return b in [x.split('.')[-1] for x in self.p.mro(a)] or b in self.p.mro(a)
        return b == 'object'

    def isinst(self, st, v, types):
        """True/False/None"""
        t = self.typeof(st, v)
        if t is not None:
            return any(self.is_subtype(t, x) for x in types)
        pos = st.facts.get(('isinst+', v))
        if pos:
            if all(any(self.is_subtype(p, x) for x in types) for p in pos):
                return True
            if not any(self.is_subtype(p, x) or self.is_subtype(x, p) for p in pos for x in types):
                return False
        neg = st.facts.get(('isinst-', v))
        if neg and all(any(self.is_subtype(x, n) for n in neg) for x in types):
            return False
        return None

    def assume_inst(self, st, v, types, val):
        if val:
            old = st.facts.get(('isinst+', v))
            ts = frozenset(types) if not old else frozenset(t for t in types if any(
                self.is_subtype(t, o) or self.is_subtype(o, t) for o in old))
            neg = st.facts.get(('isinst-', v)) or ()
            ts = frozenset(t for t in ts if t not in neg)
            st.facts[('isinst+', v)] = ts
            if len(ts) == 1:
                t = next(iter(ts))
                if t in self.p.classes:
                    st.facts[('type', v)] = t
                elif t in ('set', 'list', 'dict', 'frozenset', 'tuple', 'int', 'str'):
                    st.facts[('type', v)] = t
        else:
            st.facts[('isinst-', v)] = frozenset(st.facts.get(('isinst-', v)) or ()) | frozenset(types)

    # ---- running
    def run(self, qual, args, st=None, self_val=None):
        """Evaluate one repo function.  args: list of values or dict; returns
        [(state, 'ret'|'raise', value|Exc)]."""
        st = st or State()
        self.sink, self.trying, self.stack = [], 0, []
        f = self.p.funcs.get(qual)
        self.base_entry = (qual, f[1], f[0]) if f else None
        a, kw = ((), dict(args)) if isinstance(args, dict) else (tuple(args), {})
        if self_val is not None:
            a = (self_val,) + a
        res = self.call_func(st, qual, a, kw, None)
        out = [(s, 'ret', v) for s, v in res]
        out += [(s, 'raise', e) for s, e in self.sink]
        self.sink = []
        return out

    def limit(self, sts):
        if len(sts) > self.MAXPATHS:
            raise Unsupported('more than %d paths' % self.MAXPATHS)

    # ---- calls
    def call_func(self, st, qual, args, kwargs, node):
        if qual not in self.p.funcs:
            raise Unsupported('no function ' + qual)
        fn, mod, cls, kind = self.p.funcs[qual]
        self.reached.add(qual)
        if sum(1 for q in self.stack if q[0] == qual) >= self.MAXREC + 1:
            self.event(st, 'rec', qual, args)
            st.n += 1
            return [(st, ('op', 'rec', qual, ('n', st.n)))]
        fr = {'$mod': mod, '$cls': cls, '$fn': qual}
        fnargs = fn.args
        pos = [a.arg for a in fnargs.posonlyargs + fnargs.args]
        nd = len(fnargs.defaults)
        extra = []
        kw = dict(kwargs)
        star = kw.pop('*', None)
        for i, v in enumerate(args):
            if i < len(pos):
                fr[pos[i]] = v
            else:
                extra.append(v)
        if star is not None:
            # starred opaque sequence
            if fnargs.vararg is not None and not extra:
                fr[fnargs.vararg.arg] = star
                extra = None
        if extra:
            if fnargs.vararg is None:
                self.throw(st, Exc('TypeError', (), 'too many arguments to ' + qual))
                return []
        if fnargs.vararg is not None and extra is not None:
            fr[fnargs.vararg.arg] = ('tup', tuple(extra))
        names = set(pos) | {a.arg for a in fnargs.kwonlyargs}
        rest = {}
        for k, v in kw.items():
            if k in names:
                if k in fr:
                    self.throw(st, Exc('TypeError', (), 'multiple values for %s of %s' % (k, qual)))
                    return []
                fr[k] = v
            else:
                rest[k] = v
        if rest:
            if fnargs.kwarg is None:
                self.event(st, 'badkw', qual, tuple(sorted(rest)))
                self.throw(st, Exc('TypeError', (), 'unexpected keyword %s of %s' % (sorted(rest)[0], qual)))
                return []
            d = st.alloc(Node('dict', entries=[('one', K(k), v, frozenset(), ()) for k, v in rest.items()], depth=len(st.loops)))
            fr[fnargs.kwarg.arg] = d
        elif fnargs.kwarg is not None:
            fr[fnargs.kwarg.arg] = st.alloc(Node('dict', depth=len(st.loops)))
        sts = [st]
        defaults = list(zip(pos[len(pos) - nd:], fnargs.defaults)) + [
            (a.arg, d) for a, d in zip(fnargs.kwonlyargs, fnargs.kw_defaults) if d is not None]
        for k, d in defaults:
            if k not in fr:
                st.frames.append({'$mod': mod, '$cls': cls, '$fn': qual})
                r = self.ev(d, st)
                st = r[0][0]
                st.frames.pop()
                fr[k] = r[0][1]
        missing = [a for a in pos + [x.arg for x in fnargs.kwonlyargs] if a not in fr]
        if missing:
            self.throw(st, Exc('TypeError', (), 'missing argument %s of %s' % (missing[0], qual)))
            return []
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(fn))
        if gen:
            fr['$gen'] = st.alloc(Node('list', cls='gen', depth=len(st.loops), extra='gen'))
        st.frames.append(fr)
        depth = len(st.frames)
        self.stack.append((qual, mod, node, cls))
        cur = st.cur
        outer_n = len(self.sink)
        try:
            res = self.block(fn.body, [st])
        finally:
            self.stack.pop()
        out = []
        for s, oc in res:
            fr2 = s.frames[depth - 1]
            del s.frames[depth - 1:]
            s.cur = cur
            if gen:
                out.append((s, fr2['$gen']))
            elif oc is None:
                out.append((s, NONE))
            elif oc[0] == 'ret':
                out.append((s, oc[1]))
            else:
                out.append((s, NONE))
        self.trim_sink(outer_n, depth)
        if len(out) > 3 and self.MERGE:
            out = self.merge_results(out)
        self.limit(out)
        return out

    def trim_sink(self, n0, depth):
        """Raising paths of a finished call: drop its frame; outside try
        statements one path per exception site and history is enough."""
        new, seen = [], set()
        for s, e in self.sink[n0:]:
            del s.frames[depth - 1:]
            if not self.trying and self.MERGE:
                k = (e.cls, id(e.why) if not isinstance(e.why, str) else e.why, s.evh)
                if k in seen:
                    continue
                seen.add(k)
            new.append((s, e))
        self.sink[n0:] = new

    def new_inst(self, st, cls, fields=None):
        r = st.alloc(Node('inst', cls=cls, fields=dict(fields or {}), depth=len(st.loops)))
        self.on_alloc_inst(st, cls, r)
        return r

    def instantiate(self, st, cls, args, kwargs, node):
        f = self.find_attr(cls, '__init__')
        ref = self.new_inst(st, cls)
        if f and f[1][0] == 'func':
            out = []
            for s, _ in self.call_func(st, f[0] + '.__init__', (ref,) + tuple(args), kwargs, node):
                out.append((s, ref))
            return out
        if any(b.startswith('_graphillion') for b in self.p.mro(cls)):
            return [(s, ref) for s, _ in self.native(st, 'setset.__init__', ref, args, kwargs, node)]
        return [(st, ref)]

    def find_attr(self, cls, name):
        for c in self.p.mro(cls):
            if c in self.p.classes and name in self.p.classes[c].attrs:
                return (c, self.p.classes[c].attrs[name])
        return None

    def is_nat_cls(self, cls):
        return any(b.startswith('_graphillion') for b in self.p.mro(cls))

    def call(self, st, fn, args, kwargs, node):
        t = fn[0]
        if t == 'func':
            a = tuple(args)
            if fn[2] is not None:
                a = (fn[2],) + a
            return self.call_func(st, fn[1], a, kwargs, node)
        if t == 'part':
            kw = dict(fn[3])
            kw.update(kwargs)
            return self.call(st, fn[1], tuple(fn[2]) + tuple(args), kw, node)
        if t == 'cls':
            if fn[1] in EXC:
                return [(st, ('exc', fn[1], tuple(args)))]
            return self.instantiate(st, fn[1], args, kwargs, node)
        if t == 'lam':
            return self.call_lam(st, fn, args, kwargs, node)
        if t == 'nat':
            nm = fn[1]
            if nm.startswith('setset.'):
                if not args:
                    raise Unsupported('native method without receiver')
                return self.native(st, nm, args[0], tuple(args[1:]), kwargs, node)
            return self.native(st, nm, None, tuple(args), kwargs, node)
        if t == 'nbm':
            return self.native(st, 'setset.' + fn[2], fn[1], tuple(args), kwargs, node)
        if t == 'bi':
            return self.builtin(st, fn[1], args, kwargs, node)
        if t == 'bm':       # builtin-type method
            return self.bmethod(st, fn[1], fn[2], args, kwargs, node)
        if t == 'ref' and st.heap[fn[1]].kind == 'inst':
            f = self.find_attr(st.heap[fn[1]].cls, '__call__')
            if f:
                return self.call_func(st, f[0] + '.__call__', (fn,) + tuple(args), kwargs, node)
        if t == 'exc':
            return [(st, fn)]
        self.mayraise(st, 'call', (fn,) + tuple(args), node)
        self.on_opaque_call(st, fn, args, kwargs, node)
        return [(st, ('op', 'call', fn, tuple(args), tuple(sorted(kwargs.items()))))]

    def call_lam(self, st, fn, args, kwargs, node):
        env = st.heap[fn[1]]
        ln, captured, mod, cls, q = env.extra
        fr = dict(captured)
        fr['$mod'], fr['$cls'], fr['$fn'] = mod, cls, q
        names = [a.arg for a in ln.args.args]
        nd = len(ln.args.defaults)
        for i, a in enumerate(args):
            if i < len(names):
                fr[names[i]] = a
            elif ln.args.vararg:
                fr[ln.args.vararg.arg] = ('tup', tuple(args[len(names):]))
        if ln.args.vararg and ln.args.vararg.arg not in fr:
            fr[ln.args.vararg.arg] = ('tup', ())
        bound = set(names[:len(args)]) | set(kwargs)
        for k, v in kwargs.items():
            fr[k] = v
        for k, d in zip(names[len(names) - nd:], ln.args.defaults):
            if k not in bound:
                st.frames.append(fr)
                st, v = self.ev(d, st)[0]
                fr = st.frames.pop()
                fr[k] = v
        gen = not isinstance(ln, ast.Lambda) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(ln))
        if gen:
            fr['$gen'] = st.alloc(Node('list', cls='gen', depth=len(st.loops), extra='gen'))
        if len(self.stack) > 40:
            return [(st, ('op', 'rec', 'lambda'))]
        st.frames.append(fr)
        depth = len(st.frames)
        self.stack.append((q, mod, node, cls))
        n0 = len(self.sink)
        try:
            if isinstance(ln, ast.Lambda):
                res = [(s, ('ret', v)) for s, v in self.ev(ln.body, st)]
            else:
                res = self.block(ln.body, [st])
        finally:
            self.stack.pop()
        out = []
        for s, oc in res:
            f2 = s.frames[depth - 1]
            del s.frames[depth - 1:]
            out.append((s, f2['$gen'] if gen else oc[1] if oc and oc[0] == 'ret' else NONE))
        for s, e in self.sink[n0:]:
            del s.frames[depth - 1:]
        return out

    # ---- native calls
    def native(self, st, name, recv, args, kwargs, node):
        short = name.split('.')[-1]
        r = self.on_native(st, name, recv, args, kwargs, node)
        if r is not None:
            return r
        self.event(st, 'nat', name, recv, tuple(args), tuple(sorted(kwargs.items())), self.where(st, node))
        self.mayraise(st, 'native', (name, recv) + tuple(self.struct(st, a) for a in args), node)
        return self.native_result(st, name, recv, args, kwargs)

    def native_result(self, st, name, recv, args, kwargs):
        short = name.split('.')[-1]
        d = ('op', 'nat', name, self.struct(st, recv) if recv else None,
             tuple(self.struct(st, a) for a in args),
             tuple((k, self.struct(st, v)) for k, v in sorted(kwargs.items())))
        if name.startswith('setset.'):
            if short == '__init__':
                if recv[0] == 'ref':
                    n = st.heap[recv[1]]
                    f = dict(n.fields)
                    f['$def'] = d
                    st.heap[recv[1]] = n.with_(fields=f)
                return [(st, NONE)]
            if short in N_MUT_SELF:
                self.redefine(st, recv, d)
                return [(st, recv)]
            if short in N_MUT:
                self.redefine(st, recv, d)
                if short == 'pop':
                    st.n += 1
                    return [(st, ('op', 'natset', d, ('n', 0)))]
                return [(st, NONE)]
            if short in N_SET:
                cls = self.typeof(st, recv)
                if cls is None or not (cls in self.p.classes and self.is_nat_cls(cls)):
                    cls = 'setset_base'
                return [(st, self.new_inst(st, cls, {'$def': d}))]
            if short in N_ITER:
                return [(st, ('op', 'natiter', d))]
            if short in N_ELEM:
                return [(st, ('op', 'natset', d))]
            return [(st, d)]
        if short in N_FUNC_SET:
            return [(st, self.new_inst(st, '_graphillion.setset', {'$def': d}))]
        if name == 'setset':
            return [(st, self.new_inst(st, '_graphillion.setset', {'$def': d}))]
        return [(st, d)]

    def redefine(self, st, recv, d):
        if recv[0] == 'ref':
            n = st.heap[recv[1]]
            f = dict(n.fields)
            f['$def'] = d
            st.heap[recv[1]] = n.with_(fields=f)

    # ---- structural image of a value (heap references expanded)
    def struct(self, st, v, seen=()):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'ref':
            if v[1] in seen:
                return ('cyc',)
            n = st.heap[v[1]]
            sn = seen + (v[1],)
            if n.kind == 'inst':
                if '$def' in n.fields:
                    return ('inst', n.cls, n.fields['$def'])
                if '_ss' in n.fields:
                    return ('inst', n.cls, self.struct(st, n.fields['_ss'], sn))
                if '$tbl' in n.fields:
                    return ('table', n.fields['$tbl'])
                return ('inst', n.cls, tuple((k, self.struct(st, x, sn)) for k, x in sorted(n.fields.items()) if k[0] != '$'))
            if n.kind == 'env':
                return ('lambda', ast.dump(n.extra[0]))
            if n.kind == 'dict':
                es = tuple((e[0], self.struct(st, e[1], sn), self.struct(st, e[2], sn)) for e in n.entries)
                return ('dict', tuple(sorted(set(es), key=repr)))
            es = tuple((e[0], self.struct(st, e[1], sn)) for e in n.entries)
            if n.kind != 'list' or not n.conc():
                es = tuple(sorted(set(es), key=repr))
            return (n.kind, es)
        if v[0] == 'lam':
            return ('lambda', ast.dump(st.heap[v[1]].extra[0]))
        return tuple(self.struct(st, x, seen) if isinstance(x, tuple) else x for x in v)


def walk_own(fn):
    """Nodes of a function, not those of nested functions or lambdas."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                todo.append(c)


# ---------------------------------------------------------------- statements

def _block(self, stmts, sts):
    """[(state, outcome)]: outcome None | ('ret', v) | ('brk',) | ('cont',)"""
    out = []
    live = list(sts)
    for n in stmts:
        nxt = []
        for st in live:
            st.cur = n
            for s, oc in self.stmt(n, st):
                if oc is None:
                    nxt.append(s)
                else:
                    out.append((s, oc))
        live = nxt
        if self.JOIN_AT and len(live) > self.JOIN_AT:
            live = self.join_live(live)
        if len(live) > 12:
            live = self.merge_states(live)
        self.limit(live)
        self.limit(out)
        if not live:
            break
    return out + [(s, None) for s in live]


def _stmt(self, n, st):
    self.nsteps += 1
    if self.deadline and self.nsteps % 256 == 0:
        import time
        if time.time() > self.deadline:
            raise Unsupported('time')
    T = type(n)
    if T is ast.Expr:
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, None) for s, v in self.ev(n.value, st)]
    if T is ast.Assign:
        out = []
        for s, v in self.ev(n.value, st):
            ss = [s]
            for t in n.targets:
                ss = [s3 for s2 in ss for s3 in self.assign(t, v, s2, n)]
            out += [(s2, None) for s2 in ss]
        return out
    if T is ast.AnnAssign:
        if n.value is None:
            return [(st, None)]
        return [(s2, None) for s, v in self.ev(n.value, st) for s2 in self.assign(n.target, v, s, n)]
    if T is ast.AugAssign:
        return self.augassign(n, st)
    if T is ast.Return:
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, ('ret', v)) for s, v in self.ev(n.value, st)]
    if T is ast.If:
        out = []
        for s, b in self.cond(n.test, st):
            body = n.body if b else n.orelse
            out += self.block(body, [s]) if body else [(s, None)]
        return out
    if T is ast.Pass:
        return [(st, None)]
    if T is ast.Break:
        return [(st, ('brk',))]
    if T is ast.Continue:
        return [(st, ('cont',))]
    if T is ast.For:
        out = []
        for s, it in self.ev(n.iter, st):
            out += self.for_loop(s, it, lambda s2, e: self.for_body(n, s2, e), n, n.orelse)
        return out
    if T is ast.While:
        return self.while_loop(n, st)
    if T is ast.Raise:
        if n.exc is None:
            e = st.frames[-1].get('$handling') or Exc('?')
            self.throw(st, e if isinstance(e, Exc) else Exc('?'))
            return []
        for s, v in self.ev(n.exc, st):
            if v[0] == 'exc':
                self.throw(s, Exc(v[1], v[2], n))
            elif v[0] == 'cls' or v[0] == 'bi':
                self.throw(s, Exc(v[1], (), n))
            else:
                self.throw(s, Exc('?', (v,), n))
        return []
    if T is ast.Assert:
        out = []
        for s, b in self.cond(n.test, st):
            if b:
                out.append((s, None))
            else:
                self.throw(s, Exc('AssertionError', (), n))
        return out
    if T is ast.Try:
        return self.try_stmt(n, st)
    if T in (ast.Import, ast.ImportFrom):
        for a in n.names:
            if T is ast.Import:
                st.frames[-1][a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            else:
                st.frames[-1][a.asname or a.name] = self.from_import(n.module, a.name, st)
        return [(st, None)]
    if T is ast.FunctionDef:
        fr = st.frames[-1]
        st.frames[-1][n.name] = st.alloc(Node('env', extra=(n, dict(fr), fr['$mod'], fr['$cls'], fr['$fn'] + '.' + n.name)))
        st.frames[-1][n.name] = ('lam', st.frames[-1][n.name][1])
        # let the closure see itself
        node = st.heap[st.frames[-1][n.name][1]]
        node.extra[1][n.name] = st.frames[-1][n.name]
        return [(st, None)]
    if T is ast.Delete:
        out = [st]
        for t in n.targets:
            nxt = []
            for s in out:
                if isinstance(t, ast.Name):
                    s.frames[-1].pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s):
                        for s3, k in self.ev(t.slice, s2):
                            self.mut_container(s3, b, '__delitem__', (k,), n)
                            nxt.append(s3)
                else:
                    nxt.append(s)
            out = nxt
        return [(s, None) for s in out]
    if T is ast.With:
        ss = [st]
        for it in n.items:
            nx = []
            for s in ss:
                for s2, v in self.ev(it.context_expr, s):
                    if it.optional_vars is not None:
                        nx += self.assign(it.optional_vars, ('op', 'enter', v), s2, n)
                    else:
                        nx.append(s2)
            ss = nx
        return self.block(n.body, ss)
    if T in (ast.Global, ast.Nonlocal):
        return [(st, None)]
    raise Unsupported('statement %s at %s' % (T.__name__, self.where(st, n)))


def _for_body(self, n, st, elem):
    out = []
    for s in self.assign(n.target, elem, st, n):
        out += self.block(n.body, [s])
    return out


def _from_import(self, module, name, st):
    if module == '_graphillion':
        return ('nat', name)
    if module == 'graphillion' or module == '__init__':
        g = self.p.mods.get('graphillion', {}).get(name)
        if g is None:
            g = self.p.mods.get('graphillion.' + name) and ('mod', 'graphillion.' + name)
        if g:
            return self.global_value(g, 'graphillion', st)
    if module in self.p.mods:
        g = self.p.mods[module].get(name)
        if g:
            return self.global_value(g, module, st)
    if module == 'functools' and name == 'partial':
        return ('bi', 'partial')
    if module == 'builtins':
        return ('bi', name)
    if module == 'collections' and name == 'deque':
        return ('bi', 'deque')
    if module == 'copy' and name in ('copy', 'deepcopy'):
        return ('bi', 'copy.' + name)
    if name in self.p.classes and module and module.startswith('graphillion'):
        return ('cls', name)
    return ('ext', '%s.%s' % (module, name))


def _global_value(self, g, mod, st):
    if g[0] == 'class':
        return ('cls', g[1])
    if g[0] == 'func':
        return ('func', g[1], None)
    if g[0] == 'mod':
        return g
    if g[0] == 'from':
        return self.from_import(g[1], g[2], st)
    if g[0] == 'expr':
        st.frames.append({'$mod': mod, '$cls': None, '$fn': mod})
        r = self.ev(g[1], st)
        st.frames.pop()
        return r[0][1]
    return g


# ---- assignment

def _assign(self, t, v, st, node):
    if isinstance(t, ast.Name):
        st.frames[-1][t.id] = v
        return [st]
    if isinstance(t, (ast.Tuple, ast.List)):
        n = len(t.elts)
        vals = None
        if v[0] == 'tup':
            vals = v[1]
        elif v[0] == 'ref' and st.heap[v[1]].kind == 'list' and st.heap[v[1]].conc():
            vals = [e[1] for e in st.heap[v[1]].entries]
        if vals is not None and not any(isinstance(e, ast.Starred) for e in t.elts):
            if len(vals) != n:
                self.throw(st, Exc('ValueError', (), 'unpack'))
                return []
        else:
            self.mayraise(st, 'unpack%d' % n, (v,), node)
            vals = [self.item_term(st, v, K(i)) for i in range(n)]
        ss = [st]
        for e, x in zip(t.elts, vals):
            ss = [s2 for s in ss for s2 in self.assign(e, x, s, node)]
        return ss
    if isinstance(t, ast.Starred):
        return self.assign(t.value, v, st, node)
    if isinstance(t, ast.Attribute):
        out = []
        for s, b in self.ev(t.value, st):
            self.setattr(s, b, t.attr, v, node)
            out.append(s)
        return out
    if isinstance(t, ast.Subscript):
        out = []
        for s, b in self.ev(t.value, st):
            if isinstance(t.slice, ast.Slice):
                self.mut_container(s, b, 'setslice', (v,), node)
                out.append(s)
                continue
            for s2, k in self.ev(t.slice, s):
                self.mayraise(s2, 'hash', (k,), node)
                self.mut_container(s2, b, '__setitem__', (k, v), node)
                out.append(s2)
        return out
    raise Unsupported('assignment target')


def _setattr(self, st, b, name, v, node):
    if b[0] == 'cls':
        c = b[1]
        st.cst[(c, name)] = v
        self.event(st, 'cset', c, name)
        self.on_cset(st, c, name, v, node)
        return
    if b[0] == 'ref' and st.heap[b[1]].kind == 'inst':
        n = st.heap[b[1]]
        f = dict(n.fields)
        if '$init' in f:
            self.event(st, 'setfield', b, name)
            self.on_mut(st, b, 'attribute ' + name, node)
        f[name] = v
        st.heap[b[1]] = n.with_(fields=f)
        return
    self.event(st, 'mut', b, 'setattr ' + name)
    self.on_setattr(st, b, name, v, node)
    self.on_mut(st, b, 'attribute ' + name, node)


def _augassign(self, n, st):
    out = []
    op = BINOPS[type(n.op)]
    t = n.target
    if isinstance(t, ast.Name):
        for s, b in self.ev(ast.Name(id=t.id, ctx=ast.Load(), lineno=n.lineno), st):
            for s2, v in self.ev(n.value, s):
                for s3, r in self.binop(s2, op, b, v, n, inplace=True):
                    s3.frames[-1][t.id] = r
                    out.append((s3, None))
        return out
    if isinstance(t, ast.Attribute):
        for s, b in self.ev(t.value, st):
            for s1, old in self.getattr(s, b, t.attr, n):
                for s2, v in self.ev(n.value, s1):
                    for s3, r in self.binop(s2, op, old, v, n, inplace=True):
                        if r != old or r[0] != 'ref':
                            self.setattr(s3, b, t.attr, r, n)
                        out.append((s3, None))
        return out
    if isinstance(t, ast.Subscript):
        for s, b in self.ev(t.value, st):
            for s1, k in self.ev(t.slice, s):
                for s2, old in self.subscript(s1, b, k, n):
                    for s3, v in self.ev(n.value, s2):
                        for s4, r in self.binop(s3, op, old, v, n, inplace=True):
                            self.mut_container(s4, b, '__setitem__', (k, r), n)
                            out.append((s4, None))
        return out
    raise Unsupported('augmented assignment')


# ---- try

def _try_stmt(self, n, st):
    depth = len(st.frames)
    loops = st.loops
    save, self.sink = self.sink, []
    self.trying += 1
    try:
        res = self.block(n.body, [st.copy()])
    finally:
        self.trying -= 1
    caught, self.sink = self.sink, save
    out = []
    for s, oc in res:
        if oc is None and n.orelse:
            out += self.block(n.orelse, [s])
        else:
            out.append((s, oc))
    seen = set()
    for s, e in caught:
        del s.frames[depth:]
        s.loops = loops
        handled = False
        for h in n.handlers:
            names = []
            if h.type is None:
                names = ['BaseException']
            elif isinstance(h.type, ast.Tuple):
                names = [ast.unparse(x) for x in h.type.elts]
            else:
                names = [ast.unparse(h.type)]
            if e.cls == '?' or any(exc_sub(e.cls, x) for x in names):
                if e.cls == '?':
                    # one representative state per reason and handler
                    k = (e.why if isinstance(e.why, str) else '?', id(h), self.skey(s))
                    if k in seen:
                        handled = True
                        break
                    seen.add(k)
                    if h.type is not None and not any(x in ('Exception', 'BaseException') for x in names) and self.keep_unknown:
                        self.throw(s.copy(), e)
                if h.name:
                    s.frames[-1][h.name] = ('op', 'exc', e.cls)
                s.frames[-1]['$handling'] = e
                out += self.block(h.body, [s])
                handled = True
                break
        if not handled:
            self.throw(s, e)
    if n.finalbody:
        fin = []
        for s, oc in out:
            for s2, oc2 in self.block(n.finalbody, [s]):
                fin.append((s2, oc2 if oc2 is not None else oc))
        out = fin
    return out


def exc_sub(c, base):
    while c is not None:
        if c == base:
            return True
        c = EXC_BASE.get(c, 'Exception' if c not in ('BaseException', 'Exception') else ('BaseException' if c == 'Exception' else None))
    return False


# ---- loops

_REFS = {}


def _refs(v):
    """numbers of the heap objects a term mentions"""
    r = _REFS.get(v)
    if r is None:
        out, todo = set(), [v]
        while todo:
            t = todo.pop()
            if len(t) == 2 and t[0] in ('ref', 'lam') and isinstance(t[1], int):
                out.add(t[1])
            else:
                todo.extend(x for x in t if isinstance(x, tuple))
        if len(_REFS) > 400000:
            _REFS.clear()
        r = _REFS[v] = frozenset(out)
    return r


def _reach(self, st, roots):
    seen, todo = set(), []
    for v in roots:
        if isinstance(v, tuple):
            todo.extend(_refs(v))
    while todo:
        o = todo.pop()
        if o in seen:
            continue
        seen.add(o)
        n = st.heap.get(o)
        if n is None:
            continue
        vs = list(n.fields.values())
        if n.kind == 'env':
            vs.extend(x for k, x in n.extra[1].items() if k[0] != '$')
        else:
            for e in n.entries:
                vs.extend(e[1:3] if n.kind == 'dict' else e[1:2])
            if isinstance(n.extra, tuple):
                vs.append(n.extra)
        for v in vs:
            if isinstance(v, tuple):
                todo.extend(_refs(v))
    return seen


def _skey(self, st, extra=()):
    roots = [v for f in st.frames for k, v in f.items() if k[0] != '$' or k == '$gen'] + list(st.cst.values()) + list(extra) + list(st.loops)
    live = self.reach(st, roots)
    return (tuple(tuple(sorted((k, v) for k, v in f.items() if k[0] != '$' or k == '$gen')) for f in st.frames),
            tuple((k, st.heap[k].key()) for k in sorted(live) if k in st.heap and st.heap[k].kind != 'env'),
            tuple(sorted(st.cst.items())), st.loops, st.evh, extra)


def _merge_results(self, rs):
    """rs: [(state, value)]"""
    by, order = {}, []
    for s, v in rs:
        try:
            k = (self.skey(s, (v,)), tuple(sorted(s.user.items(), key=repr)))
            hash(k)
        except TypeError:
            return rs
        if k in by:
            o = by[k]
            o.facts = {f: x for f, x in o.facts.items() if s.facts.get(f) == x}
            o.oks = o.oks & s.oks
        else:
            by[k] = s
            order.append((s, v))
    return order


def _merge_states(self, sts):
    """Drop duplicates (same locals, reachable heap, class state, events);
    what remains known is what both knew."""
    return [s for s, _ in self.merge_results([(s, NONE) for s in sts])]


def _join_live(self, sts):
    res = []
    for s in sts:
        for r in res:
            if r.frames[:-1] == s.frames[:-1] and r.loops == s.loops and self.try_merge(r, s):
                break
        else:
            res.append(s)
    return res


def facts_about(st, v):
    if v[0] in ('k', 'ref', 'lam'):
        return frozenset()
    subs = set(t for t in subterms(v) if t and t[0] in ('arg', 'elem', 'item', 'attr', 'op', 'tup', 'cst', 'slice', 'key', 'val'))
    if not subs:
        return frozenset()
    out = []
    for k, val in st.facts.items():
        if k[0] in ('isinst+', 'isinst-', 'type', 'truth') and k[1] in subs:
            out.append((k, val))
        elif k[0] == 'op' and len(k) > 3 and (k[2] in subs or isinstance(k[2], tuple) and (
                k[2][0] == 'tup' and k[2][1] and all(x in subs for x in k[2][1]) or k[2][0] == 'slice' and k[2][1] in subs)):
            out.append((k, val))
    return frozenset(out)


def _join_val(self, a, b):
    return a if a == b else None


def _for_loop(self, st, itv, body, node, orelse=None):
    """body(state, element) -> [(state, outcome)]"""
    conc, elems = self.iterate(st, itv, node)
    out = []
    if conc and len(elems) <= self.UNROLL:
        live = [st]
        for e, facts in elems:
            nxt = []
            for s in live:
                for k, v in facts:
                    s.facts.setdefault(k, v)
                for s2, oc in body(s, e):
                    if oc is None or oc[0] == 'cont':
                        nxt.append(s2)
                    elif oc[0] == 'brk':
                        out.append((s2, None))
                    else:
                        out.append((s2, oc))
            live = nxt
            if len(live) > 12:
                live = self.merge_states(live)
            self.limit(live)
        if orelse:
            return out + self.block(orelse, live)
        return out + [(s, None) for s in live]
    pre = st

    def once(base):
        posts, outs = [], []
        for e, facts in elems:
            s = base.copy()
            s.loops = s.loops + (itv,)
            for k, v in facts:
                s.facts.setdefault(k, v)
            for s2, oc in body(s, e):
                s2.loops = base.loops
                if oc is None or oc[0] == 'cont':
                    posts.append(s2)
                elif oc[0] == 'brk':
                    outs.append((s2, None))
                else:
                    outs.append((s2, oc))
        return posts, outs
    posts, outs = once(pre)
    j, changed = self.join_states(pre, posts)
    if changed:
        posts2, outs2 = once(j)
        j2, ch2 = self.join_states(j, posts2)
        if ch2:
            posts3, outs3 = once(j2)
            posts2, outs2 = posts2 + posts3, outs2 + outs3
            j = j2
        posts, outs = posts + posts2, outs + outs2
    roots = {t for e, _ in elems for t in subterms(e) if len(t) > 1 and t[0] in ('elem', 'key', 'val')}
    ex = self.exit_states(pre, posts, itv, node, [s for s, oc in outs if oc is None], roots)
    self.limit(ex)
    if orelse:
        return outs + self.block(orelse, ex)
    return outs + [(s, None) for s in ex]


def _while_loop(self, n, st):
    pre = st

    def once(base):
        posts, outs = [], []
        s = base.copy()
        s.loops = s.loops + (('op', 'while', n.lineno),)
        for s2, b in self.cond(n.test, s):
            if not b:
                s2.loops = base.loops
                outs.append((s2, 'exit'))
                continue
            for s3, oc in self.block(n.body, [s2]):
                s3.loops = base.loops
                if oc is None or oc[0] == 'cont':
                    posts.append(s3)
                elif oc[0] == 'brk':
                    outs.append((s3, None))
                else:
                    outs.append((s3, oc))
        return posts, outs
    allo = []
    base = pre
    for _ in range(3):
        posts, outs = once(base)
        allo += outs
        if not posts:
            break
        j, changed = self.join_states(base, posts)
        if not changed:
            # exit after the last iteration
            break
        base = j
    else:
        posts = posts[:1]
    exits = []
    for s in posts:
        for s2, b in self.cond(n.test, s):
            if not b:
                exits.append((s2, 'exit'))
    allo += exits
    out, ex = [], []
    for s, oc in allo:
        if oc == 'exit' or oc is None:
            ex.append(s)
        else:
            out.append((s, oc))
    ex = self.exit_states(None, ex, None, n)
    return out + [(s, None) for s in ex]


def _join_states(self, pre, posts):
    """State describing the beginning of an arbitrary iteration."""
    j = pre.copy()
    changed = False
    if not posts:
        return j, False
    fr = j.frames[-1]
    for k in list(fr):
        if k[0] == '$':
            continue
        vs = [s.frames[-1].get(k) for s in posts]
        if any(v != fr[k] for v in vs):
            nv = self.join_value(j, fr[k], [(s, v) for s, v in zip(posts, vs) if v is not None], k)
            if nv != fr[k]:
                fr[k] = nv
                changed = True
    for o, nd in list(j.heap.items()):
        for s in posts:
            nd2 = s.heap.get(o)
            if nd2 is None or nd2 is nd or nd2.kind != nd.kind:
                continue
            cur = j.heap[o]
            if nd.kind == 'inst':
                if nd2.fields != cur.fields:
                    f = dict(cur.fields)
                    for k in set(f) | set(nd2.fields):
                        if f.get(k) != nd2.fields.get(k):
                            if k == '$def':
                                f[k] = ('op', 'loop', o)
                            elif k in f and nd2.fields.get(k, NONE)[0] != 'ref':
                                f[k] = ('op', 'hv', o, k)
                            else:
                                f[k] = nd2.fields.get(k, f.get(k))
                    if f != cur.fields:
                        j.heap[o] = cur.with_(fields=f)
                        changed = True
            elif nd.kind in ('list', 'set', 'dict'):
                es = list(cur.entries)
                have = set(es)
                for e in nd2.entries:
                    if e not in have:
                        e2 = ('many',) + e[1:]
                        if e2 not in have:
                            es.append(e2)
                            have.add(e2)
                if len(es) != len(cur.entries):
                    j.heap[o] = cur.with_(entries=es)
                    changed = True
    for k in set(x for s in posts for x in s.cst):
        for s in posts:
            if s.cst.get(k) != j.cst.get(k):
                if k in s.cst:
                    j.cst[k] = s.cst[k]
                    changed = True
    nf = {}
    for f, v in j.facts.items():
        if all(s.facts.get(f) == v for s in posts):
            nf[f] = v
    j.facts = nf
    # objects created in the body may be referenced by joined entries
    for s in posts:
        for o, nd in s.heap.items():
            if o not in j.heap:
                j.heap[o] = nd
        j.n = max(j.n, s.n)
    return j, changed


def _join_value(self, j, a, svs, name):
    vals = [v for _, v in svs]
    if a is not None and a[0] == 'ref' and j.heap[a[1]].kind == 'inst' and all(
            v[0] == 'ref' and s.heap[v[1]].kind == 'inst' and s.heap[v[1]].cls == j.heap[a[1]].cls for s, v in svs):
        return a      # same class: the instance of the first iteration stands for all
    if a is not None and a[0] == 'ref' and all(v[0] == 'ref' and v[1] in s.heap and s.heap[v[1]].kind == j.heap[a[1]].kind for s, v in svs):
        n = j.heap[a[1]]
        if n.kind in ('list', 'set', 'dict'):
            es = list(n.entries)
            for s, v in svs:
                for e in s.heap[v[1]].entries:
                    e2 = ('many',) + e[1:]
                    if e not in es and e2 not in es:
                        es.append(e2)
            if len(es) != len(n.entries):
                j.heap[a[1]] = n.with_(entries=es)
        return a
    t0 = self.typeof(j, a) if a is not None else None
    hv = ('op', 'hv', name, id(a) if False else 0)
    ts = {self.typeof(s, v) for s, v in svs}
    if t0 and ts == {t0} and t0 in ('int', 'float', 'str', 'bool', 'tuple', 'list', 'set', 'dict'):
        j.facts[('type', hv)] = t0
    else:
        j.facts.pop(('type', hv), None)
    return hv


def mentions(f, itv):
    for t in subterms(f):
        if len(t) > 1 and t[0] in ('elem', 'key', 'val') and t[1] == itv:
            return True
    return False


def _dead_after(self, node):
    """Names whose value the function does not use after this loop."""
    if node is None or not isinstance(node, (ast.For, ast.While)):
        return frozenset()
    if id(node) in self.deadcache:
        return self.deadcache[id(node)]
    fn = node
    while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.Lambda, ast.Module)):
        fn = self.p.parents.get(id(fn))
    stored = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    inside = {id(x) for x in ast.walk(node)}
    live = set()
    outer = self.p.parents.get(id(node))
    enclosing = []
    while outer is not None and outer is not fn:
        if isinstance(outer, (ast.For, ast.While)):
            enclosing.append(outer)
        outer = self.p.parents.get(id(outer))
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in stored and id(x) not in inside:
            p = self.p.parents.get(id(x))
            own = False
            while p is not None and p is not fn:
                if isinstance(p, (ast.For, ast.While)) and p not in enclosing and any(
                        isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == x.id for y in ast.walk(p)):
                    own = True
                    break
                if isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and any(
                        isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == x.id for g in p.generators for y in ast.walk(g.target)):
                    own = True
                    break
                p = self.p.parents.get(id(p))
            if not own:
                live.add(x.id)
    r = frozenset(stored - live)
    self.deadcache[id(node)] = r
    return r


def _exit_states(self, pre, posts, itv, node, breaks=(), roots=frozenset()):
    """States after the loop.  Of the facts about the loop's element only those
    that every completed iteration establishes are kept (they then hold for
    every element, also when there is none)."""
    if not posts:
        return [pre] if pre is not None else []
    uni, uok = {}, set()
    if itv is not None:
        if roots:
            # what one element was found to be says nothing about the next one
            every = dict(posts[0].facts)
            for s in posts[1:]:
                every = {f: v for f, v in every.items() if s.facts.get(f) == v}
            for s in list(posts) + list(breaks):
                s.facts = {f: v for f, v in s.facts.items() if f in every or pre is not None and pre.facts.get(f) == v
                           or not any(t in roots for t in subterms(f))}
        uni = {f: v for f, v in posts[0].facts.items() if mentions(f, itv)}
        uok = {o for o in posts[0].oks if mentions(o, itv)}
        for s in posts[1:]:
            uni = {f: v for f, v in uni.items() if s.facts.get(f) == v}
            uok = {o for o in uok if o in s.oks}
        for s in list(posts) + list(breaks):
            s.facts = {f: v for f, v in s.facts.items() if f in uni and s not in breaks or not mentions(f, itv)}
            s.oks = frozenset(o for o in s.oks if o in uok and s not in breaks or not mentions(o, itv))
    dead = self.dead_after(node)
    res = []
    for s in ([] if pre is None else [pre]) + list(posts):
        for r in res:
            if self.try_merge(r, s, dead):
                break
        else:
            res.append(s)
    for r in res:
        for f, v in uni.items():
            r.facts.setdefault(f, v)
        r.oks = r.oks | uok
    return res


def thin(es, most=12):
    """Entries that differ only in what is known of the element become one
    that knows what they all know, when there are many."""
    if len(es) <= most:
        return es
    by = {}
    for e in es:
        if len(e) < 3 or not isinstance(e[-2], frozenset):
            return es
        k = e[:-2] + e[-1:]
        by[k] = by[k] & e[-2] if k in by else e[-2]
    return [k[:-1] + (f,) + k[-1:] for k, f in by.items()]


def _try_merge(self, r, s, dead=frozenset()):
    """Merge s into r when they differ only in container contents of objects
    both know, in dead loop variables and in facts."""
    if s.evh != r.evh or len(r.frames) != len(s.frames) or s.user != r.user:
        return False
    if s.cst != r.cst:
        return False
    fr, fs = r.frames[-1], s.frames[-1]
    for k in fr:
        if k[0] == '$' and k != '$gen':
            continue
        if k in fs and fr[k] != fs[k] and k not in dead:
            return False
    for o in set(r.heap) & set(s.heap):
        a, b = r.heap[o], s.heap[o]
        if a is b:
            continue
        if a.kind != b.kind or a.cls != b.cls:
            return False
        if a.kind in ('inst', 'env') and a.key() != b.key():
            return False
    for o, b in s.heap.items():
        a = r.heap.get(o)
        if a is None:
            r.heap[o] = b
        elif a is not b and a.kind in ('list', 'set', 'dict') and a.entries != b.entries:
            es = list(a.entries)
            aset = set(es)
            bset = set(b.entries)
            es = [e if e in bset else ('many',) + e[1:] for e in es]
            aset = set(es)
            for e in b.entries:
                e2 = ('many',) + e[1:]
                if e not in aset and e2 not in aset:
                    es.append(e2)
                    aset.add(e2)
            r.heap[o] = a.with_(entries=thin(es))
    for k in fs:
        if k not in fr:
            fr[k] = fs[k]
        elif k[0] != '$' and fr[k] != fs[k]:
            fr[k] = ('op', 'hv', k, 0)
    r.facts = self.meet_facts(r, s)
    r.oks = r.oks & s.oks
    r.n = max(r.n, s.n)
    return True


def _meet_facts(self, r, s):
    """Facts of both; a fact about a loop element survives a merge with the
    state of zero iterations (it is a statement about every element)."""
    out = {}
    for f, v in r.facts.items():
        if s.facts.get(f) == v:
            out[f] = v
    return out


# ---------------------------------------------------------------- iteration

def _iterate(self, st, v, node):
    """(concrete?, [(element, facts)]) of an iterable value."""
    N = frozenset()
    t = v[0]
    if t == 'tup':
        return True, [(x, N) for x in v[1]]
    if t == 'k':
        if isinstance(v[2], (str, bytes)):
            return True, [(K(c), N) for c in v[2]]
        self.mayraise(st, 'iter', (v,), node)
        return True, []
    if t == 'ref':
        n = st.heap[v[1]]
        if n.kind in ('list', 'set'):
            if n.conc():
                return True, [(e[1], e[2]) for e in n.entries]
            return False, [(e[1], e[2]) for e in n.entries]
        if n.kind == 'dict':
            return n.conc(), [(e[1], e[3]) for e in n.entries]
        if n.kind == 'inst':
            f = self.find_attr(n.cls, '__iter__')
            if f and f[1][0] == 'func':
                r = self.call_func(st, f[0] + '.__iter__', (v,), {}, node)
                if len(r) == 1 and r[0][0] is st:
                    return self.iterate(st, r[0][1], node)
            return False, [(('elem', self.struct(st, v), self.eldepth(st, v)), N)]
    if t == 'op':
        if v[1] == 'range':
            a, b, c = v[2]
            if isk(a) and isk(b) and isk(c) and len(range(a[2], b[2], c[2])) <= self.UNROLL:
                return True, [(K(i), N) for i in range(a[2], b[2], c[2])]
        if v[1] == 'items':
            b = v[2]
            if b[0] == 'ref' and st.heap[b[1]].kind == 'dict':
                n = st.heap[b[1]]
                return n.conc(), [(('tup', (e[1], e[2])), e[3]) for e in n.entries]
            d = self.eldepth(st, v)
            self.mayraise(st, 'iter', (v,), node)
            return False, [(('tup', (('key', b, d), ('val', b, d))), N)]
        if v[1] in ('keys',):
            b = v[2]
            if b[0] == 'ref':
                return self.iterate(st, b, node)
            return False, [(('key', b, self.eldepth(st, v)), N)]
        if v[1] == 'values':
            b = v[2]
            if b[0] == 'ref' and st.heap[b[1]].kind == 'dict':
                n = st.heap[b[1]]
                return n.conc(), [(e[2], e[3]) for e in n.entries]
            return False, [(('val', b, self.eldepth(st, v)), N)]
        if v[1] == 'enumerate':
            c, es = self.iterate(st, v[2], node)
            if c:
                return True, [(('tup', (self.arith(st, '+', K(i), v[3]), e)), f) for i, (e, f) in enumerate(es)]
            return False, [(('tup', (('op', 'num', 'index', v[2]), e)), f) for e, f in es]
        if v[1] == 'zip':
            parts = [self.iterate(st, x, node) for x in v[2]]
            if all(p[0] for p in parts):
                return True, [(('tup', tuple(x[0] for x in z)), N) for z in zip(*[p[1] for p in parts])]
            combos = [((), N)]
            for p in parts:
                combos = [(c + (e,), f | f2) for c, f in combos for e, f2 in p[1]]
            return False, [(('tup', c), f) for c, f in combos]
        if v[1] == 'map':
            raise Unsupported('lazy map')
    self.mayraise(st, 'iter', (v,), node)
    if self.typeof(st, v) == 'dict':
        return False, [(('key', v, self.eldepth(st, v)), N)]
    return False, [(('elem', v, self.eldepth(st, v)), N)]


def _eldepth(self, st, v):
    return sum(1 for x in st.loops if x == v)


# ---------------------------------------------------------------- conditions

def _cond(self, n, st):
    """[(state, bool)]"""
    if isinstance(n, ast.BoolOp):
        isand = isinstance(n.op, ast.And)
        live, out = [st], []
        for i, x in enumerate(n.values):
            nxt = []
            for s in live:
                for s2, b in self.cond(x, s):
                    if b == isand:
                        nxt.append(s2)
                    else:
                        out.append((s2, b))
            live = nxt
        return out + [(s, isand) for s in live]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return [(s, not b) for s, b in self.cond(n.operand, st)]
    out = []
    for s, v in self.ev(n, st):
        out += self.branch(s, v)
    return out


def _branch(self, st, v):
    """Split a state on the truth of a value."""
    h = self.truth_hook(st, v)
    if h is not None:
        return h
    neg = False
    while v[0] == 'not':
        v, neg = v[1], not neg
    ln = None
    if v[0] == 'op' and v[1] == '==' and len(v) == 4 and K(0) in v[2:]:
        ln, flip = (v[2] if v[3] == K(0) else v[3]), True
    elif v[0] == 'op' and v[1] == '<' and v[2] == K(0) or v[0] == 'op' and v[1] == '<=' and v[2] == K(1):
        ln, flip = v[3], False
    elif v[0] == 'op' and v[1] == '<' and v[3] == K(1) or v[0] == 'op' and v[1] == '<=' and v[3] == K(0):
        ln, flip = v[2], True
    elif v[0] == 'op' and v[1] == 'len':
        ln, flip = v, False
    elif v[0] == 'op' and v[1] == '==' and len(v) == 4 and any(x == ('emptyset',) for x in v[2:]):
        ln, flip = ('op', 'len', v[2] if v[3] == ('emptyset',) else v[3]), True
    if ln is not None and ln[0] == 'op' and ln[1] == 'len' and ln[2][0] == 'refv':
        nd = st.heap.get(ln[2][1])
        if nd is not None and nd.kind in ('list', 'set', 'dict') and len(nd.entries) == ln[2][2]:
            v, neg = ('ref', ln[2][1]), neg != flip
    b = self.truth(st, v)
    if b is not None:
        return [(st, b != neg)]
    if v[0] == 'op' and v[1] in CMPDUNDER.keys() | {'is', 'in', 'isinst'}:
        key = v
    else:
        if v[0] == 'ref':
            nd = st.heap[v[1]]
            key = ('truth', ('ref', v[1], len(nd.entries)))
        else:
            key = ('truth', v)
    if key in st.facts:
        return [(st, st.facts[key] != neg)]
    s2 = st.copy()
    self.assume(st, key, True)
    self.assume(s2, key, False)
    if v[0] == 'ref':
        for f, x in self.flt.get((v[1], nd.entries), ()):
            s2.facts.setdefault(f, x)
    return [(st, True != neg), (s2, False != neg)]


def _assume(self, st, key, val):
    st.facts[key] = val
    if key[0] == 'op' and key[1] == 'isinst':
        self.assume_inst(st, key[2], key[3], val)
        st.facts.pop(key, None)
    elif key[0] == 'op' and key[1] == 'is' and key[3] == NONE and val:
        st.facts[('type', key[2])] = 'NoneType'
    elif key[0] == 'op' and key[1] in ('<=', '<') and val and key[2][0] == 'refv':
        n = st.heap.get(key[2][1])
        c = ('ref', key[3][1]) if key[3][0] == 'refv' else key[3]
        if n is not None and n.kind in ('set', 'dict') and len(n.entries) == key[2][2]:
            for e in n.entries:
                st.facts[('op', 'in', e[1], self.canon_container(self.vterm(st, c)))] = True


def _truth(self, st, v):
    t = v[0]
    if t == 'k':
        return bool(v[2])
    if t == 'tup':
        return len(v[1]) > 0
    if t == 'ref':
        n = st.heap[v[1]]
        if n.kind in ('list', 'set', 'dict'):
            if n.cls == 'gen':
                return True
            if any(e[0] == 'one' for e in n.entries):
                return True
            if not n.entries:
                return False
            return None
        return None if n.kind == 'inst' and self.find_attr(n.cls, '__bool__') or n.kind == 'inst' and (n.cls in self.p.classes and self.is_nat_cls(n.cls)) else (None if n.kind == 'inst' else True)
    if t in ('func', 'cls', 'lam', 'part', 'nat', 'nbm', 'bi', 'mod', 'bm'):
        return True
    ty = st.facts.get(('type', v))
    if ty == 'NoneType':
        return False
    return None


def _compare(self, st, op, a, b, node):
    """[(state, value)]"""
    if op in ('is not', 'not in', '!='):
        pos = {'is not': 'is', 'not in': 'in', '!=': '=='}[op]
        if op != '!=' or not self.dunder_of(st, a, '__ne__'):
            return [(s, self.negate(v)) for s, v in self.compare(st, pos, a, b, node)]
    if op == '==' and b == NONE and a[0] != 'k':
        op = 'is'
    if op == 'is':
        if a == b and (isk(a) or a[0] in ('ref', 'cls')):
            return [(st, TRUE)]
        if b == NONE or a == NONE:
            x = a if b == NONE else b
            ty = self.typeof(st, x)
            if ty is not None:
                return [(st, K(ty == 'NoneType'))]
            if st.facts.get(('isinst+', x)):
                return [(st, FALSE)]
            if x[0] in ('elem', 'key') and any(t[0] == 'arg' for t in subterms(x) if t):
                return [(st, FALSE)]     # None is not a vertex, edge or graph
            return [(st, ('op', 'is', x, NONE))]
        if isk(a) and isk(b):
            return [(st, K(a == b))]
        if a[0] == 'ref' and b[0] == 'ref':
            return [(st, K(a == b))]
        return [(st, ('op', 'is', a, b))]
    if op == 'in':
        return self.contains(st, a, b, node)
    d = self.dunder_of(st, a, CMPDUNDER[op])
    if d is not None:
        return self.call(st, d, (b,), {}, node)
    d = self.dunder_of(st, b, CMPDUNDER[MIRROR[op]]) if op in MIRROR else None
    if d is not None and self.typeof(st, a) not in (None,):
        return self.call(st, d, (a,), {}, node)
    if isk(a) and isk(b):
        try:
            r = {'==': lambda: a[2] == b[2], '!=': lambda: a[2] != b[2], '<': lambda: a[2] < b[2],
                 '<=': lambda: a[2] <= b[2], '>': lambda: a[2] > b[2], '>=': lambda: a[2] >= b[2]}[op]()
            return [(st, K(r))]
        except TypeError:
            self.throw(st, Exc('TypeError', (), node))
            return []
    if op == '==' and a == b and a[0] in ('tup', 'arg', 'elem', 'item', 'op', 'key', 'val'):
        return [(st, TRUE)]
    if op == '==':
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) != len(b[1]):
            return [(st, FALSE)]
        ta, tb = self.typeof(st, a), self.typeof(st, b)
        if ta and tb and ta != tb and {ta, tb} <= BUILTYPES and not {ta, tb} <= {'int', 'float', 'bool'} and not {ta, tb} <= {'set', 'frozenset'}:
            return [(st, FALSE)]
        if a[0] == 'ref' and b[0] == 'ref':
            na, nb = st.heap[a[1]], st.heap[b[1]]
            if na.conc() and nb.conc() and len(na.entries) == 0 and len(nb.entries) == 0 and na.kind == nb.kind:
                return [(st, TRUE)]
        if b[0] == 'ref' and a[0] != 'ref':
            nb = st.heap[b[1]]
            if nb.kind == 'dict' and not nb.entries and ta is None:
                return [(st, ('op', '==', a, ('emptydict',)))]
        # == is symmetric: order the operands
        if repr(b) < repr(a):
            a, b = b, a
    if op in ('<', '<=', '>', '>='):
        self.mayraise(st, 'order', (a, b), node)
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
    a, b = self.vterm(st, a), self.vterm(st, b)
    # linear: constant on one side
    return [(st, ('op', op, a, b))]


def _vterm(self, st, v):
    """A heap container inside a term is tagged with its current size."""
    if v[0] == 'ref':
        n = st.heap[v[1]]
        if n.kind in ('list', 'set', 'dict'):
            return ('refv', v[1], len(n.entries))
    return v


def _negate(self, v):
    if isk(v):
        return K(not v[2])
    if v[0] == 'not':
        return v[1]
    return ('not', v)


def _contains(self, st, x, c, node):
    if c[0] == 'tup':
        # membership in a literal tuple
        res = []
        live = [st]
        for e in c[1]:
            nxt = []
            for s in live:
                for s2, v in self.compare(s, '==', x, e, node):
                    for s3, b in self.branch(s2, v):
                        if b:
                            res.append((s3, TRUE))
                        else:
                            nxt.append(s3)
            live = nxt
        return res + [(s, FALSE) for s in live]
    if c[0] == 'ref':
        n = st.heap[c[1]]
        if n.kind in ('list', 'set', 'dict'):
            self.mayraise(st, 'hash', (x,), node) if n.kind != 'list' else None
            vals = [e[1] for e in n.entries]
            if n.conc() and (isk(x) and all(isk(v) for v in vals)):
                return [(st, K(x in vals))]
            if not vals:
                return [(st, FALSE)]
            if any(e[0] == 'one' and e[1] == x for e in n.entries):
                return [(st, TRUE)]
            return [(st, ('op', 'in', x, ('refv', c[1], len(n.entries))))]
        d = self.dunder_of(st, c, '__contains__')
        if d is not None:
            r = []
            for s, v in self.call(st, d, (x,), {}, node):
                r.append((s, v))
            return r
    if isk(c) and isk(x):
        try:
            return [(st, K(x[2] in c[2]))]
        except TypeError:
            pass
    # a copy of the int2obj column holds exactly the keys of obj2int
    c = self.canon_container(c)
    if c[0] == 'tblf' and x[0] in ('elem', 'key') and self.canon_container(x[1]) == c:
        return [(st, TRUE)]
    if self.typeof(st, c) in (None, 'set', 'dict', 'frozenset'):
        self.mayraise(st, 'hash', (x,), node)
    f = ('op', 'in', x, c)
    if f in st.facts:
        return [(st, K(st.facts[f]))]
    if c == ('tblf', 'Universe.ev_objtable', 'obj2int'):
        # the vertices (kind False) of edge_vertex_kind are elements of the table
        kind = ('cst', 'Universe', 'edge_vertex_kind')
        if st.facts.get(('op', 'in', x, kind)) is True and st.facts.get(('truth', ('item', kind, x))) is False:
            return [(st, TRUE)]
    return [(st, f)]


def _canon_container(self, c):
    if c[0] == 'slice' and c[1][0] == 'tblf' and c[1][2] == 'int2obj' and c[2] == K(1) and c[3] == NONE:
        return ('tblf', c[1][1], 'obj2int')
    if c[0] == 'op' and c[1] in ('keys', 'list', 'set') and c[2][0] == 'tblf':
        return self.canon_container(c[2])
    return c


def _dunder_of(self, st, v, name):
    """Callable for a dunder of a repo-class instance, or None."""
    cls = self.typeof(st, v)
    if cls in self.p.classes:
        v2 = self.materialise(st, v)
        f = self.find_attr(cls, name)
        if f:
            d = self.class_attr_value(st, f[0], name)
            if d[0] == 'func':
                return ('func', d[1], v2)
            return d
        if self.is_nat_cls(cls):
            nm = name
            if nm in N_SETSET:
                return ('nbm', v, nm)
            return None
    if cls == '_graphillion.setset' and name in N_SETSET:
        return ('nbm', v, name)
    return None


# ---------------------------------------------------------------- expressions

def _evs(self, nodes, st):
    """Evaluate several expressions in order: [(state, [values])]."""
    live = [(st, [])]
    for n in nodes:
        live = [(s2, vs + [v]) for s, vs in live for s2, v in self.ev(n, s)]
    return live


def _ev(self, n, st):
    self.nsteps += 1
    T = type(n)
    if T is ast.Constant:
        return [(st, K(n.value))]
    if T is ast.Name:
        return [(st, self.name(n.id, st))]
    if T is ast.Attribute:
        out = []
        for s, b in self.ev(n.value, st):
            out += self.getattr(s, b, n.attr, n)
        return out
    if T is ast.Call:
        return self.ev_call(n, st)
    if T is ast.Subscript:
        out = []
        for s, b in self.ev(n.value, st):
            if isinstance(n.slice, ast.Slice):
                parts = [n.slice.lower, n.slice.upper, n.slice.step]
                live = [(s, [])]
                for p in parts:
                    if p is None:
                        live = [(s2, vs + [NONE]) for s2, vs in live]
                    else:
                        live = [(s3, vs + [v]) for s2, vs in live for s3, v in self.ev(p, s2)]
                for s2, (lo, hi, stp) in live:
                    out.append((s2, self.slice(s2, b, lo, hi, stp, n)))
            else:
                for s2, k in self.ev(n.slice, s):
                    out += self.subscript(s2, b, k, n)
        return out
    if T is ast.Tuple:
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return [(s, ('op', 'tuple', v)) for s, v in self.build_list(n.elts, st)]
        return [(s, ('tup', tuple(vs))) for s, vs in self.evs(n.elts, st)]
    if T is ast.List:
        return self.build_list(n.elts, st)
    if T is ast.Set:
        out = []
        for s, vs in self.evs(n.elts, st):
            for v in vs:
                self.mayraise(s, 'hash', (v,), n)
            out.append((s, s.alloc(Node('set', entries=[('one', v, facts_about(s, v), ()) for v in dict.fromkeys(vs)], depth=len(s.loops)))))
        return out
    if T is ast.Dict:
        if any(k is None for k in n.keys):
            raise Unsupported('dict unpacking')
        out = []
        for s, vs in self.evs([x for p in zip(n.keys, n.values) for x in p], st):
            ks, xs = vs[0::2], vs[1::2]
            out.append((s, s.alloc(Node('dict', entries=[('one', k, v, facts_about(s, k) | facts_about(s, v), ()) for k, v in zip(ks, xs)], depth=len(s.loops)))))
        return out
    if T in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
        return self.comp(n, st)
    if T is ast.BinOp:
        out = []
        for s, (a, b) in self.evs([n.left, n.right], st):
            out += self.binop(s, BINOPS[type(n.op)], a, b, n)
        return out
    if T is ast.UnaryOp:
        out = []
        for s, v in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                out += [(s2, K(not b)) for s2, b in self.branch(s, v)] if not (v[0] == 'op' or v[0] == 'not') or self.truth(s, v) is not None else [(s, self.negate(v))]
            elif isinstance(n.op, ast.USub):
                out.append((s, self.arith(s, '-', K(0), v)))
            elif isinstance(n.op, ast.Invert):
                d = self.dunder_of(s, v, '__invert__')
                if d is not None:
                    out += self.call(s, d, (), {}, n)
                else:
                    out.append((s, ('op', '~', v)))
            else:
                out.append((s, v))
        return out
    if T is ast.BoolOp:
        isand = isinstance(n.op, ast.And)
        live, out = [st], []
        for i, x in enumerate(n.values):
            nxt = []
            for s in live:
                for s2, v in self.ev(x, s):
                    if i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.branch(s2, v):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, K(b) if v[0] in ('op', 'not') else v))
            live = nxt
        return out
    if T is ast.Compare:
        return self.ev_compare(n, st)
    if T is ast.IfExp:
        out = []
        for s, b in self.cond(n.test, st):
            out += self.ev(n.body if b else n.orelse, s)
        return out
    if T is ast.Lambda:
        fr = st.frames[-1]
        o = st.alloc(Node('env', extra=(n, dict(fr), fr['$mod'], fr['$cls'], fr['$fn'] + '.<lambda>')))
        return [(st, ('lam', o[1]))]
    if T is ast.JoinedStr:
        parts = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        return [(s, ('op', 'fstr', tuple(vs))) for s, vs in self.evs(parts, st)]
    if T is ast.Starred:
        return self.ev(n.value, st)
    if T is ast.Yield:
        out = []
        for s, v in (self.ev(n.value, st) if n.value else [(st, NONE)]):
            g = s.frames[-1]['$gen']
            nd = s.heap[g[1]]
            e = ('many' if len(s.loops) > nd.depth else 'one', v, facts_about(s, v), s.loops[nd.depth:])
            self.on_yield(s, v, n)
            if e not in nd.entries:
                s.heap[g[1]] = nd.with_(entries=nd.entries + (e,))
            out.append((s, NONE))
        return out
    if T is ast.YieldFrom:
        out = []
        for s, v in self.ev(n.value, st):
            def body(s2, e):
                g = s2.frames[-1]['$gen']
                nd = s2.heap[g[1]]
                en = ('many', e, facts_about(s2, e), s2.loops[nd.depth:])
                self.on_yield(s2, e, n)
                if en not in nd.entries:
                    s2.heap[g[1]] = nd.with_(entries=nd.entries + (en,))
                return [(s2, None)]
            out += [(s2, NONE) for s2, oc in self.for_loop(s, v, body, None)]
        return out
    if T is ast.NamedExpr:
        out = []
        for s, v in self.ev(n.value, st):
            out += [(s2, v) for s2 in self.assign(n.target, v, s, n)]
        return out
    raise Unsupported('expression %s at %s' % (T.__name__, self.where(st, n)))


def _ev_compare(self, n, st):
    live = [(s, v) for s, v in self.ev(n.left, st)]
    out = []
    for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
        nxt = []
        last = i == len(n.ops) - 1
        for s, a in live:
            for s2, b in self.ev(r, s):
                for s3, v in self.compare(s2, CMPOPS[type(op)], a, b, n):
                    if last:
                        out.append((s3, v))
                    else:
                        for s4, t in self.branch(s3, v):
                            if t:
                                nxt.append((s4, b))
                            else:
                                out.append((s4, FALSE))
        live = nxt
    return out


def _build_list(self, elts, st):
    live = [(st, [])]
    for e in elts:
        nxt = []
        for s, es in live:
            if isinstance(e, ast.Starred):
                for s2, v in self.ev(e.value, s):
                    c, xs = self.iterate(s2, v, e)
                    nxt.append((s2, es + [('one' if c else 'many', x, f, ()) for x, f in xs]))
            else:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, es + [('one', v, facts_about(s2, v), ())]))
        live = nxt
    return [(s, s.alloc(Node('list', entries=es, depth=len(s.loops)))) for s, es in live]


def _comp(self, n, st):
    kind = {ast.ListComp: 'list', ast.SetComp: 'set', ast.DictComp: 'dict', ast.GeneratorExp: 'list'}[type(n)]
    out = []
    names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    saved = {k: st.frames[-1][k] for k in names if k in st.frames[-1]}
    ref = st.alloc(Node(kind, depth=len(st.loops), extra='gen' if type(n) is ast.GeneratorExp else None))

    dropped = []

    def gen(i, s):
        if i == len(n.generators):
            if kind == 'dict':
                for s2, (k, v) in self.evs([n.key, n.value], s):
                    self.mayraise(s2, 'hash', (k,), n)
                    self.mut_container(s2, ref, '__setitem__', (k, v), n)
                    yield s2, None
            else:
                for s2, v in self.ev(n.elt, s):
                    if kind == 'set':
                        self.mayraise(s2, 'hash', (v,), n)
                    self.mut_container(s2, ref, 'append' if kind == 'list' else 'add', (v,), n)
                    yield s2, None
            return
        g = n.generators[i]
        for s2, it in self.ev(g.iter, s):
            def body(s3, e):
                r = []
                for s4 in self.assign(g.target, e, s3, n):
                    live = [s4]
                    s4f = dict(s4.facts)
                    for c in g.ifs:
                        nl = []
                        for s5 in live:
                            for s6, b in self.cond(c, s5):
                                if b:
                                    nl.append(s6)
                                else:
                                    r.append((s6, None))
                                    dropped.append({(f, x) for f, x in s6.facts.items() if s4f.get(f, s6) is s6 or s4f[f] != x})
                        live = nl
                    for s5 in live:
                        r += list(gen(i + 1, s5))
                return r
            for x in self.for_loop(s2, it, body, n):
                yield x
    for s, oc in gen(0, st):
        fr = s.frames[-1]
        for k in names:
            if k in saved:
                fr[k] = saved[k]
            else:
                fr.pop(k, None)
        out.append((s, ref))
    if dropped and len(n.generators) == 1:
        allf = set.intersection(*dropped)
        for s, r in out:
            self.flt[(r[1], s.heap[r[1]].entries)] = allf
    return out


def _name(self, name, st):
    fr = st.frames[-1]
    if name in fr:
        return fr[name]
    g = self.p.mods.get(fr['$mod'], {}).get(name)
    if g is not None:
        return self.global_value(g, fr['$mod'], st)
    if name in self.p.classes:
        return ('cls', name)
    if name in EXC:
        return ('cls', name)
    if name in ('True', 'False', 'None'):
        return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
    if name in PYBUILTINS:
        return ('bi', name)
    if name == '__name__':
        return K('x')
    return ('unbound', name)


def _class_attr_value(self, st, cls, name):
    a = self.p.classes[cls].attrs[name]
    if (cls, name) in st.cst:
        return st.cst[(cls, name)]
    if a[0] == 'func':
        if a[2] == 'classmethod':
            return ('func', cls + '.' + name, ('cls', cls))
        return ('func', cls + '.' + name, None)
    e = a[1]
    if isinstance(e, ast.Name) and e.id in self.p.classes[cls].attrs:
        return self.class_attr_value(st, cls, e.id)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in self.p.classes:
        # a table object existing before the call
        t = '%s.%s' % (cls, name)
        flds = {'$tbl': t, '$init': TRUE}
        ref = st.alloc(Node('inst', cls=e.func.id, fields=flds), ('tbl', t))
        st.cst[(cls, name)] = ref
        return ref
    if (cls, name) in self.p.mutable:
        return ('cst', cls, name)
    mod = self.p.classes[cls].mod
    st.frames.append({'$mod': mod, '$cls': cls, '$fn': cls})
    for k, x in self.p.classes[cls].attrs.items():
        if x[0] == 'func' and k not in st.frames[-1]:
            st.frames[-1][k] = ('func', cls + '.' + k, None)
    r = self.ev(e, st)
    v = r[0][1]
    st.frames.pop()
    if v[0] in ('ref', 'lam'):
        st.cst[(cls, name)] = v
    return v


def _materialise(self, st, v):
    """An opaque caller's instance of a repo collection class becomes a heap
    instance whose attributes come from the class's own constructor."""
    if v[0] == 'ref':
        return v
    m = st.user.get(('mat', v))
    if m:
        return m
    cls = self.typeof(st, v)
    if cls not in self.p.classes or self.is_nat_cls(cls):
        return v
    return v


def _getattr(self, st, b, name, node):
    """[(state, value)]"""
    t = b[0]
    if t == 'mod':
        if b[1] == '_graphillion':
            return [(st, ('nat', name))]
        if b[1] in self.p.mods:
            g = self.p.mods[b[1]].get(name)
            if g is not None:
                return [(st, self.global_value(g, b[1], st))]
            if b[1] + '.' + name in self.p.mods:
                return [(st, ('mod', b[1] + '.' + name))]
        return [(st, ('ext', b[1] + '.' + name))]
    if t == 'nat':
        return [(st, ('nat', b[1] + '.' + name))]
    if t == 'ext':
        return [(st, ('ext', b[1] + '.' + name))]
    if t == 'cls':
        if name == '__name__':
            return [(st, K(b[1]))]
        if (b[1], name) in st.cst:
            return [(st, st.cst[(b[1], name)])]
        f = self.find_attr(b[1], name)
        if f:
            return [(st, self.class_attr_value(st, f[0], name))]
        if b[1] in self.p.classes and self.is_nat_cls(b[1]) and name in N_SETSET:
            return [(st, ('nat', 'setset.' + name))]
        if b[1] in EXC or name in ('__doc__', '__class__'):
            return [(st, ('attr', b, name))]
        self.throw(st, Exc('AttributeError', (), '%s.%s' % (b[1], name)))
        return []
    if t == 'super':
        chain = self.p.mro(b[1])[1:]
        for c in chain:
            if c in self.p.classes and name in self.p.classes[c].attrs:
                v = self.class_attr_value(st, c, name)
                if v[0] == 'func' and self.p.funcs[v[1]][3] == 'plain':
                    return [(st, ('func', v[1], b[2]))]
                return [(st, v)]
        return [(st, ('nbm', b[2], name))]
    cls = self.typeof(st, b)
    if t == 'ref' and st.heap[b[1]].kind == 'inst':
        n = st.heap[b[1]]
        if '$tbl' in n.fields:
            if name not in n.fields and not self.find_attr(n.cls, name):
                self.on_tbl(st, n.fields['$tbl'], name, node)
                return [(st, ('tblf', n.fields['$tbl'], name))]
        if name == '__class__':
            return [(st, ('cls', n.cls))]
        if name in n.fields:
            return [(st, n.fields[name])]
        if '$tpl' in n.fields:
            n = self.fill_template(st, b)
            if name in n.fields:
                return [(st, n.fields[name])]
    elif cls in self.p.classes and not self.is_nat_cls(cls):
        if name == '__class__':
            return [(st, ('cls', cls))]
        # opaque caller's instance
        r = self.instance_field(st, b, cls, name)
        if r is not None:
            return [(st, r)]
    if cls in self.p.classes:
        f = self.find_attr(cls, name)
        if f:
            v = self.class_attr_value(st, f[0], name)
            if v[0] == 'func':
                kind = self.p.funcs[v[1]][3]
                if kind == 'property':
                    return self.call_func(st, v[1], (b,), {}, node)
                if kind == 'plain' and v[2] is None:
                    return [(st, ('func', v[1], b))]
            return [(st, v)]
        if self.is_nat_cls(cls):
            return [(st, ('nbm', b, name))]
        if name == '__class__':
            return [(st, ('cls', cls))]
        if name in ('__name__', '__doc__'):
            return [(st, ('attr', b, name))]
        self.throw(st, Exc('AttributeError', (), '%s.%s' % (cls, name)))
        return []
    if cls == '_graphillion.setset':
        return [(st, ('nbm', b, name))]
    if cls in ('list', 'set', 'dict', 'str', 'tuple', 'frozenset', 'bytes', 'range', 'int', 'float'):
        return [(st, ('bm', b, name))]
    if name == '__class__':
        return [(st, ('op', 'type', b))]
    self.mayraise(st, 'attr ' + name, (b,), node)
    return [(st, ('attr', b, name))]


def _instance_field(self, st, v, cls, name):
    """Instance attribute of an opaque instance of a collection class: what
    the class's constructor stores, with the instance itself as self."""
    tpl = self.template(cls)
    if tpl is None or name not in tpl:
        return None
    x = tpl[name]
    if name == '_ss':
        return ('attr', v, '_ss')

    def sub(t):
        if t == ('tplself',):
            return v
        if isinstance(t, tuple):
            return tuple(sub(y) for y in t)
        return t
    return sub(x)


def _template(self, cls):
    if cls in self.templates:
        return self.templates[cls]
    self.templates[cls] = None
    if not self.find_attr(cls, '__init__'):
        return None
    save = (self.sink, self.trying, self.stack, self.reached)
    self.sink, self.trying, self.stack, self.reached = [], 0, [], set()
    hooks = (self.on_native, self.on_mayraise, self.on_mut, self.on_cset, self.on_tbl, self.on_opaque_call, self.on_alloc_inst)
    for h in ('on_native', 'on_mayraise', 'on_mut', 'on_cset', 'on_tbl', 'on_opaque_call', 'on_alloc_inst'):
        setattr(self, h, lambda *a, **k: None)
    try:
        st = State()
        ref = st.alloc(Node('inst', cls=cls))
        a = ('arg', '$tpl')
        st.facts[('type', a)] = 'setset_base'
        res = self.call_func(st, cls + '.__init__', (ref, a), {}, None)
        out = None
        for s, _ in res:
            f = {}
            for k, v in s.heap[ref[1]].fields.items():
                if k[0] == '$':
                    continue

                def sub(t):
                    if t == ref:
                        return ('tplself',)
                    if isinstance(t, tuple):
                        return tuple(sub(y) for y in t)
                    return t
                f[k] = sub(v)
            out = f if out is None else {k: v for k, v in out.items() if k in f}
        self.templates[cls] = out or {}
    finally:
        (self.sink, self.trying, self.stack, self.reached) = save
        for h in ('on_native', 'on_mayraise', 'on_mut', 'on_cset', 'on_tbl', 'on_opaque_call', 'on_alloc_inst'):
            delattr(self, h)
    return self.templates[cls]


def _item_term(self, st, v, k):
    if v[0] == 'tup' and isk(k) and isinstance(k[2], int) and -len(v[1]) <= k[2] < len(v[1]):
        return v[1][k[2]]
    if v[0] == 'slice' and isk(k) and isinstance(k[2], int) and isk(v[2]) and k[2] >= 0 and isinstance(v[2][2] or 0, int) and v[4] == NONE:
        # x[a:b][k] is x[a+k]
        return self.item_term(st, v[1], K((v[2][2] or 0) + k[2]))
    return ('item', v, k)


def _slice(self, st, b, lo, hi, stp, node):
    if b[0] == 'tup' and all(x == NONE or isk(x) for x in (lo, hi, stp)):
        return ('tup', b[1][slice(lo[2], hi[2], stp[2])])
    if b[0] == 'k' and isinstance(b[2], str) and all(isk(x) for x in (lo, hi, stp)):
        return K(b[2][slice(lo[2], hi[2], stp[2])])
    if b[0] == 'ref' and st.heap[b[1]].kind == 'list':
        n = st.heap[b[1]]
        if n.conc() and all(isk(x) for x in (lo, hi, stp)):
            return st.alloc(Node('list', entries=n.entries[slice(lo[2], hi[2], stp[2])], depth=len(st.loops)))
        es = n.entries
        if lo != NONE and isk(lo) and lo[2] > 0 and stp == NONE:
            # drop leading entries known to be single ones
            k = lo[2]
            while k and es and es[0][0] == 'one':
                es, k = es[1:], k - 1
        return st.alloc(Node('list', entries=[('many',) + e[1:] for e in es], depth=len(st.loops), extra=n.extra))
    self.mayraise(st, 'slice', (b,), node)
    # a prefix that covers a known arity is the thing itself
    if lo == K(0):
        lo = NONE
    return ('slice', b, lo, hi, stp)


def _subscript(self, st, b, k, node):
    if b[0] == 'tup':
        if isk(k) and isinstance(k[2], int):
            if -len(b[1]) <= k[2] < len(b[1]):
                return [(st, b[1][k[2]])]
            self.throw(st, Exc('IndexError', (), node))
            return []
    if b[0] == 'ref':
        n = st.heap[b[1]]
        if n.kind == 'list':
            if n.conc() and isk(k) and isinstance(k[2], int):
                if -len(n.entries) <= k[2] < len(n.entries):
                    return [(st, n.entries[k[2]][1])]
                self.throw(st, Exc('IndexError', (), node))
                return []
            self.mayraise(st, 'index', (('refv', b[1], len(n.entries)), k), node)
            return self.choose(st, [(e[1], e[2]) for e in n.entries], ('item', b, k))
        if n.kind == 'dict':
            for e in reversed(n.entries):
                if e[1] == k:
                    return [(st, e[2])]
            if n.conc() and isk(k) and all(isk(e[1]) for e in n.entries):
                self.throw(st, Exc('KeyError', (k,), node))
                return []
            self.mayraise(st, 'key', (('refv', b[1], len(n.entries)), k), node)
            cand = [(e[2], e[3]) for e in n.entries if not (isk(e[1]) and isk(k))]
            return self.choose(st, cand, ('item', b, k))
        if n.kind == 'inst':
            d = self.dunder_of(st, b, '__getitem__')
            if d is not None:
                return self.call(st, d, (k,), {}, node)
    if b[0] == 'op' and b[1] == 'range' and isk(k):
        a, e, c = b[2]
        if k[2] == 0:
            return [(st, a)]
        if k[2] == 1:
            return [(st, self.arith(st, '+', a, c))]
        if k[2] == -1:
            if c == K(1):
                return [(st, self.arith(st, '-', e, K(1)))]
            if all(isk(x) for x in (a, e, c)):
                r = range(a[2], e[2], c[2])
                if len(r):
                    return [(st, K(r[-1]))]
                self.throw(st, Exc('IndexError', (), node))
                return []
    if b[0] == 'tblf' or b[0] == 'slice' and b[1][0] == 'tblf':
        f = ('op', 'in', k, self.canon_container(b))
        if not st.facts.get(f):
            self.mayraise(st, 'key', (b, k), node)
        return [(st, self.item_term(st, b, k))]
    f = ('op', 'in', k, b)
    if not st.facts.get(f):
        self.mayraise(st, 'item', (b, k), node)
    return [(st, self.item_term(st, b, k))]


def _choose(self, st, cands, default):
    seen, out = set(), []
    for v, facts in cands:
        if v in seen:
            continue
        seen.add(v)
        s = st.copy()
        for k, x in facts:
            s.facts.setdefault(k, x)
        out.append((s, v))
    if not out:
        return [(st, default)]
    if len(out) > 8:
        return [(st, default)]
    return out


# ---- arithmetic: sums are kept as a constant plus terms with coefficients

def _lin(self, v):
    if isk(v) and isinstance(v[2], (int, float)) and not isinstance(v[2], bool):
        return v[2], {}
    if v[0] == 'op' and v[1] == 'lin':
        return v[2], dict(v[3])
    return 0, {v: 1}


def _arith(self, st, op, a, b):
    if op in '+-' and len(op) == 1:
        for x in (a, b):
            if isk(x) and not isinstance(x[2], (int, float)):
                if isk(a) and isk(b):
                    try:
                        return K(a[2] + b[2])
                    except TypeError:
                        pass
                return ('op', 'cat', a, b)
        c1, t1 = self.lin(a)
        c2, t2 = self.lin(b)
        s = 1 if op == '+' else -1
        for k, v in t2.items():
            t1[k] = t1.get(k, 0) + s * v
        c = c1 + s * c2
        t1 = {k: v for k, v in t1.items() if v}
        if not t1:
            return K(c)
        if c == 0 and len(t1) == 1 and next(iter(t1.values())) == 1:
            return next(iter(t1))
        return ('op', 'lin', c, tuple(sorted(t1.items(), key=repr)))
    if isk(a) and isk(b):
        try:
            r = {'*': lambda: a[2] * b[2], '/': lambda: a[2] / b[2], '//': lambda: a[2] // b[2],
                 '%': lambda: a[2] % b[2], '**': lambda: a[2] ** b[2], '<<': lambda: a[2] << b[2],
                 '>>': lambda: a[2] >> b[2], '|': lambda: a[2] | b[2], '&': lambda: a[2] & b[2],
                 '^': lambda: a[2] ^ b[2]}[op]()
            return K(r)
        except Exception:
            pass
    if op == '*':
        if isk(a) and isinstance(a[2], int):
            a, b = b, a
        if isk(b) and isinstance(b[2], int) and a[0] == 'op' and a[1] == 'lin':
            return ('op', 'lin', a[2] * b[2], tuple((k, v * b[2]) for k, v in a[3])) if b[2] else K(0)
        if isk(b) and b[2] == 1:
            return a
        if isk(b) and isinstance(b[2], int) and not isk(a):
            return ('op', 'lin', 0, ((a, b[2]),)) if b[2] else K(0)
        if repr(b) < repr(a):
            a, b = b, a
    return ('op', op, a, b)


def _binop(self, st, op, a, b, node, inplace=False):
    names = (['__i' + DUNDER[op] + '__'] if inplace else []) + ['__' + DUNDER[op] + '__']
    for nm in names:
        d = self.dunder_of(st, a, nm)
        if d is not None:
            return self.call(st, d, (b,), {}, node)
    d = self.dunder_of(st, b, '__r' + DUNDER[op] + '__')
    if d is not None and self.typeof(st, b) in self.p.classes and not self.is_nat_cls(self.typeof(st, b)):
        return self.call(st, d, (a,), {}, node)
    ca = self.typeof(st, a)
    if ca in self.p.classes and not self.is_nat_cls(ca):
        self.throw(st, Exc('TypeError', (), 'no %s on %s' % (op, ca)))
        return []
    A = st.heap[a[1]] if a[0] == 'ref' else None
    B = st.heap[b[1]] if b[0] == 'ref' else None
    if op == '+' and A is not None and A.kind == 'list':
        es2 = B.entries if B is not None else [('many', e, f, ()) for e, f in self.iterate(st, b, node)[1]]
        if inplace:
            for e in es2:
                self.mut_container(st, a, 'append', (e[1],), node)
            return [(st, a)]
        return [(st, st.alloc(Node('list', entries=tuple(A.entries) + tuple(es2), depth=len(st.loops))))]
    if op == '+' and a[0] == 'tup' and b[0] == 'tup':
        return [(st, ('tup', a[1] + b[1]))]
    if op == '+' and B is not None and B.kind == 'list':
        es = [('many', e, f, ()) for e, f in self.iterate(st, a, node)[1]]
        return [(st, st.alloc(Node('list', entries=tuple(es) + tuple(B.entries), depth=len(st.loops))))]
    if op == '*' and A is not None and A.kind == 'list':
        if isk(b) and isinstance(b[2], int) and 0 <= b[2] <= 8 and A.conc():
            return [(st, st.alloc(Node('list', entries=A.entries * b[2], depth=len(st.loops))))]
        return [(st, st.alloc(Node('list', entries=[('many',) + e[1:] for e in A.entries], depth=len(st.loops), extra=('len', b))))]
    if op in '|&-^' and (A is not None and A.kind in ('set',) or B is not None and B.kind == 'set' and op in '|&^'):
        ea = A.entries if A is not None else [('many', e, f, ()) for e, f in self.iterate(st, a, node)[1]]
        eb = B.entries if B is not None else [('many', e, f, ()) for e, f in self.iterate(st, b, node)[1]]
        if op == '|':
            es = tuple(ea) + tuple(e for e in eb if e not in ea)
        elif op == '^':
            es = tuple(('many',) + e[1:] for e in tuple(ea) + tuple(eb))
        else:
            es = tuple(('many',) + e[1:] for e in ea)
        if inplace and A is not None:
            st.heap[a[1]] = A.with_(entries=es)
            return [(st, a)]
        r = st.alloc(Node('set', entries=es, depth=len(st.loops)))
        if op == '-' and es:
            cb = self.canon_container(self.vterm(st, b))
            es = [e[:2] + (e[2] | {(('op', 'in', e[1], cb), False)},) + e[3:] for e in es]
            st.heap[r[1]] = st.heap[r[1]].with_(entries=es)
            self.flt[(r[1], st.heap[r[1]].entries)] = {(('op', 'in', e[1], cb), True) for e in es}
        return [(st, r)]
    if op == '|' and A is not None and A.kind == 'dict' and B is not None:
        return [(st, st.alloc(Node('dict', entries=tuple(A.entries) + tuple(B.entries), depth=len(st.loops))))]
    if op == '%' and self.typeof(st, a) == 'str':
        return [(st, ('op', 'fstr', (a, b)))]
    if inplace and a[0] in ('cst', 'tblf', 'arg', 'elem', 'attr', 'item') and self.typeof(st, a) in ('set', 'list', 'dict'):
        self.event(st, 'mut', a, op + '=')
        self.on_mut(st, a, op + '=', node)
        return [(st, a)]
    if not (isk(a) and isk(b)):
        self.mayraise(st, 'arith', (a, b), node)
    ta, tb = self.typeof(st, a), self.typeof(st, b)
    if op in '+-' and ('set' in (ta, tb) or 'str' in (ta, tb) or 'list' in (ta, tb)):
        r = ('op', 'cat' if op == '+' else 'diff', a, b)
        if ta in ('set', 'list', 'str'):
            st.facts[('type', r)] = ta
        return [(st, r)]
    return [(st, self.arith(st, op, a, b))]


# ---------------------------------------------------------------- calls of expressions

def _ev_call(self, n, st):
    out = []
    # isinstance / super / getattr need syntax
    for s, fn in self.ev(n.func, st):
        if fn == ('bi', 'super'):
            fr = s.frames[-1]
            if n.args:
                out += [(s2, ('super', vs[0][1], vs[1])) for s2, vs in self.evs(n.args, s)]
            else:
                q = self.p.funcs.get(fr['$fn'])
                selfname = q[0].args.args[0].arg if q else 'self'
                out.append((s, ('super', fr['$cls'], fr.get(selfname))))
            continue
        live = [(s, [], {})]
        for a in n.args:
            nxt = []
            for s2, vs, kw in live:
                if isinstance(a, ast.Starred):
                    for s3, v in self.ev(a.value, s2):
                        c, es = self.iterate(s3, v, n)
                        if c:
                            nxt.append((s3, vs + [e for e, f in es], kw))
                        else:
                            kw2 = dict(kw)
                            kw2['*'] = v
                            nxt.append((s3, vs, kw2))
                else:
                    nxt += [(s3, vs + [v], kw) for s3, v in self.ev(a, s2)]
            live = nxt
        for k in n.keywords:
            nxt = []
            for s2, vs, kw in live:
                for s3, v in self.ev(k.value, s2):
                    kw2 = dict(kw)
                    if k.arg is None:
                        if v[0] == 'ref' and s3.heap[v[1]].kind == 'dict':
                            for e in s3.heap[v[1]].entries:
                                if not isk(e[1]):
                                    raise Unsupported('**')
                                kw2[e[1][2]] = e[2]
                        else:
                            kw2['**'] = v
                    else:
                        kw2[k.arg] = v
                    nxt.append((s3, vs, kw2))
            live = nxt
        for s2, vs, kw in live:
            cur = s2.cur
            for s3, v in self.call(s2, fn, tuple(vs), kw, n):
                s3.cur = cur
                out.append((s3, v))
    return out


def _typenames(self, v):
    if v[0] == 'tup':
        r = []
        for x in v[1]:
            t = self.typenames(x)
            if t is None:
                return None
            r += t
        return r
    if v[0] in ('bi', 'cls'):
        return [v[1]]
    if v[0] == 'nat':
        return ['_graphillion.' + v[1]]
    if v[0] == 'ext':
        return [v[1]]
    return None


def _add_entries(self, st, ref, es):
    n = st.heap[ref[1]]
    cur = list(n.entries)
    for e in es:
        if e not in cur or (e[0] == 'one' and n.kind == 'list'):
            cur.append(e)
    st.heap[ref[1]] = n.with_(entries=cur)


def _copy_container(self, st, kind, v, node, extra=None):
    if v is None:
        return st.alloc(Node(kind, depth=len(st.loops)))
    if v[0] == 'ref' and st.heap[v[1]].kind in ('list', 'set', 'dict'):
        n = st.heap[v[1]]
        if n.kind == 'dict' and kind == 'dict':
            es = n.entries
        elif n.kind == 'dict':
            es = [(e[0], e[1], e[3], e[4]) for e in n.entries]
        elif kind == 'dict':
            es = []
            for e in n.entries:
                if e[1][0] == 'tup' and len(e[1][1]) == 2:
                    es.append((e[0], e[1][1][0], e[1][1][1], e[2], e[3]))
                else:
                    es.append(('many', ('item', e[1], K(0)), ('item', e[1], K(1)), e[2], e[3]))
        else:
            es = n.entries
            if n.kind == 'set' or n.extra in ('unordered',):
                pass
        ex = extra
        if kind == 'list' and ex is None:
            ex = 'unordered' if n.kind == 'set' and not (n.conc() and len(n.entries) < 2) else (n.extra if n.extra != 'gen' else None)
        if kind == 'set':
            seen, es2 = set(), []
            for e in es:
                if e[1] in seen and (isk(e[1]) or True):
                    continue
                seen.add(e[1])
                es2.append(e)
            es = es2
        return st.alloc(Node(kind, entries=es, depth=len(st.loops), extra=ex))
    c, es = self.iterate(st, v, node)
    mult = 'one' if c else 'many'
    ex = extra
    if kind == 'list' and ex is None and self.typeof(st, v) in ('set', 'frozenset'):
        ex = 'unordered'
    src = () if c else (v,)
    if kind == 'dict':
        ents = []
        for e, f in es:
            if self.typeof(st, v) == 'dict' or v[0] == 'cst':
                ents.append((mult, ('key', v, self.eldepth(st, v)), ('val', v, self.eldepth(st, v)), f, src))
            elif e[0] == 'tup' and len(e[1]) == 2:
                ents.append((mult, e[1][0], e[1][1], f, src))
            else:
                ents.append((mult, ('item', e, K(0)), ('item', e, K(1)), f, src))
        return st.alloc(Node('dict', entries=ents, depth=len(st.loops)))
    if kind == 'set':
        for e, f in es:
            self.mayraise(st, 'hash', (e,), node)
        es = list(dict.fromkeys(es))
    # facts known about an arbitrary element of the source
    ents = [(mult, e, f | facts_about(st, e), src) for e, f in es]
    return st.alloc(Node(kind, entries=ents, depth=len(st.loops), extra=ex))


def _builtin(self, st, name, args, kwargs, node):
    A = list(args)
    if name == 'isinstance':
        ts = self.typenames(A[1])
        if ts is None:
            return [(st, ('op', 'isinstance?', A[0], A[1]))]
        r = self.isinst(st, A[0], ts)
        if r is not None:
            return [(st, K(r))]
        return [(st, ('op', 'isinst', A[0], frozenset(ts)))]
    if name == 'partial':
        return [(st, ('part', A[0], tuple(A[1:]), tuple(sorted(kwargs.items()))))]
    if name == 'getattr':
        if isk(A[1]):
            n0 = len(self.sink)
            r = self.getattr(st, A[0], A[1][2], node)
            if not r and len(A) > 2:
                del self.sink[n0:]
                return [(st, A[2])]
            return r
        return [(st, ('op', 'getattr', A[0], A[1]))]
    if name == 'setattr':
        if isk(A[1]):
            self.setattr(st, A[0], A[1][2], A[2], node)
        else:
            self.event(st, 'mut', A[0], 'setattr')
            self.on_mut(st, A[0], 'setattr', node)
        return [(st, NONE)]
    if name == 'hasattr':
        if isk(A[1]):
            n0 = len(self.sink)
            if A[0][0] in ('ref', 'cls') or self.typeof(st, A[0]) in self.p.classes:
                r = self.getattr(st, A[0], A[1][2], node)
                del self.sink[n0:]
                if not any(v[0] in ('nat', 'nbm') for _, v in r):
                    return [(st, K(bool(r)))]
        return [(st, ('op', 'hasattr', A[0], A[1]))]
    if name == 'len':
        v = A[0]
        if v[0] == 'tup':
            return [(st, K(len(v[1])))]
        if v[0] == 'k':
            if isinstance(v[2], (str, bytes)):
                return [(st, K(len(v[2])))]
            self.throw(st, Exc('TypeError', (), node))
            return []
        if v[0] == 'ref':
            n = st.heap[v[1]]
            if n.kind in ('list', 'set', 'dict'):
                if n.extra and isinstance(n.extra, tuple) and n.extra[0] == 'len':
                    return [(st, n.extra[1])]
                if n.conc() and (n.kind == 'list' or all(isk(e[1]) for e in n.entries) or len(n.entries) < 2):
                    return [(st, K(len(n.entries)))]
                return [(st, ('op', 'len', ('refv', v[1], len(n.entries)), self.struct(st, v)))]
        d = self.dunder_of(st, v, '__len__')
        if d is not None:
            return self.call(st, d, (), {}, node)
        if v[0] == 'op' and v[1] == 'range' and all(isk(x) for x in v[2]):
            return [(st, K(len(range(*[x[2] for x in v[2]]))))]
        self.mayraise(st, 'len', (v,), node)
        return [(st, ('op', 'len', v))]
    if name == 'range':
        a = [K(0), None, K(1)]
        if len(A) == 1:
            a[1] = A[0]
        else:
            a[0], a[1] = A[0], A[1]
            if len(A) > 2:
                a[2] = A[2]
        for x in a:
            if not isk(x) and self.typeof(st, x) != 'int':
                self.mayraise(st, 'int', (x,), node)
        return [(st, ('op', 'range', tuple(a)))]
    if name in ('list', 'set', 'dict', 'frozenset', 'deque'):
        kind = {'frozenset': 'set', 'deque': 'list'}.get(name, name)
        r = self.copy_container(st, kind, A[0] if A else None, node)
        if kwargs and kind == 'dict':
            self.add_entries(st, r, [('one', K(k), v, facts_about(st, v), ()) for k, v in kwargs.items()])
        return [(st, r)]
    if name == 'tuple':
        if not A:
            return [(st, ('tup', ()))]
        v = A[0]
        if v[0] == 'tup':
            return [(st, v)]
        if v[0] == 'ref' and st.heap[v[1]].kind == 'list' and st.heap[v[1]].conc():
            return [(st, ('tup', tuple(e[1] for e in st.heap[v[1]].entries)))]
        self.iterate(st, v, node)
        r = ('op', 'tuple', v)
        st.facts[('type', r)] = 'tuple'
        return [(st, r)]
    if name == 'sorted':
        r = self.copy_container(st, 'list', A[0], node, extra='sorted')
        n = st.heap[r[1]]
        if n.conc() and all(isk(e[1]) for e in n.entries) and not kwargs:
            try:
                st.heap[r[1]] = n.with_(entries=sorted(n.entries, key=lambda e: e[1][2]))
            except TypeError:
                pass
        else:
            if len(n.entries) != 1 or not n.conc():
                self.mayraise(st, 'order', tuple(e[1] for e in n.entries), node)
            if not (n.conc() and len(n.entries) < 2):
                st.heap[r[1]] = n.with_(entries=[('many',) + e[1:] for e in n.entries])
        out = [(st, r)]
        if 'key' in kwargs:
            for e in n.entries:
                out = [(s3, r) for s2, _ in out for s3, _v in self.call(s2, kwargs['key'], (e[1],), {}, node)]
        return out
    if name == 'reversed':
        r = self.copy_container(st, 'list', A[0], node)
        n = st.heap[r[1]]
        st.heap[r[1]] = n.with_(entries=tuple(reversed(n.entries)))
        return [(st, r)]
    if name == 'enumerate':
        return [(st, ('op', 'enumerate', A[0], kwargs.get('start', A[1] if len(A) > 1 else K(0))))]
    if name == 'zip':
        return [(st, ('op', 'zip', tuple(A)))]
    if name in ('map', 'filter'):
        out = []
        res = st.alloc(Node('list', depth=len(st.loops), extra='gen'))

        def body(s, e):
            r = []
            for s2, v in self.call(s, A[0], (e,), {}, node):
                if name == 'map':
                    self.mut_container(s2, res, 'append', (v,), node)
                    r.append((s2, None))
                else:
                    for s3, b in self.branch(s2, v):
                        if b:
                            self.mut_container(s3, res, 'append', (e,), node)
                        r.append((s3, None))
            return r
        return [(s, res) for s, oc in self.for_loop(st, A[1], body, None)]
    if name == 'next':
        v = A[0]
        d = self.dunder_of(st, v, '__next__')
        if d is not None:
            return self.call(st, d, (), {}, node)
        s2 = st.copy()
        if len(A) > 1:
            es = st.heap[v[1]].entries if v[0] == 'ref' and st.heap[v[1]].cls != 'gen' else None
            if es is not None and not es:
                return [(st, A[1])]
            if es and es[0][0] == 'one':
                return [(st, es[0][1])]
            if v[0] == 'ref':
                for f, x in self.flt.get((v[1], st.heap[v[1]].entries), ()):
                    s2.facts.setdefault(f, x)
            return [(st, self.next_of(st, v)), (s2, A[1])]
        self.throw(s2, Exc('StopIteration', (), node))
        return [(st, self.next_of(st, v))]
    if name == 'iter':
        d = self.dunder_of(st, A[0], '__iter__')
        if d is not None:
            return self.call(st, d, (), {}, node)
        return [(st, A[0])]
    if name in ('min', 'max'):
        if all(isk(a) for a in A) and len(A) > 1:
            try:
                return [(st, K((min if name == 'min' else max)(*[a[2] for a in A])))]
            except TypeError:
                pass
        self.mayraise(st, 'order', tuple(self.vterm(st, a) for a in A), node)
        if len(A) == 1:
            c, es = self.iterate(st, A[0], node)
            if len(es) == 1 and not kwargs:
                return [(st, es[0][0])]
            return [(st, ('op', name, self.struct(st, A[0])))]
        return [(st, ('op', name, tuple(sorted((self.vterm(st, a) for a in A), key=repr))))]
    if name in ('any', 'all'):
        c, es = self.iterate(st, A[0], node)
        if c:
            live, out = [st], []
            for e, f in es:
                nxt = []
                for s in live:
                    for s2, b in self.branch(s, e):
                        if b == (name == 'all'):
                            nxt.append(s2)
                        else:
                            out.append((s2, K(b)))
                live = nxt
            return out + [(s, K(name == 'all')) for s in live]
        if not es:
            return [(st, K(name == 'all'))]
        # all(p(x) for x in X): when true, p holds of every element
        out = []
        s2 = st.copy()
        live = [s2]
        for e, f in es:
            nxt = []
            for s in live:
                for s3, b in self.branch(s, e):
                    if b == (name == 'all'):
                        nxt.append(s3)
            live = nxt
        return [(s, K(name == 'all')) for s in live] + [(st, K(name != 'all'))]
    if name in ('int', 'float', 'str', 'bool', 'repr', 'bytes', 'abs', 'hash', 'round', 'type', 'ord', 'chr', 'id', 'format', 'divmod', 'pow', 'callable', 'sum'):
        v = A[0] if A else None
        if name == 'bool' and v is not None:
            d = self.dunder_of(st, v, '__bool__')
            if d is not None:
                return self.call(st, d, (), {}, node)
            return [(s, K(b)) for s, b in self.branch(st, v)]
        if name == 'type' and v is not None:
            t = self.typeof(st, v)
            if t in self.p.classes:
                return [(st, ('cls', t))]
            if t in BUILTYPES:
                return [(st, ('bi', t))]
        if v is not None and isk(v) and len(A) == 1 and name in ('int', 'float', 'str', 'abs', 'repr', 'ord', 'chr'):
            try:
                return [(st, K({'int': int, 'float': float, 'str': str, 'abs': abs, 'repr': repr, 'ord': ord, 'chr': chr}[name](v[2])))]
            except Exception:
                self.throw(st, Exc('ValueError', (), node))
                return []
        if v is None:
            return [(st, K({'int': 0, 'float': 0.0, 'str': '', 'bool': False}.get(name, 0)))]
        self.mayraise(st, name, tuple(self.vterm(st, a) for a in A), node)
        if name in ('str', 'repr', 'format'):
            return [(st, ('op', 'str', self.struct(st, v)))]
        return [(st, ('op', name) + tuple(self.struct(st, a) for a in A))]
    if name == 'eval':
        self.mayraise(st, 'eval', tuple(A), node)
        return [(st, ('op', 'eval') + tuple(A))]
    if name == 'print':
        return [(st, NONE)]
    if name == 'exit':
        self.throw(st, Exc('SystemExit', (), node))
        return []
    if name in BUILTYPES or name == 'object':
        return [(st, ('op', name) + tuple(A))]
    if name.startswith('copy.'):
        v = A[0]
        if v[0] == 'ref' and st.heap[v[1]].kind in ('list', 'set', 'dict'):
            return [(st, self.copy_container(st, st.heap[v[1]].kind, v, node))]
        return [(st, ('op', 'copy', v))]
    raise Unsupported('builtin ' + name)


def _next_of(self, st, v):
    if v[0] == 'op' and v[1] == 'natiter':
        return ('op', 'natset', v[2])
    if v[0] == 'ref':
        es = self.iterate(st, v, None)[1]
        if len(es) == 1:
            return es[0][0]
    return ('op', 'next', self.struct(st, v))


# ---- methods of builtin containers

def _mut_container(self, st, b, m, args, node):
    """A mutating operation on a container."""
    if b[0] == 'ref':
        n = st.heap[b[1]]
        if n.kind == 'inst':
            d = self.dunder_of(st, b, m)
            if d is not None:
                r = self.call(st, d, args, {}, node)
                return
            self.event(st, 'mut', b, m)
            self.on_mut(st, b, m, node)
            return
        deep = len(st.loops) > n.depth
        mult = 'many' if deep else 'one'
        lp = st.loops[n.depth:]
        if m in ('append', 'add', 'appendleft'):
            v = args[0]
            e = (mult, v, facts_about(st, v), lp)
            if n.kind == 'set' and any(x[1] == v for x in n.entries) and isk(v):
                return
            es = (e,) + n.entries if m == 'appendleft' else n.entries + (e,)
            if mult == 'many' and e in n.entries:
                es = n.entries
            st.heap[b[1]] = n.with_(entries=es)
        elif m == '__setitem__':
            k, v = args
            if n.kind == 'list':
                if n.conc() and isk(k) and isinstance(k[2], int) and -len(n.entries) <= k[2] < len(n.entries):
                    es = list(n.entries)
                    es[k[2]] = (mult if deep else 'one', v, facts_about(st, v), lp)
                    st.heap[b[1]] = n.with_(entries=es)
                else:
                    self.add_entries(st, b, [('many', v, facts_about(st, v) | facts_about(st, k), lp + (('at', k),))])
                return
            e = (mult, k, v, facts_about(st, k) | facts_about(st, v), lp)
            if not deep:
                es = [x for x in n.entries if x[1] != k]
                if len(es) != len(n.entries):
                    # keep the position of the first occurrence
                    es = [e if x[1] == k else x for x in n.entries]
                else:
                    es.append(e)
            else:
                es = list(n.entries)
                if e not in es:
                    es.append(e)
            st.heap[b[1]] = n.with_(entries=es)
        elif m in ('extend', 'update', 'extendleft'):
            for src in args:
                if n.kind == 'dict':
                    if src[0] == 'ref' and st.heap[src[1]].kind == 'dict':
                        for e in st.heap[src[1]].entries:
                            if e[0] == 'one':
                                self.mut_container(st, b, '__setitem__', (e[1], e[2]), node)
                            else:
                                self.add_entries(st, b, [e])
                    else:
                        self.mayraise(st, 'iter', (src,), node)
                        self.add_entries(st, b, [('many', ('key', src, 0), ('val', src, 0), frozenset(), lp)])
                    continue
                c, es = self.iterate(st, src, node)
                cur = st.heap[b[1]]
                uno = cur.extra
                if src[0] == 'ref' and st.heap[src[1]].kind in ('list',) and st.heap[src[1]].extra == 'unordered' or src[0] == 'ref' and st.heap[src[1]].kind == 'set' and len(es) and not (c and len(es) == 1):
                    uno = 'unordered' if cur.kind == 'list' else uno
                new = list(cur.entries)
                for e, f in es:
                    en = ('one' if c and not deep else 'many', e, f | facts_about(st, e), lp if c else lp + (src,))
                    if en not in new or c:
                        new.append(en)
                st.heap[b[1]] = cur.with_(entries=new, extra=uno)
        elif m == 'clear':
            if not deep:
                st.heap[b[1]] = n.with_(entries=())
        elif m in ('sort',):
            st.heap[b[1]] = n.with_(entries=n.entries if n.conc() and len(n.entries) < 2 else [('many',) + e[1:] for e in n.entries], extra='sorted')
            self.mayraise(st, 'order', tuple(e[1] for e in n.entries), node)
        elif m == 'reverse':
            st.heap[b[1]] = n.with_(entries=tuple(reversed(n.entries)))
        elif m == 'insert':
            e = ('one' if not deep else 'many', args[1], facts_about(st, args[1]), lp)
            if args[0] == K(0):
                st.heap[b[1]] = n.with_(entries=(e,) + n.entries)
            else:
                st.heap[b[1]] = n.with_(entries=[('many',) + x[1:] for x in n.entries + (e,)])
        elif m in ('pop', 'popleft', 'remove', 'discard', '__delitem__', 'popitem', 'difference_update', 'intersection_update', 'setslice'):
            self.mayraise(st, m, (('refv', b[1], len(n.entries)),) + tuple(args), node) if m in ('pop', 'popleft', 'remove', '__delitem__', 'popitem') else None
            st.heap[b[1]] = n.with_(entries=[('many',) + x[1:] for x in n.entries])
        elif m == 'setdefault':
            k = args[0]
            if not any(x[1] == k for x in n.entries):
                self.add_entries(st, b, [(mult, k, args[1] if len(args) > 1 else NONE, facts_about(st, k), lp)])
        return
    self.event(st, 'mut', b, m, tuple(self.struct(st, a) for a in args))
    self.mayraise(st, 'mut ' + m, (b,) + tuple(args), node)
    self.on_mut(st, b, m, node)


def _bmethod(self, st, b, m, args, kwargs, node):
    A = list(args)
    ty = self.typeof(st, b)
    n = st.heap[b[1]] if b[0] == 'ref' else None
    if m in ('items', 'keys', 'values'):
        return [(st, ('op', m, b))]
    if m == 'copy':
        if n is not None:
            return [(st, self.copy_container(st, n.kind, b, node))]
        if ty in ('list', 'set', 'dict'):
            return [(st, self.copy_container(st, ty, b, node))]
        return [(st, ('op', 'copy', b))]
    if m == 'get':
        k = A[0]
        dflt = A[1] if len(A) > 1 else NONE
        self.mayraise(st, 'hash', (k,), node)
        if n is not None:
            for e in reversed(n.entries):
                if e[1] == k:
                    return [(st, e[2])]
            if n.conc() and isk(k) and all(isk(e[1]) for e in n.entries):
                return [(st, dflt)]
            return self.choose(st, [(e[2], e[3]) for e in n.entries] + [(dflt, frozenset())], dflt)
        f = ('op', 'in', k, self.canon_container(b))
        out = []
        for s, t in self.branch(st, f):
            out.append((s, self.item_term(s, b, k) if t else dflt))
        return out
    if m in ('union', 'intersection', 'difference', 'symmetric_difference') and ty in ('set', 'frozenset'):
        cur = b
        for x in A:
            r = self.binop(st, {'union': '|', 'intersection': '&', 'difference': '-', 'symmetric_difference': '^'}[m],
                           cur if cur[0] == 'ref' else self.copy_container(st, 'set', cur, node),
                           x if x[0] == 'ref' and st.heap[x[1]].kind == 'set' or m == 'difference' and x[0] != 'ref' else self.copy_container(st, 'set', x, node), node)
            st, cur = r[0]
        if not A:
            cur = self.copy_container(st, 'set', b, node)
        return [(st, cur)]
    if m in LISTMUT and (n is not None or ty in ('list', 'set', 'dict')):
        ret = NONE
        if m in ('pop', 'popleft', 'popitem', 'setdefault'):
            if n is not None:
                if n.kind == 'list' and n.conc() and len(st.loops) == n.depth and (m == 'popleft' or not A or isk(A[0])):
                    i = 0 if m == 'popleft' else (A[0][2] if A else -1)
                    if -len(n.entries) <= i < len(n.entries):
                        es = list(n.entries)
                        e = es.pop(i)
                        st.heap[b[1]] = n.with_(entries=es)
                        return [(st, e[1])]
                    self.throw(st, Exc('IndexError', (), node))
                    return []
                vals = [(e[2], e[3]) for e in n.entries] if n.kind == 'dict' else [(e[1], e[2]) for e in n.entries]
                if m == 'setdefault':
                    hit = [e for e in n.entries if e[1] == A[0]]
                    if hit:
                        return [(st, hit[-1][2])]
                    self.mut_container(st, b, m, A, node)
                    return self.choose(st, vals + [(A[1] if len(A) > 1 else NONE, frozenset())], NONE)
                self.mut_container(st, b, m, A, node)
                return self.choose(st, vals, ('op', 'popped', b))
            ret = ('op', 'popped', b)
        if 'key' in kwargs and m == 'sort' and n is not None:
            for e in n.entries:
                rs = self.call(st, kwargs['key'], (e[1],), {}, node)
                if rs:
                    st = rs[0][0]
        if m in ('add', 'append', 'discard', 'remove') and ty == 'set' and A:
            self.mayraise(st, 'hash', (A[0],), node)
        self.mut_container(st, b, m, A, node)
        return [(st, ret)]
    if m in ('index', 'count'):
        self.mayraise(st, m, (self.vterm(st, b),) + tuple(A), node)
        return [(st, ('op', m, self.struct(st, b)) + tuple(A))]
    if m == 'issubset' and b[0] == 'ref' and n is not None and n.kind == 'set' and A[0][0] != 'ref':
        return [(st, ('op', '<=', self.vterm(st, b), A[0]))]
    if m == 'issuperset' and b[0] != 'ref' and A[0][0] in ('ref', 'elem', 'arg', 'key', 'val', 'item', 'attr'):
        a = A[0] if A[0][0] == 'ref' and st.heap[A[0][1]].kind == 'set' else self.copy_container(st, 'set', A[0], node)
        return [(st, ('op', '<=', self.vterm(st, a), b))]
    if m in ('issubset', 'issuperset', 'isdisjoint'):
        return [(st, ('op', m, self.struct(st, b)) + tuple(self.struct(st, a) for a in A))]
    if m in ('format', 'join'):
        return [(st, ('op', 'fstr', b, tuple(self.struct(st, a) for a in A)))]
    if isk(b) and all(isk(a) for a in A) and m in ('startswith', 'endswith', 'strip', 'split', 'lower', 'upper'):
        try:
            r = getattr(b[2], m)(*[a[2] for a in A])
            if isinstance(r, list):
                return [(st, st.alloc(Node('list', entries=[('one', K(x), frozenset(), ()) for x in r], depth=len(st.loops))))]
            return [(st, K(r))]
        except Exception:
            pass
    self.mayraise(st, 'method ' + m, (self.vterm(st, b),) + tuple(self.vterm(st, a) for a in A), node)
    return [(st, ('op', 'm:' + m, self.struct(st, b)) + tuple(self.struct(st, a) for a in A))]


def _call_ext(self, st, fn, args, kwargs, node):
    nm = fn[1]
    if nm.endswith('pickle.dumps'):
        # serialised form; the protocol is part of the value
        return [(st, ('op', 'pickle', self.struct(st, args[0]), kwargs.get('protocol', args[1] if len(args) > 1 else NONE)))]
    if nm.split('.')[-1] in ('partial', 'deque'):
        return self.builtin(st, nm.split('.')[-1], args, kwargs, node)
    if nm.startswith('heapq.'):
        f = nm.split('.')[1]
        if f == 'heappush':
            self.mut_container(st, args[0], 'append', (args[1],), node)
            self.mayraise(st, 'order', (args[1],), node)
            return [(st, NONE)]
        if f == 'heappop':
            return self.bmethod(st, args[0], 'pop', (), {}, node)
        if f == 'heapify':
            return [(st, NONE)]
    if nm in ('copy.copy', 'copy.deepcopy'):
        return self.builtin(st, nm, args, kwargs, node)
    if nm == 'sys.exit':
        self.throw(st, Exc('SystemExit', (), node))
        return []
    self.mayraise(st, 'ext ' + nm, tuple(args), node)
    self.on_opaque_call(st, fn, args, kwargs, node)
    return [(st, ('op', 'ext', nm, tuple(self.struct(st, a) for a in args), tuple((k, self.struct(st, v)) for k, v in sorted(kwargs.items()))))]


for _n, _f in list(globals().items()):
    if _n.startswith('_') and not _n.startswith('__') and callable(_f) and getattr(_f, '__module__', None) == __name__ and not isinstance(_f, type):
        setattr(Ev, _n[1:], _f)
_c0 = Ev.call


def _call2(self, st, fn, args, kwargs, node):
    if fn[0] == 'ext':
        return self.call_ext(st, fn, args, kwargs, node)
    if fn[0] == 'mod':
        self.throw(st, Exc('TypeError', (), node))
        return []
    if fn[0] == 'attr' and self.typeof(st, fn[1]) is None and fn[2] in LISTMUT | {'items', 'keys', 'values', 'get'} and fn[1][0] in ('arg', 'elem', 'key', 'val', 'item', 'attr', 'cst', 'slice', 'op'):
        return self.bmethod(st, fn[1], fn[2], args, kwargs, node) if fn[2] in ('items', 'keys', 'values', 'get') else self._opaque_mut(st, fn, args, node)
    return _c0(self, st, fn, args, kwargs, node)


def _opaque_mut(self, st, fn, args, node):
    self.mut_container(st, fn[1], fn[2], tuple(args), node)
    return [(st, ('op', 'call', fn, tuple(self.struct(st, a) for a in args)))]


Ev.call = _call2
Ev._opaque_mut = _opaque_mut
Ev.on_yield = lambda self, st, v, node: None
Ev.deadcache = {}
Ev.keep_unknown = False
