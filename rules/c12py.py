"""Python part of C12: what may change a collection, and what a result may share."""
import pysym as P
import pyrun

MUTATORS = {'update', 'intersection_update', 'difference_update', 'symmetric_difference_update', 'quotient_update',
            'remainder_update', 'add', 'remove', 'discard', 'pop', 'clear', 'flip', '__ior__', '__iand__', '__isub__',
            '__ixor__', '__itruediv__', '__imod__', '__ifloordiv__', 'add_vertex', '__init__', '__setstate__'}
COLL = ('GraphSet', 'VertexSetSet', 'EdgeVertexSetSet', 'DiGraphSet', 'setset', 'setset_base')


def origin(t):
    """the caller's object a term denotes or is a part of, or None"""
    while isinstance(t, tuple) and t:
        if t[0] == 'arg':
            return t[1]
        if t[0] in ('item', 'elem', 'val', 'key', 'attr') and len(t) > 1:
            t = t[1]
            continue
        return None
    return None


class Alias(P.Ev):
    root = None
    mut = False
    meth = None

    def __init__(self, prog):
        super().__init__(prog)
        self.out, self.natives, self.results = [], set(), 0

    def add(self, key, st, node, rule, msg):
        self.out.append((key, self.where(st, node), rule, msg, tuple(f[0] for f in self.stack)))

    def on_native(self, st, name, recv, args, kwargs, node):
        short = name.split('.')[-1]
        if recv is None:
            return None
        o = origin(recv)
        self.natives.add((self.root, short))
        if short in P.N_MUT and o is not None:
            if not (self.mut and o == 'self'):
                self.add('c12:mutates:%s:%s' % (self.root, short), st, node, 'only-mutators-mutate',
                         '%s changes %s through the native %s although %s' % (
                             self.root, 'its receiver' if o == 'self' else 'its argument ' + o, short,
                             'it is not one of the in-place operations' if not self.mut else 'only the receiver may be changed'))
        if o is not None and st.user.get('yielded') and short not in ('__init__',):
            self.add('c12:live:%s:%s' % (self.root, short), st, node, 'iterators-are-snapshots',
                     '%s looks at %s again (native %s) after it has begun to yield' % (self.root, o, short))
        return None

    def on_yield(self, st, v, node):
        st.user['yielded'] = 1
        self.leave(st, v, node, 'yields')

    def on_mut(self, st, target, how, node):
        o = origin(target)
        if o is None or self.root == 'GraphSet.set_universe':
            return
        if o == 'self' and self.mut:
            return
        self.add('c12:mutarg:%s:%s' % (self.root, o), st, node, 'arguments-unchanged',
                 '%s changes its %s in place (%s)' % (self.root, 'receiver' if o == 'self' else 'argument ' + o, how))

    def on_cset(self, st, cls, attr, val, node):
        if self.has_coll(st, val):
            self.add('c12:kept:%s:%s.%s' % (self.root, cls, attr), st, node, 'no-sharing',
                     '%s keeps a collection in %s.%s' % (self.root, cls, attr))

    def on_setattr(self, st, b, name, v, node):
        o = origin(v)
        if name == '_ss' and o is not None and origin(b) is not None and o != origin(b):
            self.add('c12:shares:%s:%s' % (self.root, o), st, node, 'no-sharing',
                     '%s makes its receiver share the family of its argument %s' % (self.root, o))

    def has_coll(self, st, v):
        for t in P.subterms(v):
            if len(t) == 2 and t[0] == 'ref' and isinstance(t[1], int):
                n = st.heap.get(t[1])
                if n is not None and n.kind == 'inst' and n.cls in COLL:
                    return True
        return False

    def leave(self, st, v, node, what):
        """v reaches the caller"""
        self.results += 1
        seen, todo = set(), [v]
        while todo:
            t = todo.pop()
            if not isinstance(t, tuple) or not t:
                continue
            if t[0] == 'ref' and len(t) == 2:
                if t[1] in seen or t[1] not in st.heap:
                    continue
                seen.add(t[1])
                n = st.heap[t[1]]
                if n.kind == 'inst':
                    ss = n.fields.get('_ss')
                    if ss is not None:
                        self.part(st, n, ss, node, what)
                        todo.append(ss) if ss[0] == 'ref' else None
                    continue
                for e in n.entries:
                    todo.extend(e[1:3] if n.kind == 'dict' else e[1:2])
                continue
            if t[0] == 'tup':
                todo.extend(t[1])
                continue
            if self.typeof(st, t) in COLL or t[0] == 'attr' and t[2] == '_ss':
                o = origin(t)
                if o is None:
                    continue
                if t == ('arg', 'self') and (self.mut or self.meth in ('__iter__', '__enter__', '__next__')):
                    continue
                self.add('c12:returns:%s:%s' % (self.root, o), st, node, 'no-sharing',
                         '%s %s %s instead of a collection of its own' % (self.root, what, 'its receiver' if o == 'self' else 'its argument ' + o))

    def part(self, st, n, ss, node, what):
        o = origin(ss)
        if o is not None:
            self.add('c12:shares:%s:%s' % (self.root, o), st, node, 'no-sharing',
                     '%s %s a %s that shares its family with %s' % (self.root, what, n.cls, 'the receiver' if o == 'self' else 'the argument ' + o))

    def finish(self, st, how, v, args):
        if how == 'ret':
            if self.meth == '__init__':
                v = args['self']
            self.leave(st, v, None, 'returns' if self.meth != '__init__' else 'builds')


PROG = None


def job(x):
    qual, kind = x
    c, a = qual.split('.', 1)
    fn = PROG.classes[c].attrs[a][1]
    ev = Alias(PROG)
    ev.root, ev.meth, ev.mut = qual, a, a in MUTATORS
    st, args = pyrun.start(ev, c, a, fn, kind)
    rs = ev.run(qual, args, st)
    for s, how, v in rs:
        ev.finish(s, how, v, args)
    return ev.out, len(rs), ev.results, ev.natives, ev.reached


def run(prog):
    global PROG
    PROG = prog
    jobs = [(c + '.' + a, kind) for c, a, fn, kind in pyrun.methods(PROG, pyrun.CLASSES + ('setset_base',)) if a not in ('set_universe',)]
    return jobs, pyrun.pmap(job, jobs)
