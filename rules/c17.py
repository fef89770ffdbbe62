"""A rejected universe leaves the old one intact."""
import pysym as P
import pyrun
from ccload import AnalysisBroken
from report import Finding

STATE = ('Universe', 'DiGraphSet', 'setset', 'GraphSet', 'VertexSetSet', 'EdgeVertexSetSet')


class Commit(P.Ev):
    JOIN_AT = 1

    def __init__(self, prog):
        super().__init__(prog)
        self.out = []
        self.obligations = 0
        self.written = set()

    def dirty(self, st):
        """class state that differs from what it was at the call"""
        d = {'%s.%s' % k for k, v in st.cst.items() if k[0] in STATE and k in self.p.mutable and v != ('cst',) + k}
        return d | set(st.user.get('mut', ()))

    def base(self, st, t):
        while t and t[0] in ('item', 'elem', 'val', 'key', 'attr', 'slice', 'tblf', 'refv'):
            if t[0] == 'tblf':
                return t[1] if t[1].split('.')[0] in STATE else None
            t = t[1]
        if t[0] == 'cst' and t[1] in STATE:
            return t[1] + '.' + t[2]
        if t[0] == 'ref' and '$tbl' in st.heap[t[1]].fields:
            return st.heap[t[1]].fields['$tbl']
        return None

    def on_mut(self, st, target, how, node):
        b = self.base(st, target)
        if b:
            self.written.add(b)
            st.user['mut'] = frozenset(st.user.get('mut', ())) | {b + ' (in place)'}

    def on_cset(self, st, cls, attr, val, node):
        if cls in STATE and (cls, attr) in self.p.mutable:
            self.written.add(cls + '.' + attr)

    def add(self, st, node, why, d):
        fn = self.stack[-1][0] if self.stack else self.root
        self.out.append(('c17:%s:%s:%s' % (self.root, fn, why.split()[0]), self.where(st, node), 'validate-before-commit',
                         '%s can raise here (%s) after %s has been changed' % (self.root, why, ', '.join(sorted(d)[:4])),
                         tuple(f[0] for f in self.stack)))

    def on_mayraise(self, st, why, terms, node):
        self.obligations += 1
        d = self.dirty(st)
        if d and not self.trying:
            self.add(st, node, {'hash': 'hash of a value', 'iter': 'iteration over a value', 'key': 'lookup of a key'}.get(why, why), d)


PROG = None


def job(x):
    qual, kind = x
    c, a = qual.split('.', 1)
    ev = Commit(PROG)
    ev.root = qual
    st, args = pyrun.start(ev, c, a, PROG.classes[c].attrs[a][1], kind)
    rs = ev.run(qual, args, st)
    rej = ok = 0
    for s, how, v in rs:
        d = ev.dirty(s)
        if how == 'raise':
            rej += 1
            if d:
                ev.out.append(('c17:%s:raise:%s' % (qual, v.cls), '%s (%s)' % (qual, getattr(v.why, 'lineno', '?')), 'validate-before-commit',
                               '%s raises %s with %s already changed' % (qual, v.cls, ', '.join(sorted(d)[:4])), ()))
        else:
            ok += 1
    return ev.out, len(rs), rej, ok, ev.obligations, sorted(ev.written), sorted(ev.reached)


def run():
    global PROG
    PROG = P.Prog()
    jobs = []
    for c, a, fn, kind in pyrun.methods(PROG, pyrun.CLASSES + ('Universe',)):
        if a.startswith('set_') and a.endswith('universe'):
            jobs.append((c + '.' + a, kind))
    if len(jobs) < 4:
        raise AnalysisBroken('only %d functions set a universe' % len(jobs))
    res = pyrun.pmap(job, jobs, limit=600)
    fs, skipped, paths, rej, obl, reached, written = [], [], 0, 0, 0, set(), {}
    for x, r, err, dt in res:
        if err:
            skipped.append('%s: %s' % (x[0], err))
            continue
        out, n, rj, ok, ob, w, re = r
        if not w:
            raise AnalysisBroken('%s changes no universe' % x[0])
        paths += n
        rej += rj
        obl += ob
        reached |= set(re)
        written[x[0]] = w
        for o in out:
            fs.append(Finding(o[0], o[1], o[2], o[3], list(o[4])))
    if skipped:
        raise AnalysisBroken('; '.join(skipped))
    cov = dict(entry_points=[j[0] for j in jobs], paths=paths, rejecting_paths=rej, operations_that_can_raise=obl, functions_evaluated=len(reached),
               state_written=written,
               rule='on every path of a function that sets a universe, no operation that can raise follows the first change of class-level universe state (or the state is restored before the exception leaves)',
               explanation='%d functions that set a universe, %d paths (%d rejecting), %d operations that can raise checked' % (len(jobs), paths, rej, obl))
    return fs, cov, pyrun.ASSUME + ['plain assignments, and reads of attributes known to exist, do not raise; memory exhaustion and interrupts are not modelled']
