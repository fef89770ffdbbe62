"""Variables and levels: which numbers of the C++ code are diagram variables and
which are levels, found by value-numbering evaluation of each function."""
import ccload
from ccload import AnalysisBroken, walk
from sym import Sym, C0
import dd as DDm

TOLEV = {'BDD_LevOfVar', 'bddlevofvar'}
TOVAR = {'BDD_VarOfLev', 'bddvaroflev'}
NEWLEV = {'BDD_NewVarOfLev', 'bddnewvaroflev'}
VARARG = {'Change', 'OnSet', 'OnSet0', 'OffSet', 'At0', 'At1', 'Spread'}
VARRET = {'Top'}
MAX = {'BDD_VarUsed', 'bddvarused'}


def short(n):
    return n.split('::')[-1]


class Lev(Sym):
    """records the argument of every use of a variable or a level"""
    MAXST = 4000

    def __init__(self, tus):
        super().__init__(tus)
        self.uses = []
        self.root = None

    def inline(self, f, e):
        r = self.root
        return f['file'] == r['file'] and (f.get('cls') == r.get('cls') or not f.get('cls')) and f is not r and len(self.stack) < 4

    def pure(self, e, fn):
        return True

    def clobber(self, st):
        pass

    def havoc(self, n, nodes, st):
        old = st.env
        st2 = super().havoc(n, nodes, st)
        for k, v in st2.env.items():
            o = old.get(k)
            if o is not None and o != v and v[0] == 'any' and unit(o):
                st2.env[k] = ('unit', unit(o), v)       # a number keeps its kind around a loop
        return st2

    def on_call(self, e, fn, this, args, st, places):
        s = short(fn)
        if fn in TOLEV | TOVAR | NEWLEV or s in VARARG and this is not None or s in ('SetCostOfLev', 'SetCost'):
            self.uses.append((s, args, e.get('l'), this))
        if s in ('max_elem', 'num_elems') and not args or fn in MAX:
            return [(('max',), st)]
        return None


def unit(t):
    """'V' variable, 'L' level, '' neither known"""
    if not isinstance(t, tuple) or not t:
        return ''
    if t[0] == 'unit':
        return t[1]
    if t[0] == 'call':
        s = short(t[1])
        if t[1] in TOLEV:
            return 'L'
        if t[1] in TOVAR | NEWLEV or s in ('BDD_NewVar', 'bddnewvar') or s in VARRET:
            return 'V'
        if t[1] == 'graphillion::elem':
            return 'V'
    if t[0] == 'p' and t[1] == 'level':
        return 'L'
    if t[0] == 'level':
        return 'L'
    if t[0] == 'bin' and t[1] in '+-':
        a, b = unit(t[2]), unit(t[3])
        if a and b:
            return ''
        if t[1] == '-' and b:
            return ''       # number of levels minus a level: cannot tell
        return a or b
    return ''


def lin(t):
    """{atom: coefficient} of sums and differences"""
    if t[0] == 'c':
        return {1: t[1]} if t[1] else {}
    if t[0] == 'bin' and t[1] in '+-':
        a, b = lin(t[2]), lin(t[3])
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t[1] == '+' else -v)
        return {k: v for k, v in r.items() if v}
    if t[0] == 'un' and t[1] == '-':
        return {k: -v for k, v in lin(t[2]).items()}
    return {t: 1}


TOVAR_S, TOLEV_S, NEWLEV_S = TOVAR, TOLEV, NEWLEV
