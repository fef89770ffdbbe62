"""Native part of C14: the search space a search starts from."""
import ccload
import natsearch as N
from ccload import AnalysisBroken
from dd import lin, showlin
from report import Finding

C0 = ('c', 0)
NONE = ('adr', ('G', '_Py_NoneStruct'))
SPACES = ('search_space', 'graphset')


def famof(t):
    """the keyword whose family a term reads directly, or None"""
    n = 0
    while isinstance(t, tuple) and t and n < 12:
        n += 1
        if t[0] == 'fld' and t[2] in ('zdd_', 'ss'):
            t = t[1]
        elif t[0] == 'rec':
            d = dict(t[2])
            if 'zdd_' not in d:
                return None
            t = d['zdd_']
        elif t[0] in ('kw', 'kwopt'):
            return t[1]
        elif t[0] == 'new' and len(t) > 3:
            t = t[3]
        else:
            return None
    return None


def source(d):
    """the base of a diagram term: ('space', kw, offset), ('full', n) or None; and the specifications applied"""
    while d[0] == 'dsub':
        d = d[1]
    if d[0] == 'rd':
        k = famof(d[1])
        return ('space', k, d[2]) if k else None
    if d[0] == 'ddfull':
        return ('full', d[1])
    if d[0] == 'dds':
        return inspec(d[1])
    return None


def inspec(s):
    if s[0] == 'szdd':
        k = famof(s[1])
        return ('space', k, s[2]) if k else None
    if s[0] == 'and':
        for x in s[1:3]:
            r = inspec(x)
            if r and r[0] == 'space':
                return r
        return ('full', None)
    if s[0] == 'or':
        a, b = inspec(s[1]), inspec(s[2])
        return a if a == b else None
    if s[0] == 'spec':
        return ('full', None)
    return None


def bounded(t, kw):
    """True, or why the family is not limited to the one given as kw"""
    if t is None:
        return 'it does not return a set'
    if t[0] == 'bot' or famof(t) == kw:
        return True
    if t[0] == 'zop':
        a, b = bounded(t[2], kw), bounded(t[3], kw)
        if t[1] == 'intersection':
            return True if a is True or b is True else a
        if t[1] == 'difference':
            return a
        return a if a is not True else b
    if t[0] == 'eval':
        s = source(t[1])
        if s is None:
            return None
        if s[0] == 'full':
            return 'it starts from all subgraphs'
        if s[1] != kw:
            return 'it starts from the family given as %s' % s[1]
        if t[2] != 'ToZBDD':
            return None
        off = t[3] if len(t) > 3 else C0
        a, b = lin(s[2]), lin(off)
        if a is None or b is None:
            return None
        if a != b:
            return 'it reads its levels with offset %s and writes them with %s' % (showlin(s[2]), showlin(off))
        return True
    if t[0] == 'top':
        return 'it returns the empty graph unconditionally'
    return None


def given(facts, kw):
    """False when the path knows that the keyword was left out, None when it cannot be taken"""
    x = ('kw', kw)
    for k, v in facts.items():
        if k[0] == 'bin' and k[1] in ('==', '!=') and C0 in k[2:] and v == (k[1] == '=='):
            for y in k[2:]:
                # a set object always has a family, and members have addresses
                if y[0] == 'adr' or y[0] == 'fld' and y[1] == x and y[2] == 'ss':
                    return None
        if k[0] == 'bin' and k[1] in ('==', '!=') and x in k[2:] and (C0 in k[2:] or NONE in k[2:]):
            if v == (k[1] == '=='):
                return False
        if k == x and v is False:
            return False
    return True


def run(d):
    res = N.run(d)
    fs, und, table, npaths = [], [], {}, 0
    for name, r in sorted(res.items()):
        if r['error']:
            und.append('%s: %s' % (name, r['error']))
        if not r['sig']:
            continue
        where = '%s:%s' % (r['f']['file'].split('/')[-1], r['f']['line'])
        for kw, u, opt in r['sig']:
            if kw not in SPACES or not opt:
                continue
            n = 0
            for val, st in r['paths']:
                if val == C0:
                    continue
                fam = N.family(r['S'], val, st)
                g = given(st.facts, kw)
                if g is None:
                    continue
                if g:
                    b = bounded(fam, kw)
                    n += 1
                    if b is None:
                        und.append('%s: %s' % (name, str(fam)[:120]))
                    elif b is not True:
                        fs.append(Finding('c14:%s:space' % name, where, 'search-space', '%s does not stay inside %s when it is given: %s' % (name, kw, b)))
                else:
                    b = free(fam)
                    n += 1
                    if b is None:
                        und.append('%s without %s: %s' % (name, kw, str(fam)[:120]))
                    elif b is not True:
                        fs.append(Finding('c14:%s:all' % name, where, 'search-space', '%s without %s: %s' % (name, kw, b)))
            if n:
                table[name] = kw
                npaths += n
    return fs, dict(native_searches=table, native_paths=npaths, native_undecided=sorted(set(und))[:20]), res


def free(t):
    """True, or why the family does not range over all subgraphs of the universe"""
    if t is None:
        return None
    if t[0] == 'eval':
        s = source(t[1])
        if s is None:
            return None
        if s[0] == 'space':
            return 'it starts from the family given as %s' % s[1]
        n = s[1]
        if n is None:
            return True
        v = lin(n)
        if v is None:
            return None
        if len(v) == 1 and all(k != 1 and k[0] == 'size' and k[1] == 'E' and c == 1 for k, c in v.items()):
            return True
        return 'it starts from the subsets of %s levels instead of one per edge' % showlin(n)
    if t[0] == 'zop':
        a, b = free(t[2]), free(t[3])
        return a if a is not True else b
    return None
