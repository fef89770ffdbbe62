"""C++ part of C12."""
import ccload, effects, pyc
from ccload import AnalysisBroken, rel
from report import Finding

# slots and methods documented to change their receiver
INPLACE = {'update', 'intersection_update', 'difference_update', 'symmetric_difference_update', 'quotient_update', 'remainder_update',
           'add', 'remove', 'discard', 'pop', 'clear', 'flip', 'flip_all', 'tp_init', 'tp_dealloc', 'tp_new', '__setstate__',
           'tp_clear', 'tp_finalize', 'tp_free', 'tp_del'}
IT = ('graphillion::setset::iterator', 'graphillion::setset::random_iterator', 'graphillion::setset::weighted_iterator')


def mutator(slot):
    return slot in INPLACE or slot == 'tp_iternext' or slot.startswith('nb_inplace')


def run():
    d = ccload.load()
    tus = list(d.values())
    path = [p for p in d if p.endswith('pygraphillion.cc')]
    if not path:
        raise AnalysisBroken('setup.py no longer builds pygraphillion.cc')
    ents, slots, meths = pyc.tables(d[path[0]], path[0])
    E = effects.Effects(tus)
    out, n, nm = [], 0, 0
    for fn, role, desc, variants in ents:
        f = E.f.get(fn)
        if f is None:
            continue
        n += 1
        slot = desc.split('.')[-1]
        for i, (line, what, via) in sorted(E.mods[fn].items()):
            nm += 1
            if mutator(slot) and i == 0:
                continue
            who = 'its receiver' if i == 0 and not desc.startswith('module.') else 'its argument ' + f['params'][i]['n'] if i >= 0 else 'this'
            out.append(Finding('c12:native:%s:%s:%d' % (desc, f['name'], i), '%s:%s' % (rel(f['file']), line), 'only-mutators-mutate',
                               '%s (%s) changes %s: %s' % (desc, f['name'], who, what), via))
        for g in reach(E, fn):
            for line, src in E.share[g].items():
                h = E.f[g]
                out.append(Finding('c12:share:%s' % h['name'], '%s:%s' % (rel(h['file']), line), 'no-sharing',
                                   '%s makes an object hold the family of %s instead of a copy' % (
                                       h['name'], ', '.join(h['params'][i]['n'] if i >= 0 else 'this' for i in src))))
    # what is declared const is not changed behind the compiler's back
    nc = 0
    for k, f in E.f.items():
        m = E.mods[k]
        if f.get('mconst') and effects.famcls(f.get('cls')):
            nc += 1
            if effects.THIS in m:
                line, what, via = m[effects.THIS]
                out.append(Finding('c12:const:%s' % f['name'], '%s:%s' % (rel(f['file']), line), 'only-mutators-mutate',
                                   '%s is declared not to change its family but %s' % (f['name'], what), via))
        for i, p in enumerate(f['params']):
            if effects.isfam(p['ty']) and p['ty'].startswith('const '):
                nc += 1
                if i in m:
                    line, what, via = m[i]
                    out.append(Finding('c12:const:%s:%s' % (f['name'], p['n']), '%s:%s' % (rel(f['file']), line), 'only-mutators-mutate',
                                       '%s is declared not to change its argument %s but %s' % (f['name'], p['n'], what), via))
    # families and iterators are values
    recs, nf = {}, 0
    for t in tus:
        for r in t['records']:
            recs.setdefault(r['n'], r)
    for c in ('graphillion::setset',) + IT:
        if c not in recs:
            raise AnalysisBroken('class %s not found' % c)
        for x in recs[c].get('fields') or []:
            nf += 1
            ty = x['ty']
            if '*' in ty or '&' in ty or 'shared_ptr' in ty:
                out.append(Finding('c12:field:%s:%s' % (c, x['n']), rel(recs[c].get('file', '')) + ':%s' % recs[c].get('l', recs[c].get('line', '?')), 'values',
                                   'the field %s of %s (%s) can be shared between copies or changed later' % (x['n'], c, ty)))
    if n < 60 or nc < 60 or nf < 4 or E.nstores < 5 or nm < 15:
        raise AnalysisBroken('too little found: %s' % [n, nc, nf, E.nstores, nm])
    cov = dict(native_entry_points=n, functions_with_effects=len(E.f), const_obligations=nc, value_fields=nf, family_pointer_stores=E.nstores, receiver_changes_found=nm)
    return out, cov, ['a pointer or reference is followed to every value the function ever gives it (flow-insensitive); pointers kept inside C++ containers are not followed']


def reach(E, fn):
    seen, todo = set(), [fn]
    while todo:
        k = todo.pop()
        if k in seen or k not in E.f:
            continue
        seen.add(k)
        for n in ccload.walk(E.f[k]['body']):
            if n.get('mg') in E.f:
                todo.append(n['mg'])
    return seen
