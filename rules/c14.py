"""A search restricted to a graph set returns only members of it."""
import ccload
import pysym as P
import pyrun
import c14cc
import c14py
from ccload import AnalysisBroken
from report import Finding


def run():
    fs, cov, res = c14cc.run(ccload.load())
    if len(cov['native_searches']) < 5:
        raise AnalysisBroken('only %d native searches take a search space: %s' % (len(cov['native_searches']), cov['native_undecided'][:4]))
    out = c14py.run(P.Prog(), (res, cov['native_searches']))
    skipped, und, done, n, reached, vals = [], [], [], 0, set(), {}
    for x, r, err, dt in out:
        label = '%s.%s %s' % (x[0], x[1], {'fn': 'with graphset', 'meth': 'as a method', 'none': 'without graphset'}[x[2]])
        if err:
            skipped.append('%s: %s' % (label, err))
            continue
        bad, u, k, vs, re = r
        n += k
        reached |= re
        vals[x] = vs
        if u:
            und.append('%s: %s' % (label, u[0]))
        elif k:
            done.append(label)
        else:
            und.append('%s: no path returns' % label)
        for b in bad[:2]:
            fs.append(Finding('c14:%s' % label, c14py.where(x[0], x[1]), 'search-space', '%s: %s' % (label, b)))
    same = 0
    for (K, m, f), vs in vals.items():
        if f == 'fn' and (K, m, 'meth') in vals:
            same += 1
            if vs != vals[K, m, 'meth']:
                fs.append(Finding('c14:%s.%s:forms' % (K, m), c14py.where(K, m), 'same-result',
                                  '%s.%s(..., graphset=gs) and gs.%s(...) give different results' % (K, m, m)))
    if len(done) < 40:
        raise AnalysisBroken('only %d forms decided; undecided %s; not analysed %s' % (len(done), und[:3], skipped[:3]))
    cov.update(forms_decided=len(done), paths=n, undecided=und, not_analysed=skipped, functions_evaluated=len(reached), forms_compared=same)
    cov['rule'] = 'the family returned is built from the given one by copying, intersecting, taking differences or filters, or by a native search that starts from it (levels read and written with the same offset); without graphset every native search starts from all edge subsets'
    cov['explanation'] = '%d Python forms (%d paths), %d native searches (%d paths); undecided: %d' % (
        len(done), n, len(cov['native_searches']), cov['native_paths'], len(und) + len(skipped) + len(cov['native_undecided']))
    return fs, cov, pyrun.ASSUME + ['a TdZdd subset operation returns members of the diagram it starts from']
