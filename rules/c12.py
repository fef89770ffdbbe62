"""Only the in-place operations change a collection, and copies are independent."""
import pysym as P
import pyrun
import c12cc
import c12py
from ccload import AnalysisBroken
from report import Finding


def run():
    fs, cov, ass = c12cc.run()
    jobs, res = c12py.run(P.Prog())
    skipped, paths, results, nat, reached = [], 0, 0, set(), set()
    for x, r, err, dt in res:
        if err:
            skipped.append('%s: %s' % (x[0], err))
            continue
        out, n, k, na, re = r
        for o in out:
            fs.append(Finding(o[0], o[1], o[2], o[3], ['entry ' + x[0]] + list(o[4])))
        paths += n
        results += k
        nat |= na
        reached |= re
    if len(nat) < 100 or len(skipped) > len(jobs) // 4:
        raise AnalysisBroken('only %d native calls on collections found; %d entry points not analysed: %s' % (len(nat), len(skipped), skipped[:2]))
    cov.update(entry_points=len(jobs) - len(skipped), not_analysed=skipped, paths=paths, results=results, native_uses=len(nat),
               functions_evaluated=len(reached))
    cov['rule'] = ('only the documented in-place operations reach a store to a family, and only to their receiver; no object is given the family of another one; '
                   'families and iterators hold their diagram by value; a generator looks at no collection of the caller after it has begun to yield')
    cov['explanation'] = '%d Python entry points on %d paths with %d results handed out, %d native entry points, %d const obligations' % (
        cov['entry_points'], paths, results, cov['native_entry_points'], cov['const_obligations'])
    return fs, cov, pyrun.ASSUME + ass
