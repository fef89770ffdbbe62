"""Set operators mean exactly what their Python names say."""
import pysym as P
import pyrun
import c11cc
import c11py
from ccload import AnalysisBroken
from report import Finding


def run():
    fs, cov = c11cc.run()
    jobs, res = c11py.run(P.Prog())
    skipped, und, chk, done, reached = [], [], 0, [], set()
    for x, r, err, dt in res:
        label = '%s: %s' % (x[0], c11py.FORMS[x[1]][0])
        if err:
            skipped.append('%s: %s' % (label, err))
            continue
        bad, u, n, re = r
        chk += n
        reached |= re
        if u:
            und.append('%s: %s' % (label, u))
        else:
            done.append(label)
        for b in bad[:3]:
            fs.append(Finding('c11:%s' % label, c11py.defline(x[0], c11py.FORMS[x[1]][0]), 'set-semantics', '%s %s' % (label, b)))
    if len(done) < 100:
        raise AnalysisBroken('only %d operations decided; undecided %s; not analysed %s' % (len(done), und[:3], skipped[:3]))
    cov.update(operations=len(done), obligations=chk, undecided=und, not_analysed=skipped, functions_evaluated=len(reached))
    cov['rule'] = 'the result of every operator, method and in-place form is the union of the Venn regions its name stands for, for every pattern of empty regions; only the receiver of an in-place form changes, and it stays the same object'
    cov['explanation'] = '%d Python forms over %d classes and %d native operations, %d obligations; undecided: %d' % (
        len(done), len(c11py.CL), len(cov['native_operations']), chk + cov['native_obligations'], len(und) + len(cov['native_undecided']))
    return fs, cov, pyrun.ASSUME + ['the diagram operators +, &, - and the complement within the universe have their documented meaning (C09 decides the diagram operators)']
