"""Searches and conversions relate levels to the elements of the current universe."""
import ccload
import pysym as P
import pyrun
import c20cc
import c20py
from ccload import AnalysisBroken
from report import Finding


def run():
    fs, cov = c20cc.run(ccload.load())
    if len(cov['entries']) < 40 or cov['functions_with_levels'] < 10:
        raise AnalysisBroken('only %d native entry points and %d functions with levels followed' % (len(cov['entries']), cov['functions_with_levels']))
    ents, res, res2, (gout, gn) = c20py.run(P.Prog())
    skipped, paths, sizes, reached, orders = [], 0, set(), set(), 0
    for x, r, err, dt in res:
        if err:
            skipped.append('%s: %s' % (x[0], err))
            continue
        for o in r[0]:
            fs.append(Finding(o[0], o[1], o[2], o[3], ['entry ' + x[0]] + list(o[4])))
        sizes |= r[1]
        paths += r[2]
        reached |= r[3]
    for x, r, err, dt in res2:
        if err:
            skipped.append('%s: %s' % (x[0], err))
            continue
        for o in r[0]:
            fs.append(Finding(o[0], o[1], o[2], o[3], ['entry ' + x[0]] + list(o[4])))
        orders += r[1]
        paths += r[2]
    for o in gout:
        fs.append(Finding(o[0], o[1], o[2], o[3], list(o[4])))
    if len(skipped) > len(ents) // 4 or not orders or not gn:
        raise AnalysisBroken('%d entry points not analysed: %s; %d table insertions, %d new numbers' % (len(skipped), skipped[:2], orders, gn))
    cov.update(python_entry_points=len(ents) - len(skipped), not_analysed=skipped, python_paths=paths, size_arguments=len(sizes),
               table_insertions=orders, new_numbers=gn, functions_evaluated=len(reached))
    cov['rule'] = ('a diagram is read with offset = number of variables - number of edges, and written with the offset of what its numbers stand for; '
                   'variables and levels are never used in place of one another, and code turning one into the other applies the offset; no function of the package reaches the count of '
                   'elements of all universes; universe sizes handed to natives are those of the current table; vertices and edges-and-vertices are numbered in the order of the edges of the universe')
    cov['explanation'] = '%d native entry points (%d paths, %d obligations), %d functions converting levels, %d Python entry points (%d paths), %d size arguments, %d table insertions' % (
        len(cov['entries']), cov['paths'], cov['obligations'], cov['functions_with_levels'], cov['python_entry_points'], paths, len(sizes), orders)
    return fs, cov, pyrun.ASSUME + ['SAPPORO appends variables so that variable v is at level (number of variables) - v + 1']
