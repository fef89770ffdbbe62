"""Every argument reaches the search parameter it names, or its default."""
import c19cc
import c19py
import ccload
from report import Finding


def run():
    fs, n, und, natives = c19cc.run(ccload.load())
    out, tot, und2, searches = c19py.run(natives)
    for key, wh, rule, msg in out:
        fs.append(Finding(key, wh, rule, msg, []))
    und += und2
    cov = dict(native_searches=sorted(natives), native_uses=n['uses'], native_arguments=n['reach'], native_paths=n['paths'], guards=n['guards'],
               orders_checked=n['order'][0], kept_members=n['inits'],
               python_searches=searches, python=tot, undecided=und,
               rule='what a specification of a native search is built from comes from the argument of that role only, every argument reaches one on every path on which it is given, '
                    'items of pairs keep their order, flags their polarity; a parameter of a Python search is handed over as the native argument of that role, on every path, '
                    'in its value or as the bounds of its range, and leaving it out is the same as giving the documented default',
               explanation='%d native searches (%d arguments, %d uses, %d paths), %d Python searches (%d arguments handed over, %d defaults, %d flag comparisons, %d ranges); undecided: %d'
               % (len(natives), n['reach'], n['uses'], n['paths'], len(searches), tot['args'], tot['defaults'], tot['flags'], tot['ranges'], len(und)))
    return fs, cov, ['constructors and setters of the specification classes use their parameters as they are named']
