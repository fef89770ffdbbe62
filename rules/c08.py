"""Memoised results depend on every input and never on history."""
import c08cc, c08py


def run():
    P = c08cc.run()
    cov = dict(P.cov)
    fs = list(P.findings)
    pf, pc = c08py.run()
    cov.update(pc)
    cov['explanation'] = ('%(persistent)d variables with static storage in the library, %(stores)d places that keep a result and %(lookups)d that reuse one, '
                          '%(keys)d keys of which %(pins)d hold node ids, %(engine)d uses of the operation cache, %(pyfuncs)d Python functions' % cov)
    return fs + pf, cov, [
        'the decision-diagram engine is canonical: a diagram handle determines the family, whatever was computed before (C09 judges its cache)',
        'the order of the existing variables is fixed; adding variables only shifts their levels',
    ]
