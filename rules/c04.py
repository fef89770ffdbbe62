import binding as b


def run():
    eng, done, path = b.engine()
    st = eng.stats
    b.need(len(st['conv']), 10, 'conversions of Python integers')
    c = b.base(eng, done)
    c.update(conversions=len(st['conv']), narrowing_sites=sorted('%s:%s' % x for x in st['narrow']),
             rule='an integer that comes from Python is narrowed only on paths that have compared it with both ends of the narrower type; masking conversions and unchecked format units are not used; the failure value of a conversion is told apart from a value',
             explanation='%d conversions and %d narrowings in %d entry points' % (len(st['conv']), len(st['narrow']), len(done)))
    return b.findings(eng, path, 'C04'), c, b.ASSUME + ['real-valued weights and probabilities take the nearest double']
