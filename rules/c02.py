import binding as b


def run():
    eng, done, path = b.engine()
    st = eng.stats
    b.need(st['exits'], 500, 'paths to a return')
    c = b.base(eng, done)
    c.update(rule='at each return of an entry point: the result signals failure exactly when an exception is pending; a NULL result of an API call is never used',
             explanation='%d paths to a return of %d entry points; the error indicator agrees with the result on each' % (st['exits'], len(done)))
    return b.findings(eng, path, 'C02'), c, b.ASSUME
