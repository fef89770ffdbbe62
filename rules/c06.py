import binding as b


def run():
    eng, done, path = b.engine()
    st = eng.stats
    b.need(len(st['handles']), 3, 'operations on descriptors and streams')
    c = b.base(eng, done)
    c.update(handle_operations=sorted('%s:%s %s' % x for x in st['handles']),
             rule='a stream is opened only on a duplicate of the caller\'s descriptor, in the direction it is used, is closed exactly once on each path, and a failure of any of these calls or of a write reaches the caller as an exception',
             explanation='%d operations on descriptors and streams in %d entry points' % (len(st['handles']), len(done)))
    return b.findings(eng, path, 'C06'), c, b.ASSUME
