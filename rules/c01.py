import binding as b


def run():
    eng, done, path = b.engine()
    st = eng.stats
    b.need(len(st['acquire']), 40, 'acquisitions of a reference')
    c = b.base(eng, done)
    c.update(sites_that_acquire_a_reference=len(st['acquire']),
             rule='on every path from an entry point to a return, each reference acquired is released, stored or returned exactly once and nothing is used after its last reference is gone',
             explanation='%d entry points, %d call sites of the Python API (%d of them acquire a reference), %d distinct paths to a return; every reference is balanced on each'
             % (len(done), len(st['api_calls']), len(st['acquire']), st['exits']))
    return b.findings(eng, path, 'C01'), c, b.ASSUME
