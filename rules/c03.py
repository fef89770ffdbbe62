import binding as b


def run():
    eng, done, path = b.engine()
    st = eng.stats
    b.need(len(st['deref']), 60, 'uses of the native pointer of a set of sets')
    c = b.base(eng, done)
    c.update(uses_of_native_pointer=len(st['deref']), casts=len(st['casts']),
             rule='the native pointer of a set of sets (or iterator) is read only from an object that the path has proved to be one (type test, calling convention of its slot, own allocation) and whose pointer has been set',
             explanation='%d uses of a native pointer reached from %d entry points, each dominated by a type test on its path' % (len(st['deref']), len(done)))
    return b.findings(eng, path, 'C03'), c, b.ASSUME
