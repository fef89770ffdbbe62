import binding as b


def run():
    eng, done, path = b.engine()
    st = eng.stats
    c = b.base(eng, done)
    selftest()
    c.update(calls_made_without_the_lock=sorted('%s:%s %s' % x for x in st['nogil']),
             rule='between giving up and retaking the interpreter lock only operating-system and stdio calls on local data are made, nothing can throw, and every return holds the lock',
             explanation='%d entry points; %d calls are made without the interpreter lock, all of them stdio calls on local data'
             % (len(done), len(st['nogil'])))
    return b.findings(eng, path, 'C05'), c, b.ASSUME


def selftest():
    """the rule must fire on a tiny unit that breaks it"""
    import json, os, subprocess, tempfile
    import ccload, pyc
    src = os.path.join(ccload.VERIF, 'engine/selftest/nogil.cc')
    with tempfile.TemporaryDirectory() as t:
        out = os.path.join(t, 'o.json')
        r = subprocess.run([ccload.EXTRACT, os.path.dirname(src), out, src, '--'] + ccload.flags(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            raise ccload.AnalysisBroken('self-test unit: ' + r.stdout[-500:])
        tu = json.load(open(out))
    eng = pyc.Engine(tu, src, None, root=os.path.dirname(src))
    f = [f for f in eng.byname.values() if f['name'] == 'entry']
    eng.run_entry(f[0], 'obj', [[pyc.SETSET, pyc.ANY]])
    if not any(k[0] == 'C05' for k in eng.reports):
        raise ccload.AnalysisBroken('the lock rule does not fire on its positive example')
