#!/usr/bin/env python3
"""Development aid: applies textual mutants to scratch copies of /repo and runs
checks on them.  usage: mut.py MUTANTS.py [name...]
MUTANTS.py defines M = [(name, file, old, new, [props expected to alarm], nth)]
(props [] = behaviour-preserving: every listed check must stay quiet)"""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(m, allprops):
    name, edits, props = m[0], m[1], m[2]
    quiet = m[3] if len(m) > 3 else allprops
    t = tempfile.mkdtemp(prefix='mut_')
    try:
        r = os.path.join(t, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', '_build', 'build', '*.o', '*.so'))
        for e in edits:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else 0
            p = os.path.join(r, f)
            s = open(p).read() if os.path.exists(p) else ''
            parts = s.split(old) if old else [s, '']
            if old and len(parts) < nth + 2:
                return name, 'NOT APPLICABLE ' + repr(old[:60])
            s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(p, 'w').write(s)
        env = dict(os.environ, VERIF_REPO=r, VERIF_CACHE=os.path.join(t, 'c'), VERIF_EVID=os.path.join(t, 'e'))
        res = []
        for p in (props or quiet):
            q = subprocess.run([sys.executable, os.path.join(V, 'check.py'), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            want = 1 if props else 0
            keys = [l.strip() for l in q.stdout.split('\n') if l.startswith('    key:')]
            if q.returncode != want:
                res.append('%s rc=%d %s' % (p, q.returncode, q.stdout[-600:] if q.returncode == 2 else keys[:4]))
            elif props:
                res.append('%s ok %s' % (p, keys[:2]))
        bad = any(' ok ' not in x for x in res)
        return name, ('** MISS ' if bad else 'ok ') + ' | '.join(res)
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ms = [m for m in g['M'] if not sys.argv[2:] or m[0] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(int(os.environ.get("MUT_J", "6"))) as ex:
        for n, r in ex.map(lambda m: run(m, g.get('ALL', [])), ms):
            print(n, '->', r, flush=True)


main()
