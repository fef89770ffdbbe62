#!/usr/bin/env python3
"""Development aid: builds and confirms planted bugs.
usage: seed.py SEEDS.py [name...]
SEEDS.py defines S = {id: dict(prop=, edits=[(file, old, new[, nth])], demo=python text or
('sh', shell text), files={name: text}, needs=, what=)}.  Each is confirmed in a scratch copy
bound over /repo in a private mount namespace: it builds, the stable tests pass,
the demonstration passes without it and fails with it; then the check is run."""
import json, os, shutil, subprocess, sys, tempfile, textwrap
import concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '700b4d2'
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo/_build/lib:/repo PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2
exec timeout 200 /opt/vp/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(name, s):
    t = tempfile.mkdtemp(prefix='seed_')
    try:
        r = os.path.join(t, 'repo')
        sh('cp -a /repo %s' % r)
        out = os.path.join(V, 'seeded', name)
        os.makedirs(out, exist_ok=True)
        for e in s['edits']:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else 0
            p = os.path.join(r, f)
            x = open(p).read()
            parts = x.split(old)
            if len(parts) < nth + 2:
                return name, 'NOT APPLICABLE ' + repr(old[:80])
            open(p, 'w').write(old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:]))
        d = sh('git -C %s diff' % r).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        # removed lines must be the original repository's
        bl = {}
        for f in {e[0] for e in s['edits']}:
            b = sh('git -C /repo blame -s %s' % f).stdout.split('\n')
            bl[f] = [x[:8].lstrip('^') for x in b]
        f, n, orig, mine = None, 0, 0, 0
        for l in d.split('\n'):
            if l.startswith('--- a/'):
                f = l[6:]
            elif l.startswith('@@'):
                n = int(l.split('-')[1].split(',')[0].split(' ')[0])
            elif l.startswith('-') and not l.startswith('---'):
                if bl[f][n - 1].startswith(BASE):
                    orig += 1
                else:
                    mine += 1
                n += 1
            elif l.startswith(' '):
                n += 1
        note = '' if orig and not mine else ' [orig=%d mine=%d]' % (orig, mine)
        demo = s['demo']
        if isinstance(demo, tuple):
            open(os.path.join(out, 'demo.sh'), 'w').write(demo[1])
        else:
            open(os.path.join(out, 'demo.sh'), 'w').write(SH)
            open(os.path.join(out, 'demo.py'), 'w').write(textwrap.dedent(demo).lstrip())
        for k, v in s.get('files', {}).items():
            open(os.path.join(out, k), 'w').write(textwrap.dedent(v).lstrip())
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        # where it counts, the demo lies elsewhere
        dd = os.path.join(t, 'demo')
        shutil.copytree(out, dd)
        ns = lambda c: sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (r, c))
        sh('git -C %s stash -q' % r)
        b0 = ns('bash /opt/vp/build.sh >/dev/null 2>&1')
        q0 = ns('bash %s/demo.sh' % dd)
        sh('git -C %s stash pop -q' % r)
        q1 = ns('bash /opt/vp/test.sh %s/out.json' % t)
        try:
            o = json.load(open(t + '/out.json'))
        except Exception:
            return name, 'BUILD/TEST BROKEN ' + q1.stdout[-600:]
        base = json.load(open('/opt/vp/BASELINE.json'))
        base = base['stable']
        lost = sorted(set(base) - set(o['passed']))
        q2 = ns('bash %s/demo.sh' % dd)
        env = dict(os.environ, VERIF_REPO=r, VERIF_CACHE=t + '/c', VERIF_EVID=t + '/e')
        q3 = sh('python3 check.py %s' % s['prop'], cwd=V, env=env)
        keys = [l.strip() for l in q3.stdout.split('\n') if l.startswith('    key:')]
        bad = []
        if b0.returncode or q0.returncode:
            bad.append('DEMO FAILS ON CLEAN rc=%d %s' % (q0.returncode, q0.stdout[-400:]))
        if lost:
            bad.append('TESTS LOST %s' % lost[:5])
        if q2.returncode == 0:
            bad.append('DEMO PASSES WITH PATCH ' + q2.stdout[-300:])
        return name, ('** ' + ' '.join(bad) if bad else 'valid') + note + (' CAUGHT ' + str(keys[:2]) if q3.returncode == 1 else ' MISSED rc=%d %s' % (q3.returncode, q3.stdout[-200:] if q3.returncode == 2 else ''))
    finally:
        shutil.rmtree(t, ignore_errors=True)


g = {}
exec(open(sys.argv[1]).read(), g)
todo = [n for n in g['S'] if not sys.argv[2:] or n in sys.argv[2:]]
with cf.ThreadPoolExecutor(3) as ex:
    for n, r in ex.map(lambda n: one(n, g['S'][n]), todo):
        print(n, '->', r, flush=True)
