"""Loads the resolved program of /repo: runs the libTooling extractor over the
translation units setup.py builds and returns their JSON."""
import ast, concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EXTRACT = os.path.join(BUILD, 'extract')
PYINC = '/usr/include/python3.12'


class AnalysisBroken(Exception):
    pass


def flags():
    return ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-std=gnu++17',
            '-DB_64', '-DNDEBUG', '-fopenmp', '-I' + os.path.join(VERIF, 'engine/stub'),
            '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src/SAPPOROBDD'),
            '-I' + PYINC, '-w']


def ensure_extractor():
    src = os.path.join(VERIF, 'engine/extract.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = EXTRACT + '.sha'
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    r = subprocess.run(['bash', os.path.join(VERIF, 'engine/build.sh')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build the extractor:\n' + r.stdout[-2000:])
    open(stamp, 'w').write(h)


def sources():
    """The C++ sources setup.py compiles into the extension (it lists them as
    os.path.join(...) or string literals)."""
    p = os.path.join(REPO, 'setup.py')
    tree = ast.parse(open(p).read())

    def ev(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return n.value
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'join':
            a = [ev(x) for x in n.args]
            return None if None in a else '/'.join(a)
        return None
    out = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.Call, ast.Constant)):
            v = ev(n)
            if v and v.endswith(('.cc', '.cpp', '.c', '.cxx')):
                f = os.path.join(REPO, v)
                if os.path.exists(f) and f not in out:
                    out.append(f)
    if len(out) < 5:
        raise AnalysisBroken('cannot find the C++ source list in setup.py')
    return out


def tree_hash():
    h = hashlib.sha256()
    h.update(open(EXTRACT + '.sha', 'rb').read())
    h.update(' '.join(flags()).encode())
    for root, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.cc', '.cpp', '.c', '.cxx', '.h', '.hpp', '.hh', '.inc')):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def load(names=None):
    """{source path: extractor JSON} for the sources whose path ends with one
    of names (all when None)."""
    ensure_extractor()
    srcs = [s for s in sources() if '/mingw32/' not in s]
    if names is not None:
        sel = [s for s in srcs if any(s.endswith(n) for n in names)]
        if not sel:
            raise AnalysisBroken('no source matches %s' % (names,))
        srcs = sel
    cache = os.path.join(os.environ.get('VERIF_CACHE', os.path.join(BUILD, 'cache')), tree_hash())
    cbase = os.path.dirname(cache)
    if not os.path.isdir(cache):
        if os.path.isdir(cbase):
            for d in sorted(os.listdir(cbase), key=lambda d: os.path.getmtime(os.path.join(cbase, d)))[:-1]:
                shutil.rmtree(os.path.join(cbase, d), ignore_errors=True)
        os.makedirs(cache, exist_ok=True)

    def one(s):
        out = os.path.join(cache, os.path.relpath(s, REPO).replace('/', '__') + '.json')
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            r = subprocess.run([EXTRACT, os.path.join(REPO, 'src'), tmp, s, '--'] + flags(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or not os.path.exists(tmp):
                raise AnalysisBroken('extraction of %s failed:\n%s' % (s, r.stdout[-3000:]))
            os.rename(tmp, out)
        with open(out) as f:
            d = json.load(f)
        if d.get('errors'):
            raise AnalysisBroken('%s does not parse' % s)
        return s, d
    with cf.ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, srcs))


def walk(n):
    """all statement nodes below n (n included)"""
    st = [n]
    while st:
        x = st.pop()
        if x is None or not isinstance(x, dict):
            continue
        yield x
        c = x.get('c')
        if c:
            st.extend(reversed(c))


def rel(p):
    return os.path.relpath(p, REPO) if p.startswith(REPO) else p
