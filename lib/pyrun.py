"""Entry points of the Python layer, evaluated in parallel."""
import multiprocessing
import os
import time
import traceback

import pysym as P

CLASSES = ('GraphSet', 'VertexSetSet', 'EdgeVertexSetSet', 'DiGraphSet', 'setset')
OWN = {'GraphSet': 'Universe.e_objtable', 'VertexSetSet': 'Universe.v_objtable',
       'EdgeVertexSetSet': 'Universe.ev_objtable',
       'DiGraphSet': 'DiGraphSet._objtable', 'setset': 'setset._objtable'}


def methods(prog, classes=CLASSES, private=False):
    """(class, method name, definition, kind) of the public surface"""
    for c in classes:
        if c not in prog.classes:
            continue
        for a, d in prog.classes[c].attrs.items():
            if d[0] != 'func':
                continue
            if a.startswith('_') and not a.startswith('__') and not private:
                continue
            yield c, a, d[1], d[2]


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], \
        a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None


def start(ev, cls, name, fn, kind):
    """state and arguments of a call with unknown arguments"""
    st = P.State()
    pos, kwo, var, kwa = params(fn)
    args = {}
    if kind == 'plain' and pos and pos[0] in ('self',):
        s = ('arg', 'self')
        if name == '__init__':
            s = st.alloc(P.Node('inst', cls=cls))
        else:
            st.facts[('type', s)] = cls
        args['self'] = s
    elif kind == 'classmethod' and pos:
        args[pos[0]] = ('cls', cls)
    for n in pos + kwo:
        if n not in args:
            args[n] = ('arg', n)
    return st, args


def _job(a):
    f, x = a
    t = time.time()
    try:
        return x, f(x), None, time.time() - t
    except P.Unsupported as e:
        return x, None, 'outside the analysed fragment: %s' % (str(e) or repr(e))[:200], time.time() - t
    except RecursionError as e:
        return x, None, 'recursion too deep for the evaluator', time.time() - t
    except Exception:
        return x, None, 'evaluator error: ' + traceback.format_exc()[-400:], time.time() - t


class TimeUp(P.Unsupported):
    pass


def _guard(f, limit):
    import signal

    def g(x):
        def up(*_):
            raise TimeUp('time limit of %d s' % limit)
        signal.signal(signal.SIGALRM, up)
        signal.alarm(limit)
        try:
            return f(x)
        finally:
            signal.alarm(0)
    return g


_F = None


def _call(x):
    return _job((_F, x))


def pmap(f, xs, limit=120, procs=8):
    """[(x, result | None, error | None, seconds)] in input order"""
    global _F
    _F = _guard(f, limit)
    xs = list(xs)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs, maxtasksperchild=40) as pool:
        return pool.map(_call, xs, chunksize=1)

ASSUME = [
    'natives behave as named in lib/pysym.py (which ones build a new collection, change their receiver or return element numbers)',
    'loops are evaluated for no and for one arbitrary iteration after joining what earlier ones leave; recursion is cut after two levels',
    'class attributes and functions are not replaced at run time by code outside the package',
]
