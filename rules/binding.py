"""Runs the typestate analysis of the Python binding (lib/pyc.py) and selects
the reports of one property."""
import os
import ccload, pyc
from ccload import AnalysisBroken, rel
from report import Finding

LIBSLOT = {'PyObject_SelfIter', 'PyObject_GenericGetAttr', 'PyType_GenericAlloc', 'PyType_GenericNew',
           'PyObject_GenericSetAttr', 'PyObject_HashNotImplemented', 'PyObject_Free', 'PyObject_Del'}


def engine():
    d = ccload.load(['pygraphillion.cc', 'graphillion/setset.cc', 'graphillion/zdd.cc'])
    path = [p for p in d if p.endswith('pygraphillion.cc')]
    if not path:
        raise AnalysisBroken('setup.py no longer builds pygraphillion.cc')
    path = path[0]
    iod = pyc.iodir([t for p, t in d.items() if p != path])
    eng, done, missing, slots, meths = pyc.analyse(d[path], path, iod)
    lost = [m for m in missing if m[1] not in LIBSLOT and not str(m[1]).startswith(('PyObject_', 'PyType_'))]
    if lost:
        raise AnalysisBroken('entry points without a definition in the unit: %s' % lost)
    if len(done) < 60:
        raise AnalysisBroken('only %d entry points found' % len(done))
    return eng, done, path


def findings(eng, path, prop):
    out = []
    for (p, fn, kind, detail), (line, msg, via) in sorted(eng.reports.items()):
        if p == prop:
            out.append(Finding('%s:%s:%s' % (fn, kind, detail), '%s:%s' % (rel(path), line), kind,
                               'in %s: %s' % (fn, msg), via))
    return out


def base(eng, done):
    st = eng.stats
    return {'entry_points': len(done), 'functions_inlined': sorted(st['inlined']), 'paths_to_a_return': st['exits'],
            'abstract_states': st['states'], 'python_api_call_sites': len(st['api_calls'])}


ASSUME = ['the Python C API behaves as documented (each call forks into its documented outcomes)',
          'exhaustion of memory inside C++ containers (std::bad_alloc) is not considered',
          'loops are unrolled until the abstract state repeats; at most a bounded number of objects per allocation site is told apart',
          'macros and constants are those of the Linux CPython 3.12 build']


def need(n, low, what):
    if n < low:
        raise AnalysisBroken('only %d %s found (at least %d expected)' % (n, what, low))
