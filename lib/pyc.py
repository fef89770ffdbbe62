"""Path-sensitive typestate analysis of a CPython extension module.

An abstract interpreter over the resolved syntax tree of one translation unit.
Every entry point (found through the method, slot and type tables) is run from
its calling convention; functions defined in the unit that touch Python
objects are inlined; every Python API call forks into its documented outcomes.
The state holds the reference balance, type facts and liveness of every
object, the error indicator, the interpreter lock, stdio handles, and the
intervals of integers that came from Python.
"""
from collections import namedtuple
import re
from ccload import walk, rel, AnalysisBroken, REPO

TOP = ('top',)
NULL = ('null',)
NN = ('nn',)          # some non-null / non-zero value
UNINIT = ('uninit',)
I0, I1 = ('int', 0), ('int', 1)

Obj = namedtuple('Obj', 'own kind parent facts fld null line desc')
ESC = 10 ** 6         # ownership no longer tracked

PASS = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
        'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr', 'CXXDefaultInitExpr',
        'ChooseExpr', 'GenericSelectionExpr', 'FullExpr'}


class St:
    __slots__ = ('env', 'objs', 'res', 'err', 'gil', 'drop', 'iof', 'trail')

    def __init__(s):
        s.env, s.objs, s.res = {}, {}, {}
        s.err = False      # exception pending
        s.gil = True       # interpreter lock held
        s.drop = False     # an exception was cleared
        s.iof = None       # a stdio failure was observed (line)
        s.trail = None     # where the last failure was injected

    def copy(s):
        n = St.__new__(St)
        n.env, n.objs, n.res = dict(s.env), dict(s.objs), dict(s.res)
        n.err, n.gil, n.drop, n.iof, n.trail = s.err, s.gil, s.drop, s.iof, s.trail
        return n

    def key(s):
        ref = set()
        for v in s.env.values():
            if len(v) > 1 and v[0] in ('obj', 'buf', 'typeof'):
                ref.add(v[1])
        objs = {}
        work = [o for o, r in s.objs.items() if o in ref or r.own > 0 or r.kind == 'param']
        while work:
            o = work.pop()
            if o in objs or o not in s.objs:
                continue
            r = s.objs[o]
            objs[o] = r
            if r.parent is not None:
                work.append(r.parent)
        return (frozenset(s.env.items()), frozenset(objs.items()), frozenset(s.res.items()),
                s.err, s.gil, s.drop, s.iof is not None)


class Outcome:
    """exec result: lists of states by way of leaving the statement"""
    __slots__ = ('n', 'brk', 'cont', 'ret', 'thr', 'goto')

    def __init__(s):
        s.n, s.brk, s.cont, s.ret, s.thr, s.goto = [], [], [], [], [], []

    def absorb(s, o, n=True, loop=True):
        if n:
            s.n += o.n
        if loop:
            s.brk += o.brk
            s.cont += o.cont
        s.ret += o.ret
        s.thr += o.thr
        s.goto += o.goto


def dedupe(sts):
    seen, out = set(), []
    for s in sts:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def dedupe_v(vs):
    seen, out = set(), []
    for v, s in vs:
        k = (v, s.key())
        if k not in seen:
            seen.add(k)
            out.append((v, s))
    return out


INTRNG = {}
for w in (8, 16, 32, 64):
    INTRNG[(w, False)] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    INTRNG[(w, True)] = (0, (1 << w) - 1)

TYPEFLAGS = {24: 'int', 25: 'list', 26: 'tuple', 27: 'bytes', 28: 'str', 29: 'dict', 30: 'exc', 31: 'type'}
TYPEOBJ = {'PyLong_Type': 'int', 'PyList_Type': 'list', 'PyTuple_Type': 'tuple', 'PyBytes_Type': 'bytes',
           'PyUnicode_Type': 'str', 'PyDict_Type': 'dict', 'PyFloat_Type': 'float', 'PyBool_Type': 'bool'}

# Python API: name -> (result, can fail, arguments that must not be NULL)
#  result: 'new' | 'borrow0' | 'int' (-1 fails) | 'void' | 'buf0' | 'long' ...
API = {}


def api(names, res, fail=True, nn=(0,)):
    for n in names.split():
        API[n] = (res, fail, nn)


api('PyObject_GetIter PyObject_Repr PyObject_Str PyObject_ASCII PyNumber_Float PyNumber_Long PyNumber_Index '
    'PySequence_List PySequence_Tuple PySequence_Fast PyObject_Dir PyObject_Bytes PyUnicode_AsUTF8String '
    'PyUnicode_AsEncodedString PyDict_Keys PyDict_Values PyDict_Items PyMapping_Keys PyMapping_Items '
    'PyList_AsTuple PyNumber_Negative PyNumber_Absolute PyObject_SelfIter PyObject_Type PyDict_Copy '
    'PyUnicode_AsASCIIString PyUnicode_AsLatin1String PyNumber_Invert PyNumber_Positive', 'new')
api('PySequence_GetItem PySequence_GetSlice PyObject_GetItem PyObject_GetAttr PyObject_GetAttrString PyMapping_GetItemString '
    'PyNumber_Add PyNumber_Subtract PyNumber_Multiply PyNumber_And PyNumber_Or PyNumber_Xor PyObject_RichCompare '
    'PyObject_CallObject PyObject_CallNoArgs PyObject_CallOneArg PyObject_CallMethod PyObject_CallFunction '
    'PyObject_CallFunctionObjArgs PyObject_CallMethodObjArgs PyObject_Call PyList_GetSlice PyNumber_InPlaceOr '
    'PySequence_Concat PyNumber_Remainder PyNumber_FloorDivide PyNumber_TrueDivide', 'new')
api('PyLong_FromLong PyLong_FromLongLong PyLong_FromUnsignedLong PyLong_FromUnsignedLongLong PyLong_FromSsize_t '
    'PyLong_FromSize_t PyLong_FromString PyLong_FromUnicodeObject PyLong_FromDouble PyLong_FromVoidPtr PyFloat_FromDouble '
    'PyFloat_FromString PyUnicode_FromString PyUnicode_FromStringAndSize PyUnicode_FromFormat PyUnicode_DecodeUTF8 '
    'PyUnicode_DecodeASCII PyUnicode_DecodeLatin1 PyBytes_FromString PyBytes_FromStringAndSize PyBytes_FromFormat PyList_New PyTuple_New PyDict_New PySet_New PyFrozenSet_New '
    'PyTuple_Pack Py_BuildValue PyBool_FromLong PyModule_Create2 PyModule_Create PyImport_ImportModule PyErr_NewException '
    'PyUnicode_DecodeFSDefault PyUnicode_New PySet_Pop', 'new', True, ())
api('PyTuple_GetItem PyList_GetItem PyTuple_GET_ITEM PyList_GET_ITEM PySequence_Fast_GET_ITEM', 'borrow0', False)
api('PyDict_GetItem PyDict_GetItemString', 'borrow0null', False)
api('PyDict_GetItemWithError', 'borrow0nullerr', True)
api('PyTuple_Size PyList_Size PyDict_Size PySet_Size PyBytes_Size PyTuple_GET_SIZE PyList_GET_SIZE PyUnicode_GetLength '
    'PySet_GET_SIZE PySequence_Fast_GET_SIZE PyUnicode_GET_LENGTH PyBytes_GET_SIZE Py_SIZE PyAnySet_GET_SIZE Py_REFCNT PySequence_Fast_ITEMS',
    'nonneg', False)
api('PyObject_Size PyObject_Length PySequence_Size PySequence_Length PyMapping_Size PyMapping_Length PyObject_LengthHint', 'ssize')
api('PyObject_IsTrue PyObject_Not PyObject_IsInstance PyObject_IsSubclass PySequence_Contains PySet_Contains '
    'PyDict_Contains PyObject_RichCompareBool', 'int3')
api('PySet_Add PyList_Append', 'store0')
api('PyDict_SetItem PyObject_SetItem PyObject_SetAttr', 'store0b')
api('PyDict_SetItemString PyObject_SetAttrString', 'store0c')
api('PySet_Discard PyDict_DelItem PySet_Clear PyList_Reverse PyList_Sort PyObject_DelItem PyDict_Update PyDict_Merge PyList_Insert', 'int3')
api('PyList_SetItem PyTuple_SetItem', 'steal2')
api('PyList_SET_ITEM PyTuple_SET_ITEM', 'steal2v', False)
api('PyModule_AddObject', 'steal2ok')
api('PyModule_AddObjectRef PyModule_AddIntConstant PyModule_AddStringConstant PyType_Ready PyCallable_Check', 'int3')
api('PyLong_AsLong PyLong_AsLongLong PyLong_AsSsize_t PyLong_AsInt _PyLong_AsInt PyNumber_AsSsize_t', 'aslong')
api('PyLong_AsUnsignedLong PyLong_AsUnsignedLongLong PyLong_AsSize_t', 'asulong')
api('PyLong_AsUnsignedLongMask PyLong_AsUnsignedLongLongMask', 'asmask')
api('PyLong_AsLongAndOverflow PyLong_AsLongLongAndOverflow', 'aslongovf')
api('PyFloat_AsDouble PyLong_AsDouble', 'asdouble')
api('PyFloat_AS_DOUBLE PyFloat_GET_SIZE', 'topv', False)
api('PyUnicode_AsUTF8 PyUnicode_AsUTF8AndSize', 'buf0')
api('PyBytes_AsString PyBytes_AS_STRING', 'bufbytes')
api('PyBytes_AsStringAndSize', 'int3')
api('PyObject_AsFileDescriptor', 'fd')
api('PySequence_Check PyMapping_Check PyIter_Check PyNumber_Check PyIndex_Check PyCallable_Check PyObject_CheckBuffer PyObject_HasAttrString PyObject_HasAttr', 'pred', False)
api('PyErr_SetString PyErr_SetNone PyErr_SetObject PyErr_Format PyErr_BadArgument PyErr_BadInternalCall '
    'PyErr_SetInterrupt', 'seterr', False, ())
api('PyErr_NoMemory PyErr_SetFromErrno PyErr_SetFromErrnoWithFilename PyErr_SetFromErrnoWithFilenameObject', 'seterrnull', False, ())
api('PyErr_Clear', 'clearerr', False, ())
api('PyErr_Occurred', 'occurred', False, ())
api('PyErr_ExceptionMatches', 'excmatch', False, ())
api('PyErr_Print PyErr_WriteUnraisable', 'clearerr', False, ())
api('PyErr_WarnEx PyErr_CheckSignals', 'int3', True, ())
api('PyErr_Fetch PyErr_GetRaisedException', 'fetch', False, ())
api('PyErr_Restore PyErr_SetRaisedException', 'seterr', False, ())

ALLOC_MEMBERS = {'tp_alloc', 'tp_new'}
FREE_MEMBERS = {'tp_free'}

# what may run while the interpreter lock is released: functions that touch
# only their arguments and the operating system
NOGIL_OK = {'fopen', 'fclose', 'fflush', 'fwrite', 'fread', 'fputs', 'fputc', 'fgets', 'fgetc', 'fprintf', 'ferror',
            'feof', 'read', 'write', 'close', 'dup', 'fdopen', 'usleep', 'sleep', 'nanosleep', 'select', 'poll',
            'strlen', 'memcpy', 'memset', 'strcmp', 'strtoll', 'strtol', 'fsync', 'fdatasync', 'lseek', 'PyEval_RestoreThread',
            '__errno_location'}


class Engine:
    MAXST = 4000

    def __init__(self, tu, path, iodir=None, root=None):
        self.tu, self.path = tu, path
        self.byname = {}
        for f in tu['funcs']:
            if f.get('body') and not f['dep'] and f['file'].startswith((root or REPO + '/src') + '/'):
                self.byname[f['mg'] or f['name']] = f
        self.funcs = {f['d']: f for f in self.byname.values()}
        self.reports = {}
        self.iodir = iodir or {}
        self.depth = 0
        self.stack = []
        self.tryd = 0
        self.thr = []
        self.setset_types = None
        self.stats = {'api_calls': set(), 'inlined': set(), 'exits': 0, 'casts': set(), 'narrow': set(), 'conv': set(), 'acquire': set(),
                      'states': 0, 'nogil': set(), 'handles': set(), 'deref': set(), 'unmodelled': set()}
        self.py = self._python_funcs()

    # -- which functions of the unit deal with Python objects ---------------
    def _python_funcs(self):
        direct, calls = set(), {}
        for mg, f in self.byname.items():
            cs = set()
            for n in walk(f['body']):
                fn = n.get('fn')
                if fn:
                    if re.match(r'_?Py[A-Z_]', fn) or fn in ('fdopen', 'fclose', 'dup', 'fopen', 'close'):
                        direct.add(mg)
                    cs.add(n.get('mg') or fn)
                t = n.get('ty') or ''
                if '_object' in t or 'PySetset' in t or 'PyObject' in t or '_typeobject' in t:
                    direct.add(mg)
            if any('_object' in p['ty'] or 'PySetset' in p['ty'] for p in f['params']):
                direct.add(mg)
            calls[mg] = cs
        ch = True
        while ch:
            ch = False
            for mg, cs in calls.items():
                if mg not in direct and cs & direct:
                    direct.add(mg)
                    ch = True
        return direct

    # -- reporting ---------------------------------------------------------------
    def where(self):
        return ' < '.join('%s' % f['name'] for f in reversed(self.stack))

    def report(self, prop, kind, line, msg, detail='', st=None):
        fn = self.stack[-1]['name'] if self.stack else '?'
        top = self.stack[0]['name'] if self.stack else '?'
        key = (prop, fn, kind, detail)
        path = ['entry point ' + top]
        if len(self.stack) > 1:
            path.append('call chain ' + ' -> '.join(f['name'] for f in self.stack))
        if st is not None and st.trail:
            path.append('last failure on this path: ' + st.trail)
        if key not in self.reports:
            self.reports[key] = (line, msg, path)

    # -- objects ------------------------------------------------------------------
    def new_obj(self, st, e, kind='new', own=1, parent=None, facts=(), fld='', desc='', null='nn'):
        site = (self.depth, e['i'], self.stack[-1]['mg'] if self.stack else '', desc)
        held = set(v[1] for v in st.env.values() if len(v) > 1 and v[0] in ('obj', 'buf', 'typeof'))
        g, live = 0, 0
        while True:
            oid = (site, g)
            o = st.objs.get(oid)
            if o is None or (oid not in held and o.own == 0 and kind != 'param'
                             and not any(x.parent == oid and (y in held or x.own > 0) for y, x in st.objs.items())):
                break
            if o.own > 0 and oid not in held and o.own < ESC:
                live += 1
            g += 1
            if g > 6 or live >= 3:
                if own > 0:
                    self.report('C01', 'leak-in-loop', e['l'], 'each pass of a loop leaves another reference to %s unreleased' % (desc or 'an object'), desc, st)
                    st.objs[oid] = o._replace(own=ESC)
                break
        st.objs[oid] = Obj(own, kind, parent, frozenset(facts), fld, null, e['l'], desc)
        return ('obj', oid)

    def alive(self, st, oid, seen=0):
        o = st.objs.get(oid)
        if o is None or seen > 8:
            return True
        if o.own > 0 or o.kind == 'param':
            return True
        if o.parent is not None:
            return self.alive(st, o.parent, seen + 1)
        return o.kind == 'unk'

    def use(self, st, v, line, what):
        """v is dereferenced or passed to an API that needs a live object"""
        if v == NULL or (v[0] == 'obj' and v[1] in st.objs and st.objs[v[1]].null == 'null'):
            self.report('C02', 'null-use', line, 'a NULL result is used by %s without a check' % what, what, st)
            return False
        if v[0] in ('obj', 'buf', 'typeof') and v[1] in st.objs:
            o = st.objs[v[1]]
            if not self.alive(st, v[1]):
                self.report('C01', 'use-after-release', line,
                            '%s uses %s after its last reference was released' % (what, o.desc or 'an object'),
                            (o.desc or '') + ':' + what, st)
            elif o.null == 'maybe' and v[0] == 'obj':
                self.report('C02', 'null-use', line, '%s uses an optional argument that may be NULL' % what, what, st)
                return False
        if v == UNINIT:
            self.report('C19', 'uninit', line, '%s uses an uninitialised variable' % what, what, st)
        return True

    def fact(self, st, oid, f):
        o = st.objs.get(oid)
        if o is None:
            return None
        if f in o.facts:
            return True
        if '!' + f in o.facts:
            return False
        pos = [x for x in o.facts if x.startswith('t:')]
        if f.startswith('t:') and pos:
            # distinct built-in layouts exclude each other (int/list/tuple/...)
            if pos[0] != f and {pos[0][2:], f[2:]} <= (set(TYPEFLAGS.values()) | {'float', 'setset', 'anyset'}):
                return False
        if f == 'is:_Py_NoneStruct' and (pos or o.kind == 'raw' or any(x == 'setset' for x in o.facts)):
            return False
        if f.startswith('t:') and 'is:_Py_NoneStruct' in o.facts:
            return False
        return None

    def fork_fact(self, st, oid, f):
        """[(bool, st)]"""
        k = self.fact(st, oid, f)
        if k is not None:
            return [(k, st)]
        o = st.objs.get(oid)
        if o is None:
            return [(True, st), (False, st.copy())]
        a, b = st.copy(), st.copy()
        a.objs[oid] = o._replace(facts=o.facts | {f})
        b.objs[oid] = o._replace(facts=o.facts | {'!' + f})
        return [(True, a), (False, b)]

    # -- lvalues ----------------------------------------------------------------------
    def load(self, st, v, line):
        if v[0] == 'lv':
            x = st.env.get(v[1])
            if x is None:
                return TOP
            if x[0] == 'ref':
                return self.load(st, x[1], line)
            return x
        if v[0] == 'glv':
            return ('gval', v[1])
        if v[0] == 'flv':
            return self.load_field(st, v[1], v[2], line)
        return v if v[0] in ('obj', 'int', 'rng', 'trunc', 'null', 'imm', 'fd', 'file', 'nn', 'buf', 'typeof', 'gval', 'ssp', 'newss', 'fwok', 'fwbad') else TOP

    def store(self, st, lv, v, line):
        if lv[0] == 'lv':
            x = st.env.get(lv[1])
            if x is not None and x[0] == 'ref':
                return self.store(st, x[1], v, line)
            st.env[lv[1]] = v
            return
        if lv[0] == 'flv':
            base, m = lv[1], lv[2]
            if base[0] == 'obj' and m in ('ss', 'it'):
                self.deref_setset(st, base, m, line, True)
                o = st.objs.get(base[1])
                if o is not None:
                    nul = v == NULL
                    st.objs[base[1]] = o._replace(fld='null' if nul else 'set')
            return
        self.escape(st, v)

    def escape(self, st, v):
        if v[0] == 'obj' and v[1] in st.objs:
            o = st.objs[v[1]]
            if o.own > 0:
                st.objs[v[1]] = o._replace(own=ESC)
        if v[0] in ('file', 'fd') and v[1] in st.res:
            st.res[v[1]] = st.res[v[1]][:1] + ('esc',) + st.res[v[1]][2:]

    def sink(self, st, v, line, what):
        """an integer value leaves for native code"""
        if v[0] == 'trunc':
            self.report('C04', 'truncated', v[4], 'an integer from Python is narrowed from %d to %d bits without a range check and then used by %s'
                        % (v[5], v[6], what), what, st)

    def deref_setset(self, st, v, m, line, write=False):
        self.stats['deref'].add((self.stack[-1]['name'], line, m))
        if not self.use(st, v, line, '->' + m):
            return
        if v[0] == 'obj' and v[1] in st.objs:
            o = st.objs[v[1]]
            need = 'setset' if m == 'ss' else 'setsetiter'
            if need not in o.facts and 't:' + need not in o.facts:
                self.report('C03', 'unchecked-cast', line,
                            '%s is used as a %s without a type check' % (o.desc or 'an object', need), o.desc or '', st)
                st.objs[v[1]] = o._replace(facts=o.facts | {need})
            elif not write and o.fld in ('null', 'garbage') and o.kind != 'param':
                self.report('C03', 'unset-pointer', line, 'the %s pointer of a new object is used before it is set' % m, o.desc, st)
        elif v[0] == 'imm':
            self.report('C03', 'unchecked-cast', line, 'a constant object is used as a set of sets', str(v[1]), st)

    def load_field(self, st, base, m, line):
        if m in ('ss', 'it'):
            self.deref_setset(st, base, m, line)
            if base[0] == 'obj':
                o = st.objs.get(base[1])
                if o is not None and o.fld == 'null':
                    return NULL
                return ('ssp', base[1])
            return TOP
        if m.startswith('tp_'):
            return ('slot', base, m)
        if m == 'ob_type' and base[0] == 'obj':
            return ('typeof', base[1])
        return TOP

    # -- expressions ----------------------------------------------------------------------
    def evs(self, es, st):
        """evaluate a list left to right: [([values], st)]"""
        out = [([], st)]
        for e in es:
            nxt = []
            for vs, s in out:
                for v, s2 in self.ev(e, s):
                    nxt.append((vs + [v], s2))
            out = nxt
            if len(out) > 64:
                seen, o2 = set(), []
                for vs, s in out:
                    k = (tuple(vs), s.key())
                    if k not in seen:
                        seen.add(k)
                        o2.append((vs, s))
                out = o2
        return out

    def rv(self, e, st):
        """evaluate to an rvalue"""
        return [(self.load(s, v, e['l']) if v[0] in ('lv', 'flv', 'glv') else v, s) for v, s in self.ev(e, st)]

    def ev(self, e, st):
        if e is None:
            return [(TOP, st)]
        k = e['k']
        if 'cv' in e and k in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'GNUNullExpr', 'CharacterLiteral', 'UnaryExprOrTypeTraitExpr'):
            return [(('int', int(e['cv'])), st)]
        c = e.get('c') or []
        if k in PASS:
            return self.ev(c[0], st) if c else [(TOP, st)]
        if k == 'DeclRefExpr':
            return [(self.declref(e, st), st)]
        m = getattr(self, 'ev_' + k, None)
        if m:
            return m(e, st)
        if 'cv' in e and not any(n.get('fn') and not n['fn'].startswith('std::') for n in walk(e)):
            return [(('int', int(e['cv'])), st)]
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr',
                 'CXXConstCastExpr', 'CXXFunctionalCastExpr', 'CXXDynamicCastExpr', 'CXXAddrspaceCastExpr'):
            return self.cast(e, st)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'):
            return self.call(e, st)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.construct(e, st)
        out = []
        for vs, s in self.evs([x for x in c if x is not None and x['k'] != 'CompoundStmt'], st):
            for v in vs:
                if k not in ('ArraySubscriptExpr',):
                    self.escape(s, self.load(s, v, e['l']))
            out.append((TOP, s))
        return out

    def declref(self, e, st):
        r = e['r']
        if r['k'] in ('parm', 'var'):
            if r['k'] == 'parm' or r.get('s') in ('local',):
                key = (self.depth, r['d'])
                x = st.env.get(key)
                if x is not None and x[0] == 'ref':
                    return x[1]
                return ('lv', key)
            return ('glv', r['n'])
        if r['k'] == 'enum' and 'cv' in e:
            return ('int', int(e['cv']))
        if r['k'] == 'func':
            return ('fn', r.get('mg') or r['n'])
        return TOP

    def ev_GNUNullExpr(self, e, st):
        return [(NULL, st)]

    def ev_CXXNullPtrLiteralExpr(self, e, st):
        return [(NULL, st)]

    def ev_StringLiteral(self, e, st):
        return [(('str', e.get('v', '')), st)]

    def ev_CXXThisExpr(self, e, st):
        return [(NN, st)]

    def ev_LambdaExpr(self, e, st):
        return [(TOP, st)]

    def ev_StmtExpr(self, e, st):
        o = self.exec(e['c'][0], st)
        self.thr += o.thr
        return [(TOP, s) for s in o.n]

    def ev_CXXNewExpr(self, e, st):
        out = []
        for vs, s in self.evs([x for x in (e.get('c') or []) if x], st):
            self.maythrow(s)
            out.append((('newss', 0), s))
        return out

    def ev_CXXDeleteExpr(self, e, st):
        out = []
        for v, s in self.rv(e['c'][0], st):
            if v[0] == 'ssp' and v[1] in s.objs:
                o = s.objs[v[1]]
                if o.fld == 'deleted':
                    self.report('C01', 'double-delete', e['l'], 'the native part of an object is deleted twice', '', s)
                s.objs[v[1]] = o._replace(fld='deleted')
            out.append((TOP, s))
        return out

    def ev_CXXThrowExpr(self, e, st):
        for vs, s in self.evs([x for x in (e.get('c') or []) if x], st):
            self.thr.append(s.copy())
        return []

    def ev_ConditionalOperator(self, e, st):
        out = []
        for b, s in self.truth(e['c'][0], st):
            out += self.ev(e['c'][1 if b else 2], s)
        return dedupe_v(out)

    def ev_MemberExpr(self, e, st):
        c = e.get('c') or []
        if not c:
            return [(TOP, st)]
        out = []
        for v, s in (self.rv(c[0], st) if e.get('arrow') else self.ev(c[0], st)):
            m = e['m']
            if v[0] == 'addr':
                v = ('lv', v[1])
                out.append((('lv', v[1] + (m,)), s))
            elif v[0] == 'lv' and not e.get('arrow'):
                out.append((('lv', v[1] + (m,)), s))
            elif v[0] == 'glv' and v[1].endswith('_Type'):
                out.append((('flv', ('imm', v[1]), m), s))
            elif v[0] in ('obj', 'null', 'imm', 'typeof', 'gval', 'slot'):
                out.append((('flv', v, m), s))
            else:
                out.append((TOP if m not in ('ss', 'it') or v[0] != 'top' else ('flv', v, m), s))
        return out

    def ev_UnaryOperator(self, e, st):
        op = e['op']
        c = e['c'][0]
        if op == '!':
            return [(I0 if b else I1, s) for b, s in self.truth(c, st)]
        out = []
        for v, s in self.ev(c, st):
            if op == '&':
                if v[0] == 'lv':
                    out.append((('addr', v[1]), s))
                elif v[0] == 'glv':
                    out.append((('imm', v[1]), s))
                elif v[0] in ('fn', 'flv'):
                    out.append((v if v[0] == 'fn' else NN, s))
                else:
                    out.append((NN, s))
            elif op == '*':
                v = self.load(s, v, e['l']) if v[0] in ('lv', 'flv', 'glv') else v
                if v[0] == 'addr':
                    out.append((('lv', v[1]), s))
                elif v == NULL:
                    self.use(s, v, e['l'], 'dereference')
                else:
                    if v[0] == 'ssp':
                        pass
                    if v[0] in ('buf',):
                        self.use(s, v, e['l'], 'dereference')
                    out.append((TOP, s))
            elif op in ('++', '--'):
                if v[0] == 'lv':
                    old = self.load(s, v, e['l'])
                    self.store(s, v, TOP, e['l'])
                    out.append((TOP if old[0] != 'uninit' else old, s))
                else:
                    out.append((TOP, s))
            elif op == '-' and v[0] == 'int':
                out.append((('int', -v[1]), s))
            else:
                out.append((TOP, s))
        return out

    def ev_BinaryOperator(self, e, st):
        op = e['op']
        a, b = e['c']
        if op == '=':
            out = []
            for v, s in self.rv(b, st):
                for lv, s2 in self.ev(a, s):
                    self.store(s2, lv, v, e['l'])
                    out.append((lv, s2))
            return out
        if op == ',':
            return [x for _, s in self.ev(a, st) for x in self.ev(b, s)]
        if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            return [(I1 if t else I0, s) for t, s in self.truth(e, st)]
        out = []
        for v, s in self.rv(a, st):
            for w, s2 in self.rv(b, s):
                r = TOP
                if v[0] == 'int' and w[0] == 'int':
                    try:
                        r = ('int', {'+': v[1] + w[1], '-': v[1] - w[1], '*': v[1] * w[1], '|': v[1] | w[1], '&': v[1] & w[1],
                                     '<<': v[1] << w[1] if 0 <= w[1] < 64 else 0, '>>': v[1] >> w[1] if 0 <= w[1] < 64 else 0,
                                     '^': v[1] ^ w[1]}[op])
                    except (KeyError, ValueError):
                        r = TOP
                for x in (v, w):
                    if x[0] == 'trunc':
                        self.sink(s2, x, e['l'], 'arithmetic')
                out.append((r, s2))
        return out

    def ev_CompoundAssignOperator(self, e, st):
        out = []
        for w, s in self.rv(e['c'][1], st):
            for lv, s2 in self.ev(e['c'][0], s):
                if w[0] == 'trunc':
                    self.sink(s2, w, e['l'], 'arithmetic')
                if lv[0] == 'lv':
                    cur = self.load(s2, lv, e['l'])
                    r = TOP
                    if e['op'] in ('|=', '&=') and cur[0] == 'int' and w[0] == 'int':
                        r = ('int', cur[1] | w[1] if e['op'] == '|=' else cur[1] & w[1])
                    elif e['op'] == '&=' and ('int', 0) in (cur, w):
                        r = I0
                    self.store(s2, lv, r, e['l'])
                out.append((lv, s2))
        return out

    def narrow(self, v, e, frm):
        """integral conversion of v to e's type"""
        t = INTRNG.get((e.get('w'), bool(e.get('u'))))
        if v[0] == 'rng' and t:
            if e.get('w') == 1:
                return TOP
            self.stats['conv'].add((self.stack[-1]['name'], e['l'], e['i']))
            lo, hi = v[1], v[2]
            if lo >= t[0] and hi <= t[1]:
                return v
            self.stats['narrow'].add((self.stack[-1]['name'], e['l']))
            return ('trunc', max(lo, t[0]), min(hi, t[1]), v[3], e['l'], frm or 64, e.get('w'))
        if v[0] == 'trunc' and t and (v[1] < t[0] or v[2] > t[1]):
            return ('trunc', max(v[1], t[0]), min(v[2], t[1]), v[3], v[4], v[5], e.get('w'))
        if v[0] == 'int' and t and not (t[0] <= v[1] <= t[1]):
            w = e['w']
            x = v[1] & ((1 << w) - 1)
            if not e.get('u') and x >> (w - 1):
                x -= 1 << w
            return ('int', x)
        return v

    def cast(self, e, st):
        ck = e.get('ck')
        c = e['c'][0]
        if ck in ('NullToPointer',):
            return [(NULL, st)]
        if ck == 'LValueToRValue':
            out = []
            for v, s in self.ev(c, st):
                x = self.load(s, v, e['l'])
                if x == UNINIT:
                    self.report('C19', 'uninit', e['l'], 'a variable that an omitted optional argument leaves uninitialised is read',
                                c.get('r', {}).get('n', ''), s)
                    x = TOP
                out.append((x, s))
            return out
        if ck in ('IntegralCast',):
            return [(self.narrow(v, e, c.get('w')), s) for v, s in self.rv(c, st)]
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return [(I1 if b else I0, s) for b, s in self.truth(c, st)]
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            out = []
            for v, s in self.rv(c, st):
                if v[0] == 'trunc':
                    self.sink(s, v, e['l'], 'a floating-point conversion')
                out.append((TOP, s))
            return out
        if ck in ('BitCast', 'NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay',
                  'ArrayToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast',
                  'BuiltinFnToFnPtr', 'ToVoid'):
            vs = self.ev(c, st)
            if ck == 'ArrayToPointerDecay':
                vs = [(('addr', v[1]) if v[0] == 'lv' else v, s) for v, s in vs]
            return vs
        return [(TOP, s) for v, s in self.ev(c, st)]

    # -- conditions ------------------------------------------------------------------------
    def lvkey(self, e, st):
        while e is not None:
            k = e['k']
            if k in PASS or k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr'):
                e = e['c'][0] if e.get('c') else None
                continue
            if k == 'DeclRefExpr':
                v = self.declref(e, st)
                return v[1] if v[0] == 'lv' else None
            if k == 'UnaryOperator' and e['op'] == '*':
                kk = self.lvkey(e['c'][0], st)
                v = st.env.get(kk) if kk else None
                return v[1] if v and v[0] == 'addr' else None
            if k == 'BinaryOperator' and e['op'] == '=':
                e = e['c'][0]
                continue
            return None
        return None

    def strip(self, e):
        while e and (e['k'] in PASS):
            e = e['c'][0] if e.get('c') else None
        return e

    def truth(self, e, st):
        e0 = self.strip(e)
        if e0 is None:
            return [(True, st), (False, st.copy())]
        k = e0['k']
        if k == 'ImplicitCastExpr' and e0.get('ck') in ('IntegralToBoolean', 'PointerToBoolean', 'NoOp'):
            return self.truth(e0['c'][0], st)
        if k == 'UnaryOperator' and e0['op'] == '!':
            return [(not b, s) for b, s in self.truth(e0['c'][0], st)]
        if k == 'BinaryOperator':
            op = e0['op']
            if op in ('&&', '||'):
                out = []
                for b, s in self.truth(e0['c'][0], st):
                    if b == (op == '||'):
                        out.append((b, s))
                    else:
                        out += self.truth(e0['c'][1], s)
                return out
            if op in ('==', '!=', '<', '>', '<=', '>='):
                out = []
                for v, s in self.rv(e0['c'][0], st):
                    for w, s2 in self.rv(e0['c'][1], s):
                        out += self.compare(op, e0['c'][0], v, e0['c'][1], w, s2, e0)
                return out
        if k == 'CallExpr' and e0.get('fn') == '__builtin_expect':
            return self.truth(e0['c'][1], st)
        out = []
        for v, s in self.rv(e0, st):
            out += self.truthv(v, e0, s)
        return out

    def truthv(self, v, e, s):
        t = v[0]
        if t == 'int':
            return [(v[1] != 0, s)]
        if t == 'null':
            return [(False, s)]
        if t in ('imm', 'nn', 'addr', 'buf', 'file', 'typeof', 'ssp', 'newss', 'str', 'fn', 'gval', 'slot'):
            return [(True, s)]
        if t == 'obj':
            o = s.objs.get(v[1])
            if o is None or o.null == 'nn':
                return [(True, s)]
            if o.null == 'null':
                return [(False, s)]
            a, b = s.copy(), s.copy()
            a.objs[v[1]] = o._replace(null='nn')
            b.objs[v[1]] = o._replace(null='null')
            return [(True, a), (False, b)]
        if t == 'fd':
            return [(True, s.copy()), (False, s)]      # descriptor 0 is a descriptor
        a, b = s.copy(), s
        kk = self.lvkey(e, s)
        if kk is not None and v in (TOP,) and kk in s.env:
            a.env[kk] = NN
            b.env[kk] = I0
        if t in ('rng', 'trunc'):
            if v[1] > 0 or v[2] < 0:
                return [(True, a)]
        return [(True, a), (False, b)]

    def isnull(self, st, v):
        """True/False/None, and the states of the two outcomes"""
        return self.truthv(v, {'k': 'none'}, st)

    def compare(self, op, ea, v, eb, w, st, e):
        def res(eq, s):
            return [(eq if op == '==' else not eq, s)]
        if v[0] == 'int' and w[0] == 'int':
            r = {'==': v[1] == w[1], '!=': v[1] != w[1], '<': v[1] < w[1], '>': v[1] > w[1],
                 '<=': v[1] <= w[1], '>=': v[1] >= w[1]}[op]
            return [(r, st)]
        if op in ('==', '!='):
            for x, y in ((v, w), (w, v)):
                if y == NULL or (y == I0 and x[0] in ('obj', 'imm', 'null', 'file', 'buf', 'nn') and x[0] != 'nn'):
                    if x[0] == 'top':
                        break
                    out = []
                    for b, s in self.isnull(st, x):
                        out += res(not b, s)
                    return out
            for x, y in ((v, w), (w, v)):
                if x[0] == 'obj' and y[0] == 'imm':
                    o = st.objs.get(x[1])
                    if o is not None and o.null == 'null':
                        return res(False, st)
                    if o is not None and o.null == 'maybe':
                        a = st.copy()
                        a.objs[x[1]] = o._replace(null='null')
                        b = st
                        b.objs[x[1]] = o._replace(null='nn')
                        return res(False, a) + [r for t, s in self.fork_fact(b, x[1], 'is:' + y[1]) for r in res(t, s)]
                    return [r for t, s in self.fork_fact(st, x[1], 'is:' + y[1]) for r in res(t, s)]
                if x[0] == 'typeof' and y[0] == 'imm':
                    return [r for t, s in self.typetest(st, x[1], y[1], True) for r in res(t, s)]
                if x[0] == 'null' and y[0] == 'imm':
                    return res(False, st)
                if x[0] == 'fd' and y[0] == 'int' and y[1] < 0:
                    return res(False, st)
            if v[0] == 'obj' and w[0] == 'obj' and v[1] == w[1]:
                return res(True, st)
            if v[0] == 'imm' and w[0] == 'imm':
                return res(v[1] == w[1], st)
            if {v[0], w[0]} & {'nn'} and I0 in (v, w):
                return res(False, st)
            for x, y, ex in ((v, w, ea), (w, v, eb)):
                if x[0] == 'trunc' and y[0] in ('rng', 'trunc') and y[3] == x[3]:
                    a, b = st.copy(), st
                    for kk, val in list(a.env.items()):
                        if val[0] in ('trunc', 'rng') and val[3] == x[3]:
                            a.env[kk] = ('rng', x[1], x[2], x[3])
                    return res(True, a) + res(False, b)
        for x, o in ((v, op), (w, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
            if x == ('fwok',):
                y = w if x is v else v
                if y == I0:
                    return [(o in ('>', '>=', '!='), st)]
                if y[0] == 'int' and y[1] < 0:
                    return [(o in ('>', '>=', '!='), st)]
                return [(o in ('==', '<=', '>='), st)]
            if x == ('fwbad',):
                y = w if x is v else v
                if y[0] == 'int' and y[1] <= 0:
                    return [(True, st.copy()), (False, st)]
                return [(o in ('!=', '<', '<='), st)]
        if v[0] == 'fd' and w[0] == 'int':
            lo = {'<': w[1] - 1, '>=': w[1] - 1, '<=': w[1], '>': w[1]}.get(op)
            if lo is not None and lo < 0:
                return [(op in ('>=', '>'), st)]
        # intervals
        for x, y, ex, o in ((v, w, ea, op), (w, v, eb, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
            if x[0] in ('rng', 'trunc') and y[0] == 'int':
                n, lo, hi = y[1], x[1], x[2]
                parts = {'<': ((lo, min(hi, n - 1)), (max(lo, n), hi)), '>': ((max(lo, n + 1), hi), (lo, min(hi, n))),
                         '<=': ((lo, min(hi, n)), (max(lo, n + 1), hi)), '>=': ((max(lo, n), hi), (lo, min(hi, n - 1))),
                         '==': ((max(lo, n), min(hi, n)), (lo + (lo == n), hi - (hi == n))),
                         '!=': ((lo + (lo == n), hi - (hi == n)), (max(lo, n), min(hi, n)))}[o]
                out = []
                kk = self.lvkey(ex, st)
                for t, (l2, h2) in ((True, parts[0]), (False, parts[1])):
                    if l2 > h2:
                        continue
                    s = st.copy()
                    for q, val in list(s.env.items()):
                        if q == kk or (val[0] == x[0] == 'rng' and val[3] == x[3] and val[1:3] == x[1:3]):
                            if val[0] == x[0]:
                                s.env[q] = (val[0], l2, h2) + val[3:]
                    if x[0] == 'rng':
                        self.relate(s)
                    out.append((t, s))
                return out
        if v[0] == 'rng' and w[0] == 'rng':
            swap = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
            neg = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}

            def cut(x, y, o):
                lo, hi = x[1], x[2]
                if o == '<': hi = min(hi, y[2] - 1)
                elif o == '<=': hi = min(hi, y[2])
                elif o == '>': lo = max(lo, y[1] + 1)
                elif o == '>=': lo = max(lo, y[1])
                elif o == '==': lo, hi = max(lo, y[1]), min(hi, y[2])
                return ('rng', lo, hi) + x[3:]
            out = []
            for t, o in ((True, op), (False, neg[op])):
                v2, w2 = cut(v, w, o), cut(w, v, swap[o])
                if v2[1] > v2[2] or w2[1] > w2[2]:
                    continue
                s = st.copy()
                for q, val in list(s.env.items()):
                    if val == v:
                        s.env[q] = v2
                    elif val == w:
                        s.env[q] = w2
                if o in ('<', '<='):
                    s.env[('rel', v[3], w[3])] = I1
                elif o in ('>', '>='):
                    s.env[('rel', w[3], v[3])] = I1
                out.append((t, s))
            return out
        if v == TOP or w == TOP:
            kk = self.lvkey(ea, st)
            if kk is not None and v == TOP and w[0] == 'int' and op in ('==', '!=') and kk in st.env:
                a, b = st.copy(), st
                a.env[kk] = w
                if w == I0:
                    b.env[kk] = NN
                return res(True, a) + res(False, b)
        return [(True, st.copy()), (False, st)]

    def relate(self, s):
        """propagate bounds along the recorded a <= b facts"""
        rels = [k for k in s.env if isinstance(k, tuple) and k[0] == 'rel']
        if not rels:
            return
        for _ in range(3):
            b = {}
            for v in s.env.values():
                if v[0] == 'rng':
                    lo, hi = b.get(v[3], (v[1], v[2]))
                    b[v[3]] = (max(lo, v[1]), min(hi, v[2]))
            for _k, x, y in rels:
                if x in b and y in b:
                    b[x] = (b[x][0], min(b[x][1], b[y][1]))
                    b[y] = (max(b[y][0], b[x][0]), b[y][1])
            for q, v in list(s.env.items()):
                if v[0] == 'rng' and b[v[3]] != v[1:3] and b[v[3]][0] <= b[v[3]][1]:
                    s.env[q] = ('rng',) + b[v[3]] + v[3:]

    def typetest(self, st, oid, tname, exact):
        o = st.objs.get(oid)
        if o is None:
            return [(True, st.copy()), (False, st)]
        if tname in ('PySetset_Type', 'PySetsetIter_Type'):
            f = 'setset' if tname == 'PySetset_Type' else 'setsetiter'
        elif tname in ('PySet_Type', 'PyFrozenSet_Type'):
            f = 't:' + tname
        else:
            f = 't:' + TYPEOBJ.get(tname, tname)
        if exact:
            k = self.fact(st, oid, 'x:' + f)
            if k is None and self.fact(st, oid, f) is False:
                k = False
            if k is not None:
                return [(k, st)]
            a, b = st.copy(), st
            a.objs[oid] = o._replace(facts=o.facts | {'x:' + f, f})
            b.objs[oid] = o._replace(facts=o.facts | {'!x:' + f})
            return [(True, a), (False, b)]
        return self.fork_fact(st, oid, f)

    # -- calls ----------------------------------------------------------------------------
    STDTHROW = ('at', 'stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stod', 'stof', 'substr', 'value', 'get', 'any_cast')

    def throws(self, e, fn):
        """may the call end in an exception other than the exhaustion of memory?"""
        if fn.startswith(('std::', '__gnu_cxx::')) or (not e.get('repo') and fn.startswith('operator')):
            return fn.split('::')[-1].split('<')[0] in self.STDTHROW
        return bool('::' in fn or e.get('repo') or fn.startswith('operator'))

    def maythrow(self, st):
        if self.tryd > 0:
            self.thr.append(st.copy())

    def argexprs(self, e):
        c = [x for x in (e.get('c') or [])]
        if e['k'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'):
            return c[0], c[1:]
        return None, c

    def nogil(self, st, e, name, repo=False):
        if not st.gil:
            self.stats['nogil'].add((self.stack[-1]['name'], e['l'], name))
            if name.split('::')[-1] not in NOGIL_OK:
                self.report('C05', 'call-without-lock', e['l'], '%s is called while the interpreter lock is released' % name, name, st)

    def call(self, e, st):
        fn = e.get('fn')
        ce, args = self.argexprs(e)
        if fn is None:
            return self.call_indirect(e, ce, args, st)
        mg = e.get('mg') or fn
        if fn == '__builtin_expect':
            return self.ev(args[0], st)
        if fn in ('Py_TYPE',):
            out = []
            for v, s in self.rv(args[0], st):
                self.use(s, v, e['l'], 'Py_TYPE')
                out.append((('typeof', v[1]) if v[0] == 'obj' else TOP, s))
            return out
        h = getattr(self, 'f_' + fn, None)
        if h is not None and not (mg in self.byname and fn not in ('PySetset_Check',)):
            return self.with_args(e, args, st, h)
        if fn in API:
            return self.with_args(e, args, st, self.api_call)
        if mg in self.py and mg in self.byname:
            return self.inline(self.byname[mg], e, args, st, ce)
        if re.match(r'_?Py[A-Z]', fn) and '::' not in fn:
            self.stats['unmodelled'].add(fn)
            return self.with_args(e, args, st, self.api_unknown)
        return self.opaque(e, fn, ce, args, st)

    def with_args(self, e, args, st, h):
        out = []
        self.stats['api_calls'].add((self.stack[-1]['name'], e['l'], e['i']))
        for vs, s in self.evs(args, st):
            vs = [self.load(s, v, e['l']) if v[0] in ('lv', 'flv', 'glv') else v for v in vs]
            if not s.gil and e['fn'] not in ('PyEval_RestoreThread', 'PyEval_SaveThread', 'PyEval_AcquireThread'):
                self.nogil(s, e, e['fn'])
            out += h(e, vs, s)
        return out

    def opaque(self, e, fn, ce, args, st):
        """C++ or libc function without a model: no effect on Python state"""
        out = []
        es = ([ce] if ce is not None and ce['k'] == 'MemberExpr' else []) + args
        for vs, s in self.evs(es, st):
            self.nogil(s, e, fn)
            for v0, a in zip(vs, es):
                v = self.load(s, v0, e['l']) if v0[0] in ('lv', 'flv', 'glv') else v0
                if v[0] == 'addr' and e.get('repo') is not None:
                    pass
                self.sink(s, v, e['l'], fn.split('<')[0].split('::')[-1])
                if v[0] == 'obj':
                    self.escape(s, v)
                if v[0] == 'buf':
                    self.use(s, v, e['l'], fn.split('<')[0].split('::')[-1])
                if v == UNINIT and v0[0] != 'lv':
                    self.report('C19', 'uninit', e['l'], 'an uninitialised value is passed to %s' % fn, fn, s)
                if v[0] == 'null' and '::' in fn:
                    pt = e.get('pt') or []
                    idx = es.index(a) - (len(es) - len(args))
                    t = pt[idx] if 0 <= idx < len(pt) else ''
                    if t.replace(' const', '').replace('const ', '').strip() == 'char *' and e.get('repo') is None:
                        self.use(s, v, e['l'], fn.split('<')[0])
                if v[0] == 'file':
                    self.file_passed(s, v, e, fn)
                # out-parameters: anything reachable through a pointer or reference may change
                if v0[0] == 'addr' or (v0[0] == 'lv' and a['k'] != 'ImplicitCastExpr' and a.get('lv')):
                    kk = v0[1]
                    cur = s.env.get(kk)
                    pt = e.get('pt') or []
                    idx = es.index(a) - (len(es) - len(args))
                    t = pt[idx] if 0 <= idx < len(pt) else ''
                    if cur is not None and cur[0] not in ('obj', 'file', 'fd') and not t.startswith('const ') and ('*' in t or '&' in t):
                        s.env[kk] = TOP
            if not e.get('nothrow') and self.throws(e, fn):
                self.maythrow(s)
            if e.get('noreturn'):
                continue
            out.append((TOP, s))
        return out

    def construct(self, e, st):
        fn = e.get('fn') or 'constructor'
        out = []
        args = [x for x in (e.get('c') or []) if x]
        for vs, s in self.evs(args, st):
            if not s.gil:
                self.nogil(s, e, fn)
            for v in vs:
                v = self.load(s, v, e['l']) if v[0] in ('lv', 'flv', 'glv') else v
                self.sink(s, v, e['l'], fn.split('<')[0].split('::')[-1])
                self.escape(s, v)
                if v[0] == 'buf' or (v[0] == 'null' and 'basic_string' in fn):
                    self.use(s, v, e['l'], 'string construction')
            if not e.get('nothrow') and vs and self.throws(e, fn):
                self.maythrow(s)
            out.append((TOP, s))
        return out

    def call_indirect(self, e, ce, args, st):
        out = []
        for cv, s0 in self.ev(ce, st):
            if cv[0] in ('flv', 'lv', 'glv'):
                cv = self.load(s0, cv, e['l'])
            for vs, s in self.evs(args, s0):
                vs = [self.load(s, v, e['l']) if v[0] in ('lv', 'flv', 'glv') else v for v in vs]
                if cv[0] == 'fn' and cv[1] in self.byname and cv[1] in self.py:
                    out += self.inline_vals(self.byname[cv[1]], e, vs, s)
                    continue
                slot = cv[2] if cv[0] == 'slot' else None
                if slot in ALLOC_MEMBERS:
                    out += self.alloc(e, s, cv[1], 'null', slot)
                    continue
                if slot in FREE_MEMBERS:
                    self.free(e, s, vs[0] if vs else TOP)
                    out.append((TOP, s))
                    continue
                if slot:
                    self.stats['unmodelled'].add(slot)
                    for v in vs:
                        self.escape(s, v)
                    s2 = s.copy()
                    s2.err = True
                    out += [(TOP, s)]
                    continue
                for v in vs:
                    self.escape(s, v)
                    self.sink(s, v, e['l'], 'an indirect call')
                self.nogil(s, e, 'an indirect call')
                self.maythrow(s)
                out.append((TOP, s))
        return out

    def typefacts(self, st, tv):
        if tv == ('imm', 'PySetset_Type'):
            return {'setset', 'x:setset'}
        if tv == ('imm', 'PySetsetIter_Type'):
            return {'setsetiter'}
        if tv[0] == 'typeof':
            o = st.objs.get(tv[1])
            if o is not None:
                return {f for f in o.facts if f in ('setset', 'setsetiter')}
        if tv[0] == 'obj':
            o = st.objs.get(tv[1])
            if o is not None and 'typeobj:setset' in o.facts:
                return {'setset'}
            if o is not None and 'typeobj:setsetiter' in o.facts:
                return {'setsetiter'}
        return {'unknown-type'}

    def alloc(self, e, st, tv, fld, what):
        self.stats['acquire'].add((self.stack[-1]['name'], e['l'], what))
        if tv[0] == 'typeof':
            self.use(st, tv, e['l'], what)
        f = st.copy()
        f.err = True
        f.trail = '%s fails at line %d' % (what, e['l'])
        v = self.new_obj(st, e, 'new' if fld == 'null' else 'raw', 1, None, self.typefacts(st, tv), fld, what)
        return [(v, st), (NULL, f)]

    def free(self, e, st, v):
        """the memory of an object is returned to the allocator"""
        if v[0] == 'obj' and v[1] in st.objs:
            o = st.objs[v[1]]
            if o.kind == 'dealloc':
                st.objs[v[1]] = o._replace(own=o.own - 1)
                if o.own < 1:
                    self.report('C01', 'double-free', e['l'], 'the object is freed twice', '', st)
            elif o.own < 1:
                self.report('C01', 'double-free', e['l'], '%s is freed after it was already released' % (o.desc or 'an object'), o.desc, st)
            elif o.own >= ESC:
                pass
            else:
                if o.own > 1:
                    self.report('C01', 'free-shared', e['l'], 'an object with other owned references is freed', o.desc, st)
                st.objs[v[1]] = o._replace(own=0)

    # python API -------------------------------------------------------------------
    def fail(self, st, e, what, v):
        f = st.copy()
        f.err = True
        f.trail = '%s fails at line %d' % (what, e['l'])
        return (v, f)

    def api_unknown(self, e, vs, st):
        for v in vs:
            self.escape(st, v)
        t = e.get('ty') or ''
        out = [(TOP, st)]
        if '_object' in t:
            v = self.new_obj(st, e, 'unk', 0, None, (), '', e['fn'])
            out = [(v, st), self.fail(st, e, e['fn'], NULL)]
        return out

    def api_call(self, e, vs, st):
        fn = e['fn']
        res, canfail, nn = API[fn]
        L = e['l']
        for i in nn:
            if i < len(vs) and vs[i][0] in ('obj', 'null', 'uninit'):
                if not self.use(st, vs[i], L, fn):
                    return []
        for v in vs:
            if v[0] == 'buf':
                self.use(st, v, L, fn)
        a0 = vs[0] if vs else TOP
        out = []

        def bfail(v):
            return [self.fail(st, e, fn, v)] if canfail else []
        if res == 'new':
            if fn in ('PyTuple_Pack', 'Py_BuildValue'):
                for v in vs:
                    pass
            fl = bfail(NULL)
            facts = {'PyList_New': {'t:list'}, 'PyTuple_New': {'t:tuple'}, 'PyDict_New': {'t:dict'}, 'PySet_New': {'t:anyset'},
                     'PyObject_Repr': {'t:str'}, 'PyObject_Str': {'t:str'}, 'PyNumber_Float': {'t:float'}, 'PyNumber_Index': {'t:int'},
                     'PyNumber_Long': {'t:int'}, 'PySequence_Tuple': {'t:tuple'}, 'PySequence_List': {'t:list'}}.get(fn, set())
            if fn.startswith('PyLong_From'):
                facts = {'t:int'}
            self.stats['acquire'].add((self.stack[-1]['name'], L, fn))
            return [(self.new_obj(st, e, 'new', 1, None, facts, '', fn), st)] + fl
        if res == 'borrow0':
            p = a0[1] if a0[0] == 'obj' else None
            return [(self.new_obj(st, e, 'borrow', 0, p, (), '', fn) if p else ('obj', self.unk(st, e, fn)), st)]
        if res in ('borrow0null', 'borrow0nullerr'):
            p = a0[1] if a0[0] == 'obj' else None
            s2 = st.copy()
            out = [(NULL, s2)]
            if res == 'borrow0nullerr':
                out.append(self.fail(st, e, fn, NULL))
            return out + [(self.new_obj(st, e, 'borrow', 0, p, (), '', fn) if p else ('obj', self.unk(st, e, fn)), st)]
        if res == 'nonneg':
            return [(('top',), st)]
        if res in ('ssize',):
            return [(TOP, st)] + bfail(('int', -1))
        if res == 'int3':
            fl = bfail(('int', -1))
            return [(I0, st.copy()), (I1, st)] + fl if fn not in ('PyType_Ready', 'PyErr_WarnEx', 'PyErr_CheckSignals') else [(I0, st)] + fl
        if res in ('store0', 'store0b', 'store0c'):
            i = {'store0': [1], 'store0b': [1, 2], 'store0c': [2]}[res]
            fl = bfail(('int', -1))
            for j in i:
                if j < len(vs) and vs[j][0] in ('obj', 'null'):
                    if not self.use(st, vs[j], L, fn):
                        return []
                    if a0[0] == 'obj' and vs[j][0] == 'obj' and vs[j][1] in st.objs and vs[j][1] != a0[1]:
                        o = st.objs[vs[j][1]]
                        if o.parent is None:
                            st.objs[vs[j][1]] = o._replace(parent=a0[1])
            return [(I0, st)] + fl
        if res in ('steal2', 'steal2v', 'steal2ok'):
            v = vs[2] if len(vs) > 2 else TOP
            fl = [self.fail(st, e, fn, ('int', -1))] if canfail else []
            states = [(I0, st)]
            if res == 'steal2' and fl:
                states.append(fl[0])      # stolen also on failure
            elif fl:
                states_f = fl[0]
            for r, s in states:
                self.steal(s, v, a0, L, fn)
            return states + ([states_f] if res == 'steal2ok' and fl else [])
        if res in ('aslong', 'asulong', 'asmask', 'aslongovf'):
            w = 32 if fn in ('PyLong_AsInt', '_PyLong_AsInt') else 64
            sym = (e['i'], self.stack[-1]['mg'], self.depth)
            if res == 'asmask':
                self.report('C04', 'masked', L, '%s reduces an integer modulo a power of two' % fn, fn, st)
            r = INTRNG[(w, res != 'aslong' and res != 'aslongovf')]
            ok = [(('rng', r[0], r[1], sym), st)]
            if res == 'aslongovf':
                if len(vs) > 1 and vs[1][0] == 'addr':
                    s2 = st.copy()
                    st.env[vs[1][1]] = I0
                    s2.env[vs[1][1]] = NN
                    ok.append((('trunc', r[0], r[1], ('ovf',) + sym, L, 999, 64), s2))
                f = self.fail(st, e, fn, ('int', -1))
                if len(vs) > 1 and vs[1][0] == 'addr':
                    f[1].env[vs[1][1]] = I0
                return ok + [f]
            return [self.fail(st, e, fn, ('int', -1))] + ok
        if res == 'asdouble':
            isf = a0[0] == 'obj' and (self.fact(st, a0[1], 't:float') is True)
            return [(TOP, st)] + ([] if isf else [self.fail(st, e, fn, TOP)])
        if res == 'topv':
            return [(TOP, st)]
        if res == 'buf0':
            fl = bfail(NULL)
            return [(('buf', a0[1]) if a0[0] == 'obj' else NN, st)] + fl
        if res == 'bufbytes':
            isb = a0[0] == 'obj' and (self.fact(st, a0[1], 't:bytes') is True)
            fl = [] if isb or fn == 'PyBytes_AS_STRING' else bfail(NULL)
            return [(('buf', a0[1]) if a0[0] == 'obj' else NN, st)] + fl
        if res == 'fd':
            fl = bfail(('int', -1))
            rid = ('fd', (self.depth, e['i'], self.stack[-1]['mg']))
            st.res[rid] = ('fd', 'borrowed', L, '')
            return [(('fd', rid), st)] + fl
        if res == 'pred':
            return [(I1, st.copy()), (I0, st)]
        if res in ('seterr', 'seterrnull'):
            st.err = True
            if fn.startswith('PyErr_SetFromErrno') or True:
                st.iof = None
            st.drop = False
            return [(NULL if res == 'seterrnull' else TOP, st)]
        if res == 'clearerr':
            if st.err:
                st.drop = True
            st.err = False
            return [(TOP, st)]
        if res == 'fetch':
            st.err = False
            st.drop = True
            return [(TOP, st)]
        if res == 'occurred':
            return [(NN if st.err else NULL, st)]
        if res == 'excmatch':
            st.drop = False
            a = st.copy()
            a.trail = (a.trail or '') + ' (matched)'
            a.env[('excmatch',)] = I1
            return [(I1, a), (I0, st)]
        return [(TOP, st)]

    def unk(self, st, e, fn):
        v = self.new_obj(st, e, 'unk', 0, None, (), '', fn)
        return v[1]

    def steal(self, st, v, cont, line, fn):
        if v[0] == 'obj' and v[1] in st.objs:
            o = st.objs[v[1]]
            if o.own >= ESC:
                return
            if o.own < 1:
                self.report('C01', 'steal-borrowed', line, '%s takes over a reference that is not owned' % fn, fn, st)
            else:
                st.objs[v[1]] = o._replace(own=o.own - 1, parent=cont[1] if cont[0] == 'obj' else None,
                                           kind='unk' if cont[0] != 'obj' else o.kind)

    # individually modelled functions ------------------------------------------------
    def _incref(self, e, vs, st, x=False):
        v = vs[0]
        if not x and not self.use(st, v, e['l'], e['fn']):
            return []
        if v[0] == 'obj' and v[1] in st.objs:
            o = st.objs[v[1]]
            if o.null == 'maybe':
                a = st.copy()
                a.objs[v[1]] = o._replace(null='null')
                st.objs[v[1]] = o._replace(null='nn', own=o.own + 1)
                return [(v, st), (v, a)]
            if o.null == 'nn' and o.own >= 6 and o.own < ESC:
                self.report('C01', 'leak-in-loop', e['l'], 'each pass of a loop adds an unreleased reference to %s' % (o.desc or 'an object'), o.desc, st)
                st.objs[v[1]] = o._replace(own=ESC)
            elif o.null == 'nn' and o.own < ESC:
                st.objs[v[1]] = o._replace(own=o.own + 1)
                self.stats['acquire'].add((self.stack[-1]['name'], e['l'], 'Py_INCREF'))
        return [(v, st)]

    def f_Py_INCREF(self, e, vs, st):
        return self._incref(e, vs, st)

    def f_Py_IncRef(self, e, vs, st):
        return self._incref(e, vs, st, True)

    def f_Py_XINCREF(self, e, vs, st):
        return self._incref(e, vs, st, True)

    def f_Py_NewRef(self, e, vs, st):
        return self._incref(e, vs, st)

    f__Py_NewRef = f_Py_NewRef

    def f_Py_XNewRef(self, e, vs, st):
        return self._incref(e, vs, st, True)

    f__Py_XNewRef = f_Py_XNewRef

    def _decref(self, e, vs, st, x=False):
        v = vs[0]
        if x and (v == NULL or (v[0] == 'obj' and v[1] in st.objs and st.objs[v[1]].null != 'nn')):
            return [(TOP, st)]
        if v == NULL or v == UNINIT:
            self.use(st, v, e['l'], e['fn'])
            return []
        if v[0] == 'obj' and v[1] in st.objs:
            o = st.objs[v[1]]
            if o.own >= ESC or o.kind == 'unk':
                return [(TOP, st)]
            if o.own < 1:
                self.report('C01', 'over-release', e['l'], 'a reference to %s is released that is not owned' % (o.desc or 'an object'), o.desc, st)
                return [(TOP, st)]
            if o.own == 1 and o.fld == 'garbage':
                self.report('C01', 'dealloc-garbage', e['l'], 'an object whose native pointer was never set is released; its destructor deletes garbage', o.desc, st)
            st.objs[v[1]] = o._replace(own=o.own - 1)
        return [(TOP, st)]

    def f_Py_DECREF(self, e, vs, st):
        return self._decref(e, vs, st)

    def f_Py_DecRef(self, e, vs, st):
        return self._decref(e, vs, st, True)

    def f_Py_XDECREF(self, e, vs, st):
        return self._decref(e, vs, st, True)

    def f_PyObject_Free(self, e, vs, st):
        self.free(e, st, vs[0])
        return [(TOP, st)]

    f_PyMem_Free = f_PyObject_Free

    def f__PyObject_New(self, e, vs, st):
        return self.alloc(e, st, vs[0], 'garbage', 'PyObject_New')

    def f_PyType_GenericAlloc(self, e, vs, st):
        return self.alloc(e, st, vs[0], 'null', 'PyType_GenericAlloc')

    def f_PyType_GenericNew(self, e, vs, st):
        return self.alloc(e, st, vs[0], 'null', 'PyType_GenericNew')

    def f_PyIter_Next(self, e, vs, st):
        v = vs[0]
        if not self.use(st, v, e['l'], 'PyIter_Next'):
            return []
        f = st.copy()
        f.err = True
        f.trail = 'PyIter_Next fails at line %d' % e['l']
        d = st.copy()
        self.stats['acquire'].add((self.stack[-1]['name'], e['l'], 'PyIter_Next'))
        return [(self.new_obj(st, e, 'new', 1, None, (), '', 'PyIter_Next'), st), (NULL, d), (NULL, f)]

    def f_PyDict_Next(self, e, vs, st):
        d = st.copy()
        if not self.use(st, vs[0], e['l'], 'PyDict_Next'):
            return []
        for i, nm in ((2, 'PyDict_Next key'), (3, 'PyDict_Next value')):
            if len(vs) > i and vs[i][0] == 'addr':
                p = vs[0][1] if vs[0][0] == 'obj' else None
                st.env[vs[i][1]] = self.new_obj(st, e, 'borrow', 0, p, (), '', nm)
        return [(I1, st), (I0, d)]

    def f_PyType_HasFeature(self, e, vs, st):
        if vs[0][0] == 'typeof' and vs[1][0] == 'int':
            b = vs[1][1].bit_length() - 1
            n = TYPEFLAGS.get(b, 'flag%d' % b)
            self.stats['casts'].add((self.stack[-1]['name'], e['l']))
            return [(I1 if t else I0, s) for t, s in self.fork_fact(st, vs[0][1], 't:' + n)]
        return [(I1, st.copy()), (I0, st)]

    f_PyType_FastSubclass = f_PyType_HasFeature

    def f_PyType_IsSubtype(self, e, vs, st):
        if vs[0][0] == 'typeof' and vs[1][0] == 'imm':
            self.stats['casts'].add((self.stack[-1]['name'], e['l']))
            return [(I1 if t else I0, s) for t, s in self.typetest(st, vs[0][1], vs[1][1], False)]
        return [(I1, st.copy()), (I0, st)]

    def _tcheck(self, e, vs, st, exact):
        if vs[0][0] in ('obj', 'null'):
            if not self.use(st, vs[0], e['l'], e['fn']):
                return []
        if vs[0][0] == 'obj' and vs[1][0] == 'imm':
            self.stats['casts'].add((self.stack[-1]['name'], e['l']))
            return [(I1 if t else I0, s) for t, s in self.typetest(st, vs[0][1], vs[1][1], exact)]
        if vs[0][0] == 'imm':
            return [(I0, st)]
        return [(I1, st.copy()), (I0, st)]

    def f_PyObject_TypeCheck(self, e, vs, st):
        return self._tcheck(e, vs, st, False)

    def f_Py_IS_TYPE(self, e, vs, st):
        return self._tcheck(e, vs, st, True)

    def f_PyObject_IsInstance(self, e, vs, st):
        if vs[0][0] == 'obj' and vs[1][0] == 'imm':
            return self._tcheck(e, vs, st, False) + [self.fail(st, e, e['fn'], ('int', -1))]
        return self.api_call(e, vs, st)

    def f_PyEval_SaveThread(self, e, vs, st):
        st.gil = False
        self.stats['nogil'].add((self.stack[-1]['name'], e['l'], 'region'))
        if self.tryd > 0:
            pass
        return [(NN, st)]

    def f_PyEval_RestoreThread(self, e, vs, st):
        st.gil = True
        return [(TOP, st)]

    def f_PyGILState_Ensure(self, e, vs, st):
        st.gil = True
        return [(TOP, st)]

    def f_PyArg_ParseTuple(self, e, vs, st):
        return self.parse(e, vs, st, 1, 2)

    f__PyArg_ParseTuple_SizeT = f_PyArg_ParseTuple

    def f_PyArg_ParseTupleAndKeywords(self, e, vs, st):
        return self.parse(e, vs, st, 2, 4)

    f__PyArg_ParseTupleAndKeywords_SizeT = f_PyArg_ParseTupleAndKeywords

    def f_PyArg_UnpackTuple(self, e, vs, st):
        f = self.fail(st, e, e['fn'], I0)
        for v in vs[4:]:
            if v[0] == 'addr':
                st.env[v[1]] = self.new_obj(st, e, 'param', 0, None, (), '', 'argument', 'maybe')
        return [(I1, st), f]

    def parse(self, e, vs, st, fi, oi):
        fmt = vs[fi][1] if len(vs) > fi and vs[fi][0] == 'str' else None
        L = e['l']
        f = self.fail(st, e, e['fn'], I0)
        if fmt is None:
            for v in vs[oi:]:
                if v[0] == 'addr':
                    st.env[v[1]] = TOP
                    f[1].env[v[1]] = TOP
            return [(I1, st), f]
        outs = [st]
        i, k, opt = 0, oi, False
        fmt = re.split('[:;]', fmt)[0]
        while i < len(fmt):
            ch = fmt[i]
            i += 1
            if ch == '|':
                opt = True
                continue
            if ch in '$()':
                continue
            mod = ''
            while i < len(fmt) and fmt[i] in '!&#*':
                mod += fmt[i]
                i += 1
            typ = None
            if mod.startswith('!'):
                typ = vs[k] if k < len(vs) else TOP
                k += 1
            elif mod.startswith('&'):
                k += 1
            dst = vs[k] if k < len(vs) else TOP
            k += 1
            if '#' in mod:
                k += 1
            if dst[0] != 'addr':
                continue
            key = dst[1]
            name = 'argument %d' % (k - oi)
            nxt = []
            for s in outs:
                cur = s.env.get(key, TOP)
                if ch in 'OSUY':
                    facts = {'S': {'t:bytes'}, 'U': {'t:str'}}.get(ch, set())
                    if typ is not None and typ[0] == 'imm':
                        facts = {'setset'} if typ[1] == 'PySetset_Type' else {'t:' + TYPEOBJ.get(typ[1], typ[1])}
                    dname = 'argument of format unit %d' % (k - oi)
                    if opt and cur == NULL:
                        s.env[key] = self.new_obj(s, e, 'param', 0, None, facts, '', dname, 'maybe')
                        nxt.append(s)
                    elif opt:
                        s2 = s.copy()
                        s.env[key] = self.new_obj(s, e, 'param', 0, None, facts, '', dname)
                        nxt += [s, s2]
                    else:
                        s.env[key] = self.new_obj(s, e, 'param', 0, None, facts, '', dname)
                        nxt.append(s)
                    continue
                if ch in 'BHIkK':
                    self.report('C04', 'unchecked-format', L, "format unit '%s' takes an integer modulo a power of two" % ch, ch + str(k - oi), s)
                if ch in 'ilLnhb':
                    w, u = {'i': (32, False), 'l': (64, False), 'L': (64, False), 'n': (64, False), 'h': (16, False), 'b': (8, True)}[ch]
                    val = ('rng',) + INTRNG[(w, u)] + ((e['i'], k, self.stack[-1]['mg']),)
                elif ch in 'sz':
                    val = NN if ch == 's' else TOP
                else:
                    val = TOP
                if opt and cur == UNINIT:
                    s2 = s.copy()
                    s.env[key] = val
                    nxt += [s, s2]
                else:
                    s.env[key] = val
                    nxt.append(s)
            outs = nxt
        return [(I1, s) for s in outs] + [f]

    # stdio ------------------------------------------------------------------------------
    def f_dup(self, e, vs, st):
        rid = ('dup', (self.depth, e['i'], self.stack[-1]['mg']))
        f = st.copy()
        f.iof = e['l']
        f.trail = 'dup fails at line %d' % e['l']
        st.res[rid] = ('fd', 'own', e['l'], '')
        self.stats['handles'].add((self.stack[-1]['name'], e['l'], 'dup'))
        return [(('fd', rid), st), (('int', -1), f)]

    def f_fcntl(self, e, vs, st):
        if len(vs) > 1 and vs[1][0] == 'int' and vs[1][1] in (0, 1030):
            return self.f_dup(e, vs, st)
        return [(TOP, st)]

    def f_fdopen(self, e, vs, st):
        v = vs[0]
        mode = vs[1][1] if len(vs) > 1 and vs[1][0] == 'str' else None
        f = st.copy()
        f.iof = e['l']
        f.trail = 'fdopen fails at line %d' % e['l']
        self.stats['handles'].add((self.stack[-1]['name'], e['l'], 'fdopen'))
        if v[0] == 'int' and v[1] < 0:
            return [(NULL, f)]
        if v[0] == 'fd' and v[1] in st.res:
            if st.res[v[1]][1] == 'borrowed':
                self.report('C06', 'adopt-borrowed', e['l'], "a stream is opened on the caller's own descriptor instead of a duplicate", '', st)
            st.res[v[1]] = ('fd', 'moved', e['l'], '')
        rid = ('file', (self.depth, e['i'], self.stack[-1]['mg']))
        st.res[rid] = ('file', 'own', e['l'], mode or '?', False, False)
        return [(('file', rid), st), (NULL, f)]

    def f_fopen(self, e, vs, st):
        mode = vs[1][1] if len(vs) > 1 and vs[1][0] == 'str' else None
        f = st.copy()
        f.iof = e['l']
        rid = ('file', (self.depth, e['i'], self.stack[-1]['mg']))
        st.res[rid] = ('file', 'own', e['l'], mode or '?', False, False)
        return [(('file', rid), st), (NULL, f)]

    def f_close(self, e, vs, st):
        v = vs[0]
        if v[0] == 'fd' and v[1] in st.res:
            r = st.res[v[1]]
            if r[1] == 'borrowed':
                self.report('C06', 'close-borrowed', e['l'], "the caller's own descriptor is closed", '', st)
            elif r[1] in ('closed', 'moved'):
                self.report('C06', 'double-close', e['l'], 'a descriptor is closed twice', '', st)
            st.res[v[1]] = (r[0], 'closed') + r[2:]
        return [(TOP, st)]

    def _written(self, e, v, st, bad):
        if v[0] != 'file' or v[1] not in st.res:
            return [(TOP, st)]
        self.file_passed(st, v, e, e['fn'], True)
        r = st.res[v[1]]
        if r[1] == 'closed':
            return [(TOP, st)]
        f = st.copy()
        f.iof = e['l']
        f.trail = '%s fails at line %d' % (e['fn'], e['l'])
        st.res[v[1]] = r[:4] + (r[4] or 'ok', r[5])
        f.res[v[1]] = r[:4] + ('bad', True)
        return [(('fwok',), st), (bad, f)]

    def f_fwrite(self, e, vs, st):
        return self._written(e, vs[3], st, ('fwbad',))

    def f_fputs(self, e, vs, st):
        return self._written(e, vs[1], st, ('int', -1))

    f_fputc = f_putc = f_fputs

    def f_fprintf(self, e, vs, st):
        return self._written(e, vs[0], st, ('int', -1))

    f_vfprintf = f_fprintf

    def f_write(self, e, vs, st):
        v = vs[0]
        if v[0] != 'fd' or v[1] not in st.res:
            return [(TOP, st)]
        f = st.copy()
        f.iof = e['l']
        f.trail = 'write fails at line %d' % e['l']
        return [(TOP, st), (('int', -1), f)]

    def f_fclose(self, e, vs, st):
        v = vs[0]
        if not st.gil:
            pass
        if v == NULL:
            self.report('C06', 'null-stream', e['l'], 'fclose is called with NULL', '', st)
            return []
        if v[0] == 'file' and v[1] in st.res:
            r = st.res[v[1]]
            if r[1] == 'closed':
                self.report('C06', 'double-close', e['l'], 'a stream is closed twice', '', st)
            wrote, checked = r[4], r[5]
            if wrote == 'bad':   # the error indicator does not survive the close
                st.res[v[1]] = (r[0], 'closed') + r[2:4] + (False, False)
                f = st.copy()
                return [(I0, st), (('int', -1), f)]
            st.res[v[1]] = (r[0], 'closed') + r[2:4] + (False, False)
            f = st.copy()
            f.trail = 'fclose fails at line %d' % e['l']
            if wrote:
                f.iof = e['l']
                f.env[('iow',)] = I1
            if wrote is True and not checked:
                st.env[('unchecked-write',)] = ('int', e['l'])
            return [(I0, st), (('int', -1), f)]
        return [(TOP, st)]

    def f_ferror(self, e, vs, st):
        v = vs[0]
        if v[0] == 'file' and v[1] in st.res:
            r = st.res[v[1]]
            if r[4] == 'bad':
                return [(NN, st)]
            if not r[4]:
                return [(I0, st), (NN, st.copy())]
            f = st.copy()
            f.iof = e['l']
            f.trail = 'ferror reports a write error at line %d' % e['l']
            st.res[v[1]] = r[:5] + (True,)
            f.res[v[1]] = r[:5] + (True,)
            return [(I0, st), (NN, f)]
        return [(TOP, st)]

    def f_fflush(self, e, vs, st):
        v = vs[0]
        if v[0] == 'file':
            if v[1] in st.res and st.res[v[1]][4] == 'bad':
                return [(TOP, st)]
            f = st.copy()
            f.iof = e['l']
            f.trail = 'fflush fails at line %d' % e['l']
            return [(I0, st), (('int', -1), f)]
        return [(TOP, st)]

    def file_passed(self, st, v, e, fn, tested=False):
        r = st.res.get(v[1])
        if r is None:
            return
        if r[1] == 'closed':
            self.report('C06', 'use-after-close', e['l'], '%s uses a stream after it was closed' % fn, fn, st)
            return
        eff = self.iodir.get(e.get('mg') or fn) or self.iodir.get(fn) or set()
        if fn in ('fprintf', 'fputs', 'fputc', 'fwrite', 'putc', 'vfprintf'):
            eff = {'w'}
        if fn in ('fscanf', 'fgets', 'fgetc', 'fread', 'getc', 'getline'):
            eff = {'r'}
        self.stats['handles'].add((self.stack[-1]['name'], e['l'], fn))
        m = r[3]
        if 'w' in eff:
            if m[:1] == 'r' and '+' not in m:
                self.report('C06', 'wrong-direction', e['l'], '%s writes to a stream opened with mode "%s"' % (fn, m), fn, st)
            if not tested:
                st.res[v[1]] = r[:4] + ('bad' if r[4] == 'bad' else True, False)
        if 'r' in eff and m[:1] in ('w', 'a') and '+' not in m:
            self.report('C06', 'wrong-direction', e['l'], '%s reads from a stream opened with mode "%s"' % (fn, m), fn, st)

    # inlining -----------------------------------------------------------------------------
    def inline(self, f, e, args, st, ce=None):
        out = []
        refs = [('&' in p['ty']) for p in f['params']]
        for vs, s in self.evs(args, st):
            vals = []
            for i, v in enumerate(vs):
                if i < len(refs) and refs[i]:
                    vals.append(v)
                else:
                    vals.append(self.load(s, v, e['l']) if v[0] in ('lv', 'flv', 'glv') else v)
            out += self.inline_vals(f, e, vals, s)
        return out

    def inline_vals(self, f, e, vals, st):
        if not st.gil:
            self.nogil(st, e, f['name'])
        if self.depth > 12 or sum(1 for g in self.stack if g is f) > 2:
            for v in vals:
                self.escape(st, v)
            return [(TOP, st)]
        self.stats['inlined'].add(f['name'])
        self.depth += 1
        self.stack.append(f)
        for i, p in enumerate(f['params']):
            v = vals[i] if i < len(vals) else TOP
            key = (self.depth, p['d'])
            if '&' in p['ty'] and v[0] in ('lv', 'flv'):
                st.env[key] = ('ref', v)
            else:
                st.env[key] = v if v[0] not in ('flv', 'glv') else TOP
        o = self.exec(f['body'], st)
        res = []
        thr = o.thr
        for v, s in o.ret + [(TOP, s) for s in o.n]:
            res.append((v, s))
        for s in [x[1] for x in res] + thr:
            for k in [k for k in s.env if k[0] == self.depth]:
                del s.env[k]
        self.stack.pop()
        self.depth -= 1
        self.thr += thr
        return dedupe_v(res)

    # -- statements ------------------------------------------------------------------------
    def exec(self, n, st):
        return self.exec_many(n, [st])

    def exec_many(self, n, sts):
        o = Outcome()
        if n is None:
            o.n = list(sts)
            return o
        m = getattr(self, 'x_' + n['k'], None)
        for st in sts:
            if m:
                o.absorb(m(n, st))
            else:
                save, self.thr = self.thr, []
                o.n += [s for _, s in self.ev(n, st)]
                o.thr += self.thr
                self.thr = save
        o.n = dedupe(o.n)
        self.stats['states'] += len(o.n)
        if len(o.n) > self.MAXST:
            raise AnalysisBroken('state explosion in %s line %d' % (self.stack[-1]['name'], n['l']))
        return o

    def x_CompoundStmt(self, n, st, start=0):
        o = Outcome()
        kids = n.get('c') or []
        labels = {}
        for i, c in enumerate(kids):
            x = c
            while x is not None and x['k'] in ('LabelStmt', 'CaseStmt', 'DefaultStmt'):
                if x['k'] == 'LabelStmt':
                    labels[x['label']] = i
                x = x['c'][-1] if x.get('c') else None
        pend = [(start, [st])]
        seen = {}
        while pend:
            i0, cur = pend.pop()
            for i in range(i0, len(kids)):
                if not cur:
                    break
                r = self.exec_many(kids[i], cur)
                o.absorb(r, n=False)
                gt = [(l, s) for l, s in o.goto if l in labels]
                if gt:
                    o.goto = [(l, s) for l, s in o.goto if l not in labels]
                    for l, s in gt:
                        k = (l, s.key())
                        if k not in seen:
                            seen[k] = 1
                            pend.append((labels[l], [s]))
                cur = r.n
                if self.depth == 0:
                    for s in cur:
                        self.prune(s)
            o.n += cur
        # locals of this block go out of scope
        ds = set()
        for c in kids:
            if c is not None and c['k'] == 'DeclStmt':
                for v in c['c']:
                    if v['k'] == 'VarDecl':
                        ds.add(v['d'])
        if ds and n is not self.stack[-1]['body']:
            for s in o.n + o.brk + o.cont:
                for k in [k for k in s.env if len(k) > 1 and k[0] == self.depth and k[1] in ds]:
                    del s.env[k]
        return o

    def prune(self, s):
        held = set(v[1] for v in s.env.values() if len(v) > 1 and v[0] in ('obj', 'buf', 'typeof', 'ssp'))
        par = set(o.parent for k, o in s.objs.items() if k in held or o.own > 0)
        par |= set(s.objs[p].parent for p in par if p in s.objs)
        for k in [k for k, o in s.objs.items() if o.own == 0 and k not in held and k not in par and o.kind not in ('param', 'dealloc')]:
            del s.objs[k]

    def x_DeclStmt(self, n, st):
        o = Outcome()
        save, self.thr = self.thr, []
        cur = [st]
        for v in n['c']:
            if v['k'] != 'VarDecl':
                continue
            key = (self.depth, v['d'])
            nxt = []
            init = (v.get('c') or [None])[0]
            scalar = v.get('w') is not None or '*' in v['ty'] or v['ty'] in ('double', 'float', 'bool')
            for s in cur:
                if v.get('static'):
                    s.env[key] = TOP
                    nxt.append(s)
                elif init is None:
                    s.env[key] = UNINIT if scalar and not v.get('asize') else TOP
                    nxt.append(s)
                elif v.get('isref'):
                    for x, s2 in self.ev(init, s):
                        s2.env[key] = ('ref', x) if x[0] in ('lv', 'flv') else (x if x[0] not in ('glv',) else TOP)
                        nxt.append(s2)
                else:
                    for x, s2 in self.rv(init, s):
                        s2.env[key] = x if scalar or x[0] in ('obj',) else TOP
                        nxt.append(s2)
            cur = nxt
        o.n = cur
        o.thr = self.thr
        self.thr = save
        return o

    def _truth(self, e, st, o):
        save, self.thr = self.thr, []
        r = self.truth(e, st)
        o.thr += self.thr
        self.thr = save
        t = dedupe([s for b, s in r if b])
        f = dedupe([s for b, s in r if not b])
        return t, f

    def x_IfStmt(self, n, st):
        o = Outcome()
        c = n['c']
        pre = n.get('pre', 0)
        cur = [st]
        for i in range(pre):
            r = self.exec_many(c[i], cur)
            o.absorb(r, n=False)
            cur = r.n
        for s in cur:
            t, f = self._truth(c[pre], s, o)
            if t:
                o.absorb(self.exec_many(c[pre + 1], t))
            if f:
                if n.get('else') and len(c) > pre + 2:
                    o.absorb(self.exec_many(c[pre + 2], f))
                else:
                    o.n += f
        return o

    def loop(self, o, sts, cond, body, inc, do=False, preds=()):
        seen = set()
        work = list(sts)
        first = do
        rounds = 0
        while work:
            rounds += 1
            if rounds > 400:
                raise AnalysisBroken('loop does not stabilise in %s line %d' % (self.stack[-1]['name'], body['l'] if body else 0))
            fresh = []
            for s in work:
                k = s.key()
                if k not in seen or first:
                    if not first:
                        seen.add(k)
                    fresh.append(s)
            work = []
            enter = []
            for s in fresh:
                cs = [s]
                for p in preds:
                    r = self.exec_many(p, cs)
                    o.absorb(r, n=False)
                    cs = r.n
                for s1 in cs:
                    if first or cond is None:
                        enter.append(s1)
                        if cond is None and not first and preds == ('range',):
                            pass
                    else:
                        t, f = self._truth(cond, s1, o)
                        enter += t
                        o.n += f
            first = False
            if not enter:
                break
            r = self.exec_many(body, dedupe(enter))
            o.absorb(r, n=False, loop=False)
            o.n += r.brk
            nx = dedupe(r.n + r.cont)
            if inc is not None:
                r2 = self.exec_many(inc, nx)
                o.absorb(r2, n=False)
                nx = r2.n
            work = nx
        o.n = dedupe(o.n)
        return o

    def x_WhileStmt(self, n, st):
        c = n['c']
        pre = n.get('pre', 0)
        return self.loop(Outcome(), [st], c[pre], c[pre + 1], None, preds=tuple(c[:pre]))

    def x_DoStmt(self, n, st):
        return self.loop(Outcome(), [st], n['c'][1], n['c'][0], None, do=True)

    def x_ForStmt(self, n, st):
        c = n['c']
        o = Outcome()
        r = self.exec_many(c[0], [st])
        o.absorb(r, n=False)
        preds = (c[1],) if c[1] is not None else ()
        return self.loop(o, r.n, c[2], c[4], c[3], preds=preds)

    def x_CXXForRangeStmt(self, n, st):
        o = Outcome()
        c = n['c']
        cur = [st]
        for x in c[:2]:
            if x is not None:
                r = self.exec_many(x, cur)
                o.absorb(r, n=False)
                cur = r.n
        seen = set()
        out = list(cur)
        work = cur
        for rnd in range(200):
            work = [s.copy() for s in work if s.key() not in seen]
            for s in work:
                seen.add(s.key())
            if not work:
                break
            for s in work:
                s.env[(self.depth, n['var'])] = TOP
            r = self.exec_many(c[-1], work)
            o.absorb(r, n=False, loop=False)
            work = dedupe(r.n + r.cont)
            out += r.brk + [s.copy() for s in work]
        o.n = dedupe(out)
        return o

    def x_ReturnStmt(self, n, st):
        o = Outcome()
        save, self.thr = self.thr, []
        c = [x for x in (n.get('c') or []) if x]
        if c:
            isref = '&' in (self.stack[-1].get('ret') or '')
            for v, s in (self.ev(c[0], st) if isref else self.rv(c[0], st)):
                o.ret.append((v, s))
        else:
            o.ret.append((TOP, st))
        o.thr = self.thr
        self.thr = save
        o.ret = dedupe_v(o.ret)
        return o

    def x_BreakStmt(self, n, st):
        o = Outcome()
        o.brk = [st]
        return o

    def x_ContinueStmt(self, n, st):
        o = Outcome()
        o.cont = [st]
        return o

    def x_NullStmt(self, n, st):
        o = Outcome()
        o.n = [st]
        return o

    def x_GotoStmt(self, n, st):
        o = Outcome()
        o.goto = [(n['label'], st)]
        return o

    def x_LabelStmt(self, n, st):
        return self.exec(n['c'][-1], st)

    def x_AttributedStmt(self, n, st):
        return self.exec(n['c'][-1], st)

    x_CaseStmt = x_LabelStmt
    x_DefaultStmt = x_LabelStmt

    def x_SwitchStmt(self, n, st):
        o = Outcome()
        c = n['c']
        pre = n.get('pre', 0)
        cur = [st]
        for i in range(pre):
            r = self.exec_many(c[i], cur)
            o.absorb(r, n=False)
            cur = r.n
        body = c[pre + 1]
        save, self.thr = self.thr, []
        vals = []
        for s in cur:
            vals += self.rv(c[pre], s)
        o.thr += self.thr
        self.thr = save
        kids = body.get('c') or []
        entries = []
        for i, k in enumerate(kids):
            x = k
            while x is not None and x['k'] in ('CaseStmt', 'DefaultStmt', 'LabelStmt'):
                if x['k'] == 'CaseStmt':
                    cv = x['c'][0].get('cv')
                    if cv is None:
                        for q in walk(x['c'][0]):
                            if 'cv' in q:
                                cv = q['cv']
                                break
                    entries.append((int(cv) if cv is not None else None, i))
                elif x['k'] == 'DefaultStmt':
                    entries.append(('default', i))
                x = x['c'][-1] if x.get('c') else None
        hasdef = any(a == 'default' for a, _ in entries)
        for v, s in vals:
            tgt = []
            if v[0] == 'int':
                tgt = [i for a, i in entries if a == v[1]]
                if not tgt:
                    tgt = [i for a, i in entries if a == 'default']
                    if not tgt:
                        o.n.append(s)
            else:
                tgt = sorted(set(i for _, i in entries))
                if not hasdef:
                    o.n.append(s.copy())
            for i in tgt:
                r = self.x_CompoundStmt(body, s.copy(), i)
                o.absorb(r, n=True, loop=False)
                o.n += r.brk
                o.cont += r.cont
        o.n = dedupe(o.n)
        return o

    def x_CXXTryStmt(self, n, st):
        o = Outcome()
        c = n['c']
        self.tryd += 1
        r = self.exec(c[0], st)
        self.tryd -= 1
        thr = dedupe(r.thr)
        r.thr = []
        o.absorb(r)
        handlers = c[1:]
        catchall = any(h['cty'] == '...' for h in handlers)
        for s in thr:
            if not s.gil:
                self.report('C05', 'exception-without-lock', n['l'],
                            'an exception can leave the stretch that runs without the interpreter lock', '', s)
                s = s.copy()
                s.gil = True
            for h in handlers:
                s2 = s.copy()
                s2.trail = 'an exception is caught at line %d' % h['l']
                if 'd' in h:
                    s2.env[(self.depth, h['d'])] = TOP
                body = [x for x in h['c'] if x and x['k'] == 'CompoundStmt']
                o.absorb(self.exec(body[-1], s2))
            if not catchall and self.tryd > 0:
                o.thr.append(s)
        return o

    # -- entry points ---------------------------------------------------------------------------
    def run_entry(self, f, role, variants):
        """variants: list of lists of parameter specs; each spec is
        (facts, null) for an object, or 'top'."""
        for params in variants:
            st = St()
            self.depth, self.stack, self.tryd, self.thr = 0, [f], 0, []
            for i, p in enumerate(f['params']):
                spec = params[i] if i < len(params) else 'top'
                key = (0, p['d'])
                if spec == 'top':
                    st.env[key] = TOP
                elif spec == 'null':
                    st.env[key] = NULL
                else:
                    facts, null, fld = spec
                    kind = 'dealloc' if role == 'dealloc' and i == 0 else 'param'
                    v = self.new_obj(st, {'i': -1 - i, 'l': f['line']}, kind, 1 if kind == 'dealloc' else 0, None, facts, fld,
                                     p['n'] or 'parameter %d' % i, null)
                    st.env[key] = v
            o = self.exec(f['body'], st)
            for v, s in dedupe_v(o.ret + [(TOP, s) for s in o.n]):
                self.check_exit(f, role, v, s)
            self.stats['exits'] += len(o.ret)

    def check_exit(self, f, role, v, st):
        L = f['line']
        ret = f['ret']
        if not st.gil:
            self.report('C05', 'return-without-lock', L, 'the call returns without the interpreter lock', '', st)
        failed = None
        if role == 'dealloc':
            for oid, o in st.objs.items():
                if o.kind == 'dealloc':
                    if o.own == 1:
                        self.report('C01', 'not-freed', L, 'the destructor does not free the object', '', st)
                    if o.fld != 'deleted' and o.fld != 'null':
                        self.report('C01', 'native-leak', L, 'the destructor does not delete the native part of the object', '', st)
            return
        if '_object' in ret or '*' in ret:
            if v[0] == 'obj' and v[1] in st.objs and st.objs[v[1]].null == 'maybe':
                st.objs[v[1]] = st.objs[v[1]]._replace(null='nn')
            failed = v == NULL or (v[0] == 'obj' and v[1] in st.objs and st.objs[v[1]].null == 'null')
            if not failed and v[0] == 'obj' and v[1] in st.objs:
                o = st.objs[v[1]]
                if not self.alive(st, v[1]):
                    self.report('C01', 'return-released', L, 'the call returns %s after releasing it' % (o.desc or 'an object'), o.desc, st)
                elif o.own < 1 and o.kind != 'unk':
                    self.report('C01', 'return-borrowed', L, 'the call returns %s without owning a reference to it' % (o.desc or 'an object'), o.desc, st)
                elif o.own < ESC:
                    st.objs[v[1]] = o._replace(own=o.own - 1)
                if o.fld in ('null', 'garbage') and o.kind in ('new', 'raw') and o.own >= 1 and ('setset' in o.facts or 'setsetiter' in o.facts):
                    self.report('C03', 'unset-pointer', L, 'a new object is returned with its native pointer unset', o.desc, st)
        elif role in ('int', 'init', 'len', 'bool', 'contains'):
            if v[0] == 'int':
                failed = v[1] == -1
            elif v[0] == 'rng' and v[1] <= -1 <= v[2]:
                failed = None
            elif st.err:
                failed = False
        if failed is True and not st.err and role != 'iternext':
            self.report('C02', 'no-exception', L, 'the call reports failure on a path that sets no exception', '', st)
        if failed is False and st.err:
            self.report('C02', 'pending-exception', L, 'the call returns a result with an exception pending', (st.trail or '').split(' at line')[0], st)
        if failed is False and st.drop and ('excmatch',) not in st.env:
            self.report('C02', 'dropped-exception', L, 'an exception is cleared and the call returns a result', '', st)
        ok = failed is False or (failed is None and not st.err)
        if ok and st.iof is not None:
            self.report('C06', 'io-failure-dropped', st.iof, 'the call succeeds although a stream operation failed', (st.trail or '').split(' at line')[0], st)
        if ok and ('unchecked-write',) in st.env:
            self.report('C06', 'write-unchecked', st.env[('unchecked-write',)][1],
                        'output was written but the stream error state is not examined before the call reports success', '', st)
        for rid, r in st.res.items():
            if r[1] == 'own':
                self.report('C06', 'handle-leak', r[2], 'a %s opened here is still open when the call returns' % ('descriptor' if r[0] == 'fd' else 'stream'), r[0], st)
        for oid, o in st.objs.items():
            if 0 < o.own < ESC and o.kind != 'dealloc':
                if o.kind == 'param':
                    self.report('C01', 'leak', o.line, 'a reference added to %s is never released' % o.desc, o.desc, st)
                else:
                    self.report('C01', 'leak', o.line, 'the reference returned by %s is not released on a path to return' % o.desc, o.desc, st)
            if o.own < 0 and o.kind == 'param':
                self.report('C01', 'over-release', o.line, 'a borrowed %s is released' % o.desc, o.desc, st)


SETSET = (frozenset({'setset'}), 'nn', 'set')
ANY = (frozenset(), 'nn', '')
MAYBE = (frozenset(), 'maybe', '')
ARGS = (frozenset({'t:tuple'}), 'nn', '')
KW = (frozenset({'t:dict'}), 'maybe', '')
METH = {1: 'VARARGS', 2: 'KEYWORDS', 4: 'NOARGS', 8: 'O', 0x10: 'CLASS', 0x20: 'STATIC', 0x80: 'FASTCALL'}


def find_fn(n):
    for x in walk(n):
        if x.get('k') == 'DeclRefExpr' and x['r'].get('k') == 'func':
            return x['r'].get('mg') or x['r']['n']
    return None


def find_str(n):
    for x in walk(n):
        if x.get('k') == 'StringLiteral':
            return x.get('v')
    return None


def int_of(n):
    if n is None:
        return None
    for x in walk(n):
        if 'cv' in x:
            return int(x['cv'])
    return None


def tables(tu, path):
    """every function the interpreter can call, with its calling convention:
    [(function mangled name, role, description, variants)]"""
    out = []
    gl = {}
    for g in tu['globals']:
        if g['file'] == path:
            gl[g['n']] = g
    meths = {}
    for n, g in gl.items():
        if 'PyMethodDef' in g['ty'] and g.get('init'):
            rows = []
            for r in g['init'].get('c') or []:
                c = r.get('c') or []
                nm = find_str(c[0]) if c else None
                fn = find_fn(c[1]) if len(c) > 1 else None
                fl = int_of(c[2]) if len(c) > 2 else 0
                if nm and fn:
                    rows.append((nm, fn, fl or 0))
            meths[n] = rows

    def refname(n):
        for x in walk(n):
            if x.get('k') == 'DeclRefExpr' and x['r'].get('k') == 'var':
                return x['r']['n']
        return None

    def fields(g):
        i = g['init']
        while i['k'] != 'InitListExpr':
            i = i['c'][0]
        fs = i.get('fields') or []
        return dict(zip(fs, i.get('c') or []))
    used = set()
    slots = {}
    for n, g in gl.items():
        if g['ty'].startswith(('_typeobject', 'PyTypeObject', 'struct _typeobject')) and g.get('init'):
            fs = fields(g)
            facts = 'setset' if n.startswith('PySetset_') else 'setsetiter'
            SELF = (frozenset({facts}), 'nn', 'set')
            TYPE = (frozenset({'typeobj:' + facts}), 'nn', '')
            nm = find_str(fs.get('tp_name')) or n
            for slot, role, var in (('tp_dealloc', 'dealloc', [[SELF]]), ('tp_new', 'obj', [[TYPE, ARGS, KW]]),
                                    ('tp_init', 'init', [[SELF, ARGS, KW]]), ('tp_repr', 'obj', [[SELF]]),
                                    ('tp_str', 'obj', [[SELF]]), ('tp_iter', 'obj', [[SELF]]),
                                    ('tp_iternext', 'iternext', [[SELF]]), ('tp_richcompare', 'obj', [[SELF, ANY, 'top']]),
                                    ('tp_hash', 'len', [[SELF]]), ('tp_call', 'obj', [[SELF, ARGS, KW]]),
                                    ('tp_getattro', 'obj', [[SELF, ANY]])):
                fn = find_fn(fs.get(slot))
                if fn:
                    out.append((fn, role, nm + '.' + slot, var))
            mt = refname(fs.get('tp_methods'))
            if mt in meths:
                used.add(mt)
                for mn, fn, fl in meths[mt]:
                    out.append(method(nm, mn, fn, fl, SELF))
            for tp in ('tp_as_number', 'tp_as_sequence', 'tp_as_mapping'):
                gn = refname(fs.get(tp))
                if gn in gl and gl[gn].get('init'):
                    for sl, node in fields(gl[gn]).items():
                        fn = find_fn(node)
                        if fn:
                            slots.setdefault(nm, {})[sl] = fn
                            out.append(slot_entry(nm, sl, fn, SELF))
            for gs in ('tp_getset',):
                gn = refname(fs.get(gs))
                if gn in gl and gl[gn].get('init'):
                    for row in gl[gn]['init'].get('c') or []:
                        c = row.get('c') or []
                        a, b = (find_fn(c[1]) if len(c) > 1 else None), (find_fn(c[2]) if len(c) > 2 else None)
                        if a:
                            out.append((a, 'obj', nm + '.get ' + str(find_str(c[0])), [[SELF, 'top']]))
                        if b:
                            out.append((b, 'int', nm + '.set ' + str(find_str(c[0])), [[SELF, MAYBE, 'top']]))
    for mt, rows in meths.items():
        if mt not in used:
            for mn, fn, fl in rows:
                out.append(method('module', mn, fn, fl, ANY))
    return out, slots, meths


def method(owner, mn, fn, fl, SELF):
    d = '%s.%s' % (owner, mn)
    if fl & 4:
        return (fn, 'obj', d, [[SELF, 'null']])
    if fl & 8:
        return (fn, 'obj', d, [[SELF, ANY]])
    if fl & 2:
        return (fn, 'obj', d, [[SELF, ARGS, KW]])
    return (fn, 'obj', d, [[SELF, ARGS]])


BINARY = {'nb_add', 'nb_subtract', 'nb_multiply', 'nb_remainder', 'nb_divmod', 'nb_lshift', 'nb_rshift', 'nb_and', 'nb_xor',
          'nb_or', 'nb_floor_divide', 'nb_true_divide', 'nb_matrix_multiply'}


def slot_entry(nm, sl, fn, SELF):
    d = '%s.%s' % (nm, sl)
    if sl in BINARY:
        # Python calls the slot of either operand's type, with the operands in order
        return (fn, 'obj', d, [[SELF, ANY], [ANY, SELF]])
    if sl.startswith('nb_inplace') or sl in ('sq_concat', 'sq_inplace_concat', 'mp_subscript'):
        return (fn, 'obj', d, [[SELF, ANY]])
    if sl in ('nb_bool', 'sq_length', 'mp_length'):
        return (fn, 'len', d, [[SELF]])
    if sl == 'sq_contains':
        return (fn, 'contains', d, [[SELF, ANY]])
    if sl == 'nb_power':
        return (fn, 'obj', d, [[SELF, ANY, ANY], [ANY, SELF, ANY]])
    return (fn, 'obj', d, [[SELF]])


def analyse(tu, path, iodir=None):
    eng = Engine(tu, path, iodir)
    ents, slots, meths = tables(tu, path)
    init = [f for f in eng.byname.values() if f['name'].startswith('PyInit_')]
    for f in init:
        ents.append((f['mg'], 'obj', f['name'], [[]]))
    done = []
    missing = []
    for fn, role, desc, variants in ents:
        f = eng.byname.get(fn)
        if f is None:
            missing.append((desc, fn))
            continue
        eng.run_entry(f, role, variants)
        done.append((desc, f['name']))
    return eng, done, missing, slots, meths


def iodir(tus):
    """which functions write to / read from the FILE* they are given"""
    eff, calls, names = {}, {}, {}
    W = {'fprintf', 'fputs', 'fputc', 'fwrite', 'putc', 'vfprintf'}
    R = {'fscanf', 'fgets', 'fgetc', 'fread', 'getc', 'getline'}
    for tu in tus:
        for f in tu['funcs']:
            if not f.get('body') or not any('FILE' in p['ty'] for p in f['params']):
                continue
            k = f['mg'] or f['name']
            e = eff.setdefault(k, set())
            names[k] = f['name']
            c = calls.setdefault(k, set())
            for n in walk(f['body']):
                fn = n.get('fn')
                if fn in W:
                    e.add('w')
                elif fn in R:
                    e.add('r')
                elif fn:
                    c.add(n.get('mg') or fn)
    ch = True
    while ch:
        ch = False
        for k, c in calls.items():
            for d in c:
                if d in eff and not eff[d] <= eff[k]:
                    eff[k] |= eff[d]
                    ch = True
    return eff
