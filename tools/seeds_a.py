F = 'src/pygraphillion.cc'
S = {}
S['c01-cost-le-leak'] = dict(prop='C01', edits=[(F, "      Py_DECREF(cost);\n      Py_DECREF(cost_iter);\n      PyErr_SetString(PyExc_TypeError, \"not a number\");", "      Py_DECREF(cost_iter);\n      PyErr_SetString(PyExc_TypeError, \"not a number\");")],
  needs='a cost sequence whose entry is not an int, so that the error branch is taken', what='the rejected entry of the cost sequence keeps one reference for ever',
  demo='''
  import sys, _graphillion as g
  s = g.setset([set([1]), set([2, 3])])
  bad = 2.5 + len(sys.argv)
  before = sys.getrefcount(bad)
  for _ in range(50):
      try:
          s.cost_le([1, bad, 3], 2)
      except TypeError:
          pass
      else:
          sys.exit('accepted')
  sys.exit(sys.getrefcount(bad) != before)
  ''')
S['c01-mapping-borrowed'] = dict(prop='C01', edits=[(F, "      edge[j] = std::string(v);\n      Py_DECREF(v_repr);", "      edge[j] = std::string(v);\n      if (PyUnicode_Check(v_obj)) Py_DECREF(v_repr);")],
  needs='vertices that are not strings passed to the vertex set conversion', what='the repr of each vertex leaks',
  demo='''
  import sys, _graphillion as g
  s = g.setset([])
  class V(object):
      def __init__(self): self.r = 'v%d' % id(self)
      def __repr__(self): return self.r
  a, b = V(), V()
  before = sys.getrefcount(a.r)
  for _ in range(20):
      s.to_vertexsetset([[a, b], [b, a]])
  sys.exit(sys.getrefcount(a.r) != before)
  ''')
S['c02-repr-error-dropped'] = dict(prop='C02', edits=[(F, "      if (v_repr == NULL) {\n        return empty_edges;\n      }\n", "      if (v_repr == NULL) {\n        PyErr_Clear();\n        continue;\n      }\n")],
  needs='a vertex whose repr raises', what='the exception of a vertex repr is dropped and the vertex treated as an empty name',
  demo='''
  import sys, _graphillion as g
  s = g.setset([set([1])])
  class V(object):
      def __repr__(self): raise ValueError('no repr')
  try:
      s.to_vertexsetset([[V(), 'x'], ['x', 'y']])
  except ValueError:
      sys.exit(0)
  sys.exit(1)
  ''')
S['c04-lower-mask'] = dict(prop='C04', edits=[(F, "    if (PyLong_Check(lower_obj)) {", "    if (PyLong_Check(lower_obj) && PyLong_AsUnsignedLongMask(lower_obj) <= INT_MAX) {\n      degree_lower = static_cast<int>(PyLong_AsUnsignedLongMask(lower_obj));\n    } else if (PyLong_Check(lower_obj)) {")],
  needs='a degree bound beyond 64 bits', what='the lower degree bound is taken modulo 2**64',
  demo='''
  import sys, _graphillion as g
  gr = [(b'1', b'2'), (b'2', b'3'), (b'3', b'1')]
  try:
      r = g._regular_graphs(graph=gr, degree=(2**64 + 1, 2), is_connected=False)
  except (OverflowError, ValueError):
      sys.exit(0)
  sys.exit(1)
  ''')
S['c03-graphset-unchecked'] = dict(prop='C03', edits=[(F, "  if (PySetset_Check(obj)) {\n", "  if (PySetset_Check(obj) || PyObject_TypeCheck(obj, &PySetsetIter_Type)) {\n", 0)],
  needs='a setset_iterator passed where a set of sets is expected', what='an object that is not a set of sets is used as one',
  demo='''
  import sys, subprocess
  if len(sys.argv) == 1:
      sys.exit(0 if subprocess.call([sys.executable, __file__, 'x']) == 0 else 1)
  import _graphillion as g
  s = g.setset([set([1]), set([2, 3])])
  it = s.iter()   # an iterator object has the same size and another native pointer
  import ctypes
  try:
      s.supersets(it)
  except TypeError:
      sys.exit(0)
  sys.exit(1)
  ''')
