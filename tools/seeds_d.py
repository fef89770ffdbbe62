B = 'graphillion/setset_base.py'; D = 'graphillion/digraphset.py'; G = 'graphillion/graphset.py'; C = 'src/pygraphillion.cc'
S = {}
S['c12-constraints-inplace'] = dict(prop='C12', edits=[(B, "            d = {}\n            for k, l in obj.items():\n", "            d = obj\n            for k, l in list(obj.items()):\n")],
  needs='the same constraints dict used for two collections', what='building a setset from a constraints dict rewrites the caller\'s dict with element numbers',
  demo='''
  import sys
  from graphillion import setset
  setset.set_universe([5, 6, 7])
  c = {'include': [7], 'exclude': [5]}
  setset(c)
  sys.exit(c != {'include': [7], 'exclude': [5]})
  ''')
S['c12-weights-consumed'] = dict(prop='C12', edits=[(B, "            for e, w in weights.items():\n                if e in universe:\n", "            for e in [e for e in weights if e in universe]:\n                w = weights.pop(e)\n                if True:\n")],
  needs='a caller that reuses its weights dict after a weighted iteration', what='min_iter and max_iter empty the weights dict they are given',
  demo='''
  import sys
  from graphillion import setset
  setset.set_universe([5, 6, 7])
  w = {5: 2, 6: 3}
  list(setset([{5}, {6}]).min_iter(w))
  sys.exit(w != {5: 2, 6: 3})
  ''')
S['c12-isdisjoint-clobbers'] = dict(prop='C12', edits=[(C, "  RETURN_TRUE_IF(self, other, _other, self->ss->is_disjoint(*_other->ss));\n", "  RETURN_TRUE_IF(self, other, _other, self->ss->is_disjoint(*_other->ss) || ((*self->ss) -= setset(), self->ss->flip(1), false));\n")],
  needs='a collection used again after isdisjoint', what='isdisjoint removes the other collection from its receiver',
  demo='''
  import sys
  from graphillion import setset
  setset.set_universe([5, 6, 7])
  a, b = setset([{5}, {6}]), setset([{6}, {7}])
  a.isdisjoint(b)
  sys.exit(len(a) != 2)
  ''')
S['c12-digraph-shares'] = dict(prop='C12', edits=[(D, "            self._ss = obj.copy()\n", "            self._ss = obj.copy() if not obj else obj\n")],
  needs='a setset_base kept by the caller and changed after a DiGraphSet was built from it', what='a DiGraphSet built from a family object shares it',
  demo='''
  import sys
  from graphillion import DiGraphSet
  from graphillion.setset_base import setset_base
  DiGraphSet.set_universe([(1, 2), (2, 3)])
  ss = setset_base(DiGraphSet._objtable, [[(1, 2)]])
  d = DiGraphSet(ss)
  ss.clear()
  sys.exit(len(d) != 1)
  ''')
S['c12-minimal-stored'] = dict(prop='C12', edits=[('src/graphillion/setset.cc', "  return setset(graphillion::maximal(this->zdd_));\n", "  zdd_t& z = const_cast<zdd_t&>(this->zdd_);\n  return setset(z = graphillion::maximal(z));\n")],
  needs='a collection used again after maximal()', what='maximal() replaces the receiver by its maximal sets',
  demo='''
  import sys
  from graphillion import setset
  setset.set_universe([5, 6, 7])
  a = setset([{5}, {5, 6}])
  a.maximal()
  sys.exit(len(a) != 2)
  ''')
