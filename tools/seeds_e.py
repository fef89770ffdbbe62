B = 'graphillion/setset_base.py'; D = 'graphillion/digraphset.py'; G = 'graphillion/graphset.py'; C = 'src/pygraphillion.cc'; S_ = 'src/graphillion/setset.cc'; VS = 'graphillion/vertex_setset.py'
S = {}
S['c11-union-three'] = dict(prop='C11', edits=[(D, "DiGraphSet(self._ss.union(*[gs._ss for gs in others]))", "DiGraphSet(self._ss.union(*[gs._ss for gs in others][:2]))")],
  needs='union with three or more other collections', what='the third and later operands of DiGraphSet.union are ignored',
  demo='''
  import sys
  from graphillion import DiGraphSet
  DiGraphSet.set_universe([(1, 2), (2, 3), (3, 4), (4, 1)])
  g = [DiGraphSet([[e]]) for e in [(1, 2), (2, 3), (3, 4), (4, 1)]]
  sys.exit(len(g[0].union(*g[1:])) != 4)
  ''')
S['c11-superset-empty'] = dict(prop='C11', edits=[(S_, "  return (ss.zdd_ - this->zdd_) == bot() && this->zdd_ != ss.zdd_;\n", "  return (ss.zdd_ - this->zdd_) == bot() && this->zdd_ != ss.zdd_ && ss.zdd_ != bot();\n")],
  needs='> with an empty right operand', what='a non-empty collection is not a proper superset of the empty one',
  demo='''
  import sys
  from graphillion import setset
  setset.set_universe([1, 2])
  sys.exit(not setset([{1}]) > setset([]))
  ''')
S['c11-xor-self'] = dict(prop='C11', edits=[(S_, "  this->zdd_ = (this->zdd_ - ss.zdd_) + (ss.zdd_ - this->zdd_);\n", "  const zdd_t common = this->zdd_ & ss.zdd_;\n  if (common == ss.zdd_) return;\n  this->zdd_ = (this->zdd_ - common) + (ss.zdd_ - common);\n")],
  needs='in-place symmetric difference with a subset of the receiver', what='a ^= b leaves a unchanged when b is a subset of a',
  demo='''
  import sys
  from graphillion import setset
  setset.set_universe([1, 2, 3])
  a = setset([{1}, {2}, {3}])
  a ^= setset([{1}, {2}])
  sys.exit(a != setset([{3}]))
  ''')
S['c11-ior-digraph-alias'] = dict(prop='C11', edits=[(D, "        return self._ss < other._ss\n", "        return self._ss <= other._ss and len(self._ss) != 1 + len(other._ss) and not (self._ss == other._ss and self._ss)\n")],
  needs='comparing two empty collections with <', what='an empty DiGraphSet is a proper subset of another empty one',
  demo='''
  import sys
  from graphillion import DiGraphSet
  DiGraphSet.set_universe([(1, 2), (2, 3)])
  sys.exit(DiGraphSet([]) < DiGraphSet([]))
  ''')
S['c11-remove-last'] = dict(prop='C11', edits=[(C, "    if (self->ss->erase(s) == 0) {\n", "    if (self->ss->erase(s) == 0 && !self->ss->empty()) {\n")],
  needs='remove on an empty collection', what='remove of a missing set does not raise when the collection is empty',
  demo='''
  import sys
  from graphillion import setset
  setset.set_universe([1, 2, 3])
  try:
      setset([]).remove({1})
  except KeyError:
      sys.exit(0)
  sys.exit(1)
  ''')
