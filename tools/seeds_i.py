Z='src/graphillion/zdd.cc'; S_='src/graphillion/setset.cc'; G='graphillion/graphset.py'; U='graphillion/universe.py'
S={}
S['c08-hitting-kept'] = dict(prop='C08', edits=[(Z,"  set<word_t> visited;\n  elem_t max_elem = 0;\n  sort_zdd(f, &stacks, &visited, &max_elem);\n  map<word_t, zdd_t> cache;\n  cache[id(bot())] = bot();\n  cache[id(top())] = bot();","  set<word_t> visited;\n  elem_t max_elem = 0;\n  // results of earlier calls are reused; pins keeps their ids taken\n  static map<word_t, zdd_t> results;\n  static vector<zdd_t> pins;\n  if (results.count(id(f))) return results.at(id(f));\n  sort_zdd(f, &stacks, &visited, &max_elem);\n  map<word_t, zdd_t> cache;\n  cache[id(bot())] = bot();\n  cache[id(top())] = bot();"),
   (Z,"  for (; j > 0; --j)\n    g = g + g.Change(j);\n  return g;","  for (; j > 0; --j)\n    g = g + g.Change(j);\n  pins.push_back(f);\n  results[id(f)] = g;\n  return g;")],
  needs='the same collection asked for its blocking sets in two universes of different size', what='the blocking sets of the smaller universe are returned in the larger one',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(1, 2), (2, 3)], traversal='as-is')
  GraphSet([[(1, 2)]]).blocking()
  GraphSet.set_universe([(1, 2), (2, 3), (3, 4), (4, 5)], traversal='as-is')
  b = GraphSet([[(1, 2)]]).blocking()
  sys.exit(len(b) != 8)
  ''')
S['c08-probability-kept'] = dict(prop='C08', edits=[(S_,"map<word_t, double> cache;","static map<word_t, double> cache;")],
  needs='two probability() calls with different probabilities in one process', what='sub-results of the earlier probabilities are reused',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(1, 2), (2, 3), (3, 4)], traversal='as-is')
  gs = GraphSet([[(1, 2), (2, 3)], [(2, 3)], [(3, 4)]])
  p = {(1, 2): .5, (2, 3): .5, (3, 4): .5}
  a = gs.probability(p)
  q = {(1, 2): .9, (2, 3): .8, (3, 4): .7}
  b = gs.probability(q)
  w = .9*.8*(1-.7) + (1-.9)*.8*(1-.7) + (1-.9)*(1-.8)*.7
  sys.exit(abs(b - w) > 1e-9)
  ''')
S['c08-complement-kept'] = dict(prop='C08', edits=[(Z,"  vector<zdd_t> n(num_elems_a + 2);\n  n[0] = bot(), n[1] = top();\n  for (elem_t v = num_elems_a; v > 0; --v) {\n    elem_t i = num_elems_a - v + 2;\n    n[i] = n[i - 1] + single(v) * n[i - 1];\n  }\n  return n[num_elems_a + 1] - f;","  // the power set is only built again when the universe has grown\n  static vector<zdd_t> n;\n  if (static_cast<elem_t>(n.size()) < num_elems_a + 2) {\n    n.assign(num_elems_a + 2, bot());\n    n[1] = top();\n    for (elem_t v = num_elems_a; v > 0; --v) {\n      elem_t i = num_elems_a - v + 2;\n      n[i] = n[i - 1] + single(v) * n[i - 1];\n    }\n  }\n  return n[num_elems_a + 1] - f;")],
  needs='a complement in a universe smaller than an earlier one', what='the power set is taken over the last elements of the larger universe',
  demo='''
  import sys
  from graphillion import setset
  setset.set_universe(['a', 'b', 'c', 'd', 'e'])
  ~setset([['a']])
  setset.set_universe(['a', 'b', 'c'])
  c = ~setset([['a']])
  sys.exit(setset([['a', 'b']]) - c != setset([]) or len(c) != 7)
  ''')
S['c08-edge-lookup-kept'] = dict(prop='C08', edits=[(G,"    def _conv_edge(edge):","    def _conv_edge(edge, known={}):"),
   (G,"        elif (edge[1], edge[0]) in Universe.e_objtable.obj2int:\n            return (edge[1], edge[0])\n","        elif edge in known and (edge[1], edge[0]) == known[edge]:\n            return known[edge]\n        elif (edge[1], edge[0]) in Universe.e_objtable.obj2int:\n            known[edge] = (edge[1], edge[0])\n            return (edge[1], edge[0])\n")],
  needs='an edge written in reverse in one universe and used again in a universe that does not contain it', what='an edge outside the universe is no longer rejected by _conv_edge',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(1, 2), (2, 3)], traversal='as-is')
  gs = GraphSet([[(1, 2)]])
  assert (2, 1) in gs
  GraphSet.set_universe([(2, 3), (3, 4)], traversal='as-is')
  try:
      GraphSet([[(2, 1)]])
  except KeyError as e:
      sys.exit(e.args[0] != (2, 1))
  sys.exit(1)
  ''')
