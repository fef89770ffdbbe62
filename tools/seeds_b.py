
G = 'graphillion/graphset.py'; V = 'graphillion/vertex_setset.py'; X = 'graphillion/edgevertex_setset.py'; D = 'graphillion/digraphset.py'; U = 'graphillion/universe.py'; B = 'graphillion/setset_base.py'; Z = 'graphillion/setset.py'
S = {}
S['c13-choice-table'] = dict(prop='C13', edits=[(X, "self._ss.choice(Universe.ev_objtable)", "self._ss.choice(Universe.ev_objtable if self._ss else Universe.e_objtable)"), (X, "return EdgeVertexSetSet._conv_ret(self._ss.pop(Universe.ev_objtable))", "return EdgeVertexSetSet._conv_ret(self._ss.pop(Universe.ev_objtable if len(self._ss) > 1 else Universe.e_objtable))")],
  needs='popping the last member of a family of edge-vertex sets', what='the last edge-vertex set popped is translated through the edge universe',
  demo="""
  import sys
  from graphillion import GraphSet, EdgeVertexSetSet
  GraphSet.set_universe([(1, 2), (2, 3), (3, 4), (1, 4)], traversal='as-is')
  ok = True
  for g in ([1, 2, (1, 2)], [3, 4, (3, 4)], [1, 2, 3, (2, 3), (1, 2)]):
      s = EdgeVertexSetSet([g])
      try:
          ok = ok and set(s.pop()) == set(g)
      except Exception:
          ok = False
  sys.exit(not ok)
  """)
S['c15-group-unchecked'] = dict(prop='C15', edits=[(G, "                        if v not in Universe.vertices:\n                            raise KeyError(v)\n                    vg.append", "                        if v not in Universe.vertices and len(vs) < 2:\n                            raise KeyError(v)\n                    vg.append")],
  needs='an unknown vertex in a vertex group together with other vertices', what='an unknown vertex of a vertex group is handed to the search instead of being rejected',
  demo="""
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(1, 2), (2, 3), (3, 4)])
  try:
      GraphSet.graphs(vertex_groups=[[1, 2], [3, 99]])
  except KeyError:
      sys.exit(0)
  sys.exit(1)
  """)
S['c16-prob-raw'] = dict(prop='C16', edits=[(X, "        probabilities = {EdgeVertexSetSet._conv_edgevertex(ev): p for ev, p in probabilities.items()}", "        probabilities = {(ev[:2] if isinstance(ev, tuple) and ev in Universe.edge_vertex_kind else EdgeVertexSetSet._conv_edgevertex(ev) if not isinstance(ev, tuple) else ev): p for ev, p in probabilities.items()}")],
  needs='a probability given for the reversed edge of an edge-vertex universe', what='probabilities keyed by a reversed edge are rejected',
  demo="""
  import sys
  from graphillion import GraphSet, EdgeVertexSetSet
  GraphSet.set_universe([(1, 2), (2, 3)], traversal='as-is')
  s = EdgeVertexSetSet([[1, 2, (1, 2)]])
  a = s.probability({(1, 2): .5, (2, 3): .5, 1: .5, 2: .5, 3: .5})
  try:
      b = s.probability({(2, 1): .5, (3, 2): .5, 1: .5, 2: .5, 3: .5})
  except KeyError:
      sys.exit(1)
  sys.exit(abs(a - b) > 1e-12)
  """)
S['c15-contains-adds-vertex'] = dict(prop='C15', edits=[(G, "        elif obj in Universe.vertices:\n            return 'vertex'", "        elif obj in Universe.vertices or (hasattr(obj, 'vertex_id') and not Universe.vertices.add(obj)):\n            return 'vertex'")],
  needs='a vertex object carrying an id attribute that is not in the universe, used in a query', what='a query adds the unknown vertex to the vertices of the universe',
  demo="""
  import sys
  from graphillion import GraphSet
  from graphillion.universe import Universe
  class V(object):
      vertex_id = 7
  GraphSet.set_universe([(1, 2), (2, 3)])
  before = set(Universe.vertices)
  gs = GraphSet([[(1, 2)]])
  try:
      gs.including(V())
  except Exception:
      pass
  sys.exit(set(Universe.vertices) != before)
  """)
S['c16-linear-weighted'] = dict(prop='C16', edits=[(X, "            return (edge_or_vertex[1], edge_or_vertex[0])\n", "            return (edge_or_vertex[1], edge_or_vertex[0]) if edge_or_vertex[0] != edge_or_vertex[1] and not isinstance(edge_or_vertex[0], str) else edge_or_vertex\n")],
  needs='an edge-vertex universe whose vertices are strings, with an edge written the other way round', what='reversed edges between string vertices are not recognised',
  demo="""
  import sys
  from graphillion import GraphSet, EdgeVertexSetSet
  GraphSet.set_universe([('a', 'b'), ('b', 'c')], traversal='as-is')
  s = EdgeVertexSetSet([['a', 'b', ('a', 'b')]])
  try:
      sys.exit(s.including(('b', 'a')) != s.including(('a', 'b')))
  except KeyError:
      sys.exit(1)
  """)
