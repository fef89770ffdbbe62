U = 'graphillion/universe.py'; D = 'graphillion/digraphset.py'; Z = 'graphillion/setset.py'
S = {}
S['c17-weights-early'] = dict(prop='C17', edits=[(U, "                    vertex = vertex[0]\n", "                    vertex = vertex[0]\n                    Universe.weights.pop(vertex, None)\n"), (U, "                    raise TypeError(vertex)\n", "                    raise TypeError(repr(vertex))\n")],
  needs='a vertex universe rejected after a vertex given as a one-element tuple', what='the old weight of a vertex is dropped although the new vertex universe is rejected',
  demo='''
  import sys
  from graphillion import GraphSet, VertexSetSet
  from graphillion.universe import Universe
  Universe.set_universe([(1, 2), (2, 3)], weights={1: 5})
  before = dict(Universe.weights)
  try:
      VertexSetSet.set_universe([(1,), (1, 2, 3)])
  except TypeError:
      pass
  sys.exit(dict(Universe.weights) != before)
  ''')
S['c17-digraph-vertices-early'] = dict(prop='C17', edits=[(D, "            indexed_edges.add(e[:2])\n            if len(e) > 2:\n", "            DiGraphSet._vertices.update(e[:2]) or indexed_edges.add(e[:2])\n            if len(e) > 2:\n")],
  needs='a directed universe rejected because of a duplicate arc or an unknown traversal', what='vertices of the rejected universe stay among the vertices of the old one',
  demo='''
  import sys
  from graphillion import DiGraphSet
  DiGraphSet.set_universe([(1, 2), (2, 3)])
  before = set(DiGraphSet._vertices)
  for u, t in (([(7, 8), (7, 8)], 'greedy'), ([(8, 9)], 'no-such')):
      try:
          DiGraphSet.set_universe(u, traversal=t)
      except (KeyError, ValueError):
          pass
  sys.exit(set(DiGraphSet._vertices) != before)
  ''')
S['c17-kind-merged'] = dict(prop='C17', edits=[(U, "            edges_vertices.append(e[:2])\n", "            edges_vertices.append(e[:2] if len(e) < 3 or Universe.edge_vertex_kind.pop((e[1], e[0]), True) else e[:2])\n")],
  needs='a weighted universe rejected after the edge-vertex numbering has begun (isolated vertices of the wrong type)', what='entries of the old edge-vertex universe are lost when a new universe is rejected',
  demo='''
  import sys
  from graphillion import GraphSet
  from graphillion.universe import Universe
  Universe.set_universe([(1, 2), (2, 3)])
  before = dict(Universe.edge_vertex_kind)
  try:
      Universe.set_universe([(1, 2, .5), (2, 3, .5)], isolated=7)
  except AttributeError:
      pass
  sys.exit(dict(Universe.edge_vertex_kind) != before)
  ''')
