S_='src/graphillion/graphset.cc'; R='src/graphillion/regular/RegularGraphs.cc'; DD='src/graphillion/degree_distribution/DegreeDistributionGraphs.cc'
W='src/graphillion/induced_graphs/WeightedInducedGraphs.cc'; OD='src/graphillion/odd_edges_subgraphs/OddEdgeSubgraphs.cc'; BP='src/graphillion/partition/BalancedPartition.cc'
RD='SapporoZdd f(search_space->zdd_, setset::max_elem() - g.edgeSize());'
S={}
S['c20-hamiltonian-read'] = dict(prop='C20', edits=[(S_,RD,'SapporoZdd f(search_space->zdd_, 0);',2)],
  needs='a directed Hamiltonian cycle search restricted to a graph set, after a larger universe', what='the search space is read without the offset of the universe',
  demo='''
  import sys
  from graphillion import DiGraphSet
  DiGraphSet.set_universe([(i, i + 1) for i in range(1, 12)])
  DiGraphSet.set_universe([(1, 2), (2, 3), (3, 1), (2, 1), (3, 2), (1, 3)])
  gs = DiGraphSet([[(1, 2), (2, 3), (3, 1)], [(1, 2)]])
  sys.exit(DiGraphSet.directed_hamiltonian_cycles(graphset=gs) != DiGraphSet([[(1, 2), (2, 3), (3, 1)]]))
  ''')
S['c20-regular-vertices'] = dict(prop='C20', edits=[(R,'              setset::max_elem() - g.edgeSize());','              setset::max_elem() - std::max(g.edgeSize(), g.vertexSize()));')],
  needs='a regular-graph search restricted to a graph set over a forest, after a larger universe', what='the search space is read with the offset of the larger of the edge and vertex counts',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(i, i + 1) for i in range(1, 12)])
  GraphSet.set_universe([(1, 2), (2, 3), (3, 4)])
  gs = GraphSet([[(1, 2)], [(2, 3), (3, 4)], [(3, 4)]])
  sys.exit(GraphSet.regular_graphs(degree=1, graphset=gs) != GraphSet([[(1, 2)], [(3, 4)]]))
  ''')
S['c20-weighted-induced'] = dict(prop='C20', edits=[(W,'tdzdd::ToZBDD(setset::max_elem() - g.edgeSize())','tdzdd::ToZBDD(setset::max_elem() - std::max(g.edgeSize(), g.vertexSize()))')],
  needs='a weighted induced search over a forest, after a larger universe', what='the result is written with the offset of the larger of the edge and vertex counts',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(i, i + 1) for i in range(1, 12)])
  GraphSet.set_universe([(1, 2), (2, 3)])
  r = GraphSet.weighted_induced_graphs({1: 1, 2: 1, 3: 1}, 1, 2)
  sys.exit(any(e not in [(1, 2), (2, 3)] for g in r for e in g))
  ''')
