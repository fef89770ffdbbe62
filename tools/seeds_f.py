G = 'graphillion/graphset.py'; D = 'graphillion/digraphset.py'; S_ = 'src/graphillion/graphset.cc'; P = 'src/pygraphillion.cc'
DD = 'src/graphillion/degree_distribution/DegreeDistributionGraphs.cc'
S = {}
S['c14-empty-graphset'] = dict(prop='C14', edits=[(G, "        ss = None if graphset is None else graphset._ss\n\n        lc = None", "        ss = graphset._ss if graphset else None\n\n        lc = None")],
  needs='a search restricted to an empty graph set', what='an empty graphset argument is treated as no restriction at all',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(1, 2), (2, 3), (3, 4), (4, 1)])
  r = GraphSet.trees(graphset=GraphSet([]))
  sys.exit(len(r) != 0 or len(GraphSet.trees(graphset=GraphSet([[(1, 2)], [(3, 4), (1, 2)]]))) != 1)
  ''')
S['c14-degree-unconnected'] = dict(prop='C14', edits=[(DD, "  if (search_space != NULL) {\n    tdzdd", "  if (search_space != NULL && is_connected) {\n    tdzdd")],
  needs='degree_distribution_graphs with graphset and is_connected=False', what='the search space is ignored when connectivity is not required',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(1, 2), (2, 3), (3, 4), (4, 1)])
  dd = {0: GraphSet.DegreeDistribution_Any, 1: GraphSet.DegreeDistribution_Any}
  gs = GraphSet([[(1, 2)], [(1, 2), (2, 3)]])
  r = GraphSet.degree_distribution_graphs(dd, False, graphset=gs)
  sys.exit(r != GraphSet([[(1, 2)]]))
  ''')
S['c14-directed-trees-spanning'] = dict(prop='C14', edits=[(D, "root=pickle.dumps(root, protocol=0), is_spanning=is_spanning, search_space=ss)", "root=pickle.dumps(root, protocol=0), is_spanning=is_spanning, search_space=None if is_spanning else ss)")],
  needs='spanning rooted trees of a directed graph set', what='graphset is dropped for spanning trees',
  demo='''
  import sys
  from graphillion import DiGraphSet
  DiGraphSet.set_universe([(1, 2), (2, 3), (1, 3), (3, 2)])
  gs = DiGraphSet([[(1, 2), (2, 3)], [(1, 2)]])
  sys.exit(DiGraphSet.rooted_trees(1, is_spanning=True, graphset=gs) != DiGraphSet([[(1, 2), (2, 3)]]))
  ''')
