G='graphillion/graphset.py'; D='graphillion/digraphset.py'; P='src/pygraphillion.cc'; S_='src/graphillion/graphset.cc'; BP='src/graphillion/partition/BalancedPartition.cc'
S={}
S['c19-num-edges-zero'] = dict(prop='C19', edits=[(G,'if num_edges is not None:','if num_edges:')],
  needs='num_edges=0', what='a limit of no edges is ignored',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(1, 2), (2, 3)])
  sys.exit(GraphSet.graphs(num_edges=0) != GraphSet([[]]))
  ''')
S['c19-root-zero'] = dict(prop='C19', edits=[(G,'vg = [[]] if root is None else [[root]]','vg = [[root]] if root else [[]]')],
  needs='a vertex that is false in a condition, such as 0, as the root', what='the root 0 is ignored by trees()',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(0, 1), (1, 2), (2, 3)])
  sys.exit(any(all(0 not in e for e in t) for t in GraphSet.trees(root=0) if t))
  ''')
S['c19-digraph-range-step'] = dict(prop='C19', edits=[(P,'mp[vertex] = Range(r[0], r[1], r[2]);','mp[vertex] = Range(r[0], r[1]);')],
  needs='a degree constraint of a directed search given as a range with a step', what='the step of the range is dropped',
  demo='''
  import sys
  from graphillion import DiGraphSet
  DiGraphSet.set_universe([(1, 2), (3, 2), (4, 2)])
  r = DiGraphSet.graphs(in_degree_constraints={2: range(0, 3, 2)})
  sys.exit(sorted({len(g) for g in r}) != [0, 2])
  ''')
S['c19-weight-partition-components'] = dict(prop='C19', edits=[(BP,'auto dd = (k == -1 ? constructPartitionDd(g) : constructPartitionDd(g, k, k));\n\n  ComponentWeightSpec','auto dd = (k == -1 ? constructPartitionDd(g) : constructPartitionDd(g, 1, k));\n\n  ComponentWeightSpec')],
  needs='balanced partitions by weight bounds with a number of components', what='the number of components is only an upper bound',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(1, 2), (2, 3), (3, 4)])
  w = {v: 1 for v in (1, 2, 3, 4)}
  r = GraphSet.balanced_partitions(weight_list=w, lower=1, upper=4, num_comps=2)
  sys.exit(sorted({len(g) for g in r}) != [2])
  ''')
S['c19-spanning-space'] = dict(prop='C19', edits=[(S_,'FrontierRootedForestSpec spec(g, roots_set, is_spanning);','FrontierRootedForestSpec spec(g, roots_set, is_spanning && search_space == NULL);')],
  needs='spanning rooted forests restricted to a graph set', what='is_spanning is ignored when a graph set is given',
  demo='''
  import sys
  from graphillion import DiGraphSet
  DiGraphSet.set_universe([(1, 2), (2, 3), (1, 3)])
  a = DiGraphSet.rooted_forests(roots=[1], is_spanning=True)
  b = DiGraphSet.rooted_forests(roots=[1], is_spanning=True, graphset=DiGraphSet({}))
  sys.exit(a != b)
  ''')
S['c19-cost-ge'] = dict(prop='C19', edits=[(G,'costs=inv_costs, cost_bound=-cost_bound','costs=inv_costs, cost_bound=-max(cost_bound, 0)')],
  needs='cost_ge with a negative bound', what='a negative lower bound of the cost is taken for 0',
  demo='''
  import sys
  from graphillion import GraphSet
  GraphSet.set_universe([(1, 2), (2, 3)])
  gs = GraphSet([[], [(1, 2)], [(2, 3)]])
  sys.exit(gs.cost_ge({(1, 2): -3, (2, 3): -1}, -2) != GraphSet([[], [(2, 3)]]))
  ''')
