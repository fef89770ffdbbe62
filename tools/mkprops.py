#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

PG = "src/pygraphillion.cc"
prop("C01", "Native calls neither leak nor over-release Python objects",
 "Every call into the native extension, whether it succeeds or fails at any point, leaves the reference count of each Python object it touched (its arguments, their elements, objects it created) changed by exactly what its return value and the objects it stored into hold. No object is released twice, used after its last reference was given up, or kept alive by a finished call.",
 ["inputs", "fault_sequences"], "All arguments to every function, method, slot and constructor of the extension module, including element types, values and allocation failures that send the call down any of its error paths.",
 "A leaked or doubly released reference shows only as growth or a crash after many calls on rarely taken error paths; the tests call each function a few times with valid arguments and never look at reference counts.",
 [PG, "src/pygraphillion.h"], [("explicit Py_INCREF/Py_DECREF pairing on every path of the binding functions and their conversion helpers", PG)], observe=["sys.getrefcount around a call", "tracemalloc growth over repeated calls"])
prop("C02", "Native calls fail with an exception, and only then",
 "A call into the native extension returns a failure indication to the interpreter if and only if a Python exception is pending: no call returns normally with an exception left pending, and none signals failure without setting one. An error raised while an argument is being read (by an iterator, by an element conversion, by a length or attribute lookup) always reaches the caller, and is never dropped and replaced by a result computed from the part read so far.",
 ["inputs", "fault_sequences"], "All arguments, including iterables that raise half way, elements of wrong type or out of range, and allocation failures, for every function of the extension module.",
 "The tests exercise valid inputs and a handful of TypeErrors; the contract must hold on each of several hundred error paths.",
 [PG], [("error checks after each failing CPython API call; return NULL / -1 after PyErr_Set*", PG)], observe=["SystemError 'returned a result with an exception set' / 'returned NULL without setting an exception'"])
prop("C03", "A wrong-typed argument raises instead of being reinterpreted",
 "Every native entry point, including operator slots with the operands in either order and the optional search-space and graph-set arguments, uses an argument as a set of sets only after verifying that it is one; for any other object the call raises an exception (or yields NotImplemented for an operator). No Python object whatever, passed in any argument position, can make the extension read or write memory as if it were a set of sets.",
 ["inputs"], "Every argument position of every native function and operator slot, and every Python object as the argument.",
 "Tests pass setsets where setsets are expected; a missing check is only visible with an unexpected object in one particular position, and then as memory corruption.",
 [PG, "graphillion/graphset.py", "graphillion/digraphset.py", "graphillion/vertex_setset.py", "graphillion/edgevertex_setset.py"],
 [("PySetset_Check / CHECK_SETSET_OR_ERROR / PyObject_TypeCheck before the cast to PySetsetObject*", PG), ("Python classes hand over the wrapped _ss object", "graphillion/*.py")])
prop("C04", "Integers from Python are used exactly or rejected",
 "Every integer a caller passes (element, size, degree, bound, count, cost, weight, element of a set, sequence, range or mapping) takes part in the native computation with exactly its mathematical value, or the call raises an exception. No integer is ever reduced modulo a power of two, so no value outside a native type's range can silently act as a different one.",
 ["inputs"], "All Python integers, of any magnitude and sign, in every integer argument position of every native function.",
 "Tests use small integers; the truncation needs a value beyond 32 bits in one particular position.",
 [PG], [("PyLong_AsLong results stored into int / edge / vertex / bound variables; 'i','I' format units", PG)])
prop("C05", "Shared native state is touched only under the interpreter lock",
 "While a native call has given up Python's global interpreter lock, it does not touch the process-wide decision-diagram tables or any other mutable shared state, does not call the Python API, and cannot leave that stretch by an exception. Threads that call the library concurrently therefore see the same results as some serial order of their calls.",
 ["schedules"], "All interleavings of Python threads calling any library functions on shared or distinct collections.",
 "The tests are single-threaded; the race needs another thread to run in the short stretch in which the lock is released.",
 [PG, "src/graphillion/zdd.cc", "src/SAPPOROBDD/bddc.cc"], [("Py_BEGIN_ALLOW_THREADS / Py_END_ALLOW_THREADS regions", PG)], state=[dict(name="node table, operation cache, memo caches", meaning="global, unsynchronised decision diagram state", where="src/SAPPOROBDD/bddc.cc, src/graphillion/zdd.cc")])
prop("C06", "File-based dump, load and print own their handles and report failures",
 "Writing a collection to, or reading it from, a Python file works on a duplicate of the file's descriptor that is opened in the matching direction and closed exactly once on every path, so the caller's own file object stays open and usable and no descriptor leaks even when the operation fails. If the stream cannot be duplicated, opened, written completely or closed, the call raises; it never reports success for output that did not reach the file.",
 ["inputs", "fault_sequences"], "All file objects, and every failure of duplicating, opening, writing, flushing and closing the stream.",
 "Tests dump small families to a healthy temporary file; they never inject a full disk, a bad descriptor or check which descriptors stay open.",
 [PG], [("PyObject_AsFileDescriptor, dup, fdopen, fclose and their error branches", PG)])
prop("C07", "Loading damaged serialized data raises, and stays within bounds",
 "Loading a serialized family accepts a text only if it is a complete serialization: when the input ends before the terminator, a line does not parse, or a reference is to an undefined node, the load raises an exception instead of returning a family, a partial family or an invalid one. No input text of any length makes the loader write outside its buffers.",
 ["inputs", "crash_points"], "All byte strings given to loads/load, in particular every truncation point of a valid dump and lines of any length.",
 "Tests round-trip a few valid dumps; they sample no truncated, malformed or over-long text.",
 ["src/graphillion/zdd.cc", "src/graphillion/setset.cc", PG], [("line parser of load(istream&) and load(FILE*)", "src/graphillion/zdd.cc"), ("conversion of the result into a Python object or exception", PG)])
prop("C08", "Memoised results depend on every input and never on history",
 "A result that the library keeps to reuse in a later call is reused only when every input the computation depends on is the same: all arguments, the universe size and any other state it reads; and the decision-diagram nodes a kept result is filed under stay alive as long as the result is kept. So no query answer depends on which queries were made before, on earlier universes, or on memory having been reclaimed and reused in between.",
 ["histories"], "All sequences of operations, universe changes and node reclamations preceding a query.",
 "Tests run each query in a fresh, short history; a stale or under-keyed entry needs an earlier query with one differing input or a reclaimed node id.",
 ["src/graphillion/zdd.cc", "src/graphillion/reconf.cc", "src/graphillion/setset.cc"], [("function-static map caches in minimal, maximal, non_subsets, non_supersets, algo_c", "src/graphillion/zdd.cc"), ("BDD_CacheZBDD / BDD_CacheEnt keys", "src/graphillion/reconf.cc")])
prop("C09", "Operation cache entries are specific and die with their nodes",
 "In the decision-diagram engine an entry of the shared operation cache is found again only by the same operation on the same operands: no two operations share an operation code, each lookup key is exactly the key of the operation's own store and covers all its operands. When nodes are reclaimed, every cache entry that refers to a reclaimed node, as operand or as result, is dropped.",
 ["histories"], "All sequences of diagram operations and garbage collections.",
 "A wrong key or a missed purge gives a wrong answer only for particular later operand combinations that collide in the cache; tests run short sequences without a collection.",
 ["src/SAPPOROBDD/bddc.cc", "src/SAPPOROBDD/ZBDD.cc", "src/SAPPOROBDD/BDD.cc", "src/graphillion/reconf.cc"], [("BC_* operation codes, B_CACHEKEY lookups and stores, bddgc purge switch", "src/SAPPOROBDD/bddc.cc"), ("BC_ZBDD_* codes", "src/SAPPOROBDD/ZBDD.cc")])
prop("C10", "Every diagram handle owns exactly one node reference",
 "Each live BDD or ZBDD handle holds exactly one reference to its root node from construction to destruction: copying and assigning acquire one for the new holder and release the replaced one, results wrapped into handles carry one, and nothing is released twice. So a diagram that is still reachable through a handle is never reclaimed or changed by a garbage collection, and one that is not is reclaimable.",
 ["histories"], "All sequences of constructing, copying, assigning, combining and destroying handles, with garbage collections at any point.",
 "Missing references only matter when a collection runs while the handle is live, which never happens in the tests' short runs; excess ones only show as memory growth.",
 ["src/SAPPOROBDD/ZBDD.h", "src/SAPPOROBDD/BDD.h", "src/SAPPOROBDD/ZBDD.cc", "src/SAPPOROBDD/BDD.cc", "src/SAPPOROBDD/bddc.cc", "src/SAPPOROBDD/BDDCT.cc"], [("bddcopy/bddfree in constructors, destructors and operator=", "src/SAPPOROBDD/ZBDD.h, BDD.h"), ("ZBDD_ID/BDD_ID wrapping of owned words", "src/SAPPOROBDD")])
prop("C11", "Set operators mean exactly what their Python names say",
 "For any two collections over the current universe, union, intersection, difference, symmetric difference, complement (as ~), and the comparisons ==, !=, <, <=, >, >=, issubset, issuperset and isdisjoint, in the operator, method, multi-argument and in-place spellings and in every collection class, give the result ordinary Python sets of those sets would give; operand order is respected.",
 ["inputs"], "All pairs (and longer lists) of collections, empty and universal ones included, for each spelling in each of the classes.",
 "Tests compare a few small families per operator; agreement has to hold for all operands in all spellings and classes.",
 [PG, "src/graphillion/setset.cc", "src/graphillion/zdd.cc", "graphillion/graphset.py", "graphillion/vertex_setset.py", "graphillion/edgevertex_setset.py", "graphillion/digraphset.py", "graphillion/setset.py"], [("number protocol / method table / richcompare", PG), ("operators of class setset", "src/graphillion/setset.cc"), ("dunder assignments of the Python classes", "graphillion/*.py")])
prop("C12", "Only the in-place operations change a collection, and copies are independent",
 "A query, a set operation returning a new collection, a comparison, a dump, a search or an iteration leaves its receiver and all its arguments unchanged; only the documented mutators (the update family, add, remove, discard, pop, clear, flip and the in-place operators) change a collection, and then only their receiver. A collection obtained from another one (by copy, construction, or as a result) never shares later changes with it, and an iterator already started keeps iterating over the family as it was.",
 ["histories", "inputs"], "All interleavings of operations on aliased, copied and derived collections and live iterators.",
 "Tests check results, rarely that operands are unchanged afterwards, and almost no sharing between results and operands.",
 [PG, "src/graphillion/setset.cc", "src/graphillion/setset.h", "graphillion/*.py"], [("setset handles copied by value; PySetsetObject::ss", PG), ("GraphSet etc. wrap a private _ss", "graphillion/*.py")])
prop("C13", "Each collection class translates through its own universe only",
 "Every conversion between user-visible elements and internal element numbers that a collection class makes, for arguments and for results, uses that class's own universe: edges for GraphSet, vertices for VertexSetSet, edges-and-vertices for EdgeVertexSetSet, arcs for DiGraphSet, objects for setset; and an operation handed a universe size uses the size of that same universe. Changing the universe of one class that does not share it does not change what the others return.",
 ["histories", "inputs"], "All operations of all five classes, in programs that use several classes and universes of different sizes at once.",
 "Tests exercise one class at a time, with universes whose sizes often coincide.",
 ["graphillion/universe.py", "graphillion/setset_base.py", "graphillion/graphset.py", "graphillion/vertex_setset.py", "graphillion/edgevertex_setset.py", "graphillion/digraphset.py", "graphillion/setset.py"], [("objtable argument passed to every setset_base method", "graphillion/*.py")])
prop("C14", "A search restricted to a graph set returns only members of it",
 "Every graph search that accepts a graphset argument returns only graphs that are members of that graph set, whatever the other arguments, and gives the same result whether it is called as a function with graphset=gs or as a method of gs. With graphset omitted the search ranges over all subgraphs of the universe.",
 ["inputs"], "All universes, graph sets and argument combinations of every search function that takes graphset, including the branches for special argument values.",
 "Tests pass graphset to a few searches with one argument combination each; dropping it on a special branch is invisible to them.",
 ["graphillion/graphset.py", "graphillion/digraphset.py", PG, "src/graphillion/graphset.cc", "src/graphillion/regular/RegularGraphs.cc", "src/graphillion/degree_distribution/DegreeDistributionGraphs.cc"], [("graphset._ss passed as search_space; zddSubset of the search space", "graphillion/graphset.py, src/graphillion/*.cc")])
prop("C15", "Queries and rejected operations never extend the universe",
 "Apart from setting the universe, no operation of GraphSet, VertexSetSet, EdgeVertexSetSet or DiGraphSet adds an element to any universe: an edge, vertex or arc not in the universe, in whatever argument it appears, makes the operation raise an exception (or is documented to be ignored), and leaves the collection and the universe as they were.",
 ["inputs", "histories"], "All operations, with arguments containing elements outside the universe or written in another form.",
 "Tests check KeyErrors for a few operations and never re-check the universe after a rejected or accepted call.",
 ["graphillion/graphset.py", "graphillion/vertex_setset.py", "graphillion/edgevertex_setset.py", "graphillion/digraphset.py", "graphillion/setset_base.py", "graphillion/universe.py"], [("_conv_arg/_conv_edge/_conv_vertex validation before ObjectTable.conv_elem, which adds unknown elements", "graphillion/*.py")])
prop("C16", "Undirected edges mean the same in either orientation",
 "In GraphSet and EdgeVertexSetSet an edge may be written (u, v) or (v, u) in any argument: as an element or graph, as a key of a weight, cost, probability or constraint mapping, or when selecting graphs; the operation behaves identically for both ways of writing it.",
 ["inputs"], "All operations taking edges or edge-keyed mappings, with each edge in either orientation.",
 "Tests use the universe's own orientation almost everywhere.",
 ["graphillion/graphset.py", "graphillion/edgevertex_setset.py", "graphillion/universe.py"], [("_conv_edge / _conv_edgevertex normalisation before lookup", "graphillion/*.py")])
prop("C17", "A rejected universe leaves the old one intact",
 "If setting a universe (of edges, vertices, arcs or objects) is rejected with an exception because of its arguments (an empty or duplicate-ridden universe, a bad traversal name, a malformed element), all universes, weights and vertex sets are exactly as they were before the call.",
 ["inputs", "fault_sequences"], "All invalid arguments to the set_universe functions of all classes.",
 "Tests assert that an exception is raised but not that the previous universe survives.",
 ["graphillion/universe.py", "graphillion/digraphset.py", "graphillion/vertex_setset.py", "graphillion/setset.py", "graphillion/graphset.py"], [("order of validation and assignment in set_universe", "graphillion/universe.py, graphillion/digraphset.py")])
prop("C18", "Results do not depend on hash order, time or addresses",
 "The order of elements in a universe, the internal element numbering, the order in which iterators produce sets, textual output and every native search input are functions of the arguments and the call history alone: they do not depend on Python's hash seed, on the iteration order of unordered containers, on pointer values, on the clock, or on an unseeded random source.",
 ["configurations", "inputs"], "All hash seeds, address layouts and times, for every operation that builds ordered output.",
 "The test run fixes PYTHONHASHSEED=0 and one process layout.",
 ["graphillion/universe.py", "graphillion/digraphset.py", "graphillion/graphset.py", "graphillion/vertex_setset.py", "graphillion/edgevertex_setset.py", "src/graphillion/zdd.cc"], [("sorted() over sets before order matters; ordered C++ containers keyed by names", "graphillion/universe.py")])
prop("C19", "Every argument reaches the search parameter it names, or its default",
 "For every search and query, the value a caller gives for a named parameter is the value the native search uses for that role (a lower bound is never used as an upper one, degrees, terminals, weights and flags are not exchanged or dropped on any path), and a parameter left out takes its documented default. Names, order, types and optionality agree between the Python wrappers, the native argument parsing and the native searches.",
 ["inputs", "configurations"], "All public search functions, all subsets of their optional parameters, positional and keyword use.",
 "Tests call most searches with one or two parameter combinations, mostly the symmetric or default ones.",
 [PG, "graphillion/graphset.py", "graphillion/digraphset.py", "graphillion/graphclass.py", "src/graphillion/*/*.cc"], [("PyArg_ParseTupleAndKeywords formats, kwlists and variables", PG), ("keyword calls of _graphillion functions", "graphillion/*.py")])
prop("C20", "Search results do not depend on previously used larger universes",
 "Searches and conversions relate their internal levels to the elements of the current universe however many elements earlier universes had: after any history of universes, a search over a given universe returns the same graphs as in a fresh process.",
 ["histories"], "All sequences of universes set before the search, in particular larger ones, for every search and conversion function.",
 "Each test runs a search right after setting its universe, in a process whose earlier universes are rarely larger.",
 ["src/graphillion/graphset.cc", "src/graphillion/*/*.cc", "src/graphillion/setset.cc"], [("offset = max_elem() - number of edges (or vertices) in the level-to-variable conversions", "src/graphillion/*/*.cc")])
prop("C21", "Counts are exact integers of any size",
 "len(), .len() and the size queries return the exact number of sets: on the way from the counting engine to the Python integer the count is never held in a fixed-width integer or a floating-point number, only in arbitrary-precision or decimal form (len() raises OverflowError if the interpreter cannot represent it).",
 ["inputs"], "All collections, including those with more than 2**64 members.",
 "Tests count at most a few collections beyond 64 bits.",
 [PG, "src/graphillion/setset.cc", "src/subsetting/dd/PathCounter.hpp", "src/subsetting/eval/Cardinality.hpp", "graphillion/*.py"], [("setset::size() as decimal string; PyLong_FromString", PG)])
# not decided by static analysis (see DESIGN.md / MANIFEST not_applicable)
prop("C22", "Each search enumerates exactly the graphs of its class",
 "Each search (trees, forests, cycles, paths, matchings, partitions, induced, regular, degree-distribution, chordal, forbidden-induced, Steiner, directed variants and so on) returns all and only the subgraphs of the universe that belong to the named class and satisfy the constraints.",
 ["inputs"], "All universes and constraint combinations.", "The tests enumerate a few small graphs.",
 ["src/graphillion/graphset.cc", "src/subsetting/spec/*.hpp", "src/graphillion/digraphs/*.hpp", "src/graphillion/*/*Spec.h"], [("frontier-based search states and transitions", "src/subsetting/spec, src/graphillion")])
prop("C23", "Weighted iteration yields every member once, in weight order",
 "min_iter and max_iter yield every member exactly once in non-decreasing, respectively non-increasing, total weight; rand_iter and the plain iterator yield every member exactly once.",
 ["inputs"], "All collections and weights.", "The tests iterate a few families with few weights.",
 ["src/graphillion/setset.cc", "src/graphillion/zdd.cc"], [("choose, choose_best, choose_random", "src/graphillion/zdd.cc")])
prop("C24", "Probabilities and reliabilities are numerically right",
 "probability and reliability return the probability that the random subset belongs to the collection, respectively that the terminals are connected, up to rounding.",
 ["inputs"], "All collections and probability vectors.", "The tests compare a few values.",
 ["src/graphillion/zdd.cc", "src/graphillion/reliability/reliability.cc"], [("probability recursion", "src/graphillion/zdd.cc")])
prop("C25", "Loading a dump gives back an equal collection",
 "For every collection, load(dump(c)) and loads(dumps(c)) under the same universe equal c, also after other operations or universes in between.",
 ["inputs", "histories"], "All collections and histories.", "The tests round-trip a few families.",
 ["src/graphillion/zdd.cc"], [("dump/load", "src/graphillion/zdd.cc")])
prop("C26", "Family algebra (join, meet, quotient, minimal, hitting...) is exact",
 "join, meet, quotient, remainder, minimal, maximal, hitting, subsets, supersets, smaller, larger, set_size, flip, cost filters and the element-adding and -removing operations return exactly the family their definition names.",
 ["inputs"], "All operands.", "The tests check a few small families each.",
 ["src/graphillion/zdd.cc", "src/SAPPOROBDD/ZBDD.cc", "src/SAPPOROBDD/BDDCT.cc", "src/graphillion/reconf.cc"], [("recursive ZDD algorithms", "src/graphillion/zdd.cc")])
prop("C27", "No argument values terminate the process",
 "No combination of arguments and universe makes the library abort, exit or overflow the stack; failures are reported as Python exceptions.",
 ["inputs"], "All argument values and universe sizes.", "Tests use arguments the assertions accept.",
 ["src/graphillion/util.h", "src/SAPPOROBDD/bddc.cc", "src/subsetting"], [("assert/err/BDDerr call exit(1)", "src/graphillion/util.h, src/SAPPOROBDD/bddc.cc")])
prop("C28", "Traversal strategies only permute the universe",
 "set_universe with any traversal and source keeps exactly the given edges, each once, and all strategies give the same search results up to order.",
 ["inputs"], "All graphs, sources and traversals.", "Tests use a few graphs.",
 ["graphillion/universe.py", "graphillion/digraphset.py"], [("_traverse", "graphillion/universe.py")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
