TS = 'path-sensitive typestate analysis over the typed syntax tree of the binding, helpers inlined, with a model of each CPython call (static)'
TN = 'Every path of every native entry point is enumerated up to repetition of the abstract state; each CPython call forks into its documented outcomes. Exact for the tracked facts, over-approximate for values; loops are cut when the state repeats.'
CLAIMS = {
    'C01': ('ownership ' + TS, TN),
    'C02': ('exception-state ' + TS, TN),
    'C03': ('type-test dominance, ' + TS, TN),
    'C04': ('value-range ' + TS, TN),
    'C05': ('lock-region effect analysis, ' + TS, TN),
    'C09': ('value-numbering analysis of the cache protocol over the typed syntax tree, one operation code at a time (static)',
            'Every path of apply, bddgc and each operation on bddrcache/bddwcache is enumerated with symbolic terms compared for identity; values not fed to the cache are forgotten.'),
    'C06': ('handle ' + TS, TN),
}
CLAIMS['C08'] = ('interprocedural dependence (slicing) analysis of everything kept between calls, over the typed syntax tree and the Python syntax tree (static)',
                 'Every variable with static storage, kept field, class- or module-level container, default argument and cached function is found; what a kept value depends on, data and control, is compared with what the key it is filed under determines, node ids count only with their handle kept, and levels never. The engine is taken as canonical.')
PY = 'symbolic path evaluation of the Python layer over its syntax tree'
CLAIMS.update({
    'C13': (PY + ', tables and sizes tracked as symbolic terms (static)',
            'Every path of every public method is evaluated with opaque arguments; which element table a value was numbered by is tracked from its creation to the native call and back. Loops are summarised; the native calls are taken as documented.'),
    'C15': (PY + ', effect analysis of the universe tables (static)',
            'No write to a table or class-level universe state is reachable from any entry point that does not set a universe, and every vertex or edge handed to a native search was compared with the universe on the path. Loops are summarised.'),
    'C16': (PY + ', two-orientation comparison of outcomes (static)',
            'Each edge-carrying parameter is evaluated with a known edge written (u, v) and (v, u); native calls, state changes and outcomes of all paths must coincide. Which parameters carry edges is a list of documented names.'),
})
CLAIMS['C17'] = (PY + ', commit-order analysis of class-level state (static)',
    'Every path of every function that sets a universe is evaluated; once class-level state differs from what it was, no operation that can raise may follow. States of a block that differ only in contents and facts are joined; loops are summarised.')
CLAIMS['C12'] = (PY + ' plus an interprocedural modification and aliasing analysis of the C++ binding and library (static)',
    'Python: every path of every public method is followed; changes of, and families shared with, the receiver and the arguments are reported. C++: which parameters may be changed is computed for every function over typed syntax trees; const declarations are re-checked against casts.')
CLAIMS['C11'] = ('abstract interpretation over the finite domain of Venn regions: Python wrappers, binding slots and family class are followed on every path and the result compared with the specification (static)',
    'All operators and comparisons in all spellings for 0 to 3 other operands; longer argument lists rest on the loop form seen for three.')
CLAIMS['C14'] = ('provenance analysis of the returned family: Python forms by path evaluation, native searches by value-numbering evaluation of binding and C++ search code into diagram terms (static)',
    'Every public search with a graphset parameter in three forms (argument, method, omitted) and every native search with a search-space keyword; all paths. That a TdZdd subset operation returns members of its base is assumed.')
CLAIMS['C20'] = ('level/offset unit analysis: value-numbering evaluation of bindings, searches, specs and evaluators into linear level terms; path evaluation of the Python layer for universe sizes and numbering order (static)',
    'Every native entry point that reads or writes diagrams by level, every function converting between variables and levels, every public Python function for universe sizes, every universe setter for the order of its tables. Known finding: an explicitly set vertex order is not the one the conversions use.')
CLAIMS['C19'] = ('interprocedural argument-flow analysis of the bindings and searches (use/role table, guard polarity, per-path presence of the constraint in the diagram term) plus path evaluation of the Python layer into native keywords (static)',
    'Every native search keyword is followed to the specification it configures, on all paths; every public search parameter is followed to the native keyword on all paths of the Python layer. What the specification classes do with a bound is not decided here (C22, not applicable).')
NA = {
    'C22': 'the sets a search returns depend on run-time frontier states that no static argument in reach bounds; deciding it needs execution or proof of each algorithm',
    'C23': 'the order and completeness of the enumeration depend on run-time weights and diagram shape; no static rule decides it',
    'C24': 'numerical result of a run-time recursion over a diagram; static analysis in reach cannot decide a value',
    'C25': 'equality of families across dump and load is a relation between run-time values (the structural part, complete or rejected, is C07)',
    'C26': 'functional correctness of recursive diagram algorithms; needs proof or execution (operators with set semantics are decided in C11)',
    'C27': 'absence of every abort needs bounds on run-time sizes, depths and memory that no static argument in reach gives',
    'C28': 'which edges a traversal produces is a property of run-time graph data',
}
