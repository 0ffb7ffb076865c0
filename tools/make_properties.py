#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the table is the source)."""
import json, os
P = []
S = "src/pybgl/"
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "observe_at": observe or [],
            "state": state or [],
            "hook_needed": None,
        },
    })

p("C01", "Directed graphs are the multigraph their history describes",
  "After any sequence of vertex and edge additions, removals and clears on a DirectedGraph or IncidenceGraph, with self-loops and parallel edges, the vertices, edges, out-edges, in-edges (IncidenceGraph), degrees, counts, edge(u, v) (found iff exactly one edge u->v), has_vertex() and has_edge() report exactly the multigraph obtained by replaying that sequence. "
  "Every live edge has a hashable descriptor, comparable by a strict total order, different from that of every other live edge and equal wherever the edge is seen; add_vertex() returns an identifier that is not in use; removing a vertex or an edge removes it and (for a vertex) its incident edges, and nothing else; removing one that is not (or no longer) in the graph changes nothing (it may raise). "
  "The free functions of the graph module (vertices, add_edge, out_edges, in_degree, ...) behave as the methods do.",
  ["histories"], "all histories of graph operations, all graphs",
  "The tests replay a few fixed scripts of additions and removals on graphs of at most ten vertices; the guarantee is over all histories, including repeated removals and re-additions of parallel edges and loops.",
  ["graph.py", "incidence_graph.py"],
  [("Graph.add_edge/remove_edge/remove_vertex", "graph.py"), ("IncidenceGraph in/out adjacencies kept in step", "incidence_graph.py")],
  ["Graph public methods"])

p("C02", "Undirected graphs are the multigraph their history describes",
  "After any sequence of vertex and edge additions, removals (with a descriptor taken from edges(), out_edges() or in_edges(), in either orientation) and clears on an UndirectedGraph, each edge {u, v} is listed exactly once by edges(), is an out-edge and an in-edge of u leading to v and of v leading to u, and counts, degrees, edge(u, v) (in both argument orders) and has_edge() agree with the multigraph obtained by replaying the sequence. "
  "add_edge(u, v) returns the descriptor that edges() lists. Parallel edges keep distinct descriptors, a self-loop is a single edge, and removing one edge or vertex leaves every other edge in place, and removing one that is no longer there changes nothing (it may raise).",
  ["histories"], "all histories of undirected graph operations",
  "Tests use one or two fixed undirected graphs; the symmetric bookkeeping of parallel edges after removals is only reachable through longer histories.",
  ["graph.py"], [("UndirectedGraph.add_edge/remove_edge symmetric adjacency sets", "graph.py")],
  ["UndirectedGraph public methods"])

p("C03", "Automata are the deterministic transition systems their history describes",
  "After any sequence of state/transition additions and removals and initial/final changes on Automaton, IncidenceAutomaton, NodeAutomaton or IncidenceNodeAutomaton, delta, delta_word, delta_best_effort, sigma, alphabet, edge, edges, out_edges, in_edges (incidence variants), degrees, finals, is_initial, is_final, is_complete and accepts agree with the deterministic automaton obtained by replaying it. "
  "A second transition leaving a state with a symbol already in use is refused ((None, False)) and changes nothing, whatever the state numbers or symbols are (0 and falsy symbols included); transitions leaving or entering a removed state disappear and no other does; removing a transition or state that is no longer there changes nothing (it may raise). "
  "Queries on BOTTOM (None) yield BOTTOM or an empty set, and constructor options (number of states, initial state, final and symbol property maps) are honoured by all four classes. The free functions of the automaton module behave as the methods do.",
  ["histories"], "all histories of automaton operations, all words",
  "Tests check a handful of small automata built once; duplicates of a transition, state 0 as a target, removals and non-string symbols are not sampled.",
  ["automaton.py", "incidence_automaton.py", "node_automaton.py", "incidence_node_automaton.py"],
  [("Automaton.add_edge determinism guard", "automaton.py"), ("in_adjacencies/predecessors kept in step", "incidence_automaton.py")],
  ["Automaton public methods"])

p("C04", "NFA queries follow the standard epsilon-NFA semantics",
  "For every Nfa reached by any history of state/transition additions and removals and initial/final changes, with epsilon cycles, parallel transitions and several or no initial states, delta_epsilon, delta, delta_word, sigma, alphabet, initials, finals, is_epsilon_transition and accepts agree with the textbook semantics of epsilon-NFAs for every state set, symbol and word. "
  "edges() and out_edges() list each distinct (source, target, symbol) transition exactly once as hashable descriptors whose source, target and label are those of the transition, and removing such a descriptor removes that transition and nothing else (nothing at all when it is no longer there).",
  ["histories", "inputs"], "all NFAs, all histories, all words",
  "Tests use three NFAs and short words; the semantics quantifies over all epsilon structures, words and removal histories.",
  ["nfa.py"], [("delta_epsilon fixpoint", "nfa.py"), ("add_edge/remove_edge", "nfa.py")], ["Nfa public methods"])

p("C05", "A graph view is the filtered graph, live, and views form a set algebra",
  "For every graph g (directed, undirected, incidence, automaton) and vertex/edge filters, GraphView(g, ...) lists exactly the vertices passing the vertex filter and the edges passing the edge filter whose two endpoints pass the vertex filter, for vertices, edges, out_edges, in_edges, degrees and counts, at any time even when g or the filters change afterwards, and never alters g. "
  "A | B keeps the vertices kept by A or by B, A & B those kept by both, A - B those kept by A but not by B; the edges of A | B (A & B) are those accepted by the edge filter of A or of B (of both) joining kept vertices, and the edges of A - B are the edges of A that join two vertices kept by A - B. "
  "Traversals and shortest paths run on a view give what they give on the corresponding stand-alone subgraph, and to_dot shows exactly the view.",
  ["inputs", "histories"], "all graphs, filters and later updates of the graph or filters",
  "Tests check one 10-vertex graph and four fixed filters; interaction of vertex filters, edge filters, dangling edges and set operators needs arbitrary combinations.",
  ["graph_view.py"], [("GraphView filters and __or__/__and__/__sub__", "graph_view.py")], ["GraphView public methods"])

p("C06", "Depth-first search visits exactly the reachable part with correct events",
  "For every graph, source (or set of sources), optional pre-coloured vertices and edge predicate, depth_first_search(_graph) discovers and finishes exactly once each white vertex reachable through accepted edges and white vertices, examines each accepted edge out of each such vertex exactly once, and ends with those vertices coloured BLACK and no other colour changed. "
  "Events are well nested: discover/finish intervals are parenthesised, a tree edge is followed by the discovery of its target, and each examined edge is reported as exactly one of tree, back (target discovered, unfinished) or forward-or-cross (target finished) according to the state of its target at that moment; start_vertex is called once per search root, before its discovery. "
  "depth_first_search_graph covers exactly what is reachable from the given sources, all vertices when sources is None and none when it is empty.",
  ["inputs"], "all graphs, sources, colourings and edge predicates",
  "Tests only check a small directed and undirected graph without asserting the event structure; deep, dense, looping graphs, predicates and pre-coloured maps are not covered.",
  ["depth_first_search.py", "graph_traversal.py"], [("explicit-stack depth_first_search", "depth_first_search.py")], ["visitor callbacks, colour map"])

p("C07", "Breadth-first search visits in order of distance with correct events",
  "For every graph, source or set of sources, and edge predicate, breadth_first_search(_graph) discovers, examines and finishes exactly once each vertex reachable through accepted edges, in non-decreasing hop distance from the sources, and the tree edges form a forest of shortest hop paths. "
  "Each accepted out-edge of a visited vertex is examined exactly once and reported either as a tree edge to an undiscovered vertex or as a non-tree edge qualified gray or black according to whether its target is finished; reached vertices end BLACK and no other vertex changes colour. "
  "breadth_first_search initialises (and resets to WHITE) every vertex first, including those with a stale colour.",
  ["inputs"], "all graphs, sources and edge predicates",
  "Tests check a couple of small graphs; order, distances and edge classification over arbitrary graphs and multi-source starts are unsampled.",
  ["breadth_first_search.py"], [("queue-based breadth_first_search_graph", "breadth_first_search.py")], ["visitor callbacks, colour map"])

p("C08", "Dijkstra computes optimal distances and exactly the optimal predecessors",
  "For every graph with weights that never improve a path under the chosen compare/combine pair (non-negative sums, products, bottlenecks, probabilities, ...), dijkstra_shortest_paths leaves in the distance map the best value over all paths from s (zero for s, infty when unreachable) and, for each reached vertex other than s, a predecessor set that is exactly the set of in-edges achieving that value. "
  "dijkstra_shortest_path(s, t) returns an s-t path of the graph, as consecutive edges, whose combined weight is the optimal one, [] when s is t, and None when t is unreachable; make_shortest_path does so from the predecessor map (null weights and neutral cycles included), make_shortest_paths_dag returns the edges lying on some optimal s-t path (exactly these when no cycle is neutral), and with single_path=True the edges of one such path. "
  "Visitors see each reached vertex discovered (the source excepted), examined and finished once, in order of non-decreasing distance, each of its out-edges examined once and reported relaxed (when it improves or equals the best value known of its target) or not relaxed, reached vertices end BLACK in the colour map given, and inputs (graph, weights) are unchanged.",
  ["inputs"], "all weighted graphs, all sources/targets, all monotone compare/combine algebras",
  "Tests check two or three small graphs with unit or small integer weights; ties, zero weights, parallel edges, loops, custom algebras and decrease-key orders are where shortest path code breaks.",
  ["dijkstra_shortest_paths.py", "heap.py", "algebra.py", "aggregated_visitor.py"],
  [("dijkstra_shortest_paths_iteration relaxation", "dijkstra_shortest_paths.py"), ("Heap.decrease_key", "heap.py")], ["distance and predecessor maps, returned paths"])

p("C09", "Strong components and topological sort are correct on every digraph",
  "For every directed graph, strong_components returns the number of strongly connected components and numbers the vertices 0..n-1 such that two vertices share a number iff each reaches the other, and an edge between different components goes from a higher to a lower number. "
  "For every directed acyclic graph topological_sort returns a deque holding each vertex exactly once with every edge going forward, extending the deque it is given in place on the left, and it raises RuntimeError on every directed graph that has a cycle (self-loops included); neither modifies the graph. The visitors behind both, given to depth-first searches from any vertices, do the same for the part reached, TarjanVisitor also mapping each vertex to the root of its component (its vertex discovered first).",
  ["inputs"], "all directed graphs",
  "Tests check two fixed graphs; Tarjan low-link and cycle-detection bugs show only with particular nestings of components, cross edges and vertex orders.",
  ["strong_components.py", "topological_sort.py", "depth_first_search.py"],
  [("TarjanVisitor", "strong_components.py"), ("TopologicalSortVisitor", "topological_sort.py")], ["component map, returned deque"])

p("C10", "Graph extraction and copy reproduce exactly the relevant reachable part",
  "For every graph, source s and vertex/edge filters, graph_extract reports exactly once each vertex reachable from s through relevant edges leading to relevant vertices, and exactly once each relevant edge between reported vertices (each direction it is examined in for an undirected graph). "
  "graph_copy and automaton_copy create in g_dup, besides what it held before, exactly an isomorphic image of that subgraph (parallel edges, loops and labels included; one edge per undirected edge), expose it through pmap_vertices, pmap_edges and the duplication callbacks, work with every optional argument omitted, and leave the source graph unchanged.",
  ["inputs"], "all graphs, sources, filters and option combinations",
  "Tests copy two fixed graphs; correctness is an isomorphism claim over arbitrary filters, cycles, parallel edges and pre-populated destinations.",
  ["graph_extract.py", "graph_copy.py", "automaton_copy.py"],
  [("DepthFirstSearchExtractVisitor.examine_edge", "graph_extract.py"), ("dup_vertex/examine_relevant_edge", "graph_copy.py")], ["callbacks, g_dup, property maps"])

p("C11", "Reversal is an involution and pruning keeps exactly the useful states",
  "For every IncidenceGraph and IncidenceAutomaton, after reverse_graph out_edges, in_edges, source and target and every algorithm run on the graph see each edge reversed, and reversing twice restores the original view exactly. "
  "find_reachable_vertices returns exactly the vertices reachable from the sources (none when there is no source), and prune_incidence_automaton keeps exactly the states both reachable from the initial state and able to reach a final state, with all transitions among them and their initial/final status, so that the accepted language is unchanged.",
  ["inputs"], "all incidence graphs and automata",
  "Tests prune one automaton and reverse one graph; empty final sets, cycles of dead states and re-entrant initial states are unsampled.",
  ["reverse.py", "prune_incidence_automaton.py"], [("accessor swap", "reverse.py"), ("two-way reachability", "prune_incidence_automaton.py")], ["graph accessors, remaining states"])

p("C12", "cut returns the vertex cut induced by an edge cut",
  "For every acyclic graph, source s and edge predicate, let R be the vertices reachable from s without crossing a cut edge; cut(s, g, in_cut) returns exactly the targets of the cut edges leaving R together with the vertices of R that have no out-edge. "
  "As a consequence every maximal path of the graph starting at s meets a returned vertex, and the graph is unchanged.",
  ["inputs"], "all DAGs, sources and edge predicates",
  "The tests use one tree-like graph and three fixed cuts; nothing samples shared targets, parallel cut edges or vertices that mix cut and non-cut out-edges.",
  ["cut.py"], [("LeavesVisitor and IfPush", "cut.py")], ["returned set"])

p("C13", "Deterministic union, intersection and inclusion decide language operations",
  "For every two deterministic automata (Automaton and its subclasses, Trie, DigitalSequence; any numbering, any initial state, incomplete or with unreachable states), deterministic_union (deterministic_intersection) returns an automaton accepting exactly the words accepted by at least one (both) of them. "
  "deterministic_inclusion returns 0 when the two languages are equal, 1 when the first is strictly included in the second, -1 when the second is strictly included in the first, and None otherwise. "
  "The operands are left unchanged, and a result automaton passed as g12 receives the result.",
  ["inputs"], "all pairs of deterministic automata, all words",
  "Tests compare one pair of tries/automata; language equality over all words needs a product construction over arbitrary automata as oracle.",
  ["deterministic_union.py", "deterministic_intersection.py", "deterministic_inclusion.py", "product_mixin.py", "parallel_breadth_first_search.py"],
  [("ProductMixin.get_or_create_product_vertex", "product_mixin.py"), ("parallel traversal of pairs", "parallel_breadth_first_search.py")], ["languages of the results"])

p("C14", "moore_determination preserves the language and yields a DFA",
  "For every NFA (epsilon cycles, several or no initial states, unreachable states), moore_determination returns a deterministic automaton, with initial state 0, that accepts exactly the words the NFA accepts, whose states are pairwise different reachable subsets and all reachable. "
  "With complete=True (the default) every state has a transition for every symbol of the NFA alphabet; with complete=False no empty (dead) subset state is created; the NFA is unchanged and a dfa passed as argument receives the result.",
  ["inputs"], "all NFAs, all words, both modes",
  "Tests check a few NFAs with a few words; subset construction errors depend on epsilon closures and subset collisions that only arbitrary NFAs produce.",
  ["moore_determination.py", "nfa.py"], [("frozenset subset construction", "moore_determination.py")], ["language and shape of the DFA"])

p("C15", "hopcroft_minimize yields the minimal automaton of the same language",
  "For every complete deterministic IncidenceAutomaton (any initial state, all/none/some final states, unreachable states), hopcroft_minimize returns a deterministic complete automaton accepting exactly the same language, whose states are exactly the classes of language-equivalent states of the input: no two states of the result are equivalent and none is missing. "
  "On an incomplete automaton the language is likewise preserved, and the result is minimal if the automaton is trim. The input is unchanged.",
  ["inputs"], "all deterministic automata, all words",
  "Tests minimise nine fixed automata and compare state counts only; partition refinement errors need particular splitter orders and class sizes.",
  ["hopcroft_minimize.py"], [("hopcroft_agglomerate_states partition refinement", "hopcroft_minimize.py")], ["language and number of states of the result"])

p("C16", "revuz_minimize minimises acyclic automata in place, language preserved",
  "For every acyclic deterministic IncidenceAutomaton or IncidenceNodeAutomaton (unreachable states included), revuz_minimize leaves in place an automaton accepting exactly the same words (its initial state kept when every state is reachable), in which no two remaining states can be merged (same finality, same symbol, same labelled successors) and nothing else was merged, so tries become minimal acyclic automata. "
  "Callbacks are consistent: each removed state is announced once with the state it is merged into, with each transition moved, and in-edges and out-edges of the result agree. revuz_height maps each state to the length of the longest path leaving it and returns the greatest, as revuz_minimize does.",
  ["inputs"], "all finite word sets and acyclic automata",
  "Tests minimise a few fixed automata; merges across heights and of initial/final states depend on arbitrary word sets.",
  ["revuz_minimize.py"], [("signature-based merging by height", "revuz_minimize.py")], ["language and state count after minimisation"])

p("C17", "Compiled regular expressions accept exactly the language of the pattern",
  "For every regular expression in the supported syntax (literals, escapes, character classes and ranges, negated classes, \\d \\w \\s and complements, grouping, alternation, ?, *, +, {m}, {m,}, {m,n}, with bounds of any size), compile_nfa and compile_dfa (complete or not) accept exactly the words over the default alphabet that fully match the pattern, as defined by the usual regular language semantics. "
  "The DFA and NFA of a pattern accept the same words, parse_bracket and parse_repetition return the set and bounds denoted, and re_escape(s), for every s without the symbol ε, compiles to an automaton accepting s and only s. Reversed bounds or ranges, ill-formed repetitions or classes, unsupported escapes in a class and missing operands are refused with an exception.",
  ["inputs", "programs"], "all regular expressions of the syntax, all words",
  "Tests compile about twenty fixed patterns with a few words each; nesting of repetition over alternation over loops is a combinatorial space where Thompson shortcuts become unsound.",
  ["thompson_compile_nfa.py", "regexp.py", "shunting_yard_postfix.py", "moore_determination.py", "nfa.py"],
  [("Thompson fragments (concatenation, alternation, repetition_range)", "thompson_compile_nfa.py"), ("tokenizer_re and operator precedences", "shunting_yard_postfix.py")], ["accepted words"])

p("C18", "Algebraic expressions are parsed and evaluated by precedence rules",
  "For every infix arithmetic expression over non-negative numbers with + - * / ^, unary + and -, parentheses and white space, shunting_yard_compute returns the value given by the declared precedences and associativities (same floating-point operations as a direct evaluation of the syntax tree), whether given a string or (tokenize=False) its tokens. "
  "For any table of binary, prefix and (tightest) postfix operators, shunting_yard_postfix yields the postfix form of the syntax tree, its visitor sees balanced operator pushes and pops and the output in order, and shunting_yard_ast builds a tree (root, ordered children, one vertex per operand or operator) that is that syntax tree, whose to_expr (without prefix operators) denotes it and whose drawing shows it. tokenizer_alg yields the tokens in order with unary signs identified.",
  ["inputs", "programs"], "all well-formed expressions and operator tables",
  "Tests evaluate a dozen expressions; precedence, associativity and parenthesis handling must hold for every nesting.",
  ["shunting_yard_postfix.py", "tokenize.py"], [("shunting_yard_postfix operator stack", "shunting_yard_postfix.py"), ("AlgTokenizeVisitor", "shunting_yard_postfix.py")], ["values, postfix output, AST"])

p("C19", "Tries and digital sequences represent exactly the inserted words",
  "For every list of words, a Trie accepts exactly the words inserted (as strings, digital sequences or whole tries, in any order), its states being exactly the distinct prefixes of those words, with num_edges one less than the number of states, and trie_deterministic_fusion makes the first trie accept the union of both sets (branches that hold no word are kept) while leaving the second unchanged. "
  "A DigitalSequence of w is a read-only automaton whose transitions, degrees and counts are those of the chain spelling w and whose accepted language is {w}. "
  "trie_matching counts, over all prefixes present in either trie, how many are final in neither, only the first, only the second, or both.",
  ["inputs", "histories"], "all word sets and insertion orders",
  "Tests insert a few words; prefixes, duplicates, empty words, shared prefixes across fused tries and insertion order need arbitrary sets.",
  ["trie.py", "trie_matching.py", "digital_sequence.py", "automaton.py"],
  [("TrieDeterministicFusion", "trie.py"), ("delta_best_effort/automaton_insert_string", "automaton.py")], ["accepted words, state counts, counters"])

p("C20", "BK-tree search returns a closest element under any metric",
  "For every set of elements and integer-valued metric, a BKTree holds each distinct inserted element exactly once (inserting an element again adds nothing and returns its vertex), and each child hangs below its parent with a label equal to their distance, shared by its whole subtree. "
  "search(w, d_max) returns (x, d) with x an inserted element at distance d from w, d being the smallest distance of any inserted element and at most d_max, or None when no element is within d_max (or the tree is empty); a search from another vertex considers its subtree only, and searching changes nothing. to_dot labels each vertex with its element and each edge with its distance.",
  ["inputs", "histories"], "all element sets, insertion orders, queries, thresholds and metrics",
  "Tests query a few strings in one tree; the triangle-inequality pruning is only wrong for particular distance configurations.",
  ["bk_tree.py"], [("search pruning by triangle inequality", "bk_tree.py"), ("insert", "bk_tree.py")], ["search results"])

p("C21", "String distances equal their dynamic-programming definitions",
  "For every two strings, levenshtein_distance is the minimal number of insertions, deletions and substitutions, lcs_distance the minimal number of insertions and deletions (len(x)+len(y)-2*LCS), and damerau_levenshtein_distance the minimal number of insertions, deletions, substitutions and transpositions of adjacent characters with no substring edited twice (optimal string alignment). "
  "The memoised and naive variants agree; all are symmetric, zero iff the strings are equal, and invariant under reversing both strings or renaming characters.",
  ["inputs"], "all pairs of strings (bounded by Python's recursion limit)",
  "Tests compare a few pairs; off-by-one and memo-key errors need particular alignments.",
  ["levenshtein_distance.py", "lcs_distance.py", "damerau_levenshtein_distance.py"],
  [("memoised recursion over suffixes", "levenshtein_distance.py")], ["returned distances"])

p("C22", "The heap is a priority queue under any preorder, with decrease-key",
  "For every sequence of pushes, pops and priority decreases over distinct elements, with any key function or total preorder (through Comparable/compare_to_key), each pop returns an element whose current priority is minimal among those in the heap, and elements are neither lost nor duplicated; len, truth value and iteration (all elements in non-decreasing priority, without altering the heap) agree with the content. "
  "Comparable orders its objects exactly as the given preorder does (<, <=, ==, !=, >, >=).",
  ["histories"], "all histories of heap operations and preorders",
  "Tests push and pop two fixed lists; heap order after interleaved decrease_key and ties needs histories.",
  ["heap.py"], [("heapq over (key, index, element), re-heapify on decrease_key", "heap.py")], ["pop results, iteration"])

p("C23", "Graphviz output is valid DOT and reading it back restores the graph",
  "For every graph and every choice of vertices, edges, attributes, property maps and styles, to_dot yields exactly one statement for each selected vertex and edge, with the right connector and attribute values, and for a label made of any printable text (free of the HTML tags and escape sequences graphviz supports) the dot program accepts the output and shows that text. "
  "read_graphviz and read_graphviz_dp applied to to_dot's output rebuild an isomorphic graph (directed or undirected, parallel edges and loops included) with the vertex and edge attributes installed in the given property maps; so does any text in DOT that declares its vertices, identified by integers, before its edges, with one statement per line, whose other lines only reach on_else. "
  "Rendering helpers (run_graphviz, dotstr_to_html, graph_to_html, write_graphviz) give the drawing of the chosen engine and format, replace the file given, and refuse what is not DOT with a RuntimeError; to_dot never alters its arguments.",
  ["inputs"], "all graphs, attribute tables and label texts",
  "Tests check a few outputs by length or presence; escaping must hold for every character sequence and the round trip for every graph.",
  ["graphviz_impl.py", "graphviz.py", "graph.py"],
  [("graphviz_escape_html", "graphviz_impl.py"), ("read_graphviz line patterns", "graphviz.py")], ["DOT text, re-read graph, dot's own parse"])

p("C24", "GraphDp exports exactly the graph and its property maps",
  "For every graph, vertex and edge property maps with arbitrary text values, and vertex/edge selections, GraphDp.to_json returns valid JSON whose graph type, vertices, edges and attributes are exactly those selected, each value being the text of the property. "
  "GraphDp.to_dot renders the graph with its property maps and the style given at construction, keyword arguments taking precedence, and the accessors return what was given.",
  ["inputs"], "all graphs, property maps and styles",
  "Tests serialise one graph with plain values; quoting and option combinations are unsampled.",
  ["graph_dp.py", "graphviz_impl.py"], [("JSON/DOT formatting", "graph_dp.py")], ["JSON and DOT text"])

p("C25", "Automaton builders realise the transition list they are given",
  "For every transition list over arbitrary sortable state names, initial name, final-state map and label map, make_automaton, make_incidence_automaton, make_node_automaton and make_incidence_node_automaton (and a custom Constructor) return an automaton whose states are the names numbered in sorted order, with exactly the given transitions (the first one winning on a repeated (state, symbol)), the initial state and exactly the final states designated by name, and the symbol map looked up by name. "
  "Optional maps may be omitted and the arguments are left unchanged.",
  ["inputs"], "all transition lists, names and maps",
  "Tests build with names 0..n-1 almost only, where name and index coincide.",
  ["automaton.py", "incidence_automaton.py", "node_automaton.py", "incidence_node_automaton.py"],
  [("make_automaton/make_node_automaton name to index maps", "automaton.py")], ["built automaton"])

p("C26", "Parallel search explores exactly the reachable state pairs",
  "For every two deterministic automata (missing transitions leading to BOTTOM), starting pairs and predicate on target pairs, parallel_breadth_first_search examines and finishes exactly once each pair reachable from the starting pairs through pairs accepted by the predicate (a refused pair is discovered but not examined; with the right automata passed to every callback), in order of distance, and examines once, for each such pair and each symbol leaving either state, the pair of corresponding edges (None for a BOTTOM source, BOTTOM target for a missing transition). "
  "Each examined edge pair is reported exactly once as tree edge (followed by discovery) if its target pair is new, gray if that pair is discovered but unfinished, black if it is finished. "
  "An AggregatedVisitor forwards every event with all its arguments to each of its visitors in order, and finds a visitor by the name of its type.",
  ["inputs"], "all pairs of automata, starting pairs, predicates and visitor lists",
  "Tests check event counts on one pair of automata; revisits of the starting pair, BOTTOM pairs and predicates are unsampled.",
  ["parallel_breadth_first_search.py", "aggregated_visitor.py"], [("pair queue and colour map", "parallel_breadth_first_search.py")], ["visitor callbacks"])

p("C27", "Colour conversions are exact and mutually inverse",
  "For all hue, saturation, value/lightness in [0, 1], hsv_to_hsl and hsl_to_hsv agree with the standard conversion (same RGB colour), keep the hue, stay within [0, 1] and are inverse of each other wherever saturation is defined. "
  "html_color_to_graphviz maps every \"hsl(h, s%, l%)\" string to the graphviz \"H, S, V\" triple of the same RGB colour and returns every other colour string unchanged.",
  ["inputs"], "all colours in range",
  "Tests check a few colours; boundary lightness and saturation cases are numeric corners.",
  ["color.py"], [("hsv/hsl formulas", "color.py")], ["returned tuples"])

p("C28", "Property maps and algebra operators obey their contracts",
  "For every key and value, a property map built from a function, a constant, the identity or a defaultdict returns the defined value through [] and get, read-only maps refuse assignment, no map allows deletion, and an associative map reads and writes through its defaultdict (and refuses any other container). "
  "ClosedPlus, ClosedTime, ClosedMax and ClosedMin with any absorbing value return that value iff an operand equals it or the plain operation yields it, and the plain operation result otherwise; Less and GreaterThan are the strict orders.",
  ["inputs"], "all keys, values and operators",
  "Tests sample a few numbers; absorbing elements and falsy keys/values are corner inputs.",
  ["property_map.py", "algebra.py"], [("PropertyMap classes", "property_map.py"), ("ClosedOperator.__call__", "algebra.py")], ["returned values and exceptions"])

p("C29", "Tree traversals visit each vertex once, in depth- or breadth-first order",
  "For every rooted tree and start vertex, dfs_tree and bfs_tree call start_vertex once, discover and finish each descendant exactly once and examine each of its out-edges exactly once between both events, parents before children. "
  "bfs_tree visits in non-decreasing depth; dfs_tree completes the subtree of a vertex before visiting a sibling subtree; both work on a view of a tree and leave it unchanged.",
  ["inputs"], "all trees",
  "Tests visit one small tree; order must hold for every shape.",
  ["graph_traversal.py"], [("dfs_tree/bfs_tree deque discipline", "graph_traversal.py")], ["visitor callbacks"])

p("C30", "Tokenising partitions the text; suffix tries hold exactly the factors",
  "For every string and regular expression, tokenize reports pieces that, in order, concatenate to the string, matched pieces being exactly the non-empty matches found from left to right with their true spans and unmatched pieces being non-empty and covering the gaps. "
  "slices and factors enumerate every factor of length at most max_len once per position plus the empty one, and make_suffix_trie accepts exactly those factors, its states being the distinct ones (a trie it is given receives the missing states and keeps its words), for every string and max_len, 0 included.",
  ["inputs"], "all strings, patterns and lengths",
  "Tests use one or two strings; boundary lengths and empty matches are unsampled.",
  ["tokenize.py", "suffix_trie.py", "trie.py"], [("tokenize gap handling", "tokenize.py"), ("slices/make_suffix_trie", "suffix_trie.py")], ["visitor callbacks, accepted factors"])

p("C31", "Results depend on the arguments only: no hidden state, calls may nest",
  "For every graph or automaton and every algorithm of the library that does not modify it, the result after any history of modifications and earlier calls (of the same or other algorithms, on this graph or others) is the result on a graph with the same history of modifications on which nothing was ever run. "
  "An algorithm started by a callback (visitor, filter, predicate, weight, property map) or a loop of another one, on the same graph or on another one, returns what it returns alone and does not disturb the one under way; an exception raised by a callback reaches the caller, leaves the graph as it was and does not affect later calls; independent objects never share state.",
  ["histories", "inputs", "schedules"], "all graphs, histories and pairs of algorithms",
  "Tests call each algorithm once on a fresh graph; caches, shared default arguments and class-level state only show across calls.",
  ["graph.py", "automaton.py", "nfa.py", "depth_first_search.py", "breadth_first_search.py", "dijkstra_shortest_paths.py", "graph_view.py", "product_mixin.py"],
  [("default arguments and module-level objects", "dijkstra_shortest_paths.py"), ("bound methods swapped in place", "reverse.py")], ["returned values"])

p("C32", "Display helpers show the content they are given; singletons are unique",
  "For every content, title and background colour, beside, html, display_svg and display_body display exactly that content (wrapped in the background if any), and the file written by the latter two holds it, complete, and is what the displayed link leads to. "
  "ipynb_display_graph displays the drawing made by the chosen engine with every vertex, edge and label of the graph; in_ipynb is True in a notebook only. A class with the metaclass Singleton has at most one instance, distinct from that of its base and derived classes.",
  ["inputs", "histories"], "all texts, graphs and sequences of calls",
  "Tests do not check what is displayed; special characters and shared instances are unsampled.",
  ["html.py", "ipynb.py", "singleton.py"], [("templates", "ipynb.py"), ("Singleton.s_instances", "singleton.py")], ["displayed objects, files, instances"])

p("C33", "NFA fragments combine as the language operations they stand for",
  "For all NFAs over any symbols, with one initial and one final state (however many transitions enter or leave them, whatever the numbers of their states and their epsilon symbol), literal, bracket, concatenation, alternation, zero_or_one, zero_or_more, one_or_more, repetition and repetition_range return (nfa, q0, f) where nfa has the single initial state q0, the single final state f, and accepts exactly the language named, nested in any way. "
  "The second operand of concatenation and alternation is left unchanged, and insert_automaton makes the first automaton the disjoint union of both, through the map it returns.",
  ["inputs", "programs"], "all NFAs and nestings of the operations",
  "Tests combine literals only; fragments with loops on their initial or final state, gaps or another epsilon are unsampled.",
  ["thompson_compile_nfa.py", "nfa.py"], [("fragments", "thompson_compile_nfa.py")], ["returned triples, accepted words"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
