"""(Re)writes known_findings.txt: one 'fixed:' line per fix commit of /repo. Run by hand, never by a check."""
import subprocess
PROP = {  # commit subject prefix -> property
"Automaton.add_edge must refuse":"C03","NodeAutomaton.delta":"C03","make_node_automaton must":"C25","IncidenceNodeAutomaton must":"C03",
"Nfa edge descriptors":"C04","Nfa.remove_edge":"C04","automaton_copy must":"C10","depth_first_search_graph":"C06","breadth_first_search functions":"C07",
"graph_copy must":"C10","parallel_breadth":"C26","deterministic_intersection must follow":"C13","deterministic_union and":"C13","the label of a product":"C13",
"hopcroft":"C15","revuz":"C16","topological_sort":"C09","GraphView difference":"C05","GraphView.has_vertex":"C05","AggregatedVisitor":"C26","slices and":"C30",
"RpnDequeAlg":"C18","shunting_yard_compute":"C18","shunting_yard_postfix must":"C18","Ast.to_expr":"C18","Thompson":"C17","repetition_range":"C17","regexps must support the documented":"C17",
"regexps must support every":"C17","parse_bracket":"C17","make_shortest_path must":"C08","make_shortest_paths_dag":"C08","GraphDp.get_dpe":"C24","GraphDp.to_dot":"C24","GraphDp.to_json":"C24",
"enrich_kwargs":"C23","read_graphviz must":"C23","read_graphviz_dp":"C23","GraphvizOptsParser":"C23","write_graphviz":"C23","an empty label":"C23",
}
out = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","16f1e39..HEAD"],text=True)
lines=["# fixed: property=<id> <commit> <what failed>      (suppresses nothing)",
"# finding: property=<id> key=<target>:<specific input>  <what fails>   (none at present)"]
for l in out.splitlines():
    h,s=l.split(" ",1)
    s=s.removeprefix("fix: ")
    k=[p for k,p in PROP.items() if s.startswith(k)]
    assert len(k)==1,(s,k)
    lines.append(f"fixed: property={k[0]} {h} {s}")
open("/verif/known_findings.txt","w").write("\n".join(lines)+"\n")
