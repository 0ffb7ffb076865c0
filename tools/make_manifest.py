"""Writes MANIFEST.json."""
import json
import os

TECH = {
    "C01": "model-based histories against a reference multigraph", "C02": "model-based histories against a reference multigraph",
    "C03": "model-based histories against a reference transition table", "C04": "model-based histories against textbook epsilon-NFA semantics",
    "C05": "differential: views against directly filtered graphs", "C06": "generated graphs, invariant over the event history",
    "C07": "generated graphs, invariant over the event history", "C08": "generated weighted graphs against fixpoint and path enumeration",
    "C09": "generated digraphs against the reachability closure", "C10": "generated graphs, isomorphism through the returned maps",
    "C11": "generated graphs and automata, involution and reachability oracles", "C12": "generated graphs against the definition of the cut",
    "C13": "generated automata against the product construction", "C14": "generated NFAs against the subset construction",
    "C15": "generated DFAs against partition refinement", "C16": "generated acyclic automata against language equality and partition refinement",
    "C17": "generated syntax trees against a position automaton", "C18": "generated expressions against a recursive-descent parser",
    "C19": "insertion histories against sets of prefixes", "C20": "generated element sets and metrics against exhaustive search",
    "C21": "generated string pairs against dynamic programming", "C22": "operation histories against a reference priority queue",
    "C23": "generated graphs, independent DOT parser, dot program and round trip", "C24": "generated graphs, JSON and DOT parsers",
    "C25": "generated transition lists against the list itself", "C26": "generated automata pairs, invariant over the event history",
    "C27": "generated and enumerated colours against colorsys", "C28": "generated operations against their definitions",
    "C29": "generated trees, invariant over the event history", "C30": "generated strings and patterns against finditer and sets of factors",
    "C31": "generated histories and nested calls, metamorphic: same result as on an untouched replay", "C32": "generated contents and graphs, stand-in of IPython",
    "C33": "generated combinations of NFAs against the operations on truncated languages",
}
NOTE = ("Generated-input search with shrinking: no violation among the cases counted in the evidence file, whose sizes are bounded as DESIGN.md says; "
        "not a proof. The thorough tier draws larger cases, 25 times as many.")
props = [json.loads(x)["id"] for x in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import hypothesis'",
    "checks": [
        {"property": p, "quick_cmd": "python3-vt run.py %s --tier quick" % p, "thorough_cmd": "python3-vt run.py %s --tier thorough" % p,
         "technique": "property-based testing: " + TECH[p], "level": "exploration", "level_note": NOTE}
        for p in props
    ],
    "not_applicable": [],
}
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
