"""Which module of pbt.props holds the targets of a property."""
MODULES = {
    "C01": "graphs", "C02": "graphs", "C05": "views",
    "C03": "automata", "C04": "automata", "C25": "automata",
    "C06": "search", "C07": "search", "C26": "search", "C29": "search",
    "C08": "paths", "C09": "structure", "C10": "structure", "C11": "structure", "C12": "structure",
    "C13": "lang", "C14": "lang", "C15": "lang", "C16": "lang",
    "C17": "regex", "C18": "algebra", "C30": "words",
    "C19": "tries", "C20": "words", "C21": "words", "C22": "words",
    "C23": "dot", "C24": "dot",
    "C31": "context", "C32": "display",
    "C27": "misc", "C28": "misc", "C33": "fragments",
}

# How many times the numbers of examples written in the targets the quick tier runs (the cheap checks can afford more)
QUICK = {p: 4 for p in "C08 C09 C13 C14 C15 C16 C20 C21 C22 C27 C28 C29 C30 C32".split()}
QUICK.update({p: 3 for p in "C01 C04 C06 C07 C10 C11 C12 C18 C19 C25 C26".split()})
