import importlib

RULES = {
    "C01": "panics", "C02": "panics", "C03": "panics",
    "C17": "geometry", "C18": "geometry",
    "C23": "deriving", "C26": "deriving", "C24": "matching", "C25": "matching", "C14": "eqhash", "C16": "chance",
    "C12": "adding", "C13": "adding", "C09": "adding",
    "C27": "plant", "C28": "family", "C19": "turtle", "C30": "lexing", "C31": "printing", "C22": "failing",
    "C04": "tool", "C11": "repeat", "C33": "progress", "C32": "frequency", "C20": "drawing", "C21": "drawing",
    "C05": "registers", "C06": "registers", "C07": "registers",
    "C08": "locking", "C10": "effects", "C15": "safety",
}

# property -> (technique, level, level note)
ABS = "static analysis: relational abstract interpretation of MIR (trace partitioning, linear and string-boundary domain, loop invariants)"
REL = "static analysis: relational abstract interpretation of MIR (results as terms over the arguments, loops closed into folds, comparison of normal forms)"
DOC = {
    "C01": (ABS, "proof", "every public parsing, conversion and storing function, all inputs; std models trusted"),
    "C02": (ABS, "proof", "every public matching and deriving function, all inputs; std models trusted"),
    "C03": (ABS, "proof", "every public interpreting, geometry and rendering function, all inputs; std models trusted"),
    "C17": (REL, "proof", "every operator and conversion, all inputs, up to rounding"),
    "C18": (REL, "proof", "all paths and collections with finite coordinates, up to rounding"),
    "C23": (REL, "proof", "all strings and rule lists; per-pass relation of the rewriting loop"),
    "C26": (REL, "proof", "all strings, rule lists and numbers of iterations; per-pass relation of the iterating loop"),
    "C24": (REL, "proof", "all rule lists, strings and positions; quantified facts of the searching loop"),
    "C12": (REL, "proof", "both stores, all productions and lists of rules"),
    "C13": (REL, "proof", "both stores and parse-and-add, all productions; every iterator over symbols"),
    "C09": (REL, "proof", "both stores and parse-and-add, all inputs; order of changes, conversions and errors on every path"),
    "C11": ("static analysis: call-graph reachability of sources of variation, and abstract interpretation of MIR for the guard on random draws", "proof", "every call path from the repeatable operations to a draw; all functions reachable from them scanned"),
    "C05": (REL, "proof", "every guarded section on the register, for every content it may find; hence every interleaving"),
    "C06": (REL, "proof", "every guarded section on both registers, for every content; order of insertions and releases on every path"),
    "C07": (REL, "proof", "every guarded section on the register of families, for every content; hence every interleaving"),
    "C31": (REL, "proof", "all strings and symbols; loops closed into repetitions"),
    "C22": (REL, "proof", "every function returning a result, all outcomes of its steps; std and caller's conversions may fail at will"),
    "C27": (REL, "proof", "all plant descriptions; transition table of the reading loop"),
    "C19": (REL, "proof", "all strings, angles and symbol stores; transition table of the interpreting loop"),
    "C28": (REL, "proof", "every name looked up against every name defined; all families and definitions"),
    "C20": (REL, "proof", "every element and transformation, all decorations; escaping shown character by character"),
    "C21": (REL, "proof", "all drawings with bounds and all canvas sizes, up to rounding"),
    "C30": (REL, "proof", "all texts and iterator states; loop regions by induction"),
    "C25": (REL, "proof", "all heads, strings and positions; quantified facts of the comparing loops"),
    "C14": ("static analysis: abstract interpretation of MIR, path facts of eq and hash compared by congruence closure", "proof",
            "every hashable type, all pairs of paths"),
    "C04": ("static analysis: abstract interpretation of MIR, every path of main with the outcome of each step", "proof", "all argument values and outcomes of the steps; the library's own steps are decided by other properties"),
    "C33": ("static analysis: abstract interpretation of MIR (ranking of the ways round each loop under loop invariants), structural descent over the call graph", "proof", "every loop, iterator and call cycle reachable from a public function; std operations and caller-supplied iterators assumed finite"),
    "C32": ("static analysis: abstract interpretation of MIR, measure of the drawn numbers leading to each body", "other", "rules of up to four bodies, every combination of given and missing chances; thresholds compared at chances that include every constant of the code; rand draws uniformly"),
    "C16": (REL, "proof", "every constructor of bodies and chances, all numbers"),
    "C08": ("static analysis: guard-liveness dataflow over MIR, lock-order graph and foreign-code-under-lock over the resolved call graph",
            "proof", "all instances of all functions; std is assumed not to take this crate's locks"),
    "C10": ("static analysis: interprocedural effect analysis over MIR plus type-structure lint for interior mutability",
            "proof", "all functions but the adding and registering operations"),
    "C15": ("static analysis: HIR query for unsafe/statics, trait-solver query for Send/Sync",
            "proof", "both crates, after macro expansion"),
}


def run(pid, lib, bn):
    m = importlib.import_module("sa.rules." + RULES[pid])
    return getattr(m, "check_" + pid)(lib, bn)
