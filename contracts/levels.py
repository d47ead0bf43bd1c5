"""Per property: level claimed, what exactly is proved and what is assumed (used by tools/mkmanifest.py and the evidence)."""
TECH = ("contract-based deductive verification of the real source (pyvc: symbolic execution of every function against its specification function, loops as folds or with invariants, "
        "callees by contract; obligations discharged by z3{lean}); failing inputs by replay on the real code")
PARSED = "textX is trusted to build the model from the text and to call the registered object and model processors (that the right ones are registered is proved: parse_from_text)"
TREE = "the parsed model is a tree: different places hold different objects"
CGEN = "cgen is trusted: its results are treated as unknown functions of their arguments, so the arguments are proved, not the text cgen makes of them"
CLI = "argparse is trusted to parse the declared arguments (the declarations and everything after are proved)"
GRAMMAR = "grammar invariants of the model: a range has both ends of one kind, string types have no range, the only texts among fixed values are TRUE and FALSE, a module has at least one definition"
P = {
    "C01": ("get_bit_size, bit_to_bytes and every get_size_bits, for all inputs; lemma width_holds_the_range: the width holds every value of the range and no smaller one does", [GRAMMAR, TREE]),
    "C02": ("asn1_type and str_to_bool, for all type names, ranges and values", [PARSED, GRAMMAR]),
    "C03": ("check_posix and null_exception_catch, for all names and ranges", [PARSED]),
    "C04": ("check_enumerated with a loop invariant, for all enumerations; lemma accepted_enumerations_are_numbered; the facts about finite permutations are proved in Lean",
            [PARSED, "the items of an enumeration are different objects", "known finding K3 is part of the specification: numbers that are all 0 count as absent"]),
    "C05": ("get_definitions_sorted_by_dependency with loop invariants (every definition once, users after the used, termination, a cycle is an error) and the three generate functions that emit in that order", [PARSED, TREE]),
    "C06": ("create_ordered_import_list with loop invariants (each module once, importers first, a cycle is an error) and get_modules_ordered", [PARSED, "module names are unique (C07)"]),
    "C07": ("the validator and builder functions and the command line front end, for all bundles and lists", [PARSED, CLI]),
    "C08": ("the type check, import resolution, module checks, the builder and the command line front end, for all bundles and lists", [PARSED, CLI, GRAMMAR]),
    "C09": ("_check_with_component (recursion through its contract) and everything that calls it, for all nestings", [PARSED]),
    "C10": ("the mapping of members to C fields, the structure, union and header functions, for all structures", [PARSED, CGEN, TREE, GRAMMAR]),
    "C11": ("message id, constants and the header they are written to, for all fixed values", [PARSED, CGEN, CLI]),
    "C12": ("the encoding of components and the image that is written, for all structures, values and byte orders", [PARSED, "struct.pack is trusted", CLI, TREE]),
    "C13": ("flattening, definition lookup, limits, the printed packet and generate_cosmos, for all messages",
            [PARSED, CLI, GRAMMAR, "the item list of a nested structure is an unknown function of definition, module and fixed values, tied to the code by the contract of _create_telemetry_item_data",
             "known findings K2 and K4 are part of the specification"]),
    "C14": ("lemmas over the contracts of C01, C10 and C13: the C field of a kind and range has exactly the width COSMOS is given for that kind and range; an enumeration numbered as C04 guarantees has the width of 0..n-1",
            [PARSED, GRAMMAR, "classification as C02 guarantees, numbering as C04 guarantees", "an enumeration has at most 2^64 items"]),
    "C15": ("frame contracts: no function of any generator writes to the model; that the output is a function of model and configuration is the statement of the contracts of C10-C13, C16, C17, C19", [TREE]),
    "C16": ("the initialiser functions and the files they are written to, for all fixed values; known finding K1 is part of the specification", [PARSED, CGEN, CLI]),
    "C17": ("header, guard, include and file name functions and the generate functions; lemmas in Lean: different module names give different file names and guards", [PARSED, CGEN, TREE]),
    "C18": ("_resolve_types, the import resolution, build and the size functions, for all bundles", [PARSED, TREE, "type names and module names are unique (C07)"]),
    "C19": ("the enum printer, the COSMOS states and items, for all enumerations", [PARSED, "numbering as C04 guarantees"]),
}
LEAN = {"C04", "C17"}
LEVELS = {k: dict(level="proof", technique=TECH.format(lean=", lemmas by Lean" if k in LEAN else ""),
                  note="proved: " + what + ". Assumed: " + "; ".join(assumed + ["Python semantics as encoded in pyvc", "z3"]) + ".", assumptions=assumed) for k, (what, assumed) in P.items()}
NOT_APPLICABLE = {
    "C20": "the parser is generated at run time by textX/Arpeggio from a grammar string: no function of /repo implements it, so no contract on the repository's code can express or decide it (the dependency is assumed)",
    "C21": "whether text is valid C is decided by a C compiler, not by a postcondition over strings that this verifier can express; known shapes that are not valid C are listed in DESIGN.md",
}
