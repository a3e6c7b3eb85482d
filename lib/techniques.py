"""The technique and level note of each check, for MANIFEST.json."""
TRACE = ("TLA+ (TLC) trace validation: runs recorded from real generated parsers, on inputs generated from a cover of the "
         "specification's automaton and from complete small families (spec/Enumerate.tla), have to be behaviours of the LR(1) machine "
         "of spec/Parsegen.tla + spec/Parser.tla (spec/Trace.tla; very long runs: spec/Long.tla); ")
NOTE = ("For every explored grammar and input TLC executes the specification next to the recorded run of the real code and compares "
        "what this property is about. The specification itself is model-checked against declarative semantics (languages, viable "
        "prefixes, parse trees) on all small grammars in spec/MCParsegen.tla, in the same check. Trusts TLC, rustc and the recording run-time; says "
        "nothing about grammars and inputs that were not explored.")
TECH = {
    "C01": (TRACE + "here: sentences are accepted", NOTE),
    "C02": (TRACE + "here: only sentences are accepted", NOTE),
    "C03": (TRACE + "here: values", NOTE),
    "C04": (TRACE + "here: order of actions and requests", NOTE),
    "C05": (TRACE + "here: position and name of the offending token", NOTE),
    "C06": (TRACE + "here: the expected list", NOTE),
    "C07": (TRACE + "here: requests to the token iterator and lexer errors", NOTE),
    "C08": ("TLA+ (TLC) verdict validation: the macro's verdict and the compiler's verdict on its output, for grammars with sampled "
            "declaration syntax and for all grammars of small families, against the specification's classification (well-formed, productive, conflict-free) by spec/Parsegen.tla", NOTE),
    "C09": ("TLA+ (TLC) verdict and trace validation: verdicts on conflicting grammars against the conflict policy of spec/Parsegen.tla, "
            "and runs of parsers with resolved shift/reduce conflicts against its shift-preferring machine, complete small families included", NOTE),
    "C10": ("TLA+ (TLC) generated cases: spec/Tokens.tla generates token types, patterns and tokens with the terminal and the bound parts "
            "each has to have; replayed into real lexer-level parsers", NOTE),
    "C11": (TRACE + "here: every sentence of every non-terminal on every entry point, and absence of further parsers", NOTE),
    "C12": ("TLA+ (TLC) model-based tests: spec/Front.tla is a state machine of declarations; its behaviours (well-formed and each kind of "
            "malformed) are replayed into the real macro and the verdicts compared", NOTE),
    "C13": (TRACE + "here: termination without panic, with deep, very long and endless token streams", NOTE),
    "C14": ("TLA+ (TLC) model-based tests: spec/Perm.tla generates permutations and renamings of declarations and judges that the runs of "
            "the real parsers correspond; spec/Order.tla and spec/Iso.tla check the same of the specification", NOTE),
    "C15": ("TLA+ (TLC) model-based tests: spec/Repro.tla generates histories of expansions (within a compilation, across compilations, "
            "after other expansions, in varying environments) and judges that the real macro's output is a function of the grammar", NOTE),
    "C16": ("TLA+ (TLC) interleaving generation and trace validation: spec/Sessions.tla generates interleavings of parses in threads, nested "
            "and in sequence; enforced on real parsers, the recorded events have to be those of the product of the solo runs; also threads running freely and first uses in fresh processes", NOTE),
    "C17": ("TLA+ (TLC) trace validation: accounts of who owned and dropped each token, result and lexer error, recorded around real "
            "generated parsers with successful, failing and panicking parses, have to be those of the ownership machine of spec/Owner.tla "
            "(which refines spec/Parser.tla and is model-checked in spec/MCOwner.tla)", NOTE),
}
