EVAL = ("Every rule type's Eval is under one interface contract over a rigid semantics (matches, uses, sticky, node begin) that each "
        "implementation defines by the clauses in its contract and is proved to deliver for all texts, positions, grammars without left recursion and map orders; callers use the contract only. "
        "Quick runs discharge the obligations of this property, and of every relied-on function whose code differs from the fingerprinted tree; thorough runs discharge all. ")
GRAM = "Well-formedness of the rule graph (no missing parts, ranks showing the absence of left recursion) is a precondition. "
CLAIMS.update({
    "C06": EVAL + GRAM + COMMON,
    "C07": EVAL + "The definition clauses of the terminal rules state the literal match. " + COMMON,
    "C08": EVAL + "Longest match, first group and ambiguity are definition clauses of the choice contract; the loops over the alternatives are proved against them. " + COMMON,
    "C09": EVAL + GRAM + COMMON,
    "C10": EVAL + GRAM + COMMON,
    "C11": EVAL + GRAM + COMMON,
    "C12": EVAL + GRAM + "Grammar.EvalRaw and its loops, including the three over maps, are proved against the recursive definition of a complete parse; Grammar.Eval is proved to give a tree exactly when EvalRaw does. What simplification does to the tree is C18 and C19. " + COMMON,
    "C14": EVAL + GRAM + "Every loop and recursion carries a measure that is proved to decrease. " + COMMON,
    "C16": EVAL + GRAM + "The outcome of Grammar.EvalRaw is proved equal to a function of text and grammar that does not mention map order; map ranges are verified for every order. " + COMMON,
    "C17": EVAL + COMMON,
    "C24": EVAL + GRAM + COMMON,
})
CLAIMS["C25"] = EVAL + GRAM + "Grammar.EvalEmbed is proved to cut the text into the parts that a recursive definition gives. " + COMMON
CLAIMS["C28"] = "The counting functions of nodes and trees are proved equal to the recursively defined number of nodes, leaves and sticky nodes, for every finite tree (a rank on nodes excludes cycles). " + COMMON
LOAD = "The functions that load a grammar are under contract over the text of the stream, function by function; callers use the contract only. "
CLAIMS["C20"] = LOAD + "References and registered names are ghost sets kept by the loader; removeUsages, AddRule and Validate are proved to keep or to read them exactly, for every map order. " + COMMON
CLAIMS["C22"] = LOAD + "The meaning of a quoted literal is a recursive definition over its text; the loops of inString, inChar and parseUnicodeEscape are proved against it. " + COMMON
CLAIMS["C23"] = LOAD + "The meaning of a repetition specification is defined over its text; strconv.ParseUint is assumed to read decimal numbers. " + COMMON
CLAIMS["C27"] = LOAD + "Well-formedness of a rule is the recursive predicate that evaluation requires; every loader function is proved to deliver it, not to panic and to decrease a measure. NewGrammarFromFile is not under contract (file system). " + COMMON
CLAIMS["C13"] = EVAL + GRAM + ("Every node of a result carries ghost coordinates into the parsed text without its white space; an invariant over all nodes says that a leaf "
    "holds its part and that the children of a node hold its part without a gap. Node.Text and AST.Text are proved to give that part. Rules with a block escape in reach are excluded, as in the statement. ") + COMMON
CLAIMS["C15"] = EVAL + GRAM + ("Every index, slice, nil, type and conversion obligation of evaluation (Grammar.Eval, with every level of simplification, included), of reading the tree (Text, StringTree, the counts), of simplifying it and of the description of rules in errors is discharged. "
    "Trees are kept apart by ghost intervals of allocation times, an invariant over all nodes. ") + COMMON

TREE = "The methods of nodes and trees are proved by recursion over a rank on nodes, for every finite tree; trees are kept apart by ghost intervals of allocation times. "
CLAIMS["C18"] = TREE + ("A ghost view of the children that stay (in order, by a recursive filter) is what the loops are proved to build, at every depth; the frame conditions say that nothing else changes. ") + COMMON
CLAIMS["C19"] = TREE + ("Every node carries ghost coordinates into a text without white space; merging and simplification are proved to keep the invariant that leaves hold their part and children their part without a gap, "
    "and to join only sticky neighbours that are no tokens, never those of a block. ") + COMMON
CLAIMS["C21"] = EVAL + ("Every write to the heap during evaluation and simplification is proved to be permitted by the modifies clauses, which name no part of a grammar, a rule or a text. Slices are values for the contracts; an analysis of the "
    "ownership of slices on the typed syntax tree (flow-sensitive, fields and calls included) shows on every run that no slice of a grammar, rule or text is written through, appended to or reordered. It is that analysis, not the prover, which decides about elements of slices. ") + COMMON
