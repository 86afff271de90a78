"""What each property is decided against, and the cost of its quick check in seconds (for DESIGN.md)."""
ORACLES = {
"V01": ("running every history of operations on `Vector` with elements that audit their own construction and destruction, symbolic element values, against a plain array; contents, size, capacity, element lifetimes and blocks are compared after every step.", 92),
"L01": ("running every history on `List` against a plain array, walked in both directions (links and count), elements and blocks audited, with an allocator that may refuse at any request.", 30),
"H01": ("running every history on `HashMap` with fully symbolic keys (the solver decides which keys and buckets coincide) and with keys picked to share buckets, against an unordered list of pairs.", 50),
"S01": ("running histories on `String` with symbolic bytes against byte strings; C strings have exactly fitting storage so that reading past the terminator is a memory violation.", 40),
"B01": ("asserting inverse laws and arithmetic definitions over every 32-bit (64-bit) input.", 30),
"B02": ("asserting the words SPIR-V prescribes for every value of every literal type and for strings of symbolic bytes.", 30),
"A01": ("arithmetic definition of alignment over 62-bit symbolic pointers and spaces; histories on the fixed-buffer allocator with symbolic sizes and capacity: alignment, bounds, disjointness, and what may be refused.", 66),
"A02": ("an allocator that records every block: returned once, with its size, none left after destruction, in any history of building, reading, failing reads, resetting, removing and moving.", 35),
"W01": ("building every module of a small builder grammar with symbolic literals and version, splitting the written words by an own table of operand layouts, and finding every construct in its section exactly as it was given; a writer that fails at every word; a preset bound.", 45),
"W02": ("ids of the written words: unique, below the bound, defined, dense; after renumbering a parsed module the words differ from before by one bijection of ids only.", 56),
"R01": ("generating well-formed words with symbolic literals, strings, version and generator, reading and writing them: the instruction stream is the same, word for word (with the stated freedom of order).", 139),
"R02": ("reading every bounded word stream: memory safety, termination (step bound), everything released; a stream that is truncated, does not tile, or lacks required operands is refused.", 125),
"R03": ("building, writing, reading with full reconstruction and asking for the same types, constants and names again: found under the same instruction, nothing is declared twice.", 60),
"T01": ("describing each type by an own token string next to the library's `Type`; the written declarations decode to that string, equal descriptions share one declaration, different ones do not, parts come before wholes.", 107),
"T02": ("answering every query from the own description with symbolic widths, counts, classes and indices.", 31),
"C01": ("describing each constant by its words; the written instruction decodes to them, equal ones share one declaration, parts come first.", 43),
"O01": ("a table of operand kinds, opcode and result type written from the specification (`harness/optypes.h`, `o01_ops.cpp`), over all type combinations and over symbolic component widths and counts.", 100),
"O02": ("the same table from the other side: what it excludes must be refused with nothing added to block, types or constants.", 80),
"I01": ("the specification's rules for image type, coordinate, reference, component and texel, with symbolic dimension, sampled, format, flags, widths, counts and image operand masks.", 26),
"O03": ("walking an own tree of the composite by the indices: which paths name a part and its type, refusing the rest; masks and versions of memory access.", 35),
"F01": ("an own picture of blocks, edges, merges and terminators that the written words, the branch targets and `ControlFlowGraph` have to agree with; also after reading the module back.", 100),
"E01": ("reachability over calls and uses computed by the harness from the decoded words, with the version's rule of which storage classes belong to the interface; symbolic classes and version.", 90),
"K01": ("the specification's table of implied capabilities (`harness/caps.h`) for every 32-bit word; sets of strings for extensions and imports; the requirement of every opcode against the grammar's and the closure over base capabilities.", 49),
"G01": ("a snapshot of the registry (`harness/registry.h`) taken once from the pinned grammar by `tools/gen_registry.py` and cross-checked there with the enumerations of Spv.h, Glsl.h and OpenCl.h; every lookup for every key (symbolic), the classifications of opcodes against lists written from the specification.", 71),
"U01": ("enumerating all operands of the module before and after: uses, replacement, removal, and what lookups find.", 50),
"X01": ("pairing ids of library and linked module, starting from the imported symbols, and following all definitions in the two decoded streams: instruction by instruction equal up to the pairing, which must be a bijection; counts of functions, variables, decorations, names; import decorations, capability and version.", 60),
"J01": ("rendering the same instruction from what was put in (registry, ids, names, strings, enumerants) and comparing token by token, or text by text between kinds of printers; cut-off and arbitrary operand lists for memory safety and reporting.", 55),
"Q01": ("answering the queries from the declared decorations, modes and variables, with symbolic kinds, members, literals, classes and queried values; the descriptor type from Vulkan's table.", 61),
"M01": ("comparing the written words, ownership of every instruction, lookups and further building of the moved object with those of the source before.", 50),
"N01": ("an own list of edges and own evaluation; call graphs from the calls put in (symbolic edge masks); a model of callables.", 57),
}
