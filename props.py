# Which harnesses decide which property, and with which bounds.
PROPS = {
 "V01": dict(units=[dict(h="v01_vector.cpp", quick=dict(steps=2), thorough=dict(steps=3, ins=3), covers=["append several", "insert in the middle", "assign a tail", "shrink", "grow within capacity", "copy assign"])],
   bounds="histories of 2 (thorough: 3) operations out of 16 kinds on two arrays, starting from every size 0..3 and slack 0,2,4; insert counts 0..3, resize/reserve 0..6; element values unconstrained bytes",
   outside="longer histories, larger arrays, aliasing arguments, allocation failure in the middle of an operation"),
 "L01": dict(units=[dict(h="l01_list.cpp", quick=dict(steps=3), thorough=dict(steps=4), covers=["copy onto a longer list", "equal lists", "erase the last element", "erase the only element", "find in the middle", "independent copy", "insert after in the middle", "insert before in the middle", "refused insertion"])],
   bounds="histories of 3 (thorough: 4) operations on two lists; element values unconstrained; an allocator that may refuse at any request",
   outside="longer histories"),
 "H01": dict(units=[dict(name="symbolic-keys", h="h01_hashmap.cpp", quick=dict(steps=2), thorough=dict(steps=2), covers=["distinct keys", "erase present", "findKey hit", "move assign", "unique insertion of a present key"]),
                    dict(name="shared-buckets", h="h01_hashmap.cpp", quick=dict(enum=1, steps=3), thorough=dict(enum=1, steps=4), covers=["distinct keys", "erase present", "findKey hit", "move assign", "range erase of several", "unique insertion of a present key"]),
                    dict(name="filled", h="h01_hashmap.cpp", quick=dict(enum=1, pre=4, steps=1), thorough=dict(enum=1, pre=4, steps=2), covers=["erase present", "range erase of several"])],
   bounds="histories of 2 operations over unconstrained keys and of 3 (thorough: 4) operations over keys chosen from a set with colliding buckets, and 1 (thorough: 2) operations on maps already holding 0..4 such pairs; one or two maps, few buckets",
   outside="different keys with the same 64-bit hash (the map identifies keys by hash), longer histories"),
 "S01": dict(units=[dict(h="s01_string.cpp", quick=dict(steps=2, len=4), thorough=dict(steps=2, len=6), covers=["append a part", "append nothing", "append to itself", "equal strings", "insert an empty string", "insert in the middle", "proper substring"])],
   bounds="2 operations on strings of 0..4 (thorough 6) unconstrained bytes each",
   outside="longer strings and histories, const char* arguments pointing into the string itself"),
 "A01": dict(units=[dict(name="histories", h="a01_arena.cpp", quick=dict(steps=3), thorough=dict(steps=4), covers=["aligned", "refused", "reuse", "served after a refusal"]),
                    dict(name="two-blocks", h="a01_arena.cpp", quick=dict(pre=2, steps=2), thorough=dict(pre=2, steps=2), covers=["refused", "reuse"])],
   bounds="alignPowerOf2: every 62-bit pointer and space, 64-bit size, alignments 1..4096; allocator: histories of 3 (thorough: 4) requests and returns, and of 2 behind two unaligned requests, with any size 0..255 or within 256 of 2^64, any capacity 0..64, alignments 1,4,16, buffers at offsets 0,1,7",
   outside="larger buffers, longer histories"),
 "B01": dict(units=[dict(h="b01_words.cpp", quick=dict(bits=12), thorough=dict(bits=16), covers=["flags", "packing", "short buffer", "text"])],
   bounds="packing, version, generator, terminator and flag helpers: every 32-bit input; uintToString for bases 2..16: every 32/64-bit word for power-of-two bases, otherwise every value below 2^12 (thorough 2^16) and values next to powers of the base",
   outside="large values in bases that are not powers of two, away from powers of the base (division by a constant of wide symbolic values)"),
 "B02": dict(units=[dict(h="b02_literals.cpp", quick=dict(len=9), thorough=dict(len=13), covers=["not terminated", "operands", "prefix", "strings", "terminated"])],
   bounds="every value of every literal type; strings of 0..9 (thorough 13) unconstrained non-zero bytes",
   outside="longer strings"),
 "W01": dict(units=[dict(name="modules", h="w01_write.cpp", quick=dict(steps=2), thorough=dict(steps=2), covers=["branches", "declaration", "entry point", "entry point without body", "refused", "unterminated block", "written"]),
                    dict(name="writer-failure", h="w01_write.cpp", quick=dict(steps=1, fail=1), thorough=dict(steps=2, light=1, fail=1), covers=["entry point", "refused", "written"]),
                    dict(name="longer-modules", h="w01_write.cpp", thorough_only=True, thorough=dict(steps=3, light=1), covers=["declaration", "entry point", "written"])],
   bounds="every module of 2 (thorough also: 3, with simpler function bodies) constructs out of 16 kinds (capabilities, extensions, imports, debug, names, decorations, constants, types, variables, undefs, declarations, functions with branches, entry points, unfinished functions, lines) with symbolic literals and version; a writer failing at every word position",
   outside="longer modules, instructions the builder grammar does not create"),
 "W02": dict(units=[dict(name="modules", h="w01_write.cpp", quick=dict(steps=2, ids=1), thorough=dict(steps=2, ids=1), covers=["branches", "declaration", "entry point", "entry point without body", "written"]),
                    dict(name="compaction", h="w02_compact.cpp", quick=dict(k=1), thorough=dict(k=1), covers=["with entry point", "without entry point"]),
                    dict(name="compaction-of-two", h="w02_compact.cpp", thorough_only=True, thorough=dict(k=2, hi=35), covers=["with entry point", "without entry point"])],
   bounds="built modules as for W01; parsed modules: the skeleton and features of R01 (one, thorough also two declaration features) with descending and with sparse original ids",
   outside="longer modules; ids are numbered by two fixed schemes instead of being symbolic (they become hash keys)"),
 "R02": dict(units=[dict(name="one-instruction", h="r02_reader.cpp", quick=dict(words=5, flavours=3), thorough=dict(words=6, flavours=4), covers=["accepted", "refused", "resolved", "unresolved", "reconstructed"]),
                    dict(name="header", h="r02_reader.cpp", quick=dict(mode=1), thorough=dict(mode=1), covers=["damaged header"]),
                    dict(name="two-instructions", h="r02_reader.cpp", quick=dict(count=2, words=3, flavours=2, lo=18, hi=43), thorough=dict(count=2, words=2, flavours=2), covers=["accepted", "refused"])],
   bounds="one instruction out of 80 opcodes (valid and invalid) with an encoded length of 0..5 (thorough 6) words or 65535 behind nothing, type declarations, a function head or a block, followed by nothing or a proper end; literals fully symbolic, ids and enumerants from a set containing defined, undefined, zero, own and huge ones; two such instructions of up to 3 words from the type and constant opcodes (thorough: 2 words, all opcodes); every header of 0..5 symbolic words",
   outside="longer hostile streams; literals that become part of types (hash keys) come from a small set"),
 "R01": dict(units=[dict(name="one-feature", h="r01_roundtrip.cpp", quick=dict(k=1), thorough=dict(k=1), covers=["resolved"]),
                    dict(name="two-declarations", h="r01_roundtrip.cpp", quick=dict(k=2, hi=35, fixed=1), thorough=dict(k=2, hi=64), time=dict(thorough=2400), covers=["resolved"]),
                    dict(name="placement", h="r01_placement.cpp", quick={}, thorough={}, covers=["a switch on a 32 bit selector is reproduced", "line information inside a block is reproduced", "a specialization constant operation stays between constants"])],
   bounds="a skeleton module with one of 65 features (declarations, debug, decorations, types, constants, variables, functions, control flow with every terminator, memory and image operand masks, and any of 190 plain instructions with 0..2 optional operands), with two declaration features (thorough: any two features except the plain instructions); version, generator, literals and string bytes symbolic, two id numberings, with and without resolving; placement of module level OpUndef and OpLine, 64 bit switches",
   outside="larger modules; capabilities, extensions and imports are compared as sets (their mutual order carries no meaning); functions of entry points may follow the other functions"),
 "T01": dict(units=[dict(name="every-kind", h="t01_types.cpp", quick=dict(second=0, rich=1, leaves=16), thorough=dict(second=0, rich=1, leaves=16, depth=2, nodes=4), covers=[]),
                    dict(name="nested", h="t01_types.cpp", quick=dict(second=0, rich=1, leaves=4, depth=2, nodes=4), thorough=dict(second=0, rich=1, leaves=3, depth=3, nodes=4), covers=[]),
                    dict(name="pairs", h="t01_types.cpp", quick=dict(leaves=2), thorough=dict(leaves=6), covers=["identical", "different"]),
                    dict(name="image-pairs", h="t01_types.cpp", quick=dict(leaves=1, kinds=0x301, rich=1), thorough=dict(leaves=4, kinds=0x301, rich=1), covers=["identical", "different"]),
                    dict(name="nested-pairs", h="t01_types.cpp", quick=dict(leaves=2, kinds=33, depth=3, nodes=4), thorough=dict(leaves=2, kinds=97, depth=3, nodes=4), covers=["identical", "different"]),
                    dict(name="compiled", h="t01_types.cpp", quick=dict(tpl=2), thorough=dict(tpl=2), covers=["identical", "different"]),
                    dict(name="compiled-and-built", h="t01_types.cpp", quick=dict(tpl=1, leaves=3), thorough=dict(tpl=1, leaves=16, rich=1), covers=["identical", "different"]),
                    dict(name="numbers", h="t01_types.cpp", quick=dict(wide=1, leaves=2, kinds=11), thorough=dict(wide=1, leaves=2, kinds=0x3f, second=0), time=dict(thorough=1800), covers=["identical", "different"])],
   bounds="one or two types requested (built at run time through Type or named at compile time) out of 16 leaf kinds and 9 composite kinds, nested up to 3 deep with up to 4 nodes in a budget; each property from a set of 2..7 values, one width, length or count per request a fully symbolic byte",
   outside="deeper nestings, OpTypeOpaque and vendor types, collisions of 64 bit hashes between types outside the bounds, forward pointers"),
 "T02": dict(units=[dict(name="classification", h="t02_queries.cpp", quick=dict(mode=0, leaves=6, depth=2), thorough=dict(mode=0, depth=2), covers=["matrix", "other", "scalar", "vector"]),
                    dict(name="all-leaves", h="t02_queries.cpp", quick=dict(mode=0), thorough=dict(mode=0, depth=3, leaves=2), covers=["matrix", "other", "scalar", "vector"]),
                    dict(name="pairs", h="t02_queries.cpp", quick=dict(mode=1, leaves=4), thorough=dict(mode=1, leaves=16), covers=["equal", "unequal"]),
                    dict(name="nested-pairs", h="t02_queries.cpp", quick=dict(mode=1, leaves=2, depth=2, nodes=3), thorough=dict(mode=1, leaves=3, depth=2, nodes=4), covers=["equal", "unequal"]),
                    dict(name="navigation", h="t02_queries.cpp", quick=dict(mode=2, depth=2, leaves=2), thorough=dict(mode=2, depth=3, leaves=2, nodes=5), covers=["absent", "reached"]),
                    dict(name="wrapping", h="t02_queries.cpp", quick=dict(mode=3, depth=2, leaves=4), thorough=dict(mode=3, depth=2), covers=[]),
                    dict(name="twins", h="t02_queries.cpp", quick=dict(mode=4, depth=2, leaves=4), thorough=dict(mode=4, depth=3, leaves=4), covers=[])],
   bounds="types out of 16 leaf kinds and 9 composite kinds nested up to 2 deep (thorough 3), every width, length, count, storage class, index and every asked value a fully symbolic word; pairs of such types; index paths of 1..3 symbolic indices; moves, copies and wraps",
   outside="deeper nestings; names of types (getString) and image format conversion"),
 "R03": dict(units=[dict(name="types", h="r03_reread.cpp", quick=dict(mode=0), thorough=dict(mode=0, depth=2, leaves=6), covers=[]),
                    dict(name="numbers", h="r03_reread.cpp", quick=dict(mode=0, wide=1, leaves=1, kinds=2), thorough=dict(mode=0, wide=1, leaves=2, kinds=0x3f), time=dict(thorough=1800), covers=[]),
                    dict(name="constants", h="r03_reread.cpp", quick=dict(mode=1, kinds=4), thorough=dict(mode=1, kinds=11), covers=["specialized", "unspecialized"]),
                    dict(name="two-constants", h="r03_reread.cpp", quick=dict(mode=1, wide=0, few=1, two=1), thorough=dict(mode=1, wide=0, two=1), covers=["specialized", "unspecialized"]),
                    dict(name="names", h="r03_reread.cpp", quick=dict(mode=2, name=6), thorough=dict(mode=2, name=11), covers=["entry point", "member", "object", "unspecialized"])],
   bounds="modules built through the API holding one type (16 leaf kinds, 9 composite kinds, nested 1, thorough 2 deep; one number a symbolic byte), one or two constants of 23 kinds (one symbolic value byte), or one to three names on constants, types, members (any symbolic index), variables, functions, parameters, blocks, locals, entry points (0..6, thorough 0..11 symbolic bytes); each written, read into a second module with readAndInit and looked up there",
   outside="types and constants the library cannot describe (OpTypeOpaque, forward pointers, OpSpecConstantOp), specialization constants are not looked up by value"),
 "C01": dict(units=[dict(name="scalars", h="c01_constants.cpp", quick=dict(second=0, kinds=11), thorough=dict(second=0, kinds=11), covers=[]),
                    dict(name="composites", h="c01_constants.cpp", quick=dict(second=0, **{"from": 13}, kinds=16, few=1), thorough=dict(second=0, **{"from": 11}, kinds=22, few=1), time=dict(thorough=2400), covers=[]),
                    dict(name="same-kind", h="c01_constants.cpp", quick=dict(kinds=11, few=1), thorough=dict(kinds=11), covers=["different", "equal"]),
                    dict(name="any-two", h="c01_constants.cpp", quick=dict(wide=0, few=1, other=1), thorough=dict(wide=0, other=1), covers=["different", "equal"]),
                    dict(name="two-symbolic", h="c01_constants.cpp", thorough_only=True, thorough=dict(kinds=3, **{"from": 1}, few=1, wide=2), covers=["different", "equal"])],
   bounds="one or two constants out of 23 kinds (11 scalar types, vectors, matrices, arrays, null, samplers, structures put together by hand), specialized or not; one value byte (lowest or highest of the value) symbolic, the others fixed, or values from a set",
   outside="values with several interesting bytes at once (the encoding of every value of every type is decided by B02), OpSpecConstantOp, collisions of 64 bit hashes between constants outside the bounds", assumptions=["parts of a specialized composite constant are plain constants, as Constant::make builds them"]),
 "E01": dict(units=[dict(name="one-entry-point", h="e01_entry.cpp", quick=dict(eps=1, uses=1, then=4, rec=0), thorough=dict(eps=1, uses=2, then=4, rec=1), covers=["changed", "raised", "finalized by hand", "listed", "not used", "read", "second block", "used twice"]),
                    dict(name="two-uses", h="e01_entry.cpp", quick=dict(eps=1, uses=2, then=1, rec=0), thorough=dict(eps=1, uses=3, then=1, rec=0), covers=["finalized by hand", "listed", "not used"]),
                    dict(name="two-entry-points", h="e01_entry.cpp", quick=dict(eps=2, uses=1, then=1, rec=0), thorough=dict(eps=2, uses=2, then=1, rec=1), time=dict(thorough=2400), covers=["finalized by hand", "listed"]),
                    dict(name="recursion", h="e01_entry.cpp", quick=dict(eps=1, uses=1, then=1), thorough=dict(eps=1, uses=2, then=1), covers=["recursive", "listed"]),
                    dict(name="shared-function", h="e01_entry.cpp", quick=dict(shared=1), thorough=dict(shared=1), covers=["shared"])],
   bounds="modules of version 1.0..1.6 (symbolic) with three global variables of any storage class but Function (symbolic words), two helper functions calling each other and themselves in any way, one or two entry points (constructed in both ways, any execution model) calling any of them, 1..2 (thorough 3) uses of 8 kinds in any function, in the first or a later block, before or behind the calls; finalized once, twice, after a change of code and version, and after reading the written module",
   outside="more functions and variables, uses through constants and initializers of other globals"),
 "K01": dict(units=[dict(name="dependencies", h="k01_requirements.cpp", quick=dict(mode=3), thorough=dict(mode=3), covers=["dependent", "independent"]),
                    dict(name="capabilities", h="k01_requirements.cpp", quick=dict(mode=0, twice=1), thorough=dict(mode=0, twice=1), covers=["again", "removed", "unknown capability"]),
                    dict(name="names", h="k01_requirements.cpp", quick=dict(mode=1, steps=2), thorough=dict(mode=1, steps=3), covers=["again", "removed"]),
                    dict(name="requirements", h="k01_requirements.cpp", quick=dict(mode=2), thorough=dict(mode=2), covers=["ensured", "extension", "in a block"]),
                    dict(name="requirements-of-two", h="k01_requirements.cpp", quick=dict(mode=2, count=2), thorough=dict(mode=2, count=2), covers=["ensured", "extension", "in a block"])],
   bounds="getBaseCapability: every 32-bit word against the specification's table; declarations: every capability of the enumeration and an unknown one, alone and after one of 8 others, with and without dependencies, added, repeated, removed in both ways and added again; histories of 2 (thorough 3) extensions and imports whose names have 0..2 characters with a symbolic last byte out of four values, with removal; requirements: every opcode of the grammar at four places of a module and pairs with one of 9 others, any module version (symbolic) below 2.0, any ensured version",
   outside="requirements of operand values (the library computes those of opcodes only), longer names and histories"),
 "F01": dict(units=[dict(name="one-construct", h="f01_flow.cpp", quick=dict(mode=0), thorough=dict(mode=0), covers=["back edge made by hand", "condition in the header", "constant condition", "empty block", "if of blocks", "if of callables", "if-else of blocks", "if-else of callables", "kill", "leaves by hand", "loop of blocks", "loop of callables", "merge block passed", "read back"]),
                    dict(name="nested", h="f01_flow.cpp", quick=dict(mode=0, depth=2, lean=1, rec=0), thorough=dict(mode=0, depth=2, rec=0), time=dict(thorough=3600), covers=["nested", "merge block passed"]),
                    dict(name="in-sequence", h="f01_flow.cpp", quick=dict(mode=0, steps=2, lean=1, rec=0), thorough=dict(mode=0, steps=2, lean=1), covers=["condition in the header", "empty block"]),
                    dict(name="terminators", h="f01_flow.cpp", quick=dict(mode=1, blocks=2), thorough=dict(mode=1, blocks=2), covers=["hand-made", "read back", "switch", "weights"]),
                    dict(name="terminators-of-three", h="f01_flow.cpp", quick=dict(mode=1, blocks=3, rec=0), thorough=dict(mode=1, blocks=3), covers=["hand-made", "switch", "weights"]),
                    dict(name="classification", h="f01_flow.cpp", quick=dict(mode=2), thorough=dict(mode=2), covers=["any opcode"])],
   bounds="functions of one construct (six kinds: If and If/else with callables and with blocks, Loop with callables and with blocks), constructs nested in the arms and body of another one, two in sequence; merge block passed or made, blocks empty, with code, returning, killing, unreachable or branching away by hand, conditions constant, computed before and in the header, any control mask (symbolic words); functions of up to three blocks ended by any of six hand-made terminators with any targets, weights and cases (symbolic); all of them again after reading back; isTerminatorOp: every 32-bit word",
   outside="deeper nesting, empty blocks handed to If (they are left open for the caller to fill), conditions computed in several blocks, dominance"),
 "U01": dict(units=[dict(name="uses", h="u01_uses.cpp", quick=dict(mode=0), thorough=dict(mode=0, steps=2), covers=["declaration", "entry point", "gathered", "used"]),
                    dict(name="replacement", h="u01_uses.cpp", quick=dict(mode=0, how=1), thorough=dict(mode=0, how=1, light=0), time=dict(thorough=2400), covers=["declaration", "entry point", "replaced", "used"]),
                    dict(name="silent-replacement", h="u01_uses.cpp", quick=dict(mode=0, how=2, kind=13), thorough=dict(mode=0, how=2), covers=["entry point", "replaced"]),
                    dict(name="removal", h="u01_uses.cpp", quick=dict(mode=1), thorough=dict(mode=1, light=0), covers=["another equal constant", "constant removed", "refused", "removed", "type removed"]),
                    dict(name="functions", h="u01_uses.cpp", quick=dict(mode=2, shape=0), thorough=dict(mode=2), covers=["annotation removed", "execution mode", "function removed", "function replaced", "used"]),
                    dict(name="blocks", h="u01_uses.cpp", quick=dict(mode=3, ends=2), thorough=dict(mode=3), covers=["annotation removed", "block removed", "block replaced", "phi", "used"]),
                    dict(name="read-blocks", h="u01_uses.cpp", quick=dict(mode=3, ends=2, read=1), thorough=dict(mode=3, read=1), covers=["annotation removed", "block removed", "block replaced", "phi", "read", "used"]),
                    dict(name="equal-declarations", h="u01_uses.cpp", quick=dict(mode=4), thorough=dict(mode=4, mask=3), covers=["all equal", "all removed", "two equal", "constants added by hand", "spec constants", "types added by hand"])],
   bounds="modules of one (thorough two) constructs of the builder grammar of W01 (symbolic literals) next to a function using two equal specialization constants, parameters, names and decorations; every instruction as the one looked for, every other one as its replacement, every instruction removed; modules of two functions and an entry point calling each other in any way, with names, decorations and blocks inside, each removed with every replacement or none, before and after numbering; functions of four blocks, built or read, with any branches and a phi, each block removed with every replacement or none; three types or constants (values symbolic below 2, thorough 4), equal or not, removed in any order",
   outside="labels as operands of branches (gathering looks for instructions, Function::remove for both), decoration groups, unterminated functions"),
 "Q01": dict(units=[dict(name="decorations", h="q01_reflect.cpp", quick=dict(mode=0), thorough=dict(mode=0, n=3), covers=["found by kind", "found by value", "literal found", "literal not found", "member", "other kinds of decorations"]),
                    dict(name="read-decorations", h="q01_reflect.cpp", quick=dict(mode=0, read=1), thorough=dict(mode=0, read=1), covers=["found by kind", "found by value", "literal found", "literal not found", "member", "other kinds of decorations", "read"]),
                    dict(name="local-size", h="q01_reflect.cpp", quick=dict(mode=1), thorough=dict(mode=1, n=3), covers=["none", "null constant", "size by constants", "size by literals", "spec constant"]),
                    dict(name="read-local-size", h="q01_reflect.cpp", quick=dict(mode=1, read=1, n=1), thorough=dict(mode=1, read=1, n=2), covers=["null constant", "read", "size by constants", "size by literals", "spec constant"]),
                    dict(name="storage-classes", h="q01_reflect.cpp", quick=dict(mode=2), thorough=dict(mode=2, n=4), covers=["found", "initializer"]),
                    dict(name="read-storage-classes", h="q01_reflect.cpp", quick=dict(mode=2, read=1, n=2), thorough=dict(mode=2, read=1, n=3), covers=["found", "initializer", "read"]),
                    dict(name="descriptors", h="q01_reflect.cpp", quick=dict(mode=3), thorough=dict(mode=3), covers=["array", "descriptor", "image and sampler share a binding", "no descriptor"]),
                    dict(name="read-descriptors", h="q01_reflect.cpp", quick=dict(mode=3, read=1, lean=1), thorough=dict(mode=3, read=1, lean=1), covers=["array", "descriptor", "image and sampler share a binding", "read"]),
                    dict(name="three-descriptors", h="q01_reflect.cpp", quick=dict(mode=3, n=3, lean=1), thorough=dict(mode=3, n=3, lean=1), covers=["array", "descriptor", "image and sampler share a binding"]),
                    dict(name="stages", h="q01_reflect.cpp", quick=dict(mode=4), thorough=dict(mode=4), covers=["no stage", "stage"])],
   bounds="modules of a struct and two variables with two (thorough three) decorations of any of seven forms with every 32-bit kind, member, literal and every 32-bit query and value; two (three) execution modes with every 32-bit mode and size, by literals or by constants; three (four) global variables of every 32-bit storage class; two variables of every resource type, three image accesses, seven dimensions, two levels of arrays, every set and binding, three variables on a smaller set of types; built, and (with the decoration kinds of one sort each) written and read back; every 32-bit execution model",
   outside="decoration groups; getLiteralFromDecoration for member decorations (documented for whole objects only); the number of times an object decorated twice is reported; images without a definite access and storage images sharing a binding with a sampler; resources in storage classes Vulkan does not allow for them; TaskEXT and MeshEXT"),
 "N01": dict(units=[dict(name="graphs", h="n01_graphs.cpp", quick=dict(mode=0, steps=5), thorough=dict(mode=0, steps=6), time=dict(thorough=1800), covers=["cleared", "connect", "disconnect", "disconnect nothing", "erased with edges", "found", "loop", "move assigned", "move constructed"]),
                    dict(name="expressions", h="n01_graphs.cpp", quick=dict(mode=1), thorough=dict(mode=1, n=5), covers=["double edge", "evaluated", "evaluated again", "reset"]),
                    dict(name="given-orders", h="n01_graphs.cpp", quick=dict(mode=1, explicit=1, n=3), thorough=dict(mode=1, explicit=1), covers=["double edge", "explicit", "explicit refused", "reset"]),
                    dict(name="call-graphs", h="n01_graphs.cpp", quick=dict(mode=2, entry=0), thorough=dict(mode=2), covers=["called twice", "calls", "calls in several blocks", "no calls", "recursion"]),
                    dict(name="entry-calls", h="n01_graphs.cpp", quick=dict(mode=2, n=2), thorough=dict(mode=2, n=2), covers=["called twice", "calls", "calls in several blocks", "no calls", "recursion"]),
                    dict(name="read-calls", h="n01_graphs.cpp", quick=dict(mode=2, n=2, read=1), thorough=dict(mode=2, entry=0, read=1), covers=["called twice", "calls", "calls in several blocks", "no calls", "read", "recursion"]),
                    dict(name="callables", h="n01_graphs.cpp", quick=dict(mode=3, steps=3, vars=3), thorough=dict(mode=3, steps=4, vars=3), time=dict(thorough=1800), covers=["assigned", "assigned itself", "called", "copied", "copied empty", "copy constructed", "emptied", "function object assigned", "moved"])],
   bounds="histories of five (thorough six) operations on graphs of up to three nodes with symbolic node data and any number of edges with 8-bit symbolic data; expression graphs of four (five) nodes with every set of edges from earlier to later nodes (a symbolic mask) and a double edge, 8-bit symbolic values, two evaluations of any node with or without reset, orders of up to three nodes; three functions (two and an entry point) with every set of calls (a symbolic mask), repeated calls and calls in a second block, built or read; three (four) operations on three callables over two allocators with function objects of three sizes, functions and member functions, symbolic captured values and arguments",
   outside="moving single nodes, cyclic expression graphs, variadic callables, assigning a non-const callable or function object by lvalue (does not compile), the control flow graph (F01)"),
 "O01": dict(units=[dict(name="one-operand", h="o01_ops.cpp", quick=dict(which=1, mode=0), thorough=dict(which=1, mode=0, set=2), covers=["accepted", "refused"]),
                    dict(name="two-operands", h="o01_ops.cpp", quick=dict(which=1, mode=1), thorough=dict(which=1, mode=1, set=1), time=dict(thorough=1800), covers=["accepted", "refused"]),
                    dict(name="helpers", h="o01_ops.cpp", quick=dict(which=1, mode=2), thorough=dict(which=1, mode=2, set=1), covers=["accepted", "refused", "vector divided by scalar"]),
                    dict(name="special", h="o01_ops.cpp", quick=dict(which=1, mode=3, kinds=257567), thorough=dict(which=1, mode=3, kinds=257567, set=2), covers=["accepted", "merged", "refused"]),
                    dict(name="three-operands", h="o01_ops.cpp", quick=dict(which=1, mode=3, set=3, kinds=4576), thorough=dict(which=1, mode=3, kinds=4576), time=dict(thorough=1800), covers=["accepted", "refused"]),
                    dict(name="open-type", h="o01_ops.cpp", quick=dict(which=1, mode=4, set=3), thorough=dict(which=1, mode=4)),
                    dict(name="any-width", h="o01_ops.cpp", quick=dict(which=1, mode=5, set=9), thorough=dict(which=1, mode=5, set=9), covers=["accepted", "refused"]),
                    dict(name="specialization", h="o01_ops.cpp", quick=dict(which=1, mode=6, set=3), thorough=dict(which=1, mode=6), covers=["specialization constant"])],
   bounds="30 operations of one and 59 of two operands, the helpers that choose the operation, conversions, bit fields, selections, copies, pointer comparisons, vector access, undefined values, merges and returned values, over every combination of operands of 14 to 36 types (all kinds, widths of 8 to 64 bits, vectors, matrices, structures, arrays, pointers, values without a type); the two-operand operations also over every 32-bit component width and component count (symbolic)",
   outside="operands that are not values (type declarations, blocks), constituents of composites, image and memory operations, 16-bit floats' and 8-bit integers' capabilities"),
 "O02": dict(units=[dict(name="one-operand", h="o01_ops.cpp", quick=dict(which=2, mode=0), thorough=dict(which=2, mode=0, set=2), covers=["accepted", "refused"]),
                    dict(name="two-operands", h="o01_ops.cpp", quick=dict(which=2, mode=1), thorough=dict(which=2, mode=1, set=1), time=dict(thorough=1800), covers=["accepted", "refused"]),
                    dict(name="helpers", h="o01_ops.cpp", quick=dict(which=2, mode=2), thorough=dict(which=2, mode=2, set=1), covers=["accepted", "refused", "vector divided by scalar"]),
                    dict(name="special", h="o01_ops.cpp", quick=dict(which=2, mode=3, kinds=257567), thorough=dict(which=2, mode=3, kinds=257567, set=2), covers=["accepted", "merged", "refused"]),
                    dict(name="three-operands", h="o01_ops.cpp", quick=dict(which=2, mode=3, set=3, kinds=4576), thorough=dict(which=2, mode=3, kinds=4576), time=dict(thorough=1800), covers=["accepted", "refused"]),
                    dict(name="any-width", h="o01_ops.cpp", quick=dict(which=2, mode=5, set=9), thorough=dict(which=2, mode=5, set=9), covers=["accepted", "refused"]),
                    dict(name="specialization", h="o01_ops.cpp", quick=dict(which=2, mode=6, set=3), thorough=dict(which=2, mode=6), covers=["specialization constant"])],
   bounds="30 operations of one and 59 of two operands, the helpers that choose the operation, conversions, bit fields, selections, copies, pointer comparisons, vector access, undefined values, merges and returned values, over every combination of operands of 14 to 36 types (all kinds, widths of 8 to 64 bits, vectors, matrices, structures, arrays, pointers, values without a type); the two-operand operations also over every 32-bit component width and component count (symbolic)",
   outside="operands that are not values (type declarations, blocks), constituents of composites, image and memory operations, 16-bit floats' and 8-bit integers' capabilities"),
 "I01": dict(units=[dict(name="operations", h="i01_images.cpp", quick=dict(mode=0), thorough=dict(mode=0, full=1), time=dict(thorough=1800), covers=["accepted", "level of detail", "refused"]),
                    dict(name="image-operands", h="i01_images.cpp", quick=dict(mode=1), thorough=dict(mode=1), covers=["image operands"]),
                    dict(name="queries", h="i01_images.cpp", quick=dict(mode=2), thorough=dict(mode=2), covers=["accepted", "queried", "refused"]),
                    dict(name="combining", h="i01_images.cpp", quick=dict(mode=3), thorough=dict(mode=3), covers=["accepted", "combined", "refused"])],
   bounds="18 sampling, fetching, gathering, reading, writing operations (level of detail and gradient variants included), 7 queries and combining images with samplers: image types with every 32-bit dimension, sampled and format word, arrayed and multisampled flag (symbolic) and four sampled types; coordinates, references, components, texels and levels that are numbers of any kind with any 32-bit width and component count (symbolic), or none; every mask of image operands (symbolic) with up to two operands of six kinds",
   outside="image types the specification excludes for an operation beyond dimension, sampling and kind (multisampled or buffer images that are sampled, arrayed projective images): accepted or refused; the types of optional image operands; sparse operations (not provided)"),
 "O03": dict(units=[dict(name="access-chains", h="o03_access.cpp", quick=dict(mode=0, depth=2), thorough=dict(mode=0, depth=3), time=dict(thorough=1800), covers=["accessed", "refused"]),
                    dict(name="deep-access-chains", h="o03_access.cpp", quick=dict(mode=0, depth=3, kinds=28), thorough=dict(mode=0, depth=4, kinds=24), time=dict(thorough=1800), covers=["accessed", "refused"]),
                    dict(name="extract-insert", h="o03_access.cpp", quick=dict(mode=1, depth=3), thorough=dict(mode=1, depth=3), covers=["accessed", "inserted", "refused"]),
                    dict(name="shuffles", h="o03_access.cpp", quick=dict(mode=2), thorough=dict(mode=2), covers=["refused", "shuffled"]),
                    dict(name="loads-stores-copies", h="o03_access.cpp", quick=dict(mode=3), thorough=dict(mode=3), covers=["copied", "loaded", "refused", "stored", "two masks"]),
                    dict(name="array-length", h="o03_access.cpp", quick=dict(mode=4), thorough=dict(mode=4), covers=["length", "refused"]),
                    dict(name="given-type", h="o03_access.cpp", quick=dict(mode=5), thorough=dict(mode=5), covers=["given type", "refused"])],
   bounds="types nested up to three deep out of scalars, vectors, matrices, arrays, run-time arrays, structures of up to two members, pointers and images; up to three indices; every 32-bit index of extracts and inserts, five indices (0-3 and 0x80000001) of access chains; component counts, columns and array lengths any 32-bit number wherever the walked type is not part of the result; every component literal of shuffles of two to four components; every memory access mask, alignment and SPIR-V version of loads, stores and copies, constant sizes of any value; every member index of array lengths",
   outside="types of the constituents of constructed composites and of the indices of access chains with a given result type; loads, extracts of types containing run-time arrays and loads of void (accepted or refused); dynamic vector access (checked by O01/O02)"),
 "G01": dict(units=[dict(name="instructions", h="g01_tables.cpp", quick=dict(mode=0), thorough=dict(mode=0), covers=["known instruction", "unknown instruction"]),
                    dict(name="classes", h="g01_tables.cpp", quick=dict(mode=1), thorough=dict(mode=1), covers=["classified"]),
                    dict(name="enumerants", h="g01_tables.cpp", quick=dict(mode=2), thorough=dict(mode=2), covers=["named", "unnamed"]),
                    dict(name="parameters", h="g01_tables.cpp", quick=dict(mode=3), thorough=dict(mode=3), covers=["no parameters", "parameters"]),
                    dict(name="composites", h="g01_tables.cpp", quick=dict(mode=4), thorough=dict(mode=4), covers=["parts"]),
                    dict(name="execution-modes", h="g01_tables.cpp", quick=dict(mode=5), thorough=dict(mode=5), covers=["execution modes"])],
   bounds="every opcode below 121984 (all 16-bit ones, symbolic) of the core and three extended instruction sets; every registered opcode among all 32-bit words for the eight classifications; enumerants and enumerant operands of every kind below 2^22 times the size of the table (symbolic: all 32-bit values in use); every registered execution mode",
   outside="the order of operands against the prose of the specification (the registry snapshot was taken from the pinned grammar and cross-checked with the enumerations of the headers); what the classifications say of opcodes that do not exist"),
 "J01": dict(units=[dict(name="instructions", h="j01_print.cpp", quick=dict(mode=0), thorough=dict(mode=0, every=1), time=dict(thorough=1800), covers=["branch target", "named enumerant", "operands of an enumerant", "operation of a specialization constant", "printed", "reported", "several bits"]),
                    dict(name="missing-operands", h="j01_print.cpp", quick=dict(mode=1), thorough=dict(mode=1, every=1), covers=["missing operand", "missing parameter"]),
                    dict(name="any-operands", h="j01_print.cpp", quick=dict(mode=2, most=3), thorough=dict(mode=2, most=4, every=1), time=dict(thorough=1800), covers=["accepted", "reported"]),
                    dict(name="constants", h="j01_print.cpp", quick=dict(mode=3), thorough=dict(mode=3), covers=["constant", "form of a constant", "two words"]),
                    dict(name="extended", h="j01_print.cpp", quick=dict(mode=4), thorough=dict(mode=4), covers=["named", "number"]),
                    dict(name="modules", h="j01_print.cpp", quick=dict(mode=5, acts=1), thorough=dict(mode=5, acts=2), time=dict(thorough=1800), covers=["branches", "declaration", "entry point", "module", "preamble"])],
   bounds="one instruction for every list of operands in the grammar (thorough: every core instruction), one operand varied at a time: ids, literals and numbers any 32-bit word (symbolic), strings of up to five symbolic characters, every registered enumerant, every pair of bits of a mask, an unknown value, 15 kinds of references, up to two of repeated operands, optional operands present or not; all 128 combinations of print options (symbolic), with and without a form for constants, name and indentation; instructions cut off before every operand they need; up to three (thorough: four) operands of six kinds in any order for any instruction; instruction numbers below 220 of four extended sets; modules of one (thorough: two) builder actions",
   outside="the form given to constants by the default printer (snprintf, six decimals); masks of more than two bits; how numbers of masks with several bits are shown beyond their value"),
 "X01": dict(units=[dict(name="linking", h="x01_link.cpp", quick=dict(gs=2), thorough=dict(gs=3), time=dict(thorough=1800), covers=["complete", "decoration", "function", "initializer", "linked", "linked with less", "loop", "member", "name", "open", "reported", "shared type"])],
   bounds="a library of an exported variable (with and without initializer), a private variable, two exported functions and a helper in two orders, one exported function with each of fourteen bodies (arithmetic, loads and stores, parts of a named and decorated structure the importer may have too, constants of all kinds, an image, a switch, calls of the helper, of itself and of the other exported function, a loop with a phi, an extended instruction, a local variable, source lines), version 1.0 to 1.7 (symbolic) and literals any word (symbolic); an importer that imports the variable and the functions as exported, with another type, as another kind, under an unknown name or not at all, with and without an export of its own, its imports declared before or after; every link option left out once, none and all of them",
   outside="decoration groups, printing while linking, adding what the grammar requires (AutoAddRequiredCapsAndExts), more than one library, the control mask of an imported function (the importer's is kept), debug information"),
 "M01": dict(units=[dict(name="built-modules", h="m01_move.cpp", quick=dict(mode=0, light=1), thorough=dict(mode=0, more=0), covers=["assigned", "constructed", "entry point", "written"]),
                    dict(name="read-modules", h="m01_move.cpp", quick=dict(mode=0, read=1), thorough=dict(mode=0, read=1), covers=["assigned", "constructed", "entry point", "written"]),
                    dict(name="functions", h="m01_move.cpp", quick=dict(mode=1), thorough=dict(mode=1), covers=["branches", "declaration"]),
                    dict(name="larger-modules", h="m01_move.cpp", thorough_only=True, thorough=dict(mode=0, light=1, steps=2), time=dict(thorough=1800), covers=["assigned", "constructed", "written"])],
   bounds="modules of one (thorough two) constructs of the builder grammar of W01 or read from the generator grammar of R01 (one declaration feature), symbolic version, generator and literals; moved by construction or by assignment onto an empty or filled module on another allocator, or onto itself; source destroyed; one more construct added afterwards; functions moved onto a new, an existing and a default constructed function",
   outside="references to a moved function's own OpFunction (its address changes), moved entry points (not movable), moved single blocks and instructions"),
 "A02": dict(units=[dict(name="one-action", h="m01_move.cpp", quick=dict(mode=2, steps=1), thorough=dict(mode=2, steps=1), covers=["branches", "declaration", "entry point", "moved there and back", "read", "reset", "written"]),
                    dict(name="two-actions", h="m01_move.cpp", quick=dict(mode=2, steps=2, light=1, few=1), thorough=dict(mode=2, steps=2, light=1), time=dict(thorough=1800), covers=["constant anew", "declaration removed", "entry point", "function removed", "moved there and back", "read", "reset", "written"]),
                    dict(name="three-actions", h="m01_move.cpp", thorough_only=True, thorough=dict(mode=2, steps=3, light=1, few=1), time=dict(thorough=1800), covers=["function removed", "moved there and back", "read", "reset", "written"])],
   bounds="histories of 1 (every action) and 2 actions (12, thorough all 23 kinds; thorough also 3 of 12 kinds): constructs of the builder grammar, reset, reading whole or truncated streams into the module, finalizing and writing, removing a function or declaration, moving there and back, queries with another allocator",
   outside="longer histories, allocators that run dry"),
}
