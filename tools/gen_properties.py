#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)
L='lib/include/spvgentwo/'; S='lib/source/'; C='common/include/common/'; CS='common/source/'

p('V01','Growable array behaves as a mathematical sequence',
  "After any history of appends, inserts at a position, range assigns, reserves, resizes, clears, copies and moves, the growable array reports exactly the size and the elements, in order, of the mathematical sequence that history describes; elements created by a resize have the value asked for, and every live element stays constructed exactly once. No operation reads or writes outside storage the array owns, and destroying it returns every byte it obtained.",
  ['histories','inputs'],'every operation history within the bound, with symbolic positions, counts and element values, for trivially copyable and for resource-owning element types',
  'The tests append a handful of integers and strings; positions near capacity boundaries, shrinking resizes and copy-assignment between differently sized arrays are never combined.',
  [L+'Vector.h'],[('reserve/resize/insert/assign/copy/move',L+'Vector.h')],
  [('m_elements/m_capacity','live element count / storage slots',L+'Vector.h')])
p('L01','Linked list keeps sequence, links and count consistent',
  "After any history of front/back insertion, insertion before or after a position, erasure, popping, copy and move assignment, walking the list forwards and walking it backwards both yield exactly the described sequence, and the reported size, first and last elements agree with it. Copies are independent of their source, moved-from lists are empty and reusable, and destroying a list frees each entry exactly once.",
  ['histories','inputs'],'every operation history within the bound with symbolic positions and element values, over lists of different length on either side of an assignment',
  'Existing tests walk a few lists forwards; erasing at the ends followed by appends, or assigning a shorter list over a longer one, is not sampled.',
  [L+'List.h',L+'Entry.h',L+'EntryIterator.h'],[('list operations',L+'List.h'),('link surgery',L+'Entry.h')],
  [('m_pBegin/m_pLast/m_Elements','list ends and count',L+'List.h')])
p('H01','Hash map behaves as a multimap keyed by value',
  "After any history of insertions, unique insertions, lookups, single and range erasures, clears and moves, the hash map holds exactly the key/value pairs described: lookups find a key exactly when it is present, per-key counts, the total element count and full iteration agree with the contents, and unique insertion never replaces or duplicates an existing key. Iteration visits each pair once, and destroying the map releases everything it obtained.",
  ['histories','inputs'],'every operation history within the bound with symbolic keys and values, for small and default bucket counts including many keys per bucket',
  'The map test inserts three fixed keys; which keys share a bucket, and erasure in the middle of a bucket during iteration, depend on key values a fixed test does not cover.',
  [L+'HashMap.h',L+'HashMapIterator.h',L+'FNV1aHasher.h'],[('emplace/emplaceUnique/eraseRange/erase/count',L+'HashMap.h'),('bucket iteration',L+'HashMapIterator.h')],
  [('m_Elements/m_pBuckets','element count and bucket array',L+'HashMap.h')])
p('S01','String operations match byte-string semantics',
  "Strings built by construction, assignment, appending, concatenation, insertion, substring extraction and comparison always have the length and bytes of the corresponding byte-string operation, remain zero-terminated, and compare equal exactly when their bytes are equal. No operation reads past the terminator of an argument or outside owned storage.",
  ['inputs','histories'],'all byte contents and all lengths, positions and counts within the bound, including empty strings and positions at the end',
  'Tests use fixed ASCII literals; empty operands, substrings at the end and insertion at the terminator are not covered.',
  [L+'String.h',S+'String.cpp'],[('append/insert/substr/compare',S+'String.cpp')])
p('B01','Bit-level SPIR-V word helpers are exact inverses',
  "Packing and unpacking of instruction words, version words and generator words are exact for every input: the opcode and word count that come out of an instruction word are the low and high half that went in, and major/minor version and tool fields survive a pack/unpack. A word is reported to contain a string terminator exactly when one of its four bytes is zero, unsigned-to-text conversion yields the positional representation of the number in the requested base, and flag sets obey bitwise set algebra.",
  ['inputs'],'every 32-bit word, every pair of 16-bit halves, every byte version number, every unsigned value and every base from 2 to 16',
  'Unit tests never touch these helpers directly and could sample only a few of 2^32 values.',
  [L+'SpvDefines.h',L+'String.h',L+'Flag.h'],[('getOperation/getOperandCount/makeVersion/hasStringTerminator',L+'SpvDefines.h'),('uintToString',L+'String.h'),('Flag',L+'Flag.h')])
p('B02','Literals are encoded word-exactly and strings round-trip',
  "Literal operands are emitted as the SPIR-V words of their value: narrow integers and enumerants in one word with sign- or zero-extension as their type demands, 64-bit values low word first, floats by bit pattern. A literal string of any length is packed little-endian, zero-terminated and zero-padded to whole words, reading it back yields the same bytes and the position just behind it, and comparing it against text succeeds exactly for that text.",
  ['inputs'],'every value of every supported literal type and every string of non-zero bytes up to the length bound (all residues mod 4)',
  'Tests encode a few literals and never check padding or string lengths that are multiples of four.',
  [L+'Operand.h',S+'Operand.cpp',S+'Instruction.cpp'],[('appendLiteralsToContainer',L+'Operand.h'),('getLiteralString/skipLiteralString/compareLiteralString',S+'Instruction.cpp')])
p('A01','Arena allocator hands out disjoint, aligned, in-bounds memory',
  "Every non-null block returned by the fixed-buffer allocator lies entirely inside the buffer, is aligned as requested and does not overlap any block still in use; a request that does not fit returns null and leaves the allocator usable, so later requests still satisfy the same guarantees. Returning the most recent block makes its space available again.",
  ['histories','inputs'],'every history of allocate/deallocate calls within the bound with symbolic sizes and alignments and symbolic buffer capacity',
  'Tests use the arena only for small containers that fit; exhaustion and the state after a failed request are never exercised.',
  [C+'ExternalMemoryAllocator.h',CS+'ExternalMemoryAllocator.cpp',L+'Allocator.h'],[('allocate/deallocate',CS+'ExternalMemoryAllocator.cpp'),('alignPowerOf2',L+'Allocator.h')])
p('A02','A module returns every byte it takes from its allocator',
  "Whatever is built in, read into, removed from or moved between modules, once the modules are destroyed each block obtained from the supplied allocator has been given back exactly once with the size it was requested with. Resetting a module leaves it empty and usable for building again.",
  ['histories'],'every history of module operations within the bound (types, constants, names, functions, blocks, instructions, removal, reset, move, parse success and parse failure)',
  'Tests run on the heap without accounting, and error paths of parsing or removal are not reached.',
  [S+'Module.cpp',L+'Module.h',S+'Function.cpp'],[('reset/destructor/move/remove',S+'Module.cpp')])
p('W01','Written binary is structurally well-formed SPIR-V',
  "Any module that serializes successfully starts with the magic number, its version and a bound larger than every id in the stream, followed by instructions whose encoded word counts tile the rest of the stream exactly and carry the opcode and operands they were built with. Instructions appear in the section order the SPIR-V logical layout demands, functions are bracketed by their begin and end, every block starts with a label, and a failing writer makes serialization report failure.",
  ['programs','inputs','fault_sequences'],'every module of the builder grammar within the bound with symbolic literal values, and every word position at which the writer may start to fail',
  'Tests write modules to disk but nothing decodes the result; writer failure is never injected.',
  [S+'Module.cpp',S+'Function.cpp',S+'BasicBlock.cpp',S+'Instruction.cpp',S+'Operand.cpp'],[('Module::write','lib/source/Module.cpp'),('Instruction::write',S+'Instruction.cpp')])
p('W02','Result ids are unique, dense and all references resolve',
  "After ids have been assigned, every result-producing instruction of the module has its own non-zero id below the reported bound, no two share one, and every operand that refers to an instruction or block is written as exactly that instruction's id. Reassigning ids to compact a parsed module renumbers consistently, keeping the reference structure isomorphic.",
  ['programs','inputs'],'every module of the builder grammar within the bound, and every parsed module with symbolic (sparse, arbitrary) original ids',
  'Tests do not inspect ids; compaction of modules with arbitrary id assignments is not sampled.',
  [S+'Module.cpp',S+'Instruction.cpp',S+'Operand.cpp'],[('assignIDs/finalize/getNextId',S+'Module.cpp'),('Operand::write',S+'Operand.cpp')])
p('R01','Reading then writing a module reproduces it',
  "Reading a well-formed binary module and writing it again yields the same instruction stream: same instructions, same operand words, same order within each section, same version and same generator. Only the mutual order of capabilities, of extensions and of imports may change, and entry-point functions may follow the other functions. This holds whether or not operand references were resolved in between.",
  ['programs','inputs'],'every well-formed module of the generator grammar (core instructions with optional, repeated, enumerant, string and id operands) with symbolic operand words and ids',
  'The disassembler tests only check that a fixed set of shaders is printed without error; the words that would be written are never compared.',
  [S+'Module.cpp',S+'Instruction.cpp',S+'Grammar.cpp'],[('Module::read/write',S+'Module.cpp'),('readOperands',S+'Instruction.cpp')])
p('R02','Reader is memory-safe and rejects malformed input',
  "For every input word stream, including truncated, corrupted or hostile ones, reading, resolving and reconstructing a module terminates, never accesses memory it does not own, never dereferences missing operands and releases everything it allocated. A stream whose header is damaged, which ends inside an instruction, or whose instruction lengths do not match its operands is reported as failure.",
  ['inputs'],'every word stream of the bounded length with symbolic words, behind a valid or an arbitrary header',
  'Only valid shaders are parsed by tests; the space of malformed streams is unbounded.',
  [S+'Module.cpp',S+'Function.cpp',S+'BasicBlock.cpp',S+'Instruction.cpp'],[('Module::read/resolveIDs/reconstruct*',S+'Module.cpp'),('readOperands',S+'Instruction.cpp')])
p('R03','Types, constants and names survive a write/read cycle',
  "When a module is written and read back with full reconstruction, each type, constant and name declaration yields the same type description, constant value and name (including member names) as the one it was built from, and looking up an equal type or constant in the re-read module returns the existing declaration instead of a new one.",
  ['programs','inputs'],'every type shape and constant of the builder grammar within the bound with symbolic widths, lengths, storage classes, image parameters and literal values',
  'Round-tripping type information is tested for no shape but the ones in the sample shaders.',
  [S+'Module.cpp',S+'Type.cpp',S+'Constant.cpp'],[('reconstructTypeAndConstantInfo/reconstructNames',S+'Module.cpp')])
p('T01','Types are declared once, in order, and encoded faithfully',
  "Requesting a type twice yields the same declaration, requesting structurally different types yields different ones, and every declaration carries exactly the opcode and operand words SPIR-V prescribes for that type. Component types are declared before the types that use them, and the description recorded for a declaration equals the one requested.",
  ['inputs','programs'],'every type shape within the nesting bound with symbolic widths, signs, component counts, array lengths, image parameters and storage classes, requested in any order',
  'Tests request a few types and compare hashes; exactness of the emitted words and uniqueness across all shapes is not checked.',
  [S+'Module.cpp',S+'Type.cpp',L+'Type.h'],[('addType',S+'Module.cpp'),('Type operators and hash',L+'Type.h')])
p('T02','Type queries agree with the structure of the type',
  "Classification queries, component counts, base-type access and member navigation of a type answer exactly what its structure says, wrapping a type in a vector, matrix, array, pointer or struct and taking the inner type back yields the original, and equality holds exactly for structurally identical types and implies equal hashes. Navigation with an index outside the composite reports absence instead of touching memory.",
  ['inputs'],'every type shape within the nesting bound with symbolic parameters and symbolic navigation indices',
  'Tests query a handful of shapes with valid indices only.',
  [L+'Type.h',S+'Type.cpp'],[('predicates/getSubType/wrap*/operator==',L+'Type.h')])
p('C01','Constants are encoded bit-exactly and shared by value',
  "A constant of a supported scalar type is emitted with exactly the bits of its value (sign-extended when narrower than a word and signed, low word first when 64-bit), boolean and null constants use their own opcodes, and composites list their parts in order. Equal constants of one type share one declaration, constants differing in value, type or specialization do not, and the recorded constant gives back the value it was built from.",
  ['inputs','programs'],'all values of every supported scalar type, all component values of vectors, matrices and arrays within the bound, ordinary and specialization constants',
  'Tests add some fixed constants; 64-bit splits, negative narrow integers and sharing are value-dependent.',
  [L+'Constant.h',S+'Constant.cpp',S+'Module.cpp',L+'ModuleTemplate.inl'],[('Constant::make',L+'Constant.h'),('addConstant',S+'Module.cpp')])
p('O01','Arithmetic, logic and comparison results have the right type',
  "For every generic or specific arithmetic, bitwise, shift, logical, comparison, derivative, bit-field, selection, copy, merge, conversion and matrix operation applied to values of types it permits, the instruction created has the opcode of the operation (for the generic helpers the one matching the operand kind and signedness), the operands in the given order and the result type the SPIR-V specification prescribes; a dividend-by-scalar division of a vector is the scaling by the reciprocal. Vector, matrix and scalar mixtures yield the specified component count and matrix shape. The same holds for an instruction made with its type left open and for one turned into a specialization constant operation.",
  ['inputs','programs'],'every combination of operand types (bool/int/float of several widths and both signs, scalar, vector of 2-4, matrices, structures, arrays, pointers) for each operation, and every component width and count of the operands of two-operand operations',
  'Tests apply each operation to one pair of operand types at most.',
  [S+'Instruction.cpp',L+'Instruction.h',S+'TypeInferenceAndValiation.cpp',L+'SpvDefines.h'],[('inferResultType',S+'TypeInferenceAndValiation.cpp'),('scalarVecOp/Mul/Div/...',S+'Instruction.cpp')])
p('O02','Ill-typed operations are refused and leave no trace',
  "An operation of this kind applied to operands whose types it does not permit (mismatching kinds, widths or lengths, aggregates, values without a type, a pointer comparison of other types, merges of values of different types, foreign return values) is refused: it yields the module's error instruction, does not become a typed instruction, declares nothing, leaves the error instruction and the block as they were and does not crash. Operations on permitted operands are not refused.",
  ['inputs','programs'],'every combination of operand types of the same set for each operation, and every component width and count of the operands of two-operand operations',
  'Negative combinations are hardly tested at all.',
  [S+'Instruction.cpp',L+'InstructionTemplate.inl',S+'TypeInferenceAndValiation.cpp'],[('type guards',S+'Instruction.cpp')])
p('I01','Image operations take fitting images and coordinates and give the texel type',
  "Sampling, fetching, gathering, reading, writing and querying takes exactly an image or sampled image as the operation requires, of a dimension and use it permits, with coordinates of the permitted kind that have at least the components the image's dimension, layers and projection need, and fitting depth references, components, texels and levels; everything else is refused and leaves no trace. What is emitted has the operation's opcode, the operands in order, the mask of the image operands followed by them, and the specified result type: four components of the sampled type, one for depth comparisons, those of the known format for reads, and the image's extents for size queries. An image combined with a sampler gives the sampled image type of that image and gives the image back.",
  ['inputs','programs'],'every image type (dimension, layers, samples, use, format) and every numerical type of coordinates and references, for each image operation',
  'Tests apply a few operations to one fitting 2D image each.',
  [L+'InstructionTemplate.inl',S+'Instruction.cpp',S+'TypeInferenceAndValiation.cpp',L+'SpvDefines.h'],[('genericImageOp/opImageWrite',L+'InstructionTemplate.inl'),('checkImageCoordinateType/opImageQuery*',S+'Instruction.cpp'),('inferResultType',S+'TypeInferenceAndValiation.cpp')])
p('O03','Composite and pointer access yields the addressed part',
  "Access chains, extracts, inserts, shuffles, loads, stores, memory copies and array lengths address exactly what they are told: the result type is the type reached by walking the given indices through the composite (a pointer of the base's storage class for access chains; the composite's own type for inserts; as many components as are named for shuffles; the type pointed to for loads), and operands, indices, component numbers and memory operands are encoded in order. An index path that leaves the composite or goes through something that is no composite, a base that is no pointer, a component neither vector has, a stored or inserted value of another type, memory operands without a mask, two masks before SPIR-V 1.4 or copies between different types are refused: nothing is emitted and nothing declared. The list-taking variants behave as the argument-taking ones.",
  ['inputs','programs'],'every composite shape within the nesting bound and every symbolic index path, including out-of-range indices',
  'Tests use one struct and constant in-range indices.',
  [L+'InstructionTemplate.inl',S+'Instruction.cpp',L+'Type.h'],[('opAccessChain/opCompositeExtract/opCompositeInsert/opVectorShuffle/opLoad/opStore/opCopyMemory',L+'InstructionTemplate.inl'),('getSubType/getPart',S+'Type.cpp')])
p('F01','Structured control-flow helpers emit well-formed control flow',
  "However if- and loop-helpers are nested, with or without else branch, given merge block or early exit, every block of the function ends up with exactly one terminator as its last instruction, each header carries a merge instruction directly before its branch, and branches lead to the blocks the construct prescribes (both arms to the merge block unless they exit, loop body to continue, continue back to the header). Branch-target queries and the control-flow graph report exactly those edges.",
  ['programs'],'every nesting of the helpers within the depth bound with symbolic choice of construct, else branch, supplied merge block and exits',
  'One sample per construct exists; nesting combinations are not sampled.',
  [S+'BasicBlock.cpp',L+'BasicBlockTemplate.inl',C+'ControlFlowGraph.h',S+'Instruction.cpp'],[('If/Loop',L+'BasicBlockTemplate.inl'),('ControlFlowGraph',C+'ControlFlowGraph.h')])
p('E01','Entry points list exactly the globals they use',
  "After finalization the interface of each entry point lists every global variable used by any instruction reachable from it through calls that the target version requires to be listed (input and output variables before 1.4, all globals from 1.4 on), each exactly once, and nothing else. The entry point keeps its execution model, function and name, and repeating finalization changes nothing.",
  ['programs','histories'],'every assignment of storage classes, use positions (any operand of any instruction), call graphs within the bound including recursion, and both version families',
  'One test checks one variable; multiple uses in one instruction and uses in callees are not covered.',
  [S+'EntryPoint.cpp',S+'Function.cpp',S+'Module.cpp'],[('collectReferencedVariables',S+'Function.cpp'),('finalizeGlobalInterface',S+'EntryPoint.cpp')])
p('K01','Capabilities, extensions and version requirements are complete',
  "Declaring a capability, extension or extended-instruction import any number of times yields one declaration, and a capability brings in the capabilities it directly or transitively depends on according to the specification. Requirement computation makes the module declare every capability and extension the grammar lists for the opcodes it uses, and finds the highest version any of them needs; numbering with a grammar raises the module's version to it and never lowers it. Lookup and removal agree with what was declared.",
  ['inputs','histories','programs'],'every capability value of the tables and every history of declarations within the bound',
  'Tests declare a few capabilities; dependency closure over the whole table is not checked.',
  [S+'Module.cpp',S+'Grammar.cpp',L+'SpvDefines.h'],[('addCapability/addRequiredCapabilities/setRequiredVersion',S+'Module.cpp')])
p('G01','Instruction tables agree with each other',
  "For every opcode of the SPIR-V registry the classification helpers agree with the grammar tables: an instruction is said to have a result id and a result type exactly when its operands include them, terminators and type, constant and specialization constant declarations are classified as such and nothing else is, and execution modes with id operands are set by the instruction for those. For every instruction, enumerant, operand kind and composite of the registry the grammar returns its name, operands (kind, category and quantifier) and parameters, and nothing for keys that do not exist.",
  ['inputs'],'every 16-bit opcode and every enumerant of every operand kind',
  'The tables have thousands of entries; tests touch a few.',
  [S+'Grammar.cpp',L+'Grammar.h',L+'Spv.h',L+'SpvDefines.h'],[('Grammar tables',S+'Grammar.cpp'),('HasResultAndType',L+'Spv.h'),('isTerminatorOp',L+'SpvDefines.h')])
p('U01','Use tracking, replacement and removal stay consistent',
  "Gathering the uses of an instruction reports each instruction that refers to it exactly once and no other, replacing it redirects every reference (result types included) to the replacement and changes nothing else. After removing an instruction no name, type or constant lookup of the module refers to it, and equal declarations that remain keep their information. Removing a function or block reports exactly the instructions outside it that referred to it, redirected to the replacement if there is one, and takes the names and decorations of everything inside along. Requesting a removed type or constant again creates a fresh declaration.",
  ['programs','histories'],'every small module of the builder grammar and every choice of the instruction, function or block to replace or remove',
  'Tests do not cover replacement, and removal only once.',
  [S+'Module.cpp',S+'Function.cpp',S+'BasicBlock.cpp'],[('gatherUses/replace/remove/removeFromLookupMaps',S+'Module.cpp')])
p('X01','Linking resolves imports without dangling references',
  "Importing a library resolves exactly the imports for which an export of the same name, kind and type exists. With the options that transfer what is needed, every resolved symbol has the library's definition afterwards - same initializer, body, types, constants, called functions and private variables, one copy of each, up to the numbers of ids -, decorations and names (of members and of nested types too), capabilities and extensions come along, and its import decoration is gone; unresolved imports keep theirs and the Linkage capability stays as long as something is imported or exported. The version is the higher of both, the library is unchanged, and the linked module has unique, defined ids. Symbols of another type or kind are reported as failure.",
  ['programs','configurations'],'every pair of small consumer and library modules of the generator (symbol names, kinds, types, bodies, call structure) and every link option left out',
  'The linker tests link fixed pairs with one option set.',
  [CS+'LinkerHelper.cpp',C+'LinkerHelper.h',CS+'FunctionCallGraph.cpp'],[('import/transferInstruction/transferFunction',CS+'LinkerHelper.cpp')])
p('J01','Disassembly text reflects the instruction faithfully',
  "Printing any well-formed instruction produces its result id, opcode name and each operand in order, with ids, enumerants, literals and strings rendered from their actual values, and every printed token can be traced to one operand. Labels are referred to by what their own line shows, parameters of a mask follow it in the order of its bits, and the text is the same for every kind of printer. Printing a module prints every instruction once, in the order it is written. Unknown instructions, missing required operands and references without an id are reported, and printing never reads beyond the instruction's operands or past a string, whatever the operands are.",
  ['inputs','programs'],'every instruction of the sample grammar with symbolic operand words, ids, string bytes and every combination of print options',
  'Tests only check that printing succeeds on fixed shaders.',
  [CS+'ModulePrinter.cpp',C+'ModulePrinter.h'],[('printInstruction/printOperand',CS+'ModulePrinter.cpp')])
p('Q01','Reflection queries report exactly what is declared',
  "Queries for decorations, decoration literals, variables by storage class or decoration, local workgroup size and descriptor types return exactly what the module's decorations, execution modes and variable types declare for the asked target, for whole-object and member decorations alike, and report absence when nothing matches.",
  ['programs','inputs'],'every module with a bounded number of variables and decorations with symbolic decoration kinds, targets, member indices and literals',
  'One reflection test covers one shader.',
  [CS+'ReflectionHelper.cpp',C+'ReflectionHelperTemplate.inl',CS+'VulkanInterop.cpp'],[('decoration queries',CS+'ReflectionHelper.cpp'),('descriptor classification',CS+'VulkanInterop.cpp')])
p('M01','Moving a module or function preserves its meaning',
  "A module obtained by move construction or move assignment serializes to the same words as its source would have, all its instructions, blocks, functions, parameters and entry points belong to it, and building, naming and lookups continue to work on it. The moved-from module is left destructible and nothing refers to it any more.",
  ['programs','histories'],'every module of the builder grammar within the bound, moved by construction or by assignment onto an empty or non-empty module, followed by further building',
  'One test moves a module and checks little of the result.',
  [S+'Module.cpp',S+'Function.cpp',S+'BasicBlock.cpp',S+'Instruction.cpp'],[('move operations',S+'Module.cpp'),('parent fix-up',S+'Function.cpp')])
p('N01','Graphs keep edges symmetric and evaluate in dependency order',
  "In every graph, after any history of adding, connecting, disconnecting and erasing nodes, each outgoing edge has its matching incoming edge and no edge refers to an erased node. Evaluating an expression graph runs every node its result depends on exactly once and after its inputs, call graphs contain an edge per call instruction, and type-erased callables invoke, copy and move their target faithfully.",
  ['histories','programs'],'every history of graph operations within the bound, every acyclic expression graph and every small call graph, with symbolic node choices',
  'Tests build one graph each.',
  [C+'Graph.h',C+'Node.h',C+'ExprGraph.h',CS+'FunctionCallGraph.cpp',C+'Callable.h'],[('connect/disconnect/erase',C+'Node.h'),('evaluateRecursive',C+'ExprGraph.h'),('Callable',C+'Callable.h')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
