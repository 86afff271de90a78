// G01: lookups in the grammar tables and the classification of opcodes, for every 32-bit opcode, enumerant and operand kind, against the registry (registry.h).
#include "oracle.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
#include "registry.h"
using namespace spvgentwo;
struct Plain final : public IAllocator { void *allocate(const sgt_size_t n, const unsigned = 1u) final { return malloc(n); } void deallocate(void *p, const sgt_size_t = 0u) final { free(p); } };
static Plain plain; static Grammar g(&plain);
static const unsigned NIns = sizeof(regIns) / sizeof(regIns[0]), NEnums = sizeof(regEnums) / sizeof(regEnums[0]), NParams = sizeof(regParams) / sizeof(regParams[0]), NBases = sizeof(regBases) / sizeof(regBases[0]);
static const unsigned Result = 48, ResultType = 47, Id = 51, ExecutionMode = 14;
static bool eq(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }
static bool operandsAre(const Vector<Grammar::Operand> &v, unsigned first, unsigned n) {
  if (v.size() != n) return false;
  for (unsigned i = 0; i < n; ++i) { const RegOperand &o = regOperands[first + i]; static const unsigned char q[] = {(unsigned char)Grammar::Quantifier::One, (unsigned char)Grammar::Quantifier::ZeroOrOne, (unsigned char)Grammar::Quantifier::ZeroOrAny};
    if ((unsigned)v[i].kind != o.kind || (unsigned)v[i].category != o.category || (unsigned)v[i].quantifier != q[o.quantifier]) return false; }
  return true;
}
// any number below 2^bits * d, as quotient and remainder by the tables' size: which bucket it falls into needs no search (were the size another one, it would only take longer)
static unsigned spread(unsigned d, const char *name, unsigned bits = 22) { const unsigned r = sym_choose(d, name); return (unsigned)sym_bits(bits, name) * d + r; }
static void instructions() {
  const unsigned ext = sym_choose(4, "extension"), op = spread(953, "opcode", 7); const Grammar::Instruction *i = (const Grammar::Instruction *)sym_concretize((uint64_t)g.getInfo(op, (Grammar::Extension)ext));
  if (i == nullptr) { bool known = false; for (const RegIns &r : regIns) known |= (r.ext == ext) & (r.op == op); sym_assert(!known, "every registered instruction is found"); sym_cover("unknown instruction"); return; }
  bool named = false; unsigned at = 0; for (unsigned k = 0; k < NIns; ++k) if (regIns[k].ext == ext && eq(regIns[k].name, i->name)) { named = true; at = k; break; } // the entry found is a concrete one: which instruction is it?
  sym_assert(named, "the entry found is an instruction of the set"); sym_assert(regIns[at].op == op, "the entry found is the one asked for"); sym_cover("known instruction");
  sym_assert(operandsAre(i->operands, regIns[at].first, regIns[at].n), "the entry has the operands of the instruction");
}
static void classes() { // of opcodes: whatever word is asked about
  const unsigned op = sym_u32("opcode"); const spv::Op o = (spv::Op)op; bool res = false, type = false, known = false, isType = false, isConst = false, isSpec = false, isTerm = false;
  for (const RegIns &r : regIns) if (r.ext == 0) {
    const bool it = r.op == op; known |= it; for (unsigned k = 0; k < r.n; ++k) { if (regOperands[r.first + k].kind == Result) res |= it; if (regOperands[r.first + k].kind == ResultType) type |= it; }
    auto starts = [&](const char *p) { const char *s = r.name; while (*p && *p == *s) ++p, ++s; return !*p; };
    if (starts("OpType")) isType |= it; if (starts("OpConstant")) isConst |= it; if (starts("OpSpecConstant")) isSpec |= it;
    static const char *const terms[] = {"OpBranch", "OpBranchConditional", "OpSwitch", "OpReturn", "OpReturnValue", "OpKill", "OpUnreachable", "OpTerminateInvocation", "OpIgnoreIntersectionKHR", "OpTerminateRayKHR", "OpEmitMeshTasksEXT"};
    for (const char *t : terms) if (eq(t, r.name)) isTerm |= it;
  }
  sym_assume(known); const unsigned what = sym_choose(8, "question");
  switch (what) {
  case 0: sym_assert(spv::HasResult(o) == res, "an instruction has a result if its operands begin with one"); break;
  case 1: sym_assert(spv::HasResultType(o) == type, "an instruction has a result type if its operands begin with one"); break;
  case 2: { bool r = true, t = true; spv::HasResultAndType(o, &r, &t); sym_assert(r == res && t == type, "result and type are reported together as they are alone"); break; }
  case 3: sym_assert(spv::IsTypeOp(o) == isType, "type declarations are recognized"); break;
  case 4: sym_assert(spv::IsConstantOp(o) == isConst, "constants are recognized"); break;
  case 5: sym_assert(spv::IsSpecConstantOp(o) == isSpec, "specialization constants are recognized"); break;
  case 6: sym_assert(isSpecOrConstantOp(o) == (isConst || isSpec), "constants and specialization constants are recognized"); break;
  case 7: sym_assert(isTerminatorOp(o) == isTerm, "instructions that end a block are recognized"); break;
  }
  sym_cover("classified");
}
static void modes() { // execution modes are set by the instruction their operands belong to
  const unsigned mode = sym_u32("mode"); bool ids = false, known = false; for (const RegEnum &e : regEnums) if (e.kind == ExecutionMode) known |= e.value == mode;
  for (const RegParam &p : regParams) if (p.kind == ExecutionMode) for (unsigned i = 0; i < p.n; ++i) if (regOperands[p.first + i].kind == Id) ids |= p.value == mode;
  sym_assume(known); sym_assert(getExecutionModeOp((spv::ExecutionMode)mode) == (ids ? spv::Op::OpExecutionModeId : spv::Op::OpExecutionMode), "execution modes with id operands are set by the instruction for those"); sym_cover("execution modes");
}
static void enumerants() {
  const unsigned kind = sym_choose(64, "kind"), value = spread(981, "value"); const char *n = g.getOperandName((Grammar::OperandKind)kind, value);
  if (n == nullptr) { bool known = false; for (const RegEnum &e : regEnums) if (e.kind == kind) known |= e.value == value; sym_assert(!known, "every registered enumerant has a name"); sym_cover("unnamed"); return; }
  bool ok = false; for (const RegEnum &e : regEnums) if (e.kind == kind && eq(e.name, n)) ok |= e.value == value;
  sym_assert(ok, "the name is the enumerant's"); sym_cover("named");
}
static void parameters() {
  const unsigned kind = sym_choose(64, "kind"), value = spread(139, "value"); const Grammar::OperandKind k = (Grammar::OperandKind)kind; const Vector<Grammar::Operand> *p = (const Vector<Grammar::Operand> *)sym_concretize((uint64_t)g.getOperandParameters(k, value)); bool any = false; for (const RegParam &r : regParams) any |= r.kind == kind;
  sym_assert(Grammar::hasOperandParameters(k) == any, "kinds whose enumerants have parameters are recognized");
  if (p == nullptr) { bool known = false; for (const RegParam &r : regParams) if (r.kind == kind) known |= r.value == value; sym_assert(!known, "parameters of every enumerant that has some are found"); sym_cover("no parameters"); return; }
  bool ok = false; for (const RegParam &r : regParams) if (r.kind == kind) ok |= (r.value == value) & operandsAre(*p, r.first, r.n);
  sym_assert(ok, "the parameters are the enumerant's"); sym_cover("parameters");
}
static void bases() {
  const unsigned kind = sym_choose(64, "kind"); const Vector<Grammar::Operand> *p = g.getOperandBases((Grammar::OperandKind)kind); const RegParam *r = nullptr; for (const RegParam &b : regBases) if (b.kind == kind) r = &b;
  sym_assert((p != nullptr) == (r != nullptr) && (!p || operandsAre(*p, r->first, r->n)), "composite operands have their parts"); if (p) sym_cover("parts");
}
extern "C" void harness_main(void) { switch (sym_param("mode", 0)) { case 0: instructions(); break; case 1: classes(); break; case 2: enumerants(); break; case 3: parameters(); break; case 4: bases(); break; default: modes(); break; } }
