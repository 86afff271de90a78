// J01: the text printed for instructions and modules, for every instruction of the grammar with symbolic operands and print options, compared with what was put in.
#include "build.h"
#include "spvgentwo/Grammar.h"
#include "common/ModulePrinter.h"
#include "registry.h"
namespace P = spvgentwo::ModulePrinter; using PO = P::PrintOptionsBits; using GO = Grammar::Operand; using OK = Grammar::OperandKind;
struct Plain final : IAllocator { void *allocate(sgt_size_t n, unsigned = 1u) final { return malloc(n); } void deallocate(void *p, sgt_size_t) final { free(p); } };
static Plain plain; static Grammar g(&plain); static AuditAllocatorT<8192> al;
// what is printed, and what should be
struct Text { char c[640]; unsigned n; void put(const char *s) { for (; *s; ++s) ch(*s); } void ch(char x) { sym_assert(n < sizeof(c), "HARNESS: the text fits"); c[n++] = x; }
  void num(unsigned v) { static const char d[] = {'0', '1', '2', '3', '4', '5', '6', '7', '8', '9'}; unsigned len = 1; for (unsigned x = v / 10; x; x /= 10) ++len; for (unsigned i = len; i-- > 0; v /= 10) c[n + i] = d[v % 10]; n += len; } };
static unsigned NIns() { return sizeof(regIns) / sizeof(regIns[0]); }
static Text got, want; static unsigned asked; static bool constants() { if (asked == 2) asked = sym_choose(2, "constants"); return asked == 1; } // does the printer have a form for constants?
struct Printer final : P::IModulePrinter {
  void append(const char *s, const char *, const char *) final { if (s) got.put(s); }
  bool append(const Constant &c, const char *, const char *) final { if (!constants()) return false; got.put("{"); got.put(c.getType().isInt() ? "int " : "other "); got.num(c.getData().front()); got.put("}"); return true; }
};
static unsigned options; static bool on(PO o) { return (options & (unsigned)o) != 0; }
static bool fails; // something in the instruction can not be printed
struct Item { unsigned form; const GO *info; unsigned v; char s[8]; }; // form: 0 id, 1 literal, 2 string, 3 enumerant, 4 one of the things that can be referred to, 5 instruction of an extension, 6 instruction of a specialization constant, 7 result
static Item items[48]; static unsigned n; static Instruction *refs[16]; static const char *refName[16]; static const char *refText[16]; static BasicBlock *blocks[2]; static const unsigned NRefs = 15;
static void pool(Module &m, Function &f) {
  static Type t(&al), v(&al), s(&al), w(&al), mat(&al); t.Float(32); v.VectorElement(3).UInt(16); s.Struct(); s.Member().Float(32); w.Float(64); mat.MatrixColumn(2).VectorElement(4).Float(32);
  refs[2] = m.addUndefInstr(); refs[2]->opUndef(m.addType(t)); refs[3] = m.addUndefInstr(); refs[3]->opUndef(m.addType(t)); m.addName(refs[3], "ab"); refs[4] = m.addUndefInstr(); refs[4]->opUndef(m.addType(t)); m.addName(refs[4], "x"); // 0: raw id, 1: no id
  refs[5] = m.addType(t); refs[6] = m.addType(v); refs[7] = m.addType(s); refs[8] = m.addType(w); m.addName(refs[8], "T"); refs[9] = m.constant(7u); refs[10] = m.constant(9u); m.addName(refs[10], "nine"); refs[11] = m.addType(mat);
  refName[3] = "ab"; refName[4] = "x"; refName[8] = "T"; refName[10] = "nine"; refText[5] = "float"; refText[6] = "uint16_3"; refText[8] = "double"; refText[9] = "{int 7}"; refText[10] = "{int 9}"; refText[11] = "float_2x4";
  for (unsigned i = 2; i < 12; ++i) *refs[i]->getResultIdOperand() = Operand(spv::Id{100 + i});
  blocks[0] = &f.addBasicBlock(); blocks[1] = &f.addBasicBlock("label"); for (unsigned i = 0; i < 2; ++i) *blocks[i]->getLabel()->getResultIdOperand() = Operand(spv::Id{120 + i});
}
static Item &item(unsigned form, const GO *info, unsigned v) { sym_assert(n < 48, "HARNESS: the operands fit"); Item &i = items[n++]; i.form = form; i.info = info; i.v = v; return i; }
static void operands(const Vector<GO> &l, unsigned vary, bool nested, unsigned depth);
static void one(const GO &o, unsigned at, bool vary, bool nested, unsigned depth) {
  switch (o.category) {
  case Grammar::OperandCategory::Id:
    if (o.kind == OK::IdResult) { if (!nested) item(7, &o, vary ? sym_u32("result") : 5); }
    else if (vary && o.kind != OK::IdResultType) { unsigned r = sym_choose(NRefs, "reference"); item(4, &o, r); if (r == 0) items[n - 1].v = sym_u32("id"), items[n - 1].form = 0; }
    else if (o.kind == OK::IdResultType) item(nested ? 8 : 4, &o, nested ? items[0].v : vary ? 5 + sym_choose(4, "result type") : 5); // a nested operation has the type of the constant
    else item(0, &o, 40 + at);
    break;
  case Grammar::OperandCategory::Literal:
    if (o.kind == OK::LiteralString) { Item &i = item(2, &o, 0); unsigned len = vary ? sym_choose(6, "length") : 2; for (unsigned k = 0; k < len; ++k) i.s[k] = vary ? (char)(1 + sym_bits(7, "character")) : (char)('a' + k); i.s[len] = 0; }
    else if (o.kind == OK::LiteralContextDependentNumber) { item(1, &o, vary ? sym_u32("number") : 77); if (vary && sym_choose(2, "two words")) item(1, &o, sym_u32("number")); }
    else if (o.kind == OK::LiteralExtInstInteger) item(5, &o, vary ? sym_choose(200, "instruction") : 1);
    else if (o.kind == OK::LiteralSpecConstantOpInteger) {
      unsigned k = vary ? sym_choose(NIns(), "operation") : 140; const RegIns &r = regIns[k]; bool res = false, type = false; for (unsigned j = 0; j < r.n; ++j) res |= regOperands[r.first + j].kind == 48, type |= regOperands[r.first + j].kind == 47;
      sym_assume(r.ext == 0 && res && type && r.op != (unsigned)spv::Op::OpSpecConstantOp && r.op != (unsigned)spv::Op::OpExtInst); item(6, &o, r.op); const auto *info = g.getInfo(r.op); operands(info->operands, ~0u, true, depth + 1); sym_cover("operation of a specialization constant");
    } else item(1, &o, vary ? sym_u32("literal") : 20 + at);
    break;
  case Grammar::OperandCategory::BitEnum: case Grammar::OperandCategory::ValueEnum: {
    unsigned idx[128], c = 0; for (unsigned k = 0; k < sizeof(regEnums) / sizeof(regEnums[0]); ++k) if (regEnums[k].kind == (unsigned)o.kind && c < 128) idx[c++] = k;
    unsigned v = regEnums[idx[0]].value; if (vary) { unsigned k = sym_choose(c + 1, "enumerant"); v = k == c ? 0x6543210u : regEnums[idx[k]].value; if (o.category == Grammar::OperandCategory::BitEnum && depth == 0) { unsigned k2 = sym_choose(c + 1, "other bit"); sym_assume(k2 == c || k2 < k); if (k2 < c) v |= regEnums[idx[k2]].value; if (k2 < c) sym_cover("several bits"); } }
    item(3, &o, v); if (depth > 1) break;
    if (o.category == Grammar::OperandCategory::ValueEnum) { if (const auto *p = g.getOperandParameters(o.kind, v)) operands(*p, ~0u, false, depth + 1), sym_cover("operands of an enumerant"); }
    else for (unsigned b = 0; b < 32; ++b) if (v >> b & 1) if (const auto *p = g.getOperandParameters(o.kind, 1u << b)) operands(*p, ~0u, false, depth + 1), sym_cover("operands of an enumerant");
  } break;
  case Grammar::OperandCategory::Composite: if (const auto *b = g.getOperandBases(o.kind)) { const unsigned w = vary ? sym_choose((unsigned)b->size(), "part") : ~0u; unsigned j = 0; for (const GO &p : *b) one(p, at, w == j++, false, depth + 1); } break;
  }
}
static void operands(const Vector<GO> &l, unsigned vary, bool nested, unsigned depth) {
  unsigned at = 0;
  for (const GO &o : l) {
    unsigned count = 1; if (o.quantifier == Grammar::Quantifier::ZeroOrAny) count = vary == at ? sym_choose(3, "how many") : 1; else if (o.quantifier == Grammar::Quantifier::ZeroOrOne && vary == at) count = sym_choose(2, "present");
    for (unsigned k = 0; k < count; ++k) one(o, at, vary == at && k + 1 == count, nested, depth);
    if (count == 0) break;
    ++at;
  }
}
static void add(Instruction &i, const Item &x) {
  switch (x.form) {
  case 0: case 7: i.addOperand(Operand(spv::Id{x.v})); break;
  case 1: case 3: case 5: case 6: i.addOperand(Operand(literal_t{x.v})); break;
  case 2: { unsigned w = 0, k = 0; for (;; ++k) { w |= (unsigned)(unsigned char)x.s[k] << (k % 4 * 8); bool end = x.s[k] == 0; if (end || k % 4 == 3) { i.addOperand(Operand(literal_t{w})); w = 0; } if (end) break; } } break;
  case 4: if (x.v == 12) i.addOperand(Operand((Instruction *)nullptr)); else if (x.v == 1) i.addOperand(Operand(refs[1])); else if (x.v < 12) i.addOperand(Operand(refs[x.v])); else i.addOperand(Operand(blocks[x.v - 13])); break;
  }
}

static void expect(const Item &x) {
  if (x.form == 7) return;
  if (x.form == 2) { want.put(" \""); want.put(x.s); want.put("\""); return; }
  want.put(" ");
  switch (x.form) {
  case 0: if (x.v == 0) { fails = true; return; } want.put("%"); want.num(x.v); break;
  case 1: want.num(x.v); break;
  case 3: { const char *e = g.getOperandName(x.info->kind, x.v); if (e && on(PO::OperandName)) want.put(e), sym_cover("named enumerant"); else want.num(x.v); } break;
  case 5: case 6: want.num(x.v); break;
  case 4: case 8:
    if (x.v == 1 || x.v == 12) { fails = true; return; }
    if (x.v >= 13) { want.put("%"); if (x.v == 14 && on(PO::InstructionName)) want.put("label"); else want.num(120 + x.v - 13); sym_cover("branch target"); return; }
    if (refName[x.v] && on(PO::InstructionName)) { want.put("%"); want.put(refName[x.v]); return; }
    if (refs[x.v]->isType() ? refText[x.v] && on(PO::TypeName) : refText[x.v] && on(PO::ConstantData) && constants()) { want.put(refText[x.v]); return; }
    want.put("%"); want.num(100 + x.v); break;
  }
}
static const RegIns &anyInstruction(bool ext) {
  const unsigned k = sym_param("only", 0) ? sym_param("only", 0) : sym_choose(NIns(), "instruction"); const RegIns &r = regIns[k]; sym_assume(r.ext == 0 && (ext || r.op != (unsigned)spv::Op::OpExtInst));
  if (!sym_param("every", 0)) for (unsigned j = 0; j < k; ++j) if (regIns[j].ext == 0 && regIns[j].n == r.n && regIns[j].op != (unsigned)spv::Op::OpExtInst) { bool same = true; for (unsigned o = 0; o < r.n && same; ++o) { const RegOperand &a = regOperands[regIns[j].first + o], &b = regOperands[r.first + o]; same = a.kind == b.kind && a.quantifier == b.quantifier; } sym_assume(!same); } // of instructions with the same operands the first one
  return r;
}
static void instructions() {
  static Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); static Function &f = m.addFunction<void>("f"); pool(m, f); Instruction none(&m, spv::Op::OpUndef); none.addOperand(Operand(refs[5])); none.addOperand(Operand(InvalidId)); refs[1] = &none;
  const RegIns &r = anyInstruction(false); const auto *info = g.getInfo(r.op); sym_assert(info, "every instruction is known");
  const unsigned vary = sym_choose((unsigned)info->operands.size() + 1, "varied operand"); n = 0; operands(info->operands, vary, false, 0);
  Instruction i(&m, (spv::Op)r.op); for (unsigned j = 0; j < n; ++j) add(i, items[j]);
  options = (unsigned)sym_bits(7, "options"); if (vary != 0) options |= (unsigned)PO::OperationName; asked = 2; const char *indent = vary == 0 && sym_choose(2, "indentation") ? "\t" : nullptr; const bool named = vary == 1 && i.hasResult() && sym_choose(2, "named"); if (named) m.addName(&i, "me");
  bool result = false; for (unsigned j = 0; j < n; ++j) result |= items[j].form == 7; unsigned nested = n; for (unsigned j = 0; j < n; ++j) if (items[j].form == 6) nested = j;
  got.n = want.n = 0; fails = false; Printer p; const bool ok = P::printInstruction(i, g, p, P::PrintOptions{options}, indent);
  if (result) for (unsigned j = 0; j < n; ++j) if (items[j].form == 7) { if (named && on(PO::InstructionName)) want.put("%me"); else if (on(PO::ResultId)) { if (items[j].v == 0) fails = true; else want.put("%"), want.num(items[j].v); } }
  if (indent) want.put(indent); if (on(PO::OperationName)) want.put(r.name);
  for (unsigned j = 0; j < n; ++j) { expect(items[j]); if (j == nested) { want.put(" ["); if (on(PO::OperationName)) want.put(g.getInfo(items[j].v)->name); } } if (nested < n) want.put("]");
  if (fails) { sym_assert(!ok, "instructions with operands that can not be printed are reported"); sym_cover("reported"); return; }
  sym_assert(ok, "well-formed instructions are printed"); got.ch(0); want.ch(0); sym_assert(got.n == want.n, "the text has the operands' length"); bool same = true; for (unsigned j = 0; j < got.n && j < want.n; ++j) same &= got.c[j] == want.c[j]; sym_assert(same, "the text is the instruction's"); sym_cover("printed");
}
static void missing() { // instructions cut off before an operand they need
  static Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); static Function &f = m.addFunction<void>("f"); pool(m, f); refs[1] = refs[2];
  const RegIns &r = anyInstruction(false); const auto *info = g.getInfo(r.op); const unsigned cut = sym_choose((unsigned)info->operands.size() + 1, "first missing operand"); n = 0;
  Vector<GO> have(&al); for (unsigned j = 0; j < cut; ++j) have.emplace_back(info->operands[j]);
  if (cut == info->operands.size()) { // the last parameter of an enumerant
    const GO &last = info->operands[cut - 1]; sym_assume(cut > 0 && Grammar::hasOperandParameters(last.kind)); have.reserve(cut); Vector<GO> before(&al); for (unsigned j = 0; j + 1 < cut; ++j) before.emplace_back(info->operands[j]); operands(before, ~0u, false, 0);
    unsigned k = sym_choose(sizeof(regParams) / sizeof(regParams[0]), "enumerant"); const RegParam &p = regParams[k]; sym_assume(p.kind == (unsigned)last.kind); item(3, &last, p.value); Vector<GO> some(&al); const auto &all = *g.getOperandParameters(last.kind, p.value); const unsigned c = sym_choose(all.size(), "parameters"); sym_assume(all[c].quantifier == Grammar::Quantifier::One);
    for (unsigned j = 0; j < c; ++j) some.emplace_back(all[j]); operands(some, ~0u, false, 1); sym_cover("missing parameter");
  } else { sym_assume(info->operands[cut].quantifier == Grammar::Quantifier::One); operands(have, ~0u, false, 0); }
  Instruction i(&m, (spv::Op)r.op); for (unsigned j = 0; j < n; ++j) add(i, items[j]);
  got.n = 0; asked = 1; Printer p; options = sym_choose(2, "options") ? 0x7f : 0; const bool ok = P::printInstruction(i, g, p, P::PrintOptions{options}, nullptr); sym_assert(!ok, "instructions without an operand they need are reported"); sym_cover("missing operand");
}
static void anything() { // any operands whatever for any instruction: nothing beyond them is read
  static Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); static Function &f = m.addFunction<void>("f"); pool(m, f);
  const RegIns &r = anyInstruction(true); const unsigned op = r.op == 0 && sym_choose(2, "unknown") ? 65000u : r.op; Instruction i(&m, (spv::Op)op); const unsigned c = sym_choose(sym_param("most", 4) + 1, "operands");
  for (unsigned j = 0; j < c; ++j) switch (sym_choose(6, "operand")) { case 0: i.addOperand(Operand(spv::Id{j})); break; case 1: i.addOperand(Operand(literal_t{sym_choose(2, "literal") ? 0x41u + (j << 8) : j + 1})); break; case 2: i.addOperand(Operand(refs[5 + sym_choose(2) * 2])); break; case 3: i.addOperand(Operand(blocks[1])); break; case 4: i.addOperand(Operand((Instruction *)nullptr)); break; case 5: i.addOperand(Operand(literal_t{0x61616161u})); break; }
  got.n = 0; asked = 1; Printer p; options = sym_choose(2, "options") ? 0x7f : 0; const bool ok = P::printInstruction(i, g, p, P::PrintOptions{options}, nullptr); if (op == 65000u) sym_assert(!ok, "unknown instructions are reported"); sym_cover(ok ? "accepted" : "reported");
}
static void same(const char *what) { got.ch(0); want.ch(0); sym_assert(got.n == want.n, "the text has the length of what it stands for"); bool eq = true; for (unsigned j = 0; j < got.n && j < want.n; ++j) eq &= got.c[j] == want.c[j]; sym_assert(eq, what); got.n = want.n = 0; }
static void numbers() { // constants: every word, or the form the printer has for it
  static Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); Instruction *c = nullptr; const unsigned kind = sym_choose(6, "kind"); Printer p; asked = 2; options = (unsigned)sym_bits(7, "options"); got.n = want.n = 0; unsigned words = 1;
  switch (kind) { case 0: c = m.constant(5u); break; case 1: c = m.constant(6.5f); break; case 2: c = m.constant(7ull); words = 2; break; case 3: c = m.constant(2.5); words = 2; break; case 4: c = m.constant(true); break; case 5: c = m.specConstant(9u); break; }
  *c->getResultIdOperand() = Operand(spv::Id{33}); *c->getResultTypeOperand()->instruction->getResultIdOperand() = Operand(spv::Id{34}); unsigned v[2] = {0, 0};
  if (kind != 4) for (unsigned k = 0; k < words; ++k) { Operand &o = *(c->begin() + (2u + k)); v[k] = sym_u32("word"); o = Operand(literal_t{v[k]}); } // what its information says stays
  const bool ok = P::printInstruction(*c, g, p, P::PrintOptions{options}, nullptr); sym_assert(ok, "constants are printed");
  static const char *const type[] = {"uint32", "float", "uint64", "double", "bool", "uint32"}, *const form[] = {"{int 5}", "{other 1087373312}", "{int 7}", "{other 0}", "", "{int 9}"}, *const name[] = {"OpConstant", "OpConstant", "OpConstant", "OpConstant", "OpConstantTrue", "OpSpecConstant"};
  if (on(PO::ResultId)) want.put("%33"); if (on(PO::OperationName)) want.put(name[kind]); want.put(on(PO::TypeName) ? " " : " %"); want.put(on(PO::TypeName) ? type[kind] : "34");
  if (kind != 4) { want.put(" "); if (on(PO::ConstantData) && constants()) want.put(form[kind]), sym_cover("form of a constant"); else { want.num(v[0]); if (words == 2) want.put(" "), want.num(v[1]), sym_cover("two words"); } }
  same("the text is the constant's"); sym_cover("constant");
}
static void extensions() { // extended instructions go by the names of their set
  static Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); static const char *const sets[] = {"GLSL.std.450", "OpenCL.std", "GLSL.std.45", "NonSemantic.Other"}; const unsigned s = sym_choose(4, "set"); Instruction *import = m.addExtensionInstructionImport(sets[s]);
  *import->getResultIdOperand() = Operand(spv::Id{50}); const unsigned v = sym_choose(220, "instruction"), more = sym_choose(3, "operands"); Instruction i(&m, spv::Op::OpExtInst); i.addOperand(Operand(spv::Id{4})); i.addOperand(Operand(spv::Id{5})); i.addOperand(Operand(import)); i.addOperand(Operand(literal_t{v})); for (unsigned k = 0; k < more; ++k) i.addOperand(Operand(spv::Id{60 + k}));
  Printer p; asked = 1; options = (unsigned)sym_bits(7, "options"); got.n = want.n = 0; sym_assert(P::printInstruction(i, g, p, P::PrintOptions{options}, ""), "extended instructions are printed");
  if (on(PO::ResultId)) want.put("%5"); if (on(PO::OperationName)) want.put("OpExtInst"); want.put(" %4 %50 "); const char *n = nullptr; if (s < 2) for (const RegIns &r : regIns) if (r.ext == s + 1 && r.op == v) n = r.name;
  if (n) want.put(n), sym_cover("named"); else want.num(v), sym_cover("number"); for (unsigned k = 0; k < more; ++k) want.put(" %"), want.num(60 + k); 
  String text(&al), colored(&al); { P::ModuleStringPrinter sp(text, false), sc(colored, true); sym_assert(P::printInstruction(i, g, sp, P::PrintOptions{options}, "") && P::printInstruction(i, g, sc, P::PrintOptions{options}, ""), "extended instructions are printed into strings"); }
  bool eq = (unsigned)text.size() == got.n; unsigned at = 0; const char *c = colored.c_str(); for (unsigned j = 0; j < got.n && eq; ++j) { eq &= text[j] == got.c[j]; while (c[at] == '\x1B' || c[at] == '\033') { while (c[at] != 'm') ++at; ++at; } eq &= c[at++] == got.c[j]; } sym_assert(eq, "strings get the same text, with or without colors");
  same("the text is the extended instruction's");
}
static Sink s1;
static void modules() { // every instruction of a module is printed in the order it is written, each on its line, whichever printer is used
  static Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); m.addCapability(spv::Capability::Shader); static Builder b(m); const unsigned acts = sym_param("acts", 2); for (unsigned k = 0; k < acts; ++k) b.act(sym_choose(Builder::Kinds, "act"));
  sym_assume(m.finalizeAndWrite(s1)); got.n = 0; asked = 0; const unsigned how = sym_choose(2, "printer"); options = 1u << 4 | (how ? 9u : sym_choose(2, "results") ? 8u : 0u); static char text[8192]; static unsigned textLen; textLen = 0;
  auto put = [&](const char *s) { for (; *s; ++s) { sym_assert(textLen + 1 < sizeof(text), "HARNESS: the text fits"); text[textLen++] = *s; } }; P::ModuleSimpleFuncPrinter sp(put, how == 1); const bool ok = P::printModule(m, g, sp, P::PrintOptions{options}, "\t"); text[textLen] = 0;
  sym_assert(ok, "modules are printed"); const char *t = text; unsigned len = textLen, at = 0, line = 0; auto skip = [&] { while (at < len && t[at] == '\x1B') { while (at < len && t[at] != 'm') ++at; ++at; } };
  auto is = [&](const char *s) { bool r = true; for (; *s; ++s) { skip(); r &= at < len && t[at] == *s; ++at; } return r; };
  if (options & 1) { sym_assert(is("# SPIR-V Version ") && is(m.getMajorVersion() == 1 ? "1." : "?"), "the preamble has the version"); while (at < len && !(t[at] == '\n' && t[at + 1] == '\n')) ++at; at += 2; sym_cover("preamble"); }
  for (unsigned w = 5; w < s1.n; w += s1.w[w] >> 16) { const unsigned op = s1.w[w] & 0xffff; const auto *info = g.getInfo(op); ++line; bool res = false, type = false; for (const GO &o : info->operands) res |= o.kind == OK::IdResult, type |= o.kind == OK::IdResultType;
    if (res && (options & 8)) { want.n = 0; want.put("%"); want.num(s1.w[w + (type ? 2 : 1)]); want.ch(0); sym_assert(is(want.c), "results are those that are written"); }
    sym_assert(is("\t") && is(info->name), "instructions are printed in the order they are written"); while (at < len && t[at] != '\n') { if (t[at] == '"') { ++at; while (at < len && t[at] != '"') ++at; } ++at; } ++at; }
  skip(); sym_assert(at == len, "nothing else is printed"); sym_cover("module");
}
extern "C" void harness_main(void) { switch (sym_param("mode", 0)) { case 3: numbers(); break; case 4: extensions(); break; case 5: modules(); break; case 1: missing(); break; case 2: anything(); break; default: instructions(); break; } }
