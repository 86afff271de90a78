// W01/W02: every module of the builder grammar serializes to a structurally well-formed stream that carries exactly what was built.
#include "build.h"

struct Flat {
  unsigned w[1024]; unsigned n = 0; bool resolved = true;
  void put(unsigned x) { sym_assert(n < 1024, "harness buffer"); w[n++] = x; }
  void ins(const Instruction &in) {
    unsigned words = 1; for (const Operand &o : in) { (void)o; ++words; }
    sym_assert(words < 65536, "harness bound");
    put(words << 16 | static_cast<unsigned>(in.getOperation()));
    for (const Operand &o : in) {
      unsigned x = 0;
      if (o.isLiteral()) { put(o.getLiteral().value); continue; }
      if (Instruction *i = o.getInstruction()) x = static_cast<unsigned>(i->getResultId());
      else if (BasicBlock *b = o.getBranchTarget()) x = static_cast<unsigned>(b->getLabel()->getResultId());
      else x = static_cast<unsigned>(o.getId());
      if (x == 0 || x == ~0u) resolved = false;
      put(x);
    }
  }
  template <class L> void list(const L &l) { for (const Instruction &i : l) ins(i); }
  void function(const Function &f) {
    ins(*f.getFunction()); list(f.getParameters());
    for (const BasicBlock &b : f) { ins(*b.getLabel()); list(b); }
    ins(*f.getFunctionEnd());
  }
  void module(const Module &m) {
    for (auto &e : m.getCapabilities()) ins(e.value);
    for (auto &e : m.getExtensions()) ins(e.value);
    for (auto &e : m.getExtInstrImports()) ins(e.value);
    ins(m.getMemoryModel());
    for (const EntryPoint &e : m.getEntryPoints()) ins(*e.getEntryPoint());
    list(m.getExecutionModes()); list(m.getSourceStrings()); list(m.getNames()); list(m.getModulesProcessed()); list(m.getDecorations());
    list(m.getTypesAndConstants()); list(m.getGlobalVariables()); list(m.getUndefs()); list(m.getLines());
    for (const Function &f : m.getFunctions()) if (f.empty()) function(f);
    for (const Function &f : m.getFunctions()) if (!f.empty()) function(f);
    for (const EntryPoint &e : m.getEntryPoints()) function(e);
  }
};
static AuditAllocatorT<4096> al;
static Sink s, s2; static Flat f; static Ins ins[512];

extern "C" void harness_main(void) {
  const unsigned steps = sym_param("steps", 2), fail = sym_param("fail", 0);
  const bool structure = sym_param("ids", 0) == 0, ids = !structure; // W01 judges the structure of the stream, W02 its ids
  Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple);
  unsigned major = sym_u8(), minor = sym_u8(); m.setSpvVersion(static_cast<unsigned char>(major), static_cast<unsigned char>(minor));
  Builder b(m); b.light = sym_param("light", 0);
  for (unsigned i = 0; i < steps; ++i) b.act(sym_choose(Builder::Kinds));
  bool ok = m.finalizeAndWrite(s);
  sym_cover(ok ? "written" : "refused");
  if (b.complete) sym_assert(ok, "a complete module serializes");
  if (!ok) { sym_assert(!b.complete, "only incomplete modules are refused"); return; }
  const unsigned version = major << 16 | minor << 8;
  auto S = [&](bool c, const char *w) { if (structure) sym_assert(c, w); else sym_assume(c); };
  S(m.getSpvVersion() == version && m.getMajorVersion() == major && m.getMinorVersion() == minor, "the version is the one that was set");
  sym_assert(s.n >= 5 && s.w[3] == m.getSpvBound(), "the header carries the module's bound");
  unsigned k = validate(s.w, s.n, version, ins, 512, structure, ids);
  f.module(m);
  sym_assert(f.resolved, "every operand is resolved");
  S(f.n + 5 == s.n, "the stream holds exactly the module's instructions");
  if (structure) for (unsigned i = 0; i < f.n; ++i) sym_assert(f.w[i] == s.w[5 + i], "the stream holds the words the instructions were built with");
  else for (unsigned i = 0; i < k; ++i) operands(ins[i], [&](char c, unsigned o) { if (c == 'r' || c == 'i' || c == 't') sym_assert(f.w[ins[i].at + 1 + o] == ins[i].w[o], "every reference is written as the id of what it refers to"); });
  sym_observe(k); sym_observe(s.n);
  if (!structure) return;
  // writing again, and finalizing again, reproduces the stream
  if (fail) {
    s2.failAt = sym_choose(s.n);
    sym_assert(!m.write(s2), "a failing writer makes serialization report failure");
    sym_assert(s2.n == s2.failAt, "writing stops where the writer failed");
    for (unsigned i = 0; i < s2.n; ++i) sym_assert(s2.w[i] == s.w[i], "the words before the failure are the stream's");
  } else {
    bool again = m.finalizeAndWrite(s2);
    sym_assert(again && s2.n == s.n, "writing again yields the same stream");
    for (unsigned i = 0; i < s2.n; ++i) sym_assert(s2.w[i] == s.w[i], "writing again yields the same stream");
  }
}
