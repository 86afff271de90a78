// K01: capabilities, extensions, imports and the requirements of instructions.
#include "oracle.h"
#include "caps.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Templates.h"
using namespace spvgentwo;
struct Plain : IAllocator { void *allocate(sgt_size_t k, unsigned) override { return malloc(k); } void deallocate(void *p, sgt_size_t) override { free(p); } };
static Plain plain; static AuditAllocatorT<4096> al; static Sink s1;
static const Grammar &grammar() { static Grammar gr(&plain); return gr; }
static unsigned want[64], wants = 0;
static bool has(const unsigned *l, unsigned n, unsigned x) { for (unsigned i = 0; i < n; ++i) if (l[i] == x) return true; return false; }
static void close(unsigned c, bool deps) {
  if (has(want, wants, c)) { if (!deps) return; } else want[wants++] = c;
  if (deps) for (auto &r : implied) if ((unsigned)r[0] == c) for (unsigned k = 1; k < 3; ++k) if (r[k] >= 0) close((unsigned)r[k], true);
}
static void declared(Module &m) { // exactly the wanted capabilities are declared, once each
  sym_assert((unsigned)m.getCapabilities().elements() == wants, "only what was asked for and what it depends on is declared");
  for (unsigned i = 0; i < wants; ++i) sym_assert(m.checkCapability((spv::Capability)want[i]), "a declared capability and what it depends on are found");
  s1.n = 0; m.finalizeAndWrite(s1); unsigned seen[64], n = 0;
  for (unsigned at = 5; at < s1.n; at += s1.w[at] >> 16) { sym_assert(s1.w[at] >> 16 != 0, "words"); if ((s1.w[at] & 0xffff) == 17) { sym_assert(!has(seen, n, s1.w[at + 1]), "a capability is declared once"); sym_assert(has(want, wants, s1.w[at + 1]), "only what was asked for and what it depends on is declared"); seen[n++] = s1.w[at + 1]; } }
  sym_assert(n == wants, "every declared capability is written");
}
static unsigned pick() { const unsigned N = sizeof(allCapabilities) / sizeof(unsigned); unsigned k = sym_choose(N + 1, "capability"); if (k < N) return allCapabilities[k]; sym_cover("unknown capability"); return 0x12345; }
extern "C" void harness_main(void) {
  const unsigned mode = sym_param("mode", 0);
  if (mode == 3) { // the table of dependencies, for every word
    unsigned c = sym_u32("capability"); const BaseCapability b = getBaseCapability((spv::Capability)c); bool known = false;
    for (auto &r : implied) if (c == (unsigned)r[0]) { known = true; const unsigned none = (unsigned)spv::Capability::Max, p = (unsigned)b.primary, q = (unsigned)b.secondary, x = (unsigned)r[1], y = r[2] < 0 ? none : (unsigned)r[2]; sym_assert((p == x && q == y) || (p == y && q == x), "a capability depends on what the specification says"); }
    if (!known) sym_assert(b.primary == spv::Capability::Max && b.secondary == spv::Capability::Max, "other capabilities depend on nothing");
    sym_cover(known ? "dependent" : "independent"); return;
  }
  if (mode == 0) { // closure
    Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple);
    unsigned a = pick(); bool deps = sym_choose(2, "dependent");
    if (sym_param("twice", 0)) { static const unsigned first[] = {1, 6, 4472, 4478, 5310, 46, 57, 22}; unsigned f = first[sym_choose(8, "first")]; bool fd = sym_choose(2, "dependent"); m.addCapability((spv::Capability)f, fd); close(f, fd); if (f == a) sym_cover("again"); }
    m.addCapability((spv::Capability)a, deps);
    close(a, deps);
    declared(m);
    m.addCapability((spv::Capability)a, deps); declared(m);
    // removal
    unsigned victim = want[sym_choose(wants, "victim")];
    if (sym_choose(2, "by instruction")) { Instruction *i = m.getCapabilities().get((spv::Capability)victim); sym_assert(i != nullptr && i->front().getLiteral().value == victim, "the declaration is found"); sym_assert(m.remove(i), "a declaration can be removed"); }
    else sym_assert(m.removeCapability((spv::Capability)victim), "a declared capability can be removed");
    unsigned k = 0; for (unsigned i = 0; i < wants; ++i) if (want[i] != victim) want[k++] = want[i]; wants = k;
    sym_assert(!m.checkCapability((spv::Capability)victim) && !m.removeCapability((spv::Capability)victim), "a removed capability is gone");
    declared(m); sym_cover("removed");
    m.addCapability((spv::Capability)victim); close(victim, false); declared(m);
  } else if (mode == 1) { // extensions and imports by name; the last byte of each name is symbolic
    Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple);
    const unsigned steps = sym_param("steps", 3); char name[4][8]; unsigned len[4]; bool imp[4], live[4]; Instruction *at[4];
    auto same = [&](unsigned i, unsigned j) { if (len[i] != len[j]) return false; for (unsigned q = 0; q < len[i]; ++q) if (name[i][q] != name[j][q]) return false; return true; };
    auto fresh = [&](unsigned i) { len[i] = sym_choose(3, "length"); for (unsigned q = 0; q < len[i]; ++q) name[i][q] = 'a'; if (len[i]) { unsigned char c = sym_u8("char"); sym_assume(c >= 0x7e && c <= 0x81); name[i][len[i] - 1] = (char)c; } else { len[i] = 6; for (unsigned q = 0; q < 6; ++q) name[i][q] = "SPV_xy"[q]; } name[i][len[i]] = 0; };
    unsigned expect = 0;
    for (unsigned i = 0; i < steps; ++i) {
      fresh(i); imp[i] = sym_choose(2, "import"); live[i] = false; at[i] = nullptr;
      unsigned prev = ~0u; for (unsigned j = 0; j < i; ++j) if (imp[j] == imp[i] && live[j] && same(i, j)) prev = j;
      if (imp[i]) { Instruction *before = m.getExtensionInstructionImport(name[i]); sym_assert(prev == ~0u ? before == nullptr : before == at[prev], "a lookup finds what was declared"); at[i] = m.addExtensionInstructionImport(name[i]); sym_assert(at[i] != nullptr && at[i]->getOperation() == spv::Op::OpExtInstImport, "an import is declared"); sym_assert(prev == ~0u || at[i] == at[prev], "a repeated import is the same declaration"); sym_assert(m.getExtensionInstructionImport(name[i]) == at[i], "a lookup finds what was declared"); }
      else m.addExtension(name[i]);
      if (prev == ~0u) { live[i] = true; ++expect; } else sym_cover("again");
      if (i + 1 == steps && sym_choose(2, "remove")) { // remove the first one
        if (imp[0]) { sym_assert(m.remove(at[0]), "a declaration can be removed"); sym_assert(m.getExtensionInstructionImport(name[0]) == nullptr, "a removed import is gone"); }
        else { Instruction *e = m.getExtensions().get(hash((const char *)name[0])); sym_assert(e != nullptr, "a lookup finds what was declared"); sym_assert(m.remove(e), "a declaration can be removed"); sym_assert(m.getExtensions().get(hash((const char *)name[0])) == nullptr, "a removed extension is gone"); }
        live[0] = false; --expect; sym_cover("removed");
      }
    }
    s1.n = 0; sym_assert(m.finalizeAndWrite(s1), "written"); unsigned n = 0; bool seen[4] = {false, false, false, false};
    for (unsigned a = 5; a < s1.n; a += s1.w[a] >> 16) { unsigned op = s1.w[a] & 0xffff; if (op == 10 || op == 11) { ++n; unsigned off = op == 11 ? 2 : 1; bool hit = false;
      for (unsigned i = 0; i < steps; ++i) if (live[i] && imp[i] == (op == 11) && !seen[i] && (s1.w[a] >> 16) == off + len[i] / 4 + 1) { bool eq = true; for (unsigned q = 0; q <= len[i]; ++q) eq &= (s1.w[a + off + q / 4] >> 8 * (q % 4) & 0xff) == (q == len[i] ? 0u : (unsigned char)name[i][q]); if (eq) { seen[i] = true; hit = true; break; } }
      sym_assert(hit, "only what was declared is written"); } }
    sym_assert(n == expect, "each declaration is written once");
  } else if (mode == 2) { // requirements of instructions
    const Grammar &gr = grammar();
    static unsigned known[1024]; static unsigned count = 0;
    if (count == 0) for (unsigned o = 0; o < 7000; ++o) if (gr.getInfo(o)) known[count++] = o;
    Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple);
    unsigned v0 = sym_u32("version"); sym_assume((v0 & 0xff) == 0 && v0 < 0x20000); m.setSpvVersion(v0);
    Function &f = m.addFunction<void>("f"); BasicBlock &b = *f; Instruction *t = m.type<float>(), *c = m.constant(1.f);
    unsigned ops[3], k = sym_param("count", 1); ops[0] = known[sym_choose(count, "opcode")]; if (k > 1) { static const unsigned second[] = {61, 333, 345, 400, 402, 4416, 5296, 24, 5110}; ops[1] = second[sym_choose(9, "second")]; sym_assume(gr.getInfo(ops[1]) != nullptr); }
    for (unsigned i = 0; i < k; ++i) {
      auto fill = [&](Instruction &x) { bool r, y; spv::HasResultAndType((spv::Op)ops[i], &r, &y); x.setOperation((spv::Op)ops[i]); if (y) x.addOperand(t); if (r) x.addOperand(InvalidId); x.addOperand(c); };
      switch (sym_choose(k == 1 ? 4 : 2, "place")) {
      case 0: fill(*b.addInstruction()); sym_cover("in a block"); break;
      case 1: fill(m.getTypesAndConstants().emplace_back(&m, spv::Op::OpNop)); break;
      case 2: fill(*m.addDecorationInstr()); break;
      case 3: fill(*m.addExtensionModeInstr()); break;
      }
    }
    unsigned need = 0x10000, others[] = {54, 56, 248, 22, 43, 19, 33, 14, 5}; unsigned exts = 0; (void)exts;
    auto asks = [&](unsigned o) { const Grammar::Instruction *i = gr.getInfo(o); if (i->version > need) need = i->version; for (auto &x : i->capabilities) close((unsigned)x, false); };
    for (unsigned o : others) asks(o); for (unsigned i = 0; i < k; ++i) asks(ops[i]);
    unsigned how = sym_choose(3, "how"), version;
    switch (how) {
    case 0: m.assignIDs(&gr); sym_assert(m.getSpvVersion() == (v0 > need ? v0 : need), "numbering with a grammar raises the version to what is needed and never lowers it"); break;
    case 1: m.addRequiredCapabilities(gr); m.addRequiredExtensions(gr); version = m.getRequiredVersion(gr); sym_assert(version == need && m.getSpvVersion() == v0, "the required version is the highest that is needed"); sym_assert(m.setRequiredVersion(gr) == need && m.getSpvVersion() == need, "the required version is set"); break;
    case 2: { m.assignIDs(); sym_assert(m.getSpvVersion() == v0 && m.getCapabilities().elements() == 0 && m.getExtensions().elements() == 0, "without a grammar nothing is declared"); unsigned char ma = sym_u8("major"), mi = sym_u8("minor"); m.ensureSpvVersion(ma, mi); unsigned e = (unsigned)ma << 16 | (unsigned)mi << 8; sym_assert(m.getSpvVersion() == (e > v0 ? e : v0), "ensuring a version never lowers it"); sym_cover("ensured"); return; }
    }
    sym_assert((unsigned)m.getCapabilities().elements() == wants, "exactly the capabilities that are needed are declared");
    for (unsigned i = 0; i < wants; ++i) sym_assert(m.checkCapability((spv::Capability)want[i]), "every capability that is needed is declared");
    unsigned listed[16], n = 0;
    for (unsigned i = 0; i < k; ++i) for (auto &x : gr.getInfo(ops[i])->extensions) { if (!has(listed, n, (unsigned)x)) listed[n++] = (unsigned)x; sym_assert(m.getExtensions().get(hash(spv::ExtensionNames[(unsigned)x])) != nullptr, "every extension that is needed is declared"); sym_cover("extension"); }
    sym_assert((unsigned)m.getExtensions().elements() == n, "exactly the extensions that are needed are declared");
    unsigned caps = 0, ex = 0, self17 = 0, self10 = 0; for (unsigned i = 0; i < k; ++i) { self17 += ops[i] == 17; self10 += ops[i] == 10; } m.iterateInstructions([&](const Instruction &i) { caps += i.getOperation() == spv::Op::OpCapability; ex += i.getOperation() == spv::Op::OpExtension; });
    sym_assert(caps == wants + self17 && ex == n + self10, "each is declared once");
  }
}
