// T01: two chosen types requested from one module, in any order and repeatedly.
#include "types.h"
static AuditAllocatorT<4096> al; static SinkT<2048> out; static Decls decls; static Tk a, b, c;
template <class T> static void tmpl(Module &m, Instruction *&i, Tk &k, const unsigned *want, unsigned n) { i = m.type<T>(); for (unsigned q = 0; q < n; ++q) k.put(want[q]); }
#define TMPL(n, T, ...) case n: { static const unsigned want[] = {__VA_ARGS__}; tmpl<T>(m, i, k, want, sizeof want / sizeof *want); break; }
static Instruction *compiled(Module &m, Tk &k) { // types named at compile time
  Instruction *i = nullptr; using V3 = vector_t<float, 3>; using M23 = matrix_t<float, 2, 3>; using A5 = array_t<unsigned, 5>; using AV = array_t<vector_t<int, 2>, 3>; using MD = matrix_t<double, 4, 4>;
  switch (sym_choose(22, "compiled")) {
    TMPL(0, void, 19, 0) TMPL(1, bool, 20, 0) TMPL(2, char, 21, 8, 1, 0) TMPL(3, unsigned char, 21, 8, 0, 0) TMPL(4, short, 21, 16, 1, 0) TMPL(5, unsigned short, 21, 16, 0, 0)
    TMPL(6, int, 21, 32, 1, 0) TMPL(7, unsigned, 21, 32, 0, 0) TMPL(8, long long, 21, 64, 1, 0) TMPL(9, unsigned long long, 21, 64, 0, 0) TMPL(10, float, 22, 32, 0) TMPL(11, double, 22, 64, 0)
    TMPL(12, V3, 23, 3, 1, 22, 32, 0) TMPL(13, M23, 24, 2, 1, 23, 3, 1, 22, 32, 0) TMPL(14, A5, 28, 5, 1, 21, 32, 0, 0) TMPL(15, AV, 28, 3, 1, 23, 2, 1, 21, 32, 1, 0) TMPL(16, MD, 24, 4, 1, 23, 4, 1, 22, 64, 0)
    TMPL(17, sampler_t, 26, 0) TMPL(18, event_t, 34, 0) TMPL(19, queue_t, 37, 0)
    case 20: { i = m.type<float *>(spv::StorageClass::Uniform); const unsigned w[] = {32, 2, 1, 22, 32, 0}; for (unsigned x : w) k.put(x); break; }
    case 21: { i = m.type<V3 *>(spv::StorageClass::Output); const unsigned w[] = {32, 3, 1, 23, 3, 1, 22, 32, 0}; for (unsigned x : w) k.put(x); break; }
  }
  Tk all; tkOf(*i->getType(), all); k.nodes = all.nodes; for (unsigned q = 0; q < all.nodes; ++q) { k.at[q] = all.at[q]; k.len[q] = all.len[q]; } // places of the parts
  return i;
}
static Instruction *request(Module &m, TypeGen &g, Tk &k, unsigned depth, bool tpl) {
  if (tpl) return compiled(m, k);
  Type t = m.newType(); g.gen(t, k, depth);
  Instruction *i = m.addType(t);
  sym_assert(i != nullptr && m.addType(t) == i, "requesting a type again yields the same declaration");
  sym_assert(m.getTypeInstr(t) == i, "looking the type up yields its declaration");
  const Type *r = m.getTypeInfo(i);
  sym_assert(r != nullptr && *r == t, "the recorded description equals the one requested");
  return i;
}
static void verify(Module &m, Instruction *i, const Tk &k) {
  const Type *r = m.getTypeInfo(i); sym_assert(r != nullptr && i->getType() == r, "a declaration has a description");
  c.n = c.nodes = 0; tkOf(*r, c);
  sym_assert(tkSame(c, k), "the recorded description says what was requested");
  unsigned p = 0; sym_assert(decls.is((unsigned)i->getResultId(), k, p, 256) && p == k.n, "the declaration carries the opcode and operands of its type, parts declared first");
}
extern "C" void harness_main(void) {
  TypeGen g; g.kinds = sym_param("kinds", 0x3ff); g.leaves = sym_param("leaves", 3); g.rich = sym_param("rich", 0);
  const unsigned depth = sym_param("depth", 1), nodes = sym_param("nodes", 8), second = sym_param("second", 1), tpl = sym_param("tpl", 0);
  g.wide = sym_param("wide", 0);
  Module m(&al); m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::Simple);
  g.budget = nodes; Instruction *x = request(m, g, a, depth, tpl), *y = nullptr;
  if (second) {
    g.budget = nodes; y = request(m, g, b, depth, tpl == 2);
    bool same = tkSame(a, b);
    sym_assert((x == y) == same, "types share a declaration exactly when they are structurally identical");
    sym_cover(same ? "identical" : "different");
    if (same) y = nullptr;
  }
  m.assignIDs();
  sym_assert(m.write(out), "the module can be written");
  decls.read(out.w, out.n);
  verify(m, x, a); if (y) verify(m, y, b);
  // every distinct part is declared exactly once
  unsigned distinct = 0, have = 0; bool arr = false, u32 = false;
  auto count = [&](const Tk &k, const Tk *other) {
    for (unsigned i = 0; i < k.nodes; ++i) {
      bool old = false;
      for (unsigned j = 0; j < i && !old; ++j) old = tkSame(k.t + k.at[i], k.len[i], k.t + k.at[j], k.len[j]);
      if (other) for (unsigned j = 0; j < other->nodes && !old; ++j) old = tkSame(k.t + k.at[i], k.len[i], other->t + other->at[j], other->len[j]);
      if (!old) ++distinct;
      if (k.t[k.at[i]] == 28) arr = true;
      if (k.t[k.at[i]] == 21 && k.t[k.at[i] + 1] == 32 && k.t[k.at[i] + 2] == 0) u32 = true;
    }
  };
  count(a, nullptr); if (y) count(b, &a);
  for (unsigned i = 0; i < decls.n; ++i) { unsigned o = decls.ins[i].op; if ((o >= 19 && o <= 39) || o == 322 || o == 327 || o == 4472 || o == 5341) ++have; }
  sym_assert(have == distinct + (arr && !u32), "every type is declared exactly once"); // array lengths are unsigned constants
  sym_observe(out.n); for (unsigned i = 0; i < out.n && i < 40; ++i) sym_observe(out.w[i]);
}
