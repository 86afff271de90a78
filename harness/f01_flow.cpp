// F01: functions built from nested structured selections and loops, and from hand-made terminators. The harness keeps its own picture of the control flow; the written words, the branch
// targets and the control flow graph have to agree with it, also after reading the module back.
#include "build.h"
#include "spvgentwo/Grammar.h"
#include "common/ControlFlowGraph.h"
struct Plain : IAllocator { void *allocate(sgt_size_t k, unsigned) override { return malloc(k); } void deallocate(void *p, sgt_size_t) override { free(p); } };
static Plain plain; static AuditAllocatorT<4096> al; static Sink s1, s2; static Ins ins[512];
static const unsigned Max = 32;
struct Want { BasicBlock *bb; unsigned op; BasicBlock *t[4]; unsigned nt; Instruction *cond; bool weighted; unsigned weight[2]; unsigned merge; BasicBlock *m[2]; unsigned mask; unsigned code; }; // merge: 0 none, 247, 246
static Want want[Max]; static unsigned wants;
static Instruction *condition, *u32c;
static Want &expect(BasicBlock &bb, unsigned op, BasicBlock *t0 = nullptr, BasicBlock *t1 = nullptr) { sym_assert(wants < Max, "harness table is large enough"); Want &w = want[wants++]; w = Want{}; w.bb = &bb; w.op = op; w.t[0] = t0; w.t[1] = t1; w.nt = t1 ? 2 : t0 ? 1 : 0; return w; }
static unsigned maxDepth, kinds; static Function *fn; static bool lean; // lean: fewer ways to fill blocks and to compute conditions, for deeper nesting
static unsigned vary(unsigned n, unsigned fixed) { return lean ? fixed : sym_choose(n); }
static Instruction *cond(BasicBlock &bb) { switch (vary(3, 0)) { case 0: return condition; case 1: return bb->opLogicalNot(condition); default: { Instruction *a = bb->opLogicalAnd(condition, condition); return bb->opLogicalNot(a); } } }
static spv::SelectionControlMask smask() { return (spv::SelectionControlMask)sym_u32("selection control"); }
static Flag<spv::LoopControlMask> lmask() { unsigned m = sym_u32("loop control"); sym_assume(m < 4); Flag<spv::LoopControlMask> f; f = (spv::LoopControlMask)m; return f; }
static void code(BasicBlock &bb) { bb->opIAdd(u32c, u32c); }
// fills a block; returns the block in which control continues, or null when it does not continue
static BasicBlock *fill(BasicBlock &bb, unsigned depth, bool mayBeEmpty, BasicBlock *out);
static void close(BasicBlock *open, BasicBlock &helped, BasicBlock &to) { // the helper terminates the block it was given, blocks made by nested helpers are for the caller
  if (!open) return;
  if (open != &helped) (*open)->opBranch(&to);
  expect(*open, 249, &to);
}
static BasicBlock *construct(BasicBlock &bb, unsigned depth) {
  const unsigned k = sym_choose(kinds); Function &f = *bb.getFunction(); BasicBlock *given = sym_choose(2) ? &f.addBasicBlock("given") : nullptr;
  auto merged = [&](BasicBlock &m) { if (given) { sym_assert(&m == given, "the merge block that was passed is used"); sym_cover("merge block passed"); } else for (unsigned i = 0; i < wants; ++i) sym_assert(want[i].bb != &m, "a new merge block is made"); };
  if (k < 4) {
    Instruction *c = cond(bb); spv::SelectionControlMask mask = smask(); BasicBlock *T = nullptr, *F = nullptr, *to = nullptr, *fo = nullptr, *merge;
    switch (k) {
    case 0: { BasicBlock &m = bb.If(c, [&](BasicBlock &t) { T = &t; to = fill(t, depth, true, given); }, [&](BasicBlock &e) { F = &e; fo = fill(e, depth, true, given); }, given, mask); merge = &m; sym_cover("if-else of callables"); break; }
    case 1: { BasicBlock &m = bb.If(c, [&](BasicBlock &t) { T = &t; to = fill(t, depth, true, given); }, given, mask); merge = &m; sym_cover("if of callables"); break; }
    case 2: { T = &f.addBasicBlock("t"); F = &f.addBasicBlock(); to = fill(*T, depth, false, given); fo = fill(*F, depth, false, given); BasicBlock &m = bb.If(c, *T, *F, given, mask); merge = &m; sym_cover("if-else of blocks"); break; }
    default: { T = &f.addBasicBlock(); to = fill(*T, depth, false, given); BasicBlock &m = bb.If(c, *T, given, mask); merge = &m; sym_cover("if of blocks"); break; }
    }
    merged(*merge);
    close(to, *T, *merge); if (F) close(fo, *F, *merge);
    Want &w = expect(bb, 250, T, F ? F : merge); w.merge = 247; w.m[0] = merge; w.mask = (unsigned)mask; w.cond = c;
    return merge;
  }
  if (k == 4) {
    BasicBlock *C = nullptr, *B = nullptr, *N = nullptr, *bo = nullptr, *no = nullptr; Instruction *c = nullptr; auto mask = lmask();
    BasicBlock &m = bb.Loop([&](BasicBlock &x) -> Instruction * { C = &x; return c = cond(x); }, [&](BasicBlock &x) { N = &x; if (vary(2, 0)) code(x); no = &x; }, [&](BasicBlock &x) { B = &x; bo = fill(x, depth, true, given); }, given, mask);
    sym_cover("loop of callables"); merged(m);
    Instruction *t = bb.getTerminator(); sym_assert(t && t->getOperation() == spv::Op::OpBranch, "a loop is entered by a branch");
    BasicBlock *head = t->getFirstActualOperand()->getBranchTarget(); sym_assert(head != nullptr && head != &bb, "a loop is entered by a branch to its header");
    expect(bb, 249, head); Want &w = expect(*head, 249, C); w.merge = 246; w.m[0] = &m; w.m[1] = N; w.mask = (unsigned)mask;
    Want &x = expect(*C, 250, B, &m); x.cond = c;
    close(bo, *B, *N); close(no, *N, *head);
    return &m;
  }
  // blocks: the current block branches to the loop header
  BasicBlock &head = f.addBasicBlock("head"), &N = f.addBasicBlock("next"), &B = f.addBasicBlock(); const unsigned where = lean ? sym_choose(2) : sym_choose(3); auto mask = lmask();
  bb->opBranch(&head); expect(bb, 249, &head);
  if (vary(2, 0)) code(head);
  BasicBlock *C = where == 0 ? &f.addBasicBlock() : nullptr; Instruction *c = where == 0 ? C->addInstruction()->opLogicalNot(condition) : where == 1 ? head->opLogicalNot(condition) : condition;
  if (where == 1) sym_cover("condition in the header"); if (where == 2) sym_cover("constant condition");
  BasicBlock *bo = fill(B, depth, true, given); if (vary(2, 0)) code(N); if (vary(2, 0)) { N->opBranch(&head); sym_cover("back edge made by hand"); }
  BasicBlock &m = head.Loop(c, N, B, given, mask); merged(m); sym_cover("loop of blocks");
  if (C) { Want &w = expect(head, 249, C); w.merge = 246; w.m[0] = &m; w.m[1] = &N; w.mask = (unsigned)mask; Want &x = expect(*C, 250, &B, &m); x.cond = c; }
  else { Want &w = expect(head, 250, &B, &m); w.merge = 246; w.m[0] = &m; w.m[1] = &N; w.mask = (unsigned)mask; w.cond = c; }
  close(bo, B, N); expect(N, 249, &head);
  return &m;
}
static BasicBlock *fill(BasicBlock &bb, unsigned depth, bool mayBeEmpty, BasicBlock *out) {
  unsigned k; if (lean) { static const unsigned few[] = {0, 2, 6}; k = few[sym_choose(depth < maxDepth ? 3 : 2)]; } else k = sym_choose(depth < maxDepth ? 7 : 6);
  switch (k) {
  case 0: if (mayBeEmpty) { sym_cover("empty block"); return &bb; } // else: some code
  case 1: code(bb); return &bb;
  case 2: bb->opReturn(); expect(bb, 253); return nullptr;
  case 3: code(bb); bb->opKill(); expect(bb, 252); sym_cover("kill"); return nullptr;
  case 4: bb->opUnreachable(); expect(bb, 255); return nullptr;
  case 5: if (!out) sym_assume(false); code(bb); bb->opBranch(out); expect(bb, 249, out); sym_cover("leaves by hand"); return nullptr;
  default: { BasicBlock *o = construct(bb, depth + 1); if (vary(2, 0)) code(*o); sym_cover("nested"); return o; }
  }
}
static Want *find(BasicBlock &b) { for (unsigned i = 0; i < wants; ++i) if (want[i].bb == &b) return want + i; return nullptr; }
static unsigned id(BasicBlock *b) { return (unsigned)b->getLabel()->getResultId(); }
static bool has(const List<BasicBlock *> &l, BasicBlock *b) { for (auto *x : l) if (x == b) return true; return false; }
// the function as library objects: of[i] is the object for the block which want[i] describes
static void objects(Function &f, BasicBlock **of) {
  for (unsigned i = 0; i < wants; ++i) {
    List<BasicBlock *> l(&al); bool any = of[i]->getBranchTargets(l);
    sym_assert(of[i]->getTerminator() != nullptr && any, "every block has a terminator");
    auto obj = [&](BasicBlock *b) { for (unsigned k = 0; k < wants; ++k) if (want[k].bb == b) return of[k]; return (BasicBlock *)nullptr; };
    for (unsigned t = 0; t < want[i].nt; ++t) sym_assert(has(l, obj(want[i].t[t])), "every target of the terminator is a branch target");
    for (BasicBlock *x : l) { bool k = false; for (unsigned t = 0; t < want[i].nt; ++t) k |= obj(want[i].t[t]) == x; sym_assert(k, "only targets of the terminator are branch targets"); }
  }
  ControlFlowGraph<> g(f, &al); unsigned nodes = 0;
  sym_assert(g.size() == wants, "the graph has one node for each block");
  for (auto &n : g) {
    unsigned i = 0; while (i < wants && of[i] != n.data()) ++i; sym_assert(i < wants, "nodes are the blocks of the function"); ++nodes;
    for (auto &m : g) sym_assert(&m == &n || m.data() != n.data(), "the graph has one node for each block");
    unsigned e = 0;
    for (auto &o : n.outputs()) {
      bool k = false; for (unsigned t = 0; t < want[i].nt; ++t) for (unsigned j = 0; j < wants; ++j) k |= want[j].bb == want[i].t[t] && of[j] == o.pTarget->data();
      sym_assert(k, "edges lead to the targets of the terminator"); ++e;
      bool back = false; for (auto &x : o.pTarget->inputs()) back |= x.pTarget == &n; sym_assert(back, "the target of an edge knows where it comes from");
    }
    for (unsigned t = 0; t < want[i].nt; ++t) { bool k = false; for (auto &o : n.outputs()) for (unsigned j = 0; j < wants; ++j) k |= want[j].bb == want[i].t[t] && of[j] == o.pTarget->data(); sym_assert(k, "every target of the terminator has an edge"); }
    for (auto &x : n.inputs()) { bool fwd = false; for (auto &o : x.pTarget->outputs()) fwd |= o.pTarget == &n; sym_assert(fwd, "incoming edges have an outgoing counterpart"); }
    sym_assert(e >= want[i].nt - (want[i].nt == 2 && want[i].t[0] == want[i].t[1]), "every target of the terminator has an edge");
  }
  sym_assert(nodes == wants, "the graph has one node for each block");
}
static void words(const Sink &s) {
  unsigned k = validate(s.w, s.n, 0x10000, ins, 512), blocks = 0; Want *cur = nullptr; unsigned start = 0; bool in = false;
  for (unsigned i = 0; i < k; ++i) {
    const Ins &x = ins[i];
    if (x.op == 54) in = true; if (x.op == 56) in = false;
    if (x.op == 248) { cur = nullptr; for (unsigned q = 0; q < wants; ++q) if (id(want[q].bb) == x.w[0]) cur = want + q; sym_assert(cur != nullptr, "only blocks that were made are written"); ++blocks; start = i; }
    if (in && (x.op == 247 || x.op == 246)) sym_assert(cur && x.op == cur->merge && i + 1 < k && terminator(ins[i + 1].op), "merge instructions precede the terminator of the blocks that have one");
    if (in && terminator(x.op)) {
      sym_assert(x.op == cur->op, "the block ends with the terminator it was given");
      if (cur->merge) {
        const Ins &m = ins[i - 1]; sym_assert(i > start && m.op == cur->merge, "selections and loops are declared");
        sym_assert(m.w[0] == id(cur->m[0]), "the merge block is declared");
        if (cur->merge == 246) sym_assert(m.w[1] == id(cur->m[1]), "the continue block is declared");
        sym_assert(m.w[m.n - 1] == cur->mask && m.n == (cur->merge == 246 ? 3u : 2u), "the control mask is kept");
      }
      unsigned o = 0;
      if (x.op == 250 || x.op == 251) { sym_assert(x.w[0] == (unsigned)cur->cond->getResultId(), "the condition is the one that was passed"); o = 1; }
      if (x.op == 251) { sym_assert(x.n == 2 + 2 * (cur->nt - 1), "a switch has all its targets"); sym_assert(x.w[1] == id(cur->t[0]), "the default target is kept"); for (unsigned t = 1; t < cur->nt; ++t) { sym_assert(x.w[2 * t] == cur->weight[t - 1], "the cases are kept"); sym_assert(x.w[2 * t + 1] == id(cur->t[t]), "the targets are kept"); } }
      else if (x.op != 254) { for (unsigned t = 0; t < cur->nt; ++t) sym_assert(x.w[o + t] == id(cur->t[t]), "branches lead to the blocks that were named"); sym_assert(x.n == o + cur->nt + (cur->weighted ? 2 : 0), "the terminator has its operands"); if (cur->weighted) sym_assert(x.w[3] == cur->weight[0] && x.w[4] == cur->weight[1], "weights are kept"); }
    }
  }
  sym_assert(blocks == wants, "every block is written");
}
static void reread(Module &m, bool rec) {
  if (!rec) return;
  static Grammar gr(&plain); static AuditAllocatorT<4096> al2; Module b(&al2); Source src(s1.w, s1.n);
  sym_assert(b.readAndInit(src, gr), "the module can be read");
  BasicBlock *of[Max]; for (unsigned i = 0; i < wants; ++i) of[i] = nullptr; Function *fb = nullptr;
  auto a = m.getFunctions().begin(); for (Function &f : b.getFunctions()) { if (&*a == fn) fb = &f; ++a; }
  auto ob = fb->begin(); for (BasicBlock &x : *fn) { for (unsigned i = 0; i < wants; ++i) if (want[i].bb == &x) of[i] = &*ob; ++ob; }
  for (unsigned i = 0; i < wants; ++i) sym_assert(of[i] != nullptr, "every block is read back");
  objects(*fb, of); sym_cover("read back");
}
static void finish(Module &m) {
  BasicBlock *of[Max]; for (unsigned i = 0; i < wants; ++i) of[i] = want[i].bb;
  unsigned n = 0; for (BasicBlock &b : *fn) { sym_assert(find(b) != nullptr, "only blocks that were asked for are made"); ++n; }
  sym_assert(n == wants, "one terminator for each block");
  objects(*fn, of);
  sym_assert(m.finalizeAndWrite(s1), "the module can be written");
  words(s1); reread(m, sym_param("rec", 1));
}
extern "C" void harness_main() {
  const unsigned mode = sym_param("mode", 0); lean = sym_param("lean", 0); maxDepth = sym_param("depth", 1); kinds = sym_param("kinds", 6); wants = 0;
  if (mode == 2) {
    unsigned op = sym_u32("opcode"); const bool spec = terminator(op);
    sym_assert(isTerminatorOp((spv::Op)op) == spec, "terminators are the instructions that end a block"); sym_cover("any opcode"); return;
  }
  {
    Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); m.addCapability(spv::Capability::Shader);
    condition = m.constant(true); u32c = m.constant(1u);
    Function &f = m.addFunction<void>("f"); fn = &f; BasicBlock &entry = *f;
    if (mode == 0) {
      BasicBlock *open = &entry; for (unsigned k = 0; k < sym_param("steps", 1) && open; ++k) open = construct(*open, 1);
      if (sym_choose(2)) (*open)->opReturn(), expect(*open, 253); else (*open)->opUnreachable(), expect(*open, 255);
    } else {
      const unsigned N = sym_param("blocks", 3); BasicBlock *b[4] = {&entry}; for (unsigned k = 1; k < N; ++k) b[k] = &f.addBasicBlock();
      auto pick = [&]() { return b[1 + sym_choose(N - 1)]; };
      for (unsigned k = 0; k < N; ++k) {
        if (k == 0 || sym_choose(2)) code(*b[k]);
        switch (sym_choose(7)) {
        case 0: { BasicBlock *t = pick(); if (b[k]->empty() && t == b[k]) sym_assume(false); (*b[k])->opBranch(t); expect(*b[k], 249, t); break; } // a block that consists of a branch to itself is refused by the reader
        case 1: { BasicBlock *t = pick(), *u = pick(); (*b[k])->opBranchConditional(condition, t, u); expect(*b[k], 250, t, u).cond = condition; break; }
        case 2: { BasicBlock *t = pick(), *u = pick(); unsigned x = sym_u32(), y = sym_u32(); (*b[k])->opBranchConditional(condition, t, u, x, y); Want &w = expect(*b[k], 250, t, u); w.cond = condition; w.weighted = true; w.weight[0] = x; w.weight[1] = y; sym_cover("weights"); break; }
        case 3: (*b[k])->opReturn(); expect(*b[k], 253); break;
        case 4: (*b[k])->opKill(); expect(*b[k], 252); break;
        case 5: { BasicBlock *t = pick(), *u = pick(); unsigned x = sym_u32(); Instruction *i = b[k]->addInstruction(); i->makeOp(spv::Op::OpSwitch, u32c, t, literal_t{x}, u); Want &w = expect(*b[k], 251, t, u); w.cond = u32c; w.weight[0] = x; sym_cover("switch"); break; }
        case 6: { BasicBlock *t = pick(), *u = pick(), *v = pick(); unsigned x = sym_u32(), y = sym_u32(); Instruction *i = b[k]->addInstruction(); i->makeOp(spv::Op::OpSwitch, u32c, t, literal_t{x}, u, literal_t{y}, v); Want &w = expect(*b[k], 251, t, u); w.t[2] = v; w.nt = 3; w.cond = u32c; w.weight[0] = x; w.weight[1] = y; break; }
        }
      }
      sym_cover("hand-made");
    }
    finish(m);
    sym_observe(s1.n);
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
