// N01: histories of graph operations, evaluations of expression graphs, call graphs of small modules and histories of callables, each compared with a picture kept by the harness.
#include "build.h"
#include "spvgentwo/Grammar.h"
#include "common/Graph.h"
#include "common/ExprGraph.h"
#include "common/FunctionCallGraph.h"
#include "common/Callable.h"
static AuditAllocatorT<8192> al; static AuditAllocatorT<64> al2; static Sink s1;
struct Plain final : IAllocator { void *allocate(sgt_size_t n, unsigned = 1u) final { return malloc(n); } void deallocate(void *p, sgt_size_t) final { free(p); } };
static Plain plainAl;
// ---- graphs
using G = Graph<unsigned, unsigned>; using GN = Node<unsigned, unsigned>;
struct E { unsigned from, to, data; };
struct Pic { GN *node[8]; unsigned data[8]; unsigned nodes = 0; E e[16]; unsigned edges = 0; };
static void agree(const G &g, const Pic &p) {
  sym_assert(g.size() == p.nodes && g.empty() == (p.nodes == 0), "the graph has the nodes that were added and not erased"); unsigned k = 0;
  for (GN &n : g) {
    sym_assert(k < p.nodes && &n == p.node[k] && n.data() == p.data[k], "nodes keep their order, place and data"); unsigned o = 0;
    for (unsigned j = 0; j < p.edges; ++j) if (p.e[j].from == k) { unsigned x = 0; auto it = n.outputs().begin(); for (; x < o && it != nullptr; ++x) ++it; sym_assert(it != nullptr && it->pTarget == p.node[p.e[j].to] && it->data == p.e[j].data, "outgoing edges are the connections made and not removed"); ++o; }
    sym_assert(n.outputs().size() == o, "outgoing edges are the connections made and not removed"); o = 0;
    for (auto &in : n.inputs()) { bool live = false; for (unsigned q = 0; q < p.nodes; ++q) live |= in.pTarget == p.node[q]; sym_assert(live, "edges refer to nodes of the graph"); }
    for (unsigned j = 0; j < p.edges; ++j) if (p.e[j].to == k) { unsigned want = 0, have = 0; for (unsigned q = 0; q < p.edges; ++q) want += p.e[q].to == k && p.e[q].from == p.e[j].from && p.e[q].data == p.e[j].data; for (auto &in : n.inputs()) have += in.pTarget == p.node[p.e[j].from] && in.data == p.e[j].data; sym_assert(want == have, "every outgoing edge has its incoming counterpart"); ++o; }
    sym_assert(n.inputs().size() == o, "every incoming edge has its outgoing counterpart"); ++k;
  }
  sym_assert(k == p.nodes, "the graph has the nodes that were added and not erased");
  if (p.nodes) { G &m = const_cast<G &>(g); sym_assert(&g.front() == p.node[0] && &m.front() == p.node[0], "the first node"); sym_assert(&g.back() == p.node[p.nodes - 1] && &m.back() == p.node[p.nodes - 1], "the last node"); }
}
static void graphs() {
  {
    G a(&al), b(&al), *g = &a, *other = &b; Pic p; const unsigned start = sym_param("start", 2), max = sym_param("max", 3); const bool labels = sym_param("labels", 1);
    for (unsigned k = 0; k < start; ++k) { p.data[k] = sym_u32("node"); p.node[k] = g->emplace(p.data[k]); ++p.nodes; }
    for (unsigned s = 0; s < sym_param("steps", 4); ++s) {
      switch (sym_choose(sym_param("ops", 6))) {
      case 0: { if (p.nodes < 1) sym_assume(false); unsigned f = sym_choose(p.nodes), t = sym_choose(p.nodes), d = labels ? sym_u8("edge") : 0; p.node[f]->connect(p.node[t], d); p.e[p.edges++] = E{f, t, d}; sym_cover(f == t ? "loop" : "connect"); break; }
      case 1: { if (p.nodes < 1) sym_assume(false); unsigned f = sym_choose(p.nodes), t = sym_choose(p.nodes); p.node[f]->disconnect(p.node[t]); bool hit = false; for (unsigned j = 0; j < p.edges; ++j) if (!hit && p.e[j].from == f && p.e[j].to == t) { for (unsigned q = j; q + 1 < p.edges; ++q) p.e[q] = p.e[q + 1]; --p.edges; hit = true; } sym_cover(hit ? "disconnect" : "disconnect nothing"); break; }
      case 2: { if (p.nodes < 1) sym_assume(false); unsigned v = sym_choose(p.nodes); auto it = g->begin(); for (unsigned k = 0; k < v; ++k) ++it; auto next = g->erase(it); sym_assert(v + 1 == p.nodes ? next == nullptr : next.operator->() == p.node[v + 1], "erasing returns the next node");
        unsigned w = 0; for (unsigned j = 0; j < p.edges; ++j) if (p.e[j].from != v && p.e[j].to != v) { E x = p.e[j]; if (x.from > v) --x.from; if (x.to > v) --x.to; p.e[w++] = x; } if (w < p.edges) sym_cover("erased with edges"); p.edges = w; for (unsigned k = v; k + 1 < p.nodes; ++k) p.node[k] = p.node[k + 1], p.data[k] = p.data[k + 1]; --p.nodes; break; }
      case 3: { if (p.nodes >= max) sym_assume(false); unsigned d = sym_u32("node"); p.node[p.nodes] = g->emplace(d); p.data[p.nodes++] = d; break; }
      case 4: { if (sym_choose(2)) { *other = stdrep::move(*g); sym_assert(g->empty(), "a moved graph is empty"); G *t = g; g = other; other = t; sym_cover("move assigned"); } else { G moved(stdrep::move(*g)); agree(moved, p); *g = stdrep::move(moved); sym_cover("move constructed"); } break; }
      case 5: g->clear(); p.nodes = p.edges = 0; sym_cover("cleared"); break;
      }
      agree(*g, p);
    }
    const unsigned q = sym_u32("looked for"); for (unsigned k = 0; k < p.nodes; ++k) if (p.data[k] == q) { bool found = false; for (GN &n : *g) found |= n.data() == q; sym_assert(found, "nodes are found by their data"); sym_cover("found"); break; }
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
// ---- expression graphs: every node computes own + sum of input ^ position
static unsigned order[16], ran;
struct Ex; using XG = ExprGraph<Ex>;
struct Ex {
  unsigned id; unsigned char own, value = 0; unsigned in[8], ins = 0, out[8], outs = 0; Ex(unsigned i, unsigned char o) : id(i), own(o) {}
  void begin() { value = own; ins = outs = 0; sym_assert(ran < 16, "nodes are evaluated once"); order[ran++] = id; }
  void operator()(const List<Ex *> &i, const List<Ex *> &o) { begin(); unsigned k = 0; for (Ex *x : i) { value += x->value ^ ++k; in[ins++] = x->id; } for (Ex *x : o) out[outs++] = x->id; }
  template <class T> void operator()(const List<T> &i, const List<T> &o) { begin(); unsigned k = 0; for (auto &x : i) { value += x.pTarget->data()->value ^ ++k; in[ins++] = x.pTarget->data()->id; } for (auto &x : o) out[outs++] = x.pTarget->data()->id; }
};
static void expressions() {
  {
    XG g(&al); const unsigned n = sym_param("n", 4); XG::NodeType *node[6]; unsigned char own[6]; unsigned in[6][16], ins[6] = {}, out[6][16], outs[6] = {};
    for (unsigned k = 0; k < n; ++k) { own[k] = sym_u8("own value"); node[k] = g.emplace(Ex(k, own[k])); }
    const unsigned bits = sym_u32("edges"); unsigned bit = 0;
    for (unsigned f = 0; f < n; ++f) for (unsigned t = f + 1; t < n; ++t) { unsigned m = bits >> bit++ & 1; if (m && f == 0 && t == 1 && sym_choose(2)) ++m, sym_cover("double edge"); for (; m; --m) { node[f]->connect(node[t]); in[t][ins[t]++] = f; out[f][outs[f]++] = t; } }
    bool lists = sym_choose(2); const unsigned rounds = sym_param("rounds", 2); bool done[6] = {};
    auto check = [&](unsigned from, const bool *need) { // what ran in this evaluation
      unsigned at[6]; for (unsigned k = 0; k < n; ++k) { unsigned c = 0; for (unsigned q = from; q < ran; ++q) if (order[q] == k) ++c, at[k] = q; sym_assert(c == (need[k] ? 1u : 0u), "exactly the nodes the result depends on are evaluated, once"); }
      for (unsigned k = 0; k < n; ++k) if (need[k]) for (unsigned j = 0; j < ins[k]; ++j) if (need[in[k][j]]) sym_assert(at[in[k][j]] < at[k], "nodes are evaluated after their inputs");
      for (unsigned k = 0; k < n; ++k) if (need[k]) {
        Ex &x = node[k]->data().get(); sym_assert(x.ins == ins[k] && x.outs == outs[k], "expressions are given all inputs and outputs"); unsigned char want = own[k];
        for (unsigned j = 0; j < ins[k]; ++j) { sym_assert(x.in[j] == in[k][j], "expressions are given their inputs in order"); want += node[in[k][j]]->data()->value ^ (j + 1); } for (unsigned j = 0; j < outs[k]; ++j) sym_assert(x.out[j] == out[k][j], "expressions are given their outputs in order");
        sym_assert(x.value == want, "values are computed from the values of the inputs"); sym_assert(node[k]->data().evaluated(), "evaluated nodes say so");
      }
      for (unsigned k = 0; k < n; ++k) sym_assert(node[k]->data().evaluated() == (done[k] || need[k]), "evaluated nodes say so");
    };
    for (unsigned r = 0; r < rounds; ++r) {
      const unsigned from = ran; bool need[6] = {};
      if (sym_param("explicit", 0)) {
        List<XG::NodeType *> l(&al); unsigned len = sym_choose(3) + 1; bool ok = true; for (unsigned k = 0; k < len; ++k) { unsigned x = sym_choose(n); l.emplace_back(node[x]); if (ok && (done[x] || need[x])) ok = false; if (ok) need[x] = true; }
        bool res; if (lists) res = XG::evaluateExplicit<ExprArgs::EdgeLists>(l); else res = XG::evaluateExplicit<ExprArgs::FunctionPtrLists>(l);
        sym_assert(res == ok, "a given order is refused when a node comes twice"); sym_cover(ok ? "explicit" : "explicit refused"); unsigned q = from; for (auto *x : l) { if (q == ran) break; sym_assert(order[q++] == x->data()->id, "nodes are evaluated in the given order"); } unsigned c = 0; for (unsigned k = 0; k < n; ++k) c += need[k]; sym_assert(ran - from == c, "nodes are evaluated in the given order");
        for (unsigned k = 0; k < n; ++k) done[k] |= need[k];
      } else {
        unsigned exit = sym_choose(n); need[exit] = true; for (unsigned k = exit + 1; k-- > 0;) if (need[k] && !done[k]) for (unsigned j = 0; j < ins[k]; ++j) need[in[k][j]] = true; for (unsigned k = 0; k < n; ++k) if (done[k]) need[k] = false;
        if (lists) XG::evaluateRecursive<ExprArgs::EdgeLists>(node[exit]); else XG::evaluateRecursive<ExprArgs::FunctionPtrLists>(node[exit]);
        check(from, need); sym_cover(r ? "evaluated again" : "evaluated"); for (unsigned k = 0; k < n; ++k) done[k] |= need[k];
      }
      if (sym_choose(2)) { g.resetEvaluationState(); for (unsigned k = 0; k < n; ++k) { done[k] = false; sym_assert(!node[k]->data().evaluated(), "evaluation can be reset"); } sym_cover("reset"); }
    }
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
// ---- call graphs
static void calls() {
  {
    Module a(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple), b(&al); a.addCapability(spv::Capability::Shader); const unsigned n = sym_param("n", 3); Function *f[5]; Instruction *one = a.constant(1u);
    for (unsigned k = 0; k < n; ++k) f[k] = &a.addFunction<void>("f"); EntryPoint *e = sym_param("entry", 1) ? &a.addEntryPoint(spv::ExecutionModel::GLCompute, "main") : nullptr; if (sym_param("declared", 0)) { f[n - 1]->clear(); }
    unsigned bits = sym_u32("calls"), bit = 0, from[32], to[32], cs = 0; Instruction *at[32]; Function *src[5]; unsigned ns = 0; for (unsigned k = 0; k < n; ++k) src[ns++] = f[k]; if (e) src[ns++] = e;
    for (unsigned k = 0; k < ns; ++k) {
      if (src[k]->empty()) continue;
      BasicBlock *bb = &**src[k]; (*bb)->opIAdd(one, one);
      for (unsigned t = 0; t < n; ++t) if (bits >> bit++ & 1) { if (t == 0 && sym_choose(2)) { BasicBlock &next = src[k]->addBasicBlock(); (*bb)->opBranch(&next); bb = &next; sym_cover("calls in several blocks"); } unsigned twice = t == 1 && k == 0 ? 1 + sym_choose(2) : 1; for (unsigned q = 0; q < twice; ++q) { at[cs] = (*bb)->call(f[t]); from[cs] = k; to[cs++] = t; } if (twice == 2) sym_cover("called twice"); }
      (*bb)->opReturn();
    }
    if (sym_param("read", 0)) {
      static Grammar gr(&plainAl); sym_assert(a.finalizeAndWrite(s1), "the module can be written"); Source r(s1.w, s1.n); sym_assert(b.readAndInit(r, gr), "the module can be read"); sym_cover("read"); unsigned k = 0; for (Function &x : b.getFunctions()) src[k++] = &x; for (EntryPoint &x : b.getEntryPoints()) src[k++] = &x; sym_assert(k == ns, "all functions are read");
      unsigned c = 0; for (unsigned q = 0; q < ns; ++q) for (BasicBlock &x : *src[q]) for (Instruction &i : x) if (i == spv::Op::OpFunctionCall) at[c++] = &i; sym_assert(c == cs, "all calls are read");
    }
    const unsigned root = sym_choose(ns); bool reach[5] = {}; reach[root] = true; for (unsigned r = 0; r < ns; ++r) for (unsigned c = 0; c < cs; ++c) if (reach[from[c]]) reach[to[c]] = true;
    FunctionCallGraph g(*src[root], &al); unsigned seen[5] = {}, nodes = 0, es = 0;
    for (auto &x : g) {
      unsigned k = 0; while (k < ns && src[k] != x.data()) ++k; sym_assert(k < ns && reach[k], "nodes are functions that can be called"); sym_assert(seen[k]++ == 0, "every function has one node"); ++nodes;
      for (auto &o : x.outputs()) { unsigned c = 0; while (c < cs && at[c] != o.data) ++c; sym_assert(c < cs && from[c] == k && o.pTarget->data() == src[to[c]], "edges are calls"); ++es; unsigned back = 0; for (auto &i : o.pTarget->inputs()) back += i.pTarget == &x && i.data == o.data; sym_assert(back == 1, "every outgoing edge has its incoming counterpart"); unsigned same = 0; for (auto &o2 : x.outputs()) same += o2.data == o.data; sym_assert(same == 1, "every call has one edge"); }
      unsigned ins = 0; for (unsigned c = 0; c < cs; ++c) ins += to[c] == k && reach[from[c]]; sym_assert(x.inputs().size() == ins, "every incoming edge has its outgoing counterpart");
    }
    unsigned want = 0, calls = 0; for (unsigned k = 0; k < ns; ++k) want += reach[k]; for (unsigned c = 0; c < cs; ++c) calls += reach[from[c]]; sym_assert(nodes == want, "every function that can be called has a node"); sym_assert(es == calls, "every call has one edge"); sym_cover(es ? "calls" : "no calls");
    bool cycle = false; for (unsigned c = 0; c < cs; ++c) cycle |= to[c] == from[c] && reach[to[c]]; if (cycle) sym_cover("recursion");
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
// ---- callables
static int targets;
struct Small { unsigned v; Small(unsigned x) : v(x) { ++targets; } Small(const Small &o) : v(o.v) { ++targets; } Small(Small &&o) noexcept : v(o.v) { ++targets; } ~Small() { --targets; } unsigned operator()(unsigned a) { return a + v; } };
struct Large { unsigned pad[5]; Elem e; Large(unsigned x) : e((unsigned char)x) { for (unsigned &p : pad) p = x; ++targets; } Large(const Large &o) : e(o.e) { for (unsigned k = 0; k < 5; ++k) pad[k] = o.pad[k]; ++targets; } ~Large() { --targets; } unsigned operator()(unsigned a) { e.check(); return (a ^ pad[4]) + 1u; } };
struct Counter { unsigned n; unsigned operator()(unsigned a) { return a * 2u + n++; } }; // copies count on their own
static unsigned plainFn(unsigned a) { return ~a; }
struct Obj { unsigned v; unsigned member(unsigned a) { return v - a; } };
static Obj obj;
using C = Callable<unsigned(unsigned)>;
struct Want { unsigned kind = 0, v = 0; };
static unsigned apply(Want &w, unsigned a) { switch (w.kind) { case 1: return a + w.v; case 2: return (a ^ w.v) + 1u; case 3: return ~a; case 4: return w.v - a; default: return a * 2u + w.v++; } }
static void callables() {
  {
    IAllocator *as[2] = {&al, &al2}; obj.v = sym_u32("object"); C c[3] = {C(as[0]), C(as[1]), C(as[0])}; Want w[3]; const unsigned n = sym_param("vars", 2);
    IAllocator *own[3] = {as[0], as[1], as[0]};
    auto make = [&](IAllocator *a, unsigned kind, unsigned v) -> C { switch (kind) { case 1: { const Small f(v); return C(a, f); } case 2: { const Large f(v); return C(a, f); } case 3: return C(a, plainFn); case 4: return C(a, &obj, &Obj::member); case 5: { const Counter f{v}; return C(a, f); } default: return C(a); } };
    for (unsigned s = 0; s < sym_param("steps", 3); ++s) {
      const unsigned i = sym_choose(n), op = sym_choose(6);
      switch (op) {
      case 0: { unsigned k = sym_choose(6), v = k == 4 ? obj.v : sym_u32("captured"), on = sym_choose(2); c[i] = make(as[on], k, v); own[i] = as[on]; w[i].kind = k; w[i].v = v; sym_cover("assigned"); break; }
      case 1: { unsigned j = sym_choose(n); const C &o = c[j]; c[i] = o; w[i] = w[j]; own[i] = own[j]; sym_cover(i == j ? "assigned itself" : w[j].kind ? "copied" : "copied empty"); break; }
      case 2: { unsigned j = sym_choose(n); c[i] = stdrep::move(c[j]); if (i != j) { w[i] = w[j]; w[j] = Want(); own[i] = own[j]; own[j] = nullptr; } sym_cover("moved"); break; }
      case 3: c[i].reset(); w[i] = Want(); sym_cover("emptied"); break;
      case 4: { C d(static_cast<const C &>(c[i])); Want x = w[i]; sym_assert((bool)d == (x.kind != 0), "copies have a target when the original has one"); if (x.kind) { unsigned a = sym_u32("argument"); sym_assert(d(a) == apply(x, a), "copies call a copy of the target"); } if (sym_choose(2)) { C e(stdrep::move(d)); sym_assert(!d, "moved callables are empty"); if (x.kind) { unsigned a = sym_u32("argument"); sym_assert(e(a) == apply(x, a), "moved callables call the target"); } } sym_cover("copy constructed"); break; }
      case 5: { if (!own[i]) sym_assume(false); unsigned v = sym_u32("captured"); if (sym_choose(2)) { const Large f(v); c[i] = f; w[i].kind = 2; } else { c[i] = Small(v); w[i].kind = 1; } w[i].v = v; sym_cover("function object assigned"); break; }
      }
      for (unsigned k = 0; k < n; ++k) { sym_assert((bool)c[k] == (w[k].kind != 0), "callables say whether they have a target"); }
      const unsigned k = i; if (w[k].kind) { unsigned a = sym_u32("argument"); sym_assert(c[k](a) == apply(w[k], a), "callables call their target"); sym_cover("called"); }
    }
    for (unsigned k = 0; k < n; ++k) if (w[k].kind) { unsigned a = sym_u32("argument"); sym_assert(c[k](a) == apply(w[k], a), "callables call their target"); }
    int live = 0; for (unsigned k = 0; k < n; ++k) live += w[k].kind == 1 || w[k].kind == 2; sym_assert(targets == live, "targets live as long as their callable");
  }
  sym_assert(al.used == 0 && al2.used == 0, "everything is returned to the allocator"); sym_assert(targets == 0 && Elem::live == 0, "targets live as long as their callable");
}
extern "C" void harness_main() { switch (sym_param("mode", 0)) { case 0: graphs(); break; case 1: expressions(); break; case 2: calls(); break; case 3: callables(); break; } }
