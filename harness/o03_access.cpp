// O03: access to composites and memory. Types are built from an independent tree (chosen kinds and shapes, symbolic counts wherever the result's type does not contain them); walking that tree by
// the rules of the specification says which index paths name a part and what its type is.
#include "optypes.h"
enum NodeKind : unsigned { Scalar, Vec, Mat, Arr, Str, Run, Point, Img, VoidN };
struct Node { unsigned kind, n, width, sign, child[2]; }; // n: components, columns, elements, members, storage class
static Node node[32]; static unsigned nnodes; static const unsigned Gone = ~0u, Loose = ~1u; // Loose: values with run-time arrays inside do not exist, whatever is done with them
static unsigned leaf(unsigned width, unsigned sign) { node[nnodes] = Node{Scalar, 0, width, sign, {0, 0}}; return nnodes++; } // sign 2: float
static unsigned make(unsigned kind, unsigned n, unsigned c0 = 0, unsigned c1 = 0) { node[nnodes] = Node{kind, n, 0, 0, {c0, c1}}; return nnodes++; }
static unsigned kinds; // of the inner nodes that may be chosen
static unsigned generate(unsigned depth) {
  unsigned have[8], n = 0; for (unsigned k = 0; k < 8; ++k) if (depth ? kinds >> k & 1 : k == 0) have[n++] = k;
  switch (have[sym_choose(n, "kind of type")]) {
  case Vec: { const unsigned c = leaf(32, 2); return make(Vec, 3, c); }
  case Mat: { const unsigned v = make(Vec, 3, leaf(32, 2)); return make(Mat, 2, v); }
  case Arr: { const unsigned c = generate(depth - 1); return make(Arr, 4, c); }
  case Str: { const unsigned m = sym_choose(4, "members"); if (m == 0) return make(Str, 0); const unsigned c = generate(depth - 1); if (m == 1) return make(Str, 1, c); const unsigned f = leaf(32, 1); return m == 2 ? make(Str, 2, f, c) : make(Str, 2, c, f); }
  case Run: { const unsigned c = generate(depth - 1); return make(Run, 0, c); }
  case Point: { const unsigned c = generate(depth - 1); return make(Point, (unsigned)spv::StorageClass::StorageBuffer, c); }
  case Img: return make(Img, 0);
  default: return leaf(32, 2 * sym_choose(2, "float"));
  }
}
static void build(Type &t, unsigned at) {
  const Node &d = node[at];
  switch (d.kind) {
  case Scalar: if (d.sign == 2) t.Float(d.width); else if (d.sign) t.Int(d.width); else t.UInt(d.width); return;
  case Vec: build(t.VectorElement(d.n), d.child[0]); return;
  case Mat: { const Node &v = node[d.child[0]]; Type &c = t.MatrixColumn(d.n); c.setVectorComponentCount(v.n); build(c.Member(), v.child[0]); return; }
  case Arr: build(t.ArrayElement(d.n), d.child[0]); return;
  case Str: t.Struct(); for (unsigned i = 0; i < d.n; ++i) build(t.Member(), d.child[i]); return;
  case Run: build(t.RuntimeArrayElement(), d.child[0]); return;
  case Point: t.Pointer((spv::StorageClass)d.n); build(t.Member(), d.child[0]); return;
  case Img: { dyn_image_t g; t.Image(g); return; }
  default: t.Void(); return;
  }
}
static Instruction *declare(unsigned at) { Type t(&al); build(t, at); return mod->addType(t); }
// counts of the nodes that are walked through are any number: they are no part of the result's type
static void loosen(const Type &t, unsigned at, unsigned steps) {
  Node &d = node[at]; if (steps == 0) return;
  if (d.kind == Vec || d.kind == Mat || d.kind == Arr) { d.n = sym_u32("count"); sym_assume(d.n > (d.kind == Arr ? 0u : 1u)); Type &u = const_cast<Type &>(t); if (d.kind == Arr) u.setArrayLength(d.n); else if (d.kind == Mat) u.setMatrixColumnCount(d.n); else u.setVectorComponentCount(d.n); }
  unsigned i = 0; if (d.kind != Scalar && d.kind != Img) for (const Type &s : t) loosen(s, d.child[i++], steps - 1);
}
static bool isSame(unsigned a, unsigned b) {
  const Node &x = node[a], &y = node[b]; if (x.kind != y.kind || x.width != y.width || x.sign != y.sign || x.n != y.n) return false;
  const unsigned c = x.kind == Str ? x.n : x.kind == Scalar || x.kind == Img || x.kind == VoidN ? 0 : 1; for (unsigned i = 0; i < c; ++i) if (!isSame(x.child[i], y.child[i])) return false; return true;
}
static unsigned walk(unsigned at, const unsigned *idx, unsigned n, bool memory) {
  for (unsigned i = 0; i < n; ++i) {
    const Node &d = node[at];
    switch (d.kind) {
    case Vec: case Mat: case Arr: if (idx[i] >= d.n) return Gone; at = d.child[0]; break;
    case Run: if (!memory) return Loose; at = d.child[0]; break;
    case Str: if (idx[i] >= d.n) return Gone; at = idx[i] == 0 ? d.child[0] : d.child[1]; break;
    default: return Gone;
    }
  }
  return at;
}
static bool hasType(Instruction *i, unsigned at, const unsigned *pointer = nullptr) { // is the value's type the one described (or a pointer to it)?
  Instruction *ty = i->getResultTypeInstr(); if (!ty || ty->isErrorInstr() || !ty->isType()) return false; const Type *t = ty->getType(); if (!t) return false;
  Tk has, want; Type w(&al); if (pointer) { w.Pointer((spv::StorageClass)*pointer); build(w.Member(), at); } else build(w, at);
  tkOf(*t, has); tkOf(w, want); return tkSame(has, want);
}
static void refused(Instruction *made, unsigned before, unsigned block, bool none, Instruction *res) {
  if (!none) sym_assert(res->isErrorInstr(), "what does not name a part or fit it is refused");
  sym_assert(made->getOperation() == spv::Op::OpNop && made->empty(), "a refused operation leaves no partial instruction");
  sym_assert(declared() == before && inBlock() == block, "a refused operation declares and adds nothing"); sym_cover("refused");
}
static bool wordsAre(Instruction *made, const unsigned *idx, unsigned n, Instruction **ops, unsigned nops, bool constants) {
  auto it = made->getFirstActualOperand(); for (unsigned i = 0; i < nops; ++i, ++it) if (it == nullptr || !it->isInstruction() || it->getInstruction() != ops[i]) return false;
  for (unsigned i = 0; i < n; ++i, ++it) {
    if (it == nullptr) return false;
    if (!constants) { if (!it->isLiteral() || it->getLiteral().value != idx[i]) return false; continue; }
    if (!it->isInstruction()) return false; Instruction *c = it->getInstruction(); if (!c || c->getOperation() != spv::Op::OpConstant) return false; const Ty t = typeOfResult(c); if (t.kind != Uint || t.width != 32 || t.n != 1 || t.cols) return false;
    auto w = c->getFirstActualOperand(); if (w == nullptr || !w->isLiteral() || w->getLiteral().value != idx[i] || w.next() != nullptr) return false;
  }
  return it == nullptr;
}
static Instruction *extract(Instruction *i, Instruction *c, const unsigned *x, unsigned n) { return n == 1 ? i->opCompositeExtract(c, x[0]) : n == 2 ? i->opCompositeExtract(c, x[0], x[1]) : i->opCompositeExtract(c, x[0], x[1], x[2]); }
static Instruction *insert(Instruction *i, Instruction *c, Instruction *v, const unsigned *x, unsigned n) { return n == 1 ? i->opCompositeInsert(c, v, x[0]) : n == 2 ? i->opCompositeInsert(c, v, x[0], x[1]) : i->opCompositeInsert(c, v, x[0], x[1], x[2]); }
static Instruction *chain(Instruction *i, Instruction *c, const unsigned *x, unsigned n) { return n == 0 ? i->opAccessChain(c) : n == 1 ? i->opAccessChain(c, x[0]) : n == 2 ? i->opAccessChain(c, x[0], x[1]) : n == 3 ? i->opAccessChain(c, x[0], x[1], x[2]) : i->opAccessChain(c, x[0], x[1], x[2], x[3]); }
static List<unsigned> *listOf(const unsigned *x, unsigned n) { static List<unsigned> l(&al); l.clear(); for (unsigned i = 0; i < n; ++i) l.emplace_back(x[i]); return &l; }

static void extraction(unsigned depth) {
  const unsigned root = generate(depth); const unsigned n = 1 + sym_choose(depth, "indices"); Instruction *ty = declare(root); Instruction *c = undef(ty); loosen(*ty->getType(), root, n);
  unsigned idx[3]; for (unsigned i = 0; i < n; ++i) idx[i] = sym_u32("index");
  const unsigned form = sym_choose(3, "extract, extract by list, insert"), at = walk(root, idx, n, false); if (at == Loose) return;
  Instruction *v = nullptr; bool fits = true;
  if (form == 2) { // the value: of the part's type or of another one
    unsigned other = 0; const unsigned what = sym_choose(3, "value"); switch (what) { case 0: other = at != Gone ? at : leaf(32, 2); break; case 1: other = leaf(32, 1); break; default: { const unsigned e = leaf(32, 2); other = make(Vec, 4, e); } }
    v = undef(declare(other)); fits = at != Gone && isSame(other, at);
  }
  Instruction *i = bb->addInstruction(); const unsigned before = declared(), block = inBlock();
  Instruction *r = form == 0 ? extract(i, c, idx, n) : form == 1 ? i->opCompositeExtractDynamic(c, *listOf(idx, n)) : insert(i, c, v, idx, n);
  if (at == Gone || !fits) { refused(i, before, block, false, r); return; }
  sym_assert(r == i && inBlock() == block, "a part that exists is accessed"); sym_cover("accessed");
  sym_assert(i->getOperation() == (form == 2 ? spv::Op::OpCompositeInsert : spv::Op::OpCompositeExtract) && i->getResultIdOperand() != nullptr, "the operation is emitted");
  if (form == 2) { sym_assert(i->getResultTypeInstr() == ty, "an insertion has the composite's type"); Instruction *ops[2] = {v, c}; sym_assert(wordsAre(i, idx, n, ops, 2, false), "value, composite and indices in order"); sym_cover("inserted"); }
  else { sym_assert(hasType(i, at), "the result has the type of the part"); sym_assert(wordsAre(i, idx, n, &c, 1, false), "composite and indices in order"); }
}
static const unsigned classes[] = {(unsigned)spv::StorageClass::Function, (unsigned)spv::StorageClass::Uniform, (unsigned)spv::StorageClass::StorageBuffer, (unsigned)spv::StorageClass::PushConstant};
static void chains(unsigned depth) {
  const unsigned root = generate(depth); const unsigned n = sym_choose(depth + 1, "indices"); const unsigned base = depth > 2 ? 2 + 2 * sym_choose(2, "base") : sym_choose(5, "base"); Instruction *ty, *c; const bool list = sym_choose(2, "list"); unsigned sc = 0;
  if (base == 4) { if (node[root].kind == Point) return; ty = declare(root); c = undef(ty); } else { sc = classes[base]; ty = declare(make(Point, sc, root)); c = undef(ty); loosen(ty->getType()->front(), root, n); }
  unsigned idx[4]; for (unsigned i = 0; i < n; ++i) { unsigned j = sym_u32("index"); sym_assume(j < 4 || j == 0x80000001u); if (j == 0) idx[i] = 0; else if (j == 1) idx[i] = 1; else if (j == 2) idx[i] = 2; else if (j == 3) idx[i] = 3; else idx[i] = 0x80000001u; }
  const unsigned at = base == 4 ? Gone : walk(root, idx, n, true); Instruction *i = bb->addInstruction(); const unsigned before = declared(), block = inBlock();
  Instruction *r = list ? i->opAccessChain(c, *listOf(idx, n)) : chain(i, c, idx, n);
  if (at == Gone) { refused(i, before, block, false, r); return; }
  sym_assert(r == i && inBlock() == block && i->getOperation() == spv::Op::OpAccessChain && i->getResultIdOperand() != nullptr, "a part that exists is accessed"); sym_cover("accessed");
  sym_assert(hasType(i, at, &sc), "the result is a pointer of the same storage class to the part"); sym_assert(wordsAre(i, idx, n, &c, 1, true), "base and constant indices in order");
}
static void shuffles() {
  static const unsigned Kinds = 6; auto pick = [&](unsigned k, Ty &y) { y.kind = k == 5 ? Float : k == 2 ? Sint : k == 3 ? Uint : k == 4 ? Bool : Float; y.width = k == 4 ? 0 : k == 1 ? 64 : 32; y.n = k == 5 ? 1 : 7; };
  Ty ta, tb; pick(sym_choose(Kinds, "first vector"), ta); pick(sym_choose(Kinds, "second vector"), tb); const unsigned n = 2 + sym_choose(3, "components"); const bool alike = sym_choose(2, "both the same");
  Val a{undef(typeInstr(ta)), ta}, b; if (alike) b = a; else { if (tb.n > 1) tb.n = 9; b.i = undef(typeInstr(tb)); b.t = tb; }
  Val *v[2] = {&a, &b}; for (unsigned i = 0; i < (alike ? 1u : 2u); ++i) if (v[i]->t.n > 1) { const unsigned c = sym_u32("components"); sym_assume(c > 1 && c < 0x10000); v[i]->t.n = c; const_cast<Type *>(v[i]->i->getType())->setVectorComponentCount(c); } if (alike) b = a;
  unsigned x[4]; for (unsigned i = 0; i < n; ++i) x[i] = sym_u32("component");
  bool ok = sv(a.t) && sv(b.t) && a.t.n > 1 && b.t.n > 1 && a.t.kind == b.t.kind && a.t.width == b.t.width; if (ok) for (unsigned i = 0; i < n; ++i) ok &= x[i] < a.t.n + b.t.n || x[i] == 0xffffffffu;
  Instruction *i = bb->addInstruction(); const unsigned before = declared(), block = inBlock();
  Instruction *r = n == 2 ? i->opVectorShuffle(a.i, b.i, x[0], x[1]) : n == 3 ? i->opVectorShuffle(a.i, b.i, x[0], x[1], x[2]) : i->opVectorShuffle(a.i, b.i, x[0], x[1], x[2], x[3]);
  if (!ok) { refused(i, before, block, false, r); return; }
  Ty want = a.t; want.n = n; Instruction *o[2] = {a.i, b.i};
  sym_assert(r == i && inBlock() == block && i->getOperation() == spv::Op::OpVectorShuffle && i->getResultIdOperand() != nullptr, "components of both vectors are shuffled"); sym_cover("shuffled");
  sym_assert(same(typeOfResult(i), want), "the result has as many components as are named, of the vectors' kind"); sym_assert(wordsAre(i, x, n, o, 2, false), "vectors and components in order");
}
static Instruction *constantValue(unsigned v, unsigned kind, unsigned high) { // a constant or specialization constant whose words are arbitrary: declared with a placeholder
  Instruction *c = kind == 0 ? mod->constant(17u) : kind == 1 ? mod->constant(17) : kind == 2 ? mod->constant(17ull) : mod->constant(17u, true);
  Constant *k = const_cast<Constant *>(c->getConstant()); sym_assert(k != nullptr, "constants have their information"); Vector<unsigned> &w = const_cast<Vector<unsigned> &>(k->getData()); w[0] = v; if (kind == 2) w[1] = high; return c;
}
static void memory() {
  // targets and sources of loads, stores and copies
  kinds = 1u << Scalar | 1u << Vec | 1u << Str | 1u << Run; const unsigned form = sym_choose(4, "load, store, copy, sized copy");
  const unsigned a = sym_choose(12, "pointer to"); unsigned pointee = a == 0 ? make(VoidN, 0) : a == 1 ? leaf(32, 0) : a == 2 ? leaf(32, 1) : a == 3 ? leaf(32, 2) : 0;
  if (a == 4 || a == 5) { const unsigned f = leaf(32, a == 4 ? 2 : 0); pointee = make(Vec, 3, f); } if (a == 6) { const unsigned f = leaf(32, 2); pointee = make(Vec, 4, f); } if (a == 7) { const unsigned f = leaf(32, 2); pointee = make(Run, 0, f); }
  if (a == 8) { const unsigned f = leaf(32, 2), u = leaf(32, 0); pointee = make(Str, 2, f, u); } if (a == 9) { const unsigned f = leaf(32, 2); const unsigned u = make(Run, 0, f); pointee = make(Str, 2, f, u); }
  if (a == 10) { const unsigned f = leaf(32, 0); pointee = make(Point, (unsigned)spv::StorageClass::StorageBuffer, f); } if (a == 11) pointee = leaf(32, 2); // the last one is no pointer at all
  const bool isPtr = a != 11, hasRun = a == 7 || a == 9; const unsigned sc = classes[sym_choose(2, "storage class") * 2]; Instruction *p = undef(declare(isPtr ? make(Point, sc, pointee) : pointee));
  const unsigned m = sym_u32("memory operands"); const Flag<spv::MemoryAccessMask> mask((spv::MemoryAccessMask)m); const unsigned extra = sym_choose(2, "alignment"); const unsigned lit = sym_u32("alignment");
  Instruction *i = bb->addInstruction(); unsigned before = declared(); const unsigned block = inBlock(); unsigned words[3], nw = 0; auto nothing = [&] { refused(i, before, block, true, i); };
  if (form == 0) {
    Instruction *r = extra ? i->opLoad(p, mask, literal_t{lit}) : i->opLoad(p, mask); if (r->isErrorInstr() && isPtr && hasRun) return; // may
    if (!isPtr || (extra && !m)) { refused(i, before, block, false, r); return; }
    if (pointee && node[pointee].kind == VoidN) return;
    sym_assert(r == i && i->getOperation() == spv::Op::OpLoad && hasType(i, pointee), "a load has the type pointed to"); words[nw++] = m; if (extra) words[nw++] = lit; 
    if (m || i->size() > 3) sym_assert(wordsAre(i, words, nw, &p, 1, false), "pointer and memory operands in order"); sym_cover("loaded"); return;
  }
  // the value or second pointer
  const unsigned b = sym_choose(4, "same, other"); unsigned second = b == 0 ? pointee : 0; if (b == 1) second = leaf(32, 0); if (b == 2) { const unsigned f = leaf(32, 2); second = make(Vec, 3, f); } if (b == 3) { const unsigned f = leaf(32, 2); const unsigned g = leaf(32, 1); second = make(Str, 2, f, g); }
  const bool equal = isSame(pointee, second);
  if (form == 1) {
    if (node[second].kind == VoidN || node[second].kind == Run || hasRun) return; Instruction *v = undef(declare(second)); before = declared();
    if (extra) i->opStore(p, v, mask, literal_t{lit}); else i->opStore(p, v, mask);
    if (!isPtr || !equal || (extra && !m)) { nothing(); return; }
    Instruction *o[2] = {p, v}; words[nw++] = m; if (extra) words[nw++] = lit;
    sym_assert(i->getOperation() == spv::Op::OpStore && i->getResultIdOperand() == nullptr, "a value of the type pointed to is stored"); if (m || i->size() > 2) sym_assert(wordsAre(i, words, nw, o, 2, false), "pointer, value and memory operands in order"); sym_cover("stored"); return;
  }
  const bool secondPtr = b != 3 || sym_choose(2, "pointer"); if (!secondPtr && node[second].kind == VoidN) return; Instruction *s = undef(declare(secondPtr ? make(Point, sc, second) : second)); const unsigned version = sym_u32("version"); mod->setSpvVersion(version);
  const unsigned m2 = sym_u32("memory operands of the source"); const Flag<spv::MemoryAccessMask> mask2((spv::MemoryAccessMask)m2);
  Verdict v = isPtr && secondPtr ? Must : No; if (form == 2 && (node[pointee].kind == VoidN || node[second].kind == VoidN || hasRun || !equal)) v = No;
  Instruction *size = nullptr; unsigned nops = 2; Instruction *o[3] = {p, s, nullptr};
  if (form == 3) { const unsigned k = sym_choose(8, "size"); const unsigned lo = sym_u32("bytes"), hi = k == 2 ? sym_u32("high bytes") : 0; const unsigned n = lo | hi; // only whether it is zero and its sign matter
    if (k < 4) { size = constantValue(lo, k, hi); if (n == 0) v = k == 3 ? (v == No ? No : May) : No; else if (k == 1) v = v == No || n >> 31 ? No : May; }
    else { Ty y; y.kind = k == 4 ? Uint : k == 5 ? Sint : k == 6 ? Float : Uint; y.width = 32; y.n = k == 7 ? 2 : 1; size = undef(typeInstr(y)); if (k > 5) v = No; }
    o[2] = size; nops = 3; }
  before = declared();
  if (extra && !m && !m2) v = No;
  if (m2 && version < 0x10400) v = No; if (m2 && (m & 0x10 || m2 & 8)) v = No;
  if (form == 2) { if (extra) i->opCopyMemory(p, s, mask, mask2, literal_t{lit}); else i->opCopyMemory(p, s, mask, mask2); } else { if (extra) i->opCopyMemorySized(p, s, size, mask, mask2, literal_t{lit}); else i->opCopyMemorySized(p, s, size, mask, mask2); }
  if (i->getOperation() == spv::Op::OpNop && v != Must) { nothing(); return; }
  sym_assert(v != No, "a copy the specification does not allow is refused"); sym_assert(i->getOperation() == (form == 2 ? spv::Op::OpCopyMemory : spv::Op::OpCopyMemorySized) && i->getResultIdOperand() == nullptr, "an allowed copy is emitted"); sym_cover("copied");
  if (m || m2) words[nw++] = m; if (m2) words[nw++] = m2; if (extra) words[nw++] = lit;
  sym_assert(wordsAre(i, words, nw, o, nops, false), "target, source, size and masks in order"); if (m2) sym_cover("two masks");
}
static void lengths() {
  const unsigned shape = sym_choose(7, "structure"), f = leaf(32, 2), run = make(Run, 0, f), u = leaf(32, 0); unsigned members = 0, s = 0;
  switch (shape) { case 0: s = make(Str, members = 1, run); break; case 1: s = make(Str, members = 2, u, run); break; case 2: s = make(Str, 2, run, u); break; case 3: s = make(Str, 0); break; case 4: s = run; break; case 5: s = make(Str, 1, u); break; default: s = make(Str, members = 2, u, run); }
  const bool ptr = sym_choose(2, "pointer"); Instruction *p = undef(declare(ptr ? make(Point, (unsigned)spv::StorageClass::StorageBuffer, s) : s)); const unsigned idx = sym_u32("member");
  const bool ok = ptr && members && idx == members - 1; Instruction *i = bb->addInstruction(); const unsigned before = declared(), block = inBlock(); Instruction *r = i->opArrayLength(p, idx);
  if (!ok) { refused(i, before, block, false, r); return; }
  const Ty t = typeOfResult(i); sym_assert(r == i && i->getOperation() == spv::Op::OpArrayLength && t.kind == Uint && t.width == 32 && t.n == 1 && !t.cols, "the length is an unsigned integer"); sym_assert(wordsAre(i, &idx, 1, &p, 1, false), "structure and member in order"); sym_cover("length");
}
static void given() { // the operations that are told their result type
  const unsigned form = sym_choose(4, "access chain, in-bounds, construct, construct from list"), f = leaf(32, 2); const unsigned shape = sym_choose(8, "result type"); unsigned t = f;
  if (shape == 1) t = make(Vec, 3, f); if (shape == 2) { const unsigned v = make(Vec, 3, f); t = make(Mat, 2, v); } if (shape == 3) t = make(Arr, 4, f); if (shape == 4) { const unsigned u = leaf(32, 0); t = make(Str, 2, f, u); } if (shape == 5) t = make(Point, classes[2], f); if (shape == 6) t = make(Run, 0, f); 
  Instruction *ty = declare(t); if (shape == 7) ty = undef(ty); // not a type at all
  const unsigned n = sym_choose(3, "more operands"); Instruction *more[3]; for (unsigned k = 0; k < 3; ++k) more[k] = form < 2 ? mod->constant(k + 5u) : undef(declare(f)); if (form == 1 && sym_choose(2, "index is no constant")) more[0] = undef(declare(leaf(32, 0)));
  Instruction *base = nullptr; const bool ptr = sym_choose(2, "pointer"); if (form < 2) base = undef(declare(ptr ? make(Point, classes[2], f) : f)); else if (ptr) return;
  Instruction *i = bb->addInstruction(); const unsigned before = declared(), block = inBlock(); Instruction *r = nullptr; Instruction *o[4]; unsigned no = 0; Verdict v = No; spv::Op op = spv::Op::OpAccessChain;
  if (form == 0) { r = n == 0 ? i->opAccessChain(ty, base) : n == 1 ? i->opAccessChain(ty, base, more[0]) : i->opAccessChain(ty, base, more[0], more[1]); o[no++] = base; for (unsigned k = 0; k < n; ++k) o[no++] = more[k]; v = shape == 5 && ptr ? Must : No; }
  if (form == 1) { r = n == 0 ? i->opInBoundsAccessChain(ty, base, more[0]) : n == 1 ? i->opInBoundsAccessChain(ty, base, more[0], more[1]) : i->opInBoundsAccessChain(ty, base, more[0], more[1], more[2]); op = spv::Op::OpInBoundsAccessChain; o[no++] = base; for (unsigned k = 0; k <= n; ++k) o[no++] = more[k]; v = shape == 5 && ptr ? more[0]->isConstant() ? Must : May : No; }
  if (form > 1) { op = spv::Op::OpCompositeConstruct; for (unsigned k = 0; k <= n; ++k) o[no++] = more[k]; const bool composite = shape >= 1 && shape <= 4; v = composite ? (shape == 1 && n == 2) ? Must : May : No;
    if (form == 2) r = n == 0 ? i->opCompositeConstruct(ty, more[0]) : n == 1 ? i->opCompositeConstruct(ty, more[0], more[1]) : i->opCompositeConstruct(ty, more[0], more[1], more[2]);
    else { List<Instruction *> l(&al); for (unsigned k = 0; k <= n; ++k) l.emplace_back(more[k]); r = i->opCompositeConstructDynamic(ty, l); } }
  if (r->isErrorInstr() && v != Must) { refused(i, before, block, false, r); return; }
  sym_assert(v != No, "result types the operation cannot have are refused"); sym_assert(r == i && i->getOperation() == op && i->getResultTypeInstr() == ty && i->getResultIdOperand() != nullptr && inBlock() == block, "the operation has the given type"); sym_assert(wordsAre(i, nullptr, 0, o, no, false), "operands in order"); sym_cover("given type");
}
extern "C" void harness_main(void) {
  Module m(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple); mod = &m; nnodes = 1; // node 0 is none
  Function &fn = m.addFunction<void>("f"); bb = &*fn;
  const unsigned depth = sym_param("depth", 3); kinds = sym_param("kinds", 0xff);
  switch (sym_param("mode", 0)) { case 0: chains(depth); break; case 1: extraction(depth); break; case 2: shuffles(); break; case 3: memory(); break; case 4: lengths(); break; default: given(); break; }
}
