// Q01: reflection queries over modules with symbolic decorations, execution modes, storage classes and descriptor variables, built or read, compared with what was declared.
#include "build.h"
#include "spvgentwo/Grammar.h"
#include "common/ReflectionHelper.h"
#include "common/ReflectionHelperTemplate.inl"
#include "common/VulkanInterop.h"
namespace R = spvgentwo::ReflectionHelper;
struct Plain final : IAllocator { void *allocate(sgt_size_t n, unsigned = 1u) final { return malloc(n); } void deallocate(void *p, sgt_size_t) final { free(p); } };
static Plain plainAl; static AuditAllocatorT<8192> al; static Sink s1; static Ins ins[256];
static Module *reread(Module &m, Module &other) {
  if (!sym_param("read", 0)) return &m;
  static Grammar gr(&plainAl); sym_assert(m.finalizeAndWrite(s1), "the module can be written"); Source src(s1.w, s1.n); sym_assert(other.readAndInit(src, gr), "the module can be read"); sym_cover("read"); return &other;
}
static Instruction *nth(List<Instruction> &l, unsigned n) { for (Instruction &i : l) if (n-- == 0) return &i; return nullptr; }
static Instruction *structOf(Module &m) { for (Instruction &i : m.getTypesAndConstants()) if (i == spv::Op::OpTypeStruct) return &i; return nullptr; }
struct D { unsigned form, target, kind, lit, member; bool literal() const { return form == 1 || form == 3; } bool plain() const { return form < 4; } };
static unsigned any(const unsigned *of, unsigned n) { return sym_param("read", 0) ? of[sym_choose(n)] : sym_u32("decoration"); }
static void decorations() {
  {
    Module a(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple), b(&al); a.addCapability(spv::Capability::Shader); Instruction *one = a.constant(1u);
    Type s(&al); s.Struct(); s.Member().UInt(); s.Member().Float(); Instruction *S = a.addType(s); a.addMemberName(S, "m", 0u);
    Type p = s.wrapPointer(spv::StorageClass::Uniform), q(&al); q.UInt(); Type in = q.wrapPointer(spv::StorageClass::Input);
    Instruction *t[3] = {S, a.variable(p, spv::StorageClass::Uniform, "first"), a.variable(in, spv::StorageClass::Input)}; a.addName(t[1], "again");
    D d[4]; const unsigned n = sym_param("n", 2), names[3] = {1, 2, 0};
    static const unsigned with[] = {30u, 33u, 34u, 35u}, without[] = {2u, 3u, 14u}; // Location, Binding, DescriptorSet, Offset; Block, BufferBlock, Flat
    for (unsigned k = 0; k < n; ++k) {
      D &x = d[k]; x.form = sym_choose(sym_param("forms", 7)); bool member = x.form == 2 || x.form == 3 || x.form == 6; x.target = member ? 0 : sym_choose(3);
      x.kind = x.form == 4 ? (sym_param("read", 0) ? 27u : sym_u32("decoration")) : x.form >= 5 ? (sym_param("read", 0) ? 5635u : sym_u32("decoration")) : x.literal() ? any(with, 4) : any(without, 3); x.lit = sym_u32("literal"); x.member = sym_u32("member");
      Instruction *i = a.addDecorationInstr(), *g = t[x.target]; spv::Decoration deco = (spv::Decoration)x.kind;
      switch (x.form) {
      case 0: i->opDecorate(g, deco); break;
      case 1: i->opDecorate(g, deco, x.lit); break;
      case 2: i->opMemberDecorate(g, x.member, deco); sym_cover("member"); break;
      case 3: i->opMemberDecorate(g, x.member, deco, x.lit); break;
      case 4: i->makeOp(spv::Op::OpDecorateId, g, deco, one); sym_cover("other kinds of decorations"); break;
      case 5: i->makeOp(spv::Op::OpDecorateString, g, deco, "ab"); break;
      case 6: i->makeOp(spv::Op::OpMemberDecorateString, g, x.member, deco, "ab"); break;
      }
    }
    Module &m = *reread(a, b); t[0] = structOf(m); t[1] = nth(m.getGlobalVariables(), 0); t[2] = nth(m.getGlobalVariables(), 1); const Instruction *di[4]; { unsigned k = 0; for (Instruction &i : m.getDecorations()) di[k++] = &i; sym_assert(k == n, "all decorations are there"); }
    const unsigned Q = sym_u32("query"), V = sym_u32("value"); const spv::Decoration K = (spv::Decoration)Q; sym_assume(Q != 0x7fffffffu);
    // decorations and names of a target
    for (unsigned g = 0; g < 3; ++g) {
      List<Instruction *> l(&al); R::getDecorations(t[g], l); unsigned c = 0, f = 0; for (unsigned k = 0; k < n; ++k) { unsigned r = 0; for (Instruction *i : l) r += i == di[k]; sym_assert(r == (d[k].target == g ? 1u : 0u), "the decorations of a target are found"); c += r; } sym_assert(l.size() == c, "nothing else is found");
      R::getDecorationsFunc(t[g], [&](const Instruction *i) { bool mine = false; for (unsigned k = 0; k < n; ++k) mine |= i == di[k] && d[k].target == g; sym_assert(mine, "only decorations of the target are visited"); ++f; }); sym_assert(f == c, "all decorations of a target are visited");
      f = 0; R::getNamesFunc(t[g], [&](const Instruction *i) { sym_assert(i->front() == t[g], "only names of the target are visited"); ++f; }); sym_assert(f == (g == 0 ? 1u : g == 1 ? 2u : 0u), "all names of a target are visited"); (void)names;
      // the literal of the first decoration that has one
      unsigned want = sgt_uint32_max; const Instruction *wi = nullptr; for (unsigned k = 0; k < n && !wi; ++k) if (d[k].target == g && d[k].literal() && d[k].kind == Q) { want = d[k].lit; wi = di[k]; }
      const Instruction *got = nullptr; unsigned v = R::getDecorationLiteralFromTarget(K, t[g], &got); sym_assert(v == want, "the literal of a decoration of the target"); sym_assert(got == wi, "the decoration it comes from"); sym_assert(R::getDecorationLiteralFromTarget(K, t[g]) == want, "the literal of a decoration of the target"); if (wi) sym_cover("literal found"); else sym_cover("literal not found");
    }
    // what a decoration says
    for (unsigned k = 0; k < n; ++k) {
      sym_assert((unsigned)R::getSpvDecorationKindFromDecoration(di[k]) == (d[k].plain() ? d[k].kind : 0x7fffffffu), "the kind of a decoration");
      spv::Decoration od = (spv::Decoration)12345u; unsigned ov = V; bool ok = R::getSpvDecorationAndLiteralFromDecoration(di[k], od, ov); sym_assert(ok == d[k].plain(), "only decorations with literals are accepted");
      if (ok) { sym_assert((unsigned)od == d[k].kind, "the kind of a decoration"); sym_assert(ov == (d[k].literal() ? d[k].lit : V), "the literal of a decoration"); } else sym_assert((unsigned)od == 12345u && ov == V, "refused instructions say nothing");
      if (d[k].form != 2 && d[k].form != 3) sym_assert(R::getLiteralFromDecoration(K, di[k]) == (d[k].form == 1 && d[k].kind == Q ? d[k].lit : sgt_uint32_max), "the literal of a decoration");
    }
    // objects with a decoration
    for (unsigned how = 0; how < 2; ++how) {
      List<const Instruction *> l(&al); R::getVariablesWithDecoration(m, K, l, how ? &V : nullptr); bool hit[3] = {false, false, false}; unsigned each[3] = {0, 0, 0};
      for (unsigned k = 0; k < n; ++k) if (d[k].plain() && d[k].kind == Q) { if (!how) hit[d[k].target] = true, ++each[d[k].target]; else if (d[k].literal() && d[k].lit == V) hit[d[k].target] = true, ++each[d[k].target]; }
      unsigned c = 0; for (unsigned g = 0; g < 3; ++g) { unsigned r = 0; for (const Instruction *i : l) r += i == t[g]; sym_assert((r > 0) == hit[g] && r <= each[g], "the objects with a decoration are found"); c += r; if (hit[g]) sym_cover(how ? "found by value" : "found by kind"); } sym_assert(l.size() == c, "nothing else is found");
    }
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
static void localSize() {
  {
    Module a(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple), b(&al); a.addCapability(spv::Capability::Shader); EntryPoint &e = a.addEntryPoint(spv::ExecutionModel::GLCompute, "main"); (*e)->opReturn();
    const bool read = sym_param("read", 0); unsigned want[3] = {}; bool found = false; const unsigned n = sym_param("n", 2);
    for (unsigned k = 0; k < n; ++k) {
      const bool ids = sym_choose(2); const unsigned args = read ? 3 : sym_choose(4); unsigned mode, v[3] = {};
      if (!read) mode = sym_u32("mode"); else if (ids) mode = sym_choose(2) ? 38u : 39u /* LocalSizeId, LocalSizeHintId */; else mode = sym_choose(2) ? 17u : 18u;
      Instruction *i = a.addExtensionModeInstr();
      if (!ids) { for (unsigned j = 0; j < args; ++j) v[j] = sym_u32("size"); i->makeOp(spv::Op::OpExecutionMode, e.getFunction(), (spv::ExecutionMode)mode); for (unsigned j = 0; j < args; ++j) i->addOperand(literal_t{v[j]}); }
      else {
        i->makeOp(spv::Op::OpExecutionModeId, e.getFunction(), (spv::ExecutionMode)mode);
        for (unsigned j = 0; j < args; ++j) {
          const unsigned kind = j == 1 ? sym_choose(4) : 0; Instruction *u = a.type<unsigned>(); Instruction *c = a.addConstantInstr(nullptr); v[j] = read ? 3 + j + sym_choose(2) : sym_u32("constant");
          if (kind == 0) c->makeOp(spv::Op::OpConstant, u, InvalidId, literal_t{v[j]}); else if (kind == 1) c->makeOp(spv::Op::OpSpecConstant, u, InvalidId, literal_t{v[j]}), sym_cover("spec constant");
          else if (kind == 2) c->makeOp(spv::Op::OpConstantNull, u, InvalidId), v[j] = 0, sym_cover("null constant"); else { c->makeOp(spv::Op::OpSpecConstantOp, u, InvalidId, literal_t{128u}, a.constant(1u), a.constant(2u)); v[j] = 0; if (read) sym_assume(false); }
          i->addOperand(c);
        }
      }
      bool local = ids ? mode == 38 || mode == 39 : mode == 17 || mode == 18; if (local && args == 3 && !found) { found = true; for (unsigned j = 0; j < 3; ++j) want[j] = v[j]; sym_cover(ids ? "size by constants" : "size by literals"); }
    }
    Module &m = *reread(a, b); unsigned x = sym_u32("before"), y = x, z = x; const unsigned was = x; bool ok = R::getLocalSize(m, x, y, z);
    sym_assert(ok == found, "a local size is reported when there is one"); if (found) sym_assert(x == want[0] && y == want[1] && z == want[2], "the local size is the declared one"); else sym_assert(x == was && y == was && z == was, "nothing is reported without a local size"), sym_cover("none");
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
static void storage() {
  {
    Module a(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple), b(&al); a.addCapability(spv::Capability::Shader); const unsigned n = sym_param("n", 3); unsigned cls[4]; bool real[4]; Type u(&al); u.UInt(); static const unsigned classes[] = {0, 1, 2, 12};
    for (unsigned k = 0; k < n; ++k) { real[k] = sym_param("read", 0) || sym_choose(4) != 0; cls[k] = sym_param("read", 0) ? classes[sym_choose(4)] : sym_u32("storage class"); Instruction *p = a.addType(u.wrapPointer(sym_param("read", 0) ? (spv::StorageClass)cls[k] : spv::StorageClass::Uniform)); Instruction *i = a.addGlobalVariableInstr(); if (real[k]) { if (sym_choose(2)) i->makeOp(spv::Op::OpVariable, p, InvalidId, (spv::StorageClass)cls[k]); else i->makeOp(spv::Op::OpVariable, p, InvalidId, (spv::StorageClass)cls[k], a.constant(7u)), sym_cover("initializer"); } else i->opNop(); }
    Module &m = *reread(a, b); Function *f = nullptr; (void)f; const unsigned Q = sym_u32("query"); sym_assume(Q != 0x7fffffffu);
    List<const Instruction *> l(&al); R::getGlobalVariablesByStorageClass(m, (spv::StorageClass)Q, l); unsigned c = 0; for (unsigned k = 0; k < n; ++k) { const Instruction *v = nth(m.getGlobalVariables(), k); unsigned r = 0; for (const Instruction *i : l) r += i == v; sym_assert(r == (real[k] && cls[k] == Q ? 1u : 0u), "the variables of a storage class are found"); c += r; if (r) sym_cover("found"); } sym_assert(l.size() == c, "nothing else is found");
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
// Vulkan: "Shader Resource and Storage Class Correspondence", VkDescriptorType and VkShaderStageFlagBits
struct Var { unsigned type, dim, access, arrays, cls; bool block, set, bind; unsigned S, B; };
static Type base(const Var &v) {
  Type t(&al); dyn_image_t im; im.dimension = (spv::Dim)v.dim; im.samplerAccess = (SamplerImageAccess)v.access;
  if (v.type == 2 && v.dim == 5) im.dimension = spv::Dim::Buffer;
  switch (v.type) { case 0: t.Sampler(); break; case 1: t.Image(im); break; case 2: t.SampledImage(im); break; case 3: t.AccelerationStructureKHR(); break; case 4: t.Struct(); t.Member().UInt(); break; default: t.Float(); break; }
  return t;
}
static bool opaque(const Var &v) { return v.type < 4; }
static bool texture(const Var &v) { return v.type == 1 || v.type == 2; }
static bool plainImage(const Var &v) { return v.dim < 5 && v.access == 1; }
static unsigned descriptor(const Var &v) {
  const unsigned None = 0x7fffffffu;
  switch (v.type) {
  case 0: return 0; case 3: return 1000150000u;
  case 2: return v.dim != 5 ? 1u : v.access == 1 ? 4u : v.access == 2 ? 5u : 1u;
  case 1: return v.dim == 6 ? 10u : v.dim == 5 ? (v.access == 1 ? 4u : v.access == 2 ? 5u : None) : v.access == 1 ? 2u : v.access == 2 ? 3u : None;
  default: return v.cls == 2 ? (v.block ? 7u : 6u) : v.cls == 12 ? 7u : None;
  }
}
static void descriptors() {
  {
    Module a(&al, spv::AddressingModel::Logical, spv::MemoryModel::Simple), b(&al); a.addCapability(spv::Capability::Shader); const unsigned n = sym_param("n", 2); Var v[4]; const bool lean = sym_param("lean", 0), read = sym_param("read", 0);
    for (unsigned k = 0; k < n; ++k) {
      Var &x = v[k]; x.type = sym_choose(lean ? 3 : 6); x.dim = 1; x.access = 1; if (texture(x)) { if (!lean) { x.dim = sym_choose(k ? 2 : 7); if (x.type == 2 && x.dim == 6) sym_assume(false); x.access = sym_choose(3); if (k && x.access == 0) sym_assume(false); } }
      x.arrays = k && !lean ? 0 : sym_choose(lean ? 2 : 3); x.block = x.type == 4 && sym_choose(2); x.set = sym_choose(2); x.bind = lean || sym_choose(2); x.S = sym_u32("set"); x.B = sym_u32("binding"); sym_assume(x.S != 0xffffffffu && x.B != 0xffffffffu);
      static const unsigned cls[] = {2, 12, 1, 3, 4, 6, 9}; x.cls = opaque(x) ? 0 : cls[sym_choose(k ? 2 : 7)];
      Type t = base(x); for (unsigned j = 0; j < x.arrays; ++j) { if (sym_param("runtime", 1) && j + 1 == x.arrays && !read && sym_choose(2)) { Type r(&al); r.RuntimeArray(&t); t = r; } else { Type r = t.wrapArray(3u); t = r; } sym_cover("array"); }
      Instruction *i = a.addGlobalVariableInstr(); i->opVariable(a.addType(t.wrapPointer((spv::StorageClass)x.cls)), (spv::StorageClass)x.cls);
      if (x.bind) a.addDecorationInstr()->opDecorate(i, spv::Decoration::Binding, x.B);
      if (x.set) a.addDecorationInstr()->opDecorate(i, spv::Decoration::DescriptorSet, x.S);
      if (x.type == 4) a.addDecorationInstr()->opDecorate(a.addType(base(x)), x.block ? spv::Decoration::BufferBlock : spv::Decoration::Block);
    }
    for (unsigned k = 1; k < n; ++k) if (v[0].type == 4 && v[k].type == 4) v[k].block = v[0].block |= v[k].block; // the same struct
    Module &m = *reread(a, b); Instruction *i = nth(m.getGlobalVariables(), 0); const Var &x = v[0]; unsigned want = descriptor(x);
    if (x.type <= 2 && x.set && x.bind) for (unsigned k = 1; k < n; ++k) if (v[k].type <= 2 && v[k].set && v[k].bind && (x.type == 0 ? texture(v[k]) : v[k].type == 0)) { if (v[k].S == x.S && v[k].B == x.B) { if ((texture(x) && !plainImage(x)) || (texture(v[k]) && !plainImage(v[k]))) sym_assume(false); want = 1; sym_cover("image and sampler share a binding"); } }
    sym_assert((unsigned)vk::getDescriptorTypeFromVariable(*i) == want, "the descriptor type is the one Vulkan prescribes"); sym_cover(want == 0x7fffffffu ? "no descriptor" : "descriptor");
    sym_assert((unsigned)vk::getDescriptorTypeFromVariable(*i->getResultTypeInstr()) == 0x7fffffffu, "only variables have descriptors");
  }
  sym_assert(al.used == 0, "everything is returned to the allocator");
}
static void stages() {
  const unsigned e = sym_u32("execution model"); sym_assume(e != 0x7fffffffu); unsigned want = 0x7fffffffu;
  static const unsigned t[][2] = {{0, 1}, {1, 2}, {2, 4}, {3, 8}, {4, 16}, {5, 32}, {5267, 64}, {5268, 128}, {5313, 0x100}, {5314, 0x1000}, {5315, 0x200}, {5316, 0x400}, {5317, 0x800}, {5318, 0x2000}};
  for (unsigned k = 0; k < sizeof(t) / sizeof(*t); ++k) if (e == t[k][0]) want = t[k][1];
  if (e == 5364 || e == 5365) sym_assume(false); // the EXT aliases of task and mesh shaders
  sym_assert((unsigned)vk::getShaderStageFromExecutionModel((spv::ExecutionModel)e) == want, "the stage of an execution model"); sym_cover(want == 0x7fffffffu ? "no stage" : "stage");
}
extern "C" void harness_main() { switch (sym_param("mode", 0)) { case 0: decorations(); break; case 1: localSize(); break; case 2: storage(); break; case 3: descriptors(); break; case 4: stages(); break; } }
