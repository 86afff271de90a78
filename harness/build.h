// A small builder grammar: each action adds one construct to a module through the public API; literals are symbolic.
#pragma once
#include "oracle.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Templates.h"
using namespace spvgentwo;

struct Builder {
  Module &m;
  Instruction *value = nullptr;   // last module scope value (constant or undef)
  Instruction *global = nullptr;  // last global variable (pointer to uint)
  Function *fn = nullptr;         // last function
  unsigned names = 0; bool complete = true, light = false;
  explicit Builder(Module &x) : m(x) {}
  static constexpr unsigned Kinds = 16;
  unsigned lit() { return sym_u32(); }
  Instruction *u32(unsigned v = 7) { return m.constant(v); }
  void memoryModel() { m.setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::Simple); }
  // a piece of straight-line code using what exists
  Instruction *code(BasicBlock &bb, unsigned how) {
    Instruction *v = value ? value : u32();
    switch (how) {
    case 0: return nullptr;
    case 1: if (!global) global = m.variable<unsigned>(spv::StorageClass::Private, "g"); v = bb->opLoad(global); bb->opStore(global, v); return v;
    case 2: v = u32(); return bb.Add(v, v);
    case 3: { Instruction *x = bb.getFunction()->variable<unsigned>("local", nullptr); bb->opStore(x, u32()); return bb->opLoad(x); }
    default: if (fn && fn != bb.getFunction()) return fn->getParameters().empty() ? bb->call(fn) : bb->call(fn, u32()); bb->opNop(); return nullptr;
    }
  }
  void body(Function &f, bool returnsValue) {
    BasicBlock *bb = &*f;
    unsigned shape = light ? 0 : sym_choose(3);
    Instruction *v = code(*bb, light ? 1 + 3 * sym_choose(2) : sym_choose(5));
    if (shape == 1) { Instruction *c = m.constant(true); BasicBlock &merge = bb->If(c, [&](BasicBlock &t) { code(t, 2); }); bb = &merge; sym_cover("branches"); }
    else if (shape == 2) { // explicit blocks and an explicit selection
      BasicBlock &a = f.addBasicBlock("a"); BasicBlock &b = f.addBasicBlock(); BasicBlock &e = f.addBasicBlock("e");
      (*bb)->opSelectionMerge(&e, spv::SelectionControlMask::Flatten); (*bb)->opBranchConditional(m.constant(false), &a, &b, lit(), lit());
      a->opBranch(&e); b->opBranch(&e); bb = &e;
    }
    if (returnsValue) { if (!v || v->getType() == nullptr || !v->getType()->isUInt()) v = u32(3); (*bb)->opReturnValue(v); }
    else { unsigned t = light ? 0 : sym_choose(2); if (t) (*bb)->opUnreachable(); else (*bb)->opReturn(); }
  }
  void act(unsigned k) {
    static const char *const nm[] = {"", "abc", "abcd", "a longer name"};
    switch (k) {
    case 0: m.addCapability(sym_choose(2) ? spv::Capability::Shader : spv::Capability::Linkage); break;
    case 1: m.addExtension(sym_choose(2) ? "SPV_KHR_x" : "SPV_a"); break;
    case 2: m.addExtensionInstructionImport("GLSL.std.450"); break;
    case 3: { unsigned c = sym_choose(4); if (c == 0) m.addSourceStringInstr()->opString(nm[1 + sym_choose(2)]); else if (c == 1) m.addSourceStringInstr()->opSource(spv::SourceLanguage::GLSL, lit());
              else if (c == 2) { Instruction *s = m.addSourceStringInstr()->opString("f"); m.addSourceStringInstr()->opSource(spv::SourceLanguage::HLSL, lit(), s, "text"); } else m.addSourceStringInstr()->opSourceExtension("ext"); break; }
    case 4: if (sym_choose(2)) m.addName(value ? value : u32(), nm[sym_choose(4)]); else { Instruction *s = m.type<unsigned>(); Type t = m.newType().Struct(nullptr); t.Member(s->getType()); Instruction *st = m.addType(t, "S"); m.addMemberName(st, "member", lit()); } break;
    case 5: m.addModuleProccessedInstr()->makeOp(spv::Op::OpModuleProcessed, "p"); break;
    case 6: { Instruction *t = global ? global : u32(); if (sym_choose(2)) m.addDecorationInstr()->opDecorate(t, spv::Decoration::Location, lit()); else m.addDecorationInstr()->opDecorate(t, spv::Decoration::Flat); break; }
    case 7: { unsigned c = sym_choose(6); value = c == 0 ? m.constant(42u) : c == 1 ? m.specConstant(43u) : c == 2 ? m.constant(0x123456789abcll) : c == 3 ? m.constant(-1) : c == 4 ? vec() : m.constant(1.5); if (c > 1) { last = value; value = nullptr; } break; }
    case 8: { unsigned c = sym_choose(4); if (c == 0) m.type<vector_t<float, 4>>(); else if (c == 1) m.type<array_t<unsigned, 5>>(); else if (c == 2) m.type<matrix_t<float, 2, 3>>(); else m.type<float *>(spv::StorageClass::Uniform); break; }
    case 9: { static const spv::StorageClass sc[] = {spv::StorageClass::Input, spv::StorageClass::Output, spv::StorageClass::Private, spv::StorageClass::Uniform}; global = m.variable<unsigned>(sc[sym_choose(4)], sym_choose(2) ? nullptr : "var"); break; }
    case 10: value = m.addUndefInstr()->opUndef(m.type<unsigned>()); break;
    case 11: { Function &f = m.addFunction<void, unsigned>("decl", spv::FunctionControlMask::MaskNone, false); fn = &f; sym_cover("declaration"); break; }
    case 12: { bool r = sym_choose(2); Function *prev = fn; Function &f = r ? m.addFunction<unsigned, unsigned>("value", spv::FunctionControlMask::Pure) : m.addFunction<void>("plain"); fn = prev; body(f, r); fn = &f; break; }
    case 13: { EntryPoint &e = m.addEntryPoint(spv::ExecutionModel::Fragment, nm[1 + sym_choose(3)]); if (sym_choose(2)) e.addExecutionMode(spv::ExecutionMode::LocalSize, lit(), 2u, 3u); body(e, false); sym_cover("entry point"); break; }
    case 14: { if (sym_choose(2)) { Function &f = m.addFunction<void>("open"); code(*f, 1 + sym_choose(2)); complete = false; sym_cover("unterminated block"); } else { m.addEntryPoint<void>(spv::ExecutionModel::GLCompute, "nobody", spv::FunctionControlMask::MaskNone, false); complete = false; sym_cover("entry point without body"); } break; }
    case 15: { Instruction *s = m.addSourceStringInstr()->opString("line"); if (sym_choose(2)) m.addLineInstr()->opLine(s, lit(), lit()); else m.addLineInstr()->opNoLine(); break; }
    }
  }
  Instruction *last = nullptr;
  void forget() { value = global = last = nullptr; fn = nullptr; complete = true; }
  Instruction *vec() { const_vector_t<float, 3> v; v.data[0] = 1.f; v.data[1] = 2.f; v.data[2] = 3.f; return m.constant(v); }
};
