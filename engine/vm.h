#pragma once
#include "expr.h"
#include "solver.h"
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>

namespace llvm { class Function; class Instruction; class Module; class Value; class Type; class Constant; class DataLayout; class BasicBlock; }

struct V { uint64_t c; Expr *e; };

// ---------------------------------------------------------------- memory
enum : uint8_t { OK_Heap = 0, OK_Stack = 1, OK_Global = 2, OK_Const = 3 };
enum : uint8_t { AK_None = 0, AK_Malloc = 1, AK_New = 2, AK_NewArr = 3 };
struct Obj {
  int rc = 1;
  uint32_t size = 0;
  uint8_t kind = 0, alloc = 0;
  bool freed = false;
  uint8_t *data = nullptr;  // size bytes data, then size bytes meta (0 concrete, 1 undef, 2 symbolic)
  Expr **sym = nullptr;
  uint8_t *meta() { return data + size; }
};
struct Chunk { int rc = 1; Obj *o[64]; };

struct DFunc;
struct Frame { DFunc *f; uint32_t pc; uint32_t base; uint32_t stackMark; };
struct Input { Expr *var; const char *name; };

struct State {
  std::vector<Chunk *> heap; uint32_t heapN = 1;
  std::vector<Obj *> stack;
  std::vector<V> regs;
  std::vector<Frame> frames;
  std::vector<Expr *> cons;
  std::vector<uint8_t> fixed;
  Model model;
  std::vector<Input> inputs;
  std::vector<V> obs;
  uint64_t steps = 0;
  uint64_t caseId = 0;
  uint32_t forks = 0;
};

// ---------------------------------------------------------------- code
enum Op : uint8_t {
  O_Mov, O_Add, O_Sub, O_Mul, O_UDiv, O_SDiv, O_URem, O_SRem, O_And, O_Or, O_Xor, O_Shl, O_LShr, O_AShr,
  O_ICmp, O_Trunc, O_ZExt, O_SExt, O_Select, O_Gep, O_GepC, O_Gep1, O_Load, O_Store, O_Alloca, O_ByVal,
  O_Br, O_CondBr, O_Switch, O_Ret, O_Call, O_Unreachable, O_FBin, O_FCmp, O_FCast, O_FNeg, O_Nop, O_Unsupported, O_Phi
};
struct DInst {
  uint8_t op = O_Nop, w = 0, w2 = 0, p = 0; // widths in bits, predicate
  uint32_t n = 0;                           // leaf count / bytes
  int32_t dst = -1, a = 0, b = 0, c = 0;
  int64_t imm = 0;
  void *x = nullptr;
  const llvm::Instruction *I = nullptr;
};
struct Edge { uint32_t target = 0; std::vector<std::pair<int32_t, int32_t>> copies; };
struct GepTerm { int32_t idx; uint8_t w; int64_t scale; };
struct CallInfo { DFunc *callee = nullptr; int32_t fp = 0; std::vector<int32_t> args; std::vector<uint8_t> argw; int32_t ndst = 0; };
struct SwitchInfo { std::vector<std::pair<uint64_t, int>> cases; int def; std::map<uint64_t, int> lut; };
struct DFunc {
  llvm::Function *F = nullptr; std::string name; uint32_t index = 0;
  bool decoded = false, executed = false; int ext = -1; bool vararg = false;
  std::vector<DInst> code; std::vector<V> consts; std::vector<Edge> edges;
  uint32_t nregs = 0, nargs = 0; std::vector<uint8_t> argw;
};
