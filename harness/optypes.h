// types of values as the operation harnesses see them
#pragma once
#include "types.h"
static AuditAllocatorT<8192> al;
enum Kind : unsigned { Bool, Sint, Uint, Float, Struct, Array, Ptr, None, Void, Error };
struct Ty { unsigned kind = Error, width = 0, n = 1, cols = 0, members = 0; }; // n components, cols columns (0: not a matrix), a structure of so many equal members of the type (carry operations)
static bool same(const Ty &a, const Ty &b) { return a.kind == b.kind && a.width == b.width && a.n == b.n && a.cols == b.cols && a.members == b.members; }
static Ty tyOf(const Type *t) {
  Ty r; if (!t) { r.kind = None; return r; }
  switch (t->getType()) {
  case spv::Op::OpTypeBool: r.kind = Bool; return r;
  case spv::Op::OpTypeInt: r.kind = t->getIntSign() ? Sint : Uint; r.width = t->getIntWidth(); return r;
  case spv::Op::OpTypeFloat: r.kind = Float; r.width = t->getFloatWidth(); return r;
  case spv::Op::OpTypeVector: r = tyOf(&t->front()); if (r.n != 1 || r.cols || r.kind > Float) r.kind = Error; r.n = t->getVectorComponentCount(); return r;
  case spv::Op::OpTypeMatrix: r = tyOf(&t->front()); if (r.n == 1 || r.cols) r.kind = Error; r.cols = t->getMatrixColumnCount(); return r;
  case spv::Op::OpTypeStruct: { Ty first; unsigned c = 0; for (const Type &s : *t) { Ty x = tyOf(&s); if (c++ && !same(x, first)) { r.kind = Struct; return r; } first = x; } if (c != 2) { r.kind = Struct; return r; } first.members = 2; return first; }
  case spv::Op::OpTypeArray: r.kind = Array; return r;
  case spv::Op::OpTypePointer: r.kind = Ptr; return r;
  case spv::Op::OpTypeVoid: r.kind = Void; return r;
  default: return r;
  }
}
static Ty typeOfResult(Instruction *i) { auto it = i->getResultTypeOperand(); if (it == nullptr || !it->isInstruction() || !it->getInstruction() || it->getInstruction()->isErrorInstr() || !it->getInstruction()->isType()) { Ty e; return e; } return tyOf(i->getType()); }
struct Val { Instruction *i; Ty t; };
static Val vals[64]; static unsigned nvals; static Module *mod; static BasicBlock *bb;
static void setType(Type &t, const Ty &y) {
  Type *p = &t; if (y.cols) p = &p->MatrixColumn(y.cols); if (y.cols) { p->setVectorComponentCount(y.n); p = &p->Member(); } else if (y.n > 1) p = &p->VectorElement(y.n);
  switch (y.kind) { case Bool: p->Bool(); break; case Sint: p->Int(y.width); break; case Uint: p->UInt(y.width); break; default: p->Float(y.width); break; }
}
static Instruction *typeInstr(const Ty &y) { Type t(&al); setType(t, y); return mod->addType(t); }
static Instruction *undef(Instruction *type) { return mod->addUndefInstr()->opUndef(type); }
static void value(unsigned kind, unsigned width, unsigned n = 1, unsigned cols = 0) { Ty y; y.kind = kind; y.width = width; y.n = n; y.cols = cols; vals[nvals].t = y; vals[nvals++].i = undef(typeInstr(y)); }
static void other(unsigned kind, Instruction *i) { Ty y; y.kind = kind; vals[nvals].t = y; vals[nvals++].i = i; }
enum Verdict { No, May, Must };
static bool sv(const Ty &t) { return t.kind <= Float && !t.cols && !t.members; }
static bool isI(const Ty &t) { return sv(t) && (t.kind == Sint || t.kind == Uint); }
static bool isF(const Ty &t) { return sv(t) && t.kind == Float; }
static bool isB(const Ty &t) { return sv(t) && t.kind == Bool; }
static bool isM(const Ty &t) { return t.kind == Float && t.cols; }
static unsigned declared() { return (unsigned)mod->getTypesAndConstants().size() + (unsigned)mod->getUndefs().size(); }
static unsigned inBlock() { return (unsigned)bb->size(); }
// a value whose component width is any number (and its count, where no type is made from it): the type is registered with a placeholder and the registered information is then made arbitrary,
// so that the decisions the operations take about it are the solver's, not the type table's hash function's
static Val wide(const char *kindName, unsigned placeholder, bool counts) {
  Val v; v.t.kind = sym_choose(4, kindName); v.t.width = v.t.kind == Bool ? 0 : placeholder; const bool vec = sym_choose(2, "vector"); if (vec) v.t.n = 3 + placeholder % 2; v.i = undef(typeInstr(v.t)); const Type *info = v.i->getType(); Type &t = const_cast<Type &>(*info);
  if (v.t.kind != Bool) { v.t.width = sym_u32("width"); sym_assume(v.t.width != 0); if (v.t.kind == Float) t.getBaseType().setFloatWidth(v.t.width); else t.getBaseType().setIntWidth(v.t.width); }
  if (vec && counts) { v.t.n = sym_u32("components"); sym_assume(v.t.n > 1); t.setVectorComponentCount(v.t.n); } return v;
}
