// Shared harness helpers: an allocator that audits every request/return, and an element type that audits its lifetime.
#pragma once
#include "sym.h"
#include "spvgentwo/Allocator.h"
inline unsigned sym_choose(unsigned n) { return sym_choose(n, "choice"); }
inline uint8_t sym_u8() { return sym_u8("byte"); }
inline uint16_t sym_u16() { return sym_u16("half"); }
inline uint32_t sym_u32() { return sym_u32("word"); }
inline uint64_t sym_u64() { return sym_u64("dword"); }
inline bool sym_bool() { return sym_bool("flag"); }
extern "C" void *malloc(decltype(sizeof(0)));
extern "C" void free(void *);

// Records every live block; a block must come back exactly once with the size it was requested with.
template <unsigned MaxBlocks>
class AuditAllocatorT : public spvgentwo::IAllocator {
public:
  struct Block { void *p; spvgentwo::sgt_size_t n; };
  Block blocks[MaxBlocks];
  unsigned used = 0;      // live blocks
  unsigned total = 0;     // requests served
  unsigned failAfter = ~0u; // requests served before the allocator runs dry
  void *allocate(spvgentwo::sgt_size_t n, unsigned) override {
    if (total >= failAfter) return nullptr;
    if (used >= MaxBlocks) return nullptr;
    void *p = malloc(n);
    blocks[used].p = p; blocks[used].n = n; ++used; ++total;
    return p;
  }
  void deallocate(void *p, spvgentwo::sgt_size_t n) override {
    for (unsigned i = used; i-- > 0;)
      if (blocks[i].p == p) {
        sym_assert(blocks[i].n == n, "block returned with the size it was requested with");
        blocks[i] = blocks[--used];
        free(p);
        return;
      }
    sym_assert(false, "only live blocks of this allocator are returned");
  }
};
using AuditAllocator = AuditAllocatorT<64>;

// Value with audited lifetime: constructing a live object, destroying or using a dead one is an assertion failure.
struct Elem {
  unsigned char v;
  const Elem *self;
  static int live;
  Elem() : v(0), self(this) { ++live; }
  Elem(unsigned char x) : v(x), self(this) { ++live; }
  Elem(const Elem &o) : v(o.get()), self(this) { ++live; }
  Elem(Elem &&o) noexcept : v(o.get()), self(this) { ++live; o.v = 0xEE; }
  Elem &operator=(const Elem &o) { check(); v = o.get(); return *this; }
  Elem &operator=(Elem &&o) noexcept { check(); unsigned char x = o.get(); if (this != &o) o.v = 0xEE; v = x; return *this; }
  ~Elem() { check(); self = nullptr; --live; }
  void check() const { sym_assert(self == this, "elements are used only while constructed"); }
  unsigned char get() const { check(); return v; }
  bool operator==(const Elem &o) const { return get() == o.get(); }
};
inline int Elem::live = 0;
