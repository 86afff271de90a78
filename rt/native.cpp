// Native side of sym.h: replays one recorded input file against the real code.
#include "sym.h"
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
struct In { unsigned w; unsigned long long v; char name[128]; };
static std::vector<In> ins; static size_t pos = 0; static FILE *obs = nullptr;
static std::vector<std::pair<std::string, unsigned long long>> params;
static unsigned long long next(unsigned w, const char *name) {
  if (pos >= ins.size()) { fprintf(stderr, "REPLAY-EXHAUSTED at %s\n", name); return 0; }
  In &i = ins[pos++];
  if (i.w != w) { fprintf(stderr, "REPLAY-DIVERGED: input %zu is %u bits, asked for %u (%s)\n", pos - 1, i.w, w, name); _exit(79); }
  if (getenv("VS_TRACE")) fprintf(stderr, "input %s = %llu (0x%llx)\n", name, i.v, i.v);
  return i.v;
}

extern "C" {
uint64_t sym_bits(unsigned w, const char *n) { return next(w, n); }
unsigned sym_choose(unsigned, const char *n) { return (unsigned)next(32, n); }
void sym_assume_(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUMPTION-FALSE\n"); _exit(78); } }
void sym_assert_(int c, const char *l) { if (!c) { fprintf(stderr, "REPLAY-ASSERT-FAILED: %s\n", l); fflush(stderr); _exit(77); } }
void sym_cover(const char *) {}
void sym_observe(uint64_t v) { if (obs) fprintf(obs, "%llu\n", (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_param(const char *n, uint64_t d) { for (auto &p : params) if (p.first == n) return p.second; return d; }
void sym_case(uint64_t) {}
uint64_t sym_live_heap(void) { return 0; }
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--obs") obs = fopen(argv[++i], "w");
    else if (a == "--param") { std::string p = argv[++i]; auto e = p.find('='); params.push_back({p.substr(0, e), strtoull(p.c_str() + e + 1, 0, 10)}); }
    else { FILE *f = fopen(argv[i], "r"); if (!f) return 3; In x; char line[512]; while (fgets(line, sizeof line, f)) { x.name[0] = 0; if (sscanf(line, "%u %llu %127s", &x.w, &x.v, x.name) >= 2) ins.push_back(x); } fclose(f); }
  }
  harness_main();
  if (obs) fclose(obs);
  fprintf(stderr, "REPLAY-COMPLETED\n");
  return 0;
}
