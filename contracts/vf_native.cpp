// Native implementation of the specification intrinsics: runs one contract
// with the concrete values of a counterexample, or with seeded random values.
//   prog ENTRY table FILE      replay
//   prog ENTRY random SEED SECONDS   bounded random search (prints FOUND seed)
//   prog ENTRY one SEED        a single random run
// exit: 0 contract held, 77 precondition not met, anything else: violated.
#include "vf.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
#include <signal.h>

static std::map<std::string, void (*)(void)> &reg() { static std::map<std::string, void (*)(void)> m; return m; }
VfReg::VfReg(const char *n, void (*f)(void)) { reg()[n] = f; }

static bool gRandom = false; static uint64_t gSeed = 0;
static std::map<std::string, uint64_t> *gTab, *gUf; static std::map<std::string, unsigned> *gIdx;
static long gLive = 0, gMark = 0; static bool gTrack = true;
struct Untrack { bool o; Untrack() : o(gTrack) { gTrack = false; } ~Untrack() { gTrack = o; } };

static void *alloc(size_t n) { if (n > (1ull << 39)) throw std::bad_alloc(); size_t *p = static_cast<size_t *>(malloc(n ? n : 1)); if (!p) throw std::bad_alloc(); if (gTrack) gLive++; return p; }
// allocations made by the runtime itself are excluded by Untrack; frees are
// matched by a header-free count, so only use it around harness code.
void *operator new(size_t n) { return alloc(n); }
void *operator new[](size_t n) { return alloc(n); }
void operator delete(void *p) noexcept { if (p && gTrack) gLive--; free(p); }
void operator delete[](void *p) noexcept { if (p && gTrack) gLive--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p && gTrack) gLive--; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p && gTrack) gLive--; free(p); }

static uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; return h ^ (h >> 33); }
static uint64_t biased(uint64_t h, int bits) {
  uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1, r = mix(h ^ 0x9e3779b97f4a7c15ull);
  switch (h % 8) { case 0: case 1: return (r % 4) & m; case 2: return (r % 130) & m; case 3: return (0 - (r % 4)) & m; case 4: return ((1ull << (bits - 1)) + (r % 3) - 1) & m; case 5: return (r >> (r % 64)) & m; default: return r & m; }
}
extern "C" {
uint64_t vf_nondet(const char *name, int bits) {
  Untrack u; unsigned k = (*gIdx)[name]++; std::string key = std::string(name) + "#" + std::to_string(k); uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
  if (gRandom) { uint64_t h = mix(gSeed); for (char c : key) h = mix(h * 131 + c); return biased(h, bits); }
  auto it = gTab->find(key); return it == gTab->end() ? 0 : it->second & m; }
void vf_assume(int c) { if (!c) { _exit(77); } }
void vf_assert(int c, const char *name) { if (!c) { fprintf(stderr, "VF-ASSERT-FAILED %s\n", name); _exit(3); } }
uint64_t vf_uf(const char *fn, int bits, int n, ...) {
  Untrack u; va_list ap; va_start(ap, n); std::string key = fn; uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1; uint64_t h = mix(gSeed + 17);
  for (const char *p = fn; *p; p++) h = mix(h * 131 + *p);
  for (int i = 0; i < n; i++) { uint64_t a = va_arg(ap, uint64_t); key += "," + std::to_string(a); h = mix(h * 31 + a); } va_end(ap);
  if (gRandom) return biased(h, bits);
  auto it = gUf->find(key); return it == gUf->end() ? 0 : it->second & m; }
void vf_reach(const char *) {}
int vf_symbolic(void) { return 0; }
void vf_contract(const char *, void *, int) {}
void vf_contracts_clear(void) {}
void vf_invariant(const char *, bool (*)(void *), void *) {}
void vf_invariants_clear(void) {}
void vf_variant(const char *, uint64_t (*)(void *), void *) {}
void vf_variant_clear(void) {}
void vf_heap_mark(void) { gMark = gLive; }
void vf_leak_check(const char *name) { if (gLive != gMark) { fprintf(stderr, "VF-ASSERT-FAILED %s (%ld objects leaked)\n", name, gLive - gMark); _exit(3); } }
uint64_t vf_concretize(uint64_t x) { return x; }
void *vf_bytes(const char *name, uint64_t size) {
  unsigned k; { Untrack u; k = (*gIdx)[std::string("bytes:") + name]++; } if (size > (1ull << 24)) _exit(77); unsigned char *p = static_cast<unsigned char *>(malloc(size ? size : 1)); std::string fn; { Untrack u; fn = std::string("bytes_") + name + std::to_string(k);
  for (uint64_t i = 0; i < size; i++) p[i] = vf_uf(fn.c_str(), 8, 1, i); } return p; }
void vf_unroll(int) {}
void vf_nocut(void) {}
uint64_t vf_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void *vf_function(const char *) { return nullptr; }
void vf_cut_after(int) {}
void vf_bounded(const char *) {}
void vf_abstract(void) {}
void vf_trace(const char *n, uint64_t x) { if (getenv("VF_TRACE")) fprintf(stderr, "TRACE %s %llu\n", n, (unsigned long long)x); }
int vf_alive(const void *) { return 1; }
}
static uint64_t num(const char *s) { return strtoull(s, nullptr, 0); }
int main(int argc, char **argv) {
  if (argc < 3) { for (auto &r : reg()) printf("%s\n", r.first.c_str()); return 2; }
  gTab = new std::map<std::string, uint64_t>(); gUf = new std::map<std::string, uint64_t>(); gIdx = new std::map<std::string, unsigned>();
  auto it = reg().find(argv[1]); if (it == reg().end()) { fprintf(stderr, "no entry %s\n", argv[1]); return 78; }
  std::string mode = argv[2];
  if (mode == "table") { FILE *f = fopen(argv[3], "r"); if (!f) return 78; char line[65536];
    while (fgets(line, sizeof line, f)) { std::vector<std::string> w; for (char *t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) w.push_back(t); if (w.size() < 3) continue;
      if (w[0] == "N") (*gTab)[w[1]] = num(w[2].c_str()); else if (w[0] == "U") { std::string key = w[1]; for (size_t i = 2; i + 1 < w.size(); i++) key += "," + std::to_string(num(w[i].c_str())); (*gUf)[key] = num(w.back().c_str()); } }
    fclose(f); alarm(20); gLive = 0; it->second(); return 0; }
  if (mode == "one") { gRandom = true; gSeed = num(argv[3]); alarm(10); it->second(); return 0; }
  if (mode == "random") { uint64_t s0 = num(argv[3]); double lim = atof(argv[4]); timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); unsigned long n = 0, ok = 0;
    for (uint64_t i = 0;; i++) { clock_gettime(CLOCK_MONOTONIC, &b); if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) * 1e-9 > lim) break; pid_t p = fork();
      if (!p) { freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); gRandom = true; gSeed = s0 * 1000003 + i; alarm(5); it->second(); _exit(0); }
      int st = 0; waitpid(p, &st, 0); n++; if (WIFEXITED(st) && WEXITSTATUS(st) == 77) continue; if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { ok++; continue; } if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) continue; printf("FOUND %llu\n", (unsigned long long)(s0 * 1000003 + i)); return 1; }
    printf("RUNS %lu HELD %lu\n", n, ok); return 0; }
  return 78;
}
