// Native side of the harness interface: replays one recorded counterexample (file named by SX_REPLAY).
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#define COUNT_BY_HOOKS 1
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#endif
#endif
#ifndef POISON
#define POISON(p, n)
#define UNPOISON(p, n)
#endif
static uint64_t *svals, *avals; static size_t ns, na, ps, pa, nt; static size_t track[64];
static const uint64_t ARENA = 0x200000000000ull, ASZ = 1ull << 30;
static bool mapped; static bool live; static long nlive;
// live heap objects: every malloc and free in the sanitized build, operator new and delete in the plain one
static int64_t nobj = 1 << 20;
#ifdef COUNT_BY_HOOKS
static void hook_malloc(const volatile void *, size_t) { nobj++; }
static void hook_free(const volatile void *p) { if (p) nobj--; }
#define COUNTED(d)
#define COUNTED_ARENA(d) (nobj += (d))
#else
#define COUNTED(d) (nobj += (d))
#define COUNTED_ARENA(d) (nobj += (d))
#endif
static void load() {
  static bool done; if (done) return; done = true;
  svals = (uint64_t *)malloc(8 << 16); avals = (uint64_t *)malloc(8 << 16);
  FILE *f = fopen(getenv("SX_REPLAY") ? getenv("SX_REPLAY") : "/dev/null", "r"); if (!f) { perror("replay"); _exit(3); }
  char k; unsigned long long v; while (fscanf(f, " %c %llu", &k, &v) == 2) (k == 'A' ? avals[na++] : svals[ns++]) = v;
  fclose(f);
}
static uint64_t next() { load(); if (ps >= ns) return 0; return svals[ps++]; }
static void *alloc(size_t n) {
  if (live) for (size_t i = 0; i < nt; i++) if (track[i] == n) {
    load(); if (pa >= na) break;
    if (!mapped) { mapped = true; void *r = mmap((void *)ARENA, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (r != (void *)ARENA) { fprintf(stderr, "arena\n"); _exit(3); } }
    void *p = (void *)(ARENA + (avals[pa++] << 10)); UNPOISON(p, n); memset(p, 0xA5, n); COUNTED_ARENA(1); return p;
  }
  void *p = malloc(n ? n : 1); if (!p) abort(); COUNTED(1); return p;
}
static void rel(void *p) { uint64_t a = (uint64_t)p; if (a >= ARENA && a < ARENA + ASZ) { POISON(p, 512); COUNTED_ARENA(-1); return; } if (p) COUNTED(-1); free(p); }
void *operator new(size_t n) { return alloc(n); }
void operator delete(void *p) noexcept { rel(p); }
void operator delete(void *p, size_t n) noexcept {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
  uint64_t a = (uint64_t)p; if (p && !(a >= ARENA && a < ARENA + ASZ) && malloc_usable_size(p) != n) { fprintf(stderr, "SX_FAIL object released with a size that differs from its allocation\n"); _exit(42); }
#endif
#endif
  rel(p);
}
extern "C" {
uint64_t sx_sym(int bits, const char *) { uint64_t v = next(); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void sx_sym_bytes(void *p, size_t n, const char *) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next(); }
void sx_assume(bool c) { if (!c) { fprintf(stderr, "SX_ASSUME_FALSE\n"); _exit(0); } }
void sx_check(bool c, const char *m) { if (!c) { fprintf(stderr, "SX_FAIL %s\n", m); fflush(stderr); _exit(42); } }
void sx_fail(const char *m) { sx_check(false, m); }
void sx_reach(const char *l) { fprintf(stderr, "SX_REACH %s\n", l); }
int sx_choose(int n, const char *) { return (int)(next() % (n ? n : 1)); }
uint64_t sx_conc(uint64_t v) { return v; }
void sx_track(size_t s) { track[nt++] = s; }
void sx_note(const char *s) { fprintf(stderr, "SX_NOTE %s\n", s); }
int64_t sx_live_heap() { return nobj; }
size_t sx_alloc_size(const void *) { return 0; }
}
int main() {
  load(); setvbuf(stdout, nullptr, _IONBF, 0);
#ifdef COUNT_BY_HOOKS
  __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#endif
  live = true; int r = sx_main(); fprintf(stderr, "SX_DONE\n"); fflush(stderr); _exit(0); }
