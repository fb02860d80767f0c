// Harness interface of symx. The same harness source is compiled to bitcode (symbolic run)
// and to a native sanitizer binary (replay of a counterexample).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sx_sym(int bits, const char *name);
void sx_sym_bytes(void *p, size_t n, const char *name);
void sx_assume(bool c);
void sx_check(bool c, const char *msg);
void sx_reach(const char *label);
int sx_choose(int n, const char *name);
uint64_t sx_conc(uint64_t v);
void sx_track(size_t size);
void sx_note(const char *s);
void sx_fail(const char *msg);
int64_t sx_live_heap();
size_t sx_alloc_size(const void *p);
int sx_main();
}
