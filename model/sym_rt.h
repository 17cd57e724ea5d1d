// Interface between code run by the symbolic executor and the executor.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t __sym_int(const char *name, uint64_t lo, uint64_t hi);
void __sym_assume(int c);
void __sym_assert(int c, const char *msg);
void __sym_fail(const char *msg);
void __sym_unsupported(const char *msg) __attribute__((noreturn));
void __sym_reach(const char *tag);
void __sym_observe(uint64_t v);
uint64_t __sym_concretize(uint64_t v);
int __sym_symbolic(uint64_t v);
uint32_t __sym_icu(int fn, uint32_t c);
uint64_t __sym_unorm(int kind, const uint32_t *in, uint64_t n, uint32_t *out, uint64_t cap);
}
enum {
  SI_TYPE = 0, SI_LOWER = 1, SI_UWS = 2, SI_CCC = 3, SI_UPPER = 4, SI_FOLD = 5,
  SI_SET_L = 32, SI_SET_N, SI_SET_P, SI_SET_S, SI_SET_W, SI_SET_D, SI_SET_M, SI_SET_MN,
  SI_NFD = 64, SI_NFKD = 96
};
