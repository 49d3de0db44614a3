// Harness API. Symbolic build: implemented by the engine. Native build (replay): harness/rt_native.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint32_t rk_sym(const char*name, uint32_t idx, uint32_t lo, uint32_t hi);      // arbitrary value in [lo,hi]
uint64_t rk_sym64(const char*name, uint32_t idx, uint64_t lo, uint64_t hi);
uint8_t  rk_sym8(const char*name, uint32_t idx, uint32_t lo, uint32_t hi);
uint32_t rk_choose(const char*name, uint32_t idx, uint32_t lo, uint32_t hi);   // arbitrary value, path per value
void rk_assume(bool);
void rk_assert(bool, const char*label);
void rk_fail(const char*label);
void rk_reach(const char*label);
uint32_t rk_ite(bool, uint32_t, uint32_t);   // branch-free choice
uint32_t rk_concretize(uint32_t);
void rk_print(const char*, uint64_t);
}
#define RK_ENTRY(name) extern "C" void rk_main_##name()
static inline uint32_t rk_min(uint32_t a, uint32_t b){ return rk_ite(a<b,a,b); }
