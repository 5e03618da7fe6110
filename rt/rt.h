// shared by harnesses, the symbolic model (rt.cpp) and the native replay (native.cpp)
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);
void sym_assume(bool);
void sym_assert(bool, const char* label);
void sym_fail(const char* label);
void sym_reach(const char* label);
void sym_observe(const void* p, size_t n);
bool sym_eq(const void* a, const void* b, size_t n);
uint64_t sym_enum(uint64_t);
int64_t sym_live_heap();
uint64_t sym_param(int);
void sym_log(const char*, uint64_t);
void sym_alloc_limit(uint64_t);
void sym_exit();
bool sym_is_symbolic(uint64_t);
// environment model (rt/env.cpp)
extern int rt_format_tm;          // let fmt::format of a std::tm produce its text
extern int64_t rt_now_ns;         // std::chrono::system_clock::now()
}
