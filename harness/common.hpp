#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "rt.h"

template <class T>
inline T sym(const char* n) {
  T v;
  sym_bytes(&v, sizeof v, n);
  return v;
}
inline std::string sym_str(size_t n, const char* name) {
  std::string s(n, '\0');
  sym_bytes(s.data(), n, name);
  return s;
}
inline std::vector<uint8_t> sym_vec(size_t n, const char* name) {
  std::vector<uint8_t> s(n);
  sym_bytes(s.data(), n, name);
  return s;
}
// a symbolic value in [lo,hi], still symbolic
inline uint64_t sym_range(uint64_t lo, uint64_t hi, const char* name) {
  uint64_t v;
  if (hi < 256) v = sym<uint8_t>(name);
  else if (hi < 65536) v = sym<uint16_t>(name);
  else v = sym<uint64_t>(name);
  sym_assume((v >= lo) & (v <= hi));
  return v;
}
// one execution per value
inline uint64_t sym_pick(uint64_t lo, uint64_t hi, const char* name) { return sym_enum(sym_range(lo, hi, name)); }
template <class T>
inline void obs(const T& v) { sym_observe(&v, sizeof v); }
inline void obs_str(const std::string& s) {
  obs<uint32_t>((uint32_t)s.size());
  sym_observe(s.data(), s.size());
}
inline bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && sym_eq(a.data(), b.data(), a.size()); }
inline uint64_t be(const std::string& s, size_t off, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v = v << 8 | (uint8_t)s[off + i];
  return v;
}
// runs f; true when it threw a std::exception
template <class F>
inline bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
#define ENTRY extern "C" __attribute__((used)) void
