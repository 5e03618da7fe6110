// Native replay of one execution: inputs come from a file, the real libstdc++/libfmt/libspdlog are linked.
//   replay ENTRY FILE     FILE lines:  param N | in NAME HEX | refuse N
// exit 0 done, 1 assertion failed, 3 exception escaped, 77 assumption not met, 78 inputs do not fit the harness
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <new>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <spdlog/spdlog.h>
#include "rt.h"

static uint64_t refused[64];
static int nref;
static int64_t live;
static int fill = -1;
static void* get(size_t n) {
  for (int i = 0; i < nref; i++)
    if (refused[i] == n) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (fill >= 0) memset(p, fill, n < (1u << 24) ? n : (1u << 24));
  live++;
  return p;
}
static void put(void* p) noexcept {
  if (p) { live--; free(p); }
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }

struct In { std::string name; std::vector<uint8_t> v; };
static std::vector<In>* ins;
static std::vector<uint64_t>* params;
static size_t cur;
static void die(int c, const char* w, const char* l) {
  printf("\n%s %s\n", w, l);
  fflush(stdout);
  _exit(c);
}
#include <unistd.h>
extern "C" {

void sym_bytes(void* p, size_t n, const char* name) {
  if (cur >= ins->size() || (*ins)[cur].v.size() != n || (*ins)[cur].name != name) die(78, "MISMATCH", name);
  if (n) memcpy(p, (*ins)[cur].v.data(), n);
  cur++;
}
void sym_assume(bool b) { if (!b) die(77, "ASSUME", ""); }
void sym_assert(bool b, const char* l) { if (!b) die(1, "ASSERTFAIL", l); }
void sym_fail(const char* l) { die(1, "ASSERTFAIL", l); }
void sym_reach(const char* l) { printf("\nREACH %s\n", l); }
void sym_observe(const void* p, size_t n) {
  printf("\nOBS ");
  for (size_t i = 0; i < n; i++) printf("%02x", ((const uint8_t*)p)[i]);
  printf("\n");
}
bool sym_eq(const void* a, const void* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
uint64_t sym_enum(uint64_t v) { return v; }
int64_t sym_live_heap() { return live; }
uint64_t sym_param(int i) { return (size_t)i < params->size() ? (*params)[i] : 0; }
void sym_log(const char*, uint64_t) {}
void sym_alloc_limit(uint64_t) {}
void sym_exit() { die(0, "DONE", ""); }
bool sym_is_symbolic(uint64_t) { return true; }
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  if (const char* f = getenv("REPLAY_FILL")) fill = atoi(f);
  ins = new std::vector<In>;
  params = new std::vector<uint64_t>;
  {
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k, nm, hex;
      is >> k;
      if (k == "param") { uint64_t v; is >> v; params->push_back(v); }
      else if (k == "refuse") { uint64_t v; is >> v; if (nref < 64) refused[nref++] = v; }
      else if (k == "in") {
        is >> nm >> hex;
        In i;
        i.name = nm;
        for (size_t j = 0; j + 1 < hex.size(); j += 2) i.v.push_back((uint8_t)strtoul(hex.substr(j, 2).c_str(), nullptr, 16));
        ins->push_back(i);
      }
    }
  }
  spdlog::set_level(spdlog::level::off);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 2; }
  try {
    fn();
  } catch (std::exception& e) {
    die(3, "UNCAUGHT", typeid(e).name());
  } catch (...) {
    die(3, "UNCAUGHT", "?");
  }
  die(0, "DONE", "");
}
