#pragma once
#include <string>
#include <vector>
#include "rt.h"
struct RtGm {
  int mode = 0;  // 0: any fixed valid result, 1: result fields chosen by the harness, NULL where the year overflows int
  int calls = 0;
  int64_t arg = 0;
  int tm_year = 70, tm_mon = 0, tm_mday = 1, tm_hour = 0, tm_min = 0, tm_sec = 0;
};
struct RtFile {
  std::string name;
  std::vector<uint8_t> data;
  size_t pos = 0;
  uint64_t base = 0;       // pretended bytes before the recorded ones (ftell only)
  bool eof = false, err = false, exists = false, sticky = false, hit = false;
  bool fail_mkstemp = false, fail_fdopen = false;
  int created = 0, closed = 0, removes = 0, misuse = 0, reads = 0;
  const void* virt = nullptr;  // writes from this address are only counted
  uint64_t virt_bytes = 0;
  int ops = 0, fault_at = 0;  // the fault_at-th stdio operation fails (0: none)
  int part = 0;               // how much a failing fwrite or fread still transfers: 0 nothing, 1 half, 2 all but one byte
};
extern "C" {
extern RtGm rt_gm;
extern RtFile rt_file;
}
