// Environment stand-ins used both symbolically and in native replay: clock, gmtime_r, stdio on the intermediate
// file, filesystem::remove.  Nothing here touches the real file system.
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include "env.h"

extern "C" {
int rt_format_tm;
int64_t rt_now_ns = 1700000000ll * 1000000000ll;
int64_t ovr_now() asm("__ovr__ZNSt6chrono3_V212system_clock3nowEv");
int64_t ovr_now() { return rt_now_ns; }

RtGm rt_gm;
struct tm* ovr_gmtime_r(const time_t* t, struct tm* out) asm("__ovr_gmtime_r");
struct tm* ovr_gmtime_r(const time_t* t, struct tm* out) {
  rt_gm.calls++;
  rt_gm.arg = (int64_t)*t;
  if (rt_gm.mode == 0) {  // documented contract only: the year must fit into an int
    memset(out, 0, sizeof *out);
    out->tm_year = 70;
    out->tm_mday = 1;
    return out;
  }
  // the year fits int when |t| <= 2^31 years; values beyond return NULL
  const int64_t lim = 67767976233532800ll;
  if (*t < -67768040609740800ll || *t > lim + 31622399) return nullptr;
  memset(out, 0, sizeof *out);
  out->tm_year = rt_gm.tm_year; out->tm_mon = rt_gm.tm_mon; out->tm_mday = rt_gm.tm_mday;
  out->tm_hour = rt_gm.tm_hour; out->tm_min = rt_gm.tm_min; out->tm_sec = rt_gm.tm_sec;
  return out;
}
// the local time zone is some other one
struct tm* ovr_localtime_r(const time_t* t, struct tm* out) asm("__ovr_localtime_r");
struct tm* ovr_localtime_r(const time_t* t, struct tm* out) {
  struct tm* r = ovr_gmtime_r(t, out);
  if (r) r->tm_hour = (r->tm_hour + 14) % 24, r->tm_min = (r->tm_min + 30) % 60, r->tm_gmtoff = 9 * 3600 + 1800;
  return r;
}
struct tm* ovr_localtime(const time_t* t) asm("__ovr_localtime");
struct tm* ovr_localtime(const time_t* t) { static struct tm st; return ovr_localtime_r(t, &st); }
struct tm* ovr_gmtime(const time_t* t) asm("__ovr_gmtime");
struct tm* ovr_gmtime(const time_t* t) { static struct tm st; return ovr_gmtime_r(t, &st); }

// ---- in-memory stdio
RtFile rt_file;
int ovr_mkstemp(char* t) asm("__ovr_mkstemp");
int ovr_mkstemp(char* t) {
  if (rt_file.fail_mkstemp) { return -1; }
  rt_file.created++;
  rt_file.name = t;
  rt_file.exists = true;
  return 77;
}
int ovr_close(int fd) asm("__ovr_close");
int ovr_close(int fd) { rt_file.closed++; return 0; }
FILE* ovr_fdopen(int fd, const char*) asm("__ovr_fdopen");
FILE* ovr_fdopen(int fd, const char*) {
  if (rt_file.fail_fdopen || fd != 77) return nullptr;
  return (FILE*)&rt_file;
}
static bool ok(FILE* f) {
  bool r = f == (FILE*)&rt_file && !rt_file.closed;
  if (!r) rt_file.misuse++;
  return r;
}
static size_t cut(size_t n) { return rt_file.part == 0 || n == 0 ? 0 : rt_file.part == 1 ? n / 2 : n - 1; }
static bool fault() { return rt_file.fault_at && ++rt_file.ops == rt_file.fault_at; }
size_t ovr_fwrite(const void* p, size_t sz, size_t n, FILE* f) asm("__ovr_fwrite");
size_t ovr_fwrite(const void* p, size_t sz, size_t n, FILE* f) {
  if (!ok(f)) return 0;
  size_t len = sz * n;
  if (fault()) { rt_file.err = true; rt_file.hit = true; len = cut(len); n = sz ? len / sz : 0; }
  const uint8_t* b = (const uint8_t*)p;
  if (p && p == rt_file.virt) {
    rt_file.base += len;
    rt_file.virt_bytes += len;
    return n;
  }
  for (size_t i = 0; i < len; i++) {
    if (rt_file.pos < rt_file.data.size()) rt_file.data[rt_file.pos] = b[i];
    else rt_file.data.push_back(b[i]);
    rt_file.pos++;
  }
  return n;
}
long ovr_ftell(FILE* f) asm("__ovr_ftell");
long ovr_ftell(FILE* f) {
  if (!ok(f)) return -1;
  if (fault()) { rt_file.hit = true; return -1; }
  return (long)(rt_file.base + rt_file.pos);
}
int ovr_fseek(FILE* f, long o, int w) asm("__ovr_fseek");
int ovr_fseek(FILE* f, long o, int w) {
  if (!ok(f)) return -1;
  if (fault()) { rt_file.hit = true; return -1; }
  long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)rt_file.pos : (long)rt_file.data.size();
  rt_file.pos = (size_t)(b + o);
  rt_file.eof = false;
  return 0;
}
long ovr_ftello(FILE* f) asm("__ovr_ftello");
long ovr_ftello(FILE* f) { return ovr_ftell(f); }
int ovr_fseeko(FILE* f, long o, int w) asm("__ovr_fseeko");
int ovr_fseeko(FILE* f, long o, int w) { return ovr_fseek(f, o, w); }
void ovr_rewind(FILE* f) asm("__ovr_rewind");
void ovr_rewind(FILE* f) { ovr_fseek(f, 0, SEEK_SET); rt_file.err = false; }
size_t ovr_fread(void* p, size_t sz, size_t n, FILE* f) asm("__ovr_fread");
size_t ovr_fread(void* p, size_t sz, size_t n, FILE* f) {
  if (!ok(f)) return 0;
  rt_file.reads++;
  size_t want = sz * n, got = 0;
  if (rt_file.pos < rt_file.data.size()) got = rt_file.data.size() - rt_file.pos;
  if (got > want) got = want;
  if (rt_file.sticky) { rt_file.err = true; rt_file.hit = true; return 0; }
  if (fault()) { rt_file.err = true; rt_file.hit = true; rt_file.sticky = true; got = want = cut(got); }
  for (size_t i = 0; i < got; i++) ((uint8_t*)p)[i] = rt_file.data[rt_file.pos + i];
  rt_file.pos += got;
  if (got < want) rt_file.eof = true;
  return got / sz;
}
int ovr_feof(FILE* f) asm("__ovr_feof");
int ovr_feof(FILE* f) { return ok(f) ? rt_file.eof : 1; }
int ovr_ferror(FILE* f) asm("__ovr_ferror");
int ovr_ferror(FILE* f) { return ok(f) ? rt_file.err : 1; }
int ovr_fflush(FILE* f) asm("__ovr_fflush");
int ovr_fflush(FILE* f) { return ok(f) ? 0 : EOF; }
int ovr_fclose(FILE* f) asm("__ovr_fclose");
int ovr_fclose(FILE* f) {
  if (!ok(f)) return EOF;
  rt_file.closed++;
  if (fault()) { rt_file.hit = true; return EOF; }
  return 0;
}
// std::filesystem::path begins with its std::string
bool ovr_remove(const std::string& p) asm("__ovr__ZNSt10filesystem6removeERKNS_7__cxx114pathE");
bool ovr_remove(const std::string& p) {
  rt_file.removes++;
  if (fault()) { rt_file.hit = true; return false; }
  bool r = rt_file.exists && p == rt_file.name;
  if (r) rt_file.exists = false;
  return r;
}
bool ovr_remove_ec(const std::string& p, void* ec) asm("__ovr__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code");
bool ovr_remove_ec(const std::string& p, void* ec) {
  memset(ec, 0, 4);
  return ovr_remove(p);
}
int ovr_unlink(const char* p) asm("__ovr_unlink");
int ovr_unlink(const char* p) { return ovr_remove(p) ? 0 : -1; }
int ovr_cremove(const char* p) asm("__ovr_remove");
int ovr_cremove(const char* p) { return ovr_remove(p) ? 0 : -1; }
}
