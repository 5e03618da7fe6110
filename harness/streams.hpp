#pragma once
// stream buffers over which the harness decides what exists and what fails
#include <streambuf>
#include <istream>
#include <ostream>
#include "common.hpp"
#include "shiguredo/mp4/box.hpp"

// a file of any size of which only the bytes [base, base+win.size()) are kept
struct HugeBuf : std::streambuf {
  uint64_t base, pos, end;
  std::string win;
  bool stray = false;  // something was written outside the window
  HugeBuf(uint64_t b, std::string w, uint64_t e) : base(b), pos(0), end(e), win(std::move(w)) {}
  std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    uint64_t p = d == std::ios_base::beg ? (uint64_t)o : d == std::ios_base::cur ? pos + (uint64_t)o : end + (uint64_t)o;
    if ((int64_t)p < 0) return std::streampos(std::streamoff(-1));
    pos = p;
    return std::streampos((std::streamoff)pos);
  }
  std::streampos seekpos(std::streampos p, std::ios_base::openmode m) override { return seekoff(std::streamoff(p), std::ios_base::beg, m); }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    uint64_t rel = sym_enum(pos - base);
    if (rel > win.size() || (uint64_t)n > win.size() - rel) stray = true;
    else std::memcpy(win.data() + rel, s, (size_t)n);
    pos += (uint64_t)n;
    if (pos > end) end = pos;
    return n;
  }
  int overflow(int c) override {
    char ch = (char)c;
    xsputn(&ch, 1);
    return (unsigned char)ch;
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    uint64_t left = pos >= end ? 0 : end - pos;
    if (left < (uint64_t)n) n = (std::streamsize)sym_enum(left);
    uint64_t rel = sym_enum(pos - base);
    for (std::streamsize i = 0; i < n; i++) s[i] = rel + (uint64_t)i < win.size() ? win[rel + (uint64_t)i] : (char)sym<uint8_t>("far");
    pos += (uint64_t)n;
    return n;
  }
  int underflow() override {
    if (pos >= end) return -1;
    uint64_t rel = sym_enum(pos - base);
    one = rel < win.size() ? win[rel] : 0;
    return (unsigned char)one;
  }
  int uflow() override {
    int c = underflow();
    if (c >= 0) pos++;
    return c;
  }
  char one = 0;
};

// everything that was written, in order: (position, bytes)
struct RecBuf : std::streambuf {
  struct W { uint64_t at; std::string data; };
  std::vector<W> log;
  uint64_t pos = 0;
  std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    if (d == std::ios_base::end) return std::streampos(std::streamoff(-1));
    uint64_t p = d == std::ios_base::beg ? (uint64_t)o : pos + (uint64_t)o;
    if ((int64_t)p < 0) return std::streampos(std::streamoff(-1));
    pos = p;
    return std::streampos((std::streamoff)pos);
  }
  std::streampos seekpos(std::streampos p, std::ios_base::openmode m) override { return seekoff(std::streamoff(p), std::ios_base::beg, m); }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (n > 0) log.push_back({pos, std::string(s, (size_t)n)});
    pos += (uint64_t)n;
    return n;
  }
  int overflow(int c) override {
    char ch = (char)c;
    xsputn(&ch, 1);
    return (unsigned char)ch;
  }
};

// a box of any announced size; what it writes is a short recognisable payload (or nothing)
struct FatBox : shiguredo::mp4::Box {
  uint64_t size;
  std::string body;
  FatBox(uint64_t n, std::array<uint8_t, 4> t, std::string b = "") : size(n), body(std::move(b)) { m_type = shiguredo::mp4::BoxType(t); }
  std::string toStringOnlyData() const override { return ""; }
  std::uint64_t writeData(std::ostream& os) const override {
    os.write(body.data(), (std::streamsize)body.size());
    return body.size() * 8;
  }
  std::uint64_t readData(std::istream&) override { return 0; }
  std::uint64_t getDataSize() const override { return size; }
};
// where a laid out box was put, through the public interface
inline uint64_t place(shiguredo::mp4::Box& b) {
  HugeBuf buf(0, "", (uint64_t)1 << 62);
  std::istream is(&buf);
  b.seekToData(is);
  return buf.pos - b.getHeaderSize();
}
