// Values, memory objects, persistent object table and states.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>

#include "aig.hpp"

struct BV {
  int rc;
  int w;
  Lit b[1];
  static BV* make(int w) {
    BV* p = (BV*)malloc(sizeof(BV) + sizeof(Lit) * (size_t)w);
    p->rc = 0;
    p->w = w;
    return p;
  }
};
struct Val;
struct Agg {
  int rc = 0;
  std::vector<Val> v;
};

struct Val {
  enum Tag : uint64_t { C, S, A };
  Tag t;
  union {
    uint64_t u;
    BV* s;
    Agg* a;
  };
  Val() : t(C), u(0) {}
  template <class T, class = std::enable_if_t<std::is_integral<T>::value>>
  Val(T x) : t(C), u((uint64_t)x) {}
  explicit Val(BV* p) : t(S), s(p) { ++p->rc; }
  explicit Val(Agg* p) : t(A), a(p) { ++p->rc; }
  Val(const Val& o) : t(o.t), u(o.u) { inc(); }
  Val(Val&& o) noexcept : t(o.t), u(o.u) { o.t = C; }
  Val& operator=(const Val& o) {
    if (this != &o) {
      Val tmp(o);
      std::swap(t, tmp.t);
      std::swap(u, tmp.u);
    }
    return *this;
  }
  Val& operator=(Val&& o) noexcept {
    std::swap(t, o.t);
    std::swap(u, o.u);
    return *this;
  }
  ~Val() {
    if (t != C) dec();
  }
  bool conc() const { return t == C; }
  void inc() {
    if (t == S) ++s->rc;
    else if (t == A) ++a->rc;
  }
  void dec() {
    if (t == S) {
      if (--s->rc == 0) free(s);
    } else if (t == A) {
      if (--a->rc == 0) delete a;
    }
  }
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ---- symbolic bytes
static const uint32_t UNINIT = 0xffffffffu;
struct SymByte {
  Lit b[8];
};
struct SymByteTab {
  std::vector<SymByte> v{SymByte{}};
  std::unordered_multimap<uint64_t, uint32_t> m;
  uint32_t get(const Lit* b) {
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < 8; i++) h = (h ^ b[i]) * 1099511628211ull;
    auto r = m.equal_range(h);
    for (auto i = r.first; i != r.second; ++i)
      if (!memcmp(v[i->second].b, b, sizeof(SymByte))) return i->second;
    SymByte s;
    memcpy(s.b, b, sizeof s);
    v.push_back(s);
    uint32_t id = (uint32_t)v.size() - 1;
    m.emplace(h, id);
    return id;
  }
};
extern SymByteTab SB;

// ---- memory
static const uint32_t PS = 512;
struct Page {
  int rc = 1;
  uint32_t n;
  std::vector<uint8_t> d;
  std::vector<uint32_t> sy;  // empty: all concrete
};
enum OK : uint8_t { HEAP, STACK, GLOBAL, FUNC, EXC, FREED };
struct Obj {
  int rc = 1;
  uint32_t size = 0;
  OK kind = HEAP;
  bool ro = false, zero = false, arr = false;
  std::vector<Page*> pg;
  explicit Obj(uint32_t sz) : size(sz), pg((sz + PS - 1) / PS, nullptr) {}
  Obj(const Obj& o) : rc(1), size(o.size), kind(o.kind), ro(o.ro), zero(o.zero), arr(o.arr), pg(o.pg) {
    for (auto p : pg)
      if (p) ++p->rc;
  }
  ~Obj() {
    for (auto p : pg)
      if (p && --p->rc == 0) delete p;
  }
  uint32_t plen(uint32_t i) const { return std::min(PS, size - i * PS); }
  Page* wpage(uint32_t i) {
    Page*& p = pg[i];
    if (!p) {
      p = new Page;
      p->n = plen(i);
      p->d.assign(p->n, 0);
      if (!zero) p->sy.assign(p->n, UNINIT);
    } else if (p->rc > 1) {
      Page* q = new Page(*p);
      q->rc = 1;
      --p->rc;
      p = q;
    }
    return p;
  }
  void get(uint32_t off, uint8_t& d, uint32_t& s) const {
    Page* p = pg[off / PS];
    if (!p) {
      d = 0;
      s = zero ? 0 : UNINIT;
      return;
    }
    d = p->d[off % PS];
    s = p->sy.empty() ? 0 : p->sy[off % PS];
  }
  void set(uint32_t off, uint8_t d, uint32_t s) {
    Page* p = wpage(off / PS);
    p->d[off % PS] = d;
    if (s) {
      if (p->sy.empty()) p->sy.assign(p->n, 0);
      p->sy[off % PS] = s;
    } else if (!p->sy.empty())
      p->sy[off % PS] = 0;
  }
};

// persistent radix trie id -> Obj*
struct TNode {
  int rc = 1;
  void* ch[64] = {};
};
struct ObjTab {
  static const int L = 4;  // 4*6 = 24 bits
  TNode* root = nullptr;
  ObjTab() : root(new TNode) {}
  ObjTab(const ObjTab& o) : root(o.root) { ++root->rc; }
  ObjTab& operator=(const ObjTab& o) {
    ++o.root->rc;
    drop(root, 0);
    root = o.root;
    return *this;
  }
  ~ObjTab() { drop(root, 0); }
  static void drop(TNode* n, int lv) {
    if (--n->rc) return;
    for (auto c : n->ch)
      if (c) {
        if (lv == L - 1) {
          Obj* o = (Obj*)c;
          if (--o->rc == 0) delete o;
        } else
          drop((TNode*)c, lv + 1);
      }
    delete n;
  }
  const Obj* get(uint32_t id) const {
    TNode* n = root;
    for (int l = 0; l < L - 1; l++) {
      n = (TNode*)n->ch[(id >> (6 * (L - 1 - l))) & 63];
      if (!n) return nullptr;
    }
    return (Obj*)n->ch[id & 63];
  }
  void** slot(uint32_t id) {
    TNode** pn = &root;
    for (int l = 0;; l++) {
      TNode* n = *pn;
      if (!n) {
        n = *pn = new TNode;
      } else if (n->rc > 1) {
        TNode* q = new TNode(*n);
        q->rc = 1;
        for (auto c : q->ch)
          if (c) {
            if (l == L - 1) ++((Obj*)c)->rc;
            else ++((TNode*)c)->rc;
          }
        --n->rc;
        *pn = q;
        n = q;
      }
      if (l == L - 1) return &n->ch[id & 63];
      pn = (TNode**)&n->ch[(id >> (6 * (L - 1 - l))) & 63];
    }
  }
  void set(uint32_t id, Obj* o) {
    void** s = slot(id);
    if (*s) {
      Obj* old = (Obj*)*s;
      if (--old->rc == 0) delete old;
    }
    *s = o;
  }
  Obj* w(uint32_t id) {
    void** s = slot(id);
    Obj* o = (Obj*)*s;
    if (o && o->rc > 1) {
      Obj* q = new Obj(*o);
      --o->rc;
      *s = q;
      o = q;
    }
    return o;
  }
  static void diffRec(TNode* a, TNode* b, int lv, uint32_t base, std::vector<uint32_t>& out) {
    if (a == b) return;
    for (uint32_t i = 0; i < 64; i++) {
      void* x = a ? a->ch[i] : nullptr;
      void* y = b ? b->ch[i] : nullptr;
      if (x == y) continue;
      if (lv == L - 1) out.push_back(base << 6 | i);
      else diffRec((TNode*)x, (TNode*)y, lv + 1, base << 6 | i, out);
    }
  }
};
