// Boolean network with structural hashing: the bit-level term language of the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <vector>

typedef uint32_t Lit;  // node*2 + negated
static const Lit LF = 0, LT = 1;
inline Lit lnot(Lit a) { return a ^ 1; }
inline bool lconst(Lit a) { return a < 2; }

struct Model {
  uint64_t id = 0;
  std::vector<uint8_t> in;  // by input ordinal; missing = 0
};
typedef std::shared_ptr<const Model> ModelP;

struct Aig {
  enum Kind : uint8_t { CONST, IN, AND, XOR, ITE };
  struct Node {
    Lit a, b, c;
    uint8_t k;
  };
  std::vector<Node> n;
  std::vector<uint32_t> tab;
  uint32_t tabMask = 0, used = 0;
  std::vector<uint32_t> inputs;  // ordinal -> node

  Aig() {
    n.reserve(1 << 20);
    n.push_back({0, 0, 0, CONST});
    tab.assign(1 << 20, 0);
    tabMask = (1 << 20) - 1;
  }
  static uint32_t h(uint8_t k, Lit a, Lit b, Lit c) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full ^ (c + 77ull) * 0x165667B19E3779F9ull ^ (uint64_t)k << 56;
    x ^= x >> 29;
    x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 32;
    return (uint32_t)x;
  }
  void grow() {
    std::vector<uint32_t> nt(tab.size() * 2, 0);
    uint32_t m = (uint32_t)nt.size() - 1;
    for (uint32_t v : tab)
      if (v) {
        auto& q = n[v];
        uint32_t i = h(q.k, q.a, q.b, q.c) & m;
        while (nt[i]) i = (i + 1) & m;
        nt[i] = v;
      }
    tab.swap(nt);
    tabMask = m;
  }
  Lit mk(uint8_t k, Lit a, Lit b, Lit c) {
    if (used * 2 > tab.size()) grow();
    uint32_t i = h(k, a, b, c) & tabMask;
    while (tab[i]) {
      auto& q = n[tab[i]];
      if (q.k == k && q.a == a && q.b == b && q.c == c) return tab[i] << 1;
      i = (i + 1) & tabMask;
    }
    n.push_back({a, b, c, k});
    tab[i] = (uint32_t)n.size() - 1;
    ++used;
    return (Lit)((n.size() - 1) << 1);
  }
  Lit input() {
    n.push_back({(Lit)inputs.size(), 0, 0, IN});
    inputs.push_back((uint32_t)n.size() - 1);
    return (Lit)((n.size() - 1) << 1);
  }
  Lit AND_(Lit a, Lit b) {
    if (a > b) std::swap(a, b);
    if (a == LF) return LF;
    if (a == LT) return b;
    if (a == b) return a;
    if (a == (b ^ 1)) return LF;
    for (int t = 0; t < 2; t++) {
      const Node& q = n[a >> 1];
      if (q.k == AND) {
        if (!(a & 1)) {
          if (q.a == b || q.b == b) return a;
          if (q.a == (b ^ 1) || q.b == (b ^ 1)) return LF;
        } else {
          if (q.a == (b ^ 1) || q.b == (b ^ 1)) return b;
          if (q.a == b) return AND_(b, q.b ^ 1);
          if (q.b == b) return AND_(b, q.a ^ 1);
        }
      }
      std::swap(a, b);
    }
    if (a > b) std::swap(a, b);
    return mk(AND, a, b, 0);
  }
  Lit OR_(Lit a, Lit b) { return lnot(AND_(lnot(a), lnot(b))); }
  Lit XOR_(Lit a, Lit b) {
    Lit neg = (a ^ b) & 1;
    a &= ~1u;
    b &= ~1u;
    if (a > b) std::swap(a, b);
    if (a == b) return LF ^ neg;
    if (a == LF) return b ^ neg;
    const Node& q = n[a >> 1];
    if (q.k == XOR) {
      if (q.a == b) return q.b ^ neg;
      if (q.b == b) return q.a ^ neg;
    }
    const Node& r = n[b >> 1];
    if (r.k == XOR) {
      if (r.a == a) return r.b ^ neg;
      if (r.b == a) return r.a ^ neg;
    }
    return mk(XOR, a, b, 0) ^ neg;
  }
  Lit ITE_(Lit c, Lit t, Lit e) {
    if (c == LT) return t;
    if (c == LF) return e;
    if (t == e) return t;
    if (c & 1) {
      c ^= 1;
      std::swap(t, e);
    }
    if (t == c) t = LT;
    else if (t == (c ^ 1)) t = LF;
    if (e == c) e = LF;
    else if (e == (c ^ 1)) e = LT;
    if (t == e) return t;
    if (t == (e ^ 1)) return XOR_(c, e);
    if (t == LT) return OR_(c, e);
    if (t == LF) return AND_(lnot(c), e);
    if (e == LF) return AND_(c, t);
    if (e == LT) return OR_(lnot(c), t);
    {
      const Node& q = n[t >> 1];
      if (q.k == ITE && q.a == c) return ITE_(c, q.b ^ (t & 1), e);
      const Node& r = n[e >> 1];
      if (r.k == ITE && r.a == c) return ITE_(c, t, r.c ^ (e & 1));
    }
    Lit neg = t & 1;
    return mk(ITE, c, t ^ neg, e ^ neg) ^ neg;
  }

  // simulation
  std::vector<uint32_t> stamp;
  std::vector<uint8_t> sv;
  uint32_t cur = 0;
  uint64_t curModel = ~0ull;
  bool eval(const ModelP& m, Lit l) {
    if (lconst(l)) return l & 1;
    if (m->id != curModel) {
      curModel = m->id;
      ++cur;
    }
    if (stamp.size() < n.size()) {
      stamp.resize(n.capacity(), 0);
      sv.resize(n.capacity(), 0);
    }
    uint32_t root = l >> 1;
    if (stamp[root] == cur) return sv[root] ^ (l & 1);
    std::vector<uint32_t> st{root};
    while (!st.empty()) {
      uint32_t x = st.back();
      if (stamp[x] == cur) {
        st.pop_back();
        continue;
      }
      const Node& q = n[x];
      if (q.k == CONST) {
        sv[x] = 0;
        stamp[x] = cur;
        st.pop_back();
        continue;
      }
      if (q.k == IN) {
        sv[x] = q.a < m->in.size() ? m->in[q.a] : 0;
        stamp[x] = cur;
        st.pop_back();
        continue;
      }
      uint32_t A = q.a >> 1, B = q.b >> 1, C = q.c >> 1;
      bool ok = true;
      if (stamp[A] != cur) { st.push_back(A); ok = false; }
      if (stamp[B] != cur) { st.push_back(B); ok = false; }
      if (q.k == ITE && stamp[C] != cur) { st.push_back(C); ok = false; }
      if (!ok) continue;
      uint8_t a = sv[A] ^ (q.a & 1), b = sv[B] ^ (q.b & 1);
      uint8_t r = 0;
      if (q.k == AND) r = a & b;
      else if (q.k == XOR) r = a ^ b;
      else r = a ? b : (uint8_t)(sv[C] ^ (q.c & 1));
      sv[x] = r;
      stamp[x] = cur;
      st.pop_back();
    }
    return sv[root] ^ (l & 1);
  }
};
extern Aig G;
