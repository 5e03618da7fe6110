// z3 front end: decides satisfiability of conjunctions of AIG literals.
#pragma once
#include <z3.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>

#include "aig.hpp"

struct Solver {
  Z3_context ctx = nullptr;
  Z3_solver s = nullptr;
  std::unordered_map<uint32_t, Z3_ast> var;  // node -> const
  std::vector<uint32_t> encIn;               // encoded input nodes
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0;
  double time = 0;
  uint64_t nextModel = 1;
  unsigned timeoutMs = 120000;
  size_t maxEnc = getenv("MAXENC") ? atoi(getenv("MAXENC")) : 5000;
  double maxQ = 0;

  static void onErr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
  }
  void reset() {
    if (ctx) {
      Z3_solver_dec_ref(ctx, s);
      Z3_del_context(ctx);
    }
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onErr);
    s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FD"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    var.clear();
    encIn.clear();
  }
  Z3_ast lit(Lit l) {
    if (l == LT) return Z3_mk_true(ctx);
    if (l == LF) return Z3_mk_false(ctx);
    Z3_ast v = var.at(l >> 1);
    return (l & 1) ? Z3_mk_not(ctx, v) : v;
  }
  void clause(std::initializer_list<Z3_ast> l) {
    std::vector<Z3_ast> v(l);
    Z3_solver_assert(ctx, s, Z3_mk_or(ctx, (unsigned)v.size(), v.data()));
  }
  Z3_ast neg(Z3_ast a) { return Z3_mk_not(ctx, a); }
  void encode(Lit root) {
    if (lconst(root)) return;
    std::vector<uint32_t> st{root >> 1};
    while (!st.empty()) {
      uint32_t x = st.back();
      if (x == 0 || var.count(x)) {
        st.pop_back();
        continue;
      }
      Aig::Node q = G.n[x];
      if (q.k != Aig::IN) {
        bool ok = true;
        auto need = [&](Lit l) {
          if (!lconst(l) && !var.count(l >> 1)) {
            st.push_back(l >> 1);
            ok = false;
          }
        };
        need(q.a);
        need(q.b);
        if (q.k == Aig::ITE) need(q.c);
        if (!ok) continue;
      }
      Z3_ast v = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)x), Z3_mk_bool_sort(ctx));
      var[x] = v;
      st.pop_back();
      if (q.k == Aig::IN) {
        encIn.push_back(x);
        continue;
      }
      Z3_ast a = lit(q.a), b = lit(q.b);
      if (q.k == Aig::AND) {
        clause({neg(v), a});
        clause({neg(v), b});
        clause({v, neg(a), neg(b)});
      } else if (q.k == Aig::XOR) {
        clause({neg(v), a, b});
        clause({neg(v), neg(a), neg(b)});
        clause({v, neg(a), b});
        clause({v, a, neg(b)});
      } else {
        Z3_ast c = lit(q.c);
        clause({neg(a), neg(b), v});
        clause({neg(a), b, neg(v)});
        clause({a, neg(c), v});
        clause({a, c, neg(v)});
        clause({neg(b), neg(c), v});
        clause({b, c, neg(v)});
      }
    }
  }
  // 1 sat (model filled), 0 unsat, -1 unknown
  int check(const std::vector<Lit>& as, const ModelP& base, ModelP* out) {
    auto t0 = std::chrono::steady_clock::now();
    if (!ctx || var.size() > maxEnc) reset();
    for (Lit l : as) encode(l);
    std::vector<Z3_ast> a;
    for (Lit l : as) {
      if (l == LT) continue;
      a.push_back(lit(l));
    }
    Z3_lbool r = Z3_solver_check_assumptions(ctx, s, (unsigned)a.size(), a.data());
    ++queries;
    int res;
    if (r == Z3_L_TRUE) {
      ++sat;
      res = 1;
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      auto mm = std::make_shared<Model>();
      mm->id = nextModel++;
      if (base) mm->in = base->in;
      mm->in.resize(G.inputs.size(), 0);
      for (uint32_t x : encIn) {
        Z3_func_decl d = Z3_get_app_decl(ctx, Z3_to_app(ctx, var[x]));
        Z3_ast v = Z3_model_get_const_interp(ctx, m, d);
        bool val = false;
        if (v)
          val = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
        mm->in[G.n[x].a] = val;
      }
      Z3_model_dec_ref(ctx, m);
      *out = mm;
    } else if (r == Z3_L_FALSE) {
      ++unsat;
      res = 0;
    } else {
      ++unknown;
      res = -1;
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    time += dt;
    if (dt > maxQ) maxQ = dt;
    return res;
  }
};
