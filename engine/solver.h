// Z3-backed satisfiability with constraint slicing and a query cache.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <map>
#include <set>
#include <algorithm>

struct Stats {
  uint64_t queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cached = 0; double solver_s = 0;
  uint64_t paths = 0, forks = 0, insts = 0, checks = 0, memchecks = 0, frontier = 0, maxsteps = 0;
};
static Stats g_st;
static double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  Z3_context ctx; Z3_solver s; std::string dumpdir; unsigned dumpn = 0, dumpmax = 0;
  std::vector<Z3_ast> vars; Z3_sort bv8;
  struct Res { int r; std::vector<std::pair<uint32_t, uint8_t>> m; };
  struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (auto x : v) h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h; } };
  std::unordered_map<std::vector<uint32_t>, Res, VecHash> cache;

  void init() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "ushsym: z3 error %s\n", Z3_get_error_msg(c, e)); _exit(5); });
    s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 30000);
    Z3_solver_set_params(ctx, s, p);
    bv8 = Z3_mk_bv_sort(ctx, 8); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bv8));
  }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  Z3_ast var(unsigned i) {
    while (vars.size() <= i) {
      char n[16]; snprintf(n, sizeof n, "b%zu", vars.size());
      vars.push_back(keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), bv8)));
    }
    return vars[i];
  }
  Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); }
  Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(ctx, v, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }
  // width-1 expressions are translated to Bool by tb(), everything else to bit-vectors by tv()
  std::unordered_map<Expr *, Z3_ast> bcache;
  Z3_ast tb(Expr *e) {
    auto it = bcache.find(e); if (it != bcache.end()) return it->second;
    Z3_ast r;
    switch (e->k) {
    case K_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K_EQ: if (e->a->width == 1) r = Z3_mk_iff(ctx, tb(e->a), tb(e->b)); else r = Z3_mk_eq(ctx, tv(e->a), tv(e->b)); break;
    case K_ULT: r = Z3_mk_bvult(ctx, tv(e->a), tv(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(ctx, tv(e->a), tv(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(ctx, tv(e->a), tv(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(ctx, tv(e->a), tv(e->b)); break;
    case K_AND: { Z3_ast x[2] = {tb(e->a), tb(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case K_OR: { Z3_ast x[2] = {tb(e->a), tb(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case K_XOR: if (isC(e->b) && e->b->c == 1) r = Z3_mk_not(ctx, tb(e->a)); else r = Z3_mk_xor(ctx, tb(e->a), tb(e->b)); break;
    case K_ITE: r = Z3_mk_ite(ctx, tb(e->a), tb(e->b), tb(e->d)); break;
    default: r = v2b(tv(e)); break;
    }
    keep(r); bcache[e] = r; return r;
  }
  Z3_ast tv(Expr *e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r;
    if (e->width == 1 && e->k != K_EXTRACT && e->k != K_CONST) { r = b2v(tb(e)); keep(r); e->z3 = r; return r; }
    switch (e->k) {
    case K_CONST: r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->width)); break;
    case K_VAR: r = var(e->c); break;
    case K_ADD: r = Z3_mk_bvadd(ctx, tv(e->a), tv(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(ctx, tv(e->a), tv(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(ctx, tv(e->a), tv(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(ctx, tv(e->a), tv(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(ctx, tv(e->a), tv(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(ctx, tv(e->a), tv(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(ctx, tv(e->a), tv(e->b)); break;
    case K_AND: r = Z3_mk_bvand(ctx, tv(e->a), tv(e->b)); break;
    case K_OR: r = Z3_mk_bvor(ctx, tv(e->a), tv(e->b)); break;
    case K_XOR: r = Z3_mk_bvxor(ctx, tv(e->a), tv(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(ctx, tv(e->a), tv(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(ctx, tv(e->a), tv(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(ctx, tv(e->a), tv(e->b)); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, tv(e->a), tv(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->width - 1, e->lo, tv(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->width - e->a->width, tv(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, e->width - e->a->width, tv(e->a)); break;
    case K_ITE: r = Z3_mk_ite(ctx, tb(e->a), tv(e->b), tv(e->d)); break;
    default: abort();
    }
    keep(r); e->z3 = r; return r;
  }
  // 1 sat, 0 unsat, -1 unknown.  model (if sat) is updated for the variables in the slice.
  int check(const std::vector<Expr *> &pc, Expr *q, std::vector<uint8_t> *model) {
    g_st.queries++;
    if (isC(q)) { if (!q->c) return 0; return 1; }
    VarSet vs = q->vars;
    std::vector<char> in(pc.size(), 0);
    bool ch = true; size_t cnt = 0;
    while (ch) { ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!in[i] && pc[i]->vars.intersects(vs)) { in[i] = 1; cnt++; if (!pc[i]->vars.subsetOf(vs)) { vs.unite(pc[i]->vars); ch = true; } }
    }
    std::vector<uint32_t> key; key.reserve(cnt + 1);
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) key.push_back(pc[i]->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(q->id);
    auto it = cache.find(key);
    if (it == cache.end()) {
      double t0 = nowS();
      g_st.z3calls++;
      Z3_solver_push(ctx, s);
      for (size_t i = 0; i < pc.size(); i++) if (in[i]) Z3_solver_assert(ctx, s, tb(pc[i]));
      Z3_solver_assert(ctx, s, tb(q));
      Z3_lbool r = Z3_solver_check(ctx, s);
      Res res; res.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
      if (r == Z3_L_TRUE) {
        g_st.sat++;
        Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
        for (unsigned i = 0; i < MAXVARS; i++) if (vs.test(i)) {
          Z3_ast o = 0; uint64_t v = 0;
          if (Z3_model_eval(ctx, m, var(i), true, &o) && o) { Z3_inc_ref(ctx, o); if (!Z3_get_numeral_uint64(ctx, o, &v)) v = 0; Z3_dec_ref(ctx, o); }
          res.m.push_back({i, (uint8_t)v});
        }
        Z3_model_dec_ref(ctx, m);
      } else if (r == Z3_L_FALSE) g_st.unsat++; else g_st.unknown++;
      if (!dumpdir.empty() && dumpn < dumpmax && r != Z3_L_UNDEF && (g_st.z3calls % 7) == 1) {
        char fn[512]; snprintf(fn, sizeof fn, "%s/q%d_%u.smt2", dumpdir.c_str(), (int)getpid(), dumpn++);
        FILE *f = fopen(fn, "w");
        if (f) { fprintf(f, "; expected %s\n(set-logic QF_BV)\n%s(check-sat)\n", r == Z3_L_TRUE ? "sat" : "unsat", Z3_solver_to_string(ctx, s)); fclose(f); }
      }
      Z3_solver_pop(ctx, s, 1);
      g_st.solver_s += nowS() - t0;
      it = cache.emplace(std::move(key), std::move(res)).first;
    } else g_st.cached++;
    const Res &res = it->second;
    if (res.r == 1 && model) for (auto &p : res.m) { if (model->size() <= p.first) model->resize(p.first + 1, 0); (*model)[p.first] = p.second; }
    return res.r;
  }
};
