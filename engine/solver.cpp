#include "solver.h"
#include "shared.h"
#include <z3.h>
#include <time.h>
#include <unordered_map>
extern Shared* SH;
void bumpModel();
static Z3_context ctx; static Z3_solver slv; static Z3_sort bvs[129];
static std::vector<Z3_ast> low;           // per node
static std::vector<Z3_ast> varAst;
static std::vector<E> pc; static size_t asserted = 0;
static std::unordered_map<E, bool> known;
static unsigned RL = 0;

static void z3err(Z3_context c, Z3_error_code e) { fatal("z3 error: %s", Z3_get_error_msg(c, e)); }
void solverInit(unsigned rlimit, const char*) {
  RL = rlimit;
  Z3_global_param_set("memory_max_size", "6000");
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, z3err);
  slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
  Z3_solver_set_params(ctx, slv, p);
}
static Z3_sort bv(int w) { if (!bvs[w]) bvs[w] = Z3_mk_bv_sort(ctx, w); return bvs[w]; }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1))); }
static std::vector<int> pendingDefs;
static Z3_ast lower(E e) {
  if (low.size() <= e) low.resize(N.size() + 1024, nullptr);
  if (low[e]) return low[e];
  const Node n = N[e]; Z3_ast r;
  switch (n.op) {
    case X_CONST:
      if (n.w <= 64) r = Z3_mk_unsigned_int64(ctx, n.lo, bv(n.w));
      else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, n.hi, bv(n.w - 64)), Z3_mk_unsigned_int64(ctx, n.lo, bv(64)));
      break;
    case X_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%u", n.a - 1); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bv(n.w));
      if (varAst.size() < n.a) varAst.resize(n.a, nullptr); varAst[n.a - 1] = r; Z3_inc_ref(ctx, r); if (n.dg) { int g = decGroupOfVar(n.a - 1); if (g >= 0 && !decGroups[g].used) { decGroups[g].used = true; pendingDefs.push_back(g); } } break; }
    case X_ITE: { Z3_ast c = lower(n.a), x = lower(n.b), y = lower(n.c); r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, c, Z3_mk_unsigned_int64(ctx, 1, bv(1))), x, y); break; }
    case X_CONCAT: { Z3_ast x = lower(n.a), y = lower(n.b); r = Z3_mk_concat(ctx, x, y); break; }
    case X_EXTRACT: r = Z3_mk_extract(ctx, n.x + n.w - 1, n.x, lower(n.a)); break;
    case X_ZEXT: r = Z3_mk_zero_ext(ctx, n.w - N[n.a].w, lower(n.a)); break;
    case X_SEXT: r = Z3_mk_sign_ext(ctx, n.w - N[n.a].w, lower(n.a)); break;
    default: {
      Z3_ast x = lower(n.a), y = lower(n.b);
      switch (n.op) {
        case X_ADD: r = Z3_mk_bvadd(ctx, x, y); break;
        case X_SUB: r = Z3_mk_bvsub(ctx, x, y); break;
        case X_MUL: r = Z3_mk_bvmul(ctx, x, y); break;
        case X_UDIV: r = Z3_mk_bvudiv(ctx, x, y); break;
        case X_SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break;
        case X_UREM: r = Z3_mk_bvurem(ctx, x, y); break;
        case X_SREM: r = Z3_mk_bvsrem(ctx, x, y); break;
        case X_AND: r = Z3_mk_bvand(ctx, x, y); break;
        case X_OR: r = Z3_mk_bvor(ctx, x, y); break;
        case X_XOR: r = Z3_mk_bvxor(ctx, x, y); break;
        case X_SHL: r = Z3_mk_bvshl(ctx, x, y); break;
        case X_LSHR: r = Z3_mk_bvlshr(ctx, x, y); break;
        case X_ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
        case X_EQ: r = b2v(Z3_mk_eq(ctx, x, y)); break;
        case X_ULT: r = b2v(Z3_mk_bvult(ctx, x, y)); break;
        case X_ULE: r = b2v(Z3_mk_bvule(ctx, x, y)); break;
        case X_SLT: r = b2v(Z3_mk_bvslt(ctx, x, y)); break;
        case X_SLE: r = b2v(Z3_mk_bvsle(ctx, x, y)); break;
        default: fatal("lower op %d", n.op);
      }
    }
  }
  Z3_inc_ref(ctx, r);
  if (low.size() <= e) low.resize(N.size() + 1024, nullptr);
  low[e] = r; return r;
}
static Z3_ast lowBool(E c) {
  const Node& n = N[c];
  // avoid the bit-vector detour at the top level
  if (n.op == X_EQ) return Z3_mk_eq(ctx, lower(n.a), lower(n.b));
  if (n.op == X_ULT) { E a = n.a, b = n.b; return Z3_mk_bvult(ctx, lower(a), lower(b)); }
  if (n.op == X_XOR && n.w == 1 && isC(n.b)) { E a = n.a; return Z3_mk_not(ctx, lowBool(a)); }
  return Z3_mk_eq(ctx, lower(c), Z3_mk_unsigned_int64(ctx, 1, bv(1)));
}
static void flush() {
  for (; asserted < pc.size(); asserted++) Z3_solver_assert(ctx, slv, lowBool(pc[asserted]));
}
static void flushDefs() { while (!pendingDefs.empty()) { int g = pendingDefs.back(); pendingDefs.pop_back(); Z3_solver_assert(ctx, slv, lowBool(decGroups[g].def)); for (uint32_t k : decGroups[g].dv) Z3_solver_assert(ctx, slv, Z3_mk_bvult(ctx, lower(vars[k].e), Z3_mk_unsigned_int64(ctx, 10, bv(4)))); } }
static uint64_t nowus() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }

int z3Sat(E c, std::vector<uint8_t>* m) {
  if (isC(c) && !N[c].lo) return 0;
  flush();
  uint64_t t0 = nowus();
  Z3_lbool r;
  if (isC(c)) { flushDefs(); r = Z3_solver_check(ctx, slv); }
  else {
    // an assumption must be a literal: introduce a fresh boolean p => c
    static unsigned fresh = 0; char nm[32]; snprintf(nm, sizeof nm, "a%u", fresh++);
    Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bool_sort(ctx)); Z3_inc_ref(ctx, p);
    Z3_ast imp = Z3_mk_implies(ctx, p, lowBool(c));
    Z3_solver_assert(ctx, slv, imp); flushDefs();
    Z3_ast as[1] = {p};
    r = Z3_solver_check_assumptions(ctx, slv, 1, as);
  }
  uint64_t dt = nowus() - t0;
  __sync_fetch_and_add(&SH->queries, 1); __sync_fetch_and_add(&SH->solver_us, dt);
  if (dt > SH->max_query_us) SH->max_query_us = dt;
  if (r == Z3_L_TRUE) {
    __sync_fetch_and_add(&SH->q_sat, 1);
    if (m) {
      *m = model;
      Z3_model z = Z3_solver_get_model(ctx, slv); Z3_model_inc_ref(ctx, z);
      for (size_t i = 0; i < varAst.size(); i++) if (varAst[i]) {
        Z3_ast v; if (!Z3_model_eval(ctx, z, varAst[i], false, &v)) fatal("model eval");
        uint64_t u; if (Z3_get_ast_kind(ctx, v) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(ctx, v, &u)) (*m)[i] = (uint8_t)u;
        else if (i < m->size()) (*m)[i] = model[i];
      }
      Z3_model_dec_ref(ctx, z); static bool dbg = getenv("SYMX_PC"); std::vector<uint8_t> m0; if (dbg) m0 = *m; fixDigits(*m);
      if (dbg && m0 != *m) { fprintf(stderr, "z3 model disagrees with digit definitions: c=%s\n", exprStr(c, 8).c_str()); for (size_t i = 0; i < vars.size(); i++) fprintf(stderr, "%s=%d/%d/%d ", vars[i].name.c_str(), m0[i], (*m)[i], (int)(varAst.size() > i && varAst[i])); for (auto& g : decGroups) fprintf(stderr, "\n def %d %s", (int)g.used, exprStr(g.def, 12).c_str()); fprintf(stderr, "\n"); }
    }
    return 1;
  }
  if (r == Z3_L_FALSE) { __sync_fetch_and_add(&SH->q_unsat, 1); return 0; }
  __sync_fetch_and_add(&SH->q_unknown, 1);
  return -1;
}
static void linkVars(E e, std::unordered_map<E, bool>& seen) {
  if (isC(e) || seen.count(e)) return;
  seen[e] = true; const Node n = N[e];
  if (n.op == X_VAR) { vars[n.a - 1].linked = true; return; }
  if (n.sup != SUP_MULTI && n.sup != SUP_NONE) { vars[n.sup - 1].linked = true; return; }
  if (n.a) linkVars(n.a, seen); if (n.b) linkVars(n.b, seen); if (n.c) linkVars(n.c, seen);
}
static void note(E c, bool v) {
  known[c] = v;
  const Node n = N[c];
  if (n.op == X_XOR && n.w == 1 && isC(n.b)) note(n.a, !v);
  else if (v && n.op == X_AND && n.w == 1) { note(n.a, true); note(n.b, true); }
  else if (!v && n.op == X_OR && n.w == 1) { note(n.a, false); note(n.b, false); }
}
void markLinked(E e) { std::unordered_map<E, bool> seen; linkVars(e, seen); }
void pcAssume(E c) {
  if (isC(c)) { if (!N[c].lo) fatal("pcAssume(false)"); return; }
  const Node n = N[c];
  auto it = known.find(c); if (it != known.end() && it->second) return;
  if (n.op == X_AND && n.w == 1 && n.sup == SUP_MULTI) { pcAssume(n.a); pcAssume(n.b); known[c] = true; return; }
  if (n.op == X_XOR && n.w == 1 && isC(n.b)) {
    const Node k = N[n.a];
    if (k.op == X_OR && k.sup == SUP_MULTI) { pcAssume(mkNot1(k.a)); pcAssume(mkNot1(k.b)); known[c] = true; known[n.a] = false; return; }
  }
  note(c, true);
  pc.push_back(c);
  uint64_t* t;
  if (n.sup != SUP_MULTI && n.sup && (t = truthTable(c))) {
    Var& v = vars[n.sup - 1];
    for (int i = 0; i < 256; i++) if (!t[i]) v.dom[i >> 6] &= ~(1ull << (i & 63));
    if (decGroups.empty() && v.w == 8 && !(v.dom[0] & ~(0x3ffull << 48)) && !v.dom[1] && !v.dom[2] && !v.dom[3]) N[v.e].dg = 1;  // an ASCII digit
  } else { std::unordered_map<E, bool> seen; linkVars(c, seen); }
}
size_t pcSize() { return pc.size(); }
void setModel(const std::vector<uint8_t>& m) { model = m; bumpModel(); }
bool pcHolds() { for (E c : pc) if (!evalM(c)) { if (getenv("SYMX_PC")) { fprintf(stderr, "PC false: %s\n", exprStr(c, 12).c_str()); for (size_t i = 0; i < vars.size(); i++) fprintf(stderr, "%s=%d ", vars[i].name.c_str(), model[i]); fprintf(stderr, "\n"); } return false; } return true; }

Tri decide(E c, std::vector<uint8_t>* other) {
  if (isC(c)) return N[c].lo ? T_TRUE : T_FALSE;
  auto it = known.find(c);
  if (it != known.end()) return it->second ? T_TRUE : T_FALSE;
  const Node n = N[c];
  uint64_t* t;
  if (n.sup != SUP_MULTI && (t = truthTable(c))) {
    Var& v = vars[n.sup - 1]; bool can0 = false, can1 = false; int w0 = -1, w1 = -1;
    int cnt = 1 << v.w;
    for (int i = 0; i < cnt; i++) if (v.dom[i >> 6] >> (i & 63) & 1) { if (t[i]) { can1 = true; if (w1 < 0) w1 = i; } else { can0 = true; if (w0 < 0) w0 = i; } }
    __sync_fetch_and_add(&SH->dom_queries, 1);
    if (!can0) return T_TRUE;
    if (!can1) return T_FALSE;
    if (!v.linked) {
      bool cur = t[model[n.sup - 1]];
      if (other) { *other = model; (*other)[n.sup - 1] = cur ? w0 : w1; fixDigits(*other); }
      return T_BOTH;
    }
  }
  bool cur = evalM(c) != 0;
  std::vector<uint8_t> m;
  int r = z3Sat(cur ? mkNot1(c) : c, other ? other : &m);
  if (r < 0) return T_UNKNOWN;
  if (r == 1) return T_BOTH;
  return cur ? T_TRUE : T_FALSE;
}
