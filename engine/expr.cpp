#include "expr.h"
#include <map>
std::vector<Node> N;
std::vector<Var> vars;
std::vector<uint8_t> model;
static std::vector<uint32_t> htab;  // open addressing
static uint32_t hmask = 0;

static inline uint64_t hmix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29; return h; }
static uint64_t hnode(const Node& n) {
  uint64_t h = n.op | (uint64_t)n.w << 8 | (uint64_t)n.x << 16 | (uint64_t)n.a << 32;
  h = hmix(h) ^ ((uint64_t)n.b | (uint64_t)n.c << 32);
  h = hmix(h) ^ n.lo; h = hmix(h) ^ n.hi * 0x9E3779B97F4A7C15ULL;
  return hmix(h);
}
static bool same(const Node& p, const Node& q) { return p.op == q.op && p.w == q.w && p.x == q.x && p.a == q.a && p.b == q.b && p.c == q.c && p.lo == q.lo && p.hi == q.hi; }
static void grow() {
  size_t n = htab.empty() ? 1 << 14 : htab.size() * 2;
  htab.assign(n, 0); hmask = n - 1;
  for (uint32_t i = 1; i < N.size(); i++) { uint64_t h = hnode(N[i]) & hmask; while (htab[h]) h = (h + 1) & hmask; htab[h] = i; }
}
static E intern(Node n) {
  if (N.empty()) { Node z; memset(&z, 0, sizeof z); N.push_back(z); }
  if (htab.size() < 2 * (N.size() + 2)) grow();
  uint64_t h = hnode(n) & hmask;
  while (htab[h]) { if (same(N[htab[h]], n)) return htab[h]; h = (h + 1) & hmask; }
  E id = N.size(); N.push_back(n); htab[h] = id; return id;
}
static E canonTable(E e);
static std::unordered_map<E, E> canonOf;
static uint32_t supJoin(uint32_t a, uint32_t b) { if (!a) return b; if (!b || a == b) return a; return SUP_MULTI; }
static E node(int op, int w, E a, E b = 0, E c = 0, int x = 0) {
  Node n; memset(&n, 0, sizeof n); n.op = op; n.w = w; n.x = x; n.a = a; n.b = b; n.c = c;
  uint32_t s = N[a].sup; if (b) s = supJoin(s, N[b].sup); if (c) s = supJoin(s, N[c].sup);
  if (w > 64) { /* still fine: single-support tables only kept for <=64 bits */ }
  n.sup = s; n.dg = N[a].dg | (b ? N[b].dg : 0) | (c ? N[c].dg : 0);
  size_t before = N.size(); E r = intern(n);
  if (N.size() != before && s && s != SUP_MULTI && w <= 16 && op != X_VAR && op != X_ZEXT && op != X_EXTRACT && op != X_CONCAT) return canonTable(r);
  if (N.size() == before && s && s != SUP_MULTI && w <= 16 && !canonOf.empty()) { auto it = canonOf.find(r); if (it != canonOf.end()) return it->second; }
  return r;
}
E mkC(u128 v, int w) {
  v &= maskw(w);
  Node n; memset(&n, 0, sizeof n); n.op = X_CONST; n.w = w; n.lo = (uint64_t)v; n.hi = (uint64_t)(v >> 64);
  return intern(n);
}
E E_true() { static E t = mkC(1, 1); return t; }
E E_false() { static E t = mkC(0, 1); return t; }
E mkVar(int w, const std::string& name) {
  Node n; memset(&n, 0, sizeof n); n.op = X_VAR; n.w = w; n.a = vars.size() + 1; n.sup = vars.size() + 1;
  E e = intern(n);
  Var v; v.w = w; v.e = e; v.name = name; v.linked = false;
  for (int i = 0; i < 4; i++) v.dom[i] = 0;
  for (int i = 0; i < (1 << w); i++) v.dom[i >> 6] |= 1ull << (i & 63);
  vars.push_back(v); model.push_back(0); return e;
}
u128 foldBin(int op, u128 a, u128 b, int w, bool* ok) {
  *ok = true; u128 m = maskw(w);
  switch (op) {
    case X_ADD: return (a + b) & m;
    case X_SUB: return (a - b) & m;
    case X_MUL: return (a * b) & m;
    case X_UDIV: if (!b) return m; return a / b;
    case X_UREM: if (!b) return a; return a % b;
    case X_SDIV: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
    case X_SREM: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case X_AND: return a & b;
    case X_OR: return a | b;
    case X_XOR: return a ^ b;
    case X_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case X_LSHR: return b >= (u128)w ? 0 : a >> (int)b;
    case X_ASHR: { i128 x = sext128(a, w); return (u128)(b >= (u128)w ? (x < 0 ? -1 : 0) : x >> (int)b) & m; }
    case X_EQ: return a == b;
    case X_ULT: return a < b;
    case X_ULE: return a <= b;
    case X_SLT: return sext128(a, w) < sext128(b, w);
    case X_SLE: return sext128(a, w) <= sext128(b, w);
  }
  *ok = false; return 0;
}
static inline bool isNot(E e) { return N[e].op == X_XOR && N[e].w == 1 && isC(N[e].b); }
static inline bool isZero(E e) { return isC(e) && !N[e].lo && !N[e].hi; }
static inline bool isOnes(E e) { return isC(e) && cval(e) == maskw(N[e].w); }

struct Lin { i128 c = 0; std::map<E, i128> t; };
static void lin(E e, Lin& L); static E lbuild(Lin L, int w); static void lrange(const Lin& L, i128& mn, i128& mx);
void bumpModel();
E mkZext(E a, int w) {
  if (N[a].w == w) return a;
  if (isC(a)) return mkC(cval(a), w);
  if (N[a].op == X_ZEXT) return mkZext(N[a].a, w);
  if (N[a].dg && w <= 64 && (N[a].op == X_ADD || N[a].op == X_MUL || N[a].op == X_CONCAT)) { Lin L; lin(a, L); E r = L.t.size() == 1 && L.t.begin()->first == a ? 0 : lbuild(L, w); if (r) return r; }
  return node(X_ZEXT, w, a);
}
E mkSext(E a, int w) {
  int wa = N[a].w;
  if (wa == w) return a;
  if (isC(a)) return mkC((u128)sext128(cval(a), wa), w);
  if (N[a].op == X_ZEXT) return mkZext(N[a].a, w);
  if (N[a].op == X_SEXT) return mkSext(N[a].a, w);
  if (wa == 1) return mkIte(a, mkC(~(u128)0, w), mkC(0, w));
  return node(X_SEXT, w, a);
}
static E tryMerge(E hi, E lo) {  // 0 if not mergeable into something simpler than CONCAT
  const Node h = N[hi], l = N[lo];
  if (h.op == X_CONST && l.op == X_CONST) return mkC((cval(hi) << l.w) | cval(lo), h.w + l.w);
  if (isZero(hi)) return mkZext(lo, h.w + l.w);
  if (h.op == X_EXTRACT) {
    if (l.op == X_EXTRACT && l.a == h.a && l.x + l.w == h.x) return mkExtract(h.a, l.x, h.w + l.w);
    if (h.x == l.w && l.op != X_EXTRACT && (N[h.a].op == X_ADD || N[h.a].op == X_SUB || N[h.a].op == X_MUL) && mkExtract(h.a, 0, l.w) == lo) return mkExtract(h.a, 0, h.w + l.w);
    if (l.op != X_EXTRACT && h.a == lo && h.x == l.w) return mkExtract(h.a, 0, h.w + l.w);
  }
  if (h.op == X_ITE && l.op == X_ITE && h.a == l.a && isC(h.b) && isC(h.c) && isC(l.b) && isC(l.c)) return mkIte(h.a, mkConcat(h.b, l.b), mkConcat(h.c, l.c));
  return 0;
}
E mkConcat(E hi, E lo) {
  E m = tryMerge(hi, lo);
  if (m) return m;
  if (N[lo].op == X_CONCAT) {
    E p = N[lo].a, q = N[lo].b;
    E m2 = tryMerge(hi, p);
    if (m2) return mkConcat(m2, q);
  }
  if (N[hi].op == X_ZEXT) {  // concat(zext(x), lo) -> zext(concat(x, lo))
    int w = N[hi].w + N[lo].w;
    return mkZext(mkConcat(N[hi].a, lo), w);
  }
  if (N[hi].op == X_CONCAT) {  // right-associate
    E p = N[hi].a, q = N[hi].b;
    return mkConcat(p, mkConcat(q, lo));
  }
  return node(X_CONCAT, N[hi].w + N[lo].w, hi, lo);
}
E mkExtract(E a, int lo, int w) {
  Node n = N[a];
  if (lo == 0 && w == n.w) return a;
  if (n.dg && n.w <= 64 && (n.op == X_ADD || n.op == X_MUL)) { Lin L; lin(a, L); i128 mn, mx; lrange(L, mn, mx); if (lo && mx < ((i128)1 << lo)) return mkC(0, w); if (!lo && mx <= (i128)maskw(w)) { E r = lbuild(L, w); if (r) return r; } }
  switch (n.op) {
    case X_CONST: return mkC(cval(a) >> lo, w);
    case X_EXTRACT: return mkExtract(n.a, n.x + lo, w);
    case X_CONCAT: {
      int lw = N[n.b].w;
      if (lo >= lw) return mkExtract(n.a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(n.b, lo, w);
      return mkConcat(mkExtract(n.a, 0, lo + w - lw), mkExtract(n.b, lo, lw - lo));
    }
    case X_ZEXT: {
      int iw = N[n.a].w;
      if (lo >= iw) return mkC(0, w);
      if (lo + w <= iw) return mkExtract(n.a, lo, w);
      return mkZext(mkExtract(n.a, lo, iw - lo), w);
    }
    case X_SEXT: {
      int iw = N[n.a].w;
      if (lo + w <= iw) return mkExtract(n.a, lo, w);
      if (lo < iw) return mkSext(mkExtract(n.a, lo, iw - lo), w);
      return mkSext(mkExtract(n.a, iw - 1, 1), w);
    }
    case X_ITE:
      return mkIte(n.a, mkExtract(n.b, lo, w), mkExtract(n.c, lo, w));
    case X_AND: case X_OR: case X_XOR:
      return mkBin(n.op, mkExtract(n.a, lo, w), mkExtract(n.b, lo, w));
    case X_ADD: case X_SUB: case X_MUL:
      if (lo == 0 && !n.dg) return mkBin(n.op, mkExtract(n.a, 0, w), mkExtract(n.b, 0, w));
      break;
  }
  return node(X_EXTRACT, w, a, 0, 0, lo);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return N[c].lo ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(N[c].a, b, a);
  int w = N[a].w;
  if (w != N[b].w) fatal("ite width mismatch %d %d", w, N[b].w);
  if (w == 1) {
    if (isC(a)) return N[a].lo ? mkOr(c, b) : mkAnd(mkNot1(c), b);
    if (isC(b)) return N[b].lo ? mkOr(mkNot1(c), a) : mkAnd(c, a);
  }
  if (N[a].op == X_ITE && N[a].a == c) a = N[a].b;
  if (N[b].op == X_ITE && N[b].a == c) b = N[b].c;
  if (a == b) return a;
  if (N[b].op == X_ITE && N[b].b == a) return mkIte(mkOr(c, N[b].a), a, N[b].c);
  return node(X_ITE, w, c, a, b);
}
static bool lowZeros(E e, int k) {  // low k bits constant zero?
  const Node& n = N[e];
  if (n.op == X_CONST) return (cval(e) & maskw(k)) == 0;
  if (n.op == X_CONCAT) { int lw = N[n.b].w; return lw >= k ? lowZeros(n.b, k) : isZero(n.b) && lowZeros(n.a, k - lw); }
  if (n.op == X_ZEXT) { int iw = N[n.a].w; return lowZeros(n.a, k < iw ? k : iw); }
  return false;
}
static int activeBits(E e) { const Node& n = N[e]; if (n.op == X_ZEXT) return activeBits(n.a); if (n.op == X_CONST) { u128 v = cval(e); int k = 0; while (v) { k++; v >>= 1; } return k; } return n.w; }


// ---- decimal digit groups and exact linear forms over them
std::vector<DecGroup> decGroups; static std::unordered_map<E, int> grpByKey; static std::unordered_map<uint32_t, std::pair<int, int>> digOf;
static u128 p10(int k) { u128 p = 1; while (k-- > 0) p *= 10; return p; }
int decGroupOf(E v) { while (N[v].op == X_ZEXT) v = N[v].a; auto it = grpByKey.find(v); return it == grpByKey.end() ? -1 : it->second; }
int decGroupOfVar(uint32_t var) { auto it = digOf.find(var); return it == digOf.end() ? -1 : it->second.first; }
static E digE(const DecGroup& g, int i, int w) { return mkZext(vars[g.dv[i]].e, w); }
static E horner(const DecGroup& g, int from, int to, int w) {
  if (from >= to) return mkC(0, w);
  E acc = digE(g, from, w); for (int i = from + 1; i < to; i++) acc = mkBin(X_ADD, mkBin(X_MUL, acc, mkC(10, w)), digE(g, i, w));
  return acc;
}
int newDecGroup(E key, const std::vector<int>& cur) {
  while (N[key].op == X_ZEXT) key = N[key].a;
  DecGroup g; g.key = key; g.used = false; int n = cur.size(), gi = decGroups.size();
  for (int i = 0; i < n; i++) {
    E x = mkVar(4, "dec" + std::to_string(vars.size())); uint32_t k = vars.size() - 1; N[x].dg = 1; model[k] = cur[i]; vars[k].linked = true;
    uint64_t lo = 0x3ff; if (n > 1 && i == 0) lo = 0x3fe; vars[k].dom[0] = lo; g.dv.push_back(k); digOf[k] = {gi, i};
  }
  // definition, built raw before the group is registered (otherwise it would simplify to true)
  int w = N[key].w + 4; E acc = node(X_ZEXT, w, vars[g.dv[0]].e);
  for (int i = 1; i < n; i++) acc = node(X_ADD, w, node(X_MUL, w, acc, mkC(10, w)), node(X_ZEXT, w, vars[g.dv[i]].e));
  E d = node(X_EQ, 1, acc, node(X_ZEXT, w, key));
  // (that each digit is below 10 is asserted with the definition, see flushDefs)
  g.def = d; decGroups.push_back(g); grpByKey[key] = gi; bumpModel(); return gi;
}
void fixDigits(std::vector<uint8_t>& m) {
  if (decGroups.empty()) return;
  std::vector<uint8_t> save; save.swap(model); model = m; bumpModel();
  for (auto& g : decGroups) { u128 v = evalM(g.key); for (int i = (int)g.dv.size() - 1; i >= 0; i--) { model[g.dv[i]] = (uint8_t)(v % 10); v /= 10; } if (v) fatal("digit count of a decimal changed under a model"); bumpModel(); }
  m = model; model = save; bumpModel();
}
static const i128 LIM = (i128)1 << 118;
static bool ladd(Lin& a, const Lin& b, i128 k) {
  auto acc = [&](i128& r, i128 x) { i128 m; if (__builtin_mul_overflow(x, k, &m) || __builtin_add_overflow(r, m, &r)) return false; return r <= LIM && r >= -LIM; };
  if (!acc(a.c, b.c)) return false;
  for (auto& p : b.t) { i128& r = a.t[p.first]; if (!acc(r, p.second)) return false; if (!r) a.t.erase(p.first); }
  return a.t.size() <= 96;
}
static void lrange(const Lin& L, i128& mn, i128& mx) {
  mn = mx = L.c; std::map<int, std::vector<std::pair<int, i128>>> gs;
  for (auto& p : L.t) {
    const Node& n = N[p.first];
    if (n.op == X_VAR) { auto it = digOf.find(n.a - 1); if (it != digOf.end()) { gs[it->second.first].push_back({it->second.second, p.second}); continue; } }
    if (n.op == X_VAR) { const Var& v = vars[n.a - 1]; int lo = -1, hi = -1; for (int i = 0; i < (1 << v.w); i++) if (v.dom[i >> 6] >> (i & 63) & 1) { if (lo < 0) lo = i; hi = i; } if (lo >= 0) { mx += p.second * (p.second > 0 ? hi : lo); mn += p.second * (p.second > 0 ? lo : hi); continue; } }
    i128 m = n.w >= 100 ? LIM : (i128)maskw(n.w), t; if (__builtin_mul_overflow(p.second, m, &t) || t > LIM || t < -LIM) { mn = -((i128)1 << 126); mx = (i128)1 << 126; return; } if (p.second > 0) mx += t; else mn += t;
  }
  for (auto& g : gs) {
    const DecGroup& G = decGroups[g.first]; int n = G.dv.size(); bool same = true; i128 r = 0, hi = 0, lo = 0;
    // coefficients that follow a prefix of the number: c * (the first L+1 digits), bounded through the key's own maximum
    int L = -1; for (auto& q : g.second) { if (q.first > L) { L = q.first; r = q.second; } (q.second > 0 ? hi : lo) += q.second * 9; }
    for (auto& q : g.second) { i128 f = (i128)p10(L - q.first); if (q.second % f || q.second / f != r) same = false; }
    i128 b; if (same && N[G.key].w <= 64 && !__builtin_mul_overflow(r, (i128)(maskw(N[G.key].w) / p10(n - 1 - L)), &b)) { if (r > 0 && b < hi) hi = b; if (r < 0 && b > lo) lo = b; }
    mx += hi; mn += lo;
  }
}
static bool fits(const Lin& L, int w) { i128 mn, mx; lrange(L, mn, mx); return mn >= 0 && (w >= 100 || mx <= (i128)maskw(w)); }
static void lin(E e, Lin& L) {  // exact integer value of e as a linear form
  const Node n = N[e];
  if (n.w <= 68) switch (n.op) {
    case X_CONST: L.c = (i128)cval(e); return;
    case X_ZEXT: lin(n.a, L); return;
    case X_VAR: break;
    case X_ADD: case X_SUB: if (n.dg || decGroupOf(n.a) >= 0 || decGroupOf(n.b) >= 0) {
      Lin a, b; lin(n.a, a); if (n.op == X_ADD && isC(n.b)) b.c = sext128(cval(n.b), n.w); else lin(n.b, b);
      Lin r = a; if (ladd(r, b, n.op == X_ADD ? 1 : -1) && fits(r, n.w)) { L = r; return; }
      break; }
      break;
    case X_MUL: if (isC(n.b) && N[n.b].hi == 0 && (n.dg || decGroupOf(n.a) >= 0)) { Lin a, r; lin(n.a, a); if (ladd(r, a, (i128)cval(n.b)) && fits(r, n.w)) { L = r; return; } } break;
    case X_CONCAT: if (n.dg && N[n.b].w < 40) { Lin a, b, r; lin(n.a, a); lin(n.b, b); if (ladd(r, a, (i128)1 << N[n.b].w) && ladd(r, b, 1)) { L = r; return; } } break;
  }
  auto it = grpByKey.find(e);
  if (it != grpByKey.end()) { const DecGroup& g = decGroups[it->second]; int k = g.dv.size(); for (int i = 0; i < k; i++) L.t[vars[g.dv[i]].e] = (i128)p10(k - 1 - i); return; }
  L.t[e] = 1;
}
static E lbuild(Lin L, int w) {  // 0 if not expressible
  for (auto& p : L.t) if (N[p.first].w > w) return 0;
  std::map<int, std::vector<std::pair<int, i128>>> gs;
  for (auto& p : L.t) { const Node& n = N[p.first]; if (n.op == X_VAR) { auto it = digOf.find(n.a - 1); if (it != digOf.end()) gs[it->second.first].push_back({it->second.second, p.second}); } }
  for (auto& g : gs) {
    const DecGroup& G = decGroups[g.first]; int n = G.dv.size(); if ((int)g.second.size() != n || N[G.key].w > w) continue; bool same = true; i128 r = 0;
    for (auto& q : g.second) { i128 wgt = (i128)p10(n - 1 - q.first); if (q.second % wgt) same = false; else { i128 k = q.second / wgt; if (!r) r = k; if (k != r) same = false; } }
    if (same) { for (int i = 0; i < n; i++) L.t.erase(vars[G.dv[i]].e); L.t[G.key] += r; if (!L.t[G.key]) L.t.erase(G.key); }
  }
  bool dig = false; for (auto& p : L.t) if (N[p.first].dg) dig = true;
  E acc = 0;
  for (auto& p : L.t) {
    E at = p.first, x = N[at].w == w ? at : N[at].op == X_ZEXT ? mkZext(N[at].a, w) : node(X_ZEXT, w, at); u128 k = (u128)p.second & maskw(w); if (k != 1) x = dig ? node(X_MUL, w, x, mkC(k, w)) : mkBin(X_MUL, x, mkC(k, w));
    acc = !acc ? x : dig ? node(X_ADD, w, acc, x) : mkBin(X_ADD, acc, x);
  }
  if (!acc) return mkC((u128)L.c, w);
  if (((u128)L.c & maskw(w)) != 0) acc = dig ? node(X_ADD, w, acc, mkC((u128)L.c, w)) : mkBin(X_ADD, acc, mkC((u128)L.c, w));
  return acc;
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static E linRule(int op, E a, E b, int w) {  // 0: no rule
  if (w > 64) return 0;
  Lin x, y; lin(a, x);
  if (op == X_ADD && isC(b)) y.c = sext128(cval(b), w); else lin(b, y);
  switch (op) {
    case X_ADD: case X_SUB: { Lin r = x; if (!ladd(r, y, op == X_ADD ? 1 : -1) || !fits(r, w)) return 0; return lbuild(r, w); }
    case X_MUL: { if (!isC(b) || cval(b) > maskw(64)) return 0; Lin r; if (!ladd(r, x, (i128)cval(b)) || !fits(r, w)) return 0; return lbuild(r, w); }
    case X_ULT: case X_EQ: {
      Lin d = x; if (!ladd(d, y, -1)) return 0; i128 mn, mx; lrange(d, mn, mx);
      if (op == X_ULT) { if (mn >= 0) return mkC(0, 1); if (mx < 0) return mkC(1, 1); }
      else { if (d.t.empty()) return mkC(d.c == 0, 1); if (mn > 0 || mx < 0) return mkC(0, 1); }
      if (d.t.size() == 1 && N[d.t.begin()->first].op == X_VAR) {
        E v = d.t.begin()->first; i128 k = d.t.begin()->second, c = d.c; int vw = N[v].w; i128 top = (i128)1 << vw;
        if (op == X_EQ) { if (c % k) return mkC(0, 1); i128 q = -c / k; if (q < 0 || q >= top) return mkC(0, 1); return node(X_EQ, 1, v, mkC((u128)q, vw)); }
        // c + k*v < 0
        if (k > 0) { i128 q = fdiv(-c - 1, k); /* v <= q */ if (q < 0) return mkC(0, 1); if (q + 1 >= top) return mkC(1, 1); return node(X_ULT, 1, v, mkC((u128)(q + 1), vw)); }
        i128 q = fdiv(c, -k); /* v > q */ if (q < 0) return mkC(1, 1); if (q + 1 >= top) return mkC(0, 1); return node(X_ULT, 1, mkC((u128)q, vw), v);
      }
      bool grp = false; for (auto& p : d.t) if (N[p.first].op == X_VAR ? digOf.count(N[p.first].a - 1) : !grpByKey.empty()) grp = true;
      if (op == X_ULT && !grp && grpByKey.empty()) {  // canonical form: positive terms < positive terms, at the smallest width both sides fit
        Lin P, Q; for (auto& p : d.t) (p.second > 0 ? P.t : Q.t)[p.first] = p.second > 0 ? p.second : -p.second; if (d.c > 0) P.c = d.c; else Q.c = -d.c;
        for (int ww : {8, 16, 32, 64}) if (fits(P, ww) && fits(Q, ww)) { E p = lbuild(P, ww), q = p ? lbuild(Q, ww) : 0; if (p && q) return node(X_ULT, 1, p, q); }
      }
      return 0; }
  }
  return 0;
}
static E decimalDiv(E a, u128 c, bool rem) {
  int w = N[a].w, gi = decGroupOf(a); if (gi < 0) return 0;
  const DecGroup g = decGroups[gi];
  int k = 0; u128 p = 1; while (p < c) { p *= 10; k++; }
  if (p != c || k == 0) return 0;
  int n = g.dv.size(); if (k >= n) return rem ? a : mkC(0, w);
  return rem ? horner(g, n - k, n, w) : horner(g, 0, n - k, w);
}

// modular sum as atoms with +1/-1 multiplicities; cancels x against -x across nested additions
static bool flat(E e, int sgn, std::map<E, int>& m, u128& c, int& n) {
  const Node& x = N[e];
  if (isC(e)) { c += sgn > 0 ? cval(e) : (u128)0 - cval(e); return true; }
  if (x.op == X_ADD) { E p = x.a, q = x.b; return flat(p, sgn, m, c, n) && flat(q, sgn, m, c, n); }
  if (x.op == X_SUB) { E p = x.a, q = x.b; return flat(p, sgn, m, c, n) && flat(q, -sgn, m, c, n); }
  m[e] += sgn; return ++n <= 8;
}
static E cancel(int op, E a, E b) {  // 0: nothing cancels
  int oa = N[a].op, ob = N[b].op; if (oa != X_ADD && oa != X_SUB && ob != X_ADD && ob != X_SUB) return 0;
  std::map<E, int> m; u128 c = 0; int n = 0, w = N[a].w;
  if (!flat(a, 1, m, c, n) || !flat(b, op == X_ADD ? 1 : -1, m, c, n)) return 0;
  int k = 0; for (auto& p : m) k += p.second < 0 ? -p.second : p.second;
  if (k == n) return 0;
  E r = 0; for (auto& p : m) for (int i = 0; i < p.second; i++) r = r ? mkBin(X_ADD, r, p.first) : p.first;
  if (!r && k) r = mkC(0, w);
  for (auto& p : m) for (int i = 0; i < -p.second; i++) r = mkBin(X_SUB, r, p.first);
  c &= maskw(w); if (!r) return mkC(c, w);
  return c ? mkBin(X_ADD, r, mkC(c, w)) : r;
}
E mkBin(int op, E a, E b) {
  int w = N[a].w;
  if (N[b].w != w) fatal("binop %d width mismatch %d %d", op, w, N[b].w);
  bool ca = isC(a), cb = isC(b);
  int rw = (op >= X_EQ && op <= X_SLE) ? 1 : w;
  if (ca && cb) { bool ok; u128 r = foldBin(op, cval(a), cval(b), w, &ok); if (ok) return mkC(r, rw); }
  // canonical: constant on the right for commutative ops
  if ((op == X_ADD || op == X_MUL || op == X_AND || op == X_OR || op == X_XOR || op == X_EQ)) {
    if (ca || (!cb && a > b)) { std::swap(a, b); std::swap(ca, cb); }
  }
  const Node na = N[a], nb = N[b];
  if (__builtin_expect(na.dg || nb.dg, 0) && w > 4) {
    if (op == X_SLT && !na.dg && isC(a) && sext128(cval(a), w) < 0) {} else if (op == X_ADD || op == X_SUB || op == X_MUL || op == X_ULT || op == X_EQ) {
      if (op == X_ULT && grpByKey.empty() && na.op == X_ADD && !isC(na.b) && (na.a == b || na.b == b)) return mkBin(X_ULT, mkBin(X_SUB, mkC(maskw(w), w), na.a == b ? na.b : na.a), b);  // x+y wraps
      E r = linRule(op, a, b, w); if (r) return r; }
  }
  if ((op == X_ADD || op == X_SUB) && !cb && !ca && w > 1) { E r = cancel(op, a, b); if (r) return r; }
  // both-arms-constant ite lifting
  if (cb && na.op == X_ITE && isC(na.b) && isC(na.c)) return mkIte(na.a, mkBin(op, na.b, b), mkBin(op, na.c, b));
  if (ca && nb.op == X_ITE && isC(nb.b) && isC(nb.c)) return mkIte(nb.a, mkBin(op, a, nb.b), mkBin(op, a, nb.c));
  switch (op) {
    case X_ADD:
      if (cb) {
        if (isZero(b)) return a;
        if (na.op == X_ADD && isC(na.b)) return mkBin(X_ADD, na.a, mkC(cval(na.b) + cval(b), w));
      }
      if (w == 1) return mkBin(X_XOR, a, b);
      if (na.op == X_SUB && na.b == b) return na.a;
      if (nb.op == X_SUB && nb.b == a) return nb.a;
      goto disjoint;
    case X_SUB:
      if (a == b) return mkC(0, w);
      if (cb) return mkBin(X_ADD, a, mkC((u128)0 - cval(b), w));
      if (na.op == X_ADD && na.a == b) return na.b;
      if (na.op == X_ADD && na.b == b) return na.a;
      break;
    case X_MUL:
      if (cb) {
        u128 v = cval(b);
        if (!v) return b;
        if (v == 1) return a;
        if (!(v & (v - 1))) { int k = 0; while (!((v >> k) & 1)) k++; return mkBin(X_SHL, a, mkC(k, w)); }
      }
      break;
    case X_UDIV: case X_UREM:
      if (cb) {
        u128 v = cval(b);
        if (v && !(v & (v - 1))) {
          int k = 0; while (!((v >> k) & 1)) k++;
          if (op == X_UDIV) return mkBin(X_LSHR, a, mkC(k, w));
          return k ? mkZext(mkExtract(a, 0, k), w) : mkC(0, w);
        }
        E d = decimalDiv(a, v, op == X_UREM);
        if (d) return d;
        if (na.op == X_ZEXT) { int iw = N[na.a].w; if (v <= maskw(iw)) return mkZext(mkBin(op, na.a, mkC(v, iw)), w); return op == X_UDIV ? mkC(0, w) : a; }
      }
      break;
    case X_AND:
      if (a == b) return a;
      if (cb) {
        if (isZero(b)) return b;
        if (isOnes(b)) return a;
        u128 v = cval(b);
        int l = 0; while (!((v >> l) & 1)) l++;
        u128 s = v >> l;
        if (!(s & (s + 1))) {
          int k = 0; while (k < 128 && ((s >> k) & 1)) k++;
          E x = mkExtract(a, l, k);
          if (l) x = mkConcat(x, mkC(0, l));
          return mkZext(x, w);
        }
        if (na.op == X_AND && isC(na.b)) return mkBin(X_AND, na.a, mkC(cval(na.b) & v, w));
        if (na.op == X_ZEXT) return mkZext(mkBin(X_AND, na.a, mkExtract(b, 0, N[na.a].w)), w);
      }
      if (w == 1) { if ((isNot(a) && na.a == b) || (isNot(b) && nb.a == a)) return mkC(0, 1); }
      if (na.op == X_ZEXT && nb.op == X_ZEXT && N[na.a].w == N[nb.a].w) return mkZext(mkBin(X_AND, na.a, nb.a), w);
      break;
    case X_OR:
      if (a == b) return a;
      if (cb) { if (isZero(b)) return a; if (isOnes(b)) return b; }
      if (w == 1) { if ((isNot(a) && na.a == b) || (isNot(b) && nb.a == a)) return mkC(1, 1); }
      goto disjoint;
    case X_XOR:
      if (a == b) return mkC(0, w);
      if (cb) {
        if (isZero(b)) return a;
        if (na.op == X_XOR && isC(na.b)) return mkBin(X_XOR, na.a, mkC(cval(na.b) ^ cval(b), w));
      }
    disjoint:
      if (na.op == X_ZEXT && nb.op == X_ZEXT && N[na.a].w == N[nb.a].w && op != X_ADD) return mkZext(mkBin(op, na.a, nb.a), w);
      {
        int ka = activeBits(a), kb = activeBits(b);
        if (kb < w && kb > 0 && lowZeros(a, kb)) return mkConcat(mkExtract(a, kb, w - kb), mkExtract(b, 0, kb));
        if (ka < w && ka > 0 && lowZeros(b, ka)) return mkConcat(mkExtract(b, ka, w - ka), mkExtract(a, 0, ka));
      }
      if (op == X_OR && cb && w > 1) {  // or with constant: split into const bits / extracts when contiguous
        u128 v = cval(b); int l = 0; while (!((v >> l) & 1)) l++;
        u128 s = v >> l; if (!(s & (s + 1))) { int k = 0; while (k < 128 && ((s >> k) & 1)) k++;
          E x = mkC(~(u128)0, k); if (l) x = mkConcat(x, mkExtract(a, 0, l)); if (l + k < w) x = mkConcat(mkExtract(a, l + k, w - l - k), x); return x; }
      }
      break;
    case X_SHL: case X_LSHR: case X_ASHR:
      if (cb) {
        u128 k = cval(b);
        if (!k) return a;
        if (k >= (u128)w) { if (op != X_ASHR) return mkC(0, w); k = w - 1; }
        int kk = (int)k;
        if (op == X_SHL) return mkConcat(mkExtract(a, 0, w - kk), mkC(0, kk));
        if (op == X_LSHR) return mkZext(mkExtract(a, kk, w - kk), w);
        return mkSext(mkExtract(a, kk, w - kk), w);
      }
      if (isZero(a)) return a;
      break;
    case X_EQ:
      if (a == b) return mkC(1, 1);
      if (w == 1 && cb) return N[b].lo ? a : mkNot1(a);
      if (cb) {
        u128 v = cval(b);
        switch (na.op) {
          case X_ZEXT: { int iw = N[na.a].w; if (v > maskw(iw)) return mkC(0, 1); return mkEq(na.a, mkC(v, iw)); }
          case X_SEXT: { int iw = N[na.a].w; u128 t = v & maskw(iw); if (((u128)sext128(t, iw) & maskw(w)) != v) return mkC(0, 1); return mkEq(na.a, mkC(t, iw)); }
          case X_CONCAT: { int lw = N[na.b].w; E h = mkEq(na.a, mkC(v >> lw, N[na.a].w)); if (isC(h) && !N[h].lo) return h; return mkAnd(h, mkEq(na.b, mkC(v, lw))); }
          case X_ADD: if (isC(na.b)) return mkEq(na.a, mkC(v - cval(na.b), w)); break;
          case X_XOR: if (isC(na.b)) return mkEq(na.a, mkC(v ^ cval(na.b), w)); if (!v) return mkEq(na.a, na.b); break;
          case X_SUB: if (!v) return mkEq(na.a, na.b); if (isC(na.a)) return mkEq(na.b, mkC(cval(na.a) - v, w)); break;
          case X_OR: if (!v) return mkAnd(mkEq(na.a, b), mkEq(na.b, b)); break;
          case X_ITE:
            if (isC(na.b)) { if (cval(na.b) == v) return mkOr(na.a, mkEq(na.c, b)); return mkAnd(mkNot1(na.a), mkEq(na.c, b)); }
            if (isC(na.c)) { if (cval(na.c) == v) return mkOr(mkNot1(na.a), mkEq(na.b, b)); return mkAnd(na.a, mkEq(na.b, b)); }
            break;
        }
      } else {
        if (na.op == X_ZEXT && nb.op == X_ZEXT) {
          int wa = N[na.a].w, wb = N[nb.a].w, m = wa > wb ? wa : wb;
          return mkEq(mkZext(na.a, m), mkZext(nb.a, m));
        }
        if (na.op == X_CONCAT && nb.op == X_CONCAT && N[na.b].w == N[nb.b].w) return mkAnd(mkEq(na.a, nb.a), mkEq(na.b, nb.b));
        if (na.op == X_ADD && nb.op == X_ADD && isC(na.b) && isC(nb.b) && na.b == nb.b) return mkEq(na.a, nb.a);
        if (na.op == X_ADD && na.a == b) return mkEq(na.b, mkC(0, w));
        if (nb.op == X_ADD && nb.a == a) return mkEq(nb.b, mkC(0, w));
      }
      break;
    case X_ULT:
      if (a == b) return mkC(0, 1);
      if (cb) {
        u128 v = cval(b);
        if (!v) return mkC(0, 1);
        if (v == 1) return mkEq(a, mkC(0, w));
        if (na.op == X_ZEXT) { int iw = N[na.a].w; if (v > maskw(iw)) return mkC(1, 1); return mkBin(X_ULT, na.a, mkC(v, iw)); }
        if (v == maskw(w)) return mkNot1(mkEq(a, b));
      }
      if (ca) {
        u128 v = cval(a);
        if (v == maskw(w)) return mkC(0, 1);
        if (!v) return mkNot1(mkEq(b, a));
        if (nb.op == X_ZEXT) { int iw = N[nb.a].w; if (v >= maskw(iw)) return mkC(0, 1); return mkBin(X_ULT, mkC(v, iw), nb.a); }
      }
      if (na.op == X_ZEXT && nb.op == X_ZEXT && N[na.a].w == N[nb.a].w) return mkBin(X_ULT, na.a, nb.a);
      break;
    case X_ULE:
      return mkNot1(mkBin(X_ULT, b, a));
    case X_SLT:
      if (a == b) return mkC(0, 1);
      if (na.op == X_ZEXT && nb.op == X_ZEXT) return mkBin(X_ULT, a, b);
      if (na.op == X_ZEXT && cb) { if (sext128(cval(b), w) <= 0) return mkC(0, 1); return mkBin(X_ULT, a, b); }
      if (nb.op == X_ZEXT && ca) { if (sext128(cval(a), w) < 0) return mkC(1, 1); return mkBin(X_ULT, a, b); }
      break;
    case X_SLE:
      return mkNot1(mkBin(X_SLT, b, a));
  }
  return node(op, rw, a, b);
}

// ---- evaluation under the current model
static std::vector<uint32_t> stamp; static std::vector<u128> memo; static uint32_t epoch = 1;
void bumpModel() { epoch++; }
static u128 evalRec(E e) {
  const Node& n = N[e];
  if (n.op == X_CONST) return ((u128)n.hi << 64) | n.lo;
  if (n.op == X_VAR) return model[n.a - 1];
  if (stamp[e] == epoch) return memo[e];
  u128 r = 0;
  switch (n.op) {
    case X_ITE: r = evalRec(evalRec(n.a) ? n.b : n.c); break;
    case X_CONCAT: r = (evalRec(n.a) << N[n.b].w) | evalRec(n.b); break;
    case X_EXTRACT: r = (evalRec(n.a) >> n.x) & maskw(n.w); break;
    case X_ZEXT: r = evalRec(n.a); break;
    case X_SEXT: r = (u128)sext128(evalRec(n.a), N[n.a].w) & maskw(n.w); break;
    default: { bool ok; u128 x = evalRec(n.a), y = evalRec(n.b); r = foldBin(n.op, x, y, N[n.a].w, &ok); if (!ok) fatal("eval op %d", n.op); }
  }
  stamp[e] = epoch; memo[e] = r; return r;
}
u128 evalM(E e) {
  if (stamp.size() < N.size()) { stamp.resize(N.size() + N.size() / 2, 0); memo.resize(stamp.size()); }
  return evalRec(e);
}
// ---- truth tables for single-variable expressions
static std::unordered_map<E, uint64_t*> tts;
uint64_t* truthTable(E e) {
  const Node n = N[e];
  if (n.w > 64) return nullptr;
  auto it = tts.find(e);
  if (it != tts.end()) return it->second;
  if (n.op != X_CONST && (n.sup == SUP_NONE || n.sup == SUP_MULTI)) return nullptr;
  uint64_t* t = nullptr;
  uint64_t *ta = nullptr, *tb = nullptr, *tc = nullptr;
  if (n.op != X_CONST && n.op != X_VAR) {
    if (n.a && !(ta = truthTable(n.a))) goto done;
    if (n.b && !(tb = truthTable(n.b))) goto done;
    if (n.c && !(tc = truthTable(n.c))) goto done;
  }
  t = (uint64_t*)malloc(256 * 8);
  for (int i = 0; i < 256; i++) {
    uint64_t r = 0;
    switch (n.op) {
      case X_CONST: r = n.lo; break;
      case X_VAR: r = i & mask64(n.w); break;
      case X_ITE: r = ta[i] ? tb[i] : tc[i]; break;
      case X_CONCAT: r = (ta[i] << N[n.b].w) | tb[i]; break;
      case X_EXTRACT: r = (ta[i] >> n.x) & mask64(n.w); break;
      case X_ZEXT: r = ta[i]; break;
      case X_SEXT: r = (uint64_t)sext128(ta[i], N[n.a].w) & mask64(n.w); break;
      default: { bool ok; r = (uint64_t)foldBin(n.op, ta[i], tb[i], N[n.a].w, &ok); }
    }
    t[i] = r;
  }
done:
  tts[e] = t; return t;
}

// Semantic canonical form of single-variable expressions: same values on every point of the variable's current domain -> same node.
static std::map<std::pair<uint64_t, std::pair<uint32_t, int>>, std::vector<E>> canonTab;
static E canonTable(E e) {
  const Node n = N[e]; uint64_t* t = truthTable(e); if (!t) return e;
  const Var& v = vars[n.sup - 1]; int cnt = 1 << v.w; bool allc = true, ident = true; int first = -1;
  for (int i = 0; i < cnt; i++) if (v.dom[i >> 6] >> (i & 63) & 1) { if (first < 0) first = i; if (t[i] != t[first]) allc = false; if (t[i] != (uint64_t)i) ident = false; }
  E r = e;
  if (first < 0) return e;
  if (allc) r = mkC(t[first], n.w);
  else if (ident) { E ve = v.e; r = n.w >= v.w ? mkZext(ve, n.w) : e; }
  else {
    // a bit slice of the variable?
    for (int lo = 0; lo < v.w && r == e; lo++) for (int k = 1; lo + k <= v.w && r == e; k++) { if (k > n.w) break; if (lo + k < v.w && lo == 0 && k == v.w) continue; bool ok = true; for (int i = 0; i < cnt && ok; i++) if (v.dom[i >> 6] >> (i & 63) & 1) ok = t[i] == (((uint64_t)i >> lo) & mask64(k)); if (ok) { E ve = v.e; r = mkZext(mkExtract(ve, lo, k), n.w); } }
    if (r == e) {
      uint64_t h = n.w; for (int i = 0; i < cnt; i++) if (v.dom[i >> 6] >> (i & 63) & 1) h = hmix(h * 31 + t[i] + i * 0x9E3779B97F4A7C15ULL);
      auto& b = canonTab[{h, {n.sup, n.w}}];
      for (E c : b) { uint64_t* u = truthTable(c); bool ok = true; for (int i = 0; i < cnt && ok; i++) if (v.dom[i >> 6] >> (i & 63) & 1) ok = t[i] == u[i]; if (ok) { r = c; break; } }
      if (r == e) b.push_back(e);
    }
  }
  if (r != e) canonOf[e] = r;
  return r;
}
std::string exprStr(E e, int depth) {
  static const char* nm[] = {"c", "v", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "concat", "extract", "zext", "sext"};
  const Node& n = N[e]; char buf[96];
  if (n.op == X_CONST) { if (n.hi) snprintf(buf, sizeof buf, "0x%llx%016llx:%d", (unsigned long long)n.hi, (unsigned long long)n.lo, n.w); else snprintf(buf, sizeof buf, "%llu:%d", (unsigned long long)n.lo, n.w); return buf; }
  if (n.op == X_VAR) return vars[n.a - 1].name;
  if (!depth) return "...";
  std::string s = "("; s += nm[n.op];
  if (n.op == X_EXTRACT) { snprintf(buf, sizeof buf, "[%d+%d]", n.x, n.w); s += buf; }
  if (n.op == X_ZEXT || n.op == X_SEXT) { snprintf(buf, sizeof buf, "%d", n.w); s += buf; }
  if (n.a) s += " " + exprStr(n.a, depth - 1);
  if (n.b) s += " " + exprStr(n.b, depth - 1);
  if (n.c) s += " " + exprStr(n.c, depth - 1);
  return s + ")";
}
