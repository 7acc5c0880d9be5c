// Hash-consed bit-vector expression DAG (widths 1..128) with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
typedef uint32_t E;  // node id, 0 = "no expression" (concrete)
typedef unsigned __int128 u128;
typedef __int128 i128;

[[noreturn]] void fatal(const char* fmt, ...);

enum XOp : uint8_t {
  X_CONST, X_VAR, X_ADD, X_SUB, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM, X_AND, X_OR, X_XOR,
  X_SHL, X_LSHR, X_ASHR, X_EQ, X_ULT, X_ULE, X_SLT, X_SLE, X_ITE, X_CONCAT, X_EXTRACT, X_ZEXT, X_SEXT
};
static const uint32_t SUP_NONE = 0, SUP_MULTI = 0xffffffffu;

struct Node {
  uint8_t op, w;
  uint16_t x;     // EXTRACT: low bit
  E a, b, c;
  uint32_t sup;   // 0 none, var+1 single, SUP_MULTI
  uint8_t dg;     // mentions a decimal-digit variable
  uint64_t lo, hi;
};

struct Var { int w; E e; std::string name; uint64_t dom[4]; bool linked; };

extern std::vector<Node> N;
extern std::vector<Var> vars;
extern std::vector<uint8_t> model;  // value per var (all vars are <= 8 bits wide)

static inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline uint64_t mask64(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i128 sext128(u128 v, int w) { return w >= 128 ? (i128)v : (i128)(v << (128 - w)) >> (128 - w); }
static inline u128 cval(E e) { return ((u128)N[e].hi << 64) | N[e].lo; }
static inline bool isC(E e) { return N[e].op == X_CONST; }

E mkC(u128 v, int w);
E mkVar(int w, const std::string& name);
E mkBin(int op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, int lo, int w);
E mkZext(E a, int w);
E mkSext(E a, int w);
static inline E mkNot1(E a) { return mkBin(X_XOR, a, mkC(1, 1)); }
static inline E mkAnd(E a, E b) { return mkBin(X_AND, a, b); }
static inline E mkOr(E a, E b) { return mkBin(X_OR, a, b); }
static inline E mkEq(E a, E b) { return mkBin(X_EQ, a, b); }
u128 evalM(E e);          // under current model
uint64_t* truthTable(E e);  // 256 entries, single-support nodes with w<=64; null otherwise
u128 foldBin(int op, u128 a, u128 b, int w, bool* ok);
std::string exprStr(E e, int depth = 6);
// Decimal digit groups: digit variables that are by definition the decimal digits (most significant first) of `key`.
struct DecGroup { E key; std::vector<uint32_t> dv; E def; bool used; };
extern std::vector<DecGroup> decGroups;
int decGroupOf(E v);                                     // index or -1 (zero-extensions stripped)
int newDecGroup(E key, const std::vector<int>& curDigits);
int decGroupOfVar(uint32_t var);                         // group a digit variable belongs to, or -1
void fixDigits(std::vector<uint8_t>& m);                 // recompute digit variables from the values they are digits of
E E_true(); E E_false();
