// Textual LLVM IR (as printed by rustc --emit=llvm-ir after fat LTO) -> compact in-memory program.
#pragma once
#include "expr.h"
#include <string_view>
struct Leaf { uint64_t off; uint16_t w; };
enum TK : uint8_t { TK_INT, TK_PTR, TK_VOID, TK_FLT, TK_VEC, TK_ARR, TK_STRUCT, TK_FN, TK_LABEL, TK_META, TK_OPAQUE };
struct Type {
  TK k; int bits = 0; Type* el = nullptr; uint64_t n = 0; std::vector<Type*> f; bool packed = false;
  uint64_t size = 0, align = 1; std::vector<Leaf> leaves; std::vector<uint64_t> offs; bool laid = false;
  int nl() { return (int)leaves.size(); }
};
struct Val { uint64_t lo, hi; E e; };
enum Op : uint8_t {
  O_BIN, O_ICMP, O_ZEXT, O_SEXT, OP_TRUNC, O_BITCAST, O_COPY, O_SELECT, O_LOAD, O_STORE, O_ALLOCA, O_GEP, O_EXTRACTV, O_INSERTV,
  O_EXTRACTE, O_INSERTE, O_SHUFFLE, O_BR, O_CBR, O_SWITCH, O_RET, O_UNREACHABLE, O_CALL, O_ARMW, O_CMPXCHG, O_NOP, O_FLT, O_FCMP, O_FCVT, O_UNSUP, O_FNEG
};
enum BK : uint8_t { B_ADD = X_ADD };
enum PK : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
struct Inst { uint8_t op, sub; uint16_t w; int32_t dst, a, b, c; uint32_t n, x; uint32_t line; };
struct Edge { uint32_t target; uint32_t cp, ncp; };  // copies: pairs in aux
struct Func {
  std::string name; bool defined = false; const char* body = nullptr; uint32_t line = 0;
  Type* ret = nullptr; std::vector<Type*> params; std::vector<std::string> pnames; bool vararg = false;
  int nslots = 0; std::vector<Inst> code; uint64_t addr = 0; int hook = 0; uint32_t id = 0; bool parsed = false;
  std::vector<uint32_t> bbStart; bool weak = false;
};
extern std::vector<Func*> funcs;
extern std::unordered_map<std::string, uint32_t> funcByName;
extern std::vector<Val> consts;
extern std::vector<int64_t> aux;
extern std::vector<Edge> edges;
void loadModule(const char* path);
void parseBody(Func* f);
static const uint64_t ARENA = 0x100000000000ull, ARENA_SIZE = 6ull << 30;
static const uint64_t FN_BASE = ARENA + 0x1000, FN_END = ARENA + 0x400000, GL_BASE = FN_END, STACK_BASE = ARENA + (1ull << 29), STACK_END = STACK_BASE + (1ull << 29), HEAP_BASE = STACK_END, HEAP_END = ARENA + ARENA_SIZE;
extern uint64_t globalsEnd;
