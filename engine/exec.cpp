// Symbolic executor for whole-program LLVM IR. Forks one OS process per feasible branch side.
#include <execinfo.h>
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <linux/futex.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
#include "ir.h"
#include "shared.h"
#include "solver.h"

Shared* SH = nullptr; static Sched* SC = nullptr;
static std::string outDir, curHarness; static pid_t rootPid; static bool inRun = false;
static uint64_t maxInstr = 400000000ull; static int maxDepth = 6000; static int maxViol = 24; static int sampleMax = 24; static bool trace = false; static bool hashHook = false;
static Func* curFn = nullptr; static const Inst* curInst = nullptr;
static uint64_t nInstr = 0, nBranches = 0, depthForks = 0;
static std::vector<std::string> callStackNames();

static void releaseToken(); static void finishProc();
static void recordError(const std::string& m) {
  if (SH) { while (__sync_lock_test_and_set(&SH->errlock, 1)) usleep(100); if (!SH->errors) { snprintf(SH->err, sizeof SH->err, "%s", m.c_str()); } SH->errors++; __sync_lock_release(&SH->errlock); }
}
[[noreturn]] void fatal(const char* fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (inRun) { std::string m = b; m += " [in "; m += curFn ? curFn->name : "?"; if (curInst) m += " ir-line " + std::to_string(curInst->line); m += "]"; for (auto& s : callStackNames()) m += "\n    " + s; recordError(m); SH->stop = 1; finishProc(); }
  fprintf(stderr, "engine: %s\n", b); exit(3);
}
// ------------------------------------------------------------ scheduling
static void futexWait(volatile uint32_t* p, uint32_t v) { syscall(SYS_futex, p, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void futexWake(volatile uint32_t* p) { syscall(SYS_futex, p, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
static void lk() { int n = 0; while (__sync_lock_test_and_set(&SC->lock, 1)) { if (++n > 200) { usleep(50); n = 0; } } }
static void ulk() { __sync_lock_release(&SC->lock); }
static void acquireToken() {
  lk(); if (SC->tokens > 0) { SC->tokens--; ulk(); return; }
  uint32_t i = 0; static uint32_t hint = 0; for (i = 0; i < MAXWAIT; i++) { uint32_t k = (i + hint) % MAXWAIT; if (!SC->w[k].used) { i = k; break; } } if (i >= MAXWAIT) { ulk(); fatal("too many waiting paths"); }
  SC->w[i].used = 1; SC->w[i].go = 0; SC->stack[SC->nwait++] = i; ulk();
  while (!SC->w[i].go) futexWait(&SC->w[i].go, 0);
  SC->w[i].used = 0;
}
static void releaseToken() { lk(); if (SC->nwait) { uint32_t i = SC->stack[--SC->nwait]; SC->w[i].go = 1; ulk(); futexWake(&SC->w[i].go); } else { SC->tokens++; ulk(); } }
static void finishProc() { __sync_fetch_and_add(&SH->instrs, nInstr); __sync_fetch_and_add(&SH->branches, nBranches); releaseToken(); __sync_fetch_and_sub(&SH->live, 1); _exit(0); }
static bool forkPath() {  // true in child
  if (SH->stop) finishProc();
  __sync_fetch_and_add(&SH->live, 1); __sync_fetch_and_add(&SH->procs, 1);
  pid_t p = fork();
  if (p < 0) { __sync_fetch_and_sub(&SH->live, 1); fatal("fork failed"); }
  depthForks++; if (depthForks > SH->maxdepth) SH->maxdepth = depthForks;
  if (p == 0) { nInstr = nBranches = 0; return true; }
  acquireToken(); if (SH->stop) finishProc();
  return false;
}
static void errorPath(const std::string& m) { recordError(m); finishProc(); }

// returns the truth value of c on this path (forking when both are possible)
static bool branchOn(E c) {
  nBranches++;
  std::vector<uint8_t> other; Tri r = decide(c, &other);
  if (r == T_TRUE) return true; if (r == T_FALSE) return false;
  if (r == T_UNKNOWN) fatal("solver gave up (resource limit) on a branch condition: %s", exprStr(c, 8).c_str());
  bool cur = evalM(c) != 0;
  bool child = forkPath();
  bool v = child ? !cur : cur;
  if (child) setModel(other);
  pcAssume(v ? c : mkNot1(c));
  static bool dbg = getenv("SYMX_PC"); if (dbg && !pcHolds()) fatal("path condition false after branch on %s (child %d)", exprStr(c, 8).c_str(), (int)child);
  return v;
}
static uint64_t concretize(E e) {
  if (isC(e)) return N[e].lo;
  for (;;) { u128 v = evalM(e); if (branchOn(mkEq(e, mkC(v, N[e].w)))) return (uint64_t)v; }
}
// ------------------------------------------------------------ memory
static uint32_t* const SHADOW = (uint32_t*)0x200000000000ull; static uint8_t* const COARSE = (uint8_t*)0x300000000000ull;
static inline uint32_t& sh(uint64_t a) { return SHADOW[a - ARENA]; }
static inline uint8_t& co(uint64_t a) { return COARSE[(a - ARENA) >> 6]; }
static inline bool anyCoarse(uint64_t a, uint64_t n) { if (!n) return false; for (uint64_t k = (a - ARENA) >> 6; k <= ((a + n - 1 - ARENA) >> 6); k++) if (COARSE[k]) return true; return false; }
static uint64_t heapTop = HEAP_BASE, stackTop = STACK_BASE; static std::unordered_map<uint64_t, std::vector<uint64_t>> freeLists;
static inline void chk(uint64_t a, uint64_t n) { if (__builtin_expect(a - ARENA < 0x1000 || a - ARENA > ARENA_SIZE - n, 0)) fatal("wild memory access 0x%llx size %llu", (unsigned long long)a, (unsigned long long)n); }
static void clearSh(uint64_t a, uint64_t n) { if (anyCoarse(a, n)) memset(&sh(a), 0, n * 4); }
static uint64_t xalloc(uint64_t n, uint64_t al, bool zero) {
  if (n > (1ull << 31)) fatal("huge allocation of %llu bytes", (unsigned long long)n);
  uint64_t cls = n <= 16 ? 16 : n <= 1024 ? (n + 15) / 16 * 16 : (n + 255) / 256 * 256; if (al < 16) al = 16;
  uint64_t key = cls | (al << 40); auto& fl = freeLists[key]; uint64_t a;
  if (!fl.empty()) { a = fl.back(); fl.pop_back(); clearSh(a, cls); if (zero) memset((void*)a, 0, cls); }
  else { a = (heapTop + 16 + al - 1) / al * al; heapTop = a + cls; if (heapTop > HEAP_END - 4096) fatal("heap exhausted"); ((uint64_t*)a)[-1] = key; ((uint64_t*)a)[-2] = n; }
  ((uint64_t*)a)[-2] = n; return a;
}
static void xfree(uint64_t a) { if (!a) return; if (a < HEAP_BASE || a >= heapTop) fatal("free of bad pointer"); freeLists[((uint64_t*)a)[-1]].push_back(a); }
static E toE(const Val& v, int w) { return v.e ? v.e : mkC(((u128)v.hi << 64) | v.lo, w); }
static Val fromE(E e) { if (isC(e)) return {N[e].lo, N[e].hi, 0}; return {0, 0, e}; }
static Val loadLeaf(uint64_t a, int w) {
  int nb = (w + 7) / 8; chk(a, nb);
  if (__builtin_expect(anyCoarse(a, nb), 0)) {
    bool any = false; for (int i = 0; i < nb; i++) if (sh(a + i)) any = true;
    if (any) { E acc = 0; for (int i = 0; i < nb; i++) { E b = sh(a + i) ? sh(a + i) : mkC(*(uint8_t*)(a + i), 8); acc = acc ? mkConcat(b, acc) : b; } if (nb * 8 != w) acc = mkExtract(acc, 0, w); return fromE(acc); }
  }
  Val v{0, 0, 0};
  switch (nb) { case 8: v.lo = *(uint64_t*)a; break; case 4: v.lo = *(uint32_t*)a; break; case 1: v.lo = *(uint8_t*)a; break; case 2: v.lo = *(uint16_t*)a; break; default: memcpy(&v, (void*)a, nb); }
  if (w < 64) v.lo &= mask64(w); else if (w > 64 && w < 128) v.hi &= mask64(w - 64);
  return v;
}
static void storeLeaf(uint64_t a, const Val& v, int w) {
  int nb = (w + 7) / 8; chk(a, nb);
  if (__builtin_expect(v.e != 0, 0)) {
    E e = v.e; if (nb * 8 != w) e = mkZext(e, nb * 8);
    for (int i = 0; i < nb; i++) { E b = mkExtract(e, 8 * i, 8); if (isC(b)) { *(uint8_t*)(a + i) = N[b].lo; if (co(a + i)) sh(a + i) = 0; } else { co(a + i) = 1; sh(a + i) = b; } }
    return;
  }
  if (__builtin_expect(anyCoarse(a, nb), 0)) for (int i = 0; i < nb; i++) sh(a + i) = 0;
  switch (nb) { case 8: *(uint64_t*)a = v.lo; break; case 4: *(uint32_t*)a = v.lo; break; case 1: *(uint8_t*)a = v.lo; break; case 2: *(uint16_t*)a = v.lo; break; default: memcpy((void*)a, &v, nb); }
}
static void xmemmove(uint64_t d, uint64_t s, uint64_t n) {
  if (!n || d == s) return; chk(d, n); chk(s, n);
  bool cs = anyCoarse(s, n), cd = anyCoarse(d, n);
  if (cs) {
    std::vector<uint32_t> tmp(&sh(s), &sh(s) + n); bool any = false; for (auto x : tmp) if (x) { any = true; break; }
    if (any) { for (uint64_t i = 0; i < n; i++) { if (tmp[i]) { co(d + i) = 1; sh(d + i) = tmp[i]; } else if (cd) sh(d + i) = 0; } memmove((void*)d, (void*)s, n); return; }
  }
  if (cd) memset(&sh(d), 0, 4 * n);
  memmove((void*)d, (void*)s, n);
}
static E byteE(uint64_t a) { if (co(a) && sh(a)) return sh(a); return mkC(*(uint8_t*)a, 8); }
static bool symRange(uint64_t a, uint64_t n) { if (!anyCoarse(a, n)) return false; for (uint64_t i = 0; i < n; i++) if (sh(a + i)) return true; return false; }
static bool validAddr(uint64_t a, int nb) { return (a >= GL_BASE && a + nb <= globalsEnd) || (a >= STACK_BASE && a + nb <= stackTop) || (a >= HEAP_BASE && a + nb <= heapTop); }

// over-approximation of the values an expression can take (limit entries), false if unknown
static bool valueSet(E e, std::set<u128>& out, size_t lim, int depth = 0) {
  const Node n = N[e]; if (depth > 400) return false;
  if (n.op == X_CONST) { out.insert(cval(e)); return true; }
  if (n.sup != SUP_MULTI && n.sup) { uint64_t* t = truthTable(e); if (t) { Var& v = vars[n.sup - 1]; for (int i = 0; i < (1 << v.w); i++) if (v.dom[i >> 6] >> (i & 63) & 1) out.insert(t[i]); return out.size() <= lim; } }
  switch (n.op) {
    case X_ITE: return valueSet(n.b, out, lim, depth + 1) && valueSet(n.c, out, lim, depth + 1) && out.size() <= lim;
    case X_EQ: case X_ULT: case X_SLT: out.insert(0); out.insert(1); return true;
    case X_VAR: if (n.w > 8) return false; for (int i = 0; i < (1 << n.w); i++) out.insert(i); return out.size() <= lim;
    case X_ZEXT: case X_SEXT: case X_EXTRACT: { std::set<u128> s; if (!valueSet(n.a, s, lim, depth + 1)) { if (n.w <= 8) { for (int i = 0; i < (1 << n.w); i++) out.insert(i); return out.size() <= lim; } return false; } for (u128 v : s) out.insert(n.op == X_ZEXT ? v : n.op == X_SEXT ? (u128)sext128(v, N[n.a].w) & maskw(n.w) : (v >> n.x) & maskw(n.w)); return out.size() <= lim; }
    default: {
      if (!n.b || n.c) return false; std::set<u128> p, q; 
      if (valueSet(n.a, p, lim, depth + 1) && valueSet(n.b, q, lim, depth + 1) && p.size() * q.size() <= 4 * lim) { for (u128 x : p) for (u128 y : q) { if (n.op == X_CONCAT) out.insert((x << N[n.b].w) | y); else { bool ok; out.insert(foldBin(n.op, x, y, N[n.a].w, &ok)); if (!ok) return false; } } return out.size() <= lim; }
      if (n.w <= 6) { for (int i = 0; i < (1 << n.w); i++) out.insert(i); return out.size() <= lim; }
      return false; }
  }
}
static Val loadSymAddr(E ae, int w, bool isPtr) {
  int nb = (w + 7) / 8;
  std::set<u128> cand;
  if (isPtr || !valueSet(ae, cand, 600)) return loadLeaf(concretize(ae), w);
  E x = ae; uint64_t base = 0; if (N[ae].op == X_ADD && isC(N[ae].b)) { x = N[ae].a; base = N[N[ae].b].lo; }
  std::vector<std::pair<uint64_t, E>> it;
  for (u128 c : cand) {
    uint64_t a = (uint64_t)c;
    if (!validAddr(a, nb)) { int r = z3Sat(mkEq(ae, mkC(a, 64)), nullptr); if (r == 0) continue; return loadLeaf(concretize(ae), w); }
    it.push_back({a - base, toE(loadLeaf(a, w), w)});
  }
  if (it.empty()) fatal("no valid address for symbolic load");
  std::sort(it.begin(), it.end());
  E acc = it.back().second;
  for (int i = (int)it.size() - 2; i >= 0; i--) { if (it[i].second == acc) continue; // boundary between i and i+1
    acc = mkIte(mkBin(X_ULT, x, mkC(it[i + 1].first, 64)), it[i].second, acc); }
  // (a run of equal values keeps the later boundary, so each guard tests "x < next differing offset")
  return fromE(acc);
}
// ------------------------------------------------------------ frames
struct Frame { Func* f; Val* regs; uint32_t ip; uint64_t stackSave; int dst; int nret; };
static std::vector<Frame> frames; static Val* regTop;
static std::vector<std::string> callStackNames() { std::vector<std::string> r; for (int i = (int)frames.size() - 1; i >= 0 && r.size() < 14; i--) r.push_back(frames[i].f->name); return r; }

// ------------------------------------------------------------ inputs, observations, results
struct Input { int w; E e; }; static std::vector<Input> inputs; static std::vector<std::pair<int, Val>> observed;
static std::vector<std::string> choiceLog;
static std::string inputsText() { std::string s; for (auto& i : inputs) { u128 v = evalM(i.e); char b[64]; snprintf(b, sizeof b, "%d %llx\n", i.w, (unsigned long long)v); s += b; } return s; }
static void writeFile(const std::string& p, const std::string& c) { FILE* f = fopen(p.c_str(), "w"); if (!f) fatal("cannot write %s", p.c_str()); fwrite(c.data(), 1, c.size(), f); fclose(f); }
static void recordViolation(const std::string& kind, const std::string& msg) {
  if (!pcHolds()) fatal("self-check failed: path condition false under its model");
  uint64_t k = __sync_fetch_and_add(&SH->violations, 1); if (k >= (uint64_t)maxViol) { SH->stop = 1; return; }
  std::string s = "kind " + kind + "\nmsg " + msg + "\n"; for (auto& n : callStackNames()) s += "at " + n + "\n"; s += "inputs\n" + inputsText();
  writeFile(outDir + "/" + curHarness + ".viol." + std::to_string(k), s);
}
static void pathDone() {
  if (!pcHolds()) fatal("self-check failed: path condition false under its model");
  uint64_t k = __sync_fetch_and_add(&SH->paths, 1);
  bool samp = k < 6 || (k & (k - 1)) == 0 || k % 97 == 0;
  if (samp) { uint64_t n = __sync_fetch_and_add(&SH->samples, 1); if (n < (uint64_t)sampleMax) { std::string s = "inputs\n" + inputsText() + "observed\n"; for (auto& o : observed) { u128 v = o.second.e ? evalM(o.second.e) : o.second.lo; char b[64]; snprintf(b, sizeof b, "%llx\n", (unsigned long long)v); s += b; } writeFile(outDir + "/" + curHarness + ".path." + std::to_string(n), s); } }
  finishProc();
}
static std::string memStr(uint64_t p, uint64_t n) { if (n > 400) n = 400; std::string s; for (uint64_t i = 0; i < n; i++) s += *(char*)(p + i); return s; }
static std::vector<uint64_t> concIn; static size_t concPos = 0; static bool concMode = false;
static E symBytes(int w, const char* nm) {
  if (concMode) { if (concPos >= concIn.size()) fatal("concrete input exhausted"); E e = mkC(concIn[concPos++], w); inputs.push_back({w, e}); return e; }
  E acc = 0; int i = 0; for (int b = 0; b < w; b += 8, i++) { int bw = w - b < 8 ? w - b : 8; E v = mkVar(bw, std::string(nm) + std::to_string(inputs.size()) + "." + std::to_string(i)); acc = acc ? mkConcat(v, acc) : v; }
  inputs.push_back({w, acc}); return acc;
}
// ------------------------------------------------------------ hooks
enum Hook { H_NONE = 0, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_MEMALIGN, H_POSIX_MEMALIGN, H_MEMCPY, H_MEMSET, H_MEMCMP, H_BCMP, H_STRLEN, H_ABORT, H_RET0, H_RETM1, H_GETRANDOM, H_SYSCALL, H_ERRNO, H_SYSCONF,
  H_PANIC, H_SYM_U8, H_SYM_U16, H_SYM_U32, H_SYM_U64, H_SYM_BOOL, H_SYM_BYTES, H_SYM_CHOICE, H_SYM_ASSUME, H_SYM_ASSERT, H_SYM_COVER, H_SYM_OBSERVE, H_SYM_CONC, H_DECFMT, H_DECBUF, H_HASHONE, H_WRITE, H_SYM_ISSYM, H_RANDKEYS, H_SYM_FAIL,
  I_MEMCPY, I_MEMSET, I_UMAX, I_UMIN, I_SMAX, I_SMIN, I_CTLZ, I_CTTZ, I_CTPOP, I_BSWAP, I_BITREV, I_USUBSAT, I_UADDSAT, I_SSUBSAT, I_SADDSAT, I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_FSHL, I_FSHR, I_ABS, I_SCMP, I_UCMP, I_ISCONST, I_ARG0, I_LOADREL, I_TRAP, I_RED_OR, I_RED_AND, I_RED_ADD, I_RED_XOR, I_RED_UMAX, I_RED_UMIN, I_NOP, I_PTRMASK, H_UNSUP };
static bool endsWith(const std::string& s, const char* t) { size_t n = strlen(t); return s.size() >= n && !s.compare(s.size() - n, n, t); }
static std::string stripSuffix(const std::string& n) { size_t i = n.size(); while (i && isdigit((unsigned char)n[i - 1])) i--; if (i && i < n.size() && n[i - 1] == '.') return n.substr(0, i - 1); return n; }
static int hookFor(Func* f) {
  const std::string& n = f->name;
  static const std::unordered_map<std::string, int> ex = {{"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_REALLOC}, {"free", H_FREE}, {"memalign", H_MEMALIGN}, {"aligned_alloc", H_MEMALIGN}, {"posix_memalign", H_POSIX_MEMALIGN}, {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET}, {"memcmp", H_MEMCMP}, {"bcmp", H_BCMP}, {"strlen", H_STRLEN}, {"abort", H_ABORT}, {"getenv", H_RET0}, {"open64", H_RETM1}, {"open", H_RETM1}, {"sched_getaffinity", H_RETM1}, {"getrandom", H_GETRANDOM}, {"syscall", H_SYSCALL}, {"__errno_location", H_ERRNO}, {"sysconf", H_SYSCONF}, {"write", H_WRITE}, {"writev", H_WRITE}, {"pthread_key_create", H_RET0}, {"pthread_key_delete", H_RET0}, {"pthread_setspecific", H_RET0}, {"pthread_getspecific", H_RET0}, {"pthread_self", H_RET0}, {"sched_yield", H_RET0},
    {"sym_u8", H_SYM_U8}, {"sym_u16", H_SYM_U16}, {"sym_u32", H_SYM_U32}, {"sym_u64", H_SYM_U64}, {"sym_bool", H_SYM_BOOL}, {"sym_bytes", H_SYM_BYTES}, {"sym_choice", H_SYM_CHOICE}, {"sym_assume", H_SYM_ASSUME}, {"sym_assert", H_SYM_ASSERT}, {"sym_cover", H_SYM_COVER}, {"sym_observe", H_SYM_OBSERVE}, {"sym_concretize", H_SYM_CONC}, {"sym_fail", H_SYM_FAIL}, {"sym_is_symbolic", H_SYM_ISSYM}};
  auto it = ex.find(n); if (it != ex.end() && !f->defined) return it->second;
  if (!n.compare(0, 5, "llvm.")) {
    static const std::vector<std::pair<const char*, int>> in = {{"llvm.memcpy.", I_MEMCPY}, {"llvm.memmove.", I_MEMCPY}, {"llvm.memset.", I_MEMSET}, {"llvm.umax.", I_UMAX}, {"llvm.umin.", I_UMIN}, {"llvm.smax.", I_SMAX}, {"llvm.smin.", I_SMIN}, {"llvm.ctlz.", I_CTLZ}, {"llvm.cttz.", I_CTTZ}, {"llvm.ctpop.", I_CTPOP}, {"llvm.bswap.", I_BSWAP}, {"llvm.bitreverse.", I_BITREV}, {"llvm.usub.sat.", I_USUBSAT}, {"llvm.uadd.sat.", I_UADDSAT}, {"llvm.ssub.sat.", I_SSUBSAT}, {"llvm.sadd.sat.", I_SADDSAT}, {"llvm.uadd.with", I_UADDO}, {"llvm.usub.with", I_USUBO}, {"llvm.umul.with", I_UMULO}, {"llvm.sadd.with", I_SADDO}, {"llvm.ssub.with", I_SSUBO}, {"llvm.smul.with", I_SMULO}, {"llvm.fshl.", I_FSHL}, {"llvm.fshr.", I_FSHR}, {"llvm.abs.", I_ABS}, {"llvm.scmp.", I_SCMP}, {"llvm.ucmp.", I_UCMP}, {"llvm.is.constant", I_ISCONST}, {"llvm.expect", I_ARG0}, {"llvm.threadlocal.address", I_ARG0}, {"llvm.launder", I_ARG0}, {"llvm.strip.invariant", I_ARG0}, {"llvm.load.relative", I_LOADREL}, {"llvm.trap", I_TRAP}, {"llvm.ubsantrap", I_TRAP}, {"llvm.vector.reduce.or", I_RED_OR}, {"llvm.vector.reduce.and", I_RED_AND}, {"llvm.vector.reduce.add", I_RED_ADD}, {"llvm.vector.reduce.xor", I_RED_XOR}, {"llvm.vector.reduce.umax", I_RED_UMAX}, {"llvm.vector.reduce.umin", I_RED_UMIN}, {"llvm.assume", I_NOP}, {"llvm.lifetime", I_NOP}, {"llvm.experimental.noalias", I_NOP}, {"llvm.ptrmask", I_PTRMASK}, {"llvm.stackrestore", I_NOP}};
    for (auto& p : in) if (!n.compare(0, strlen(p.first), p.first)) return p.second;
    return H_UNSUP;
  }
  if (!f->defined) return H_UNSUP;
  std::string b = stripSuffix(n);
  if (n.find("9panicking9panic_fmt") != std::string::npos || n.find("17rust_begin_unwind") != std::string::npos || n.find("18panic_nounwind_fmt") != std::string::npos || n.find("26___rust_alloc_error_handler") != std::string::npos || n.find("20rust_panic_with_hook") != std::string::npos || n.find("5alloc18handle_alloc_error") != std::string::npos || n.find("7process5abort") != std::string::npos) return H_PANIC;
  if (n.find("4core3fmt3num3imp") != std::string::npos && endsWith(b, "7Display3fmt") && n[0] == '_' ) { size_t p = n.find("4core3fmt3num3imp") + 17; if (strchr("htmyj", n[p])) return H_DECFMT; }
  if (n.find("4core3fmt3num3imp") != std::string::npos && (endsWith(b, "m4__fmt") || endsWith(b, "y4__fmt") || endsWith(b, "j4__fmt"))) return H_DECBUF;
  if (n.find("hashmap_random_keys") != std::string::npos) return H_RANDKEYS;
  if (hashHook && n.find("11BuildHasher8hash_one") != std::string::npos) return H_HASHONE;
  return 0;
}
struct Args { const Inst* i; Val* regs; int na; const int64_t* a; };
static inline const Val& opv(Val* regs, int o) { return o >= 0 ? regs[o] : consts[~o]; }

static E sgn(E e, int w) { return mkExtract(e, w - 1, 1); }
static Val binop(int op, const Val& a, const Val& b, int w) {
  if (__builtin_expect(!(a.e | b.e), 1)) {
    if (w <= 64) {
      uint64_t x = a.lo, y = b.lo, r; uint64_t m = mask64(w);
      switch (op) {
        case X_ADD: r = x + y; break; case X_SUB: r = x - y; break; case X_MUL: r = x * y; break;
        case X_AND: r = x & y; break; case X_OR: r = x | y; break; case X_XOR: r = x ^ y; break;
        case X_SHL: r = y >= (uint64_t)w ? 0 : x << y; break; case X_LSHR: r = y >= (uint64_t)w ? 0 : x >> y; break;
        case X_UDIV: if (!y) fatal("division by zero"); r = x / y; break; case X_UREM: if (!y) fatal("division by zero"); r = x % y; break;
        default: { bool ok; r = (uint64_t)foldBin(op, x, y, w, &ok); }
      }
      return {r & m, 0, 0};
    }
    bool ok; u128 r = foldBin(op, ((u128)a.hi << 64) | a.lo, ((u128)b.hi << 64) | b.lo, w, &ok); return {(uint64_t)r, (uint64_t)(r >> 64), 0};
  }
  return fromE(mkBin(op, toE(a, w), toE(b, w)));
}
static Val icmp(int p, const Val& a, const Val& b, int w) {
  if (__builtin_expect(!(a.e | b.e), 1)) {
    bool r;
    if (w <= 64) {
      uint64_t x = a.lo, y = b.lo; int s = 64 - w; int64_t sx = (int64_t)(x << s) >> s, sy = (int64_t)(y << s) >> s;
      switch (p) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break; case P_SGT: r = sx > sy; break; case P_SGE: r = sx >= sy; break; case P_SLT: r = sx < sy; break; default: r = sx <= sy; }
    } else {
      u128 x = ((u128)a.hi << 64) | a.lo, y = ((u128)b.hi << 64) | b.lo; i128 sx = sext128(x, w), sy = sext128(y, w);
      switch (p) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break; case P_SGT: r = sx > sy; break; case P_SGE: r = sx >= sy; break; case P_SLT: r = sx < sy; break; default: r = sx <= sy; }
    }
    return {r, 0, 0};
  }
  E x = toE(a, w), y = toE(b, w), r;
  switch (p) { case P_EQ: r = mkEq(x, y); break; case P_NE: r = mkNot1(mkEq(x, y)); break; case P_UGT: r = mkBin(X_ULT, y, x); break; case P_UGE: r = mkBin(X_ULE, y, x); break; case P_ULT: r = mkBin(X_ULT, x, y); break; case P_ULE: r = mkBin(X_ULE, x, y); break; case P_SGT: r = mkBin(X_SLT, y, x); break; case P_SGE: r = mkBin(X_SLE, y, x); break; case P_SLT: r = mkBin(X_SLT, x, y); break; default: r = mkBin(X_SLE, x, y); }
  return fromE(r);
}
static uint64_t C(const Val& v) { return v.e ? concretize(v.e) : v.lo; }
static Val ite(E c, const Val& a, const Val& b, int w) { if (!a.e && !b.e && a.lo == b.lo && a.hi == b.hi) return a; return fromE(mkIte(c, toE(a, w), toE(b, w))); }
static double asD(const Val& v, int w) { if (v.e) fatal("symbolic floating point"); if (w == 32) { uint32_t u = v.lo; float f; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.lo, 8); return d; }
static Val fromD(double d, int w) { Val v{0, 0, 0}; if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); v.lo = u; } else memcpy(&v.lo, &d, 8); return v; }

// decimal digits of symbolic unsigned v (width w): forks on the digit count, introduces digit variables defined as the digits of v
static std::vector<E> decimalDigits(E v, int w) {
  int gi = decGroupOf(v);
  if (gi < 0) {
    int L = 1; u128 p = 10; while (p <= maskw(w)) { if (branchOn(mkBin(X_ULT, v, mkC(p, w)))) break; L++; p *= 10; }
    u128 cv = evalM(v); std::vector<int> dv(L); for (int i = L - 1; i >= 0; i--) { dv[i] = (int)(cv % 10); cv /= 10; }
    markLinked(v); gi = newDecGroup(v, dv);
  }
  std::vector<E> d; for (uint32_t k : decGroups[gi].dv) d.push_back(mkZext(vars[k].e, 8));
  return d;
}
static Func* padIntegral = nullptr;
static void pushFrame(Func* f, int dst, int nret);
static void setArg(int slot, Val v) { frames.back().regs[slot] = v; }

static std::string panicLocation(Args& A) {
  std::string s; for (int k = A.na - 1; k >= 0; k--) { const Val& v = opv(A.regs, A.a[3 * k]); if (v.e || !validAddr(v.lo, 24)) continue; uint64_t fp = *(uint64_t*)v.lo, fl = *(uint64_t*)(v.lo + 8); uint32_t line = *(uint32_t*)(v.lo + 16), col = *(uint32_t*)(v.lo + 20); if (validAddr(fp, 1) && fl > 3 && fl < 300 && validAddr(fp, fl)) { std::string n = memStr(fp, fl); while (!n.empty() && n.back() == 0) n.pop_back(); bool ok = n.find(".rs") != std::string::npos; for (char c : n) if (c < 32) ok = false; if (ok) { s = n + ":" + std::to_string(line) + ":" + std::to_string(col); break; } } }
  return s;
}
// returns true if a frame was pushed (caller must re-load its state)
static bool doHook(int h, Func* f, const Inst& I, Val* regs) {
  const int64_t* ax = &aux[I.x]; int na = ax[0]; int rw = ax[2]; const int64_t* as = ax + 3; int dst = I.dst;
  auto A = [&](int k) -> const Val& { return opv(regs, as[3 * k]); };
  auto AW = [&](int k) { return (int)as[3 * k + 2]; }; auto AN = [&](int k) { return (int)as[3 * k + 1]; };
  auto leaf = [&](int k, int i) -> const Val& { int o = as[3 * k]; return opv(regs, o >= 0 ? o + i : o - i); };
  auto ret = [&](Val v) { if (dst >= 0) regs[dst] = v; };
  auto retU = [&](uint64_t v) { if (dst >= 0) regs[dst] = {v, 0, 0}; };
  switch (h) {
    case H_MALLOC: retU(xalloc(C(A(0)), 16, false)); return false;
    case H_CALLOC: { uint64_t n = C(A(0)) * C(A(1)); retU(xalloc(n, 16, true)); return false; }
    case H_REALLOC: { uint64_t p = C(A(0)), n = C(A(1)); uint64_t q = xalloc(n, 16, false); if (p) { uint64_t o = ((uint64_t*)p)[-2]; xmemmove(q, p, o < n ? o : n); xfree(p); } retU(q); return false; }
    case H_FREE: xfree(C(A(0))); return false;
    case H_MEMALIGN: retU(xalloc(C(A(1)), C(A(0)), false)); return false;
    case H_POSIX_MEMALIGN: { uint64_t q = xalloc(C(A(2)), C(A(1)), false); storeLeaf(C(A(0)), {q, 0, 0}, 64); retU(0); return false; }
    case H_MEMCPY: { Val d = A(0); xmemmove(C(A(0)), C(A(1)), C(A(2))); ret(d); return false; }
    case I_MEMCPY: { uint64_t n = C(A(2)); if (n) xmemmove(C(A(0)), C(A(1)), n); return false; }
    case H_MEMSET: case I_MEMSET: { uint64_t d = C(A(0)), n = C(A(2)); Val v = A(1); if (h == H_MEMSET && v.e) v = fromE(mkExtract(v.e, 0, 8)); if (n) { chk(d, n); if (!v.e) { clearSh(d, n); memset((void*)d, (int)(v.lo & 255), n); } else for (uint64_t i = 0; i < n; i++) storeLeaf(d + i, v, 8); } if (h == H_MEMSET) ret({d, 0, 0}); return false; }
    case H_BCMP: case H_MEMCMP: {
      uint64_t n = C(A(2)); if (!n) { retU(0); return false; }
      uint64_t p = C(A(0)), q = C(A(1)); chk(p, n); chk(q, n);
      if (!symRange(p, n) && !symRange(q, n)) { int r = memcmp((void*)p, (void*)q, n); retU((uint32_t)(h == H_BCMP ? (r != 0) : r < 0 ? -1 : r > 0 ? 1 : 0)); return false; }
      if (h == H_BCMP) { E eq = E_true(); for (uint64_t i = 0; i < n; i++) { eq = mkAnd(eq, mkEq(byteE(p + i), byteE(q + i))); if (isC(eq) && !N[eq].lo) break; } ret(fromE(mkIte(eq, mkC(0, 32), mkC(1, 32)))); return false; }
      E r = mkC(0, 32); for (int64_t i = n - 1; i >= 0; i--) { E x = byteE(p + i), y = byteE(q + i); r = mkIte(mkEq(x, y), r, mkIte(mkBin(X_ULT, x, y), mkC(~(u128)0, 32), mkC(1, 32))); } ret(fromE(r)); return false; }
    case H_STRLEN: { uint64_t p = C(A(0)); uint64_t n = 0; for (;; n++) { if (co(p + n) && sh(p + n)) { if (branchOn(mkEq(sh(p + n), mkC(0, 8)))) break; } else if (!*(char*)(p + n)) break; } retU(n); return false; }
    case H_RET0: retU(0); return false;
    case H_RETM1: retU(rw == 32 ? 0xffffffffu : ~0ull); return false;
    case H_SYSCALL: if (C(A(0)) == 318) { uint64_t p = C(A(1)), n = C(A(2)); for (uint64_t i = 0; i < n; i++) storeLeaf(p + i, {(i * 37 + 11) & 255, 0, 0}, 8); retU(n); return false; } retU(0); return false;  // futex wake and the like: single-threaded
    case H_SYSCONF: retU(4096); return false;
    case H_WRITE: if (na > 2 && getenv("SYMX_WRITE")) { uint64_t p = C(A(1)), n = C(A(2)); for (uint64_t i = 0; i < n; i++) { Val v = loadLeaf(p + i, 8); fputc(v.e ? (int)evalM(v.e) : (int)v.lo, stderr); } } retU(na > 2 ? C(A(2)) : 0); return false;
    case H_ERRNO: { static uint64_t e = 0; if (!e) { e = xalloc(16, 16, true); } retU(e); return false; }
    case H_GETRANDOM: { uint64_t p = C(A(0)), n = C(A(1)); for (uint64_t i = 0; i < n; i++) storeLeaf(p + i, {(i * 37 + 11) & 255, 0, 0}, 8); retU(n); return false; }
    case H_RANDKEYS: if (dst >= 0 && I.n == 2) { regs[dst] = {0x243f6a8885a308d3ull, 0, 0}; regs[dst + 1] = {0x13198a2e03707344ull, 0, 0}; return false; } fatal("hashmap_random_keys signature");
    case H_ABORT: case I_TRAP: case H_PANIC: {
      Args aa{&I, regs, na, as}; std::string loc = h == H_PANIC ? panicLocation(aa) : "abort"; 
      __sync_fetch_and_add(&SH->panics, 1);
      recordViolation("panic", "panic at " + loc); finishProc(); }
    case H_SYM_U8: ret(fromE(symBytes(8, "u"))); return false;
    case H_SYM_U16: ret(fromE(symBytes(16, "u"))); return false;
    case H_SYM_U32: ret(fromE(symBytes(32, "u"))); return false;
    case H_SYM_U64: ret(fromE(symBytes(64, "u"))); return false;
    case H_SYM_BOOL: { E e = symBytes(1, "b"); ret(fromE(rw == 1 ? e : mkZext(e, rw))); return false; }
    case H_SYM_BYTES: { uint64_t p = C(A(0)), n = C(A(1)); for (uint64_t i = 0; i < n; i++) storeLeaf(p + i, {0, 0, symBytes(8, "s")}, 8); return false; }
    case H_SYM_CHOICE: { uint64_t n = C(A(0)); E e = symBytes(8, "c"); if (n == 0 || n > 256) fatal("sym_choice"); if (n < 256) pcAssume(mkBin(X_ULT, e, mkC(n, 8))); retU(concretize(e)); return false; }
    case H_SYM_CONC: { retU(C(A(0))); return false; }
    case H_SYM_ISSYM: retU(A(0).e != 0); return false;
    case H_SYM_ASSUME: {
      const Val& v = A(0); if (!v.e) { if (!(v.lo & 1)) { __sync_fetch_and_add(&SH->assumed_away, 1); finishProc(); } return false; }
      E c = N[v.e].w == 1 ? v.e : mkNot1(mkEq(v.e, mkC(0, N[v.e].w)));
      std::vector<uint8_t> other; Tri r = decide(c, &other);
      if (r == T_TRUE) return false; if (r == T_FALSE) { __sync_fetch_and_add(&SH->assumed_away, 1); finishProc(); }
      if (r == T_UNKNOWN) fatal("solver gave up on an assumption");
      if (!evalM(c)) setModel(other); pcAssume(c); return false; }
    case H_SYM_ASSERT: {
      __sync_fetch_and_add(&SH->asserts, 1);
      const Val& v = A(0); std::string msg = memStr(C(A(1)), C(A(2)));
      if (!v.e) { if (!(v.lo & 1)) { recordViolation("assert", msg); finishProc(); } return false; }
      E c = N[v.e].w == 1 ? v.e : mkNot1(mkEq(v.e, mkC(0, N[v.e].w)));
      std::vector<uint8_t> m; int r = z3Sat(mkNot1(c), &m);
      if (r < 0) fatal("solver gave up on assertion '%s'", msg.c_str());
      if (r == 0) { pcAssume(c); return false; }
      auto save = model; setModel(m); recordViolation("assert", msg); setModel(save);
      int r2 = evalM(c) ? 1 : z3Sat(c, &m); if (r2 < 0) fatal("solver gave up"); if (!r2) finishProc(); if (!evalM(c)) setModel(m); pcAssume(c); return false; }
    case H_SYM_FAIL: { recordViolation("assert", memStr(C(A(0)), C(A(1)))); finishProc(); }
    case H_SYM_COVER: { uint64_t k = C(A(0)); if (k < MAXCOV) SH->cov[k] = 1; return false; }
    case H_SYM_OBSERVE: observed.push_back({64, A(0)}); return false;
    case H_DECFMT: {
      // <uN as Display>::fmt(&self | self, f)
      size_t p = f->name.find("4core3fmt3num3imp") + 17; char ty = f->name[p]; int w = ty == 'h' ? 8 : ty == 't' ? 16 : ty == 'm' ? 32 : 64;
      if (na != 2) return true; Val v = f->params[0]->k == TK_PTR ? loadLeaf(C(A(0)), w) : A(0);
      if (!v.e || !padIntegral) { return true; }
      std::vector<E> d = decimalDigits(mkExtract(v.e, 0, w), w); uint64_t b = xalloc(d.size() + 1, 16, false);
      for (size_t i = 0; i < d.size(); i++) storeLeaf(b + i, fromE(mkBin(X_ADD, d[i], mkC('0', 8))), 8);
      Val fm = A(1); pushFrame(padIntegral, dst, I.n);
      setArg(0, fm); setArg(1, {1, 0, 0}); setArg(2, {GL_BASE, 0, 0}); setArg(3, {0, 0, 0}); setArg(4, {b, 0, 0}); setArg(5, {d.size(), 0, 0}); return false; }
    case H_DECBUF: {
      if (I.n != 2 || na < 2) return true; Val v = A(0); int w = AW(0); if (!v.e) return true;
      int mx = w == 32 ? 10 : 20; std::vector<E> d = decimalDigits(v.e, w); uint64_t b = C(A(1)) + mx - d.size();
      for (size_t i = 0; i < d.size(); i++) storeLeaf(b + i, fromE(mkBin(X_ADD, d[i], mkC('0', 8))), 8);
      regs[dst] = {b, 0, 0}; regs[dst + 1] = {d.size(), 0, 0}; return false; }
    case H_HASHONE: retU(0x9e3779b97f4a7c15ull); return false;
    // ---- intrinsics
    case I_NOP: return false;
    case I_ARG0: ret(A(0)); return false;
    case I_ISCONST: retU(0); return false;
    case I_UMAX: case I_UMIN: case I_SMAX: case I_SMIN: for (int i = 0; i < AN(0); i++) { Val a = leaf(0, i), b = leaf(1, i); int w = AW(0); Val c = icmp(h == I_UMAX ? P_UGT : h == I_UMIN ? P_ULT : h == I_SMAX ? P_SGT : P_SLT, a, b, w); regs[dst + i] = c.e ? ite(c.e, a, b, w) : c.lo ? a : b; } return false;
    case I_CTLZ: case I_CTTZ: case I_CTPOP: for (int i = 0; i < AN(0); i++) {
      Val a = leaf(0, i); int w = AW(0);
      if (!a.e) { u128 v = ((u128)a.hi << 64) | a.lo; int r = 0; if (h == I_CTPOP) { while (v) { r += v & 1; v >>= 1; } } else if (h == I_CTTZ) { while (r < w && !((v >> r) & 1)) r++; } else { while (r < w && !((v >> (w - 1 - r)) & 1)) r++; } regs[dst + i] = {(uint64_t)r, 0, 0}; }
      else { E acc; if (h == I_CTPOP) { acc = mkC(0, w); for (int k = 0; k < w; k++) acc = mkBin(X_ADD, acc, w == 1 ? a.e : mkZext(mkExtract(a.e, k, 1), w)); } else { acc = mkC(w, w); for (int k = w - 1; k >= 0; k--) { int bit = h == I_CTTZ ? k : w - 1 - k; acc = mkIte(mkExtract(a.e, bit, 1), mkC(k, w), acc); } } regs[dst + i] = fromE(acc); } } return false;
    case I_BSWAP: { Val a = A(0); int w = AW(0); if (!a.e && w <= 64) { uint64_t r = 0; for (int k = 0; k < w; k += 8) r |= ((a.lo >> k) & 255) << (w - 8 - k); retU(r); } else { E e = toE(a, w), acc = mkExtract(e, 0, 8); for (int k = 8; k < w; k += 8) acc = mkConcat(acc, mkExtract(e, k, 8)); ret(fromE(acc)); } return false; }
    case I_BITREV: { Val a = A(0); int w = AW(0); if (!a.e && w <= 64) { uint64_t r = 0; for (int k = 0; k < w; k++) r |= ((a.lo >> k) & 1) << (w - 1 - k); retU(r); } else { E e = toE(a, w), acc = mkExtract(e, 0, 1); for (int k = 1; k < w; k++) acc = mkConcat(acc, mkExtract(e, k, 1)); ret(fromE(acc)); } return false; }
    case I_USUBSAT: case I_UADDSAT: for (int i = 0; i < AN(0); i++) { Val a = leaf(0, i), b = leaf(1, i); int w = AW(0); if (w > 64) fatal("sat width"); if (h == I_USUBSAT) { Val c = icmp(P_ULT, a, b, w), d = binop(X_SUB, a, b, w); regs[dst + i] = c.e ? ite(c.e, {0, 0, 0}, d, w) : c.lo ? Val{0, 0, 0} : d; } else { Val d = binop(X_ADD, a, b, w); Val c = icmp(P_ULT, d, a, w); Val m{mask64(w), 0, 0}; regs[dst + i] = c.e ? ite(c.e, m, d, w) : c.lo ? m : d; } } return false;
    case I_UADDO: case I_USUBO: case I_UMULO: case I_SADDO: case I_SSUBO: case I_SMULO: {
      Val a = A(0), b = A(1); int w = AW(0); if (w > 64 && (h > I_UMULO || (h == I_UMULO && ((a.e && b.e) || !(a.e || b.e) || (a.e ? b : a).hi)))) fatal("wide overflow intrinsic");
      Val r, o{0, 0, 0};
      if (h == I_UADDO) { r = binop(X_ADD, a, b, w); o = icmp(P_ULT, r, a, w); }
      else if (h == I_USUBO) { r = binop(X_SUB, a, b, w); o = icmp(P_ULT, a, b, w); }
      else if (h == I_UMULO) {
        r = binop(X_MUL, a, b, w);
        if (!a.e && !b.e) { u128 p = (u128)a.lo * b.lo; o.lo = p > maskw(w); }
        else if (!a.e || !b.e) { const Val& k = a.e ? b : a; const Val& s = a.e ? a : b; if (k.lo) { u128 q = maskw(w) / k.lo; o = icmp(P_UGT, s, {(uint64_t)q, (uint64_t)(q >> 64), 0}, w); } }
        else { E p = mkBin(X_MUL, mkZext(a.e, 2 * w), mkZext(b.e, 2 * w)); o = fromE(mkNot1(mkEq(mkExtract(p, w, w), mkC(0, w)))); }
      } else {
        int W = h == I_SMULO ? 2 * w : w + 1; int op = h == I_SADDO ? X_ADD : h == I_SSUBO ? X_SUB : X_MUL;
        E x = mkSext(toE(a, w), W), y = mkSext(toE(b, w), W), p = mkBin(op, x, y); E lo = mkExtract(p, 0, w); r = fromE(lo); o = fromE(mkNot1(mkEq(mkSext(lo, W), p)));
      }
      regs[dst] = r; regs[dst + 1] = o; return false; }
    case I_SSUBSAT: case I_SADDSAT: { int w = AW(0); E x = mkSext(toE(A(0), w), w + 1), y = mkSext(toE(A(1), w), w + 1), p = mkBin(h == I_SADDSAT ? X_ADD : X_SUB, x, y); E mn = mkC((u128)1 << (w - 1), w), mxv = mkC(maskw(w - 1), w); E fits = mkEq(mkSext(mkExtract(p, 0, w), w + 1), p); ret(fromE(mkIte(fits, mkExtract(p, 0, w), mkIte(sgn(p, w + 1), mn, mxv)))); return false; }
    case I_FSHL: case I_FSHR: { int w = AW(0); Val s = A(2); if (s.e) { E x = toE(A(0), w), y = toE(A(1), w), k = mkBin(X_UREM, s.e, mkC(w, w)); if (2 * w > 128) fatal("fsh width"); E cc = mkConcat(x, y), kk = mkZext(k, 2 * w); E r = h == I_FSHL ? mkExtract(mkBin(X_SHL, cc, kk), w, w) : mkExtract(mkBin(X_LSHR, cc, kk), 0, w); ret(fromE(r)); return false; }
      int k = s.lo % w; if (!k) { ret(h == I_FSHL ? A(0) : A(1)); return false; } if (h == I_FSHR) k = w - k; Val r1 = binop(X_SHL, A(0), {(uint64_t)k, 0, 0}, w), r2 = binop(X_LSHR, A(1), {(uint64_t)(w - k), 0, 0}, w); ret(binop(X_OR, r1, r2, w)); return false; }
    case I_ABS: { int w = AW(0); Val a = A(0), c = icmp(P_SLT, a, {0, 0, 0}, w), n = binop(X_SUB, {0, 0, 0}, a, w); ret(c.e ? ite(c.e, n, a, w) : c.lo ? n : a); return false; }
    case I_SCMP: case I_UCMP: { int w = AW(0); Val lt = icmp(h == I_SCMP ? P_SLT : P_ULT, A(0), A(1), w), gt = icmp(h == I_SCMP ? P_SGT : P_UGT, A(0), A(1), w); E l = toE(lt, 1), g = toE(gt, 1); ret(fromE(mkIte(l, mkC(~(u128)0, rw), mkIte(g, mkC(1, rw), mkC(0, rw))))); return false; }
    case I_LOADREL: { uint64_t b = C(A(0)); Val o = A(1); uint64_t off = C(o); Val v = loadLeaf(b + off, 32); retU(b + (int64_t)(int32_t)C(v)); return false; }
    case I_RED_OR: case I_RED_AND: case I_RED_ADD: case I_RED_XOR: { int w = AW(0); Val a = leaf(0, 0); int op = h == I_RED_OR ? X_OR : h == I_RED_AND ? X_AND : h == I_RED_ADD ? X_ADD : X_XOR; for (int i = 1; i < AN(0); i++) a = binop(op, a, leaf(0, i), w); ret(a); return false; }
    case I_RED_UMAX: case I_RED_UMIN: { int w = AW(0); Val a = leaf(0, 0); for (int i = 1; i < AN(0); i++) { Val b = leaf(0, i); Val c = icmp(h == I_RED_UMAX ? P_UGT : P_ULT, a, b, w); a = c.e ? ite(c.e, a, b, w) : c.lo ? a : b; } ret(a); return false; }
    case I_PTRMASK: ret(binop(X_AND, A(0), A(1), 64)); return false;
    default: fatal("unsupported external/intrinsic %s", f->name.c_str());
  }
  return false;
}
static void pushFrame(Func* f, int dst, int nret) {
  if ((int)frames.size() > maxDepth) { recordViolation("recursion", "call depth exceeds " + std::to_string(maxDepth)); finishProc(); }
  Frame fr; fr.f = f; fr.regs = regTop; fr.ip = 0; fr.stackSave = stackTop; fr.dst = dst; fr.nret = nret; regTop += f->nslots + 1; frames.push_back(fr); SH->fn[f->id] = 1; curFn = f;
}
static void run(Func* entry) {
  pushFrame(entry, -1, 0);
  Func* f; Val* regs; const Inst* code; uint32_t ip; uint64_t budget = maxInstr;
#define LOADSTATE() do { Frame& F_ = frames.back(); f = F_.f; regs = F_.regs; code = f->code.data(); ip = F_.ip; curFn = f; } while (0)
#define R(o) opv(regs, (o))
  Val tmp[512];
  LOADSTATE();
  auto takeEdge = [&](uint32_t e) {
    const Edge& ed = edges[e]; const int64_t* c = &aux[ed.cp]; uint32_t n = ed.ncp;
    if (n == 1) regs[c[0]] = R((int)c[1]);
    else if (n) { if (n > 512) fatal("too many phis"); for (uint32_t i = 0; i < n; i++) tmp[i] = R((int)c[2 * i + 1]); for (uint32_t i = 0; i < n; i++) regs[c[2 * i]] = tmp[i]; }
    ip = ed.target;
  };
  for (;;) {
    if (__builtin_expect(trace, 0) && curInst && curInst->dst >= 0 && curFn == f && getenv("SYMX_TR")) { const Val& tv = regs[curInst->dst]; fprintf(stderr, "   L%u op%d dst=%d -> %llx %u\n", curInst->line, curInst->op, curInst->dst, (unsigned long long)tv.lo, tv.e); }
    const Inst& I = code[ip++]; curInst = &I;
    if (__builtin_expect((++nInstr & 0xfffff) == 0, 0)) { if (SH->stop) finishProc(); if (nInstr > budget) { recordViolation("steps", "path exceeds " + std::to_string(maxInstr) + " instructions"); finishProc(); } }
    switch (I.op) {
      case O_BIN: if (I.n == 1) {
          if (__builtin_expect(I.sub >= X_UDIV && I.sub <= X_SREM, 0)) { const Val& d = R(I.b); if (d.e && branchOn(mkEq(d.e, mkC(0, I.w)))) fatal("division by zero reachable"); }
          regs[I.dst] = binop(I.sub, R(I.a), R(I.b), I.w); }
        else for (uint32_t k = 0; k < I.n; k++) regs[I.dst + k] = binop(I.sub, R(I.a >= 0 ? I.a + (int)k : I.a - (int)k), R(I.b >= 0 ? I.b + (int)k : I.b - (int)k), I.w);
        break;
      case O_ICMP: if (I.n == 1) regs[I.dst] = icmp(I.sub, R(I.a), R(I.b), I.w);
        else for (uint32_t k = 0; k < I.n; k++) regs[I.dst + k] = icmp(I.sub, R(I.a >= 0 ? I.a + (int)k : I.a - (int)k), R(I.b >= 0 ? I.b + (int)k : I.b - (int)k), I.w);
        break;
      case O_ZEXT: for (uint32_t k = 0; k < I.n; k++) { const Val& a = R(I.a >= 0 ? I.a + (int)k : I.a - (int)k); regs[I.dst + k] = a.e ? fromE(mkZext(a.e, I.x)) : a; } break;
      case O_SEXT: for (uint32_t k = 0; k < I.n; k++) { const Val& a = R(I.a >= 0 ? I.a + (int)k : I.a - (int)k); if (a.e) regs[I.dst + k] = fromE(mkSext(a.e, I.x)); else { u128 v = (u128)sext128(((u128)a.hi << 64) | a.lo, I.w) & maskw(I.x); regs[I.dst + k] = {(uint64_t)v, (uint64_t)(v >> 64), 0}; } } break;
      case OP_TRUNC: for (uint32_t k = 0; k < I.n; k++) { const Val& a = R(I.a >= 0 ? I.a + (int)k : I.a - (int)k); if (a.e) regs[I.dst + k] = fromE(mkExtract(a.e, 0, I.x)); else regs[I.dst + k] = {a.lo & mask64(I.x > 64 ? 64 : I.x), I.x > 64 ? a.hi & mask64(I.x - 64) : 0, 0}; } break;
      case O_COPY: if (I.n == 1) regs[I.dst] = R(I.a); else { if (I.n > 512) fatal("aggregate too large"); for (uint32_t k = 0; k < I.n; k++) tmp[k] = R(I.a >= 0 ? I.a + (int)k : I.a - (int)k); for (uint32_t k = 0; k < I.n; k++) regs[I.dst + k] = tmp[k]; } break;
      case O_BITCAST: {
        int dn = aux[I.x], dw = aux[I.x + 1]; bool sym = false; for (uint32_t k = 0; k < I.n; k++) if (R(I.a >= 0 ? I.a + (int)k : I.a - (int)k).e) sym = true;
        if (!sym) { uint64_t bits[16] = {0}; int pos = 0; if (I.n * I.w > 1024) fatal("bitcast width"); for (uint32_t k = 0; k < I.n; k++) { const Val& a = R(I.a >= 0 ? I.a + (int)k : I.a - (int)k); for (int b = 0; b < I.w; b++, pos++) { uint64_t bit = b < 64 ? a.lo >> b & 1 : a.hi >> (b - 64) & 1; bits[pos >> 6] |= bit << (pos & 63); } }
          pos = 0; for (int k = 0; k < dn; k++) { Val v{0, 0, 0}; for (int b = 0; b < dw; b++, pos++) { uint64_t bit = bits[pos >> 6] >> (pos & 63) & 1; if (b < 64) v.lo |= bit << b; else v.hi |= bit << (b - 64); } tmp[k] = v; } for (int k = 0; k < dn; k++) regs[I.dst + k] = tmp[k]; }
        else { if (I.n * I.w > 128) fatal("symbolic bitcast width"); E acc = 0; for (uint32_t k = 0; k < I.n; k++) { E b = toE(R(I.a >= 0 ? I.a + (int)k : I.a - (int)k), I.w); acc = acc ? mkConcat(b, acc) : b; } for (int k = 0; k < dn; k++) tmp[k] = fromE(mkExtract(acc, k * dw, dw)); for (int k = 0; k < dn; k++) regs[I.dst + k] = tmp[k]; }
        break; }
      case O_SELECT: {
        const Val c = R(I.c);
        if (!I.sub) { if (!c.e) { int s = c.lo & 1 ? I.a : I.b; if (I.n == 1) regs[I.dst] = R(s); else { for (uint32_t k = 0; k < I.n; k++) tmp[k] = R(s >= 0 ? s + (int)k : s - (int)k); for (uint32_t k = 0; k < I.n; k++) regs[I.dst + k] = tmp[k]; } }
          else { for (uint32_t k = 0; k < I.n; k++) tmp[k] = ite(c.e, R(I.a >= 0 ? I.a + (int)k : I.a - (int)k), R(I.b >= 0 ? I.b + (int)k : I.b - (int)k), aux[I.x + 2 * k + 1]); for (uint32_t k = 0; k < I.n; k++) regs[I.dst + k] = tmp[k]; } }
        else { for (uint32_t k = 0; k < I.n; k++) { const Val& ck = R(I.c >= 0 ? I.c + (int)k : I.c - (int)k); const Val& x = R(I.a >= 0 ? I.a + (int)k : I.a - (int)k); const Val& y = R(I.b >= 0 ? I.b + (int)k : I.b - (int)k); tmp[k] = ck.e ? ite(ck.e, x, y, I.w) : (ck.lo & 1) ? x : y; } for (uint32_t k = 0; k < I.n; k++) regs[I.dst + k] = tmp[k]; }
        break; }
      case O_LOAD: {
        const Val p = R(I.a);
        if (I.n == 1) { if (__builtin_expect(p.e != 0, 0)) regs[I.dst] = loadSymAddr(p.e, I.w, I.sub); else regs[I.dst] = loadLeaf(p.lo, I.w); }
        else { uint64_t a = C(p); for (uint32_t k = 0; k < I.n; k++) regs[I.dst + k] = loadLeaf(a + aux[I.x + 2 * k], aux[I.x + 2 * k + 1]); }
        break; }
      case O_STORE: {
        const Val& p = R(I.b); uint64_t a = p.e ? concretize(p.e) : p.lo;
        if (I.n == 1) storeLeaf(a, R(I.a), I.w); else for (uint32_t k = 0; k < I.n; k++) storeLeaf(a + aux[I.x + 2 * k], R(I.a >= 0 ? I.a + (int)k : I.a - (int)k), aux[I.x + 2 * k + 1]);
        break; }
      case O_ALLOCA: { uint64_t sz = aux[I.x], al = aux[I.x + 1]; if (I.n) sz *= C(R(I.a)); if (al < 16) al = 16; stackTop = (stackTop + al - 1) / al * al; regs[I.dst] = {stackTop, 0, 0}; stackTop += sz ? sz : 1; if (stackTop > STACK_END - 65536) { recordViolation("recursion", "stack exhausted"); finishProc(); } break; }
      case O_GEP: {
        const Val& b = R(I.a); const int64_t* x = &aux[I.x]; bool sym = b.e != 0; for (uint32_t k = 0; k < I.n && !sym; k++) if (R((int)x[1 + 3 * k]).e) sym = true;
        if (!sym) { uint64_t a = b.lo + x[0]; for (uint32_t k = 0; k < I.n; k++) { const Val& v = R((int)x[1 + 3 * k]); int w = x[3 + 3 * k]; int64_t iv = w >= 64 ? (int64_t)v.lo : (int64_t)(v.lo << (64 - w)) >> (64 - w); a += iv * x[2 + 3 * k]; } regs[I.dst] = {a, 0, 0}; }
        else { E a = mkBin(X_ADD, toE(b, 64), mkC((u128)(i128)x[0], 64)); for (uint32_t k = 0; k < I.n; k++) { const Val& v = R((int)x[1 + 3 * k]); int w = x[3 + 3 * k]; E iv = w < 64 ? mkSext(toE(v, w), 64) : w > 64 ? mkExtract(toE(v, w), 0, 64) : toE(v, 64); a = mkBin(X_ADD, a, mkBin(X_MUL, iv, mkC(x[2 + 3 * k], 64))); } regs[I.dst] = fromE(a); }
        break; }
      case O_INSERTV: for (uint32_t k = 0; k < I.n; k++) tmp[k] = R(I.a >= 0 ? I.a + (int)k : I.a - (int)k); for (uint32_t k = 0; k < I.x; k++) tmp[I.c + k] = R(I.b >= 0 ? I.b + (int)k : I.b - (int)k); for (uint32_t k = 0; k < I.n; k++) regs[I.dst + k] = tmp[k]; break;
      case O_EXTRACTE: { uint64_t ix = C(R(I.b)); if (ix >= I.n) ix = 0; regs[I.dst] = R(I.a >= 0 ? I.a + (int)ix : I.a - (int)ix); break; }
      case O_INSERTE: { uint64_t ix = C(R(I.c)); Val v = R(I.b); for (uint32_t k = 0; k < I.n; k++) tmp[k] = R(I.a >= 0 ? I.a + (int)k : I.a - (int)k); if (ix < I.n) tmp[ix] = v; for (uint32_t k = 0; k < I.n; k++) regs[I.dst + k] = tmp[k]; break; }
      case O_SHUFFLE: for (uint32_t k = 0; k < I.n; k++) { int64_t m = aux[I.x + k]; tmp[k] = m < I.c ? R(I.a >= 0 ? I.a + (int)m : I.a - (int)m) : R(I.b >= 0 ? I.b + (int)(m - I.c) : I.b - (int)(m - I.c)); } for (uint32_t k = 0; k < I.n; k++) regs[I.dst + k] = tmp[k]; break;
      case O_BR: takeEdge(I.x); break;
      case O_CBR: { const Val& c = R(I.a); bool t = c.e ? branchOn(c.e) : (c.lo & 1); takeEdge(t ? I.x : I.n); break; }
      case O_SWITCH: {
        const Val c = R(I.a); const int64_t* x = &aux[I.x]; uint32_t e = x[0];
        if (!c.e) { for (uint32_t k = 0; k < I.n; k++) if ((uint64_t)x[1 + 3 * k] == c.lo && (uint64_t)x[2 + 3 * k] == c.hi) { e = x[3 + 3 * k]; break; } }
        else { std::vector<std::pair<uint32_t, E>> g; for (uint32_t k = 0; k < I.n; k++) { E q = mkEq(c.e, mkC(((u128)(uint64_t)x[2 + 3 * k] << 64) | (uint64_t)x[1 + 3 * k], I.w)); bool fnd = false; for (auto& p : g) if (p.first == (uint32_t)x[3 + 3 * k]) { p.second = mkOr(p.second, q); fnd = true; } if (!fnd) g.push_back({(uint32_t)x[3 + 3 * k], q}); }
          // try the target the current model takes first
          for (auto& p : g) if (branchOn(p.second)) { e = p.first; break; } }
        takeEdge(e); break; }
      case O_RET: {
        Frame fr = frames.back(); frames.pop_back(); stackTop = fr.stackSave;
        if (frames.empty()) { pathDone(); }
        Val* cr = frames.back().regs; if (fr.dst >= 0) { if (I.n == 1) { Val v = R(I.a); cr[fr.dst] = v; } else for (uint32_t k = 0; k < I.n; k++) cr[fr.dst + k] = R(I.a >= 0 ? I.a + (int)k : I.a - (int)k); }
        regTop = fr.regs; LOADSTATE(); break; }
      case O_UNREACHABLE: fatal("reached 'unreachable'");
      case O_CALL: {
        if (I.sub == 2) { const int64_t* ax = &aux[I.x]; int nr = ax[1]; if (I.dst >= 0) for (int k = 0; k < nr; k++) regs[I.dst + k] = {0, 0, 0}; break; }  // inline asm: only cpuid occurs; report no features
        Func* g;
        if (I.sub == 1) { uint64_t a = C(R(I.a)); if (a < FN_BASE || (a - FN_BASE) / 16 >= funcs.size() || (a - FN_BASE) % 16) fatal("indirect call to bad address 0x%llx", (unsigned long long)a); g = funcs[(a - FN_BASE) / 16]; }
        else g = funcs[I.b];
        if (g->hook) { frames.back().ip = ip; size_t d = frames.size(); bool fallthrough = doHook(g->hook, g, I, regs); if (!fallthrough) { if (frames.size() != d) { LOADSTATE(); } break; } }
        if (!g->defined) fatal("call to undefined %s", g->name.c_str());
        const int64_t* ax = &aux[I.x]; int na = ax[0]; const int64_t* as = ax + 3; frames.back().ip = ip; Val* cr = regs;
        if (trace) fprintf(stderr, "%*s%s\n", (int)frames.size(), "", g->name.c_str());
        pushFrame(g, I.dst, I.n); Val* nr = frames.back().regs; int s = 0;
        for (int k = 0; k < na; k++) { int o = as[3 * k]; int nl = as[3 * k + 1]; if (nl == 1) nr[s++] = opv(cr, o); else { for (int q = 0; q < nl; q++) nr[s++] = opv(cr, o >= 0 ? o + q : o - q); if (!nl) s++; } }
        LOADSTATE(); break; }
      case O_ARMW: {
        uint64_t a = C(R(I.a)); Val old = loadLeaf(a, I.w), v = R(I.b), nv;
        switch (I.sub) { case 0: nv = v; break; case 1: nv = binop(X_ADD, old, v, I.w); break; case 2: nv = binop(X_SUB, old, v, I.w); break; case 3: nv = binop(X_AND, old, v, I.w); break; case 4: nv = binop(X_XOR, binop(X_AND, old, v, I.w), {mask64(I.w), 0, 0}, I.w); break; case 5: nv = binop(X_OR, old, v, I.w); break; case 6: nv = binop(X_XOR, old, v, I.w); break;
          default: { Val c = icmp(I.sub == 7 ? P_SGT : I.sub == 8 ? P_SLT : I.sub == 9 ? P_UGT : P_ULT, old, v, I.w); nv = c.e ? ite(c.e, old, v, I.w) : c.lo ? old : v; } }
        storeLeaf(a, nv, I.w); if (I.dst >= 0) regs[I.dst] = old; break; }
      case O_CMPXCHG: { uint64_t a = C(R(I.a)); Val old = loadLeaf(a, I.w); Val c = icmp(P_EQ, old, R(I.b), I.w); bool eq = c.e ? branchOn(c.e) : c.lo; if (eq) storeLeaf(a, R(I.c), I.w); if (I.dst >= 0) { regs[I.dst] = old; regs[I.dst + 1] = {eq, 0, 0}; } break; }
      case O_NOP: break;
      case O_FLT: { double x = asD(R(I.a), I.w), y = asD(R(I.b), I.w), r; if (I.w == 32) { float p = x, q = y; r = I.sub == 0 ? p + q : I.sub == 1 ? p - q : I.sub == 2 ? p * q : I.sub == 3 ? p / q : fmodf(p, q); } else r = I.sub == 0 ? x + y : I.sub == 1 ? x - y : I.sub == 2 ? x * y : I.sub == 3 ? x / y : fmod(x, y); regs[I.dst] = fromD(r, I.w); break; }
      case O_FNEG: regs[I.dst] = fromD(-asD(R(I.a), I.w), I.w); break;
      case O_FCMP: { double x = asD(R(I.a), I.w), y = asD(R(I.b), I.w); bool un = std::isnan(x) || std::isnan(y); bool r; switch (I.sub) { case 0: r = 0; break; case 1: r = !un && x == y; break; case 2: r = !un && x > y; break; case 3: r = !un && x >= y; break; case 4: r = !un && x < y; break; case 5: r = !un && x <= y; break; case 6: r = !un && x != y; break; case 7: r = !un; break; case 8: r = un || x == y; break; case 9: r = un || x > y; break; case 10: r = un || x >= y; break; case 11: r = un || x < y; break; case 12: r = un || x <= y; break; case 13: r = un || x != y; break; case 14: r = un; break; default: r = 1; } regs[I.dst] = {r, 0, 0}; break; }
      case O_FCVT: { Val v = R(I.a); Val r{0, 0, 0}; switch (I.sub) { case 0: r.lo = (uint64_t)asD(v, I.w) & mask64(I.x); break; case 1: r.lo = (uint64_t)(int64_t)asD(v, I.w) & mask64(I.x); break; case 2: if (v.e) fatal("symbolic fp"); r = fromD((double)v.lo, I.x); break; case 3: if (v.e) fatal("symbolic fp"); r = fromD((double)(int64_t)sext128(v.lo, I.w), I.x); break; default: r = fromD(asD(v, I.w), I.x); } regs[I.dst] = r; break; }
      default: fatal("unsupported instruction (op %d)", I.op);
    }
  }
}
static void onSegv(int, siginfo_t* si, void*) { if (getenv("SYMX_BT")) { void* bt[60]; int n = backtrace(bt, 60); backtrace_symbols_fd(bt, n, 2); } fatal("engine crashed (signal) accessing %p", si->si_addr); }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

int main(int argc, char** argv) {
  // deep recursion in expression traversal: re-exec with a large stack
  rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 29) && !getenv("SYMX_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (1ull << 29) ? (1ull << 29) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("SYMX_STACK", "1", 1); execv("/proc/self/exe", argv); }
  std::string ll; std::vector<std::string> hs; int jobs = 8; double tlimit = 600; unsigned rlim = 60000000;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") outDir = argv[++i]; else if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-t") tlimit = atof(argv[++i]); else if (a == "-r") rlim = strtoul(argv[++i], 0, 10);
    else if (a == "-s") sampleMax = atoi(argv[++i]); else if (a == "-i") maxInstr = strtoull(argv[++i], 0, 10); else if (a == "-V") maxViol = atoi(argv[++i]); else if (a == "--trace") trace = true; else if (a == "-c") { concMode = true; FILE* f = fopen(argv[++i], "r"); int w; unsigned long long v; while (fscanf(f, "%d %llx", &w, &v) == 2) concIn.push_back(v); fclose(f); } else if (a == "--hash-const") hashHook = true;
    else if (ll.empty()) ll = a; else hs.push_back(a);
  }
  if (ll.empty() || outDir.empty()) { fprintf(stderr, "usage: symx file.ll -o outdir [-j n] [-t secs] harness...\n"); return 3; }
  mkdir(outDir.c_str(), 0777); double t0 = now();
  if (mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED || mmap(SHADOW, ARENA_SIZE * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED || mmap(COARSE, ARENA_SIZE / 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) fatal("mmap arena");
  loadModule(ll.c_str());
  for (size_t i = 0; i < funcs.size(); i++) { Func* f = funcs[i]; f->hook = hookFor(f); if (f->defined && f->name.find("9Formatter12pad_integral") != std::string::npos && endsWith(stripSuffix(f->name), "12pad_integral") && f->params.size() == 6) padIntegral = f; }
  for (auto f : funcs) if (f->defined) parseBody(f);
  if (funcs.size() > MAXFUNCS) fatal("too many functions");
  fprintf(stderr, "symx: loaded %zu functions, %zu aux, %.2fs\n", funcs.size(), aux.size(), now() - t0);
  regTop = (Val*)mmap(0, 4ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  SC = (Sched*)mmap(0, sizeof(Sched), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SC->tokens = jobs;
  signal(SIGCHLD, SIG_IGN); mkC(0, 1);
  stack_t ss; ss.ss_size = 1 << 20; ss.ss_sp = malloc(ss.ss_size); ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0);
  rootPid = getpid(); setpgid(0, 0);
  std::vector<Shared*> shs; std::vector<double> started(hs.size()), ended(hs.size(), 0);
  double deadline = now() + tlimit;
  for (size_t i = 0; i < hs.size(); i++) {
    Shared* s = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); shs.push_back(s); s->live = 1; started[i] = now();
    pid_t p = fork(); if (p < 0) fatal("fork");
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      SH = s; curHarness = hs[i]; inRun = true; acquireToken();
      auto it = funcByName.find(hs[i]); if (it == funcByName.end()) fatal("no harness %s", hs[i].c_str());
      solverInit(rlim, nullptr); run(funcs[it->second]);
    }
  }
  bool timeout = false;
  for (;;) {
    bool any = false; for (size_t i = 0; i < shs.size(); i++) { if (shs[i]->live) any = true; else if (!ended[i]) ended[i] = now(); }
    if (!any) break;
    if (now() > deadline) { timeout = true; for (auto s : shs) if (s->live) s->stop = 2; double g = now() + 3; while (now() < g) { bool a = false; for (auto s : shs) if (s->live) a = true; if (!a) break; usleep(20000); } break; }
    usleep(5000);
  }
  FILE* o = fopen((outDir + "/result.json").c_str(), "w"); fprintf(o, "{\"timeout\": %s, \"wall\": %.2f, \"harness\": {", timeout ? "true" : "false", now() - t0);
  std::set<int> fu;
  for (size_t i = 0; i < shs.size(); i++) {
    Shared* s = shs[i]; std::string cov; for (int k = 0; k < MAXCOV; k++) if (s->cov[k]) cov += (cov.empty() ? "" : ",") + std::to_string(k);
    std::string fl; int nf = 0; for (size_t k = 0; k < funcs.size(); k++) if (s->fn[k]) { nf++; fl += (fl.empty() ? "\"" : ",\"") + jesc(funcs[k]->name) + "\""; }
    fprintf(o, "%s\n\"%s\": {\"paths\": %llu, \"assumed_away\": %llu, \"violations\": %llu, \"panics\": %llu, \"errors\": %llu, \"unfinished\": %llu, \"error\": \"%s\", \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"dom_queries\": %llu, \"solver_us\": %llu, \"max_query_us\": %llu, \"branches\": %llu, \"instrs\": %llu, \"asserts\": %llu, \"forks\": %llu, \"maxdepth\": %llu, \"samples\": %llu, \"wall\": %.2f, \"cover\": [%s], \"functions\": [%s]}", i ? "," : "", hs[i].c_str(),
      (unsigned long long)s->paths, (unsigned long long)s->assumed_away, (unsigned long long)s->violations, (unsigned long long)s->panics, (unsigned long long)s->errors, (unsigned long long)s->live, jesc(s->err).c_str(), (unsigned long long)s->queries, (unsigned long long)s->q_sat, (unsigned long long)s->q_unsat, (unsigned long long)s->q_unknown, (unsigned long long)s->dom_queries, (unsigned long long)s->solver_us, (unsigned long long)s->max_query_us, (unsigned long long)s->branches, (unsigned long long)s->instrs, (unsigned long long)s->asserts, (unsigned long long)s->procs, (unsigned long long)s->maxdepth, (unsigned long long)s->samples, (ended[i] ? ended[i] : now()) - started[i], cov.c_str(), fl.c_str());
    fprintf(stderr, "%-28s paths=%llu viol=%llu err=%llu unfinished=%llu queries=%llu dom=%llu solver=%.1fs maxq=%.2fs instr=%.1fM t=%.1fs %s\n", hs[i].c_str(), (unsigned long long)s->paths, (unsigned long long)s->violations, (unsigned long long)s->errors, (unsigned long long)s->live, (unsigned long long)s->queries, (unsigned long long)s->dom_queries, s->solver_us / 1e6, s->max_query_us / 1e6, s->instrs / 1e6, (ended[i] ? ended[i] : now()) - started[i], s->errors ? s->err : "");
  }
  fprintf(o, "}}\n"); fclose(o);
  if (timeout) { fflush(stderr); signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); }  // leftovers of our own process group
  _exit(timeout ? 4 : 0);
}
