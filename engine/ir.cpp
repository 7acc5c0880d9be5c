#include "ir.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <map>
std::vector<Func*> funcs;
std::unordered_map<std::string, uint32_t> funcByName;
std::vector<Val> consts;
std::vector<int64_t> aux;
std::vector<Edge> edges;
uint64_t globalsEnd = GL_BASE;
struct Global { std::string name; Type* ty; const char* init; uint64_t addr; bool ext, weak; };
static std::vector<Global> globals;
static std::unordered_map<std::string, uint32_t> globByName;
static std::unordered_map<std::string, std::string> aliases;
static std::map<std::string, Type*> namedTypes;
static const char *buf, *bufEnd;

static std::map<std::string, Type*> tcache;
static Type* tInt(int b) { static Type* c[1025]; if (b > 1024) fatal("int width %d", b); if (!c[b]) { c[b] = new Type{TK_INT}; c[b]->bits = b; } return c[b]; }
static Type tPtrS{TK_PTR}, tVoidS{TK_VOID}, tLabelS{TK_LABEL}, tMetaS{TK_META};
static Type* tPtr = &tPtrS; static Type* tVoid = &tVoidS;
static void layout(Type* t) {
  if (t->laid) return; t->laid = true;
  switch (t->k) {
    case TK_INT: { uint64_t b = (t->bits + 7) / 8; uint64_t al = 1; while (al < b && al < 16) al *= 2; t->align = al; t->size = (b + al - 1) / al * al; t->leaves = {{0, (uint16_t)t->bits}}; break; }
    case TK_PTR: t->size = t->align = 8; t->leaves = {{0, 64}}; break;
    case TK_FLT: t->size = t->align = t->bits / 8; t->leaves = {{0, (uint16_t)t->bits}}; break;
    case TK_VEC: layout(t->el); { int eb = t->el->leaves[0].w; uint64_t es = eb / 8; t->size = (eb * t->n + 7) / 8; uint64_t p = 1; while (p < t->size) p *= 2; t->align = p; for (uint64_t i = 0; i < t->n; i++) t->leaves.push_back({es * i, (uint16_t)eb}); break; }
    case TK_ARR: layout(t->el); t->align = t->el->align; t->size = t->el->size * t->n; if (t->n * t->el->leaves.size() <= 4096) for (uint64_t i = 0; i < t->n; i++) for (auto& l : t->el->leaves) t->leaves.push_back({l.off + i * t->el->size, l.w}); break;
    case TK_STRUCT: { uint64_t o = 0; t->align = 1; for (Type* f : t->f) { layout(f); uint64_t al = t->packed ? 1 : f->align; if (al > t->align) t->align = al; o = (o + al - 1) / al * al; t->offs.push_back(o); for (auto& l : f->leaves) t->leaves.push_back({l.off + o, l.w}); o += f->size; } t->size = (o + t->align - 1) / t->align * t->align; break; }
    default: break;
  }
}
struct Lex {
  const char* p; uint32_t line = 0;
  void ws() { for (;;) { while (p < bufEnd && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) { if (*p == '\n') line++; p++; } if (p < bufEnd && *p == ';') { while (p < bufEnd && *p != '\n') p++; } else break; } }
  void wsl() { while (*p == ' ' || *p == '\t') p++; }
  bool eat(const char* s) { const char* p0 = p; uint32_t l0 = line; ws(); size_t n = strlen(s); if (!strncmp(p, s, n)) { char c = p[n]; if (!(isalnum((unsigned char)s[n - 1]) && (isalnum((unsigned char)c) || c == '_' || c == '.'))) { p += n; return true; } } p = p0; line = l0; return false; }
  bool peek(const char* s) { const char* q = p; uint32_t l = line; bool r = eat(s); p = q; line = l; return r; }
  void need(const char* s) { if (!eat(s)) err(s); }
  [[noreturn]] void err(const char* what) { fatal("IR parse error line %u: expected %s at: %.120s", line, what, p); }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  std::string ident() { ws(); if (*p == '"') { p++; std::string s; while (*p != '"') { if (*p == '\\') { if (p[1] == '\\') { s += '\\'; p += 2; continue; } s += (char)strtol(std::string(p + 1, 2).c_str(), 0, 16); p += 3; } else s += *p++; } p++; return s; }
    const char* q = p; while (idc(*p)) p++; return std::string(q, p - q); }
  std::string word() { ws(); const char* q = p; while (isalnum((unsigned char)*p) || *p == '_' || *p == '.') p++; return std::string(q, p - q); }
  void skipParens() { ws(); if (*p != '(') return; int d = 0; do { if (*p == '"') { p++; while (*p != '"') p++; } if (*p == '(') d++; if (*p == ')') d--; if (*p == '\n') line++; p++; } while (d); }
  void eol() { while (p < bufEnd && *p != '\n') p++; }
  long long num() { ws(); char* e; long long v = strtoll(p, &e, 10); if (e == p) err("number"); p = e; return v; }
};
static Type* parseType(Lex& L, bool allowFn = true);
static bool isTypeStart(Lex& L) {
  L.ws(); char c = *L.p;
  if (c == '{' || c == '<' || c == '[' || c == '%') return true;
  if (c == 'i' && isdigit(L.p[1])) return true;
  static const char* tw[] = {"ptr", "void", "float", "double", "half", "x86_fp80", "label", "metadata", "token", "fp128", "bfloat", "i1"};
  for (auto t : tw) if (L.peek(t)) return true;
  return false;
}
static Type* parseType(Lex& L, bool allowFn) {
  L.ws(); Type* t = nullptr; const char c = *L.p;
  if (c == 'i' && isdigit(L.p[1])) { L.p++; t = tInt(L.num()); }
  else if (L.eat("ptr")) { t = tPtr; if (L.eat("addrspace")) L.skipParens(); }
  else if (L.eat("void")) t = tVoid;
  else if (L.eat("float")) { static Type f{TK_FLT}; f.bits = 32; t = &f; }
  else if (L.eat("double")) { static Type f{TK_FLT}; f.bits = 64; t = &f; }
  else if (L.eat("half")) { static Type f{TK_FLT}; f.bits = 16; t = &f; }
  else if (L.eat("fp128")) { static Type f{TK_FLT}; f.bits = 128; t = &f; }
  else if (L.eat("label")) t = &tLabelS;
  else if (L.eat("metadata")) t = &tMetaS;
  else if (L.eat("token")) t = &tMetaS;
  else if (c == '[') { L.p++; uint64_t n = L.num(); L.need("x"); Type* e = parseType(L); L.need("]"); std::string k = "A" + std::to_string(n) + "," + std::to_string((size_t)e); auto& r = tcache[k]; if (!r) { r = new Type{TK_ARR}; r->n = n; r->el = e; } t = r; }
  else if (c == '<' && L.p[1] != '{') { L.p++; uint64_t n = L.num(); L.need("x"); Type* e = parseType(L); L.need(">"); std::string k = "V" + std::to_string(n) + "," + std::to_string((size_t)e); auto& r = tcache[k]; if (!r) { r = new Type{TK_VEC}; r->n = n; r->el = e; } t = r; }
  else if (c == '{' || c == '<') {
    bool pk = c == '<'; L.p += pk ? 2 : 1; std::vector<Type*> f; if (!L.peek("}")) do f.push_back(parseType(L)); while (L.eat(",")); L.need("}"); if (pk) L.need(">");
    std::string k = pk ? "P" : "S"; for (auto x : f) k += std::to_string((size_t)x) + ","; auto& r = tcache[k]; if (!r) { r = new Type{TK_STRUCT}; r->f = f; r->packed = pk; } t = r;
  } else if (c == '%') { L.p++; std::string n = L.ident(); auto it = namedTypes.find(n); if (it == namedTypes.end()) fatal("unknown type %%%s", n.c_str()); t = it->second; }
  else L.err("type");
  layout(t);
  if (allowFn) { L.wsl(); if (*L.p == '(' ) { L.skipParens(); static Type fn{TK_FN}; fn.el = t; Type* r = new Type{TK_FN}; r->el = t; return r; } }
  return t;
}
static int newConst(const Val& v) { consts.push_back(v); return ~(int)(consts.size() - 1); }
static uint64_t symAddr(const std::string& n0, Lex& L) {
  std::string n = n0; auto al = aliases.find(n); if (al != aliases.end()) n = al->second;
  auto g = globByName.find(n); if (g != globByName.end()) return globals[g->second].ext && globals[g->second].weak ? 0 : globals[g->second].addr;
  auto f = funcByName.find(n); if (f != funcByName.end()) { Func* fn = funcs[f->second]; if (!fn->defined && fn->weak) return 0; return fn->addr; }
  L.err(("symbol @" + n).c_str());
}
// parse constant of type t; append its leaves to out
static void parseConst(Lex& L, Type* t, std::vector<Val>& out);
static Val constExpr(Lex& L) {  // typed constant -> single leaf
  Type* t = parseType(L); std::vector<Val> o; parseConst(L, t, o); return o.at(0);
}
static void parseConst(Lex& L, Type* t, std::vector<Val>& out) {
  L.ws(); char c = *L.p; auto one = [&](u128 v) { out.push_back({(uint64_t)v, (uint64_t)(v >> 64), 0}); };
  if (c == '@') { L.p++; one(symAddr(L.ident(), L)); return; }
  if (c == '-' || c == '+' || isdigit((unsigned char)c)) {
    if (t->k == TK_FLT) {
      const char* q = L.p;
      if (!strncmp(q + 1, "qnan", 4)) { L.p = q + 5; one((t->bits == 32 ? 0x7fc00000ull : 0x7ff8000000000000ull) | (c == '-' ? 1ull << (t->bits - 1) : 0)); return; }
      if (q[0] == '0' && q[1] == 'x') { char* e; uint64_t u = strtoull(q, &e, 16); L.p = e; if (t->bits == 32) { double d; memcpy(&d, &u, 8); float f = (float)d; uint32_t v; memcpy(&v, &f, 4); one(v); } else one(u); return; }
      char* e; double d = strtod(q, &e); L.p = e; if (t->bits == 32) { float f = d; uint32_t v; memcpy(&v, &f, 4); one(v); } else { uint64_t v; memcpy(&v, &d, 8); one(v); } return;
    }
    bool neg = c == '-'; if (neg) L.p++; u128 v = 0; while (isdigit((unsigned char)*L.p)) v = v * 10 + (*L.p++ - '0'); if (neg) v = (u128)0 - v; one(v & maskw(t->bits ? t->bits : 64)); return;
  }
  if (L.eat("true")) { one(1); return; }
  if (L.eat("false")) { one(0); return; }
  if (L.eat("null")) { one(0); return; }
  if (L.eat("zeroinitializer") || L.eat("undef") || L.eat("poison") || L.eat("none")) { for (int i = 0; i < t->nl(); i++) one(0); return; }
  if (L.eat("splat")) { L.need("("); Val v = constExpr(L); L.need(")"); for (uint64_t i = 0; i < t->n; i++) out.push_back(v); return; }
  if (c == 'c' && L.p[1] == '"') { L.p += 2; while (*L.p != '"') { if (*L.p == '\\') { if (L.p[1] == '\\') { one('\\'); L.p += 2; continue; } one(strtol(std::string(L.p + 1, 2).c_str(), 0, 16)); L.p += 3; } else one((uint8_t)*L.p++); } L.p++; return; }
  if (c == '{' || c == '[' || c == '<') {
    bool pk = c == '<' && L.p[1] == '{'; L.p += pk ? 2 : 1; char close = c == '{' || pk ? '}' : c == '[' ? ']' : '>'; L.ws();
    if (*L.p != close) do { Type* et = parseType(L); parseConst(L, et, out); } while (L.eat(",")); L.ws(); if (*L.p != close) L.err("close"); L.p++; if (pk) L.need(">"); return;
  }
  if (L.eat("getelementptr")) {
    while (!L.peek("(")) { L.word(); if (L.peek("(")) { const char* q = L.p; if (strncmp(q - 7, "inrange", 7) == 0) L.skipParens(); else break; } }
    L.need("("); Type* st = parseType(L); L.need(","); Val b = constExpr(L); uint64_t a = b.lo; Type* cur = st; bool first = true;
    while (L.eat(",")) { Type* it = parseType(L); std::vector<Val> o; parseConst(L, it, o); int64_t i = (int64_t)sext128(o[0].lo, it->bits); if (first) { a += i * st->size; first = false; } else if (cur->k == TK_STRUCT) { a += cur->offs[i]; cur = cur->f[i]; } else { a += i * cur->el->size; cur = cur->el; } }
    L.need(")"); one(a); return;
  }
  static const char* casts[] = {"ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast", "ptrtoaddr"};
  for (auto k : casts) if (L.eat(k)) { while (!L.peek("(")) L.word(); L.need("("); Type* st = parseType(L); std::vector<Val> o; parseConst(L, st, o); L.need("to"); Type* dt = parseType(L); L.need(")"); u128 v = ((u128)o[0].hi << 64) | o[0].lo; if (!strcmp(k, "sext")) v = (u128)sext128(v, st->bits); int w = dt->k == TK_PTR ? 64 : dt->bits; one(v & maskw(w)); return; }
  static const char* bins[] = {"add", "sub", "mul", "xor", "and", "or", "shl"};
  for (int i = 0; i < 7; i++) if (L.eat(bins[i])) { while (!L.peek("(")) L.word(); L.need("("); Val a = constExpr(L); L.need(","); Val b = constExpr(L); L.need(")"); static const int ops[] = {X_ADD, X_SUB, X_MUL, X_XOR, X_AND, X_OR, X_SHL}; bool ok; one(foldBin(ops[i], a.lo, b.lo, t->bits ? t->bits : 64, &ok)); return; }
  L.err("constant");
}
// raw bytes for global initialisers (big arrays are not flattened into leaves)
static void initGlobal(Lex& L, Type* t, uint64_t addr) {
  L.ws();
  if (L.eat("zeroinitializer") || L.eat("undef") || L.eat("poison")) return;
  char c = *L.p;
  if (t->k == TK_ARR && c == 'c' && L.p[1] == '"') { std::vector<Val> o; parseConst(L, t, o); for (size_t i = 0; i < o.size(); i++) *(uint8_t*)(addr + i) = o[i].lo; return; }
  if (t->k == TK_ARR || t->k == TK_STRUCT) {
    bool pk = t->packed; L.p += pk ? 2 : 1; uint64_t i = 0; L.ws();
    if (*L.p != ']' && *L.p != '}') do { Type* et = parseType(L); initGlobal(L, et, addr + (t->k == TK_ARR ? i * t->el->size : t->offs[i])); i++; } while (L.eat(",")); L.ws(); L.p++; if (pk) L.need(">"); return;
  }
  std::vector<Val> o; parseConst(L, t, o);
  for (size_t i = 0; i < o.size(); i++) { uint64_t a = addr + t->leaves[i].off; int nb = (t->leaves[i].w + 7) / 8; u128 v = ((u128)o[i].hi << 64) | o[i].lo; memcpy((void*)a, &v, nb); }
}
static void skipTypeAttrs(Lex& L) {  // skip attributes / calling conventions until a type starts
  for (;;) {
    L.ws();
    if (isTypeStart(L)) return;
    if (*L.p == '#' ) { L.p++; L.num(); continue; }
    if (*L.p == '"') { L.ident(); if (*L.p == '=') { L.p++; L.ident(); } continue; }
    std::string w = L.word(); if (w.empty()) L.err("type/attr");
    if (*L.p == '(') L.skipParens();
    else if (w == "align" || w == "cc" || w == "dereferenceable") { L.wsl(); if (isdigit((unsigned char)*L.p)) L.num(); }
  }
}
static void skipParamAttrs(Lex& L) {  // after a type, before a value
  for (;;) {
    L.ws(); char c = *L.p;
    if (c == '%' || c == '@' || c == '-' || c == '+' || isdigit((unsigned char)c) || c == ',' || c == ')' || c == '{' || c == '<' || c == '[' || c == '!') return;
    if (c == 'c' && L.p[1] == '"') return;
    if (c == '"') { L.ident(); if (*L.p == '=') { L.p++; L.ident(); } continue; }
    const char* q = L.p; uint32_t ln = L.line; std::string w = L.word();
    static const char* cw[] = {"null", "true", "false", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "splat", "bitcast", "none", "asm", "trunc", "sub", "add", "xor", "ptrtoaddr"};
    bool isc = false; for (auto k : cw) if (w == k) isc = true;
    if (isc) { L.p = q; L.line = ln; return; }
    if (w.empty()) L.err("param attr");
    if (*L.p == '(') L.skipParens();
    else if (w == "align") L.num();
  }
}

void loadModule(const char* path) {
  int fd = open(path, O_RDONLY); if (fd < 0) fatal("cannot open %s", path);
  struct stat st; fstat(fd, &st);
  char* m = (char*)mmap(0, st.st_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  size_t got = 0; while (got < (size_t)st.st_size) { ssize_t r = read(fd, m + got, st.st_size - got); if (r <= 0) fatal("read"); got += r; } close(fd);
  buf = m; bufEnd = m + st.st_size;
  Lex L{m}; L.line = 1;
  uint64_t ga = GL_BASE;
  struct Pend { const char* p; uint32_t g; uint32_t line; }; std::vector<Pend> inits; 
  // pass 1: declarations
  while (L.p < bufEnd) {
    char c = *L.p;
    if (c == '%') { L.p++; std::string n = L.ident(); L.need("="); L.need("type"); if (L.eat("opaque")) { namedTypes[n] = new Type{TK_OPAQUE}; } else namedTypes[n] = parseType(L); }
    else if (c == '@') {
      L.p++; std::string n = L.ident(); L.need("=");
      bool ext = false, weak = false;
      for (;;) { L.ws(); if (L.peek("global") || L.peek("constant") || L.peek("alias")) break; const char* q = L.p; std::string w = L.word(); if (w == "external") ext = true; if (w == "extern_weak") ext = weak = true; if (L.p == q) L.err("global"); if (*L.p == '(') L.skipParens(); }
      if (L.eat("alias")) { parseType(L); L.need(","); parseType(L); L.ws(); if (*L.p == '@') { L.p++; aliases[n] = L.ident(); } }
      else {
        if (!L.eat("global")) L.need("constant");
        Type* t = parseType(L, false); Global g{n, t, nullptr, 0, ext, weak}; L.ws(); if (!ext) g.init = L.p;
        uint64_t al = t->align < 16 ? 16 : t->align; ga = (ga + al - 1) / al * al; const char* q = L.p; // honour explicit align
        { const char* e = q; bool ins = false; while (*e != '\n') { if (*e == '"') ins = !ins; if (!ins && !strncmp(e, ", align ", 8)) { uint64_t a2 = atoll(e + 8); if (a2 > al) ga = (ga + a2 - 1) / a2 * a2; break; } e++; } }
        g.addr = ga; ga += t->size ? t->size : 1; globByName[n] = globals.size(); if (!ext) inits.push_back({q, (uint32_t)globals.size(), L.line}); globals.push_back(g);
      }
    } else if (!strncmp(L.p, "define", 6) || !strncmp(L.p, "declare", 7)) {
      bool def = L.p[2] == 'f'; L.p += def ? 6 : 7; Func* f = new Func; f->line = L.line;
      { const char* q = L.p; while (*q != '@' && *q != '\n') q++; f->weak = memmem(L.p, q - L.p, "extern_weak", 11) != nullptr; }
      skipTypeAttrs(L); f->ret = parseType(L, false); L.ws(); if (*L.p != '@') L.err("@"); L.p++; f->name = L.ident(); L.need("(");
      if (!L.peek(")")) do { L.ws(); if (!strncmp(L.p, "...", 3)) { L.p += 3; f->vararg = true; break; } Type* t = parseType(L, false); skipParamAttrs(L); L.ws(); std::string pn; if (*L.p == '%') { L.p++; pn = L.ident(); } f->params.push_back(t); f->pnames.push_back(pn); } while (L.eat(","));
      L.need(")"); f->id = funcs.size(); f->addr = FN_BASE + 16ull * f->id; if (f->addr >= FN_END) fatal("too many functions");
      if (def) { L.eol(); while (L.p[-1] != '{') { L.p++; L.line++; L.eol(); } f->defined = true; f->body = L.p; f->line = L.line; const char* e = (const char*)memmem(L.p, bufEnd - L.p, "\n}\n", 3); if (!e) fatal("no end of function"); for (const char* q = L.p; q < e; q++) if (*q == '\n') L.line++; L.p = e + 2; L.line++; }
      funcByName[f->name] = f->id; funcs.push_back(f);
    }
    L.eol(); if (L.p < bufEnd) { L.p++; L.line++; }
  }
  globalsEnd = ga; if (ga >= STACK_BASE) fatal("globals too large");
  for (auto& i : inits) { Lex G{i.p}; G.line = i.line; initGlobal(G, globals[i.g].ty, globals[i.g].addr); }
}

// ---------------------------------------------------------------- function bodies
struct FP {
  Lex L; Func* f; std::unordered_map<std::string, std::pair<int, Type*>> slots; std::unordered_map<std::string, int> bbs; std::vector<std::string> bbNames; std::vector<int> bbInst;
  struct Phi { int dst, n; std::vector<std::pair<int, int>> in; };  // operand, bb
  std::vector<std::vector<Phi>> phis; std::vector<std::pair<int, int>> edgeFix;  // edge idx -> (from,to)
  int cur = -1; std::vector<uint32_t> edgeIdx; std::unordered_set<std::string> defined;
  int slot(const std::string& n, Type* t) { auto it = slots.find(n); if (it != slots.end()) return it->second.first; int s = f->nslots; f->nslots += t->nl() ? t->nl() : 1; slots[n] = {s, t}; return s; }
  int bb(const std::string& n) { auto it = bbs.find(n); if (it != bbs.end()) return it->second; int k = bbNames.size(); bbs[n] = k; bbNames.push_back(n); bbInst.push_back(-1); phis.emplace_back(); return k; }
  int operand(Type* t) {
    L.ws();
    if (*L.p == '%') { L.p++; return slot(L.ident(), t); }
    std::vector<Val> o; if (t->k == TK_META) { L.ws(); if (*L.p == '!') { L.p++; L.word(); L.skipParens(); } return 0; }
    parseConst(L, t, o); if (o.empty()) { Val z{0, 0, 0}; return newConst(z); }
    int base = consts.size(); for (auto& v : o) consts.push_back(v);
    return ~base;  // leaf i of a constant operand is ~(base+i) = op - i
  }
  int edge(int to) { Edge e{0, 0, 0}; edges.push_back(e); edgeFix.push_back({cur, to}); edgeIdx.push_back(edges.size() - 1); return edges.size() - 1; }
  Inst& emit(int op) { Inst i; memset(&i, 0, sizeof i); i.op = op; i.dst = -1; i.line = L.line; f->code.push_back(i); return f->code.back(); }
  uint32_t leafAux(Type* t) { uint32_t x = aux.size(); for (auto& l : t->leaves) { aux.push_back(l.off); aux.push_back(l.w); } return x; }
  int labelOp() { L.need("label"); L.ws(); if (*L.p != '%') L.err("label"); L.p++; return bb(L.ident()); }
  void run();
  void inst();
};
static int leafOp(int op, int i) { return op >= 0 ? op + i : op - i; }
int leafOperand(int op, int i) { return leafOp(op, i); }
static const std::unordered_map<std::string, int> binops = {{"add", X_ADD}, {"sub", X_SUB}, {"mul", X_MUL}, {"udiv", X_UDIV}, {"sdiv", X_SDIV}, {"urem", X_UREM}, {"srem", X_SREM}, {"and", X_AND}, {"or", X_OR}, {"xor", X_XOR}, {"shl", X_SHL}, {"lshr", X_LSHR}, {"ashr", X_ASHR}};
static const std::unordered_map<std::string, int> preds = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}};

void FP::inst() {
  std::string res; bool hasRes = false; L.ws(); L.wsl();
  if (*L.p == '%') { L.p++; res = L.ident(); L.need("="); hasRes = true; }
  std::string op = L.word();
  auto def = [&](Type* t) { if (!hasRes) return -1; defined.insert(res); return slot(res, t); };
  while (op == "tail" || op == "musttail" || op == "notail") op = L.word();
  auto bi = binops.find(op);
  if (bi != binops.end()) {
    for (;;) { if (L.eat("nuw") || L.eat("nsw") || L.eat("exact") || L.eat("disjoint")) continue; break; }
    Type* t = parseType(L); int a = operand(t); L.need(","); int b = operand(t);
    Inst& i = emit(O_BIN); i.sub = bi->second; i.w = t->leaves[0].w; i.n = t->nl(); i.a = a; i.b = b; i.dst = def(t); return;
  }
  if (op == "icmp") {
    L.eat("samesign"); std::string p = L.word(); auto it = preds.find(p); if (it == preds.end()) L.err("icmp pred");
    Type* t = parseType(L); int a = operand(t); L.need(","); int b = operand(t);
    Type* rt = tInt(1); layout(rt); Type* vt = rt; if (t->k == TK_VEC) { std::string k = "V" + std::to_string(t->n) + "," + std::to_string((size_t)rt); auto& r = tcache[k]; if (!r) { r = new Type{TK_VEC}; r->n = t->n; r->el = rt; } vt = r; layout(vt); }
    Inst& i = emit(O_ICMP); i.sub = it->second; i.w = t->leaves[0].w; i.n = t->nl(); i.a = a; i.b = b; i.dst = def(vt); return;
  }
  if (op == "zext" || op == "sext" || op == "trunc" || op == "ptrtoint" || op == "inttoptr" || op == "bitcast" || op == "addrspacecast" || op == "ptrtoaddr") {
    for (;;) { if (L.eat("nneg") || L.eat("nuw") || L.eat("nsw")) continue; break; }
    Type* t = parseType(L); int a = operand(t); L.need("to"); Type* d = parseType(L);
    int o = op == "zext" ? O_ZEXT : op == "sext" ? O_SEXT : op == "trunc" ? OP_TRUNC : O_BITCAST; int sw = t->leaves[0].w, dw = d->leaves[0].w;
    if (op == "ptrtoint" || op == "inttoptr" || op == "ptrtoaddr") o = dw > sw ? O_ZEXT : dw < sw ? OP_TRUNC : O_COPY;
    else if (o == O_BITCAST && t->nl() == d->nl() && sw == dw) o = O_COPY;
    int dst = def(d); uint32_t x = 0; if (o == O_BITCAST) { x = aux.size(); aux.push_back(d->nl()); aux.push_back(dw); }
    Inst& i = emit(o); i.w = sw; i.n = t->nl(); i.a = a; i.dst = dst; i.x = o == O_BITCAST ? x : dw; return;
  }
  if (op == "freeze") { Type* t = parseType(L); int a = operand(t); Inst& i = emit(O_COPY); i.n = t->nl(); i.a = a; i.dst = def(t); return; }
  if (op == "select") {
    for (;;) { if (L.eat("fast") || L.eat("nnan") || L.eat("ninf") || L.eat("nsz")) continue; break; }
    Type* ct = parseType(L); int c = operand(ct); L.need(","); Type* t = parseType(L); int a = operand(t); L.need(","); parseType(L); int b = operand(t);
    int dst = def(t); uint32_t x = leafAux(t); Inst& i = emit(O_SELECT); i.sub = ct->k == TK_VEC; i.c = c; i.a = a; i.b = b; i.n = t->nl(); i.w = t->nl() ? t->leaves[0].w : 0; i.x = x; i.dst = dst; return;
  }
  if (op == "load") {
    for (;;) { if (L.eat("atomic") || L.eat("volatile")) continue; break; }
    Type* t = parseType(L); L.need(","); parseType(L); int a = operand(tPtr); int dst = def(t); uint32_t x = leafAux(t);
    Inst& i = emit(O_LOAD); i.sub = t->k == TK_PTR; i.a = a; i.n = t->nl(); i.w = t->nl() ? t->leaves[0].w : 0; i.x = x; i.dst = dst; if (t->k == TK_VEC && i.w % 8) i.op = O_UNSUP; return;
  }
  if (op == "store") {
    for (;;) { if (L.eat("atomic") || L.eat("volatile")) continue; break; }
    Type* t = parseType(L); int a = operand(t); L.need(","); parseType(L); int b = operand(tPtr); uint32_t x = leafAux(t);
    Inst& i = emit(O_STORE); i.a = a; i.b = b; i.n = t->nl(); i.w = t->nl() ? t->leaves[0].w : 0; i.x = x; if (t->k == TK_VEC && i.w % 8) i.op = O_UNSUP; return;
  }
  if (op == "alloca") {
    L.eat("inalloca"); Type* t = parseType(L); int cnt = 0; bool hc = false; uint64_t al = t->align; L.wsl();
    while (*L.p == ',') { L.p++; if (L.eat("align")) al = L.num(); else if (L.peek("!")) break; else if (isTypeStart(L)) { Type* ct = parseType(L); cnt = operand(ct); hc = true; } else break; L.wsl(); }
    int dst = def(tPtr); uint32_t x = aux.size(); aux.push_back(t->size); aux.push_back(al); Inst& i = emit(O_ALLOCA); i.a = cnt; i.n = hc; i.x = x; i.dst = dst; return;
  }
  if (op == "getelementptr") {
    for (;;) { if (L.eat("inbounds") || L.eat("nuw") || L.eat("nusw")) continue; break; }
    Type* st = parseType(L); L.need(","); Type* bt = parseType(L); int base = operand(bt); if (bt->k == TK_VEC) { Inst& i = emit(O_UNSUP); i.dst = def(bt); L.eol(); return; }
    int64_t off = 0; std::vector<int64_t> vs; Type* cur = st; bool first = true; L.wsl();
    while (*L.p == ',') { L.p++; L.ws(); if (*L.p == '!') break; Type* it = parseType(L); int o = operand(it); uint64_t sc; 
      if (!first && cur->k == TK_STRUCT) { uint64_t ix = consts[~o].lo; off += cur->offs[ix]; cur = cur->f[ix]; L.wsl(); continue; }
      if (first) { sc = st->size; first = false; } else { sc = cur->el->size; cur = cur->el; }
      if (o < 0) off += (int64_t)sext128(consts[~o].lo, it->bits) * (int64_t)sc; else { vs.push_back(o); vs.push_back(sc); vs.push_back(it->bits); } L.wsl(); }
    int dst = def(tPtr); uint32_t x = aux.size(); aux.push_back(off); for (auto v : vs) aux.push_back(v); Inst& i = emit(O_GEP); i.a = base; i.n = vs.size() / 3; i.x = x; i.dst = dst; return;
  }
  if (op == "extractvalue" || op == "insertvalue") {
    bool ins = op[0] == 'i'; Type* t = parseType(L); int a = operand(t); int v = 0; Type* vt = nullptr; if (ins) { L.need(","); vt = parseType(L); v = operand(vt); }
    Type* cur = t; int off = 0; L.wsl();
    while (*L.p == ',') { L.p++; L.ws(); if (!isdigit((unsigned char)*L.p)) break; uint64_t ix = L.num(); if (cur->k == TK_STRUCT) { for (uint64_t k = 0; k < ix; k++) off += cur->f[k]->nl(); cur = cur->f[ix]; } else { off += ix * cur->el->nl(); cur = cur->el; } L.wsl(); }
    if (ins) { Inst& i = emit(O_INSERTV); i.a = a; i.b = v; i.c = off; i.n = t->nl(); i.x = vt->nl(); i.dst = def(t); }
    else { Inst& i = emit(O_COPY); i.a = leafOp(a, off); i.n = cur->nl(); i.dst = def(cur); }
    return;
  }
  if (op == "extractelement") { Type* t = parseType(L); int a = operand(t); L.need(","); Type* it = parseType(L); int b = operand(it); Inst& i = emit(O_EXTRACTE); i.a = a; i.b = b; i.n = t->nl(); i.w = t->leaves[0].w; i.dst = def(t->el); return; }
  if (op == "insertelement") { Type* t = parseType(L); int a = operand(t); L.need(","); Type* vt = parseType(L); int v = operand(vt); L.need(","); Type* it = parseType(L); int b = operand(it); Inst& i = emit(O_INSERTE); i.a = a; i.b = v; i.c = b; i.n = t->nl(); i.dst = def(t); return; }
  if (op == "shufflevector") {
    Type* t = parseType(L); int a = operand(t); L.need(","); parseType(L); int b = operand(t); L.need(","); Type* mt = parseType(L); std::vector<Val> o; parseConst(L, mt, o);
    std::string k = "V" + std::to_string(mt->n) + "," + std::to_string((size_t)t->el); auto& r = tcache[k]; if (!r) { r = new Type{TK_VEC}; r->n = mt->n; r->el = t->el; } layout(r);
    int dst = def(r); uint32_t x = aux.size(); for (auto& v : o) aux.push_back(v.lo); Inst& i = emit(O_SHUFFLE); i.a = a; i.b = b; i.n = mt->n; i.c = t->nl(); i.x = x; i.dst = dst; return;
  }
  if (op == "br") {
    if (L.peek("label")) { int t = labelOp(); int e = edge(t); Inst& i = emit(O_BR); i.x = e; return; }
    Type* t = parseType(L); int c = operand(t); L.need(","); int bt = labelOp(); L.need(","); int bf = labelOp(); int e1 = edge(bt), e2 = edge(bf); Inst& i = emit(O_CBR); i.a = c; i.x = e1; i.n = e2; return;
  }
  if (op == "switch") {
    Type* t = parseType(L); int c = operand(t); L.need(","); int d = labelOp(); L.need("["); std::vector<int64_t> cs; int de = edge(d);
    std::unordered_map<int, int> eOf; 
    while (!L.peek("]")) { parseType(L); std::vector<Val> o; parseConst(L, t, o); L.need(","); int b = labelOp(); if (!eOf.count(b)) eOf[b] = edge(b); cs.push_back(o[0].lo); cs.push_back(o[0].hi); cs.push_back(eOf[b]); }
    L.need("]"); uint32_t x = aux.size(); aux.push_back(de); for (auto v : cs) aux.push_back(v); Inst& i = emit(O_SWITCH); i.a = c; i.w = t->bits; i.n = cs.size() / 3; i.x = x; return;
  }
  if (op == "ret") { L.ws(); if (L.eat("void")) { Inst& i = emit(O_RET); i.n = 0; return; } Type* t = parseType(L); int a = operand(t); Inst& i = emit(O_RET); i.a = a; i.n = t->nl(); return; }
  if (op == "unreachable") { emit(O_UNREACHABLE); return; }
  if (op == "resume") { emit(O_UNSUP); L.eol(); return; }
  if (op == "landingpad") { Type* t = parseType(L); def(t); emit(O_UNSUP); for (;;) { L.eol(); const char* q = L.p + 1; while (*q == ' ') q++; if (!strncmp(q, "cleanup", 7) || !strncmp(q, "catch ", 6) || !strncmp(q, "filter", 6)) { L.p++; L.line++; continue; } break; } return; }
  if (op == "phi") {
    for (;;) { if (L.eat("fast") || L.eat("nnan")) continue; break; }
    Type* t = parseType(L); Phi ph; ph.n = t->nl(); ph.dst = def(t);
    do { L.need("["); int o = operand(t); L.need(","); L.ws(); L.p++; int b = bb(L.ident()); L.need("]"); ph.in.push_back({o, b}); L.wsl(); } while (*L.p == ',' && (L.p++, L.ws(), *L.p == '['));
    phis[cur].push_back(ph); return;
  }
  if (op == "call" || op == "invoke") {
    for (;;) { if (L.eat("fast") || L.eat("nnan") || L.eat("nsz") || L.eat("ninf")) continue; break; }
    skipTypeAttrs(L); Type* rt = parseType(L); if (rt->k == TK_FN) rt = rt->el; skipParamAttrs(L); L.ws();
    int callee = 0; int kind = 0; uint32_t fid = 0; 
    if (*L.p == '@') { L.p++; std::string n = L.ident(); auto al = aliases.find(n); if (al != aliases.end()) n = al->second; auto it = funcByName.find(n); if (it == funcByName.end()) L.err(("function " + n).c_str()); fid = it->second; }
    else if (*L.p == '%') { L.p++; callee = slot(L.ident(), tPtr); kind = 1; }
    else if (L.eat("asm")) { kind = 2; while (!L.peek("\"")) L.word(); L.ident(); L.need(","); L.ident(); }
    else { std::vector<Val> o; parseConst(L, tPtr, o); callee = newConst(o[0]); kind = 1; }
    L.need("("); std::vector<int64_t> as; int na = 0;
    if (!L.peek(")")) do { Type* t = parseType(L); if (t->k == TK_META) { L.ws(); while (*L.p != ',' && *L.p != ')') { if (*L.p == '(') L.skipParens(); else L.p++; } continue; } skipParamAttrs(L); int o = operand(t); as.push_back(o); as.push_back(t->nl()); as.push_back(t->nl() ? t->leaves[0].w : 0); na++; } while (L.eat(","));
    L.need(")"); int dst = rt->k == TK_VOID ? -1 : def(rt); if (!hasRes) dst = -1;
    uint32_t x = aux.size(); aux.push_back(na); aux.push_back(rt->nl()); aux.push_back(rt->nl() ? rt->leaves[0].w : 0); for (auto v : as) aux.push_back(v);
    if (kind == 2) { Inst& i = emit(O_CALL); i.sub = 2; i.dst = dst; i.x = x; L.eol(); return; }
    if (kind == 0) { const std::string& n = funcs[fid]->name; static const char* nops[] = {"llvm.assume", "llvm.lifetime.", "llvm.experimental.noalias", "llvm.dbg.", "llvm.prefetch", "llvm.invariant.", "llvm.donothing", "llvm.x86.sse2.pause", "llvm.fake.use"}; bool nop = false; for (auto k : nops) if (!n.compare(0, strlen(k), k)) nop = true;
      if (nop) { if (op == "call") { L.eol(); return; } } }
    { Inst& i = emit(O_CALL); i.sub = kind; i.a = callee; i.b = fid; i.dst = dst; i.x = x; i.n = rt->nl(); }
    if (op == "invoke") { while (!L.peek("to")) { L.ws(); if (*L.p == '#') { L.p++; L.num(); } else if (*L.p == '[') { while (*L.p != ']') L.p++; L.p++; } else { L.word(); L.skipParens(); } } L.need("to"); int t = labelOp(); L.need("unwind"); labelOp(); int e = edge(t); Inst& i = emit(O_BR); i.x = e; }
    L.eol(); return;
  }
  if (op == "atomicrmw") {
    L.eat("volatile"); std::string k = L.word(); parseType(L); int p = operand(tPtr); L.need(","); Type* t = parseType(L); int v = operand(t);
    static const char* ks[] = {"xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin"}; int kk = -1; for (int q = 0; q < 11; q++) if (k == ks[q]) kk = q; if (kk < 0) L.err("atomicrmw op");
    Inst& i = emit(O_ARMW); i.sub = kk; i.a = p; i.b = v; i.w = t->leaves[0].w; i.dst = def(t); L.eol(); return;
  }
  if (op == "cmpxchg") {
    for (;;) { if (L.eat("weak") || L.eat("volatile")) continue; break; }
    parseType(L); int p = operand(tPtr); L.need(","); Type* t = parseType(L); int c = operand(t); L.need(","); parseType(L); int n = operand(t);
    Type* i1 = tInt(1); std::string kk = "S" + std::to_string((size_t)t) + "," + std::to_string((size_t)i1) + ","; auto& r = tcache[kk]; if (!r) { r = new Type{TK_STRUCT}; r->f = {t, i1}; } layout(r);
    Inst& i = emit(O_CMPXCHG); i.a = p; i.b = c; i.c = n; i.w = t->leaves[0].w; i.dst = def(r); L.eol(); return;
  }
  if (op == "fence") { L.eol(); return; }
  if (op == "fadd" || op == "fsub" || op == "fmul" || op == "fdiv" || op == "frem") { while (!isTypeStart(L)) L.word(); Type* t = parseType(L); int a = operand(t); L.need(","); int b = operand(t); Inst& i = emit(t->nl() == 1 ? O_FLT : O_UNSUP); i.sub = op == "fadd" ? 0 : op == "fsub" ? 1 : op == "fmul" ? 2 : op == "fdiv" ? 3 : 4; i.w = t->leaves[0].w; i.a = a; i.b = b; i.dst = def(t); return; }
  if (op == "fneg") { while (!isTypeStart(L)) L.word(); Type* t = parseType(L); int a = operand(t); Inst& i = emit(t->nl() == 1 ? O_FNEG : O_UNSUP); i.w = t->leaves[0].w; i.a = a; i.dst = def(t); return; }
  if (op == "fcmp") { std::string p = L.word(); while (!isTypeStart(L)) p = L.word(); Type* t = parseType(L); int a = operand(t); L.need(","); int b = operand(t); static const char* fp[] = {"false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"}; int k = 0; for (int q = 0; q < 16; q++) if (p == fp[q]) k = q; Inst& i = emit(t->nl() == 1 ? O_FCMP : O_UNSUP); i.sub = k; i.w = t->leaves[0].w; i.a = a; i.b = b; Type* rt = tInt(1); layout(rt); i.dst = def(rt); return; }
  if (op == "fptoui" || op == "fptosi" || op == "uitofp" || op == "sitofp" || op == "fpext" || op == "fptrunc") { while (!isTypeStart(L)) L.word(); Type* t = parseType(L); int a = operand(t); L.need("to"); Type* d = parseType(L); Inst& i = emit(t->nl() == 1 ? O_FCVT : O_UNSUP); i.sub = op == "fptoui" ? 0 : op == "fptosi" ? 1 : op == "uitofp" ? 2 : op == "sitofp" ? 3 : op == "fpext" ? 4 : 5; i.w = t->leaves[0].w; i.x = d->leaves[0].w; i.a = a; i.dst = def(d); return; }
  fatal("IR line %u: unknown instruction '%s' in %s", L.line, op.c_str(), f->name.c_str());
}
void FP::run() {
  // parameters
  int un = 0; for (size_t i = 0; i < f->params.size(); i++) { std::string n = f->pnames[i]; if (n.empty()) n = std::to_string(un); if (!n.empty() && isdigit((unsigned char)n[0])) un++; if (f->params[i]->k == TK_META) continue; slot(n, f->params[i]); defined.insert(n); }
  L.p = f->body; L.line = f->line; bool first = true;
  for (;;) {
    L.ws(); if (*L.p == '}') break;
    // label?
    const char* q = L.p; bool isl = false; if (*q == '"') { q++; while (*q != '"') q++; q++; isl = *q == ':'; } else { while (Lex::idc(*q)) q++; isl = *q == ':' && q > L.p; }
    if (isl) { std::string n = L.ident(); L.p++; cur = bb(n); if (!first && f->code.empty()) {} bbInst[cur] = f->code.size(); first = false; continue; }
    if (first) { cur = bb(std::to_string(un)); bbInst[cur] = 0; first = false; }
    inst(); 
    L.eol();
  }
  for (auto& kv : slots) if (!defined.count(kv.first)) fatal("value %%%s of %s is used but never defined", kv.first.c_str(), f->name.c_str());
  for (size_t i = 0; i < edgeFix.size(); i++) {
    Edge& e = edges[edgeIdx[i]]; int from = edgeFix[i].first, to = edgeFix[i].second; if (bbInst[to] < 0) fatal("undefined block %s in %s", bbNames[to].c_str(), f->name.c_str());
    e.target = bbInst[to]; e.cp = aux.size(); int n = 0;
    for (auto& ph : phis[to]) { bool ok = false; for (auto& in : ph.in) if (in.second == from) { for (int k = 0; k < ph.n; k++) { aux.push_back(ph.dst + k); aux.push_back(leafOp(in.first, k)); n++; } ok = true; break; } if (!ok) fatal("phi without incoming %s->%s in %s", bbNames[from].c_str(), bbNames[to].c_str(), f->name.c_str()); }
    e.ncp = n;
  }
}
void parseBody(Func* f) { if (f->parsed) return; f->parsed = true; FP p; p.f = f; p.run(); }
