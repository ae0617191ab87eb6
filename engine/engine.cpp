// tmv: contract verifier for floating point code.
// Executes the extracted IR (bytecode from tools/irx.py) over boxes of inputs.  Integers and pointers are concrete;
// floating point values are exact constants or Taylor models that enclose the actual float computed by the code for
// every input of the box (every operation adds its IEEE rounding error).  A box on which a branch cannot be decided is
// split or both branches are followed; a box is accepted when the postcondition holds on every path.
#include "tm.hpp"
#include <cstdio>
#include <string>
#include <map>
#include <unordered_map>
#include <array>
#include <deque>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <memory>
#include <limits>
using std::string; using std::vector;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ types and values
enum Ty : uint8_t { F32, F64, F80, INTT, PTRT, VOIDT };
enum Kd : uint8_t { KU, KI, KC, KT, KP };   // undef, int, fp const, fp TM, pointer
struct Val { Kd k = KU; Ty t = VOIDT; int w = 0; union { int64_t i; struct { int obj, off; } p; const TM* tm; }; R f = 0; Val() : i(0) {} };
struct FT { R u, eta, mx, mn; };
static const FT FTS[3] = {
  {0x1p-24L, 0x1p-150L, (R)std::numeric_limits<float>::max(), 0x1p-126L},
  {0x1p-53L, 0x1p-1075L, (R)std::numeric_limits<double>::max(), 0x1p-1022L},
  {0x1p-64L, 0x1p-16445L, std::numeric_limits<long double>::max(), 0x1p-16382L}};
static R rnd(Ty t, R x) { return t == F32 ? (R)(float)x : t == F64 ? (R)(double)x : x; }
// ordinal of a float (monotone)
static __int128 ordi(Ty t, R x) {
  if (t == F32) { float f = (float)x; int32_t b; memcpy(&b, &f, 4); return b < 0 ? -(__int128)(b & 0x7fffffff) : b; }
  if (t == F64) { double f = (double)x; int64_t b; memcpy(&b, &f, 8); return b < 0 ? -(__int128)(b & 0x7fffffffffffffffLL) : b; }
  uint64_t m; uint16_t e; memcpy(&m, &x, 8); memcpy(&e, (char*)&x + 8, 2); bool s = e & 0x8000; e &= 0x7fff;
  __int128 o = (__int128)e << 63 | (m & 0x7fffffffffffffffULL); return s ? -o : o;
}
static R ordr(Ty t, __int128 o) {
  bool s = o < 0; unsigned __int128 a = s ? -o : o;
  if (t == F32) { int32_t b = (int32_t)a; float f; memcpy(&f, &b, 4); return s ? -(R)f : (R)f; }
  if (t == F64) { int64_t b = (int64_t)a; double f; memcpy(&f, &b, 8); return s ? -(R)f : (R)f; }
  uint64_t m = (uint64_t)a & 0x7fffffffffffffffULL; uint16_t e = (uint16_t)(a >> 63); if (e) m |= 1ULL << 63; R x = 0; memcpy(&x, &m, 8); memcpy((char*)&x + 8, &e, 2); return s ? -x : x;
}

// ------------------------------------------------------------------ bytecode
enum Op : uint8_t { ALLOCA, LOAD, STORE, GEP, FADD, FSUB, FMUL, FDIV, FREM, IOP, FNEG, FCMP, ICMP, CAST, MOV, BR, CONDBR, SWITCH, PHI, SELECT, RET, UNREACH, CALL, UNSUP };
enum IOpc : uint8_t { I_ADD, I_SUB, I_MUL, I_SDIV, I_UDIV, I_SREM, I_UREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR };
enum CastOp : uint8_t { C_ZEXT, C_SEXT, C_TRUNC, C_SITOFP, C_UITOFP, C_FPTOSI, C_FPTOUI, C_FPEXT, C_FPTRUNC, C_BITCAST };
struct Opd { int reg = -1; Val v; };
struct Ins { Op op; int dst = -1; Ty ty = VOIDT; int w = 0; uint8_t sub = 0; Ty ty2 = VOIDT; int w2 = 0; vector<Opd> a; vector<int> b; vector<int64_t> k; int callee = -1; string ext; };
struct Fn { string name, dem, simple; int np, nr; vector<vector<Ins>> bl; Ty pt[8]; int contract = -1; };
struct Glob { int size; bool cst; std::map<int, Val> v; };
struct Mod { vector<Glob> g; vector<Fn> f; std::map<string, int> byname; };

static void pty(const string& s, Ty& t, int& w) {
  if (s == "f32") { t = F32; w = 4; } else if (s == "f64") { t = F64; w = 8; } else if (s == "f80") { t = F80; w = 16; }
  else if (s == "ptr") { t = PTRT; w = 8; } else if (s == "void") { t = VOIDT; w = 0; } else { t = INTT; w = atoi(s.c_str() + 1); }
}
static int64_t wrap(int64_t v, int w) { if (w >= 64) return v; uint64_t m = (1ULL << w) - 1; uint64_t x = (uint64_t)v & m; if (w > 1 && (x >> (w - 1))) x |= ~m; return (int64_t)x; }  // sign extended; i1 is 0/1
static Val vint(int64_t v, int w) { Val r; r.k = KI; r.t = INTT; r.w = w; r.i = wrap(v, w); return r; }
static Val vfp(Ty t, R f) { Val r; r.k = KC; r.t = t; r.f = f; return r; }
static Opd popd(const string& s) {
  Opd o;
  if (s[0] == 'r') { o.reg = atoi(s.c_str() + 1); return o; }
  if (s[0] == 'i') { size_t c = s.find(':'); int w = atoi(s.c_str() + 1); o.v = vint((int64_t)strtoll(s.c_str() + c + 1, 0, 10), w); if (s[c + 1] != '-' ) { uint64_t u = strtoull(s.c_str() + c + 1, 0, 10); o.v = vint((int64_t)u, w); } return o; }
  if (s[0] == 'f') {
    size_t c = s.find(':'); string h = s.substr(c + 1); unsigned __int128 b = 0; for (char ch : h) b = b * 16 + (ch <= '9' ? ch - '0' : ch - 'a' + 10);
    if (s.compare(0, 3, "f32") == 0) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); o.v = vfp(F32, f); }
    else if (s.compare(0, 3, "f64") == 0) { uint64_t x = (uint64_t)b; double f; memcpy(&f, &x, 8); o.v = vfp(F64, f); }
    else { R x = 0; memcpy(&x, &b, 10); o.v = vfp(F80, x); }
    return o;
  }
  if (s[0] == 'g') { size_t c = s.find(':'); o.v.k = KP; o.v.t = PTRT; o.v.p.obj = -1 - atoi(s.c_str() + 1); o.v.p.off = atoi(s.c_str() + c + 1); return o; }
  return o;
}
static const char* IOPN[] = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"};
static const char* CASTN[] = {"zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast"};
static const char* FCN[] = {"false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"};
static const char* ICN[] = {"eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"};
template<size_t N> static int idx(const char* (&t)[N], const string& s) { for (size_t i = 0; i < N; i++) if (s == t[i]) return (int)i; return -1; }
static string simple_name(const string& d) {
  string o; int ang = 0; for (char c : d) { if (c == '<') ang++; else if (c == '>') ang--; else if (!ang && c == '(') break; else if (!ang) o += c; }
  while (!o.empty() && o.back() == ' ') o.pop_back(); size_t p = o.rfind(' '); return p == string::npos ? o : o.substr(p + 1);
}
static Mod load(const string& path) {
  Mod m; std::ifstream in(path); string line; auto next = [&]() { std::getline(in, line); return std::istringstream(line); };
  auto ss = next(); string w; int ng, nf; ss >> w >> ng >> nf;
  for (int g = 0; g < ng; g++) {
    auto s = next(); string nm; int sz, ni, c; s >> w >> nm >> sz >> ni >> c; Glob G; G.size = sz; G.cst = c;
    for (int i = 0; i < ni; i++) { auto q = next(); int off; string ty, op; q >> off >> ty >> op; G.v[off] = popd(op).v; }
    m.g.push_back(G);
  }
  for (int f = 0; f < nf; f++) {
    auto s = next(); Fn F; int nb; s >> w >> F.name >> F.np >> F.nr >> nb; std::getline(in, line); F.dem = line.substr(4); F.simple = simple_name(F.dem);
    for (int b = 0; b < nb; b++) {
      auto q = next(); int n; q >> w >> n; vector<Ins> bl;
      for (int i = 0; i < n; i++) {
        auto z = next(); string op; z >> op; Ins I; string d, t, x, y; int k;
        auto dst = [&](const string& q) { return q[0] == 'r' ? atoi(q.c_str() + 1) : -1; };
        if (op == "alloca") { I.op = ALLOCA; z >> d >> k; I.dst = dst(d); I.w = k; }
        else if (op == "load") { I.op = LOAD; z >> d >> t >> x; I.dst = dst(d); pty(t, I.ty, I.w); I.a = {popd(x)}; }
        else if (op == "store") { I.op = STORE; z >> t >> x >> y; pty(t, I.ty, I.w); I.a = {popd(x), popd(y)}; }
        else if (op == "gep") { I.op = GEP; z >> d >> x >> k; I.dst = dst(d); I.a = {popd(x)}; for (int j = 0; j < k; j++) { int64_t sz; z >> sz >> y; I.k.push_back(sz); I.a.push_back(popd(y)); } }
        else if (op == "fadd" || op == "fsub" || op == "fmul" || op == "fdiv" || op == "frem") { I.op = op == "fadd" ? FADD : op == "fsub" ? FSUB : op == "fmul" ? FMUL : op == "fdiv" ? FDIV : FREM; z >> d >> t >> x >> y; I.dst = dst(d); pty(t, I.ty, I.w); I.a = {popd(x), popd(y)}; }
        else if (op == "iop") { I.op = IOP; string o2; int fl; z >> o2 >> d >> t >> x >> y >> fl; I.sub = idx(IOPN, o2); I.dst = dst(d); pty(t, I.ty, I.w); I.a = {popd(x), popd(y)}; I.k = {fl}; }
        else if (op == "fneg") { I.op = FNEG; z >> d >> t >> x; I.dst = dst(d); pty(t, I.ty, I.w); I.a = {popd(x)}; }
        else if (op == "fcmp") { I.op = FCMP; string p; z >> d >> p >> t >> x >> y; I.sub = idx(FCN, p); I.dst = dst(d); pty(t, I.ty, I.w); I.a = {popd(x), popd(y)}; }
        else if (op == "icmp") { I.op = ICMP; string p; z >> d >> p >> t >> x >> y; I.sub = idx(ICN, p); I.dst = dst(d); pty(t, I.ty, I.w); I.a = {popd(x), popd(y)}; }
        else if (op == "cast") { I.op = CAST; string o2, t2; z >> o2 >> d >> t >> t2 >> x; I.sub = idx(CASTN, o2); I.dst = dst(d); pty(t, I.ty2, I.w2); pty(t2, I.ty, I.w); I.a = {popd(x)}; }
        else if (op == "mov") { I.op = MOV; z >> d >> x; I.dst = dst(d); I.a = {popd(x)}; }
        else if (op == "br") { I.op = BR; z >> k; I.b = {k}; }
        else if (op == "condbr") { I.op = CONDBR; int b1, b2; z >> x >> b1 >> b2; I.a = {popd(x)}; I.b = {b1, b2}; }
        else if (op == "switch") { I.op = SWITCH; int db, n2; z >> x >> db >> n2; I.a = {popd(x)}; I.b = {db}; for (int j = 0; j < n2; j++) { int64_t c; int b2; z >> c >> b2; I.k.push_back(c); I.b.push_back(b2); } }
        else if (op == "phi") { I.op = PHI; z >> d >> k; I.dst = dst(d); for (int j = 0; j < k; j++) { int b2; z >> x >> b2; I.a.push_back(popd(x)); I.b.push_back(b2); } }
        else if (op == "select") { I.op = SELECT; string c; z >> d >> c >> x >> y; I.dst = dst(d); I.a = {popd(c), popd(x), popd(y)}; }
        else if (op == "ret") { I.op = RET; z >> x; if (x != "-") I.a = {popd(x)}; }
        else if (op == "unreachable") I.op = UNREACH;
        else if (op == "call") { I.op = CALL; string tg; z >> d >> t >> tg >> k; I.dst = dst(d); pty(t, I.ty, I.w); if (tg[0] == 'f') I.callee = atoi(tg.c_str() + 1); else I.ext = tg.substr(1); for (int j = 0; j < k; j++) { z >> x; I.a.push_back(popd(x)); } }
        else I.op = UNSUP;
        bl.push_back(I);
      }
      F.bl.push_back(bl);
    }
    m.byname[F.name] = m.f.size(); m.f.push_back(F);
  }
  return m;
}

// ------------------------------------------------------------------ reference expressions (S-expressions)
struct Ex { string op; R num = 0, nerr = 0; int var = -1; vector<int> a; };
struct Expr {
  vector<Ex> n; int root = -1; string src;
  int parse(const string& s, size_t& i) {
    while (i < s.size() && s[i] == ' ') i++;
    Ex e;
    if (s[i] == '(') {
      i++; while (s[i] == ' ') i++; size_t j = i; while (s[j] != ' ' && s[j] != ')') j++; e.op = s.substr(i, j - i); i = j;
      while (true) { while (s[i] == ' ') i++; if (s[i] == ')') { i++; break; } e.a.push_back(parse(s, i)); }
    } else {
      size_t j = i; while (j < s.size() && s[j] != ' ' && s[j] != ')') j++; string t = s.substr(i, j - i); i = j;
      if (t[0] == 'x' && t.size() == 2) { e.op = "var"; e.var = t[1] - '0'; }
      else if (t == "r") { e.op = "var"; e.var = 9; }
      else if (t == "pi") e.op = "pi"; else if (t == "ln2") e.op = "ln2"; else if (t == "ln10") e.op = "ln10";
      else { e.op = "num"; e.num = strtold(t.c_str(), 0); MP q; mpfr_strtofr(&q.v, t.c_str(), 0, 0, 0); MP d = q - MP(e.num); e.nerr = fabsl(d.ld()) * 1.01L; }
    }
    n.push_back(e); return (int)n.size() - 1;
  }
  static Expr mk(const string& s) { Expr e; size_t i = 0; e.src = s; e.root = e.parse(s, i); return e; }
};
static TM* t_ibeta_series(Ctx& C, const TM* a, const TM* b, const TM* x, const TM* omx);
static TM* tmEval(Ctx& C, const Expr& E, int k, const TM* const* x, const TM* r, vector<const TM*>& memo) {
  if (memo[k]) return (TM*)memo[k];
  const Ex& e = E.n[k]; TM* t = nullptr;
  auto A = [&](int i) { return tmEval(C, E, e.a[i], x, r, memo); };
  const string& o = e.op;
  if (o == "var") t = (TM*)(e.var == 9 ? r : x[e.var]);
  else if (o == "num") t = C.cst(e.num, e.nerr);
  else if (o == "pi") t = C.cst(3.14159265358979323846264338327950288L, 0x1p-62L);
  else if (o == "ln2") t = C.cst(0.693147180559945309417232121458176568L, 0x1p-64L);
  else if (o == "ln10") t = C.cst(2.30258509299404568401799145468436421L, 0x1p-62L);
  else if (o == "+") { t = A(0); for (size_t i = 1; i < e.a.size(); i++) t = add(C, t, A(i), 1); }
  else if (o == "-") { t = e.a.size() == 1 ? neg(C, A(0)) : add(C, A(0), A(1), -1); }
  else if (o == "*") { t = A(0); for (size_t i = 1; i < e.a.size(); i++) t = mul(C, t, A(i)); }
  else if (o == "/") t = div(C, A(0), A(1));
  else if (o == "sq") { TM* q = A(0); t = mul(C, q, q); }
  else if (o == "exp") t = t_exp(C, A(0)); else if (o == "expm1") t = t_expm1(C, A(0)); else if (o == "log") t = t_log(C, A(0)); else if (o == "log1p") t = t_log1p(C, A(0));
  else if (o == "sqrt") t = t_sqrt(C, A(0)); else if (o == "sin") t = t_sc(C, A(0), true); else if (o == "cos") t = t_sc(C, A(0), false); else if (o == "atan") t = t_atan(C, A(0));
  else if (o == "erf") t = t_erf(C, A(0), false); else if (o == "erfc") t = t_erf(C, A(0), true); else if (o == "lgamma") t = t_lgamma(C, A(0));
  else if (o == "abs") { TM* q = A(0); if (q->lo >= 0) t = q; else if (q->hi <= 0) t = neg(C, q); else throw Fail{"abs of a mixed range"}; }
  else if (o == "powi") { // integer power by squaring, exponent literal
    long n = (long)E.n[e.a[1]].num; if (E.n[e.a[1]].op == "var") throw Fail{"powi"}; bool ng = n < 0; if (ng) n = -n; TM* b = A(0); TM* q = C.cst(1); while (n) { if (n & 1) q = mul(C, q, b); n >>= 1; if (n) b = mul(C, b, b); } t = ng ? div(C, C.cst(1), q) : q; }
  else if (o == "gammap") { // regularised lower incomplete gamma, positive series
    TM *a = A(0), *z = A(1);
    if (z->lo > a->hi + 6 && a->lo > 0) { // one minus the upper function by Legendre's continued fraction; the tail beyond level N lies in [z, z + N - a]
      int N = 60 + (int)a->hi; TM* t1 = addc(C, z, (N - a->lo) / 2); t1->rem = up(t1->rem + (N - a->lo) / 2); t1->lo = z->lo * (1 - 4 * EPSR); t1->hi = (z->hi + N) * (1 + 4 * EPSR);
      for (int k = N - 1; k >= 1; k--) { TM* b = addc(C, div(C, C.cst((R)k), t1), 1); t1 = add(C, z, div(C, addc(C, neg(C, a), (R)k), b), 1); }
      TM* l = add(C, add(C, mul(C, a, t_log(C, z)), z, -1), add(C, t_lgamma(C, addc(C, a, 1)), t_log(C, a), -1), -1);
      t = add(C, C.cst(1), div(C, t_exp(C, l), t1), -1); t = C.copy(t); tighten(C, t, std::max<R>(t->lo, 0), std::min<R>(t->hi, 1)); memo[k] = t; return t; }
    TM* pre = t_exp(C, add(C, add(C, mul(C, a, t_log(C, z)), z, -1), t_lgamma(C, addc(C, a, 1)), -1));
    TM *sum = C.cst(1), *term = C.cst(1); int n = 1; R zh = z->hi, al = a->lo;
    for (;; n++) { TM* d = addc(C, a, (R)n); term = div(C, mul(C, term, z), d); sum = add(C, sum, term, 1); R q = zh / (al + n + 1); if (q < 0.75L && term->hi * q / (1 - q) < 1e-24L * sum->lo) { R tail = up(term->hi * q / (1 - q)); sum = C.copy(sum); sum->rem = up(sum->rem + tail); sum->hi += tail; break; } if (n > 4000) throw Fail{"series"}; }
    t = mul(C, pre, sum); t = C.copy(t); tighten(C, t, std::max<R>(t->lo, 0), std::min<R>(t->hi, 1)); }
  else if (o == "ibeta") { TM *a = A(0), *b = A(1), *z = A(2); TM* w = add(C, C.cst(1), z, -1);
    R am = (a->lo + a->hi) / 2, bm = (b->lo + b->hi) / 2, zm = (z->lo + z->hi) / 2;
    if (zm < 0.9L && ((am + 1) / (am + bm + 2) > zm || zm < 0.1L)) t = t_ibeta_series(C, a, b, z, w); else t = add(C, C.cst(1), t_ibeta_series(C, b, a, w, z), -1);
    t = C.copy(t); tighten(C, t, std::max<R>(t->lo, 0), std::min<R>(t->hi, 1)); }
  else throw Fail{"unknown reference operator"};
  memo[k] = t; return t;
}
static TM* t_ibeta_series(Ctx& C, const TM* a, const TM* b, const TM* x, const TM* omx) {
  TM* ab = add(C, a, b, 1);
  TM* l = add(C, mul(C, a, t_log(C, x)), mul(C, b, t_log(C, omx)), 1);
  l = add(C, l, t_lgamma(C, ab), 1); l = add(C, l, t_lgamma(C, addc(C, a, 1)), -1); l = add(C, l, t_lgamma(C, b), -1);
  TM* pre = t_exp(C, l); TM *sum = C.cst(1), *term = C.cst(1); R xh = x->hi;
  for (int n = 0;; n++) { term = div(C, mul(C, mul(C, term, addc(C, ab, (R)n)), x), addc(C, a, (R)(n + 1))); sum = add(C, sum, term, 1);
    R q = (ab->hi + n + 1) / (a->lo + n + 2) * xh; R qq = std::max(q, xh); if (qq < 0.97L && term->hi * qq / (1 - qq) < 1e-23L * sum->lo) { R tail = up(term->hi * qq / (1 - qq)); sum = C.copy(sum); sum->rem = up(sum->rem + tail); sum->hi += tail; break; }
    if (n > 4000) throw Fail{"series"}; }
  return mul(C, pre, sum);
}
static TM* tmRef(Ctx& C, const Expr& E, const TM* const* x, const TM* r) { vector<const TM*> memo(E.n.size(), nullptr); return tmEval(C, E, E.root, x, r, memo); }
static MP mpEval(const Expr& E, int k, const R* x, R r) {
  const Ex& e = E.n[k]; auto A = [&](int i) { return mpEval(E, e.a[i], x, r); }; const string& o = e.op;
  if (o == "var") return MP(e.var == 9 ? r : x[e.var]);
  if (o == "num") { MP q(e.num); return q; }
  if (o == "pi") { MP q; mpfr_const_pi(&q.v, 0); return q; } if (o == "ln2") return mp_log(MP(2)); if (o == "ln10") return mp_log(MP(10));
  if (o == "+") { MP t = A(0); for (size_t i = 1; i < e.a.size(); i++) t = t + A(i); return t; }
  if (o == "-") return e.a.size() == 1 ? mp_neg(A(0)) : A(0) - A(1);
  if (o == "*") { MP t = A(0); for (size_t i = 1; i < e.a.size(); i++) t = t * A(i); return t; }
  if (o == "/") return A(0) / A(1); if (o == "sq") { MP q = A(0); return q * q; }
  if (o == "exp") return mp_exp(A(0)); if (o == "expm1") return mp_expm1(A(0)); if (o == "log") return mp_log(A(0)); if (o == "log1p") return mp_log1p(A(0)); if (o == "sqrt") return mp_sqrt(A(0));
  if (o == "sin") return mp_sin(A(0)); if (o == "cos") return mp_cos(A(0)); if (o == "atan") return mp_atan(A(0)); if (o == "erf") return mp_erf(A(0)); if (o == "erfc") return mp_erfc(A(0)); if (o == "lgamma") return mp_lgamma(A(0)); if (o == "abs") return mp_abs(A(0));
  if (o == "powi") { MP r2; MP n(E.n[e.a[1]].num); MP b = A(0); mpfr_pow(&r2.v, &b.v, &n.v, 0); return r2; }
  if (o == "gammap") { MP a = A(0), z = A(1); MP pre = mp_exp(a * mp_log(z) - z - mp_lgamma(a + MP(1))), sum(1), term(1); R zh = z.ld(), al = a.ld(); for (int n = 1; n < 100000; n++) { term = term * z / (a + MP(n)); sum = sum + term; R q = zh / (al + n + 1); if (q < 0.75L && term.ld() < 1e-40L * sum.ld()) break; } return pre * sum; }
  if (o == "ibeta") { MP a = A(0), b = A(1), z = A(2); R zl = z.ld(); bool sw = !(zl < 0.9L && (((a + MP(1)) / (a + b + MP(2))).ld() > zl || zl < 0.1L)); MP w = MP(1) - z; if (sw) { std::swap(a, b); std::swap(z, w); }
    MP ab = a + b; MP pre = mp_exp(a * mp_log(z) + b * mp_log(w) + mp_lgamma(ab) - mp_lgamma(a + MP(1)) - mp_lgamma(b)), sum(1), term(1);
    for (int n = 0; n < 100000; n++) { term = term * (ab + MP(n)) * z / (a + MP(n + 1)); sum = sum + term; R q = ((ab + MP(n + 1)) / (a + MP(n + 2)) * z).ld(); if (std::max(q, z.ld()) < 0.97L && term.ld() < 1e-40L * sum.ld()) break; }
    MP p = pre * sum; return sw ? MP(1) - p : p; }
  throw Fail{"unknown reference operator"};
}

// ------------------------------------------------------------------ contracts and jobs
struct Piece { R A, B, C; R lo[3], hi[3]; string kind = "err"; };
struct Contract { string name; Ty ty; int n; int depth; Expr ref, g; bool hasg = false; vector<Piece> p; };
struct Cex { bool set = false; R x[3]; Val r; string why; R err = 0, bound = 0; };
struct Box { R lo[3], hi[3]; int lev = 0; bool pts = false; int piece = 0; };
struct Job {
  string id, fname, root; int fn = -1, nv = 1, ord = 8, noise = 0; R minw = 0; long maxboxes = 2000000; bool stubs = true; bool safety = true; R sub = 0; bool lin = false; bool noev = false; int dlim = 0;
  Expr resid, f, g; bool hasg = false, hasresid = false; vector<Piece> p; std::map<int, int64_t> iargs; std::map<int, std::pair<Ty, R>> fargs; /* constant fp arguments */ vector<Ty> vt; /* fp type of each variable */ vector<int> argvar; /* arg -> var or -1 */
  vector<string> inl; // names never answered by a contract
  // results
  std::mutex mu; std::atomic<long> boxes{0}, points{0}, paths{0}, fails{0}, leaf{0}, pending{0}; std::atomic<int> maxdepth{0}; std::atomic<bool> stop{false}; double secs = 0; R worst = 0; Box worstbox;
  Cex cex; vector<std::pair<Box, string>> failed; std::map<string, std::pair<long, string>> events; std::map<string, long> used; bool timeout = false;
};
struct NeedSplit { R t; R w; bool pts; };   // relative position of the crossing in [-1,1], half width

struct Obj { int size; bool cst; Val c0; std::map<int, Val>* more = nullptr; };
struct Fact { uint64_t a, b; int mask; const TM* t = nullptr; R lo = 0, hi = 0; };    // on this path the comparison of a with b has an outcome in mask
struct Opt { Val v; vector<Fact> facts; };    // a result of a call, with what its path decided
struct Cached { size_t pos; vector<Opt> res; };
struct KeyH { size_t operator()(const std::array<uint64_t, 3>& k) const { return (k[0] * 0x9E3779B97F4A7C15ULL) ^ (k[1] * 0xC2B2AE3D27D4EB4FULL >> 7) ^ (k[2] * 0x165667B19E3779F9ULL << 3) ^ (k[1] << 21); } };
struct Frame { vector<int> dec, nopt; size_t pos = 0; int base = 0; bool dirty = false, dirty2 = false; vector<Cached> calls; size_t ci = 0; vector<Fact> facts; };

struct Machine {
  const Mod& m; const vector<Contract>& cons; Ctx C; vector<Obj> objs; vector<Frame*> fr; int depth = 0, maxdepth = 0; long steps = 0, npaths = 0;
  Job* job = nullptr; R blo[3], bhi[3]; bool point = false; std::map<string, string> ev; std::map<string, long> used; int bestdim = -1;
  vector<Val> regpool; size_t regtop = 0;
  Machine(const Mod& m_, const vector<Contract>& c_) : m(m_), cons(c_) { regpool.resize(1 << 18); }
  void event(const string& k, const string& w) { if (!ev.count(k)) ev[k] = w; }

  const TM* tm(const Val& v) { if (v.k == KT) return v.tm; if (v.k == KC) { if (!std::isfinite(v.f)) throw Fail{"infinite operand"}; return C.cst(v.f); } throw Fail{"operand"}; }
  Val vtm(Ty t, const TM* x) { Val r; r.k = KT; r.t = t; r.tm = x; return r; }
  int decide(int n) { Frame* f = fr.back(); if (f->pos < f->dec.size()) return f->dec[f->pos++]; if (f->dec.size() > 400) throw Fail{"too many undecided branches"}; f->dec.push_back(0); f->nopt.push_back(n); f->pos++; return 0; }
  static bool nextpath(Frame& f) { while (!f.dec.empty() && f.dec.back() + 1 >= f.nopt.back()) { f.dec.pop_back(); f.nopt.pop_back(); } if (f.dec.empty()) return false; f.dec.back()++; f.pos = 0; size_t k = f.dec.size() - 1, n = 0; while (n < f.calls.size() && f.calls[n].pos <= k) n++; f.calls.resize(n); return true; }

  // rounding of a real enclosure to the type; exact: the real result is representable
  Val rounded(Ty ty, TM* t, bool exact, bool mulop) {
    const FT& F = FTS[ty];
    if (ty != F80 && t->lo > F.mx * (1 + F.u)) { event("floating overflow", ""); return vfp(ty, INFINITY); } if (ty != F80 && t->hi < -F.mx * (1 + F.u)) { event("floating overflow", ""); return vfp(ty, -INFINITY); }
    if (t->hi > F.mx * (1 - F.u) || t->lo < -F.mx * (1 - F.u)) throw Fail{"possible overflow"};
    if (exact) return vtm(ty, t);
    TM* q = C.copy(t); R mg = mag(q), e = F.u * mg; if (mulop && mig(q) < F.mn) e += F.eta;
    e = up(e); q->rem = up(q->rem + e);
    // the rounded value of a bound bounds the rounded value
    // rounding is monotone: the rounded bounds bound the rounded value
    R lo, hi; if (ty != F80) { lo = rnd(ty, q->lo); hi = rnd(ty, q->hi); } else { lo = q->lo - F.u * fabsl(q->lo) * INFL; hi = q->hi + F.u * fabsl(q->hi) * INFL; if (mulop) { if (fabsl(lo) < F.mn) lo -= F.eta; if (fabsl(hi) < F.mn) hi += F.eta; } if (q->lo >= 0 && lo < 0) lo = 0; if (q->hi <= 0 && hi > 0) hi = 0; }
    q->lo = lo; q->hi = hi; tighten(C, q, lo, hi); return vtm(ty, q);
  }
  static bool pow2(R k) { int e; return k != 0 && std::isfinite(k) && fabsl(frexpl(k, &e)) == 0.5L; }
  // equal operations on equal operands give the same float: keep one enclosure for it
  std::unordered_map<std::array<uint64_t, 3>, const TM*, KeyH> memo; std::map<string, uint64_t> cids;
  static uint64_t vid(const Val& v) { if (v.k == KT) return (uint64_t)v.tm; uint64_t m; uint16_t e; memcpy(&m, &v.f, 8); memcpy(&e, (const char*)&v.f + 8, 2); return (m * 0x9E3779B97F4A7C15ULL) ^ ((uint64_t)e << 17) ^ 1; }
  Val refine(const Val& v) { // what the path has decided about the range of this value
    if (v.k != KT) return v; R lo = v.tm->lo, hi = v.tm->hi; bool any = false;
    for (Frame* f : fr) for (auto& q : f->facts) if (q.t == v.tm) { if (q.lo > lo) { lo = q.lo; any = true; } if (q.hi < hi) { hi = q.hi; any = true; } }
    if (!any || !(lo <= hi)) return v;
    std::array<uint64_t, 3> k{(uint64_t)v.tm, vid(vfp(F80, lo)), vid(vfp(F80, hi))}; auto it = memo.find(k); if (it != memo.end()) return vtm(v.t, it->second);
    TM* t = C.copy(v.tm); t->lo = lo; t->hi = hi; memo[k] = t; return vtm(v.t, t);
  }
  bool anyfacts() { for (Frame* f : fr) if (!f->facts.empty()) return true; return false; }
  Val fop(Op op, Ty ty, const Val& a0, const Val& b0, const char* where) {
    Val a = a0, b = b0; if (!point && anyfacts()) { a = refine(a0); b = a0.k == KT && b0.k == KT && a0.tm == b0.tm ? a : refine(b0); }
    if ((a.k == KC && b.k == KC) || (a.k == KC && !std::isfinite(a.f)) || (b.k == KC && !std::isfinite(b.f))) return fop0(op, ty, a, b, where);
    std::array<uint64_t, 3> k{(uint64_t)op * 8 + ty, vid(a), vid(b)}; auto it = memo.find(k); if (it != memo.end()) return vtm(ty, it->second);
    Val r = fop0(op, ty, a, b, where); if (r.k == KT) { if (r.tm != a.tm && r.tm != b.tm) corners(op, ty, a, b, (TM*)r.tm); memo[k] = r.tm; } return r;
  }
  static R hwop(Op op, Ty ty, R x0, R y0) {
    if (ty == F32) { float x = (float)x0, y = (float)y0; return op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y; }
    if (ty == F64) { double x = (double)x0, y = (double)y0; return op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : x / y; }
    return op == FADD ? x0 + y0 : op == FSUB ? x0 - y0 : op == FMUL ? x0 * y0 : x0 / y0;
  }
  // the operation is monotone in each operand (rounding included): its extremes over the operand ranges are at the corners
  void corners(Op op, Ty ty, const Val& a, const Val& b, TM* t) {
    if (op != FADD && op != FSUB && op != FMUL && op != FDIV) return;
    R al = a.k == KC ? a.f : a.tm->lo, ah = a.k == KC ? a.f : a.tm->hi, bl = b.k == KC ? b.f : b.tm->lo, bh = b.k == KC ? b.f : b.tm->hi;
    auto rep = [&](R v) { return rnd(ty, v) == v && std::isfinite(v); };
    if (!rep(al) || !rep(ah) || !rep(bl) || !rep(bh)) return; if (op == FDIV && bl <= 0 && bh >= 0) return;
    R lo, hi; if (op == FADD) { lo = hwop(op, ty, al, bl); hi = hwop(op, ty, ah, bh); } else if (op == FSUB) { lo = hwop(op, ty, al, bh); hi = hwop(op, ty, ah, bl); }
    else { R w = hwop(op, ty, al, bl), x = hwop(op, ty, al, bh), y = hwop(op, ty, ah, bl), z = hwop(op, ty, ah, bh); lo = std::min(std::min(w, x), std::min(y, z)); hi = std::max(std::max(w, x), std::max(y, z)); }
    if (!std::isfinite(lo) || !std::isfinite(hi)) return; if (lo > t->lo || hi < t->hi) tighten(C, t, std::max(lo, t->lo), std::min(hi, t->hi));
  }
  // every floating-point value of the operand is a multiple of this
  static R unit(const FT& F, const Val& v) { R m; if (v.k == KC) { if (!std::isfinite(v.f)) return 0; if (v.f == 0) return INFINITY; int e; R fr = frexpl(fabsl(v.f), &e); uint64_t u = (uint64_t)ldexpl(fr, 64); return ldexpl(1, e - 64 + __builtin_ctzll(u)); } m = mig(v.tm); if (!(m > 0)) return 0; return std::max(ldexpl(1, ilogbl(m)) * 2 * F.u, 2 * F.eta); }
  Val fop0(Op op, Ty ty, const Val& a, const Val& b, const char* where) {
    const FT& F = FTS[ty];
    if (a.k == KC && b.k == KC) {
      R r;
      if (ty == F32) { float x = (float)a.f, y = (float)b.f, z; z = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : op == FDIV ? x / y : fmodf(x, y); r = z; }
      else if (ty == F64) { double x = (double)a.f, y = (double)b.f, z; z = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : op == FDIV ? x / y : fmod(x, y); r = z; }
      else { R x = a.f, y = b.f; r = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : op == FDIV ? x / y : fmodl(x, y); }
      if (op == FDIV && b.f == 0) event("floating division by zero", where);
      else if (std::isnan(r) && !std::isnan(a.f) && !std::isnan(b.f)) event("invalid floating operation", where);
      else if (std::isinf(r) && std::isfinite(a.f) && std::isfinite(b.f)) event("floating overflow", where);
      return vfp(ty, r);
    }
    if ((a.k == KC && std::isnan(a.f)) || (b.k == KC && std::isnan(b.f))) return vfp(ty, std::numeric_limits<R>::quiet_NaN());
    // an infinite constant against a finite range, an exact zero, division by an exact zero: the sign must be decided, a zero of unknown sign is not a constant
    auto sg = [&](const Val& v) { return v.k == KC ? (std::signbit(v.f) ? -1 : 1) : v.tm->lo > 0 ? 1 : v.tm->hi < 0 ? -1 : 0; };
    auto zero = [&](int s) { return s ? vfp(ty, s > 0 ? 0.0L : -0.0L) : vtm(ty, C.cst(0)); };
    if ((a.k == KC && std::isinf(a.f)) || (b.k == KC && std::isinf(b.f))) {
      if (op == FADD) return a.k == KC ? a : b;
      if (op == FSUB) return a.k == KC ? a : vfp(ty, -b.f);
      int s = sg(a) * sg(b); if (op == FDIV && b.k == KC) return zero(s);
      if (op == FMUL || op == FDIV) { if (!s) throw Fail{"infinite operand against a value of unknown sign"}; return vfp(ty, s * std::numeric_limits<R>::infinity()); }
      throw Fail{"infinite operand"};
    }
    if (op == FDIV && b.k == KC && b.f == 0) { int s = sg(a) * sg(b); if (!s) throw Fail{"division of a value of unknown sign by zero"}; event("floating division by zero", where); return vfp(ty, s * std::numeric_limits<R>::infinity()); }
    if ((op == FMUL && ((a.k == KC && a.f == 0) || (b.k == KC && b.f == 0))) || (op == FDIV && a.k == KC && a.f == 0 && mig(b.tm) > 0)) return zero(sg(a) * sg(b));
    // exact special cases
    if (op == FMUL) {
      if (a.k == KC && pow2(a.f)) { TM* t = scale(C, b.tm, a.f); return rounded(ty, t, mig(t) >= F.mn, true); }
      if (b.k == KC && pow2(b.f)) { TM* t = scale(C, a.tm, b.f); return rounded(ty, t, mig(t) >= F.mn, true); }
      if (a.k == KC) return rounded(ty, scale(C, b.tm, a.f), false, true);
      if (b.k == KC) return rounded(ty, scale(C, a.tm, b.f), false, true);
      return rounded(ty, mul(C, a.tm, b.tm), false, true);
    }
    if (op == FDIV) {
      if (a.k == KC && a.f == 0) throw Fail{"0/0"};
      if (b.k == KC) {
        if (b.f == 0) throw Fail{"division by zero"};
        if (pow2(b.f)) { TM* t = scale(C, a.tm, 1 / b.f); return rounded(ty, t, mig(t) >= F.mn, true); }
        R k = 1 / b.f; return rounded(ty, scale(C, a.tm, k, fabsl(k) * EPSR), false, true);
      }
      if (a.k == KT && a.tm == b.tm && mig(a.tm) > 0) return vfp(ty, 1);
      return rounded(ty, div(C, tm(a), b.tm), false, true);
    }
    if (op == FADD || op == FSUB) {
      if (b.k == KC && b.f == 0) return a;
      if (a.k == KC && a.f == 0) return op == FADD ? b : vtm(ty, neg(C, b.tm));
      if (op == FSUB && a.k == KT && b.k == KT && a.tm == b.tm) return vfp(ty, 0);
      R alo, ahi, blo2, bhi2; if (a.k == KC) alo = ahi = a.f; else { alo = a.tm->lo; ahi = a.tm->hi; } if (b.k == KC) blo2 = bhi2 = b.f; else { blo2 = b.tm->lo; bhi2 = b.tm->hi; }
      if (op == FADD) { R t = -blo2; blo2 = -bhi2; bhi2 = t; }  // a - (-b)
      bool st = (alo > 0 && blo2 > 0 && alo >= bhi2 / 2 && ahi <= 2 * blo2) || (ahi < 0 && bhi2 < 0 && ahi <= blo2 / 2 && alo >= 2 * bhi2);
      if (!st) { // the operands are floating-point numbers, so the sum is a multiple of the smaller unit: exact when it is not too large
        R q = std::min(unit(F, a), unit(F, b)); if (q > 0) { R s1 = fabsl(ahi - blo2), s2 = fabsl(alo - bhi2); st = std::max(s1, s2) * (1 + 4 * EPSR) <= q / F.u; } }
      TM* t; if (a.k == KC) t = addc(C, op == FADD ? b.tm : neg(C, b.tm), a.f); else if (b.k == KC) t = addc(C, a.tm, op == FADD ? b.f : -b.f); else t = add(C, a.tm, b.tm, op == FADD ? 1 : -1);
      return rounded(ty, t, st, false);
    }
    throw Fail{"unsupported floating operation"};
  }
  // relation of a and b: bit 0 less, bit 1 equal, bit 2 greater
  int relset(R alo, R ahi, R blo2, R bhi2) { int s = 0; if (alo < bhi2) s |= 1; if (ahi >= blo2 && alo <= bhi2) s |= 2; if (ahi > blo2) s |= 4; return s; }
  static int truth(int pred, int s) { // 0 false 1 true -1 mixed; ordered operands
    int tset; switch (pred & 7) { case 1: tset = 2; break; case 2: tset = 4; break; case 3: tset = 6; break; case 4: tset = 1; break; case 5: tset = 3; break; case 6: tset = 5; break; case 7: tset = 7; break; default: tset = 0; }
    if (pred == 15) tset = 7; else if (pred == 14) tset = 0;   // uno on ordered operands
    else if (pred >= 8) { int q[] = {2, 4, 6, 1, 3, 5}; tset = q[pred - 8]; }
    bool t = s & tset, f = s & ~tset & 7; return t && f ? -1 : t ? 1 : 0;
  }
  bool undecided(const TM* d) {   // a quantity whose sign is not decided on this box; returns a forked decision
    if (point) throw Fail{"undecided at a point"};
    R unc = nsum(d) + d->rem, var = pvar(C, d);
    if (job->nv == 1) {
      Ty t = job->vt[0]; __int128 n = ordi(t, bhi[0]) - ordi(t, blo[0]);
      if (n <= 12) throw NeedSplit{0, 0, true};
      if (var > 8 * unc) { R c1 = C.cf->nc > 1 ? d->c[1] : 0; R ts = c1 != 0 ? -d->c[0] / c1 : 0, w = c1 != 0 ? 2 * (unc + 0.0L) / fabsl(c1) : 0.25L; R q = 0; for (int i = 2; i < C.cf->nc; i++) q += fabsl(d->c[i]); w += c1 != 0 ? 2 * q / fabsl(c1) : 0; if (!(fabsl(ts) <= 1)) ts = ts > 0 ? 1 : -1; if (!(w < 0.25L)) { ts = 0; w = 0; } throw NeedSplit{ts, w, false}; }
    } else {
      if (var > 8 * unc) { R b = 0; for (int v = 0; v < job->nv; v++) { R s = 0; for (int i = 1; i < C.cf->nc; i++) if (C.cf->expo[i][v]) s += fabsl(d->c[i]); if (s > b) { b = s; bestdim = v; } } }
    }
    return decide(2);
  }
  bool fcmp(int pred, Ty ty, const Val& a, const Val& b) {
    if (a.k == KC && b.k == KC) { if (std::isnan(a.f) || std::isnan(b.f)) return pred >= 8; return truth(pred, a.f < b.f ? 1 : a.f == b.f ? 2 : 4) == 1; }
    if ((a.k == KC && std::isnan(a.f)) || (b.k == KC && std::isnan(b.f))) return pred >= 8;
    if (a.k == KT && b.k == KT && a.tm == b.tm) return truth(pred, 2) == 1;
    if (a.k == KC && std::isinf(a.f)) return truth(pred, a.f > 0 ? 4 : 1) == 1;
    if (b.k == KC && std::isinf(b.f)) return truth(pred, b.f > 0 ? 1 : 4) == 1;
    if ((a.k != KC && a.k != KT) || (b.k != KC && b.k != KT)) throw Fail{"comparison operand"};
    if (!point && anyfacts()) { Val ra = refine(a), rb = refine(b); R al = ra.k == KC ? ra.f : ra.tm->lo, ah = ra.k == KC ? ra.f : ra.tm->hi, bl = rb.k == KC ? rb.f : rb.tm->lo, bh = rb.k == KC ? rb.f : rb.tm->hi; int t = truth(pred, relset(al, ah, bl, bh)); if (t >= 0) return t; }
    R alo = a.k == KC ? a.f : a.tm->lo, ahi = a.k == KC ? a.f : a.tm->hi, bl = b.k == KC ? b.f : b.tm->lo, bh = b.k == KC ? b.f : b.tm->hi;
    int t = truth(pred, relset(alo, ahi, bl, bh)); if (t >= 0) return t;
    TM* d = a.k == KC ? addc(C, neg(C, b.tm), a.f) : b.k == KC ? addc(C, a.tm, -b.f) : add(C, a.tm, b.tm, -1);
    t = truth(pred, relset(d->lo, d->hi, 0, 0)); if (t >= 0) return t;
    int s0 = relset(d->lo, d->hi, 0, 0); uint64_t ka = vid(a), kb = vid(b); bool sw = ka > kb; if (sw) { std::swap(ka, kb); s0 = (s0 & 2) | (s0 & 1) << 2 | (s0 & 4) >> 2; }
    for (Frame* f : fr) for (auto& q : f->facts) if (q.a == ka && q.b == kb) s0 &= q.mask;
    auto flip = [&](int z) { return sw ? (z & 2) | (z & 1) << 2 | (z & 4) >> 2 : z; };
    t = truth(pred, flip(s0)); if (t >= 0 && s0) return t;
    bool r = undecided(d); int tset = 0; for (int z = 1; z <= 4; z *= 2) if (truth(pred, z) == (r ? 1 : 0)) tset |= z;
    Fact fc{ka, kb, flip(tset)};
    if (a.k == KC || b.k == KC) { const TM* x = a.k == KT ? a.tm : b.tm; R c = a.k == KC ? a.f : b.f; int z = a.k == KT ? tset : (tset & 2) | (tset & 1) << 2 | (tset & 4) >> 2; // allowed relations of x to c
      R cn = ordr(ty, ordi(ty, c) + 1), cp = ordr(ty, ordi(ty, c) - 1); fc.t = x; fc.lo = x->lo; fc.hi = x->hi; if (!(z & 1)) fc.lo = std::max(fc.lo, z & 2 ? c : cn); if (!(z & 4)) fc.hi = std::min(fc.hi, z & 2 ? c : cp); if (!(fc.lo <= fc.hi)) fc.t = nullptr; }
    fr.back()->facts.push_back(fc); return r;
  }
  int64_t fptoint(const Val& a, int w, bool sg, const char* where) {
    R mn = sg ? -ldexpl(1, w - 1) : 0, mx = sg ? ldexpl(1, w - 1) : ldexpl(1, w);
    if (a.k == KC) { if (!(a.f > mn - 1 && a.f < mx)) { event("conversion out of the integer's range", where); return 0; } R t = truncl(a.f); return sg ? (int64_t)t : (int64_t)(uint64_t)t; }
    const TM* x = tm(a); if (!(x->lo > mn - 1 && x->hi < mx)) throw Fail{"conversion may be out of range"};
    R l = truncl(x->lo), h = truncl(x->hi); if (l == h) return sg ? (int64_t)l : (int64_t)(uint64_t)l;
    if (h - l > 3) { if (point) throw Fail{"undecided at a point"}; if (job->nv == 1) throw NeedSplit{0, 0, false}; throw Fail{"conversion spans several integers"}; }
    // split at the first crossing
    R k = l; while (k < h) { R thr = k >= 0 ? k + 1 : k == -1 ? k : k; // x < thr+? : trunc(x) <= k iff x < k+1 (k>=0), x <= k (k<0, non-integer rounding towards zero)
      TM* d = addc(C, x, k >= 0 ? -(k + 1) : -k); (void)thr; bool le; if (d->hi < 0) le = true; else if (d->lo > 0) le = false; else le = undecided(d) == 0; if (le) return (int64_t)k; k += 1; }
    return (int64_t)h;
  }
  Val& cell(const Val& p, const char* where, bool st, int sz) {
    if (p.k != KP) throw Fail{"dereference of a non-pointer"};
    if (p.p.obj < 0) throw Fail{"global store"};
    Obj& o = objs[p.p.obj]; if (p.p.off < 0 || p.p.off + sz > o.size) { event("out of bounds access", where); throw Fail{"out of bounds"}; }
    if (st) for (size_t i = fr.size(); i-- > 0 && p.p.obj < fr[i]->base;) fr[i]->dirty = true;
    if (p.p.off == 0) return o.c0; if (!o.more) o.more = new std::map<int, Val>; return (*o.more)[p.p.off];
  }
  void popobjs(size_t n) { while (objs.size() > n) { delete objs.back().more; objs.pop_back(); } }

  bool same(const Val& a, const Val& b) {
    if (a.k != b.k) return false;
    if (a.k == KI) return a.i == b.i; if (a.k == KC) return (std::isnan(a.f) && std::isnan(b.f)) || (a.f == b.f && std::signbit(a.f) == std::signbit(b.f)); if (a.k == KT) return a.tm == b.tm; if (a.k == KP) return a.p.obj == b.p.obj && a.p.off == b.p.off; return true;
  }
  bool merge(Val& into, const Val& v) {
    if (same(into, v)) return true;
    bool f1 = into.k == KT || into.k == KC, f2 = v.k == KT || v.k == KC; if (!f1 || !f2) return false;
    if ((into.k == KC && !std::isfinite(into.f)) || (v.k == KC && !std::isfinite(v.f))) return false;
    const TM *a = tm(into), *b = tm(v); TM* d = add(C, a, b, -1); R md = mag(d), u = nsum(a) + a->rem + nsum(b) + b->rem;
    if (!(md <= 1e-5L * std::max(mag(a), mag(b)) || md <= 16 * u)) return false;
    // common polynomial, the larger of the two uncertainties (noise becomes remainder)
    TM* h = C.raw(); R dp = 0; for (int i = 0; i < C.cf->nc; i++) { h->c[i] = 0.5L * a->c[i] + 0.5L * b->c[i]; dp += 0.5L * fabsl(a->c[i] - b->c[i]) + fabsl(h->c[i]) * EPSR; }
    h->nn = 0; h->rem = up(std::max(nsum(a) + a->rem, nsum(b) + b->rem) + dp); tighten(C, h, std::min(a->lo, b->lo), std::max(a->hi, b->hi)); into = vtm(into.t, h); return true;
  }
  bool contract(const Fn& F, const vector<Val>& a, Val& out) {
    if (F.contract < 0 || point) return false;
    bool anyT = false; for (auto& v : a) if (v.k == KT) anyT = true; if (!anyT) return false;
    if (F.contract == 1000000) { // abs: proved exact for every input (C02)
      const TM* x = a[0].tm; used["gcem::abs"]++;
      if (x->lo >= 0) { out = a[0]; return true; } if (x->hi <= 0) { out = vtm(a[0].t, neg(C, x)); return true; }
      R mg = mag(x); TM* t = C.cst(mg / 2, mg / 2); t->lo = 0; t->hi = mg; out = vtm(a[0].t, t); return true;
    }
    if (F.simple == job->root || !job->stubs) return false;
    for (auto& s : job->inl) if (s == F.simple) return false;
    const Contract& c = cons[F.contract];
    const TM* x[3]; for (int i = 0; i < c.n; i++) { if (a[i].k != KT && a[i].k != KC) return false; if (a[i].k == KC && !std::isfinite(a[i].f)) return false; x[i] = tm(a[i]); }
    R A = 0, B = 0, Cc = 0; bool ok = false;
    if (c.n == 1) { // pieces may share the range
      R at = x[0]->lo; vector<const Piece*> ps; for (auto& p : c.p) ps.push_back(&p); std::sort(ps.begin(), ps.end(), [](const Piece* u, const Piece* v) { return u->lo[0] < v->lo[0]; });
      R cov = -INFINITY; bool started = false;
      for (auto p : ps) { if (p->hi[0] < at || p->lo[0] > x[0]->hi) continue; if (!started) { if (p->lo[0] > at) return false; started = true; cov = p->hi[0]; } else { R nx = rnd(a[0].t, cov); nx = ordr(a[0].t, ordi(a[0].t, nx) + 1); if (p->lo[0] > nx) return false; cov = std::max(cov, p->hi[0]); } A = std::max(A, p->A); B = std::max(B, p->B); Cc = std::max(Cc, p->C); }
      ok = started && cov >= x[0]->hi;
    } else for (auto& p : c.p) { bool in = true; for (int i = 0; i < c.n; i++) if (!(x[i]->lo >= p.lo[i] && x[i]->hi <= p.hi[i])) in = false; if (in) { A = p.A; B = p.B; Cc = p.C; ok = true; break; } }
    if (!ok) return false;
    TM* r = tmRef(C, c.ref, x, nullptr); R e = A + B * mag(r); if (Cc > 0) e += Cc * mag(tmRef(C, c.g, x, nullptr)); e = up(e);
    TM* q = C.copy(r); q->rem = up(q->rem + e); q->lo -= e; q->hi += e;
    const FT& FF = FTS[a[0].t]; if (q->hi > FF.mx * 0.99L || q->lo < -FF.mx * 0.99L) throw Fail{"possible overflow"};
    used["contract " + c.name + (c.ty == F32 ? " f32" : c.ty == F64 ? " f64" : " f80")]++; if (depth + c.depth > maxdepth) maxdepth = depth + c.depth;
    out = vtm(c.ty, q); return true;
  }
  Val call(int fi, const vector<Val>& args) {
    const Fn& F = m.f[fi]; Val out; if (contract(F, args, out)) return out;
    // a path that is run again up to its last decision makes the same calls with the same results
    Frame* up = fr.empty() ? nullptr : fr.back();
    if (up && up->ci < up->calls.size()) { Cached& c = up->calls[up->ci++]; return choose(c.res); }
    size_t upos = up ? up->pos : 0;
    depth++; if (depth > maxdepth) maxdepth = depth; if (depth > 4000) throw Fail{"recursion depth"};
    used[F.simple]++;
    Frame f; f.base = (int)objs.size(); fr.push_back(&f); vector<Opt> res; int np = 0; size_t mark = objs.size(), rt = regtop; int d0 = depth;
    struct G { Machine* M; size_t n, mark, rt; int d; ~G() { M->fr.resize(n); M->popobjs(mark); M->regtop = rt; M->depth = d; } } guard{this, fr.size() - 1, mark, rt, depth - 1};
    while (true) {
      f.pos = 0; f.ci = 0; f.facts.clear(); Val r = run(F, args); depth = d0; regtop = rt; popobjs(mark); np++; npaths++;
      bool done = false; for (auto& q : res) if (merge(q.v, r)) { vector<Fact> k; for (auto& x : q.facts) for (auto& y : f.facts) if (x.a == y.a && x.b == y.b) { Fact z = x; z.mask |= y.mask; if (z.t && y.t == z.t) { z.lo = std::min(x.lo, y.lo); z.hi = std::max(x.hi, y.hi); } else z.t = nullptr; k.push_back(z); break; } q.facts = k; done = true; break; } if (!done) res.push_back({r, f.facts});
      if (!nextpath(f)) break; if (f.dirty || f.dirty2) throw Fail{"undecided branch in a function that writes to its caller's memory"}; if (np > 600 || res.size() > 8) throw Fail{"too many paths"};
    }
    fr.pop_back();
    if (up && !f.dirty) { up->calls.push_back({upos, res}); up->ci = up->calls.size(); }
    else if (up) up->dirty2 = true;
    if (fr.empty()) { if (res.size() > 1) for (auto& q : res) multi.push_back(q.v); return res[0].v; }
    return choose(res);
  }
  Val choose(const vector<Opt>& res) { const Opt& o = res.size() == 1 ? res[0] : res[decide((int)res.size())]; Frame* f = fr.back(); for (auto& x : o.facts) if (x.mask != 7) f->facts.push_back(x); return o.v; }
  vector<Val> multi;
  Val run(const Fn& F, const vector<Val>& args) {
    if (regtop + F.nr > regpool.size()) throw Fail{"register stack"};
    Val* R_ = &regpool[regtop]; regtop += F.nr; for (int i = 0; i < F.np; i++) R_[i] = args[i];
    int bb = 0, prev = -1; const char* nm = F.simple.c_str();
    auto V = [&](const Opd& o) -> const Val& { return o.reg >= 0 ? R_[o.reg] : o.v; };
    while (true) {
      const vector<Ins>& B = F.bl[bb]; size_t i = 0; int nb = -1;
      if (!B.empty() && B[0].op == PHI) { vector<Val> tmp; size_t j = 0; for (; j < B.size() && B[j].op == PHI; j++) { size_t q = 0; for (; q < B[j].b.size(); q++) if (B[j].b[q] == prev) break; if (q == B[j].b.size()) throw Fail{"phi"}; tmp.push_back(V(B[j].a[q])); } for (size_t q = 0; q < j; q++) R_[B[q].dst] = tmp[q]; i = j; }
      for (; i < B.size(); i++) {
        const Ins& I = B[i]; if (++steps > 40000000) throw Fail{"step budget"};
        switch (I.op) {
          case ALLOCA: { Obj o; o.size = I.w; o.cst = false; objs.push_back(o); Val r; r.k = KP; r.t = PTRT; r.p.obj = (int)objs.size() - 1; r.p.off = 0; R_[I.dst] = r; break; }
          case LOAD: { const Val& p = V(I.a[0]); int sz = I.ty == INTT ? (I.w + 7) / 8 : I.w; if (p.k == KP && p.p.obj < 0) { const Glob& g = m.g[-1 - p.p.obj]; if (p.p.off < 0 || p.p.off + sz > g.size) { event("out of bounds access", nm); throw Fail{"out of bounds"}; } if (!g.cst) throw Fail{"mutable global"}; auto it = g.v.find(p.p.off); if (it == g.v.end()) throw Fail{"global layout"}; R_[I.dst] = it->second; } else { Val v = cell(p, nm, false, sz); if (v.k == KU) { event("read of an uninitialised object", nm); throw Fail{"uninitialised"}; } if (v.t != I.ty && !(v.t == INTT && I.ty == INTT)) throw Fail{"type pun"}; if (v.k == KI && v.w != I.w) v = vint(v.i, I.w); R_[I.dst] = v; } break; }
          case STORE: { Val v = V(I.a[0]); int sz = I.ty == INTT ? (I.w + 7) / 8 : I.w; if (job->noise && v.k == KT && v.tm->rem > 0 && !point) { std::array<uint64_t, 3> k{(uint64_t)STORE * 8, (uint64_t)v.tm, 0}; auto it = memo.find(k); if (it != memo.end()) v.tm = it->second; else { TM* t = C.copy(v.tm); R r = t->rem; t->rem = 0; addnoise(t, C.nextid++, r); v.tm = memo[k] = t; } } cell(V(I.a[1]), nm, true, sz) = v; break; }
          case GEP: { Val p = V(I.a[0]); if (p.k != KP) throw Fail{"gep"}; for (size_t j = 0; j < I.k.size(); j++) { const Val& x = V(I.a[j + 1]); if (x.k != KI) throw Fail{"gep index"}; p.p.off += (int)(I.k[j] * x.i); } R_[I.dst] = p; break; }
          case FADD: case FSUB: case FMUL: case FDIV: case FREM: R_[I.dst] = fop(I.op, I.ty, V(I.a[0]), V(I.a[1]), nm); break;
          case FNEG: { const Val& a = V(I.a[0]); if (a.k == KC) R_[I.dst] = vfp(I.ty, -a.f); else if (a.k == KT) { std::array<uint64_t, 3> k{(uint64_t)FNEG * 8, (uint64_t)a.tm, 0}; auto it = memo.find(k); const TM* t = it != memo.end() ? it->second : (memo[k] = neg(C, a.tm)); R_[I.dst] = vtm(I.ty, t); } else throw Fail{"fneg"}; break; }
          case FCMP: R_[I.dst] = vint(fcmp(I.sub, I.ty, V(I.a[0]), V(I.a[1])), 1); break;
          case ICMP: { const Val &a = V(I.a[0]), &b = V(I.a[1]); if (a.k != KI || b.k != KI) throw Fail{"icmp"}; uint64_t ua = a.i, ub = b.i; if (I.w < 64) { uint64_t mk = (1ULL << I.w) - 1; ua &= mk; ub &= mk; } bool r; switch (I.sub) { case 0: r = a.i == b.i; break; case 1: r = a.i != b.i; break; case 2: r = a.i < b.i; break; case 3: r = a.i <= b.i; break; case 4: r = a.i > b.i; break; case 5: r = a.i >= b.i; break; case 6: r = ua < ub; break; case 7: r = ua <= ub; break; case 8: r = ua > ub; break; default: r = ua >= ub; }
            if (I.sub < 2 && a.w == -1) throw Fail{"bits of an enclosure"}; R_[I.dst] = vint(r, 1); break; }
          case IOP: R_[I.dst] = iop(I, V(I.a[0]), V(I.a[1]), nm); break;
          case CAST: R_[I.dst] = cast(I, V(I.a[0]), nm); break;
          case MOV: R_[I.dst] = V(I.a[0]); break;
          case SELECT: { const Val& c = V(I.a[0]); if (c.k != KI) throw Fail{"select"}; R_[I.dst] = c.i ? V(I.a[1]) : V(I.a[2]); break; }
          case BR: nb = I.b[0]; break;
          case CONDBR: { const Val& c = V(I.a[0]); if (c.k != KI) throw Fail{"branch on undefined"}; nb = c.i ? I.b[0] : I.b[1]; break; }
          case SWITCH: { const Val& c = V(I.a[0]); if (c.k != KI) throw Fail{"switch"}; nb = I.b[0]; for (size_t j = 0; j < I.k.size(); j++) if (wrap(I.k[j], c.w) == c.i) { nb = I.b[j + 1]; break; } break; }
          case RET: { Val r; if (!I.a.empty()) r = V(I.a[0]); return r; }
          case UNREACH: event("unreachable", nm); throw Fail{"unreachable"};
          case CALL: {
            if (I.callee < 0) { R_[I.dst < 0 ? 0 : I.dst] = ext(I, V, nm); break; }
            vector<Val> a; for (auto& o : I.a) a.push_back(V(o)); size_t off = R_ - &regpool[0]; Val r = call(I.callee, a); R_ = &regpool[off]; if (I.dst >= 0) R_[I.dst] = r; break; }
          default: throw Fail{"unsupported instruction"};
        }
        if (nb >= 0) break;
      }
      if (nb < 0) throw Fail{"fell off a block"}; prev = bb; bb = nb;
    }
  }
  template<class VV> Val ext(const Ins& I, VV& V, const char*) {
    if (I.ext.find("llvm.fabs") != string::npos) { Val a = V(I.a[0]); if (a.k == KC) return vfp(I.ty, fabsl(a.f)); const TM* x = a.tm; if (x->lo >= 0) return a; if (x->hi <= 0) return vtm(I.ty, neg(C, x)); R mg = mag(x); TM* t = C.cst(mg / 2, mg / 2); t->lo = 0; t->hi = mg; return vtm(I.ty, t); }
    if (I.ext.find("llvm.copysign") != string::npos) { Val a = V(I.a[0]), b = V(I.a[1]); if (a.k == KC && b.k == KC) return vfp(I.ty, copysignl(a.f, b.f)); }
    throw Fail{"external function"};
  }
  Val iop(const Ins& I, const Val& a, const Val& b, const char* nm) {
    if (a.k != KI || b.k != KI) throw Fail{"integer operand"}; if (a.w == -1 || b.w == -1) throw Fail{"bits of an enclosure"};
    int w = I.w; int64_t x = a.i, y = b.i; uint64_t mk = w >= 64 ? ~0ULL : (1ULL << w) - 1, ux = (uint64_t)x & mk, uy = (uint64_t)y & mk; __int128 r = 0; bool nsw = I.k[0] & 1;
    switch (I.sub) {
      case I_ADD: r = (__int128)x + y; break; case I_SUB: r = (__int128)x - y; break; case I_MUL: r = (__int128)x * y; break;
      case I_SDIV: if (y == 0) { event("integer division by zero", nm); throw Fail{"integer division by zero"}; } r = (__int128)x / y; nsw = true; break;
      case I_SREM: if (y == 0) { event("integer division by zero", nm); throw Fail{"integer division by zero"}; } if (y == -1) r = 0; else r = x % y; break;
      case I_UDIV: if (uy == 0) { event("integer division by zero", nm); throw Fail{"integer division by zero"}; } return vint((int64_t)(ux / uy), w);
      case I_UREM: if (uy == 0) { event("integer division by zero", nm); throw Fail{"integer division by zero"}; } return vint((int64_t)(ux % uy), w);
      case I_SHL: case I_LSHR: case I_ASHR: if (uy >= (uint64_t)w) { event("shift out of range", nm); throw Fail{"shift"}; } if (I.sub == I_SHL) return vint((int64_t)(ux << uy), w); if (I.sub == I_LSHR) return vint((int64_t)(ux >> uy), w); return vint(x >> uy, w);
      case I_AND: return vint(x & y, w); case I_OR: return vint(x | y, w); case I_XOR: return vint(x ^ y, w);
    }
    if (nsw && w > 1) { __int128 mx = ((__int128)1 << (w - 1)); if (r >= mx || r < -mx) event("signed integer overflow", nm); }
    return vint((int64_t)r, w);
  }
  Val cast(const Ins& I, const Val& a, const char* nm) {
    switch (I.sub) {
      case C_ZEXT: { if (a.k != KI) throw Fail{"cast"}; uint64_t u = (uint64_t)a.i; if (I.w2 < 64) u &= (1ULL << I.w2) - 1; return vint((int64_t)u, I.w); }
      case C_SEXT: if (a.k != KI) throw Fail{"cast"}; return vint(I.w2 == 1 ? -(a.i & 1) : a.i, I.w);
      case C_TRUNC: if (a.k != KI) throw Fail{"cast"}; return vint(a.i, I.w);
      case C_SITOFP: if (a.k != KI) throw Fail{"cast"}; return vfp(I.ty, I.ty == F32 ? (R)(float)a.i : I.ty == F64 ? (R)(double)a.i : (R)a.i);
      case C_UITOFP: { if (a.k != KI) throw Fail{"cast"}; uint64_t u = (uint64_t)a.i; if (I.w2 < 64) u &= (1ULL << I.w2) - 1; return vfp(I.ty, I.ty == F32 ? (R)(float)u : I.ty == F64 ? (R)(double)u : (R)u); }
      case C_FPTOSI: return vint(fptoint(a, I.w, true, nm), I.w);
      case C_FPTOUI: return vint(fptoint(a, I.w, false, nm), I.w);
      case C_FPEXT: if (a.k == KC) return vfp(I.ty, a.f); if (a.k == KT) return vtm(I.ty, a.tm); throw Fail{"cast"};
      case C_FPTRUNC: if (a.k == KC) { R r = rnd(I.ty, a.f); if (std::isinf(r) && std::isfinite(a.f)) event("floating overflow", nm); return vfp(I.ty, r); } if (a.k == KT) { std::array<uint64_t, 3> k{(uint64_t)CAST * 8 + I.ty, (uint64_t)a.tm, 0}; auto it = memo.find(k); if (it != memo.end()) return vtm(I.ty, it->second); Val r = rounded(I.ty, C.copy(a.tm), false, true); memo[k] = r.tm; return r; } throw Fail{"cast"};
      case C_BITCAST:
        if (a.k == KC && I.ty == INTT) { if (I.ty2 == F32) { float f = (float)a.f; int32_t b; memcpy(&b, &f, 4); return vint(b, 32); } if (I.ty2 == F64) { double f = (double)a.f; int64_t b; memcpy(&b, &f, 8); return vint(b, 64); } if (I.ty2 == F80) { Val r = vint(std::signbit(a.f) ? -1 : 1, I.w); r.w = -1; return r; } throw Fail{"bitcast"}; }
        if (a.k == KT && I.ty == INTT) { const TM* x = a.tm; Val r = vint(0, I.w); if (x->lo > 0) r.i = 1; else if (x->hi < 0) r.i = -1; else { if (undecided(x)) r.i = 1; else r.i = -1; } r.w = -1; return r; }
        if (a.k == KI && I.ty != INTT) { if (a.w == -1) throw Fail{"bitcast"}; if (I.ty == F32) { int32_t b = (int32_t)a.i; float f; memcpy(&f, &b, 4); return vfp(F32, f); } double f; memcpy(&f, &a.i, 8); return vfp(F64, f); }
        throw Fail{"bitcast"};
    }
    throw Fail{"cast"};
  }
  // ---- a job on a box
  void begin(Job* j) { job = j; ev.clear(); used.clear(); depth = maxdepth = 0; steps = 0; npaths = 0; fr.clear(); popobjs(0); regtop = 0; multi.clear(); bestdim = -1; memo.clear(); }
  vector<Val> mkargs(const R* x, const TM* const* tv) {
    vector<Val> a; const Fn& F = m.f[job->fn];
    for (int i = 0; i < F.np; i++) { if (job->iargs.count(i)) a.push_back(vint(job->iargs[i], job->argvar[i])); else if (job->fargs.count(i)) a.push_back(vfp(job->fargs[i].first, job->fargs[i].second)); else { int v = job->argvar[i]; if (tv && tv[v]) a.push_back(vtm(job->vt[v], tv[v])); else a.push_back(vfp(job->vt[v], x[v])); } }
    return a;
  }
  Val runPoint(Job* j, const R* x) { begin(j); C.ar.reset(); static thread_local Cfg c0 = mkcfg(1, 2); C.cf = &c0; point = true; return call(j->fn, mkargs(x, nullptr)); }
};

// postcondition at a point, with MPFR.  returns true when it holds
static bool postPoint(Job* j, const Piece& p, const R* x, const Val& r, R& err, R& bound, string& why) {
  if (r.k == KI) { why = "integer result"; return true; }
  R v = r.f;
  if (p.kind == "nan") { why = "expected NaN"; return std::isnan(v); }
  if (p.kind == "inf") { why = "expected +infinity"; return std::isinf(v) && v > 0; }
  if (p.kind == "ninf") { why = "expected -infinity"; return std::isinf(v) && v < 0; }
  if (p.kind == "eq") { why = "expected a constant"; return v == p.A; }
  if (p.kind == "any") return true;
  if (p.kind == "range") { why = "outside the allowed range"; return v >= p.A && v <= p.B; }
  if (!std::isfinite(v)) { why = "result is not finite"; err = v; return false; }
  MP e = j->hasresid ? mpEval(j->resid, j->resid.root, x, v) : MP(v) - mpEval(j->f, j->f.root, x, v);
  if (e.nan()) { why = "reference is NaN"; return false; }
  R f = p.B > 0 ? mp_abs(mpEval(j->f, j->f.root, x, v)).ld() : 0, g = p.C > 0 ? mp_abs(mpEval(j->g, j->g.root, x, v)).ld() : 0;
  err = mp_abs(e).ld(); bound = p.A + p.B * f + p.C * g; why = "error exceeds the bound"; return err <= bound * (1 + 1e-12L);
}

struct Engine {
  Mod m; vector<Contract> cons; vector<std::unique_ptr<Job>> jobs; std::mutex mu; std::condition_variable cv; std::map<Job*, std::deque<Box>> q; Job* last = nullptr; size_t qn = 0; int busy = 0; double deadline; unsigned seed = 1; bool verbose = false;
  void push(Job* j, const Box& b) { j->pending++; std::lock_guard<std::mutex> l(mu); q[j].push_front(b); qn++; cv.notify_one(); }
  // returns true when the box is accepted
  enum Out { OK, SPLIT, BAD };
  Out runBox(Machine& M, Job* j, const Box& b, NeedSplit& ns, string& why, std::map<int, Cfg>& cfgs) {
    const Piece& p = j->p[b.piece]; const FT& F = FTS[j->vt[0]]; (void)F;
    bool pt = true; for (int i = 0; i < j->nv; i++) if (b.lo[i] != b.hi[i]) pt = false;
    if (pt) {
      Val r; try { r = M.runPoint(j, b.lo); } catch (Fail& f) { why = string("evaluation at a point: ") + f.why; absorb(M, j); note(j, b.lo, Val(), why, 0, 0); return BAD; }
      string sw; if (!safe(M, j, sw)) { absorb(M, j, b.lo); note(j, b.lo, r, why = sw, 0, 0); return BAD; }
      j->points++; absorb(M, j, b.lo); R e = 0, bd = 0; if (postPoint(j, p, b.lo, r, e, bd, why)) return OK; note(j, b.lo, r, why, e, bd); return BAD;
    }
    int key = j->nv * 100 + j->ord; auto it = cfgs.find(key); if (it == cfgs.end()) it = cfgs.emplace(key, mkcfg(j->nv, j->ord)).first;
    M.begin(j); M.C.cf = &it->second; M.C.ar.reset(); M.C.nextid = 1; M.point = false;
    const TM* tv[3] = {0, 0, 0}; R x[3]; const TM* tref[3];
    try {
      for (int i = 0; i < j->nv; i++) { x[i] = b.lo[i]; M.blo[i] = b.lo[i]; M.bhi[i] = b.hi[i];
        if (b.lo[i] == b.hi[i]) { tref[i] = M.C.cst(b.lo[i]); continue; }
        TM* t = M.C.zero(); R c = b.lo[i] + (b.hi[i] - b.lo[i]) / 2; R h = std::max(b.hi[i] - c, c - b.lo[i]); h += h * 4 * EPSR + fabsl(c) * EPSR * (j->vt[i] == F80 ? 1 : 0) ; { R e1 = twoerr(b.hi[i], -c, b.hi[i] - c), e2 = twoerr(c, -b.lo[i], c - b.lo[i]); h += 2 * (e1 + e2); }
        t->c[0] = c; t->c[1 + i] = h; t->lo = b.lo[i]; t->hi = b.hi[i]; tv[i] = t; tref[i] = t; }
      Val r0 = M.call(j->fn, M.mkargs(x, tv)); vector<Val> rs = M.multi.empty() ? vector<Val>{r0} : M.multi;
      if (!safe(M, j, why)) return BAD;
      for (const Val& r : rs) {
        if (r.k == KI) continue;
        if (p.kind == "any") continue;
        if (p.kind == "nan" || p.kind == "inf" || p.kind == "ninf" || p.kind == "eq") { R e, bd; if (r.k == KC && postPoint(j, p, x, r, e, bd, why)) continue; why = "not the expected special value"; absorb(M, j); return BAD; }
        if (r.k == KC && !std::isfinite(r.f)) { why = "result is not finite"; absorb(M, j); return BAD; }
        const TM* rt = M.tm(r);
        if (p.kind == "range") { if (rt->lo >= p.A && rt->hi <= p.B) continue; why = "range"; absorb(M, j); return BAD; }
        TM* e = j->hasresid ? tmRef(M.C, j->resid, tref, rt) : nullptr; TM* f = nullptr; if (!e || p.B > 0) f = tmRef(M.C, j->f, tref, rt); if (!e) e = add(M.C, rt, f, -1);
        R bound = p.A + (p.B > 0 ? p.B * mig(f) : 0) + (p.C > 0 ? p.C * mig(tmRef(M.C, j->g, tref, rt)) : 0);
        R me = mag(e); if (bound > 0 && me / bound > j->worst && me <= bound) { std::lock_guard<std::mutex> l(j->mu); if (me / bound > j->worst) { j->worst = me / bound; j->worstbox = b; } }
        if (!(me <= bound)) { char bf[96]; snprintf(bf, sizeof bf, "error enclosure %.3Lg exceeds the bound %.3Lg", me, bound); why = bf; return BAD; }
      }
    } catch (NeedSplit& s) { ns = s; return SPLIT; } catch (Fail& f) { why = f.why; return BAD; }
    absorb(M, j); j->paths += M.npaths; return OK;
  }
  // no undefined or non-constant operation on any path, nesting within the limit
  static bool safe(Machine& M, Job* j, string& why) { if (j->noev && !M.ev.empty()) { why = M.ev.begin()->first + " in " + M.ev.begin()->second; return false; } if (j->dlim && M.maxdepth > j->dlim) { why = "nesting " + std::to_string(M.maxdepth); return false; } return true; }
  void absorb(Machine& M, Job* j, const R* x = nullptr) {
    int md = j->maxdepth; while (M.maxdepth > md && !j->maxdepth.compare_exchange_weak(md, M.maxdepth)) {}
    std::lock_guard<std::mutex> l(j->mu); for (auto& e : M.ev) { auto& s = j->events[e.first]; if (!s.first++) { char bf[200] = ""; if (x) { string t; for (int i = 0; i < j->nv; i++) { snprintf(bf, sizeof bf, " %La", x[i]); t += bf; } s.second = e.second + " at" + t; } else s.second = e.second; } }
    for (auto& u : M.used) j->used[u.first] += u.second;
  }
  void note(Job* j, const R* x, const Val& r, const string& why, R e, R bd) { std::lock_guard<std::mutex> l(j->mu); if (j->cex.set) return; j->cex.set = true; for (int i = 0; i < j->nv; i++) j->cex.x[i] = x[i]; j->cex.r = r; j->cex.why = why; j->cex.err = e; j->cex.bound = bd; j->stop = true; }
  static R pick(Ty t, R lo, R hi, uint64_t& s, bool lin) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; long double u = (s >> 11) * 0x1p-53L; if (lin && std::isfinite(lo) && std::isfinite(hi)) { R v = rnd(t, lo + (hi - lo) * u); return v < lo ? lo : v > hi ? hi : v; } __int128 a = ordi(t, lo), b = ordi(t, hi); return ordr(t, a + (__int128)((R)(b - a) * u)); }
  void sample(Machine& M, Job* j, const Box& b, int n) {
    uint64_t s = 0x9E3779B97F4A7C15ULL * (seed + 1) ^ (uint64_t)b.lev * 77777 ^ (uint64_t)(ordi(j->vt[0], b.lo[0])); if (!s) s = 1;
    for (int k = 0; k < n && !j->stop; k++) { R x[3]; for (int i = 0; i < j->nv; i++) x[i] = k < (1 << j->nv) ? ((k >> i) & 1 ? b.hi[i] : b.lo[i]) : pick(j->vt[i], b.lo[i], b.hi[i], s, k & 1);
      Val r; string why; R e = 0, bd = 0; try { r = M.runPoint(j, x); } catch (Fail& f) { absorb(M, j, x); note(j, x, Val(), string("evaluation: ") + f.why, 0, 0); return; }
      { string sw; if (!safe(M, j, sw)) { absorb(M, j, x); note(j, x, r, sw, 0, 0); return; } }
      absorb(M, j, x); j->points++; if (!postPoint(j, j->p[b.piece], x, r, e, bd, why)) note(j, x, r, why, e, bd); }
  }
  void process(Machine& M, Job* j, Box b, std::map<int, Cfg>& cfgs) {
    if (j->stop) return;
    if (now() > deadline) { j->timeout = true; return; }
    if (b.lev == 0 && !b.pts) { Box q = b; sample(M, j, q, 300); if (j->stop) return; }
    if (j->boxes++ > j->maxboxes) { std::lock_guard<std::mutex> l(j->mu); if (j->failed.size() < 6) j->failed.push_back({b, "box budget"}); j->fails++; return; }
    Ty t0 = j->vt[0];
    if (b.pts) { __int128 a = ordi(t0, b.lo[0]), e = ordi(t0, b.hi[0]); for (__int128 o = a; o <= e && !j->stop; o++) { Box c = b; c.lo[0] = c.hi[0] = ordr(t0, o); c.pts = false; string why; NeedSplit ns; runBox(M, j, c, ns, why, cfgs); } return; }
    double t1 = now(); string why; NeedSplit ns{0, 0, false}; Out o = (j->sub > 0 && j->nv == 1 && b.hi[0] - b.lo[0] > j->sub * std::max(fabsl(b.lo[0]), fabsl(b.hi[0]))) ? SPLIT : runBox(M, j, b, ns, why, cfgs);
    { double dt = now() - t1; std::lock_guard<std::mutex> l(j->mu); j->secs += dt; }
    static const char* dbg = getenv("TMVDBG"); if (dbg && b.lev > atoi(dbg)) fprintf(stderr, "%s lev %d [%La,%La] %d ns %Lg %Lg %d %s\n", j->id.c_str(), b.lev, b.lo[0], b.hi[0], (int)o, ns.t, ns.w, (int)ns.pts, why.c_str());
    if (o == OK) { j->leaf++; return; }
    bool pt = true; for (int i = 0; i < j->nv; i++) if (b.lo[i] != b.hi[i]) pt = false; if (pt) return;
    if (j->nv == 1) {
      __int128 a = ordi(t0, b.lo[0]), e = ordi(t0, b.hi[0]);
      if (e - a <= 12 || (o == SPLIT && ns.pts)) { Box c = b; c.pts = true; c.lev++; push(j, c); return; }
      if (j->minw > 0 && b.hi[0] - b.lo[0] < j->minw * std::max(fabsl(b.lo[0]), fabsl(b.hi[0]))) { leaffail(M, j, b, why); return; }
      auto emit = [&](__int128 l, __int128 h) { if (l > h) return; Box c = b; c.lo[0] = ordr(t0, l); c.hi[0] = ordr(t0, h); c.lev = b.lev + 1; push(j, c); };
      if (o == SPLIT && (ns.t != 0 || ns.w != 0) && (ns.w < 0.2L)) {
        R c = b.lo[0] + (b.hi[0] - b.lo[0]) / 2, h = (b.hi[0] - b.lo[0]) / 2; R x1 = c + h * (ns.t - ns.w), x2 = c + h * (ns.t + ns.w);
        x1 = std::max(x1, b.lo[0]); x2 = std::min(x2, b.hi[0]); __int128 p = ordi(t0, rnd(t0, x1)) - 3, q2 = ordi(t0, rnd(t0, x2)) + 3; if (p <= a) p = a; if (q2 >= e) q2 = e; if (p > q2) std::swap(p, q2);
        if (!(p == a && q2 == e)) { emit(a, p - 1); emit(p, q2); emit(q2 + 1, e); return; }
      }
      __int128 md = a + (e - a) / 2; if (j->lin) { md = ordi(t0, rnd(t0, b.lo[0] + (b.hi[0] - b.lo[0]) / 2)); if (md <= a || md >= e) md = a + (e - a) / 2; } emit(a, md); emit(md + 1, e); return;
    }
    int d = -1; R bw = -1; for (int i = 0; i < j->nv; i++) { if (b.lo[i] == b.hi[i]) continue; R w = (b.hi[i] - b.lo[i]) / std::max(fabsl(b.lo[i]), fabsl(b.hi[i])); if (M.bestdim == i && w > j->minw) w *= 4; if (w > bw) { bw = w; d = i; } }
    if (d < 0 || bw < j->minw || ordi(j->vt[d], b.hi[d]) - ordi(j->vt[d], b.lo[d]) < 2) { leaffail(M, j, b, why); return; }
    __int128 a = ordi(j->vt[d], b.lo[d]), e = ordi(j->vt[d], b.hi[d]), md = a + (e - a) / 2; if (j->lin) { md = ordi(j->vt[d], rnd(j->vt[d], b.lo[d] + (b.hi[d] - b.lo[d]) / 2)); if (md <= a || md >= e) md = a + (e - a) / 2; }
    Box c1 = b, c2 = b; c1.lev = c2.lev = b.lev + 1; c1.hi[d] = ordr(j->vt[d], md); c2.lo[d] = ordr(j->vt[d], md); push(j, c1); push(j, c2);
  }
  void leaffail(Machine& M, Job* j, const Box& b, const string& why) { sample(M, j, b, 60); long k = j->fails++; std::lock_guard<std::mutex> l(j->mu); if (j->failed.size() < 6) j->failed.push_back({b, why}); if (k > 400) j->stop = true; }
  void worker() {
    Machine M(m, cons); std::map<int, Cfg> cfgs;
    while (true) {
      std::pair<Job*, Box> it;
      { std::unique_lock<std::mutex> l(mu); cv.wait(l, [&] { return qn || busy == 0; }); if (!qn) { cv.notify_all(); return; } auto z = q.upper_bound(last); if (z == q.end()) z = q.begin(); last = z->first; it = {z->first, z->second.front()}; z->second.pop_front(); if (z->second.empty()) q.erase(z); qn--; busy++; }
      try { process(M, it.first, it.second, cfgs); } catch (Fail& f) { std::lock_guard<std::mutex> l(it.first->mu); it.first->fails++; it.first->failed.push_back({it.second, f.why}); }
      { std::lock_guard<std::mutex> l(mu); busy--; it.first->pending--; if (!qn && busy == 0) cv.notify_all(); }
    }
  }
};
static string bits(Ty t, R x) { char b[40]; if (t == F32) { float f = (float)x; uint32_t u; memcpy(&u, &f, 4); snprintf(b, 40, "%08x", u); } else if (t == F64) { double f = (double)x; uint64_t u; memcpy(&u, &f, 8); snprintf(b, 40, "%016llx", (unsigned long long)u); } else { uint64_t m; uint16_t e; memcpy(&m, &x, 8); memcpy(&e, (char*)&x + 8, 2); snprintf(b, 40, "%04x%016llx", e, (unsigned long long)m); } return b; }
static Ty tyof(const string& s) { return s == "f32" ? F32 : s == "f64" ? F64 : F80; }
static string js(const string& s) { string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }

static Engine* E_;
static void* thr(void*) { E_->worker(); mpfr_free_cache(); return nullptr; }
int main(int argc, char** argv) {
  // tmv <bytecode> <jobs> <out> <threads> <seconds> <seed>
  if (argc < 7) return 2;
  Engine E; E_ = &E; E.m = load(argv[1]); double t0 = now(); int nt = atoi(argv[4]); E.deadline = t0 + atof(argv[5]); E.seed = atoi(argv[6]);
  std::ifstream in(argv[2]); string line; Contract* cc = nullptr; Job* cj = nullptr;
  while (std::getline(in, line)) {
    std::istringstream s(line); string w; s >> w; auto rest = [&]() { string r; std::getline(s, r); return r; };
    auto rd = [&](int n, Piece& p) { string t; auto num = [&]() { s >> t; return strtold(t.c_str(), 0); }; p.A = num(); p.B = num(); p.C = num(); for (int i = 0; i < n; i++) { p.lo[i] = num(); p.hi[i] = num(); } };
    if (w == "contract") { Contract c; string ty; s >> c.name >> ty >> c.n >> c.depth; c.ty = tyof(ty); E.cons.push_back(c); cc = &E.cons.back(); cj = nullptr; }
    else if (w == "job") { auto j = std::make_unique<Job>(); string opt; s >> j->id >> j->fname >> j->root; while (s >> opt) { size_t e = opt.find('='); string k = opt.substr(0, e), v = e == string::npos ? "" : opt.substr(e + 1); if (k == "ord") j->ord = atoi(v.c_str()); else if (k == "noise") j->noise = atoi(v.c_str()); else if (k == "minw") j->minw = strtold(v.c_str(), 0); else if (k == "max") j->maxboxes = atol(v.c_str()); else if (k == "stubs") j->stubs = atoi(v.c_str()); else if (k == "inl") { std::istringstream z(v); string w2; while (std::getline(z, w2, ',')) j->inl.push_back(w2); } else if (k == "sub") j->sub = strtold(v.c_str(), 0); else if (k == "lin") j->lin = true; else if (k == "noev") j->noev = true; else if (k == "dlim") j->dlim = atoi(v.c_str()); }
      auto it = E.m.byname.find(j->fname); if (it == E.m.byname.end()) { fprintf(stderr, "no function %s\n", j->fname.c_str()); return 2; } j->fn = it->second; cj = j.get(); cc = nullptr; E.jobs.push_back(std::move(j)); }
    else if (w == "argi") { int i, wd; long long v; s >> i >> wd >> v; cj->iargs[i] = v; while ((int)cj->argvar.size() <= i) cj->argvar.push_back(-1); cj->argvar[i] = wd; }
    else if (w == "argf") { int i; string ty, v; s >> i >> ty >> v; cj->fargs[i] = {tyof(ty), rnd(tyof(ty), strtold(v.c_str(), 0))}; while ((int)cj->argvar.size() <= i) cj->argvar.push_back(-1); }
    else if (w == "argv") { int i; string ty; s >> i >> ty; while ((int)cj->argvar.size() <= i) cj->argvar.push_back(-1); cj->argvar[i] = cj->vt.size(); cj->vt.push_back(tyof(ty)); cj->nv = cj->vt.size(); }
    else if (w == "ref") { string r = rest(); if (cc) cc->ref = Expr::mk(r); else cj->f = Expr::mk(r); }
    else if (w == "g") { string r = rest(); if (cc) { cc->g = Expr::mk(r); cc->hasg = true; } else { cj->g = Expr::mk(r); cj->hasg = true; } }
    else if (w == "resid") { cj->resid = Expr::mk(rest()); cj->hasresid = true; }
    else if (w == "piece") { Piece p; if (cc) { rd(cc->n, p); cc->p.push_back(p); } else { s >> p.kind; rd(cj->nv, p); cj->p.push_back(p); } }
  }
  for (auto& f : E.m.f) { if (f.simple == "gcem::abs") { f.contract = 1000000; continue; } for (size_t i = 0; i < E.cons.size(); i++) if (E.cons[i].name == f.simple && f.np == E.cons[i].n) { // type from the demangled parameter list
      string d = f.dem; size_t a = d.rfind('('), b = d.rfind(')'); string ps = a == string::npos ? "" : d.substr(a + 1, b - a - 1); string want = E.cons[i].ty == F32 ? "float" : E.cons[i].ty == F64 ? "double" : "long double"; string full = want; for (int k = 1; k < E.cons[i].n; k++) full += ", " + want; if (ps == full) f.contract = (int)i; } }
  for (auto& j : E.jobs) for (size_t k = 0; k < j->p.size(); k++) { Box b; for (int i = 0; i < j->nv; i++) { b.lo[i] = j->p[k].lo[i]; b.hi[i] = j->p[k].hi[i]; Ty t = j->vt[i]; /* the floats of the type inside the piece */ if (std::isfinite(b.lo[i]) && rnd(t, b.lo[i]) != b.lo[i]) { R z = rnd(t, b.lo[i]); b.lo[i] = z < b.lo[i] ? ordr(t, ordi(t, z) + 1) : z; } if (std::isfinite(b.hi[i]) && rnd(t, b.hi[i]) != b.hi[i]) { R z = rnd(t, b.hi[i]); b.hi[i] = z > b.hi[i] ? ordr(t, ordi(t, z) - 1) : z; } } b.piece = (int)k; if (j->nv == 1) { __int128 a = ordi(j->vt[0], b.lo[0]), e = ordi(j->vt[0], b.hi[0]); if (e - a <= 12) b.pts = true; } E.push(j.get(), b); }
  vector<pthread_t> ts(nt); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512u << 20); for (auto& t : ts) pthread_create(&t, &at, thr, nullptr); for (auto& t : ts) pthread_join(t, nullptr);
  FILE* o = fopen(argv[3], "w"); fprintf(o, "[\n"); bool first = true;
  for (auto& j : E.jobs) {
    fprintf(o, "%s{\"id\":%s,\"entry\":%s,\"boxes\":%ld,\"accepted\":%ld,\"points\":%ld,\"paths\":%ld,\"fails\":%ld,\"maxdepth\":%d,\"secs\":%.3f,\"worst\":%.4Lg,\"timeout\":%s", first ? "" : ",\n", js(j->id).c_str(), js(j->fname).c_str(), (long)j->boxes, (long)j->leaf, (long)j->points, (long)j->paths, (long)j->fails, (int)j->maxdepth, j->secs, j->worst, j->timeout ? "true" : "false"); first = false;
    fprintf(o, ",\"events\":{"); bool f2 = true; for (auto& e : j->events) { fprintf(o, "%s%s:[%ld,%s]", f2 ? "" : ",", js(e.first).c_str(), e.second.first, js(e.second.second).c_str()); f2 = false; } fprintf(o, "}");
    fprintf(o, ",\"used\":{"); f2 = true; for (auto& e : j->used) { fprintf(o, "%s%s:%ld", f2 ? "" : ",", js(e.first).c_str(), e.second); f2 = false; } fprintf(o, "}");
    if (j->worst > 0) { fprintf(o, ",\"worstbox\":["); for (int i = 0; i < j->nv; i++) fprintf(o, "%s\"%.17Lg..%.17Lg\"", i ? "," : "", j->worstbox.lo[i], j->worstbox.hi[i]); fprintf(o, "]"); }
    if (j->cex.set) { fprintf(o, ",\"cex\":{\"bits\":["); int k = 0; const Fn& F = E.m.f[j->fn]; for (int i = 0; i < F.np; i++) { if (j->iargs.count(i)) { int wd = j->argvar[i]; unsigned long long u = j->iargs[i]; if (wd < 64) u &= (1ULL << wd) - 1; fprintf(o, "%s\"%llx\"", i ? "," : "", u); } else if (j->fargs.count(i)) fprintf(o, "%s%s", i ? "," : "", js(bits(j->fargs[i].first, j->fargs[i].second)).c_str()); else { fprintf(o, "%s%s", i ? "," : "", js(bits(j->vt[k], j->cex.x[k])).c_str()); k++; } }
      fprintf(o, "],\"x\":["); for (int i = 0; i < j->nv; i++) fprintf(o, "%s\"%.21Lg\"", i ? "," : "", j->cex.x[i]); fprintf(o, "],\"result\":\"%.21Lg\",\"why\":%s,\"err\":\"%.6Lg\",\"bound\":\"%.6Lg\"}", j->cex.r.k == KC ? j->cex.r.f : NAN, js(j->cex.why).c_str(), j->cex.err, j->cex.bound); }
    fprintf(o, ",\"failed\":["); f2 = true; for (auto& f : j->failed) { fprintf(o, "%s[%s", f2 ? "" : ",", js(f.second).c_str()); for (int i = 0; i < j->nv; i++) fprintf(o, ",\"%.17Lg..%.17Lg\"", f.first.lo[i], f.first.hi[i]); fprintf(o, "]"); f2 = false; } fprintf(o, "]}");
  }
  fprintf(o, "\n]\n"); fclose(o); return 0;
}
