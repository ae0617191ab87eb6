// Taylor models: polynomial in up to 3 variables in [-1,1], plus affine noise terms, plus a remainder radius.
// A TM encloses one real number for every point of the box: value in poly(t) + sum a_i*eps_i + [-rem,rem].
// All bound computations are done in long double and inflated, coefficient rounding is moved into rem.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include "mp.hpp"
typedef long double R;
static const R INFL = 1.0L + 1e-15L;     // inflation of computed bounds
static const R EPSR = 0x1p-63L;          // unit of coefficient rounding (2 ulp/2)
static const R TINY = 0x1p-16440L;       // absolute slack for underflow of the engine's own arithmetic
static inline R up(R x) { return x * INFL; }

struct Fail { const char* why; };        // enclosure not computable on this box

struct Cfg { int nv, ord, nc, maxt = 0; std::vector<int> row; std::vector<int> deg; std::vector<int> mi, mj, mk; std::vector<int> lead; /* first index per degree */
  std::vector<std::vector<int>> expo; };
static Cfg mkcfg(int nv, int ord) {
  Cfg c; c.nv = nv; c.ord = ord;
  std::vector<std::vector<int>> ex;
  for (int d = 0; d <= ord; d++) {
    c.lead.push_back((int)ex.size());
    if (nv == 1) ex.push_back({d});
    else if (nv == 2) for (int a = d; a >= 0; a--) ex.push_back({a, d - a});
    else for (int a = d; a >= 0; a--) for (int b = d - a; b >= 0; b--) ex.push_back({a, b, d - a - b});
  }
  c.lead.push_back((int)ex.size());
  c.nc = ex.size(); c.expo = ex;
  for (auto& e : ex) { int s = 0; for (int v : e) s += v; c.deg.push_back(s); }
  if (nv > 1)
    for (int i = 0; i < c.nc; i++) for (int j = 0; j < c.nc; j++) if (c.deg[i] + c.deg[j] <= ord) {
      std::vector<int> s(nv); for (int v = 0; v < nv; v++) s[v] = ex[i][v] + ex[j][v];
      int k = std::find(ex.begin(), ex.end(), s) - ex.begin();
      c.mi.push_back(i); c.mj.push_back(j); c.mk.push_back(k);
    }
  if (nv > 1) { c.row.assign(c.nc + 1, 0); for (int i : c.mi) c.row[i + 1]++; for (int i = 0; i < c.nc; i++) c.row[i + 1] += c.row[i]; }
  std::vector<int> cnt(c.nc, 0); for (int k : c.mk) cnt[k]++; c.maxt = nv == 1 ? ord + 1 : *std::max_element(cnt.begin(), cnt.end());
  return c;
}

static const int NMAX = 8;
struct TM { R lo, hi; R rem; int nn; int id[NMAX]; R a[NMAX]; R c[1]; };

struct Arena {
  std::vector<char*> blocks; size_t bi = 0, off = 0; static constexpr size_t BS = 1 << 20;
  void* get(size_t n) {
    n = (n + 15) & ~size_t(15);
    if (blocks.empty()) blocks.push_back((char*)malloc(BS));
    if (off + n > BS) { bi++; off = 0; if (bi >= blocks.size()) { if (blocks.size() > 1500) throw Fail{"arena"}; blocks.push_back((char*)malloc(BS)); } }
    void* p = blocks[bi] + off; off += n; return p;
  }
  void reset() { bi = 0; off = 0; }
  ~Arena() { for (auto b : blocks) free(b); }
};

struct Ctx {
  Arena ar; const Cfg* cf = nullptr; int nextid = 1;
  TM* raw() { TM* t = (TM*)ar.get(sizeof(TM) + sizeof(R) * cf->nc); return t; }
  TM* zero() { TM* t = raw(); t->lo = t->hi = 0; t->rem = 0; t->nn = 0; for (int i = 0; i < cf->nc; i++) t->c[i] = 0; return t; }
  TM* cst(R v, R err = 0) { TM* t = zero(); t->c[0] = v; t->rem = err; t->lo = v - err * INFL; t->hi = v + err * INFL; return t; }
  TM* copy(const TM* s) { TM* t = raw(); memcpy(t, s, sizeof(TM) + sizeof(R) * cf->nc); return t; }
};

static inline R mag(const TM* a) { return std::max(fabsl(a->lo), fabsl(a->hi)); }
static inline R mig(const TM* a) { return a->lo > 0 ? a->lo : a->hi < 0 ? -a->hi : 0; }
static inline R nsum(const TM* a) { R s = 0; for (int i = 0; i < a->nn; i++) s += fabsl(a->a[i]); return s; }
static inline R pvar(const Ctx& C, const TM* a) { R s = 0; for (int i = 1; i < C.cf->nc; i++) s += fabsl(a->c[i]); return s; }
static inline R pnorm(const Ctx& C, const TM* a) { return fabsl(a->c[0]) + pvar(C, a); }

// range of the polynomial part alone
static void prange(const Ctx& C, const TM* a, R& lo, R& hi) {
  R v;
  if (C.cf->nv == 1 && C.cf->ord >= 2) {
    // c0 + c1 t + c2 t^2 exactly, the rest by norm
    R c1 = a->c[1], c2 = a->c[2], s = 0;
    for (int i = 3; i < C.cf->nc; i++) s += fabsl(a->c[i]);
    R e1 = c2 + c1, e2 = c2 - c1, mn = std::min(e1, e2), mx = std::max(e1, e2);
    if (fabsl(c1) < 2 * fabsl(c2)) { R ex = -c1 * c1 / (4 * c2); mn = std::min(mn, ex); mx = std::max(mx, ex); }
    R sl = 4 * EPSR * (fabsl(a->c[0]) + fabsl(c1) + fabsl(c2));
    lo = a->c[0] + mn - s - sl; hi = a->c[0] + mx + s + sl;
    return;
  }
  v = pvar(C, a);
  R sl = 4 * EPSR * (fabsl(a->c[0]) + v);
  lo = a->c[0] - v - sl; hi = a->c[0] + v + sl;
}
// set range from the model, intersected with [lo,hi] already known
static void tighten(const Ctx& C, TM* t, R lo, R hi) {
  R pl, ph; prange(C, t, pl, ph);
  R e = up(nsum(t) + t->rem);
  pl -= e; ph += e;
  R sl = 2 * EPSR * (fabsl(pl) + fabsl(ph)) ;
  pl -= sl; ph += sl;
  t->lo = std::max(lo, pl); t->hi = std::min(hi, ph);
  if (!(t->lo <= t->hi)) {  // numerically empty: keep the hull (can only be rounding noise)
    if (std::isnan(t->lo) || std::isnan(t->hi)) throw Fail{"nan range"};
    R m = (t->lo + t->hi) / 2, w = fabsl(t->lo - t->hi); t->lo = m - w; t->hi = m + w;
  }
}
static void addnoise(TM* t, int id, R v) {
  if (v == 0) return;
  for (int i = 0; i < t->nn; i++) if (t->id[i] == id) { t->a[i] += v; t->rem += fabsl(t->a[i]) * EPSR; return; }
  if (t->nn < NMAX) { t->id[t->nn] = id; t->a[t->nn] = v; t->nn++; return; }
  int k = 0; for (int i = 1; i < NMAX; i++) if (fabsl(t->a[i]) < fabsl(t->a[k])) k = i;
  if (fabsl(t->a[k]) < fabsl(v)) { t->rem = up(t->rem + fabsl(t->a[k])); t->id[k] = id; t->a[k] = v; }
  else t->rem = up(t->rem + fabsl(v));
}
// exact rounding error of a+b (Knuth's two-sum; no overflow here)
static inline R twoerr(R a, R b, R s) { R bb = s - a; return fabsl((a - (s - bb)) + (b - bb)); }
static TM* add(Ctx& C, const TM* a, const TM* b, int sg) {
  TM* t = C.raw(); R s = 0;
  for (int i = 0; i < C.cf->nc; i++) { R y = sg > 0 ? b->c[i] : -b->c[i]; t->c[i] = a->c[i] + y; s += twoerr(a->c[i], y, t->c[i]); }
  t->rem = up(a->rem + b->rem + s);
  t->nn = a->nn; for (int i = 0; i < a->nn; i++) { t->id[i] = a->id[i]; t->a[i] = a->a[i]; }
  for (int i = 0; i < b->nn; i++) addnoise(t, b->id[i], sg > 0 ? b->a[i] : -b->a[i]);
  R lo = sg > 0 ? a->lo + b->lo : a->lo - b->hi, hi = sg > 0 ? a->hi + b->hi : a->hi - b->lo;
  R sl = (2 * EPSR * fabsl(lo) + 2 * EPSR * fabsl(hi));
  tighten(C, t, lo - sl, hi + sl);
  return t;
}
static TM* neg(Ctx& C, const TM* a) {
  TM* t = C.raw(); for (int i = 0; i < C.cf->nc; i++) t->c[i] = -a->c[i];
  t->rem = a->rem; t->nn = a->nn; for (int i = 0; i < a->nn; i++) { t->id[i] = a->id[i]; t->a[i] = -a->a[i]; }
  t->lo = -a->hi; t->hi = -a->lo; return t;
}
static TM* scale(Ctx& C, const TM* a, R k, R kerr = 0) {  // k exact up to kerr (absolute)
  TM* t = C.raw(); R s = 0; for (int i = 0; i < C.cf->nc; i++) { t->c[i] = a->c[i] * k; s += fabsl(t->c[i]); }
  int ex_; if (fabsl(frexpl(k, &ex_)) == 0.5L && s > 0x1p-16000L && s < 0x1p16000L) s = 0;
  t->rem = up(a->rem * fabsl(k) + s * EPSR + kerr * mag(a)) + TINY;
  t->nn = a->nn; for (int i = 0; i < a->nn; i++) { t->id[i] = a->id[i]; t->a[i] = a->a[i] * k; t->rem += fabsl(t->a[i]) * EPSR; }
  R lo = a->lo * k, hi = a->hi * k; if (lo > hi) std::swap(lo, hi);
  R sl = (2 * EPSR * fabsl(lo) + 2 * EPSR * fabsl(hi)) + kerr * mag(a) * INFL + TINY;
  tighten(C, t, lo - sl, hi + sl); return t;
}
static TM* addc(Ctx& C, const TM* a, R k, R kerr = 0) {
  TM* t = C.copy(a); t->c[0] += k; t->rem = up(t->rem + twoerr(a->c[0], k, t->c[0]) + kerr);
  R lo = a->lo + k, hi = a->hi + k, sl = (2 * EPSR * fabsl(lo) + 2 * EPSR * fabsl(hi)) + kerr * INFL;
  tighten(C, t, lo - sl, hi + sl); return t;
}
static TM* mul(Ctx& C, const TM* a, const TM* b) {
  const Cfg& F = *C.cf; TM* t = C.raw(); int n = F.nc;
  R drop = 0, na = pnorm(C, a), nb = pnorm(C, b);
  if (F.nv == 1) {
    for (int k = 0; k < n; k++) { R s = 0; for (int i = 0; i <= k; i++) s += a->c[i] * b->c[k - i]; t->c[k] = s; }
    R suf[512]; suf[n] = 0; for (int j = n - 1; j >= 0; j--) suf[j] = suf[j + 1] + fabsl(b->c[j]);
    for (int i = 1; i < n; i++) drop += fabsl(a->c[i]) * suf[n - i];
  } else {
    for (int i = 0; i < n; i++) t->c[i] = 0;
    const int *mj = F.mj.data(), *mk = F.mk.data();
    int za = 0, zb = 0; for (int i = 0; i < n; i++) { za += a->c[i] == 0; zb += b->c[i] == 0; }
    const TM *x = a, *y = b; if (zb > za) std::swap(x, y);
    int yn = n; while (yn > 0 && y->c[yn - 1] == 0) yn--;
    for (int i = 0; i < n; i++) { R v = x->c[i]; if (v == 0) continue; for (int q = F.row[i], e = F.row[i + 1]; q < e && mj[q] < yn; q++) t->c[mk[q]] += v * y->c[mj[q]]; }
    R da[64], db[64]; for (int d = 0; d <= F.ord; d++) { da[d] = db[d] = 0; for (int i = F.lead[d]; i < F.lead[d + 1]; i++) { da[d] += fabsl(a->c[i]); db[d] += fabsl(b->c[i]); } }
    for (int i = 0; i <= F.ord; i++) for (int j = F.ord - i + 1; j <= F.ord; j++) drop += da[i] * db[j];
  }
  R sa = nsum(a), sb = nsum(b), va = na - fabsl(a->c[0]), vb = nb - fabsl(b->c[0]);
  t->nn = 0; R rem = drop + EPSR * (F.nv == 1 ? F.ord + 2 : std::max(64, F.maxt + 2)) * na * nb + TINY;
  for (int i = 0; i < a->nn; i++) { { R v = a->a[i] * b->c[0]; t->id[t->nn] = a->id[i]; t->a[t->nn] = v; t->nn++; rem += fabsl(v) * EPSR; } }
  t->rem = 0;
  for (int i = 0; i < b->nn; i++) { R v = b->a[i] * a->c[0]; rem += fabsl(v) * EPSR; addnoise(t, b->id[i], v); }
  rem += t->rem;
  rem += sa * vb + sb * va + sa * sb;
  // remainders: a->rem times the full magnitude of b
  R mb = std::min(mag(b), nb + sb + b->rem), ma = std::min(mag(a), na + sa + a->rem);
  rem += a->rem * mb + b->rem * ma + a->rem * b->rem;
  t->rem = up(rem);
  R p1 = a->lo * b->lo, p2 = a->lo * b->hi, p3 = a->hi * b->lo, p4 = a->hi * b->hi;
  R lo = std::min(std::min(p1, p2), std::min(p3, p4)), hi = std::max(std::max(p1, p2), std::max(p3, p4));
  if (a == b) { R m1 = mig(a), m2 = mag(a); lo = m1 * m1; hi = m2 * m2; }
  R sl = (2 * EPSR * fabsl(lo) + 2 * EPSR * fabsl(hi)) + TINY;
  lo -= sl; hi += sl;
  if (a == b && lo < 0) lo = 0;
  tighten(C, t, lo, hi); return t;
}
static TM* div(Ctx& C, const TM* a, const TM* b) {
  const Cfg& F = *C.cf; int n = F.nc;
  R bm = mig(b); if (bm == 0 || b->c[0] == 0) throw Fail{"division by a range containing zero"};
  // centre of b must be meaningful
  R b0 = b->c[0];
  TM* q = C.raw();
  if (F.nv == 1) {
    for (int k = 0; k < n; k++) { R s = a->c[k]; for (int j = 1; j <= k; j++) s -= q->c[k - j] * b->c[j]; q->c[k] = s / b0; }
  } else {
    R acc[512]; for (int i = 0; i < n; i++) acc[i] = a->c[i];
    // graded: process products in increasing degree of result
    for (int d = 0; d <= F.ord; d++) {
      for (int k = F.lead[d]; k < F.lead[d + 1]; k++) q->c[k] = acc[k] / b0;
      // subtract q_i*b_j for i of degree d, deg j>=1
      for (size_t z = F.row[F.lead[d]], ze = F.row[F.lead[d + 1]]; z < ze; z++) if (F.mj[z] != 0) acc[F.mk[z]] -= q->c[F.mi[z]] * b->c[F.mj[z]];
    }
  }
  R nq = pnorm(C, q), nb = pnorm(C, b);
  // rounding in q: residual a - q*b has coefficients bounded by EPSR*(ord+2)*(|a| + |q||b|) ; dropped terms of q*b
  R drop = 0;
  if (F.nv == 1) { R suf[512]; suf[n] = 0; for (int j = n - 1; j >= 0; j--) suf[j] = suf[j + 1] + fabsl(b->c[j]); for (int i = 1; i < n; i++) drop += fabsl(q->c[i]) * suf[n - i]; }
  else { R dq[64], db[64]; for (int d = 0; d <= F.ord; d++) { dq[d] = db[d] = 0; for (int i = F.lead[d]; i < F.lead[d + 1]; i++) { dq[d] += fabsl(q->c[i]); db[d] += fabsl(b->c[i]); } }
    for (int i = 0; i <= F.ord; i++) for (int j = F.ord - i + 1; j <= F.ord; j++) drop += dq[i] * db[j]; }
  R vq = nq - fabsl(q->c[0]), vb = nb - fabsl(b0), sb = nsum(b);
  R num = drop + EPSR * (F.nv == 1 ? F.ord + 3 : std::max(64, F.maxt + 3)) * (pnorm(C, a) + nq * nb) + TINY + a->rem + nq * b->rem;
  q->nn = 0; q->rem = 0;
  for (int i = 0; i < a->nn; i++) { q->id[i] = a->id[i]; q->a[i] = a->a[i] / b0; q->nn++; }
  for (int i = 0; i < b->nn; i++) addnoise(q, b->id[i], -q->c[0] * b->a[i] / b0);
  R nn = nsum(q);
  R dropn = q->rem; // noise terms dropped into rem by addnoise
  num += vq * sb + (vb + sb + b->rem) * nn + EPSR * 8 * (nsum(a) + nq * sb);
  q->rem = up(num / bm + dropn) + TINY;
  R p1 = a->lo / b->lo, p2 = a->lo / b->hi, p3 = a->hi / b->lo, p4 = a->hi / b->hi;
  R lo = std::min(std::min(p1, p2), std::min(p3, p4)), hi = std::max(std::max(p1, p2), std::max(p3, p4));
  R sl = (2 * EPSR * fabsl(lo) + 2 * EPSR * fabsl(hi)) + TINY;
  tighten(C, q, lo - sl, hi + sl); return q;
}
// sum_k co[k] * (a-c0)^k + lagrange radius;  slack: absolute error of the value from inaccuracy of co
static TM* series(Ctx& C, const TM* a, R c0, const R* co, int n, R lag, R slack, R lo, R hi) {
  TM* d = addc(C, a, -c0);
  TM* r = C.cst(co[n]);
  for (int k = n - 1; k >= 0; k--) { r = mul(C, r, d); r = addc(C, r, co[k]); }
  TM* t = C.copy(r); t->rem = up(t->rem + lag + slack);
  tighten(C, t, lo, hi); return t;
}
static inline R dmax(const TM* a, R c0) { return std::max(a->hi - c0, c0 - a->lo) * INFL + TINY; }
static inline R cen(const TM* a) { R c = a->c[0]; if (c < a->lo || c > a->hi) c = (a->lo + a->hi) / 2; return c; }
static R mpv(MP (*f)(const MP&), R x) { return f(MP(x)).ld(); }
static const int SN = 14;

static TM* t_exp(Ctx& C, const TM* a) {
  if (a->hi > 11300 || a->lo < -11300) throw Fail{"exp range"};
  R c0 = cen(a), d = dmax(a, c0); R e = mpv(mp_exp, c0), co[SN + 1]; co[0] = e; for (int k = 1; k <= SN; k++) co[k] = co[k - 1] / k;
  R M = mpv(mp_exp, a->hi) * INFL; R lag = M; for (int k = 1; k <= SN + 1; k++) lag *= d / k;
  R lo = mpv(mp_exp, a->lo) * (1 - 4 * EPSR), hi = M;
  return series(C, a, c0, co, SN, lag, M * EPSR * 32, lo, hi);
}
static TM* t_expm1(Ctx& C, const TM* a) {
  if (a->hi > 11300 || a->lo < -11300) throw Fail{"exp range"};
  R c0 = cen(a), d = dmax(a, c0); R e = mpv(mp_exp, c0), co[SN + 1]; co[0] = e; for (int k = 1; k <= SN; k++) co[k] = co[k - 1] / k;
  co[0] = mpv(mp_expm1, c0);
  R M = mpv(mp_exp, a->hi) * INFL; R lag = M; for (int k = 1; k <= SN + 1; k++) lag *= d / k;
  R lo = mpv(mp_expm1, a->lo), hi = mpv(mp_expm1, a->hi);
  return series(C, a, c0, co, SN, lag, (fabsl(co[0]) + M * d) * EPSR * 32, lo - fabsl(lo) * 4 * EPSR, hi + fabsl(hi) * 4 * EPSR);
}
static TM* t_log(Ctx& C, const TM* a) {
  if (!(a->lo > 0)) throw Fail{"log of non-positive range"};
  R c0 = cen(a), d = dmax(a, c0), co[SN + 1]; co[0] = mpv(mp_log, c0); R p = 1; for (int k = 1; k <= SN; k++) { p /= c0; co[k] = (k & 1 ? p : -p) / k; }
  R q = d / a->lo; R lag = 1.0L / (SN + 1); for (int k = 0; k <= SN; k++) lag *= q;
  if (!std::isfinite(lag)) throw Fail{"log box too wide"};
  R lo = mpv(mp_log, a->lo), hi = mpv(mp_log, a->hi), qc = d / c0, sl = fabsl(co[0]) * 4 * EPSR; R pw = 1; for (int k = 1; k <= SN; k++) { pw *= qc; sl += pw * 32 * EPSR; }
  R s2 = 4 * EPSR * fabsl(lo) + 4 * EPSR * fabsl(hi);
  return series(C, a, c0, co, SN, lag, sl, lo - s2, hi + s2);
}
static TM* t_log1p(Ctx& C, const TM* a) {
  if (!(a->lo > -1)) throw Fail{"log of non-positive range"};
  R c0 = cen(a), d = dmax(a, c0), co[SN + 1]; co[0] = mpv(mp_log1p, c0); R p = 1; for (int k = 1; k <= SN; k++) { p /= 1 + c0; co[k] = (k & 1 ? p : -p) / k; }
  R q = d / ((1 + a->lo) * (1 - 4 * EPSR)); R lag = 1.0L / (SN + 1); for (int k = 0; k <= SN; k++) lag *= q;
  R lo = mpv(mp_log1p, a->lo), hi = mpv(mp_log1p, a->hi), qc = d / (1 + c0), sl = fabsl(co[0]) * 4 * EPSR; R pw = 1; for (int k = 1; k <= SN; k++) { pw *= qc; sl += pw * 32 * EPSR; }
  return series(C, a, c0, co, SN, lag, sl, lo - fabsl(lo) * 4 * EPSR, hi + fabsl(hi) * 4 * EPSR);
}
static TM* t_sqrt(Ctx& C, const TM* a) {
  if (!(a->lo > 0)) throw Fail{"sqrt of non-positive range"};
  R c0 = cen(a), d = dmax(a, c0), co[SN + 1]; co[0] = sqrtl(c0); for (int k = 0; k < SN; k++) co[k + 1] = co[k] * (0.5L - k) / ((k + 1) * c0);
  // |f^(n+1)/(n+1)!| <= binom(1/2,n+1) * lo^(1/2-n-1)
  R b = 1; for (int k = 0; k <= SN; k++) b *= fabsl(0.5L - k) / (k + 1);
  R q = d / a->lo, lag = b * sqrtl(a->lo); for (int k = 0; k <= SN; k++) lag *= q;
  R lo = sqrtl(a->lo) * (1 - 4 * EPSR), hi = sqrtl(a->hi) * (1 + 4 * EPSR);
  return series(C, a, c0, co, SN, lag * INFL, hi * EPSR * 64 * (1 + d / c0), lo, hi);
}
static TM* t_sc(Ctx& C, const TM* a, bool sn) {
  R c0 = cen(a), d = dmax(a, c0); R s = mpv(mp_sin, c0), c = mpv(mp_cos, c0), co[SN + 1], f = 1;
  R cyc[4]; if (sn) { cyc[0] = s; cyc[1] = c; cyc[2] = -s; cyc[3] = -c; } else { cyc[0] = c; cyc[1] = -s; cyc[2] = -c; cyc[3] = s; }
  for (int k = 0; k <= SN; k++) { if (k) f /= k; co[k] = cyc[k & 3] * f; }
  R lag = 1, ed = 1, p = 1; for (int k = 1; k <= SN + 1; k++) { lag *= d / k; p *= d / k; if (k <= SN) ed += p; }
  return series(C, a, c0, co, SN, lag, (fabsl(co[0]) + d * ed) * 16 * EPSR, -1.0L, 1.0L);
}
static TM* t_atan(Ctx& C, const TM* a) {
  R c0 = cen(a), d = dmax(a, c0), co[SN + 1], b[SN + 1], w = 1 + c0 * c0; co[0] = mpv(mp_atan, c0);
  b[0] = 1 / w; b[1] = -2 * c0 * b[0] / w; for (int k = 2; k <= SN; k++) b[k] = -(2 * c0 * b[k - 1] + b[k - 2]) / w;
  for (int k = 1; k <= SN; k++) co[k] = b[k - 1] / k;
  // |b_k| <= (k+1)/rho^(k+2)?  |Im((c+i)^-(k+1))| <= rho^-(k+1), rho = sqrt(1+x^2)
  R xm = mig(a), rho = sqrtl(1 + xm * xm) * (1 - 4 * EPSR), q = d / rho, lag = 1.0L / (SN + 1); for (int k = 0; k <= SN; k++) lag *= q;
  if (!std::isfinite(lag)) throw Fail{"atan box too wide"};
  R rc = sqrtl(w), qc = d / rc, p = 1, sl = fabsl(co[0]) * 4 * EPSR; for (int k = 1; k <= SN; k++) { p *= qc; sl += p * EPSR * 64 * k; }
  // the k=1 term is relative: co[1] accurate to EPSR*4 relative to 1/w
  R lo = mpv(mp_atan, a->lo), hi = mpv(mp_atan, a->hi);
  R sl1 = fabsl(co[0]) * 4 * EPSR + d * b[0] * 8 * EPSR; p = qc; for (int k = 2; k <= SN; k++) { p *= qc; sl1 += p * EPSR * 64 * k; }
  return series(C, a, c0, co, SN, lag * INFL, std::min(sl, sl1), lo - fabsl(lo) * 4 * EPSR, hi + fabsl(hi) * 4 * EPSR);
}
static TM* t_erf(Ctx& C, const TM* a, bool comp) {
  R c0 = cen(a), d = dmax(a, c0), co[SN + 1], y[SN + 1];
  R g = mpv(mp_exp, -c0 * c0); { MP t = MP(c0) * MP(c0); g = mp_exp(mp_neg(t)).ld(); }
  static const R k2 = 1.12837916709551257389615890312154517168810125865799771368817144L;
  y[0] = k2 * g; y[1] = -2 * c0 * y[0]; for (int k = 1; k < SN; k++) y[k + 1] = -2 * (c0 * y[k] + y[k - 1]) / (k + 1);
  co[0] = comp ? mpv(mp_erfc, c0) : mpv(mp_erf, c0);
  for (int k = 1; k <= SN; k++) co[k] = (comp ? -1 : 1) * y[k - 1] / k;
  R xm = mig(a); R M = k2 * 1.0866L * expl(-xm * xm / 2) * 1.0001L; for (int k = 1; k <= SN; k++) M *= sqrtl(2.0L * k);  // |H_n| e^{-x^2} bound
  R lag = M; for (int k = 1; k <= SN + 1; k++) lag *= d / k;
  // slack: coefficient recurrence error, generously
  R sl = fabsl(co[0]) * 4 * EPSR, p = d, bb = k2 * 1.0866L * expl(-xm * xm / 2) * 1.0001L; sl += d * y[0] * 16 * EPSR; for (int k = 2; k <= SN; k++) { p *= d; bb *= sqrtl(2.0L * (k - 1)) / (k - 1); sl += p / k * bb * EPSR * 256 * k; }
  R lo = comp ? mpv(mp_erfc, a->hi) : mpv(mp_erf, a->lo), hi = comp ? mpv(mp_erfc, a->lo) : mpv(mp_erf, a->hi);
  return series(C, a, c0, co, SN, lag * INFL, sl, lo - fabsl(lo) * 4 * EPSR, hi + fabsl(hi) * 4 * EPSR);
}
static TM* t_lgamma(Ctx& C, const TM* a) {
  if (!(a->lo > 0)) throw Fail{"lgamma of non-positive range"};
  int N = 0; while (a->lo + N < 24 && N < 24) N++;
  TM* x = addc(C, a, (R)N);
  TM* prod = nullptr; for (int j = 0; j < N; j++) { TM* f = j ? addc(C, a, (R)j) : C.copy(a); prod = prod ? mul(C, prod, f) : f; }
  TM* lx = t_log(C, x);
  TM* r = add(C, mul(C, addc(C, x, -0.5L), lx), x, -1);
  static const R hl2p = 0.918938533204672741780329736405617639861397473637783412817151540L;
  r = addc(C, r, hl2p, EPSR);
  static const R B[] = {1.0L / 12, -1.0L / 360, 1.0L / 1260, -1.0L / 1680, 1.0L / 1188, -691.0L / 360360, 1.0L / 156, -3617.0L / 122400, 43867.0L / 244188, -174611.0L / 125400};
  TM* inv = div(C, C.cst(1), x); TM* i2 = mul(C, inv, inv);
  int K = 9; TM* s = C.cst(B[K - 1], EPSR); for (int k = K - 2; k >= 0; k--) s = addc(C, mul(C, s, i2), B[k], EPSR * fabsl(B[k]));
  s = mul(C, s, inv);
  R xl = x->lo, tail = fabsl(B[K]); for (int k = 0; k < 2 * K + 1; k++) tail /= xl;
  s->rem = up(s->rem + tail); s->lo -= tail; s->hi += tail;
  r = add(C, r, s, 1);
  if (prod) r = add(C, r, t_log(C, prod), -1);
  return r;
}
