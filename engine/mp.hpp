// hand-written declarations for libmpfr.so.6 (the development headers are not installed)
#pragma once
extern "C" {
typedef long mpfr_prec_t_; typedef int mpfr_sign_t_; typedef long mpfr_exp_t_; typedef unsigned long mp_limb_t_;
struct mpfr_s { mpfr_prec_t_ p; mpfr_sign_t_ s; mpfr_exp_t_ e; mp_limb_t_* d; };
typedef mpfr_s* mpfr_p; typedef const mpfr_s* mpfr_cp;
void mpfr_init2(mpfr_p, mpfr_prec_t_); void mpfr_clear(mpfr_p);
int mpfr_set_ld(mpfr_p, long double, int); long double mpfr_get_ld(mpfr_cp, int); double mpfr_get_d(mpfr_cp, int);
int mpfr_set4(mpfr_p, mpfr_cp, int, int); int mpfr_set_si_2exp(mpfr_p, long, mpfr_exp_t_, int);
int mpfr_add(mpfr_p, mpfr_cp, mpfr_cp, int); int mpfr_sub(mpfr_p, mpfr_cp, mpfr_cp, int);
int mpfr_mul(mpfr_p, mpfr_cp, mpfr_cp, int); int mpfr_div(mpfr_p, mpfr_cp, mpfr_cp, int);
int mpfr_neg(mpfr_p, mpfr_cp, int); int mpfr_sqrt(mpfr_p, mpfr_cp, int); int mpfr_pow(mpfr_p, mpfr_cp, mpfr_cp, int);
int mpfr_exp(mpfr_p, mpfr_cp, int); int mpfr_expm1(mpfr_p, mpfr_cp, int); int mpfr_log(mpfr_p, mpfr_cp, int); int mpfr_log1p(mpfr_p, mpfr_cp, int);
int mpfr_sin(mpfr_p, mpfr_cp, int); int mpfr_cos(mpfr_p, mpfr_cp, int); int mpfr_atan(mpfr_p, mpfr_cp, int);
int mpfr_erf(mpfr_p, mpfr_cp, int); int mpfr_erfc(mpfr_p, mpfr_cp, int); int mpfr_lngamma(mpfr_p, mpfr_cp, int); int mpfr_gamma(mpfr_p, mpfr_cp, int);
int mpfr_cmp3(mpfr_cp, mpfr_cp, int); int mpfr_nan_p(mpfr_cp); int mpfr_inf_p(mpfr_cp); int mpfr_zero_p(mpfr_cp);
int mpfr_const_pi(mpfr_p, int); int mpfr_const_log2(mpfr_p, int); int mpfr_cmp_ld(mpfr_cp, long double); void mpfr_free_cache(void);
int mpfr_strtofr(mpfr_p, const char*, char**, int, int);
}
struct MP {  // value type, 256 bits
  mpfr_s v;
  static constexpr long P = 256;
  MP() { mpfr_init2(&v, P); mpfr_set_ld(&v, 0.0L, 0); }
  MP(long double x) { mpfr_init2(&v, P); mpfr_set_ld(&v, x, 0); }
  MP(const MP& o) { mpfr_init2(&v, P); mpfr_set4(&v, &o.v, 0, o.v.s); }
  MP& operator=(const MP& o) { mpfr_set4(&v, &o.v, 0, o.v.s); return *this; }
  ~MP() { mpfr_clear(&v); }
  long double ld() const { return mpfr_get_ld(&v, 0); }
  bool nan() const { return mpfr_nan_p(&v); }
};
#define MPB(op, f) inline MP operator op(const MP& a, const MP& b) { MP r; f(&r.v, &a.v, &b.v, 0); return r; }
MPB(+, mpfr_add) MPB(-, mpfr_sub) MPB(*, mpfr_mul) MPB(/, mpfr_div)
#define MPU(n, f) inline MP n(const MP& a) { MP r; f(&r.v, &a.v, 0); return r; }
MPU(mp_neg, mpfr_neg) MPU(mp_sqrt, mpfr_sqrt) MPU(mp_exp, mpfr_exp) MPU(mp_expm1, mpfr_expm1) MPU(mp_log, mpfr_log) MPU(mp_log1p, mpfr_log1p)
MPU(mp_sin, mpfr_sin) MPU(mp_cos, mpfr_cos) MPU(mp_atan, mpfr_atan) MPU(mp_erf, mpfr_erf) MPU(mp_erfc, mpfr_erfc) MPU(mp_lgamma, mpfr_lngamma)
inline bool operator<(const MP& a, const MP& b) { return mpfr_cmp3(&a.v, &b.v, 1) < 0; }
inline MP mp_abs(const MP& a) { return a < MP(0.0L) ? mp_neg(a) : a; }
