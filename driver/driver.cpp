// Names the template instantiations under verification.  Contains no logic of its own: every wrapper is one
// call of a public gcem function.  The verifiers read the IR that clang emits for this file.
#include "gcem.hpp"
#define X extern "C"
typedef float F; typedef double D; typedef long double L;
typedef int I; typedef unsigned U; typedef long long J; typedef unsigned long long V; typedef long N;
#define FP1(fn) X F f_##fn(F x){return gcem::fn(x);} X D d_##fn(D x){return gcem::fn(x);} X L l_##fn(L x){return gcem::fn(x);}
#define FP2(fn) X F f_##fn(F x,F y){return gcem::fn(x,y);} X D d_##fn(D x,D y){return gcem::fn(x,y);} X L l_##fn(L x,L y){return gcem::fn(x,y);}
#define FP3(fn) X F f_##fn(F x,F y,F z){return gcem::fn(x,y,z);} X D d_##fn(D x,D y,D z){return gcem::fn(x,y,z);} X L l_##fn(L x,L y,L z){return gcem::fn(x,y,z);}
#define INT1(fn) X D i_##fn(I x){return gcem::fn(x);} X D u_##fn(U x){return gcem::fn(x);} X D j_##fn(J x){return gcem::fn(x);} X D v_##fn(V x){return gcem::fn(x);}
FP1(floor) FP1(ceil) FP1(trunc) FP1(round)
FP1(abs) FP2(max) FP2(min)
X int f_sgn(F x){return gcem::sgn(x);} X int d_sgn(D x){return gcem::sgn(x);} X int l_sgn(L x){return gcem::sgn(x);}
X int i_sgn(I x){return gcem::sgn(x);} X int u_sgn(U x){return gcem::sgn(x);} X int j_sgn(J x){return gcem::sgn(x);} X int v_sgn(V x){return gcem::sgn(x);}
X bool f_signbit(F x){return gcem::signbit(x);} X bool d_signbit(D x){return gcem::signbit(x);} X bool l_signbit(L x){return gcem::signbit(x);}
FP2(copysign)
X D df_copysign(D x,F y){return gcem::copysign(x,y);} X F fl_copysign(F x,L y){return gcem::copysign(x,y);} X L ld_copysign(L x,D y){return gcem::copysign(x,y);}
X I i_abs(I x){return gcem::abs(x);} X U u_abs(U x){return gcem::abs(x);} X J j_abs(J x){return gcem::abs(x);} X V v_abs(V x){return gcem::abs(x);}
X I i_max(I x,I y){return gcem::max(x,y);} X J j_max(J x,J y){return gcem::max(x,y);} X U u_max(U x,U y){return gcem::max(x,y);} X V v_max(V x,V y){return gcem::max(x,y);}
X I i_min(I x,I y){return gcem::min(x,y);} X J j_min(J x,J y){return gcem::min(x,y);} X U u_min(U x,U y){return gcem::min(x,y);} X V v_min(V x,V y){return gcem::min(x,y);}
X J ij_max(I x,J y){return gcem::max(x,y);} X J ij_min(I x,J y){return gcem::min(x,y);} X D id_max(I x,D y){return gcem::max(x,y);} X D di_min(D x,I y){return gcem::min(x,y);}
X D fd_max(F x,D y){return gcem::max(x,y);} X D df_min(D x,F y){return gcem::min(x,y);}
X I i_gcd(I a,I b){return gcem::gcd(a,b);} X J j_gcd(J a,J b){return gcem::gcd(a,b);} X U u_gcd(U a,U b){return gcem::gcd(a,b);} X V v_gcd(V a,V b){return gcem::gcd(a,b);}
X J ij_gcd(I a,J b){return gcem::gcd(a,b);} X U iu_gcd(I a,U b){return gcem::gcd(a,b);} X N in_gcd(I a,N b){return gcem::gcd(a,b);}
X I i_lcm(I a,I b){return gcem::lcm(a,b);} X J j_lcm(J a,J b){return gcem::lcm(a,b);} X U u_lcm(U a,U b){return gcem::lcm(a,b);} X V v_lcm(V a,V b){return gcem::lcm(a,b);}
X J ij_lcm(I a,J b){return gcem::lcm(a,b);} X U iu_lcm(I a,U b){return gcem::lcm(a,b);}
X I i_factorial(I a){return gcem::factorial(a);} X J j_factorial(J a){return gcem::factorial(a);} X U u_factorial(U a){return gcem::factorial(a);} X V v_factorial(V a){return gcem::factorial(a);}
X I i_binomial_coef(I a,I b){return gcem::binomial_coef(a,b);} X J j_binomial_coef(J a,J b){return gcem::binomial_coef(a,b);} X U u_binomial_coef(U a,U b){return gcem::binomial_coef(a,b);} X V v_binomial_coef(V a,V b){return gcem::binomial_coef(a,b);}
X J ij_binomial_coef(I a,J b){return gcem::binomial_coef(a,b);} X D d_binomial_coef(D a,D b){return gcem::binomial_coef(a,b);}
X I ii_pow(I a,I b){return gcem::pow(a,b);} X J jj_pow(J a,J b){return gcem::pow(a,b);} X U uu_pow(U a,U b){return gcem::pow(a,b);} X V vv_pow(V a,V b){return gcem::pow(a,b);}
X J ij_pow(I a,J b){return gcem::pow(a,b);} X U iu_pow(I a,U b){return gcem::pow(a,b);} X J ji_pow(J a,I b){return gcem::pow(a,b);} X V vu_pow(V a,U b){return gcem::pow(a,b);}
X D di_pow(D a,I b){return gcem::pow(a,b);} X D dj_pow(D a,J b){return gcem::pow(a,b);} X D du_pow(D a,U b){return gcem::pow(a,b);} X D dv_pow(D a,V b){return gcem::pow(a,b);}
X F fi_pow(F a,I b){return gcem::pow(a,b);} X L li_pow(L a,I b){return gcem::pow(a,b);} X L lj_pow(L a,J b){return gcem::pow(a,b);}
FP2(pow) X D id_pow(I a,D b){return gcem::pow(a,b);} X D fd_pow(F a,D b){return gcem::pow(a,b);}
FP1(sqrt) FP1(inv_sqrt) FP2(hypot)
FP1(exp) FP1(expm1) FP1(log) FP1(log1p) FP1(log2) FP1(log10)
FP1(sin) FP1(cos) FP1(tan) FP1(asin) FP1(acos) FP1(atan) FP2(atan2)
FP1(sinh) FP1(cosh) FP1(tanh) FP1(asinh) FP1(acosh) FP1(atanh)
FP1(lgamma) FP1(tgamma) FP2(beta) FP2(lbeta) FP2(log_binomial_coef) FP1(factorial)
X F fi_lmgamma(F a,I p){return gcem::lmgamma(a,p);} X D di_lmgamma(D a,I p){return gcem::lmgamma(a,p);} X L li_lmgamma(L a,I p){return gcem::lmgamma(a,p);}
FP1(erf) FP1(erf_inv) FP2(incomplete_gamma) FP2(incomplete_gamma_inv) FP3(incomplete_beta) FP3(incomplete_beta_inv)
FP2(fmod)
// integral arguments
INT1(floor) INT1(ceil) INT1(trunc) INT1(round)
INT1(sqrt) INT1(inv_sqrt) INT1(exp) INT1(expm1) INT1(log) INT1(log1p) INT1(log2) INT1(log10)
INT1(sin) INT1(cos) INT1(tan) INT1(asin) INT1(acos) INT1(atan) INT1(sinh) INT1(cosh) INT1(tanh) INT1(asinh) INT1(acosh) INT1(atanh)
INT1(lgamma) INT1(tgamma) INT1(erf) INT1(erf_inv)
#define MIX2(fn) X D ii_##fn(I x,I y){return gcem::fn(x,y);} X D id_##fn(I x,D y){return gcem::fn(x,y);} X D di_##fn(D x,I y){return gcem::fn(x,y);} X D fd_##fn(F x,D y){return gcem::fn(x,y);} X L dl_##fn(D x,L y){return gcem::fn(x,y);} X F if_##fn(I x,F y){return gcem::fn(x,y);} X L li_##fn(L x,I y){return gcem::fn(x,y);}
MIX2(hypot) MIX2(atan2) MIX2(beta) MIX2(lbeta) MIX2(fmod) MIX2(incomplete_gamma) MIX2(log_binomial_coef)
#define MIX2F(fn) X D id_##fn(I x,D y){return gcem::fn(x,y);} X D di_##fn(D x,I y){return gcem::fn(x,y);} X D fd_##fn(F x,D y){return gcem::fn(x,y);} X L dl_##fn(D x,L y){return gcem::fn(x,y);} X F if_##fn(I x,F y){return gcem::fn(x,y);} X L li_##fn(L x,I y){return gcem::fn(x,y);}
MIX2F(incomplete_gamma_inv)
X D iid_incomplete_beta(I a,I b,D z){return gcem::incomplete_beta(a,b,z);} X D fdd_incomplete_beta(F a,D b,D z){return gcem::incomplete_beta(a,b,z);} X L dld_incomplete_beta(D a,L b,D z){return gcem::incomplete_beta(a,b,z);}
X D iid_incomplete_beta_inv(I a,I b,D z){return gcem::incomplete_beta_inv(a,b,z);} X D fdd_incomplete_beta_inv(F a,D b,D z){return gcem::incomplete_beta_inv(a,b,z);} X L dld_incomplete_beta_inv(D a,L b,D z){return gcem::incomplete_beta_inv(a,b,z);}
