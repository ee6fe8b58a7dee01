#include <mpfr.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unordered_map>
#include "oracle.h"

static_assert(sizeof(mpfr_t) <= 48, "raw storage too small");
static long g_prec = 1500;
#define M(q)  (*reinterpret_cast<mpfr_t*>((q).raw))
#define MC(q) (*reinterpret_cast<const mpfr_t*>((q).raw))
static constexpr mpfr_rnd_t RN = MPFR_RNDN;

// raw is private: give the macros access through a small accessor trick.
#undef M
#undef MC
struct QRaw { unsigned char raw[48]; };
static inline mpfr_t& M (Q& q)       { return *reinterpret_cast<mpfr_t*>(reinterpret_cast<unsigned char*>(&q)); }
static inline const mpfr_t& MC(const Q& q) { return *reinterpret_cast<const mpfr_t*>(reinterpret_cast<const unsigned char*>(&q)); }

// The exponent range of libmpfr belongs to the thread: it is widened only where the code under test does not use libmpfr itself.
void Q::wide_range() { mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); }

void Q::set_prec(long b) { g_prec = b; }
long Q::prec() { return g_prec; }
Q::Q()           { mpfr_init2(M(*this), g_prec); mpfr_set_zero(M(*this), 1); }
Q::Q(NoInit)     { mpfr_init2(M(*this), g_prec); }
Q::Q(const Q& o) { mpfr_init2(M(*this), mpfr_get_prec(MC(o))); mpfr_set(M(*this), MC(o), RN); }
Q& Q::operator=(const Q& o) { if(this != &o) { mpfr_set_prec(M(*this), mpfr_get_prec(MC(o))); mpfr_set(M(*this), MC(o), RN); } return *this; }
Q::~Q() { mpfr_clear(M(*this)); }
Q::Q(const std::string& s)
{
  mpfr_init2(M(*this), g_prec);
  char* e = nullptr;
  mpfr_strtofr(M(*this), s.c_str(), &e, 10, RN);
  if(e == s.c_str() || *e != '\0') { mpfr_set_nan(M(*this)); }
}
Q Q::I(long long n)          { Q r{NoInit()}; mpfr_set_si(M(r), n, RN); return r; }
Q Q::U(unsigned long long n) { Q r{NoInit()}; mpfr_set_ui(M(r), n, RN); return r; }
Q Q::D(double d)             { Q r{NoInit()}; mpfr_set_d(M(r), d, RN); return r; }
Q Q::L(long double d)        { Q r{NoInit()}; mpfr_set_ld(M(r), d, RN); return r; }
Q Q::pow10(long e)           { Q r{NoInit()}; mpfr_set_ui(M(r), 10, RN); mpfr_pow_si(M(r), M(r), e, RN); return r; }
Q Q::pow2(long e)            { Q r{NoInit()}; mpfr_set_ui_2exp(M(r), 1, e, RN); return r; }
Q Q::nan()                   { Q r{NoInit()}; mpfr_set_nan(M(r)); return r; }
Q Q::inf(bool neg)           { Q r{NoInit()}; mpfr_set_inf(M(r), neg ? -1 : 1); return r; }
bool Q::isnan() const { return mpfr_nan_p(MC(*this)) != 0; }
bool Q::isinf() const { return mpfr_inf_p(MC(*this)) != 0; }
bool Q::isfinite() const { return mpfr_number_p(MC(*this)) != 0; }
bool Q::iszero() const { return mpfr_zero_p(MC(*this)) != 0; }
bool Q::isint() const { return mpfr_integer_p(MC(*this)) != 0; }
int  Q::sgn() const { return isnan() ? 0 : mpfr_sgn(MC(*this)); }
int  Q::cmp(const Q& o) const { return mpfr_cmp(MC(*this), MC(o)); }
Q Q::operator-() const { Q r{NoInit()}; mpfr_neg(M(r), MC(*this), RN); return r; }
Q Q::operator+(const Q& o) const { Q r{NoInit()}; mpfr_add(M(r), MC(*this), MC(o), RN); return r; }
Q Q::operator-(const Q& o) const { Q r{NoInit()}; mpfr_sub(M(r), MC(*this), MC(o), RN); return r; }
Q Q::operator*(const Q& o) const { Q r{NoInit()}; mpfr_mul(M(r), MC(*this), MC(o), RN); return r; }
Q Q::operator/(const Q& o) const { Q r{NoInit()}; mpfr_div(M(r), MC(*this), MC(o), RN); return r; }
Q Q::abs() const { Q r{NoInit()}; mpfr_abs(M(r), MC(*this), RN); return r; }
Q Q::floor() const { Q r{NoInit()}; mpfr_floor(M(r), MC(*this)); return r; }
Q Q::ceil () const { Q r{NoInit()}; mpfr_ceil (M(r), MC(*this)); return r; }
Q Q::trunc() const { Q r{NoInit()}; mpfr_trunc(M(r), MC(*this)); return r; }

typedef int (*F1)(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
Q Q::fn(const char* name) const
{
  static const std::unordered_map<std::string, F1> t = {
    {"sqrt",mpfr_sqrt},{"cbrt",mpfr_cbrt},{"exp",mpfr_exp},{"log",mpfr_log},{"log10",mpfr_log10},{"log2",mpfr_log2},{"log1p",mpfr_log1p},
    {"expm1",mpfr_expm1},{"sin",mpfr_sin},{"cos",mpfr_cos},{"tan",mpfr_tan},{"sec",mpfr_sec},{"csc",mpfr_csc},{"cot",mpfr_cot},
    {"asin",mpfr_asin},{"acos",mpfr_acos},{"atan",mpfr_atan},{"sinh",mpfr_sinh},{"cosh",mpfr_cosh},{"tanh",mpfr_tanh},
    {"asinh",mpfr_asinh},{"acosh",mpfr_acosh},{"atanh",mpfr_atanh},{"gamma",mpfr_gamma},{"zeta",mpfr_zeta},{"lngamma",mpfr_lngamma},{"digamma",mpfr_digamma},{"erf",mpfr_erf},{"erfc",mpfr_erfc},{"j0",mpfr_j0},{"j1",mpfr_j1} };
  Q r{NoInit()};
  if(std::strcmp(name, "pi") == 0)      { mpfr_const_pi(M(r), RN);      return r; }
  if(std::strcmp(name, "ln2") == 0)     { mpfr_const_log2(M(r), RN);    return r; }
  if(std::strcmp(name, "euler") == 0)   { mpfr_const_euler(M(r), RN);   return r; }
  if(std::strcmp(name, "catalan") == 0) { mpfr_const_catalan(M(r), RN); return r; }
  const auto it = t.find(name);
  if(it == t.end()) { std::fprintf(stderr, "oracle: unknown function %s\n", name); std::abort(); }
  it->second(M(r), MC(*this), RN);
  return r;
}
Q Q::fn(const char* name, const Q& y) const
{
  Q r{NoInit()};
  if     (!std::strcmp(name, "pow"))   mpfr_pow  (M(r), MC(*this), MC(y), RN);
  else if(!std::strcmp(name, "atan2")) mpfr_atan2(M(r), MC(*this), MC(y), RN);
  else if(!std::strcmp(name, "fmod"))  mpfr_fmod (M(r), MC(*this), MC(y), RN);
  else if(!std::strcmp(name, "hypot")) mpfr_hypot(M(r), MC(*this), MC(y), RN);
  else if(!std::strcmp(name, "agm"))   mpfr_agm  (M(r), MC(*this), MC(y), RN);
  else { std::fprintf(stderr, "oracle: unknown function %s\n", name); std::abort(); }
  return r;
}
Q Q::fn(const char* name, long n) const
{
  Q r{NoInit()};
  if     (!std::strcmp(name, "root")) mpfr_rootn_ui(M(r), MC(*this), (unsigned long) n, RN);
  else if(!std::strcmp(name, "pown")) mpfr_pow_si  (M(r), MC(*this), n, RN);
  else { std::fprintf(stderr, "oracle: unknown function %s\n", name); std::abort(); }
  return r;
}
static std::string fmt(const char* f, int a, const mpfr_t& x)
{
  char* p = nullptr; mpfr_asprintf(&p, f, a, x); std::string s(p); mpfr_free_str(p); return s;
}
std::string Q::sci(int d) const { return fmt("%.*RNe", d, MC(*this)); }
std::string Q::fix(int d) const { return fmt("%.*RNf", d, MC(*this)); }
std::string Q::gen(const char* flags, int width, int prec, char conv) const
{
  std::string f = std::string("%") + flags + "*.*RN" + conv;
  char* p = nullptr; mpfr_asprintf(&p, f.c_str(), width, prec, MC(*this)); std::string s(p); mpfr_free_str(p); return s;
}
long Q::exp10() const
{
  if(!isfinite() || iszero()) return 0;
  // truncated (toward zero) digits give the exact decimal order
  mpfr_exp_t e; char* s = mpfr_get_str(nullptr, &e, 10, 20, MC(*this), MPFR_RNDZ); mpfr_free_str(s); return (long) e - 1;
}
double Q::to_double() const { return mpfr_get_d(MC(*this), RN); }
long double Q::to_long_double() const { return mpfr_get_ld(MC(*this), RN); }
double Q::log10abs() const
{
  if(iszero()) return -INFINITY;
  if(!isfinite()) return isnan() ? NAN : INFINITY;
  mpfr_t t; mpfr_init2(t, 80); mpfr_abs(t, MC(*this), RN); mpfr_log10(t, t, RN); double d = mpfr_get_d(t, RN); mpfr_clear(t); return d;
}
bool Q::to_ull(unsigned long long& u) const { if(!isint() || !mpfr_fits_ulong_p(MC(*this), MPFR_RNDZ)) return false; u = mpfr_get_ui(MC(*this), RN); return true; }
bool Q::to_sll(long long& n) const { if(!isint() || !mpfr_fits_slong_p(MC(*this), MPFR_RNDZ)) return false; n = mpfr_get_si(MC(*this), RN); return true; }
