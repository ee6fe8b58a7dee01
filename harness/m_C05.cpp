// C05: every built-in arithmetic type is a first-class operand, with the same result as the equal e_float.
#include "efmon.h"
namespace {
const double K = DIG - 0.3;
template<class T> struct Name; 
#define N_(T) template<> struct Name<T> { static const char* s() { return #T; } }
N_(bool); N_(char); N_(signed char); N_(unsigned char); N_(short); N_(unsigned short); N_(int); N_(unsigned int); N_(long); N_(unsigned long); N_(long long); N_(unsigned long long); N_(float); N_(double); N_(long double); N_(wchar_t); N_(char16_t); N_(char32_t);
template<class T> Q qof(T v) { if constexpr(std::is_floating_point<T>::value) return Q::L((long double) v); else if constexpr(std::is_signed<T>::value) return Q::I((long long) v); else return Q::U((unsigned long long) v); }
template<class T> T gen_int(Rng& r)
{
  switch(r.below(8))
  {
    case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return (T) 0; case 3: return (T) r.range(-3, 3);
    case 4: { static const unsigned long long e[] = { 99999999ULL, 100000000ULL, 100000001ULL, 9999999999999999ULL, 10000000000000000ULL, 4294967295ULL, 4294967296ULL, 9223372036854775807ULL, 9223372036854775808ULL, 1000000000000000000ULL, 10000000000000000000ULL }; return (T) (r.pick(e) + (unsigned long long) r.range(-1, 1)); }
    case 5: { unsigned long long p = 1; for(int k = (int) r.below(20); k > 0; --k) p *= 10; return (T) p; }
    default: return (T) (r.next() >> r.below(sizeof(T) * 8)); }
}
template<class T> T gen_flt(Rng& r)
{
  switch(r.below(9))
  {
    case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return (T) 0; case 3: return (T) r.range(-5, 5); case 4: return std::numeric_limits<T>::epsilon() * (T) r.range(1, 99);
    case 5: return std::nextafter((T) 1, r.chance(50) ? (T) 2 : (T) 0);
    case 6: { const int d = std::numeric_limits<T>::digits; const int e = (int) r.range(std::numeric_limits<T>::min_exponent + 2, std::numeric_limits<T>::max_exponent - 2); return std::ldexp((T) (r.next() >> (64 - d)), e - d) * (r.chance(50) ? 1 : -1); }
    default: return std::ldexp((T) (r.next() >> (64 - std::numeric_limits<T>::digits)), (int) r.range(-120, 30)) * (r.chance(50) ? (T) 1 : (T) -1);
  }
}
void cmpv(Case& c, const e_float& got, const Q& want, const Q& scale, const char* what)
{
  if(want.isnan()) { c.check(got.isnan(), what, [&]{ return "got " + str(got) + " want nan"; }); return; }
  if(want.isinf()) { c.check(got.isinf(), what, [&]{ return "got " + str(got) + " want inf"; }); return; }
  c.check(within(toQ(got), want, scale, K), what, [&]{ return diff(toQ(got), want); });
}
template<class T> void go(Case& c, const T v)
{
  Rng& r = c.rng; const Q qv = qof(v); c.cls(Name<T>::s()); c.in("v", qv.sci(25));
  std::string a; switch(r.below(8)) { case 0: a = "0"; break; case 1: a = qv.sci(60); break; case 2: a = "1"; break; case 3: { a = (-qv).sci(60); break; } case 4: a = gen_any(r); break; default: a = gen_dec(r, -30, 40); }
  c.in("a", a); const e_float x(a); const Q qx = Qs(a); const e_float ev(v);
  if(qx.log10abs() > MAX10 - 6000 || (!qx.iszero() && qx.log10abs() < MIN10 + 6000)) { c.trivial(); return; }
  cmpv(c, ev, qv, qv.abs(), "conversion");
  const Q s = qx.abs() + qv.abs();
  cmpv(c, x + v, qx + qv, s, "e+b"); cmpv(c, v + x, qx + qv, s, "b+e"); cmpv(c, x - v, qx - qv, s, "e-b"); cmpv(c, v - x, qv - qx, s, "b-e");
  cmpv(c, x * v, qx * qv, (qx * qv).abs(), "e*b"); cmpv(c, v * x, qx * qv, (qx * qv).abs(), "b*e");
  { e_float z(x); z += v; cmpv(c, z, qx + qv, s, "e+=b"); z = x; z -= v; cmpv(c, z, qx - qv, s, "e-=b"); z = x; z *= v; cmpv(c, z, qx * qv, (qx * qv).abs(), "e*=b"); z = v; cmpv(c, z, qv, qv.abs(), "e=b"); }
  if(!(qv.iszero())) { const Q q = qx / qv; cmpv(c, x / v, q, q.abs(), "e/b"); e_float z(x); z /= v; cmpv(c, z, q, q.abs(), "e/=b"); }
  else { const e_float q = x / v; c.check(qx.iszero() ? q.isnan() : q.isinf(), "e/0", str(q)); }
  if(!(qx.iszero())) { const Q q = qv / qx; cmpv(c, v / x, q, q.abs(), "b/e"); }
  if(DIG < 100 && !std::is_integral<T>::value && within(qx, qv, s, DIG - 3.0)) c.hit("too close for this precision"); else c.check((x < v) == (qx < qv) && (x == v) == (qx == qv) && (v < x) == (qv < qx) && (x != v) == !(qx == qv) && (x >= v) == (qx >= qv) && (v <= x) == (qv <= qx) && (x > v) == (qx > qv) && (x <= v) == (qx <= qv) && (v > x) == (qv > qx) && (v >= x) == (qv >= qx), "comparison") ;
  c.check((x + v == x + ev || within(toQ(x + v), toQ(x + ev), s, K)) && (x * v == x * ev || within(toQ(x * v), toQ(x * ev), (qx * qv).abs(), K)), "same as converted operand");
  if(std::is_integral<T>::value) c.hit("integral"); else c.hit("floating");
  // exact integer results stay exact
  if constexpr(std::is_integral<T>::value) if(qx.isint() && qx.log10abs() < DIG - 22.0 && a.find("e-") == std::string::npos)
  { const e_float ip(qx.fix(0)); c.check(toQ(ip + v) == qx + qv && toQ(ip - v) == qx - qv && toQ(ip * v) == qx * qv && toQ(v - ip) == qv - qx, "exact integers", [&]{ return str(ip + v) + " " + str(ip - v) + " " + str(ip * v); }); c.hit("exact"); }
}
void integral(Case& c)
{
  Rng& r = c.rng;
  switch(r.below(15)) { case 0: go<bool>(c, r.chance(50)); break; case 1: go<char>(c, gen_int<char>(r)); break; case 2: go<signed char>(c, gen_int<signed char>(r)); break; case 3: go<unsigned char>(c, gen_int<unsigned char>(r)); break; case 4: go<short>(c, gen_int<short>(r)); break; case 5: go<unsigned short>(c, gen_int<unsigned short>(r)); break; case 6: go<int>(c, gen_int<int>(r)); break; case 7: go<unsigned int>(c, gen_int<unsigned int>(r)); break; case 8: go<long>(c, gen_int<long>(r)); break; case 9: go<unsigned long>(c, gen_int<unsigned long>(r)); break; case 10: case 11: go<long long>(c, gen_int<long long>(r)); break; case 12: case 13: go<unsigned long long>(c, gen_int<unsigned long long>(r)); break; default: if(r.chance(50)) go<wchar_t>(c, gen_int<wchar_t>(r)); else go<char32_t>(c, (char32_t) gen_int<unsigned>(r)); }
}
void floating(Case& c) { Rng& r = c.rng; switch(r.below(3)) { case 0: go<float>(c, gen_flt<float>(r)); break; case 1: go<double>(c, gen_flt<double>(r)); break; default: go<long double>(c, gen_flt<long double>(r)); } }
}
FAMILY("C05.integral", 9000, integral);
FAMILY("C05.floating", 6000, floating);
