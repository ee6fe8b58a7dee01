// Twelve more kinds of drawn calls, for C28 and C30: texts, casts, generic complex reading, Boost numbers.
#ifndef VERIF_XTASKS_H
#define VERIF_XTASKS_H
#include <boost/math/bindings/e_float.hpp>
#include <utility/util_lexical_cast.h>
#include <utility/util_numeric_cast.h>
#include <generic_functions/elementary/generic_functions_elementary.h>
#include "tasks.h"
namespace {
const int NX = 12;
const char* const XKIND[NX] = { "from floating", "to built-in", "from text", "output", "input", "lexical cast", "numeric cast", "complex text in", "generic complex text", "boost number", "generic frexp10", "complex output" };
std::string lbits(long double d) { unsigned char b[16] = { 0 }; std::memcpy(b, &d, 10); std::string s; for(int i = 0; i < 10; ++i) s += fmt("%02x", b[i]); return s; }
double rd(Rng& r) { switch(r.below(4)) { case 0: return (double) r.range(-99999999, 99999999); case 1: return (double) r.range(-99999999, 99999999) / 64; case 2: return (double) (std::int64_t) r.next(); default: return std::ldexp((double) (r.next() >> 11), (int) r.range(-200, 200)) * (r.chance(50) ? 1 : -1); } }
std::string rtext(Rng& r)      // numbers of 1 to 40 digits with a point anywhere and an exponent of up to 7 digits
{
  std::string s; if(r.chance(30)) s += r.chance(50) ? "-" : "+"; const int n = (int) r.range(1, 40), p = (int) r.range(0, n); for(int i = 0; i < n; ++i) { if(i == p && i) s += "."; s += (char) ('0' + r.below(10)); }
  if(r.chance(60)) { s += r.chance(50) ? "e" : "E"; static const long lim[] = { 9, 999, 99999, 9999999 }; const long m = lim[r.below(4)]; s += std::to_string(r.range(-m, m)); }
  return s;
}
e_float rx(Rng& r) { return e_float(rtext(r)); }
template<class S> void fmtdraw(Rng& r, S& os)
{
  switch(r.below(3)) { case 0: os << std::fixed; break; case 1: os << std::scientific; break; default: break; }
  os << std::setprecision((int) r.range(0, 60)); if(r.chance(30)) os << std::showpos; if(r.chance(30)) os << std::showpoint; if(r.chance(30)) os << std::uppercase; if(r.chance(40)) os << std::setw((int) r.range(1, 90)); if(r.chance(40)) os << std::setfill('*'); switch(r.below(4)) { case 0: os << std::left; break; case 1: os << std::internal; break; default: break; }
}
template<class T> std::string gcplx(const std::string& s) { ef::complex<T> z; std::istringstream is(s); is.exceptions(std::ios::badbit); is.imbue(std::locale::classic()); is >> z; return is.fail() ? "fail" : lbits((long double) z.real()) + "," + lbits((long double) z.imag()); }
std::string small(Rng& r) { return (r.chance(30) ? "-" : "") + std::to_string(r.below(99999999)) + "." + std::to_string(r.below(999999)); }
std::string runx(const Task& t)
{
  if(t.kind < NK) return run(t);
  Rng r(t.seed);
  switch(t.kind - NK)
  {
    case 0: { const double d = rd(r); return txt(e_float(d)) + txt(e_float((long double) d / 3)) + txt(e_float((float) std::fmod(d, 1e30))) + txt(e_float(1) + d) + (e_float(d) == d ? "=" : "#") + (e_float(1234567.25) < d ? "<" : ">"); }
    case 1: { const e_float x(rx(r)), y(e_float(rd(r)) / 3); return bits(ef::to_double(x)) + bits(ef::to_double(y)) + fmt("%lld %d", (long long) ef::to_int64(y), (int) ef::to_int32(y)) + bits((double) static_cast<float>(ef::to_double(y)));  }
    case 2: return txt(e_float(rtext(r))) + txt(e_float(rtext(r).c_str()));
    case 3: { std::ostringstream os; os.exceptions(std::ios::badbit); fmtdraw(r, os); os << rx(r) << "|" << rx(r) << "|" << e_float(rd(r)); return os.str(); }
    case 4: { std::string s; for(int i = 0; i < 4; ++i) s += rtext(r) + (r.chance(50) ? " " : "\n"); std::istringstream is(s); is.exceptions(std::ios::badbit); std::string o; for(int i = 0; i < 4; ++i) { e_float x; is >> x; o += txt(x) + (is.fail() ? "f" : ""); } return o; }
    case 5: return Util::lexical_cast((std::int64_t) r.next()) + " " + Util::lexical_cast((std::uint32_t) r.next()) + " " + Util::lexical_cast(rd(r)) + " " + Util::lexical_cast(e_float(rd(r)));
    case 6: return bits(Util::numeric_cast<double>(small(r))) + fmt(" %lld %d", (long long) Util::numeric_cast<std::int64_t>(std::to_string((std::int64_t) r.next())), (int) Util::numeric_cast<std::int32_t>(std::to_string(r.range(-2000000000L, 2000000000L)))) + txt(Util::numeric_cast<e_float>(rtext(r)));
    case 7: { const std::string s = "(" + rtext(r) + "," + rtext(r) + ") (" + rtext(r) + ") " + rtext(r); std::istringstream is(s); is.exceptions(std::ios::badbit); C a, b, d; is >> a >> b >> d; return txt(a) + txt(b) + txt(d) + (is.fail() ? "f" : ""); }
    case 8: { const std::string a = "(" + small(r) + "," + small(r) + ")", b = "(" + small(r) + ")"; return gcplx<double>(a) + gcplx<double>(b) + gcplx<float>(a) + gcplx<long double>(a) + gcplx<double>(small(r)); }
    case 9: { typedef boost::multiprecision::number<boost::math::ef::e_float, boost::multiprecision::et_off> N; N x(rtext(r)), y(rd(r)); y = y + 1234567.25; const N z = x * 2 + y; std::istringstream is(rtext(r)); is.exceptions(std::ios::badbit); N w; is >> w; std::ostringstream os; os.exceptions(std::ios::badbit); os << std::setprecision((int) r.range(1, 60)) << z; return x.str(0, std::ios::scientific) + y.str(25, std::ios::scientific) + os.str() + w.str(30, std::ios::scientific) + bits(y.convert_to<double>()) + fmt("%lld", (long long) (y / 1000).convert_to<long long>()); }
    case 10: { std::int64_t e1 = 0, e2 = 0; const double m = generic_functions::frexp10<e_float>(ef::fabs(rx(r)) + 1, &e1), n = generic_functions::frexp10<double>(std::fabs(rd(r)) + 1, &e2); return bits(m) + bits(n) + fmt(" %lld %lld", (long long) e1, (long long) e2); }
    default: { std::ostringstream os; os.exceptions(std::ios::badbit); os << std::scientific << std::setprecision((int) r.range(0, 60)) << C(rx(r), e_float(rd(r))); return os.str(); }
  }
}
const char* kname(int k) { return k < NK ? KIND[k] : XKIND[k - NK]; }
}
#endif
