// C06: conversion from and to the built-in types.
#include "efmon.h"
namespace {
template<class F> F gen_f(Rng& r)
{
  const int D = std::numeric_limits<F>::digits; auto mant = [&]{ switch(r.below(4)) { case 0: return (F) (((r.next() >> (64 - D)) | (1ULL << (D - 1)))); case 1: return (F) (1ULL << (D - 1)); case 2: return (F) ((~0ULL) >> (64 - D)); default: return (F) ((r.next() | (1ULL << 63)) >> (64 - D)); } };
  int e; switch(r.below(5)) { case 0: e = (int) r.range(std::numeric_limits<F>::min_exponent - 1, std::numeric_limits<F>::max_exponent - 1); break; case 1: e = (int) r.range(-70, 70); break; case 2: e = (int) r.range(std::numeric_limits<F>::max_exponent - 5, std::numeric_limits<F>::max_exponent - 1); break; case 3: e = (int) r.range(std::numeric_limits<F>::min_exponent - 1, std::numeric_limits<F>::min_exponent + 5); break; default: e = (int) r.range(0, D + 3); }
  return std::ldexp(mant(), e - (D - 1)) * (r.chance(50) ? (F) 1 : (F) -1);
}
template<class F> Q q_of(F f) { return Q::L((long double) f); }
template<class F> void fromto(Case& c, F f)
{
  if(std::fabs(f) < std::numeric_limits<F>::min() || !std::isfinite(f)) { c.trivial(); return; }
  c.in("f", fmt("%.30Lg", (long double) f)); const Q q = q_of(f); const e_float x(f);
  c.check(within(toQ(x), q, q.abs(), DIG + 0.0), "value", [&]{ return diff(toQ(x), q); });
  const double d = x.extract_double(); const long double l = x.extract_long_double();
  c.check(l == (long double) f, "to long double and back", [&]{ return fmt("%.30Lg got %.30Lg", (long double) f, l); });
  if(sizeof(F) < sizeof(long double)) c.check(d == (double) f && ef::to_double(x) == d, "to double and back", [&]{ return fmt("%.30Lg got %.20g", (long double) f, d); });
  e_float y; y = f; c.check(y == x, "assignment");
  // integers and dyadic rationals of a few digits convert exactly
  if(q.isint() && q.log10abs() < DIG - 1.0) { c.check(x == e_float(q.fix(0)), "integral value is exact", [&]{ return str(x); }); c.hit("integral"); }
}
void from_double(Case& c) { fromto<double>(c, gen_f<double>(c.rng)); }
void from_float(Case& c) { fromto<float>(c, gen_f<float>(c.rng)); }
void from_ldouble(Case& c) { fromto<long double>(c, gen_f<long double>(c.rng)); }
// arbitrary e_float to floating: nearest up to one unit in the last place; out of range saturates to infinity/zero
void to_floating(Case& c)
{
  Rng& r = c.rng; std::string a; switch(r.below(5)) { case 0: a = gen_dec(r, -306, 307); break; case 1: a = gen_dec(r, -40, 40); break; case 2: a = gen_any(r); break; case 3: { const double d = std::fabs(gen_f<double>(r)); Q m = (Q::D(d) + Q::D(std::nextafter(d, 0.0))) / Q::I(2); a = m.sci(DIG - 2); break; } default: a = gen_dec(r, -4900, 4900); }
  c.in("a", a); const e_float x(a); const Q q = Qs(a); const double lg = q.log10abs();
  const double d = x.extract_double(), wd = q.to_double(); const long double l = x.extract_long_double(), wl = q.to_long_double();
  if(lg < 308.25 && lg > -307.6) { c.check(std::fabs(d - wd) <= std::fabs(std::nextafter(wd, INFINITY) - wd) && (d < 0) == (wd < 0), "to double", [&]{ return fmt("got %.20g want %.20g", d, wd); }); c.hit("double"); }
  else if(lg > 308.26) c.check(std::isinf(d) && (d < 0) == (q.sgn() < 0), "double overflow", fmt("%g", d));
  else if(lg < -307.7) c.check(std::fabs(d) <= std::numeric_limits<double>::min(), "double underflow", fmt("%g", d));
  if(lg < 4932.0 && lg > -4931.0) { c.check(std::fabs(l - wl) <= std::fabs(std::nextafter(wl, (long double) INFINITY) - wl) && (l < 0) == (wl < 0), "to long double", [&]{ return fmt("got %.30Lg want %.30Lg", l, wl); }); c.hit("long double"); }
  else if(lg > 4932.1) c.check(std::isinf(l) && (l < 0) == (q.sgn() < 0), "long double overflow", fmt("%Lg", l));
  else if(lg < -4931.6) c.check(std::fabs(l) <= std::numeric_limits<long double>::min(), "long double underflow", fmt("%Lg", l));
}
void integers(Case& c)
{
  Rng& r = c.rng; long long n; unsigned long long u;
  static const unsigned long long ed[] = { 0, 1, 99999999ULL, 100000000ULL, 9999999999999999ULL, 10000000000000000ULL, 4294967295ULL, 4294967296ULL, 9223372036854775807ULL, 9223372036854775808ULL, 18446744073709551615ULL, 1000000000000000000ULL, 10000000000000000000ULL };
  u = r.chance(30) ? r.pick(ed) + (unsigned long long) r.range(-1, 1) : (r.next() >> r.below(64)); n = (long long) (r.chance(50) ? u : 0ULL - u);
  c.in("n", fmt("%lld", n)); c.in("u", fmt("%llu", u));
  const e_float x(n), y(u);
  c.check(toQ(x) == Q::I(n), "signed value", [&]{ return str(x); }); c.check(toQ(y) == Q::U(u), "unsigned value", [&]{ return str(y); });
  c.check(x.extract_signed_long_long() == n, "signed back", [&]{ return fmt("%lld", x.extract_signed_long_long()); }); c.check(y.extract_unsigned_long_long() == u, "unsigned back", [&]{ return fmt("%llu", y.extract_unsigned_long_long()); });
  c.check(ef::to_int64(x) == n, "to_int64"); { const int w = n > 2147483647LL ? 2147483647 : n < -2147483648LL ? (int) -2147483648LL : (int) n; c.check(ef::to_int32(x) == w, "to_int32", [&]{ return fmt("%d want %d", (int) ef::to_int32(x), w); }); }
  const int i = (int) n; const unsigned k = (unsigned) u; const short s = (short) n; const unsigned char b = (unsigned char) u; const long g = (long) n;
  c.check(e_float(i) == e_float((long long) i) && e_float(k) == e_float((unsigned long long) k) && e_float(s) == e_float((long long) s) && e_float(b) == e_float((unsigned long long) b) && e_float(g) == x, "narrower types");
  c.check(x == e_float(std::to_string(n)) && y == e_float(std::to_string(u)), "same as the decimal string");
}
// real to integer: truncation toward zero, saturation outside the range
void to_integer(Case& c)
{
  Rng& r = c.rng; std::string a; 
  switch(r.below(5)) { case 0: a = gen_dec(r, -3, 22); break; case 1: { a = std::to_string((long long) r.next()) + "." + std::string((std::size_t) r.range(0, DIG > 50 ? DIG - 40 : 5), r.chance(50) ? '9' : '0') + "5"; break; } case 2: a = (r.chance(50) ? "-" : "") + std::to_string(9223372036854775807ULL + (unsigned long long) r.range(-2, 3)) + (r.chance(60) ? "." + gen_digits(r, (int) r.range(1, DIG > 80 ? 50 : DIG - 22)) : ""); break; case 3: a = std::to_string(18446744073709551615ULL - r.below(3)) + (r.chance(60) ? ".5" : ""); break; default: a = gen_any(r); }
  c.in("a", a); const e_float x(a); const Q t = Qs(a).trunc();
  long long n; unsigned long long u;
  const long long wn = t.to_sll(n) ? n : t.sgn() > 0 ? std::numeric_limits<long long>::max() : std::numeric_limits<long long>::min();
  c.check(x.extract_signed_long_long() == wn, "signed", [&]{ return fmt("got %lld want %lld", x.extract_signed_long_long(), wn); }); c.check(ef::to_int64(x) == wn, "to_int64");
  const int w32 = wn > 2147483647LL ? 2147483647 : wn < -2147483648LL ? (int) -2147483648LL : (int) wn; c.check(ef::to_int32(x) == w32, "to_int32");
  if(t.sgn() >= 0) { const unsigned long long wu = t.to_ull(u) ? u : 18446744073709551615ULL; c.check(x.extract_unsigned_long_long() == wu, "unsigned", [&]{ return fmt("got %llu want %llu", x.extract_unsigned_long_long(), wu); }); }
  else c.check(x.extract_unsigned_long_long() == (unsigned long long) wn, "unsigned of negative");
  if(t.log10abs() > 20) c.hit("saturated");
}
// the (mantissa, exponent10) constructor and its inverse
void parts(Case& c)
{
  Rng& r = c.rng; double m = std::ldexp((double) (r.next() >> 11), -53 + (int) r.range(-3, 3)) * (r.chance(50) ? 1 : -1); if(r.chance(20)) m = (double) r.range(1, 1000) / 8.0; const long e = gen_order(r);
  c.in("m", fmt("%.17g", m)); c.in("e", e); if(m == 0) { c.trivial(); return; } const e_float x(m, (std::int64_t) e); const Q w = Q::D(m) * Q::pow10(e);
  c.check(close(toQ(x), w, 14.0), "value", [&]{ return diff(toQ(x), w); });
  double d; std::int64_t p; ef::to_parts(x, d, p); const Q back = Q::D(d) * Q::pow10((long) p);
  const double lose = IS_EFX ? 0.0 : std::max(0.0, w.log10abs() == 0 ? 0.0 : std::log10(std::fabs(w.log10abs()) + 1));   // the binary engines go through log10(2) in double precision
  c.check(close(back, w, 14.0 - lose), "to_parts product", [&]{ return fmt("%.17g e%lld ", d, (long long) p) + diff(back, w); });
}
void constants(Case& c)
{
  c.check(std::isnan(e_float(ef::value_nan()).extract_double()) && std::isinf(ef::value_inf().extract_double()) && (-ef::value_inf()).extract_double() < 0 && std::isnan(ef::value_nan().extract_long_double()) && std::isinf(ef::value_inf().extract_long_double()), "specials to floating");
  c.check(e_float(NAN).isnan() && e_float(INFINITY).isinf() && e_float(-INFINITY).isneg() && e_float((float) INFINITY).isinf() && e_float((long double) NAN).isnan() && e_float(0.0).iszero() && e_float(-0.0).iszero(), "specials from floating");
  c.check(ef::value_inf().extract_signed_long_long() == std::numeric_limits<long long>::max() && (-ef::value_inf()).extract_signed_long_long() == std::numeric_limits<long long>::min() && ef::value_inf().extract_unsigned_long_long() == 18446744073709551615ULL, "infinity to integer saturates");
  c.check(ef::zero().extract_double() == 0 && ef::zero().extract_signed_long_long() == 0 && ef::zero().extract_unsigned_long_long() == 0, "zero");
}
}
FAMILY("C06.from_double", 8000, from_double);
FAMILY("C06.from_float", 3000, from_float);
FAMILY("C06.from_long_double", 6000, from_ldouble);
FAMILY("C06.to_floating", 8000, to_floating);
FAMILY("C06.integers", 8000, integers);
FAMILY("C06.to_integer", 8000, to_integer);
FAMILY("C06.parts", 3000, parts);
FAMILY("C06.special", 8, constants);
