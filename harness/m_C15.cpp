// C15: constants and numeric_limits.
#include <complex>
#include <cstring>
#include "efmon.h"
#include "refdigits.h"
struct K { const char* name; const e_float& (*f)(); Q (*q)(); };
#define KI(n, e) { #n, &ef::n, [] { return e; } }
static Q qpi() { return Q().fn("pi"); }
static const K ks[] = {
  { "zero", &ef::zero, [] { return Q::I(0); } }, { "one", &ef::one, [] { return Q::I(1); } }, { "half", &ef::half, [] { return Qs("0.5"); } },
  KI(two, Q::I(2)), KI(three, Q::I(3)), KI(four, Q::I(4)), KI(five, Q::I(5)), KI(six, Q::I(6)), KI(seven, Q::I(7)), KI(eight, Q::I(8)), KI(nine, Q::I(9)), KI(ten, Q::I(10)),
  KI(fifty, Q::I(50)), KI(hundred, Q::I(100)), KI(thousand, Q::I(1000)), KI(million, Q::I(1000000)), KI(billion, Q::I(1000000000)), KI(trillion, Q::I(1000000000000LL)), KI(googol, Q::pow10(100)),
  KI(int32_min, Q::I(INT32_MIN)), KI(int32_max, Q::I(INT32_MAX)), KI(int64_min, Q::I(INT64_MIN)), KI(int64_max, Q::I(INT64_MAX)),
  KI(unsigned_long_long_max, Q::U(~0ULL)), KI(signed_long_long_max, Q::I(INT64_MAX)), KI(signed_long_long_min, Q::I(INT64_MIN)),
  KI(double_min, Q::D((std::numeric_limits<double>::min)())), KI(double_max, Q::D((std::numeric_limits<double>::max)())),
  KI(long_double_min, Q::L((std::numeric_limits<long double>::min)())), KI(long_double_max, Q::L((std::numeric_limits<long double>::max)())),
  KI(one_minus, Q::I(-1)), KI(tenth, Q::I(1) / Q::I(10)), KI(eighth, Q::I(1) / Q::I(8)), KI(fifth, Q::I(1) / Q::I(5)), KI(quarter, Q::I(1) / Q::I(4)), KI(third, Q::I(1) / Q::I(3)), KI(two_third, Q::I(2) / Q::I(3)), KI(three_half, Q::I(3) / Q::I(2)),
  KI(sqrt2, Q::I(2).fn("sqrt")), KI(pi, qpi()), KI(pi_half, qpi() / Q::I(2)), KI(pi_squared, qpi() * qpi()), KI(two_pi, Q::I(2) * qpi()), KI(sqrt_pi, qpi().fn("sqrt")),
  KI(e, Q::I(1).fn("exp")), KI(ln2, Q().fn("ln2")), KI(ln10, Q::I(10).fn("log")), KI(phi, (Q::I(1) + Q::I(5).fn("sqrt")) / Q::I(2)),
  KI(euler_gamma, Q().fn("euler")), KI(catalan, Q().fn("catalan")), KI(khinchin, Qs(KHINCHIN_DIGITS)), KI(glaisher, Qs(GLAISHER_DIGITS)),
};
static const int NK = (int) (sizeof ks / sizeof ks[0]);
static bool is_exact(int i) { return i < 26 || i == 30; }
static void constant(Case& c)
{
  oracle_setup(); const K& k = ks[c.idx % NK]; c.in("constant", k.name); c.cls(k.name);
  const e_float& v = k.f(); const Q w = k.q(), g = toQ(v);
  const int lim = (int) std::min(DIG, 1100);   // stored digits
  if(is_exact((int) (c.idx % NK))) c.check(g == w, "exact constant", [&]{ return diff(g, w); });
  else c.check(close(g, w, lim - 0.5), "constant to full precision", [&]{ return diff(g, w); });
  c.check(&k.f() == &v, "same object on every call");
  // guard digits: the constant behaves as the real number in one further operation
  if(!w.iszero() && w.isfinite()) { const e_float r = v * v; c.check(close(toQ(r), w * w, lim - 1.0), "constant squared", [&]{ return diff(toQ(r), w * w); }); }
}
FAMILYX("C15.constant", NK * 1, constant, 1);

// Constants keep their values whatever the program did before: read all, work, read all again.
static void stable(Case& c)
{
  oracle_setup(); std::vector<std::string> before; for(const K& k : ks) before.push_back(str(k.f()));
  std::string prog;
  for(int i = 0; i < 12; ++i)
  {
    const int a = (int) c.rng.below(NK), b = (int) c.rng.below(NK); const int op = (int) c.rng.below(11); prog += fmt("%d(%s,%s) ", op, ks[a].name, ks[b].name);
    e_float x(ks[a].f()); const e_float& y = ks[b].f();
    switch(op)
    {
      case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: x /= y; break; case 4: x = ef::sqrt(ef::fabs(y)); break; case 5: x = -y; break;
      case 6: x = ef::exp(y / 1000000); break; case 7: x = ef::sin(y); break; case 8: { e_float t(y); t = std::move(x); ++t; break; } case 9: x = ef::floor(y); x = ef::fmod(y, x + 1); break;
      default: { std::stringstream ss; ss << std::setprecision(20) << y; ss >> x; break; }
    }
    const e_float neg = -ks[a].f(); c.check(ks[a].f().iszero() || neg != ks[a].f() || ks[a].f().isnan(), "negation differs");
  }
  c.in("program", prog); c.cls("program");
  for(int i = 0; i < NK; ++i) { const std::string now = str(ks[i].f()); c.check(now == before[(std::size_t) i], "constant changed", [&]{ return std::string(ks[i].name) + " was " + before[(std::size_t) i] + " is " + now; }); }
}
FAMILY("C15.stable", 300, stable);

typedef std::numeric_limits<e_float> L;
static void limits(Case& c)
{
  oracle_setup(); const int part = (int) (c.idx % 8); c.in("part", (long long) part); c.in("draw", (long long) (c.idx / 8)); c.cls(fmt("part %d", part));
  switch(part)
  {
    case 0:
      c.check(L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::is_bounded && !L::is_modulo, "type traits");
      c.check(L::has_infinity && L::has_quiet_NaN && L::infinity().isinf() && !L::infinity().isneg() && L::quiet_NaN().isnan(), "infinity and NaN");
      c.check(L::max_digits10 > L::digits10 && L::digits10 >= 30, "digits");
      c.check(L::radix == (IS_EFX ? 10 : 2) && std::fabs(L::digits * std::log10((double) L::radix) - L::digits10) <= 1.0 + 0.001 * L::digits10, "radix^digits matches digits10");
      c.check(L::has_denorm == std::denorm_absent && L::denorm_min() == (L::min)(), "denorm_min is min without denormals");
      c.check(L::lowest() == -(L::max)(), "lowest == -max"); c.check(L::round_error() == e_float(0.5), "round_error");
      break;
    case 1: // exponents agree: 10^max_exponent10 does not exceed radix^max_exponent
      c.check(L::max_exponent10 <= L::max_exponent * std::log10((double) L::radix) + 1 && L::min_exponent10 >= L::min_exponent * std::log10((double) L::radix) - 1, "exponent10 within exponent");
      c.check(L::max_exponent10 > 1000000 && L::min_exponent10 < -1000000, "range");
      break;
    case 2: { // max and min are finite, ordered, and have the advertised exponent
      const Q mx = toQ((L::max)()), mn = toQ((L::min)());
      c.check((L::max)().isfinite() && mx.exp10() >= L::max_exponent10 - 1 && mx.exp10() <= L::max_exponent10 + 1, "max exponent", [&]{ return qs(mx); });
      c.check((L::min)().isfinite() && !(L::min)().iszero() && mn.sgn() > 0 && std::labs(mn.exp10() - L::min_exponent10) <= 1, "min exponent", [&]{ return qs(mn); });
      c.check((L::max)() < L::infinity() && L::lowest() > -L::infinity() && (L::min)() > 0, "ordering of the limits");
      break; }
    case 3: { // epsilon: visible next to one, and no coarser than ten units of digits10
      const e_float one(1); const e_float& eps = L::epsilon();
      c.check(one + eps != one && one - eps != one && one + eps > one && close(toQ((one + eps) - one), toQ(eps), 1.9), "1 + eps differs from 1 by eps");
      const Q q = toQ(eps); c.check(close(q, Q::pow10(1 - DIG), DIG - 2.0), "epsilon is 10^(1-digits10)", [&]{ return qs(q); });
      break; }
    case 4: { // numbers of digits10 digits are distinct (drawn)
      const std::string d = gen_digits(c.rng, DIG); const long e = gen_order(c.rng); const int p = (int) c.rng.range(0, DIG - 1);
      std::string d2 = d; char& ch = d2[(std::size_t) p]; ch = ch == '9' ? '8' : (char) (ch + 1);
      const e_float a(d + "e" + std::to_string(e - DIG)), b(d2 + "e" + std::to_string(e - DIG)); c.in("a", d); c.in("b", d2); c.in("e", (long long) e);
      c.check(a != b && (a < b) == (d < d2), "two numbers of digits10 digits differ"); break; }
    case 5: { // every finite value lies within [lowest, max]; positive ones are at least min
      const e_float x(gen_any(c.rng)); c.in("x", shortstr(x));
      c.check(!(x > (L::max)()) && !(x < L::lowest()), "within the limits"); if(x > 0) c.check(x >= (L::min)(), "at least min"); break; }
    case 6: { // one + k*eps is exact for small k
      const int k = (int) c.rng.range(1, 1000); const e_float x = e_float(1) + L::epsilon() * k; c.in("k", (long long) k);
      const Q g = toQ(x - 1), w = Q::I(k) * Q::pow10(1 - DIG); c.check(close(g, w, 1.9), "k eps survives next to one", [&]{ return diff(g, w); }); break; }
    default: { // the classification of the library's own extreme values
      c.check((L::max)().isfinite() && !(L::max)().isinf() && !(L::max)().isnan() && !(L::min)().iszero() && !(L::min)().isone() && (L::min)().ispos() && L::lowest().isneg(), "predicates of limits");
      const e_float a = (L::max)() / 2, b = (L::min)() * 2; c.check(a.isfinite() && a < (L::max)() && b > (L::min)(), "arithmetic at the limits"); break; }
  }
}
FAMILY("C15.limits", 800, limits);
