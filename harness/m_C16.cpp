// C16: gamma, factorial, double factorial, binomial, Pochhammer agree with the true values.
#include "fnmon.h"
#include <functions/gamma/gamma_util.h>
static e_float E(const std::string& s) { return e_float(s); }
static Q G(const Q& x) { return x.fn("gamma"); }
// n! exactly rounded from the integer gamma of MPFR
static Q fact(unsigned long long n) { return (Q::U(n) + Q::I(1)).fn("gamma"); }
static bool accept(Case& c, const e_float& got, const Q& w, double k, const char* what)
{
  const Q g = toQ(got);
  if(w.isfinite() && !w.iszero()) { const double l = w.log10abs(); if(l > MAX10 - 40.0) return c.check(!g.isnan() && (g.isinf() ? g.sgn() == w.sgn() : close(g, w, 5)), what, [&]{ return diff(g, w); });
    if(l < MIN10 + 40.0) return c.check(!g.isnan() && g.abs() <= Q::pow10(MIN10 + 50), what, [&]{ return diff(g, w); }); }
  return c.check(close(g, w, k), what, [&]{ return diff(g, w); });
}
static std::string gen_g(Case& c)
{
  Rng& r = c.rng;
  switch(r.below(10))
  {
    case 0: c.cls("tiny"); return gen_dec(r, -130, -12);
    case 1: c.cls("small"); return gen_dec(r, -20, -2);
    case 2: c.cls("order one"); return gen_dec(r, -1, 0);
    case 3: c.cls("tens"); return gen_dec(r, 1, 1);
    case 4: c.cls("hundreds"); return gen_dec(r, 2, 2);
    case 5: c.cls("large"); return gen_dec(r, 3, 6, r.chance(20));
    case 6: c.cls("half integer"); return std::to_string(r.range(-300, 600)) + ".5";
    case 7: { c.cls("near integer"); Q q = Q::I(r.range(-200, 400)) + Qs(gen_dec(r, -60, -3)); return q.sci(DIG - 1); }
    case 8: { c.cls("near shift point"); Q q = Q::I(r.range(230, 250)) + Qs(gen_dec(r, -3, -1)); if(r.chance(40)) q = -q; return q.sci(DIG - 1); }
    default: c.cls("integer"); return std::to_string(r.chance(60) ? r.range(1, 1100) : r.range(900, 200000));
  }
}
static void f_gamma(Case& c)
{
  const std::string s = gen_g(c); c.in("x", s); const e_float x = E(s); const Q q = toQ(x);
  const Q w = G(q);
  if(w.isnan() || q.iszero()) { c.hit("pole"); c.check(!ef::gamma(x).isfinite(), "gamma at a pole"); return; }
  judge(c, ef::gamma(x), [](const Q& t) { return G(t); }, q, "gamma", DIG - 2.0 - MORE);
}
FAMILYX("C16.gamma", 1500, f_gamma, 6);
// identities on the library's own results, anywhere: recurrence and reflection, also beyond the oracle's comfortable range
static void f_identity(Case& c)
{
  Rng& r = c.rng; const std::string s = gen_dec(r, -3, r.chance(20) ? 4 : 2); c.in("x", s); c.cls("identity"); const e_float x = E(s); const Q q = toQ(x);
  if(q.isint() || (q + Q::I(1)).isint()) { c.trivial(); return; }
  const Q a = toQ(ef::gamma(x)), b = toQ(ef::gamma(x + 1)); const double lose = 3 + std::max(0.0, q.log10abs()) * 1.2 + std::max(0.0, -(q - (q + Qs("0.5")).floor()).log10abs());
  c.check(within(b, q * a, q * a, DIG - lose), "gamma(x+1) == x gamma(x)", [&]{ return diff(b, q * a); });
  e_float p(3), m(4); GammaUtil::GammaOfPlusXMinusX(x, p, m); const e_float d = ef::gamma(-x);
  c.check(within(toQ(p), a, a, DIG - lose) && within(toQ(m), toQ(d), toQ(d), DIG - lose), "gamma(+x), gamma(-x) pair", [&]{ return diff(toQ(p), a) + " / " + diff(toQ(m), toQ(d)); });
}
FAMILY("C16.identity", 600, f_identity);
static void f_gamma_near_n(Case& c)
{
  Rng& r = c.rng; const long n = r.chance(80) ? r.range(-60, 60) : r.range(-2000, 2000); const std::string s = gen_dec(r, r.chance(50) ? -200 : -20, -2); c.in("n", (long long) n); c.in("x", s); c.cls(n < 0 ? "negative n" : "non-negative n");
  const e_float x = E(s); const Q q = toQ(x);
  Q w; // gamma(n + x) with n + x held exactly: precision of the oracle is enlarged through the reflection formula
  if(n >= 0) w = G(Q::I(n) + q); else { const Q pi = Q().fn("pi"); w = pi / (G(Q::I(1 - n) - q) * (pi * q).fn("sin")); if(n & 1) w = -w; }
  // for n >= 0 the library adds n + x in working precision
  const Q g = toQ(ef::gamma_near_n((std::int32_t) n, x)); const double lose = 3 + std::log10(1.0 + std::labs(n)) * 1.3;
  c.check(within(g, w, w, DIG - lose), "gamma_near_n", [&]{ return diff(g, w); });
}
FAMILY("C16.gamma_near_n", 400, f_gamma_near_n);
static void f_factorial(Case& c)
{
  Rng& r = c.rng; unsigned long long n;
  switch(r.below(8)) { case 0: n = (unsigned long long) r.range(0, 60); c.cls("small"); break; case 1: case 2: n = (unsigned long long) r.range(0, 1100); c.cls("table"); break; case 3: n = (unsigned long long) r.range(990, 1010); c.cls("table end"); break;
    case 4: n = (unsigned long long) r.range(1000, 100000); c.cls("series"); break; case 5: n = (unsigned long long) r.range(100000, 50000000); c.cls("large"); break; case 6: n = 1ULL << r.range(10, 31); n += (unsigned long long) r.range(-1, 1); c.cls("power of two"); break; default: n = 0xFFFFFFFFULL - r.below(3); c.cls("type limit"); }
  c.in("n", (long long) n); const e_float f = ef::factorial((std::uint32_t) n); const Q w = fact(n);
  accept(c, f, w, DIG - 2.5 - 1.15 * std::log10(1.0 + (double) n) * (n > 900), "factorial");
  if(n < 60 && w.log10abs() < DIG - 2.0) { c.check(toQ(f) == w, "small factorial exact", [&]{ return diff(toQ(f), w); }); }
}
FAMILY("C16.factorial", 1200, f_factorial);
static Q oddfact(long long n) // n!! for n >= -1
{
  if(n <= 0) return Q::I(1);
  if(n % 2 == 0) return Q::pow2(n / 2) * fact((unsigned long long) n / 2);
  return Q::pow2((n + 1) / 2) * (Q::I(n) / Q::I(2) + Q::I(1)).fn("gamma") / Q().fn("pi").fn("sqrt");
}
static void f_factorial2(Case& c)
{
  Rng& r = c.rng; long long n;
  switch(r.below(8)) { case 0: n = r.range(-30, 60); c.cls("small"); break; case 1: case 2: n = r.range(-1100, 1100); c.cls("table"); break; case 3: n = r.range(990, 1010); c.cls("table end"); break; case 4: n = r.range(-100000, 100000); c.cls("series"); break;
    case 5: n = r.range(100000, 90000000); c.cls("large"); break; case 6: n = 1LL << r.range(10, 30); n += r.range(-1, 1); if(r.chance(50)) n = -n; c.cls("power of two"); break; default: n = r.chance(50) ? INT32_MAX - (long long) r.below(3) : INT32_MIN + (long long) r.below(3); c.cls("type limit"); }
  c.in("n", n); const e_float f = ef::factorial2((std::int32_t) n); const double k = DIG - 2.5 - 1.3 * std::log10(1.0 + std::fabs((double) n)) * (std::llabs(n) > 900);
  if(n < -1 && n % 2 == 0) { c.check(f.isnan(), "double factorial of a negative even integer is NaN"); return; }
  Q w; if(n >= -1) w = oddfact(n); else { w = Q::I(1) / oddfact(-n - 2); if((((-n) - 1) / 2) & 1) w = -w; }
  accept(c, f, w, k, "double factorial");
}
FAMILY("C16.factorial2", 1200, f_factorial2);
static Q binom_exact(const Q& x, unsigned long k) { Q p = Q::I(1); for(unsigned long i = 1; i <= k; ++i) p = p * (x - Q::U(k) + Q::U(i)) / Q::U(i); return p; }
static void f_binomial(Case& c)
{
  Rng& r = c.rng; unsigned long n, k;
  switch(r.below(6)) { case 0: case 1: n = (unsigned long) r.range(0, 400); k = (unsigned long) r.range(0, (long long) n); c.cls("table"); break; case 2: n = (unsigned long) r.range(90, 110); k = (unsigned long) r.range(0, (long long) n); c.cls("table end"); break;
    case 3: n = (unsigned long) r.range(100, 20000); k = (unsigned long) r.range(0, (long long) n); c.cls("large"); break; case 4: n = (unsigned long) r.range(1000, 0xFFFFFFFFLL); k = (unsigned long) r.range(0, 40); if(r.chance(50)) k = n - k; c.cls("few of many"); break; default: n = (unsigned long) r.range(0, 2000); k = n; if(r.chance(50)) k = 0; c.cls("edge"); }
  c.in("n", (long long) n); c.in("k", (long long) k); const unsigned long kk = std::min(k, n - k);
  const e_float b = ef::binomial((std::uint32_t) n, (std::uint32_t) k), b2 = ef::binomial((std::uint32_t) n, (std::uint32_t) (n - k));
  const Q w = kk <= 3000 ? binom_exact(Q::U(n), kk) : fact(n) / (fact(k) * fact(n - k));
  const double d = DIG - 3.5 - 1.2 * std::log10(1.0 + (double) n) * (n > 900); accept(c, b, w, d, "binomial"); accept(c, b2, w, d, "binomial symmetric");
}
FAMILY("C16.binomial", 1500, f_binomial);
static bool pole(const Q& q) { return q.isint() && q.sgn() <= 0; }
static void f_binomial_real(Case& c)
{
  Rng& r = c.rng; const int kind = (int) r.below(3); const double lose = 6;
  if(kind == 0)
  { // binomial(n, y)
    const unsigned n = (unsigned) r.range(0, r.chance(80) ? 60 : 900); const e_float y = E(r.chance(30) ? std::to_string(r.range(0, n)) : gen_dec(r, -8, 1)); c.in("n", (long long) n); c.in("y", shortstr(y)); c.cls("n, real");
    const Q q = toQ(y), a = q + Q::I(1), b = Q::U(n) - q + Q::I(1); if(pole(a) || pole(b)) { c.trivial(); return; }
    const Q w = fact(n) / (G(a) * G(b)); const Q h = Q::pow10(-(DIG + 20)), w2 = fact(n) / (G(a + h) * G(b - h)); const Q sc = w.abs() + (w2 - w).abs() / h * (q.abs() + Q::I(1));
    const Q g = toQ(ef::binomial(n, y)); c.check(within(g, w, sc, DIG - lose), "binomial(n, y)", [&]{ return diff(g, w); });
  }
  else if(kind == 1)
  { // binomial(x, k)
    const unsigned k = (unsigned) r.range(0, r.chance(80) ? 49 : 300); const e_float x = E(r.chance(20) ? gen_dec(r, 8, 30, false) : r.chance(30) ? std::to_string(r.range((long long) k, k + 300)) : gen_dec(r, -8, 2)); c.in("x", shortstr(x)); c.in("k", (long long) k);
    const Q q = toQ(x); c.cls(q.log10abs() > 7.9 ? "huge, k" : "real, k"); if(pole(q + Q::I(1)) || pole(q - Q::U(k) + Q::I(1)) || (k >= 50 && q.log10abs() > 7)) { c.trivial(); return; }
    const Q w = binom_exact(q, k); const Q h = Q::pow10(-(DIG + 20)), w2 = binom_exact(q + h, k); const Q sc = w.abs() + (w2 - w).abs() / h * (q.abs() + Q::I(1));
    const Q g = toQ(ef::binomial(x, k)); c.check(within(g, w, sc, DIG - lose - std::max(0.0, q.log10abs()) * (q.log10abs() < 7.9)), "binomial(x, k)", [&]{ return diff(g, w) + fmt(" scale 1e%.1f", sc.log10abs()); });
  }
  else
  {
    const e_float x = E(gen_dec(r, -6, 1)), y = E(gen_dec(r, -6, 1)); c.in("x", shortstr(x)); c.in("y", shortstr(y)); c.cls("real, real");
    const Q p = toQ(x), q = toQ(y), a = p + Q::I(1), b = q + Q::I(1), d = toQ(x - y) + Q::I(1); if(pole(a) || pole(b) || pole(d)) { c.trivial(); return; }
    const Q w = G(a) / (G(b) * G(d)); const Q h = Q::pow10(-(DIG + 20)); Q sc = w.abs(); sc = sc + (G(a + h) / (G(b) * G(d)) - w).abs() / h * (p.abs() + Q::I(1)); sc = sc + (G(a) / (G(b + h) * G(d)) - w).abs() / h * (q.abs() + Q::I(1)); sc = sc + (G(a) / (G(b) * G(d + h)) - w).abs() / h * (p.abs() + q.abs() + Q::I(1));
    const Q g = toQ(ef::binomial(x, y)); c.check(within(g, w, sc, DIG - lose), "binomial(x, y)", [&]{ return diff(g, w); });
  }
}
FAMILYX("C16.binomial_real", 600, f_binomial_real, 6);
static void f_pochhammer(Case& c)
{
  Rng& r = c.rng;
  if(r.chance(70))
  {
    const unsigned n = (unsigned) (r.chance(50) ? r.range(0, 49) : r.chance(80) ? r.range(45, 120) : r.range(50, 1500)); std::string s;
    switch(r.below(4)) { case 0: s = std::to_string(r.range(-200, 200)); c.cls("integer x"); break; case 1: s = gen_dec(r, -30, 0); c.cls("small x"); break; case 2: s = gen_dec(r, 0, 3); c.cls("moderate x"); break; default: s = std::to_string(r.range(-200, 200)) + ".5"; c.cls("half integer x"); }
    c.in("x", s); c.in("n", (long long) n); const e_float x = E(s); const Q q = toQ(x); Q w = Q::I(1), dw; // w and d/dx w by the product rule
    for(unsigned i = 0; i < n; ++i) { const Q t = q + Q::U(i); dw = dw * t + w; w = w * t; }
    const Q sc = w.abs() + dw.abs() * (q.abs() + Q::I(1)); const Q g = toQ(ef::pochhammer(x, n));
    c.check((w.iszero() && g.iszero()) || within(g, w, sc, DIG - 3.5 - 1.3 * std::log10(1.0 + n + q.abs().to_double())), "pochhammer(x, n)", [&]{ return diff(g, w) + fmt(" scale 1e%.1f", sc.log10abs()); });
  }
  else
  {
    const e_float x = E(gen_dec(r, -6, 2)), a = E(gen_dec(r, -6, 2)); c.in("x", shortstr(x)); c.in("a", shortstr(a)); c.cls("real, real"); const Q p = toQ(x), s = toQ(x + a); if(pole(p) || pole(s)) { c.trivial(); return; }
    const Q w = G(s) / G(p); const Q h = Q::pow10(-(DIG + 20)); Q sc = w.abs(); sc = sc + (G(s + h) / G(p) - w).abs() / h * (s.abs() + Q::I(1)) * Q::I(2); sc = sc + (G(s) / G(p + h) - w).abs() / h * (p.abs() + Q::I(1));
    const Q g = toQ(ef::pochhammer(x, a)); c.check(within(g, w, sc, DIG - 5.0), "pochhammer(x, a)", [&]{ return diff(g, w); });
  }
}
FAMILYX("C16.pochhammer", 900, f_pochhammer, 6);
static void f_special(Case& c)
{
  c.cls("special"); const int k = (int) (c.idx % 10); c.in("k", (long long) k); const e_float inf = std::numeric_limits<e_float>::infinity(), nan = std::numeric_limits<e_float>::quiet_NaN();
  switch(k)
  {
    case 0: c.check(ef::gamma(nan).isnan(), "gamma(nan)"); break;
    case 1: c.check(ef::gamma(inf).isinf() && !ef::gamma(inf).isneg(), "gamma(inf)"); break;
    case 2: c.check(ef::gamma(-inf).isnan(), "gamma(-inf)"); break;
    case 3: { const long n = -(long) c.rng.range(1, 1000000); c.in("n", (long long) n); c.check(!ef::gamma(e_float(n)).isfinite(), "gamma at a negative integer"); break; }
    case 4: { const e_float x(gen_dec(c.rng, 10, 40, false)); c.in("x", shortstr(x)); const e_float g = ef::gamma(x); c.check(g.isinf() && !g.isneg(), "gamma of a huge argument overflows"); break; }
    case 5: { const std::string s = std::to_string(-c.rng.range(1500000000LL, 4000000000LL)) + ".5"; c.in("x", s); const e_float g = ef::gamma(E(s)); c.check(g.iszero() || ef::fabs(g) < e_float("1e-300000000"), "gamma of a huge negative argument underflows"); break; }
    case 6: { const long e = c.rng.range(150, 300000000); const e_float x("3.5e-" + std::to_string(e)); c.in("e", (long long) e); const Q w = Q::I(1) / toQ(x); c.check(close(toQ(ef::gamma(x)), w, DIG - 2.0) && close(toQ(ef::gamma(-x)), -w, DIG - 2.0), "gamma(x) ~ 1/x for tiny x", [&]{ return diff(toQ(ef::gamma(x)), w); }); break; }
    case 7: c.check(ef::factorial(0).isone() && ef::factorial(1).isone() && ef::factorial2(0).isone() && ef::factorial2(1).isone() && ef::factorial2(-1).isone(), "small factorials"); break;
    case 8: c.check(ef::binomial(0U, 0U).isone() && ef::binomial(5U, 2U) == 10 && ef::pochhammer(e_float(3), 0U).isone(), "small binomials"); break;
    default: c.check(ef::gamma(e_float(1)).isone() && ef::gamma(e_float(5)) == 24 && close(toQ(ef::gamma(e_float("0.5"))), Q().fn("pi").fn("sqrt"), DIG - 1.0), "gamma(1), gamma(5), gamma(1/2)"); break;
  }
}
FAMILY("C16.special", 200, f_special);
