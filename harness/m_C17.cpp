// C17: Riemann zeta and Bernoulli numbers agree with the true values.
#include "fnmon.h"
static e_float E(const std::string& s) { return e_float(s); }
static Q Z(const Q& x) { return x.fn("zeta"); }
static void f_zeta(Case& c)
{
  Rng& r = c.rng; std::string s;
  switch(r.below(10))
  {
    case 0: c.cls("near one"); s = (Q::I(1) + Qs(gen_dec(r, -60, -2))).sci(DIG - 1); break;
    case 1: c.cls("near zero"); s = gen_dec(r, -150, -2); break;
    case 2: c.cls("critical strip"); s = gen_dec(r, -2, -1, false); break;
    case 3: c.cls("negative"); s = "-" + gen_dec(r, 0, 1, false); break;
    case 4: c.cls("far negative"); s = "-" + gen_dec(r, 2, r.chance(50) ? 2 : 4, false); break;
    case 5: c.cls("product switch"); s = std::to_string(r.range(30, 40)) + "." + gen_digits(r, 20); break;
    case 6: c.cls("near one in value"); s = gen_dec(r, 1, 2, false); break;
    case 7: c.cls("huge"); s = gen_dec(r, 3, r.chance(50) ? 12 : 40, false); break;
    case 8: c.cls("near negative even integer"); s = (Q::I(-2 * r.range(1, 40)) + Qs(gen_dec(r, -40, -3))).sci(DIG - 1); break;
    default: c.cls("moderate"); s = gen_dec(r, 0, 1, false); break;
  }
  c.in("s", s); const e_float x = E(s); const Q q = toQ(x); if(q == Q::I(1)) { c.trivial(); return; }
  if(q.isint() && q < Q::I(-2000000000)) { c.trivial(); return; }
  judge(c, ef::riemann_zeta(x), [](const Q& t) { return Z(t); }, q, "riemann_zeta", DIG - 3.0);
}
FAMILYX("C17.zeta", 260, f_zeta, 12);
static Q bern(unsigned long n) // from zeta(2m), n even
{
  if(n == 0) return Q::I(1);
  const Q w = Q::I(2) * (Q::U(n) + Q::I(1)).fn("gamma") * Z(Q::U(n)) / (Q::I(2) * Q().fn("pi")).fn("pown", (long) n); return (n / 2) & 1 ? w : -w;
}
static bool accept(Case& c, const e_float& got, const Q& w, double k, const char* what)
{
  const Q g = toQ(got);
  if(w.iszero()) return c.check(g.iszero(), what, [&]{ return diff(g, w); });
  const double l = w.log10abs();
  if(!(l < MAX10 - 40.0)) return c.check(!g.isnan() && (g.isinf() ? g.sgn() == w.sgn() : close(g, w, 5)), what, [&]{ return diff(g, w); });
  return c.check(close(g, w, k), what, [&]{ return diff(g, w); });
}
static void f_zeta_int(Case& c)
{
  Rng& r = c.rng; long n; switch(r.below(6)) { case 0: n = r.range(-20, 20); break; case 1: n = r.range(-500, 500); break; case 2: n = r.range(-2100, -1900); break; case 3: n = r.range(-20000, 5000); break; case 4: n = r.range(-40000000, 0); break; default: n = r.chance(50) ? INT32_MAX - (long) r.below(3) : INT32_MIN + (long) r.below(3); }
  c.in("n", (long long) n); c.cls(n < -2000 ? "far negative" : n < 0 ? "negative" : "positive"); if(n < -2000000000 || n > 2000000000) c.cls("type limit");
  const e_float z = ef::riemann_zeta((std::int32_t) n);
  if(n == 1) { c.check(!z.isfinite(), "zeta(1)"); return; }
  Q w; if(n >= 0) w = Z(Q::I(n)); else if(n % 2 == 0) w = Q::I(0); else if(n < -2000000000) { const long m = 1 - n; w = (m / 2) & 1 ? Q::inf(true) : Q::inf(); } else w = -bern((unsigned long) (1 - n)) / Q::I(1 - n);
  const double lose = 2.5 + (n < -1990 ? 1.3 * std::log10(1.0 - (double) n) : 0.0); accept(c, z, w, DIG - lose, "riemann_zeta(n)");
  if(n > -3000 && n < 100000) { const e_float y = ef::riemann_zeta(e_float((std::int32_t) n)); accept(c, y, w, DIG - lose, "riemann_zeta(e_float(n))"); }
}
FAMILYX("C17.zeta_int", 240, f_zeta_int, 12);
static void f_bernoulli(Case& c)
{
  Rng& r = c.rng; unsigned long n; switch(r.below(6)) { case 0: n = (unsigned long) r.range(0, 40); c.cls("small"); break; case 1: n = (unsigned long) r.range(0, 2100); c.cls("table"); break; case 2: n = (unsigned long) r.range(1990, 2010); c.cls("table end"); break; case 3: n = (unsigned long) r.range(2000, 20000); c.cls("series"); break; case 4: n = (unsigned long) r.range(20000, 30000000); c.cls("large"); break; default: n = 0xFFFFFFFFUL - r.below(4); c.cls("type limit"); }
  c.in("n", (long long) n); const e_float b = ef::bernoulli((std::uint32_t) n);
  if(n > 1000000000UL && n % 2 == 0) { c.check(b.isinf() && b.isneg() == ((n / 2) % 2 == 0), "bernoulli beyond the range", [&]{ return shortstr(b); }); return; }
  const Q w = n == 1 ? Qs("-0.5") : n & 1 ? Q::I(0) : bern(n);
  accept(c, b, w, DIG - 2.5 - (n > 1900 ? 1.3 * std::log10(1.0 + (double) n) : 0.0), "bernoulli");
}
FAMILYX("C17.bernoulli", 240, f_bernoulli, 12);
static void f_table(Case& c)
{
  Rng& r = c.rng; const unsigned n = (unsigned) (c.idx < 12 ? c.idx : r.range(0, r.chance(80) ? 120 : 700)); c.in("n", (long long) n); c.cls(n < 2 ? "tiny table" : n & 1 ? "odd" : "even");
  std::vector<e_float> v(r.below(5), e_float(7)); ef::bernoulli_table(v, n);
  if(!c.check(v.size() > n, "table holds B(0)..B(n)", [&]{ return fmt("size %zu", v.size()); })) return;
  for(unsigned i = 0; i <= n; ++i) { const Q w = i == 1 ? Qs("-0.5") : i & 1 ? Q::I(0) : bern(i); if(i < 20 || i + 6 > n || r.chance(10)) accept(c, v[i], w, DIG - 2.0, "bernoulli_table"); }
}
FAMILYX("C17.table", 60, f_table, 5);
static void f_special(Case& c)
{
  c.cls("special"); const int k = (int) (c.idx % 7); c.in("k", (long long) k); const e_float inf = std::numeric_limits<e_float>::infinity(), nan = std::numeric_limits<e_float>::quiet_NaN();
  switch(k)
  {
    case 0: c.check(ef::riemann_zeta(nan).isnan(), "zeta(nan)"); break;
    case 1: c.check(ef::riemann_zeta(inf).isone(), "zeta(inf)", [&]{ return shortstr(ef::riemann_zeta(inf)); }); break;
    case 2: c.check(!ef::riemann_zeta(-inf).isfinite(), "zeta(-inf)"); break;
    case 3: c.check(!ef::riemann_zeta(e_float(1)).isfinite() && !ef::riemann_zeta(1).isfinite(), "zeta(1)"); break;
    case 4: c.check(ef::riemann_zeta(e_float(0)) == e_float(-0.5) && ef::riemann_zeta(0) == e_float(-0.5), "zeta(0)"); break;
    case 5: { const long n = -2 * (long) c.rng.range(1, 1000000); c.in("n", (long long) n); c.check(ef::riemann_zeta(e_float(n)).iszero() && ef::riemann_zeta((std::int32_t) n).iszero(), "trivial zeros"); break; }
    default: c.check(ef::bernoulli(0).isone() && ef::bernoulli(1) == e_float(-0.5) && ef::bernoulli(3).iszero(), "first Bernoulli numbers"); break;
  }
}
FAMILY("C17.special", 70, f_special);
