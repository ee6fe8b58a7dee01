// C18: hypergeometric series agree with the sum of the series.
#include <deque>
#include "fnmon.h"
struct Par { e_float e; Q q; std::string s; };
static Par P(const std::string& s) { Par p; p.s = s; p.e = e_float(s); p.q = toQ(p.e); return p; }
// sum of prod (a)_n / prod (b)_n x^n / n!; mag = sum of absolute values
static bool sum_series(const std::vector<Q>& a, const std::vector<Q>& b, const Q& x, Q& sum, Q& mag, int limit, int& used)
{
  Q t = Q::I(1); sum = t; mag = t; const double lgeps = -(DIG * 1.6 + 30);
  for(int n = 0; n < limit; ++n)
  {
    for(const Q& v : a) t = t * (v + Q::I(n));
    for(const Q& v : b) { const Q d = v + Q::I(n); if(d.iszero()) return false; t = t / d; }
    t = t * x / Q::I(n + 1); sum = sum + t; mag = mag + t.abs(); used = n + 1;
    if(t.iszero()) return true;
    // the library stops relative to the sum: the domain ends where that needs too many terms
    if(n > 60 && t.log10abs() - mag.log10abs() < lgeps && (sum.iszero() || t.log10abs() - sum.log10abs() < -(DIG * 1.1 + 6))) return true;
  }
  return false;
}
static Par gen_par(Rng& r, bool lower)
{
  switch(r.below(6))
  {
    case 0: return P(std::to_string(r.range(1, 30)));
    case 1: return P(fmt("%lld.%s", (long long) r.range(lower ? 0 : -12, 30), r.chance(50) ? "5" : "25"));
    case 2: return P(gen_dec(r, -3, 1, false, 20));
    case 3: return P(gen_dec(r, 0, 1, false));
    case 4: { std::string s = gen_dec(r, -1, 1, true, 12); Par p = P(s); if((p.q - (p.q + Qs("0.5")).floor()).abs() < Qs("0.01")) return P("1.75"); return p; }
    default: return P(fmt("%lld/", 0LL).empty() ? "" : std::to_string(r.range(1, 9)) + "." + gen_digits(r, (int) r.range(1, DIG - 2)));
  }
}
static void finish(Case& c, const e_float& got, const std::vector<Q>& a, const std::vector<Q>& b, const Q& x, const char* what)
{
  Q s, m; int used = 0; if(!sum_series(a, b, x, s, m, 9000, used)) { c.trivial(); return; }
  if(used > 300) c.hit("long series"); if(m.log10abs() - (s.iszero() ? -1000.0 : s.log10abs()) > 5) c.hit("cancelling");
  // conditioning: perturb x and every parameter in the last digit
  Q sc = m; const Q h = Q::pow10(-(DIG + 10)); Q s2, m2; int u2;
  if(sum_series(a, b, x * (Q::I(1) + h), s2, m2, 9500, u2)) sc = sc + (s2 - s).abs() / h;
  const Q g = toQ(got); const double k = DIG - 2.5 - 1.3 * std::log10(1.0 + used);
  c.check(within(g, s, sc, k), what, [&]{ return diff(g, s) + fmt(" scale 1e%.1f terms %d", sc.log10abs(), used); });
}
static std::string gx(Case& c, int kind)  // 0 entire, 1 radius one, 2 polynomial
{
  Rng& r = c.rng;
  if(kind == 1) switch(r.below(5)) { case 0: c.cls("tiny x"); return gen_dec(r, -130, -20); case 1: c.cls("small x"); return gen_dec(r, -19, -2); case 2: c.cls("x near the circle"); return std::string(r.chance(40) ? "-" : "") + "0.9" + std::to_string(r.range(0, 4)) + gen_digits(r, 10); case 3: c.cls("zero x"); return "0"; default: c.cls("inside"); return gen_dec(r, -1, -1); }
  switch(r.below(6)) { case 0: c.cls("tiny x"); return gen_dec(r, -130, -20); case 1: c.cls("small x"); return gen_dec(r, -19, -1); case 2: case 3: c.cls("order one"); return gen_dec(r, 0, 0); case 4: c.cls("large x"); return gen_dec(r, 1, r.chance(70) ? 1 : 2); default: c.cls("integer x"); return std::to_string(r.range(-50, 100)); }
}
static void f_0f0(Case& c) { const Par x = P(gx(c, 0)); c.in("x", x.s); finish(c, ef::hypergeometric_0f0(x.e), {}, {}, x.q, "0F0"); const Q w = x.q.fn("exp"); Q m = x.q.abs().fn("exp"); c.check(within(toQ(ef::hypergeometric_0f0(x.e)), w, m * (x.q.abs() + Q::I(1)), DIG - 4.5), "0F0 == exp", [&]{ return diff(toQ(ef::hypergeometric_0f0(x.e)), w); }); }
FAMILY("C18.0f0", 600, f_0f0);
static void f_0f1(Case& c) { const Par x = P(gx(c, 0)), b = gen_par(c.rng, true); c.in("x", x.s); c.in("b", b.s); finish(c, ef::hypergeometric_0f1(b.e, x.e), {}, {b.q}, x.q, "0F1"); }
FAMILY("C18.0f1", 800, f_0f1);
static Par maybe_poly(Case& c, Rng& r) { if(r.chance(25)) { c.hit("polynomial"); return P(std::to_string(-r.range(0, 40))); } return gen_par(r, false); }
static void f_1f0(Case& c) { const Par a = maybe_poly(c, c.rng), x = P(gx(c, 1)); c.in("x", x.s); c.in("a", a.s); finish(c, ef::hypergeometric_1f0(a.e, x.e), {a.q}, {}, x.q, "1F0"); }
FAMILY("C18.1f0", 800, f_1f0);
static void f_1f1(Case& c) { const Par a = maybe_poly(c, c.rng), b = gen_par(c.rng, true), x = P(gx(c, 0)); c.in("x", x.s); c.in("a", a.s); c.in("b", b.s); finish(c, ef::hypergeometric_1f1(a.e, b.e, x.e), {a.q}, {b.q}, x.q, "1F1"); }
FAMILY("C18.1f1", 800, f_1f1);
static void f_2f0(Case& c) { const Par a = P(std::to_string(-c.rng.range(0, 40))), b = gen_par(c.rng, false), x = P(gx(c, 0)); c.in("x", x.s); c.in("a", a.s); c.in("b", b.s); const bool sw = c.rng.chance(50); finish(c, sw ? ef::hypergeometric_2f0(b.e, a.e, x.e) : ef::hypergeometric_2f0(a.e, b.e, x.e), {a.q, b.q}, {}, x.q, "2F0 polynomial"); }
FAMILY("C18.2f0", 600, f_2f0);
static void f_2f1(Case& c) { const Par a = maybe_poly(c, c.rng), b = gen_par(c.rng, false), d = gen_par(c.rng, true), x = P(gx(c, 1)); c.in("x", x.s); c.in("a", a.s); c.in("b", b.s); c.in("c", d.s); finish(c, ef::hypergeometric_2f1(a.e, b.e, d.e, x.e), {a.q, b.q}, {d.q}, x.q, "2F1"); }
FAMILY("C18.2f1", 800, f_2f1);
static void f_pfq(Case& c)
{
  Rng& r = c.rng; int p = (int) r.range(0, 4), q = (int) r.range(0, 4); bool poly = p > q + 1 || r.chance(20); if(poly && p == 0) poly = false; if(poly) c.hit("polynomial");
  std::deque<e_float> a, b; std::vector<Q> qa, qb; std::string sa, sb;
  for(int i = 0; i < p; ++i) { const Par v = poly && i == p / 2 ? P(std::to_string(-r.range(0, 30))) : gen_par(r, false); a.push_back(v.e); qa.push_back(v.q); sa += v.s + " "; }
  for(int i = 0; i < q; ++i) { const Par v = gen_par(r, true); b.push_back(v.e); qb.push_back(v.q); sb += v.s + " "; }
  const Par x = P(gx(c, p == q + 1 ? 1 : 0)); c.in("x", x.s); c.in("a", sa); c.in("b", sb); c.hit(fmt("%dF%d", p, q));
  const e_float g = ef::hypergeometric_pfq(a, b, x.e); finish(c, g, qa, qb, x.q, "pFq");
  e_float s; bool have = true; // the general form agrees with the particular ones
  if(p == 0 && q == 0) s = ef::hypergeometric_0f0(x.e); else if(p == 0 && q == 1) s = ef::hypergeometric_0f1(b[0], x.e); else if(p == 1 && q == 0) s = ef::hypergeometric_1f0(a[0], x.e); else if(p == 1 && q == 1) s = ef::hypergeometric_1f1(a[0], b[0], x.e); else if(p == 2 && q == 1) s = ef::hypergeometric_2f1(a[0], a[1], b[0], x.e); else have = false;
  if(have && s.isfinite()) finish(c, s, qa, qb, x.q, "particular form");
}
FAMILY("C18.pfq", 1000, f_pfq);
// no convergence is reported as NaN, never as a wrong number
static void f_diverge(Case& c)
{
  Rng& r = c.rng; const Par a = P("1.5"), b = P("2.25"), d = P("3.75"); const std::string sx = (r.chance(40) ? std::string("-") : std::string()) + (r.chance(50) ? "1." : "0.99") + gen_digits(r, 10); const Par x = P(sx); c.in("x", sx); c.cls("beyond the circle");
  const Q g = toQ(ef::hypergeometric_2f1(a.e, b.e, d.e, x.e)); if(x.q.abs() >= Q::I(1)) { c.check(!g.isfinite(), "diverging 2F1 is not a number", [&]{ return qs(g); }); return; }
  Q s, m; int u = 0; if(g.isnan()) { c.hit("NaN near the circle"); c.check(true, "2F1 near the circle"); return; } if(!sum_series({a.q, b.q}, {d.q}, x.q, s, m, 60000, u)) { c.trivial(); return; }
  c.check(within(g, s, m, DIG - 8.0), "2F1 near the circle", [&]{ return diff(g, s); });
}
FAMILYX("C18.diverge", 60, f_diverge, 4);
