// C22: complex gamma, Pochhammer, zeta and integer powers through prime factors.
#include <map>
#include "cfmon.h"
#include <utility/util_power_j_pow_x.h>
static C mk(Case& c, const char* n, const std::string& a, const std::string& b) { c.in(n, "(" + a + "," + b + ")"); return C(e_float(a), e_float(b)); }
// relative loss: what a relative change of either part of the argument does (given as log derivative times size), in digits
static bool jr(Case& c, const C& got, const CQ& w, const Q& cond, const char* what, double k)
{
  const CQ g = toCQ(got); if(!w.isfinite()) { c.trivial(); return true; }
  const Q m = w.abs(); const double lg = m.log10abs();
  if(lg > MAX10 / 2 || lg < MIN10 / 2) { c.trivial(); return true; }
  const Q s = m * (Q::I(1) + cond); return c.check(nearc(g, w, s, s, k), what, [&]{ return cdiff(g, w) + fmt(" condition 1e%.1f", cond.log10abs()); });
}
template<class F> static Q cond(const F& f, const CQ& z, const CQ& w)
{
  const Q h = Q::pow10(-(DIG + 5)), up = Q::I(1) + h; const Q m = w.abs(); if(m.iszero()) return Q::I(1);
  return ((f(CQ(z.re * up, z.im)) - w).abs() + (f(CQ(z.re, z.im * up)) - w).abs()) / (h * m);
}
static void f_gamma(Case& c)
{
  Rng& r = c.rng; std::string a, b;
  switch(r.below(9))
  {
    case 0: case 1: a = gen_dec(r, -2, 1); b = gen_dec(r, -2, 1); c.cls("moderate"); break;
    case 2: a = gen_dec(r, -60, -2); b = gen_dec(r, -60, -2); c.cls("tiny"); break;
    case 3: a = gen_dec(r, 1, 2); b = gen_dec(r, -3, 3); c.cls("large real part"); break;
    case 4: a = gen_dec(r, -2, 1); b = gen_dec(r, 1, 3); c.cls("large imaginary part"); break;
    case 5: { a = std::to_string(r.range(-30, 400)); b = gen_dec(r, -40, -1); c.cls("near a real integer"); break; }
    case 6: a = "0"; b = gen_dec(r, -20, 2); c.cls("imaginary axis"); break;
    case 7: a = std::to_string(r.range(200, 280)) + "." + std::to_string(r.below(1000)); b = gen_dec(r, -5, 2); c.cls("near the switch to the series"); break;
    default: a = gen_dec(r, 0, 1); b = "0"; c.cls("real"); break;
  }
  const C z = mk(c, "z", a, b); const CQ Z = toCQ(z); if(Z.im.iszero() && Z.re.isint()) { c.trivial(); return; }
  const CQ w = cgamma(Z); jr(c, ef::gamma(z), w, cond(cgamma, Z, w), "gamma(z)", DIG - 3.0);
}
FAMILYX("C22.gamma", 260, f_gamma, 10);
static void f_gident(Case& c)
{
  Rng& r = c.rng; const C z = mk(c, "z", gen_dec(r, -2, 1), gen_dec(r, -2, 1)); const CQ Z = toCQ(z); const C g = ef::gamma(z), g1 = ef::gamma(z + ef::one()), gc = ef::gamma(ef::conj(z));
  const CQ G = toCQ(g), w = Z * G; jr(c, g1, w, Z.abs() * Q::I(3), "gamma(z + 1) = z gamma(z)", DIG - 4.0); jr(c, gc, G.conj(), Q::I(1), "gamma of the conjugate", DIG - 3.0);
}
FAMILYX("C22.gamma_identities", 100, f_gident, 10);
static void f_poch(Case& c)
{
  Rng& r = c.rng; std::string a, b; long n = 0;
  switch(r.below(5)) { case 0: a = gen_dec(r, -3, 1); b = gen_dec(r, -3, 1); break; case 1: a = std::to_string(r.range(-80, 80)); b = r.chance(50) ? "0" : gen_dec(r, -10, 1); break; case 2: a = gen_dec(r, -20, 2); b = gen_dec(r, -20, 2); break; case 3: a = "-" + std::to_string(r.range(1, 400)) + ".5"; b = gen_dec(r, -6, 1); break; default: a = "0"; b = gen_dec(r, -5, 2); }
  switch(r.below(4)) { case 0: n = (long) r.range(0, 4); c.cls("few factors"); break; case 1: n = (long) r.range(5, 49); c.cls("product"); break; case 2: n = (long) r.range(47, 53); c.cls("switch"); break; default: n = (long) r.range(50, 700); c.cls("many factors"); }
  const C z = mk(c, "z", a, b); const CQ Z = toCQ(z); c.in("n", (long long) n); CQ w = CQ::I(1); Q sens = Q::I(0); bool zero = false;
  for(long i = 0; i < n; ++i) { const CQ t = Z + CQ::I(i); if(t.iszero()) { zero = true; break; } sens = sens + Z.abs() / t.abs(); w = w * t; }
  const C got = ef::pochhammer(z, (std::uint32_t) n);
  if(zero) { c.check(got == C(), "pochhammer with a vanishing factor", [&]{ return cs(toCQ(got)); }); return; }
  const Q extra = n < 50 ? Q::I(0) : (Z.abs() + Q::I(n)) * Q::D(std::log(Z.abs().to_double() + (double) n + 3)); jr(c, got, w, sens + extra + Q::D(std::log2((double) n + 1)), "pochhammer(z, n)", DIG - 3.0);
}
FAMILYX("C22.pochhammer", 250, f_poch, 10);
static void f_pocha(Case& c)
{
  Rng& r = c.rng; const C z = mk(c, "z", gen_dec(r, -1, 1), gen_dec(r, -1, 1)), a = mk(c, "a", gen_dec(r, -1, 1), gen_dec(r, -1, 1)); const CQ Z = toCQ(z), A = toCQ(a), S = Z + A; const CQ g1 = cgamma(S), g2 = cgamma(Z);
  jr(c, ef::pochhammer(z, a), g1 / g2, cond(cgamma, Z, g2) + cond(cgamma, S, g1) * (Q::I(1) + (Z.abs() + A.abs()) / S.abs()), "pochhammer(z, a)", DIG - 3.5);
}
FAMILYX("C22.pochhammer_complex", 60, f_pocha, 10);
static void f_zeta(Case& c)
{
  Rng& r = c.rng; std::string a, b;
  switch(r.below(10))
  {
    case 0: a = gen_dec(r, -2, 0, false); b = gen_dec(r, -2, 1); c.cls("moderate"); break;
    case 1: a = "0.5"; b = gen_dec(r, 0, 1); c.cls("critical line"); break;
    case 2: a = "0.5"; b = std::to_string(r.range(50, r.chance(80) ? 150 : r.chance(80) ? 400 : 1000)) + "." + std::to_string(r.below(100000)); c.cls("high on the critical line"); break;
    case 3: a = gen_dec(r, -1, 1); if(a[0] != '-') a = "-" + a; b = gen_dec(r, -2, 1); c.cls("left half plane"); break;
    case 4: a = gen_dec(r, 1, 2, false); b = gen_dec(r, -2, 1); c.cls("large real part"); break;
    case 5: { const Q q = Q::I(1) + Qs(gen_dec(r, -20, -2)); a = q.sci(DIG - 1); b = gen_dec(r, -20, -1); c.cls("near the pole"); break; }
    case 6: a = gen_dec(r, -30, -1); b = gen_dec(r, -30, -1); c.cls("near zero"); break;
    case 7: a = std::to_string(r.range(-12, 12)); b = gen_dec(r, -30, 0); c.cls("near an integer"); break;
    case 8: a = "0"; b = gen_dec(r, -2, 1); c.cls("imaginary axis"); break;
    default: a = "-" + fmt("0.%lld", r.range(5, 20)); b = gen_dec(r, -2, 1); c.cls("near the switch to reflection"); break;
  }
  const C s = mk(c, "s", a, b); const CQ S = toCQ(s); if(S.re == Q::I(1) && S.im.iszero()) { c.trivial(); return; }
  const CQ w = czeta(S); Q k = cond(czeta, S, w); if(S.re < Q("-0.1")) k = k + S.abs() * Q::I(3);
  // the series is divided by 1 - 2^(1-s)
  const CQ t = cexp((CQ::I(1) - S) * CQ(Q::I(2).fn("log"))); k = k + Q::I(1) / (CQ::I(1) - t).abs() * t.abs();
  // cancellation of the terms where zeta is small
  k = k + Q::I(1) / w.abs() + (Q::I(1) + S.im.abs()) * Q::I(2);
  jr(c, ef::riemann_zeta(s), w, k, "zeta(s)", DIG - 3.0);
}
FAMILYX("C22.zeta", 110, f_zeta, 8);
static void f_jpow(Case& c)
{
  Rng& r = c.rng; const C s = mk(c, "s", gen_dec(r, -2, 1), r.chance(80) ? gen_dec(r, -2, 2) : "0"); const CQ S = toCQ(s); std::map<std::uint32_t, C> m; std::string js; std::vector<std::uint32_t> v;
  for(int i = 0; i < 15; ++i) { v.push_back(r.chance(70) ? (std::uint32_t) r.range(1, 600) : (std::uint32_t) r.range(1, 5000000)); js += std::to_string(v.back()) + " "; } c.in("j", js);
  for(std::uint32_t j : v) { const Q l = Q::U(j).fn("log"); jr(c, Util::j_pow_x(j, s, m), cexp(S * CQ(l)), S.abs() * l + Q::I(1), "j^s", DIG - 2.5); }
}
FAMILYX("C22.j_pow_s", 120, f_jpow, 10);
