// C07: integer part, decimal part, floor, ceil, fmod, ldexp, frexp, sgn, order.
#include "efmon.h"
namespace {
e_float Q10(long e) { return e_float("1e" + std::to_string(e)); }
std::string gen_x(Rng& r)
{
  switch(r.below(9))
  {
    case 0: return gen_dec(r, -20, 20);
    case 1: { const int n = (int) r.range(1, DIG - 10), k = (int) r.range(1, DIG - 1 - n + 0); return (r.chance(50) ? "-" : "") + gen_digits(r, n) + "." + gen_digits(r, k); }     // integer digits and fraction digits
    case 2: { const int n = (int) r.range(1, DIG - 12), k = (int) r.range(1, DIG - 2 - n); return (r.chance(50) ? "-" : "") + std::string((std::size_t) n, '9') + "." + std::string((std::size_t) k, '9'); }   // just below a power of ten
    case 3: { const int n = (int) r.range(1, DIG - 12), k = (int) r.range(1, DIG - 2 - n); return (r.chance(50) ? "-" : "") + std::string("1") + std::string((std::size_t) n - 1, '0') + "." + std::string((std::size_t) k - 1, '0') + "1"; }   // just above
    case 4: return (r.chance(50) ? "-" : "") + gen_digits(r, (int) r.range(1, DIG - 10));
    case 5: return gen_dec(r, -300, 3);
    case 6: { const int n = 8 * (int) r.range(1, (DIG - 12) / 8) + (int) r.range(-1, 1); const int k = 8 * (int) r.range(0, 3); return (r.chance(50) ? "-" : "") + gen_digits(r, n < 1 ? 1 : n) + "." + std::string((std::size_t) k, '0') + gen_digits(r, 3); }
    case 7: return r.chance(50) ? "0" : (r.chance(50) ? "-" : "") + std::string("0.") + std::string((std::size_t) r.range(0, 30), '0') + "1";
    default: return gen_any(r);
  }
}
void parts(Case& c)
{
  Rng& r = c.rng; const std::string a = gen_x(r); c.in("a", a); const e_float x(a); Q q = Qs(a); if(!IS_EFX && !q.isint()) q = toQ(x);   // the stored value
  if(!IS_EFX && (q - Qs(a)).log10abs() > -3 && !q.isint()) { c.trivial(); return; }
  if(q.log10abs() >= DIG - 9.0 && !q.isint()) { c.trivial(); return; }
  const Q t = Qs(a).trunc(), f = Qs(a).floor(), ce = Qs(a).ceil();
  const e_float ip = x.extract_integer_part(), dp = x.extract_decimal_part(), fl = ef::floor(x), cl = ef::ceil(x);
  if(Qs(a).isint()) c.hit("integer"); else c.hit(q.log10abs() > 9 ? "large with fraction" : q.log10abs() < 0 ? "below one" : "small with fraction");
  const bool sharp = IS_EFX || Qs(a).isint() || (Qs(a) - t).log10abs() > -(DIG + 2.0 - std::max(0.0, q.log10abs()));   // the fraction survives parsing
  if(!sharp || (!IS_EFX && (t + Q::I(t.sgn() < 0 || q.sgn() < 0 ? -1 : 1) - Qs(a)).log10abs() < -(DIG - 1.0 - std::max(0.0, q.log10abs())))) { c.trivial(); return; }
  auto eq = [&](const e_float& got, const Q& w, const char* what) { const Q g = toQ(got); c.check(w.log10abs() < DIG - 0.5 ? g == w : within(g, w, w.abs(), DIG), what, [&]{ return diff(g, w); }); };
  eq(ip, t, "integer part"); eq(ef::integer_part(x), t, "ef::integer_part"); eq(fl, f, "floor"); eq(cl, ce, "ceil");
  { const Q w = Qs(a) - t; c.check(within(toQ(dp), w, Qs(a).abs(), DIG - 0.1), "decimal part", [&]{ return diff(toQ(dp), w); }); c.check(dp == ef::decimal_part(x), "ef::decimal_part"); c.check(ip + dp == x || within(toQ(ip + dp), toQ(x), q.abs(), DIG), "parts sum to x", [&]{ return str(ip + dp); }); c.check(w.iszero() == dp.iszero(), "decimal part zero", [&]{ return str(dp); });
    if(dp.iszero()) { e_float z(dp); z += 3; c.check(z == 3 && dp + x == x && (dp * x).iszero() && dp == 0, "a zero decimal part is a regular zero", [&]{ return str(z); }); }
    else { c.check(dp.isneg() == (q.sgn() < 0) && ef::fabs(dp) < 1 && !dp.isint(), "decimal part range", [&]{ return str(dp); }); const e_float h = dp * 2; c.check(within(toQ(h), w * Q::I(2), Qs(a).abs(), DIG - 0.6), "decimal part usable", [&]{ return diff(toQ(h), w * Q::I(2)); }); } }
  c.check(ip.isint() && fl.isint() && cl.isint() && fl <= x && x <= cl && cl - fl <= 1, "floor/ceil bracket");
  c.check(ef::sgn(x) == q.sgn(), "sgn"); c.check(ef::fabs(x) == (q.sgn() < 0 ? -x : x), "fabs");
}
void fmod_(Case& c)
{
  Rng& r = c.rng; std::string a, b; switch(r.below(3)) { case 0: a = gen_dec(r, -5, 30); b = gen_dec(r, -5, 5); break; case 1: a = (r.chance(50) ? "-" : "") + gen_digits(r, (int) r.range(1, DIG / 2)); b = (r.chance(50) ? "-" : "") + gen_digits(r, (int) r.range(1, 12)); c.hit("integers"); break; default: { const Q m = Q::I(r.range(-1000000, 1000000)), d = Qs(gen_dec(r, -8, 8, true, 20)); a = (m * d).sci(40); b = d.sci(40); c.hit("multiple"); } }
  c.in("a", a); c.in("b", b); const e_float x(a), y(b); const Q qx = Qs(a), qy = Qs(b); if(qy.iszero()) { c.trivial(); return; }
  const double dq = (qx / qy).log10abs(); if(dq > DIG / 2.0) { c.trivial(); return; }
  const Q w = qx.fn("fmod", qy), g = toQ(ef::fmod(x, y)); const Q tol = qx.abs() + qy.abs(); const bool exact = qx.isint() && qy.isint() && a.find("e-") == std::string::npos && b.find("e-") == std::string::npos && a.find('.') == std::string::npos && b.find('.') == std::string::npos;
  // a result within rounding of the modulus may come out as the modulus or as zero
  auto near = [&](const Q& z) { return within(g, z, tol, DIG - 0.5); };
  bool ok = near(w) || (!exact && (near(w + qy.abs()) || near(w - qy.abs())) && ((w.abs() - qy.abs()).abs().log10abs() < tol.log10abs() - DIG + 1 || w.abs().log10abs() < tol.log10abs() - DIG + 1));
  c.check(ok, "fmod", [&]{ return diff(g, w); }); if(exact) { c.check(g == w, "fmod of integers is exact", [&]{ return diff(g, w); }); }
  const e_float inf = ef::value_inf(); c.check(ef::fmod(x, ef::zero()).isnan() && ef::fmod(inf, x).isnan() && ef::fmod(x, ef::value_nan()).isnan() && ef::fmod(x, inf) == x, "fmod specials");
}
void scale2(Case& c)
{
  Rng& r = c.rng; const std::string a = gen_any(r); const int e = (int) (r.chance(70) ? r.range(-400, 400) : r.range(-1000000, 1000000)); c.in("a", a); c.in("e", e); const e_float x(a); const Q q = Qs(a);
  const Q w = q * Q::pow2(e); const e_float l = ef::ldexp(x, e); c.check(close(toQ(l), w, DIG - 0.0), "ldexp", [&]{ return diff(toQ(l), w); }); c.check(close(toQ(ef::ldexp(l, -e)), q, DIG - 1.0), "ldexp back");
  int n = 12345; const e_float m = ef::frexp(x, &n);
  if(q.iszero()) { c.check(m.iszero() && n == 0, "frexp zero"); return; }
  if(std::fabs(q.log10abs()) > 600000000.0) { c.trivial(); return; }
  c.check(ef::fabs(m) >= ef::half() && ef::fabs(m) < 1 && m.isneg() == x.isneg(), "frexp mantissa range", [&]{ return str(m); }); c.check(close(toQ(m) * Q::pow2(n), q, DIG - 0.5), "frexp product", [&]{ return diff(toQ(m) * Q::pow2(n), q); });
  const e_float p2 = ef::pow2(e); const int k = (int) r.range(-300, 300); int n2; const e_float one_half = ef::frexp(ef::pow2(k), &n2); c.check(one_half == ef::half() ? n2 == k + 1 : (n2 == k && ef::fabs(one_half - 1) < Q10(-(DIG - 11))), "frexp of a power of two", [&]{ return str(one_half) + fmt(" n=%d k=%d", n2, k); }); c.check(close(toQ(p2), Q::pow2(e), DIG), "pow2", [&]{ return diff(toQ(p2), Q::pow2(e)); });
}
// frexp/ldexp across the whole exponent range
void scale3(Case& c)
{
  Rng& r = c.rng; const long ea = r.chance(30) ? (r.chance(50) ? MAX10 : MIN10) + (r.chance(50) ? 0 : r.range(-30, 30)) : r.range(MIN10, MAX10); const std::string a = gen_dec(r, ea, ea, true, IS_EFX ? DIG : 40); c.in("a", a); const e_float x(a); if(!x.isfinite() || x.iszero()) { c.trivial(); return; }
  const Q q = toQ(x); const double lg2 = q.log10abs() * 3.32192809488736;
  // the binary exponent of the native engine's largest numbers does not fit the interface's int: only the mantissa is judged there
  int n = 0; const e_float m = ef::frexp(x, &n); c.check(ef::fabs(m) >= ef::half() && ef::fabs(m) < 1 && m.isneg() == x.isneg(), "frexp mantissa range", [&]{ return str(m); });
  if(std::fabs(lg2) < 2147483000.0) { c.hit("exponent in range"); c.check(close(toQ(m) * Q::pow2(n), q, DIG - 0.5), "frexp product", [&]{ return diff(toQ(m) * Q::pow2(n), q); }); const e_float b = ef::ldexp(m, n); if(n < 2147483647 && std::fabs(lg2) < 0.99 * MAX10 * 3.3219) c.check(close(toQ(b), q, DIG - 0.5), "ldexp of frexp", [&]{ return diff(toQ(b), q); }); } else c.hit("exponent beyond int");
  const int e = (int) (r.chance(20) ? (r.chance(50) ? 2147483647LL - r.range(0, 2) : -2147483648LL + r.range(0, 2)) : r.range(-2147483648LL, 2147483647LL)); c.in("e", e); const double lr = q.log10abs() + e * 0.30102999566398;
  if(std::fabs(lr) < (double) MAX10 - 40) { c.hit(std::fabs(e * 0.30103) > MAX10 ? "power out of range" : "power in range"); const Q w = (q * Q::pow2(e / 2)) * Q::pow2(e - e / 2); const e_float l = ef::ldexp(x, e); c.check(close(toQ(l), w, DIG - 0.5), "ldexp", [&]{ return diff(toQ(l), w); }); }
}
void order(Case& c)
{
  Rng& r = c.rng; const std::string a = gen_any(r); c.in("a", a); const e_float x(a); const Q q = Qs(a); if(q.iszero()) { c.trivial(); return; } const std::int64_t o = ef::order_of(x); const double lg = q.log10abs();
  c.check(std::fabs((double) o - lg) <= 1.0 + 1e-6, "order within one", [&]{ return fmt("%lld for 1e%.3f", (long long) o, lg); }); c.check(o == x.order(), "order() agrees"); if(IS_EFX) { const long want = std::stol(a.substr(a.find('e') + 1)); c.check(o == want, "order", [&]{ return fmt("%lld want %ld", (long long) o, want); }); }   // the text is normalized
  double d; std::int64_t p; ef::to_parts(x, d, p); c.check(close(Q::D(d) * Q::pow10((long) p), q, 6.0), "to_parts", [&]{ return fmt("%.17ge%lld", d, (long long) p); }); c.check(std::fabs(d) < 10.0001 && std::fabs(d) > 0.0999, "to_parts mantissa", fmt("%.17g", d));
}
}
FAMILY("C07.parts", 14000, parts);
FAMILY("C07.fmod", 6000, fmod_);
FAMILY("C07.scale2", 3000, scale2);
FAMILY("C07.scale3", 3000, scale3);
FAMILY("C07.order", 4000, order);
