// C12: exponential, logarithm, powers and roots agree with the true values over the whole range.
#include "fnmon.h"
static e_float E(const std::string& s) { return e_float(s); }
// exponent range in which exp() neither overflows nor underflows
static const double LN10 = 2.302585092994045684;

static std::string gen_exp_arg(Case& c)
{
  Rng& r = c.rng; char b[64];
  switch(r.below(8))
  {
    case 0: c.cls("integer"); return std::to_string(r.range(-3000, 3000));
    case 1:
    {
      // Integers up to the overflow limit (which is beyond 32 bits for EFX), with the powers of two as edges.
      c.cls("large integer"); const long long lim = (long long) (0.99 * LN10 * (double) (MAX10 < -MIN10 ? MAX10 : -MIN10));
      long long n = r.chance(50) ? r.range(-lim, lim) : (1LL << r.range(12, 32)) + r.range(-3, 3); if(r.chance(50)) n = -n;
      if(n > lim || n < -lim) n = lim; if(n > 2147483648LL || n < -2147483648LL) c.hit("beyond 32 bits");
      return std::to_string(n);
    }
    case 2: c.cls("tiny"); return gen_dec(r, -150, -5);
    case 3: c.cls("moderate"); return gen_dec(r, -4, 0);
    case 4: c.cls("near integer"); snprintf(b, sizeof b, "%lld", (long long) r.range(-500, 500)); { Q q = Qs(b) + (r.chance(50) ? Q::I(1) : Q::I(-1)) * Q::pow10(-(long) r.range(3, DIG)); return q.sci(DIG); }
    case 5: c.cls("multiple of ln2"); { Q q = Q::I(r.range(-3000, 3000)) * Q::I(2).fn("log") / Q::I(r.chance(50) ? 1 : 2048); return q.sci(DIG); }
    case 6: c.cls("large"); return gen_dec(r, 2, r.chance(50) ? 8 : 6);
    default: c.cls("order one"); return gen_dec(r, 0, 2);
  }
}
static void f_exp(Case& c)
{
  const std::string s = gen_exp_arg(c); c.in("x", s);
  const e_float x = E(s); const Q q = toQ(x);
  judge(c, ef::exp(x), [](const Q& t) { return t.fn("exp"); }, q, "exp");
}
FAMILY("C12.exp", 2500*8, f_exp);

// around the largest and smallest representable result
static void f_explimit(Case& c)
{
  Rng& r = c.rng; const bool up = r.chance(50);
  const Q lim = Q::I(up ? MAX10 : MIN10) * Q::I(10).fn("log");
  Q x = lim; 
  switch(r.below(4)) { case 0: x = lim + Q::I(r.range(-3000, 3000)); break; case 1: x = lim * (Q::I(1) + Q::I(r.range(-1000, 1000)) / Q::I(2000)); break; case 2: x = lim * Q::I(r.range(2, 1000)); break; default: x = lim * Q::pow10((long) r.range(2, 30)); break; }
  const std::string s = x.sci(30); c.in("x", s); const e_float ex = E(s); const e_float y = ef::exp(ex);
  const Q v = toQ(ex); const double lg = (v / Q::I(10).fn("log")).to_double();
  c.cls(lg > MAX10 ? "beyond overflow" : (lg < MIN10 ? "beyond underflow" : "inside"));
  if(lg > MAX10 + 40.0 && (IS_EFX || lg > MAX10 * 4.0)) c.check(y.isinf() && !y.isneg(), "exp of too large an argument is +infinity", [&]{ return shortstr(y); });
  else if(lg > MAX10 - 40.0) c.check(!y.isnan() && !y.isneg() && (y.isinf() || y > 1), "exp near the overflow limit is huge or infinite", [&]{ return shortstr(y); });
  else if(lg < MIN10 - 40.0 && (IS_EFX || lg < MIN10 * 4.0)) c.check(y.iszero(), "exp of too small an argument is zero", [&]{ return shortstr(y); });
  else if(lg < MIN10 + 40.0) c.check(!y.isnan() && !y.isinf() && y < 1, "exp near the underflow limit is tiny or zero", [&]{ return shortstr(y); });
  else judge(c, y, [](const Q& t) { return t.fn("exp"); }, v, "exp inside the limits");
}
FAMILY("C12.explimit", 500*8, f_explimit);

static std::string gen_pos(Case& c)
{
  Rng& r = c.rng;
  switch(r.below(9))
  {
    case 0: case 1: { c.cls("near one"); Q q = Q::I(1) + (r.chance(50) ? Q::I(1) : Q::I(-1)) * Qs(gen_dec(r, -(DIG - 2), -1, false)); return q.sci(DIG); }
    case 2: c.cls("integer"); return std::to_string(r.range(2, 100000));
    case 3: c.cls("power of ten"); return "1e" + std::to_string(r.range(-100000, 100000));
    case 4: c.cls("huge or tiny"); { const long w = r.chance(50) ? 4 : 1, e = r.range(MIN10 / w + 40, MAX10 / w - 40); return gen_dec(r, e, e, false); }
    case 5: c.cls("order 1000"); { const long e = (r.chance(50) ? 1 : -1) * (r.chance(50) ? (long) r.range(990, 1010) : (long) std::pow(10.0, 1.5 + r.u01() * 6.8)); return gen_dec(r, e, e, false); }
    case 6: c.cls("power of e"); return Q::I(r.range(-200, 200)).fn("exp").sci(DIG);
    case 7: c.cls("below one"); return gen_dec(r, -3, -1, false);
    default: c.cls("moderate"); return gen_dec(r, -20, 20, false);
  }
}
static void f_log(Case& c)
{
  const std::string s = gen_pos(c); c.in("x", s); const e_float x = E(s); const Q q = toQ(x);
  if(q == Q::I(1)) { c.check(ef::log(x).iszero() || ef::fabs(ef::log(x)) < e_float("1e-" + std::to_string(DIG - 1)), "log(1) is zero"); return; }
  judge(c, ef::log(x), [](const Q& t) { return t.fn("log"); }, q, "log");
  judge(c, ef::log10(x), [](const Q& t) { return t.fn("log10"); }, q, "log10");
}
FAMILY("C12.log", 1500*8, f_log);
static void f_loga(Case& c)
{
  Rng& r = c.rng; const std::string s = gen_pos(c); const std::string a = r.chance(50) ? std::to_string(r.range(2, 1000)) : gen_dec(r, 1, 10, false); c.in("x", s); c.in("a", a);
  const e_float x = E(s), b = E(a); const Q q = toQ(x), qa = toQ(b);
  if(q == Q::I(1)) { c.trivial(); return; }
  judge(c, ef::loga(b, x), [&](const Q& t) { return t.fn("log") / qa.fn("log"); }, q, "loga");
}
FAMILY("C12.loga", 400*8, f_loga);
static void f_log1p(Case& c)
{
  Rng& r = c.rng; std::string s;
  switch(r.below(5))
  {
    case 0: c.cls("tiny"); s = gen_dec(r, -200, -10); break;
    case 1: c.cls("small"); s = gen_dec(r, -9, -2); break;
    case 2: c.cls("below one"); s = gen_dec(r, -1, -1); break;
    case 3: c.cls("near minus one"); s = (Q::I(-1) + Qs(gen_dec(r, -20, -1, false))).sci(DIG); break;
    default: c.cls("one and above"); s = gen_dec(r, 0, 20, false); break;
  }
  c.in("x", s); const e_float x = E(s); const Q q = toQ(x);
  if(q <= Q::I(-1)) { c.trivial(); return; }
  judge(c, ef::log1p(x), [](const Q& t) { return t.fn("log1p"); }, q, "log1p");
}
FAMILY("C12.log1p", 600*8, f_log1p);

static void f_pow(Case& c)
{
  Rng& r = c.rng; const std::string s = gen_pos(c);
  std::string a; const std::string cls = c.cls();
  switch(r.below(6)) { case 0: a = std::to_string(r.range(-50, 50)); break; case 1: a = std::to_string(r.range(-40, 40)) + ".5"; break; case 2: a = gen_dec(r, -60, -3); break; case 3: a = gen_dec(r, -2, 0); break; case 4: a = (Q::I(r.range(-20, 20)) + (r.chance(50) ? Q::I(1) : Q::I(-1)) * Q::pow10(-(long) r.range(5, DIG - 3))).sci(DIG); break; default: a = gen_dec(r, 0, 3); }
  c.in("x", s); c.in("a", a);
  const e_float x = E(s), b = E(a); const Q q = toQ(x), qa = toQ(b);
  const double lg = q.log10abs() * qa.to_double();
  if(!(std::fabs(lg) < MAX10 * 0.9)) { c.trivial(); return; }
  const Q w = q.fn("pow", qa); const Q extra = w * qa * q.fn("log");   // sensitivity to the exponent
  judge(c, ef::pow(x, b), [&](const Q& t) { return t.fn("pow", qa); }, q, "pow", DIG - 2.0, &extra);
}
FAMILY("C12.pow", 1500*8, f_pow);
static void f_powneg(Case& c)
{
  Rng& r = c.rng; const long n = r.range(-60, 60); const std::string s = "-" + gen_dec(r, -5, 5, false); c.in("x", s); c.in("n", n); c.cls(n & 1 ? "odd" : "even");
  const e_float x = E(s); const Q q = toQ(x); const auto f = [&](const Q& t) { return t.fn("pown", n); };
  judge(c, ef::pow(x, e_float(n)), f, q, "pow of a negative number to an integer");
  judge(c, ef::pow(x, (std::int64_t) n), f, q, "pow to a 64-bit integer");
  if(n) c.check(ef::pow(x, e_float(n) + e_float("0.5")).isnan(), "pow of a negative number to a non-integer is NaN");
  { // almost -1 to integers which need not fit in 64 bits
    const int k = (int) r.range(6, 30); const long j = r.range(k > 3 ? k - 3 : 0, k); std::string d = std::to_string(r.range(1, 9)); while((long) d.size() < j) d += (char) ('0' + r.below(10)); if(r.chance(30)) d = "-" + d;
    const Q y0 = -(Q::I(1) + Q::I(r.range(-999, 999)) * Q::pow10(-(long) (k + 2))); const std::string ys = y0.sci(DIG); c.in("y", ys); c.in("m", d);
    if(j > 19) c.hit("integer beyond 64 bits"); const e_float y = E(ys), m = E(d); const Q qy = toQ(y), qm = toQ(m); const bool odd = (d.back() - '0') & 1;
    const Q w = qy.abs().fn("pow", qm); const Q extra = w * qm * qy.abs().fn("log") + w * qm * Q::pow10(-(long) (k + 2));
    judge(c, ef::pow(y, m), [&](const Q& t) { const Q a = t.abs().fn("pow", qm); return odd ? -a : a; }, qy, "pow of almost -1 to a huge integer", DIG - 2.0, &extra);
  }
}
FAMILY("C12.powneg", 400*8, f_powneg);
static void f_powhuge(Case& c)
{
  Rng& r = c.rng; const long k = r.range(9, 60); const long j = k + r.range(-8, 2);
  const Q q0 = Q::I(1) + (r.chance(50) ? Q::I(1) : Q::I(-1)) * Q::I(r.range(1, 999999)) * Q::pow10(-k);
  const Q a0 = (r.chance(50) ? Q::I(1) : Q::I(-1)) * (r.chance(50) ? Q::I(r.range(1, 99999)) * Q::pow10(j) : Qs(gen_dec(r, j, j, false)));
  const std::string s = q0.sci(DIG), a = a0.sci(DIG); c.in("x", s); c.in("a", a); c.cls("almost one to a huge exponent");
  const e_float x = E(s), b = E(a); const Q q = toQ(x), qa = toQ(b);
  if(std::fabs(q.fn("log").to_double() * qa.to_double()) > 1e8) { c.trivial(); return; }
  if(qa.abs() > Q::pow10(19)) c.hit("exponent beyond 64 bits");
  const Q w = q.fn("pow", qa); const Q extra = w * qa * q.fn("log");
  judge(c, ef::pow(x, b), [&](const Q& t) { return t.fn("pow", qa); }, q, "pow", DIG - 2.0, &extra);
}
FAMILY("C12.powhuge", 300*8, f_powhuge);
static void f_pown(Case& c)
{
  Rng& r = c.rng; long n; std::string s;
  switch(r.below(4))
  {
    case 0: n = r.range(-2000, 2000); s = gen_dec(r, -30, 30); c.cls("moderate"); break;
    case 1: n = (1L << r.range(0, 20)) + r.range(-1, 1); s = gen_dec(r, -3, 3); c.cls("near power of two"); break;
    case 2: { n = r.range(1000000, 1000000000L); if(r.chance(50)) n = -n; Q q = Q::I(1) + (r.chance(50) ? Q::I(1) : Q::I(-1)) * Qs(gen_dec(r, -40, -9, false)); s = q.sci(DIG); c.cls("large power of almost one"); break; }
    default: n = r.range(-100, 100); s = std::to_string(r.range(-50, 50)); if(s == "0") s = "3"; c.cls("integers"); break;
  }
  c.in("x", s); c.in("n", n); const e_float x = E(s); const Q q = toQ(x);
  if(std::fabs(q.log10abs() * (double) n) > MAX10 * 0.4) { c.trivial(); return; }
  judge(c, ef::pow(x, (std::int64_t) n), [&](const Q& t) { return t.fn("pown", n); }, q, "integer power");
  if(r.chance(25)) { const std::int64_t p = r.chance(50) ? r.range(-70, 70) : r.chance(80) ? r.range(-5000, 5000) : (r.chance(50) ? 1 : -1) * (std::int64_t) ((r.next() >> r.range(32, 52)) % 1000000000ULL); c.in("p", (long long) p); judge(c, ef::pow2(p), [&](const Q&) { return Q::pow2((long) p); }, Q::I(2), "pow2"); }
}
FAMILY("C12.pown", 1200*8, f_pown);

static void f_root(Case& c)
{
  Rng& r = c.rng; std::string s; long p;
  switch(r.below(5)) { case 0: p = 3; break; case 1: p = r.range(2, 12); break; case 2: p = r.range(2, 400); break; case 3: p = r.chance(20) ? 2147483647L - r.range(0, 3) : r.chance(20) ? (1L << r.range(2, 30)) : (long) std::pow(10.0, r.u01() * 9.33); if(p < 2) p = 2; break; default: p = r.range(2, 20); }
  switch(r.below(4))
  {
    case 0: { c.cls("perfect power"); p = r.range(2, 12); const Q t = Q::I(r.range(1, 100000)); s = t.fn("pown", p).fix(0); if((int) s.size() > DIG) { p = 3; s = t.fn("pown", p).fix(0); } break; }
    case 1: { c.cls("near one"); s = (Q::I(1) + (r.chance(50) ? Q::I(1) : Q::I(-1)) * Qs(gen_dec(r, -60, -1, false))).sci(DIG); break; }
    case 2: { c.cls("extreme"); const long w = r.chance(50) ? 4 : 1, e = r.range(MIN10 / w + 40, MAX10 / w - 40); s = gen_dec(r, e, e, false); break; }
    default: c.cls("moderate"); s = gen_dec(r, -30, 30, false);
  }
  if(r.chance(8)) p = 1; if(p > 400) c.hit("huge root");
  const bool inv = r.chance(20); if(inv) { p = -p; if(r.chance(10)) p = -2147483648L; }
  c.in("x", s); c.in("p", p); const e_float x = E(s); const Q q = toQ(x);
  const auto f = [&](const Q& t) { const Q a = p > 0 ? t.fn("root", p) : t.fn("root", -p); return p > 0 ? a : Q::I(1) / a; };
  judge(c, ef::rootn(x, (std::int32_t) p), f, q, "rootn");
  judge(c, ef::rootn_inverse(x, (std::int32_t) p), [&](const Q& t) { return Q::I(1) / f(t); }, q, "rootn_inverse");
  if(p == 3) judge(c, ef::cbrt(x), f, q, "cbrt");
  if(p == 2) judge(c, ef::sqrt(x), f, q, "sqrt");
}
FAMILY("C12.root", 1200*8, f_root);

static void f_special(Case& c)
{
  static const char* const names[] = { "exp(0)", "exp(inf)", "exp(-inf)", "exp(nan)", "log(0)", "log(1)", "log(-x)", "log(inf)", "log(nan)", "pow(x,0)", "pow(0,a)", "pow(1,a)", "pow(x,1)", "pow(inf,a)", "pow(nan,a)", "pow(0,-a)", "rootn(0)", "cbrt(0)", "sqrt(0)", "rootn(x,0)", "rootn(-x)", "pow(x,nan)", "log10(10^k)", "log1p(0)", "log1p(-1)", "sqrt(-x)", "pow(x,inf)", "pow(x,-inf)", "pow(x,min)", "rootn_inverse(0)" };
  Rng& r = c.rng; const int k = (int) (c.idx % (long) (sizeof names / sizeof names[0])); c.cls(names[k]); c.in("rule", names[k]);
  const e_float inf = std::numeric_limits<e_float>::infinity(), nan = std::numeric_limits<e_float>::quiet_NaN(), zero(0), one(1);
  const std::string xs = gen_dec(r, -8, 8, false), as = gen_dec(r, -2, 2, false); const e_float x = E(xs), a = E(as); c.in("x", xs); c.in("a", as);
  const long m = r.range(1, 60); c.in("m", m);
  e_float y; bool ok = true; const auto chk = [&](const e_float& v, bool b) { y = v; ok = b; };
  switch(k)
  {
    case 0: y = ef::exp(zero); ok = y == 1; break;
    case 1: y = ef::exp(inf); ok = y.isinf() && !y.isneg(); break;
    case 2: y = ef::exp(-inf); ok = y.iszero(); break;
    case 3: y = ef::exp(nan); ok = y.isnan(); break;
    case 4: y = ef::log(zero); ok = y.isinf() && y.isneg(); break;
    case 5: y = ef::log(one); ok = y.iszero(); break;
    case 6: y = ef::log(-x); ok = y.isnan(); break;
    case 7: y = ef::log(inf); ok = y.isinf() && !y.isneg(); break;
    case 8: y = ef::log(nan); ok = y.isnan(); break;
    case 9: y = ef::pow(r.chance(50) ? x : -x, zero); ok = y == 1; break;
    case 10: y = ef::pow(zero, a); ok = y.iszero(); break;
    case 11: y = ef::pow(one, a); ok = y == 1; break;
    case 12: y = ef::pow(x, one); ok = y == x; break;
    case 13: y = ef::pow(inf, a); ok = y.isinf() && !y.isneg(); break;
    case 14: y = ef::pow(nan, a); ok = y.isnan(); break;
    case 15: y = ef::pow(zero, -a); ok = y.isinf(); break;
    case 16: y = ef::rootn(zero, (std::int32_t) m); ok = y.iszero(); break;
    case 17: y = ef::cbrt(zero); ok = y.iszero(); break;
    case 18: y = ef::sqrt(zero); ok = y.iszero(); break;
    case 19: y = ef::rootn(x, 0); ok = y.isnan(); break;
    case 20: y = ef::rootn(-x, (std::int32_t) (2 * m)); ok = y.isnan(); break;
    case 21: y = ef::pow(x, nan); ok = y.isnan(); break;
    case 22: { const long e = r.range(-300, 300); y = ef::log10(E("1e" + std::to_string(e))); chk(y, ef::fabs(y - e) < e_float("1e-" + std::to_string(DIG - 4))); break; }
    case 23: y = ef::log1p(zero); ok = y.iszero(); break;
    case 24: y = ef::log1p(-one); ok = y.isinf() && y.isneg(); break;
    case 26: y = ef::pow(x, inf); ok = x > 1 ? (y.isinf() && !y.isneg()) : (x < 1 ? y.iszero() : y == 1); break;
    case 27: y = ef::pow(x, -inf); ok = x < 1 ? (y.isinf() && !y.isneg()) : (x > 1 ? y.iszero() : y == 1); break;
    case 28: { const std::int64_t mn = (std::numeric_limits<std::int64_t>::min)(); y = ef::pow(x, mn); ok = x > 1 ? y.iszero() : (x < 1 ? y.isinf() : y == 1); if(x > e_float("0.999") && x < e_float("1.001")) ok = true; const e_float z = ef::pow(-one, mn); ok = ok && z == 1; break; }
    case 29: y = ef::rootn_inverse(zero, (std::int32_t) m); ok = y.isinf(); break;
    case 25: y = ef::sqrt(-x); ok = y.isnan(); break;
  }
  c.check(ok, "special value", [&]{ return std::string(names[k]) + " = " + shortstr(y); });
}
FAMILY("C12.special", 520*8, f_special);
// integer powers of infinities and zero, through both overloads
static void f_infpow(Case& c)
{
  Rng& r = c.rng; const e_float inf = std::numeric_limits<e_float>::infinity(); const long n = r.chance(70) ? r.range(1, 12) : r.range(1, 1000000000L); const bool odd = n & 1; c.in("n", n); c.cls(odd ? "odd" : "even");
  const e_float m(n), f = e_float(n) + e_float("0.5"); const auto txt = [](const e_float& y) { return shortstr(y); };
  for(int k = 0; k < 2; ++k)
  {
    const auto P = [&](const e_float& x, long e) { return k ? ef::pow(x, e_float(e)) : ef::pow(x, (std::int64_t) e); }; e_float y;
    y = P(inf, n); c.check(y.isinf() && !y.isneg(), "infinity to a positive integer", [&]{ return txt(y); });
    y = P(-inf, n); c.check(y.isinf() && y.isneg() == odd, "-infinity to a positive integer", [&]{ return txt(y); });
    y = P(inf, -n); c.check(y.iszero(), "infinity to a negative integer", [&]{ return txt(y); });
    y = P(-inf, -n); c.check(y.iszero(), "-infinity to a negative integer", [&]{ return txt(y); });
    y = P(inf, 0); c.check(y == 1, "infinity to the zero", [&]{ return txt(y); });
    y = P(e_float(0), n); c.check(y.iszero(), "zero to a positive integer", [&]{ return txt(y); });
    y = P(e_float(0), -n); c.check(y.isinf(), "zero to a negative integer", [&]{ return txt(y); });
    y = P(e_float(-1), n); c.check(y == (odd ? -1 : 1), "-1 to an integer", [&]{ return txt(y); });
    y = P(std::numeric_limits<e_float>::quiet_NaN(), n); c.check(y.isnan(), "NaN to an integer", [&]{ return txt(y); });
  }
  e_float y = ef::pow(inf, f); c.check(y.isinf() && !y.isneg(), "infinity to a positive number", [&]{ return txt(y); });
  y = ef::pow(inf, -f); c.check(y.iszero(), "infinity to a negative number", [&]{ return txt(y); });
  y = ef::pow(e_float(0), f); c.check(y.iszero(), "zero to a positive number", [&]{ return txt(y); });
  y = ef::pow(e_float(0), -f); c.check(y.isinf() && !y.isneg(), "zero to a negative number", [&]{ return txt(y); });
}
FAMILY("C12.infpow", 200*8, f_infpow);
