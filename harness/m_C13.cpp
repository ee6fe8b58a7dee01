// C13: circular functions and their inverses agree with the true values.
#include "fnmon.h"
static e_float E(const std::string& s) { return e_float(s); }
static Q rec(const Q& t) { return Q::I(1) / t; }

static std::string gen_angle(Case& c)
{
  Rng& r = c.rng; const Q pi = Q().fn("pi");
  switch(r.below(9))
  {
    case 0: c.cls("tiny"); return gen_dec(r, -150, -8);
    case 1: c.cls("small"); return gen_dec(r, -13, -2);
    case 2: c.cls("order one"); return gen_dec(r, -1, 0);
    case 3: c.cls("moderate"); return gen_dec(r, 0, 4);
    case 4: c.cls("large"); return gen_dec(r, 5, 40);
    case 5: c.cls("near multiple of pi/2"); { Q q = pi * Q::I(r.range(-4000, 4000)) / Q::I(2); if(r.chance(70)) q = q + (r.chance(50) ? Q::I(1) : Q::I(-1)) * Qs(gen_dec(r, -40, -1, false)); return q.sci(DIG); }
    case 6: c.cls("multiple of pi/12"); return (pi * Q::I(r.range(-400, 400)) / Q::I(12)).sci(DIG);
    case 7: c.cls("integer"); return std::to_string(r.range(-1000000, 1000000));
    default: c.cls("near pi/2"); { Q q = pi / Q::I(2) + (r.chance(50) ? Q::I(1) : Q::I(-1)) * Qs(gen_dec(r, -40, -1, false)); return q.sci(DIG); }
  }
}
static void f_sincos(Case& c)
{
  const std::string s = gen_angle(c); c.in("x", s); const e_float x = E(s); const Q q = toQ(x);
  judge(c, ef::sin(x), [](const Q& t) { return t.fn("sin"); }, q, "sin");
  judge(c, ef::cos(x), [](const Q& t) { return t.fn("cos"); }, q, "cos");
  e_float a(77), b(78); ef::sincos(x, &a, &b);
  judge(c, a, [](const Q& t) { return t.fn("sin"); }, q, "sincos sin"); judge(c, b, [](const Q& t) { return t.fn("cos"); }, q, "sincos cos");
  if(c.rng.chance(10)) { e_float u(5), v(6); ef::sincos(x, &u, nullptr); ef::sincos(x, nullptr, &v); c.check(u == a && v == b, "sincos with one result"); }
}
FAMILY("C13.sincos", 6000, f_sincos);
static void f_tan(Case& c)
{
  const std::string s = gen_angle(c); c.in("x", s); const e_float x = E(s); const Q q = toQ(x);
  const Q sn = q.fn("sin"), cs = q.fn("cos");
  // next to a pole the argument does not determine the result
  const double lim = q.log10abs() - (DIG - 12.0);
  if(cs.log10abs() > lim) { judge(c, ef::tan(x), [](const Q& t) { return t.fn("tan"); }, q, "tan"); judge(c, ef::sec(x), [](const Q& t) { return rec(t.fn("cos")); }, q, "sec"); }
  if(sn.log10abs() > lim) { judge(c, ef::cot(x), [](const Q& t) { return rec(t.fn("tan")); }, q, "cot"); judge(c, ef::csc(x), [](const Q& t) { return rec(t.fn("sin")); }, q, "csc"); }
}
FAMILY("C13.tan", 4000, f_tan);

static std::string gen_unit(Case& c)
{
  Rng& r = c.rng;
  switch(r.below(6))
  {
    case 0: c.cls("tiny"); return gen_dec(r, -150, -10);
    case 1: c.cls("small"); return gen_dec(r, -13, -2);
    case 2: case 3: { c.cls("inside"); std::string s = gen_dec(r, -1, -1); return s; }
    case 4: { c.cls("near one"); Q q = Q::I(1) - Qs(gen_dec(r, -90, -2, false)); if(r.chance(50)) q = -q; return q.sci(DIG); }
    default: { c.cls("special angle"); Q q = (Q().fn("pi") * Q::I(r.range(-11, 11)) / Q::I(24)).fn("sin"); return q.sci(DIG); }
  }
}
static void f_asin(Case& c)
{
  const std::string s = gen_unit(c); c.in("x", s); const e_float x = E(s); const Q q = toQ(x);
  if(q.abs() >= Q::I(1)) { c.trivial(); return; }
  judge(c, ef::asin(x), [](const Q& t) { return t.fn("asin"); }, q, "asin");
  judge(c, ef::acos(x), [](const Q& t) { return t.fn("acos"); }, q, "acos");
}
FAMILY("C13.asin", 4000, f_asin);
static void f_atan(Case& c)
{
  Rng& r = c.rng; std::string s;
  switch(r.below(6)) { case 0: s = gen_unit(c); break; case 1: c.cls("large"); s = gen_dec(r, 2, 20); break; case 2: c.cls("very large"); s = gen_dec(r, 20, 300); break; case 3: { c.cls("extreme"); const long e = r.range(MIN10 / 4, MAX10 / 4); s = gen_dec(r, e, e); break; } case 4: c.cls("near one"); s = (Q::I(1) + Qs(gen_dec(r, -60, -2))).sci(DIG); break; default: c.cls("moderate"); s = gen_dec(r, -2, 2); }
  c.in("x", s); const e_float x = E(s); const Q q = toQ(x);
  judge(c, ef::atan(x), [](const Q& t) { return t.fn("atan"); }, q, "atan");
}
FAMILY("C13.atan", 4000, f_atan);
static void f_atan2(Case& c)
{
  Rng& r = c.rng; const long e = gen_order(r); const long e2 = r.chance(70) ? e + r.range(-5, 5) : e + r.range(-200, 200);
  const std::string ys = gen_dec(r, e, e), xs = gen_dec(r, e2, e2); c.in("y", ys); c.in("x", xs);
  const e_float y = E(ys), x = E(xs); const Q qy = toQ(y), qx = toQ(x); c.cls(std::string(qy.sgn() < 0 ? "y<0 " : "y>0 ") + (qx.sgn() < 0 ? "x<0" : "x>0"));
  const Q w = qy.fn("atan2", qx); c.check(close(toQ(ef::atan2(y, x)), w, DIG - 2.0), "atan2", [&]{ return diff(toQ(ef::atan2(y, x)), w); });
}
FAMILY("C13.atan2", 3000, f_atan2);

static void f_special(Case& c)
{
  static const char* const names[] = { "sin(0)", "cos(0)", "sin(nan/inf)", "cos(nan/inf)", "tan(0)", "asin(0)", "asin(+-1)", "acos(1)", "acos(-1)", "acos(0)", "asin outside", "acos outside", "asin(nan)", "atan(0)", "atan(inf)", "atan(nan)", "atan2(0,x)", "atan2(0,-x)", "atan2(y,0)", "atan2(y,inf)", "atan2(inf,x)", "atan2(inf,inf)", "atan2(nan)", "tan(nan/inf)", "atan2 extreme ratio" };
  Rng& r = c.rng; const int k = (int) (c.idx % (long) (sizeof names / sizeof names[0])); c.cls(names[k]); c.in("rule", names[k]);
  const e_float inf = std::numeric_limits<e_float>::infinity(), nan = std::numeric_limits<e_float>::quiet_NaN(), zero(0), one(1), pi(Q().fn("pi").sci(DIG + 5));
  const e_float h = pi / 2;
  const std::string xs = gen_dec(r, -8, 8, false); const e_float x = E(xs); c.in("x", xs); const bool neg = r.chance(50); c.in("neg", neg);
  const e_float sx = neg ? -x : x, si = neg ? -inf : inf; const int ch = (int) r.below(3); const e_float nf = ch == 0 ? nan : si;
  e_float y; bool ok = true; const auto eq = [&](const e_float& v, const e_float& w) { y = v; const e_float d = ef::fabs(v - w); return d <= ef::fabs(w) * e_float("1e-" + std::to_string(DIG - 2)); };
  switch(k)
  {
    case 0: y = ef::sin(zero); ok = y.iszero(); break;
    case 1: y = ef::cos(zero); ok = y == 1; break;
    case 2: y = ef::sin(nf); ok = y.isnan(); break;
    case 3: y = ef::cos(nf); ok = y.isnan(); break;
    case 4: y = ef::tan(zero); ok = y.iszero(); break;
    case 5: y = ef::asin(zero); ok = y.iszero(); break;
    case 6: ok = eq(ef::asin(neg ? -one : one), neg ? -h : h); break;
    case 7: y = ef::acos(one); ok = y.iszero(); break;
    case 8: ok = eq(ef::acos(-one), pi); break;
    case 9: ok = eq(ef::acos(zero), h); break;
    case 10: y = ef::asin(neg ? -one - x : one + x); ok = y.isnan(); break;
    case 11: y = ef::acos(neg ? -one - x : one + x); ok = y.isnan(); break;
    case 12: y = ef::asin(nan); ok = y.isnan() && ef::acos(nan).isnan(); break;
    case 13: y = ef::atan(zero); ok = y.iszero(); break;
    case 14: ok = eq(ef::atan(si), neg ? -h : h); break;
    case 15: y = ef::atan(nan); ok = y.isnan(); break;
    case 16: y = ef::atan2(zero, x); ok = y.iszero(); break;
    case 17: ok = eq(ef::atan2(zero, -x), pi); break;
    case 18: ok = eq(ef::atan2(sx, zero), neg ? -h : h); break;
    case 19: if(ch) { y = ef::atan2(sx, inf); ok = y.iszero(); } else ok = eq(ef::atan2(sx, -inf), neg ? -pi : pi); break;
    case 20: ok = eq(ef::atan2(si, ch ? x : -x), neg ? -h : h); break;
    case 21: { const e_float w = ch ? pi / 4 : pi * 3 / 4; ok = eq(ef::atan2(si, ch ? inf : -inf), neg ? -w : w); break; }
    case 22: y = r.chance(50) ? ef::atan2(nan, ch ? sx : si) : ef::atan2(ch ? sx : si, nan); ok = y.isnan(); break;
    case 23: y = ef::tan(nf); ok = y.isnan(); break;
    case 24: { const e_float big("1e" + std::to_string(MAX10 - 50)), small("1e" + std::to_string(MIN10 + 50)); if(ch == 0) ok = eq(ef::atan2(neg ? -big : big, small), neg ? -h : h); else if(ch == 1) ok = eq(ef::atan2(neg ? -small : small, -big), neg ? -pi : pi); else { y = ef::atan2(small, big); ok = ef::fabs(y) < e_float("1e-100"); } break; }
  }
  c.check(ok, "special value", [&]{ return std::string(names[k]) + " = " + shortstr(y); });
}
FAMILY("C13.special", 2000, f_special);
