// C14: hyperbolic functions and their inverses agree with the true values.
#include "fnmon.h"
static e_float E(const std::string& s) { return e_float(s); }

static std::string gen_h(Case& c)
{
  Rng& r = c.rng;
  switch(r.below(7))
  {
    case 0: c.cls("tiny"); return gen_dec(r, -150, -15);
    case 1: c.cls("small"); return gen_dec(r, -14, -2);
    case 2: c.cls("order one"); return gen_dec(r, -1, 0);
    case 3: c.cls("moderate"); return gen_dec(r, 1, 2);
    case 4: c.cls("large"); return gen_dec(r, 3, 8);
    case 5: c.cls("integer"); return std::to_string(r.range(-1000, 1000));
    default: c.cls("half integer"); return std::to_string(r.range(-300, 300)) + ".5";
  }
}
static void f_sinhcosh(Case& c)
{
  const std::string s = gen_h(c); c.in("x", s); const e_float x = E(s); const Q q = toQ(x);
  judge(c, ef::sinh(x), [](const Q& t) { return t.fn("sinh"); }, q, "sinh");
  judge(c, ef::cosh(x), [](const Q& t) { return t.fn("cosh"); }, q, "cosh");
  judge(c, ef::tanh(x), [](const Q& t) { return t.fn("tanh"); }, q, "tanh");
  e_float a(77), b(78); ef::sinhcosh(x, &a, &b);
  judge(c, a, [](const Q& t) { return t.fn("sinh"); }, q, "sinhcosh sinh"); judge(c, b, [](const Q& t) { return t.fn("cosh"); }, q, "sinhcosh cosh");
  if(c.rng.chance(10)) { e_float u(5), v(6); ef::sinhcosh(x, &u, nullptr); ef::sinhcosh(x, nullptr, &v); c.check(u == a && v == b, "sinhcosh with one result"); }
}
FAMILY("C14.sinhcosh", 6000, f_sinhcosh);
static void f_tanhlarge(Case& c)
{
  Rng& r = c.rng; const std::string s = gen_dec(r, 2, r.chance(50) ? 12 : 40); c.in("x", s); const e_float x = E(s); c.cls("beyond overflow of cosh");
  const Q q = toQ(x); judge(c, ef::tanh(x), [](const Q& t) { return t.fn("tanh"); }, q, "tanh of a large argument");
}
FAMILY("C14.tanhlarge", 600, f_tanhlarge);
static void f_asinh(Case& c)
{
  Rng& r = c.rng; std::string s;
  if(r.chance(25)) { c.cls("extreme"); const long e = r.range(MIN10 / 3, MAX10 - 100); s = gen_dec(r, e, e); } else s = gen_h(c);
  c.in("x", s); const e_float x = E(s); const Q q = toQ(x);
  judge(c, ef::asinh(x), [](const Q& t) { return t.fn("asinh"); }, q, "asinh");
}
FAMILY("C14.asinh", 4000, f_asinh);
static void f_acosh(Case& c)
{
  Rng& r = c.rng; std::string s;
  switch(r.below(4)) { case 0: { c.cls("near one"); s = (Q::I(1) + Qs(gen_dec(r, -(DIG - 5), -1, false))).sci(DIG); break; } case 1: { c.cls("extreme"); const long e = r.range(10, MAX10 - 100); s = gen_dec(r, e, e, false); break; } case 2: c.cls("moderate"); s = gen_dec(r, 1, 8, false); break; default: c.cls("order one"); s = gen_dec(r, 0, 0, false); }
  c.in("x", s); const e_float x = E(s); const Q q = toQ(x); if(q <= Q::I(1)) { c.trivial(); return; }
  judge(c, ef::acosh(x), [](const Q& t) { return t.fn("acosh"); }, q, "acosh");
}
FAMILY("C14.acosh", 4000, f_acosh);
static void f_atanh(Case& c)
{
  Rng& r = c.rng; std::string s;
  switch(r.below(5)) { case 0: c.cls("tiny"); s = gen_dec(r, -150, -15); break; case 1: c.cls("small"); s = gen_dec(r, -14, -2); break; case 2: { c.cls("near one"); Q q = Q::I(1) - Qs(gen_dec(r, -80, -2, false)); if(r.chance(50)) q = -q; s = q.sci(DIG); break; } default: c.cls("inside"); s = gen_dec(r, -1, -1); }
  c.in("x", s); const e_float x = E(s); const Q q = toQ(x); if(q.abs() >= Q::I(1)) { c.trivial(); return; }
  judge(c, ef::atanh(x), [](const Q& t) { return t.fn("atanh"); }, q, "atanh");
}
FAMILY("C14.atanh", 4000, f_atanh);
static void f_special(Case& c)
{
  static const char* const names[] = { "sinh(0)", "cosh(0)", "tanh(0)", "sinh(inf)", "cosh(inf)", "tanh(inf)", "sinh(nan)", "cosh(nan)", "tanh(nan)", "asinh(0)", "asinh(inf)", "asinh(nan)", "acosh(1)", "acosh(<1)", "acosh(inf)", "acosh(nan)", "atanh(0)", "atanh outside", "atanh(nan)", "odd and even", "sinh overflow", "sinhcosh(inf)" };
  Rng& r = c.rng; const int k = (int) (c.idx % (long) (sizeof names / sizeof names[0])); c.cls(names[k]); c.in("rule", names[k]);
  const e_float inf = std::numeric_limits<e_float>::infinity(), nan = std::numeric_limits<e_float>::quiet_NaN(), zero(0), one(1);
  const std::string xs = gen_dec(r, -8, 3, false); const e_float x = E(xs); c.in("x", xs); const bool neg = r.chance(50); c.in("neg", neg); const e_float si = neg ? -inf : inf;
  e_float y; bool ok = true;
  switch(k)
  {
    case 0: y = ef::sinh(zero); ok = y.iszero(); break;
    case 1: y = ef::cosh(zero); ok = y == 1; break;
    case 2: y = ef::tanh(zero); ok = y.iszero(); break;
    case 3: y = ef::sinh(si); ok = y.isinf() && y.isneg() == neg; break;
    case 4: y = ef::cosh(si); ok = y.isinf() && !y.isneg(); break;
    case 5: y = ef::tanh(si); ok = y == (neg ? -1 : 1); break;
    case 6: y = ef::sinh(nan); ok = y.isnan(); break;
    case 7: y = ef::cosh(nan); ok = y.isnan(); break;
    case 8: y = ef::tanh(nan); ok = y.isnan(); break;
    case 9: y = ef::asinh(zero); ok = y.iszero(); break;
    case 10: y = ef::asinh(si); ok = y.isinf() && y.isneg() == neg; break;
    case 11: y = ef::asinh(nan); ok = y.isnan(); break;
    case 12: y = ef::acosh(one); ok = y.iszero(); break;
    case 13: y = ef::acosh(neg ? one - x / (x + 1) : -x); ok = y.isnan(); break;
    case 14: y = ef::acosh(inf); ok = y.isinf() && !y.isneg(); break;
    case 15: y = ef::acosh(nan); ok = y.isnan(); break;
    case 16: y = ef::atanh(zero); ok = y.iszero(); break;
    case 17: y = ef::atanh(neg ? -one - x : one + x); ok = y.isnan(); break;
    case 18: y = ef::atanh(nan); ok = y.isnan(); break;
    case 19: { const e_float t = x / (x + 1); ok = ef::sinh(-t) == -ef::sinh(t) && ef::cosh(-t) == ef::cosh(t) && ef::tanh(-t) == -ef::tanh(t) && ef::asinh(-t) == -ef::asinh(t) && ef::atanh(-t) == -ef::atanh(t);
                // reflections may differ in the guard digits only
                const e_float tol("1e-" + std::to_string(DIG - 2)); if(!ok) ok = ef::fabs(ef::sinh(-t) + ef::sinh(t)) <= tol * ef::fabs(ef::sinh(t)) && ef::fabs(ef::tanh(-t) + ef::tanh(t)) <= tol * ef::fabs(ef::tanh(t)) && ef::fabs(ef::cosh(-t) - ef::cosh(t)) <= tol && ef::fabs(ef::asinh(-t) + ef::asinh(t)) <= tol * ef::fabs(ef::asinh(t)) && ef::fabs(ef::atanh(-t) + ef::atanh(t)) <= tol * ef::fabs(ef::atanh(t)); break; }
    case 20: { const e_float big = E("1e" + std::to_string(r.range(11, 40))); y = ef::sinh(neg ? -big : big); ok = y.isinf() && y.isneg() == neg && ef::cosh(neg ? -big : big).isinf(); break; }
    case 21: { e_float a(7), b(8); ef::sinhcosh(si, &a, &b); y = a; ok = a.isinf() && a.isneg() == neg && b.isinf() && !b.isneg(); e_float u(7), v(8); ef::sinhcosh(nan, &u, &v); ok = ok && u.isnan() && v.isnan(); break; }
  }
  c.check(ok, "special value", [&]{ return std::string(names[k]) + " = " + shortstr(y); });
}
FAMILY("C14.special", 2200, f_special);
