// C21: complex elementary functions.
#include "cfmon.h"
static CQ held(const C& z) { return toCQ(z); }
static std::string sgn(Rng& r, const std::string& s) { return r.chance(50) ? s : s[0] == '-' ? s.substr(1) : "-" + s; }
// kind 0: inverse functions, roots and logarithms (whole plane); 1: exponential kind (moderate sizes)
static C gen_z(Case& c, int kind)
{
  Rng& r = c.rng; std::string a, b; const long big = std::min<long>(MAX10 / 8, 20000000);
  switch(r.below(13))
  {
    case 0: case 1: a = gen_dec(r, -2, 1); b = gen_dec(r, -2, 1); c.cls("moderate"); break;
    case 2: { const long e = kind ? r.range(-60, 1) : r.range(-200, -3); a = gen_dec(r, e - 3, e + 3); b = gen_dec(r, e - 3, e + 3); c.cls("tiny"); break; }
    case 3: { const long e = kind ? r.range(1, 3) : r.range(3, 300); a = gen_dec(r, e - 3, e); b = gen_dec(r, e - 3, e); c.cls("large"); break; }
    case 4: a = gen_dec(r, -40, kind ? 2 : 40); b = gen_dec(r, -40, kind ? 2 : 40); c.cls("mixed scales"); break;
    case 5: a = gen_dec(r, -40, kind ? 3 : 40); b = "0"; c.cls("real axis"); break;
    case 6: a = "0"; b = gen_dec(r, -40, kind ? 3 : 40); c.cls("imaginary axis"); break;
    case 7: { const std::string d = gen_dec(r, -60, -2); const Q q = Qs(r.chance(50) ? "1" : "-1") + Qs(d); a = q.sci(DIG - 1); b = r.chance(25) ? "0" : gen_dec(r, -60, -2); c.cls("near +-1"); break; }
    case 8: { const std::string d = gen_dec(r, -60, -2); const Q q = Qs(r.chance(50) ? "1" : "-1") + Qs(d); b = q.sci(DIG - 1); a = r.chance(25) ? "0" : gen_dec(r, -60, -2); c.cls("near +-i"); break; }
    case 9: { const Q t = Qs(gen_dec(r, -2, 0)); a = t.fn("cos").sci(DIG - 1); b = t.fn("sin").sci(DIG - 1); if(r.chance(50)) a = sgn(r, a); c.cls("unit circle"); break; }
    case 10: a = std::to_string(r.range(-5, 5)); b = std::to_string(r.range(-5, 5)); if(a == "0" && b == "0") a = "1"; c.cls("small integers"); break;
    case 11: if(kind) { const Q t = Q::I(r.range(-40, 40)) * Q::I(0).fn("pi") / Q::I(2); a = r.chance(50) ? t.sci(DIG - 1) : gen_dec(r, -2, 1); b = a[0] == '-' || r.chance(50) ? gen_dec(r, -20, 1) : t.sci(DIG - 1); c.cls("near multiples of pi/2"); } else { a = gen_dec(r, -big, big); b = gen_dec(r, -big, big); c.cls("extreme"); } break;
    default: if(kind) { a = gen_dec(r, -2, 4); b = gen_dec(r, -2, 4); c.cls("large parts"); } else { const long e = r.range(-big, big); a = gen_dec(r, e - 2, e + 2); b = gen_dec(r, e - 2, e + 2); c.cls("extreme same scale"); } break;
  }
  c.in("z", "(" + a + "," + b + ")"); return C(e_float(a), e_float(b));
}
#define FN(name, kind, oracle, comp, cut, n) static void f_##name(Case& c) { const C z = gen_z(c, kind); judgec(c, ef::name(z), [](const CQ& q) { return oracle(q); }, held(z), #name, comp, cut); } static FamilyReg reg_##name("C21." #name, n, f_##name, 10)
static CQ clog10(const CQ& z) { const CQ l = clog(z); const Q t = Q::I(10).fn("log"); return CQ(l.re / t, l.im / t); }
FN(sqrt, 0, csqrt, true, REALCUT, 1500);
FN(log, 0, clog, false, REALCUT, 1200);
FN(log10, 0, clog10, false, REALCUT, 400);
FN(asin, 0, casin, true, REALCUT, 1200);
FN(acos, 0, cacos, true, REALCUT, 1200);
FN(atan, 0, catan, false, IMAGCUT, 1200);
FN(asinh, 0, casinh, true, IMAGCUT, 1200);
FN(acosh, 0, cacosh, true, REALCUT, 1200);
FN(atanh, 0, catanh, false, REALCUT, 1200);
FN(exp, 1, cexp, true, NOCUT, 1500);
FN(sin, 1, csin, true, NOCUT, 1000);
FN(cos, 1, ccos, true, NOCUT, 1000);
FN(sinh, 1, csinh, true, NOCUT, 1000);
FN(cosh, 1, ccosh, true, NOCUT, 1000);
FN(tan, 1, ctan, false, NOCUT, 1000);
FN(tanh, 1, ctanh, false, NOCUT, 1000);
static void f_pow(Case& c)
{
  Rng& r = c.rng; const C z = gen_z(c, r.chance(70) ? 1 : 0); const std::string as = gen_dec(r, -6, 1), bs = gen_dec(r, -6, 1); const e_float a(as), b(bs); c.in("a", "(" + as + "," + bs + ")");
  const C w(a, b); const CQ Z = held(z), W = held(w); const Q h = Q::pow10(-(DIG + 10)); const double lw = W.abs().log10abs();
  if(!Z.iszero())
  {
    const double lz = std::fabs(clog(Z).abs().to_double()); const double k = DIG - 2.5 - std::max(0.0, std::log10(1 + lz * std::pow(10.0, lw)));
    auto f = [&](const C& got, const CQ& want, const char* what, bool cut) { const CQ g = toCQ(got); const Q s = want.abs(); const double lg = s.log10abs(); if(!want.isfinite() || lg > MAX10 / 2 || lg < MIN10 / 2) return; bool ok = nearc(g, want, s, s, k); c.check(ok, what, [&]{ return cdiff(g, want); }); (void) cut; };
    f(ef::pow(z, w), cpow(Z, W), "pow(z, w)", false); f(ef::pow(z, a), cpow(Z, CQ(W.re)), "pow(z, x)", false);
    if(!Z.re.iszero()) f(ef::pow(z.real(), w), cpow(CQ(Z.re), W), "pow(x, w)", false);
    (void) h;
  }
  if(W.re.sgn() > 0) { c.check(ef::pow(C(), w) == C() && ef::pow(C(), a) == C() && ef::pow(ef::zero(), w) == C(), "power of zero"); }
}
FAMILYX("C21.pow", 800, f_pow, 10);
// identities that tie the functions together on the library's own results, and exact special values
static void f_ident(Case& c)
{
  Rng& r = c.rng; const std::string as = gen_dec(r, -3, 0), bs = gen_dec(r, -3, 0); const C z{e_float(as), e_float(bs)}; c.in("z", "(" + as + "," + bs + ")"); const CQ Z = held(z); const double k = DIG - 4;
  auto same = [&](const C& x, const C& y, const char* what) { const CQ a = toCQ(x), b = toCQ(y); const Q s = b.abs() + Q::I(1); c.check(nearc(a, b, s, s, k), what, [&]{ return cdiff(a, b); }); };
  same(ef::sqrt(z) * ef::sqrt(z), z, "sqrt squared"); same(ef::exp(ef::log(z)), z, "exp(log)"); same(ef::sin(ef::asin(z)), z, "sin(asin)"); same(ef::cos(ef::acos(z)), z, "cos(acos)"); same(ef::tan(ef::atan(z)), z, "tan(atan)");
  same(ef::sinh(ef::asinh(z)), z, "sinh(asinh)"); same(ef::cosh(ef::acosh(z)), z, "cosh(acosh)"); same(ef::tanh(ef::atanh(z)), z, "tanh(atanh)"); same(ef::sin(z) * ef::sin(z) + ef::cos(z) * ef::cos(z), C(e_float(1)), "sin^2+cos^2"); same(ef::cosh(z) * ef::cosh(z) - ef::sinh(z) * ef::sinh(z), C(e_float(1)), "cosh^2-sinh^2");
  same(ef::exp(ef::conj(z)), ef::conj(ef::exp(z)), "exp of the conjugate"); same(ef::asin(-z), -ef::asin(z), "asin is odd"); same(ef::pow(z, e_float(2)), z * z, "pow 2"); same(ef::log10(z) * e_float(ef::ln10()), ef::log(z), "log10"); (void) Z;
  if(c.idx == 0) { const C o; c.check(ef::sqrt(o) == o && ef::sin(o) == o && ef::sinh(o) == o && ef::tan(o) == o && ef::tanh(o) == o && ef::asin(o) == o && ef::asinh(o) == o && ef::atan(o) == o && ef::atanh(o) == o && ef::exp(o) == C(e_float(1)) && ef::cos(o) == C(e_float(1)) && ef::cosh(o) == C(e_float(1)), "values at zero"); }
}
FAMILYX("C21.identities", 300, f_ident, 10);
// the generic template on built-in types
template<class T> static void gen_fn(Case& c)
{
  Rng& r = c.rng; typedef ef::complex<T> Z; typedef std::complex<T> S; typedef std::complex<long double> L;
  const double sc = std::pow(10.0, (double) r.range(-3, 1)); T a = (T) ((double) (std::int64_t) r.next() / 9.3e18 * sc), b = (T) ((double) (std::int64_t) r.next() / 9.3e18 * sc); if(r.chance(10)) a = (T) r.range(-3, 3); if(r.chance(10)) b = (T) r.range(-3, 3); if(a == 0 && b == 0) a = 1;
  const Z z(a, b); const L p((long double) a, (long double) b); c.in("z", fmt("(%.20g,%.20g)", (double) a, (double) b)); const long double eps = std::numeric_limits<T>::epsilon();
  auto ck = [&](const Z& g, const L& w, const L& dw, const char* what) { if(!std::isfinite((double) std::abs(w))) return; const long double s = std::abs(w) + std::abs(p) * std::abs(dw); const long double e = std::abs(L(g.real(), g.imag()) - w); c.check(e <= 32 * eps * s, what, [&]{ return fmt("got (%.20g,%.20g) want (%.20g,%.20g)", (double) g.real(), (double) g.imag(), (double) w.real(), (double) w.imag()); }); };
  const L one(1); const bool cut = b == 0 || a == 0;
  ck(ef::exp(z), std::exp(p), std::exp(p), "exp"); ck(ef::sin(z), std::sin(p), std::cos(p), "sin"); ck(ef::cos(z), std::cos(p), std::sin(p), "cos"); ck(ef::sinh(z), std::sinh(p), std::cosh(p), "sinh"); ck(ef::cosh(z), std::cosh(p), std::sinh(p), "cosh");
  ck(ef::tan(z), std::tan(p), one / (std::cos(p) * std::cos(p)), "tan"); ck(ef::tanh(z), std::tanh(p), one / (std::cosh(p) * std::cosh(p)), "tanh"); ck(ef::sqrt(z), std::sqrt(p), std::sqrt(p) / p, "sqrt"); ck(ef::log(z), std::log(p), one / p, "log"); ck(ef::log10(z), std::log10(p), one / p, "log10");
  if(!cut) { ck(ef::asin(z), std::asin(p), one / std::sqrt(one - p * p), "asin"); ck(ef::acos(z), std::acos(p), one / std::sqrt(one - p * p), "acos"); ck(ef::atan(z), std::atan(p), one / (one + p * p), "atan"); ck(ef::asinh(z), std::asinh(p), one / std::sqrt(one + p * p), "asinh"); ck(ef::acosh(z), std::acosh(p), one / std::sqrt(p * p - one), "acosh"); ck(ef::atanh(z), std::atanh(p), one / (one - p * p), "atanh"); }
  const T x = (T) ((double) r.range(-40, 40) / 8); ck(ef::pow(z, x), std::pow(p, (long double) x), (long double) x * std::pow(p, (long double) x) * (std::log(p) + one) / p, "pow(z, x)"); const Z w(x, (T) 0.5); const L W((long double) x, 0.5L); ck(ef::pow(z, w), std::pow(p, W), W * std::pow(p, W) * (std::log(p) + one) / p, "pow(z, w)");
}
static void f_generic(Case& c) { if(c.rng.chance(70)) { c.cls("double"); gen_fn<double>(c); } else { c.cls("float"); gen_fn<float>(c); } }
FAMILYX("C21.generic", 3000, f_generic, 8);
