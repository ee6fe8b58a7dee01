// C25: the Boost.Multiprecision number over the e_float backend keeps the contract of a Boost number.
#include <boost/math/bindings/e_float.hpp>
#include <boost/math/constants/constants.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/special_functions/asinh.hpp>
#include <boost/math/special_functions/acosh.hpp>
#include <boost/math/special_functions/atanh.hpp>
#include <boost/math/special_functions/cbrt.hpp>
#include "fnmon.h"
namespace {
namespace mp = boost::multiprecision;
using BE = boost::math::ef::e_float;
using N0 = mp::number<BE, mp::et_off>;
using N1 = mp::number<BE, mp::et_on>;
const double K = DIG - 0.3;
template<class N> Q nq(const N& x) { return toQ(x.backend().crepresentation()); }
template<class N> std::string ns(const N& x) { return str(x.backend().crepresentation()); }
// integers and floating point numbers of the built-in types
template<class T> Q qof(T v) { if constexpr(std::is_floating_point<T>::value) return Q::L((long double) v); else if constexpr(std::is_signed<T>::value) return Q::I((long long) v); else return Q::U((unsigned long long) v); }
template<class T> T gen_b(Rng& r)
{
  if constexpr(std::is_floating_point<T>::value)
  {
    switch(r.below(6)) { case 0: return (T) r.range(-9, 9); case 1: return std::nextafter((T) 1, (T) r.range(0, 1) * 2); case 2: return std::numeric_limits<T>::max(); case 3: return std::numeric_limits<T>::min();
      default: return std::ldexp((T) (r.next() >> (64 - std::numeric_limits<T>::digits)), (int) r.range(-90, 20)) * (r.chance(50) ? (T) 1 : (T) -1); }
  }
  else switch(r.below(6)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return (T) r.range(0, 9); case 3: return (T) 0; case 4: return (T) (r.pick<unsigned long long>({ 100000000ULL, 4294967296ULL, 9223372036854775807ULL, 10000000000000000ULL }) + (unsigned long long) r.range(-1, 1)); default: return (T) (r.next() >> r.below(sizeof(T) * 8)); }
}
void cmpv(Case& c, const Q& got, const Q& want, const Q& scale, const char* what, double k = K)
{
  if(want.isnan()) { c.check(got.isnan(), what, [&]{ return "got " + qs(got) + " want nan"; }); return; }
  if(want.isinf()) { c.check(got.isinf() && got.sgn() == want.sgn(), what, [&]{ return "got " + qs(got) + " want " + qs(want); }); return; }
  c.check(within(got, want, scale, k), what, [&]{ return diff(got, want); });
}
template<class N, class T> void with_builtin(Case& c, const T v)
{
  Rng& r = c.rng; const Q qv = qof(v); c.in("v", qv.sci(25));
  std::string a; switch(r.below(7)) { case 0: a = "0"; break; case 1: a = qv.sci(60); break; case 2: a = (-qv).sci(60); break; case 3: a = gen_any(r); break; default: a = gen_dec(r, -30, 40); }
  c.in("a", a); const N x(a); const Q qx = Qs(a); if(qx.log10abs() > MAX10 - 6000 || (!qx.iszero() && qx.log10abs() < MIN10 + 6000)) { c.trivial(); return; }
  const Q s = qx.abs() + qv.abs();
  cmpv(c, nq(N(v)), qv, qv.abs(), "construct"); { N z("7"); z = v; cmpv(c, nq(z), qv, qv.abs(), "assign"); }
  cmpv(c, nq(N(x + v)), qx + qv, s, "n+b"); cmpv(c, nq(N(v + x)), qx + qv, s, "b+n"); cmpv(c, nq(N(x - v)), qx - qv, s, "n-b"); cmpv(c, nq(N(v - x)), qv - qx, s, "b-n"); cmpv(c, nq(N(x * v)), qx * qv, (qx * qv).abs(), "n*b"); cmpv(c, nq(N(v * x)), qx * qv, (qx * qv).abs(), "b*n");
  { N z(x); z += v; cmpv(c, nq(z), qx + qv, s, "n+=b"); z = x; z -= v; cmpv(c, nq(z), qx - qv, s, "n-=b"); z = x; z *= v; cmpv(c, nq(z), qx * qv, (qx * qv).abs(), "n*=b"); if(v != 0) { z = x; z /= v; cmpv(c, nq(z), qx / qv, (qx / qv).abs(), "n/=b"); } }
  if(v != 0) cmpv(c, nq(N(x / v)), qx / qv, (qx / qv).abs(), "n/b"); if(!qx.iszero()) cmpv(c, nq(N(v / x)), qv / qx, (qv / qx).abs(), "b/n");
  if(!within(qx, qv, s, DIG - 3.0) || qx == qv)
  {
    c.check((x < v) == (qx < qv) && (v < x) == (qv < qx) && (x > v) == (qx > qv) && (v > x) == (qv > qx) && (x <= v) == (qx <= qv) && (v <= x) == (qv <= qx) && (x >= v) == (qx >= qv) && (v >= x) == (qv >= qx) && (x == v) == (qx == qv) && (v == x) == (qx == qv) && (x != v) == !(qx == qv) && (v != x) == !(qx == qv), "comparison with a built-in number");
    const int w = qx < qv ? -1 : qx == qv ? 0 : 1; const int g = x.compare(v); c.check((g > 0) - (g < 0) == w, "compare()", [&]{ return fmt("%d want %d", g, w); });
    const BE& b = x.backend(); using namespace boost::math::ef; c.check(eval_eq(b, v) == (w == 0) && eval_eq(v, b) == (w == 0) && eval_lt(b, v) == (w < 0) && eval_gt(b, v) == (w > 0) && eval_lt(v, b) == (w > 0) && eval_gt(v, b) == (w < 0), "backend comparison"); c.hit(w == 0 ? "equal" : "unequal");
  }
  // and back
  if constexpr(std::is_floating_point<T>::value) { const T back = N(v).template convert_to<T>(); c.check(back == v || std::fabs(back - v) <= std::numeric_limits<T>::epsilon() * std::fabs(v), "floating point value back", fmt("%.21Lg want %.21Lg", (long double) back, (long double) v)); }
  else { const T back = N(v).template convert_to<T>(); c.check(back == v, "integer back"); const T cast = static_cast<T>(N(v)); c.check(cast == v, "integer cast back"); if(qv.abs() < Q::pow10(19)) { N f(v); f += (qv.sgn() < 0 ? -0.75 : 0.75); const Q t = qv; if(sizeof(T) < 8 || (v != std::numeric_limits<T>::max() && v != std::numeric_limits<T>::min())) c.check(f.template convert_to<T>() == v, "conversion truncates", [&]{ return ns(f); }); } }
}
template<class N> void builtin_(Case& c)
{
  Rng& r = c.rng;
  switch(r.below(13)) { case 0: with_builtin<N>(c, gen_b<signed char>(r)); break; case 1: with_builtin<N>(c, gen_b<unsigned char>(r)); break; case 2: with_builtin<N>(c, gen_b<short>(r)); break; case 3: with_builtin<N>(c, gen_b<unsigned short>(r)); break; case 4: with_builtin<N>(c, gen_b<int>(r)); break; case 5: with_builtin<N>(c, gen_b<unsigned>(r)); break; case 6: with_builtin<N>(c, gen_b<long>(r)); break; case 7: with_builtin<N>(c, gen_b<unsigned long>(r)); break; case 8: with_builtin<N>(c, gen_b<long long>(r)); break; case 9: with_builtin<N>(c, gen_b<unsigned long long>(r)); break; case 10: with_builtin<N>(c, gen_b<float>(r)); break; case 11: with_builtin<N>(c, gen_b<double>(r)); break; default: with_builtin<N>(c, gen_b<long double>(r)); }
}
void builtin(Case& c) { if(c.rng.chance(50)) { c.cls("et_off"); builtin_<N0>(c); } else { c.cls("et_on"); builtin_<N1>(c); } }
// expressions, also with the target among the operands
template<class N> void expr_(Case& c)
{
  Rng& r = c.rng; const std::string sa = gen_dec(r, -12, 12), sb = gen_dec(r, -12, 12), sc = gen_dec(r, -12, 12); c.in("a", sa); c.in("b", sb); c.in("c", sc);
  const N a(sa), b(sb), d(sc); const Q qa = Qs(sa), qb = Qs(sb), qc = Qs(sc); const Q A = qa.abs(), B = qb.abs(), C = qc.abs(); if(qa.iszero() || qb.iszero() || qc.iszero()) { c.trivial(); return; }
  auto chk = [&](const N& g, const Q& w, const Q& s, const char* what) { cmpv(c, nq(g), w, s, what, DIG - 1.0); };
  chk(N(a + b), qa + qb, A + B, "a+b"); chk(N(a - b), qa - qb, A + B, "a-b"); chk(N(a * b), qa * qb, A * B, "a*b"); chk(N(a / b), qa / qb, A / B, "a/b"); chk(N(-a), -qa, A, "-a"); chk(N(+a), qa, A, "+a");
  chk(N(a * b + d), qa * qb + qc, A * B + C, "a*b+c"); chk(N(a * b - d), qa * qb - qc, A * B + C, "a*b-c"); chk(N(d - a * b), qc - qa * qb, A * B + C, "c-a*b"); chk(N(a * (b + d) / b - d), qa * (qb + qc) / qb - qc, A * (B + C) / B + C, "a*(b+c)/b-c"); chk(N((a - b) * (a + b)), qa * qa - qb * qb, (A + B) * (A + B), "(a-b)(a+b)"); chk(N(2 * a - 3u * b + d / 4LL - 0.5), 2 * qa - 3 * qb + qc / Q::I(4) - Q::D(0.5), A * Q::I(2) + B * Q::I(3) + C + Q::I(1), "mixed literals");
  { N z(a); z = z * b + z; chk(z, qa * qb + qa, A * B + A, "z=z*b+z"); z = a; z = b - z * z; chk(z, qb - qa * qa, B + A * A, "z=b-z*z"); z = a; z = d / z + b * z; chk(z, qc / qa + qb * qa, C / A + B * A, "z=c/z+b*z"); z = a; z *= z; chk(z, qa * qa, A * A, "z*=z"); z = a; z += z; chk(z, qa + qa, A, "z+=z"); z = a; z -= z; chk(z, Q::I(0), A, "z-=z"); c.check(z.is_zero() && z.sign() == 0, "z-=z is zero"); z = a; z /= z; chk(z, Q::I(1), Q::I(1), "z/=z"); z = a; z += z * b; chk(z, qa + qa * qb, A + A * B, "z+=z*b"); z = a; z -= b * z; chk(z, qa - qa * qb, A + A * B, "z-=b*z"); z = a; z *= z + b; chk(z, qa * (qa + qb), A * (A + B), "z*=z+b"); z = a; z = -z; chk(z, -qa, A, "z=-z"); z = a; z = b; z = z; chk(z, qb, B, "z=z");
    z = a; N y(b); swap(z, y); chk(z, qb, B, "swap left"); chk(y, qa, A, "swap right"); z.swap(y); chk(z, qa, A, "member swap"); N m(std::move(z)); chk(m, qa, A, "move"); z = d; chk(z, qc, C, "assign to moved-from"); y = std::move(m); chk(y, qa, A, "move assign"); N p(a); chk(N(++p), qa + Q::I(1), A + Q::I(1), "++z"); chk(N(p++), qa + Q::I(1), A + Q::I(1), "z++"); chk(p, qa + Q::I(2), A + Q::I(2), "after z++"); chk(N(p--), qa + Q::I(2), A + Q::I(2), "z--"); chk(N(--p), qa, A + Q::I(2), "--z"); }
  c.check(nq(a) == nq(N(sa)) && nq(b) == nq(N(sb)) && nq(d) == nq(N(sc)), "operands unchanged");
  c.check(a.sign() == qa.sgn() && N(-a).sign() == -qa.sgn() && !a.is_zero() && (a < b) == (qa < qb) && (a == b) == (qa == qb) && (a > b) == (qa > qb) && (!IS_EFX || a * 1 == a) && (a <= b) == !(qb < qa) && (a != b) == !(qa == qb) && (a >= b) == !(qa < qb), "sign and order"); c.hit("program");
  if(!(qa == qb)) { c.check((nq(N((std::max)(a, b))) == nq(qa < qb ? b : a)) && (nq(N((std::min)(a, b))) == nq(qa < qb ? a : b)), "min and max"); }
}
void expr(Case& c) { if(c.rng.chance(50)) { c.cls("et_off"); expr_<N0>(c); } else { c.cls("et_on"); expr_<N1>(c); } }
// text
template<class N> void text_(Case& c)
{
  Rng& r = c.rng; const std::string a = gen_any(r); c.in("a", a); const N x(a); const Q q = Qs(a);
  const std::string all = x.str(), sci = x.str(0, std::ios_base::scientific); c.check(close(Qs(all), q, DIG - 0.01) || q.iszero(), "str() gives all digits", all); c.check(close(Qs(sci), q, DIG - 0.01) || q.iszero(), "scientific str(0) gives all digits", sci);
  { const N y(all), z(sci); c.check(close(nq(y), nq(x), DIG - 0.01) || q.iszero(), "str() reads back", all); c.check(close(nq(z), nq(x), DIG - 0.01) || q.iszero(), "scientific text reads back", sci); }
  const int p = (int) r.range(1, DIG); c.in("p", p); const std::string s = x.str(p, std::ios_base::scientific); { std::ostringstream o; o << std::scientific << std::setprecision(p) << x.backend().crepresentation(); c.check(s == o.str(), "str(p, scientific) equals the e_float output", s + " want " + o.str()); c.check(within(Qs(s), q, q.abs(), p - 0.31) || q.iszero(), "str(p, scientific)", s); }
  { std::ostringstream o1, o2; if(r.chance(50)) { o1 << std::showpos; o2 << std::showpos; } if(r.chance(30)) { o1 << std::uppercase; o2 << std::uppercase; } if(r.chance(50)) { o1 << std::scientific; o2 << std::scientific; } o1 << std::setprecision(p); o2 << std::setprecision(p); const int w = (int) r.range(0, p + 20); o1 << std::setw(w) << std::setfill('*') << x; o2 << std::setw(w) << std::setfill('*') << x.backend().crepresentation(); c.check(o1.str() == o2.str(), "stream output equals the e_float output", o1.str() + " want " + o2.str()); }
  { std::istringstream is(sci + " 17 -2.5"); N y, z, w; is >> y >> z >> w; c.check(!is.fail() && (close(nq(y), nq(x), DIG - 0.01) || q.iszero()) && z == 17 && w == N("-2.5"), "stream input"); }
  { N y; y.assign(a.c_str()); c.check(nq(y) == nq(x), "assignment of a C string"); y.assign(a); c.check(nq(y) == nq(x), "assign()"); const BE b(a.c_str()); c.check(nq(N(b)) == nq(x), "from backend"); const N e{BE{::e_float(a)}}; c.check(nq(e) == nq(x), "from e_float"); c.check(x.backend().crepresentation() == ::e_float(a), "equals the e_float"); }
}
void text(Case& c) { if(c.rng.chance(50)) { c.cls("et_off"); text_<N0>(c); } else { c.cls("et_on"); text_<N1>(c); } }
// rounding, scaling, classification
void parts(Case& c)
{
  Rng& r = c.rng; std::string a; switch(r.below(5)) { case 0: a = gen_dec(r, -3, 3, true, 6); break; case 1: a = gen_dec(r, -20, 20, true, DIG / 2); break; case 2: a = std::to_string(r.range(-1000, 1000)); break; case 3: a = std::to_string(r.range(-1000, 1000)) + ".5"; break; default: a = "0"; }
  c.in("a", a); const N0 x(a); const Q q = IS_EFX ? Qs(a) : nq(x); if(!IS_EFX && !(q == Qs(a)) && ((q - (q + Q::D(0.5)).floor()).abs().log10abs() < -20 || q.log10abs() > DIG - 30)) { c.trivial(); return; } if(q.log10abs() > DIG - 10.0) { c.trivial(); return; }
  auto eq = [&](const N0& g, const Q& w, const char* what) { c.check(nq(g) == w, what, [&]{ return diff(nq(g), w); }); };
  eq(floor(x), q.floor(), "floor"); eq(ceil(x), q.ceil(), "ceil"); eq(trunc(x), q.trunc(), "trunc"); const Q rd = (q.abs() + Q::D(0.5)).floor(); eq(round(x), q.sgn() < 0 ? -rd : rd, "round"); cmpv(c, nq(abs(x)), q.abs(), q.abs(), "abs", DIG); cmpv(c, nq(fabs(x)), q.abs(), q.abs(), "fabs", DIG);
  if(rd < Q::I(2000000000)) { c.check(Q::I(itrunc(x)) == q.trunc() && Q::I(lltrunc(x)) == q.trunc() && Q::I(ltrunc(x)) == q.trunc(), "itrunc"); c.check(Q::I(iround(x)) == (q.sgn() < 0 ? -rd : rd) && Q::I(llround(x)) == (q.sgn() < 0 ? -rd : rd), "iround"); }
  { N0 ip; const N0 fp = modf(x, &ip); eq(ip, q.trunc(), "modf integer part"); cmpv(c, nq(fp), q - q.trunc(), q.abs(), "modf fraction", DIG - 0.1); }
  int n = 999; const N0 m = frexp(x, &n); if(q.iszero()) { c.check(m.is_zero() && n == 0, "frexp of zero"); } else { c.check(abs(m) >= 0.5 && abs(m) < 1, "frexp mantissa"); cmpv(c, nq(m) * Q::pow2(n), q, q.abs(), "frexp", DIG - 0.5); }
  { std::int64_t nl = 999; const N0 ml = frexp(x, &nl); c.check(nq(ml) == nq(m) && nl == n, "frexp with a 64-bit exponent"); }
  const int e = (int) r.range(-3000, 3000); c.in("e", e); const Q w = q * Q::pow2(e); cmpv(c, nq(ldexp(x, e)), w, w.abs(), "ldexp", DIG - 0.2); cmpv(c, nq(ldexp(x, (std::int64_t) e)), w, w.abs(), "ldexp with a 64-bit exponent", DIG - 0.2);
  if(r.chance(30)) { const long long k = (r.chance(50) ? 1 : -1) * (long long) (r.next() >> r.below(35)); c.in("k", k); const double lg = q.log10abs() + k * 0.301029995663981; const N0 z = ldexp(x, (std::int64_t) k); c.hit("64-bit ldexp"); if(q.iszero()) c.check(z.is_zero(), "ldexp of zero"); else if(lg > MAX10 * 2.1) c.check((mp::isinf)(z) && z.sign() == q.sgn(), "ldexp overflow", [&]{ return ns(z); }); else if(lg < MIN10 * 2.1) c.check(z.is_zero(), "ldexp underflow", [&]{ return ns(z); }); else if(std::fabs(lg) < MAX10 - 100.0) { const Q wl = (q * Q::pow2(k / 2)) * Q::pow2(k - k / 2); cmpv(c, nq(z), wl, wl.abs(), "ldexp with a large exponent", DIG - 0.5); } }
  { const int t = (int) r.range(-3000, 3000); const N0 s = scalbn(x, t); const Q ws = q * Q::pow10(t); cmpv(c, nq(s), ws, ws.abs(), "scalbn (radix ten)", DIG - 0.2); if(!q.iszero()) { const auto o = ilogb(s); const double ls = ws.log10abs(); c.check(std::fabs((double) o - std::floor(ls + 1e-12)) < (IS_EFX ? 0.5 : 1.5) || std::fabs(ls - std::round(ls)) < 1e-9, "ilogb (radix ten)", fmt("%lld for %.3f", (long long) o, ls)); } }
  c.check((mp::fpclassify)(x) == (q.iszero() ? FP_ZERO : FP_NORMAL) && !(mp::isnan)(x) && !(mp::isinf)(x) && (mp::isfinite)(x) && (mp::isnormal)(x) == !q.iszero() && (mp::signbit)(x) == (q.sgn() < 0), "classification"); c.hit(q.isint() ? "integer" : "fraction");
  { const N0 inf = std::numeric_limits<N0>::infinity(), nan = std::numeric_limits<N0>::quiet_NaN(); c.check((mp::isinf)(inf) && (mp::isinf)(-inf) && !(mp::isnan)(inf) && (mp::isnan)(nan) && !(mp::isinf)(nan) && !(mp::isfinite)(inf) && !(mp::isfinite)(nan) && (mp::fpclassify)(inf) == FP_INFINITE && (mp::fpclassify)(nan) == FP_NAN && inf > x && -inf < x && nan != nan && !(nan == nan) && nan != x && (mp::isnan)(x + nan) && (mp::isnan)(inf - inf) && (mp::isinf)(x + inf), "infinity and NaN"); }
}
void fmod_(Case& c)
{
  Rng& r = c.rng; std::string a, b; int kind = (int) r.below(3); if(kind == 0) { a = gen_dec(r, -5, 30); b = gen_dec(r, -5, 5); } else if(kind == 1) { a = std::to_string(r.range(-100000000, 100000000)); b = std::to_string(r.chance(50) ? r.range(-100, 100) : r.range(-10000, 10000)); } else { const long long m = r.range(-1000, 1000), d = r.range(-1000, 1000); a = std::to_string(m * d); b = std::to_string(d); }
  c.in("a", a); c.in("b", b); const N0 x(a), y(b); const Q qx = Qs(a), qy = Qs(b); if(qy.iszero()) { c.trivial(); return; } if((qx / qy).log10abs() > DIG / 2.0) { c.trivial(); return; }
  const Q w = qx.fn("fmod", qy), g = nq(N0(fmod(x, y))), s = qx.abs() + qy.abs(); c.hit(kind == 0 ? "real" : kind == 1 ? "integers" : "multiple");
  auto near = [&](const Q& z) { return within(g, z, s, DIG - 0.5); };
  if(kind) c.check(g == w, "fmod of integers", [&]{ return diff(g, w); }); else c.check(near(w) || ((near(w + qy.abs()) || near(w - qy.abs())) && ((w.abs() - qy.abs()).abs().log10abs() < s.log10abs() - DIG + 1 || w.abs().log10abs() < s.log10abs() - DIG + 1)), "fmod", [&]{ return diff(g, w); });
  c.check(g.abs() < qy.abs() || near(qy.abs()) || near(-qy.abs()), "|fmod| < |y|"); c.check(g.iszero() || g.sgn() == qx.sgn(), "sign of fmod", [&]{ return diff(g, w); });
}
// functions
struct F { const char* name; N0 (*f)(const N0&); N1 (*g)(const N1&); double lo, hi, k; };
#define FN(n, lo, hi) { #n, [](const N0& x) -> N0 { return n(x); }, [](const N1& x) -> N1 { return N1(n(x)); }, lo, hi, 2.0 }
const F fs[] = { FN(sqrt, 0, 1e30), FN(exp, -2000, 2000), FN(log, 0, 1e30), FN(log10, 0, 1e30), FN(log2, 0, 1e30), FN(sin, -1000, 1000), FN(cos, -1000, 1000), FN(tan, -1000, 1000), FN(asin, -1, 1), FN(acos, -1, 1), FN(atan, -1e6, 1e6), FN(sinh, -1000, 1000), FN(cosh, -1000, 1000), FN(tanh, -100, 100), FN(asinh, -1e9, 1e9), FN(acosh, 1, 1e9), FN(atanh, -1, 1), FN(cbrt, -1e9, 1e9) };
void func(Case& c)
{
  Rng& r = c.rng; const F& f = fs[r.below(sizeof fs / sizeof fs[0])]; c.cls(f.name); const double u = r.u01(); double v = r.chance(50) ? f.lo + u * (f.hi - f.lo) : std::pow(10.0, -3 + u * (std::log10(std::min(f.hi, 1e9)) + 3)) * (f.lo < 0 && r.chance(50) ? -1 : 1); if(v < f.lo || v > f.hi) v = (f.lo + f.hi) / 2 * 0.9; std::string a; { char b[64]; snprintf(b, sizeof b, "%.17g", v); a = b; } if(r.chance(70) && std::fabs(v) > 1e-9 && (v < f.hi * 0.999 || f.hi <= 0) && v > f.lo * 0.999 + 1e-9) { a = (Qs(a) * (Q::I(1) + Qs("0." + gen_digits(r, DIG - 5)) * Q::pow10(-4))).sci(DIG); }
  c.in("x", a); const N0 x(a); const Q qx = nq(x); const auto of = [&](const Q& z) { return z.fn(f.name); }; if(of(qx).isnan() || of(qx).isinf()) { c.trivial(); return; }
  const bool generic = !std::strcmp(f.name, "asinh") || !std::strcmp(f.name, "acosh") || !std::strcmp(f.name, "atanh") || !std::strcmp(f.name, "cbrt") || !std::strcmp(f.name, "log2");
  Q add = generic ? Q::pow10(-3) : Q::I(0);
  judge(c, f.f(x).backend().crepresentation(), of, qx, f.name, generic ? DIG - 6.0 : DIG - 2.0, &add); judge(c, f.g(N1(a)).backend().crepresentation(), of, qx, f.name, generic ? DIG - 6.0 : DIG - 2.0, &add);
}
void func2(Case& c)
{
  Rng& r = c.rng; const std::string a = gen_dec(r, -6, 6), b = gen_dec(r, -3, 2); c.in("a", a); c.in("b", b); const N0 x(a), y(b); const Q qx = nq(x), qy = nq(y);
  if(!qx.iszero()) { cmpv(c, nq(N0(atan2(y, x))), qy.fn("atan2", qx), qy.fn("atan2", qx).abs(), "atan2", DIG - 3.0); const Q p = qx.abs().fn("pow", qy); if(std::fabs(p.log10abs()) < 1e6) cmpv(c, nq(N0(pow(N0(abs(x)), y))), p, p.abs() * (Q::I(1) + qy.abs() * qx.abs().fn("log").abs()), "pow", DIG - 3.0); }
  const int n = (int) r.range(-300, 300); c.in("n", n); if(!qx.iszero()) { const Q p = qx.fn("pown", (long) n); cmpv(c, nq(N0(pow(x, n))), p, p.abs(), "integer power", DIG - 4.0); cmpv(c, nq(N1(pow(N1(a), n))), p, p.abs(), "integer power", DIG - 4.0); }
  { const Q h = qx.fn("hypot", qy); cmpv(c, nq(N0(hypot(x, y))), h, h.abs(), "hypot", DIG - 3.0); } cmpv(c, nq(N0(copysign(x, y))).abs(), qx.abs(), qx.abs(), "copysign", DIG); c.check(qy.iszero() || qx.iszero() || copysign(x, y).sign() == qy.sgn(), "copysign sign"); { const Q d = qx - qy; cmpv(c, nq(N0(fdim(x, y))), d.sgn() > 0 ? d : Q::I(0), qx.abs() + qy.abs(), "fdim", DIG - 0.5); cmpv(c, nq(N0(fma(x, y, N0(3)))), qx * qy + Q::I(3), (qx * qy).abs() + Q::I(3), "fma", DIG - 0.5); }
}
// numeric_limits and Boost.Math on top
void limits(Case& c)
{
  using L = std::numeric_limits<N0>; const int part = (int) (c.idx % 6); c.in("part", part); Rng& r = c.rng;
  switch(part)
  {
    case 0: c.check(L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::has_infinity && L::has_quiet_NaN && L::radix == 10 && L::digits == DIG && L::digits10 == DIG && L::max_digits10 >= DIG + 1, "traits"); c.check(L::max_exponent10 == MAX10 && L::min_exponent10 == MIN10, "exponent range"); c.check(mp::number_category<N0>::value == mp::number_kind_floating_point, "category"); break;
    case 1: { const N0 mx = (L::max)(), mn = (L::min)(), lo = L::lowest(), e = L::epsilon(); c.check(mx > 0 && mn > 0 && lo < 0 && lo == -mx && !(mp::isinf)(mx) && !mn.is_zero() && lo <= -(L::max)() && lo < N0("-1e1000"), "max, min, lowest", [&]{ return ns(lo); }); c.check((N0(1) + e) > 1 && e > 0 && e < N0("1e-10") && nq(e).log10abs() < -(DIG - 2.0) && nq(e).log10abs() > -(DIG + 2.0), "epsilon", [&]{ return ns(e); }); c.check(L::round_error() == N0("0.5"), "round_error"); break; }
    case 2: { const std::string a = gen_any(r); c.in("a", a); const N0 x(a); c.check(x >= L::lowest() && x <= (L::max)(), "within lowest and max", [&]{ return a; }); break; }
    case 3: { using namespace boost::math::constants; const double k = DIG > 105 ? 105.0 : DIG - 1.0; const Q p = Q::I(0).fn("pi"); cmpv(c, nq(pi<N0>()), p, p, "pi", k); cmpv(c, nq(ln_two<N0>()), Q::I(0).fn("ln2"), Q::I(1), "ln2", k); cmpv(c, nq(boost::math::constants::e<N0>()), Q::I(1).fn("exp"), Q::I(1), "e", k); cmpv(c, nq(euler<N0>()), Q::I(0).fn("euler"), Q::I(1), "euler", k); cmpv(c, nq(root_two<N0>()), Q::I(2).fn("sqrt"), Q::I(1), "root two", k); cmpv(c, nq(half_pi<N0>()), p / Q::I(2), p, "half pi", k); break; }
    case 4: { const std::string a = gen_dec(r, 0, 1, false, 30); c.in("a", a); const N0 x(a); const Q q = nq(x), w = q.fn("gamma"); cmpv(c, nq(N0(boost::math::tgamma(x))), w, w.abs(), "boost::math::tgamma", DIG - 6.0); break; }
    default: { const std::string a = gen_dec(r, -2, 0, true, 30); c.in("a", a); const N0 x(a); const Q q = nq(x), w = q.fn("erf"); cmpv(c, nq(N0(boost::math::erf(x))), w, w.abs(), "boost::math::erf", DIG - 6.0); }
  }
  c.hit(fmt("part %d", part));
}
}
FAMILY("C25.builtin", 6000, builtin);
FAMILY("C25.expr", 3000, expr);
FAMILY("C25.text", 4000, text);
FAMILY("C25.parts", 4000, parts);
FAMILY("C25.fmod", 5000, fmod_);
FAMILY("C25.func", 1200, func);
FAMILY("C25.func2", 600, func2);
FAMILY("C25.limits", 240, limits);
