// C27: the generic functions, for built-in types, for e_float, and for any other number type (the generic algorithms themselves).
#include <generic_functions/constants/generic_functions_constants.h>
#include "fnmon.h"
namespace {
// A number type about which the generic functions know nothing.
struct G
{
  e_float v; G() : v(0) { } explicit G(const e_float& x, int) : v(x) { } explicit G(unsigned n) : v(n) { } explicit G(int n) : v(n) { } explicit G(const std::string& s) : v(s) { }
  G operator-() const { return G(-v, 0); } G& operator+=(const G& o) { v += o.v; return *this; } G& operator-=(const G& o) { v -= o.v; return *this; } G& operator*=(const G& o) { v *= o.v; return *this; } G& operator/=(const G& o) { v /= o.v; return *this; } G& operator*=(std::int32_t n) { v *= n; return *this; } G& operator/=(std::int32_t n) { v /= n; return *this; }
};
G operator+(const G& a, const G& b) { return G(a.v + b.v, 0); } G operator-(const G& a, const G& b) { return G(a.v - b.v, 0); } G operator*(const G& a, const G& b) { return G(a.v * b.v, 0); } G operator/(const G& a, const G& b) { return G(a.v / b.v, 0); }
G operator*(const G& a, std::int32_t n) { return G(a.v * n, 0); } G operator/(const G& a, std::int32_t n) { return G(a.v / n, 0); } G operator+(const G& a, std::int32_t n) { return G(a.v + n, 0); } G operator-(std::int32_t n, const G& a) { return G(n - a.v, 0); } G operator/(std::int32_t n, const G& a) { return G(n / a.v, 0); }
bool operator<(const G& a, const G& b) { return a.v < b.v; } bool operator<(const G& a, std::int32_t n) { return a.v < n; } bool operator==(const G& a, const G& b) { return a.v == b.v; }
std::ostream& operator<<(std::ostream& o, const G& a) { return o << a.v; }
}
namespace std { template<> struct numeric_limits<G> { static constexpr bool is_specialized = true; static constexpr int digits10 = numeric_limits<e_float>::digits10; static G (min)() { return G((numeric_limits<e_float>::min)(), 0); } static G epsilon() { return G((numeric_limits<e_float>::epsilon)(), 0); } static G quiet_NaN() { return G(numeric_limits<e_float>::quiet_NaN(), 0); } }; }
namespace gf = generic_functions;
namespace {
Q gq(const G& g) { return toQ(g.v); }
std::int64_t edge(Rng& r) { switch(r.below(6)) { case 0: return std::numeric_limits<std::int64_t>::min() + (std::int64_t) r.below(3); case 1: return std::numeric_limits<std::int64_t>::max() - (std::int64_t) r.below(3); case 2: { const std::int64_t v = (std::int64_t) 1 << r.below(63); return (r.chance(50) ? v : -v) + r.range(-1, 1); } default: return (std::int64_t) r.next() >> r.below(60); } }
// (1 + t)^n with a power of any size
template<class T> void bigpow(Case& c, const char* what, Q (*back)(const T&))
{
  Rng& r = c.rng; const std::int64_t n = edge(r); const double l = std::log10(std::fabs((double) n) + 1.0); const int k = (int) l + (int) r.range(-3, 40); if(k < 1 || k > DIG - 20) { c.trivial(); return; }
  const std::string s = std::string(r.chance(50) ? "" : "-") + (r.chance(50) ? "1." + std::string((std::size_t) k, '0') : "0." + std::string((std::size_t) k, '9')) + std::to_string(r.range(1, 999)); c.in("x", s); c.in("n", (long long) n); const T x(s); const Q q = back(x), w = q.fn("pown", (long) n); const T g = gf::pown<T>(x, n); c.check(close(back(g), w, DIG - 4.5 - l), what, [&]{ return diff(back(g), w); });
}
template<class T> void builtin1(Case& c, const char* name)
{
  Rng& r = c.rng; c.cls(name); const T x = std::ldexp((T) (r.next() >> (64 - std::numeric_limits<T>::digits)) + 1, (int) r.range(-std::numeric_limits<T>::digits - 60, 30)); const Q q = Q::L((long double) x); c.in("x", q.sci(25)); const Q eps = Q::L((long double) std::numeric_limits<T>::epsilon());
  auto near = [&](T g, const Q& w, const Q& s, const char* what, int k = 3) { c.check((Q::L((long double) g) - w).abs() <= s * eps * Q::I(k), what, [&]{ return diff(Q::L((long double) g), w); }); };
  near(gf::sqrt<T>(x), q.fn("sqrt"), q.fn("sqrt"), "sqrt"); near(gf::log<T>(x), q.fn("log"), q.fn("log").abs() + Q::pow10(-6), "log"); const int p = (int) r.range(1, 20); c.in("p", p); { const Q w = q.fn("root", (long) p); near(gf::rootn<T>(x, p), w, w * (Q::I(1) + q.fn("log").abs() / Q::I(p)), "rootn"); }
  c.check(gf::fabs<T>(-x) == x && gf::fabs<T>(x) == x && gf::isneg<T>(-x) && !gf::isneg<T>(x) && gf::iszero<T>((T) 0) && !gf::iszero<T>(x) && gf::isone<T>((T) 1) && !gf::isone<T>((T) 3), "predicates");
  { std::int64_t e = 99; const double m = gf::frexp10<T>(x, &e); c.check(std::fabs(m) >= 1 && std::fabs(m) <= 10 && close(Q::D(m) * Q::pow10((long) e), q, std::is_same<T, float>::value ? 6.0 : 15.0), "frexp10", fmt("%.17g %lld", m, (long long) e)); e = 99; const double z = gf::frexp10<T>((T) 0, &e); c.check(z == 0 && e == 0, "frexp10 of zero"); }
  near(gf::pi<T>(), q.fn("pi"), Q::I(3), "pi", 2); near(gf::ln2<T>(), q.fn("ln2"), Q::I(1), "ln2", 2); near(gf::euler_gamma<T>(), q.fn("euler"), Q::I(1), "euler_gamma", 2);
  { const int n = (int) r.range(-15, 15); const T b = (T) r.range(2, 9) / 4; const Q w = Q::L((long double) b).fn("pown", (long) n); near(gf::pown<T>(b, n), w, w, "pown", 40); }
  { const std::int64_t n = edge(r); c.in("n", (long long) n); c.check(gf::pown<T>((T) 1, n) == (T) 1 && gf::pown<T>((T) -1, n) == (T) ((n % 2) ? -1 : 1), "pown of one and minus one"); if(n > 100000 || n < -100000) { const T h = gf::pown<T>((T) 0.5, n); c.check((n > 0) ? (h == 0) : (h > 0 && h > std::numeric_limits<T>::max()), "pown beyond the range", fmt("%g", (double) h)); } }
}
void builtin(Case& c) { switch(c.rng.below(3)) { case 0: builtin1<float>(c, "float"); break; case 1: builtin1<double>(c, "double"); break; default: builtin1<long double>(c, "long double"); } }
void efloat(Case& c)
{
  Rng& r = c.rng; const std::string s = gen_dec(r, -30, 30, false); c.in("x", s); const e_float x(s); const Q q = toQ(x); const int p = (int) r.range(1, 40); c.in("p", p);
  c.check(close(toQ(gf::sqrt<e_float>(x)), q.fn("sqrt"), DIG - 1.0) && close(toQ(gf::rootn<e_float>(x, p)), q.fn("root", (long) p), DIG - 2.0), "roots"); judge(c, gf::log<e_float>(x), [](const Q& z) { return z.fn("log"); }, q, "log");
  { std::int64_t e = 99; const double m = gf::frexp10<e_float>(r.chance(50) ? x : -x, &e); c.check(std::fabs(m) >= 1 && std::fabs(m) <= 10 && close(Q::D(std::fabs(m)) * Q::pow10((long) e), q, 15.0), "frexp10", fmt("%.17g %lld", m, (long long) e)); }
  c.check(gf::pi<e_float>() == ef::pi() && gf::ln2<e_float>() == ef::ln2() && gf::euler_gamma<e_float>() == ef::euler_gamma(), "constants"); c.check(gf::fabs<e_float>(-x) == x && gf::isneg<e_float>(-x) && !gf::iszero<e_float>(x) && gf::iszero<e_float>(ef::zero()) && gf::isone<e_float>(ef::one()), "predicates"); const int n = (int) r.range(-200, 200); c.in("n", n); const Q w = q.fn("pown", (long) n); c.check(close(toQ(gf::pown<e_float>(x, n)), w, DIG - 3.0), "pown", [&]{ return diff(toQ(gf::pown<e_float>(x, n)), w); }); bigpow<e_float>(c, "pown with a power of any size", [](const e_float& v) { return toQ(v); });
}
void algo(Case& c)
{
  Rng& r = c.rng; const int kind = (int) r.below(5); std::string s; switch(r.below(4)) { case 0: s = gen_dec(r, -3, 3, false); break; case 1: s = gen_dec(r, -30, 30, false); break; case 2: s = gen_dec(r, -1000, 1000, false, 30); break; default: s = std::to_string(r.range(1, 1000)); } c.in("x", s); c.in("kind", kind); const G x(s); const Q q = gq(x); if(q.iszero()) { c.trivial(); return; }
  switch(kind)
  {
    case 0: { const Q w = q.fn("sqrt"); c.check(close(gq(gf::sqrt<G>(x)), w, DIG - 1.0), "sqrt", [&]{ return diff(gq(gf::sqrt<G>(x)), w); }); c.check(gf::sqrt<G>(-x).v.isnan(), "sqrt of a negative number"); c.check(gf::sqrt<G>(G(0)).v.iszero() && gf::sqrt<G>(G(1)).v == 1, "sqrt of zero and one"); c.hit("sqrt"); break; }
    case 1: { const int p = (int) (r.chance(70) ? r.range(2, 20) : r.range(2, 100)); c.in("p", p); const Q w = q.fn("root", (long) p); const G g = gf::rootn<G>(x, p); c.check(close(gq(g), w, DIG - 3.0), "rootn", [&]{ return diff(gq(g), w); }); const G h = gf::rootn<G>(x, -p); c.check(close(gq(h), Q::I(1) / w, DIG - 3.0), "rootn with a negative index", [&]{ return diff(gq(h), Q::I(1) / w); }); c.check(gf::rootn<G>(-x, p).v.isnan() && gf::rootn<G>(x, 0).v.isnan() && gf::rootn<G>(x, 1) == x && gf::rootn<G>(G(0), p).v.iszero(), "rootn of special arguments"); c.hit("rootn"); break; }
    case 2: { if(DIG > 400) { c.trivial(); return; } const Q w = q.fn("log"); const G g = gf::log<G>(x); c.check((gq(g) - w).abs() <= (w.abs() + Q::I(DIG)) * Q::pow10(-(DIG - 3)), "log", [&]{ return diff(gq(g), w); }); c.check(gf::log<G>(-x).v.isnan() && gf::log<G>(G(0)).v.isnan() && gf::log<G>(G(1)).v.iszero(), "log of special arguments"); c.hit("log"); break; }
    case 3: { const long long n = r.chance(50) ? r.range(-20, 20) : r.range(-3000, 3000); c.in("n", n); const Q w = q.fn("pown", (long) n); if(std::fabs(w.log10abs()) > 1e7) { c.trivial(); return; } const G g = gf::pown<G>(x, n); c.check(close(gq(g), w, DIG - 4.5), "pown", [&]{ return diff(gq(g), w); }); bigpow<G>(c, "pown with a power of any size", [](const G& v) { return gq(v); }); c.hit("pown"); break; }
    default: { std::int64_t e = 99; const double m = gf::frexp10<G>(r.chance(50) ? x : -x, &e); c.check(std::fabs(m) >= 1 && std::fabs(m) <= 10 && close(Q::D(std::fabs(m)) * Q::pow10((long) e), q, 15.0), "frexp10", fmt("%.17g %lld", m, (long long) e)); c.check(gf::fabs<G>(-x) == x && gf::fabs<G>(x) == x && gf::isneg<G>(-x) && !gf::isneg<G>(x) && !gf::iszero<G>(x) && gf::iszero<G>(G(0)) && gf::isone<G>(G(1)), "predicates"); c.check(gf::small_arg<G>(x) == (q.log10abs() < -(DIG - 1) / 6.0) || std::fabs(q.log10abs() + (DIG - 1) / 6.0) < 0.2, "small_arg", [&]{ return s; });
      c.check(close(gq(gf::pi<G>()), q.fn("pi"), DIG - 2.0), "pi", [&]{ return diff(gq(gf::pi<G>()), q.fn("pi")); }); c.check(close(gq(gf::ln2<G>()), q.fn("ln2"), DIG - 3.0), "ln2", [&]{ return diff(gq(gf::ln2<G>()), q.fn("ln2")); }); c.hit("constants"); }
  }
}
}
FAMILY("C27.builtin", 4000, builtin);
FAMILY("C27.efloat", 1500, efloat);
FAMILY("C27.algo", 2000, algo);
