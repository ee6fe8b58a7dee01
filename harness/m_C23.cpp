// C23: hostile calls for the memory, undefined-behaviour and termination monitors. Values are judged elsewhere; here every call
// must return, with a number that is exactly one of finite, infinite or NaN, under ASan/UBSan/LSan, checked containers or memcheck.
#include <algorithm>
#include <deque>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include "efmon.h"
#include <e_float/e_float_complex.h>
#include <e_float/e_float_functions_complex.h>
#include <functions/integer/prime_factors.h>
#include <functions/tables/tables.h>
#include <utility/util_dynamic_array.h>
#include <utility/util_power_j_pow_x.h>
namespace {
typedef ef::complex<e_float> C;
e_float hostile(Rng& r)
{
  const int s = r.chance(50) ? 1 : -1; e_float x;
  switch(r.below(16))
  {
    case 0: return ef::value_nan();
    case 1: x = ef::value_inf(); break;
    case 2: return ef::zero();
    case 3: x = (std::numeric_limits<e_float>::max)(); break;
    case 4: x = (std::numeric_limits<e_float>::min)(); break;
    case 5: x = e_float(r.range(0, 3)); break;
    case 6: x = e_float(r.range(0, 40)) / 2; break;
    case 7: x = std::numeric_limits<e_float>::epsilon(); break;
    case 8: x = e_float(1) + std::numeric_limits<e_float>::epsilon() * (r.chance(50) ? 1 : -1); break;
    case 9: { static const char* const v[] = { "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e100", "1e1000", "123456789.5" }; x = e_float(r.pick(v)); break; }
    case 10: x = (std::numeric_limits<e_float>::max)() / static_cast<unsigned long long>(r.next() | 1); break;
    case 11: x = (std::numeric_limits<e_float>::min)() * static_cast<unsigned long long>(r.next() | 1); break;
    case 12: { const long e = r.range(-2 * DIG, 2 * DIG); x = e_float("1e" + std::to_string(e)); break; }
    case 13: x = e_float(r.range(-60, 60)) + e_float("1e-" + std::to_string(r.range(1, 2 * DIG))); break;
    default: x = e_float(gen_any(r)); break;
  }
  return s > 0 ? x : e_float(-x);
}
const e_float& googol4() { static const e_float g("1e40000"); return g; }
std::string nm(const e_float& x) { return x.isnan() ? "nan" : x.isinf() ? (x.isneg() ? "-inf" : "inf") : shortstr(x).substr(0, 30) + shortstr(x).substr(shortstr(x).find('e')); }
bool sane(Case& c, const e_float& y, const char* what)
{
  const int k = (int) y.isnan() + (int) y.isinf() + (int) y.isfinite();
  return c.check(k == 1, what, [&]{ return fmt("isnan %d isinf %d isfinite %d", y.isnan(), y.isinf(), y.isfinite()); });
}
typedef std::function<e_float(const e_float&)> F1;
const std::map<std::string, F1>& funcs1()
{
#define F(n) { #n, [](const e_float& x) -> e_float { return ef::n(x); } }
  static const std::map<std::string, F1> m { F(floor), F(ceil), F(fabs), F(abs), F(integer_part), F(decimal_part), F(inv), F(sqrt), F(cbrt), F(exp), F(log), F(log10), F(log1p), F(log1p1m2), F(sin), F(cos), F(tan), F(csc), F(sec), F(cot), F(asin), F(acos), F(atan), F(sinh), F(cosh), F(tanh), F(asinh), F(acosh), F(atanh), F(hypergeometric_0f0), F(gamma), F(riemann_zeta) };
#undef F
  return m;
}
void real1(Case& c)
{
  Rng& r = c.rng; const auto& m = funcs1(); auto it = m.begin(); std::advance(it, (long) r.below(m.size())); const e_float x = hostile(r);
  c.in("f", it->first); c.in("x", nm(x)); c.cls(it->first);
  // the argument may be large without bound only where the running time does not grow with it
  if(it->first == "riemann_zeta" && x < -100000 && x.isfinite()) { c.trivial(); return; }
  if(IS_MPFR && (ef::fabs(x) > googol4() && x.isfinite())) { c.trivial(); return; }       // MPFR reduces trigonometric arguments exactly, which takes as long as they are large
  sane(c, it->second(x), "class");
}
void real2(Case& c)
{
  Rng& r = c.rng; const e_float x = hostile(r), y = hostile(r), z = hostile(r), w = hostile(r); const std::int32_t n = (std::int32_t) (r.chance(30) ? r.next() : r.chance(20) ? INT32_MIN + (std::int32_t) r.below(2) : r.range(-40, 40)); const std::int64_t l = (std::int64_t) (r.chance(30) ? r.next() : r.chance(10) ? INT64_MIN : r.range(-40, 40)); const int k = (int) r.below(22);
  static const char* const names[] = { "pow", "loga", "atan2", "fmod", "pow int", "pow2", "rootn", "rootn_inverse", "sincos", "sinhcosh", "ldexp", "frexp", "0f1", "1f0", "1f1", "2f1", "2f0", "pochhammer", "binomial", "gamma_near_n", "to_parts", "pfq" };
  c.in("f", names[k]); c.in("x", nm(x)); c.in("y", nm(y)); c.in("n", (long long) n); c.in("l", (long long) l); c.cls(names[k]);
  auto small = [](const e_float& t) { return !t.isfinite() || ef::fabs(t) < 100000; };
  switch(k)
  {
    case 0: sane(c, ef::pow(x, y), "class"); break;
    case 1: sane(c, ef::loga(x, y), "class"); break;
    case 2: sane(c, ef::atan2(x, y), "class"); break;
    case 3: sane(c, ef::fmod(x, y), "class"); break;
    case 4: sane(c, ef::pow(x, l), "class"); break;
    case 5: sane(c, ef::pow2(l), "class"); break;
    case 6: sane(c, ef::rootn(x, n), "class"); break;
    case 7: sane(c, ef::rootn_inverse(x, n), "class"); break;
    case 8: if(IS_MPFR && ef::fabs(x) > googol4()) { c.trivial(); return; } { e_float s, t; ef::sincos(x, r.chance(80) ? &s : nullptr, r.chance(80) ? &t : nullptr); sane(c, s, "sin"); sane(c, t, "cos"); break; }
    case 9: { e_float s, t; ef::sinhcosh(x, r.chance(80) ? &s : nullptr, r.chance(80) ? &t : nullptr); sane(c, s, "sinh"); sane(c, t, "cosh"); break; }
    case 10: sane(c, ef::ldexp(x, n), "class"); break;
    case 11: { int e = 0; sane(c, ef::frexp(x, &e), "class"); break; }
    case 12: if(!small(x) || !small(y)) { c.trivial(); return; } sane(c, ef::hypergeometric_0f1(x, y), "class"); break;
    case 13: if(!small(x) || !small(y)) { c.trivial(); return; } sane(c, ef::hypergeometric_1f0(x, y), "class"); break;
    case 14: if(!small(x) || !small(y) || !small(z)) { c.trivial(); return; } sane(c, ef::hypergeometric_1f1(x, y, z), "class"); break;
    case 15: if(!small(x) || !small(y) || !small(z) || !small(w)) { c.trivial(); return; } sane(c, ef::hypergeometric_2f1(x, y, z, w), "class"); break;
    case 16: if(!small(x) || !small(y) || !small(z)) { c.trivial(); return; } sane(c, ef::hypergeometric_2f0(x, y, z), "class"); break;
    case 17: if(r.chance(50)) sane(c, ef::pochhammer(x, (std::uint32_t) (n < 0 ? 17 : n % 1000)), "class"); else sane(c, ef::pochhammer(x, y), "class"); break;
    case 18: switch(r.below(4)) { case 0: sane(c, ef::binomial((std::uint32_t) r.below(3000), (std::uint32_t) r.below(3000)), "class"); break; case 1: sane(c, ef::binomial((std::uint32_t) r.below(300), y), "class"); break; case 2: sane(c, ef::binomial(x, (std::uint32_t) r.below(300)), "class"); break; default: sane(c, ef::binomial(x, y), "class"); } break;
    case 19: if(IS_MPFR && ef::fabs(x) > googol4()) { c.trivial(); return; } sane(c, ef::gamma_near_n(n, x), "class"); break;
    case 20: { double d; std::int64_t e; ef::to_parts(x, d, e); if(x.isfinite()) c.check(std::isfinite(d), "mantissa"); (void) ef::to_int32(x); (void) ef::to_int64(x); (void) ef::to_double(x); (void) ef::order_of(x); (void) ef::near_int(x); (void) ef::near_one(x); (void) ef::small_arg(x); (void) ef::large_arg(x); c.check(true, "parts"); break; }
    default: { std::deque<e_float> a, b; const std::size_t p = r.below(4), q = r.below(4); for(std::size_t i = 0; i < p; ++i) a.push_back(small(x) ? e_float(x) : e_float(1)); for(std::size_t i = 0; i < q; ++i) b.push_back(small(y) ? e_float(y) : e_float(2)); sane(c, ef::hypergeometric_pfq(a, b, small(z) ? e_float(z) : e_float(1) / 3), "class"); }
  }
}
typedef std::function<C(const C&)> FC1;
void cplx(Case& c)
{
#define F(n) { #n, [](const C& z) -> C { return ef::n(z); } }
  static const std::map<std::string, FC1> m { F(exp), F(log), F(log10), F(sqrt), F(sin), F(cos), F(tan), F(asin), F(acos), F(atan), F(sinh), F(cosh), F(tanh), F(asinh), F(acosh), F(atanh), F(gamma), F(riemann_zeta), F(conj) };
#undef F
  Rng& r = c.rng; auto it = m.begin(); std::advance(it, (long) r.below(m.size())); const C z(hostile(r), hostile(r)); c.in("f", it->first); c.in("re", nm(z.real())); c.in("im", nm(z.imag())); c.cls(it->first);
  if((it->first == "riemann_zeta" || it->first == "gamma") && !(ef::fabs(z.real()) < 3000 && ef::fabs(z.imag()) < 3000)) { c.trivial(); return; }
  if(IS_MPFR && ((ef::fabs(z.real()) > googol4() && z.real().isfinite()) || (ef::fabs(z.imag()) > googol4() && z.imag().isfinite()))) { c.trivial(); return; }
  const C y = it->second(z); sane(c, y.real(), "re"); sane(c, y.imag(), "im");
  const C w(hostile(r), hostile(r)); const C s = z + w, d = z - w, p = z * w, q = z / w; for(const C* t : { &s, &d, &p, &q }) { sane(c, t->real(), "op re"); sane(c, t->imag(), "op im"); }
}
void integers(Case& c)
{
  Rng& r = c.rng; const int k = (int) r.below(9); static const char* const names[] = { "factorial", "factorial2", "bernoulli", "table", "zeta", "prime", "factors", "j_pow_x", "tables" }; c.in("f", names[k]); c.cls(names[k]);
  switch(k)
  {
    case 0: { const std::uint32_t n = (std::uint32_t) (r.chance(20) ? r.next() : r.below(3000)); c.in("n", (long long) n); sane(c, ef::factorial(n), "class"); break; }
    case 1: { const std::int32_t n = (std::int32_t) (r.chance(20) ? r.next() : r.range(-3000, 3000)); c.in("n", (long long) n); sane(c, ef::factorial2(n), "class"); break; }
    case 2: { const std::uint32_t n = (std::uint32_t) (r.chance(20) ? r.next() : r.below(1500)); c.in("n", (long long) n); sane(c, ef::bernoulli(n), "class"); break; }
    case 3: { std::vector<e_float> b((std::size_t) r.below(5), e_float(3)); const std::uint32_t n = (std::uint32_t) r.below(120); c.in("n", (long long) n); ef::bernoulli_table(b, n); c.check(b.size() >= n || n == 0, "size", std::to_string(b.size())); for(const e_float& x : b) sane(c, x, "entry"); break; }
    case 4: { const std::int32_t n = (std::int32_t) (r.chance(20) ? r.next() : r.range(-1000, 1000)); c.in("n", (long long) n); if(n < -20000) { c.trivial(); return; } sane(c, ef::riemann_zeta(n), "class"); break; }
    case 5: { std::deque<std::uint32_t> p((std::size_t) r.below(5), 1U); const std::uint32_t n = (std::uint32_t) r.below(12000); c.in("n", (long long) n); ef::prime(n, p); c.check(p.size() == n, "size", std::to_string(p.size())); break; }
    case 6: { std::deque<Util::point<std::uint32_t>> p; const std::uint32_t n = (std::uint32_t) (r.chance(50) ? r.next() : r.below(1000)); c.in("n", (long long) n); ef::prime_factors(n, p); std::uint64_t v = 1; for(const auto& f : p) for(std::uint32_t i = 0; i < f.y; ++i) v *= f.x; c.check(n < 2 || v == n, "product"); break; }
    case 7: { std::map<std::uint32_t, e_float> m; const e_float x = hostile(r); c.in("x", nm(x)); for(int i = 0; i < 5; ++i) sane(c, Util::j_pow_x((std::uint32_t) r.below(3000), x, m), "class"); break; }
    default: { for(const auto* t : { &Tables::A000142(), &Tables::A000367(), &Tables::A002445(), &Tables::A006882() }) { const std::size_t i = r.below(t->size()); sane(c, (*t)[i](), "entry"); } const auto& b = Tables::A007318(); const std::size_t i = r.below(b.size()); const auto& row = b[i](); for(const e_float& x : row) sane(c, x, "row"); }
  }
}
// arbitrary bytes, very long texts, texts that share a buffer with other data
void texts(Case& c)
{
  Rng& r = c.rng; std::string s; const int k = (int) r.below(6); static const char abc[] = "0123456789+-.eE 0123456789";
  switch(k)
  {
    case 0: { const std::size_t n = r.below(60); for(std::size_t i = 0; i < n; ++i) s += (char) (1 + r.below(255)); break; }
    case 1: { const std::size_t n = r.below(40); for(std::size_t i = 0; i < n; ++i) s += abc[r.below(sizeof abc - 1)]; break; }
    case 2: { const std::size_t n = r.below(20000); s = gen_digits(r, (int) n + 1); s.insert(r.below(s.size()), "."); if(r.chance(50)) s += "e" + std::to_string((long) (r.next() >> r.below(60))); break; }
    case 3: { s = std::string(r.below(9000), '0') + "." + std::string(r.below(9000), '0') + std::string(r.below(300), '7'); if(r.chance(50)) s += "e-" + std::string(r.below(200), '0') + std::to_string(r.below(100000)); break; }
    case 4: { static const char* const v[] = { "", "+", "-", ".", "e", "e5", ".e5", "+.", "1e", "1e+", "1e-", "1e99999999999999999999", "-1e-99999999999999999999", "0e99999999999999999999", "1.e", "..", "1..2", "1e5e5", "0x10", "--1", "+-1", "nan", "inf", "-inf", "1e2147483647", "1e-2147483648", "1e9223372036854775807", "1e-9223372036854775808" }; s = r.pick(v); break; }
    default: s = gen_any(r); if(!s.empty()) { const std::size_t n = 1 + r.below(4); for(std::size_t i = 0; i < n && !s.empty(); ++i) { const std::size_t p = r.below(s.size()); switch(r.below(3)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, (char) (1 + r.below(255))); break; default: s[p] = (char) (1 + r.below(255)); } } }
  }
  c.cls(fmt("kind %d", k)); c.in("text", s.size() < 200 ? s : s.substr(0, 60) + fmt("...(%d)", (int) s.size()));
  // exactly sized heap copies, so that reading past the terminator is seen
  { std::vector<char> v(s.begin(), s.end()); v.push_back('\0'); v.shrink_to_fit(); const std::string t(v.data()); const e_float a(v.data()), b(t); sane(c, a, "char*"); sane(c, b, "string"); c.check(a == b || (a.isnan() && b.isnan()), "same from char* and string"); }
  { std::istringstream is(s); e_float x; is >> x; sane(c, x, "stream"); } 
  { std::istringstream is(s); is.exceptions(std::ios::failbit | std::ios::badbit); e_float x; try { is >> x; is >> x; } catch(const std::ios_base::failure&) { c.hit("stream threw"); } sane(c, x, "throwing stream"); }
  if(s.size() < 4000) { std::istringstream is(r.chance(50) ? "(" + s + "," + s + ")" : s); C z; is >> z; sane(c, z.real(), "complex"); }
}
// a stream buffer that fails after a few characters
struct Broken : std::streambuf { long left; explicit Broken(long n) : left(n) {} int_type overflow(int_type ch) override { return left-- > 0 ? ch : traits_type::eof(); } std::streamsize xsputn(const char*, std::streamsize n) override { const std::streamsize k = std::min<long>(left, (long) n); left -= k; return k; } };
void format(Case& c)
{
  Rng& r = c.rng; const e_float x = hostile(r); std::ostringstream os; if(r.chance(33)) os << std::fixed; else if(r.chance(50)) os << std::scientific; if(r.chance(10)) os << std::hexfloat;
  const bool big = x.isfinite() && !x.iszero() && (toQ(x).log10abs() > 30000 || toQ(x).log10abs() < -30000) && (os.flags() & std::ios::fixed); c.in("x", nm(x)); if(big) { c.trivial(); return; }
  const long p = r.chance(10) ? -r.range(0, 1000) : r.chance(20) ? r.range(0, 20000) : r.range(0, 2 * DIG), w = r.chance(20) ? r.range(0, 20000) : r.range(-3, 200);
  os << std::setprecision((int) p) << std::setw((int) w) << std::setfill((char) r.range(32, 126)); if(r.chance(50)) os << std::showpos; if(r.chance(50)) os << std::showpoint; if(r.chance(30)) os << std::left; else if(r.chance(30)) os << std::internal; if(r.chance(40)) os << std::uppercase;
  c.in("p", p); c.in("w", w); c.cls(x.isfinite() ? "finite" : "special"); os << x; const std::string s = os.str(); c.check(!s.empty() && (long) s.size() >= w, "length", std::to_string(s.size()));
  { Broken b(r.range(0, 40)); std::ostream o(&b); o.copyfmt(os); o << x << x; (void) o.good(); }
  { Broken b(r.range(0, 40)); std::ostream o(&b); o.copyfmt(os); o.exceptions(std::ios::badbit | std::ios::failbit); try { o << x << C(x, x); } catch(const std::ios_base::failure&) { c.hit("output threw"); } }
  { std::ostringstream o; o.copyfmt(os); o << C(x, -x); c.check(!o.str().empty(), "complex"); }
}
// util::dynamic_array of several element types against std::vector
struct Tracked { static long live; int v; std::unique_ptr<int> p; Tracked(int x = 0) : v(x), p(new int(x)) { ++live; } Tracked(const Tracked& o) : v(o.v), p(new int(o.v)) { ++live; } Tracked& operator=(const Tracked& o) { v = o.v; *p = o.v; return *this; } ~Tracked() { --live; } bool operator==(const Tracked& o) const { return v == o.v && *p == *o.p; } bool operator<(const Tracked& o) const { return v < o.v; } };
long Tracked::live = 0;
template<class T, class G> void arrays(Case& c, G gen)
{
  Rng& r = c.rng; typedef util::dynamic_array<T> A; std::vector<A> a(3); std::vector<std::vector<T>> m(3); std::string t;
  for(int st = 0; st < 25; ++st)
  {
    const std::size_t i = r.below(3), j = r.below(3), n = r.chance(20) ? 0 : r.below(40); const int op = (int) r.below(12); c.in("op", fmt("%d(%d,%d,%d)", op, (int) i, (int) j, (int) n));
    switch(op)
    {
      case 0: { const T v = gen(); a[i] = A((typename A::size_type) n, v); m[i] = std::vector<T>(n, v); break; }
      case 1: { std::vector<T> v; for(std::size_t k = 0; k < n; ++k) v.push_back(gen()); a[i] = A(v.begin(), v.end()); m[i] = v; break; }
      case 2: { const T x = gen(), y = gen(); a[i] = A({ x, y, x }); m[i] = { x, y, x }; break; }
      case 3: a[i] = a[j]; m[i] = m[j]; break;
      case 4: if(i != j) { a[i] = std::move(a[j]); m[i] = m[j]; m[j].clear(); } break;
      case 5: { A b(a[i]); c.check(b == a[i] && !(b != a[i]), "copy"); if(!m[i].empty()) { b[(typename A::size_type) r.below(m[i].size())] = gen(); } break; }
      case 6: { A b(std::move(a[i])); a[i] = b; c.check(a[i] == b, "move"); break; }
      case 7: if(i != j) { a[i].swap(a[j]); m[i].swap(m[j]); } else a[i].swap(A(a[i])); break;
      case 8: { const T v = gen(); a[i].fill(v); std::fill(m[i].begin(), m[i].end(), v); break; }
      case 9: if(!m[i].empty()) { const std::size_t k = r.below(m[i].size()); const T v = gen(); a[i].at((typename A::size_type) k) = v; m[i].at(k) = v; } break;
      case 10: std::sort(a[i].begin(), a[i].end()); std::sort(m[i].begin(), m[i].end()); break;
      default: c.check((a[i] < a[j]) == (m[i] < m[j]) && (a[i] == a[j]) == (m[i] == m[j]) && (a[i] >= a[j]) == (m[i] >= m[j]) && (a[i] > a[j]) == (m[i] > m[j]) && (a[i] <= a[j]) == (m[i] <= m[j]), "compare", fmt("%d %d", (int) m[i].size(), (int) m[j].size())); break;
    }
    for(std::size_t k = 0; k < 3; ++k) { bool ok = a[k].size() == m[k].size() && a[k].empty() == m[k].empty() && std::equal(m[k].begin(), m[k].end(), a[k].cbegin()) && std::equal(m[k].rbegin(), m[k].rend(), a[k].crbegin()); if(ok && !m[k].empty()) ok = a[k].front() == m[k].front() && a[k].back() == m[k].back() && a[k].data() == a[k].begin(); if(!c.check(ok, "array", fmt("array %d after operation %d", (int) k, op))) return; }
  }
}
void array(Case& c)
{
  Rng& r = c.rng; const long before = Tracked::live;
  switch(r.below(4))
  {
    case 0: c.cls("e_float"); arrays<e_float>(c, [&]{ return e_float(r.range(-99, 99)) / 7; }); break;
    case 1: c.cls("string"); arrays<std::string>(c, [&]{ return gen_digits(r, (int) r.range(1, 60)); }); break;
    case 2: c.cls("tracked"); arrays<Tracked>(c, [&]{ return Tracked((int) r.range(-99, 99)); }); break;
    default: c.cls("uint32"); arrays<std::uint32_t>(c, [&]{ return (std::uint32_t) r.next(); }); break;
  }
  c.check(Tracked::live == before, "elements destroyed exactly once", fmt("%ld alive", Tracked::live - before));
}
}
FAMILY("C23.real1", 9000, real1);
FAMILY("C23.real2", 9000, real2);
FAMILY("C23.complex", 3000, cplx);
FAMILY("C23.integers", 2500, integers);
FAMILY("C23.texts", 5000, texts);
FAMILY("C23.format", 5000, format);
FAMILY("C23.array", 3000, array);
