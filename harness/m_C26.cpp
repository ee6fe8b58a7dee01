// C26: the numerical utilities (root finders, derivative, trapezoid rule, interpolation, series functors, casts, dynamic array, timer).
#include <algorithm>
#include <cstdint>
#include <functional>
#include <numeric>
#include <set>
#include "fnmon.h"
#include <utility/util_alternating_sum.h>
#include <utility/util_coefficient_expansion.h>
#include <utility/util_dynamic_array.h>
#include <utility/util_find_root_bisect.h>
#include <utility/util_find_root_newton_raphson.h>
#include <utility/util_function_derivative.h>
#include <utility/util_interpolate.h>
#include <utility/util_lexical_cast.h>
#include <utility/util_numeric_cast.h>
#include <utility/util_point.h>
#include <utility/util_timer.h>
#include <utility/util_trapezoid.h>
namespace {
e_float T10(double e) { return e_float("1e" + std::to_string((long) e)); }
using EF = std::function<e_float(const e_float&)>;
struct Bisect : Util::FindRootBisect<e_float> { EF f; mutable long calls = 0; Bisect(EF g, const e_float& a, const e_float& b, const e_float& t) : Util::FindRootBisect<e_float>(a, b, t), f(g) { } e_float my_function(const e_float& x) const override { ++calls; return f(x); } };
struct Newton : Util::FindRootNewtonRaphson<e_float> { EF f, d; Newton(EF g, EF h, const e_float& a, const e_float& b, const e_float& t) : Util::FindRootNewtonRaphson<e_float>(a, b, t), f(g), d(h) { } e_float my_function(const e_float& x) const override { return f(x); } void my_function_derivative(const e_float& x, e_float& y, e_float& dy) const override { y = f(x); dy = d(x); } };
struct Deriv : Util::FunctionDerivative<e_float> { EF f; Deriv(EF g, const e_float& x) : Util::FunctionDerivative<e_float>(x), f(g) { } Deriv(EF g, const e_float& x, const e_float& dx) : Util::FunctionDerivative<e_float>(x, dx), f(g) { } e_float step() const { return my_dx; } e_float my_function(const e_float& x) const override { return f(x); } };
struct Trap : Util::RecursiveTrapezoidRule<e_float> { EF f; mutable long calls = 0; Trap(EF g, const e_float& a, const e_float& b, const e_float& t) : Util::RecursiveTrapezoidRule<e_float>(a, b, t), f(g) { } static e_float tol() { return my_tol(); } e_float my_function(const e_float& x) const override { ++calls; if(calls > 300000) throw std::runtime_error("too many function calls"); return f(x); } };
struct BisectD : Util::FindRootBisect<double> { double r; BisectD(double root, double a, double b, double t) : Util::FindRootBisect<double>(a, b, t), r(root) { } double my_function(const double& x) const override { return x - r; } };
// one root r of a continuous function of a known kind
void bisect(Case& c)
{
  Rng& r = c.rng; const std::string s = gen_dec(r, -6, 6, true, 40); c.in("root", s); const e_float root(s); const Q q = Qs(s); const int kind = (int) r.below(4); c.in("kind", kind); const bool down = r.chance(50); const std::string wa = gen_dec(r, -4, 3, false, 20), wb = gen_dec(r, -4, 3, false, 20); c.in("below", wa); c.in("above", wb); c.in("down", down); const int te = (int) r.range(3, DIG - 12); c.in("tol", -te); const e_float tol = T10(-te);
  EF f; switch(kind) { case 0: f = [=](const e_float& x) { return x - root; }; break; case 1: f = [=](const e_float& x) { const e_float d = x - root; return d * (d * d + 1); }; break; case 2: f = [=](const e_float& x) { const e_float d = x - root; return d < 0 ? d / 1000 : d * 3; }; break; default: f = [=](const e_float& x) { return ef::integer_part((x - root) * T10(te + 4)); }; }
  const EF g = down ? EF([=](const e_float& x) { return -f(x); }) : f; e_float lo = root - e_float(wa), hi = root + e_float(wb); int end = (int) r.below(8); if(end == 0) lo = root; else if(end == 1) hi = root; c.in("end", end);
  const Bisect b(g, lo, hi, tol); const e_float x = b.operation(); c.check(b.success(), "success with a change of sign"); const Q want = q; c.check((toQ(x) - want).abs() <= Q::pow10(-te) * Q::D(1.5), "root within the tolerance", [&]{ return diff(toQ(x), want); }); c.check(x >= lo && x <= hi, "root within the interval"); c.hit(end < 2 ? "root at an end" : "root inside");
  const e_float y = b.operation(); c.check(b.success() && x == y, "operation repeats"); c.check(b.calls < 2 * 2100 && b.function(root) == g(root), "number of calls");
  // no change of sign
  const Bisect n([=](const e_float& z) { const e_float d = z - root; return down ? -(d * d + 1) : d * d + 1; }, root - 1, root + 2, tol); n.operation(); c.check(!n.success(), "no success without a change of sign"); c.hit("no root");
  const double dr = (double) r.range(-1000, 1000) / 16; const BisectD bd(dr, dr - 3, dr + (double) r.range(1, 9), 1e-12); const double xd = bd.operation(); c.check(bd.success() && std::fabs(xd - dr) < 2e-12, "bisection with double");
}
void newton(Case& c)
{
  Rng& r = c.rng; const int n = (int) r.range(2, 5); c.in("n", n); const std::string s = gen_dec(r, -8, 8, false, 40); c.in("k", s); const e_float k(s); const Q root = Qs(s).fn("root", (long) n); const int te = (int) r.range(3, DIG - 20); c.in("tol", -te); const e_float rt = ef::rootn(k, n); const e_float tol = T10(-te) * (rt > 1 ? rt : ef::one());
  EF f = [=](const e_float& x) { return ef::pow(x, (std::int64_t) n) - k; }, d = [=](const e_float& x) { return ef::pow(x, (std::int64_t) (n - 1)) * n; };
  const Newton nr(f, d, rt * (r.chance(50) ? 0.75 : 0.3), rt * (r.chance(50) ? 1.5 : 3.0), tol); const e_float x = nr.operation(); c.check(nr.success(), "success near a simple root"); c.check((toQ(x) - root).abs() <= toQ(tol), "root within the tolerance", [&]{ return diff(toQ(x), root); }); const e_float y = nr.operation(); c.check(nr.success() && x == y, "operation repeats"); { e_float a, b; nr.function_derivative(rt, a, b); c.check(b == d(rt) && a == f(rt), "function_derivative"); }
  // a linear function: one step is exact
  const e_float sl(r.range(1, 1000)); const Newton ln([=](const e_float& z) { return (z - rt) * sl; }, [=](const e_float&) { return sl; }, rt - 1, rt + 3, tol); c.check(within(toQ(ln.operation()), toQ(rt), toQ(rt).abs() + Q::I(3), DIG - 1.0) && ln.success(), "linear function"); c.hit("root");
  const Newton no([=](const e_float& z) { return z * z + 1; }, [=](const e_float& z) { return z * 2; }, -rt - 1, rt + 2, T10(-te)); const e_float nz = no.operation(); c.check(!no.success() && nz.iszero(), "no success without a root", [&]{ return str(nz); }); c.hit("no root");
  const Newton ou([=](const e_float& z) { return z - rt; }, [=](const e_float&) { return ef::one(); }, rt + 1, rt + 2, tol); ou.operation(); c.check(!ou.success(), "no success with the root outside of the interval"); { const Newton fl([=](const e_float&) { return ef::one(); }, [=](const e_float&) { return ef::zero(); }, rt, rt + 1, tol); fl.operation(); c.check(!fl.success(), "no success for a flat function"); }
}
void derivative(Case& c)
{
  Rng& r = c.rng; const std::string s = gen_dec(r, -2, 1, true, 40); c.in("x", s); const e_float x(s); const Q q = Qs(s); const int kind = (int) r.below(3); c.in("kind", kind);
  if(kind == 0)
  {
    std::vector<long long> a; for(int i = 0; i < 7; ++i) a.push_back(r.range(-50, 50)); Q w = Q::I(0), m = Q::I(1); Q p = Q::I(1); for(int i = 1; i < 7; ++i) { w = w + Q::I(a[(std::size_t) i] * i) * p; p = p * q; m = m + p.abs() * Q::I(50); }
    const Deriv d([=](const e_float& z) { e_float v(0); for(int i = 6; i >= 0; --i) v = v * z + a[(std::size_t) i]; return v; }, x, T10(-3)); const e_float g = d.operation(); c.check(d.success() && within(toQ(g), w, m, DIG - 6.0), "derivative of a polynomial of degree six is exact", [&]{ return diff(toQ(g), w); }); c.hit("polynomial");
  }
  else
  {
    const char* fn = kind == 1 ? "sin" : "exp"; const Q w = kind == 1 ? q.fn("cos") : q.fn("exp"), sc = kind == 1 ? Q::I(1) : q.fn("exp"); const Deriv d(kind == 1 ? EF([](const e_float& z) { return ef::sin(z); }) : EF([](const e_float& z) { return ef::exp(z); }), x); const e_float g = d.operation(); const Q h = toQ(d.step()); const Q err = sc * (h.fn("pown", 6L) + Q::pow10(-(DIG - 2)) / h) * Q::I(2);
    c.check(d.success() && (toQ(g) - w).abs() <= err, fn, [&]{ return diff(toQ(g), w) + " step " + qs(h); }); c.check(std::fabs(h.log10abs() + std::floor(DIG * 1.15 / 5.0 + 0.5)) < 0.001, "default step", [&]{ return qs(h); }); c.hit("default step");
    const int e = (int) r.range(2, DIG / 8); const Deriv d2(kind == 1 ? EF([](const e_float& z) { return ef::sin(z); }) : EF([](const e_float& z) { return ef::exp(z); }), x, T10(-e)); const e_float g2 = d2.operation(); const Q w7 = kind == 1 ? -q.fn("cos") : q.fn("exp"); const Q hh = Q::pow10(-e), lead = w7 * hh.fn("pown", 6L) / Q::I(140) * Q::I(-1); (void) lead; c.check((toQ(g2) - w).abs() <= sc * (hh.fn("pown", 6L) / Q::I(25) + Q::pow10(-(DIG - 2)) / hh), "sixth order error", [&]{ return diff(toQ(g2), w); });
  }
}
void trapezoid(Case& c)
{
  Rng& r = c.rng; const int kind = (int) r.below(4); c.in("kind", kind); const std::string s = gen_dec(r, -1, 0, true, 20); c.in("z", s); const e_float z(s); const Q q = Qs(s); const Q pi = Q::I(0).fn("pi");
  auto run = [&](const Trap& t, const Q& w, const Q& tol, const char* what) { e_float g; try { g = t.operation(); } catch(const std::exception& e) { c.check(false, what, e.what()); return; } c.check(t.success(), "success"); c.check((toQ(g) - w).abs() <= tol, what, [&]{ return diff(toQ(g), w) + fmt(" calls %ld", t.calls); }); const long n = t.calls; const e_float h = t.operation(); c.check(h == g && t.success() && t.calls == 2 * n, "operation repeats"); };
  if(kind == 0) { const Q w = pi * q.fn("j0"); const Trap t([=](const e_float& x) { return ef::cos(z * ef::sin(x)); }, ef::zero(), ef::pi(), Trap::tol()); run(t, w, Q::pow10(-(DIG - 4)) * Q::I(4), "periodic integrand converges to all digits"); c.hit("periodic"); }
  else if(kind == 1) { const std::string a = gen_dec(r, -3, 3, true, 20), b = gen_dec(r, -3, 3, true, 20); c.in("a", a); c.in("b", b); const Q qa = Qs(a), qb = Qs(b), w = (qb - qa) * (q * (qa + qb) / Q::I(2) + Q::I(3)); const Q sc = (qa.abs() + qb.abs()) * (q.abs() * (qa.abs() + qb.abs()) + Q::I(3)); if(sc.iszero() || w.abs() < sc * Q::pow10(-10)) { c.trivial(); return; } const Trap t([=](const e_float& x) { return z * x + 3; }, e_float(a), e_float(b), T10(-12)); run(t, w, sc * Q::pow10(-(DIG - 4)), "linear integrand is exact"); c.hit("linear"); }
  else if(kind == 2) { const std::string a = (Q::I(r.range(1, 100000)) * Q::pow2(-(long) r.range(0, 20))).sci(60); c.in("a", a); const e_float ea(a); const bool zero = r.chance(50); c.in("zero", zero); const Trap t(zero ? EF([](const e_float&) { return ef::zero(); }) : EF([](const e_float& x) { return x; }), -ea, ea, T10(-8)); run(t, Q::I(0), Q::pow10(-(DIG - 4)), "integral of zero"); c.hit("zero integral"); }
  else { const int te = (int) r.range(3, 7); c.in("tol", -te); const Q qb = q.abs() + Q::D(0.5), w = qb.fn("exp") - Q::I(1); const Trap t([](const e_float& x) { return ef::exp(x); }, ef::zero(), ef::fabs(z) + ef::half(), T10(-te)); run(t, w, w * Q::pow10(-te), "error within the tolerance"); c.hit("tolerance"); }
}
void interpolate(Case& c)
{
  Rng& r = c.rng; const int n = (int) r.range(0, 12); c.in("n", n); std::vector<Util::point<e_float>> p; std::vector<Q> px, py; std::vector<Util::point<double, e_float>> pd; Q x = Qs(gen_dec(r, -3, 3, true, 20)); std::string pts;
  for(int i = 0; i < n; ++i) { const std::string sx = x.sci(50), sy = gen_dec(r, -3, 3, true, 30); pts += "(" + sx + "," + sy + ")"; p.push_back({ e_float(sx), e_float(sy) }); pd.push_back({ (double) i * 0.5, e_float(sy) }); px.push_back(toQ(p.back().x)); py.push_back(Qs(sy)); x = x + Qs(gen_dec(r, -3, 2, false, 20)); } c.in("points", pts);
  auto f = [&](const e_float& v) { return Util::linear_interpolate<e_float>::interpolate(v, p); };
  if(n == 0) { c.check(f(e_float(3)).iszero(), "no points"); c.hit("empty"); return; }
  for(int i = 0; i < n; ++i) c.check(within(toQ(f(p[(std::size_t) i].x)), py[(std::size_t) i], py[(std::size_t) i].abs() + (i ? py[(std::size_t) i - 1].abs() : Q::I(0)), DIG - 1.0), "value at a point", fmt("%d", i));
  c.check(f(p[0].x - 1) == p[0].y && f(-ef::million()) == p[0].y, "below the points"); c.check(f(p.back().x + 1) == p.back().y, "above the points");
  for(int i = 0; i + 1 < n; ++i) { const Q t = Qs("0." + gen_digits(r, 10)); const e_float v = p[(std::size_t) i].x + e_float(t.sci(20)) * (p[(std::size_t) i + 1].x - p[(std::size_t) i].x); const Q qv = toQ(v), a = px[(std::size_t) i], b = px[(std::size_t) i + 1]; if((b - a).log10abs() < -6) continue; const Q w = py[(std::size_t) i] + (py[(std::size_t) i + 1] - py[(std::size_t) i]) * (qv - a) / (b - a); const Q sc = py[(std::size_t) i].abs() + py[(std::size_t) i + 1].abs(); c.check((toQ(f(v)) - w).abs() <= sc * Q::pow10(-(DIG - 14)), "between two points", [&]{ return diff(toQ(f(v)), w); }); c.hit("between"); 
    const double dv = 0.5 * i + 0.125 * (double) r.range(0, 4); const Q wd = py[(std::size_t) i] + (py[(std::size_t) i + 1] - py[(std::size_t) i]) * Q::D((dv - 0.5 * i) / 0.5); c.check((toQ(Util::linear_interpolate<double, e_float>::interpolate(dv, pd)) - wd).abs() <= sc * Q::pow10(-(DIG - 1)), "double abscissa"); }
  for(int i = 0; i + 1 < n; ++i) c.check(p[(std::size_t) i] < p[(std::size_t) i + 1] && !(p[(std::size_t) i + 1] < p[(std::size_t) i]) && !(p[(std::size_t) i] < p[(std::size_t) i]), "order of points");
}
void functors(Case& c)
{
  Rng& r = c.rng; const int n = (int) r.range(0, 40); c.in("n", n); const std::string s = gen_dec(r, -1, 0, true, 30); c.in("x", s); const Q qx = Qs(s); std::vector<e_float> a; std::vector<Q> q; std::string all; for(int i = 0; i < n; ++i) { all += gen_dec(r, -5, 5, true, 20); const std::string t = gen_dec(r, -5, 5, true, 30); a.push_back(e_float(t)); q.push_back(Qs(t)); }
  const std::string si = gen_dec(r, -3, 3, true, 20); c.in("start", si); const Q q0 = Qs(si); Q w = q0, m = q0.abs(), p = Q::I(1), w2 = q0, w3 = q0, w4 = q0, pm = Q::I(1), m2 = q0.abs(); const Q f0 = Q::I(7) / Q::I(8);
  for(int i = 0; i < n; ++i) { w = w + q[(std::size_t) i] * p; w4 = w4 + q[(std::size_t) i] * p * f0; m = m + (q[(std::size_t) i] * p).abs(); p = p * qx; w2 = (i % 2) ? w2 - q[(std::size_t) i] : w2 + q[(std::size_t) i]; w3 = (i % 2) ? w3 + q[(std::size_t) i] : w3 - q[(std::size_t) i]; m2 = m2 + q[(std::size_t) i].abs(); }
  const e_float e0(si); auto chk = [&](const e_float& g, const Q& want, const Q& sc, const char* what) { c.check(within(toQ(g), want, sc, DIG - 2.0) || (sc.iszero() && toQ(g).iszero()), what, [&]{ return diff(toQ(g), want); }); };
  chk(std::accumulate(a.begin(), a.end(), e0, Util::coefficient_expansion<e_float>(e_float(s))), w, m, "coefficient_expansion"); chk(std::accumulate(a.begin(), a.end(), e0, Util::coefficient_expansion<e_float>(e_float(s), e_float(0.875))), w4, m, "coefficient_expansion with a factor"); chk(std::accumulate(a.begin(), a.end(), e0, Util::alternating_sum<e_float>()), w2, m2, "alternating_sum"); chk(std::accumulate(a.begin(), a.end(), e0, Util::alternating_sum<e_float>(true)), w3, m2, "negative alternating_sum"); c.hit(n ? "series" : "empty series");
}
template<class T> void cast1(Case& c, const T v, const char* n) { std::ostringstream o; if(std::is_floating_point<T>::value) o << std::setprecision(std::numeric_limits<T>::max_digits10) << v; else if(sizeof(T) == 1) o << (int) v; else o << v; const T g = Util::numeric_cast<T>(o.str()); c.check(g == v, n, "text " + o.str()); if(sizeof(T) > 1 && !std::is_floating_point<T>::value) c.check(Util::lexical_cast(v) == o.str(), "lexical_cast", o.str()); }
void casts(Case& c)
{
  Rng& r = c.rng; const unsigned long long u = r.next() >> r.below(64); const bool ng = r.chance(50); c.in("u", (long long) u); c.in("neg", ng); const long long i = ng ? -(long long) (u >> 1) - 1 : (long long) (u >> 1);
  cast1<signed char>(c, (signed char) i, "signed char"); cast1<unsigned char>(c, (unsigned char) u, "unsigned char"); cast1<short>(c, (short) i, "short"); cast1<unsigned short>(c, (unsigned short) u, "unsigned short"); cast1<int>(c, (int) i, "int"); cast1<unsigned>(c, (unsigned) u, "unsigned"); cast1<long>(c, (long) i, "long"); cast1<unsigned long>(c, (unsigned long) u, "unsigned long"); cast1<long long>(c, i, "long long"); cast1<unsigned long long>(c, u, "unsigned long long");
  cast1<float>(c, (float) i / 1024.0f, "float"); cast1<double>(c, (double) i / 1048576.0, "double"); cast1<long double>(c, (long double) i / 1048576.0L, "long double"); const std::string s = gen_dec(r, -30, 30); c.in("s", s); c.check(Util::numeric_cast<e_float>(s) == e_float(s), "e_float"); c.check(Util::lexical_cast(s) == s, "text");
}
// Elements that know where they live.
struct Elem { static std::set<const Elem*>& live() { static std::set<const Elem*> s; return s; } static bool& bad() { static bool b = false; return b; } int v; const Elem* self; Elem(int x = 0) : v(x), self(this) { if(!live().insert(this).second) bad() = true; } Elem(const Elem& o) : v(o.v), self(this) { o.chk(); if(!live().insert(this).second) bad() = true; } Elem& operator=(const Elem& o) { chk(); o.chk(); v = o.v; return *this; } ~Elem() { chk(); live().erase(this); self = nullptr; } void chk() const { if(self != this || !live().count(this)) bad() = true; } bool operator==(const Elem& o) const { return v == o.v; } bool operator<(const Elem& o) const { return v < o.v; } };
struct Stats { long blocks = 0, elems = 0; }; Stats& st() { static Stats s; return s; }
template<class T> struct Alloc { using value_type = T; Alloc() = default; template<class U> Alloc(const Alloc<U>&) { } T* allocate(std::size_t n) { st().blocks++; st().elems += (long) n; return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, std::size_t n) { if(!p) return; st().blocks--; st().elems -= (long) n; ::operator delete(p); } template<class U> bool operator==(const Alloc<U>&) const { return true; } template<class U> bool operator!=(const Alloc<U>&) const { return false; } };
void array(Case& c)
{
  Rng& r = c.rng; using A = util::dynamic_array<Elem, Alloc<Elem>>; Elem::bad() = false; const std::size_t before = Elem::live().size(); const Stats s0 = st(); std::string prog;
  {
    const int N = 4; std::vector<A> a((std::size_t) 0); a.reserve(N); std::vector<std::vector<int>> m; auto rnd = [&] { std::vector<int> v; const long n = r.range(0, 9); for(long i = 0; i < n; ++i) v.push_back((int) r.range(-3, 3)); return v; };
    for(int i = 0; i < N; ++i) { const auto v = rnd(); m.push_back(v); a.emplace_back(v.begin(), v.end()); }
    auto same = [&](const A& x, const std::vector<int>& v) { if(x.size() != v.size() || x.empty() != v.empty() || (std::size_t) (x.end() - x.begin()) != v.size()) return false; for(std::size_t i = 0; i < v.size(); ++i) if(x[(A::size_type) i].v != v[i] || x.at((A::size_type) i).v != v[i] || (x.cbegin() + i)->v != v[i] || x.data()[i].v != v[i]) return false; if(!v.empty() && (x.front().v != v.front() || x.back().v != v.back() || x.rbegin()->v != v.back() || (x.rend() - 1)->v != v.front() || (x.crend() - 1)->v != v.front())) return false; return true; };
    for(int step = 0; step < 40; ++step)
    {
      const std::size_t i = r.below(N), j = r.below(N); const int op = (int) r.below(13); prog += fmt("%d:%zu,%zu ", op, i, j);
      switch(op)
      {
        case 0: a[i] = a[j]; m[i] = m[j]; break;
        case 1: if(i != j) { a[i] = std::move(a[j]); m[i] = m[j]; m[j].clear(); c.hit("move assignment"); } else { A& z = a[j]; a[i] = std::move(z); c.hit("self move"); } break;
        case 2: a[i].swap(a[j]); std::swap(m[i], m[j]); break;
        case 3: { using std::swap; using util::swap; swap(a[i], a[j]); std::swap(m[i], m[j]); break; }
        case 4: { const int k = (int) r.range(-3, 3); a[i].fill(Elem(k)); std::fill(m[i].begin(), m[i].end(), k); break; }
        case 5: { const long n = r.range(0, 9); const int k = (int) r.range(-3, 3); a[i] = A((A::size_type) n, Elem(k)); m[i].assign((std::size_t) n, k); break; }
        case 6: { A t(a[j]); c.check(same(t, m[j]), "copy construction"); A u(std::move(t)); c.check(same(u, m[j]) && t.empty() && t.size() == 0, "move construction"); t = u; c.check(same(t, m[j]), "assign to moved-from"); a[i] = u; m[i] = m[j]; break; }
        case 7: if(!m[i].empty()) { const std::size_t k = r.below(m[i].size()); const int v = (int) r.range(-9, 9); if(r.chance(50)) a[i][(A::size_type) k] = Elem(v); else a[i].at((A::size_type) k) = Elem(v); m[i][k] = v; } break;
        case 8: { A t{ Elem(1), Elem(2), Elem(3) }; c.check(same(t, { 1, 2, 3 }), "initializer list"); a[i].swap(std::move(t)); m[i] = { 1, 2, 3 }; break; }
        case 9: { std::sort(a[i].begin(), a[i].end()); std::sort(m[i].begin(), m[i].end()); break; }
        case 10: { std::reverse(a[i].rbegin(), a[i].rend()); std::reverse(m[i].begin(), m[i].end()); break; }
        case 11: { A t((A::size_type) m[i].size()); c.check(same(t, std::vector<int>(m[i].size(), 0)), "default elements"); std::copy(a[i].begin(), a[i].end(), t.begin()); c.check(t == a[i], "copied elements"); break; }
        default: if(!m[i].empty()) { a[i].front() = Elem(5); m[i].front() = 5; a[i].back() = Elem(6); m[i].back() = 6; }
      }
      for(std::size_t k = 0; k < N; ++k) c.check(same(a[k], m[k]), "contents", [&]{ return prog; });
      c.check((a[i] == a[j]) == (m[i] == m[j]) && (a[i] != a[j]) == (m[i] != m[j]) && (a[i] < a[j]) == (m[i] < m[j]) && (a[i] > a[j]) == (m[i] > m[j]) && (a[i] <= a[j]) == (m[i] <= m[j]) && (a[i] >= a[j]) == (m[i] >= m[j]), "comparison", [&]{ return prog; });
      long total = 0, blocks = 0; for(std::size_t k = 0; k < N; ++k) { total += (long) m[k].size(); blocks += !m[k].empty(); } c.check((long) (Elem::live().size() - before) == total && st().elems - s0.elems == total && st().blocks - s0.blocks == blocks && !Elem::bad(), "lifetimes and storage", [&]{ return prog; });
    }
  }
  c.in("program", prog); c.check(Elem::live().size() == before && st().blocks == s0.blocks && st().elems == s0.elems && !Elem::bad(), "everything destroyed and released"); c.hit("program");
}
void timer(Case& c)
{
  Rng& r = c.rng; const Util::timer t; const double off = (double) r.range(-5, 5); const Util::timer o(off); double last = -1e-9; volatile double x = 1; for(int i = 0; i < 20; ++i) { for(int k = 0; k < 2000; ++k) x = x * 1.0000001; const double e = t.elapsed(); c.check(e >= last && e < 100, "elapsed time does not decrease", fmt("%g after %g", e, last)); last = e; } const double d = t.elapsed() - o.elapsed(); c.check(std::fabs(d - off) < 0.05, "offset", fmt("%g want %g", d, off));
}
}
FAMILY("C26.bisect", 400, bisect);
FAMILY("C26.newton", 400, newton);
FAMILY("C26.derivative", 1200, derivative);
FAMILY("C26.trapezoid", 240, trapezoid);
FAMILY("C26.interpolate", 2400, interpolate);
FAMILY("C26.functors", 2400, functors);
FAMILY("C26.casts", 6000, casts);
FAMILY("C26.array", 1200, array);
FAMILY("C26.timer", 24, timer);
