// The drawn calls ("tasks") that C24 runs on threads and C28 under hostile locales: every kind returns the text of its results.
#ifndef VERIF_TASKS_H
#define VERIF_TASKS_H
#include <cstring>
#include <deque>
#include <map>
#include "efmon.h"
#include <e_float/e_float_complex.h>
#include <e_float/e_float_functions_complex.h>
#include <functions/integer/prime_factors.h>
#include <utility/util_power_j_pow_x.h>
#include <utility/util_alternating_sum.h>
#include <utility/util_coefficient_expansion.h>
#include <utility/util_digit_scale.h>
#include <utility/util_find_root_bisect.h>
#include <utility/util_find_root_newton_raphson.h>
#include <utility/util_function_derivative.h>
#include <utility/util_interpolate.h>
#include <utility/util_trapezoid.h>
#include <generic_functions/constants/generic_functions_constants.h>
#include <numeric>
namespace {
typedef ef::complex<e_float> C;
constexpr bool BIG = DIG > 500;
std::string txt(const e_float& x) { std::ostringstream os; os.exceptions(std::ios::badbit); os << std::scientific << std::setprecision(DIG + 1) << x; return os.str(); }
std::string bits(double d) { std::uint64_t u; std::memcpy(&u, &d, sizeof u); return fmt("%016llx", (unsigned long long) u); }
std::string txt(const C& z) { return txt(z.real()) + "," + txt(z.imag()); }
const int NK = 44;
const char* const KIND[NK] = { "construct", "arith", "sqrt", "text", "print", "exp", "log", "pow", "trig", "arc", "hyper", "constants", "limits", "gamma", "factorial", "binomial", "pochhammer", "zeta", "zeta int", "bernoulli", "prime", "factors", "j_pow_x", "hypergeometric", "complex arith", "complex exp", "complex zeta", "mixed", "convert", "special", "complex arc", "complex hyper", "complex root", "complex text", "series", "gamma near n", "reciprocal trig", "scale", "large table index", "root finding", "quadrature", "derivative", "interpolate", "generic" };
struct Root : Util::FindRootBisect<e_float> { e_float q; Root(const e_float& v) : Util::FindRootBisect<e_float>(e_float(0), v + 1, e_float(1) / 1000000000U), q(v) { } e_float my_function(const e_float& x) const override { return x * x - q; } };
struct Newton : Util::FindRootNewtonRaphson<e_float> { e_float q; Newton(const e_float& v) : Util::FindRootNewtonRaphson<e_float>(e_float(0), v + 1, std::numeric_limits<e_float>::epsilon() * 100U), q(v) { } e_float my_function(const e_float& x) const override { return x * x - q; } void my_function_derivative(const e_float& x, e_float& f, e_float& d) const override { f = x * x - q; d = x * 2; } };
struct Deriv : Util::FunctionDerivative<e_float> { Deriv(const e_float& x) : Util::FunctionDerivative<e_float>(x) { } e_float my_function(const e_float& x) const override { return x * x * x + 1 / x; } };
struct Trap : Util::RecursiveTrapezoidRule<e_float> { Trap(const e_float& b) : Util::RecursiveTrapezoidRule<e_float>(e_float(0), b, e_float(1) / 1000U) { } e_float my_function(const e_float& x) const override { return 1 / (1 + x * x); } };
struct Task { int kind; std::uint64_t seed; };
std::string run(const Task& t)
{
  Rng r(t.seed); const long a = r.range(2, 50), b = r.range(2, 50); const e_float x = e_float(a) / b, y = e_float(r.range(1, 1000)) / 7; std::string s;
  switch(t.kind)
  {
    case 0: { e_float u("1.25e10"), v(3.5), w(17U), z(-5LL); return txt(u) + txt(v) + txt(w) + txt(z); }
    case 1: { e_float u(x); for(int i = 0; i < 20; ++i) { u *= y; u += x; u /= (y + 1); u -= x * y; } return txt(u); }
    case 2: return txt(ef::sqrt(x)) + txt(ef::cbrt(x)) + txt(ef::rootn(y, 7)) + txt(ef::inv(y));
    case 3: { std::istringstream is("0.1234567890123456789 -7e55 3"); is.exceptions(std::ios::badbit); e_float u, v, w; is >> u >> v >> w; return txt(u) + txt(v) + txt(w); }
    case 4: { std::ostringstream os; os.exceptions(std::ios::badbit); os << std::fixed << std::setprecision(30) << x << std::scientific << y; return os.str(); }
    case 5: return txt(ef::exp(x)) + txt(ef::exp(-y));
    case 6: return txt(ef::log(x)) + txt(ef::log10(y)) + txt(ef::log1p(x / 100)) + txt(ef::loga(x + 2, y));
    case 7: return txt(ef::pow(x, y)) + txt(ef::pow(x, static_cast<std::int64_t>(a))) + txt(ef::pow2(a)) + txt(ef::pow2(-b));
    case 8: { e_float u, v; ef::sincos(x, &u, &v); return txt(u) + txt(v) + txt(ef::tan(y)) + txt(ef::cot(x)) + txt(ef::sin(y * 100)); }
    case 9: return txt(ef::asin(x / 60)) + txt(ef::acos(x / 60)) + txt(ef::atan(y)) + txt(ef::atan2(x, y));
    case 10: return txt(ef::sinh(x)) + txt(ef::cosh(x)) + txt(ef::tanh(x)) + txt(ef::asinh(y)) + txt(ef::acosh(y + 1)) + txt(ef::atanh(x / 60));
    case 11: { typedef const e_float& (*fn)(); static const fn f[] = { ef::pi, ef::pi_half, ef::two_pi, ef::sqrt_pi, ef::pi_squared, ef::e, ef::ln2, ef::ln10, ef::sqrt2, ef::phi, ef::euler_gamma, ef::catalan, ef::khinchin, ef::glaisher, ef::third, ef::two_third, ef::googol, ef::int64_max, ef::long_double_max, ef::double_min, ef::tenth, ef::trillion }; const std::size_t n = sizeof f / sizeof f[0]; for(int i = 0; i < 4; ++i) s += txt(f[r.below(n)]()); return s; }
    case 12: return txt((std::numeric_limits<e_float>::max)()) + txt((std::numeric_limits<e_float>::min)()) + txt(std::numeric_limits<e_float>::epsilon()) + txt(std::numeric_limits<e_float>::infinity()) + txt(std::numeric_limits<e_float>::quiet_NaN());
    case 13: if(BIG) return ""; return txt(ef::gamma(x)) + txt(ef::gamma(y + 200)) + txt(ef::gamma(-y));
    case 14: return txt(ef::factorial((std::uint32_t) (a * 10))) + txt(ef::factorial2((std::int32_t) (b * 11)));
    case 15: return txt(ef::binomial((std::uint32_t) (a + b), (std::uint32_t) b)) + txt(ef::binomial(200U + (std::uint32_t) a, 7U));
    case 16: return txt(ef::pochhammer(x, 12U)) + (BIG ? std::string() : txt(ef::pochhammer(x, y)));
    case 17: if(BIG) return ""; return txt(ef::riemann_zeta(e_float(3) / 2 + x)) + txt(ef::riemann_zeta(-x)) + txt(ef::riemann_zeta(y + 60));
    case 18: if(BIG) return ""; return txt(ef::riemann_zeta((std::int32_t) a)) + txt(ef::riemann_zeta((std::int32_t) -b)) + txt(ef::riemann_zeta((std::int32_t) (2 * a + 1)));
    case 19: { if(BIG) return ""; std::vector<e_float> v; ef::bernoulli_table(v, (std::uint32_t) b); return txt(ef::bernoulli((std::uint32_t) (2 * a))) + txt(v.empty() ? e_float(0) : v.back()); }
    case 20: { std::deque<std::uint32_t> p; ef::prime((std::uint32_t) (a * 40), p); return std::to_string(p.back()) + "/" + std::to_string(p.size()); }
    case 21: { for(int i = 0; i < 6; ++i) { std::deque<Util::point<std::uint32_t>> p; ef::prime_factors((std::uint32_t) r.below(i & 1 ? 4000000000ULL : 9999ULL) + 2U, p); for(const auto& f : p) s += std::to_string(f.x) + "^" + std::to_string(f.y) + " "; } return s; }
    case 22: { std::map<std::uint32_t, e_float> m; for(int i = 0; i < 6; ++i) s += txt(Util::j_pow_x((std::uint32_t) r.range(2, 300), x, m)); return s; }
    case 23: if(BIG) return ""; return txt(ef::hypergeometric_1f1(x, y, e_float(1) / 3)) + txt(ef::hypergeometric_2f1(x, y, x + 1, e_float(1) / 5)) + txt(ef::hypergeometric_0f1(y, x));
    case 24: { C z(x, y), w(y, -x); return txt(z * w) + txt(z / w) + txt(z + w) + txt(ef::pow(z, 7)) + txt(ef::abs(z)); }
    case 25: { C z(x / 5, y / 50); return txt(ef::exp(z)) + txt(ef::log(z)) + txt(ef::sin(z)) + txt(ef::sqrt(z)) + txt(ef::atan(z)); }
    case 26: if(BIG) return ""; return txt(ef::riemann_zeta(C(e_float(1) / 2, x))) + txt(ef::gamma(C(x, x + 1)));
    case 27: { e_float u(x); u += 3; u *= 2.5; u -= 7LL; u /= 3U; u = 5 - u; u = 1.0 / u; return txt(u) + (u < 3 ? "<" : ">") + (x == a ? "=" : "#"); }
    case 28: return std::to_string(ef::to_int64(y * 100)) + bits(ef::to_double(x)) + std::to_string(ef::order_of(y)) + txt(ef::floor(y)) + txt(ef::fmod(y, x));
    case 30: { C z(x / 5, y / 50); return txt(ef::asin(z)) + txt(ef::acos(z)) + txt(ef::tan(z)); }
    case 31: { C z(x / 5, y / 50); return txt(ef::sinh(z)) + txt(ef::cosh(z)) + txt(ef::tanh(z)) + txt(ef::asinh(z)) + txt(ef::acosh(z)) + txt(ef::atanh(z)); }
    case 32: { C z(x, -y); return txt(ef::sqrt(z)) + txt(ef::pow(z, C(y / 100, x / 10))) + txt(ef::log10(z)) + txt(ef::arg(z)) + txt(ef::norm(z)) + txt(ef::polar(x, y)); }
    case 33: { std::ostringstream os; os.exceptions(std::ios::badbit); os << std::setprecision(30) << C(x, y); return os.str(); }
    case 34: if(BIG) return ""; { std::deque<e_float> p, q; p.push_back(x); p.push_back(y); q.push_back(x + 1); q.push_back(y + 2); return txt(ef::hypergeometric_pfq(p, q, e_float(1) / 7)) + txt(ef::hypergeometric_0f0(x)) + txt(ef::hypergeometric_1f0(x, e_float(1) / 9)) + txt(ef::log1p1m2(e_float(1) / (a + 5))); }
    case 35: if(BIG) return ""; return txt(ef::gamma_near_n((std::int32_t) a, e_float(1) / 1000U)) + txt(ef::gamma_near_n((std::int32_t) -b, e_float(1) / 1000U)) + txt(ef::gamma(C(e_float(-a), e_float(1) / 1000U)));
    case 36: return txt(ef::sec(x)) + txt(ef::csc(y)) + txt(ef::cot(y)) + txt(ef::rootn_inverse(y, 3));
    case 37: { double m = 0; std::int64_t ex = 0; ef::to_parts(y, m, ex); int e2 = 0; const e_float f = ef::frexp(y, &e2); return bits(m) + fmt(" %lld %d", (long long) ex, e2) + txt(f) + txt(ef::ldexp(x, (int) a)) + txt(ef::ceil(y)) + txt(ef::integer_part(-y)) + txt(ef::decimal_part(y)) + std::to_string(ef::to_int32(y)) + std::to_string(ef::tolerance()) + std::to_string(ef::max_iteration()) + bits(Util::DigitScale()) + (ef::small_arg(x) ? "s" : "l") + (ef::near_int(y) ? "n" : "f"); }
    case 38: { std::deque<Util::point<std::uint32_t>> f; ef::prime_factors(104730U + 2U * (std::uint32_t) a, f); std::deque<std::uint32_t> p; ef::prime(12000U + (std::uint32_t) a, p); return std::to_string(p.back()) + "/" + std::to_string(f.size()) + txt(ef::factorial(900U + (std::uint32_t) a)) + txt(ef::factorial2((std::int32_t) (1001 + 2 * b))) + (BIG ? std::string() : txt(ef::bernoulli(600U + 2U * (std::uint32_t) a))); }
    case 39: { Root q(y + 1); return txt(q.operation()) + txt(Newton(y + 1).operation()); }
    case 40: return txt(Trap(x / 50).operation());
    case 41: return txt(Deriv(x).operation());
    case 42: { std::vector<e_float> v(5, x); std::vector<Util::point<e_float>> w; for(int i = 0; i < 6; ++i) w.push_back(Util::point<e_float>(e_float(i), y * i)); return txt(std::accumulate(v.begin(), v.end(), e_float(0), Util::coefficient_expansion<e_float>(x / 100, e_float(1)))) + txt(std::accumulate(v.begin(), v.end(), e_float(0), Util::alternating_sum<e_float>())) + txt(Util::linear_interpolate<e_float>::interpolate(e_float(5) / 2, w)); }
    case 43: return txt(generic_functions::sqrt<e_float>(y)) + txt(generic_functions::log<e_float>(x + 1)) + txt(generic_functions::pi<e_float>()) + txt(generic_functions::ln2<e_float>()) + txt(generic_functions::rootn<e_float>(y, 3)) + bits(generic_functions::sqrt<double>(2.5));
    default: { const e_float i = std::numeric_limits<e_float>::infinity(), n = i - i; return txt(i + 1) + (n.isnan() ? "nan" : "?") + txt(ef::exp(-i)) + txt(1 / i) + (ef::log(e_float(-1)).isnan() ? "nan" : "?"); }
  }
}
}
#endif
