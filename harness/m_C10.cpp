// C10: text round trip.
#include <cstdio>
#include "efmon.h"
namespace {
constexpr int MD = std::numeric_limits<e_float>::max_digits10;
e_float gen_val(Rng& r, std::string& how)
{
  const std::string a = gen_any(r), b = gen_any(r); const e_float x(a), y(b);
  switch(r.below(8)) { case 0: how = a; return x; case 1: how = a + " / " + b; return y.iszero() ? x : x / y; case 2: how = a + " * " + b; return x * y; case 3: how = "sqrt " + a; return ef::sqrt(ef::fabs(x)); case 4: how = a + " + " + b; return x + y; case 5: { const std::string d = gen_digits(r, DIG); how = d; return e_float(d) / e_float(gen_dec(r, 0, 5, true, 10)); } case 6: how = "pi*" + a; return ef::pi() * x; default: how = "1/" + a; return x.iszero() ? x : ef::inv(x); }
}
// ef::value -> text with all digits -> value: equal up to the last printed digit; the text is then a fixed point
void roundtrip(Case& c)
{
  Rng& r = c.rng; std::string how; const e_float x = gen_val(r, how); c.in("x", how); if(!x.isfinite()) { c.trivial(); return; } const Q q = toQ(x); if(std::fabs(q.log10abs()) > std::labs(MIN10) - 300.0) { c.trivial(); return; }
  const int mode = (int) r.below(3); const long digs = MD; std::ostringstream os; os.precision(mode == 1 ? digs : digs); if(mode == 0) os << std::scientific; if(mode == 1) { if(std::fabs(q.log10abs()) > 1000) { c.trivial(); return; } os << std::fixed; os.precision(digs + (long) std::max(0.0, 1 - q.log10abs())); } c.in("mode", mode); if(r.chance(30)) os << std::showpos; if(r.chance(30)) os << std::uppercase;
  os << x; const std::string s = os.str(); const e_float y(s); c.hit(mode == 0 ? "scientific" : mode == 1 ? "fixed" : "default");
  c.check(y.isfinite() && close(toQ(y), q, DIG - 0.0), "value survives text", [&]{ return s + " " + diff(toQ(y), q); });
  const e_float d = ef::fabs(x - y); c.check(x.iszero() ? y.iszero() : d <= ef::fabs(x) * e_float(fmt("1e-%d", DIG)), "difference", [&]{ return str(d); });
  std::istringstream is(s); e_float z; is >> z; c.check(z == y && is.eof(), "stream extraction agrees");
  // second generation: precision of what was printed
  std::ostringstream o2; o2.flags(os.flags()); o2.precision(os.precision()); o2 << y; const e_float y2(o2.str()); c.check(close(toQ(y2), toQ(y), DIG - 0.0), "second round trip"); if(IS_EFX && (mode != 2 || x.order() == y.order())) c.check(o2.str() == s, "the text is a fixed point", [&]{ return o2.str() + " vs " + s; });
}
// values of at most digits10 digits: the text is the number, exactly
void digits10(Case& c)
{
  Rng& r = c.rng; const int n = (int) r.range(1, DIG); const std::string d = gen_digits(r, n); const long e = gen_order(r); const std::string m = d.substr(0, 1) + (n > 1 ? "." + d.substr(1) : ""); const std::string s = (r.chance(50) ? "-" : "") + m + "e" + (e < 0 ? "-" : "+") + std::to_string(std::labs(e)); c.in("s", s);
  if(std::labs(e) > std::labs(MIN10) - 300) { c.trivial(); return; }
  const e_float x(s); std::ostringstream os; if(n > 1) { os << std::scientific << std::setprecision(n - 1) << x; std::string want = s.substr(0, s.find('e')), got = os.str(); const std::size_t k = got.find('e'); c.check(got.substr(0, k) == want && std::stol(got.substr(k + 1)) == e, "digits10 digits survive text -> value -> text", [&]{ return got; }); c.hit("digits10"); }
  const e_float y(os.str().empty() ? s : os.str()); c.check(x == y || close(toQ(y), toQ(x), DIG), "value -> text -> value");
}
void builtin(Case& c)
{
  Rng& r = c.rng; const double d = std::ldexp((double) (r.next() >> 11), (int) r.range(-300, 250)) * (r.chance(50) ? 1 : -1); if(d == 0) { c.trivial(); return; } c.in("d", fmt("%.17g", d));
  const e_float x(fmt("%.17g", d)); c.check(x.extract_double() == d, "shortest text of a double", [&]{ return fmt("%.17g", x.extract_double()); });
  std::ostringstream os; os << std::setprecision(17) << e_float(d); c.check(std::stod(os.str()) == d, "double through e_float and text", os.str());
}
}
FAMILY("C10.roundtrip", 12000, roundtrip);
FAMILY("C10.digits10", 10000, digits10);
FAMILY("C10.builtin", 4000, builtin);
