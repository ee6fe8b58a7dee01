// C20: complex arithmetic, value operations, comparisons, integer powers; text input and output; generic complex on built-in types.
#include "cfmon.h"
static C gen_c(Case& c, Rng& r, const char* name)
{
  std::string a, b;
  switch(r.below(8))
  {
    case 0: a = gen_dec(r, -3, 3); b = gen_dec(r, -3, 3); c.cls("moderate"); break;
    case 1: a = gen_dec(r, -20, 20); b = gen_dec(r, -20, 20); c.cls("mixed scales"); break;
    case 2: a = gen_any(r); b = gen_any(r); c.cls("any scales"); break;
    case 3: a = gen_any(r); b = "0"; c.cls("real"); break;
    case 4: a = "0"; b = gen_any(r); c.cls("imaginary"); break;
    case 5: { a = gen_any(r); b = r.chance(50) ? a : (a[0] == '-' ? a.substr(1) : "-" + a); c.cls("equal magnitudes"); break; }
    case 6: { const long e = gen_order(r); a = gen_dec(r, e - 2, e + 2); b = gen_dec(r, e - 2, e + 2); c.cls("same scale"); break; }
    default: a = std::to_string(r.range(-20, 20)); b = std::to_string(r.range(-20, 20)); c.cls("small integers"); break;
  }
  c.in(name, "(" + a + "," + b + ")"); return C(e_float(a), e_float(b));
}
static void chk(Case& c, const CQ& g, const CQ& w, const Q& sre, const Q& sim, const char* what, double k = DIG) { c.check(nearc(g, w, sre, sim, k), what, [&]{ return cdiff(g, w); }); }
static void f_arith(Case& c)
{
  Rng& r = c.rng; const C u = gen_c(c, r, "u"), v = gen_c(c, r, "v"); const CQ p = toCQ(u), q = toCQ(v);
  const Q zero = Q::I(0);
  auto pair = [&](const C& bin, C cmp, const CQ& w, const Q& sre, const Q& sim, const char* what, double k = DIG) { chk(c, toCQ(bin), w, sre, sim, what, k); c.check(cmp == bin && !(cmp != bin), "compound form equals binary form", what); };
  { C t(u); t += v; pair(u + v, t, p + q, p.re.abs() + q.re.abs(), p.im.abs() + q.im.abs(), "u + v"); }
  { C t(u); t -= v; pair(u - v, t, p - q, p.re.abs() + q.re.abs(), p.im.abs() + q.im.abs(), "u - v"); }
  const Q mre = (p.re * q.re).abs() + (p.im * q.im).abs(), mim = (p.re * q.im).abs() + (p.im * q.re).abs();
  { C t(u); t *= v; pair(u * v, t, p * q, mre, mim, "u * v"); }
  if(!q.iszero()) { C t(u); t /= v; const Q n = q.norm(); pair(u / v, t, p / q, mre / n, mim / n, "u / v", DIG - 1); }
  { C t(u); t += t; chk(c, toCQ(t), p + p, p.re.abs(), p.im.abs(), "t += t"); }
  { C t(u); t -= t; c.check(t == C(), "t -= t", [&]{ return cs(toCQ(t)); }); }
  { C t(u); t *= t; chk(c, toCQ(t), p * p, p.norm(), (p.re * p.im).abs() * Q::I(2), "t *= t"); }
  if(!p.iszero()) { C t(u); t /= t; c.check(t == C(e_float(1)), "t /= t", [&]{ return cs(toCQ(t)); }); }
  { C t(u); const C& a = t; t = a; c.check(t == u, "t = t"); }
  const e_float x = v.real(); const Q X = q.re;
  { C t(u); t += x; pair(u + x, t, p + CQ(X), p.re.abs() + X.abs(), p.im.abs(), "u + x"); chk(c, toCQ(x + u), p + CQ(X), p.re.abs() + X.abs(), p.im.abs(), "x + u"); }
  { C t(u); t -= x; pair(u - x, t, p - CQ(X), p.re.abs() + X.abs(), p.im.abs(), "u - x"); chk(c, toCQ(x - u), CQ(X) - p, p.re.abs() + X.abs(), p.im.abs(), "x - u"); }
  { C t(u); t *= x; pair(u * x, t, p * CQ(X), (p.re * X).abs(), (p.im * X).abs(), "u * x"); chk(c, toCQ(x * u), p * CQ(X), (p.re * X).abs(), (p.im * X).abs(), "x * u"); }
  if(!X.iszero()) { C t(u); t /= x; pair(u / x, t, CQ(p.re / X, p.im / X), (p.re / X).abs(), (p.im / X).abs(), "u / x", DIG - 1); }
  if(!p.iszero()) { const CQ w = CQ(X) / p; chk(c, toCQ(x / u), w, w.re.abs(), w.im.abs(), "x / u", DIG - 1); }
  chk(c, toCQ(-u), -p, p.re.abs(), p.im.abs(), "-u"); chk(c, toCQ(+u), p, p.re.abs(), p.im.abs(), "+u");
  { C t(u); t = x; c.check(t.real() == x && ef::iszero(t.imag()), "assignment of a real number"); t.imag(u.real()); t.real(u.imag()); c.check(t.real() == u.imag() && t.imag() == u.real(), "setters"); }
  const bool eq = u.real() == v.real() && u.imag() == v.imag();
  c.check((u == v) == eq && (u != v) == !eq && u == C(u) && !(u != C(u)), "equality"); c.check((u == x) == (u.real() == x && ef::iszero(u.imag())) && (x == u) == (u == x) && (u != x) == !(u == x) && (x != u) == !(u == x), "equality with a real number");
  { C a(u), b(u); a.imag(u.imag() + (ef::iszero(u.imag()) ? e_float(1) : u.imag())); b.real(u.real() + (ef::iszero(u.real()) ? e_float(1) : u.real())); c.check(!(a == u) && a != u && !(b == u) && b != u, "difference in one part"); }
}
FAMILYX("C20.arith", 4000, f_arith, 8);
static void f_value(Case& c)
{
  Rng& r = c.rng; const C z = gen_c(c, r, "z"); const CQ p = toCQ(z);
  const Q n = p.norm(); c.check(near(toQ(ef::norm(z)), n, n, DIG), "norm", [&]{ return diff(toQ(ef::norm(z)), n); });
  const Q a = p.abs(); c.check(near(toQ(ef::abs(z)), a, a, DIG), "abs", [&]{ return diff(toQ(ef::abs(z)), a); });
  if(!p.iszero()) { const Q t = p.arg(); c.check(near(toQ(ef::arg(z)), t, t, DIG - 2), "arg", [&]{ return diff(toQ(ef::arg(z)), t); }); }
  c.check(ef::real(z) == z.real() && ef::imag(z) == z.imag(), "real, imag");
  const C j = ef::conj(z); c.check(j.real() == z.real() && j.imag() == -z.imag(), "conj", [&]{ return cs(toCQ(j)); });
  c.check(ef::proj(z) == z, "proj of a finite number", [&]{ return cs(toCQ(ef::proj(z))); });
  { const e_float inf = r.chance(50) ? std::numeric_limits<e_float>::infinity() : -std::numeric_limits<e_float>::infinity(); const C q = ef::proj(r.chance(50) ? C(inf, z.imag()) : C(z.real(), inf)); c.check(ef::isinf(q.real()) && !ef::isneg(q.real()) && ef::iszero(q.imag()), "proj of an infinite number"); }
  { const std::string ts = gen_dec(r, -5, 2), rs = gen_any(r); c.in("theta", ts); c.in("rho", rs); const e_float t(ts), rho(rs); const Q T = toQ(t), R = toQ(rho);
    const C got = ef::polar(rho, t); const CQ w(R * T.fn("cos"), R * T.fn("sin")); const Q s = R.abs() * (T.abs() + Q::I(1)); chk(c, toCQ(got), w, (R * T.fn("cos")).abs() + (R * T * T.fn("sin")).abs(), (R * T.fn("sin")).abs() + (R * T * T.fn("cos")).abs(), "polar", DIG - 2); }
  { const C d; c.check(ef::iszero(d.real()) && ef::iszero(d.imag()), "default is zero"); const C e(z.real()); c.check(e.real() == z.real() && ef::iszero(e.imag()), "construction from a real number"); }
}
FAMILYX("C20.value", 3000, f_value, 8);
template<class N> static void ints(Case& c, const C& u, N n, const char* t)
{
  const CQ p = toCQ(u); const Q X = n < 0 ? Q::I((long long) n) : Q::U((unsigned long long) n); c.in(t, X.sci(20));
  { C x(n); c.check(toQ(x.real()) == X && ef::iszero(x.imag()), "construction from an integer", t); }
  { C x(u); x += n; chk(c, toCQ(x), p + CQ(X), p.re.abs() + X.abs(), p.im.abs(), "z += n"); }
  { C x(u); x -= n; chk(c, toCQ(x), p - CQ(X), p.re.abs() + X.abs(), p.im.abs(), "z -= n"); }
  { C x(u); x *= n; chk(c, toCQ(x), p * CQ(X), (p.re * X).abs(), (p.im * X).abs(), "z *= n"); }
  if(n != 0) { C x(u); x /= n; chk(c, toCQ(x), CQ(p.re / X, p.im / X), (p.re / X).abs(), (p.im / X).abs(), "z /= n", DIG - 1); }
}
static void f_int(Case& c)
{
  Rng& r = c.rng; const C u = gen_c(c, r, "u"); const std::uint64_t w = r.chance(30) ? r.next() : r.chance(50) ? (std::uint64_t) r.range(-100, 100) : (1ULL << r.below(64)) + (std::uint64_t) r.range(-1, 1);
  switch(r.below(6))
  {
    case 0: ints<std::int32_t>(c, u, (std::int32_t) w, "int32"); break; case 1: ints<std::uint32_t>(c, u, (std::uint32_t) w, "uint32"); break;
    case 2: ints<std::int64_t>(c, u, (std::int64_t) w, "int64"); break; case 3: ints<std::uint64_t>(c, u, w, "uint64"); break;
    case 4: ints<short>(c, u, (short) w, "short"); break; default: ints<unsigned char>(c, u, (unsigned char) w, "uchar"); break;
  }
}
FAMILYX("C20.integers", 3000, f_int, 8);
static void f_pown(Case& c)
{
  Rng& r = c.rng; std::string a, b;
  switch(r.below(5)) { case 0: a = gen_dec(r, -1, 1); b = gen_dec(r, -1, 1); break; case 1: a = std::to_string(r.range(-9, 9)); b = std::to_string(r.range(-9, 9)); break; case 2: a = gen_dec(r, -400, 400); b = gen_dec(r, -400, 400); break; case 3: a = "0"; b = gen_dec(r, -3, 3); break; default: { const long e = r.range(-3, 3); a = gen_dec(r, e, e); b = gen_dec(r, e, e); } }
  long n = 0; switch(r.below(5)) { case 4: { // almost on the unit circle, so that even 64-bit powers stay representable
      const Q t = Qs(gen_dec(r, -3, 0)); Q rho = Q::I(1) + Qs(gen_dec(r, -40, -9)); a = (rho * t.fn("cos")).sci(DIG); b = (rho * t.fn("sin")).sci(DIG);
      n = (long) (r.next() >> r.range(1, 34)); if(r.chance(50)) n = -n; c.cls("power of 31 to 63 bits"); break; }
     case 0: n = (long) r.range(-6, 6); c.cls("small power"); break; case 1: n = (long) r.range(-64, 64); c.cls("power to 64"); break; case 2: n = (long) r.range(-3000, 3000); c.cls("power to 3000"); break; default: n = (long) r.range(-2000000, 2000000); c.cls("power to 2e6"); }
  const C z{e_float(a), e_float(b)}; const CQ p = toCQ(z); if(p.iszero() && n < 0) n = -n; c.in("z", "(" + a + "," + b + ")"); c.in("n", (long long) n);
  const CQ w = cpown(p, n); const CQ g = toCQ(ef::pow(z, (std::int64_t) n)); const Q s = w.abs(); const double lg = s.log10abs(); if(!w.isfinite()) { c.trivial(); return; }
  if(!(std::fabs(lg) < 1e9) || lg > MAX10 / 4 || (lg < MIN10 / 4 && n < 0) ) { c.trivial(); return; }
  chk(c, g, w, s, s, "integer power", DIG - 1 - std::log10((double) std::labs(n) + 1));
}
FAMILYX("C20.pown", 1500, f_pown, 8);

// ---- text ----
static void f_text(Case& c)
{
  Rng& r = c.rng; auto num = [&](std::string& t) { const long e = r.chance(50) ? r.range(-6, 30) : gen_order(r); t = gen_dec(r, e, e, true, (int) r.range(1, DIG)); if(r.chance(10)) t = "+" + (t[0] == '-' ? t.substr(1) : t); if(r.chance(15)) { t = std::to_string(r.range(-1000, 1000)); if(r.chance(40)) t += "."; if(r.chance(30)) t += std::to_string(r.below(1000)); } if(r.chance(20)) for(auto& ch : t) if(ch == 'e') ch = 'E'; };
  std::string a, b, t; num(a); num(b); CQ w; bool pair = false;
  switch(r.below(3)) { case 0: t = a; c.cls("u"); break; case 1: t = "(" + a + ")"; c.cls("(u)"); break; default: t = "(" + a + "," + b + ")"; pair = true; c.cls("(u,v)"); }
  c.in("text", t); const std::string lead = r.chance(30) ? " \t " : "", tail = r.chance(50) ? " rest" : "";
  std::istringstream is(lead + t + tail); C z{e_float(5), e_float(7)}; is >> z;
  c.check(!is.fail(), "well-formed text is accepted"); c.check(z.real() == e_float(a), "real part read", [&]{ return shortstr(z.real()); }); c.check(z.imag() == (pair ? e_float(b) : e_float(0)), "imaginary part read", [&]{ return shortstr(z.imag()); });
  std::string rest; is >> rest; c.check(rest == (tail.empty() ? "" : "rest"), "the text behind is left in the stream", rest);
}
FAMILYX("C20.read", 1500, f_text, 8);
static void f_badtext(Case& c)
{
  Rng& r = c.rng; static const char* const bad[] = { "", "(", ")", "(1", "1)", "(1,2", "1,2", "(1,2,3)", "abc", "(a,b)", "1e", "(1,2e)", "--1", "(1,,2)", "((1,2))", "(1;2)", "1x", "(1,2)x", "e5", "+", "-", "(+,1)", "(1,-)", "1.2.3", "(1.2.3,1)", "()", "(,)", "(,1)", "(1,)", "..", ".", "(.,1)", "1e+", "(1e-,1)" };
  std::string t = bad[r.below(sizeof bad / sizeof bad[0])]; if(r.chance(30)) { static const char cs[] = "(),.+-eE0123456789x"; const int n = (int) r.range(1, 14); t.clear(); for(int i = 0; i < n; ++i) t += cs[r.below(sizeof cs - 1)]; c.cls("random"); } else c.cls("list");
  // independent recogniser
  auto number = [](const std::string& s, std::size_t& i) { std::size_t j = i, d = 0; if(j < s.size() && (s[j] == '+' || s[j] == '-')) ++j; while(j < s.size() && isdigit((unsigned char) s[j])) { ++j; ++d; } if(j < s.size() && s[j] == '.') { ++j; while(j < s.size() && isdigit((unsigned char) s[j])) { ++j; ++d; } } if(!d) return false; if(j < s.size() && (s[j] == 'e' || s[j] == 'E')) { std::size_t k = j + 1, e = 0; if(k < s.size() && (s[k] == '+' || s[k] == '-')) ++k; while(k < s.size() && isdigit((unsigned char) s[k])) { ++k; ++e; } if(!e) return false; j = k; } i = j; return true; };
  auto valid = [&](const std::string& s) { std::size_t i = 0; if(s.empty()) return false; if(s[0] != '(') return number(s, i) && i == s.size(); i = 1; if(!number(s, i) || i >= s.size()) return false; if(s[i] == ')') return i + 1 == s.size(); if(s[i] != ',') return false; ++i; return number(s, i) && i + 1 == s.size() && s[i] == ')'; };
  c.in("text", t); std::istringstream is(t); C z{e_float(5), e_float(7)}; is >> z;
  if(valid(t)) { c.check(!is.fail(), "well-formed text is accepted"); c.cls("valid after all"); return; }
  c.check(is.fail(), "malformed text sets failbit", [&]{ return cs(toCQ(z)); }); c.check(z.real() == e_float(5) && z.imag() == e_float(7), "malformed text leaves the number", [&]{ return cs(toCQ(z)); });
  is.clear(); std::string back; is >> back; c.check(back == t, "malformed text is put back", back);
}
FAMILYX("C20.malformed", 1500, f_badtext, 8);
static void f_write(Case& c)
{
  Rng& r = c.rng; const C z = gen_c(c, r, "z"); const int prec = (int) r.range(0, DIG); std::ostringstream os, a, b; const int sty = (int) r.below(3);
  auto set = [&](std::ostream& s) { s << std::setprecision(prec); if(sty == 1) s << std::scientific; }; if(r.chance(30)) { os << std::showpos; a << std::showpos; b << std::showpos; } if(r.chance(30)) { os << std::uppercase; a << std::uppercase; b << std::uppercase; }
  set(os); set(a); set(b); a << z.real(); b << z.imag(); const std::string want = "(" + a.str() + "," + b.str() + ")"; c.in("precision", (long long) prec);
  const int w = r.chance(50) ? (int) r.range(0, 260) : 0; if(w) os << std::setw(w) << std::setfill('*'); os << z; std::string full = want; if((int) full.size() < w) full = std::string((std::size_t) w - full.size(), '*') + full;
  c.check(os.str() == full, "output is (re,im) with the format of the stream", [&]{ return os.str() + " instead of " + full; }); c.check(os.width() == 0, "output resets the width");
  std::istringstream is(want); C y{e_float(5), e_float(7)}; is >> y; c.check(!is.fail() && y.real() == e_float(a.str()) && y.imag() == e_float(b.str()), "output is read back", want);
}
FAMILYX("C20.write", 1500, f_write, 8);

// ---- the generic template on built-in types against std::complex ----
template<class T> static void gen_builtin(Case& c)
{
  Rng& r = c.rng; typedef ef::complex<T> Z; typedef std::complex<T> S;
  auto val = [&]() -> T { switch(r.below(5)) { case 0: return (T) 0; case 1: return (T) r.range(-9, 9); case 2: return (T) ((double) (std::int64_t) r.next() / 9.2e18); case 3: return (T) ((double) (std::int64_t) r.next() / 9.2e18 * std::pow(10.0, (double) r.range(-8, 8))); default: return (T) ((double) (std::int64_t) r.next() / 9.2e18 * 4); } };
  const T a = val(), b = val(), d = val(), e = val(); const Z u(a, b), v(d, e); const S p(a, b), q(d, e);
  c.in("u", fmt("(%.17g,%.17g)", (double) a, (double) b)); c.in("v", fmt("(%.17g,%.17g)", (double) d, (double) e));
  const double eps = (double) std::numeric_limits<T>::epsilon();
  auto ck = [&](const Z& g, const S& w, double ulp, const char* what, double scale = 0) { if(!std::isfinite((double) w.real()) || !std::isfinite((double) w.imag())) return; const double s = std::max((double) std::abs(w), scale); const double err = std::hypot((double) (g.real() - w.real()), (double) (g.imag() - w.imag())); c.check(err <= ulp * eps * s, what, [&]{ return fmt("got (%.20g,%.20g) want (%.20g,%.20g)", (double) g.real(), (double) g.imag(), (double) w.real(), (double) w.imag()); }); };
  const double A = std::abs((std::complex<double>) p), B = std::abs((std::complex<double>) q);
  ck(u + v, p + q, 4, "u + v", A + B); ck(u - v, p - q, 4, "u - v", A + B); ck(u * v, p * q, 8, "u * v", A * B); ck(u * d, p * d, 4, "u * x"); ck(d * u, p * d, 4, "x * u"); ck(u + d, p + d, 4, "u + x", A + B); ck(d - u, d - p, 4, "x - u", A + B); ck(d + u, d + p, 4, "x + u", A + B); ck(u - d, p - d, 4, "u - x", A + B); if(d != 0) ck(u / d, p / d, 4, "u / x");
  if(B > 0) { ck(u / v, p / q, 16, "u / v"); Z t(u); t /= v; ck(t, p / q, 16, "u /= v"); }
  if(A > 0) ck(d / u, d / p, 16, "x / u");
  { Z t(u); t += v; ck(t, p + q, 4, "u += v", A + B); t = u; t -= v; ck(t, p - q, 4, "u -= v", A + B); t = u; t *= v; ck(t, p * q, 8, "u *= v", A * B); t = u; t *= t; ck(t, p * p, 8, "t *= t"); t = u; t += t; ck(t, p + p, 4, "t += t"); t = u; t -= t; ck(t, S(0), 0, "t -= t"); if(A > 0) { t = u; t /= t; ck(t, S(1), 0, "t /= t"); } t = u; t = d; ck(t, S(d), 0, "t = x"); t = u; t += d; ck(t, p + d, 4, "u += x", A + B); t = u; t -= d; ck(t, p - d, 4, "u -= x", A + B); t = u; t *= d; ck(t, p * d, 4, "u *= x"); if(d != 0) { t = u; t /= d; ck(t, p / d, 4, "u /= x"); } }
  ck(Z(ef::abs(u)), S(std::abs(p)), 4, "abs"); ck(Z(ef::norm(u)), S(std::norm(p)), 8, "norm"); if(A > 0) ck(Z(ef::arg(u)), S(std::arg(p)), 4, "arg"); ck(ef::conj(u), std::conj(p), 0, "conj"); ck(ef::proj(u), p, 0, "proj"); ck(-u, -p, 0, "-u"); ck(+u, p, 0, "+u"); ck(ef::polar(a, b), std::polar(std::fabs(a), b) * (a < 0 ? (T) -1 : (T) 1), 8, "polar");
  c.check((u == v) == (p == q) && (u != v) == (p != q) && (u == d) == (p == d) && (d == u) == (d == p) && (u != d) == (p != d) && (d != u) == (d != p), "equality");
  const long n = (long) r.range(-12, 12); if(A > 0) { S w((T) 1); for(long i = 0; i < std::labs(n); ++i) w *= p; if(n < 0) w = (T) 1 / w; if(std::abs(w) > 1e-30 && std::abs(w) < 1e30) ck(ef::pow(u, (int) n), w, 16.0 * (std::labs(n) + 1), "integer power"); }
  if(A > 0.5 && A < 2) { const int m = (int) r.range(-100, 100); std::complex<long double> w(1), z(a, b); for(int i = 0; i < std::abs(m); ++i) w *= z; if(m < 0) w = 1.0L / w; ck(ef::pow(u, m), S((T) w.real(), (T) w.imag()), 16.0 * (std::abs(m) + 1), "integer power of moderate size"); }
  { const int m = r.chance(15) ? (r.chance(50) ? std::numeric_limits<int>::min() + 1 : std::numeric_limits<int>::max()) : (int) r.next(); const int k = r.chance(15) ? std::numeric_limits<int>::min() : m; c.in("k", k); const bool neg = r.chance(50); const int q4 = (((k % 4) + 4) % 4 * (neg ? 3 : 1)) % 4; const S w[4] = { S(1, 0), S(0, 1), S(-1, 0), S(0, -1) }; ck(ef::pow(Z((T) 0, (T) (neg ? -1 : 1)), k), w[q4], 0, "integer power of the imaginary unit"); }
  { std::ostringstream o1, o2; o1 << u; o2 << p; c.check(o1.str() == o2.str(), "written like std::complex", [&]{ return o1.str() + " " + o2.str(); }); std::istringstream is(o1.str()); Z t(v); is >> t; std::istringstream s2(o2.str()); S w; s2 >> w; c.check(!is.fail() && t.real() == w.real() && t.imag() == w.imag(), "read like std::complex", o1.str()); }
}
static void f_generic(Case& c) { if(c.rng.chance(60)) { c.cls("double"); gen_builtin<double>(c); } else if(c.rng.chance(50)) { c.cls("float"); gen_builtin<float>(c); } else { c.cls("long double"); gen_builtin<long double>(c); } }
FAMILYX("C20.generic", 3000, f_generic, 8);
