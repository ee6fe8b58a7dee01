// C02: infinities, NaN, zero, overflow and underflow behave as IEEE-like special values (sign of zero ignored).
#include "efmon.h"
namespace {
struct V { e_float x; Q q; std::string name; bool edge; };
e_float make(const std::string& n)
{
  if(n == "nan") return std::numeric_limits<e_float>::quiet_NaN();
  if(n == "inf") return std::numeric_limits<e_float>::infinity();
  if(n == "-inf") return -std::numeric_limits<e_float>::infinity();
  return e_float(n);
}
Q makeq(const std::string& n) { if(n == "nan") return Q::nan(); if(n == "inf") return Q::inf(); if(n == "-inf") return Q::inf(true); return Qs(n); }
// how the special value came about must not matter
e_float derive(Rng& r, const std::string& n)
{
  const e_float big("1e" + std::to_string(MAX10 - 2)), z(0), i = std::numeric_limits<e_float>::infinity();
  if(n == "nan") switch(r.below(7)) { case 0: return z / z; case 1: return i - i; case 2: return i * z; case 3: return i / i; case 4: return e_float(std::numeric_limits<double>::quiet_NaN()); case 5: return ef::sqrt(e_float(-2)); default: return ef::value_nan(); }
  if(n == "inf") switch(r.below(6)) { case 0: return e_float(1) / z; case 1: { e_float b(big); for(int k = 0; k < 40; ++k) b *= big; return b; } case 2: return e_float(std::numeric_limits<double>::infinity()); case 3: return -(-i); case 4: return i + 1; default: return ef::value_inf(); }
  if(n == "-inf") switch(r.below(5)) { case 0: return ef::fabs(e_float(-1) / z) * -1; case 1: { e_float b(-big); for(int k = 0; k < 40; ++k) b *= big; return b; } case 2: return e_float(-std::numeric_limits<double>::infinity()); case 3: { e_float b(i); b.negate(); return b; } default: return i * -3; }
  if(n == "0") switch(r.below(6)) { case 0: return e_float(5) - e_float(5); case 1: return e_float(3) / i; case 2: return e_float("0.000"); case 3: { e_float b(big); b *= z; return b; } case 4: { e_float b(7); b -= b; return b; } default: return z; }
  return e_float(n);
}
std::string gen_special(Rng& r)
{
  switch(r.below(12))
  {
    case 0: case 1: return "nan";
    case 2: case 3: return "inf";
    case 4: case 5: return "-inf";
    case 6: case 7: return "0";
    case 8: return r.chance(50) ? "1" : "-1";
    case 9: return (r.chance(50) ? "" : "-") + std::string("1e") + std::to_string(r.chance(50) ? MAX10 : MIN10);
    default: return gen_any(r);
  }
}
const long SLACK = IS_EFX ? 20 : 100000;      // the binary engines overflow a little beyond the advertised decimal range
bool overflow(const Q& q)  { return q.isfinite() && !q.iszero() && q.log10abs() > (IS_GMP ? 2147483647.0 * 0.302 : IS_MPFR ? (1 << 30) * 0.302 : MAX10 + (double) SLACK); }
bool underflow(const Q& q) { return q.isfinite() && !q.iszero() && q.log10abs() < -(IS_GMP ? 2147483647.0 * 0.302 : IS_MPFR ? (1 << 30) * 0.302 : -MIN10 + (double) SLACK); }
const double EDGE = IS_EFX ? 20 : 1;           // the native engine saturates within two limbs of its limits
bool inrange(const Q& q)   { return q.iszero() || (q.log10abs() < (double) MAX10 - EDGE && q.log10abs() > (double) MIN10 + EDGE); }
std::string sh(const e_float& x) { return x.isnan() ? "nan" : x.isinf() ? (x.isneg() ? "-inf" : "inf") : shortstr(x); }
void agree(Case& c, const e_float& got, const Q& want, const Q& scale, const char* what, bool anysign = false)
{
  auto d = [&]{ return "got " + sh(got) + " want " + qs(want); };
  const bool n = got.isnan(), i = got.isinf(), f = got.isfinite();
  if(!c.check((int) n + (int) i + (int) f == 1, what, [&]{ return fmt("isnan %d isinf %d isfinite %d", n, i, f); })) return;
  if(want.isnan()) { c.check(n, what, d); c.hit("-> nan"); return; }
  if(want.isinf() || overflow(want)) { c.check(i && (anysign || got.isneg() == (want.sgn() < 0)), what, d); c.hit(want.isinf() ? "-> inf" : "-> overflow"); return; }
  const bool sum = scale.isfinite() && !scale.iszero() && !(scale == want.abs());   // a cancelling sum: rounding of the operands shows
  if((want.iszero() || underflow(want)) && sum) { c.check(f && (got.iszero() || within(toQ(got), want, scale, DIG - 0.5)), what, d); return; }
  if(want.iszero() || underflow(want)) { c.check(f && got.iszero(), what, d); c.hit(want.iszero() ? "-> zero" : "-> underflow"); return; }
  if(inrange(want)) { c.check(f && within(toQ(got), want, scale, DIG - 0.5), what, d); if(want.log10abs() > MAX10 - 100.0 || want.log10abs() < MIN10 + 100.0) c.hit("-> finite near the limits"); return; }
  // between the advertised limit and the engine's own: finite and accurate, or saturated
  c.check((want.log10abs() > 0) ? (i && got.isneg() == (want.sgn() < 0)) || (f && got.isneg() == (want.sgn() < 0) && within(toQ(got), want, scale, DIG - 0.5)) : f && (got.iszero() || within(toQ(got), want, scale, DIG - 0.5)), what, d);
}
Q op2(char op, const Q& a, const Q& b, bool& anysign)
{
  anysign = false;
  switch(op)
  {
    case '+': return a + b; case '-': return a - b; case '*': return a * b;
    default: if(b.iszero()) { anysign = true; return (a.isnan() || a.iszero()) ? Q::nan() : Q::inf(a.sgn() < 0); } return a / b;
  }
}
e_float app(char op, const e_float& a, const e_float& b) { switch(op) { case '+': return a + b; case '-': return a - b; case '*': return a * b; default: return a / b; } }
void cmpd(char op, e_float& a, const e_float& b) { switch(op) { case '+': a += b; break; case '-': a -= b; break; case '*': a *= b; break; default: a /= b; } }
std::string k(const std::string& n) { return (n == "nan" || n == "inf" || n == "-inf" || n == "0") ? n : "finite"; }

void pairop(Case& c)
{
  Rng& r = c.rng; const std::string a = gen_special(r), b = gen_special(r); const char op = "+-*/"[r.below(4)];
  c.in("a", a); c.in("op", std::string(1, op)); c.in("b", b); c.cls(k(a) + op + k(b));
  const e_float x = derive(r, a), y = derive(r, b); const Q qa = makeq(a), qb = makeq(b);
  bool any; const Q want = op2(op, qa, qb, any); if(IS_MPFR && (a == "0" || b == "0")) any = true;
  const Q scale = (op == '+' || op == '-') ? qa.abs() + qb.abs() : want.abs();
  agree(c, app(op, x, y), want, scale, "binary", any);
  e_float z(x); cmpd(op, z, y); agree(c, z, want, scale, "compound", any);
  e_float s(x); bool any2; const Q w2 = op2(op, qa, qa, any2); cmpd(op, s, s); agree(c, s, w2, (op == '+' || op == '-') ? qa.abs() + qa.abs() : w2.abs(), "self", any2);
  // still sane after being fed on
  if(want.isnan()) { e_float w(app(op, x, y)); w += 1; w *= 2; c.check(w.isnan(), "nan-sticks", [&]{ return sh(w); }); w = e_float(3); c.check(w == 3 && w.isfinite(), "assign-over-nan", [&]{ return sh(w); }); }
}
void builtin(Case& c)
{
  Rng& r = c.rng; const std::string a = gen_special(r); const char op = "+-*/"[r.below(4)]; const e_float x = derive(r, a); const Q qa = makeq(a);
  c.in("a", a); c.in("op", std::string(1, op)); bool any; 
  auto go = [&](auto v, const Q& qv, const std::string& vn) {
    c.in("v", vn); c.cls(k(a) + op + k(vn)); bool any2; const bool fl = IS_MPFR && (a == "0" || qv.iszero());
    Q w = op2(op, qa, qv, any); const Q sc = (op == '+' || op == '-') ? qa.abs() + qv.abs() : w.abs();
    Q w2 = op2(op, qv, qa, any2); const Q sc2 = (op == '+' || op == '-') ? sc : w2.abs();
    e_float z(x);
    switch(op) { case '+': agree(c, x + v, w, sc, "e op builtin", any || fl); agree(c, v + x, w2, sc2, "builtin op e", any2 || fl); z += v; break;
                 case '-': agree(c, x - v, w, sc, "e op builtin", any || fl); agree(c, v - x, w2, sc2, "builtin op e", any2 || fl); z -= v; break;
                 case '*': agree(c, x * v, w, sc, "e op builtin", any || fl); agree(c, v * x, w2, sc2, "builtin op e", any2 || fl); z *= v; break;
                 default:  agree(c, x / v, w, sc, "e op builtin", any || fl); agree(c, v / x, w2, sc2, "builtin op e", any2 || fl); z /= v; }
    agree(c, z, w, sc, "compound builtin", any || fl);
  };
  static const double dv[] = { 0.0, -0.0, 1.5, -3.0, INFINITY, -INFINITY, NAN, 1e308, -4.9e-324, 2.2250738585072014e-308 };
  static const long long lv[] = { 0, 1, -1, 7, -7, 100000000LL, 99999999LL, -100000001LL, std::numeric_limits<long long>::min(), std::numeric_limits<long long>::max() };
  static const unsigned long long uv[] = { 0, 1, 3, 99999999ULL, 100000000ULL, 18446744073709551615ULL };
  auto dn = [](double d) { return std::isnan(d) ? std::string("nan") : std::isinf(d) ? std::string(d < 0 ? "-inf" : "inf") : d == 0 ? std::string("0") : fmt("%.17g", d); };
  switch(r.below(4))
  {
    case 0: { const double d = r.pick(dv); go(d, Q::D(d), dn(d)); break; }
    case 1: { const long long n = r.pick(lv); go(n, Q::I(n), std::to_string(n)); break; }
    case 2: { const unsigned long long n = r.pick(uv); go(n, Q::U(n), std::to_string(n)); break; }
    default: { const float f = (float) r.pick(dv); if(f != 0 && std::fabs(f) < std::numeric_limits<float>::min()) { c.trivial(); return; } go(f, Q::D(f), dn(f)); }
  }
}
// magnitudes that cross the limits of the exponent range
void range(Case& c)
{
  Rng& r = c.rng; const char op = r.chance(50) ? '*' : '/'; long ea, eb;
  const bool up = r.chance(50);
  switch(r.below(4))
  {
    case 0: ea = (up ? MAX10 : MIN10) - (up ? 1 : -1) * r.range(0, 40); eb = r.range(-60, 60); break;
    case 1: ea = r.range(MIN10, MAX10); eb = r.range(MIN10, MAX10); break;
    case 2: ea = r.range(MAX10 / 2 - 30, MAX10 / 2 + 30) * (r.chance(50) ? 1 : -1); eb = r.range(MAX10 / 2 - 30, MAX10 / 2 + 30) * (r.chance(50) ? 1 : -1); break;
    default: ea = (r.chance(50) ? 1 : -1) * (MAX10 - r.range(0, 20)); eb = (r.chance(50) ? 1 : -1) * (MAX10 - r.range(0, 20)); break;
  }
  const int md = IS_EFX ? DIG : 40;
  const std::string a = gen_dec(r, ea, ea, true, md), b = gen_dec(r, eb, eb, true, md); c.in("a", a); c.in("op", std::string(1, op)); c.in("b", b); c.cls(std::string(1, op));
  const Q qa = Qs(a), qb = Qs(b); const e_float x(a), y(b); if(!inrange(qa) || !inrange(qb)) { c.trivial(); return; }
  bool any; const Q w = op2(op, qa, qb, any); agree(c, app(op, x, y), w, w.abs(), "binary"); e_float z(x); cmpd(op, z, y); agree(c, z, w, w.abs(), "compound");
  // additions at the limits, and repeated small multiplications/divisions which walk across the limit
  agree(c, x + y, qa + qb, qa.abs() + qb.abs(), "sum"); agree(c, x - y, qa - qb, qa.abs() + qb.abs(), "difference");
  agree(c, ef::inv(x), Q::I(1) / qa, (Q::I(1) / qa).abs(), "inv");
  Q qz = qa; e_float s(x); const unsigned long long n = r.chance(50) ? r.range(2, 99999999) : r.next() | 1ULL; const bool mul = ea > 0; c.in("n", fmt("%llu", n));
  for(int i = 0; i < 12; ++i) { if(mul) { s *= n; qz = qz * Q::U(n); } else { s /= n; qz = qz / Q::U(n); } }
  if(overflow(qz)) c.hit("walk overflow"); if(underflow(qz)) c.hit("walk underflow");
  if(inrange(qz) || overflow(qz) || underflow(qz)) { const bool sat = !inrange(qz); if(!sat) { c.check(within(toQ(s), qz, qz, DIG - 1.5), "walk", [&]{ return "got " + sh(s) + " want " + qs(qz); }); } else agree(c, s, qz, qz.abs(), "walk"); }
}
// sums, differences and small products of operands right at the largest and smallest magnitudes
void edge(Case& c)
{
  Rng& r = c.rng; const e_float mx = (std::numeric_limits<e_float>::max)(), mn = (std::numeric_limits<e_float>::min)();
  auto gen = [&]() -> e_float {
    e_float b; const int sgn = r.chance(50) ? 1 : -1;
    switch(r.below(7)) {
      case 0: b = mx; break; case 1: b = mn; break;
      case 2: b = mx / e_float(gen_dec(r, 0, r.range(0, 40), false)); break;
      case 3: b = mn * e_float(gen_dec(r, 0, r.range(0, 40), false)); break;
      case 4: b = mx * (1 - e_float("1e-" + std::to_string(r.range(1, DIG - 1)))); break;
      case 5: b = mx / static_cast<unsigned long long>(r.range(1, 1000000000)); break;
      default: b = (r.chance(50) ? mx / 2 : mx - mx / static_cast<long long>(r.range(2, 99999999))); }
    return sgn < 0 ? e_float(-b) : b; };
  const e_float x = gen(), y = gen(); const Q a = toQ(x), b = toQ(y); c.in("x", shortstr(x)); c.in("y", shortstr(y)); if(!a.isfinite() || !b.isfinite() || a.iszero() || b.iszero()) { c.trivial(); return; }
  c.cls(std::string(a.log10abs() > 0 ? "max" : "min") + (b.log10abs() > 0 ? "max" : "min"));
  agree(c, x + y, a + b, a.abs() + b.abs(), "sum"); agree(c, x - y, a - b, a.abs() + b.abs(), "difference"); { e_float z(x); z += y; agree(c, z, a + b, a.abs() + b.abs(), "compound sum"); z = x; z -= y; agree(c, z, a - b, a.abs() + b.abs(), "compound difference"); z = x; z += z; agree(c, z, a + a, a.abs() * Q::I(2), "doubled"); }
  agree(c, x * y, a * b, (a * b).abs(), "product"); agree(c, x / y, a / b, (a / b).abs(), "quotient");
  const long long n = r.chance(50) ? r.range(1, 20) : r.range(1, 99999999); const Q q = Q::I(n); c.in("n", n); agree(c, x * n, a * q, (a * q).abs(), "times n"); agree(c, x / n, a / q, (a / q).abs(), "over n");
  const e_float f = e_float(1) + e_float("1e-" + std::to_string(r.range(1, DIG - 1))); const Q qf = toQ(f); agree(c, x * f, a * qf, (a * qf).abs(), "times just over one"); agree(c, x / f, a / qf, (a / qf).abs(), "over just over one");
  if((a + b).abs() > toQ(mx) * Qs("1.0000000001")) c.hit("sum beyond max");
}
void unary(Case& c)
{
  Rng& r = c.rng; const std::string a = gen_special(r); c.in("a", a); c.cls(k(a)); const e_float x = derive(r, a); const Q q = makeq(a);
  agree(c, -x, -q, q.abs(), "unary minus"); agree(c, +x, q, q.abs(), "unary plus"); agree(c, ef::fabs(x), q.abs(), q.abs(), "fabs"); agree(c, ef::abs(x), q.abs(), q.abs(), "abs");
  { e_float z(x); z.negate(); agree(c, z, -q, q.abs(), "negate"); z.negate(); agree(c, z, q, q.abs(), "negate twice"); }
  bool any; { const Q w = op2('/', Q::I(1), q, any); agree(c, ef::inv(x), w, w.abs(), "inv", any); e_float z(x); z.calculate_inv(); agree(c, z, w, w.abs(), "calculate_inv", any); }
  { const Q w = (q.isnan() || q.sgn() < 0) ? Q::nan() : q.fn("sqrt"); agree(c, ef::sqrt(x), w, w, "sqrt"); e_float z(x); z.calculate_sqrt(); agree(c, z, w, w, "calculate_sqrt"); }
  { e_float z(x); ++z; agree(c, z, q + Q::I(1), q.abs() + Q::I(1), "++"); z = x; --z; agree(c, z, q - Q::I(1), q.abs() + Q::I(1), "--"); }
  if(q.isnan() || q.isinf()) { c.check(!x.iszero() && !x.isone() && !x.isint(), "special is not a number", fmt("iszero %d isone %d isint %d", x.iszero(), x.isone(), x.isint())); }
  if(q.isinf()) c.check(x.isneg() == (q.sgn() < 0) && ef::isneg(x) == (q.sgn() < 0) && ef::ispos(x) == (q.sgn() > 0), "sign of infinity", sh(x));
  c.check(ef::isnan(x) == q.isnan() && ef::isfinite(x) == q.isfinite() && ef::isinf(x) == q.isinf(), "ef predicates", sh(x));
}
// long programs in which special values appear and must propagate as in the model
void program(Case& c)
{
  Rng& r = c.rng; std::vector<e_float> v; std::vector<Q> q; std::string s;
  for(int i = 0; i < 4; ++i) { std::string n = r.chance(40) ? gen_special(r) : gen_dec(r, -9, 9); s += n + " "; v.push_back(make(n)); q.push_back(makeq(n)); }
  c.in("start", s);
  for(int st = 0; st < 25; ++st)
  {
    const std::size_t i = r.below(4), j = r.below(4); const char op = "+-*/"[r.below(4)]; bool any; const Q w = op2(op, q[i], q[j], any), sc = (op == '+' || op == '-') ? q[i].abs() + q[j].abs() : w.abs();
    c.in("op", fmt("v%d %c= v%d", (int) i, op, (int) j));
    cmpd(op, v[i], v[j]); const unsigned before = c.n_bad; agree(c, v[i], w, sc, "step", any || IS_MPFR); if(c.n_bad != before) return;
    q[i] = v[i].isfinite() ? toQ(v[i]) : v[i].isnan() ? Q::nan() : Q::inf(v[i].isneg());
    if(r.chance(15)) { const std::string n = gen_special(r); c.in("set", fmt("v%d=", (int) i) + n); v[i] = make(n); q[i] = makeq(n); }
  }
}
}
FAMILY("C02.edge", 8000, edge);
FAMILY("C02.pair", 8000, pairop);
FAMILY("C02.builtin", 6000, builtin);
FAMILY("C02.range", 6000, range);
FAMILY("C02.unary", 3000, unary);
FAMILY("C02.program", 2500, program);
