// C04: comparisons form the total order of the values, and the predicates tell the truth.
#include "efmon.h"
namespace {
int sg(int x) { return (x > 0) - (x < 0); }
// a pair of operands whose exact relation is known and preserved by parsing
bool pair(Case& c, std::string& a, std::string& b)
{
  Rng& r = c.rng;
  switch(r.below(8))
  {
    case 0: a = gen_any(r); b = gen_any(r); return true;
    case 1: a = gen_any(r); b = a; c.hit("equal"); return true;
    case 2: a = gen_any(r); b = a[0] == '-' ? a.substr(1) : "-" + a; c.hit("opposite"); return true;
    case 3: { // same number, spelled differently
      const int n = (int) r.range(1, DIG - 12); const std::string d = gen_digits(r, n); const long e = r.range(0, 9); a = d + std::string((std::size_t) e, '0'); b = d.substr(0, 1) + (n > 1 ? "." + d.substr(1) : "") + "e+" + std::to_string(n - 1 + e); if(r.chance(40)) { a = "-" + a; b = "-" + b; } c.hit("spelling"); return true; }
    case 4: { // differ in one digit, at any place of the working precision
      const int n = (int) r.range(1, DIG - 1), k = (int) r.below((std::uint64_t) n); std::string d = gen_digits(r, n), f = d; char ch; do ch = (char) ('0' + r.below(10)); while(ch == d[(std::size_t) k] || (k == 0 && ch == '0')); f[(std::size_t) k] = ch;
      const std::string ex = "e" + std::to_string(IS_EFX ? gen_order(r) : r.range(-30, 30)); a = d + ex; b = f + ex; if(r.chance(40)) { a = "-" + a; b = "-" + b; } c.hit("one digit"); return true; }
    case 5: { // 999..9 against 1000..0 and the neighbours of limb boundaries
      const int n = (int) r.range(1, DIG - 1); a = "1" + std::string((std::size_t) n, '0'); b = std::string((std::size_t) n, '9'); if(r.chance(50)) std::swap(a, b); if(r.chance(40)) { a = "-" + a; b = "-" + b; } c.hit("nines"); return true; }
    case 6: { a = gen_dec(r, -40, 40); const std::size_t p = a.find('e'); b = a.substr(0, p) + "e" + std::to_string(std::stol(a.substr(p + 1)) + r.range(-17, 17)); c.hit("scaled"); return true; }
    default: a = r.chance(50) ? "0" : "0.0e5"; b = r.chance(50) ? gen_any(r) : "-0"; c.hit("zero"); return true;
  }
}
void all_ops(Case& c, const e_float& x, const e_float& y, int want)
{
  c.check((x < y) == (want < 0), "<"); c.check((x <= y) == (want <= 0), "<="); c.check((x == y) == (want == 0), "=="); c.check((x != y) == (want != 0), "!="); c.check((x >= y) == (want >= 0), ">="); c.check((x > y) == (want > 0), ">");
  c.check(sg((int) x.cmp(y)) == want, "cmp", fmt("%d want %d", (int) x.cmp(y), want)); c.check(sg(x.compare(y)) == want, "compare");
}
void order(Case& c)
{
  std::string a, b; pair(c, a, b); c.in("a", a); c.in("b", b); const e_float x(a), y(b); const int want = sg(Qs(a).cmp(Qs(b)));
  all_ops(c, x, y, want); all_ops(c, y, x, -want); all_ops(c, -x, -y, -want); all_ops(c, x, x, 0);
  c.check(toQ(x - y).sgn() == want || (Qs(a) - Qs(b)).log10abs() < MIN10 + 30, "sign of difference", [&]{ return str(x - y); });
  const e_float pi = ef::value_inf(); all_ops(c, x, pi, -1); all_ops(c, x, -pi, 1); all_ops(c, pi, -pi, 1); all_ops(c, pi, pi, 0); all_ops(c, -pi, -pi, 0);
}
// values that come out of calculations: equal values reached differently compare equal, order is that of the exact values
void computed(Case& c)
{
  Rng& r = c.rng; const int n = (int) r.range(1, DIG / 3); const std::string a = gen_digits(r, n), b = gen_digits(r, (int) r.range(1, DIG / 3)); c.in("a", a); c.in("b", b);
  const e_float x(a), y(b); const Q qx = Qs(a), qy = Qs(b);
  e_float s(0); const int k = (int) r.range(1, 9); for(int i = 0; i < k; ++i) s += x;
  all_ops(c, s, x * k, 0); all_ops(c, s, x * e_float(k), 0); all_ops(c, (x + y) - y, x, 0); all_ops(c, (x - y) + y, x, 0);
  all_ops(c, x * y, e_float((qx * qy).fix(0)), 0); all_ops(c, x * y + 1, x * y, 1); all_ops(c, x * y - 1, x * y, -1); all_ops(c, x - x, ef::zero(), 0); all_ops(c, (x - y), e_float((qx - qy).fix(0)), 0);
  const e_float h = x / 2; all_ops(c, h + h, x, 0);
}
void builtin(Case& c)
{
  Rng& r = c.rng; auto go = [&](auto v, const Q& qv) {
    c.in("v", qv.sci(20));
    Q q; e_float x;
    switch(r.below(4)) { case 0: x = e_float(v); q = qv; break; case 1: { const std::string s = gen_dec(r, -5, 20); x = e_float(s); q = Qs(s); break; } case 2: x = e_float(v); x += 1; q = qv + Q::I(1); if(qv.log10abs() > DIG - 11 || (DIG < 100 ? !qv.isint() : (qv.log10abs() < -60 && !qv.iszero()))) { x = e_float(v); q = qv; } break; default: { x = e_float(v) * 2; q = qv * Q::I(2); } }
    c.in("x", qs(q, 40)); const int want = sg(q.cmp(qv));
    c.check((x < v) == (want < 0), "e < b"); c.check((x <= v) == (want <= 0), "e <= b"); c.check((x == v) == (want == 0), "e == b"); c.check((x != v) == (want != 0), "e != b"); c.check((x >= v) == (want >= 0), "e >= b"); c.check((x > v) == (want > 0), "e > b");
    c.check((v > x) == (want < 0), "b > e"); c.check((v >= x) == (want <= 0), "b >= e"); c.check((v == x) == (want == 0), "b == e"); c.check((v != x) == (want != 0), "b != e"); c.check((v <= x) == (want >= 0), "b <= e"); c.check((v < x) == (want > 0), "b < e");
  };
  switch(r.below(7))
  {
    case 0: { const int n = (int) r.next(); go(n, Q::I(n)); break; }
    case 1: { const long long n = r.chance(20) ? std::numeric_limits<long long>::min() : (long long) r.next() >> r.below(60); go(n, Q::I(n)); break; }
    case 2: { const unsigned long long n = r.next() >> r.below(60); go(n, Q::U(n)); break; }
    case 3: { const unsigned short n = (unsigned short) r.next(); go(n, Q::U(n)); break; }
    case 4: { const double d = std::ldexp((double) (long long) (r.next() >> 11), (int) r.range(-90, 120)) * (r.chance(50) ? 1 : -1); go(d, Q::D(d)); break; }
    case 5: { const float d = (float) std::ldexp((double) (r.next() >> 40), (int) r.range(-40, 40)) * (r.chance(50) ? 1.0f : -1.0f); go(d, Q::D(d)); break; }
    default: { const long double d = std::ldexp((long double) r.next(), (int) r.range(-90, 120)) * (r.chance(50) ? 1 : -1); go(d, Q::L(d)); break; }
  }
}
// NaN is equal to nothing
void nan(Case& c)
{
  Rng& r = c.rng; const e_float n = r.chance(50) ? ef::value_nan() : ef::zero() / ef::zero(); const std::string a = gen_any(r); c.in("a", a); const e_float x = r.chance(20) ? ef::value_inf() : e_float(a);
  c.check(!(n == n) && n != n, "nan == nan"); c.check(!(n == x) && n != x && !(x == n) && x != n, "nan == x"); c.check(!(n == 1) && n != 1 && !(1.5 == n) && 1.5 != n, "nan == builtin"); c.check(n.isnan() && !n.isfinite() && !n.isinf() && !n.iszero() && !n.isone() && !n.isint(), "nan predicates");
}
void predicates(Case& c)
{
  Rng& r = c.rng; std::string a;
  switch(r.below(9)) { case 0: a = "0"; break; case 1: a = "1"; break; case 2: a = "-1"; break;
    case 3: { const int n = (int) r.range(1, DIG); a = gen_digits(r, n); break; }                                   // integer
    case 4: { const int n = (int) r.range(1, DIG - 2), k = (int) r.range(1, DIG - 1 - n); a = gen_digits(r, n) + "." + std::string((std::size_t) (k - 1), '0') + (IS_EFX ? std::to_string(r.range(1, 9)) : "5"); break; }   // integer plus a small fraction
    case 5: a = "1" + std::string((std::size_t) r.range(0, 300), '0'); break;
    case 6: { const int k = (int) r.range(1, DIG - 2); a = r.chance(50) ? "1." + std::string((std::size_t) k - 1, '0') + "5" : "0." + std::string((std::size_t) k, '9'); break; }   // next to one
    case 7: { const int n = (int) r.range(1, 12), m = (int) r.range(0, DIG + 60); a = gen_digits(r, n) + "e" + std::to_string(m - (int) r.below(4)); break; }
    default: a = gen_any(r); }
  if(r.chance(35) && a[0] != '-') a = "-" + a;
  c.in("a", a); const e_float x(a); const Q q = Qs(a);
  c.check(x.iszero() == q.iszero(), "iszero"); c.check(x.isneg() == (q.sgn() < 0) || q.iszero(), "isneg"); c.check(x.ispos() == (q.sgn() > 0) || q.iszero(), "ispos"); c.check(x.isfinite() && !x.isnan() && !x.isinf(), "isfinite");
  if(q.isint()) c.hit("integer");
  c.check(ef::isneg(x) == (q.sgn() < 0) || q.iszero(), "ef::isneg");
  c.check(x.isint() == q.isint(), "isint", [&]{ return fmt("%d want %d", x.isint(), q.isint()); }); c.check(ef::isint(x) == q.isint(), "ef::isint");
  if(!(q == Q::I(1))) { // isone(): an exact one, or one to within the working precision
    const bool far = (q - Q::I(1)).log10abs() > -(DIG - 5.0); if(far) c.check(!x.isone() && !ef::isone(x), "isone"); else c.trivial(); }
  else c.check(x.isone() && ef::isone(x), "isone");
}
}
FAMILY("C04.order", 12000, order);
FAMILY("C04.computed", 4000, computed);
FAMILY("C04.builtin", 8000, builtin);
FAMILY("C04.nan", 500, nan);
FAMILY("C04.predicates", 10000, predicates);
