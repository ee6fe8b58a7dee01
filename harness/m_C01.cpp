// C01: the four operations, inverse and square root deliver digits10 correct digits for every pair of operands.
#include "efmon.h"
namespace {
const double K = DIG - 0.001;      // relative tolerance 10^-digits10

// operand pair generator; returns whether both operands are exactly representable in this backend
bool gen_pair(Case& c, std::string& a, std::string& b)
{
  Rng& r = c.rng;
  switch(r.below(9))
  {
    case 0: { a = gen_any(r); b = gen_any(r); c.hit("pair:any"); return IS_EFX; }
    case 1: { const long e = gen_order(r); a = gen_dec(r, e, e); b = gen_dec(r, e - 9, e + 9); c.hit("pair:same-order"); return IS_EFX; }
    case 2:  // cancellation: common leading digits
    {
      const int n = (int) r.range(2, DIG);
      std::string d = gen_digits(r, n), f = d;
      int k = (int) r.range(1, n - 1);
      switch(r.below(4))
      {
        case 0: f[(std::size_t) k] = (char) ('0' + r.below(10)); break;
        case 1: for(int i = k; i < n; ++i) f[(std::size_t) i] = (char) ('0' + r.below(10)); break;
        case 2: for(int i = k; i < n; ++i) { d[(std::size_t) i] = '0'; f[(std::size_t) i] = '9'; } break;
        default: for(int i = k; i < n; ++i) { d[(std::size_t) i] = '9'; f[(std::size_t) i] = '0'; } if(k > 1 && f[(std::size_t) k - 1] != '9') ++f[(std::size_t) k - 1]; break;
      }
      const long sh = IS_EFX ? r.range(-40, 40) : 0;
      a = (r.chance(50) ? "" : "-") + d + (sh ? "e" + std::to_string(sh) : ""); b = (r.chance(50) ? "" : "-") + f + (sh ? "e" + std::to_string(sh) : "");
      c.hit("pair:cancel"); return true;
    }
    case 3:  // power of ten next to a run of nines of any length and offset
    {
      const int n = (int) r.range(1, DIG - 1);
      a = "1" + std::string((std::size_t) n, '0'); b = std::string((std::size_t) r.range(1, n), '9');
      if(r.chance(50)) { a = "-" + a; } if(r.chance(50)) { b = "-" + b; } if(r.chance(50)) std::swap(a, b);
      if(IS_EFX) { const long sh = r.range(-30, 30); a += "e" + std::to_string(sh); b += "e" + std::to_string(sh + (r.chance(30) ? r.range(-9, 9) : 0)); }
      c.hit("pair:nines"); return true;
    }
    case 4:  // widely separated, around the precision
    {
      const long e = r.range(-60, 60); const long off = r.range(DIG - 20, DIG + 45);
      a = gen_dec(r, e, e); b = gen_dec(r, e - off, e - off); if(r.chance(50)) std::swap(a, b);
      c.hit("pair:separated"); return IS_EFX;
    }
    case 5: { GenOpt o; o.exact = true; o.emin = -30; o.emax = 30; a = gen_dec(r, o); b = gen_dec(r, o); c.hit("pair:exact"); return true; }
    case 6: // limb-boundary exponents
    {
      const long e = 8 * r.range(-12, 12), f = 8 * r.range(-12, 12);
      a = gen_dec(r, e - 1, e + 1); b = gen_dec(r, f - 1, f + 1); c.hit("pair:limb-edge"); return IS_EFX;
    }
    case 7: { const long e = gen_order(r); a = gen_dec(r, e, e); b = gen_dec(r, 0, 8, true, 8); c.hit("pair:short"); return IS_EFX; }
    default: { a = gen_any(r); b = a; if(r.chance(50)) b = (b[0] == '-') ? b.substr(1) : "-" + b; if(IS_EFX && r.chance(50)) { const std::size_t p = b.find('e'); b = b.substr(0, p + 1) + std::to_string(std::stol(b.substr(p + 1)) + r.range(-2, 2)); } c.hit("pair:equal"); return true; }
  }
}
void run_op(Case& c, const char op)
{
  std::string a, b; const bool exact = gen_pair(c, a, b);
  c.in("a", a); c.in("b", b);
  const e_float x(a), y(b); const Q qx = Qs(a), qy = Qs(b);
  Q want; e_float r, rc(x);
  switch(op) { case '+': want = qx + qy; r = x + y; rc += y; break; case '-': want = qx - qy; r = x - y; rc -= y; break; case '*': want = qx * qy; r = x * y; rc *= y; break; default: want = qx / qy; r = x / y; rc /= y; }
  if(want.log10abs() > MAX10 - 20 || (!want.iszero() && want.log10abs() < MIN10 + 20)) { c.trivial(); return; }
  const Q got = toQ(r);
  const Q scale = ((op == '+' || op == '-') && !exact) ? (qx.abs() + qy.abs()) : want.abs();
  c.check(within(got, want, scale, K), "value", [&]{ return diff(got, want); });
  c.check(r == rc, "compound-differs", [&]{ return str(r) + " vs " + str(rc); });
  if(want.iszero() && exact) c.hit("exact-zero");
  if(c.rng.chance(25))
  { // the result of an operation used again as an operand, with the sign/commuted identity
    e_float z = (op == '+') ? y + x : (op == '-') ? -(y - x) : (op == '*') ? y * x : x * ef::inv(y);
    c.check(within(toQ(z), want, scale, DIG - 1.0), "commuted", [&]{ return diff(toQ(z), want); });
  }
}
void f_add(Case& c) { run_op(c, '+'); }
void f_sub(Case& c) { run_op(c, '-'); }
void f_mul(Case& c) { run_op(c, '*'); }
void f_div(Case& c) { run_op(c, '/'); }

// integers whose exact result has at most digits10 digits: the result must be that integer, exactly
void f_exact_int(Case& c)
{
  Rng& r = c.rng; const int n1 = (int) r.range(1, DIG / 2), n2 = (int) r.range(1, DIG / 2 - 1);
  std::string a = (r.chance(40) ? "-" : "") + gen_digits(r, n1), b = (r.chance(40) ? "-" : "") + gen_digits(r, n2);
  c.in("a", a); c.in("b", b);
  const e_float x(a), y(b); const Q qx = Qs(a), qy = Qs(b);
  const Q s = qx + qy, d = qx - qy, p = qx * qy;
  auto eq = [&](const e_float& got, const Q& want, const char* what) {
    const std::string ws = want.fix(0);
    c.check(got == e_float(ws) && toQ(got) == want, what, [&]{ return diff(toQ(got), want); });
  };
  eq(x + y, s, "sum"); eq(x - y, d, "difference"); eq(x * y, p, "product");
  // long-integer multiplication of a quotient restores the dividend to the last advertised digit
  const e_float q = (x * y) / y;
  c.check(close(toQ(q), qx, K), "quotient", [&]{ return diff(toQ(q), qx); });
  // carry chains: (10^k - 1) + 1 and back
  const int k = (int) r.range(1, DIG - 1);
  const e_float nines(std::string((std::size_t) k, '9')), p10("1" + std::string((std::size_t) k, '0'));
  c.check(nines + 1 == p10 && p10 - 1 == nines && p10 - nines == e_float(1), "carry-chain", fmt("k=%d", k));
}
void f_inv(Case& c)
{
  Rng& r = c.rng; std::string a;
  switch(r.below(5)) { case 0: a = "1e" + std::to_string(gen_order(r)); break; case 1: a = std::string((std::size_t) r.range(1, DIG), '9') + "e" + std::to_string(gen_order(r)); break;
    case 2: a = "1." + std::string((std::size_t) r.range(0, DIG - 3), '0') + std::to_string(r.range(1, 9)); break; default: a = gen_any(r); }
  c.in("a", a); const e_float x(a); const Q want = Q::I(1) / Qs(a);
  if(want.log10abs() > MAX10 - 20 || want.log10abs() < MIN10 + 20) { c.trivial(); return; }
  e_float i1 = ef::inv(x); e_float i2(x); i2.calculate_inv(); const e_float i3 = ef::one() / x, i4 = 1 / x;
  c.check(close(toQ(i1), want, K), "inv", [&]{ return diff(toQ(i1), want); });
  c.check(close(toQ(i2), want, K), "calculate_inv", [&]{ return diff(toQ(i2), want); });
  c.check(close(toQ(i3), want, K), "one/x", [&]{ return diff(toQ(i3), want); });
  c.check(close(toQ(i4), want, K), "1/x", [&]{ return diff(toQ(i4), want); });
  i1.calculate_inv();
  c.check(close(toQ(i1), Qs(a), DIG - 1.0), "inv-inv", [&]{ return diff(toQ(i1), Qs(a)); });
}
void f_sqrt(Case& c)
{
  Rng& r = c.rng; std::string a; bool square = false; Q root;
  switch(r.below(6))
  {
    case 0: { const std::string d = gen_digits(r, (int) r.range(1, DIG / 2)); root = Qs(d); a = (root * root).fix(0); square = true; if(r.chance(50)) { const long s = r.range(-60, 60); a += "e" + std::to_string(2 * s); root = root * Q::pow10(s); square = IS_EFX; } break; }
    case 1: a = "1e" + std::to_string(gen_order(r)); break;
    case 2: a = std::string((std::size_t) r.range(1, DIG), '9') + "e" + std::to_string(r.range(-50, 50)); break;
    case 3: a = "1." + std::string((std::size_t) r.range(0, DIG - 3), '0') + std::to_string(r.range(1, 9)); break;
    default: a = gen_any(r); if(a[0] == '-') a = a.substr(1);
  }
  c.in("a", a); const e_float x(a); const Q want = Qs(a).fn("sqrt");
  if(x.iszero()) { c.trivial(); return; }
  e_float s(x); s.calculate_sqrt(); const e_float s2 = ef::sqrt(x);
  c.check(close(toQ(s), want, K), "sqrt", [&]{ return diff(toQ(s), want); });
  c.check(s == s2, "ef::sqrt-differs", [&]{ return str(s) + " vs " + str(s2); });
  if(square) { c.hit("perfect-square"); c.check(toQ(s) == root || close(toQ(s), root, DIG + 0.5), "perfect-square", [&]{ return diff(toQ(s), root); }); }
  const e_float back = s * s; c.check(close(toQ(back), Qs(a), DIG - 1.0), "square-of-root", [&]{ return diff(toQ(back), Qs(a)); });
}
// operands with a history: results fed back into later operations on the same objects
void f_chain(Case& c)
{
  Rng& r = c.rng; std::vector<e_float> v; std::string prog;
  for(int i = 0; i < 3; ++i) { const std::string s = gen_dec(r, -12, 12); v.emplace_back(s); prog += s + " "; }
  c.in("start", prog);
  for(int step = 0; step < 12; ++step)
  {
    const int i = (int) r.below(3), j = (int) r.below(3), op = (int) r.below(6);
    const Q a = toQ(v[(std::size_t) i]), b = toQ(v[(std::size_t) j]); Q want, scale; const unsigned long long n = r.below(4) ? r.below(1000000000ULL) + 1U : r.next() / 7U + 1U;
    c.in("op", fmt("v%d %s v%d n=%llu", i, (op < 4 ? (const char*[]){"+=","-=","*=","/="}[op] : op == 4 ? "*=n" : "/=n"), j, n));
    if(op == 3 && b.iszero()) continue;
    switch(op)
    {
      case 0: want = a + b; scale = a.abs() + b.abs(); v[(std::size_t) i] += v[(std::size_t) j]; break;
      case 1: want = a - b; scale = a.abs() + b.abs(); v[(std::size_t) i] -= v[(std::size_t) j]; break;
      case 2: want = a * b; scale = want.abs(); v[(std::size_t) i] *= v[(std::size_t) j]; break;
      case 3: want = a / b; scale = want.abs(); v[(std::size_t) i] /= v[(std::size_t) j]; break;
      case 4: want = a * Q::U(n); scale = want.abs(); v[(std::size_t) i] *= n; break;
      default: want = a / Q::U(n); scale = want.abs(); v[(std::size_t) i] /= n; break;
    }
    const Q got = toQ(v[(std::size_t) i]);
    if(!c.check(within(got, want, scale, DIG - 0.5), "step", [&]{ return diff(got, want); })) return;
    if(std::fabs(got.log10abs()) > 100000 && !got.iszero()) v[(std::size_t) i] = e_float(gen_dec(r, -5, 5));
  }
}
}
FAMILY("C01.add", 6000, f_add);
FAMILY("C01.sub", 6000, f_sub);
FAMILY("C01.mul", 4500, f_mul);
FAMILY("C01.div", 4000, f_div);
FAMILY("C01.exact_int", 2500, f_exact_int);
FAMILY("C01.inv", 2500, f_inv);
FAMILY("C01.sqrt", 3000, f_sqrt);
FAMILY("C01.chain", 1200, f_chain);
