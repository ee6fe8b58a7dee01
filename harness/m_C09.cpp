// C09: writing numbers according to the stream's format state.
#include <set>
#include "efmon.h"
namespace {
constexpr int MD = std::numeric_limits<e_float>::max_digits10;
struct Digits { std::string d; long e; };                  // d[0].d[1]... * 10^e
Digits round_to(const Q& q, int n)
{
  if(q.iszero()) return { std::string((std::size_t) n, '0'), 0 };
  std::string s = q.abs().sci(n - 1); const std::size_t k = s.find('e'); Digits r; r.e = std::stol(s.substr(k + 1)); for(std::size_t i = 0; i < k; ++i) if(s[i] != '.') r.d += s[i]; return r;
}
std::string expo(long e, bool up) { std::string t = std::to_string(std::labs(e)); while(t.size() % 3) t = "0" + t; return std::string(up ? "E" : "e") + (e < 0 ? "-" : "+") + t; }
std::string trim(std::string s) { while(s.back() == '0') s.pop_back(); if(s.back() == '.') s.pop_back(); return s; }
std::string place(const Digits& v, long decimals)           // positional notation; decimals < 0: as many as there are digits
{
  std::string ip, fp; if(v.e >= 0) { ip = v.d.substr(0, std::min<std::size_t>(v.d.size(), (std::size_t) v.e + 1)); ip.resize((std::size_t) v.e + 1, '0'); fp = v.d.size() > (std::size_t) v.e + 1 ? v.d.substr((std::size_t) v.e + 1) : ""; } else { ip = "0"; fp = std::string((std::size_t) (-v.e - 1), '0') + v.d; }
  if(decimals >= 0) fp.resize((std::size_t) decimals, '0');
  return ip + "." + fp;
}
// all acceptable texts for a finite value (ties and the last noise digit of the binary engines may go either way)
std::set<std::string> expect(const Q& q, std::ios::fmtflags f, long prec)
{
  std::set<std::string> out; const int p = prec <= 0 ? 6 : (int) prec; const bool up = f & std::ios::uppercase, sp = f & std::ios::showpoint, sci = f & std::ios::scientific, fix = !sci && (f & std::ios::fixed);
  const Q one = Q::I(1), del = Q(IS_EFX ? fmt("6e-%d", DIG + 40) : fmt("6e-%d", DIG + 2));
  for(int t = 0; t < 3; ++t)
  {
    const Q v = t == 0 ? q : t == 1 ? q * (one + del) : q * (one - del); if(t && q.iszero()) break;
    const long ex = q.iszero() ? 0 : round_to(q, DIG + 60).e; std::string s;
    if(sci) { Digits g = round_to(v, std::min(MD + 1, p + 1)); g.d.resize((std::size_t) p + 1, '0'); s = g.d.substr(0, 1) + "." + g.d.substr(1) + expo(g.e, up); out.insert(s); }
    else if(fix) { const long n = std::min<long>(ex + 1 + p, MD + 1); Digits g; if(n <= 0) { g.d = std::string("0"); g.e = 0; if(n == 0 && v.abs() >= Q::pow10(-p) / Q::I(2)) { g.d = "1"; g.e = -p; } } else g = round_to(v, (int) n); out.insert(place(g, p)); }
    else
    {
      Digits g = round_to(v, std::min(p, MD)); const long lim = std::min<long>(DIG, std::max(p, 6));
      for(const long e : { ex, g.e })
        if(e < -4 || e >= lim) { std::string m = g.d.substr(0, 1) + "." + g.d.substr(1); if(sp) m.resize((std::size_t) p + 1, '0'); else m = trim(m); out.insert(m + expo(g.e, up)); }
        else { s = place(g, -1); if(sp) { const std::size_t lead = g.e < 0 ? (std::size_t) (-g.e) : 0; std::size_t nd = s.size() - 1 - lead; if(nd < (std::size_t) p) s += std::string((std::size_t) p - nd, '0'); out.insert(s); if(q.iszero()) out.insert(s + "0"); } else out.insert(trim(s)); }
    }
  }
  return out;
}
void apply(std::ostream& os, std::ios::fmtflags f, long prec, long w, char fill) { os.flags(f); os.precision(prec); os.width(w); os.fill(fill); }
std::ios::fmtflags gen_flags(Rng& r)
{
  std::ios::fmtflags f = std::ios::skipws | std::ios::dec; switch(r.below(3)) { case 0: f |= std::ios::scientific; break; case 1: f |= std::ios::fixed; break; default: break; }
  if(r.chance(30)) f |= std::ios::showpoint; if(r.chance(30)) f |= std::ios::showpos; if(r.chance(30)) f |= std::ios::uppercase; switch(r.below(4)) { case 0: f |= std::ios::left; break; case 1: f |= std::ios::right; break; case 2: f |= std::ios::internal; break; default: break; } return f;
}
long gen_prec(Rng& r) { switch(r.below(6)) { case 0: return r.range(1, 10); case 1: return r.range(1, DIG); case 2: return r.range(DIG - 3, MD + 5); case 3: return 6; case 4: return r.range(-1, 3); default: return r.range(1, 3 * DIG); } }
std::string pad(std::string s, std::ios::fmtflags f, long w, char fill) { if((long) s.size() < w) { const std::string z((std::size_t) w - s.size(), fill); s = (f & std::ios::left) ? s + z : z + s; } return s; }
std::string sgn(std::string s, bool neg, std::ios::fmtflags f) { return neg ? "-" + s : (f & std::ios::showpos) ? "+" + s : s; }
void judge(Case& c, const e_float& x, const Q& q, std::ios::fmtflags f, long prec, long w, char fill)
{
  std::ostringstream os; apply(os, f, prec, w, fill); os << x; const std::string got = os.str();
  bool ok = false; std::string ex; for(const std::string& s : expect(q, f, prec)) { ex = pad(sgn(s, q.sgn() < 0, f), f, w, fill); if(ex == got) ok = true; if(q.iszero() && got == pad(sgn(s, true, f), f, w, fill)) ok = true; }
  const char* const mode = (f & std::ios::scientific) ? "scientific" : (f & std::ios::fixed) ? "fixed" : "default"; c.hit(mode);
  c.check(ok, mode, [&]{ return "got '" + got + "' want '" + ex + "'"; });
  c.check(os.width() == 0 && os.flags() == f && os.precision() == prec && os.good(), "format state: width consumed, the rest kept");
}
std::string in_flags(std::ios::fmtflags f) { std::string s; if(f & std::ios::scientific) s += "sci "; if(f & std::ios::fixed) s += "fixed "; if(f & std::ios::showpoint) s += "showpoint "; if(f & std::ios::showpos) s += "showpos "; if(f & std::ios::uppercase) s += "upper "; if(f & std::ios::left) s += "left "; if(f & std::ios::internal) s += "internal "; return s; }
void format(Case& c)
{
  Rng& r = c.rng; std::string a;
  switch(r.below(7))
  {
    case 0: a = gen_dec(r, -8, 12, true, 15); break; case 1: a = gen_dec(r, -130, 130); break;
    case 2: { const int n = (int) r.range(1, DIG - 1); a = (r.chance(50) ? "-" : "") + std::string("9.") + std::string((std::size_t) n, '9') + "e" + std::to_string(r.range(-8, 10)); c.hit("nines"); break; }
    case 3: { const int n = (int) r.range(1, 12); a = (r.chance(50) ? "-" : "") + gen_digits(r, n) + "5e" + std::to_string(r.range(-16, 3)); c.hit("tie"); break; }
    case 4: a = r.chance(30) ? "0" : std::to_string(r.range(-1000, 1000)); break;
    case 5: { const int n = (int) r.range(1, 10); a = "4." + std::string((std::size_t) n, '9') + "e" + std::to_string(-n - (int) r.range(-1, 3)); break; }
    default: { const long e = r.range(-3000, 3000); a = gen_dec(r, e, e); } }
  const std::ios::fmtflags f = gen_flags(r); const long p = gen_prec(r); const long w = r.chance(50) ? 0 : r.range(0, 200); const char fill = r.pick("  *0#x"); 
  c.in("a", a); c.in("flags", in_flags(f)); c.in("prec", p); c.in("width", w); c.in("fill", std::string(1, fill)); const e_float x(a);
  const Q q = IS_EFX ? Qs(a) : toQ(x); if(!IS_EFX && std::fabs(q.log10abs()) > 2900) { c.trivial(); return; }
  judge(c, x, q, f, p, w, fill ? fill : '.');
}
// results of arithmetic (guard digits present beyond the precision)
void computed(Case& c)
{
  Rng& r = c.rng; const std::string a = gen_dec(r, -20, 20, true, 30), b = gen_dec(r, -20, 20, true, 30); c.in("a", a); c.in("b", b); if(Qs(b).iszero()) { c.trivial(); return; } const e_float x = e_float(a) / e_float(b); const Q q = Qs(a) / Qs(b);
  const std::ios::fmtflags f = gen_flags(r); const long p = r.range(1, DIG - 8); c.in("flags", in_flags(f)); c.in("prec", p); if((f & std::ios::fixed) && q.log10abs() + (double) p > DIG - 3.0) { c.trivial(); return; }
  std::ostringstream os; apply(os, f, p, 0, ' '); os << x; bool ok = false; std::string ex; const Q d = Q::pow10(-(DIG - 1));
  for(int t = 0; t < 3; ++t) for(const std::string& s : expect(t == 0 ? q : t == 1 ? q + q * d : q - q * d, f, p)) { ex = sgn(s, q.sgn() < 0, f); ok = ok || ex == os.str(); }
  c.check(ok, "quotient printed correctly rounded", [&]{ return "got '" + os.str() + "' want '" + ex + "'"; }); c.hit("quotient");
}
void special(Case& c)
{
  Rng& r = c.rng; const std::ios::fmtflags f = gen_flags(r); const long p = gen_prec(r); const int k = (int) r.below(3); c.in("flags", in_flags(f)); c.in("k", k); const e_float x = k == 0 ? ef::value_nan() : k == 1 ? ef::value_inf() : -ef::value_inf();
  std::ostringstream os; apply(os, f, p, 0, ' '); os << x; std::string w = k == 0 ? "nan" : "inf"; if(f & std::ios::uppercase) for(char& ch : w) ch = (char) std::toupper(ch); const std::string s = os.str();
  c.check(k == 0 ? (s == w || s == "+" + w) : s == sgn(w, k == 2, f), "special value text", s);
  { std::ostringstream a, b; apply(a, f, p, 0, ' '); apply(b, f, p, 0, ' '); const e_float y(gen_dec(r, -3, 3)); a << y << ';' << y << ';'; b << y; c.check(a.str() == b.str() + ";" + b.str() + ";", "output is repeatable", a.str()); }
  { std::wstringstream dummy; std::ostringstream o; o.setstate(std::ios::failbit); o << x; c.check(o.str().empty(), "a failed stream stays untouched"); }
}
}
FAMILY("C09.format", 20000, format);
FAMILY("C09.computed", 6000, computed);
FAMILY("C09.special", 1000, special);
