// C08: reading decimal text.
#include "efmon.h"
namespace {
struct Num { std::string text; std::string digits; long e10; bool neg; };   // value = +-digits * 10^e10
Num gen_num(Rng& r, int maxd, long emin, long emax)
{
  Num n; n.neg = r.chance(40); std::string ip, fp; bool point = r.chance(70);
  const int style = (int) r.below(7); const int tot = (int) (r.chance(30) ? r.range(1, 6) : r.range(1, maxd));
  const std::string d = r.chance(4) ? std::string((std::size_t) tot, (char) 48) : gen_digits(r, tot);
  switch(style)
  {
    case 0: ip = d; point = r.chance(30); break;
    case 1: fp = std::string((std::size_t) r.range(0, 30), '0') + d; ip = r.chance(50) ? "" : std::string((std::size_t) r.range(1, 5), '0'); point = true; break;
    case 2: { const std::size_t k = r.below((std::uint64_t) tot + 1); ip = d.substr(0, k); fp = d.substr(k); point = point || !fp.empty(); break; }
    case 3: ip = std::string((std::size_t) r.range(1, 20), '0') + d; fp = std::string((std::size_t) r.range(0, 20), '0'); point = point || !fp.empty(); break;
    case 4: ip = d + std::string((std::size_t) r.range(0, 30), '0'); fp = r.chance(50) ? gen_digits(r, (int) r.range(1, 10)) : ""; point = point || !fp.empty(); break;
    case 5: { const std::size_t k = 8 * (std::size_t) r.range(0, tot / 8 + 1); ip = d.substr(0, std::min(k, d.size())); fp = d.size() > k ? d.substr(k) : ""; point = point || !fp.empty(); break; }
    default: ip = d.substr(0, 1); fp = d.substr(1); point = point || !fp.empty(); break;
  }
  if(ip.empty() && fp.empty()) ip = "7";
  long ex = 0; std::string es;
  if(r.chance(60)) { ex = r.range(emin, emax); es = r.chance(70) ? "e" : "E"; es += ex < 0 ? "-" : (r.chance(50) ? "+" : ""); es += std::string(r.chance(25) ? (std::size_t) r.range(1, 25) : 0, '0') + std::to_string(std::labs(ex)); }
  n.digits = ip + fp; n.e10 = ex - (long) fp.size();
  n.text = (n.neg ? "-" : r.chance(25) ? "+" : "") + ip + (point ? "." : "") + fp + es;
  return n;
}
Q value(const Num& n) { const Q q = Qs(n.digits.size() ? n.digits : "0") * Q::pow10(n.e10); return n.neg ? -q : q; }
int sig(const Num& n) { std::string d = n.digits; while(!d.empty() && d.back() == '0') d.pop_back(); std::size_t i = 0; while(i < d.size() && d[i] == '0') ++i; return (int) (d.size() - i); }
long order_of(const Num& n) { std::size_t i = 0; while(i < n.digits.size() && n.digits[i] == '0') ++i; return n.e10 + (long) n.digits.size() - 1 - (long) i; }
void judge(Case& c, const Num& n, const e_float& x)
{
  const Q w = value(n), g = toQ(x);
  if(w.iszero()) { c.check(x.iszero() && x == 0, "zero", [&]{ return str(x); }); c.hit("zero"); return; }
  c.check(x.isfinite() && x.isneg() == n.neg && !x.iszero(), "sign and class", [&]{ return str(x); });
  c.check(close(g, w, DIG - 0.0), "value", [&]{ return diff(g, w); });
  if(sig(n) <= DIG && (IS_EFX || (w.isint() && order_of(n) < DIG))) { c.check(g == w || close(g, w, 2.0 * DIG), "exact", [&]{ return diff(g, w); }); c.hit("exact"); }
}
void valid(Case& c)
{
  Rng& r = c.rng; const Num n = gen_num(r, DIG, -60, 60); const std::string pad = r.chance(15) ? std::string((std::size_t) r.range(1, 3), r.chance(50) ? ' ' : '\t') : "";
  const std::string s = r.chance(50) ? pad + n.text : n.text + pad; c.in("s", s);
  const e_float x(s), y(s.c_str()); judge(c, n, x); c.check(x == y || x.isnan(), "char pointer and string agree");
  std::istringstream is(n.text + " tail"); e_float z(42); is >> z; std::string t; is >> t; c.check(z == x && !is.bad() && t == "tail", "stream reads the same value", [&]{ return str(z) + " then '" + t + "'"; });
}
void longdigits(Case& c)
{
  Rng& r = c.rng; Num n = gen_num(r, r.chance(50) ? 3 * DIG : 2000, -60, 60); if(r.chance(20)) { const std::size_t k = (std::size_t) r.range(1, 3000); if(r.chance(50)) { n.text = (n.neg ? "-" : "") + std::string("0.") + std::string(k, '0') + "125e" + std::to_string(k); n.digits = "125"; n.e10 = -3; } else { n.text = (n.neg ? "-" : "") + std::string("125") + std::string(k, '0') + "e-" + std::to_string(k); n.digits = "125"; n.e10 = 0; } c.hit("compensated exponent"); }
  c.in("s", n.text); const e_float x(n.text); judge(c, n, x); if(sig(n) > DIG) c.hit("more digits than the precision");
}
void range(Case& c)
{
  Rng& r = c.rng; const bool big = r.chance(50); Num n = gen_num(r, 30, -5, 5); { const std::size_t k = n.text.find_first_of("eE"); if(k != std::string::npos) { n.e10 -= std::stol(n.text.substr(k + 1)); n.text.resize(k); } }
  static const long far[] = { 1, 2, 100, 1000, 1000000, 1000000000L, 9000000000L, 9000000000000000000L };
  const long lim = big ? MAX10 : MIN10; long e; switch(r.below(4)) { case 0: e = lim + (big ? 40 : -40) + (big ? 1 : -1) * (r.pick(far) % 4000000000L); break; case 1: e = (big ? 1 : -1) * r.pick(far); break; case 2: e = lim + (big ? -1 : 1) * r.range(60, 200); break; default: e = lim / (long) r.range(2, 9); }
  n.text += "e" + std::to_string(e); c.in("s", n.text); const e_float x(n.text);
  const long o0 = order_of(n); bool z = true; for(char ch : n.digits) if(ch != '0') z = false;
  if(z) { c.check(x.iszero(), "zero"); return; }
  const long o = std::labs(e) > 4000000000L ? e : o0 + e;
  if(o > MAX10 + 30 && (IS_EFX || o > MAX10 * 3)) { c.check(x.isinf() && x.isneg() == n.neg, "overflow gives infinity", [&]{ return str(x); }); c.hit("overflow"); }
  else if(o < MIN10 - 30 && (IS_EFX || o < MIN10 * 3)) { c.check(x.iszero(), "underflow gives zero", [&]{ return str(x); }); c.hit("underflow"); }
  else if(o < MAX10 && o > MIN10) { n.e10 += e; judge(c, n, x); c.hit("in range"); }
  else { c.check(!x.isnan() && (x.iszero() || x.isneg() == n.neg) && (o > 0 ? x.isinf() || ef::fabs(x) > 1 : ef::fabs(x) < 1), "between the limits", [&]{ return str(x); }); }
}
bool grammar(const std::string& s)
{
  std::string t; for(char ch : s) if(ch != ' ' && ch != '\t') t += ch;
  std::size_t i = 0, nd = 0; if(i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; bool pt = false; for(; i < t.size() && (std::isdigit((unsigned char) t[i]) || (t[i] == '.' && !pt)); ++i) { if(t[i] == '.') pt = true; else ++nd; }
  if(!nd) return false; if(i == t.size()) return true; if(t[i] != 'e' && t[i] != 'E') return false; ++i; if(i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; if(i == t.size()) return false; for(; i < t.size(); ++i) if(!std::isdigit((unsigned char) t[i])) return false; return true;
}
void malformed(Case& c)
{
  Rng& r = c.rng; std::string s; static const char* const fixed[] = { "", "-", "+", ".", "e5", "-e5", ".e5", "1e", "1e+", "1e-", "1.2.3", "--1", "+-1", "1-", "1e5.5", "1e5e5", "0x1F", "1,000", "1e 5x", "12a", "abc", "1..", "..1", "1e--5", "1_000", "1.5f", "1/2", "e", "E", "-.", "+.e1", "1e1-", "1 .. 2", "\x80\xff", "1\n2x", "#", "1e+-1" };
  const int m = (int) r.below(3);
  if(m == 0) s = r.pick(fixed);
  else if(m == 1) { const Num n = gen_num(r, 30, -300, 300); s = n.text; static const char ins[] = ".-+eEx,_/#a;:"; for(int i = (int) r.range(1, 2); i > 0; --i) { const std::size_t k = r.below(s.size() + 1); switch(r.below(3)) { case 0: s.insert(std::min(k, s.size()), 1, ins[r.below(sizeof ins - 1)]); break; case 1: if(k < s.size()) s[k] = ins[r.below(sizeof ins - 1)]; break; default: if(s.size() > 1) s.erase(k == s.size() ? k - 1 : k, 1); } } }
  else { static const char al[] = "0123456789+-.eE x"; const std::size_t k = r.below(12); for(std::size_t i = 0; i < k; ++i) s += al[r.below(sizeof al - 1)]; }
  c.in("s", s); const bool ok = grammar(s); c.hit(ok ? "well formed" : "malformed");
  if(ok) { const e_float x(s); c.check(!x.isnan(), "well formed text is a number", [&]{ return str(x); }); return; }
  const e_float x(s), y(s.c_str()); c.check(x.isnan() && y.isnan(), "malformed text gives NaN", [&]{ return str(x); });
  { e_float z(x); z = 3; c.check(z == 3 && (e_float(s) + 1).isnan(), "the object stays usable"); }
  if(!s.empty() && s.find_first_of(" \t\n") == std::string::npos) { std::istringstream is(s + " 5"); e_float z(42); is >> z; c.check(is.fail() && !is.bad() && z == 42, "stream extraction fails and leaves the object", [&]{ return fmt("fail=%d ", is.fail()) + str(z); }); is.clear(); e_float w; is >> w; c.check(w == 5 && !is.fail(), "stream recovers", [&]{ return str(w); }); }
}
void stream(Case& c)
{
  Rng& r = c.rng; const int n = (int) r.range(0, 8); std::string t; std::vector<Num> v; static const char* const ws[] = { " ", "\n", "\t", "  ", " \r\n", "\n\n" };
  for(int i = 0; i < n; ++i) { v.push_back(gen_num(r, 40, -30, 30)); if(r.chance(60) || i) t += r.pick(ws); t += v.back().text; } const bool tail = r.chance(40); if(tail) t += r.pick(ws); c.in("t", t);
  std::istringstream is(t); int k = 0; e_float x(-7), last(-7); while(is >> x) { if(k < n) judge(c, v[(std::size_t) k], x); last = x; ++k; }
  c.check(k == n && is.eof(), "number of values read", fmt("%d of %d", k, n)); c.check(x == last, "the failing read leaves the object"); c.hit("several values");
}
}
FAMILY("C08.valid", 12000, valid);
FAMILY("C08.long", 4000, longdigits);
FAMILY("C08.range", 5000, range);
FAMILY("C08.malformed", 10000, malformed);
FAMILY("C08.stream", 4000, stream);
