// C19: prime sequences, factorizations and integer powers through prime factors.
#include <deque>
#include <map>
#include <algorithm>
#include "fnmon.h"
#include <functions/integer/prime_factors.h>
#include <utility/util_power_j_pow_x.h>
typedef std::uint32_t u32; typedef std::uint64_t u64;
// independent reference: odd-only sieve
static const std::vector<u32>& ref(std::size_t n)
{
  static std::vector<u32> p; static u64 lim = 0; if(p.size() > n) return p;
  double x = n < 10 ? 10 : (double) n; lim = (u64) (x * (std::log(x) + std::log(std::log(x)) + 2) + 1000);
  std::vector<unsigned char> comp(lim / 2 + 1, 0); p.clear(); p.push_back(2);
  for(u64 i = 3; i <= lim; i += 2) { if(comp[i / 2]) continue; p.push_back((u32) i); for(u64 j = i * i; j <= lim; j += 2 * i) comp[j / 2] = 1; }
  return p;
}
static void f_prime(Case& c)
{
  Rng& r = c.rng; u32 n;
  switch(r.below(8)) { case 6: case 7: n = (u32) std::exp(std::log(6550.0) + r.u01() * std::log(r.chance(95) ? 30.0 : 150.0)); c.cls("any number of them"); break; case 0: n = (u32) r.range(0, 130); c.cls("few"); break; case 1: n = (u32) r.range(0, 6600); c.cls("table"); break; case 2: n = (u32) r.range(6540, 6560); c.cls("table end"); break; case 3: n = (u32) r.range(6550, 40000); c.cls("generated"); break; default: n = (u32) r.range(40000, r.chance(90) ? 150000 : 700000); c.cls("many"); break; }
  c.in("n", (long long) n); std::deque<u32> v((std::size_t) r.below(4), 77U); ef::prime(n, v);
  if(!c.check(v.size() == n, "prime(n) gives n numbers", [&]{ return fmt("%zu", v.size()); })) return;
  const std::vector<u32>& p = ref(n); std::size_t i = 0; while(i < n && v[i] == p[i]) ++i;
  c.check(i == n, "prime(n) gives the first n primes", [&]{ return fmt("element %zu is %u, not %u", i, v[i], p[i]); });
}
FAMILYX("C19.prime", 1500, f_prime, 6);
static u32 gen_n(Case& c)
{
  Rng& r = c.rng; const std::vector<u32>& p = ref(7000);
  switch(r.below(11))
  {
    case 9: { c.cls("about a prime square"); const u64 q = p[r.below(r.chance(50) ? 6542 : 300)]; const u64 x = q * q + (u64) r.range(-(long) q, (long) q + 2); return (u32) (x > 0xFFFFFFFFULL ? 0xFFFFFFFFULL : x); }
    case 10: { c.cls("multiple of about a prime square"); const u64 q = p[r.below(r.chance(50) ? 1000 : 100)]; u64 x = q * q + (u64) r.range(-2, (long) q + 2); for(int i = (int) r.below(12); i > 0; --i) { const u64 f = p[r.below(8)]; if(x * f <= 0xFFFFFFFFULL) x *= f; } return (u32) x; }
    case 0: c.cls("small"); return (u32) r.range(1, 300);
    case 1: c.cls("tabulated"); return (u32) r.range(1, 9999);
    case 2: c.cls("table end"); return (u32) r.range(9990, 10010);
    case 3: c.cls("any"); return (u32) r.range(10000, 0xFFFFFFFFLL);
    case 4: { c.cls("prime square"); const u32 q = p[r.below(6542)]; return q * q; }
    case 5: { c.cls("product of two primes"); u64 a = p[r.below(6542)], b = p[r.below(6542)]; while(a * b > 0xFFFFFFFFULL) b = p[r.below(100)]; return (u32) (a * b); }
    case 6: { c.cls("prime power"); u64 q = p[r.below(r.chance(50) ? 4 : 60)], x = q; while(x * q <= 0xFFFFFFFFULL && r.chance(80)) x *= q; return (u32) x; }
    case 7: { c.cls("smooth"); u64 x = 1; while(true) { const u64 q = p[r.below(8)]; if(x * q > 0xFFFFFFFFULL) break; x *= q; } return (u32) x; }
    default: { c.cls("large prime or near"); return (u32) (0xFFFFFFFFULL - r.below(2000)); }
  }
}
static void factors_of(Case& c, const u32 n)
{
  std::deque<Util::point<u32>> pf((std::size_t) c.rng.below(3)); ef::prime_factors(n, pf);
  std::string s = fmt("%u: ", n); for(const auto& f : pf) s += fmt("%u^%u ", f.x, f.y);
  if(n < 2) { c.check(pf.size() == 1 && pf[0].x == n && pf[0].y == 1, "factors of 0 and 1", s); return; }
  u64 prod = 1; bool ok = true, over = false; u32 last = 1; const std::vector<u32>& p = ref(7000);
  for(const auto& f : pf)
  {
    if(f.x <= last || f.y < 1) ok = false; last = f.x;
    bool prime = f.x > 1; for(std::size_t i = 0; prime && (u64) p[i] * p[i] <= f.x; ++i) if(f.x % p[i] == 0) prime = false; if(!prime) ok = false;
    for(u32 k = 0; k < f.y && !over; ++k) { prod *= f.x; if(prod > 0xFFFFFFFFULL) over = true; }
  }
  c.check(ok, "factors are increasing primes", s); c.check(!over && prod == n, "product of the prime powers is n", s);
}
static void f_factors(Case& c)
{
  const u32 n = gen_n(c); c.in("n", (long long) n); factors_of(c, n);
}
// consecutive integers: every one of a block
static void f_block(Case& c)
{
  const u32 n = c.idx < 40 ? (u32) c.idx * 256U : gen_n(c); c.in("first", (long long) n); if(c.idx < 40) c.cls("all up to 10240"); for(u32 i = 0; i < 256U && n + i >= n; ++i) factors_of(c, n + i);
}
FAMILYX("C19.block", 1000, f_block, 10);
FAMILYX("C19.factors", 8000, f_factors, 20);
static void f_jpow(Case& c)
{
  Rng& r = c.rng; std::string s; switch(r.below(4)) { case 0: s = std::to_string(r.range(-40, 400)); c.cls("integer power"); break; case 1: s = gen_dec(r, -20, -1); c.cls("small power"); break; default: s = gen_dec(r, 0, 2); c.cls("real power"); }
  const e_float x(s); const Q q = toQ(x); c.in("x", s); std::map<u32, e_float> m; std::string js;
  std::vector<u32> seq; for(int i = 0; i < 12; ++i) { Case d("x", 0, 1); d.rng = Rng(r.next()); u32 j = r.chance(60) ? (u32) r.range(1, 500) : gen_n(d); if(j == 0) j = 1; seq.push_back(j); js += std::to_string(j) + " "; } c.in("j", js);
  for(u32 j : seq) { const e_float y = Util::j_pow_x(j, x, m); const Q w = Q::U(j).fn("pow", q); const double lose = 3 + std::max(0.0, std::log10(1 + q.abs().to_double() * std::log((double) j + 1)));
    c.check(close(toQ(y), w, DIG - lose), "j^x", [&]{ return fmt("j=%u ", j) + diff(toQ(y), w); }); }
}
FAMILYX("C19.j_pow_x", 300, f_jpow, 8);
