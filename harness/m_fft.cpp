// C11 (and C23): products of numbers long enough to be multiplied by the FFT, at every transform size, exact against GMP integers.
#include <gmp.h>
#include "efmon.h"
static std::string digs(Rng& r, std::size_t n, int kind)
{
  std::string s(n, '9');
  switch(kind)
  {
    case 1: for(char& c : s) c = (char) ('0' + r.below(10)); break;
    case 2: for(char& c : s) c = (char) ('8' + r.below(2)); break;
    case 3: for(std::size_t i = 0; i < n; ++i) s[i] = ((i / 4) % 2) ? '0' : '9'; break;
    case 4: for(std::size_t i = 0; i < n; i += 4) { const char c = r.chance(50) ? '9' : '0'; for(std::size_t j = i; j < i + 4 && j < n; ++j) s[j] = c; } break;
    case 5: for(std::size_t i = 0; i < n; ++i) s[i] = (i && r.chance(99)) ? '0' : '7'; break;
    default: break;
  }
  if(s[0] == '0') s[0] = '5'; if(s[n - 1] == '0') s[n - 1] = '3';
  return s;
}
static void f_fft(Case& c)
{
  static const char* const kinds[] = { "all nines", "random", "eights and nines", "alternating limbs", "random limbs of 0 and 9999", "sparse" };
  Rng& r = c.rng; const std::size_t D = (std::size_t) DIG;
  const std::size_t p = c.idx < 6 ? D : (std::size_t) (5010.0 * std::pow((double) (c.idx % 4 ? std::min(D, (std::size_t) 70000) : D) / 5010.0, r.u01()));
  const std::size_t n = p / 2, m = r.chance(70) ? n : (std::size_t) ((double) n * (0.02 + 0.97 * r.u01())); const int k = c.idx < 6 ? (int) c.idx : (int) r.below(6), l = (k == 0 || r.chance(70)) ? k : (int) r.below(6);
  c.cls(fmt("2^%d digits", (int) std::log2((double) p))); c.in("digits", (long long) p); c.in("operands", fmt("%s (%zu) times %s (%zu)", kinds[k], n, kinds[l], m)); c.hit(kinds[k]); if(p > 3000000) c.hit("more than three million digits");
  const std::string a = digs(r, n, k), b = digs(r, m, l);
  mpz_t A, B; mpz_init_set_str(A, a.c_str(), 10); mpz_init_set_str(B, b.c_str(), 10); mpz_mul(A, A, B);
  char* const t = mpz_get_str(nullptr, 10, A); std::string want(t); std::free(t); mpz_clear(A); mpz_clear(B);
  e_float x("0." + a), y("0." + b); const bool neg = r.chance(30); if(neg) y.negate();
  const int prec = (int) std::min(D, n + m + 20); if(p < D) { x.precision(prec); y.precision(prec); }
  const e_float w((neg ? "-0." : "0.") + std::string(n + m - want.size(), '0') + want);
  e_float z(x); z *= y; c.check(z == w, "product of long numbers", [&]{ const e_float d = z - w; return fmt("error of order %lld", (long long) d.order()); });
  if(r.chance(40)) { e_float v(y); v *= x; c.check(v == w, "product of long numbers, exchanged"); }
  if(k == l && n == m && r.chance(30)) { e_float q(x); q *= q; e_float s(x); const e_float u(x); s *= u; c.check(q == s, "square of a long number by itself"); }
}
FAMILY("C11.fft", 320, f_fft);
