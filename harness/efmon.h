// e_float side of the monitors: value exchange with the oracle, operand generators, tolerances.
#ifndef VERIF_EFMON_H
#define VERIF_EFMON_H
#include <cmath>
#include <iomanip>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
#include "mon.h"
#include "oracle.h"

constexpr int DIG = std::numeric_limits<e_float>::digits10;
#if defined(E_FLOAT_TYPE_EFX)
constexpr bool IS_EFX = true,  IS_GMP = false, IS_MPFR = false;
#elif defined(E_FLOAT_TYPE_GMP)
constexpr bool IS_EFX = false, IS_GMP = true,  IS_MPFR = false;
#else
constexpr bool IS_EFX = false, IS_GMP = false, IS_MPFR = true;
#endif
constexpr long MAX10 = std::numeric_limits<e_float>::max_exponent10;
constexpr long MIN10 = std::numeric_limits<e_float>::min_exponent10;

inline void oracle_setup() { static thread_local bool done = false; if(!done) { if(!IS_MPFR) Q::wide_range(); Q::set_prec((long) (DIG * 3.3219281 * 3) + 512); done = true; } }

// The printed representation with all the digits the library is willing to print.
inline std::string str(const e_float& x)
{
  std::ostringstream os; os << std::scientific << std::setprecision(DIG + 1) << x; return os.str();
}
inline std::string shortstr(const e_float& x) { std::ostringstream os; os << std::scientific << std::setprecision(DIG < 140 ? DIG + 1 : 60) << x; return os.str(); }
inline Q Qs(const std::string& s) { oracle_setup(); return Q(s); }
inline Q toQ(const e_float& x)
{
  oracle_setup();
  if(x.isnan()) return Q::nan();
  if(x.isinf()) return Q::inf(x.isneg());
  return Q(str(x));
}
inline std::string qs(const Q& q, int d = 0) { if(q.isnan()) return "nan"; if(q.isinf()) return q.sgn() < 0 ? "-inf" : "inf"; return q.sci(d ? d : (DIG < 140 ? DIG + 10 : 60)); }

// |got - want| <= 10^-k * scale
inline bool within(const Q& got, const Q& want, const Q& scale, double k)
{
  if(got.isnan() || want.isnan()) return false;
  if(got.isinf() || want.isinf()) return got.isinf() && want.isinf() && got.sgn() == want.sgn();
  const Q d = (got - want).abs();
  if(d.iszero()) return true;
  if(scale.iszero()) return false;
  return d.log10abs() <= scale.log10abs() - k;
}
inline bool close(const Q& got, const Q& want, double k) { return within(got, want, want, k); }
inline std::string diff(const Q& got, const Q& want)
{
  std::string r = "got " + qs(got) + " want " + qs(want);
  if(got.isfinite() && want.isfinite()) { const Q d = (got - want).abs(); r += fmt(" abs.err 1e%.2f", d.log10abs()); if(!want.iszero()) r += fmt(" rel.err 1e%.2f", d.log10abs() - want.log10abs()); }
  return r;
}

// ---------------------------------------------------------------------------
// Operand generators (decimal strings).
struct GenOpt { int maxdig = DIG; long emin = -20, emax = 20; bool neg = true; bool exact = false; };

// A digit string of length n built from hostile patterns (limb boundaries, runs of 0 and 9, carries).
inline std::string gen_digits(Rng& r, int n)
{
  std::string d; d.reserve((std::size_t) n + 8);
  const int style = (int) r.below(10);
  static const char* const limbs[] = { "00000000", "99999999", "00000001", "10000000", "99999998", "50000000", "49999999", "00000009", "90000000", "33333333", "00010000", "12345678" };
  while((int) d.size() < n)
  {
    switch(style)
    {
      case 0: case 1: case 2: d += (char) ('0' + r.below(10)); break;                                     // uniform
      case 3: case 4: d += limbs[r.below(sizeof limbs / sizeof limbs[0])]; break;                         // hostile limbs
      case 5: d += '9'; break;
      case 6: d += d.empty() ? '1' : '0'; break;
      case 7: { const int k = (int) r.range(1, 30); d += std::string((std::size_t) k, (char) ('0' + 9 * r.below(2))); break; }  // runs
      case 8: d += r.chance(60) ? limbs[r.below(sizeof limbs / sizeof limbs[0])] : fmt("%08llu", (unsigned long long) r.below(100000000ULL)); break;
      default: d += (char) ('0' + (r.chance(90) ? 0 : r.below(10))); break;                               // sparse
    }
  }
  d.resize((std::size_t) n);
  if(d[0] == '0') d[0] = (char) ('1' + r.below(9));
  if(n > 1 && r.chance(20)) d[(std::size_t) n - 1] = (char) ('1' + r.below(9));
  return d;
}
// m * 10^e with exactly representable value in every backend when exact is requested:
// efx: any decimal; binary backends: integers of at most DIG digits, optionally over a power of two.
inline std::string gen_dec(Rng& r, const GenOpt& o)
{
  int n;
  switch(r.below(6)) { case 0: n = (int) r.range(1, 3); break; case 1: n = (int) r.range(1, o.maxdig < 20 ? o.maxdig : 20); break; case 2: n = o.maxdig; break; default: n = (int) r.range(1, o.maxdig); }
  const std::string sign = (o.neg && r.chance(45)) ? "-" : "";
  const std::string d = gen_digits(r, n);
  const long e = r.range(o.emin, o.emax);               // order of magnitude
  if(o.exact && !IS_EFX)
  {
    if(e < 0 || n > e + 1)
    {
      // dyadic rational: k / 2^j written exactly in decimal
      const int bits = (int) r.range(0, 150);
      Q q = Qs(d.substr(0, (std::size_t) std::min<long>((long) n, DIG > 100 ? DIG - 50 : DIG / 2))) / Q::pow2(bits);
      return sign + q.sci((int) (n + bits + 60));
    }
    if(e + 1 > DIG) return sign + d;
    return sign + d + std::string((std::size_t) (e + 1 - n), '0');
  }
  std::string m = d.substr(0, 1) + (n > 1 ? "." + d.substr(1) : std::string());
  return sign + m + "e" + std::to_string(e);
}
inline std::string gen_dec(Rng& r, long emin, long emax, bool neg = true, int maxdig = DIG) { GenOpt o; o.emin = emin; o.emax = emax; o.neg = neg; o.maxdig = maxdig; return gen_dec(r, o); }
// An order-of-magnitude class: around one, moderate, large, extreme.
inline long gen_order(Rng& r)
{
  switch(r.below(12))
  {
    case 0: case 1: case 2: case 3: return r.range(-10, 10);
    case 4: case 5: return r.range(-40, 40);
    case 6: case 7: return r.range(-130, 130);
    case 8: return r.range(-400, 400);
    case 9: return r.range(-100000, 100000);
    case 10: return r.range(MIN10 / 4, MAX10 / 4);
    default: return 8 * r.range(-30, 30) + r.range(-1, 1);
  }
}
inline std::string gen_any(Rng& r) { const long e = gen_order(r); return gen_dec(r, e, e); }
#endif
