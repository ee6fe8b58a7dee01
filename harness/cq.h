// Complex reference arithmetic and functions over Q (independent of the code under test).
// The inverse functions use cancellation-free forms, evaluated at about three times the working precision.
#ifndef VERIF_CQ_H
#define VERIF_CQ_H
#include <algorithm>
#include <cmath>
#include <vector>
#include "efmon.h"
struct CQ
{
  Q re, im;
  CQ() : re(Q::I(0)), im(Q::I(0)) { }
  CQ(const Q& a) : re(a), im(Q::I(0)) { }
  CQ(const Q& a, const Q& b) : re(a), im(b) { }
  static CQ I(long long n) { return CQ(Q::I(n)); }
  CQ operator-() const { return CQ(-re, -im); }
  CQ operator+(const CQ& o) const { return CQ(re + o.re, im + o.im); }
  CQ operator-(const CQ& o) const { return CQ(re - o.re, im - o.im); }
  CQ operator*(const CQ& o) const { return CQ(re * o.re - im * o.im, re * o.im + im * o.re); }
  CQ operator/(const CQ& o) const { const Q n = o.norm(); return CQ((re * o.re + im * o.im) / n, (im * o.re - re * o.im) / n); }
  Q norm() const { return re * re + im * im; }
  Q abs() const { return re.fn("hypot", im); }
  Q arg() const { return im.fn("atan2", re); }
  bool iszero() const { return re.iszero() && im.iszero(); }
  bool isfinite() const { return re.isfinite() && im.isfinite(); }
  CQ muli() const { return CQ(-im, re); }      // i z
  CQ divi() const { return CQ(im, -re); }      // -i z
  CQ conj() const { return CQ(re, -im); }
};
inline CQ cexp(const CQ& z) { const Q e = z.re.fn("exp"); return CQ(e * z.im.fn("cos"), e * z.im.fn("sin")); }
inline CQ clog(const CQ& z)
{
  Q x = z.re.abs(), y = z.im.abs(); if(x < y) std::swap(x, y);
  const Q one = Q::I(1), h = x.fn("hypot", y);
  if(h > Q("0.5") && h < Q::I(2)) return CQ(((x - one) * (x + one) + y * y).fn("log1p") / Q::I(2), z.arg());
  return CQ(h.fn("log"), z.arg());
}
inline CQ csqrt(const CQ& z)
{
  if(z.iszero()) return CQ();
  const Q s = ((z.re.abs() + z.abs()) / Q::I(2)).fn("sqrt"), t = z.im.abs() / (Q::I(2) * s);
  const bool neg = z.im.sgn() < 0;
  return z.re.sgn() >= 0 ? CQ(s, neg ? -t : t) : CQ(t, neg ? -s : s);
}
inline CQ csin(const CQ& z)  { return CQ(z.re.fn("sin") * z.im.fn("cosh"), z.re.fn("cos") * z.im.fn("sinh")); }
inline CQ ccos(const CQ& z)  { return CQ(z.re.fn("cos") * z.im.fn("cosh"), -(z.re.fn("sin") * z.im.fn("sinh"))); }
inline CQ csinh(const CQ& z) { return csin(z.muli()).divi(); }
inline CQ ccosh(const CQ& z) { return ccos(z.muli()); }
inline CQ ctan(const CQ& z)
{
  const Q x2 = z.re * Q::I(2), y2 = z.im * Q::I(2);
  if(y2.abs() > Q::I(4000)) return CQ(Q::I(0), Q::I(z.im.sgn()));   // the difference is below 1e-1700
  const Q c = z.re.fn("cos"), s = z.im.fn("sinh"), d = Q::I(2) * (c * c + s * s);
  return CQ(x2.fn("sin") / d, y2.fn("sinh") / d);
}
inline CQ ctanh(const CQ& z) { return ctan(z.muli()).divi(); }
inline CQ casin(const CQ& z)
{
  const CQ p = csqrt(CQ::I(1) + z), m = csqrt(CQ::I(1) - z);
  return CQ(z.re.fn("atan2", p.re * m.re - p.im * m.im), (m.re * p.im - m.im * p.re).fn("asinh"));
}
inline CQ cacos(const CQ& z)
{
  const CQ p = csqrt(CQ::I(1) + z), m = csqrt(CQ::I(1) - z);
  return CQ(m.re.fn("atan2", p.re) * Q::I(2), (p.re * m.im - p.im * m.re).fn("asinh"));
}
inline CQ cacosh(const CQ& z)
{
  const CQ p = csqrt(z + CQ::I(1)), m = csqrt(z - CQ::I(1));
  return CQ((m.re * p.re + m.im * p.im).fn("asinh"), m.im.fn("atan2", p.re) * Q::I(2));
}
inline CQ casinh(const CQ& z) { return casin(z.divi()).muli(); }
inline CQ catanh(const CQ& z)
{
  const Q one = Q::I(1), x = z.re.abs(), y = z.im, d = one - x;
  const Q re = (Q::I(4) * x / (d * d + y * y)).fn("log1p") / Q::I(4);
  return CQ(z.re.sgn() < 0 ? -re : re, (Q::I(2) * y).fn("atan2", d * (one + x) - y * y) / Q::I(2));
}
inline CQ catan(const CQ& z) { return catanh(z.muli()).divi(); }
inline CQ cpow(const CQ& z, const CQ& a) { if(z.iszero()) return CQ(); return cexp(a * clog(z)); }
inline CQ cpown(const CQ& z, long n)
{
  CQ r = CQ::I(1), b = z; unsigned long m = n < 0 ? 0UL - (unsigned long) n : (unsigned long) n;
  for(; m; m >>= 1) { if(m & 1) r = r * b; b = b * b; }
  return n < 0 ? CQ::I(1) / r : r;
}
// Stirling's series after shifting the real part to 160; better than 200 digits.
inline CQ cgamma(const CQ& z)
{
  const Q pi = Q::I(0).fn("pi"), half = Q("0.5");
  if(z.re < half) return CQ(pi) / (csin(CQ(pi) * z) * cgamma(CQ::I(1) - z));
  static thread_local std::vector<Q> coef;  // B_2n / (2n (2n-1))
  if(coef.empty())
  {
    Q f = Q::I(2) / (Q::I(4) * pi * pi);    // (2n-2)!-scaled factor: B_2n/(2n(2n-1)) = (-1)^(n+1) 2 (2n-2)! zeta(2n)/(2 pi)^(2n)
    for(long n = 1; n <= (DIG > 120 ? 2 * DIG : 260); ++n)
    {
      Q v = f * Q::I(2 * n).fn("zeta"); coef.push_back((n & 1) ? v : -v);
      f = f * Q::I((2 * n) * (2 * n - 1)) / (Q::I(4) * pi * pi);
    }
  }
  CQ x = z, prod = CQ::I(1); while(x.re < Q::I(DIG > 120 ? 3 * DIG / 2 : 160)) { prod = prod * x; x = x + CQ::I(1); }
  const CQ ix = CQ::I(1) / x, ix2 = ix * ix; CQ p = ix, s; Q last = Q::I(1);
  for(std::size_t n = 0; n < coef.size(); ++n) { const CQ t = CQ(coef[n]) * p; s = s + t; p = p * ix2; if(t.abs() < Q::pow10(-(DIG > 120 ? 2 * DIG : 260))) break; }
  return cexp((x - CQ(half)) * clog(x) - x + CQ((Q::I(2) * pi).fn("log") / Q::I(2)) + s) / prod;
}
// P. Borwein's algorithm with a bound on its error of 1e-170 (independent choice of n), reflection to the left of 0.
inline CQ czeta(const CQ& s)
{
  const Q pi = Q::I(0).fn("pi");
  if(s.re < Q::I(0)) { const CQ t = CQ::I(1) - s; return cpow(CQ(Q::I(2) * pi), s) / CQ(pi) * csin(s * CQ(pi / Q::I(2))) * cgamma(t) * czeta(t); }
  const long n = (long) (((DIG > 95 ? DIG + 69 : 170) * 2.3026 + 1.5708 * std::fabs(s.im.to_double()) + 20) / 1.7627) + 1;
  // d_k = n sum_{i<=k} (n+i-1)! 4^i / ((n-i)! (2i)!)
  std::vector<Q> d((std::size_t) n + 1); Q t = Q::I(1) / Q::I(n), sum = t; d[0] = sum;
  for(long i = 1; i <= n; ++i) { t = t * Q::I(4 * (n + i - 1)) * Q::I(n - i + 1) / Q::I((2 * i) * (2 * i - 1)); sum = sum + t; d[(std::size_t) i] = sum; }
  std::vector<CQ> pw((std::size_t) n + 1); CQ a;
  for(long k = 1; k <= n; ++k)
  {
    long f = 2; for(; f * f <= k; ++f) if(k % f == 0) break;
    pw[(std::size_t) k] = (k == 1) ? CQ::I(1) : (f * f <= k) ? pw[(std::size_t) f] * pw[(std::size_t) (k / f)] : cexp(-s * CQ(Q::I(k).fn("log")));
    const CQ term = CQ(d[(std::size_t) k - 1] - sum) * pw[(std::size_t) k];
    a = ((k - 1) & 1) ? a - term : a + term;
  }
  return -a / (CQ(sum) * (CQ::I(1) - cexp((CQ::I(1) - s) * CQ(Q::I(2).fn("log")))));
}
#endif
