// Complex side of the monitors.
#ifndef VERIF_CFMON_H
#define VERIF_CFMON_H
#include <complex>
#include "fnmon.h"
#include "cq.h"
#include <e_float/e_float_complex.h>
#include <e_float/e_float_functions_complex.h>
typedef ef::complex<e_float> C;
inline CQ toCQ(const C& z) { return CQ(toQ(z.real()), toQ(z.imag())); }
inline std::string cs(const CQ& z) { return "(" + qs(z.re, 30) + ", " + qs(z.im, 30) + ")"; }
inline bool near(const Q& g, const Q& w, const Q& scale, double k)
{
  if(g.isnan() || w.isnan()) return false;
  const double lg = w.log10abs();
  if(lg > MAX10 - 30.0) return g.isinf() || close(g, w, 20.0);
  if(g.isinf()) return false;
  if((g - w).abs() <= Q::pow10(MIN10 + 40)) return true;
  return within(g, w, scale, k);
}
inline bool nearc(const CQ& g, const CQ& w, const Q& sre, const Q& sim, double k) { return near(g.re, w.re, sre, k) && near(g.im, w.im, sim, k); }
inline std::string cdiff(const CQ& g, const CQ& w)
{
  std::string s = "got " + cs(g) + " want " + cs(w);
  if(g.isfinite() && w.isfinite()) s += fmt(" rel.err re 1e%.1f im 1e%.1f", (g.re - w.re).log10abs() - w.re.log10abs(), (g.im - w.im).log10abs() - w.im.log10abs());
  return s;
}
enum Cut { NOCUT, REALCUT, IMAGCUT };
// f: oracle as a function of the argument. The scale of a component (componentwise) or of the modulus is the value
// plus what a relative change of either part of the argument does to it.
template<class F> bool judgec(Case& c, const C& got, const F& f, const CQ& z, const char* what, bool componentwise, Cut cut = NOCUT, double k = DIG - 2.0)
{
  const CQ w = f(z), g = toCQ(got); const Q h = Q::pow10(-(DIG + 10)), up = Q::I(1) + h;
  const CQ d1 = f(CQ(z.re * up, z.im)) - w, d2 = f(CQ(z.re, z.im * up)) - w;
  if(!w.isfinite()) { c.trivial(); return true; }
  Q sre = w.re.abs(), sim = w.im.abs();
  if(d1.isfinite()) { sre = sre + (d1.re / h).abs(); sim = sim + (d1.im / h).abs(); }
  if(d2.isfinite()) { sre = sre + (d2.re / h).abs(); sim = sim + (d2.im / h).abs(); }
  if(!componentwise) { sre = sre + sim; sim = sre; }
  bool ok = nearc(g, w, sre, sim, k);
  if(!ok && cut == REALCUT && z.im.iszero()) { ok = nearc(g, w.conj(), sre, sim, k); if(ok) c.hit("other side of the cut"); }
  if(!ok && cut == IMAGCUT && z.re.iszero()) { ok = nearc(g, -w.conj(), sre, sim, k); if(ok) c.hit("other side of the cut"); }
  return c.check(ok, what, [&]{ return cdiff(g, w) + fmt(" scale 1e%.1f 1e%.1f", sre.log10abs(), sim.log10abs()); });
}
#endif
