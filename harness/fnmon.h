// Judging elementary and special functions against the oracle.
#ifndef VERIF_FNMON_H
#define VERIF_FNMON_H
#include "efmon.h"
// The MPFR engine carries no guard digits: sums and products of hundreds of terms cost it a few digits at high precision.
constexpr double MORE = (IS_MPFR && DIG > 150) ? 4.0 : 0.0;
// Allowed: k digits relative to the result, plus what a relative perturbation of 10^-(DIG) of the argument does to it.
// f is the oracle as a function of the argument.
template<class F> bool judge(Case& c, const e_float& got, const F& f, const Q& x, const char* what, double k = DIG - 2.0, const Q* addscale = nullptr)
{
  const Q w = f(x); const Q g = toQ(got);
  if(w.isnan()) return c.check(g.isnan(), what, [&]{ return diff(g, w); });
  if(w.isinf()) return c.check(g.isinf() && g.sgn() == w.sgn(), what, [&]{ return diff(g, w); });
  const double lg = w.log10abs();
  if(lg > MAX10 - 30.0) { c.hit("near overflow"); return c.check(!g.isnan() && (lg < MAX10 * 3.0 || g.isinf()) && (g.isinf() || close(g, w, 20.0)), what, [&]{ return diff(g, w); }); }
  if(lg < MIN10 + 30.0 && !w.iszero()) { c.hit("near underflow"); return c.check(!g.isnan() && !g.isinf() && g.abs() <= Q::pow10(MIN10 + 40), what, [&]{ return diff(g, w); }); }
  Q scale = w.abs();
  if(!x.iszero()) { const Q h = Q::pow10(-(DIG + 10)); Q d = f(x * (Q::I(1) + h)); if(!d.isfinite()) d = f(x * (Q::I(1) - h)); if(d.isfinite()) scale = scale + ((d - w) / h).abs(); }
  if(addscale) scale = scale + addscale->abs();
  return c.check(within(g, w, scale, k), what, [&]{ return diff(g, w) + fmt(" scale 1e%.2f", scale.log10abs()); });
}
// The number as the library holds it.
inline Q held(const e_float& x) { return toQ(x); }
#endif
