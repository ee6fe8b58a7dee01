// C03: e_float is a regular value type. Random programs over a pool of objects against a shadow model of their values.
#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <utility>
#include "efmon.h"
namespace {
std::string val(const e_float& x) { return x.isnan() ? "nan" : x.isinf() ? (x.isneg() ? "-inf" : "inf") : x.iszero() ? "0" : str(x); }
bool same(const e_float& a, const e_float& b) { return (a.isnan() && b.isnan()) || (!a.isnan() && !b.isnan() && a == b); }
e_float gen_val(Rng& r)
{
  switch(r.below(14)) { case 0: return ef::value_nan(); case 1: return ef::value_inf(); case 2: return -ef::value_inf(); case 3: return ef::zero(); case 4: return e_float((long long) r.range(-5, 5)); case 5: return std::numeric_limits<e_float>::max(); case 6: return e_float(1) / e_float((long long) r.range(3, 99)); default: return e_float(gen_any(r)); }
}
e_float by_value(e_float a) { a *= 3; a += 1; return a; }
e_float pass(e_float a) { return a; }
e_float&& fwd(e_float& a) { return std::move(a); }
struct Holder { e_float a, b; std::array<e_float, 3> c; };

// The shadow of object i is the value text it must have; dead = moved from (only assigned to or destroyed).
void program(Case& c)
{
  Rng& r = c.rng; const int N = 5;
  std::vector<e_float> v; std::vector<e_float> shadow; std::vector<bool> dead(N, false); std::string t;
  // The shadow values live in freshly parsed objects that are never operated on.
  auto snap = [](const e_float& x) { return std::unique_ptr<e_float>(new e_float(x)); };
  std::vector<std::string> sh(N);
  for(int i = 0; i < N; ++i) { v.push_back(gen_val(r)); sh[(std::size_t) i] = val(v.back()); t += sh[(std::size_t) i].substr(0, 40) + " "; }
  c.in("start", t);
  for(int st = 0; st < 30; ++st)
  {
    std::size_t i = r.below(N), j = r.below(N), k = r.below(N); const int op = (int) r.below(22);
    const bool needj = !dead[j], needi = !dead[i], needk = !dead[k];
    if(st < 40) c.in("s", fmt("%d(%d,%d,%d)", op, (int) i, (int) j, (int) k));
    const char* nm = "?";
    switch(op)
    {
      case 0: if(!needj) continue; nm = "copy-assign"; v[i] = v[j]; sh[i] = sh[j]; dead[i] = false; break;
      case 1: if(!needj) continue; nm = "copy-construct"; { e_float x(v[j]); const std::string s = val(x); c.check(s == sh[j], nm, s + " vs " + sh[j]); x += 1; } break;
      case 2: if(!needj || i == j) continue; nm = "move-assign"; v[i] = std::move(v[j]); sh[i] = sh[j]; dead[i] = false; dead[j] = true; break;
      case 3: if(!needj) continue; nm = "move-construct"; { e_float x(std::move(v[j])); dead[j] = true; c.check(val(x) == sh[j], nm, val(x) + " vs " + sh[j]); if(r.chance(70)) { v[j] = std::move(x); dead[j] = false; } } break;
      case 4: if(!needi) continue; nm = "self-assign"; { e_float& ref = v[i]; v[i] = ref; } break;
      case 5: if(!needi) continue; nm = "self-move"; v[i] = fwd(v[i]); break;
      case 6: if(!needi || !needj) continue; nm = "std::swap"; if(i != j) { std::swap(v[i], v[j]); std::swap(sh[i], sh[j]); } break;
      case 7: if(!needi || !needj) continue; nm = "member-swap"; v[i].swap(v[j]); if(i != j) std::swap(sh[i], sh[j]); break;
      case 8: if(!needi || !needj) continue; nm = "operands-unchanged"; { const e_float s = v[i] + v[j], d = v[i] - v[j], p = v[i] * v[j], q = v[i] / v[j]; const bool b = v[i] < v[j]; (void) b; c.check(!s.isfinite() || !v[i].isnan(), nm); } break;
      case 9: if(!needi || !needj || !needk) continue; nm = "assign-expression"; { const e_float w = v[j] * v[k] - v[i]; v[i] = v[j] * v[k] - v[i]; sh[i] = val(w); } break;
      case 10: if(!needi || !needj) continue; nm = "compound"; { e_float a(v[i]), w(0); const int o = (int) r.below(4); const e_float b(v[j]); switch(o) { case 0: w = a + b; v[i] += v[j]; break; case 1: w = a - b; v[i] -= v[j]; break; case 2: w = a * b; v[i] *= v[j]; break; default: w = a / b; v[i] /= v[j]; } sh[i] = val(w); if(i == j) c.hit("aliased compound"); } break;
      case 11: if(!needi) continue; nm = "pre-increment"; { const e_float w = v[i] + 1; e_float& ref = ++v[i]; c.check(&ref == &v[i], "pre-increment-reference"); sh[i] = val(w); } break;
      case 12: if(!needi) continue; nm = "pre-decrement"; { const e_float w = v[i] - 1; e_float& ref = --v[i]; c.check(&ref == &v[i], "pre-decrement-reference"); sh[i] = val(w); } break;
      case 13: if(!needi) continue; nm = "post-increment"; { const e_float w = v[i] + 1; const e_float o = v[i]++; c.check(val(o) == sh[i], "post-increment-old", val(o) + " vs " + sh[i]); sh[i] = val(w); } break;
      case 14: if(!needi) continue; nm = "post-decrement"; { const e_float w = v[i] - 1; const e_float o = v[i]--; c.check(val(o) == sh[i], "post-decrement-old", val(o) + " vs " + sh[i]); sh[i] = val(w); } break;
      case 15: if(!needj) continue; nm = "by-value"; { const e_float w = v[j] * 3 + 1; const e_float x = by_value(v[j]); c.check(same(x, w), nm, val(x) + " vs " + val(w)); const e_float y = pass(pass(v[j])); c.check(val(y) == sh[j], nm); } break;
      case 16: nm = "assign-builtin"; { const long long n = r.range(-1000000, 1000000); v[i] = e_float(n); dead[i] = false; sh[i] = val(e_float(std::to_string(n))); } break;
      case 17: if(!needi) continue; nm = "chained"; if(i != j && j != k && i != k && needj) { v[k] = v[j] = v[i]; sh[k] = sh[j] = sh[i]; dead[k] = false; } break;
      case 18: if(!needi) continue; nm = "aggregate"; { Holder h; c.check(h.a.iszero() && h.c[2].iszero(), "default-is-zero", val(h.a)); h.a = v[i]; h.c[1] = v[i]; Holder h2 = h; Holder h3; h3 = std::move(h); h2.a += 1; c.check(val(h3.a) == sh[i] && val(h3.c[1]) == sh[i] && h3.b.iszero(), nm); } break;
      case 19: if(!needi) continue; nm = "negate"; { const e_float w = -v[i]; c.check(!w.isfinite() || (w + v[i]).iszero(), "x + -x", val(w)); v[i].negate(); v[i].negate(); } break;
      case 20: if(!needj) continue; nm = "unary functions leave the argument"; { const e_float a = ef::fabs(v[j]), b = ef::inv(v[j]), d = ef::floor(v[j]), e = v[j].extract_integer_part(); (void) a; (void) b; (void) d; (void) e; std::ostringstream os; os << v[j]; (void) v[j].isone(); (void) v[j].isint(); (void) v[j].order(); } break;
      default: nm = "constants"; { const e_float& o = ef::one(); const e_float& p = ef::pi(); e_float z(o); z += p; z *= 0; e_float y = ef::two(); y -= 2; c.check(ef::one() == 1 && ef::two() == 2 && ef::zero().iszero() && ef::half() * 2 == 1 && ef::ten() == 10 && ef::pi() > 3 && ef::pi() < 4, nm); } break;
    }
    // Every live object still has its model value (all of them: aliasing would show on another object).
    for(int n = 0; n < N; ++n) if(!dead[(std::size_t) n]) if(!c.check(val(v[(std::size_t) n]) == sh[(std::size_t) n], nm, [&]{ return fmt("object %d after %s(%d,%d,%d): ", n, nm, (int) i, (int) j, (int) k) + val(v[(std::size_t) n]) + " vs " + sh[(std::size_t) n]; })) return;
    c.hit(nm);
  }
}
// standard containers and algorithms over e_float
void containers(Case& c)
{
  Rng& r = c.rng; const std::size_t n = (std::size_t) r.range(1, 40); std::vector<e_float> v; std::vector<Q> q; c.in("n", (long long) n);
  for(std::size_t i = 0; i < n; ++i) { const std::string s = r.chance(15) && i ? qs(q[r.below(i)]) : gen_dec(r, -3, 3, true, 12); const e_float x(s); v.push_back(x); q.push_back(toQ(x)); c.in("v", s.substr(0, 30)); }
  auto eq = [&](const char* what) { if(v.size() != q.size()) return c.check(false, what, "size"); for(std::size_t i = 0; i < v.size(); ++i) if(!(toQ(v[i]) == q[i])) return c.check(false, what, fmt("index %d ", (int) i) + diff(toQ(v[i]), q[i])); return c.check(true, what); };
  eq("push_back");
  auto ql = [](const Q& a, const Q& b) { return a < b; };
  { std::vector<e_float> w(v); std::vector<Q> p(q); std::sort(w.begin(), w.end()); std::sort(p.begin(), p.end(), ql); bool ok = true; for(std::size_t i = 0; i < n; ++i) ok = ok && toQ(w[i]) == p[i]; c.check(ok, "sort"); 
    const std::size_t k = r.below(n); c.check(std::binary_search(w.begin(), w.end(), v[k]), "binary_search"); }
  { const std::size_t k = r.below(n); std::rotate(v.begin(), v.begin() + (long) k, v.end()); std::rotate(q.begin(), q.begin() + (long) k, q.end()); eq("rotate"); }
  { const std::size_t k = r.below(n); v.erase(v.begin() + (long) k); q.erase(q.begin() + (long) k); eq("erase"); }
  { const std::size_t k = r.below(v.size() + 1); const e_float x("-1.25"); v.insert(v.begin() + (long) k, x); q.insert(q.begin() + (long) k, Qs("-1.25")); eq("insert"); }
  { std::reverse(v.begin(), v.end()); std::reverse(q.begin(), q.end()); eq("reverse"); }
  { v.resize(v.size() + 3); for(int i = 0; i < 3; ++i) q.push_back(Q::I(0)); eq("resize"); v.shrink_to_fit(); eq("shrink"); }
  { std::map<e_float, int> m; std::map<std::string, int> ref; for(std::size_t i = 0; i < v.size(); ++i) { m[v[i]] += (int) i; ref[qs(q[i])] += (int) i; } bool ok = m.size() == ref.size(); for(auto& p : m) ok = ok && ref.count(qs(toQ(p.first))) && ref[qs(toQ(p.first))] == p.second; c.check(ok, "map"); }
  { std::vector<e_float> a(3, e_float(7)), b; b = a; a[0] = 1; c.check(b[0] == 7 && a[1] == 7, "vector copy"); b = std::move(a); c.check(b.size() == 3 && b[0] == 1, "vector move"); a = b; c.check(a.size() == 3 && a[2] == 7, "vector reuse after move"); }
}
}
FAMILY("C03.program", 4000, program);
FAMILY("C03.containers", 1200, containers);
