// Monitoring framework: deterministic case generation, recording of inputs,
// verdicts, crash/hang attribution and a machine readable summary.
// Every case is a pure function of (seed, family, index).
#ifndef VERIF_MON_H
#define VERIF_MON_H
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

struct Rng
{
  std::uint64_t s;
  explicit Rng(std::uint64_t x = 1) : s(x) { next(); next(); }
  std::uint64_t next() { std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
  long long range(long long a, long long b) { return a + (long long) below((std::uint64_t) (b - a) + 1U); }
  bool chance(unsigned pct) { return below(100) < pct; }
  double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template<class T, std::size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
};

class Case
{
public:
  Rng rng;
  const char* family;
  long idx;
  bool replay = false;
  Case(const char* f, long i, std::uint64_t seed);
  void in (const char* name, const std::string& v);      // record an input
  void in (const char* name, long long v);
  void cls(const std::string& c) { m_cls = c; }          // input class: part of the violation's identity
  void hit(const std::string& label);                    // coverage label
  void trivial() { m_trivial = true; }
  bool check(bool ok, const char* what, const std::string& detail = std::string());
  bool check(bool ok, const char* what, const std::function<std::string()>& detail);
  void log(const std::string& line);                     // event log for an offline checker
  const std::string& cls() const { return m_cls; }
  std::vector<std::pair<std::string, std::string>> inputs;
  bool m_trivial = false; unsigned n_checks = 0; unsigned n_bad = 0;
private:
  std::string m_cls;
};

typedef void (*FamilyFn)(Case&);
struct FamilyReg { FamilyReg(const char* name, long n_quick, FamilyFn f, long n_thorough_factor = 10); };
#define FAMILY(name, n, fn) static FamilyReg reg_##fn(name, n, fn)
#define FAMILYX(name, n, fn, tf) static FamilyReg reg_##fn(name, n, fn, tf)

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
#endif
