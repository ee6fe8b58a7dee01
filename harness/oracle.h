// Independent reference arithmetic for the monitors (GNU MPFR at a precision far
// above the precision of the code under test).  This header exposes no MPFR type,
// because the code under test ships its own (conflicting) MPFR/GMP prototypes.
#ifndef VERIF_ORACLE_H
#define VERIF_ORACLE_H
#include <cstdint>
#include <string>
#include <vector>

class Q
{
public:
  Q();
  Q(const Q&);
  Q& operator=(const Q&);
  ~Q();
  explicit Q(const std::string& s);
  static Q S(const std::string& s) { return Q(s); }
  static Q I(long long n);
  static Q U(unsigned long long n);
  static Q D(double d);
  static Q L(long double d);
  static Q pow10(long e);
  static Q pow2(long e);
  static Q nan();
  static Q inf(bool neg = false);
  static void set_prec(long bits);      // working precision of everything created afterwards
  static long prec();
  static void wide_range();             // exponent range of the calling thread

  bool isnan() const; bool isinf() const; bool isfinite() const; bool iszero() const; bool isint() const;
  int  sgn() const;
  int  cmp(const Q&) const;             // both must not be NaN
  bool operator==(const Q& o) const { return (!isnan()) && (!o.isnan()) && cmp(o) == 0; }
  bool operator< (const Q& o) const { return (!isnan()) && (!o.isnan()) && cmp(o) <  0; }
  bool operator> (const Q& o) const { return (!isnan()) && (!o.isnan()) && cmp(o) >  0; }
  bool operator<=(const Q& o) const { return (!isnan()) && (!o.isnan()) && cmp(o) <= 0; }
  bool operator>=(const Q& o) const { return (!isnan()) && (!o.isnan()) && cmp(o) >= 0; }
  Q operator-() const;
  Q operator+(const Q&) const; Q operator-(const Q&) const; Q operator*(const Q&) const; Q operator/(const Q&) const;
  Q abs() const;
  Q fn(const char* name) const;         // one-argument MPFR function by name
  Q fn(const char* name, const Q& y) const; // two-argument function by name: pow atan2 fmod hypot agm
  Q fn(const char* name, long n) const; // root, pown
  Q floor() const; Q ceil() const; Q trunc() const;
  long exp10() const;                   // floor(log10|x|), exact
  double to_double() const;             // nearest
  long double to_long_double() const;
  double log10abs() const;              // approximate log10|x| (-inf for zero)
  std::string sci(int digits_after_point) const;   // correctly rounded "%.NRNe" of the exact value
  std::string fix(int digits_after_point) const;   // correctly rounded "%.NRNf"
  std::string gen(const char* fmt_flags, int width, int prec, char conv) const; // printf-like
  bool to_ull(unsigned long long& u) const; // exact integer in range
  bool to_sll(long long& n) const;
private:
  alignas(16) unsigned char raw[48];
  struct NoInit {};
  explicit Q(NoInit);
};

inline Q operator*(long long n, const Q& q) { return Q::I(n) * q; }
#endif
