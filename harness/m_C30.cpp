// C30: a failed memory allocation is reported and does no lasting damage.
// Every case forks. One child runs the drawn task with every allocation succeeding and counts the allocations. The others make one of
// them fail (or all from one on, or every m-th) in their first use of the library: the call must end with the exception (the program
// may also end through std::terminate) or give the right result all the same; after that, with memory back, the same task and another
// one must give the right results, objects that took part must take new values, and no memory may have been lost.
#include <exception>
#include <fcntl.h>
#include <new>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include "xtasks.h"
#include <utility/util_dynamic_array.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __lsan_do_recoverable_leak_check();
#endif
namespace fault {
bool armed = false; long seen = 0, at = -1, every = 0, until = -1; long failed = 0;
void* get(std::size_t n)
{
  if(armed) { const long i = seen++; if(at >= 0 && i >= at && (until < 0 || i < until) && (every == 0 ? i == at : (i - at) % every == 0)) { ++failed; throw std::bad_alloc(); } }
  void* p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p;
}
}
void* operator new(std::size_t n) { return fault::get(n); }
void* operator new[](std::size_t n) { return fault::get(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
namespace {
const int NO = 5; const char* const OKIND[NO] = { "one constant", "reuse", "dynamic array", "complex reuse", "containers" };
const int NALL = NK + NX + NO;
const char* oname(int k) { return k < NK + NX ? kname(k) : OKIND[k - NK - NX]; }
// tasks that keep their objects over a failure (stop tells whether one has happened)
std::string runo(const Task& t, bool& failed)
{
  if(t.kind < NK + NX) return runx(t);
  Rng r(t.seed); const e_float x = e_float(r.range(1, 999)) / 7, y = e_float(r.range(1, 999)) / 11; std::string s;
  switch(t.kind - NK - NX)
  {
    case 0: { typedef const e_float& (*fn)(); static const fn f[] = { ef::pi, ef::pi_half, ef::two_pi, ef::sqrt_pi, ef::pi_squared, ef::e, ef::ln2, ef::ln10, ef::sqrt2, ef::phi, ef::euler_gamma, ef::catalan, ef::khinchin, ef::glaisher, ef::half, ef::third, ef::two_third, ef::quarter, ef::eighth, ef::fifth, ef::three_half, ef::tenth, ef::googol, ef::trillion, ef::million, ef::hundred, ef::int64_min, ef::long_double_max, ef::double_min, ef::unsigned_long_long_max, ef::one_minus, ef::two, ef::ten }; const fn g = f[t.seed % (sizeof f / sizeof f[0])]; return txt(g() * 2); }
    case 1:
    {
      std::vector<e_float> v(4, x); const std::uint64_t q = r.next();
      try { Rng p(q); for(int i = 0; i < 12; ++i) { const std::size_t a = p.below(4), b = p.below(4); switch(p.below(9)) { case 0: v[a] = v[b]; break; case 1: v[a] += v[b] * y; break; case 2: v[a] = ef::sqrt(ef::fabs(v[b])); break; case 3: v[a] /= (v[b] * v[b] + 1); break; case 4: std::swap(v[a], v[b]); break; case 5: v[a] = std::move(v[(a + 1) % 4]); v[(a + 1) % 4] = y; break; case 6: v[a] = e_float("12345.678"); break; case 7: v[a] -= 3.25; break; default: v[a] = ef::floor(v[b]) - v[a]; } } }
      catch(const std::bad_alloc&) { failed = true; }
      fault::armed = false;
      for(std::size_t i = 0; i < 4; ++i) { v[i] = x + (int) i; v[i] *= y; s += txt(v[i]); }
      return s;
    }
    case 2:
    {
      using A = util::dynamic_array<e_float>; A a(5, x), b(3, y);
      try { A c(a); c = b; b = A(7, x); A d(c.begin(), c.end()); a.swap(d); a = c; A e{ x, y, x }; b = std::move(e); }
      catch(const std::bad_alloc&) { failed = true; }
      fault::armed = false;
      a = A(2, y); b = a; b[0] = x; for(const e_float& e : a) s += txt(e); for(const e_float& e : b) s += txt(e); return s;
    }
    case 3:
    {
      C a(x, y), b(y, -x);
      try { a *= b; a = ef::exp(b / e_float(100)); b += a; b = ef::sqrt(a); a = C(e_float("3.5"), x) / b; std::swap(a, b); } catch(const std::bad_alloc&) { failed = true; }
      fault::armed = false; a = C(y, x); b = a * C(x, x); return txt(a) + txt(b);
    }
    default:
    {
      std::map<int, e_float> m; std::deque<e_float> d; std::vector<e_float> v;
      try { for(int i = 0; i < 9; ++i) { m[i] = x * i; d.push_front(y + i); v.push_back(x - i); v.insert(v.begin(), m[i]); } std::sort(v.begin(), v.end()); } catch(const std::bad_alloc&) { failed = true; }
      fault::armed = false; m.clear(); d.clear(); v.assign(3, y); v.push_back(x); std::sort(v.begin(), v.end()); for(const e_float& e : v) s += txt(e); return s;
    }
  }
}
struct Plan { Task t, after; long at, every, until; };
std::uint64_t h(const std::string& s) { std::uint64_t v = 1469598103934665603ULL; for(unsigned char ch : s) { v ^= ch; v *= 1099511628211ULL; } return v; }
std::string clip(std::string s) { for(char& ch : s) if(ch == '\n') ch = ' '; return s.size() > 500 ? s.substr(0, 200) + fmt("...%016llx", (unsigned long long) h(s)) : s; }
[[noreturn]] void ended() { const char m[] = "TERMINATED by an exception\n"; (void) !write(2, m, sizeof m - 1); _exit(77); }
// the lines: number of allocations seen; outcome (result/exception); failures; the task again; the other task; leak
bool child(const Plan& q, std::vector<std::string>& out, std::string& err, int& code)
{
  int p[2], e[2]; if(pipe(p) || pipe(e)) { err = "pipe"; code = -1; return false; }
  fflush(nullptr); const pid_t pid = fork(); if(pid < 0) { err = "fork"; code = -1; return false; }
  if(pid == 0)
  {
    close(p[0]); close(e[0]); dup2(e[1], 2); struct rlimit rl = { 60, 70 }; setrlimit(RLIMIT_CPU, &rl); std::set_terminate(ended);
    std::string a, b, d; bool thrown = false;
    {
      fault::seen = 0; fault::failed = 0; fault::at = q.at; fault::every = q.every; fault::until = q.until; fault::armed = true;
      try { a = runo(q.t, thrown); } catch(const std::bad_alloc&) { fault::armed = false; thrown = true; a = "bad_alloc"; } catch(const std::exception& x) { fault::armed = false; thrown = true; a = std::string("other ") + x.what(); }
      fault::armed = false;
    }
    const long seen = fault::seen, failed = fault::failed; bool no = false;
    b = runo(q.t, no); d = runo(q.after, no); int leak = 0;
#if defined(__SANITIZE_ADDRESS__)
    leak = __lsan_do_recoverable_leak_check();
#endif
    std::string all = fmt("%ld\n", seen) + clip(a) + "\n" + fmt("%ld %d\n", failed, (int) thrown) + clip(b) + "\n" + clip(d) + "\n" + fmt("%d\n", leak);
    for(std::size_t o = 0; o < all.size(); ) { const ssize_t n = write(p[1], all.data() + o, all.size() - o); if(n <= 0) _exit(9); o += (std::size_t) n; }
    close(p[1]); _exit(0);
  }
  close(p[1]); close(e[1]); std::string all; char buf[65536]; ssize_t n;
  while((n = read(p[0], buf, sizeof buf)) > 0) all.append(buf, (std::size_t) n);
  while((n = read(e[0], buf, sizeof buf)) > 0) if(err.size() < 40000) err.append(buf, (std::size_t) n);
  int st = 0; waitpid(pid, &st, 0); close(p[0]); close(e[0]);
  std::size_t pos = 0; while(pos < all.size()) { const std::size_t k = all.find('\n', pos); out.push_back(all.substr(pos, k - pos)); pos = k + 1; }
  if(WIFSIGNALED(st)) { code = -WTERMSIG(st); err = fmt("signal %d\n", WTERMSIG(st)) + err; return false; }
  code = WEXITSTATUS(st); if(code) { err = fmt("exit %d\n", code) + err; return false; }
  return out.size() == 6;
}
void fail(Case& c)
{
  Rng& r = c.rng; Plan q{ Task{ (int) (c.idx % NALL), r.next() }, Task{ (int) r.below(NK), r.next() }, -1, 0, -1 };
  if(c.idx % 24 == 0) q.t = Task{ NK + NX, c.idx / 24 };      // every constant, one after the other
  c.cls(oname(q.t.kind)); c.in("call", fmt("%s(%llx)", oname(q.t.kind), (unsigned long long) q.t.seed)); c.in("then", fmt("%s(%llx)", oname(q.after.kind), (unsigned long long) q.after.seed));
  std::vector<std::string> ref; std::string e0; int code = 0;
  if(!child(q, ref, e0, code)) { c.trivial(); c.hit("no answer without a failure"); return; }      // not this property's business
  const long total = std::atol(ref[0].c_str()); if(total <= 0) { c.trivial(); c.hit("no allocation"); c.check(true, "nothing", []{ return std::string(); }); return; }
  const bool sweep = total <= 80 && (q.t.kind == NK + NX || r.chance(20)); if(sweep) c.hit("every allocation");
  for(int k = 0; k < (sweep ? (int) total : 6); ++k)
  {
    if(sweep) { q.at = k; q.every = 0; q.until = -1; }
    else q.at = r.chance(30) ? (long) r.below((std::uint64_t) std::min(total, 40L)) : (long) r.below((std::uint64_t) total); q.every = 0; q.until = -1; const char* how = "one";
    if(!sweep) switch(r.below(5)) { case 0: q.every = 1; how = "all from one on"; break; case 1: q.every = r.range(2, 30); how = "every m-th"; break; case 2: q.every = 1; q.until = q.at + r.range(1, 6); how = "some in a row"; break; default: break; }
    if(!sweep) c.in(fmt("fail%d", k).c_str(), fmt("%s: %ld of %ld (every %ld until %ld)", how, q.at, total, q.every, q.until)); c.hit(how); c.hit(oname(q.t.kind)); const std::string which = sweep ? fmt("allocation %ld of %ld fails; ", q.at, total) : std::string();
    std::vector<std::string> o; std::string e; code = 0; const bool ok = child(q, o, e, code);
    if(!ok && code == 77) { c.hit("ended by terminate"); continue; }
    if(!c.check(ok, "the program goes on", [&]{ return which + e.substr(0, 3000); })) return;
    const bool failed = std::atol(o[2].c_str()) > 0, thrown = o[2].back() == '1';
    if(!failed) { c.hit("not reached"); continue; }
    c.hit(thrown ? "reported" : "worked around");
    if(!c.check(o[1] == "bad_alloc" || o[1] == ref[1], "a failure is reported or has no effect", [&]{ return which + "got " + o[1] + " want " + ref[1]; })) return;
    if(!c.check(o[3] == ref[3], "the same call later", [&]{ return which + "got " + o[3] + " want " + ref[3]; })) return;
    if(!c.check(o[4] == ref[4], "another call later", [&]{ return which + "got " + o[4] + " want " + ref[4]; })) return;
    if(!c.check(o[5] == "0", "no memory is lost", [&]{ return which + e.substr(0, 3000); })) return;
  }
}
}
FAMILY("C30.fail", 480, fail);
