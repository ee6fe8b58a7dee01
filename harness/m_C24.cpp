// C24: threads that use their own numbers do not disturb each other, from the very first use of the library in the process.
// Every case forks: one child runs the drawn tasks on several threads released by a barrier (each process sees its own first use of
// every table and constant), another child runs the same tasks one after the other. The printed results must be the same text, and
// the run with ThreadSanitizer must report no race.
#include <atomic>
#include <fcntl.h>
#include <memory>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "tasks.h"
namespace {
std::uint64_t h(const std::string& s) { std::uint64_t v = 1469598103934665603ULL; for(unsigned char ch : s) { v ^= ch; v *= 1099511628211ULL; } return v; }
// forks, runs the plan on threads (or in sequence), returns one line per task; empty on a crash, with the child's stderr in err
bool child(const std::vector<std::vector<Task>>& plan, bool parallel, bool first_together, std::vector<std::string>& out, std::string& err)
{
  int p[2], e[2]; if(pipe(p) || pipe(e)) { err = "pipe"; return false; }
  fflush(nullptr); const pid_t pid = fork(); if(pid < 0) { err = "fork"; return false; }
  if(pid == 0)
  {
    close(p[0]); close(e[0]); dup2(e[1], 2); const std::size_t K = plan.size(); std::vector<std::vector<std::string>> res(K);
    auto body = [&](std::size_t k) { for(const Task& t : plan[k]) { const std::string s = run(t); res[k].push_back(s.size() > 300 ? s.substr(0, 40) + fmt("...%016llx", (unsigned long long) h(s)) : s); } };
    if(!parallel) for(std::size_t k = 0; k < K; ++k) body(k);
    else
    {
      std::atomic<std::size_t> ready(0); std::atomic<bool> go(false); std::vector<std::thread> th;
      for(std::size_t k = 0; k < K; ++k) th.emplace_back([&, k] { ready.fetch_add(1, std::memory_order_relaxed); if(first_together) while(!go.load(std::memory_order_relaxed)) { } body(k); });
      while(ready.load(std::memory_order_relaxed) < K) { std::this_thread::yield(); }
      go.store(true, std::memory_order_relaxed); for(auto& t : th) t.join();
    }
    std::string all; for(auto& v : res) for(auto& s : v) { for(char& ch : all) (void) ch; all += s; all += '\n'; }
    for(std::size_t o = 0; o < all.size(); ) { const ssize_t n = write(p[1], all.data() + o, all.size() - o); if(n <= 0) _exit(9); o += (std::size_t) n; }
    close(p[1]); _exit(0);
  }
  close(p[1]); close(e[1]); std::string all; char buf[65536]; ssize_t n; fcntl(e[0], F_SETFL, O_NONBLOCK);
  auto drain = [&] { ssize_t m; while((m = read(e[0], buf, sizeof buf)) > 0) err.append(buf, (std::size_t) m); };
  while((n = read(p[0], buf, sizeof buf)) > 0) { all.append(buf, (std::size_t) n); }
  int st = 0; while(waitpid(pid, &st, WNOHANG) == 0) { drain(); usleep(500); } drain(); close(p[0]); close(e[0]);
  std::size_t pos = 0; while(pos < all.size()) { const std::size_t q = all.find('\n', pos); out.push_back(all.substr(pos, q - pos)); pos = q + 1; }
  if(WIFSIGNALED(st)) { err = fmt("signal %d\n", WTERMSIG(st)) + err; return false; }
  if(WEXITSTATUS(st)) { err = fmt("exit %d\n", WEXITSTATUS(st)) + err; return false; }
  return true;
}
std::string race(const std::string& e)
{
  std::size_t p = e.find("SUMMARY: "); if(p == std::string::npos) return e.substr(0, 300); const std::size_t q = e.find('\n', p); std::string s = e.substr(p, q - p); const std::size_t in = s.find(" in "); return in == std::string::npos ? s : s.substr(0, s.find(": ", 9) + 2) + s.substr(s.find("data race") != std::string::npos ? s.find("data race") : 9, 9) + s.substr(in);
}
void judge(Case& c, const std::vector<std::vector<Task>>& plan, bool together)
{
  for(std::size_t k = 0; k < plan.size(); ++k) { std::string s; for(const Task& t : plan[k]) { s += KIND[t.kind]; s += fmt("(%llx) ", (unsigned long long) (t.seed & 0xffff)); c.hit(KIND[t.kind]); } c.in(fmt("thread%d", (int) k).c_str(), s); }
  std::vector<std::string> seq, par; std::string es, ep;
  if(!c.check(child(plan, false, false, seq, es), "sequential run", [&]{ return es.substr(0, 2000); })) return;
  const bool ok = child(plan, true, together, par, ep);
  if(ep.find("ThreadSanitizer") != std::string::npos) { c.check(false, ("race " + race(ep)).substr(0, 300).c_str(), [&]{ return ep.substr(0, 4000); }); return; }
  if(!c.check(ok, "parallel run ends normally", [&]{ return ep.substr(0, 2000); })) return;
  std::size_t n = 0; for(std::size_t k = 0; k < plan.size(); ++k) for(std::size_t i = 0; i < plan[k].size(); ++i, ++n)
    if(!c.check(n < par.size() && n < seq.size() && par[n] == seq[n], (std::string("result of ") + KIND[plan[k][i].kind]).c_str(), [&]{ return "parallel " + (n < par.size() ? par[n] : "?") + " sequential " + (n < seq.size() ? seq[n] : "?"); })) return;
}
// different work on every thread
void mix(Case& c)
{
  Rng& r = c.rng; const std::size_t K = (std::size_t) r.range(2, 8); std::vector<std::vector<Task>> plan(K); for(auto& v : plan) { const int n = (int) r.range(1, BIG ? 4 : 10); for(int i = 0; i < n; ++i) v.push_back(Task{ (int) r.below(NK), r.next() }); }
  c.cls("mix"); judge(c, plan, r.chance(80));
}
// the first use of one facility on all threads at the same moment
void first(Case& c)
{
  Rng& r = c.rng; const std::size_t K = (std::size_t) r.range(2, 8); const int kind = (int) (c.idx / 8 % NK); const bool same = r.chance(50); const std::uint64_t s = r.next(); std::vector<std::vector<Task>> plan(K); for(auto& v : plan) { v.push_back(Task{ kind, same ? s : r.next() }); v.push_back(Task{ (int) r.below(NK), r.next() }); }
  c.cls("first use"); judge(c, plan, true);
}
}
FAMILY("C24.mix", 400, mix);
FAMILY("C24.first", 704, first);
