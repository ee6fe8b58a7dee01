// C29: the library may be used from the first constructor before main to the last destructor after main.
// Every case runs this program again with a drawn plan in its environment: a static object that is constructed before every object of
// the library runs the plan in its constructor and once more in its destructor, after main has ended. Both must give the text that the
// same plan gives in the middle of a process.
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "tasks.h"
extern char** environ;
namespace {
std::string line(const Task& t) { std::string s; try { s = run(t); } catch(const std::exception& x) { s = std::string("exception ") + x.what(); } for(char& ch : s) if(ch == '\n') ch = ' '; std::uint64_t v = 1469598103934665603ULL; for(unsigned char ch : s) { v ^= ch; v *= 1099511628211ULL; } return s.size() > 700 ? s.substr(0, 300) + fmt("...%016llx", (unsigned long long) v) : s; }
void put(int fd, const std::string& s) { for(std::size_t o = 0; o < s.size(); ) { const ssize_t n = write(fd, s.data() + o, s.size() - o); if(n <= 0) _exit(9); o += (std::size_t) n; } }
struct Life
{
  std::ios_base::Init io; const char* plan; int fd;
  void all(const char* when) const
  {
    const char* p = plan; int k = 0; unsigned long long s = 0; int used = 0;
    while(std::sscanf(p, "%d:%llx;%n", &k, &s, &used) == 2) { p += used; put(fd, std::string(when) + line(Task{ k, s }) + "\n"); }
  }
  Life() : plan(std::getenv("VERIF_C29_PLAN")), fd(-1) { if(plan) { struct rlimit rl = { 60, 70 }; setrlimit(RLIMIT_CPU, &rl); fd = std::atoi(std::getenv("VERIF_C29_FD")); if(std::getenv("VERIF_C29_EARLY")) all("E"); } }
  ~Life() { if(plan && std::getenv("VERIF_C29_LATE")) all("L"); }
};
__attribute__((init_priority(101))) Life life;
bool collect(pid_t pid, int po, int pe, std::vector<std::string>& out, std::string& err)
{
  std::string all; char buf[65536]; ssize_t n; while((n = read(po, buf, sizeof buf)) > 0) all.append(buf, (std::size_t) n);
  while((n = read(pe, buf, sizeof buf)) > 0) if(err.size() < 20000) err.append(buf, (std::size_t) n);
  int st = 0; waitpid(pid, &st, 0); close(po); close(pe);
  std::size_t pos = 0; while(pos < all.size()) { const std::size_t q = all.find('\n', pos); out.push_back(all.substr(pos, q - pos)); pos = q + 1; }
  if(WIFSIGNALED(st)) { err = fmt("signal %d\n", WTERMSIG(st)) + err; return false; }
  if(WEXITSTATUS(st)) { err = fmt("exit %d\n", WEXITSTATUS(st)) + err; return false; }
  return true;
}
// with: run again with the plan before and after main; otherwise: a copy of this process runs it now
bool child(const std::vector<Task>& plan, bool again, bool early, bool late, std::vector<std::string>& out, std::string& err)
{
  std::string p; for(const Task& t : plan) p += fmt("%d:%llx;", t.kind, (unsigned long long) t.seed);
  int po[2], pe[2]; if(pipe(po) || pipe(pe)) { err = "pipe"; return false; }
  std::vector<std::string> env; for(char** e = environ; *e; ++e) env.push_back(*e);
  env.push_back("VERIF_C29_PLAN=" + p); env.push_back(fmt("VERIF_C29_FD=%d", po[1])); if(early) env.push_back("VERIF_C29_EARLY=1"); if(late) env.push_back("VERIF_C29_LATE=1");
  std::vector<char*> ev; for(std::string& s : env) ev.push_back(&s[0]); ev.push_back(nullptr);
  char a0[] = "m", a1[] = "--replay", a2[] = "C29.nothing", a3[] = "0"; char* av[] = { a0, a1, a2, a3, nullptr };
  fflush(nullptr); const pid_t pid = fork(); if(pid < 0) { err = "fork"; return false; }
  if(pid == 0)
  {
    close(po[0]); close(pe[0]); dup2(pe[1], 2);
    if(again) { const int z = open("/dev/null", O_WRONLY); dup2(z, 1); execve("/proc/self/exe", av, ev.data()); _exit(8); }
    struct rlimit rl = { 30, 40 }; setrlimit(RLIMIT_CPU, &rl);
    for(const Task& t : plan) put(po[1], "M" + line(t) + "\n");
    _exit(0);
  }
  close(po[1]); close(pe[1]); return collect(pid, po[0], pe[0], out, err);
}
void judge(Case& c, const std::vector<Task>& plan, bool early, bool late)
{
  std::string s; for(const Task& t : plan) { s += KIND[t.kind]; s += fmt("(%llx) ", (unsigned long long) t.seed); c.hit(KIND[t.kind]); } c.in("plan", s); c.in("when", std::string(early ? "before main " : "") + (late ? "after main" : ""));
  std::vector<std::string> m, a; std::string em, ea;
  if(!child(plan, false, false, false, m, em)) { c.trivial(); c.hit("no answer in main"); return; }      // not this property's business
  if(!c.check(child(plan, true, early, late, a, ea), "the program ends normally", [&]{ return ea.substr(0, 4000); })) return;
  const std::size_t n = plan.size(); std::size_t at = 0;
  for(int w = 0; w < 2; ++w) if(w ? late : early)
    for(std::size_t i = 0; i < n; ++i, ++at)
      if(!c.check(at < a.size() && i < m.size() && a[at].substr(1) == m[i].substr(1) && a[at][0] == (w ? 'L' : 'E'), (std::string(w ? "after main: " : "before main: ") + KIND[plan[i].kind]).c_str(), [&]{ return (at < a.size() ? a[at] : "?") + " in main " + (i < m.size() ? m[i] : "?"); })) return;
}
void before(Case& c) { Rng& r = c.rng; std::vector<Task> plan; plan.push_back(Task{ (int) (c.idx % NK), r.next() }); const int n = (int) r.below(4); for(int i = 0; i < n; ++i) plan.push_back(Task{ (int) r.below(NK), r.next() }); c.cls("before"); judge(c, plan, true, false); }
void both(Case& c) { Rng& r = c.rng; std::vector<Task> plan; plan.push_back(Task{ (int) (c.idx % NK), r.next() }); const int n = (int) r.below(5); for(int i = 0; i < n; ++i) plan.push_back(Task{ (int) r.below(NK), r.next() }); c.cls("before and after"); judge(c, plan, true, true); }
void nothing(Case& c) { c.trivial(); c.check(true, "nothing", []{ return std::string(); }); }
}
FAMILY("C29.before", 440, before);
FAMILY("C29.both", 440, both);
FAMILY("C29.nothing", 1, nothing);
