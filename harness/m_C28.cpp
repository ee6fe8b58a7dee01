// C28: what the library computes, reads and writes does not depend on the locale the program has chosen.
// Every case forks: one child runs the drawn tasks in the classic locale, another one runs the same tasks with a hostile locale chosen
// before the first use of the library, or in the middle, or changed between the tasks (each process meets its own first use of every
// constant and table). The printed results must be the same text.
#include <clocale>
#include <fcntl.h>
#include <locale>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "xtasks.h"
namespace {

struct Punct : std::numpunct<char>
{
  char p, s; std::string g, yes;
  Punct(char pp, char ss, const char* gg) : p(pp), s(ss), g(gg), yes("ja") { }
  char do_decimal_point() const override { return p; }
  char do_thousands_sep() const override { return s; }
  std::string do_grouping() const override { return g; }
  std::string do_truename() const override { return yes; }
};
const int NF = 6, NN = 8;
const char* const FNAME[NF] = { "facet comma and points by three", "facet groups of one", "facet comma only", "facet spaces by three and two", "facet minus as separator", "facet point and commas by three" };
const char* const NAMED[NN] = { "de_DE.UTF-8", "en_US.UTF-8", "hi_IN.UTF-8", "fr_FR.UTF-8", "de_CH.UTF-8", "tr_TR.UTF-8", "fa_IR.UTF-8", "ar_SA.UTF-8" };
std::locale facet(int i)
{
  const std::locale& c = std::locale::classic();
  switch(i) { case 0: return std::locale(c, new Punct(',', '.', "\3")); case 1: return std::locale(c, new Punct('.', ',', "\1")); case 2: return std::locale(c, new Punct(',', '.', "")); case 3: return std::locale(c, new Punct(',', ' ', "\3\2")); case 4: return std::locale(c, new Punct('.', '-', "\2")); default: return std::locale(c, new Punct('.', ',', "\3")); }
}
// 0: classic; 1..NF: a C++ locale with such a facet; then: both by the name; then: the C locale only; then: this thread's C locale only
const int NL = NF + 3 * NN;
bool named_ok(int n) { static int ok[NN]; if(!ok[n]) { locale_t l = newlocale(LC_ALL_MASK, NAMED[n], (locale_t) 0); ok[n] = l ? 1 : -1; if(l) freelocale(l); } return ok[n] > 0; }
std::string lname(int l) { if(!l) return "classic"; --l; if(l < NF) return FNAME[l]; l -= NF; return std::string(NAMED[l % NN]) + (l < NN ? " (C and C++)" : l < 2 * NN ? " (setlocale)" : " (uselocale)"); }
void set(int l)
{
  uselocale(LC_GLOBAL_LOCALE);
  if(!l) { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); return; }
  --l; if(l < NF) { std::locale::global(facet(l)); return; }
  l -= NF; const char* const n = NAMED[l % NN];
  if(l < NN) { try { std::locale::global(std::locale(n)); } catch(...) { _exit(7); } }
  else if(l < 2 * NN) { if(!setlocale(LC_ALL, n)) _exit(7); }
  else { locale_t x = newlocale(LC_ALL_MASK, n, (locale_t) 0); if(!x) _exit(7); uselocale(x); }
}
std::uint64_t h(const std::string& s) { std::uint64_t v = 1469598103934665603ULL; for(unsigned char ch : s) { v ^= ch; v *= 1099511628211ULL; } return v; }
bool child(const std::vector<Task>& plan, const std::vector<int>& loc, std::vector<std::string>& out, std::string& err)
{
  int p[2], e[2]; if(pipe(p) || pipe(e)) { err = "pipe"; return false; }
  fflush(nullptr); const pid_t pid = fork(); if(pid < 0) { err = "fork"; return false; }
  if(pid == 0)
  {
    close(p[0]); close(e[0]); dup2(e[1], 2); std::string all; int cur = 0; struct rlimit rl = { 20, 30 }; setrlimit(RLIMIT_CPU, &rl);
    for(std::size_t i = 0; i < plan.size(); ++i)
    {
      if(loc[i] != cur) { set(loc[i]); cur = loc[i]; }
      std::string s; try { s = runx(plan[i]); } catch(const std::exception& x) { s = std::string("exception ") + x.what(); }
      for(char& ch : s) if(ch == '\n') ch = ' ';
      all += (s.size() > 700 ? s.substr(0, 300) + fmt("...%016llx", (unsigned long long) h(s)) : s) + "\n";
    }
    for(std::size_t o = 0; o < all.size(); ) { const ssize_t n = write(p[1], all.data() + o, all.size() - o); if(n <= 0) _exit(9); o += (std::size_t) n; }
    close(p[1]); _exit(0);
  }
  close(p[1]); close(e[1]); std::string all; char buf[65536]; ssize_t n; fcntl(e[0], F_SETFL, O_NONBLOCK);
  while((n = read(p[0], buf, sizeof buf)) > 0) all.append(buf, (std::size_t) n);
  int st = 0; waitpid(pid, &st, 0); while((n = read(e[0], buf, sizeof buf)) > 0) err.append(buf, (std::size_t) n);
  close(p[0]); close(e[0]);
  std::size_t pos = 0; while(pos < all.size()) { const std::size_t q = all.find('\n', pos); out.push_back(all.substr(pos, q - pos)); pos = q + 1; }
  if(WIFSIGNALED(st)) { err = fmt("signal %d\n", WTERMSIG(st)) + err; return false; }
  if(WEXITSTATUS(st)) { err = fmt("exit %d\n", WEXITSTATUS(st)) + err; return false; }
  return true;
}
int draw(Rng& r) { for(int k = 0; k < 20; ++k) { const int l = 1 + (int) r.below(NL); if(l <= NF || named_ok((l - 1 - NF) % NN)) return l; } return 1 + (int) r.below(NF); }
void judge(Case& c, const std::vector<Task>& plan, const std::vector<int>& loc)
{
  std::string s; for(std::size_t i = 0; i < plan.size(); ++i) { if(i == 0 || loc[i] != loc[i - 1]) { s += "[" + lname(loc[i]) + "] "; c.hit(lname(loc[i])); } s += kname(plan[i].kind); s += fmt("(%llx) ", (unsigned long long) plan[i].seed); c.hit(kname(plan[i].kind)); }
  c.in("plan", s); std::vector<std::string> a, b; std::string ea, eb;
  if(!child(plan, std::vector<int>(plan.size(), 0), a, ea)) { c.trivial(); c.hit("no answer in the classic locale"); return; }      // not this property's business
  if(!c.check(child(plan, loc, b, eb), "run in the chosen locale ends normally", [&]{ return eb.substr(0, 2000); })) return;
  for(std::size_t i = 0; i < plan.size(); ++i) if(!c.check(i < a.size() && i < b.size() && a[i] == b[i], (std::string("result of ") + kname(plan[i].kind)).c_str(), [&]{ return "classic " + (i < a.size() ? a[i] : "?") + " in " + lname(loc[i]) + " " + (i < b.size() ? b[i] : "?"); })) return;
}
// one locale from the start: every kind of call meets it at its first use
void first(Case& c)
{
  Rng& r = c.rng; std::vector<Task> plan; plan.push_back(Task{ (int) (c.idx % (NK + NX)), r.next() }); const int n = (int) r.below(3); for(int i = 0; i < n; ++i) plan.push_back(Task{ (int) r.below(NK + NX), r.next() });
  c.cls("from the start"); judge(c, plan, std::vector<int>(plan.size(), draw(r)));
}
// the locale is chosen late, or changed, while the library is in use
void change(Case& c)
{
  Rng& r = c.rng; std::vector<Task> plan; std::vector<int> loc; const int n = (int) r.range(3, 12); int cur = 0; for(int i = 0; i < n; ++i) { if(r.chance(40)) cur = r.chance(20) ? 0 : draw(r); plan.push_back(Task{ r.chance(50) ? (int) r.below(NK + NX) : NK + (int) r.below(NX), r.next() }); loc.push_back(cur); }
  c.cls("changed"); judge(c, plan, loc);
}
}
FAMILY("C28.first", 560, first);
FAMILY("C28.change", 600, change);
