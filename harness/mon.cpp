#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include "mon.h"

std::string fmt(const char* f, ...)
{
  char buf[4096]; va_list ap; va_start(ap, f); std::vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}

namespace {
struct Fam { const char* name; long n; FamilyFn f; long tf; };
std::vector<Fam>& fams() { static std::vector<Fam> v; return v; }
struct Viol { std::string key, detail, inputs; long idx; long count; };
std::map<std::string, Viol> g_viol;                    // by family/cls/what
std::map<std::string, long> g_hits;
std::unordered_set<std::uint64_t> g_seen;
std::map<std::string, std::pair<long,long>> g_famcount; // cases, checks
long g_cases = 0, g_checks = 0, g_nontrivial = 0;
std::vector<std::string> g_samples;
FILE* g_log = nullptr;
FILE* g_vf = nullptr;                                   // violations, written as they happen (survives a later crash)
bool g_replay = false;
char* g_prog = nullptr; const std::size_t PROG = 65536;   // shared progress record
long g_cpu_limit = 20;
// The progress record starts "family\tindex\tclass\tinputs"; it survives a crash of this process.
void progress(const Case* c)
{
  if(!g_prog) return;
  if(!c) { g_prog[0] = 0; return; }
  std::size_t n = (std::size_t) std::snprintf(g_prog, PROG, "%s\t%ld\t%s\t", c->family, c->idx, c->cls().c_str());
  for(const auto& p : c->inputs) { if(n + 8 < PROG) n += (std::size_t) std::snprintf(g_prog + n, PROG - n - 1, "%s=%.3000s; ", p.first.c_str(), p.second.c_str()); if(n >= PROG) n = PROG - 1; }
}
void arm(long s) { struct itimerval t; t.it_interval.tv_sec = 0; t.it_interval.tv_usec = 0; t.it_value.tv_sec = s; t.it_value.tv_usec = 0; setitimer(ITIMER_PROF, &t, nullptr); }
void on_prof(int) { static const char m[] = "MON: cpu limit\n"; if(write(2, m, sizeof m - 1)) {} _exit(97); }
std::string esc(const std::string& s)
{
  std::string r; for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if(c == '\n') r += "\\n"; else if(c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char) c; } return r;
}
std::uint64_t hstr(const std::string& s, std::uint64_t h = 1469598103934665603ULL) { for(unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
std::string inputs_of(const Case& c) { std::string r; for(const auto& p : c.inputs) { r += p.first + "=" + p.second + "; "; } return r; }
void violate(const Case& c, const char* what, const std::string& detail)
{
  std::string key = std::string(c.family) + "/" + (c.cls().empty() ? "-" : c.cls()) + "/" + what;
  auto it = g_viol.find(key);
  if(it == g_viol.end()) {
    if(g_viol.size() < 400)
    {
      g_viol[key] = Viol{key, detail, inputs_of(c), c.idx, 1};
      if(g_vf) { std::fprintf(g_vf, "{\"key\":\"%s\",\"idx\":%ld,\"inputs\":\"%s\",\"detail\":\"%s\"}\n", esc(key).c_str(), c.idx, esc(inputs_of(c).substr(0, 6000)).c_str(), esc(detail.substr(0, 3000)).c_str()); std::fflush(g_vf); }
    }
  }
  else ++it->second.count;
  if(g_replay) std::printf("VIOLATED %s\n  inputs: %s\n  detail: %s\n", key.c_str(), inputs_of(c).c_str(), detail.c_str());
}
}

FamilyReg::FamilyReg(const char* name, long n, FamilyFn f, long tf) { fams().push_back(Fam{name, n, f, tf}); }
Case::Case(const char* f, long i, std::uint64_t seed) : rng(hstr(f) ^ (seed * 0x9E3779B97F4A7C15ULL) ^ ((std::uint64_t) i * 0xD1B54A32D192ED03ULL)), family(f), idx(i) {}
void Case::in(const char* n, const std::string& v) { inputs.emplace_back(n, v); progress(this); }
void Case::in(const char* n, long long v) { in(n, std::to_string(v)); }
void Case::hit(const std::string& l) { ++g_hits[std::string(family) + ":" + l]; }
bool Case::check(bool ok, const char* what, const std::string& d) { ++n_checks; if(!ok) { ++n_bad; violate(*this, what, d); } return ok; }
bool Case::check(bool ok, const char* what, const std::function<std::string()>& d) { ++n_checks; if(!ok) { ++n_bad; violate(*this, what, d()); } return ok; }
void Case::log(const std::string& line) { if(g_log) std::fprintf(g_log, "%s\t%ld\t%s\t%s\n", family, idx, m_cls.c_str(), line.c_str()); }

static void run_case(const Fam& f, long i, std::uint64_t seed)
{
  Case c(f.name, i, seed); c.replay = g_replay;
  progress(&c);
  arm(g_cpu_limit);
  try { f.f(c); }
  catch(const std::exception& e) { c.check(false, "exception", std::string(typeid(e).name()) + ": " + e.what()); }
  catch(...) { c.check(false, "exception", "unknown"); }
  arm(0);
  ++g_cases; g_checks += c.n_checks;
  auto& fc = g_famcount[f.name]; ++fc.first; fc.second += c.n_checks;
  if(!c.m_trivial && c.n_checks) { ++g_nontrivial; g_seen.insert(hstr(inputs_of(c), hstr(f.name))); }
  if(c.n_checks && !c.cls().empty()) c.hit(c.cls());
  if(fc.first <= 2) g_samples.push_back(std::string(f.name) + "[" + std::to_string(i) + "]: " + inputs_of(c).substr(0, 400));
}

int main(int argc, char** argv)
{
  std::uint64_t seed = 1; double scale = 1; long shard = 0, shards = 1; std::string out, prog, only, after, logf, hashes; long after_idx = -1; bool thorough = false; long replay_idx = -1; std::time_t until = 0;
  for(int i = 1; i < argc; ++i)
  {
    std::string a = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if(a == "--seed") seed = std::strtoull(v().c_str(), nullptr, 10);
    else if(a == "--scale") scale = std::atof(v().c_str());
    else if(a == "--until") until = (std::time_t) std::atoll(v().c_str());
    else if(a == "--thorough") thorough = true;
    else if(a == "--shard") { std::string s = v(); std::sscanf(s.c_str(), "%ld/%ld", &shard, &shards); }
    else if(a == "--out") out = v();
    else if(a == "--hashes") hashes = v();
    else if(a == "--progress") prog = v();
    else if(a == "--log") logf = v();
    else if(a == "--only") only = v();
    else if(a == "--cpu") g_cpu_limit = std::atol(v().c_str());
    else if(a == "--after") { after = v(); after_idx = std::atol(v().c_str()); }
    else if(a == "--replay") { only = v(); replay_idx = std::atol(v().c_str()); g_replay = true; }
    else if(a == "--list") { for(auto& f : fams()) std::printf("%s %ld\n", f.name, f.n); return 0; }
    else { std::fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
  }
  std::sort(fams().begin(), fams().end(), [](const Fam& a, const Fam& b) { return std::strcmp(a.name, b.name) < 0; });
  if(!prog.empty())
  {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if(fd < 0 || ftruncate(fd, (off_t) PROG) != 0) { std::perror("progress"); return 3; }
    g_prog = (char*) mmap(nullptr, PROG, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    if(g_prog == MAP_FAILED) { std::perror("mmap"); return 3; }
  }
  if(!out.empty()) g_vf = std::fopen((out + ".v").c_str(), "a");
  if(!logf.empty()) g_log = std::fopen(logf.c_str(), "a");
  std::signal(SIGPROF, on_prof);
  // The families take turns, so that a run cut short by the clock has still observed all of them.
  bool skipping = !after.empty(), stopped = false; const long ROUNDS = 12;
  for(long round = 0; round < ROUNDS && !stopped; ++round) for(const auto& f : fams())
  {
    if(!only.empty() && ("," + only + ",").find("," + std::string(f.name) + ",") == std::string::npos) continue;
    long n = (long) (f.n * scale * (thorough ? f.tf : 1)); if(n < 1) n = 1;
    if(replay_idx >= 0) { if(round == 0) run_case(f, replay_idx, seed); continue; }
    long start = n * round / ROUNDS; const long end = n * (round + 1) / ROUNDS;
    if(skipping) { if(after != f.name || after_idx < start || after_idx >= end) continue; start = after_idx + 1; skipping = false; }
    for(long i = start; i < end && !stopped; ++i) { if(i % shards == shard) { if(until && g_cases && std::time(nullptr) >= until) stopped = true; else run_case(f, i, seed); } }
  }
  progress(nullptr);
  if(g_log) std::fclose(g_log);
  if(!hashes.empty()) { FILE* h = std::fopen(hashes.c_str(), "ab"); if(h) { for(auto x : g_seen) std::fwrite(&x, 8, 1, h); std::fclose(h); } }
  if(!out.empty())
  {
    FILE* o = std::fopen(out.c_str(), "w"); if(!o) { std::perror("out"); return 3; }
    std::fprintf(o, "{\"cases\":%ld,\"checks\":%ld,\"nontrivial\":%ld,\"stopped\":%s,\"families\":{", g_cases, g_checks, g_nontrivial, stopped ? "true" : "false");
    bool first = true;
    for(auto& p : g_famcount) { std::fprintf(o, "%s\"%s\":[%ld,%ld]", first ? "" : ",", esc(p.first).c_str(), p.second.first, p.second.second); first = false; }
    std::fprintf(o, "},\"hits\":{"); first = true;
    for(auto& p : g_hits) { std::fprintf(o, "%s\"%s\":%ld", first ? "" : ",", esc(p.first).c_str(), p.second); first = false; }
    std::fprintf(o, "},\"samples\":["); first = true;
    for(auto& s : g_samples) { std::fprintf(o, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
    std::fprintf(o, "],\"counts\":{"); first = true;
    for(auto& p : g_viol) { std::fprintf(o, "%s\"%s\":%ld", first ? "" : ",", esc(p.second.key).c_str(), p.second.count); first = false; }
    std::fprintf(o, "}}\n");
    if(std::fclose(o) != 0) return 3;
  }
  return 0;
}
