#include "report.hpp"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#ifdef VF_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
namespace vf {
std::string narrow(std::wstring_view s) {
  std::string r;
  for (wchar_t w : s) {
    unsigned c = (unsigned)w;
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xF0 | (c >> 18 & 7)); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
  }
  return r;
}
std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c == 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}
void Reporter::violation(const std::string& sig, const std::string& detail) {
  counts_["violations_observed"]++;
  int same = 0;
  for (auto& v : viols_) if (v.sig == sig) ++same;
  if (same >= 3 || viols_.size() >= 200) return;
  viols_.push_back({sig, detail.substr(0, 4000), kind, index});
}
void Reporter::write(const std::string& path) const {
  std::ostringstream o;
  o << "{\n \"property\": \"" << prop_ << "\",\n \"elapsed_s\": " << elapsed << ",\n \"cases\": {";
  const char* sep = "";
  for (auto& [k, v] : cases_run) { o << sep << "\"" << jesc(k) << "\": " << v; sep = ", "; }
  o << "},\n \"counts\": {"; sep = "";
  for (auto& [k, v] : counts_) { o << sep << "\"" << jesc(k) << "\": " << v; sep = ", "; }
  o << "},\n \"distinct\": {"; sep = "";
  for (auto& [k, v] : distinct_) { o << sep << "\"" << jesc(k) << "\": " << v.size(); sep = ", "; }
  o << "},\n \"max\": {"; sep = "";
  for (auto& [k, v] : max_) { o << sep << "\"" << jesc(k) << "\": " << v; sep = ", "; }
  o << "},\n \"samples\": {"; sep = "";
  for (auto& [k, v] : samples_) {
    o << sep << "\"" << jesc(k) << "\": ["; const char* s2 = "";
    for (auto& t : v) { o << s2 << "\"" << jesc(t) << "\""; s2 = ", "; }
    o << "]"; sep = ", ";
  }
  o << "},\n \"violations\": ["; sep = "";
  for (auto& v : viols_) {
    o << sep << "\n  {\"signature\": \"" << jesc(v.sig) << "\", \"kind\": \"" << jesc(v.kind) << "\", \"case\": " << v.index
      << ", \"detail\": \"" << jesc(v.detail) << "\"}";
    sep = ",";
  }
  o << "]\n}\n";
  std::ofstream f(path); f << o.str();
  f.close();
  if (path == "/dev/null") return;
  std::ofstream g(path + ".hashes");
  for (auto& [k, v] : distinct_) for (u64 h : v) g << k << " " << std::hex << h << std::dec << "\n";
}

namespace {
char g_crash_path[512];
char g_kind[128];
volatile long g_index = -1;
void note_crash(const char* why) {
  int fd = ::open(g_crash_path, O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd >= 0) {
    char b[800]; int n = snprintf(b, sizeof b, "%s\n%s\n%ld\n", why, g_kind, (long)g_index);
    if (::write(fd, b, n) < 0) {}
    ::close(fd);
  }
}
void on_signal(int s) {
  char b[64]; snprintf(b, 64, "signal %d (%s)", s, s == SIGALRM ? "hang" : s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : "fatal");
#ifdef VF_ASAN
  if (s != SIGABRT || ::access(g_crash_path, F_OK) != 0) note_crash(b);
#else
  note_crash(b);
#endif
  signal(s, SIG_DFL);
  if (s == SIGALRM) _exit(77);
  raise(s);
}
}  // namespace
// sanitizer builds call this back when they find something
extern "C" void vf_note_sanitizer(const char* why) { note_crash(why); }

int Suite::main(int argc, char** argv) {
  std::string out = "/dev/null";
  unsigned hang = 240;
  bool nosig = false;
  long shard = 0, nshard = 1; double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") opt.seed = std::stoull(val());
    else if (a == "--thorough") opt.thorough = true;
    else if (a == "--seconds") opt.seconds = std::stod(val());
    else if (a == "--out") out = val();
    else if (a == "--kind") opt.only_kind = val();
    else if (a == "--case") opt.only_case = std::stol(val());
    else if (a == "--verbose") opt.verbose = true;
    else if (a == "--hang") hang = (unsigned)std::stoul(val());
    else if (a == "--nosig") nosig = true;
    else if (a == "--shard") { std::string v = val(); shard = std::stol(v); nshard = std::stol(v.substr(v.find('/') + 1)); }
    else if (a == "--scale") scale = std::stod(val());
    else if (a == "--threads") opt.nthreads = std::stoi(val());
    else { std::cerr << "unknown argument " << a << "\n"; return 2; }
  }
  snprintf(g_crash_path, sizeof g_crash_path, "%s.crash", out.c_str());
  ::unlink(g_crash_path);
  if (!nosig) for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(s, on_signal);
  signal(SIGABRT, on_signal);
#ifdef VF_ASAN
  __sanitizer_set_death_callback([] { note_crash("sanitizer report"); });
#endif
  signal(SIGALRM, on_signal);
  auto t0 = std::chrono::steady_clock::now();
  auto now = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  // round robin over kinds so that a time limit cuts all of them evenly
  struct St { K* k; long next = 0, total = 0; double spent = 0; };
  std::vector<St> st;
  for (auto& k : kinds_) {
    if (!opt.only_kind.empty() && k.name != opt.only_kind) continue;
    St s; s.k = &k; s.total = opt.thorough ? k.thorough : k.quick;
    if (scale != 1 && s.total > 1) s.total = std::max<long>(1, (long)(s.total * scale));
    if (scale < 1 && opt.thorough == false && k.fixed) s.total = k.quick;
    s.next = shard;
    if (opt.only_case >= 0) { s.next = opt.only_case; s.total = opt.only_case + 1; }
    st.push_back(s);
  }
  bool more = true, cut = false;
  while (more && !cut) {
    more = false;
    // next = kind with smallest fraction done
    St* best = nullptr;
    for (auto& s : st) if (s.next < s.total) {
      if (!best || (double)s.next / s.total < (double)best->next / best->total) best = &s;
    }
    if (!best) break;
    more = true;
    if (now() > opt.seconds) { cut = true; break; }
    long i = best->next; best->next += opt.only_case >= 0 ? 1 : nshard;
    rep.kind = best->k->name; rep.index = i;
    snprintf(g_kind, sizeof g_kind, "%s", rep.kind.c_str()); g_index = i;
    u64 cs = comb(comb(opt.seed, hstr(std::wstring(rep.kind.begin(), rep.kind.end()))), (u64)i);
    rep.case_seed = cs;
    Rng rng(cs);
    alarm(hang);
    double a = now();
    try {
      best->k->fn(rng, i, rep);
      rep.cases_run[rep.kind]++;
    } catch (Discard&) {
      rep.count("discarded:" + rep.kind);
    } catch (std::exception& e) {
      rep.violation(rep.kind + ":unexpected-exception", std::string("exception escaped: ") + e.what());
    } catch (...) {
      rep.violation(rep.kind + ":unexpected-exception", "unknown exception escaped");
    }
    double d = now() - a; best->spent += d;
    rep.maximum("slowest_case_s:" + rep.kind, d);
    if (opt.verbose && d > 2) std::cerr << rep.kind << " " << i << " " << d << "s\n";
  }
  alarm(0);
  rep.elapsed = now();
  if (cut) rep.count("time_budget_reached");
  if (opt.verbose) for (auto& s : st) std::cerr << s.k->name << ": " << s.next << "/" << s.total << " in " << s.spent << "s\n";
  rep.write(out);
  if (opt.verbose || opt.only_case >= 0)
    for (auto& v : rep.viols_) std::cerr << "VIOL [" << v.sig << "] " << v.kind << "#" << v.index << ": " << v.detail << "\n";
  std::cerr << rep.viols_.size() << " violation record(s), " << rep.elapsed << " s\n";
  return rep.viols_.empty() ? 0 : 1;
}
}  // namespace vf
