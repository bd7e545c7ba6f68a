// Observation recorder and verdict writer shared by all monitors.
#pragma once
#include "field.hpp"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
namespace vf {

struct Options {
  u64 seed = 1;
  bool thorough = false;
  double seconds = 30;        // soft time budget of the random part
  std::string only_kind;      // replay: run a single case
  long only_case = -1;
  bool verbose = false;
  int nthreads = 0;
};

class Reporter {
 public:
  explicit Reporter(std::string prop) : prop_(std::move(prop)) {}
  void count(const std::string& what, u64 n = 1) { counts_[what] += n; }
  // remember a distinct observation (e.g. a state, a canonical form) under a name
  void distinct(const std::string& what, u64 h) { auto& s = distinct_[what]; if (s.size() < 2000000) s.insert(h); }
  void sample(const std::string& what, const std::string& text) { auto& v = samples_[what]; if (v.size() < 3) v.push_back(text.substr(0, 400)); }
  void maximum(const std::string& what, double v) { auto it = max_.find(what); if (it == max_.end() || it->second < v) max_[what] = v; }
  // signature: stable identification of what failed; detail: human readable
  void violation(const std::string& signature, const std::string& detail);
  u64 get(const std::string& k) const { auto it = counts_.find(k); return it == counts_.end() ? 0 : it->second; }
  bool any_violation() const { return !viols_.empty(); }
  void write(const std::string& path) const;

  // current case (for violations and crash reports)
  std::string kind; long index = -1; u64 case_seed = 0;
  std::map<std::string, u64> cases_run;
  double elapsed = 0;
  std::string crash_path;

 private:
  struct V { std::string sig, detail, kind; long index; };
  std::string prop_;
  std::map<std::string, u64> counts_;
  std::map<std::string, std::unordered_set<u64>> distinct_;
  std::map<std::string, std::vector<std::string>> samples_;
  std::map<std::string, double> max_;
  std::vector<V> viols_;
  friend class Suite;
};

// A set of named case generators. Every case is a function of (seed, kind, index).
class Suite {
 public:
  using Fn = std::function<void(Rng&, long, Reporter&)>;
  explicit Suite(std::string prop) : rep(prop), prop_(prop) {}
  // quick/thorough: number of cases; fixed kinds run exactly `quick` cases always
  void add(std::string kind, long quick, long thorough, Fn fn) { kinds_.push_back({std::move(kind), quick, thorough, std::move(fn)}); }
  // exactly n cases in every tier
  void fixed(std::string kind, long n, Fn fn) { kinds_.push_back({std::move(kind), n, n, std::move(fn), true}); }
  int main(int argc, char** argv);
  Reporter rep;
  Options opt;
 private:
  struct K { std::string name; long quick, thorough; Fn fn; bool fixed = false; };
  std::vector<K> kinds_;
  std::string prop_;
};

std::string narrow(std::wstring_view s);
std::string jesc(const std::string& s);

// thrown by a case to signal that its input is outside the property's domain
struct Discard {};
}  // namespace vf
