// Small property-based testing engine: choice-stream cases (src.hpp), parallel
// forked workers, crash and non-termination capture, shrinking, replay files,
// known findings, evidence.
#pragma once
#include "src.hpp"
#include <cmath>
#include <map>
#include <string>
#include <vector>

namespace pbt {
struct Discard { std::string why; };
struct Failure { std::string msg; };

struct Ctx {
  Src &s;
  std::map<std::string, long> labels;
  bool nontriv = false;
  bool thorough = false;
  std::string desc;
  explicit Ctx(Src &src) : s(src) {}
  void label(const std::string &l) { labels[l]++; }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void note(const std::string &t) { if (!desc.empty()) desc += " | "; desc += t; }
  [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }
  [[noreturn]] void discard(const std::string &m) { throw Discard{m}; }
  void check(bool ok, const std::string &m) { if (!ok) fail(m); }
};

// One generated family of cases of a property.
struct Family {
  const char *name;
  void (*fn)(Ctx &);
  long quick, thorough; // number of cases
};

// A fixed input. known != "" : demonstrates a recorded finding (returns true
// when the finding is present); known == "" : regression input of a repaired
// defect (returns true when the defect is back, and then is a violation).
struct Probe {
  const char *known;
  const char *what;
  bool (*fn)(std::string &msg);
};

struct Property {
  const char *id;
  const char *rule;
  std::vector<Family> families;
  std::vector<Probe> probes;
  std::vector<std::string> assumptions;
  long chunk = 200; // cases run in one forked process
  bool stateful = false; // cases are not replayable by their choices alone: no cases led by coverage
};

// false under memcheck when the memory is not initialised (true without memcheck)
bool defined(const void *p, size_t n);

int main(const Property &p, int argc, char **argv);
} // namespace pbt
