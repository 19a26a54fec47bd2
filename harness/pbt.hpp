// Small property-based testing engine: every generated case is a sequence of
// integer choices, so shrinking and replay work on the sequence alone.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <functional>

namespace pbt {

struct Discard {};
struct Inconclusive { std::string why; };
struct Failure { std::string tag, msg; };

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

class Case {
public:
  Case(uint64_t seed, const std::vector<uint64_t> *replay, uint64_t *rec, size_t recmax, uint32_t *nrec);
  // uniform in [0,n)
  uint64_t draw(uint64_t n);
  // uniform in [lo,hi]; shrinks towards lo
  int range(int lo, int hi) { return lo + (int) draw((uint64_t)(hi - lo) + 1); }
  // signed value in [-m,m] that shrinks towards 0
  int sgn(int m) { int v = (int) draw(2 * (uint64_t) m + 1); return (v & 1) ? (v + 1) / 2 : -(v / 2); }
  bool chance(int percent) { return draw(100) >= (uint64_t)(100 - percent); } // shrinks to false
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  const char *pick(std::initializer_list<const char *> l) { return *(l.begin() + draw(l.size())); }
  // k/den with k in [-m*den, m*den]
  double rat(int m, int den) { return (double) sgn(m * den) / den; }

  void label(const std::string &s) { labels[s]++; }
  void nontrivial() { nt = true; }
  void note(const char *f, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const std::string &tag, const std::string &msg) { throw Failure{tag, msg}; }
  [[noreturn]] void discard() { throw Discard(); }
  [[noreturn]] void inconclusive(const std::string &w) { throw Inconclusive{w}; }
  void check(bool ok, const char *tag, const std::string &msg) { if (!ok) fail(tag, msg); }

  std::map<std::string, int> labels;
  std::string notes;
  bool nt = false;
  bool verbose = false;
  uint64_t hash = 1469598103934665603ull;
private:
  uint64_t s;
  const std::vector<uint64_t> *rep;
  uint64_t *rec; size_t recmax; uint32_t *nrec;
  size_t pos = 0;
};

struct Property {
  std::string id;
  std::function<void(Case &)> fn;
  int quick, thorough;       // number of cases
  double cpu;                // CPU seconds allowed for a case before it is "inconclusive"
  int batch;                 // cases per forked child
  double maxInconclusive;    // fraction above which the run is a violation (search no longer completes)
  std::string rule;          // what counts as non-trivial
  double quickWall, thoroughWall;
};

std::vector<Property> &registry();
struct Reg { Reg(const Property &p) { registry().push_back(p); } };

} // namespace pbt
#endif
