// Small property-based-testing engine: choice-sequence generators, crash
// isolation by forked workers, span-aware shrinking and replay.
//
// Every random decision of a case is drawn through `Src`, so a case *is* its
// list of choices: it can be replayed, shrunk and stored as a plain file.
#pragma once
#include <cstdint>
#include <filesystem>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {
namespace fs = std::filesystem;

struct Violation {
  std::string msg;
};

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

class Src {
public:
  // random mode
  explicit Src(uint64_t seed) : rng_(seed), random_(true) {}
  // replay mode: exhausted choices read as 0 (the simplest value)
  explicit Src(std::vector<uint64_t> replay)
      : in_(std::move(replay)), random_(false) {}

  // [0, n)
  uint64_t draw(uint64_t n) {
    if (n == 0)
      n = 1;
    uint64_t v;
    if (random_) {
      rng_ = rng_ + 0x9E3779B97F4A7C15ull;
      v = mix(rng_) % n;
    } else {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (v >= n)
        v = v % n;
    }
    pos_++;
    out_.push_back(v);
    if (tap_ && out_.size() < tap_cap_) {
      tap_[out_.size()] = v;
      tap_[0] = out_.size();
    }
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { // inclusive
    return lo + (int64_t)draw((uint64_t)(hi - lo + 1));
  }
  bool chance(unsigned num, unsigned den) { // value 0 => false
    return draw(den) >= den - num;
  }
  bool coin() { return draw(2) == 1; }
  // a small number below n, once in a while a much larger one
  size_t some(uint64_t n, uint64_t big = 40) { return (size_t)(chance(1, 30) ? n + draw(big) : draw(n)); }
  template <typename C> const typename C::value_type &pick(const C &c) {
    return c[(size_t)draw(c.size())];
  }
  // index by weight
  size_t weighted(const std::vector<unsigned> &w) {
    uint64_t t = 0;
    for (auto x : w)
      t += x;
    uint64_t v = draw(t);
    for (size_t i = 0; i < w.size(); i++) {
      if (v < w[i])
        return i;
      v -= w[i];
    }
    return w.size() - 1;
  }
  // span marks: let the shrinker delete whole operations
  void begin() { open_.push_back(out_.size()); }
  void end() {
    spans_.emplace_back(open_.back(), out_.size());
    open_.pop_back();
  }
  // mirror choices into shared memory so that a crash does not lose them
  void tap(uint64_t *t, size_t cap) {
    tap_ = t;
    tap_cap_ = cap;
    if (tap_)
      tap_[0] = 0;
  }
  const std::vector<uint64_t> &choices() const { return out_; }
  const std::vector<std::pair<size_t, size_t>> &spans() const { return spans_; }

private:
  uint64_t rng_{0};
  std::vector<uint64_t> in_;
  size_t pos_{0};
  bool random_;
  uint64_t *tap_{nullptr};
  size_t tap_cap_{0};
  std::vector<uint64_t> out_;
  std::vector<size_t> open_;
  std::vector<std::pair<size_t, size_t>> spans_;
};

struct Span {
  Src &s;
  explicit Span(Src &s) : s(s) { s.begin(); }
  ~Span() { s.end(); }
};

class Ctx {
public:
  fs::path dir;      // fresh scratch directory of this case
  bool thorough{false};
  bool explain{false}; // replay: narrate every step on stdout

  // human readable description of the generated case
  void note(const std::string &line) {
    if (explain)
      printf("    %s\n", line.c_str()), fflush(stdout);
    if (desc.size() < 6000)
      desc += line + "\n";
  }
  void label(const std::string &l) { labels.insert(l); }
  void count(const std::string &l, uint64_t n = 1) { counters[l] += n; }
  // the case exercised the property by the stated rule
  void nontrivial() { is_nontrivial = true; }
  void evaluated(uint64_t n = 1) { evaluations += n; }
  // a failure that belongs to a listed known finding
  void known(const std::string &id) { knowns.insert(id); }

  [[noreturn]] void fail(const std::string &m) { throw Violation{m}; }
  void check(bool ok, const std::string &m) {
    evaluations++;
    if (!ok)
      fail(m);
  }
  template <typename A, typename B>
  void equal(const A &a, const B &b, const std::string &what) {
    evaluations++;
    if (!(a == b)) {
      std::ostringstream o;
      o << what << "\n      expected: " << show(b) << "\n      actual:   " << show(a);
      fail(o.str());
    }
  }
  static std::string show(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '\n')
        r += "\\n";
      else if (c < 32 || c == 127) {
        char b[8];
        snprintf(b, sizeof b, "\\x%02x", c);
        r += b;
      } else
        r += (char)c;
      if (r.size() > 1500) {
        r += "...";
        break;
      }
    }
    return r + "\"";
  }
  static std::string show(const char *s) { return show(std::string(s)); }
  static std::string show(bool b) { return b ? "true" : "false"; }
  static std::string show(unsigned v) { return std::to_string(v); }
  static std::string show(char v) { return show(std::string(1, v)); }
  static std::string show(int v) { return std::to_string(v); }
  static std::string show(long v) { return std::to_string(v); }
  static std::string show(unsigned long v) { return std::to_string(v); }
  static std::string show(const fs::path &p) { return show(p.string()); }
  template <typename T> static std::string show(const std::vector<T> &v) {
    std::string r = "[";
    for (const auto &x : v)
      r += (r.size() > 1 ? ", " : "") + show(x);
    return r + "]";
  }
  template <typename T> static std::string show(const std::set<T> &v) {
    std::string r = "{";
    for (const auto &x : v)
      r += (r.size() > 1 ? ", " : "") + show(x);
    return r + "}";
  }
  template <typename T> static std::string show(const std::multiset<T> &v) {
    std::string r = "{";
    for (const auto &x : v)
      r += (r.size() > 1 ? ", " : "") + show(x);
    return r + "}";
  }
  template <typename K, typename V> static std::string show(const std::map<K, V> &v) {
    std::string r = "{";
    for (const auto &[k, x] : v)
      r += (r.size() > 1 ? ", " : "") + show(k) + ": " + show(x);
    return r + "}";
  }

  std::string desc;
  std::set<std::string> labels;
  std::map<std::string, uint64_t> counters;
  std::set<std::string> knowns;
  bool is_nontrivial{false};
  uint64_t evaluations{0};
};

enum class Mode {
  kThread, // the case runs on a non-main thread: fatal assertions throw
  kMain,   // the case runs on the main thread; code that may exit() must be
           // wrapped in run_forked
};

struct Property {
  std::string id;
  std::string rule; // what makes a case non-trivial
  std::function<void(Src &, Ctx &)> run;
  Mode mode{Mode::kThread};
  uint64_t quick_cases{2000};
  double quick_seconds{20};
  uint64_t thorough_cases{200000};
  double thorough_seconds{300};
  unsigned workers{8};
  unsigned case_timeout_s{60};
  bool racy{false}; // outcome depends on real scheduling: replay several times
  std::vector<std::string> assumptions;
  std::vector<std::vector<uint64_t>> regressions; // always replayed first
};

std::vector<Property> &registry();
struct Register {
  explicit Register(Property p) { registry().push_back(std::move(p)); }
};

// Runs `fn` in a forked child. The child writes its result string to `out`;
struct ForkResult {
  bool exited{false};
  int code{-1};   // exit code if exited
  int signal{0};  // signal otherwise
  bool timeout{false};
  bool returned{false}; // fn returned normally
  std::string out;      // string returned by fn
  std::string err;      // captured stdout+stderr of the child (tail)
};
ForkResult run_forked(const std::function<std::string()> &fn, unsigned timeout_s = 50);

std::string read_file(const fs::path &p);
bool write_file(const fs::path &p, const std::string &s);

// true when `fn` ends in a fatal assertion (throws); anything else -> false
template <typename F> bool fatal(F &&fn) {
  try {
    fn();
  } catch (const Violation &) {
    throw;
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

} // namespace pbt
