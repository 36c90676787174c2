// A small property-based testing engine.
//
// A case is a "choice tape": the sequence of bounded draws which the
// property's generators made. The same property function runs on
//  * random tapes (seeded by VERIF_SEED, the property, the facet, the index),
//  * replayed tapes (replay files, shrinking candidates),
//  * libFuzzer inputs (bytes decoded to draws).
// Shrinking edits tapes (delete, zero, halve) so that generators need no
// shrinker of their own. Draw 0 is always the simplest choice.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <memory>

namespace pbt {

struct Failure {
  std::string msg;
};
// thrown when a drawn case is outside the domain (used rarely)
struct Discard {};

struct Buffer {  // lives in shared memory in workers
  static const uint32_t cap = 1u << 16;
  volatile uint32_t facet;
  volatile uint64_t index;
  volatile uint32_t len;
  volatile uint32_t running;
  volatile uint32_t failed;
  char msg[4096];
  uint64_t tape[cap];
};

class Src {
 public:
  enum Mode { RANDOM, REPLAY, BYTES };
  Mode mode = RANDOM;
  uint64_t rng = 0;
  Buffer *buf = nullptr;  // recording
  const uint64_t *in = nullptr;
  size_t nin = 0, pos = 0;
  const uint8_t *bytes = nullptr;
  size_t nbytes = 0;
  bool verbose = false;
  std::ostringstream out;
  // statistics of this case
  bool nontrivial_ = false;
  std::vector<const char *> labels;
  std::vector<std::pair<std::string, std::string>> knowns;
  uint64_t hash = 1469598103934665603ull;

  static uint64_t mix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n), n >= 1; n == 0 means the full 64 bits
  uint64_t draw(uint64_t n) {
    uint64_t v = 0;
    if (mode == RANDOM) {
      v = mix(rng);
      if (n) v = n == 1 ? 0 : (uint64_t)(((__uint128_t)v * n) >> 64);
    } else if (mode == REPLAY) {
      v = pos < nin ? in[pos] : 0;
      ++pos;
      if (n && v >= n) v = v % n;
    } else {
      if (n != 1) {
        size_t need = n == 0 ? 8
                             : n <= 0x100 ? 1
                                          : n <= 0x10000
                                                ? 2
                                                : n <= 0x100000000ull ? 4 : 8;
        for (size_t i = 0; i < need; ++i)
          v |= (uint64_t)(pos < nbytes ? bytes[pos++] : 0) << (8 * i);
        if (n) v %= n;
      }
    }
    if (buf) {
      uint32_t l = buf->len;
      if (l < Buffer::cap) {
        buf->tape[l] = v;
        buf->len = l + 1;
      } else {
        throw Discard();
      }
    }
    hash = (hash ^ v) * 1099511628211ull;
    hash ^= hash >> 29;
    return v;
  }
  bool exhausted() const { return mode == BYTES && pos >= nbytes; }

  // integer in [lo, hi]; lo is the simplest
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)draw((uint64_t)(hi - lo) + 1);
  }
  bool coin() { return draw(2) == 1; }
  // true with probability k/n; false is the simplest
  bool chance(unsigned k, unsigned n) { return draw(n) >= n - k; }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[draw(v.size())];
  }
  template <class T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + draw(v.size()));
  }
  // a text which differs a little from the given one
  std::string nearMiss(const std::string &w) {
    std::string r = w;
    switch (draw(9)) {
      case 0: r += pick({"x", "s", "1", ".1", ".0", "0", ",", "_", "-"}); break;
      case 1: r = pick({"x", "1", "0", "-", "v", "."}) + r; break;
      case 2: if (!r.empty()) r.erase(r.size() - 1); break;
      case 3: if (!r.empty()) r.erase(0, 1); break;
      case 4: for (auto &c : r) c = (char)std::toupper(c); break;
      case 5: if (!r.empty()) r[0] = (char)std::toupper(r[0]); break;
      case 6: r += " "; break;
      case 7: r = " " + r; break;
      default: r = coin() ? r + r : "";
    }
    return r == w ? w + "x" : r;
  }
  // weighted choice
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned sum = 0;
    for (auto x : w) sum += x;
    uint64_t d = draw(sum);
    size_t i = 0;
    for (auto x : w) {
      if (d < x) return i;
      d -= x;
      ++i;
    }
    return 0;
  }
  double unit() { return (double)draw(1ull << 32) / 4294967296.0; }
  // a "reasonable" real in [lo, hi] (float-representable), with special strata
  float real(double lo, double hi) {
    double zero = lo > 0 ? lo : (hi < 0 ? hi : 0.0);
    double v = zero;
    switch (draw(8)) {
      case 0:
        v = zero;
        break;
      case 1:
        v = (double)range(0, 3) * (coin() ? -1. : 1.);
        break;
      case 2:
        v = (double)range(0, 64) / 8. * (coin() ? -1. : 1.);
        break;
      case 3:
        v = std::pow(10., -(double)range(0, 9)) * (coin() ? -1. : 1.);
        break;
      default:
        v = lo + (hi - lo) * unit();
        break;
    }
    if (!(v >= lo)) v = lo;
    if (!(v <= hi)) v = hi;
    float f = (float)v;
    if ((double)f < lo) f = std::nextafterf(f, 1e38f);
    if ((double)f > hi) f = std::nextafterf(f, -1e38f);
    return f;
  }

  void nontrivial(bool b = true) {
    if (b) nontrivial_ = true;
  }
  void label(const char *l) { labels.push_back(l); }
  // a listed (known) defect showed: recorded, compared by the driver with the
  // known findings file
  void known(const std::string &sig, const std::string &detail) {
    knowns.push_back(std::make_pair(sig, detail));
  }
};

typedef void (*PropFn)(Src &);
struct Facet {
  const char *name;
  PropFn fn;
  uint64_t cases;  // at scale 1
};
inline std::vector<Facet> &facets() {
  static std::vector<Facet> f;
  return f;
}
struct Reg {
  Reg(const char *name, PropFn fn, uint64_t cases) {
    facets().push_back(Facet{name, fn, cases});
  }
};
// the facets of the other properties, when they are linked as a library
// (PBT_LIBRARY: their case runs in several threads at once, see c36.cpp)
struct Other {
  const char *prop;
  Facet facet;
};
inline std::vector<Other> &others() {
  static std::vector<Other> f;
  return f;
}
struct RegOther {
  RegOther(const char *prop, const char *name, PropFn fn, uint64_t cases) {
    others().push_back(Other{prop, Facet{name, fn, cases}});
  }
};

// keeps the standard streams quiet: the library prints warnings
class Quiet {
#ifndef PBT_LIBRARY
  std::ostringstream sink;
  std::streambuf *e = nullptr, *o = nullptr;

 public:
  Quiet() : e(std::cerr.rdbuf(sink.rdbuf())), o(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() {
    std::cerr.rdbuf(e);
    std::cout.rdbuf(o);
  }
#else
 public:
  ~Quiet() {}
#endif
};

template <class T>
inline void show(std::ostream &os, const T &t) {
  os << t;
}
inline void show(std::ostream &os, float t) {
  os << std::setprecision(9) << t;
}
inline void show(std::ostream &os, double t) {
  os << std::setprecision(17) << t;
}
inline void show(std::ostream &os, bool t) { os << (t ? "true" : "false"); }
inline void show(std::ostream &os, const std::vector<float> &v) {
  os << std::setprecision(9) << "[";
  for (size_t i = 0; i < v.size(); ++i) os << (i ? ", " : "") << v[i];
  os << "]";
}
inline void show(std::ostream &os, const std::vector<std::string> &v) {
  os << "[";
  for (size_t i = 0; i < v.size(); ++i) os << (i ? ", " : "") << v[i];
  os << "]";
}

[[noreturn]] inline void fail_(const char *file, int line,
                               const std::string &m) {
  const char *b = std::strrchr(file, '/');
  std::ostringstream os;
  os << (b ? b + 1 : file) << ":" << line << ": " << m;
  throw Failure{os.str()};
}
}  // namespace pbt

#ifdef PBT_LIBRARY
#define PBT_REG_(fname, ncases) \
  static pbt::RegOther reg_##fname(PBT_LIBRARY, #fname, &facet_##fname, ncases)
#else
#define PBT_REG_(fname, ncases) \
  static pbt::Reg reg_##fname(#fname, &facet_##fname, ncases)
#endif
#define PBT_FACET(fname, ncases)          \
  static void facet_##fname(pbt::Src &s); \
  PBT_REG_(fname, ncases);                \
  static void facet_##fname(pbt::Src &s)

#define LOG(name, value)                    \
  do {                                      \
    if (s.verbose) {                        \
      s.out << name << " = ";               \
      pbt::show(s.out, value);              \
      s.out << "\n";                        \
    }                                       \
  } while (0)
#define NOTE(expr)                    \
  do {                                \
    if (s.verbose) {                  \
      s.out << std::setprecision(9) << expr << "\n"; \
    }                                 \
  } while (0)

#define FAIL(expr)                                \
  do {                                            \
    std::ostringstream os_;                       \
    os_ << std::setprecision(10) << expr;         \
    pbt::fail_(__FILE__, __LINE__, os_.str());    \
  } while (0)
#define CHECK(cond, expr)                                           \
  do {                                                              \
    if (!(cond)) {                                                  \
      std::ostringstream os_;                                       \
      os_ << std::setprecision(10) << #cond << " is false: " << expr; \
      pbt::fail_(__FILE__, __LINE__, os_.str());                    \
    }                                                               \
  } while (0)
// |a - b| <= tol, NaN fails
#define NEAR(a, b, tol, expr)                                              \
  do {                                                                     \
    double a_ = (a), b_ = (b), t_ = (tol);                                 \
    if (!(std::fabs(a_ - b_) <= t_)) {                                     \
      std::ostringstream os_;                                              \
      os_ << std::setprecision(10) << #a << " = " << a_ << " differs from " \
          << #b << " = " << b_ << " by more than " << t_ << ": " << expr;  \
      pbt::fail_(__FILE__, __LINE__, os_.str());                           \
    }                                                                      \
  } while (0)
// the expression must throw an exception derived from std::exception
#define THROWS(stmt, expr)                                             \
  do {                                                                 \
    bool thrown_ = false;                                              \
    try {                                                              \
      stmt;                                                            \
    } catch (const std::exception &) {                                 \
      thrown_ = true;                                                  \
    }                                                                  \
    if (!thrown_) {                                                    \
      std::ostringstream os_;                                          \
      os_ << std::setprecision(10) << #stmt << " did not throw: " << expr; \
      pbt::fail_(__FILE__, __LINE__, os_.str());                       \
    }                                                                  \
  } while (0)
