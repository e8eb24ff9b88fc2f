// Shared harness layer: deterministic cases, recorded events, violation records, exact-size buffers.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <memory>

typedef std::vector<uint8_t> Bytes;

#if defined(__has_feature)
#  if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
#    define VH_SAN 1
#  endif
#endif

namespace vh {

uint64_t mix64(uint64_t x);
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);

struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  void reseed(uint64_t seed);
  uint64_t next();
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // inclusive range
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  void fill(void *p, size_t n);
  Bytes bytes(size_t n);
  // random, all-zero, all-ones, long runs of equal bits, sparse, counter-like
  Bytes special(size_t n);
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  // lengths clustered at 0, 1, and around multiples of `block`
  size_t len(size_t max, size_t block);
  // the same, and now and then a length around a power of two up to 2^17
  size_t big(size_t max, size_t block, unsigned one_in = 150);
  // a random partition of n into chunk sizes, empty chunks included
  std::vector<size_t> split(size_t n, size_t block);
};

// Buffer of exactly n bytes. Sanitizer builds rely on red zones; others carry canaries.
class Buf {
 public:
  explicit Buf(size_t n, int fill = 0xa5);
  explicit Buf(const Bytes &b);
  Buf(const Buf &) = delete;
  Buf &operator=(const Buf &) = delete;
  ~Buf();
  uint8_t *p() { return p_; }
  const uint8_t *p() const { return p_; }
  operator uint8_t *() { return p_; }
  size_t size() const { return n_; }
  Bytes get() const { return Bytes(p_, p_ + n_); }
  Bytes get(size_t n) const { return Bytes(p_, p_ + n); }
  uint8_t &operator[](size_t i) { return p_[i]; }
 private:
  uint8_t *raw_, *p_;
  size_t n_;
};

// Read-only input: exact-size copy, checked unmodified on destruction.
class In {
 public:
  explicit In(const Bytes &b);
  In(const In &) = delete;
  ~In();
  operator const uint8_t *() const { return b_.p(); }
  const uint8_t *p() const { return b_.p(); }
  size_t size() const { return b_.size(); }
 private:
  Buf b_;
  uint64_t h_;
};

std::string hex(const void *p, size_t n);
std::string hex(const Bytes &b);
Bytes unhex(const char *s);

struct Case {
  Rng rng;
  const char *test = "";
  uint64_t idx = 0;
  int scale = 1;                 // 1 in quick, larger in thorough
};

extern Case *cur;

void ev(const char *name, uint64_t n = 1);            // count an observed event
void eval(uint64_t key, bool nontrivial = true);      // one oracle evaluation on a distinct input
void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void sample(const std::string &s);
bool failed();

// compare and report
bool eq(const char *key, const Bytes &got, const Bytes &want, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
bool eqi(const char *key, long long got, long long want, const char *fmt, ...) __attribute__((format(printf, 4, 5)));

struct Test {
  const char *name;
  void (*fn)(Case &);
  uint64_t quick;       // cases in the quick tier for an optimised build
  unsigned san_div;     // divisor in sanitizer builds
};
void add(const Test &t);
struct Reg { Reg(const char *n, void (*f)(Case &), uint64_t q, unsigned d) { add({n, f, q, d}); } };

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
extern const char *config;
extern bool is64;

}  // namespace vh

#define VH_TEST(name, quick, san_div) \
  static void test_##name(vh::Case &c); \
  static vh::Reg reg_##name(#name, test_##name, quick, san_div); \
  static void test_##name(vh::Case &c)

#endif
