// Whole-API workload: hostile and valid calls with exact-size buffers, every result folded into a transcript.
// The same cases run under the memory monitors (C23), from several threads (C27) and in every build (C28).
#ifndef API_HPP
#define API_HPP
#include "vh.hpp"
#if defined(__has_feature)
#  if __has_feature(memory_sanitizer)
#    include <sanitizer/msan_interface.h>
#    define API_MSAN 1
#  endif
#endif
using namespace vh;

namespace api {

struct Item { const char *tag; uint64_t h; bool number; uint64_t v; };
// the random source and the transcript of one case
struct T {
  Rng r;
  uint64_t h = 1469598103934665603ull;
  uint64_t calls = 0, ok = 0;
  FILE *log = nullptr;           // replay: every item in clear
  std::vector<Item> *trace = nullptr;
  explicit T(const Rng &rng) : r(rng) {}
  void bytes(const char *tag, const void *p, size_t n) {
    if (trace) trace->push_back({tag, fnv(p, n, n + 1), false, 0});
#ifdef API_MSAN
    __msan_check_mem_is_initialized(p, n);
#endif
    h = fnv(tag, strlen(tag), h);
    h = fnv(&n, sizeof(n), h);
    h = fnv(p, n, h);
    if (log) fprintf(log, "%s %s\n", tag, hex(p, n).c_str());
  }
  void num(const char *tag, uint64_t v) { bytes(tag, &v, 8); if (trace) { trace->back().number = true; trace->back().v = v; } }
  // one call that can fail
  bool res(const char *tag, long long v) { calls++; ok += v != 0; num(tag, v); return v != 0; }
};

// output buffer of exactly n bytes, uninitialised as far as the monitors can tell
struct O : Buf {
  explicit O(size_t n) : Buf(n, 0xd7) {
#ifdef API_MSAN
    __msan_poison(p(), n);
#endif
  }
  void to(T &t, const char *tag, size_t n) {
    if (n > size()) { viol("output-length", "%s reports %zu bytes for a buffer of %zu", tag, n, size()); n = size(); }
    t.bytes(tag, p(), n);
  }
  void to(T &t, const char *tag) { to(t, tag, size()); }
};
#ifdef API_THREADS
// Threads running the same case read the same input bytes: the pool is filled by the sequential run
// and only looked up afterwards, so it adds no synchronisation between the threads.
extern bool pool_filling, pool_reading;
const uint8_t *pooled(const Bytes &b);
struct I {
  explicit I(const Bytes &b) : n_(b.size()) {
    if (pool_filling || pool_reading) q_ = pooled(b);
    if (!q_) { own_.reset(new In(b)); q_ = own_->p(); }
  }
  operator const uint8_t *() const { return q_; }
  const uint8_t *p() const { return q_; }
  size_t size() const { return n_; }
  const char *s() const { return (const char *)q_; }
 private:
  const uint8_t *q_ = nullptr;
  size_t n_;
  std::unique_ptr<In> own_;
};
#else
// read-only input of exactly the given bytes
struct I : In {
  explicit I(const Bytes &b) : In(b) {
#ifdef API_MSAN
    __msan_unpoison(p(), size());
#endif
  }
  const char *s() const { return (const char *)p(); }
};
#endif
inline Bytes z(const std::string &s) { Bytes b(s.begin(), s.end()); b.push_back(0); return b; }

// a changed copy: flipped bits, replaced, cut or extended (cut/extended only when the length is free)
inline Bytes mutate(Rng &r, Bytes b, bool length) {
  int n = 1 + r.below(3);
  while (n--) {
    size_t s = b.size();
    switch (r.below(length ? 9 : 5)) {
      case 0: case 1: if (s) b[r.below(s)] ^= 1 << r.below(8); break;
      case 2: if (s) { static const uint8_t v[] = {0, 1, 0x7f, 0x80, 0x81, 0x82, 0xff, 0x30, 0x02}; b[r.below(s)] = v[r.below(9)]; } break;
      case 3: if (s) { size_t i = r.below(s), k = 1 + r.below(s - i); memset(b.data() + i, r.chance(1, 2) ? 0 : 0xff, k); } break;
      case 4: if (s > 1) std::swap(b[r.below(s)], b[r.below(s)]); break;
      case 5: b.resize(r.below(s + 1)); break;
      case 6: { Bytes x = r.bytes(1 + r.below(12)); b.insert(b.end(), x.begin(), x.end()); break; }
      case 7: if (s) b.erase(b.begin() + r.below(s)); break;
      default: b.insert(b.begin() + r.below(s + 1), (uint8_t)r.next()); break;
    }
  }
  return b;
}
// mostly the valid value, sometimes changed, sometimes unrelated
inline Bytes mostly(Rng &r, const Bytes &b, bool length = false) {
  unsigned k = r.below(8);
  if (k < 4) return b;
  if (k < 7) return mutate(r, b, length);
  return r.special(length ? r.below(b.size() * 2 + 3) : b.size());
}

typedef void (*fn_t)(T &);
struct Entry { const char *name; fn_t fn; bool threads; };
std::vector<Entry> &entries();
struct Add { Add(const char *n, fn_t f, bool th) { entries().push_back({n, f, th}); } };
void finish(Case &c, T &t);
FILE *log_file();
void renew();

}  // namespace api

// threads: the case only reads shared contexts, so any number may run at once
#if defined(API_THREADS) || defined(API_ENTRIES)
#define API_TEST(name, quick, div, threads) \
  static void api_##name(api::T &t); \
  static api::Add apireg_##name(#name, api_##name, threads); \
  static void api_##name(api::T &t)
#else
#define API_TEST(name, quick, div, threads) \
  static void api_##name(api::T &t); \
  static api::Add apireg_##name(#name, api_##name, threads); \
  VH_TEST(name, quick, div) { api::T t(c.rng); t.log = api::log_file(); api_##name(t); api::finish(c, t); } \
  static void api_##name(api::T &t)
#endif
#endif
