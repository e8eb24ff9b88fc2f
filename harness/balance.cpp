// Records which memory the library (and the harness calling it) holds; vh.cpp compares before and after every case.
#include <cstdint>
#include <cstddef>
#include <mutex>
#include <unordered_set>
#include <cstdlib>

namespace {
std::mutex lock;
std::unordered_set<void *> &live() { static auto *s = new std::unordered_set<void *>; return *s; }
void took(void *p) { if (p) { std::lock_guard<std::mutex> g(lock); live().insert(p); } }
void gave(void *p) { std::lock_guard<std::mutex> g(lock); live().erase(p); }
}

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); took(p); return p; }
void *__wrap_calloc(size_t k, size_t n) { void *p = __real_calloc(k, n); took(p); return p; }
void *__wrap_realloc(void *p, size_t n) {
  gave(p);
  void *q = __real_realloc(p, n);
  took(q ? q : n ? p : nullptr);
  return q;
}
void __wrap_free(void *p) { gave(p); __real_free(p); }
long vh_live(void) { std::lock_guard<std::mutex> g(lock); return (long)live().size(); }
}
