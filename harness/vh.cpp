#include "vh.hpp"
#include <mutex>
#if defined(__has_feature)
#  if __has_feature(memory_sanitizer)
#    include <sanitizer/msan_interface.h>
#  endif
#endif
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh {

uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}

void Rng::reseed(uint64_t seed) {
  for (int i = 0; i < 4; i++) { seed = mix64(seed + i); s[i] = seed; }
}

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

uint64_t Rng::next() {
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}

void Rng::fill(void *p, size_t n) {
  uint8_t *b = (uint8_t *)p;
  while (n >= 8) { uint64_t v = next(); memcpy(b, &v, 8); b += 8; n -= 8; }
  if (n) { uint64_t v = next(); memcpy(b, &v, n); }
}

Bytes Rng::bytes(size_t n) { Bytes b(n); if (n) fill(b.data(), n); return b; }

Bytes Rng::special(size_t n) {
  Bytes b(n);
  if (!n) return b;
  switch (below(10)) {
    case 0: case 1: case 2: fill(b.data(), n); break;
    case 3: break;
    case 4: memset(b.data(), 0xff, n); break;
    case 5: case 6: {  // long runs of equal bits
      size_t bits = n * 8, pos = 0; int v = below(2);
      size_t maxrun = 1 + below(bits);
      while (pos < bits) {
        size_t run = 1 + below(maxrun);
        for (size_t i = 0; i < run && pos < bits; i++, pos++) if (v) b[pos >> 3] |= 1 << (pos & 7);
        v ^= 1;
      }
      break;
    }
    case 7: {  // sparse
      size_t k = 1 + below(4);
      for (size_t i = 0; i < k; i++) { size_t q = below(n * 8); b[q >> 3] |= 1 << (q & 7); }
      break;
    }
    case 8: {  // complement of sparse
      memset(b.data(), 0xff, n);
      size_t k = 1 + below(4);
      for (size_t i = 0; i < k; i++) { size_t q = below(n * 8); b[q >> 3] &= ~(1 << (q & 7)); }
      break;
    }
    default: {  // words of 00/ff/random
      for (size_t i = 0; i < n; i += 4) {
        int m = below(4);
        for (size_t j = i; j < i + 4 && j < n; j++) b[j] = m == 0 ? 0 : m == 1 ? 0xff : (uint8_t)next();
      }
    }
  }
  return b;
}

size_t Rng::big(size_t max, size_t block, unsigned one_in) {
  if (!chance(1, one_in)) return len(max, block);
  if (chance(1, 3)) return below(70000);
  return ((size_t)1 << range(8, 17)) + below(5) - 2;
}

size_t Rng::len(size_t max, size_t block) {
  size_t n;
  switch (below(6)) {
    case 0: n = below(3); break;
    case 1: case 2: {
      size_t k = below(max / (block ? block : 1) + 1);
      long d = (long)below(5) - 2;
      long v = (long)(k * block) + d;
      n = v < 0 ? 0 : (size_t)v;
      break;
    }
    case 3: n = below(block * 2 + 1); break;
    default: n = below(max + 1); break;
  }
  return n > max ? max : n;
}

std::vector<size_t> Rng::split(size_t n, size_t block) {
  std::vector<size_t> v;
  int style = below(6);
  size_t left = n;
  if (style == 0) { v.push_back(n); return v; }
  if (block == 0) block = 16;
  while (left) {
    size_t k;
    switch (style) {
      case 1: k = 1; break;
      case 2: k = block; break;
      case 3: k = below(block + 2); break;
      case 4: k = below(3) ? range(0, 2 * block + 1) : 0; break;
      default: k = below(left + 1); if (below(8) == 0) k = left; break;
    }
    if (style == 1 && n > 600) k = range(1, 7);
    if (k > left) k = left;
    if (v.size() > 400) k = left;
    v.push_back(k);
    left -= k;
  }
  if (below(4) == 0) v.push_back(0);
  if (below(4) == 0) v.insert(v.begin(), 0);
  return v;
}

static const size_t CAN = 32;

Buf::Buf(size_t n, int fill) : n_(n) {
#ifdef VH_SAN
  raw_ = (uint8_t *)::operator new(n);
  p_ = raw_;
#else
  raw_ = (uint8_t *)::operator new(n + 2 * CAN);
  p_ = raw_ + CAN;
  memset(raw_, 0xc3, CAN);
  memset(p_ + n, 0xc3, CAN);
#endif
  if (n && fill >= 0) memset(p_, fill, n);
}

Buf::Buf(const Bytes &b) : Buf(b.size(), -1) { if (n_) memcpy(p_, b.data(), n_); }

Buf::~Buf() {
#ifndef VH_SAN
  for (size_t i = 0; i < CAN; i++)
    if (raw_[i] != 0xc3 || p_[n_ + i] != 0xc3) { viol("buffer-overrun", "write outside a %zu-byte buffer", n_); break; }
#endif
  ::operator delete(raw_);
}

In::In(const Bytes &b) : b_(b) { h_ = fnv(b_.p(), b_.size()); }
In::~In() { if (fnv(b_.p(), b_.size()) != h_) viol("input-modified", "a read-only input of %zu bytes was changed", b_.size()); }

std::string hex(const void *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  std::string s;
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
  return s;
}
std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
Bytes unhex(const char *s) {
  Bytes b;
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  std::string t;
  for (; *s; s++) if (*s != ' ' && *s != '\n') t += *s;
  if (t.size() & 1) t = "0" + t;
  for (size_t i = 0; i + 1 < t.size(); i += 2) b.push_back(v(t[i]) * 16 + v(t[i + 1]));
  return b;
}

std::string fmt(const char *f, ...) {
  char buf[4096];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}

Case *cur;
const char *config = "";
bool is64 = sizeof(void *) == 8;

static std::vector<Test> &tests() { static std::vector<Test> t; return t; }
void add(const Test &t) { tests().push_back(t); }

static std::map<std::string, uint64_t> events;
static uint64_t evaluations;
static std::unordered_set<uint64_t> distinct;
static std::vector<std::string> samples;
static std::map<std::string, unsigned> viol_count;
static FILE *violf;
static bool case_failed;
static std::map<std::string, uint64_t> per_test;

void ev(const char *name, uint64_t n) { events[name] += n; }

void eval(uint64_t key, bool nontrivial) {
  evaluations++;
  if (cur) per_test[cur->test]++;
  if (nontrivial && distinct.size() < 400000) distinct.insert(mix64(key ^ fnv(cur ? cur->test : "", cur ? strlen(cur->test) : 0)));
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch);
    else o += ch;
  }
  return o;
}

void viol(const char *key, const char *f, ...) {
  char buf[8192];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  static std::mutex lock;
  std::lock_guard<std::mutex> g(lock);
  case_failed = true;
  std::string k = std::string(cur ? cur->test : "?") + ":" + key;
  if (viol_count[k]++ >= 5) return;
  fprintf(violf ? violf : stderr, "{\"key\": \"%s\", \"test\": \"%s\", \"idx\": %llu, \"detail\": \"%s\"}\n",
          jesc(k).c_str(), cur ? cur->test : "?", cur ? (unsigned long long)cur->idx : 0ull, jesc(buf).c_str());
  fflush(violf ? violf : stderr);
}

bool failed() { return case_failed; }

void sample(const std::string &s) {
  static std::map<std::string, int> n;
  if (cur && n[cur->test]++ < 1 && samples.size() < 60) samples.push_back(std::string(cur->test) + ": " + s.substr(0, 400));
}

bool eq(const char *key, const Bytes &got, const Bytes &want, const char *f, ...) {
  if (got == want) return true;
  char buf[2048];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  viol(key, "%s: got %s want %s", buf, hex(got).substr(0, 1200).c_str(), hex(want).substr(0, 1200).c_str());
  return false;
}

bool eqi(const char *key, long long got, long long want, const char *f, ...) {
  if (got == want) return true;
  char buf[4096];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  viol(key, "%s: got %lld want %lld", buf, got, want);
  return false;
}

struct Progress { char test[64]; uint64_t idx; };
static Progress *prog;
static unsigned cpu_limit = 60;

static void on_prof(int) {
  static const char m[] = "VH-HANG: case exceeded its CPU budget\n";
  ssize_t r = write(2, m, sizeof m - 1); (void)r;
  _exit(97);
}

static void arm() {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = cpu_limit;
  setitimer(ITIMER_PROF, &it, nullptr);
}

}  // namespace vh

using namespace vh;

extern "C" long vh_live(void) __attribute__((weak));             // balance.cpp, when linked

int main(int argc, char **argv) {
#if defined(__has_feature)
#  if __has_feature(memory_sanitizer)
  __msan_scoped_disable_interceptor_checks();     // libstdc++ is not instrumented: its strings look uninitialised to libc wrappers
#  endif
#endif
  uint64_t seed = 1, shard = 0, nshards = 1, only = ~0ull, start = 0;
  double mult = 1;
  std::string out, only_test, progress;
  int scale = 1;
  bool san = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char * { if (++i >= argc) { fprintf(stderr, "missing value\n"); exit(96); } return argv[i]; };
    if (a == "--seed") seed = strtoull(val(), 0, 0);
    else if (a == "--shard") shard = strtoull(val(), 0, 0);
    else if (a == "--nshards") nshards = strtoull(val(), 0, 0);
    else if (a == "--mult") mult = atof(val());
    else if (a == "--scale") scale = atoi(val());
    else if (a == "--san") san = true;
    else if (a == "--config") config = val();
    else if (a == "--out") out = val();
    else if (a == "--progress") progress = val();
    else if (a == "--test") only_test = val();
    else if (a == "--idx") only = strtoull(val(), 0, 0);
    else if (a == "--start") start = strtoull(val(), 0, 0);
    else if (a == "--cpu") cpu_limit = atoi(val());
    else if (a == "--list") { for (auto &t : tests()) printf("%s %llu\n", t.name, (unsigned long long)t.quick); return 0; }
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 96; }
  }
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Progress))) return 96;
    prog = (Progress *)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (prog == MAP_FAILED) return 96;
  } else {
    prog = (Progress *)calloc(1, sizeof(Progress));
  }
  if (!out.empty()) violf = fopen((out + ".viol").c_str(), "w");
  signal(SIGPROF, on_prof);
  uint64_t ncases = 0;
  for (auto &t : tests()) {
    if (!only_test.empty() && only_test != t.name) continue;
    double q = (double)t.quick * mult / (san ? (t.san_div ? t.san_div : 1) : 1);
    uint64_t n = q < 1 ? 1 : (uint64_t)q;
    for (uint64_t i = start; i < n; i++) {
      if (only != ~0ull) { i = only; }
      else if (i % nshards != shard) continue;
      Case c;
      c.test = t.name; c.idx = i; c.scale = scale;
      c.rng.reseed(mix64(seed * 1000003 + fnv(t.name, strlen(t.name))) ^ mix64(i * 0x9e37 + fnv(config, strlen(config))));
      cur = &c;
      strncpy(prog->test, t.name, sizeof(prog->test) - 1);
      prog->idx = i;
      case_failed = false;
      arm();
      Case again = c;
      long before = vh_live ? vh_live() : 0;
      t.fn(c);
      if (vh_live) {
        ev("cases_balanced");
        // what is still held may be kept for the process (shared contexts, caches): only what a second run of the same case adds is lost
        if (vh_live() > before) {
          before = vh_live();
          cur = &again;
          arm();
          t.fn(again);
          ev("cases_repeated");
          if (vh_live() > before) viol("leak", "%ld blocks allocated by the library were not returned", vh_live() - before);
        }
      }
      cur = nullptr;
      ncases++;
      if (only != ~0ull) break;
    }
  }
  struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr);
  strcpy(prog->test, "done");
  FILE *f = out.empty() ? stdout : fopen((out + ".json").c_str(), "w");
  if (!f) return 96;
  fprintf(f, "{\"cases\": %llu, \"evaluations\": %llu, \"distinct\": %llu, \"events\": {", (unsigned long long)ncases,
          (unsigned long long)evaluations, (unsigned long long)distinct.size());
  bool first = true;
  for (auto &e : events) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(e.first).c_str(), (unsigned long long)e.second); first = false; }
  fprintf(f, "}, \"per_test\": {");
  first = true;
  for (auto &e : per_test) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(e.first).c_str(), (unsigned long long)e.second); first = false; }
  fprintf(f, "}, \"samples\": [");
  first = true;
  for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(s).c_str()); first = false; }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
  if (!out.empty()) {
    FILE *d = fopen((out + ".dist").c_str(), "wb");
    if (d) { for (uint64_t x : distinct) fwrite(&x, 8, 1, d); fclose(d); }
  }
  if (violf) fclose(violf);
  return viol_count.empty() ? 0 : 98;
}
