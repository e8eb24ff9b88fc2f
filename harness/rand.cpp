// C26: system randomness under operating-system faults, forks and threads
#include "vh.hpp"
#include <torsion/rand.h>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;

// --- the simulated operating system --------------------------------------------------------------
enum Out { OK, SHORT, INTR, AGAIN, HARD, EOFF, REGULAR };
struct World {
  bool on = false;                       // simulate instead of passing through
  Rng rng{1};
  std::vector<Out> getrandom, open_random, open_urandom, fstat_, poll_, read_;   // consumed from the front, then `rest`
  size_t ig = 0, ir = 0, iu = 0, ifs = 0, ip = 0, id = 0;
  Out g_rest = OK, r_rest = OK, u_rest = OK, f_rest = OK, p_rest = OK, d_rest = OK;
  int hard_errno = ENOSYS, uuid = 0, hw = 0, rdrand = 0;   // hw: 0 absent, 1 works
  bool cloexec_unknown = false, fixed = false, nosys = false;   // nosys: only the processor delivers
  Bytes fixed_seed;
  size_t fixed_at = 0;
  long pid = 0;                          // 0: the real one
  Bytes delivered;                       // every genuine byte handed out, in order
  std::map<int, int> fds;                // open descriptors: 0 random, 1 urandom
  int next_fd = 900, calls = 0, bogus = 0, wrong_fd = 0, uuids = 0;
  std::map<int, bool> regular;
  Bytes give(size_t n) {
    Bytes b = rng.bytes(n);
    if (fixed) for (auto &x : b) x = fixed_at < fixed_seed.size() ? fixed_seed[fixed_at++] : 0x5a;
    delivered.insert(delivered.end(), b.begin(), b.end());
    return b;
  }
  Out take(std::vector<Out> &v, size_t &i, Out rest) { calls++; return i < v.size() ? v[i++] : rest; }
};
static World W;
static int hooks;      // which of the library's internal source functions are separate functions that the simulation replaces
static __thread bool inside;   // only calls made by the library on this thread are simulated
struct Inside { Inside() { inside = true; } ~Inside() { inside = false; } };
#define SIM (W.on && inside)

extern "C" {
long __real_syscall(long n, long a, long b, long c, long d, long e, long f);
int __real_open(const char *, int, int);
int __real_open64(const char *, int, int);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
int __real_poll(struct pollfd *, nfds_t, int);
int __real_fstat(int, struct stat *);
int __real_fcntl(int, int, long);
pid_t __real_getpid(void);
__attribute__((weak)) int __real_torsion__hwrand(void *, size_t);
__attribute__((weak)) int __real_torsion__has_rdrand(void);
__attribute__((weak)) int __real_torsion__has_sysrand(void);
__attribute__((weak)) uint32_t __real_torsion__rdrand32(void);
ssize_t __real_getrandom(void *, size_t, unsigned);
int __real_getentropy(void *, size_t);

static long sim_getrandom(void *buf, size_t n) {
  switch (W.take(W.getrandom, W.ig, W.g_rest)) {
    case OK: { Bytes b = W.give(std::min<size_t>(n, 256)); memcpy(buf, b.data(), b.size()); return b.size(); }
    case SHORT: { Bytes b = W.give(1 + W.rng.below(std::min<size_t>(n, 256))); memcpy(buf, b.data(), b.size()); return b.size(); }
    case INTR: errno = EINTR; return -1;
    case AGAIN: errno = EAGAIN; return -1;
    default: errno = W.hard_errno; return -1;
  }
}
struct sysctl_args { int *name; int nlen; void *oldval; size_t *oldlenp; void *newval; size_t newlen; };
long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  if (!SIM) return __real_syscall(nr, a, b, c, d, e, f);
  if (nr == SYS_getrandom) return sim_getrandom((void *)a, b);
  if (nr == SYS__sysctl) {
    W.calls++;
    struct sysctl_args *s = (struct sysctl_args *)a;
    if (!W.uuid || s->nlen != 3 || *s->oldlenp < 16) { errno = ENOSYS; return -1; }
    Bytes u = W.give(16);
    W.delivered.erase(W.delivered.end() - 8);             // the two bytes with fixed bits do not count as entropy
    W.delivered.erase(W.delivered.end() - 9);
    W.uuids++;
    memcpy(s->oldval, u.data(), W.uuid == 2 ? 8 : 16);
    *s->oldlenp = W.uuid == 2 ? 8 : 16;
    ((uint8_t *)s->oldval)[6] = 0x40 | (u[6] & 15);       // the fixed bits of a version 4 UUID
    if (W.uuid == 1) ((uint8_t *)s->oldval)[8] = 0x80 | (u[8] & 63);
    return 0;
  }
  errno = ENOSYS;
  return -1;
}
ssize_t __wrap_getrandom(void *p, size_t n, unsigned f) { return SIM ? sim_getrandom(p, n) : __real_getrandom(p, n, f); }
int __wrap_getentropy(void *p, size_t n) {
  if (!SIM) return __real_getentropy(p, n);
  if (W.take(W.getrandom, W.ig, W.g_rest) == HARD) { errno = W.hard_errno; return -1; }
  Bytes b = W.give(n);
  memcpy(p, b.data(), n);
  return 0;
}
static int sim_open(const char *name, int flags) {
  int which = !strcmp(name, "/dev/random") ? 0 : !strcmp(name, "/dev/urandom") ? 1 : -1;
  W.calls++;
  if (which < 0) { errno = ENOENT; return -1; }
  if (W.cloexec_unknown && (flags & O_CLOEXEC)) { errno = EINVAL; return -1; }
  Out o = which ? W.take(W.open_urandom, W.iu, W.u_rest) : W.take(W.open_random, W.ir, W.r_rest);
  if (o == INTR) { errno = EINTR; return -1; }
  if (o == HARD) { errno = W.rng.chance(1, 2) ? EMFILE : ENOENT; return -1; }
  int fd = W.next_fd++;
  W.fds[fd] = which;
  W.regular[fd] = o == REGULAR;
  return fd;
}
int __wrap_open(const char *n, int f, int m) { return SIM ? sim_open(n, f) : __real_open(n, f, m); }
int __wrap_open64(const char *n, int f, int m) { return SIM ? sim_open(n, f) : __real_open64(n, f, m); }
int __wrap_close(int fd) {
  if (!SIM) return __real_close(fd);
  if (!W.fds.erase(fd)) { W.wrong_fd++; errno = EBADF; return -1; }
  if (W.rng.chance(1, 8)) { errno = EINTR; return -1; }
  return 0;
}
int __wrap_fcntl(int fd, int cmd, long arg) {
  if (!SIM) return __real_fcntl(fd, cmd, arg);
  if (!W.fds.count(fd)) W.wrong_fd++;
  if (W.rng.chance(1, 4)) { errno = EIO; return -1; }
  return 0;
}
static int sim_fstat(int fd, struct stat *st) {
  if (!W.fds.count(fd)) { W.wrong_fd++; errno = EBADF; return -1; }
  Out o = W.take(W.fstat_, W.ifs, W.f_rest);
  if (o == HARD) { errno = EIO; return -1; }
  memset(st, 0, sizeof(*st));
  if (o == REGULAR) W.regular[fd] = true;
  st->st_mode = W.regular[fd] ? S_IFREG | 0644 : S_IFCHR | 0666;
  return 0;
}
int __wrap_fstat(int fd, struct stat *st) { return SIM ? sim_fstat(fd, st) : __real_fstat(fd, st); }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
  if (!SIM) return __real_poll(p, n, t);
  for (nfds_t i = 0; i < n; i++) if (!W.fds.count(p[i].fd)) W.wrong_fd++;
  switch (W.take(W.poll_, W.ip, W.p_rest)) {
    case INTR: errno = EINTR; return -1;
    case AGAIN: errno = EAGAIN; return -1;
    case HARD: errno = ENOMEM; return -1;
    default: for (nfds_t i = 0; i < n; i++) p[i].revents = POLLIN; return n;
  }
}
ssize_t __wrap_read(int fd, void *buf, size_t n) {
  if (!SIM) return __real_read(fd, buf, n);
  if (!W.fds.count(fd)) { W.wrong_fd++; errno = EBADF; return -1; }
  Out o = W.take(W.read_, W.id, W.d_rest);
  if (o == INTR) { errno = EINTR; return -1; }
  if (o == AGAIN) { errno = EAGAIN; return -1; }
  if (o == HARD) { errno = EIO; return -1; }
  if (o == EOFF) return 0;
  size_t k = o == SHORT ? 1 + W.rng.below(n) : n;
  if (W.regular[fd]) { memset(buf, 0x77, k); W.bogus++; return k; }     // a planted file: nothing of this is entropy
  Bytes b = W.give(k);
  memcpy(buf, b.data(), k);
  return k;
}
pid_t __wrap_getpid(void) { return SIM && W.pid ? W.pid : __real_getpid(); }
int __wrap_torsion__hwrand(void *dst, size_t n) {
  if (SIM) hooks |= 1;
  if (!SIM) return __real_torsion__hwrand(dst, n);
  if (!W.hw) { memset(dst, 0, n); return 0; }
  Bytes b = W.nosys ? W.give(n) : W.rng.bytes(n);
  memcpy(dst, b.data(), n);
  return 1;
}
int __wrap_torsion__has_sysrand(void) { if (SIM) hooks |= 2; return SIM ? !W.nosys : __real_torsion__has_sysrand(); }
int __wrap_torsion__has_rdrand(void) { return SIM ? W.rdrand : __real_torsion__has_rdrand(); }
uint32_t __wrap_torsion__rdrand32(void) { return SIM ? (uint32_t)W.rng.next() : __real_torsion__rdrand32(); }
}

static bool processor_only() {     // can the absence of a system source be simulated?
  static int can = -1;
  if (can < 0) {
    World keep = W, w;
    w.on = w.nosys = true;
    w.hw = 1;
    hooks = 0;
    W = w;
    uint8_t b[16];
    { Inside g; (void)!torsion_getentropy(b, 16); }
    can = hooks == 3;
    W = keep;
  }
  return can;
}
static Out transient(Rng &r, bool with_short) { unsigned k = r.below(with_short ? 3 : 2); return k == 0 ? INTR : k == 1 ? AGAIN : SHORT; }
struct Plan { bool getrandom_hard, device_hard, uuid_ok, nosys; };
static bool must_deliver(const Plan &p) { return p.nosys ? W.hw : !p.getrandom_hard || !p.device_hard || p.uuid_ok; }
// fills the world with a fault script; says which sources can deliver
static Plan script(Case &c) {
  World w;
  w.rng = Rng(c.rng.next());
  Plan p = {false, false, false, false};
  auto mix = [&](std::vector<Out> &v, bool sh, int max) { for (int i = c.rng.below(max); i > 0; i--) v.push_back(transient(c.rng, sh)); };
  int mode = c.rng.below(6);   // 0 healthy, 1 getrandom only transient, 2 no getrandom, 3 getrandom breaks midway, 4/5 device broken too
  static const int errs[] = {ENOSYS, EPERM, EINVAL, EFAULT, EIO};
  w.hard_errno = errs[c.rng.below(5)];
  if (mode >= 1) mix(w.getrandom, true, 8);
  if (mode >= 2) {
    p.getrandom_hard = true;
    if (mode == 2) w.getrandom.clear();
    w.getrandom.push_back(HARD);
    if (c.rng.chance(1, 2)) w.g_rest = HARD;
    mix(w.open_random, false, 3); mix(w.open_urandom, false, 3); mix(w.poll_, false, 4); mix(w.read_, true, 8);
    for (auto &o : w.open_random) o = INTR;
    for (auto &o : w.open_urandom) o = INTR;
    w.cloexec_unknown = c.rng.chance(1, 4);
  }
  if (mode >= 4) {
    p.device_hard = true;
    switch (c.rng.below(7)) {
      case 0: w.open_random.push_back(HARD); break;
      case 1: w.open_urandom.push_back(HARD); break;
      case 2: w.open_random.push_back(REGULAR); break;
      case 3: w.open_urandom.push_back(REGULAR); break;
      case 4: w.fstat_ = c.rng.chance(1, 2) ? std::vector<Out>{HARD} : std::vector<Out>{OK, HARD}; break;
      case 5: w.poll_.push_back(HARD); break;
      default: w.read_.push_back(c.rng.chance(1, 2) ? HARD : EOFF); if (c.rng.chance(1, 2)) w.read_.insert(w.read_.begin(), SHORT); break;
    }
    w.uuid = c.rng.below(4);
    if (w.uuid == 3) w.uuid = 0;
    p.uuid_ok = w.uuid == 1;
  }
  w.hw = c.rng.chance(1, 2);
  w.rdrand = c.rng.chance(1, 3);
  p.nosys = w.nosys = c.rng.chance(1, 8) && processor_only();
  w.on = true;
  W = w;
  return p;
}
static bool subsequence(const Bytes &a, const Bytes &of) {
  size_t i = 0;
  for (size_t j = 0; j < of.size() && i < a.size(); j++) if (of[j] == a[i]) i++;
  return i == a.size();
}
static bool contained(const Bytes &a, const Bytes &of) {
  int n[256] = {0};
  for (auto x : of) n[x]++;
  for (auto x : a) if (--n[x] < 0) return false;
  return true;
}
static bool zeros(const Bytes &b) { for (auto x : b) if (x) return false; return true; }
static std::string plan_text(const Plan &p) { return fmt("%sgetrandom %s, device %s, uuid %d, errno %d, calls %d", p.nosys ? "no system source, " : "", p.getrandom_hard ? "fails" : "works", p.device_hard ? "broken" : "works", W.uuid, W.hard_errno, W.calls); }
static void aftermath(const Plan &p, int e0) {
  if (errno != e0) viol("errno", "changed from %d to %d (%s)", e0, errno, plan_text(p).c_str());
  if (!W.fds.empty()) viol("descriptor-leak", "%zu descriptors left open (%s)", W.fds.size(), plan_text(p).c_str());
  if (W.wrong_fd) viol("wrong-descriptor", "%d operations on descriptors it does not own (%s)", W.wrong_fd, plan_text(p).c_str());
}
// one request to the raw source
VH_TEST(getentropy, 20000, 8) {
  Plan p = script(c);
  size_t n = c.rng.chance(1, 6) ? c.rng.below(3) : c.rng.chance(1, 3) ? 250 + c.rng.below(20) : c.rng.below(900);
  Buf out(n, 0x33);
  int e0 = errno = 7000 + (int)c.rng.below(100), r;
  { Inside g; r = torsion_getentropy(out, n); }
  int e1 = errno;
  W.on = false;
  errno = e1;
  aftermath(p, e0);
  Bytes o = out.get();
  // a hard failure placed after the last needed byte is never reached
  bool reached = p.getrandom_hard && W.ig >= W.getrandom.size();
  bool must = must_deliver(p);
  if (r) {
    if (W.uuids ? !contained(o, W.delivered) : !subsequence(o, W.delivered)) viol("not-entropy", "n=%zu output %s is not made of delivered bytes (%s)", n, hex(o).c_str(), plan_text(p).c_str());
    ev(p.nosys ? "entropy_processor" : reached ? "entropy_fallback" : "entropy_direct");
  } else {
    if (!zeros(o)) viol("failure-not-zeroed", "n=%zu output %s (%s)", n, hex(o).c_str(), plan_text(p).c_str());
    if (must) viol("refused", "n=%zu: a working source existed (%s)", n, plan_text(p).c_str());
    ev("entropy_failed");
  }
  if (W.bogus) viol("planted-file-read", "entropy was read from a regular file (%s)", plan_text(p).c_str());
  if (W.uuid == 2) ev("short_uuid");
  sample(plan_text(p));
  eval(mix64(c.rng.next() ^ n));
}
// histories of generator calls, process changes and source failures
VH_TEST(history, 3000, 8) {
  static long pid = 100000;
  long first = ++pid;
  std::set<Bytes> seen;
  std::map<long, size_t> fresh;       // genuine bytes delivered for this process so far
  long now = first;
  pid += 50;
  bool seeded = false;
  int steps = 4 + c.rng.below(20);
  for (int s = 0; s < steps; s++) {
    if (c.rng.chance(1, 4)) { now = ++pid; seeded = false; ev("process_changes"); }
    Plan p = script(c);
    W.pid = now;
    int kind = c.rng.below(3), r;
    size_t n = kind == 0 ? c.rng.below(200) : 0;
    uint32_t num = 0x33333333, max = c.rng.chance(1, 3) ? 1 + c.rng.below(10) : (uint32_t)c.rng.next();
    Buf out(n, 0x33);
    int e0 = errno = 7000 + (int)c.rng.below(100);
    { Inside g; r = kind == 0 ? torsion_getrandom(out, n) : kind == 1 ? torsion_random(&num) : torsion_uniform(&num, max); }
    int e1 = errno;
    W.on = false;
    errno = e1;
    aftermath(p, e0);
    if (W.bogus) viol("planted-file-read", "entropy was read from a regular file (%s)", plan_text(p).c_str());
    bool must = must_deliver(p);
    if (!r) {
      if (seeded) viol("seeded-generator-failed", "step %d", s);
      if (must) viol("generator-refused", "a working source existed (%s)", plan_text(p).c_str());
      if (!zeros(out.get()) || (kind && num)) viol("failure-not-zeroed", "kind %d output %s num %u", kind, hex(out.get()).c_str(), num);
      ev("history_refused");
    } else {
      if (!seeded && W.delivered.size() < 32) viol("unseeded-output", "only %zu bytes of entropy were drawn for a new process (%s)", W.delivered.size(), plan_text(p).c_str());
      if (!seeded) ev("seedings");
      seeded = true;
      if (kind == 2 && (max <= 1 ? num != 0 : num >= max)) viol("uniform-range", "%u is not below %u", num, max);
      if (n >= 16) {
        if (!seen.insert(out.get()).second) viol("repeated-output", "n=%zu %s", n, hex(out.get()).c_str());
        Bytes b = out.get();
        for (size_t i = 0; i + 16 <= b.size(); i++) if (zeros(Bytes(b.begin() + i, b.begin() + i + 16)) || Bytes(b.begin() + i, b.begin() + i + 16) == Bytes(16, 0x33)) { viol("unfilled-output", "n=%zu %s", n, hex(b).c_str()); break; }
      }
      ev("history_outputs");
    }
  }
  eval(mix64(c.rng.next()));
}
// every seed bit matters, and nothing of the seed shows in the output
VH_TEST(seed_bits, 1024, 4) {
  static long pid = 500000;
  Bytes seed = c.rng.bytes(64), flip = seed;
  size_t bit = c.idx % 512;
  flip[bit / 8] ^= 1 << bit % 8;
  Bytes o[3];
  for (int i = 0; i < 3; i++) {
    World w;
    w.on = true;
    w.fixed = true;
    w.nosys = c.idx / 512 % 2 && processor_only();
    w.hw = w.nosys;
    w.fixed_seed = i == 1 ? flip : seed;
    w.pid = ++pid;
    W = w;
    Buf out(64);
    int r;
    { Inside g; r = torsion_getrandom(out, 64); }
    W.on = false;
    if (!r || W.delivered.size() < 32) { viol("seed-result", "r=%d drawn=%zu", r, W.delivered.size()); return; }
    if (bit / 8 >= W.delivered.size()) { ev("bit_not_drawn"); return; }
    o[i] = out.get();
    for (size_t k = 0; k + 8 <= 64; k++) if (std::search(o[i].begin(), o[i].end(), w.fixed_seed.begin() + k, w.fixed_seed.begin() + k + 8) != o[i].end()) viol("seed-exposed", "seed %s output %s", hex(seed).c_str(), hex(o[i]).c_str());
  }
  if (o[0] == o[1]) viol("seed-bit-ignored", "bit %zu of the seed has no effect on the output", bit);
  ev("seed_bits");
  eval(mix64(c.idx) ^ fnv(seed.data(), 64));
}
VH_TEST(uniform, 48, 4) {
  static const uint32_t maxes[] = {0xC0000000u, 0xAAAAAAABu, 0x99999999u, 3, 6, 10, 0x80000001u, 7, 0xFFFFFFFFu, 0x60000000u, 1u << 31, 5u << 29};
  uint32_t max = maxes[c.idx % 12];
  const int N = 6000, B = max < 16 ? (int)max : 4;
  std::vector<int> hit(B);
  for (int i = 0; i < N; i++) {
    uint32_t v = 0;
    if (!torsion_uniform(&v, max) || v >= max) { viol("uniform-range", "%u is not below %u", v, max); return; }
    hit[(uint64_t)v * B / max]++;
  }
  // six standard deviations and more: about one false alarm in 10^8 per bucket
  double mean = (double)N / B, sd = __builtin_sqrt(mean * (1 - 1.0 / B));
  for (int b = 0; b < B; b++) if (__builtin_fabs(hit[b] - mean) > 7 * sd) viol("uniform-bias", "max %u: bucket %d of %d hit %d times, expected %.0f", max, b, B, hit[b], mean);
  ev("uniform_draws", N);
  eval(mix64(c.idx * 31 + 7));
}
// bits of the plain generators are balanced
VH_TEST(balance, 24, 4) {
  std::vector<int> ones(32);
  const int N = 4000;
  for (int i = 0; i < N; i++) { uint32_t v = 0; if (!torsion_random(&v)) { viol("random-result", "failed on a healthy system"); return; } for (int b = 0; b < 32; b++) ones[b] += v >> b & 1; }
  for (int b = 0; b < 32; b++) if (__builtin_abs(ones[b] - N / 2) > 7 * 32) viol("random-bias", "bit %d set %d times in %d", b, ones[b], N);
  Buf big(1 << 16);
  if (!torsion_getrandom(big, big.size())) viol("getrandom-result", "failed on a healthy system");
  std::vector<int> cnt(256);
  for (size_t i = 0; i < big.size(); i++) cnt[big[i]]++;
  for (int b = 0; b < 256; b++) if (__builtin_abs(cnt[b] - 256) > 8 * 16) viol("getrandom-bias", "byte %d seen %d times in 65536", b, cnt[b]);
  ev("balance_draws", N);
  eval(mix64(c.idx * 77 + 3));
}
// --- real processes and threads --------------------------------------------------------------
static void draw(Bytes &o) {
  uint8_t b[24];
  torsion_getrandom(b, 24);
  o.insert(o.end(), b, b + 24);
  for (int i = 0; i < 6; i++) { uint32_t v = 0; torsion_random(&v); o.insert(o.end(), (uint8_t *)&v, (uint8_t *)&v + 4); }
  for (int i = 0; i < 6; i++) { uint32_t v = 0; torsion_uniform(&v, 0xffffffffu); o.insert(o.end(), (uint8_t *)&v, (uint8_t *)&v + 4); }
}
static void put(int fd, const Bytes &b) { size_t i = 0; while (i < b.size()) { ssize_t k = write(fd, b.data() + i, b.size() - i); if (k <= 0) _exit(9); i += k; } }
VH_TEST(forks, 60, 2) {
  int pfd[2];
  if (pipe(pfd)) return;
  Bytes mine;
  int before = c.rng.below(4);         // how much the parent used the generator first
  for (int i = 0; i < before; i++) draw(mine);
  if (before && c.rng.chance(1, 2)) { uint32_t v; torsion_random(&v); }   // leave a partly used pool behind
  int kids = 2 + c.rng.below(3);
  bool deep = c.rng.chance(1, 2), late = c.rng.chance(1, 2);
  for (int k = 0; k < kids; k++) {
    pid_t p = fork();
    if (p < 0) { ev("fork_unavailable"); break; }
    if (!p) {
      Bytes o;
      if (!late) draw(o);
      if (deep) {
        pid_t q = fork();
        if (!q) { Bytes g; draw(g); draw(g); put(pfd[1], g); _exit(0); }
        int st;
        if (q > 0) waitpid(q, &st, 0);
      }
      draw(o);
      put(pfd[1], o);
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { viol("child-failed", "status %x", st); }
    draw(mine);
  }
  close(pfd[1]);
  Bytes all = mine;
  uint8_t buf[4096];
  ssize_t n;
  while ((n = read(pfd[0], buf, sizeof(buf))) > 0) all.insert(all.end(), buf, buf + n);
  close(pfd[0]);
  std::set<Bytes> s;
  size_t cnt = 0;
  for (size_t i = 0; i + 24 <= all.size(); i += 24, cnt++) {
    Bytes w(all.begin() + i, all.begin() + i + 24);
    if (!s.insert(w).second) viol("shared-after-fork", "two processes drew %s (parent drew %d times before)", hex(w).c_str(), before);
    for (size_t k = 0; k + 16 <= 24; k++) if (zeros(Bytes(w.begin() + k, w.begin() + k + 16))) { viol("zero-output", "%s", hex(w).c_str()); break; }
  }
  ev("fork_outputs", cnt);
  eval(mix64(c.rng.next()));
}
struct Thr { Bytes out; int rounds; pthread_barrier_t *bar; };
static void *thread_main(void *a) {
  Thr *t = (Thr *)a;
  pthread_barrier_wait(t->bar);
  for (int i = 0; i < t->rounds; i++) draw(t->out);
  return nullptr;
}
VH_TEST(threads, 60, 2) {
  int n = 2 + c.rng.below(7);
  std::vector<Thr> t(n);
  std::vector<pthread_t> h(n);
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, n);
  Bytes all;
  if (c.rng.chance(1, 2)) draw(all);
  for (int i = 0; i < n; i++) { t[i].rounds = 1 + c.rng.below(20); t[i].bar = &bar; if (pthread_create(&h[i], nullptr, thread_main, &t[i])) abort(); }
  for (int i = 0; i < n; i++) { pthread_join(h[i], nullptr); all.insert(all.end(), t[i].out.begin(), t[i].out.end()); }
  pthread_barrier_destroy(&bar);
  draw(all);
  std::set<Bytes> s;
  size_t cnt = 0;
  for (size_t i = 0; i + 24 <= all.size(); i += 24, cnt++) if (!s.insert(Bytes(all.begin() + i, all.begin() + i + 24)).second) viol("shared-between-threads", "two draws gave the same 24 bytes with %d threads", n);
  ev("thread_outputs", cnt);
  eval(mix64(c.rng.next()));
}
