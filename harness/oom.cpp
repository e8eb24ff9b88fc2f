// C29: who owns memory. Every allocation the library makes is recorded; after a case everything it took must be back.
// Then one allocation (or every one from some point on) fails in a forked copy of the same case: the library has to
// refuse or abort, and may neither crash, lose memory nor report a different result as a success.
#include "api.hpp"
#include <unordered_map>
#include <set>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <torsion/ecc.h>
#include <torsion/encoding.h>
#include <torsion/kdf.h>
#include <torsion/mpi.h>
using namespace api;

namespace {
struct Block { size_t n; void *site; uint64_t order; };
bool on = false;                             // recording
uint64_t order_ = 0, fail_at = 0, failed_n = 0; // fail_at: 1-based number of the first allocation to fail
bool fail_all = false;
void *fail_site = nullptr;
std::unordered_map<void *, Block> &live() { static auto *m = new std::unordered_map<void *, Block>; return *m; }
std::vector<void *> *sites = nullptr;        // call site of each allocation
const char *fault = nullptr;                 // misuse of the allocator
bool refuse(void *site) {
  order_++;
  if (sites) sites->push_back(site);
  if (fail_at && (fail_all ? order_ >= fail_at : order_ == fail_at)) { failed_n++; if (!fail_site) fail_site = site; return true; }
  return false;
}
void took(void *p, size_t n, void *site) { if (p) live()[p] = {n, site, order_}; }
}

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) {
  void *site = __builtin_return_address(0);
  if (on && refuse(site)) return nullptr;
  void *p = __real_malloc(n);
  took(p, n, site);
  return p;
}
void *__wrap_calloc(size_t k, size_t n) {
  void *site = __builtin_return_address(0);
  if (on && refuse(site)) return nullptr;
  void *p = __real_calloc(k, n);
  took(p, k * n, site);
  return p;
}
void *__wrap_realloc(void *p, size_t n) {
  void *site = __builtin_return_address(0);
  if (on && refuse(site)) return nullptr;
  if (p && !live().erase(p)) fault = "realloc of memory the library does not own";
  void *q = __real_realloc(p, n);
  took(q, n, site);
  return q;
}
void __wrap_free(void *p) {
  if (p && !live().erase(p)) { fault = "free of memory the library does not own"; if (on) return; }
  __real_free(p);
}
}

namespace {
typedef std::vector<Item> Trace;
typedef std::function<void(T &)> Work;

// memory still held, as (count, bytes, one site)
struct Held { size_t n = 0, bytes = 0; };
Held held(uint64_t mark) {
  Held h;
  for (auto &b : live()) if (b.second.order > mark) { h.n++; h.bytes += b.second.n; }
  return h;
}
void run(const Work &w, uint64_t seed, Trace &tr, uint64_t *calls = nullptr, uint64_t *ok = nullptr) {
  T t{Rng(seed)};
  t.trace = &tr;
  w(t);
  if (calls) *calls = t.calls;
  if (ok) *ok = t.ok;
}

enum { OK = 0, LEAK = 40, WRONG = 41, MISUSE = 42 };
// the case again, in a child, with one allocation failing
int child(const Work &w, uint64_t seed, const Trace &base, uint64_t at, bool all, int fd) {
  struct rlimit rl = {60, 60};
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGABRT, SIG_DFL);
  Trace tr;
  uint64_t mark = order_;
  fail_at = mark + at;
  fail_all = all;
  run(w, seed, tr);
  fail_at = 0;
  on = false;
  std::string d;
  int rc = OK;
  size_t i = 0;
  while (i < tr.size() && i < base.size() && !strcmp(tr[i].tag, base[i].tag) && tr[i].h == base[i].h) i++;
  if (i < tr.size() || i < base.size()) {
    const Item *x = i < tr.size() ? &tr[i] : nullptr;
    if (!x || !x->number || x->v != 0) { rc = WRONG; d = fmt("item %zu (%s) differs although no call before it reported a failure", i, x ? x->tag : "end"); }
  }
  Held h = held(mark);
  if (h.n) { rc = LEAK; d = fmt("%zu blocks, %zu bytes", h.n, h.bytes); }
  if (fault) { rc = MISUSE; d = fault; }
  const char *tag = i < tr.size() ? tr[i].tag : "none";
  d = std::string(rc == OK ? (i < tr.size() ? "R" : "S") : "X") + tag + "\n" + d;
  ssize_t r = write(fd, d.data(), d.size());
  (void)r;
  return rc;
}

void check(Case &c, const char *name, const Work &w, uint64_t seed, int tries) {
  Trace warm, base, rest;
  run(w, seed, warm);                        // first use fills whatever is kept for the process
  std::vector<void *> where;
  uint64_t mark = order_, calls = 0, ok = 0;
  fault = nullptr;
  sites = &where;
  on = true;
  run(w, seed, base, &calls, &ok);
  on = false;
  sites = nullptr;
  Held h = held(mark);
  if (h.n) viol(fmt("leak:%s", name).c_str(), "seed %llx: %zu blocks (%zu bytes) still held after the case; %llu calls, %llu accepted", (unsigned long long)seed, h.n, h.bytes, (unsigned long long)calls, (unsigned long long)ok);
  if (fault) viol(fmt("misuse:%s", name).c_str(), "seed %llx: %s", (unsigned long long)seed, fault);
  ev("cases_balanced");
  ev("calls", calls);
  ev("calls_accepted", ok);
  ev("calls_refused", calls - ok);
  ev("allocations", where.size());
  uint64_t key = fnv(name, strlen(name), mix64(seed));
  eval(key);
  for (auto &b : live()) if (b.second.order > mark) b.second.order = 0;
  if (where.empty() || failed()) { if (where.empty()) ev("cases_without_allocation"); return; }
  // the allocations to fail: first, last and a random one of every call site
  std::map<void *, std::vector<uint64_t>> by;
  for (size_t i = 0; i < where.size(); i++) by[where[i]].push_back(i + 1);
  std::set<uint64_t> at;
  for (auto &s : by) at.insert(c.rng.chance(1, 2) ? s.second[c.rng.below(s.second.size())] : c.rng.chance(1, 2) ? s.second.front() : s.second.back());
  for (int k = 0; k < tries; k++) at.insert(1 + c.rng.below(where.size()));
  for (uint64_t a : at) {
    bool all = c.rng.chance(1, 3);
    int fd[2];
    if (pipe(fd)) { perror("pipe"); _exit(96); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(96); }
    if (!pid) {
      close(fd[0]);
      on = true;
      _exit(child(w, seed, base, a, all, fd[1]));
    }
    close(fd[1]);
    std::string d;
    char b[512];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) d.append(b, (size_t)n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    ev(all ? "failures_persistent" : "failures_single");
    eval(key ^ mix64(a * 2 + all + 7));
    size_t nl = d.find('\n');
    std::string tag = nl == std::string::npos ? "" : d.substr(1, nl - 1), why = nl == std::string::npos ? d : d.substr(nl + 1);
    std::string ctx = fmt("case %s seed %llx: allocation %llu of %zu fails%s", name, (unsigned long long)seed, (unsigned long long)a, where.size(), all ? ", and all after it" : "");
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) { ev("aborted"); continue; }
    if (WIFSIGNALED(st)) { viol(fmt("%s:%s", WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "hang" : "crash", name).c_str(), "%s: killed by signal %d", ctx.c_str(), WTERMSIG(st)); continue; }
    switch (WEXITSTATUS(st)) {
      case OK: if (d[0] == 'R') { ev("refused"); ev(fmt("refused_by_%s", tag.c_str()).c_str()); } else ev("survived"); break;
      case LEAK: viol(fmt("leak-on-failure:%s", tag.c_str()).c_str(), "%s: %s not returned", ctx.c_str(), why.c_str()); break;
      case WRONG: viol(fmt("wrong-after-failure:%s", name).c_str(), "%s: %s", ctx.c_str(), why.c_str()); break;
      case MISUSE: viol(fmt("misuse-on-failure:%s", name).c_str(), "%s: %s", ctx.c_str(), why.c_str()); break;
      default: viol(fmt("crash:%s", name).c_str(), "%s: the process ended with status %d", ctx.c_str(), WEXITSTATUS(st)); break;
    }
  }
  sample(fmt("%s: %zu allocations from %zu places, %zu failed in turn", name, where.size(), by.size(), at.size()));
}
}

// every entry of the whole-API workload
VH_TEST(api, 4000, 3) {
  auto &es = entries();
  auto &e = es[c.idx % es.size()];
  check(c, e.name, [&](T &t) { e.fn(t); }, c.rng.next(), 2);
}

// contexts and scratches come and go in any order
VH_TEST(contexts, 400, 4) {
  int k = c.idx % 13;
  const char *name = k < 6 ? "weierstrass" : k < 9 ? "edwards" : k < 11 ? "montgomery" : "integers";
  check(c, name, [k](T &t) {
    if (k < 6) {
      wei_curve_t *w = wei_curve_create((wei_curve_id_t)k);
      I en(t.r.bytes(32));
      wei_scratch_t *s = wei_scratch_create(w, 1 + t.r.below(70));
      if (t.r.chance(1, 2)) wei_curve_randomize(w, en);
      wei_scratch_t *s2 = t.r.chance(1, 2) ? wei_scratch_create(w, 1 + t.r.below(5)) : nullptr;
      Buf key(wei_curve_scalar_size(w));
      O pub(wei_curve_field_size(w) + 1);
      size_t n = 0;
      ecdsa_privkey_generate(w, key, en);
      if (t.res("ecdsa_pubkey_create", ecdsa_pubkey_create(w, pub, &n, key, 1))) pub.to(t, "pub", n);
      wei_scratch_destroy(w, s);
      if (s2) wei_scratch_destroy(w, s2);
      wei_curve_destroy(w);
    } else if (k < 9) {
      edwards_curve_t *e = edwards_curve_create((edwards_curve_id_t)(k - 6));
      I en(t.r.bytes(32));
      edwards_scratch_t *s = edwards_scratch_create(e, 1 + t.r.below(70));
      if (t.r.chance(1, 2)) edwards_curve_randomize(e, en);
      Buf key(t.r.bytes(eddsa_privkey_size(e)));
      O pub(eddsa_pubkey_size(e));
      eddsa_pubkey_create(e, pub, key);
      pub.to(t, "pub");
      edwards_scratch_destroy(e, s);
      edwards_curve_destroy(e);
    } else if (k < 11) {
      mont_curve_t *m = mont_curve_create((mont_curve_id_t)(k - 9));
      Buf key(t.r.bytes(ecdh_privkey_size(m)));
      O pub(ecdh_pubkey_size(m));
      ecdh_pubkey_create(m, pub, key);
      pub.to(t, "pub");
      mont_curve_destroy(m);
    } else {
      mpz_t a, b, d;
      mpz_init2(a, 1 + t.r.below(2000));
      mpz_inits(b, d, (mpz_ptr)0);
      Bytes x = t.r.special(1 + t.r.below(90)), y = t.r.special(1 + t.r.below(90));
      mpz_import(a, x.data(), x.size(), 1);
      mpz_import(b, y.data(), y.size(), -1);
      for (int i = (int)t.r.below(6); i >= 0; i--) {
        switch (t.r.below(6)) {
          case 0: mpz_mul(d, a, b); break;
          case 1: mpz_gcd(d, a, b); break;
          case 2: mpz_add(d, d, a); mpz_swap(d, a); break;
          case 3: mpz_mul_2exp(d, b, t.r.below(500)); break;
          case 4: mpz_realloc2(d, t.r.below(900)); break;
          default: if (mpz_sgn(b) != 0) mpz_quorem(d, a, a, b); break;
        }
      }
      int base = 2 + (int)t.r.below(35);
      char *s = mpz_get_str(a, base);
      t.bytes("string", s, strlen(s));
      if (t.res("mpz_set_str", mpz_set_str(b, s, base))) mpz_swap(a, b);
      free(s);
      t.num("size", mpz_bitlen(a));
      if (k == 11) mpz_clears(a, b, d, (mpz_ptr)0); else mpz_cleanses(a, b, d, (mpz_ptr)0);
    }
  }, c.rng.next(), 3);
}

// the operations that report a failed allocation, over their parameter ranges
VH_TEST(reported, 3000, 4) {
  int k = c.idx % 3;
  const char *name = k == 0 ? "scrypt" : k == 1 ? "base58-encode" : "base58-decode";
  check(c, name, [k](T &t) {
    if (k == 0) {
      static const uint64_t N[] = {0, 1, 2, 4, 16, 64, 3, 5, (uint64_t)1 << 62};
      I pass(t.r.bytes(t.r.below(70))), salt(t.r.bytes(t.r.below(70)));
      uint64_t n = N[t.r.below(9)];
      uint32_t r = t.r.chance(1, 8) ? 0 : t.r.chance(1, 10) ? 0x40000000u : 1 + t.r.below(9), p = t.r.chance(1, 8) ? 0 : 1 + t.r.below(4);
      O out(t.r.below(100));
      if (t.res("scrypt_derive", scrypt_derive(out, pass, pass.size(), salt, salt.size(), n, r, p, out.size()))) out.to(t, "key");
    } else if (k == 1) {
      I x(t.r.special(t.r.below(120)));
      O out(x.size() * 2 + 8);
      size_t n = out.size();
      if (t.res("base58_encode", base58_encode((char *)out.p(), &n, x, x.size()))) out.to(t, "text", n);
    } else {
      static const char abc[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
      std::string s;
      for (int i = (int)t.r.below(120); i > 0; i--) s += t.r.chance(1, 60) ? '0' : abc[t.r.below(t.r.chance(1, 8) ? 1 : 58)];
      I x(z(s));
      O out(s.size() + 8);
      size_t n = out.size();
      if (t.res("base58_decode", base58_decode(out, &n, x.s(), s.size()))) out.to(t, "bytes", n);
      t.res("base58_test", base58_test(x.s(), s.size()));
    }
  }, c.rng.next(), 2);
}
