// C27: the whole-API workload from several threads over shared contexts, inputs, ciphers and integers.
// Results are recorded per thread and judged after the join against a sequential run of the same cases.
#include "api.hpp"
#include <atomic>
#include <set>
#include <thread>
#include <torsion/cipher.h>
#include <torsion/ecc.h>
#include <torsion/hash.h>
#include <torsion/mpi.h>
#include <torsion/rand.h>
using namespace api;

namespace api {
bool pool_filling, pool_reading;
static std::map<Bytes, std::unique_ptr<Buf>> pool;
const uint8_t *pooled(const Bytes &b) {
  auto it = pool.find(b);
  if (it != pool.end()) return it->second->p();
  if (!pool_filling) return nullptr;
  return (pool[b] = std::unique_ptr<Buf>(new Buf(b)))->p();
}
}

struct Job { const Entry *e; uint64_t seed; };
static uint64_t run(const Job &j, uint64_t *calls) { T t{Rng(j.seed)}; j.e->fn(t); *calls += t.calls; return t.h; }

// spread the threads' interleavings: some yield or spin between jobs
static void delay(Rng &r) {
  switch (r.below(4)) {
    case 0: std::this_thread::yield(); break;
    case 1: for (volatile int i = 0, n = (int)r.below(3000); i < n; i = i + 1) {} break;
    default: break;
  }
}

struct Log { std::vector<uint64_t> h; std::vector<int> order; uint64_t calls = 0; };
static void concurrent(Case &c, const std::vector<Job> &jobs, int k, std::vector<Log> &logs) {
  logs.assign(k, Log());
  std::vector<std::thread> th;
  std::atomic<int> ready{0};
  std::vector<Rng> rs;
  for (int i = 0; i < k; i++) rs.emplace_back(c.rng.next());
  for (int i = 0; i < k; i++)
    th.emplace_back([&, i] {
      Rng r = rs[i];
      Log &l = logs[i];
      l.h.assign(jobs.size(), 0);
      std::vector<int> o;
      for (size_t x = 0; x < jobs.size(); x++) o.push_back((int)x);
      if (i % 3 == 2) for (size_t x = o.size(); x > 1; x--) std::swap(o[x - 1], o[r.below(x)]);     // two thirds start in lock step, the rest in another order
      ready.fetch_add(1);
      while (ready.load() < k) std::this_thread::yield();
      for (int x : o) { delay(r); l.h[x] = run(jobs[x], &l.calls); }
      l.order = o;
    });
  for (auto &t : th) t.join();
}
static void judge(Case &c, const std::vector<Job> &jobs, const std::vector<uint64_t> &want, const std::vector<Log> &logs) {
  std::set<std::vector<int>> orders;
  for (size_t i = 0; i < logs.size(); i++) {
    for (size_t x = 0; x < jobs.size(); x++) {
      if (logs[i].h[x] != want[x])
        viol(fmt("differs:%s", jobs[x].e->name).c_str(), "case %s seed %llx: thread %zu of %zu got transcript %016llx, sequential run %016llx", jobs[x].e->name,
             (unsigned long long)jobs[x].seed, i, logs.size(), (unsigned long long)logs[i].h[x], (unsigned long long)want[x]);
      eval(fnv(&jobs[x].seed, 8, logs[i].h[x]) ^ mix64(i + 1));
    }
    ev("thread_calls", logs[i].calls);
    orders.insert(logs[i].order);
  }
  ev("threads", logs.size());
  ev("distinct_orders", orders.size());
  ev(fmt("runs_of_%zu", logs.size()).c_str());
  sample(fmt("%zu threads, %zu jobs, first %s", logs.size(), jobs.size(), jobs[0].e->name));
  (void)c;
}
static std::vector<Job> pick(Case &c, size_t n) {
  auto &es = entries();
  std::vector<Job> v;
  for (size_t i = 0; i < n; i++) {
    const Entry *e = &es[(c.idx * 7 + c.rng.below(3) + i * 5) % es.size()];
    if (!strcmp(e->name, "rsa_generate") && !c.rng.chance(1, 8)) e = &es[c.rng.below(es.size())];
    v.push_back({e, c.rng.next()});
  }
  return v;
}
// contexts just created and possibly never used before; the first use of anything is concurrent
VH_TEST(first_use, 400, 4) {
  int k = 2 + (int)c.rng.below(7);
  auto jobs = pick(c, 3);
  if (c.idx % 3) renew();
  std::vector<Log> logs;
  concurrent(c, jobs, k, logs);
  std::vector<uint64_t> want;
  uint64_t n = 0;
  for (auto &j : jobs) want.push_back(run(j, &n));
  judge(c, jobs, want, logs);
  ev("first_use");
}
// the threads also share every input buffer
VH_TEST(shared_inputs, 400, 4) {
  int k = 2 + (int)c.rng.below(7);
  auto jobs = pick(c, 4);
  pool.clear();
  pool_filling = true;
  std::vector<uint64_t> want;
  uint64_t n = 0;
  for (auto &j : jobs) want.push_back(run(j, &n));
  pool_filling = false;
  pool_reading = true;
  std::vector<Log> logs;
  if (c.rng.chance(1, 2)) renew();
  concurrent(c, jobs, k, logs);
  pool_reading = false;
  judge(c, jobs, want, logs);
  ev("shared_buffers", pool.size());
  for (auto &p : pool) if (p.second->get() != p.first) viol("shared-input-modified", "a %zu-byte input changed", p.first.size());
}
// keyed block ciphers: one context, many encrypting and decrypting threads
VH_TEST(shared_cipher, 300, 4) {
  cipher_id_t id = (cipher_id_t)(c.idx % (CIPHER_TWOFISH256 + 1));
  size_t kl = cipher_key_size(id), bs = cipher_block_size(id);
  Bytes key = c.rng.bytes(kl);
  cipher_t x;
  if (!cipher_init(&x, id, key.data(), kl)) { ev("cipher_refused"); return; }
  int k = 2 + (int)c.rng.below(5);
  const size_t n = 20;
  Bytes in = c.rng.bytes(n * bs), want(n * bs), wdec(n * bs);
  std::vector<Bytes> enc(k, Bytes(n * bs)), dec(k, Bytes(n * bs));
  std::vector<std::thread> th;
  std::atomic<int> ready{0};
  for (int i = 0; i < k; i++)
    th.emplace_back([&, i] {
      ready.fetch_add(1);
      while (ready.load() < k) std::this_thread::yield();
      for (size_t j = 0; j < n; j++) { cipher_encrypt(&x, &enc[i][j * bs], &in[j * bs]); cipher_decrypt(&x, &dec[i][j * bs], &in[j * bs]); }
    });
  for (auto &t : th) t.join();
  for (size_t j = 0; j < n; j++) { cipher_encrypt(&x, &want[j * bs], &in[j * bs]); cipher_decrypt(&x, &wdec[j * bs], &in[j * bs]); }
  for (int i = 0; i < k; i++) {
    eq("shared-cipher-encrypt", enc[i], want, "cipher %d thread %d", (int)id, i);
    eq("shared-cipher-decrypt", dec[i], wdec, "cipher %d thread %d", (int)id, i);
    eval(fnv(enc[i].data(), enc[i].size()) ^ i);
  }
  ev("shared_ciphers");
}
// integers used only as operands
VH_TEST(shared_integers, 200, 4) {
  mpz_t a, b, m;
  mpz_init(a); mpz_init(b); mpz_init(m);
  Bytes A = c.rng.bytes(1 + c.rng.below(80)), B = c.rng.bytes(1 + c.rng.below(80)), M = c.rng.bytes(9 + c.rng.below(60));
  M[0] |= 1; M[8] |= 1;
  mpz_import(a, A.data(), A.size(), -1); mpz_import(b, B.data(), B.size(), -1); mpz_import(m, M.data(), M.size(), -1);
  if (c.rng.chance(1, 3)) mpz_neg(a, a);
  auto work = [&] {
    uint64_t h = 7;
    mpz_t x, y, z;
    mpz_init(x); mpz_init(y); mpz_init(z);
    auto rec = [&](const mpz_t v) { Bytes o(mpz_bytelen(v) + 1); mpz_export(o.data(), v, o.size(), -1); h = fnv(o.data(), o.size(), h) + (uint64_t)(mpz_sgn(v) + 1); };
    mpz_add(x, a, b); rec(x); mpz_mul(x, a, b); rec(x); mpz_sub(x, a, b); rec(x);
    mpz_quorem(x, y, a, m); rec(x); rec(y);
    mpz_mod(x, a, m); rec(x);
    mpz_powm(x, b, b, m); rec(x); mpz_powm_sec(x, b, b, m); rec(x);
    mpz_gcd(x, a, b); rec(x); mpz_gcdext(x, y, z, a, m); rec(x);
    h += mpz_invert(x, b, m); h += (uint64_t)(mpz_jacobi(a, m) + 1); h += (uint64_t)(mpz_cmp(a, b) + 1);
    mpz_and(x, a, b); rec(x); mpz_xor(x, a, m); rec(x);
    h += mpz_mr_prime_p(m, 3, 1, [](void *out, size_t n, void *) { memset(out, 0x55, n); }, nullptr);
    mpz_clear(x); mpz_clear(y); mpz_clear(z);
    return h;
  };
  int k = 2 + (int)c.rng.below(4);
  std::vector<uint64_t> got(k);
  std::vector<std::thread> th;
  std::atomic<int> ready{0};
  for (int i = 0; i < k; i++) th.emplace_back([&, i] { ready.fetch_add(1); while (ready.load() < k) std::this_thread::yield(); for (int j = 0; j < 3; j++) got[i] = work(); });
  for (auto &t : th) t.join();
  uint64_t want = work();
  for (int i = 0; i < k; i++) { if (got[i] != want) viol("shared-integers", "thread %d of %d: operands %s %s modulus %s", i, k, hex(A).c_str(), hex(B).c_str(), hex(M).c_str()); eval(want + i); }
  ev("shared_integers");
  mpz_clear(a); mpz_clear(b); mpz_clear(m);
}
// own contexts created, blinded and destroyed while others use theirs; the system generator from all threads
VH_TEST(generator, 60, 3) {
  int k = 2 + (int)c.rng.below(7);
  std::vector<std::thread> th;
  std::atomic<int> ready{0}, bad{0};
  std::vector<Bytes> got(k);
  uint64_t pick = c.rng.next();
  for (int i = 0; i < k; i++)
    th.emplace_back([&, i] {
      ready.fetch_add(1);
      while (ready.load() < k) std::this_thread::yield();
      for (int j = 0; j < 8; j++) {
        Bytes o(33);
        uint32_t v = 0, u = 0;
        if (!torsion_getrandom(o.data(), o.size()) || !torsion_random(&v) || !torsion_uniform(&u, 1000) || u >= 1000) bad++;
        got[i].insert(got[i].end(), o.begin(), o.end());
        if (j == (int)(pick % 8)) { unsigned char e[32]; if (!torsion_getentropy(e, 32)) bad++; }
        if (j == 3) {
          wei_curve_t *w = wei_curve_create((wei_curve_id_t)((pick >> 8) % 6));
          if (w) { wei_curve_randomize(w, o.data()); wei_curve_destroy(w); } else bad++;
          edwards_curve_t *e = edwards_curve_create((edwards_curve_id_t)((pick >> 16) % 3));
          if (e) { edwards_curve_randomize(e, o.data()); edwards_curve_destroy(e); } else bad++;
        }
      }
    });
  for (auto &t : th) t.join();
  if (bad) viol("generator-failed", "%d calls failed with %d threads", bad.load(), k);
  std::set<Bytes> all;
  for (auto &g : got) for (size_t o = 0; o + 33 <= g.size(); o += 33) {
    if (!all.insert(Bytes(g.begin() + o, g.begin() + o + 33)).second) viol("generator-repeats", "two of %d threads drew the same 33 bytes", k);
    eval(fnv(&g[o], 33));
    ev("generator_outputs");
  }
}
