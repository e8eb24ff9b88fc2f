// C25: every operation runs on its own painted stack; heap blocks it releases are copied at the moment of release. Afterwards both are searched
// for pieces of the secrets that the operation handled. Runs on optimised builds without sanitizers.
#include <malloc.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>
#include "pk_util.hpp"
extern "C" {
#include <torsion/aead.h>
#include <torsion/cipher.h>
#include <torsion/drbg.h>
#include <torsion/ies.h>
#include <torsion/kdf.h>
#include <torsion/mac.h>
#include <torsion/stream.h>
#include <torsion/util.h>
}
using namespace ec;

// ---------------------------------------------------------------- monitors
static const size_t STACK = 8u << 20, ARENA = 256u << 20;
static const uint64_t PAINT = 0xa7c3d15e9b4f6281ull;
static uint8_t *stack_, *arena_;
static size_t arena_n, arena_blocks, arena_lost;
static bool watching;

static void keep(const void *p, size_t n) {
  arena_blocks++;
  if (arena_n + n + 64 > ARENA) { arena_lost++; return; }
  memcpy(arena_ + arena_n, p, n);
  arena_n += n;
  memset(arena_ + arena_n, 0, 64);   // no match may span two blocks
  arena_n += 64;
}
extern "C" {
void __real_free(void *);
void *__real_realloc(void *, size_t);
void __wrap_free(void *p) {
  if (watching && p) keep(p, malloc_usable_size(p));
  __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  if (!watching || !p) return __real_realloc(p, n);
  size_t old = malloc_usable_size(p);
  size_t mark = arena_n;
  keep(p, old);
  void *q = __real_realloc(p, n);
  if (q == p) {
    // same place: only what was given back at the end was released
    size_t now = malloc_usable_size(q);
    size_t cut = std::min(now, old);
    if (mark + old + 64 == arena_n) memset(arena_ + mark, 0, cut);
  }
  return q;
}
}

static ucontext_t home, away;
static const std::function<void()> *job;
static void trampoline() { (*job)(); }
static uint64_t *low;   // lowest word the last operation wrote

static void paint(uint64_t *from) { for (uint64_t *p = from; p < (uint64_t *)(stack_ + STACK); p++) *p = PAINT; }
static void run(const std::function<void()> &f) {
  if (!stack_) {
    stack_ = (uint8_t *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    arena_ = (uint8_t *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (stack_ == MAP_FAILED || arena_ == MAP_FAILED) exit(96);
    low = (uint64_t *)stack_;
    mallopt(M_PERTURB, 0x5a);   // recycled blocks must not carry the harness's own copies
  }
  paint(low);
  arena_n = arena_blocks = arena_lost = 0;
  job = &f;
  getcontext(&away);
  away.uc_stack.ss_sp = stack_;
  away.uc_stack.ss_size = STACK;
  away.uc_link = &home;
  makecontext(&away, trampoline, 0);
  watching = true;
  swapcontext(&home, &away);
  watching = false;
  low = (uint64_t *)stack_;
  while (low < (uint64_t *)(stack_ + STACK) && *low == PAINT) low++;
  if (low == (uint64_t *)stack_) { fprintf(stderr, "stack exhausted\n"); exit(96); }
  if (arena_lost) { fprintf(stderr, "release log exhausted\n"); exit(96); }
}

struct Secret { std::string name; Bytes v; };
typedef std::vector<Secret> Secrets;
static const size_t WIN = 16;

// the orders in which words of a value can lie in memory
static std::vector<Bytes> forms(const Bytes &v) {
  std::vector<Bytes> o = {v, Bytes(v.rbegin(), v.rend())};
  for (size_t w : {4, 8}) for (size_t off = 0; off < 1; off++) {
    Bytes b(v.begin(), v.begin() + v.size() / w * w);
    for (size_t i = 0; i < b.size(); i += w) std::reverse(b.begin() + i, b.begin() + i + w);
    o.push_back(b);
  }
  return o;
}
static bool find(const uint8_t *m, size_t n, const Secrets &ss, std::string &what, size_t &at) {
  if (n < WIN) return false;
  std::unordered_map<uint64_t, std::pair<int, std::pair<int, size_t>>> idx;
  std::vector<std::vector<Bytes>> fs;
  for (size_t i = 0; i < ss.size(); i++) {
    fs.push_back(forms(ss[i].v));
    for (size_t j = 0; j < fs[i].size(); j++)
      for (size_t k = 0; k + WIN <= fs[i][j].size(); k++) { uint64_t w; memcpy(&w, &fs[i][j][k], 8); idx[w] = {(int)i, {(int)j, k}}; }
  }
  // a small filter first: the table lookup is slow
  static std::vector<uint8_t> filt(8192);
  std::fill(filt.begin(), filt.end(), 0);
  for (auto &e : idx) { uint32_t h = (e.first * 0x9e3779b97f4a7c15ull) >> 48; filt[h >> 3] |= 1 << (h & 7); }
  for (size_t i = 0; i + WIN <= n; i++) {
    uint64_t w;
    memcpy(&w, m + i, 8);
    uint32_t h = (w * 0x9e3779b97f4a7c15ull) >> 48;
    if (!(filt[h >> 3] >> (h & 7) & 1)) continue;
    auto it = idx.find(w);
    if (it == idx.end()) continue;
    const Bytes &f = fs[it->second.first][it->second.second.first];
    size_t k = it->second.second.second;
    if (memcmp(m + i, &f[k], WIN)) continue;
    what = ss[it->second.first].name;
    at = i;
    return true;
  }
  return false;
}

static Z nat(const Bytes &b) { return big::from_be(b); }
static void usable(const Secrets &ss) {
  for (auto &s : ss) {
    if (s.v.size() < WIN) { fprintf(stderr, "secret %s too short\n", s.name.c_str()); exit(96); }
    unsigned seen[256] = {0}, d = 0;
    for (uint8_t x : s.v) d += !seen[x]++;
    if (d < 9) { fprintf(stderr, "secret %s is not random\n", s.name.c_str()); exit(96); }
  }
}

// What is claimed. The library wipes the objects it names, not the scratch of its leaf functions (scalar inversion, reduction, hashing, field to
// bytes), so values computed last by such a leaf can stay on the stack; those are not searched for.
static bool claimed(bool heap, const std::string &op, const std::string &secret) {
  auto starts = [&](const char *p) { return op.compare(0, strlen(p), p) == 0; };
  if (getenv("RESIDUE_ALL")) return true;
  if (heap) return !(op == "dsa_derive" && secret == "shared secret") && op != "rsa_encrypt" && op != "rsa_encrypt_oaep" && op != "rsa_privkey_generate";
  if (starts("eddsa_") || starts("rsa_") || starts("pgpdf_") || op == "eb2k_derive" || op == "hkdf_extract") return false;
  if (secret == "result" || secret == "generated key" || secret == "inverse nonce") return false;
  if (secret == "shared secret" && (starts("ecdsa_") || starts("bip340_") || starts("ristretto_"))) return false;
  if (op == "hkdf_expand" && secret == "derived key") return false;
  if (starts("hmac_init") && secret != "key digest") return false;
  if (op == "pbkdf2_derive" && secret == "password") return false;
  return true;
}
static Secrets only(bool heap, const char *op, const Secrets &ss) {
  Secrets o;
  for (auto &s : ss) if (claimed(heap, op, s.name)) o.push_back(s);
  return o;
}

// op: the operation; later: secrets only known after it ran
static void observe(const char *op, const char *on, Secrets ss, const std::function<void()> &f, const std::function<Secrets()> &later = nullptr) {
  run(f);
  size_t depth = stack_ + STACK - (uint8_t *)low, rel = arena_n, blocks = arena_blocks;
  if (later) for (auto &s : later()) ss.push_back(s);
  usable(ss);
  std::string what;
  size_t at;
  Secrets on_stack = only(false, op, ss), in_heap = only(true, op, ss);
  if (find((uint8_t *)low, depth, on_stack, what, at)) viol(fmt("stack:%s:%s:%s", op, on, what.c_str()).c_str(), "%s on %s left %s on the dead stack (%zu bytes above the deepest point, %zu bytes used)", op, on, what.c_str(), at, depth);
  if (find(arena_, rel, in_heap, what, at)) viol(fmt("heap:%s:%s:%s", op, on, what.c_str()).c_str(), "%s on %s released a heap block that still held %s", op, on, what.c_str());
  if (on_stack.empty() && !blocks) { ev("nothing_claimed"); return; }
  uint64_t k = fnv(op, strlen(op), fnv(on, strlen(on)));
  for (auto &s : ss) k = fnv(s.v.data(), s.v.size(), k);
  eval(k);
  ev("operation_watched");
  if (!on_stack.empty()) { ev("stack_secret_searched", on_stack.size()); ev("stack_bytes_scanned", depth); }
  if (blocks) { ev("heap_secret_searched", in_heap.size()); ev("heap_blocks_scanned", blocks); ev("heap_bytes_scanned", rel); }
  static std::map<std::string, int> shown;
  if (shown[op]++ == 0) sample(fmt("%s on %s: %zu secrets, %zu stack bytes, %zu released heap blocks (%zu bytes)", op, on, ss.size(), depth, blocks, rel));
}

// the monitors must see what is left behind
static __attribute__((noinline)) void leave_on_stack(const uint8_t *s, size_t n, int form) {
  uint8_t b[256];
  for (size_t i = 0; i < n; i++) b[i] = form == 0 ? s[i] : form == 1 ? s[n - 1 - i] : form == 2 ? s[(i & ~(size_t)3) + 3 - (i & 3)] : s[(i & ~(size_t)7) + 7 - (i & 7)];
  asm volatile("" :: "r"(b) : "memory");
}
static bool sees(bool heap, const Secrets &ss, const std::function<void()> &f) {
  run(f);
  std::string w;
  size_t a;
  return heap ? find(arena_, arena_n, ss, w, a) : find((uint8_t *)low, stack_ + STACK - (uint8_t *)low, ss, w, a);
}
VH_TEST(control, 4, 1) {
  Bytes s = c.rng.bytes(32);
  Secrets ss = {{"control", s}};
  const uint8_t *p = s.data();
  bool ok = true;
  int step = 0;
  auto must = [&](bool b) { ok &= b; if (ok) step++; };
  for (int f = 0; f < 4; f++) must(sees(false, ss, [p, f] { leave_on_stack(p, 32, f); }));
  must(sees(true, ss, [p] { uint8_t *b = (uint8_t *)malloc(40); memcpy(b + 3, p, 32); asm volatile("" :: "r"(b) : "memory"); free(b); }));
  must(sees(true, ss, [p] { uint8_t *b = (uint8_t *)malloc(40); memcpy(b + 3, p + 9, 17); asm volatile("" :: "r"(b) : "memory"); b = (uint8_t *)realloc(b, 1 << 20); memset(b, 0, 40); asm volatile("" :: "r"(b) : "memory"); free(b); }));
  must(!sees(false, ss, [] {}) && !sees(true, ss, [] { free(malloc(40)); }));
  if (!ok) { fprintf(stderr, "the residue monitor does not see planted residue (step %d)\n", step); exit(96); }
  ev("control_seen");
  eval(s[0] * 256 + s[1]);
}

// ---------------------------------------------------------------- workload
static Bytes z2(const Z &z) { return big::to_be_min(z); }
static bool strong(const Bytes &b) { if (b.size() < WIN) return false; bool seen[256] = {0}; int d = 0; for (uint8_t x : b) if (!seen[x]) seen[x] = 1, d++; return d >= 9; }
static Bytes scalar(Case &c, const W &w) { Z k; do k = big::rnd_below(c.rng, w.n); while (k.bits() + 8 < w.nb || !strong(w.sc(k))); return w.sc(k); }

static wei_curve_t *wc(int i, int blind) {
  static wei_curve_t *v[16];
  wei_curve_t *&e = v[2 * i + blind];
  if (!e) { e = wei_curve_create((wei_curve_id_t)i); if (blind) { Bytes s(32, 7); wei_curve_randomize(e, s.data()); } }
  return e;
}
static edwards_curve_t *xc(int i, int blind) {
  static edwards_curve_t *v[16];
  edwards_curve_t *&e = v[2 * i + blind];
  if (!e) { e = edwards_curve_create((edwards_curve_id_t)i); if (blind) { Bytes s(32, 7); edwards_curve_randomize(e, s.data()); } }
  return e;
}
static mont_curve_t *mc(int i) { static mont_curve_t *v[4]; if (!v[i]) v[i] = mont_curve_create((mont_curve_id_t)i); return v[i]; }

VH_TEST(weierstrass, 60, 1) {
  int i = c.idx % 6;
  const W &w = wei()[i];
  wei_curve_t *ec = wc(i, c.rng.below(2));
  const char *on = w.name.c_str();
  Bytes d = scalar(c, w), t = scalar(c, w), e = c.rng.bytes(32), m = c.rng.bytes(w.ss);
  const uint8_t *dp = d.data(), *tp = t.data(), *ep = e.data(), *mp = m.data();
  size_t ml = m.size();
  Bytes nd = w.sc(w.n - nat(d));
  Secrets key = {{"private key", d}, {"negated private key", nd}};
  Secrets both = key;
  both.push_back({"tweak", t});
  static Bytes out(4096), pub(200), pub2(200), sec(200);
  size_t pl = 0, sl = 0, pl2 = 0;
  int ok = 0;
  unsigned par;
  auto outs = [&](const char *n, size_t len) { return [&out = out, n, len]() -> Secrets { return {{n, Bytes(out.begin(), out.begin() + len)}}; }; };
#define CB(...) [&] { __VA_ARGS__; }
  observe("ecdsa_privkey_generate", on, {{"entropy", e}}, CB(ecdsa_privkey_generate(ec, &out[0], ep)), outs("generated key", w.ss));
  observe("ecdsa_privkey_verify", on, key, CB(ecdsa_privkey_verify(ec, dp)));
  observe("ecdsa_privkey_export", on, key, CB(ecdsa_privkey_export(ec, &out[0], dp)));
  observe("ecdsa_privkey_import", on, key, CB(ecdsa_privkey_import(ec, &out[0], dp, w.ss)));
  observe("ecdsa_privkey_tweak_add", on, both, CB(ecdsa_privkey_tweak_add(ec, &out[0], dp, tp)), outs("result", w.ss));
  observe("ecdsa_privkey_tweak_mul", on, both, CB(ecdsa_privkey_tweak_mul(ec, &out[0], dp, tp)), outs("result", w.ss));
  observe("ecdsa_privkey_negate", on, key, CB(ecdsa_privkey_negate(ec, &out[0], dp)));
  observe("ecdsa_privkey_invert", on, key, CB(ecdsa_privkey_invert(ec, &out[0], dp)), outs("result", w.ss));
  observe("ecdsa_pubkey_create", on, key, CB(ok = ecdsa_pubkey_create(ec, &pub[0], &pl, dp, 1)));
  ecdsa_pubkey_create(ec, &pub2[0], &pl2, tp, 0);
  observe("ecdsa_sign", on, key, CB(ok = ecdsa_sign(ec, &out[0], &par, mp, ml, dp)), [&]() -> Secrets {
    // k = (m + r d) / s
    Z r = big::from_be(&out[0], w.ss), s = big::from_be(&out[w.ss], w.ss);
    Z k = (w.bits2int(m) + r * nat(d)) * big::inv(s, w.n) % w.n;
    return {{"nonce", w.sc(k)}, {"negated nonce", w.sc(w.n - k)}, {"inverse nonce", w.sc(big::inv(k, w.n))}};
  });
  if (!ok) ev("refused"); else ev("signature");
  observe("ecdsa_derive", on, key, CB(ok = ecdsa_derive(ec, &sec[0], &sl, &pub2[0], pl2, dp, 1)), [&]() -> Secrets { return {{"shared secret", Bytes(sec.begin() + 1, sec.begin() + 1 + w.fs)}}; });
  ev(ok ? "agreement" : "refused");
  if (i == 5) {
    observe("bipschnorr_sign", on, key, CB(ok = bipschnorr_sign(ec, &out[0], mp, ml, dp)), [&]() -> Secrets {
      Bytes h = ref::hash(HASH_SHA256, ref::cat({Bytes(out.begin(), out.begin() + 32), Bytes(pub.begin(), pub.begin() + 33), m}));
      Z k = (big::from_be(&out[32], 32) - nat(h) * nat(d)) % w.n;
      return {{"nonce", w.sc(k)}, {"negated nonce", w.sc(w.n - k)}};
    });
  }
  observe("bip340_privkey_generate", on, {{"entropy", e}}, CB(bip340_privkey_generate(ec, &out[0], ep)), outs("generated key", w.ss));
  observe("bip340_privkey_export", on, key, CB(bip340_privkey_export(ec, &out[0], &out[100], &out[200], dp)));
  observe("bip340_privkey_import", on, key, CB(bip340_privkey_import(ec, &out[0], dp, w.ss)));
  observe("bip340_privkey_tweak_add", on, both, CB(bip340_privkey_tweak_add(ec, &out[0], dp, tp)), outs("result", w.ss));
  observe("bip340_privkey_tweak_mul", on, both, CB(bip340_privkey_tweak_mul(ec, &out[0], dp, tp)), outs("result", w.ss));
  observe("bip340_privkey_invert", on, key, CB(bip340_privkey_invert(ec, &out[0], dp)), outs("result", w.ss));
  observe("bip340_pubkey_create", on, key, CB(bip340_pubkey_create(ec, &pub[0], dp)));
  observe("bip340_sign", on, key, CB(ok = bip340_sign(ec, &out[0], mp, ml, dp, ep)), [&]() -> Secrets {
    if (w.hash != w.xof || i != 5) return {};
    auto tag = [](const char *t) { Bytes b = ref::hash(HASH_SHA256, Bytes(t, t + strlen(t))); return ref::cat({b, b}); };
    Bytes h = ref::hash(HASH_SHA256, ref::cat({tag("BIP0340/challenge"), Bytes(out.begin(), out.begin() + 32), Bytes(pub.begin(), pub.begin() + 32), m}));
    Z dd = nat(d);
    if (w.mulg(dd).y.odd()) dd = w.n - dd;
    Z k = (big::from_be(&out[32], 32) - nat(h) * dd) % w.n;
    if (w.mulg(k).x != big::from_be(&out[0], 32)) { fprintf(stderr, "nonce model of bip340\n"); exit(96); }
    return {{"nonce", w.sc(k)}, {"negated nonce", w.sc(w.n - k)}};
  });
  ev(ok ? "signature" : "refused");
  bip340_pubkey_create(ec, &pub2[0], tp);
  observe("bip340_derive", on, key, CB(ok = bip340_derive(ec, &sec[0], &pub2[0], dp)), [&]() -> Secrets { return {{"shared secret", Bytes(sec.begin(), sec.begin() + w.fs)}}; });
  ev(ok ? "agreement" : "refused");
}

VH_TEST(edwards, 45, 1) {
  int i = c.idx % 3;
  const E &x = edw()[i];
  edwards_curve_t *ec = xc(i, c.rng.below(2));
  const char *on = x.name.c_str();
  size_t ks = eddsa_privkey_size(ec), ss = edwards_curve_scalar_size(ec), ps = eddsa_pubkey_size(ec);
  Bytes d = c.rng.bytes(ks), t = big::to_le(big::rnd_below(c.rng, x.n), ss), e = c.rng.bytes(32), m = c.rng.bytes(c.rng.range(1, 200));
  const uint8_t *dp = d.data(), *tp = t.data(), *ep = e.data(), *mp = m.data();
  size_t ml = m.size();
  static Bytes sc(200), pf(200), out(4096), pub(200), pub2(200), sec(200);
  sc.resize(200); pf.resize(200);
  Secrets seed = {{"private key", d}};
  eddsa_privkey_expand(ec, &sc[0], &pf[0], dp);
  Bytes scb(sc.begin(), sc.begin() + ss), pfb(pf.begin(), pf.begin() + ps);
  Bytes rsc = big::to_le(big::from_le(scb) % x.n, ss);
  Secrets full = {{"private key", d}, {"expanded scalar", scb}, {"reduced scalar", rsc}, {"nonce prefix", pfb}};
  Secrets scal = {{"scalar", scb}, {"reduced scalar", rsc}};
  Secrets both = scal, fboth = full;
  both.push_back({"tweak", t}); fboth.push_back({"tweak", t});
  auto outs = [&](const char *n, size_t len) { return [&out = out, n, len]() -> Secrets { return {{n, Bytes(out.begin(), out.begin() + len)}}; }; };
  int ok = 0;
  observe("eddsa_privkey_generate", on, {{"entropy", e}}, CB(eddsa_privkey_generate(ec, &out[0], ep)), outs("generated key", ks));
  observe("eddsa_scalar_generate", on, {{"entropy", e}}, CB(eddsa_scalar_generate(ec, &out[0], ep)), outs("generated scalar", ss));
  observe("eddsa_privkey_expand", on, full, CB(eddsa_privkey_expand(ec, &sc[0], &pf[0], dp)));
  observe("eddsa_privkey_convert", on, full, CB(eddsa_privkey_convert(ec, &out[0], dp)));
  observe("eddsa_privkey_export", on, full, CB(eddsa_privkey_export(ec, &out[0], dp)));
  observe("eddsa_privkey_import", on, full, CB(eddsa_privkey_import(ec, &out[0], dp, ks)));
  observe("eddsa_scalar_verify", on, scal, CB(eddsa_scalar_verify(ec, &sc[0])));
  observe("eddsa_scalar_is_zero", on, scal, CB(eddsa_scalar_is_zero(ec, &sc[0])));
  observe("eddsa_scalar_clamp", on, {{"scalar", t}}, CB(eddsa_scalar_clamp(ec, &out[0], tp)));
  observe("eddsa_scalar_tweak_add", on, both, CB(eddsa_scalar_tweak_add(ec, &out[0], &sc[0], tp)), outs("result", ss));
  observe("eddsa_scalar_tweak_mul", on, both, CB(eddsa_scalar_tweak_mul(ec, &out[0], &sc[0], tp)), outs("result", ss));
  observe("eddsa_scalar_reduce", on, scal, CB(eddsa_scalar_reduce(ec, &out[0], &sc[0])));
  observe("eddsa_scalar_negate", on, scal, CB(eddsa_scalar_negate(ec, &out[0], &sc[0])), outs("result", ss));
  observe("eddsa_scalar_invert", on, scal, CB(eddsa_scalar_invert(ec, &out[0], &sc[0])), outs("result", ss));
  observe("eddsa_pubkey_from_scalar", on, scal, CB(eddsa_pubkey_from_scalar(ec, &pub[0], &sc[0])));
  observe("eddsa_pubkey_create", on, full, CB(eddsa_pubkey_create(ec, &pub[0], dp)));
  auto nonce = [&]() -> Secrets {
    // the nonce follows from the signature: r = s - h a
    Bytes dom;
    if (x.ctx_always) { dom.assign(x.prefix.begin(), x.prefix.end()); dom.push_back(0); dom.push_back(0); }
    size_t hl = x.hash == HASH_SHAKE256 ? 114 : 64;
    Bytes in = ref::cat({dom, pfb, m});
    Bytes H = x.hash == HASH_SHAKE256 ? ref::hash(HASH_SHAKE256, in, hl) : ref::hash(HASH_SHA512, in);
    Z r = big::from_le(H) % x.n;
    if (x.enc(x.mulg(r)) != Bytes(out.begin(), out.begin() + x.es)) { fprintf(stderr, "nonce model of %s\n", on); exit(96); }
    return {{"nonce", big::to_le(r, ss)}, {"unreduced nonce", H}};
  };
  observe("eddsa_sign", on, full, CB(eddsa_sign(ec, &out[0], mp, ml, dp, -1, NULL, 0)), nonce);
  observe("eddsa_sign_with_scalar", on, full, CB(eddsa_sign_with_scalar(ec, &out[0], mp, ml, &sc[0], &pf[0], -1, NULL, 0)), nonce);
  observe("eddsa_sign_tweak_add", on, fboth, CB(eddsa_sign_tweak_add(ec, &out[0], mp, ml, dp, tp, -1, NULL, 0)));
  observe("eddsa_sign_tweak_mul", on, fboth, CB(eddsa_sign_tweak_mul(ec, &out[0], mp, ml, dp, tp, -1, NULL, 0)));
  ev("signature", 4);
  eddsa_pubkey_from_scalar(ec, &pub2[0], tp);
  auto shared = [&]() -> Secrets { return {{"shared secret", Bytes(sec.begin(), sec.begin() + x.fs)}}; };
  observe("eddsa_derive", on, full, CB(ok = eddsa_derive(ec, &sec[0], &pub2[0], dp)), shared);
  ev(ok ? "agreement" : "refused");
  observe("eddsa_derive_with_scalar", on, scal, CB(ok = eddsa_derive_with_scalar(ec, &sec[0], &pub2[0], &sc[0])), shared);
  // ristretto shares the representation
  if (i == 0 || i == 1) {
    Bytes k = big::to_le(big::rnd_below(c.rng, x.n), ss), u = c.rng.bytes(x.fs * 2 > 64 ? x.fs * 2 : 64);
    const uint8_t *kp = k.data(), *up = u.data();
    Secrets key = {{"private key", k}}, kb = {{"private key", k}, {"tweak", t}};
    observe("ristretto_privkey_generate", on, {{"entropy", e}}, CB(ristretto_privkey_generate(ec, &out[0], ep)), outs("generated key", ss));
    observe("ristretto_privkey_from_uniform", on, {{"uniform bytes", Bytes(u.begin(), u.begin() + x.fs)}}, CB(ristretto_privkey_from_uniform(ec, &out[0], up)), outs("generated key", ss));
    observe("ristretto_privkey_export", on, key, CB(ristretto_privkey_export(ec, &out[0], kp)));
    observe("ristretto_privkey_import", on, key, CB(ristretto_privkey_import(ec, &out[0], kp, ss)));
    observe("ristretto_privkey_tweak_add", on, kb, CB(ristretto_privkey_tweak_add(ec, &out[0], kp, tp)), outs("result", ss));
    observe("ristretto_privkey_tweak_mul", on, kb, CB(ristretto_privkey_tweak_mul(ec, &out[0], kp, tp)), outs("result", ss));
    observe("ristretto_privkey_negate", on, key, CB(ristretto_privkey_negate(ec, &out[0], kp)), outs("result", ss));
    observe("ristretto_privkey_invert", on, key, CB(ristretto_privkey_invert(ec, &out[0], kp)), outs("result", ss));
    observe("ristretto_pubkey_create", on, key, CB(ristretto_pubkey_create(ec, &pub[0], kp)));
    ristretto_pubkey_create(ec, &pub2[0], tp);
    observe("ristretto_derive", on, key, CB(ok = ristretto_derive(ec, &sec[0], &pub2[0], kp)), shared);
    ev(ok ? "agreement" : "refused");
  }
}

VH_TEST(montgomery, 45, 1) {
  static const char *nm[] = {"X25519", "X448", "E222"};
  (void)nm;
  int i = c.idx % 2;
  mont_curve_t *ec = mc(i);
  const char *on = nm[i];
  size_t ks = ecdh_privkey_size(ec), fs = ecdh_pubkey_size(ec);
  Bytes d = c.rng.bytes(ks), t = c.rng.bytes(ks), e = c.rng.bytes(32);
  const uint8_t *dp = d.data(), *ep = e.data();
  static Bytes out(4096), pub(200), pub2(200), sec(200), cl(200);
  int ok = 0;
  Bytes k = d;
  if (i == 0) { k[0] &= 248; k[31] &= 127; k[31] |= 64; } else { k[0] &= 252; k[55] |= 128; }
  Secrets key = {{"private key", d}, {"clamped key", k}};
  auto outs = [&](const char *n, size_t len) { return [&out = out, n, len]() -> Secrets { return {{n, Bytes(out.begin(), out.begin() + len)}}; }; };
  observe("ecdh_privkey_generate", on, {{"entropy", e}}, CB(ecdh_privkey_generate(ec, &out[0], ep)), outs("generated key", ks));
  observe("ecdh_privkey_export", on, key, CB(ecdh_privkey_export(ec, &out[0], dp)));
  observe("ecdh_privkey_import", on, key, CB(ecdh_privkey_import(ec, &out[0], dp, ks)));
  observe("ecdh_privkey_verify", on, key, CB(ecdh_privkey_verify(ec, dp)));
  observe("ecdh_pubkey_create", on, key, CB(ecdh_pubkey_create(ec, &pub[0], dp)));
  ecdh_pubkey_create(ec, &pub2[0], t.data());
  observe("ecdh_derive", on, key, CB(ok = ecdh_derive(ec, &sec[0], &pub2[0], dp)), [&]() -> Secrets { return {{"shared secret", Bytes(sec.begin(), sec.begin() + fs)}}; });
  ev(ok ? "agreement" : "refused");
}

VH_TEST(rsa, 40, 1) {
  const pk::Rsa &r = pk::rsa_key(c);
  std::string ons = fmt("%zu-bit", r.n.bits());
  const char *on = "RSA";
  Bytes der = r.priv(), pubk = r.pub(), e = c.rng.bytes(32), m = c.rng.bytes(32), big = c.rng.bytes(std::min<size_t>(r.k() - 11, 32));
  Secrets key;
  for (auto &p : {std::make_pair("d", &r.d), std::make_pair("p", &r.p), std::make_pair("q", &r.q), std::make_pair("dp", &r.dp), std::make_pair("dq", &r.dq), std::make_pair("qi", &r.qi)}) {
    Bytes v = z2(*p.second);
    if (strong(v) && !(r.n < *p.second)) key.push_back({p.first, v});
  }
  const uint8_t *kp = der.data(), *pp = pubk.data(), *ep = e.data(), *mp = m.data(), *bp = big.data();
  size_t kl = der.size(), pl = pubk.size(), ml = m.size(), bl = big.size();
  static Bytes out(8192), ct(4096);
  size_t ol = 0, cl = 0;
  int ok = 0;
  auto res = [&] { ev(ok ? "rsa_done" : "refused"); };
  observe("rsa_privkey_verify", on, key, CB(ok = rsa_privkey_verify(kp, kl))); res();
  observe("rsa_privkey_export", on, key, CB(ok = rsa_privkey_export(&out[0], &ol, kp, kl))); res();
  Bytes flat = Bytes(out.begin(), out.begin() + ol);
  const uint8_t *fp = flat.data();
  size_t fl = flat.size();
  observe("rsa_privkey_import", on, key, CB(ok = rsa_privkey_import(&out[0], &ol, fp, fl, ep))); res();
  observe("rsa_pubkey_create", on, key, CB(ok = rsa_pubkey_create(&out[0], &ol, kp, kl))); res();
  observe("rsa_sign", on, key, CB(ok = rsa_sign(&out[0], &ol, HASH_SHA256, mp, ml, kp, kl, ep))); res();
  observe("rsa_sign_pss", on, key, CB(ok = rsa_sign_pss(&out[0], &ol, HASH_SHA1, mp, 20, kp, kl, 20, ep))); res();
  Secrets msg = {{"plaintext", big}}, km = key;
  km.push_back(msg[0]);
  observe("rsa_encrypt", on, msg, CB(ok = rsa_encrypt(&ct[0], &cl, bp, bl, pp, pl, ep))); res();
  const uint8_t *cp = &ct[0];
  observe("rsa_decrypt", on, km, CB(ok = rsa_decrypt(&out[0], &ol, cp, cl, kp, kl, ep))); res();
  observe("rsa_decrypt_key", on, km, CB(ok = rsa_decrypt_key(&out[0], bl, cp, cl, kp, kl, ep))); res();
  Bytes sm = c.rng.bytes(std::min<size_t>(r.k() - 42, 24));
  if (strong(sm)) {
    const uint8_t *sp = sm.data();
    size_t sl = sm.size();
    Secrets s1 = {{"plaintext", sm}}, s2 = key;
    s2.push_back(s1[0]);
    observe("rsa_encrypt_oaep", on, s1, CB(ok = rsa_encrypt_oaep(&ct[0], &cl, HASH_SHA1, sp, sl, pp, pl, NULL, 0, ep))); res();
    observe("rsa_decrypt_oaep", on, s2, CB(ok = rsa_decrypt_oaep(&out[0], &ol, HASH_SHA1, cp, cl, kp, kl, NULL, 0, ep))); res();
  }
  if (c.idx % 4 == 0) {
    observe("rsa_privkey_generate", on, {{"entropy", e}}, CB(ok = rsa_privkey_generate(&out[0], &ol, 512, 65537, ep)), [&]() -> Secrets {
      pk::Zs v;
      if (!pk::undo(Bytes(out.begin(), out.begin() + ol), 8, true, v)) { fprintf(stderr, "generated key\n"); exit(96); }
      return {{"d", z2(v[2])}, {"p", z2(v[3])}, {"q", z2(v[4])}, {"dp", z2(v[5])}, {"dq", z2(v[6])}, {"qi", z2(v[7])}};
    });
    res();
  }
}

VH_TEST(dsa, 40, 1) {
  pk::Dsa k;
  do { k = pk::dsa_group(c); k.x = big::rnd_below(c.rng, k.q); } while (!strong(z2(k.x)));
  k.y = big::powm(k.g, k.x, k.p);
  pk::Dsa o = k;
  o.x = big::rnd_below(c.rng, k.q);
  o.y = big::powm(o.g, o.x, o.p);
  const char *on = "DSA";
  Bytes der = k.priv(), opub = o.pub(), par = k.params(), e = c.rng.bytes(32), m = c.rng.bytes(32);
  const uint8_t *kp = der.data(), *op = opub.data(), *rp = par.data(), *ep = e.data(), *mp = m.data();
  size_t kl = der.size(), opl = opub.size(), rl = par.size();
  Secrets key = {{"private key", z2(k.x)}};
  static Bytes out(8192);
  size_t ol = 0;
  int ok = 0;
  auto res = [&] { ev(ok ? "dsa_done" : "refused"); };
  observe("dsa_privkey_verify", on, key, CB(ok = dsa_privkey_verify(kp, kl))); res();
  observe("dsa_privkey_export", on, key, CB(ok = dsa_privkey_export(&out[0], &ol, kp, kl))); res();
  Bytes flat(out.begin(), out.begin() + ol);
  const uint8_t *fp = flat.data();
  size_t fl = flat.size();
  observe("dsa_privkey_import", on, key, CB(ok = dsa_privkey_import(&out[0], &ol, fp, fl))); res();
  observe("dsa_pubkey_create", on, key, CB(ok = dsa_pubkey_create(&out[0], &ol, kp, kl))); res();
  observe("dsa_params_create", on, key, CB(ok = dsa_params_create(&out[0], &ol, kp, kl))); res();
  observe("dsa_privkey_create", on, {{"entropy", e}}, CB(ok = dsa_privkey_create(&out[0], &ol, rp, rl, ep)), [&]() -> Secrets {
    pk::Zs v;
    if (!pk::undo(Bytes(out.begin(), out.begin() + ol), 5, true, v)) { fprintf(stderr, "created key\n"); exit(96); }
    return {{"created key", z2(v[4])}};
  });
  res();
  observe("dsa_sign", on, key, CB(ok = dsa_sign(&out[0], &ol, mp, 32, kp, kl, ep)), [&]() -> Secrets {
    size_t qs = (k.q.bits() + 7) / 8;
    Z r = big::from_be(&out[0], qs), s = big::from_be(&out[qs], qs), z = nat(Bytes(m.begin(), m.begin() + std::min<size_t>(32, qs)));
    Z n = (z + r * k.x) * big::inv(s, k.q) % k.q;
    if (big::powm(k.g, n, k.p) % k.q != r) { fprintf(stderr, "nonce model of DSA\n"); exit(96); }
    return {{"nonce", z2(n)}, {"inverse nonce", z2(big::inv(n, k.q))}};
  });
  res();
  observe("dsa_derive", on, key, CB(ok = dsa_derive(&out[0], &ol, op, opl, kp, kl)), [&]() -> Secrets { return {{"shared secret", z2(big::powm(o.y, k.x, k.p))}}; });
  res();
}

VH_TEST(derivation, 60, 1) {
  static const hash_id_t hs[] = {HASH_SHA1, HASH_SHA224, HASH_SHA256, HASH_SHA384, HASH_SHA512, HASH_SHA3_256, HASH_SHA3_512, HASH_BLAKE2B_256, HASH_BLAKE2B_512, HASH_BLAKE2S_256, HASH_RIPEMD160, HASH_MD5, HASH_KECCAK256, HASH_WHIRLPOOL, HASH_SHAKE128};
  hash_id_t h = hs[c.rng.below(15)];
  std::string ons = fmt("hash%d", (int)h);
  const char *on = ons.c_str();
  Bytes pw = c.rng.bytes(c.rng.range(24, 150)), salt = c.rng.bytes(16);
  const uint8_t *pp = pw.data(), *sp = salt.data();
  size_t pl = pw.size(), n = c.rng.range(24, 100);
  static Bytes out(4096);
  Secrets pass = {{"password", pw}};
  auto outs = [&](const char *nm, size_t len) { return [&out = out, nm, len]() -> Secrets { return {{nm, Bytes(out.begin(), out.begin() + len)}}; }; };
  int ok = 0;
  auto res = [&] { ev(ok ? "derived" : "refused"); };
  observe("pbkdf2_derive", on, pass, CB(ok = pbkdf2_derive(&out[0], h, pp, pl, sp, 16, 3, n)), outs("derived key", n)); res();
  observe("hkdf_extract", on, pass, CB(ok = hkdf_extract(&out[0], h, pp, pl, sp, 16)), outs("derived key", hash_output_size(h))); res();
  Bytes prk = c.rng.bytes(hash_output_size(h));
  const uint8_t *kp = prk.data();
  observe("hkdf_expand", on, {{"pseudorandom key", prk}}, CB(ok = hkdf_expand(&out[0], h, kp, sp, 16, n)), outs("derived key", n)); res();
  observe("scrypt_derive", on, pass, CB(ok = scrypt_derive(&out[0], pp, pl, sp, 16, 16, 2, 2, n)), [&]() -> Secrets {
    Bytes b(512);
    pbkdf2_derive(&b[0], HASH_SHA256, pp, pl, sp, 16, 1, 512);
    return {{"derived key", Bytes(out.begin(), out.begin() + n)}, {"first block", b}};
  });
  res();
  observe("eb2k_derive", on, pass, CB(ok = eb2k_derive(&out[0], &out[500], h, pp, pl, sp, 8, n, 16)), outs("derived key", n)); res();
  observe("pgpdf_derive_simple", on, pass, CB(ok = pgpdf_derive_simple(&out[0], h, pp, pl, n)), outs("derived key", n)); res();
  observe("pgpdf_derive_salted", on, pass, CB(ok = pgpdf_derive_salted(&out[0], h, pp, pl, sp, 8, n)), outs("derived key", n)); res();
  observe("pgpdf_derive_iterated", on, pass, CB(ok = pgpdf_derive_iterated(&out[0], h, pp, pl, sp, 8, 1000, n)), outs("derived key", n)); res();
  observe("bcrypt_pbkdf", on, pass, CB(ok = bcrypt_pbkdf(&out[0], pp, pl, sp, 16, 1, 32)), [&]() -> Secrets { return {{"derived key", Bytes(out.begin(), out.begin() + 32)}, {"password digest", ref::hash(HASH_SHA512, pw)}}; });
  res();
  Bytes tp(pw.begin(), pw.begin() + 24);
  const uint8_t *tpp = tp.data();
  observe("bcrypt_generate", on, {{"password", tp}}, CB(ok = bcrypt_generate((char *)&out[0], tpp, 24, sp, 4, 'b'))); res();
  Bytes rec(out.begin(), out.begin() + 70);
  const char *rc = (const char *)rec.data();
  observe("bcrypt_verify", on, {{"password", tp}}, CB(ok = bcrypt_verify(tpp, 24, rc))); res();
}

VH_TEST(boxes, 60, 1) {
  Bytes key = c.rng.bytes(32), nonce = c.rng.bytes(24), m = c.rng.bytes(c.rng.range(24, 300)), sec = c.rng.bytes(32);
  const uint8_t *kp = key.data(), *np = nonce.data(), *mp = m.data(), *sp = sec.data();
  size_t ml = m.size();
  static Bytes out(4096), back(4096);
  int ok = 0;
  Bytes sub(32);
  salsa20_derive(sub.data(), kp, 32, np);
  Secrets both = {{"key", key}, {"message", m}, {"derived key", sub}};
  observe("secretbox_seal", "box", both, CB(secretbox_seal(&out[0], mp, ml, kp, np)));
  observe("secretbox_open", "box", both, CB(ok = secretbox_open(&back[0], &out[0], ml + 16, kp, np)));
  ev(ok ? "opened" : "refused");
  observe("secretbox_derive", "box", {{"shared secret", sec}}, CB(secretbox_derive(&out[0], sp)), [&]() -> Secrets { return {{"derived key", Bytes(out.begin(), out.begin() + 32)}}; });
}

VH_TEST(symmetric, 60, 1) {
  static const hash_id_t hs[] = {HASH_SHA1, HASH_SHA256, HASH_SHA512, HASH_SHA3_256, HASH_BLAKE2B_512, HASH_BLAKE2S_256, HASH_RIPEMD160, HASH_KECCAK256};
  hash_id_t h = hs[c.idx % 8];
  size_t bs = hash_block_size(h);
  std::string ons = fmt("hash%d", (int)h);
  const char *on = ons.c_str();
  static hmac_t hm;
  static Bytes out(4096), back(4096);
  for (int lng = 0; lng < 2; lng++) {
    Bytes key = c.rng.bytes(lng ? bs + c.rng.range(1, 60) : c.rng.range(24, std::min<size_t>(bs, 60))), eff = lng ? ref::hash(h, key) : key, in = eff, ou = eff;
    for (auto &x : in) x ^= 0x36;
    for (auto &x : ou) x ^= 0x5c;
    const uint8_t *kp = key.data();
    size_t kl = key.size();
    observe(lng ? "hmac_init_long" : "hmac_init", on, {{"key", key}, {"key digest", eff}, {"inner pad", in}, {"outer pad", ou}}, CB(hmac_init(&hm, h, kp, kl)));
  }
  Bytes key = c.rng.bytes(32), n12 = c.rng.bytes(12), n16 = c.rng.bytes(16), n24 = c.rng.bytes(24);
  const uint8_t *kp = key.data(), *np = n12.data(), *sp = n16.data(), *xp = n24.data();
  static chachapoly_t cp;
  observe("chachapoly_init", "aead", {{"key", key}}, CB(chachapoly_init(&cp, kp, np, 12)), [&]() -> Secrets {
    static chacha20_t cc;
    Bytes z(64, 0), o(64);
    chacha20_init(&cc, kp, 32, np, 12, 0);
    chacha20_crypt(&cc, o.data(), z.data(), 64);
    return {{"one-time key", Bytes(o.begin(), o.begin() + 32)}};
  });
  static chacha20_t cc;
  static salsa20_t sc;
  observe("chacha20_derive", "stream", {{"key", key}}, CB(chacha20_derive(&out[0], kp, 32, sp)), [&]() -> Secrets { return {{"derived key", Bytes(out.begin(), out.begin() + 32)}}; });
  observe("salsa20_derive", "stream", {{"key", key}}, CB(salsa20_derive(&out[0], kp, 32, sp)), [&]() -> Secrets { return {{"derived key", Bytes(out.begin(), out.begin() + 32)}}; });
  observe("chacha20_init_extended", "stream", {{"key", key}}, CB(chacha20_init(&cc, kp, 32, xp, 24, 0)), [&]() -> Secrets { Bytes k(32); chacha20_derive(k.data(), kp, 32, xp); return {{"derived key", k}}; });
  observe("salsa20_init_extended", "stream", {{"key", key}}, CB(salsa20_init(&sc, kp, 32, xp, 24, 0)), [&]() -> Secrets { Bytes k(32); salsa20_derive(k.data(), kp, 32, xp); return {{"derived key", k}}; });
  static const cipher_id_t cs[] = {CIPHER_AES128, CIPHER_AES256, CIPHER_CAMELLIA128, CIPHER_TWOFISH256, CIPHER_AES192, CIPHER_CAST5, CIPHER_BLOWFISH, CIPHER_IDEA};
  cipher_id_t t = cs[c.idx % 8];
  size_t kl = cipher_key_size(t), cb = cipher_block_size(t);
  Bytes ck = c.rng.bytes(kl), m = c.rng.bytes(cb * c.rng.range(4, 12));
  const uint8_t *ckp = ck.data(), *mp = m.data();
  size_t ml = m.size(), ol = 0, bl = 0;
  std::string cn = fmt("cipher%d", (int)t);
  Secrets both = {{"key", ck}, {"message", m}};
  int ok = 0;
  observe("cipher_static_encrypt", cn.c_str(), both, CB(ok = cipher_static_encrypt(&out[0], &ol, t, CIPHER_MODE_CBC, ckp, kl, sp, cb, mp, ml)));
  ev(ok ? "encrypted" : "refused");
  observe("cipher_static_decrypt", cn.c_str(), both, CB(ok = cipher_static_decrypt(&back[0], &bl, t, CIPHER_MODE_CBC, ckp, kl, sp, cb, &out[0], ol)));
  ev(ok ? "decrypted" : "refused");
}
