// C01: digests against independent implementations, over messages x fragmentations x entry points.
#include "ref_hash.hpp"
#include <openssl/md4.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <openssl/ripemd.h>
#include <sys/mman.h>
extern "C" {
#include <torsion/util.h>
}
using namespace vh;

static Bytes tor_hash(hash_id_t id, const Bytes &m, const std::vector<size_t> &split, size_t outlen, Rng &r) {
  hash_t *h = (hash_t *)malloc(sizeof *h);
  memset(h, (int)r.below(256), sizeof *h);
  hash_init(h, id);
  In in(m);
  size_t o = 0;
  for (size_t n : split) { hash_update(h, in.p() + o, n); o += n; }
  Buf out(outlen);
  hash_final(h, out, outlen);
  free(h);
  return out.get();
}

static uint64_t key_of(const char *n, uint64_t a, const Bytes &b) { return fnv(b.data(), b.size(), fnv(&a, 8, fnv(n, strlen(n)))); }

VH_TEST(generic, 60000, 20) {
  const ref::Info &h = ref::hashes[c.idx % ref::hashes.size()];
  size_t maxlen = c.rng.chance(1, 40) ? 20000 : c.rng.chance(1, 3) ? 1100 : 300;
  Bytes m = c.rng.special(c.rng.big(maxlen, h.block));
  auto sp = c.rng.split(m.size(), h.block);
  bool xof = h.id == HASH_SHAKE128 || h.id == HASH_SHAKE256;
  size_t outlen = h.size;
  if (xof && c.rng.chance(1, 2)) outlen = c.rng.range(1, 200);
  Bytes want = ref::hash(h.id, m, outlen);
  if (want.size() != outlen) { viol("ref-size", "%s", h.name); return; }
  Bytes got = tor_hash(h.id, m, sp, outlen, c.rng);
  eq(fmt("digest:%s", h.name).c_str(), got, want, "len=%zu chunks=%zu out=%zu msg=%s", m.size(), sp.size(), outlen, hex(m).substr(0, 512).c_str());
  eval(key_of(h.name, outlen, m) ^ sp.size());
  ev("digest");
  ev("update_calls", sp.size());
  if (m.size() % h.block == 0) ev("block_aligned");
  if (sp.size() > 1) ev("fragmented");
  sample(fmt("%s len=%zu in %zu updates -> %s", h.name, m.size(), sp.size(), hex(got).substr(0, 32).c_str()));
}

// every length 0..4 blocks, one-shot and byte-at-a-time boundary splits
VH_TEST(lengths, 32 * 20, 4) {
  const ref::Info &h = ref::hashes[c.idx % 32];
  Bytes m = c.rng.special(4 * h.block + 3);
  size_t from = (c.idx / 32) * m.size() / 20, to = (c.idx / 32 + 1) * m.size() / 20;
  for (size_t n = from; n < to + 1 && n <= m.size(); n++) {
    Bytes s(m.begin(), m.begin() + n);
    Bytes want = ref::hash(h.id, s, h.size);
    size_t cut = n ? c.rng.below(n + 1) : 0;
    Bytes got = tor_hash(h.id, s, {cut, n - cut}, h.size, c.rng);
    eq(fmt("digest:%s", h.name).c_str(), got, want, "len=%zu cut=%zu msg=%s", n, cut, hex(s).c_str());
    eval(key_of(h.name, n * 1000 + cut, s));
    ev("digest");
  }
}

VH_TEST(meta, 40, 1) {
  // sizes reported through the generic interface
  for (auto &h : ref::hashes) {
    eqi("has-backend", hash_has_backend(h.id), 1, "%s", h.name);
    eqi("output-size", hash_output_size(h.id), h.size, "%s", h.name);
    eqi("block-size", hash_block_size(h.id), h.block, "%s", h.name);
    eval(key_of("meta", h.id, {}));
  }
  int bad = c.idx % 2 ? -1 - (int)c.idx : 33 + (int)c.idx;
  eqi("has-backend:bad", hash_has_backend((hash_id_t)(c.idx ? bad : 0)), 0, "%d", bad);
}

template <class C, class I, class U, class F>
static Bytes spec3(C *ctx, I init, U update, F final_, const Bytes &m, const std::vector<size_t> &sp, size_t outlen) {
  In in(m);
  init(ctx);
  size_t o = 0;
  for (size_t n : sp) { update(ctx, in.p() + o, n); o += n; }
  Buf out(outlen);
  final_(ctx, out.p());
  return out.get();
}

VH_TEST(specific, 12000, 15) {
  const ref::Info &h = ref::hashes[c.idx % ref::hashes.size()];
  Bytes m = c.rng.special(c.rng.len(700, h.block));
  auto sp = c.rng.split(m.size(), h.block);
  hash_t *hs = (hash_t *)malloc(sizeof *hs);
  memset(hs, 0x5a, sizeof *hs);
  Bytes got;
#define R(ID, name, field) case ID: got = spec3(&hs->ctx.field, name##_init, name##_update, name##_final, m, sp, h.size); break;
#define RK(ID, name) case ID: got = spec3(&hs->ctx.keccak, torsion_##name##_init, torsion_##name##_update, torsion_##name##_final, m, sp, h.size); break;
#define RB(ID, f, name) case ID: got = spec3(&hs->ctx.f, [](f##_t *x) { torsion_##name##_init(x, nullptr, 0); }, torsion_##name##_update, torsion_##name##_final, m, sp, h.size); break;
  switch (h.id) {
    RB(HASH_BLAKE2B_160, blake2b, blake2b160) RB(HASH_BLAKE2B_256, blake2b, blake2b256) RB(HASH_BLAKE2B_384, blake2b, blake2b384) RB(HASH_BLAKE2B_512, blake2b, blake2b512)
    RB(HASH_BLAKE2S_128, blake2s, blake2s128) RB(HASH_BLAKE2S_160, blake2s, blake2s160) RB(HASH_BLAKE2S_224, blake2s, blake2s224) RB(HASH_BLAKE2S_256, blake2s, blake2s256)
    R(HASH_GOST94, gost94, gost94) R(HASH_HASH160, hash160, sha256) R(HASH_HASH256, hash256, sha256)
    RK(HASH_KECCAK224, keccak224) RK(HASH_KECCAK256, keccak256) RK(HASH_KECCAK384, keccak384) RK(HASH_KECCAK512, keccak512)
    R(HASH_MD2, md2, md2) R(HASH_MD4, md4, md5) R(HASH_MD5, md5, md5) R(HASH_MD5SHA1, md5sha1, md5sha1) R(HASH_RIPEMD160, ripemd160, ripemd160)
    R(HASH_SHA1, sha1, sha1) R(HASH_SHA224, sha224, sha256) R(HASH_SHA256, sha256, sha256) R(HASH_SHA384, sha384, sha512) R(HASH_SHA512, sha512, sha512)
    RK(HASH_SHA3_224, sha3_224) RK(HASH_SHA3_256, sha3_256) RK(HASH_SHA3_384, sha3_384) RK(HASH_SHA3_512, sha3_512)
    R(HASH_WHIRLPOOL, whirlpool, whirlpool)
    case HASH_SHAKE128: got = spec3(&hs->ctx.keccak, torsion_shake128_init, torsion_shake128_update, [](sha3_t *x, uint8_t *o) { torsion_shake128_final(x, o, 16); }, m, sp, 16); break;
    case HASH_SHAKE256: got = spec3(&hs->ctx.keccak, torsion_shake256_init, torsion_shake256_update, [](sha3_t *x, uint8_t *o) { torsion_shake256_final(x, o, 32); }, m, sp, 32); break;
    default: break;
  }
  free(hs);
  eq(fmt("digest:%s", h.name).c_str(), got, ref::hash(h.id, m, h.size), "specific entry points, len=%zu msg=%s", m.size(), hex(m).c_str());
  eval(key_of(h.name, 77, m));
  ev("specific_entry");
}

VH_TEST(keyed_blake2, 12000, 15) {
  bool b = c.idx & 1;
  size_t max = b ? 64 : 32;
  size_t outlen = c.rng.range(1, max), keylen = c.rng.chance(1, 4) ? 0 : c.rng.range(1, max);
  if (c.rng.chance(1, 5)) { outlen = max; keylen = max; }
  Bytes key = c.rng.special(keylen), m = c.rng.special(c.rng.big(600, b ? 128 : 64));
  auto sp = c.rng.split(m.size(), b ? 128 : 64);
  In in(m), k(key);
  Buf out(outlen);
  size_t o = 0;
  if (b) {
    blake2b_t x; memset(&x, 0xee, sizeof x);
    blake2b_init(&x, outlen, k, keylen);
    for (size_t n : sp) { blake2b_update(&x, in.p() + o, n); o += n; }
    blake2b_final(&x, out);
    eq("blake2b-keyed", out.get(), ref::blake2b(outlen, key, m), "out=%zu key=%s msg=%s", outlen, hex(key).c_str(), hex(m).c_str());
  } else {
    blake2s_t x; memset(&x, 0xee, sizeof x);
    blake2s_init(&x, outlen, k, keylen);
    for (size_t n : sp) { blake2s_update(&x, in.p() + o, n); o += n; }
    blake2s_final(&x, out);
    eq("blake2s-keyed", out.get(), ref::blake2s(outlen, key, m), "out=%zu key=%s msg=%s", outlen, hex(key).c_str(), hex(m).c_str());
  }
  eval(key_of(b ? "kb" : "ks", outlen * 100 + keylen, m));
  ev(keylen ? "blake2_keyed" : "blake2_unkeyed");
}

// raw sponge: every rate the library accepts, arbitrary domain byte and output length
VH_TEST(sponge, 12000, 15) {
  static const unsigned bits[] = {32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 384, 416, 448, 512, 576, 640, 704, 768};
  unsigned bt = bits[c.idx % 18];
  unsigned rate = (1600 - 2 * bt) / 8;
  unsigned pad = c.rng.chance(1, 3) ? 0 : c.rng.chance(1, 2) ? c.rng.range(1, 255) : std::vector<unsigned>{1, 6, 0x1f, 4, 0x80}[c.rng.below(5)];
  size_t outlen = c.rng.chance(1, 4) ? 0 : c.rng.range(1, 200);
  Bytes m = c.rng.special(c.rng.big(700, rate));
  auto sp = c.rng.split(m.size(), rate);
  In in(m);
  keccak_t x; memset(&x, 0x77, sizeof x);
  keccak_init(&x, bt);
  size_t o = 0;
  for (size_t n : sp) { keccak_update(&x, in.p() + o, n); o += n; }
  size_t real = outlen ? outlen : bt / 8;
  Buf out(real);
  keccak_final(&x, out, pad, outlen);
  eq("sponge", out.get(), ref::keccak(bt, pad ? pad : 1, real, m), "bits=%u pad=%u out=%zu len=%zu msg=%s", bt, pad, outlen, m.size(), hex(m).c_str());
  eval(key_of("sponge", bt * 100000 + pad * 300 + outlen, m));
  ev(real > rate ? "sponge_multi_squeeze" : "sponge_single_squeeze");
}

// a copied context is an independent history
VH_TEST(clone, 6000, 15) {
  const ref::Info &h = ref::hashes[c.idx % ref::hashes.size()];
  Bytes a = c.rng.special(c.rng.len(400, h.block)), b = c.rng.bytes(c.rng.len(300, h.block)), d = c.rng.bytes(c.rng.len(300, h.block));
  hash_t x, y;
  hash_init(&x, h.id);
  In ia(a), ib(b), id(d);
  hash_update(&x, ia, a.size());
  y = x;
  hash_update(&x, ib, b.size());
  hash_update(&y, id, d.size());
  Buf o1(h.size), o2(h.size);
  hash_final(&x, o1, h.size);
  hash_final(&y, o2, h.size);
  eq(fmt("clone:%s", h.name).c_str(), o1.get(), ref::hash(h.id, ref::cat({a, b}), h.size), "first");
  eq(fmt("clone:%s", h.name).c_str(), o2.get(), ref::hash(h.id, ref::cat({a, d}), h.size), "second");
  // context reuse after final
  hash_init(&x, h.id);
  hash_update(&x, id, d.size());
  hash_final(&x, o1, h.size);
  eq(fmt("reuse:%s", h.name).c_str(), o1.get(), ref::hash(h.id, d, h.size), "reused context");
  eval(key_of("clone", h.id, ref::cat({a, b, d})));
  ev("clones");
}

// Length counters near their carries, by continuing from a context whose byte counter was advanced.
// The representation is probed first; when the field does not behave like a byte counter the case is skipped.
template <class T, class O, class I1, class U1, class F1, class U2, class F2>
static void carry64(const char *name, Rng &r, I1 init, U1 upd, F1 fin, size_t outlen, int (*oi)(O *), U2 ou, F2 of) {
  T t;
  static const Bytes probe(1000, 7);
  init(&t);
  upd(&t, probe.data(), 1000);
  if (t.size != 1000) { ev("carry_probe_skipped"); return; }
  init(&t);
  static const int exps[] = {28, 29, 30, 31, 32, 33, 48, 56, 60};
  uint64_t s = (1ull << exps[r.below(9)]) - 64 * r.below(3);
  t.size = s;
  O o;
  oi(&o);
  o.Nl = (uint32_t)(s << 3);
  o.Nh = (uint32_t)(s >> 29);
  Bytes m = r.bytes(r.below(300));
  Buf out(outlen);
  Bytes want(outlen);
  upd(&t, m.data(), m.size());
  fin(&t, out.p());
  ou(&o, m.data(), m.size());
  of(want.data(), &o);
  eq(fmt("carry:%s", name).c_str(), out.get(), want, "byte counter started at 2^k region: %llu, +%zu", (unsigned long long)s, m.size());
  eval(key_of(name, s, m));
  ev("counter_carry");
}

VH_TEST(carry, 4000, 10) {
  switch (c.idx % 8) {
    case 0: carry64<md4_t, MD4_CTX>("MD4", c.rng, md4_init, md4_update, md4_final, 16, MD4_Init, MD4_Update, MD4_Final); break;
    case 1: carry64<md5_t, MD5_CTX>("MD5", c.rng, md5_init, md5_update, md5_final, 16, MD5_Init, MD5_Update, MD5_Final); break;
    case 2: carry64<sha1_t, SHA_CTX>("SHA1", c.rng, sha1_init, sha1_update, sha1_final, 20, SHA1_Init, SHA1_Update, SHA1_Final); break;
    case 3: carry64<sha256_t, SHA256_CTX>("SHA256", c.rng, sha256_init, sha256_update, sha256_final, 32, SHA256_Init, SHA256_Update, SHA256_Final); break;
    case 4: carry64<ripemd160_t, RIPEMD160_CTX>("RIPEMD160", c.rng, ripemd160_init, ripemd160_update, ripemd160_final, 20, RIPEMD160_Init, RIPEMD160_Update, RIPEMD160_Final); break;
    case 5: {
      static const Bytes probe(1000, 7);
      sha512_t t;
      sha512_init(&t);
      sha512_update(&t, probe.data(), 1000);
      int lo = t.size[0] == 1000 && t.size[1] == 0 ? 0 : t.size[1] == 1000 && t.size[0] == 0 ? 1 : -1;
      if (lo < 0) { ev("carry_probe_skipped"); break; }
      static const int exps[] = {29, 32, 60, 61, 62, 63, 64};
      int e = exps[c.rng.below(7)];
      uint64_t s = (e == 64 ? 0 : 1ull << e) - 128 * c.rng.below(3);
      bool wrap = e == 64 && s == 0;
      sha512_init(&t);
      t.size[lo] = s;
      uint64_t hi = wrap ? 1 : c.rng.chance(1, 3) ? c.rng.below(1u << 20) : 0;
      t.size[1 - lo] = hi;
      SHA512_CTX o;
      SHA512_Init(&o);
      o.Nl = s << 3;
      o.Nh = (hi << 3) | (s >> 61);
      Bytes m = c.rng.bytes(c.rng.below(500));
      Buf out(64);
      Bytes want(64);
      sha512_update(&t, m.data(), m.size());
      sha512_final(&t, out);
      SHA512_Update(&o, m.data(), m.size());
      SHA512_Final(want.data(), &o);
      eq("carry:SHA512", out.get(), want, "byte counter %llu:%llu +%zu", (unsigned long long)hi, (unsigned long long)s, m.size());
      eval(key_of("c512", s ^ hi, m));
      ev("counter_carry");
      break;
    }
    case 6: case 7: {
      bool b = c.idx % 8 == 6;
      static const Bytes probe(1000, 7);
      Bytes m = c.rng.bytes(c.rng.range(1, 600));
      size_t bs = b ? 128 : 64;
      int e = b ? 64 : 32;
      unsigned __int128 t0 = ((unsigned __int128)1 << e) - bs * c.rng.range(1, 4);
      if (c.rng.chance(1, 3)) t0 += (unsigned __int128)c.rng.below(1000) << e;
      Bytes got, want;
      if (b) {
        blake2b_t t;
        blake2b_init(&t, 64, nullptr, 0);
        blake2b_update(&t, probe.data(), 1000);
        if (t.t[0] != 896 || t.t[1]) { ev("carry_probe_skipped"); break; }
        blake2b_init(&t, 64, nullptr, 0);
        t.t[0] = (uint64_t)t0; t.t[1] = (uint64_t)(t0 >> 64);
        Buf out(64);
        blake2b_update(&t, m.data(), m.size()); blake2b_final(&t, out);
        got = out.get(); want = ref::blake2b(64, {}, m, t0);
      } else {
        blake2s_t t;
        blake2s_init(&t, 32, nullptr, 0);
        blake2s_update(&t, probe.data(), 1000);
        if (t.t[0] != 960 || t.t[1]) { ev("carry_probe_skipped"); break; }
        blake2s_init(&t, 32, nullptr, 0);
        t.t[0] = (uint32_t)t0; t.t[1] = (uint32_t)(t0 >> 32);
        Buf out(32);
        blake2s_update(&t, m.data(), m.size()); blake2s_final(&t, out);
        got = out.get(); want = ref::blake2s(32, {}, m, t0);
      }
      eq(b ? "carry:BLAKE2B" : "carry:BLAKE2S", got, want, "counter near 2^%d, %zu more bytes", e, m.size());
      eval(key_of(b ? "cb" : "cs", (uint64_t)t0, m));
      ev("counter_carry");
      break;
    }
  }
}

// Really long messages (bit and byte counters past 2^32), over a demand-zero mapping. Optimised builds only.
struct LongH { hash_id_t id; const char *name; uint64_t n; };
VH_TEST(longmsg, 6, 1) {
#ifndef VH_SAN
  static const LongH t[] = {{HASH_SHA256, "SHA256", (1ull << 29) + 61}, {HASH_SHA1, "SHA1", (1ull << 29) + 5}, {HASH_MD5, "MD5", (1ull << 29) + 64},
                            {HASH_SHA512, "SHA512", (1ull << 29) + 127}, {HASH_BLAKE2S_256, "BLAKE2S-256", (1ull << 32) + 65}, {HASH_BLAKE2B_512, "BLAKE2B-512", (1ull << 29) + 65}};
  if (!strstr(config, "64") && c.scale == 1) return;
  LongH h = t[c.idx % 6];
  if (c.scale > 1 && h.id != HASH_BLAKE2S_256) h.n += 1ull << 32;
  void *p = mmap(nullptr, h.n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { ev("mmap_failed"); return; }
  hash_t x;
  hash_init(&x, h.id);
  uint64_t first = c.rng.below(200);
  hash_update(&x, p, first);
  hash_update(&x, p, (size_t)(h.n - first));       // one huge update
  Buf out(ref::info(h.id).size);
  hash_final(&x, out, out.size());
  ref::init_providers();
  EVP_MD *md = EVP_MD_fetch(nullptr, h.name, nullptr);
  EVP_MD_CTX *ctx = EVP_MD_CTX_new();
  EVP_DigestInit_ex(ctx, md, nullptr);
  for (uint64_t o = 0; o < h.n;) { uint64_t k = std::min<uint64_t>(1 << 20, h.n - o); EVP_DigestUpdate(ctx, p, k); o += k; }
  Bytes want(out.size());
  EVP_DigestFinal_ex(ctx, want.data(), nullptr);
  EVP_MD_CTX_free(ctx);
  EVP_MD_free(md);
  munmap(p, h.n);
  eq(fmt("long:%s", h.name).c_str(), out.get(), want, "%llu zero bytes", (unsigned long long)h.n);
  eval(key_of("long", h.id, {}));
  ev("long_messages");
#endif
}

static uint32_t ref_murmur(const Bytes &d, uint32_t seed) {
  uint32_t h = seed, n = d.size();
  auto rol = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
  size_t i = 0;
  for (; i + 4 <= d.size(); i += 4) {
    uint32_t k = d[i] | d[i + 1] << 8 | d[i + 2] << 16 | (uint32_t)d[i + 3] << 24;
    k *= 0xcc9e2d51; k = rol(k, 15); k *= 0x1b873593;
    h ^= k; h = rol(h, 13); h = h * 5 + 0xe6546b64;
  }
  uint32_t k = 0;
  switch (d.size() & 3) {
    case 3: k ^= d[i + 2] << 16; /* fallthrough */
    case 2: k ^= d[i + 1] << 8;  /* fallthrough */
    case 1: k ^= d[i]; k *= 0xcc9e2d51; k = rol(k, 15); k *= 0x1b873593; h ^= k;
  }
  h ^= n; h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16;
  return h;
}

VH_TEST(murmur, 6000, 10) {
  Bytes m = c.rng.special(c.rng.big(200, 4));
  uint32_t seed = c.rng.chance(1, 4) ? 0xffffffffu : (uint32_t)c.rng.next(), tweak = (uint32_t)c.rng.next(), n = (uint32_t)c.rng.below(100);
  In in(m);
  eqi("murmur3", murmur3_sum(in, m.size(), seed), ref_murmur(m, seed), "seed=%u msg=%s", seed, hex(m).c_str());
  eqi("murmur3-tweak", murmur3_tweak(in, m.size(), n, tweak), ref_murmur(m, n * 0xfba4c795u + tweak), "n=%u tweak=%u msg=%s", n, tweak, hex(m).c_str());
  eval(key_of("murmur", seed, m));
  ev("murmur");
}

VH_TEST(memops, 6000, 10) {
  size_t n = c.rng.len(200, 8);
  Bytes a = c.rng.special(n), b = c.rng.chance(1, 3) ? a : c.rng.special(n);
  if (n && c.rng.chance(1, 2)) { b = a; b[c.rng.below(n)] ^= 1 << c.rng.below(8); }
  In x(a), y(b);
  int m = n ? memcmp(a.data(), b.data(), n) : 0, s = (m > 0) - (m < 0);
  auto sg = [](int v) { return (v > 0) - (v < 0); };
  eqi("memcmp", sg(torsion_memcmp(x, y, n)), s, "%s vs %s", hex(a).c_str(), hex(b).c_str());
  eqi("memcmp_var", sg(torsion_memcmp_var(x, y, n)), s, "%s vs %s", hex(a).c_str(), hex(b).c_str());
  eqi("memequal", torsion_memequal(x, y, n), m == 0, "%s vs %s", hex(a).c_str(), hex(b).c_str());
  Bytes w(n);
  for (size_t i = 0; i < n; i++) w[i] = a[i] ^ b[i];
  Buf z(n);
  torsion_memxor3(z, x, y, n);
  eq("memxor3", z.get(), w, "n=%zu", n);
  Buf z2(a);
  torsion_memxor(z2, y, n);
  eq("memxor", z2.get(), w, "n=%zu", n);
  torsion_memzero(z2, n);
  eq("memzero", z2.get(), Bytes(n, 0), "n=%zu", n);
  eval(key_of("mem", n, ref::cat({a, b})));
  ev("memops");
}
