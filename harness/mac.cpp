// C02: HMAC, Poly1305, SipHash
#include "ref_hash.hpp"
#include "ref_stream.hpp"
extern "C" {
#include <torsion/mac.h>
}
using namespace vh;
using big::Z;

VH_TEST(hmac, 40000, 20) {
  const ref::Info &h = ref::hashes[c.idx % ref::hashes.size()];
  size_t kl = c.rng.chance(1, 3) ? h.block + c.rng.below(5) - 2 : c.rng.chance(1, 4) ? c.rng.below(3 * h.block) : c.rng.len(h.block, h.size);
  Bytes key = c.rng.special(kl), m = c.rng.special(c.rng.big(500, h.block));
  auto sp = c.rng.split(m.size(), h.block);
  In k(key), in(m);
  hmac_t *x = (hmac_t *)malloc(sizeof *x);
  memset(x, 0x3c, sizeof *x);
  hmac_init(x, h.id, k, key.size());
  size_t o = 0;
  for (size_t n : sp) { hmac_update(x, in.p() + o, n); o += n; }
  Buf out(h.size);
  hmac_final(x, out);
  free(x);
  eq(fmt("hmac:%s", h.name).c_str(), out.get(), ref::hmac(h.id, key, m), "keylen=%zu key=%s len=%zu msg=%s", kl, hex(key).c_str(), m.size(), hex(m).c_str());
  eval(fnv(m.data(), m.size(), fnv(key.data(), key.size(), h.id)));
  ev("hmac");
  if (kl > h.block) ev("hmac_long_key");
  if (kl == h.block) ev("hmac_block_key");
  sample(fmt("HMAC-%s keylen=%zu msglen=%zu updates=%zu", h.name, kl, m.size(), sp.size()));
}

static Bytes tor_poly(const Bytes &key, const Bytes &m, const std::vector<size_t> &sp) {
  In k(key), in(m);
  poly1305_t x;
  memset(&x, 0xcc, sizeof x);
  poly1305_init(&x, k);
  size_t o = 0;
  for (size_t n : sp) { poly1305_update(&x, in.p() + o, n); o += n; }
  Buf out(16);
  poly1305_final(&x, out);
  return out.get();
}

VH_TEST(poly, 60000, 15) {
  Bytes key = c.rng.special(32), m = c.rng.special(c.rng.big(c.rng.chance(1, 20) ? 2000 : 200, 16));
  if (c.rng.chance(1, 4)) for (int i = 0; i < 16; i++) key[i] = 0xff;
  if (c.rng.chance(1, 4)) for (auto &b : m) b = 0xff;
  auto sp = c.rng.split(m.size(), 16);
  eq("poly1305", tor_poly(key, m, sp), ref::poly1305(key, m), "key=%s len=%zu msg=%s", hex(key).c_str(), m.size(), hex(m).c_str());
  eval(fnv(m.data(), m.size(), fnv(key.data(), 32)));
  ev("poly1305");
  sample(fmt("poly1305 key=%s len=%zu", hex(key).c_str(), m.size()));
}

// Steer the accumulator: choose the last full block so that h*r hits a chosen residue, then a chosen pad.
VH_TEST(poly_target, 40000, 15) {
  Bytes key = c.rng.special(32);
  Z r = ref::poly_r(key), p = ref::p1305();
  if (r.zero()) { key[0] |= 1; r = ref::poly_r(key); }
  Bytes pre = c.rng.special(16 * c.rng.below(4));
  Z h = ref::poly_acc(key, pre), t;
  for (int tries = 0; tries < 40; tries++) {
    switch (c.rng.below(6)) {
      case 0: t = p - Z((unsigned long)c.rng.range(1, 300)); break;
      case 1: t = Z((unsigned long)c.rng.below(300)); break;
      case 2: t = (big::pow2(128) * Z((unsigned long)c.rng.below(4)) + Z((long)c.rng.below(600) - 300)) % p; break;
      case 3: t = big::rnd_bits(c.rng, 130) % p; break;
      case 4: { // 26-bit limbs each near 0 or the limit
        t = Z(0);
        for (int i = 0; i < 5; i++) t = t + (Z((unsigned long)(c.rng.chance(1, 2) ? 0x3ffffff - c.rng.below(8) : c.rng.below(8))) << (26 * i));
        t = t % p; break;
      }
      default: { // 44/44/42-bit limbs
        t = (Z((unsigned long)(c.rng.chance(1, 2) ? 0xfffffffffffull - c.rng.below(8) : c.rng.below(8)))) + (Z((unsigned long)(c.rng.chance(1, 2) ? 0xfffffffffffull - c.rng.below(8) : c.rng.below(8))) << 44) + (Z((unsigned long)(c.rng.chance(1, 2) ? 0x3ffffffffffull - c.rng.below(8) : c.rng.below(8))) << 88);
        t = t % p; break;
      }
    }
    Z m = (t * big::inv(r, p) - h) % p;
    Z lo = big::pow2(128);
    if (m < lo || m >= lo + lo) continue;
    Bytes blk = big::to_le(m - lo, 16);
    Bytes msg = ref::cat({pre, blk});
    if (ref::poly_acc(key, msg) != t) { viol("model", "steering failed"); return; }
    // pad chosen to produce carries with the accumulator
    if (c.rng.chance(1, 2)) {
      Z pad = (big::pow2(128) - (t % big::pow2(128)) + Z((long)c.rng.below(5) - 2)) % big::pow2(128);
      Bytes pb = big::to_le(pad, 16);
      std::copy(pb.begin(), pb.end(), key.begin() + 16);
    }
    auto sp = c.rng.split(msg.size(), 16);
    eq("poly1305-target", tor_poly(key, msg, sp), ref::poly1305(key, msg), "key=%s target=%s msg=%s", hex(key).c_str(), t.hex().c_str(), hex(msg).c_str());
    eval(fnv(msg.data(), msg.size(), fnv(key.data(), 32, 5)));
    ev("poly1305_steered");
    if (t >= p - Z(6) || t < Z(6)) ev("poly1305_near_modulus");
    return;
  }
  eval(1, false);
}

VH_TEST(poly_pad, 8000, 15) {
  Bytes key = c.rng.special(32), a = c.rng.special(c.rng.len(80, 16)), b = c.rng.special(c.rng.len(80, 16));
  In k(key), ia(a), ib(b);
  poly1305_t x;
  poly1305_init(&x, k);
  poly1305_update(&x, ia, a.size());
  poly1305_pad(&x);
  poly1305_update(&x, ib, b.size());
  if (c.rng.chance(1, 2)) { poly1305_pad(&x); poly1305_pad(&x); b = ref::pad16(b); }
  Buf out(16);
  poly1305_final(&x, out);
  Bytes m = ref::cat({ref::pad16(a), b});
  eq("poly1305-pad", out.get(), ref::poly1305(key, m), "key=%s a=%s b=%s", hex(key).c_str(), hex(a).c_str(), hex(b).c_str());
  eval(fnv(m.data(), m.size(), fnv(key.data(), 32, 9)));
  ev("poly1305_padded");
}

VH_TEST(sip, 60000, 15) {
  Bytes key = c.rng.special(16), key32 = c.rng.special(32), m = c.rng.special(c.rng.big(c.rng.chance(1, 10) ? 600 : 64, 8));
  uint64_t mod = c.rng.chance(1, 4) ? c.rng.below(5) : c.rng.chance(1, 2) ? c.rng.next() : c.rng.next() >> c.rng.below(64);
  if (c.rng.chance(1, 8)) mod = ~0ull - c.rng.below(3);
  uint64_t num = c.rng.chance(1, 3) ? c.rng.next() : c.rng.next() >> c.rng.below(64);
  In k(key), k32(key32), in(m);
  uint64_t want = ref::sip_keyed(key, ref::sip_words(m));
  eqi("siphash", siphash_sum(in, m.size(), k), want, "key=%s msg=%s", hex(key).c_str(), hex(m).c_str());
  uint64_t red = siphash_mod(in, m.size(), k, mod);
  eqi("siphash-mod", red, (uint64_t)(((unsigned __int128)want * mod) >> 64), "mod=%llu key=%s msg=%s", (unsigned long long)mod, hex(key).c_str(), hex(m).c_str());
  if (mod && red >= mod) viol("siphash-mod-range", "mod=%llu got %llu", (unsigned long long)mod, (unsigned long long)red);
  eqi("siphash128", siphash128_sum(num, k), ref::sip_keyed(key, {num}), "num=%llu key=%s", (unsigned long long)num, hex(key).c_str());
  eqi("siphash256", siphash256_sum(num, k32), ref::siphash(ref::ld64(&key32[0]), ref::ld64(&key32[8]), ref::ld64(&key32[16]), ref::ld64(&key32[24]), {num}), "num=%llu key=%s", (unsigned long long)num, hex(key32).c_str());
  eval(fnv(m.data(), m.size(), fnv(key.data(), 16, mod)));
  ev("siphash", 4);
}
