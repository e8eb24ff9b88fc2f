// C06: stream ciphers
#include "ref_stream.hpp"
extern "C" {
#include <torsion/stream.h>
}
using namespace vh;

template <class C>
static Bytes crypt(C *ctx, void (*f)(C *, unsigned char *, const unsigned char *, size_t), const Bytes &m, const std::vector<size_t> &sp, bool inplace) {
  Buf out(m);
  In in(m);
  size_t o = 0;
  for (size_t n : sp) { f(ctx, out.p() + o, inplace ? out.p() + o : in.p() + o, n); o += n; }
  return out.get();
}

static void one(Case &c, bool salsa, const Bytes &key, const Bytes &nonce, uint64_t ctr, const Bytes &m, bool stdctr) {
  auto sp = c.rng.split(m.size(), 64);
  bool inplace = c.rng.chance(1, 2);
  In k(key), n(nonce);
  Bytes got;
  for (int round = 0; round < 2; round++) {
    if (salsa) { salsa20_t x; memset(&x, 0x99, sizeof x); salsa20_init(&x, k, key.size(), n, nonce.size(), ctr); got = crypt(&x, salsa20_crypt, round ? got : m, sp, inplace); }
    else { chacha20_t x; memset(&x, 0x99, sizeof x); chacha20_init(&x, k, key.size(), n, nonce.size(), ctr); got = crypt(&x, chacha20_crypt, round ? got : m, sp, inplace); }
    if (round == 0)
      eq(salsa ? "salsa20" : "chacha20", got, ref::xors(m, ref::keystream(salsa, key, nonce, ctr, m.size())), "key=%s nonce=%s ctr=%llu len=%zu inplace=%d chunks=%zu",
         hex(key).c_str(), hex(nonce).c_str(), (unsigned long long)ctr, m.size(), inplace, sp.size());
    else
      eq(salsa ? "salsa20-inverse" : "chacha20-inverse", got, m, "not an involution");
    sp = c.rng.split(m.size(), 64);
  }
  eval(fnv(m.data(), m.size(), fnv(nonce.data(), nonce.size(), fnv(key.data(), key.size(), ctr * 2 + salsa))));
  ev(salsa ? "salsa20" : "chacha20");
  ev("update_calls", sp.size());
  if (inplace) ev("in_place");
  uint64_t nb = (m.size() + 63) / 64;
  if (stdctr && ((ctr & 0xffffffffu) + nb > 0xffffffffull)) ev("counter_carry");
  sample(fmt("%s key=%zu nonce=%zu ctr=%llu len=%zu", salsa ? "salsa20" : "chacha20", key.size(), nonce.size(), (unsigned long long)ctr, m.size()));
}

VH_TEST(keystream, 40000, 15) {
  static const size_t nl[] = {8, 12, 16, 24, 28, 32};
  bool salsa = c.idx & 1;
  size_t n = nl[(c.idx / 2) % 6];
  Bytes key = c.rng.special(c.rng.chance(1, 3) ? 16 : 32), nonce = c.rng.special(n), m = c.rng.special(c.rng.big(c.rng.chance(1, 10) ? 3000 : 400, 64));
  uint64_t ctr = c.rng.below(4) == 0 ? 0 : c.rng.chance(1, 2) ? (uint32_t)(0u - c.rng.below(8)) : c.rng.chance(1, 2) ? 0ull - c.rng.below(8) : c.rng.next() >> c.rng.below(64);
  if (c.rng.chance(1, 4) && (n == 16 || n == 32)) { size_t at = n - 16 + (salsa ? 8 : 0); for (int i = 0; i < 4; i++) nonce[at + i] = 0xff; if (c.rng.chance(1, 2)) for (int i = 4; i < 8; i++) nonce[at + i] = 0xff; }
  one(c, salsa, key, nonce, ctr, m, n == 8 || n == 24 || (!salsa && (n == 12 || n == 28)));
}

// Starting at block k gives the stream skipped by k blocks.
VH_TEST(seek, 8000, 15) {
  bool salsa = c.idx & 1;
  size_t n = std::vector<size_t>{8, 12, 24, 28}[(c.idx / 2) % 4];
  Bytes key = c.rng.special(32), nonce = c.rng.special(n);
  uint32_t k = c.rng.range(1, 6);
  uint64_t base = c.rng.chance(1, 2) ? 0 : c.rng.below(0xfffff000u);
  Bytes z(64 * (k + 2), 0);
  In ik(key), in(nonce), iz(z);
  Buf a(z.size()), b(128);
  if (salsa) {
    salsa20_t x; salsa20_init(&x, ik, 32, in, n, base); salsa20_crypt(&x, a, iz, z.size());
    salsa20_init(&x, ik, 32, in, n, base + k); salsa20_crypt(&x, b, iz, 128);
  } else {
    chacha20_t x; chacha20_init(&x, ik, 32, in, n, base); chacha20_crypt(&x, a, iz, z.size());
    chacha20_init(&x, ik, 32, in, n, base + k); chacha20_crypt(&x, b, iz, 128);
  }
  eq(fmt("%s-nonce%zu-seek", salsa ? "salsa20" : "chacha20", n).c_str(), b.get(), Bytes(a.p() + 64 * k, a.p() + 64 * k + 128), "counter %llu+%u", (unsigned long long)base, k);
  eval(fnv(key.data(), 32, base + k));
  ev("seek");
}

VH_TEST(derive, 10000, 15) {
  bool salsa = c.idx & 1;
  Bytes key = c.rng.special(c.rng.chance(1, 2) ? 16 : 32), n = c.rng.special(16);
  In k(key), in(n);
  Buf out(32);
  if (salsa) salsa20_derive(out, k, key.size(), in); else chacha20_derive(out, k, key.size(), in);
  eq(salsa ? "hsalsa20" : "hchacha20", out.get(), ref::hderive(salsa, key, n), "key=%s nonce=%s", hex(key).c_str(), hex(n).c_str());
  eval(fnv(n.data(), 16, fnv(key.data(), key.size(), salsa)));
  ev("derive");
}

VH_TEST(arc4, 8000, 15) {
  Bytes key = c.rng.special(c.rng.chance(1, 4) ? c.rng.range(1, 4) : c.rng.range(1, 256)), m = c.rng.special(c.rng.big(900, 256));
  if (c.rng.chance(1, 10)) key.resize(256, 0xee);
  auto sp = c.rng.split(m.size(), 256);
  In k(key);
  arc4_t x;
  memset(&x, 0x99, sizeof x);
  arc4_init(&x, k, key.size());
  eq("arc4", crypt(&x, arc4_crypt, m, sp, c.rng.chance(1, 2)), ref::xors(m, ref::rc4(key, m.size())), "key=%s len=%zu", hex(key).c_str(), m.size());
  eval(fnv(m.data(), m.size(), fnv(key.data(), key.size())));
  ev("arc4");
}
