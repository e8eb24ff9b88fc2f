// ChaCha20/Salsa20/RC4/Poly1305 references written from RFC 8439, the Salsa20 and XSalsa20 papers.
#ifndef REF_STREAM_HPP
#define REF_STREAM_HPP
#include "vh.hpp"
#include "ref_big.hpp"
namespace ref {

inline uint32_t ld32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
inline void st32(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = v >> (8 * i); }
inline uint32_t rol32(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }

inline void chacha_rounds(uint32_t s[16]) {
  auto q = [&](int a, int b, int c, int d) {
    s[a] += s[b]; s[d] = rol32(s[d] ^ s[a], 16); s[c] += s[d]; s[b] = rol32(s[b] ^ s[c], 12);
    s[a] += s[b]; s[d] = rol32(s[d] ^ s[a], 8); s[c] += s[d]; s[b] = rol32(s[b] ^ s[c], 7);
  };
  for (int i = 0; i < 10; i++) {
    for (int j = 0; j < 4; j++) q(j, 4 + j, 8 + j, 12 + j);
    for (int j = 0; j < 4; j++) q(j, 4 + (j + 1) % 4, 8 + (j + 2) % 4, 12 + (j + 3) % 4);
  }
}
inline void salsa_rounds(uint32_t s[16]) {
  auto q = [&](int a, int b, int c, int d) {
    s[b] ^= rol32(s[a] + s[d], 7); s[c] ^= rol32(s[b] + s[a], 9); s[d] ^= rol32(s[c] + s[b], 13); s[a] ^= rol32(s[d] + s[c], 18);
  };
  for (int i = 0; i < 10; i++) {
    q(0, 4, 8, 12); q(5, 9, 13, 1); q(10, 14, 2, 6); q(15, 3, 7, 11);
    q(0, 1, 2, 3); q(5, 6, 7, 4); q(10, 11, 8, 9); q(15, 12, 13, 14);
  }
}
inline void consts(uint32_t o[4], size_t keylen) {
  const char *k = keylen == 32 ? "expand 32-byte k" : "expand 16-byte k";
  for (int i = 0; i < 4; i++) o[i] = ld32((const uint8_t *)k + 4 * i);
}

// cw: the four words 12..15 (chacha) or 6..9 (salsa)
inline Bytes chacha_block(const Bytes &key, const uint32_t cw[4], bool h = false) {
  uint32_t s[16], x[16], k[4];
  consts(k, key.size());
  for (int i = 0; i < 4; i++) s[i] = k[i];
  for (int i = 0; i < 8; i++) s[4 + i] = ld32(&key[(4 * i) % key.size()]);
  for (int i = 0; i < 4; i++) s[12 + i] = cw[i];
  memcpy(x, s, sizeof x);
  chacha_rounds(x);
  if (h) {
    Bytes o(32);
    for (int i = 0; i < 4; i++) { st32(&o[4 * i], x[i]); st32(&o[16 + 4 * i], x[12 + i]); }
    return o;
  }
  Bytes o(64);
  for (int i = 0; i < 16; i++) st32(&o[4 * i], x[i] + s[i]);
  return o;
}
inline Bytes salsa_block(const Bytes &key, const uint32_t cw[4], bool h = false) {
  uint32_t s[16], x[16], k[4];
  consts(k, key.size());
  s[0] = k[0]; s[5] = k[1]; s[10] = k[2]; s[15] = k[3];
  for (int i = 0; i < 4; i++) { s[1 + i] = ld32(&key[4 * i]); s[11 + i] = ld32(&key[(16 + 4 * i) % key.size()]); s[6 + i] = cw[i]; }
  memcpy(x, s, sizeof x);
  salsa_rounds(x);
  if (h) {
    static const int ix[8] = {0, 5, 10, 15, 6, 7, 8, 9};
    Bytes o(32);
    for (int i = 0; i < 8; i++) st32(&o[4 * i], x[ix[i]]);
    return o;
  }
  Bytes o(64);
  for (int i = 0; i < 16; i++) st32(&o[4 * i], x[i] + s[i]);
  return o;
}
inline Bytes hderive(bool salsa, const Bytes &key, const Bytes &n16) {
  uint32_t w[4];
  for (int i = 0; i < 4; i++) w[i] = ld32(&n16[4 * i]);
  return salsa ? salsa_block(key, w, true) : chacha_block(key, w, true);
}
// key stream of n bytes; 64-bit block counter in words 12,13 (chacha) or 8,9 (salsa)
inline Bytes keystream(bool salsa, Bytes key, Bytes nonce, uint64_t ctr, size_t n) {
  if (nonce.size() >= 24) {
    key = hderive(salsa, key, Bytes(nonce.begin(), nonce.begin() + 16));
    nonce.erase(nonce.begin(), nonce.begin() + 16);
  }
  uint32_t w[4];
  auto N = [&](int i) { return ld32(&nonce[4 * i]); };
  if (!salsa) {
    if (nonce.size() == 8) { w[0] = ctr; w[1] = ctr >> 32; w[2] = N(0); w[3] = N(1); }
    else if (nonce.size() == 12) { w[0] = ctr; w[1] = N(0); w[2] = N(1); w[3] = N(2); }
    else for (int i = 0; i < 4; i++) w[i] = N(i);
  } else {
    if (nonce.size() == 8) { w[0] = N(0); w[1] = N(1); w[2] = ctr; w[3] = ctr >> 32; }
    else if (nonce.size() == 12) { w[0] = N(0); w[1] = N(1); w[2] = N(2); w[3] = ctr; }
    else for (int i = 0; i < 4; i++) w[i] = N(i);
  }
  int lo = salsa ? 2 : 0;
  Bytes out;
  while (out.size() < n) {
    Bytes b = salsa ? salsa_block(key, w) : chacha_block(key, w);
    out.insert(out.end(), b.begin(), b.end());
    if (++w[lo] == 0) w[lo + 1]++;
  }
  out.resize(n);
  return out;
}
inline Bytes xors(const Bytes &a, const Bytes &b) { Bytes o(a.size()); for (size_t i = 0; i < a.size(); i++) o[i] = a[i] ^ b[i]; return o; }

inline Bytes rc4(const Bytes &key, size_t n) {
  uint8_t s[256];
  for (int i = 0; i < 256; i++) s[i] = i;
  for (int i = 0, j = 0; i < 256; i++) { j = (j + s[i] + key[i % key.size()]) % 256; std::swap(s[i], s[j]); }
  Bytes o;
  int i = 0, j = 0;
  while (o.size() < n) { i = (i + 1) % 256; j = (j + s[i]) % 256; std::swap(s[i], s[j]); o.push_back(s[(s[i] + s[j]) % 256]); }
  return o;
}

inline const big::Z &p1305() { static big::Z p = big::pow2(130) - big::Z(5); return p; }
inline big::Z poly_r(const Bytes &key) { return big::from_le(key.data(), 16) & big::Z("0x0ffffffc0ffffffc0ffffffc0fffffff"); }
// accumulator over whole message
inline big::Z poly_acc(const Bytes &key, const Bytes &m) {
  big::Z h, r = poly_r(key);
  for (size_t o = 0; o < m.size(); o += 16) {
    size_t n = std::min<size_t>(16, m.size() - o);
    h = (h + big::from_le(&m[o], n) + big::pow2(8 * n)) * r % p1305();
  }
  return h;
}
inline Bytes poly1305(const Bytes &key, const Bytes &m) {
  return big::to_le((poly_acc(key, m) + big::from_le(&key[16], 16)) % big::pow2(128), 16);
}
inline Bytes pad16(Bytes b) { while (b.size() % 16) b.push_back(0); return b; }
inline Bytes le64(uint64_t v) { Bytes b(8); for (int i = 0; i < 8; i++) b[i] = v >> (8 * i); return b; }

inline uint64_t siphash(uint64_t v0, uint64_t v1, uint64_t v2, uint64_t v3, const std::vector<uint64_t> &words) {
  auto rol = [](uint64_t x, int n) { return (x << n) | (x >> (64 - n)); };
  auto rnd = [&]() {
    v0 += v1; v2 += v3; v1 = rol(v1, 13) ^ v0; v3 = rol(v3, 16) ^ v2; v0 = rol(v0, 32);
    v2 += v1; v0 += v3; v1 = rol(v1, 17) ^ v2; v3 = rol(v3, 21) ^ v0; v2 = rol(v2, 32);
  };
  for (uint64_t w : words) { v3 ^= w; rnd(); rnd(); v0 ^= w; }
  v2 ^= 0xff;
  for (int i = 0; i < 4; i++) rnd();
  return v0 ^ v1 ^ v2 ^ v3;
}
inline uint64_t ld64(const uint8_t *p) { return ld32(p) | (uint64_t)ld32(p + 4) << 32; }
inline uint64_t sip_keyed(const Bytes &k, const std::vector<uint64_t> &w) {
  uint64_t a = ld64(&k[0]), b = ld64(&k[8]);
  return siphash(a ^ 0x736f6d6570736575ull, b ^ 0x646f72616e646f6dull, a ^ 0x6c7967656e657261ull, b ^ 0x7465646279746573ull, w);
}
inline std::vector<uint64_t> sip_words(const Bytes &m) {
  std::vector<uint64_t> w;
  Bytes p = m;
  while (p.size() % 8 != 7) p.push_back(0);
  p.push_back((uint8_t)m.size());
  for (size_t i = 0; i < p.size(); i += 8) w.push_back(ld64(&p[i]));
  return w;
}
}  // namespace ref
#endif
