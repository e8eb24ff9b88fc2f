// RSA and DSA material built with GMP, and a strict DER / length-prefixed codec for integer sequences.
#ifndef PK_UTIL_HPP
#define PK_UTIL_HPP
#include "dsa_big.hpp"
#include "ref_big.hpp"
#include "ref_hash.hpp"
#include "ref_ec.hpp"
extern "C" {
#include <torsion/rsa.h>
#include <torsion/dsa.h>
}
using namespace vh;
using big::Z;

namespace pk {

typedef std::vector<Z> Zs;
inline uint64_t hb(const Bytes &b, uint64_t h = 1469598103934665603ull) { return fnv(b.data(), b.size(), h); }

// --- DER sequences of non-negative integers, optionally after a version byte 0 ---
inline Bytes der_len(size_t n) {
  if (n < 128) return {(uint8_t)n};
  Bytes b;
  while (n) { b.insert(b.begin(), n & 255); n >>= 8; }
  b.insert(b.begin(), 0x80 | b.size());
  return b;
}
inline Bytes der_int(const Z &z) {
  Bytes v = big::to_be_min(z);
  if (v.empty() || v[0] & 0x80) v.insert(v.begin(), 0);
  return ref::cat({{0x02}, der_len(v.size()), v});
}
inline Bytes der_seq(const Bytes &body) { return ref::cat({{0x30}, der_len(body.size()), body}); }
inline Bytes der(const Zs &v, bool version) {
  Bytes b;
  if (version) b = {2, 1, 0};
  for (auto &z : v) { Bytes i = der_int(z); b.insert(b.end(), i.begin(), i.end()); }
  return der_seq(b);
}
// any tag/length form; canonical only if re-encoding gives the input back
inline bool undo(const Bytes &in, size_t count, bool version, Zs &out) {
  size_t o = 0;
  auto len = [&](size_t &n) {
    if (o >= in.size()) return false;
    uint8_t c = in[o++];
    if (c < 128) { n = c; return true; }
    n = 0;
    for (int i = 0; i < (c & 127); i++) { if (o >= in.size() || n > 0xffffff) return false; n = n << 8 | in[o++]; }
    return true;
  };
  size_t n;
  if (o >= in.size() || in[o++] != 0x30 || !len(n) || n != in.size() - o) return false;
  out.clear();
  for (size_t i = 0; i < count + version; i++) {
    if (o >= in.size() || in[o++] != 0x02 || !len(n) || n > in.size() - o) return false;
    out.push_back(big::from_be(in.data() + o, n));
    o += n;
  }
  if (o != in.size()) return false;
  if (version) { if (!out[0].zero()) return false; out.erase(out.begin()); }
  for (auto &z : out) if (z.bits() > 2048 * 8) return false;
  return der(out, version) == in;
}
inline Bytes dumb(const Zs &v) {
  Bytes b;
  for (auto &z : v) { Bytes i = big::to_be_min(z); b.push_back(i.size() >> 8); b.push_back(i.size()); b.insert(b.end(), i.begin(), i.end()); }
  return b;
}

inline Z rnd_exact(Rng &r, size_t bits) { return (big::from_le(r.bytes((bits + 7) / 8)) % big::pow2(bits - 1)) + big::pow2(bits - 1); }
// a prime of exactly `bits` bits with e invertible modulo p - 1
inline Z prime_for(Rng &r, size_t bits, const Z &e, int mod4 = 0) {
  for (;;) {
    Z x = rnd_exact(r, bits);
    // set the second bit so that products keep their size
    if (bits > 4 && !x.bit(bits - 2)) x = x + big::pow2(bits - 2);
    Z p = big::nextprime(x);
    if (p.bits() != bits) continue;
    if (mod4) while ((p % Z(4)) != Z(mod4)) p = big::nextprime(p);
    if (p.bits() != bits || big::gcd(p - Z(1), e) != Z(1)) continue;
    return p;
  }
}

struct Rsa {
  Z n, e, d, p, q, dp, dq, qi;
  size_t k() const { return (n.bits() + 7) / 8; }
  Zs all() const { return {n, e, d, p, q, dp, dq, qi}; }
  Bytes priv() const { return der(all(), true); }
  Bytes pub() const { return der({n, e}, false); }
  Z lam() const { return big::lcm(p - Z(1), q - Z(1)); }
  void derive(const Z &d_) {
    n = p * q; d = d_; dp = d % (p - Z(1)); dq = d % (q - Z(1)); qi = big::inv(q, p);
  }
};
inline Rsa make_rsa(Rng &r, size_t bits, const Z &e, bool swap = false, int mod4 = 0, size_t qbits = 0) {
  for (;;) {
    Rsa k;
    k.e = e;
    if (!qbits) qbits = bits / 2;
    k.p = prime_for(r, bits - qbits, e, mod4);
    k.q = prime_for(r, qbits, e, mod4);
    if (k.p == k.q) continue;
    if ((k.p < k.q) != swap) std::swap(k.p, k.q);
    if (k.q >= k.p && !swap) continue;
    if ((k.p * k.q).bits() != bits) continue;
    Z lam = k.lam();
    Z d = big::inv(e, lam);
    // half of the keys use the totient form of d
    if (r.chance(1, 3)) { Z phi = (k.p - Z(1)) * (k.q - Z(1)); Z d2 = big::inv(e, phi); if (!d2.zero()) d = d2; }
    k.derive(d);
    if (k.qi < Z(2)) continue;
    return k;
  }
}
inline const std::vector<Z> &exps() {
  static const std::vector<Z> v = {Z(3), Z(5), Z(17), Z(257), Z(65537), Z(0xffffffffl), Z(0x100000001l), Z(0x1ffffffffl), Z(0x10000000fl)};
  return v;
}
// a key of two Mersenne primes: large sizes without a prime search
inline Rsa mersenne_rsa(unsigned a, unsigned b) {
  Rsa k;
  k.e = Z(65537);
  k.p = big::pow2(a) - Z(1);
  k.q = big::pow2(b) - Z(1);
  k.derive(big::inv(k.e, (k.p - Z(1)) * (k.q - Z(1))));
  return k;
}
// a small cache of keys so that one case does not pay for prime search every time
inline const Rsa &rsa_key(Case &c) {
  static std::map<uint64_t, Rsa> cache;
  static const size_t sizes[] = {512, 513, 514, 519, 520, 521, 527, 528, 576, 640, 767, 768, 769, 1024, 1025, 1031, 512, 1032, 1040, 1152};
  uint64_t slot = c.rng.below(20), var = c.rng.below(2), id = slot * 8 + var;
  if (c.rng.chance(1, 150)) id = c.rng.chance(3, 4) ? 1000 + c.rng.below(2) : 1002 + c.rng.below(3);
  auto it = cache.find(id);
  if (it == cache.end() && id >= 1002) it = cache.emplace(id, id == 1002 ? mersenne_rsa(1279, 2203) : id == 1003 ? mersenne_rsa(2281, 521) : mersenne_rsa(2281, 2203)).first;
  if (it == cache.end()) {
    Rng r(mix64(id * 77 + 5));
    size_t bits = id >= 1000 ? (id == 1000 ? 2048 : 2049) : sizes[slot];
    Z e = id >= 1000 ? Z(65537) : exps()[(slot + 4 * var) % exps().size()];
    size_t qb = var && slot % 5 == 1 ? 40 + slot : 0;   // unbalanced factors are legal
    it = cache.emplace(id, make_rsa(r, bits, e, slot % 7 == 3, 0, qb)).first;
  }
  return it->second;
}

inline bool rsa_ok(const Rsa &k) {
  for (auto &z : k.all()) if (z <= Z(0) || z.bits() > 16384) return false;
  if (k.e.bits() > 33 || k.n.bits() < 512 || !k.n.odd() || k.e < Z(3) || !k.e.odd() || k.p < Z(3) || !k.p.odd() || k.q < Z(3) || !k.q.odd()) return false;
  Z p1 = k.p - Z(1), q1 = k.q - Z(1);
  return k.d >= Z(2) && k.d < p1 * q1 && k.dp < p1 && k.dq < q1 && k.qi >= Z(2) && k.qi < k.p && k.p != k.q && k.n == k.p * k.q && k.e * k.d % k.lam() == Z(1) && k.d % p1 == k.dp && k.d % q1 == k.dq && k.q * k.qi % k.p == Z(1);
}
inline bool rsa_pub_ok(const Z &n, const Z &e) { return n.bits() >= 512 && n.bits() <= 16384 && n.odd() && e >= Z(3) && e.odd() && e.bits() <= 33; }

// hexadecimal of any length
inline Bytes unhex_any(const std::string &s) { return unhex((s.size() % 2 ? "0" + s : s).c_str()); }
struct Dsa {
  Z p, q, g, y, x;
  Bytes params() const { return der({p, q, g}, false); }
  Bytes pub() const { return der({y, p, q, g}, false); }
  Bytes priv() const { return der({p, q, g, y, x}, true); }
};
inline Dsa make_group(Rng &r, size_t L, size_t N, int shape = 0) {
  Dsa k;
  do {
    Z s = shape == 1 ? big::pow2(N - 1) + Z((unsigned long)r.below(1000)) : shape == 2 ? big::pow2(N) - Z(5000l + (long)r.below(60000)) : rnd_exact(r, N);
    k.q = big::nextprime(s);
  } while (k.q.bits() != N);
  for (;;) {
    Z x = rnd_exact(r, L);
    k.p = x - x % (k.q * Z(2)) + Z(1);
    if (k.p.bits() == L && big::prime(k.p, 12)) break;
  }
  for (long h = 2;; h++) { k.g = big::powm(Z(h), (k.p - Z(1)) / k.q, k.p); if (k.g > Z(1)) break; }
  return k;
}
inline const Dsa &dsa_group(Case &c, int *which = nullptr) {
  static std::map<int, Dsa> cache;
  static const size_t L[] = {512, 520, 513, 768, 1024, 1024, 576, 2048}, N[] = {160, 224, 256, 160, 160, 256, 256, 256};
  int id = c.rng.chance(1, 60) ? 7 : c.rng.below(7);
  if (c.rng.chance(1, 250)) id = c.rng.chance(3, 4) ? 8 : 9;
  if (which) *which = id;
  auto it = cache.find(id);
  if (it == cache.end() && id >= 8) {
    Dsa k;
    k.p = big::from_be(unhex_any(big_groups[id - 8].p));
    k.q = big::from_be(unhex_any(big_groups[id - 8].q));
    k.g = big::powm(Z(2), (k.p - Z(1)) / k.q, k.p);
    it = cache.emplace(id, k).first;
  }
  if (it == cache.end()) { Rng r(mix64(id + 4711)); it = cache.emplace(id, make_group(r, L[id], N[id], id % 3)).first; }
  return it->second;
}
inline Dsa dsa_key(Case &c) {
  Dsa k = dsa_group(c);
  do k.x = big::rnd_edge(c.rng, k.q); while (k.x.zero() || k.x == k.q);
  k.y = big::powm(k.g, k.x, k.p);
  return k;
}

}  // namespace pk
#endif
