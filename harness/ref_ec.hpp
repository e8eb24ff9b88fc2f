// Elliptic-curve model over GMP: affine group law with textbook formulas, Jacobian/projective only to avoid inversions.
#ifndef REF_EC_HPP
#define REF_EC_HPP
#include "ref_big.hpp"
#include "ref_hash.hpp"
extern "C" {
#include <torsion/ecc.h>
}
using big::Z;
using big::pow2;

namespace ec {

// r = a*b mod p, no temporaries beyond one
inline void mm(Z &r, const Z &a, const Z &b, const Z &p) { __gmpz_mul(&r.v, &a.v, &b.v); __gmpz_mod(&r.v, &r.v, &p.v); }
inline Z mul(const Z &a, const Z &b, const Z &p) { Z r; mm(r, a, b, p); return r; }

struct P {
  Z x, y;
  bool inf = true;
  P() {}
  P(const Z &x_, const Z &y_) : x(x_), y(y_), inf(false) {}
  bool operator==(const P &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); }
  bool operator!=(const P &o) const { return !(*this == o); }
};

// ---------------------------------------------------------------- short Weierstrass
struct W {
  std::string name;
  wei_curve_id_t id;
  hash_id_t hash, xof;
  Z p, a, b, n;
  P g;
  size_t fs, ss;          // field and scalar bytes
  unsigned nb;            // bits of n
  std::vector<P> gd;      // 2^i G

  P neg(const P &q) const { return q.inf ? q : P(q.x, (p - q.y) % p); }
  Z rhs(const Z &x) const { return (x * x * x + a * x + b) % p; }
  bool on(const P &q) const { return q.inf || q.y * q.y % p == rhs(q.x); }
  P add(const P &q, const P &r) const {
    if (q.inf) return r;
    if (r.inf) return q;
    Z l;
    if (q.x == r.x) {
      if (q.y != r.y || q.y.zero()) return P();
      l = (Z(3) * q.x * q.x + a) * big::inv(Z(2) * q.y % p, p) % p;
    } else l = (r.y - q.y) * big::inv((r.x - q.x) % p, p) % p;
    Z x = (l * l - q.x - r.x) % p;
    return P(x, (l * (q.x - x) - q.y) % p);
  }
  struct J { Z x, y, z; bool inf = true; };
  void jdbl(J &q) const {
    if (q.inf) return;
    if (q.y.zero()) { q.inf = true; return; }
    Z s, m, t, y2;
    mm(y2, q.y, q.y, p); mm(s, q.x, y2, p); s = (s << 2) % p;
    mm(t, q.z, q.z, p); mm(t, t, t, p); mm(t, t, a, p);
    mm(m, q.x, q.x, p); m = (m * Z(3) + t) % p;
    mm(t, m, m, p); t = (t - s - s) % p;
    Z z; mm(z, q.y, q.z, p); q.z = (z + z) % p;
    mm(y2, y2, y2, p);
    Z y; mm(y, m, s - t, p); q.y = (y - (y2 << 3)) % p;
    q.x = t;
  }
  void jadd(J &q, const P &r) const {
    if (r.inf) return;
    if (q.inf) { q.x = r.x; q.y = r.y; q.z = Z(1); q.inf = false; return; }
    Z zz, u, s, h, rr, hh, hhh, v;
    mm(zz, q.z, q.z, p); mm(u, r.x, zz, p); mm(s, r.y, mul(zz, q.z, p), p);
    h = (u - q.x) % p; rr = (s - q.y) % p;
    if (h.zero()) { if (rr.zero()) jdbl(q); else q.inf = true; return; }
    mm(hh, h, h, p); mm(hhh, hh, h, p); mm(v, q.x, hh, p);
    Z x; mm(x, rr, rr, p); x = (x - hhh - v - v) % p;
    Z y; mm(y, rr, v - x, p); Z t; mm(t, q.y, hhh, p); q.y = (y - t) % p;
    mm(q.z, q.z, h, p); q.x = x;
  }
  P aff(const J &q) const {
    if (q.inf) return P();
    Z i = big::inv(q.z, p), i2 = mul(i, i, p);
    return P(mul(q.x, i2, p), mul(q.y, mul(i2, i, p), p));
  }
  P mul_(const Z &k, const P &q) const {
    J r;
    for (size_t i = k.bits(); i-- > 0;) { jdbl(r); if (k.bit(i)) jadd(r, q); }
    return aff(r);
  }
  P mulg(const Z &k) const {   // any k >= 0
    Z e = k % n;
    J r;
    for (size_t i = 0; i < e.bits(); i++) if (e.bit(i)) jadd(r, gd[i]);
    return aff(r);
  }
  P times(const Z &k, const P &q) const { return mul_(k % n, q); }
  // the point with this x and this parity of y
  bool lift(P &o, const Z &x, int odd) const {
    Z y;
    if (x >= p || !big::sqrtm(y, rhs(x), p)) return false;
    if (odd >= 0 && (int)y.odd() != odd) y = (p - y) % p;
    o = P(x, y);
    return true;
  }
  Bytes enc(const P &q, bool compact) const {
    if (compact) return ref::cat({{(uint8_t)(2 | q.y.odd())}, big::to_be(q.x, fs)});
    return ref::cat({{4}, big::to_be(q.x, fs), big::to_be(q.y, fs)});
  }
  bool dec(P &o, const Bytes &s) const {
    if (s.empty()) return false;
    if (s[0] == 2 || s[0] == 3) return s.size() == 1 + fs && lift(o, big::from_be(s.data() + 1, fs), s[0] & 1);
    if (s[0] != 4 && s[0] != 6 && s[0] != 7) return false;
    if (s.size() != 1 + 2 * fs) return false;
    Z x = big::from_be(s.data() + 1, fs), y = big::from_be(s.data() + 1 + fs, fs);
    if (x >= p || y >= p) return false;
    if (s[0] != 4 && (s[0] & 1) != (int)y.odd()) return false;
    o = P(x, y);
    return on(o);
  }
  Bytes sc(const Z &k) const { return big::to_be(k, ss); }
  // left-most bits of a digest (SEC 1)
  Z bits2int(const Bytes &m) const {
    Bytes t(m.begin(), m.begin() + std::min(m.size(), ss));
    Z z = big::from_be(t);
    if (t.size() * 8 > nb) z = z >> (t.size() * 8 - nb);
    return z;
  }
};

inline W make(const char *name, wei_curve_id_t id, hash_id_t h, hash_id_t x, const char *p, const char *a, const char *b, const char *n, const char *gx, const char *gy) {
  W w;
  w.name = name; w.id = id; w.hash = h; w.xof = x;
  w.p = Z(p); w.a = Z(a) % w.p; w.b = Z(b); w.n = Z(n); w.g = P(Z(gx), Z(gy));
  w.fs = (w.p.bits() + 7) / 8; w.nb = w.n.bits(); w.ss = (w.nb + 7) / 8;
  if (!w.on(w.g)) { fprintf(stderr, "bad model %s\n", name); exit(96); }
  P q = w.g;
  for (unsigned i = 0; i < w.nb; i++) { w.gd.push_back(q); q = w.add(q, q); }
  return w;
}

inline const std::vector<W> &wei() {
  static const std::vector<W> v = {
    make("P192", WEI_CURVE_P192, HASH_SHA256, HASH_SHA256, "0xfffffffffffffffffffffffffffffffeffffffffffffffff", "-3", "0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1",
         "0xffffffffffffffffffffffff99def836146bc9b1b4d22831", "0x188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012", "0x07192b95ffc8da78631011ed6b24cdd573f977a11e794811"),
    make("P224", WEI_CURVE_P224, HASH_SHA256, HASH_SHA256, "0xffffffffffffffffffffffffffffffff000000000000000000000001", "-3", "0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4",
         "0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d", "0xb70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21", "0xbd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34"),
    make("P256", WEI_CURVE_P256, HASH_SHA256, HASH_SHA256, "0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "-3", "0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
         "0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", "0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
    make("P384", WEI_CURVE_P384, HASH_SHA384, HASH_SHA384, "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "-3",
         "0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
         "0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
         "0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
         "0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
    make("P521", WEI_CURVE_P521, HASH_SHA512, HASH_SHAKE256, "0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "-3",
         "0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00",
         "0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409",
         "0x0c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66",
         "0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"),
    make("SECP256K1", WEI_CURVE_SECP256K1, HASH_SHA256, HASH_SHA256, "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0", "7",
         "0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")};
  return v;
}

// ---------------------------------------------------------------- twisted Edwards
struct E {
  std::string name;
  edwards_curve_id_t id;
  hash_id_t hash;
  bool ctx_always;       // prefix even without context
  std::string prefix;
  Z p, a, d, n;
  unsigned h;
  P g;
  size_t fs, es, ss;     // field bytes, encoded point bytes, scalar bytes
  Z i;                   // order-4 point helper (unused when none)
  std::vector<P> gd, tor;

  P id0() const { return P(Z(0), Z(1)); }
  bool on(const P &q) const { Z x2 = q.x * q.x % p, y2 = q.y * q.y % p; return (a * x2 + y2 - Z(1) - d * x2 * y2) % p == Z(0); }
  P neg(const P &q) const { return P((p - q.x) % p, q.y); }
  P add(const P &q, const P &r) const {
    Z t = d * q.x % p * r.x % p * q.y % p * r.y % p;
    Z x = (q.x * r.y + q.y * r.x) * big::inv((Z(1) + t) % p, p) % p;
    Z y = (q.y * r.y - a * q.x * r.x) * big::inv((Z(1) - t) % p, p) % p;
    return P(x, y);
  }
  struct J { Z x, y, z; };
  void jadd(J &q, const Z &x2, const Z &y2, const Z &z2) const {
    Z A, B, C, D, Ee, F, G, t, u;
    mm(A, q.z, z2, p); mm(B, A, A, p); mm(C, q.x, x2, p); mm(D, q.y, y2, p);
    mm(Ee, C, D, p); mm(Ee, Ee, d, p);
    F = B - Ee; G = B + Ee;
    t = (q.x + q.y) % p; u = (x2 + y2) % p; mm(t, t, u, p); t = (t - C - D) % p;
    mm(u, A, F, p); mm(q.x, u, t, p);
    mm(u, A, G, p); mm(q.y, u, (D - a * C) % p, p);
    mm(q.z, F % p, G % p, p);
  }
  P aff(const J &q) const { Z iz = big::inv(q.z, p); return P(mul(q.x, iz, p), mul(q.y, iz, p)); }
  P times(const Z &k, const P &q) const {   // k >= 0, used as is (torsion matters)
    J r; r.x = Z(0); r.y = Z(1); r.z = Z(1);
    Z one(1);
    for (size_t j = k.bits(); j-- > 0;) { J c = r; jadd(r, c.x, c.y, c.z); if (k.bit(j)) jadd(r, q.x, q.y, one); }
    return aff(r);
  }
  P mulg(const Z &k) const {
    Z e = k % n, one(1);
    J r; r.x = Z(0); r.y = Z(1); r.z = Z(1);
    for (size_t j = 0; j < e.bits(); j++) if (e.bit(j)) jadd(r, gd[j].x, gd[j].y, one);
    return aff(r);
  }
  bool is_id(const P &q) const { return q.x.zero() && q.y == Z(1); }
  bool small(const P &q) const { return is_id(times(Z((unsigned long)h), q)); }
  bool torsion_free(const P &q) const { return is_id(times(n, q)); }
  // x from y; sign is the parity of x
  bool lift(P &o, const Z &y, int sign) const {
    if (y >= p) return false;
    Z u = (Z(1) - y * y) % p, v = (a - d * y * y) % p;
    if (v.zero()) return false;
    Z x;
    if (!big::sqrtm(x, u * big::inv(v, p) % p, p)) return false;
    if (x.zero() && sign) return false;
    if ((int)x.odd() != sign) x = (p - x) % p;
    o = P(x, y);
    return true;
  }
  Bytes enc(const P &q) const {
    Bytes o = big::to_le(q.y, es);
    if (q.x.odd()) o[es - 1] |= 0x80;
    return o;
  }
  bool dec(P &o, Bytes s) const {
    if (s.size() != es) return false;
    int sign = s[es - 1] >> 7;
    s[es - 1] &= 0x7f;
    return lift(o, big::from_le(s), sign);
  }
  Bytes sc(const Z &k) const { return big::to_le(k, ss); }
};

inline E maked(const char *name, edwards_curve_id_t id, hash_id_t hh, bool always, const char *prefix, const Z &p, const Z &a, const Z &d, const Z &n, unsigned h, const P &g) {
  E e;
  e.name = name; e.id = id; e.hash = hh; e.ctx_always = always; e.prefix = prefix; e.p = p; e.a = a % p; e.d = d % p; e.n = n; e.h = h; e.g = g;
  e.fs = (p.bits() + 7) / 8; e.es = (p.bits() + 8) / 8; e.ss = (n.bits() + 7) / 8;
  if (!e.on(g) || !e.is_id(e.times(n, g))) { fprintf(stderr, "bad model %s\n", name); exit(96); }
  P q = g;
  for (unsigned i = 0; i < n.bits(); i++) { e.gd.push_back(q); q = e.add(q, q); }
  // torsion subgroup: multiply random points by n until all h elements are seen
  for (unsigned long y = 2; e.tor.size() < h; y++) {
    P r;
    if (!e.lift(r, Z(y), 0)) continue;
    P t = e.times(n, r);
    P s = e.id0();
    for (unsigned k = 0; k < h; k++) {
      bool have = false;
      for (auto &x : e.tor) have |= x == s;
      if (!have) e.tor.push_back(s);
      s = e.add(s, t);
    }
    if (y > 500) { fprintf(stderr, "torsion of %s\n", name); exit(96); }
  }
  return e;
}

inline const std::vector<E> &edw() {
  static const std::vector<E> v = [] {
    std::vector<E> o;
    Z p = pow2(255) - Z(19);
    Z d = (p - Z(121665)) * big::inv(Z(121666), p) % p;
    Z y = Z(4) * big::inv(Z(5), p) % p, x;
    big::sqrtm(x, (y * y - Z(1)) * big::inv((d * y * y + Z(1)) % p, p) % p, p);
    if (x.odd()) x = p - x;
    o.push_back(maked("ED25519", EDWARDS_CURVE_ED25519, HASH_SHA512, false, "SigEd25519 no Ed25519 collisions", p, Z(-1), d, pow2(252) + Z("27742317777372353535851937790883648493"), 8, P(x, y)));
    p = pow2(448) - pow2(224) - Z(1);
    o.push_back(maked("ED448", EDWARDS_CURVE_ED448, HASH_SHAKE256, true, "SigEd448", p, Z(1), Z(-39081),
                      pow2(446) - Z("13818066809895115352007386748515426880336692474882178609894547503885"), 4,
                      P(Z("0x4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e"),
                        Z("0x693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14"))));
    p = pow2(251) - Z(9);
    o.push_back(maked("ED1174", EDWARDS_CURVE_ED1174, HASH_SHA512, true, "SigEd1174", p, Z(1), Z(-1174),
                      pow2(249) - Z("11332719920821432534773113288178349711"), 4,
                      P(Z("0x037fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda"), Z("0x06b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e"))));
    return o;
  }();
  return v;
}

// ---------------------------------------------------------------- Montgomery
struct M {
  std::string name;
  mont_curve_id_t id;
  Z p, A, n, u;
  unsigned h, bits;
  size_t fs, ss;
  // RFC 7748 ladder on affine x (projective inside); result 0 for the point at infinity
  Z ladder(const Z &k, const Z &x1, unsigned nbits) const {
    Z x2(1), z2(0), x3 = x1, z3(1), a24 = (A - Z(2)) / Z(4);
    bool sw = false;
    Z t0, t1, t2, t3;
    for (unsigned i = nbits; i-- > 0;) {
      bool b = k.bit(i);
      if (b != sw) { std::swap(x2, x3); std::swap(z2, z3); }
      sw = b;
      Z a = x2 + z2, bb = x2 - z2, c = x3 + z3, dd = x3 - z3, aa, b2, da, cb;
      mm(aa, a, a, p); mm(b2, bb, bb, p); Z e = (aa - b2) % p;
      mm(da, dd, a, p); mm(cb, c, bb, p);
      Z s = da + cb, d2 = da - cb;
      mm(x3, s, s, p); mm(t0, d2, d2, p); mm(z3, t0, x1, p);
      mm(x2, aa, b2, p); mm(t1, a24, e, p); mm(z2, e, (aa + t1) % p, p);
    }
    if (sw) { std::swap(x2, x3); std::swap(z2, z3); }
    return mul(x2, big::inv(z2, p), p);   // inv(0) = 0
  }
};
inline const std::vector<M> &mont() {
  static const std::vector<M> v = [] {
    std::vector<M> o(2);
    o[0].name = "X25519"; o[0].id = MONT_CURVE_X25519; o[0].p = pow2(255) - Z(19); o[0].A = Z(486662); o[0].n = pow2(252) + Z("27742317777372353535851937790883648493"); o[0].u = Z(9); o[0].h = 8; o[0].bits = 255;
    o[1].name = "X448"; o[1].id = MONT_CURVE_X448; o[1].p = pow2(448) - pow2(224) - Z(1); o[1].A = Z(156326); o[1].n = pow2(446) - Z("13818066809895115352007386748515426880336692474882178609894547503885"); o[1].u = Z(5); o[1].h = 4; o[1].bits = 448;
    for (auto &m : o) { m.fs = (m.p.bits() + 7) / 8; m.ss = m.fs; }
    return o;
  }();
  return v;
}

// HMAC-DRBG without additional input (RFC 6979 generator)
struct Drbg {
  hash_id_t h;
  Bytes K, V;
  Drbg(hash_id_t id, const Bytes &seed) : h(id), K(ref::info(id).size, 0), V(ref::info(id).size, 1) {
    K = ref::hmac(h, K, ref::cat({V, {0}, seed})); V = ref::hmac(h, K, V);
    K = ref::hmac(h, K, ref::cat({V, {1}, seed})); V = ref::hmac(h, K, V);
  }
  Bytes gen(size_t n) {
    Bytes o;
    while (o.size() < n) { V = ref::hmac(h, K, V); o = ref::cat({o, V}); }
    o.resize(n);
    K = ref::hmac(h, K, ref::cat({V, {0}})); V = ref::hmac(h, K, V);
    return o;
  }
};

// scalars: boundaries, sparse, window patterns, halves
inline Z scalar(vh::Rng &r, const Z &n) {
  size_t nb = n.bits();
  switch (r.below(13)) {
    case 12: return big::rnd_repr(r, n);
    case 0: return Z((unsigned long)r.below(40)) % n;
    case 1: return n - Z((unsigned long)r.range(1, 40));
    case 2: return (pow2(r.below(nb)) + Z((long)r.below(5) - 2)) % n;
    case 3: { static const uint8_t pat[] = {0x88, 0xff, 0x77, 0x11, 0xf0, 0x0f, 0x80, 0x08, 0x55, 0xaa}; Bytes b((nb + 7) / 8, pat[r.below(10)]); return big::from_le(b) % n; }
    case 4: return big::rnd_bits(r, nb) % n;
    case 5: return (n / Z(2) + Z((long)r.below(9) - 4)) % n;
    case 6: return big::from_le(r.bytes(r.range(1, (nb + 7) / 8))) % n;
    case 7: { Z z; for (int i = r.range(1, 4); i > 0; i--) z = z + pow2(r.below(nb)); return z % n; }
    case 8: {   // long zero gaps
      Z k = big::rnd_below(r, n);
      size_t s = r.below(nb), l = r.below(nb);
      Z m = (pow2(l) - Z(1)) << s;
      return (k - (k & m)) % n;
    }
    default: return big::rnd_below(r, n);
  }
}
// a factor whose product with a lies at, just above or just below a multiple of n
inline Z cofactor(vh::Rng &r, const Z &a, const Z &n) {
  Z i = big::inv(a % n, n), v;
  switch (r.below(5)) {
    case 0: case 1: v = Z((unsigned long)r.range(1, 6)); break;
    case 2: v = n - Z((unsigned long)r.range(1, 6)); break;
    case 3: v = pow2(r.below(n.bits() - 1)); break;
    default: v = big::rnd_repr(r, n);
  }
  return v * i % n;
}
}  // namespace ec
#endif
