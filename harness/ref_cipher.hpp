// Reference block ciphers (OpenSSL, libgcrypt, nettle) and modes of operation written from their definitions.
#ifndef REF_CIPHER_HPP
#define REF_CIPHER_HPP
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/aes.h>
#include <openssl/camellia.h>
#include <openssl/cast.h>
#include <openssl/des.h>
#include <openssl/blowfish.h>
#include "vh.hpp"
#include "ext.h"
extern "C" {
#include <torsion/cipher.h>
}

namespace ref {

struct CInfo { cipher_id_t id; const char *name; size_t key, block; };
static const std::vector<CInfo> ciphers = {
  {CIPHER_AES128,"AES128",16,16},{CIPHER_AES192,"AES192",24,16},{CIPHER_AES256,"AES256",32,16},{CIPHER_ARC2,"ARC2",8,8},{CIPHER_ARC2_GUTMANN,"ARC2_GUTMANN",8,8},
  {CIPHER_ARC2_40,"ARC2_40",5,8},{CIPHER_ARC2_64,"ARC2_64",8,8},{CIPHER_ARC2_128,"ARC2_128",16,8},{CIPHER_ARC2_128_GUTMANN,"ARC2_128_GUTMANN",16,8},{CIPHER_BLOWFISH,"BLOWFISH",16,8},
  {CIPHER_CAMELLIA128,"CAMELLIA128",16,16},{CIPHER_CAMELLIA192,"CAMELLIA192",24,16},{CIPHER_CAMELLIA256,"CAMELLIA256",32,16},{CIPHER_CAST5,"CAST5",16,8},
  {CIPHER_DES,"DES",8,8},{CIPHER_DES_EDE,"DES_EDE",16,8},{CIPHER_DES_EDE3,"DES_EDE3",24,8},{CIPHER_IDEA,"IDEA",16,8},
  {CIPHER_SERPENT128,"SERPENT128",16,16},{CIPHER_SERPENT192,"SERPENT192",24,16},{CIPHER_SERPENT256,"SERPENT256",32,16},
  {CIPHER_TWOFISH128,"TWOFISH128",16,16},{CIPHER_TWOFISH192,"TWOFISH192",24,16},{CIPHER_TWOFISH256,"TWOFISH256",32,16}};

inline bool var_key(cipher_id_t id) { return id == CIPHER_ARC2 || id == CIPHER_ARC2_GUTMANN || id == CIPHER_BLOWFISH; }
inline bool key_ok(const CInfo &c, size_t n) {
  if (c.id == CIPHER_ARC2 || c.id == CIPHER_ARC2_GUTMANN) return n >= 1 && n <= 128;
  if (c.id == CIPHER_BLOWFISH) return n >= 1 && n <= 72;
  return n == c.key;
}

// IDEA from its definition (Lai/Massey)
struct Idea {
  uint16_t ek[52], dk[52];
  static uint16_t mul(uint32_t a, uint32_t b) {
    if (a == 0) a = 0x10000;
    if (b == 0) b = 0x10000;
    return (uint16_t)((uint64_t)a * b % 0x10001);
  }
  static uint16_t inv(uint16_t x) {  // x^(65535) mod 65537
    uint64_t a = x ? x : 0x10000, r = 1, e = 65535;
    while (e) { if (e & 1) r = r * a % 65537; a = a * a % 65537; e >>= 1; }
    return (uint16_t)r;
  }
  void key(const uint8_t *k) {
    unsigned __int128 w = 0;
    for (int i = 0; i < 16; i++) w = w << 8 | k[i];
    for (int i = 0; i < 52; i++) {
      ek[i] = (uint16_t)(w >> (112 - 16 * (i % 8)));
      if (i % 8 == 7) w = w << 25 | w >> 103;
    }
    for (int r = 0; r <= 8; r++) {
      const uint16_t *s = ek + 6 * (8 - r);
      uint16_t *d = dk + 6 * r;
      bool edge = r == 0 || r == 8;
      d[0] = inv(s[0]); d[3] = inv(s[3]);
      d[1] = (uint16_t)-(edge ? s[1] : s[2]); d[2] = (uint16_t)-(edge ? s[2] : s[1]);
      if (r < 8) { d[4] = ek[6 * (7 - r) + 4]; d[5] = ek[6 * (7 - r) + 5]; }
    }
  }
  static void run(const uint16_t *z, uint8_t *o, const uint8_t *in) {
    uint16_t x[4];
    for (int i = 0; i < 4; i++) x[i] = in[2 * i] << 8 | in[2 * i + 1];
    for (int r = 0; r < 8; r++, z += 6) {
      uint16_t a = mul(x[0], z[0]), b = x[1] + z[1], c = x[2] + z[2], d = mul(x[3], z[3]);
      uint16_t e = mul(a ^ c, z[4]), f = mul((uint16_t)((b ^ d) + e), z[5]);
      e += f;
      x[0] = a ^ f; x[1] = c ^ f; x[2] = b ^ e; x[3] = d ^ e;
    }
    uint16_t y[4] = {mul(x[0], z[0]), (uint16_t)(x[2] + z[1]), (uint16_t)(x[1] + z[2]), mul(x[3], z[3])};
    for (int i = 0; i < 4; i++) { o[2 * i] = y[i] >> 8; o[2 * i + 1] = (uint8_t)y[i]; }
  }
};

class Block {
 public:
  size_t bs = 0;
  Block(cipher_id_t id, const Bytes &k) : id_(id) {
    for (auto &c : ciphers) if (c.id == id) bs = c.block;
    switch (id) {
      case CIPHER_AES128: case CIPHER_AES192: case CIPHER_AES256:
        AES_set_encrypt_key(k.data(), k.size() * 8, &ae_); AES_set_decrypt_key(k.data(), k.size() * 8, &ad_); break;
      case CIPHER_CAMELLIA128: case CIPHER_CAMELLIA192: case CIPHER_CAMELLIA256: Camellia_set_key(k.data(), k.size() * 8, &cam_); break;
      case CIPHER_CAST5: CAST_set_key(&cast_, 16, k.data()); break;
      case CIPHER_BLOWFISH: BF_set_key(&bf_, k.size(), k.data()); break;
      case CIPHER_DES: des(0, k, 0); break;
      case CIPHER_DES_EDE: des(0, k, 0); des(1, k, 8); des(2, k, 0); break;
      case CIPHER_DES_EDE3: des(0, k, 0); des(1, k, 8); des(2, k, 16); break;
      case CIPHER_IDEA: idea_.key(k.data()); break;
      case CIPHER_ARC2: case CIPHER_ARC2_40: case CIPHER_ARC2_64: case CIPHER_ARC2_128: nettle_arctwo_set_key_ekb(ctx_, k.size(), k.data(), k.size() * 8); break;
      case CIPHER_ARC2_GUTMANN: case CIPHER_ARC2_128_GUTMANN: nettle_arctwo_set_key_gutmann(ctx_, k.size(), k.data()); break;
      case CIPHER_SERPENT128: case CIPHER_SERPENT192: case CIPHER_SERPENT256: nettle_serpent_set_key(ctx_, k.size(), k.data()); break;
      default: nettle_twofish_set_key(ctx_, k.size(), k.data()); break;
    }
  }
  void run(bool enc, uint8_t *o, const uint8_t *in) const {
    void *x = (void *)ctx_;
    switch (id_) {
      case CIPHER_AES128: case CIPHER_AES192: case CIPHER_AES256: enc ? AES_encrypt(in, o, &ae_) : AES_decrypt(in, o, &ad_); break;
      case CIPHER_CAMELLIA128: case CIPHER_CAMELLIA192: case CIPHER_CAMELLIA256: enc ? Camellia_encrypt(in, o, &cam_) : Camellia_decrypt(in, o, &cam_); break;
      case CIPHER_CAST5: CAST_ecb_encrypt(in, o, &cast_, enc); break;
      case CIPHER_BLOWFISH: BF_ecb_encrypt(in, o, &bf_, enc); break;
      case CIPHER_DES: { DES_cblock a; memcpy(a, in, 8); DES_ecb_encrypt(&a, &a, (DES_key_schedule *)&des_[0], enc); memcpy(o, a, 8); break; }
      case CIPHER_DES_EDE: case CIPHER_DES_EDE3: { DES_cblock a; memcpy(a, in, 8); DES_ecb3_encrypt(&a, &a, (DES_key_schedule *)&des_[0], (DES_key_schedule *)&des_[1], (DES_key_schedule *)&des_[2], enc); memcpy(o, a, 8); break; }
      case CIPHER_IDEA: Idea::run(enc ? idea_.ek : idea_.dk, o, in); break;
      case CIPHER_ARC2: case CIPHER_ARC2_GUTMANN: case CIPHER_ARC2_40: case CIPHER_ARC2_64: case CIPHER_ARC2_128: case CIPHER_ARC2_128_GUTMANN:
        enc ? nettle_arctwo_encrypt(x, 8, o, in) : nettle_arctwo_decrypt(x, 8, o, in); break;
      case CIPHER_SERPENT128: case CIPHER_SERPENT192: case CIPHER_SERPENT256: enc ? nettle_serpent_encrypt(x, 16, o, in) : nettle_serpent_decrypt(x, 16, o, in); break;
      default: enc ? nettle_twofish_encrypt(x, 16, o, in) : nettle_twofish_decrypt(x, 16, o, in); break;
    }
  }
  Bytes enc(const Bytes &b) const { Bytes o(bs); run(true, o.data(), b.data()); return o; }
  Bytes dec(const Bytes &b) const { Bytes o(bs); run(false, o.data(), b.data()); return o; }
 private:
  void des(int i, const Bytes &k, size_t o) { DES_cblock b; memcpy(b, &k[o], 8); DES_set_key_unchecked(&b, &des_[i]); }
  cipher_id_t id_;
  AES_KEY ae_, ad_;
  CAMELLIA_KEY cam_;
  CAST_KEY cast_;
  BF_KEY bf_;
  DES_key_schedule des_[3];
  Idea idea_;
  alignas(16) uint8_t ctx_[8192];
};

inline Bytes sub(const Bytes &b, size_t o, size_t n) { return Bytes(b.begin() + o, b.begin() + o + n); }
inline Bytes xr(const Bytes &a, const Bytes &b) { Bytes o(a); for (size_t i = 0; i < o.size() && i < b.size(); i++) o[i] ^= b[i]; return o; }
inline void app(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
inline void incr(Bytes &b, size_t from = 0) { for (size_t i = b.size(); i-- > from;) if (++b[i]) break; }

// GF(2^n) doubling
inline Bytes dbl_le(Bytes b) {
  int c = b.back() >> 7;
  for (size_t i = b.size(); i-- > 1;) b[i] = b[i] << 1 | b[i - 1] >> 7;
  b[0] <<= 1;
  if (c) b[0] ^= b.size() == 16 ? 0x87 : 0x1b;
  return b;
}
inline Bytes dbl_be(Bytes b) {
  std::reverse(b.begin(), b.end());
  b = dbl_le(b);
  std::reverse(b.begin(), b.end());
  return b;
}

inline Bytes ctr(const Block &k, Bytes iv, const Bytes &m, size_t from = 0) {
  Bytes o;
  for (size_t i = 0; i < m.size(); i += k.bs) { app(o, xr(sub(m, i, std::min(k.bs, m.size() - i)), k.enc(iv))); incr(iv, from); }
  return o;
}
inline Bytes cbc(const Block &k, Bytes iv, const Bytes &m, bool enc) {
  Bytes o;
  for (size_t i = 0; i < m.size(); i += k.bs) {
    Bytes b = sub(m, i, k.bs);
    if (enc) { iv = k.enc(xr(b, iv)); app(o, iv); }
    else { app(o, xr(k.dec(b), iv)); iv = b; }
  }
  return o;
}

struct Out { bool ok; Bytes data; };

// tweakkey: second half for XTS
inline Out mode(mode_id_t md, bool enc, const Block &k, const Block *k2, const Bytes &iv, const Bytes &m, bool padding) {
  size_t bs = k.bs, n = m.size();
  Bytes o;
  switch (md) {
    case CIPHER_MODE_RAW:
      if (n % bs) return {false, {}};
      for (size_t i = 0; i < n; i += bs) app(o, enc ? k.enc(sub(m, i, bs)) : k.dec(sub(m, i, bs)));
      return {true, o};
    case CIPHER_MODE_ECB: case CIPHER_MODE_CBC: {
      Bytes in = m;
      if (enc && padding) { size_t p = bs - n % bs; in.insert(in.end(), p, (uint8_t)p); }
      if (in.size() % bs) return {false, {}};
      if (md == CIPHER_MODE_CBC) o = cbc(k, iv, in, enc);
      else for (size_t i = 0; i < in.size(); i += bs) app(o, enc ? k.enc(sub(in, i, bs)) : k.dec(sub(in, i, bs)));
      if (!enc && padding) {
        if (o.empty()) return {false, {}};
        size_t p = o.back();
        if (p < 1 || p > bs) return {false, {}};
        for (size_t i = 0; i < p; i++) if (o[o.size() - 1 - i] != p) return {false, {}};
        o.resize(o.size() - p);
      }
      return {true, o};
    }
    case CIPHER_MODE_CTS: {
      if (!padding) { if (n % bs) return {false, {}}; return {true, cbc(k, iv, m, enc)}; }
      if (n < bs) return {false, {}};
      size_t r = n % bs, full = n - r;
      if (enc) {
        o = cbc(k, iv, sub(m, 0, full), true);
        Bytes prev = sub(o, full - bs, bs), part = sub(m, full, r);
        part.resize(bs, 0);
        Bytes last = k.enc(xr(part, prev));
        o.resize(full - bs);
        app(o, last);
        app(o, sub(prev, 0, r));
        return {true, o};
      }
      Bytes last = sub(m, full - bs, bs), part = sub(m, full, r);
      Bytes d = k.dec(last);               // padded P_n xor C_{n-1}
      Bytes prevc = part;
      for (size_t i = r; i < bs; i++) prevc.push_back(d[i]);
      Bytes pn = sub(xr(d, prevc), 0, r);
      Bytes head = sub(m, 0, full - bs);
      app(head, prevc);
      o = cbc(k, iv, head, false);
      app(o, pn);
      return {true, o};
    }
    case CIPHER_MODE_XTS: {
      Bytes t = k2->enc(iv);
      auto x = [&](const Bytes &b, const Bytes &tw) { return xr(enc ? k.enc(xr(b, tw)) : k.dec(xr(b, tw)), tw); };
      if (!padding && n % bs) return {false, {}};
      if (padding && n < bs) return {false, {}};
      size_t r = n % bs, full = n - r;
      for (size_t i = 0; i < full; i += bs) {
        Bytes tn = dbl_le(t);
        if (r && i + bs == full) {
          Bytes a = sub(m, i, bs), part = sub(m, full, r);
          Bytes first = x(a, enc ? t : tn);
          Bytes q = part;
          for (size_t j = r; j < bs; j++) q.push_back(first[j]);
          app(o, x(q, enc ? tn : t));
          app(o, sub(first, 0, r));
        } else app(o, x(sub(m, i, bs), t));
        t = tn;
      }
      return {true, o};
    }
    case CIPHER_MODE_CTR: return {true, ctr(k, iv, m)};
    case CIPHER_MODE_CFB: {
      Bytes v = iv;
      for (size_t i = 0; i < n; i += bs) {
        Bytes b = sub(m, i, std::min(bs, n - i)), e = xr(b, k.enc(v));
        app(o, e);
        v = enc ? e : b;
      }
      return {true, o};
    }
    case CIPHER_MODE_OFB: {
      Bytes v = iv;
      for (size_t i = 0; i < n; i += bs) { v = k.enc(v); app(o, xr(sub(m, i, std::min(bs, n - i)), v)); }
      return {true, o};
    }
    default: return {false, {}};
  }
}

// SP 800-38D, bitwise multiplication
inline Bytes gf_mul(const Bytes &x, const Bytes &y) {
  Bytes z(16, 0), v = y;
  for (int i = 0; i < 128; i++) {
    if (x[i / 8] >> (7 - i % 8) & 1) z = xr(z, v);
    int lsb = v[15] & 1;
    for (int j = 15; j > 0; j--) v[j] = v[j] >> 1 | v[j - 1] << 7;
    v[0] >>= 1;
    if (lsb) v[0] ^= 0xe1;
  }
  return z;
}
inline Bytes be64(uint64_t v) { Bytes b(8); for (int i = 0; i < 8; i++) b[7 - i] = v >> (8 * i); return b; }
inline Bytes ghash(const Bytes &h, const Bytes &a, const Bytes &c) {
  Bytes d = a;
  while (d.size() % 16) d.push_back(0);
  app(d, c);
  while (d.size() % 16) d.push_back(0);
  app(d, be64((uint64_t)a.size() * 8));
  app(d, be64((uint64_t)c.size() * 8));
  Bytes y(16, 0);
  for (size_t i = 0; i < d.size(); i += 16) y = gf_mul(xr(y, sub(d, i, 16)), h);
  return y;
}
struct Aead { Bytes ct, tag; };
inline Aead gcm(const Block &k, const Bytes &iv, const Bytes &aad, const Bytes &pt) {
  Bytes h = k.enc(Bytes(16, 0)), j;
  if (iv.size() == 12) { j = iv; app(j, {0, 0, 0, 1}); }
  else j = ghash(h, {}, iv);
  Bytes j1 = j;
  incr(j1, 12);
  Aead r;
  r.ct = ctr(k, j1, pt, 12);
  r.tag = xr(ghash(h, aad, r.ct), k.enc(j));
  return r;
}
// RFC 3610 (nonce longer than 15-L bytes is truncated, as sjcl does)
inline Aead ccm(const Block &k, Bytes iv, size_t mlen, size_t M, const Bytes &aad, const Bytes &pt) {
  if (iv.size() > 13) iv.resize(13);
  size_t L = 2;
  while (L < 8 && mlen >> (8 * L)) L++;
  if (L < 15 - iv.size()) L = 15 - iv.size();
  iv.resize(15 - L);
  Bytes b;
  b.push_back((aad.empty() ? 0 : 64) + 8 * ((M - 2) / 2) + (L - 1));
  app(b, iv);
  for (size_t i = L; i-- > 0;) b.push_back(i < 8 ? (uint8_t)((uint64_t)mlen >> (8 * i)) : 0);
  if (!aad.empty()) {
    if (aad.size() < 0xff00) { b.push_back(aad.size() >> 8); b.push_back((uint8_t)aad.size()); }
    else { b.push_back(0xff); b.push_back(0xfe); for (int i = 3; i >= 0; i--) b.push_back((uint8_t)(aad.size() >> (8 * i))); }
    app(b, aad);
    while (b.size() % 16) b.push_back(0);
  }
  app(b, pt);
  while (b.size() % 16) b.push_back(0);
  Bytes x(16, 0);
  for (size_t i = 0; i < b.size(); i += 16) x = k.enc(xr(x, sub(b, i, 16)));
  Bytes a;
  a.push_back(L - 1);
  app(a, iv);
  a.resize(16, 0);
  Aead r;
  Bytes s0 = k.enc(a);
  incr(a, 1 + iv.size());
  r.ct = ctr(k, a, pt, 1 + iv.size());
  r.tag = xr(x, s0);
  r.tag.resize(M);
  return r;
}
inline Bytes cmac(const Block &k, const Bytes &m) {
  Bytes l = dbl_be(k.enc(Bytes(k.bs, 0))), x(k.bs, 0), d = m;
  if (d.empty() || d.size() % k.bs) { l = dbl_be(l); d.push_back(0x80); while (d.size() % k.bs) d.push_back(0); }
  for (size_t i = 0; i < d.size(); i += k.bs) {
    Bytes b = sub(d, i, k.bs);
    if (i + k.bs == d.size()) b = xr(b, l);
    x = k.enc(xr(x, b));
  }
  return x;
}
inline Aead eax(const Block &k, const Bytes &iv, const Bytes &aad, const Bytes &pt) {
  auto om = [&](int t, const Bytes &m) { Bytes d(k.bs, 0); d.back() = t; app(d, m); return cmac(k, d); };
  Bytes n = om(0, iv);
  Aead r;
  r.ct = ctr(k, n, pt);
  r.tag = xr(xr(n, om(1, aad)), om(2, r.ct));
  return r;
}

}  // namespace ref
#endif
