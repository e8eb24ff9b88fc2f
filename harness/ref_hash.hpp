// Reference digests: OpenSSL, libgcrypt, nettle, and small implementations written from the specifications.
#ifndef REF_HASH_HPP
#define REF_HASH_HPP
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/provider.h>
#include "vh.hpp"
#include "ext.h"
extern "C" {
#include <torsion/hash.h>
}

namespace ref {

inline void init_providers() {
  static bool done = false;
  if (done) return;
  done = true;
  OSSL_PROVIDER_load(nullptr, "legacy");
  OSSL_PROVIDER_load(nullptr, "default");
  gcry_check_version(nullptr);
  gcry_control(37, 0);
  gcry_control(38, 0);
}

inline Bytes evp(const char *name, const Bytes &m, size_t outlen = 0) {
  init_providers();
  static std::map<std::string, EVP_MD *> cache;
  EVP_MD *&md = cache[name];
  if (!md) md = EVP_MD_fetch(nullptr, name, nullptr);
  if (!md) { fprintf(stderr, "no digest %s\n", name); exit(96); }
  static EVP_MD_CTX *ctx = EVP_MD_CTX_new();
  EVP_DigestInit_ex(ctx, md, nullptr);
  EVP_DigestUpdate(ctx, m.data(), m.size());
  if (outlen) {
    Bytes o(outlen);
    EVP_DigestFinalXOF(ctx, o.data(), outlen);
    return o;
  }
  Bytes o(EVP_MD_get_size(md));
  EVP_DigestFinal_ex(ctx, o.data(), nullptr);
  return o;
}

inline Bytes gcry(int algo, size_t n, const Bytes &m) {
  init_providers();
  Bytes o(n);
  gcry_md_hash_buffer(algo, o.data(), m.data(), m.size());
  return o;
}

// FIPS 202 sponge, bit-serial definition of the permutation.
inline void keccakf(uint64_t A[25]) {
  auto rol = [](uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; };
  uint8_t lfsr = 1;
  for (int round = 0; round < 24; round++) {
    uint64_t C[5], D[5], B[25];
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
    for (int i = 0; i < 25; i++) A[i] ^= D[i % 5];
    memcpy(B, A, sizeof B);
    int x = 1, y = 0; unsigned r = 0;
    uint64_t P[25];
    P[0] = B[0];
    for (int t = 0; t < 24; t++) {
      r = (r + t + 1) % 64;
      int nx = y, ny = (2 * x + 3 * y) % 5;
      P[nx + 5 * ny] = rol(B[x + 5 * y], r);
      x = nx; y = ny;
    }
    for (int yy = 0; yy < 5; yy++)
      for (int xx = 0; xx < 5; xx++)
        A[xx + 5 * yy] = P[xx + 5 * yy] ^ (~P[(xx + 1) % 5 + 5 * yy] & P[(xx + 2) % 5 + 5 * yy]);
    for (int j = 0; j < 7; j++) {
      if (lfsr & 1) A[0] ^= 1ull << ((1 << j) - 1);
      lfsr = (lfsr << 1) ^ ((lfsr >> 7) * 0x71);
    }
  }
}

inline Bytes keccak(unsigned bits, uint8_t pad, size_t outlen, const Bytes &m) {
  size_t rate = (1600 - 2 * bits) / 8;
  uint64_t A[25] = {0};
  Bytes p = m;
  p.push_back(pad);
  while (p.size() % rate) p.push_back(0);
  p.back() |= 0x80;
  for (size_t o = 0; o < p.size(); o += rate) {
    for (size_t i = 0; i < rate; i++) A[i / 8] ^= (uint64_t)p[o + i] << (8 * (i % 8));
    keccakf(A);
  }
  Bytes out;
  while (true) {
    for (size_t i = 0; i < rate && out.size() < outlen; i++) out.push_back(A[i / 8] >> (8 * (i % 8)));
    if (out.size() >= outlen) break;
    keccakf(A);
  }
  return out;
}

static const uint8_t blake_sigma[10][16] = {
  {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3}, {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},
  {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8}, {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
  {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10}, {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},
  {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};

// RFC 7693; t0 is the initial byte counter (0 in the standard).
template <class W, int ROUNDS, int R1, int R2, int R3, int R4, size_t BLK>
Bytes blake2(const W *iv, size_t outlen, const Bytes &key, const Bytes &msg, unsigned __int128 t0 = 0) {
  W h[8];
  for (int i = 0; i < 8; i++) h[i] = iv[i];
  h[0] ^= 0x01010000u ^ (W)(key.size() << 8) ^ (W)outlen;
  Bytes d;
  if (!key.empty()) { d = key; d.resize(BLK, 0); }
  d.insert(d.end(), msg.begin(), msg.end());
  unsigned __int128 t = t0;
  size_t nb = d.empty() ? 1 : (d.size() + BLK - 1) / BLK;
  auto ror = [](W x, int n) { return (W)((x >> n) | (x << (sizeof(W) * 8 - n))); };
  for (size_t b = 0; b < nb; b++) {
    bool last = b == nb - 1;
    size_t n = last ? d.size() - b * BLK : BLK;
    t += n;
    uint8_t blk[BLK] = {0};
    if (n) memcpy(blk, d.data() + b * BLK, n);
    W m[16], v[16];
    for (int i = 0; i < 16; i++) { m[i] = 0; for (size_t j = 0; j < sizeof(W); j++) m[i] |= (W)blk[i * sizeof(W) + j] << (8 * j); }
    for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = iv[i]; }
    v[12] ^= (W)t;
    v[13] ^= (W)(t >> (sizeof(W) * 8));
    if (last) v[14] = ~v[14];
    for (int r = 0; r < ROUNDS; r++) {
      const uint8_t *s = blake_sigma[r % 10];
      auto G = [&](int a, int bb, int c, int dd, W x, W y) {
        v[a] += v[bb] + x; v[dd] = ror(v[dd] ^ v[a], R1); v[c] += v[dd]; v[bb] = ror(v[bb] ^ v[c], R2);
        v[a] += v[bb] + y; v[dd] = ror(v[dd] ^ v[a], R3); v[c] += v[dd]; v[bb] = ror(v[bb] ^ v[c], R4);
      };
      G(0,4,8,12,m[s[0]],m[s[1]]); G(1,5,9,13,m[s[2]],m[s[3]]); G(2,6,10,14,m[s[4]],m[s[5]]); G(3,7,11,15,m[s[6]],m[s[7]]);
      G(0,5,10,15,m[s[8]],m[s[9]]); G(1,6,11,12,m[s[10]],m[s[11]]); G(2,7,8,13,m[s[12]],m[s[13]]); G(3,4,9,14,m[s[14]],m[s[15]]);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
  }
  Bytes out;
  for (size_t i = 0; i < outlen; i++) out.push_back(h[i / sizeof(W)] >> (8 * (i % sizeof(W))));
  return out;
}
static const uint64_t ivb[8] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
static const uint32_t ivs[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
inline Bytes blake2b(size_t n, const Bytes &k, const Bytes &m, unsigned __int128 t0 = 0) { return blake2<uint64_t,12,32,24,16,63,128>(ivb, n, k, m, t0); }
inline Bytes blake2s(size_t n, const Bytes &k, const Bytes &m, unsigned __int128 t0 = 0) { return blake2<uint32_t,10,16,12,8,7,64>(ivs, n, k, m, t0); }

inline Bytes md2(const Bytes &m) {
  alignas(16) uint8_t ctx[1024]; Bytes o(16);
  nettle_md2_init(ctx); nettle_md2_update(ctx, m.size(), m.data()); nettle_md2_digest(ctx, 16, o.data());
  return o;
}
inline Bytes gost94(const Bytes &m) {
  alignas(16) uint8_t ctx[1024]; Bytes o(32);
  nettle_gosthash94_init(ctx); nettle_gosthash94cp_update(ctx, m.size(), m.data()); nettle_gosthash94cp_digest(ctx, 32, o.data());
  return o;
}

struct Info { hash_id_t id; const char *name; size_t size, block; };
static const std::vector<Info> hashes = {
  {HASH_BLAKE2B_160,"BLAKE2B-160",20,128},{HASH_BLAKE2B_256,"BLAKE2B-256",32,128},{HASH_BLAKE2B_384,"BLAKE2B-384",48,128},{HASH_BLAKE2B_512,"BLAKE2B-512",64,128},
  {HASH_BLAKE2S_128,"BLAKE2S-128",16,64},{HASH_BLAKE2S_160,"BLAKE2S-160",20,64},{HASH_BLAKE2S_224,"BLAKE2S-224",28,64},{HASH_BLAKE2S_256,"BLAKE2S-256",32,64},
  {HASH_GOST94,"GOST94",32,32},{HASH_HASH160,"HASH160",20,64},{HASH_HASH256,"HASH256",32,64},
  {HASH_KECCAK224,"KECCAK224",28,144},{HASH_KECCAK256,"KECCAK256",32,136},{HASH_KECCAK384,"KECCAK384",48,104},{HASH_KECCAK512,"KECCAK512",64,72},
  {HASH_MD2,"MD2",16,16},{HASH_MD4,"MD4",16,64},{HASH_MD5,"MD5",16,64},{HASH_MD5SHA1,"MD5-SHA1",36,64},{HASH_RIPEMD160,"RIPEMD160",20,64},
  {HASH_SHA1,"SHA1",20,64},{HASH_SHA224,"SHA224",28,64},{HASH_SHA256,"SHA256",32,64},{HASH_SHA384,"SHA384",48,128},{HASH_SHA512,"SHA512",64,128},
  {HASH_SHA3_224,"SHA3-224",28,144},{HASH_SHA3_256,"SHA3-256",32,136},{HASH_SHA3_384,"SHA3-384",48,104},{HASH_SHA3_512,"SHA3-512",64,72},
  {HASH_SHAKE128,"SHAKE128",16,168},{HASH_SHAKE256,"SHAKE256",32,136},{HASH_WHIRLPOOL,"WHIRLPOOL",64,64}};

inline const Info &info(hash_id_t id) { for (auto &h : hashes) if (h.id == id) return h; abort(); }

inline Bytes hash(hash_id_t id, const Bytes &m, size_t outlen = 0) {
  switch (id) {
    case HASH_BLAKE2B_160: return blake2b(20, {}, m);
    case HASH_BLAKE2B_256: return blake2b(32, {}, m);
    case HASH_BLAKE2B_384: return blake2b(48, {}, m);
    case HASH_BLAKE2B_512: return evp("BLAKE2B-512", m);
    case HASH_BLAKE2S_128: return blake2s(16, {}, m);
    case HASH_BLAKE2S_160: return blake2s(20, {}, m);
    case HASH_BLAKE2S_224: return blake2s(28, {}, m);
    case HASH_BLAKE2S_256: return evp("BLAKE2S-256", m);
    case HASH_GOST94: return gost94(m);
    case HASH_HASH160: return gcry(3, 20, evp("SHA256", m));
    case HASH_HASH256: return evp("SHA256", evp("SHA256", m));
    case HASH_KECCAK224: return keccak(224, 1, 28, m);
    case HASH_KECCAK256: return keccak(256, 1, 32, m);
    case HASH_KECCAK384: return keccak(384, 1, 48, m);
    case HASH_KECCAK512: return keccak(512, 1, 64, m);
    case HASH_MD2: return md2(m);
    case HASH_MD4: return gcry(301, 16, m);
    case HASH_MD5: return evp("MD5", m);
    case HASH_MD5SHA1: { Bytes a = evp("MD5", m), b = evp("SHA1", m); a.insert(a.end(), b.begin(), b.end()); return a; }
    case HASH_RIPEMD160: return gcry(3, 20, m);
    case HASH_SHAKE128: return evp("SHAKE128", m, outlen ? outlen : 16);
    case HASH_SHAKE256: return evp("SHAKE256", m, outlen ? outlen : 32);
    case HASH_WHIRLPOOL: return evp("WHIRLPOOL", m);
    default: return evp(info(id).name, m);
  }
}

inline Bytes cat(std::initializer_list<Bytes> l) { Bytes o; for (auto &b : l) o.insert(o.end(), b.begin(), b.end()); return o; }

// RFC 2104 from the definition over ref::hash
inline Bytes hmac(hash_id_t id, Bytes key, const Bytes &m) {
  const Info &h = info(id);
  if (key.size() > h.block) key = hash(id, key);
  key.resize(h.block, 0);
  Bytes i = key, o = key;
  for (auto &b : i) b ^= 0x36;
  for (auto &b : o) b ^= 0x5c;
  return hash(id, cat({o, hash(id, cat({i, m}))}));
}

}  // namespace ref
#endif
