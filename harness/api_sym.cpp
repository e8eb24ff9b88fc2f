// Symmetric half of the workload: hashes, MACs, ciphers, modes, AEADs, KDFs, DRBGs, encodings, utilities
#include "api.hpp"
#include <torsion/aead.h>
#include <torsion/cipher.h>
#include <torsion/drbg.h>
#include <torsion/encoding.h>
#include <torsion/hash.h>
#include <torsion/ies.h>
#include <torsion/kdf.h>
#include <torsion/mac.h>
#include <torsion/stream.h>
#include <torsion/util.h>
using namespace api;

static hash_id_t any_hash(Rng &r) { return (hash_id_t)(1 + r.below(HASH_WHIRLPOOL)); }
static Bytes msg(Rng &r, size_t max = 400) { return r.special(r.len(max, 64)); }

API_TEST(hash, 4000, 8, true) {
  hash_id_t id = any_hash(t.r);
  Bytes m = msg(t.r, 700), k = msg(t.r, 300);
  t.num("hash", id);
  t.num("sizes", hash_output_size(id) * 1000 + hash_block_size(id));
  hash_t h;
  hash_init(&h, id);
  hmac_t hm;
  I K(k);
  hmac_init(&hm, id, K, k.size());
  size_t at = 0;
  for (size_t n : t.r.split(m.size(), hash_block_size(id))) {
    I p(Bytes(m.begin() + at, m.begin() + at + n));
    hash_update(&h, p, n);
    hmac_update(&hm, p, n);
    at += n;
  }
  size_t os = hash_output_size(id);
  O o(os), q(os);
  hash_final(&h, o, os);
  o.to(t, "digest");
  hmac_final(&hm, q);
  q.to(t, "hmac");
  // variable-length BLAKE2 and the raw sponge
  size_t bl = 1 + t.r.below(64), bk = t.r.below(65), sl = 1 + t.r.below(32), sk = t.r.below(33);
  I B(t.r.special(bk)), S(t.r.special(sk)), M(m);
  blake2b_t b;
  O bo(bl);
  blake2b_init(&b, bl, B, bk);
  blake2b_update(&b, M, m.size());
  blake2b_final(&b, bo);
  bo.to(t, "blake2b");
  blake2s_t s;
  O so(sl);
  blake2s_init(&s, sl, S, sk);
  blake2s_update(&s, M, m.size());
  blake2s_final(&s, so);
  so.to(t, "blake2s");
  static const unsigned kb[] = {128, 160, 224, 256, 384, 512};
  keccak_t kc;
  size_t ol = 1 + t.r.below(200);
  O ko(ol);
  keccak_init(&kc, kb[t.r.below(6)]);
  keccak_update(&kc, M, m.size());
  keccak_final(&kc, ko, t.r.chance(1, 2) ? 0x06 : 0x1f, ol);
  ko.to(t, "keccak");
  t.calls += 5;
  t.ok += 5;
}
API_TEST(mac, 3000, 8, true) {
  Bytes m = msg(t.r);
  I K(t.r.special(32)), M(m);
  poly1305_t p;
  poly1305_init(&p, K);
  size_t at = 0;
  for (size_t n : t.r.split(m.size(), 16)) { I x(Bytes(m.begin() + at, m.begin() + at + n)); poly1305_update(&p, x, n); if (t.r.chance(1, 5)) poly1305_pad(&p); at += n; }
  O o(16);
  poly1305_final(&p, o);
  o.to(t, "poly1305");
  I k16(t.r.special(16)), k32(t.r.special(32));
  uint64_t a = t.r.chance(1, 3) ? ~0ull - t.r.below(3) : t.r.next(), mod = t.r.chance(1, 3) ? ~0ull - t.r.below(3) : t.r.chance(1, 2) ? t.r.below(5) : t.r.next();
  t.num("siphash", siphash_sum(M, m.size(), k16));
  t.num("siphash_mod", siphash_mod(M, m.size(), k16, mod));
  t.num("siphash128", siphash128_sum(a, k16));
  t.num("siphash256", siphash256_sum(a, k32));
  t.num("murmur3", murmur3_sum(M, m.size(), (uint32_t)t.r.next()));
  t.num("tweak", murmur3_tweak(M, m.size(), (uint32_t)t.r.next(), (uint32_t)t.r.next()));
  Bytes b = t.r.chance(1, 2) ? m : mutate(t.r, m, false);
  I B(b);
  auto sgn = [](int v) { return v < 0 ? 1 : v > 0 ? 2 : 3; };
  t.num("memcmp", sgn(torsion_memcmp(M, B, m.size())));
  t.num("memcmp_var", sgn(torsion_memcmp_var(M, B, m.size())));
  t.num("memequal", torsion_memequal(M, B, m.size()) != 0);
  Buf x(m), y(m.size(), 0);
  torsion_memxor(x, B, m.size());
  t.bytes("memxor", x.p(), x.size());
  O w(m.size());
  torsion_memxor3(w, M, x, m.size());
  w.to(t, "memxor3");
  torsion_memzero(x, x.size());
  t.bytes("memzero", x.p(), x.size());
  t.calls += 10;
  t.ok += 10;
}
API_TEST(stream, 3000, 8, true) {
  int kind = t.r.below(3);
  Bytes m = msg(t.r, 600);
  Buf d(m.size());
  size_t at = 0;
  auto run = [&](auto &&crypt) {
    for (size_t n : t.r.split(m.size(), 64)) {
      I p(Bytes(m.begin() + at, m.begin() + at + n));
      O o(n);
      crypt(o, p, n);
      o.to(t, "stream");
      at += n;
    }
    t.calls++;
    t.ok++;
  };
  if (kind == 0) {
    I k(t.r.special(1 + t.r.below(256)));
    arc4_t c;
    arc4_init(&c, k, k.size());
    run([&](uint8_t *o, const uint8_t *p, size_t n) { arc4_crypt(&c, o, p, n); });
    return;
  }
  static const size_t cn[] = {8, 12, 16, 24, 28}, sn[] = {8, 16, 24};   // salsa20: 12 and 28 byte nonces are the recorded finding
  size_t kl = t.r.chance(1, 2) ? 32 : 16, nl = kind == 1 ? cn[t.r.below(5)] : sn[t.r.below(3)];
  if (nl > 16) kl = 32;
  I k(t.r.special(kl)), n(t.r.special(nl)), n16(t.r.special(16));
  uint64_t ctr = t.r.chance(1, 2) ? 0xfffffffful - t.r.below(4) + (t.r.next() << 32) : t.r.below(4);
  O dk(32);
  if (kind == 1) {
    chacha20_t c;
    chacha20_init(&c, k, kl, n, nl, ctr);
    run([&](uint8_t *o, const uint8_t *p, size_t n) { chacha20_crypt(&c, o, p, n); });
    chacha20_derive(dk, k, kl, n16);
  } else {
    salsa20_t c;
    salsa20_init(&c, k, kl, n, nl, ctr);
    run([&](uint8_t *o, const uint8_t *p, size_t n) { salsa20_crypt(&c, o, p, n); });
    salsa20_derive(dk, k, kl, n16);
  }
  dk.to(t, "derive");
}
static cipher_id_t any_cipher(Rng &r) { return (cipher_id_t)r.below(CIPHER_TWOFISH256 + 1); }
API_TEST(cipher, 6000, 8, true) {
  cipher_id_t id = t.r.chance(1, 40) ? (cipher_id_t)(1000 + t.r.below(5)) : any_cipher(t.r);
  t.num("cipher", id);
  size_t ks = cipher_key_size(id), bs = cipher_block_size(id);
  t.num("sizes", ks * 1000 + bs);
  size_t kl = t.r.chance(1, 3) ? t.r.below(80) : ks;
  I k(t.r.special(kl));
  cipher_t c;
  if (t.res("init", cipher_init(&c, id, k, kl))) {
    for (int i = 0; i < 3; i++) {
      I p(t.r.special(bs));
      O e(bs), d(bs);
      cipher_encrypt(&c, e, p);
      e.to(t, "encrypt");
      cipher_decrypt(&c, d, p);
      d.to(t, "decrypt");
    }
    size_t n = bs * t.r.below(6);
    I p(t.r.special(n));
    O e(n), d(n);
    ecb_encrypt(&c, e, p, n);
    e.to(t, "ecb");
    ecb_decrypt(&c, d, p, n);
    d.to(t, "ecb_decrypt");
  }
  // padding, with hostile padded input
  size_t sz = 1 + t.r.below(64), pl = t.r.below(sz);
  I p(t.r.special(pl));
  O pad(sz);
  pkcs7_pad(pad, p, pl, sz);
  pad.to(t, "pad");
  Bytes bad = mostly(t.r, pad.get());
  if (t.r.chance(1, 2) && sz) bad[sz - 1] = t.r.below(sz + 3);
  I B(bad);
  O un(sz);
  size_t ul = 0;
  if (t.res("unpad", pkcs7_unpad(un, &ul, B, sz))) { t.num("unpad_len", ul); un.to(t, "unpadded", ul); }
}
// the streaming interface through every mode, with valid and invalid configuration
static void stream_case(T &t) {
  cipher_id_t id = any_cipher(t.r);
  mode_id_t mode = (mode_id_t)t.r.below(14);
  int enc = t.r.chance(1, 2);
  size_t ks = cipher_key_size(id), bs = cipher_block_size(id);
  if (mode == CIPHER_MODE_XTS) ks *= 2;
  size_t kl = t.r.chance(1, 12) ? t.r.below(80) : ks;
  size_t il = t.r.chance(1, 6) ? t.r.below(40) : mode == CIPHER_MODE_CCM ? 7 + t.r.below(7) : mode == CIPHER_MODE_RAW || mode == CIPHER_MODE_ECB ? 0 : bs;
  I k(t.r.special(kl)), iv(t.r.special(il));
  t.num("id", id * 100 + mode);
  cipher_stream_t s;
  if (!t.res("stream_init", cipher_stream_init(&s, id, mode, enc, k, kl, iv, il))) return;
  Bytes m = t.r.special(t.r.len(200, bs));
  if (t.r.chance(1, 3)) t.res("set_padding", cipher_stream_set_padding(&s, t.r.below(2)));
  if (t.r.chance(1, 2)) { I a(t.r.special(t.r.len(100, 16))); t.res("set_aad", cipher_stream_set_aad(&s, a, a.size())); }
  if (t.r.chance(mode == CIPHER_MODE_CCM ? 9 : 1, 10)) {
    I a(t.r.special(t.r.len(100, 16)));
    if (!t.res("set_ccm", cipher_stream_set_ccm(&s, m.size(), t.r.chance(1, 6) ? t.r.below(20) : 4 + 2 * t.r.below(7), a, a.size())) && mode == CIPHER_MODE_CCM) return;
  } else if (mode == CIPHER_MODE_CCM) {
    return;
  }
  if (!enc && t.r.chance(1, 2)) { I g(t.r.special(t.r.chance(1, 4) ? t.r.below(20) : 16)); t.res("set_tag", cipher_stream_set_tag(&s, g, g.size())); }
  size_t at = 0;
  for (size_t n : t.r.split(m.size(), bs)) {
    I p(Bytes(m.begin() + at, m.begin() + at + n));
    size_t need = cipher_stream_update_size(&s, n), got = 0;
    O o(need);
    cipher_stream_update(&s, o, &got, p, n);
    t.num("update_len", got);
    o.to(t, "update", got);
    at += n;
  }
  size_t need = cipher_stream_final_size(&s), got = 0;
  O o(need);
  if (t.res("stream_final", cipher_stream_final(&s, o, &got))) {
    t.num("final_len", got);
    o.to(t, "final", got);
    O g(16);
    size_t gl = 0;
    if (t.res("get_tag", cipher_stream_get_tag(&s, g, &gl))) g.to(t, "tag", gl);
  }
}
API_TEST(modes, 12000, 8, true) { stream_case(t); stream_case(t); }
API_TEST(modes_static, 6000, 8, true) {
  cipher_id_t id = any_cipher(t.r);
  mode_id_t mode = (mode_id_t)t.r.below(14);
  size_t ks = cipher_key_size(id) * (mode == CIPHER_MODE_XTS ? 2 : 1), bs = cipher_block_size(id);
  size_t il = t.r.chance(1, 8) ? t.r.below(40) : mode == CIPHER_MODE_RAW || mode == CIPHER_MODE_ECB ? 0 : bs;
  I k(t.r.special(ks)), iv(t.r.special(il)), p(t.r.special(t.r.len(200, bs)));
  t.num("id", id * 100 + mode);
  if (mode == CIPHER_MODE_CCM) return;        // needs its lengths up front: covered by the streaming case
  O c(p.size() + CIPHER_MAX_BLOCK_SIZE);
  size_t cl = 0;
  if (t.res("static_encrypt", cipher_static_encrypt(c, &cl, id, mode, k, ks, iv, il, p, p.size()))) {
    t.num("ct_len", cl);
    c.to(t, "ct", cl);
    Bytes ct = mostly(t.r, c.get(std::min(cl, c.size())), true);
    I C(ct);
    O d(ct.size() + CIPHER_MAX_BLOCK_SIZE);
    size_t dl = 0;
    if (t.res("static_decrypt", cipher_static_decrypt(d, &dl, id, mode, k, ks, iv, il, C, C.size()))) { t.num("pt_len", dl); d.to(t, "pt", dl); }
  }
}
API_TEST(aead, 3000, 8, true) {
  Bytes m = msg(t.r), a = msg(t.r, 100);
  static const size_t nls[] = {8, 12, 16, 24, 28};
  size_t nl = nls[t.r.below(5)];
  I k(t.r.special(32)), n(t.r.special(nl));
  for (int dir = 0; dir < 3; dir++) {
    chachapoly_t c;
    chachapoly_init(&c, k, n, nl);
    size_t at = 0;
    for (size_t l : t.r.split(a.size(), 16)) { I x(Bytes(a.begin() + at, a.begin() + at + l)); chachapoly_aad(&c, x, l); at += l; }
    at = 0;
    for (size_t l : t.r.split(m.size(), 64)) {
      I x(Bytes(m.begin() + at, m.begin() + at + l));
      O o(l);
      if (dir == 0) chachapoly_encrypt(&c, o, x, l); else if (dir == 1) chachapoly_decrypt(&c, o, x, l); else { chachapoly_auth(&c, x, l); at += l; continue; }
      o.to(t, "data");
      at += l;
    }
    O g(16);
    chachapoly_final(&c, g);
    g.to(t, "tag");
  }
  I M(m), n24(t.r.special(24));
  O s(m.size() + 16), o(m.size());
  secretbox_seal(s, M, m.size(), k, n24);
  s.to(t, "sealed");
  Bytes se = mostly(t.r, s.get(), true);
  I S(se);
  O op(se.size() >= 16 ? se.size() - 16 : 0);
  if (t.res("open", secretbox_open(op, S, S.size(), k, n24))) op.to(t, "opened");
  O dk(32);
  secretbox_derive(dk, k);
  dk.to(t, "derive");
}
API_TEST(kdf, 1500, 8, true) {
  hash_id_t id = t.r.chance(1, 20) ? (hash_id_t)(t.r.chance(1, 2) ? 0 : 100 + t.r.below(9)) : any_hash(t.r);
  Bytes p = msg(t.r, 150), s = msg(t.r, 80);
  I P(p), S(s), in(t.r.special(t.r.below(60)));
  size_t n = t.r.len(300, 32);
  t.num("hash", id);
  { size_t iv = t.r.below(40); I s8(t.r.special(t.r.chance(1, 2) ? 8 : t.r.below(12))); O k(n), v(iv); if (t.res("eb2k", eb2k_derive(k, v, id, P, p.size(), s8, s8.size(), n, iv))) { k.to(t, "k"); v.to(t, "v"); } }
  { O o(hash_output_size(id)); if (t.res("hkdf_extract", hkdf_extract(o, id, P, p.size(), S, s.size()))) { o.to(t, "prk"); I prk(o.get()); O e(n); if (t.res("hkdf_expand", hkdf_expand(e, id, prk, in, in.size(), n))) e.to(t, "okm"); } }
  { O o(n); if (t.res("pbkdf2", pbkdf2_derive(o, id, P, p.size(), S, s.size(), t.r.below(4), n))) o.to(t, "pbkdf2"); }
  { O o(n); if (t.res("pgp_simple", pgpdf_derive_simple(o, id, P, p.size(), n))) o.to(t, "o"); }
  { O o(n); if (t.res("pgp_salted", pgpdf_derive_salted(o, id, P, p.size(), S, s.size(), n))) o.to(t, "o"); }
  { O o(n); if (t.res("pgp_iterated", pgpdf_derive_iterated(o, id, P, p.size(), S, s.size(), t.r.below(700), n))) o.to(t, "o"); }
  { static const uint64_t Ns[] = {0, 1, 2, 4, 8, 16, 64, 3, 6, 1ull << 40}; uint64_t N = Ns[t.r.below(10)]; uint32_t r = t.r.chance(1, 12) ? 0x40000000u : t.r.below(4), q = t.r.chance(1, 12) ? 0x40000000u : t.r.below(4);
    if (N < 1000 || r > 1000 || r == 0 || q == 0 || q > 1000) { O o(n); if (t.res("scrypt", scrypt_derive(o, P, p.size(), S, s.size(), N, r, q, n))) o.to(t, "o"); } }
}
API_TEST(bcrypt, 60, 8, true) {
  Bytes p = msg(t.r, 100), salt = t.r.special(16);
  I P(p), S(salt);
  static const char minors[] = "abxy2";
  char minor = minors[t.r.below(5)];
  unsigned rounds = t.r.chance(1, 4) ? (t.r.chance(1, 2) ? t.r.below(4) : 32 + t.r.below(9)) : 4;
  O rec(62);
  std::string record;
  if (t.res("bcrypt_generate", bcrypt_generate((char *)rec.p(), P, p.size(), S, rounds, minor))) {
    size_t l = strnlen((char *)rec.p(), 62);
    rec.to(t, "record", l);
    record.assign((char *)rec.p(), l);
  } else {
    record = "$2b$04$abcdefghijklmnopqrstuuabcdefghijklmnopqrstuvwxyzabcdefghi";
  }
  for (int i = 0; i < 4; i++) {
    Bytes b(record.begin(), record.end());
    if (i) b = mutate(t.r, b, true);
    for (auto &x : b) if (!x) x = '$';
    // only cheap costs may pass the parser
    if (b.size() > 6 && b[4] >= '0' && b[4] <= '9' && (b[4] != '0' || b[5] > '5')) { b[4] = '0'; b[5] = '4'; }
    I R(z(std::string(b.begin(), b.end())));
    t.res("bcrypt_verify", bcrypt_verify(P, p.size(), R.s()));
  }
  size_t n = 1 + t.r.below(80);
  O k(n);
  if (t.res("bcrypt_pbkdf", bcrypt_pbkdf(k, P, p.size(), S, t.r.chance(1, 4) ? t.r.below(16) : 16, t.r.below(3), n))) k.to(t, "key");
}
API_TEST(drbg, 1500, 8, true) {
  hash_id_t id = any_hash(t.r);
  // the hash generators are defined for hashes whose security strength the library tabulates
  static const hash_id_t ok[] = {HASH_SHA1, HASH_SHA224, HASH_SHA256, HASH_SHA384, HASH_SHA512, HASH_SHA3_256, HASH_BLAKE2B_256, HASH_RIPEMD160};
  id = ok[t.r.below(8)];
  int kind = t.r.below(3);
  hmac_drbg_t hm;
  hash_drbg_t hd;
  ctr_drbg_t cd;
  I seed(t.r.special(t.r.range(0, 80)));
  static const unsigned bits[] = {128, 192, 256};
  unsigned cb = bits[t.r.below(3)];
  int df = t.r.below(2);
  size_t ss = cb / 8 + 16;
  auto cseed = [&] { return t.r.special(df ? t.r.below(80) : ss); };
  auto cadd = [&] { return t.r.special(df ? t.r.below(80) : t.r.chance(1, 2) ? 0 : t.r.below(ss + 1)); };
  I cn(cseed()), cp(cadd());
  if (kind == 0) hmac_drbg_init(&hm, id, seed, seed.size());
  else if (kind == 1) hash_drbg_init(&hd, id, seed, seed.size());
  else ctr_drbg_init(&cd, cb, df, cn, cn.size(), cp, cp.size());
  for (int i = 0; i < 4; i++) {
    I rs(t.r.special(t.r.below(80))), ad(kind == 2 ? cadd() : t.r.special(t.r.below(60))), crs(cseed()), cad(cadd());
    size_t n = t.r.len(300, 32);
    O o(n);
    bool re = t.r.chance(1, 3), raw = t.r.chance(1, 3);
    if (kind == 0) { if (re) hmac_drbg_reseed(&hm, rs, rs.size()); if (raw) hmac_drbg_rng(o, n, &hm); else hmac_drbg_generate(&hm, o, n, ad, ad.size()); }
    else if (kind == 1) { if (re) hash_drbg_reseed(&hd, rs, rs.size()); if (raw) hash_drbg_rng(o, n, &hd); else hash_drbg_generate(&hd, o, n, ad, ad.size()); }
    else { if (re) ctr_drbg_reseed(&cd, crs, crs.size(), cad, cad.size()); if (raw) ctr_drbg_rng(o, n, &cd); else ctr_drbg_generate(&cd, o, n, ad, ad.size()); }
    o.to(t, "drbg");
    t.calls++;
    t.ok++;
  }
}
// --- encodings --------------------------------------------------------------------------------
static std::string text(Rng &r, const std::string &valid) {
  Bytes b(valid.begin(), valid.end());
  b = mostly(r, b, true);
  if (r.chance(1, 6)) for (auto &x : b) if (x >= 'a' && x <= 'z' && r.chance(1, 3)) x -= 32;
  return std::string(b.begin(), b.end());
}
API_TEST(bases, 6000, 8, true) {
  Bytes d = t.r.special(t.r.len(120, 5));
  I D(d);
  auto dec = [&](const char *nm, const std::string &v, auto &&size, auto &&fn, auto &&test) {
    std::string s = text(t.r, v);
    I S(Bytes(s.begin(), s.end()));
    size_t cap = size(S.s(), s.size()), n = 0;
    O o(cap);
    if (t.res(nm, fn(o.p(), &n, S.s(), s.size()))) { t.num("n", n); o.to(t, "decoded", n); }
    t.num("test", test(S.s(), s.size()) != 0);
  };
#define FIX(nm, esz, enc, dsz, decf, tst) { O e(esz + 1); size_t n = 0; enc; t.num("n", n); e.to(t, nm, n); \
    dec(nm "_decode", std::string((char *)e.p(), std::min(n, e.size())), [&](const char *s, size_t l) { (void)s; (void)l; return dsz; }, [&](uint8_t *o, size_t *on, const char *s, size_t l) { return decf; }, [&](const char *s, size_t l) { return tst; }); }
  FIX("base16", base16_encode_size(d.size()), base16_encode((char *)e.p(), &n, D, d.size()), base16_decode_size(l), base16_decode(o, on, s, l), base16_test(s, l));
  FIX("base16le", base16le_encode_size(d.size()), base16le_encode((char *)e.p(), &n, D, d.size()), base16le_decode_size(l), base16le_decode(o, on, s, l), base16le_test(s, l));
  for (int pad = 0; pad < 2; pad++) {
    FIX("base32", base32_encode_size(d.size(), pad), base32_encode((char *)e.p(), &n, D, d.size(), pad), base32_decode_size(s, l), base32_decode(o, on, s, l, pad), base32_test(s, l, pad));
    FIX("base32hex", base32hex_encode_size(d.size(), pad), base32hex_encode((char *)e.p(), &n, D, d.size(), pad), base32hex_decode_size(s, l), base32hex_decode(o, on, s, l, pad), base32hex_test(s, l, pad));
  }
  FIX("base64", base64_encode_size(d.size()), base64_encode((char *)e.p(), &n, D, d.size()), base64_decode_size(s, l), base64_decode(o, on, s, l), base64_test(s, l));
  FIX("base64url", base64url_encode_size(d.size()), base64url_encode((char *)e.p(), &n, D, d.size()), base64url_decode_size(s, l), base64url_decode(o, on, s, l), base64url_test(s, l));
#undef FIX
    O e(BASE58_ENCODE_SIZE(d.size()) + 1);
  size_t n = 0;
  if (t.res("base58", base58_encode((char *)e.p(), &n, D, d.size()))) {
    t.num("n", n);
    e.to(t, "base58", n);
    std::string s = text(t.r, std::string((char *)e.p(), std::min(n, e.size())));
    I S(Bytes(s.begin(), s.end()));
    O o(BASE58_DECODE_SIZE(s.size()));
    size_t on = 0;
    if (t.res("base58_decode", base58_decode(o, &on, S.s(), s.size()))) { t.num("n", on); o.to(t, "decoded", on); }
    t.num("test", base58_test(S.s(), s.size()) != 0);
  }
}
static std::string hrp(Rng &r) {
  static const char *v[] = {"bc", "tb", "bcrt", "bitcoincash", "bchtest", "a", "1", "split", "ab1cd"};
  std::string s = v[r.below(9)];
  if (r.chance(1, 8)) s = std::string(r.below(90), 'q');
  if (r.chance(1, 10)) s += (char)(1 + r.below(255));
  if (r.chance(1, 20)) for (auto &x : s) x = toupper(x);
  return s;
}
API_TEST(addresses, 8000, 8, true) {
  uint32_t ck = t.r.chance(1, 2) ? 1 : t.r.chance(1, 4) ? (uint32_t)t.r.next() : 0x2bc830a3;
  std::string h = hrp(t.r);
  I H(z(h));
  Bytes hash = t.r.special(t.r.chance(1, 4) ? t.r.below(50) : t.r.chance(1, 2) ? 20 : 32);
  I D(hash);
  std::string addr = "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4";
  {
    O o(BECH32_MAX_ENCODE_SIZE + 1);
    if (t.res("bech32_encode", bech32_encode((char *)o.p(), H.s(), t.r.below(t.r.chance(1, 8) ? 40 : 17), D, hash.size(), ck))) { size_t l = strnlen((char *)o.p(), o.size()); o.to(t, "addr", l); addr.assign((char *)o.p(), l); }
    std::string s = text(t.r, addr);
    I S(z(s.c_str()));
    O hr(BECH32_MAX_HRP_SIZE + 1), dd(BECH32_MAX_DECODE_SIZE);
    unsigned ver = 0;
    size_t n = 0;
    if (t.res("bech32_decode", bech32_decode((char *)hr.p(), &ver, dd, &n, S.s(), ck))) { t.num("ver", ver); dd.to(t, "hash", n); hr.to(t, "hrp", strnlen((char *)hr.p(), hr.size())); }
    t.num("test", bech32_test(S.s(), ck) != 0);
    t.num("is", bech32_is(S.s(), ck) != 0);
    O raw(BECH32_MAX_DESERIALIZE_SIZE), hr2(BECH32_MAX_HRP_SIZE + 1);
    if (t.res("bech32_deserialize", bech32_deserialize((char *)hr2.p(), raw, &n, S.s(), ck))) raw.to(t, "raw", n);
    Bytes five = t.r.bytes(t.r.below(90));
    if (t.r.chance(9, 10)) for (auto &x : five) x &= 31;
    I F(five);
    O ser(BECH32_MAX_SERIALIZE_SIZE + 1);
    if (t.res("bech32_serialize", bech32_serialize((char *)ser.p(), H.s(), F, five.size(), ck))) ser.to(t, "ser", strnlen((char *)ser.p(), ser.size()));
  }
  {
    std::string pre = h;
    static const size_t cs[] = {20, 24, 28, 32, 40, 48, 56, 64};
    Bytes ch = t.r.special(t.r.chance(1, 8) ? t.r.below(70) : cs[t.r.below(8)]);
    I CH(ch);
    O o(CASH32_MAX_ENCODE_SIZE + 1);
    std::string ca = "bitcoincash:qpm2qsznhks23z7629mms6s4cwef74vcwvy22gdx6a";
    if (t.res("cash32_encode", cash32_encode((char *)o.p(), H.s(), t.r.below(t.r.chance(1, 8) ? 20 : 16), CH, ch.size()))) { size_t l = strnlen((char *)o.p(), o.size()); o.to(t, "addr", l); ca.assign((char *)o.p(), l); }
    std::string s = text(t.r, ca);
    if (t.r.chance(1, 6) && s.find(':') != std::string::npos) s = s.substr(s.find(':') + 1);
    I S(z(s.c_str()));
    unsigned ty = 0;
    size_t n = 0;
    O dd(CASH32_MAX_DECODE_SIZE);
    if (t.res("cash32_decode", cash32_decode(&ty, dd, &n, S.s(), H.s()))) { t.num("type", ty); dd.to(t, "hash", n); }
    t.num("test", cash32_test(S.s(), H.s()) != 0);
    t.num("is", cash32_is(S.s(), H.s()) != 0);
    O raw(CASH32_MAX_DESERIALIZE_SIZE), pr(CASH32_MAX_PREFIX_SIZE + 1);
    if (t.res("cash32_deserialize", cash32_deserialize((char *)pr.p(), raw, &n, S.s(), H.s()))) { raw.to(t, "raw", n); pr.to(t, "prefix", strnlen((char *)pr.p(), pr.size())); }
    Bytes five = t.r.bytes(t.r.below(120));
    if (t.r.chance(9, 10)) for (auto &x : five) x &= 31;
    I F(five);
    O ser(CASH32_MAX_SERIALIZE_SIZE + 1);
    if (t.res("cash32_serialize", cash32_serialize((char *)ser.p(), H.s(), F, five.size()))) ser.to(t, "ser", strnlen((char *)ser.p(), ser.size()));
  }
  {
    size_t sb = t.r.chance(1, 2) ? 5 : 8, db = sb == 5 ? 8 : 5;
    Bytes v = t.r.bytes(t.r.below(60));
    if (sb == 5 && t.r.chance(9, 10)) for (auto &x : v) x &= 31;
    I V(v);
    size_t cap = (v.size() * sb + db - 1) / db, n = 0;
    O o(cap), o2(cap);
    int pad = t.r.below(2);
    if (t.res("convert", bech32_convert_bits(o, &n, db, V, v.size(), sb, pad))) { t.num("n", n); o.to(t, "bits", n); }
    if (t.res("convert2", cash32_convert_bits(o2, &n, db, V, v.size(), sb, pad))) { t.num("n", n); o2.to(t, "bits", n); }
  }
}
