// RSA and DSA part of the workload
#include "api.hpp"
#include "api_keys.h"
#include <torsion/dsa.h>
#include <torsion/rsa.h>
using namespace api;

static const Bytes &rsa_fixed(unsigned i) { static const std::vector<Bytes> v = [] { std::vector<Bytes> x; for (auto s : rsa_hex) x.push_back(unhex(s)); return x; }(); return v[i % v.size()]; }
static const Bytes &dsa_fixed(unsigned i) { static const std::vector<Bytes> v = [] { std::vector<Bytes> x; for (auto s : dsa_hex) x.push_back(unhex(s)); return x; }(); return v[i % v.size()]; }
// small keys most of the time
static Bytes rsa_priv(T &t) { return rsa_fixed(t.r.chance(1, 12) ? t.r.below(10) : t.r.below(5)); }
static Bytes rsa_pub(const Bytes &k) { Buf o(RSA_MAX_PUB_SIZE); size_t n = 0; if (!rsa_pubkey_create(o, &n, k.data(), k.size())) return Bytes(); return o.get(n); }
static Bytes dsa_pub(const Bytes &k) { Buf o(DSA_MAX_PUB_SIZE); size_t n = 0; if (!dsa_pubkey_create(o, &n, k.data(), k.size())) return Bytes(); return o.get(n); }
// mutated keys keep big fields small: a hostile key may cost time, not more than that
static const hash_id_t hs[] = {HASH_NONE, HASH_MD5, HASH_MD5SHA1, HASH_SHA1, HASH_SHA224, HASH_SHA256, HASH_RIPEMD160, HASH_SHA384, HASH_SHA512, HASH_BLAKE2B_256, HASH_KECCAK256, HASH_SHA3_256, HASH_SHAKE128, HASH_WHIRLPOOL, HASH_GOST94, HASH_HASH160};
static hash_id_t hsel(T &t) { return t.r.chance(1, 20) ? (hash_id_t)(50 + t.r.below(9)) : hs[t.r.below(16)]; }
static size_t hlen(T &t, hash_id_t h) { size_t n = hash_output_size(h); return t.r.chance(1, 8) ? t.r.below(70) : h == HASH_NONE ? t.r.below(40) : n; }
#define CL(cap, fn, ...) ([&] { O o(cap); size_t n = 0; if (t.res(#fn, fn(o, &n, __VA_ARGS__) != 0)) o.to(t, #fn, n); }())

API_TEST(rsa_keys, 400, 6, true) {
  Bytes kb = rsa_priv(t), pb = rsa_pub(kb);
  I k(mostly(t.r, kb, true)), p(mostly(t.r, pb, true)), en(t.r.special(32));
  t.num("bits", rsa_privkey_bits(k, k.size()));
  t.res("verify", rsa_privkey_verify(k, k.size()) != 0);
  CL(RSA_MAX_PUB_SIZE, rsa_pubkey_create, k, k.size());
  t.num("pbits", rsa_pubkey_bits(p, p.size()));
  t.res("pverify", rsa_pubkey_verify(p, p.size()) != 0);
  CL(RSA_MAX_PRIV_SIZE, rsa_privkey_export, k, k.size());
  CL(RSA_MAX_PUB_SIZE, rsa_pubkey_export, p, p.size());
  { O o(RSA_MAX_PRIV_SIZE); size_t n = 0; if (rsa_privkey_export(o, &n, kb.data(), kb.size())) { I d(mostly(t.r, o.get(n), true)); CL(RSA_MAX_PRIV_SIZE, rsa_privkey_import, d, d.size(), en); } }
  { O o(RSA_MAX_PUB_SIZE); size_t n = 0; if (rsa_pubkey_export(o, &n, pb.data(), pb.size())) { I d(mostly(t.r, o.get(n), true)); CL(RSA_MAX_PUB_SIZE, rsa_pubkey_import, d, d.size()); } }
}
API_TEST(rsa_signing, 400, 6, true) {
  Bytes kb = rsa_priv(t), pb = rsa_pub(kb);
  I k(t.r.chance(1, 8) ? mutate(t.r, kb, true) : kb), p(t.r.chance(1, 8) ? mutate(t.r, pb, true) : pb), en(t.r.special(32));
  hash_id_t h = hsel(t);
  I m(t.r.special(hlen(t, h)));
  size_t ks = (rsa_privkey_bits(k, k.size()) + 7) / 8;
  Bytes sig = t.r.special(ks);
  { O o(ks); size_t n = 0; if (t.res("sign", rsa_sign(o, &n, h, m, m.size(), k, k.size(), en))) { o.to(t, "sig", n); sig = o.get(std::min(n, ks)); } }
  { I s(mostly(t.r, sig, true)); t.res("verify", rsa_verify(h, m, m.size(), s, s.size(), p, p.size())); }
  size_t sl = t.r.chance(1, 3) ? (size_t)RSA_SALT_LENGTH_AUTO : t.r.chance(1, 2) ? (size_t)RSA_SALT_LENGTH_HASH : t.r.below(80);
  sig = t.r.special(ks);
  { O o(ks); size_t n = 0; if (t.res("sign_pss", rsa_sign_pss(o, &n, h, m, m.size(), k, k.size(), sl, en))) { o.to(t, "sig", n); sig = o.get(std::min(n, ks)); } }
  { I s(mostly(t.r, sig, true)); t.res("verify_pss", rsa_verify_pss(h, m, m.size(), s, s.size(), p, p.size(), t.r.chance(1, 4) ? t.r.below(80) : sl)); }
}
API_TEST(rsa_encryption, 400, 6, true) {
  Bytes kb = rsa_priv(t), pb = rsa_pub(kb);
  I k(t.r.chance(1, 8) ? mutate(t.r, kb, true) : kb), p(t.r.chance(1, 8) ? mutate(t.r, pb, true) : pb), en(t.r.special(32)), m(t.r.special(t.r.below(80))), lb(t.r.special(t.r.below(30)));
  size_t ks = (rsa_pubkey_bits(p, p.size()) + 7) / 8, kk = (rsa_privkey_bits(k, k.size()) + 7) / 8;
  hash_id_t h = hsel(t);
  Bytes ct = t.r.special(ks);
  { O o(ks); size_t n = 0; if (t.res("encrypt", rsa_encrypt(o, &n, m, m.size(), p, p.size(), en))) { o.to(t, "ct", n); ct = o.get(std::min(n, ks)); } }
  { I s(mostly(t.r, ct, true)); O o(kk); size_t n = 0; if (t.res("decrypt", rsa_decrypt(o, &n, s, s.size(), k, k.size(), en))) { t.num("n", n); o.to(t, "pt", n); } size_t kl = t.r.below(70); O q(kl); if (t.res("decrypt_key", rsa_decrypt_key(q, kl, s, s.size(), k, k.size(), en))) q.to(t, "key"); }
  ct = t.r.special(ks);
  { O o(ks); size_t n = 0; if (t.res("encrypt_oaep", rsa_encrypt_oaep(o, &n, h, m, m.size(), p, p.size(), lb, lb.size(), en))) { o.to(t, "ct", n); ct = o.get(std::min(n, ks)); } }
  { I s(mostly(t.r, ct, true)); O o(kk); size_t n = 0; if (t.res("decrypt_oaep", rsa_decrypt_oaep(o, &n, h, s, s.size(), k, k.size(), lb, lb.size(), en))) { t.num("n", n); o.to(t, "pt", n); } }
  unsigned bits = t.r.chance(1, 5) ? t.r.below(5000) : (unsigned)ks * 8 + t.r.below(20);
  { I s(ct); O o((bits + 7) / 8); size_t n = 0; if (t.res("veil", rsa_veil(o, &n, s, s.size(), bits, p, p.size(), en))) { t.num("n", n); Bytes v = o.get(std::min(n, o.size())); o.to(t, "veil-init", 0); I V(mostly(t.r, v, true)); O u(ks); bool same = Bytes(V.p(), V.p() + V.size()) == v; int r = rsa_unveil(u, &n, V, V.size(), bits, p, p.size()); if (same && t.res("unveil", r)) u.to(t, "unveiled", n); } }
}
API_TEST(rsa_generate, 3, 3, true) {
  I en(t.r.special(32));
  unsigned bits = t.r.chance(1, 3) ? t.r.below(512) : 512 + t.r.below(32);
  static const uint64_t exps[] = {3, 5, 65537, 4, 1, 0, 0x1ffffffffull, 0x200000001ull};
  uint64_t e = exps[t.r.below(8)];
  O o(RSA_MAX_PRIV_SIZE);
  size_t n = 0;
  // the key itself depends on the limb size, so only its validity is part of the transcript
  if (t.res("generate", rsa_privkey_generate(o, &n, bits, e, en) != 0)) { t.num("valid", rsa_privkey_verify(o, n) != 0); t.num("bits", rsa_privkey_bits(o, n)); }
}
API_TEST(dsa, 200, 6, true) {
  Bytes kb = dsa_fixed(t.r.chance(1, 10) ? 2 : t.r.below(2)), pb = dsa_pub(kb);
  I k(t.r.chance(1, 3) ? mutate(t.r, kb, true) : kb), p(t.r.chance(1, 3) ? mutate(t.r, pb, true) : pb), en(t.r.special(32)), m(t.r.special(t.r.below(70)));
  t.num("bits", dsa_privkey_bits(k, k.size()) * 10000 + dsa_privkey_qbits(k, k.size()));
  t.num("pbits", dsa_pubkey_bits(p, p.size()) * 10000 + dsa_pubkey_qbits(p, p.size()));
  t.res("verify_key", dsa_privkey_verify(k, k.size()));
  t.res("verify_pub", dsa_pubkey_verify(p, p.size()));
  CL(DSA_MAX_PUB_SIZE, dsa_pubkey_create, k, k.size());
  CL(DSA_MAX_PARAMS_SIZE, dsa_params_create, k, k.size());
  CL(DSA_MAX_PRIV_SIZE, dsa_privkey_export, k, k.size());
  CL(DSA_MAX_PUB_SIZE, dsa_pubkey_export, p, p.size());
  { O o(DSA_MAX_PRIV_SIZE); size_t n = 0; if (dsa_privkey_export(o, &n, kb.data(), kb.size())) { I d(mostly(t.r, o.get(n), true)); CL(DSA_MAX_PRIV_SIZE, dsa_privkey_import, d, d.size()); } }
  { O o(DSA_MAX_PUB_SIZE); size_t n = 0; if (dsa_pubkey_export(o, &n, pb.data(), pb.size())) { I d(mostly(t.r, o.get(n), true)); CL(DSA_MAX_PUB_SIZE, dsa_pubkey_import, d, d.size()); } }
  Buf pr(DSA_MAX_PARAMS_SIZE), pe(DSA_MAX_PARAMS_SIZE);
  size_t pn = 0, pen = 0;
  if (dsa_params_create(pr, &pn, kb.data(), kb.size()) && dsa_params_export(pe, &pen, pr, pn)) {
    I q(mostly(t.r, pr.get(pn), true)), d(mostly(t.r, pe.get(pen), true));
    t.num("params", dsa_params_bits(q, q.size()) * 10000 + dsa_params_qbits(q, q.size()));
    t.res("params_verify", dsa_params_verify(q, q.size()));
    CL(DSA_MAX_PARAMS_SIZE, dsa_params_export, q, q.size());
    CL(DSA_MAX_PARAMS_SIZE, dsa_params_import, d, d.size());
    O o(DSA_MAX_PRIV_SIZE);
    size_t n = 0;
    t.res("create", dsa_privkey_create(o, &n, q, q.size(), en));
  }
  Bytes sig = t.r.special(40);
  size_t qs = 20;
  { O o(DSA_MAX_SIG_SIZE); size_t n = 0; if (t.res("sign", dsa_sign(o, &n, m, m.size(), k, k.size(), en))) { o.to(t, "sig", n); sig = o.get(std::min(n, o.size())); qs = n / 2; } }
  { I s(mostly(t.r, sig, true)); bool same = Bytes(s.p(), s.p() + s.size()) == sig; int r = dsa_verify(m, m.size(), s, s.size(), p, p.size()); if (same) t.res("verify", r); O d(DSA_MAX_DER_SIZE); size_t n = 0; size_t q = t.r.chance(1, 5) ? t.r.below(70) : qs;
    if (dsa_sig_export(d, &n, s, s.size(), q)) { I D(mostly(t.r, d.get(std::min(n, d.size())), true)); O o(DSA_MAX_SIG_SIZE); size_t on = 0; dsa_sig_import(o, &on, D, D.size(), q); } }
  CL(DSA_MAX_SIZE, dsa_derive, p, p.size(), k, k.size());
}
