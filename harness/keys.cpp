// C22: RSA and DSA keys: DER acceptance, validation, recovery, generation
#include "pk_util.hpp"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/rsa.h>
#include <openssl/dsa.h>
using namespace pk;
using ref::cat;

static Bytes mutate_der(Case &c, Bytes d, bool &touched) {
  touched = true;
  size_t h = d[1] & 0x80 ? 2 + (d[1] & 0x7f) : 2;
  switch (c.rng.below(16)) {
    case 0: d[c.rng.below(std::min<size_t>(d.size(), 12))] ^= 1 << c.rng.below(8); break;
    case 1: d[c.rng.below(d.size())] ^= 1 << c.rng.below(8); break;
    case 2: d.push_back(0); break;
    case 3: d.pop_back(); break;
    case 4: d.resize(c.rng.below(d.size())); break;
    case 5: { Bytes body(d.begin() + h, d.end()); size_t n = body.size(); d = cat({{0x30, 0x83, 0, (uint8_t)(n >> 8), (uint8_t)n}, body}); break; }   // leading zero in a long length
    case 6: { Bytes body(d.begin() + h, d.end()); d = cat({{0x30, 0x80}, body, {0, 0}}); break; }                                               // indefinite length
    case 7: { // a non-minimal integer somewhere
      Bytes body(d.begin() + h, d.end());
      size_t at = 0, steps = c.rng.below(6);
      while (steps-- && at + 2 < body.size()) { size_t l = body[at + 1], hl = 2; if (l & 0x80) { size_t nb = l & 0x7f; l = 0; for (size_t i = 0; i < nb; i++) l = l << 8 | body[at + 2 + i]; hl += nb; } if (at + hl + l + 2 >= body.size()) break; at += hl + l; }
      size_t l = body[at + 1], hl = 2;
      if (l & 0x80) { size_t nb = l & 0x7f; l = 0; for (size_t i = 0; i < nb; i++) l = l << 8 | body[at + 2 + i]; hl += nb; }
      Bytes v(body.begin() + at + hl, body.begin() + at + hl + l);
      Bytes ni = c.rng.chance(1, 2) ? cat({{0x02}, der_len(l + 1), {0}, v}) : cat({{0x02, 0x82, (uint8_t)(l >> 8), (uint8_t)l}, v});
      Bytes nb = cat({Bytes(body.begin(), body.begin() + at), ni, Bytes(body.begin() + at + hl + l, body.end())});
      d = der_seq(nb);
      break;
    }
    case 8: { Bytes body(d.begin() + h, d.end()); body.push_back(5); body.push_back(0); d = der_seq(body); break; }    // extra element inside
    case 9: d[0] = c.rng.chance(1, 2) ? 0x31 : 0x70; break;
    case 10: d.clear(); break;
    default: touched = false; break;
  }
  return d;
}
static std::string dump(const Zs &v) { std::string s; for (auto &z : v) s += z.hex() + " "; return s; }
static Rsa from(const Zs &v) { Rsa k; k.n = v[0]; k.e = v[1]; k.d = v[2]; k.p = v[3]; k.q = v[4]; k.dp = v[5]; k.dq = v[6]; k.qi = v[7]; return k; }

static void judge_rsa_priv(const Bytes &d) {
  Zs v;
  bool parsed = undo(d, 8, true, v);
  Rsa k;
  if (parsed) k = from(v);
  bool ok = parsed && rsa_ok(k);
  In i(d);
  eqi("rsa-privkey-verify", rsa_privkey_verify(i, d.size()), ok, "der=%s", hex(d).c_str());
  eqi("rsa-privkey-bits", rsa_privkey_bits(i, d.size()), ok ? k.n.bits() : 0, "der=%s", hex(d).c_str());
  Bytes wp = ok ? k.pub() : Bytes(), wd = ok ? dumb(k.all()) : Bytes();
  Buf pub(ok ? wp.size() : RSA_MAX_PUB_SIZE), du(ok ? wd.size() : RSA_MAX_PRIV_SIZE);
  size_t n = 0;
  int r = rsa_pubkey_create(pub, &n, i, d.size());
  eqi("rsa-pubkey-create-result", r, ok, "der=%s", hex(d).c_str());
  if (r && ok) { eqi("rsa-pubkey-create-length", n, wp.size(), "der=%s", hex(d).c_str()); eq("rsa-pubkey-create", pub.get(), wp, "der=%s", hex(d).c_str()); }
  r = rsa_privkey_export(du, &n, i, d.size());
  eqi("rsa-privkey-export-result", r, ok, "der=%s", hex(d).c_str());
  if (r && ok) { eqi("rsa-privkey-export-length", n, wd.size(), "der=%s", hex(d).c_str()); eq("rsa-privkey-export", du.get(), wd, "der=%s", hex(d).c_str()); }
  ev(ok ? "rsa_priv_accept" : parsed ? "rsa_priv_refused" : "rsa_priv_malformed");
  eval(hb(d));
}
VH_TEST(rsa_der, 3000, 8) {
  const Rsa &k = rsa_key(c);
  bool t;
  judge_rsa_priv(mutate_der(c, k.priv(), t));
  // version other than zero
  if (c.rng.chance(1, 6)) { Bytes d = k.priv(); size_t h = d[1] & 0x80 ? 2 + (d[1] & 0x7f) : 2; d[h + 2] = 1 + c.rng.below(255); judge_rsa_priv(d); }
  if (c.rng.chance(1, 6)) { Zs v = k.all(); v.resize(c.rng.below(8)); judge_rsa_priv(der(v, true)); }
}
VH_TEST(rsa_fields, 5000, 8) {
  Rsa k = rsa_key(c);
  Zs v = k.all();
  int f = c.rng.below(8), how = c.rng.below(14);
  Z p1 = k.p - Z(1), q1 = k.q - Z(1);
  switch (how) {
    case 0: v[f] = v[f] + Z(1); break;
    case 1: v[f] = v[f] + Z(2); break;
    case 2: v[f] = v[f] > Z(2) ? v[f] - Z(2) : v[f]; break;
    case 3: v[f] = Z((long)c.rng.below(4)); break;
    case 4: v[f] = v[f] + big::pow2(c.rng.below(v[f].bits() + 20)); break;
    case 5: v[2] = k.d + k.lam(); break;                     // another valid private exponent, if below the totient
    case 6: v[5] = k.dp + p1; break;
    case 7: v[6] = k.dq + q1; break;
    case 8: v[7] = k.qi + k.p; break;
    case 9: std::swap(v[3], v[4]); if (c.rng.chance(1, 2)) std::swap(v[5], v[6]); if (c.rng.chance(1, 2)) v[7] = big::inv(k.p, k.q); break;
    case 10: v[1] = k.e + k.lam(); break;
    case 11: { int g = c.rng.below(8); std::swap(v[f], v[g]); break; }
    case 12: v[2] = k.d + p1 * q1; break;
    default: break;
  }
  Zs before = k.all();
  judge_rsa_priv(der(v, true));
  if (v != before) ev("rsa_altered"); else ev("rsa_unaltered");
}
// consistent keys at the limits of the allowed ranges
VH_TEST(rsa_limits, 600, 6) {
  Rsa k;
  k.e = exps()[c.rng.below(5)];
  if (c.rng.chance(1, 4)) k.e = Z((long)(0x200000001l + 2 * c.rng.below(4)));
  switch (c.rng.below(6)) {
    case 0: k.p = prime_for(c.rng, 509 + c.rng.below(3), k.e); do k.q = Z((long)(3 + 2 * c.rng.below(10))); while (!big::prime(k.q, 10) || big::gcd(k.q - Z(1), k.e) != Z(1)); break;
    case 1: k.p = prime_for(c.rng, 256, k.e); k.q = prime_for(c.rng, 255, k.e); break;
    case 2: k.p = k.q = prime_for(c.rng, 256, k.e); break;
    case 3: k.p = prime_for(c.rng, 200, k.e) * prime_for(c.rng, 60, k.e); k.q = prime_for(c.rng, 256, k.e); break;
    case 4: k.p = Z(2); k.q = prime_for(c.rng, 513, k.e); break;
    default: k.p = prime_for(c.rng, 300, k.e); k.q = prime_for(c.rng, 220, k.e); break;
  }
  Z lam = k.lam();
  if (!big::invertible(k.e, lam)) return;
  k.n = k.p * k.q; k.d = big::inv(k.e, lam); k.dp = k.d % (k.p - Z(1)); k.dq = k.d % (k.q - Z(1)); k.qi = big::invertible(k.q, k.p) ? big::inv(k.q, k.p) : Z(1);
  judge_rsa_priv(k.priv());
  ev("rsa_limit_key");
}
VH_TEST(rsa_pub, 3000, 8) {
  const Rsa &k = rsa_key(c);
  Z n = k.n, e = k.e;
  switch (c.rng.below(10)) {
    case 0: n = n + Z(1); break;
    case 1: n = rnd_exact(c.rng, 505 + c.rng.below(12)); if (c.rng.chance(3, 4) && !n.odd()) n = n + Z(1); break;
    case 2: e = Z((long)c.rng.below(8)); break;
    case 3: e = big::pow2(30 + c.rng.below(6)) + Z((long)c.rng.below(3)) - Z(1); break;
    case 4: if (c.rng.chance(1, 8)) { n = rnd_exact(c.rng, 16383 + c.rng.below(3)); if (!n.odd()) n = n + Z(1); ev("huge_modulus"); } break;
    default: break;
  }
  bool t;
  Bytes d = mutate_der(c, der({n, e}, false), t);
  Zs v;
  bool parsed = undo(d, 2, false, v), ok = parsed && rsa_pub_ok(v[0], v[1]);
  In i(d);
  eqi("rsa-pubkey-verify", rsa_pubkey_verify(i, d.size()), ok, "der=%s", hex(d).c_str());
  eqi("rsa-pubkey-bits", rsa_pubkey_bits(i, d.size()), ok ? v[0].bits() : 0, "der=%s", hex(d).c_str());
  Bytes wd = ok ? dumb(v) : Bytes();
  Buf du(ok ? wd.size() : RSA_MAX_PUB_SIZE);
  size_t m = 0;
  int r = rsa_pubkey_export(du, &m, i, d.size());
  eqi("rsa-pubkey-export-result", r, ok, "der=%s", hex(d).c_str());
  if (r && ok) {
    eqi("rsa-pubkey-export-length", m, wd.size(), "der=%s", hex(d).c_str());
    eq("rsa-pubkey-export", du.get(), wd, "der=%s", hex(d).c_str());
  }
  ev(ok ? "rsa_pub_accept" : "rsa_pub_refused");
  // the plain form: leading zeros and trailing bytes are allowed, missing bytes are not
  Bytes z1 = cat({Bytes(c.rng.below(3), 0), big::to_be_min(n)}), z2 = cat({Bytes(c.rng.below(3), 0), big::to_be_min(e)});
  Bytes raw = cat({{(uint8_t)(z1.size() >> 8), (uint8_t)z1.size()}, z1, {(uint8_t)(z2.size() >> 8), (uint8_t)z2.size()}, z2});
  bool whole = true;
  if (c.rng.chance(1, 4)) { raw.resize(c.rng.below(raw.size())); whole = false; }
  ok = whole && rsa_pub_ok(n, e);
  Bytes want = ok ? der({n, e}, false) : Bytes();
  Buf o(ok ? want.size() : RSA_MAX_PUB_SIZE);
  In ri(raw);
  r = rsa_pubkey_import(o, &m, ri, raw.size());
  eqi("rsa-pubkey-import-result", r, ok, "raw=%s", hex(raw).c_str());
  if (r && ok) { eqi("rsa-pubkey-import-length", m, want.size(), "raw=%s", hex(raw).c_str()); eq("rsa-pubkey-import", o.get(), want, "raw=%s", hex(raw).c_str()); ev("rsa_pub_imported"); }
  eval(hb(d, hb(raw)));
}
// private keys with parts missing are completed; what comes out is the key that was meant
VH_TEST(rsa_recover, 900, 8) {
  Rsa k;
  int mod4 = 0;
  if (c.rng.chance(1, 3)) {
    static std::map<uint64_t, Rsa> cache;
    uint64_t id = c.rng.below(24);
    auto it = cache.find(id);
    if (it == cache.end()) { Rng r(mix64(id + 99)); it = cache.emplace(id, make_rsa(r, 512 + 8 * (id % 3) + id % 2, exps()[id % 6], false, id % 3 == 2 ? 1 : 3)).first; }
    k = it->second;
    mod4 = id % 3 == 2 ? 1 : 3;
  } else k = rsa_key(c);
  Zs v = k.all();
  Z zero(0);
  int how = c.rng.below(6);
  const char *name = "whole";
  switch (how) {
    case 0: break;
    case 1: v = {zero, k.e, zero, k.p, k.q, zero, zero, zero}; name = "pqe"; break;
    case 2: v = {zero, zero, k.d, k.p, k.q, zero, zero, zero}; name = "pqd"; break;
    case 3: v = {k.n, k.e, k.d, k.p, k.q, zero, zero, zero}; name = "no-crt"; break;
    default: v = {k.n, k.e, k.d, zero, zero, zero, zero, zero}; name = "ned"; break;
  }
  Bytes raw = dumb(v), en = c.rng.bytes(32);
  In ri(raw), e(en);
  Buf out(RSA_MAX_PRIV_SIZE);
  size_t m = 0;
  int r = rsa_privkey_import(out, &m, ri, raw.size(), how == 5 ? nullptr : e.p());
  eqi(fmt("rsa-recover-result:%s", name).c_str(), r, 1, "p=%s q=%s e=%s d=%s", k.p.hex().c_str(), k.q.hex().c_str(), k.e.hex().c_str(), k.d.hex().c_str());
  if (r) {
    Bytes d = out.get(std::min<size_t>(m, RSA_MAX_PRIV_SIZE));
    Rsa w = k;
    if (how) { if (w.p < w.q) std::swap(w.p, w.q); w.derive(big::inv(k.e, k.lam())); }
    eq(fmt("rsa-recover:%s", name).c_str(), d, w.priv(), "p=%s q=%s e=%s", k.p.hex().c_str(), k.q.hex().c_str(), k.e.hex().c_str());
    ev("recovered");
    if (mod4 == 3 && how >= 4) ev("recovered_blum");
    if (how >= 4) ev("recovered_ned");
  }
  eval(hb(raw, how));
}
// inconsistent parts: refused, or a consistent key comes out
VH_TEST(rsa_import_bad, 1200, 8) {
  Rsa k = rsa_key(c);
  Zs v = k.all();
  int f = c.rng.below(8);
  switch (c.rng.below(6)) {
    case 0: v[f] = v[f] + Z(2); break;
    case 1: v[f] = Z((long)c.rng.below(5)); break;
    case 2: v = {k.n, k.e, k.d + Z((long)(1 + c.rng.below(3))), Z(0), Z(0), Z(0), Z(0), Z(0)}; break;
    case 3: v = {k.n + Z(2), k.e, k.d, Z(0), Z(0), Z(0), Z(0), Z(0)}; break;
    case 4: for (auto &z : v) if (c.rng.chance(1, 2)) z = Z(0); break;
    default: v[3] = v[3] + Z((long)(2 * c.rng.below(3))); v[0] = Z(0); break;
  }
  Bytes raw = dumb(v), en = c.rng.bytes(32);
  if (c.rng.chance(1, 6)) raw.resize(c.rng.below(raw.size()));
  In ri(raw), e(en);
  Buf out(RSA_MAX_PRIV_SIZE);
  size_t m = 0;
  int r = rsa_privkey_import(out, &m, ri, raw.size(), e);
  if (r) {
    Zs o;
    Bytes d = out.get(std::min<size_t>(m, RSA_MAX_PRIV_SIZE));
    if (!undo(d, 8, true, o) || !rsa_ok(from(o))) viol("rsa-import-inconsistent", "in %s out %s", dump(v).c_str(), hex(d).c_str());
    ev("bad_import_repaired");
  } else ev("bad_import_refused");
  eval(hb(raw));
}
static void rsa_generate(Case &c, unsigned bits, uint64_t e) {
  Bytes en = c.rng.special(32);
  In ei(en);
  Buf out(RSA_MAX_PRIV_SIZE), o2(RSA_MAX_PRIV_SIZE);
  size_t n = 0, n2 = 0;
  bool ok = bits >= 512 && bits <= 16384 && e >= 3 && e <= 0x1ffffffffull && (e & 1);
  int r = rsa_privkey_generate(out, &n, bits, e, ei);
  eqi("rsa-generate-result", r, ok, "bits %u e %llu", bits, (unsigned long long)e);
  eval(hb(en, bits + e));
  if (!r || !ok) { ev("generate_refused"); return; }
  Bytes d = out.get(std::min<size_t>(n, RSA_MAX_PRIV_SIZE));
  Zs v;
  if (!undo(d, 8, true, v)) { viol("rsa-generate-der", "bits %u: %s", bits, hex(d).c_str()); return; }
  Rsa k = from(v);
  if (!rsa_ok(k) || k.n.bits() != bits || k.e != big::from_be(big::to_be(Z((long)e), 8)) || k.p <= k.q || !big::prime(k.p, 20) || !big::prime(k.q, 20) || k.d >= k.lam() || k.d.bits() <= (bits + 1) / 2
      || k.p.bits() != bits / 2 + (bits & 1) || (k.p - k.q).bits() <= bits / 2 - 99)
    viol("rsa-generate", "bits %u e %llu key %s", bits, (unsigned long long)e, hex(d).c_str());
  const unsigned char *dp = d.data();
  RSA *ossl = d2i_RSAPrivateKey(nullptr, &dp, d.size());
  if (!ossl || RSA_check_key(ossl) != 1) viol("rsa-generate-openssl", "bits %u e %llu key %s", bits, (unsigned long long)e, hex(d).c_str());
  RSA_free(ossl);
  ev("rsa_generated");
  if (c.rng.chance(1, 4)) {
    if (!rsa_privkey_generate(o2, &n2, bits, e, ei) || o2.get(n2) != d) viol("rsa-generate-repeat", "the same entropy gave two keys");
    Bytes en2 = en;
    en2[c.rng.below(32)] ^= 1 << c.rng.below(8);
    In e2(en2);
    Zs v2;
    if (!rsa_privkey_generate(o2, &n2, bits, e, e2) || !undo(o2.get(n2), 8, true, v2) || v2[3] == k.p || v2[4] == k.q || v2[3] == k.q || v2[4] == k.p) viol("rsa-generate-distinct", "two entropy values share a prime");
    ev("generate_pairs");
  }
}
VH_TEST(rsa_generate, 96, 12) {
  static const uint64_t es[] = {3, 5, 17, 65537, 65537, 0xffffffffull, 0x100000001ull, 0x1ffffffffull, 0x10001, 257};
  unsigned bits = 512 + c.rng.below(c.rng.chance(1, 4) ? 200 : 20);
  if (c.scale > 1 && c.rng.chance(1, 8)) bits = 1024 + c.rng.below(600);
  rsa_generate(c, bits, es[c.rng.below(10)]);
}
VH_TEST(rsa_generate_refuse, 300, 4) {
  uint64_t e = 65537;
  unsigned bits = 512;
  switch (c.rng.below(6)) {
    case 0: bits = c.rng.below(512); break;
    case 1: bits = 16385 + c.rng.below(100000); break;
    case 2: e = 2 * c.rng.below(1000000); break;
    case 3: e = c.rng.below(3); break;
    case 4: e = 0x200000001ull + 2 * c.rng.below(1ull << 40); break;
    default: bits = c.rng.chance(1, 2) ? 0xffffffffu - c.rng.below(3) : 0x80000000u + c.rng.below(3); break;
  }
  rsa_generate(c, bits, e);
}

// --- DSA ---------------------------------------------------------------------------------------
static bool group_sane(const Z &p, const Z &q, const Z &g) {
  size_t b = q.bits();
  return p.bits() >= 512 && p.bits() <= 10000 && (b == 160 || b == 224 || b == 256) && p.odd() && q.odd() && g >= Z(2) && g < p - Z(1);
}
static bool pub_sane(const Dsa &k) { return group_sane(k.p, k.q, k.g) && k.y >= Z(2) && k.y < k.p - Z(1); }
static bool priv_sane(const Dsa &k) { return pub_sane(k) && !k.x.zero() && k.x < k.q; }
static bool one(const Z &b, const Dsa &k) { return big::powm(b, k.q, k.p) == Z(1); }
typedef int (*Conv)(unsigned char *, size_t *, const unsigned char *, size_t);
static void convert(const char *name, Conv f, const Bytes &in, bool ok, const Bytes &want, size_t max) {
  Buf o(ok ? want.size() : max);
  In i(in);
  size_t n = 0;
  int r = f(o, &n, i, in.size());
  eqi(fmt("%s-result", name).c_str(), r, ok, "in=%s", hex(in).c_str());
  if (r && ok) { eqi(fmt("%s-length", name).c_str(), n, want.size(), "in=%s", hex(in).c_str()); eq(name, o.get(), want, "in=%s", hex(in).c_str()); ev("converted"); }
  else ev("conversion_refused");
}
VH_TEST(dsa_keys, 5000, 8) {
  Dsa k = dsa_key(c);
  switch (c.rng.below(22)) {
    case 0: k.x = k.x + Z(1); break;
    case 1: k.x = Z(0); break;
    case 2: k.x = k.q + Z((long)c.rng.below(2)); break;
    case 3: k.y = k.p - k.y; break;
    case 4: k.y = k.y + k.p; break;
    case 5: k.y = Z((long)c.rng.below(3)); break;
    case 6: k.y = k.p - Z((long)c.rng.below(3)); break;
    case 7: k.g = Z((long)c.rng.below(3)); break;
    case 8: k.g = k.p - Z((long)c.rng.below(3)); break;
    case 9: k.g = k.g + Z(1); break;
    case 10: k.g = big::powm(k.g, Z(2), k.p); break;
    case 11: k.q = k.q + Z(2); break;
    case 12: k.q = k.q + Z(1); break;
    case 13: k.p = k.p + Z(2); break;
    case 14: k.p = k.p + Z(1); break;
    case 15: k.q = rnd_exact(c.rng, c.rng.chance(1, 2) ? 159 + c.rng.below(3) : 160 + c.rng.below(100)); break;
    case 16: k.p = rnd_exact(c.rng, 508 + c.rng.below(8)); break;
    case 17: k.g = k.g + k.p; break;
    case 18: k.y = k.y + Z(1); break;
    default: break;
  }
  bool t;
  // parameters
  Bytes d = mutate_der(c, k.params(), t);
  Zs v;
  bool parsed = undo(d, 3, false, v);
  Dsa w;
  if (parsed) { w.p = v[0]; w.q = v[1]; w.g = v[2]; }
  bool ok = parsed && group_sane(w.p, w.q, w.g);
  {
    In i(d);
    eqi("dsa-params-bits", dsa_params_bits(i, d.size()), ok ? w.p.bits() : 0, "der=%s", hex(d).c_str());
    eqi("dsa-params-qbits", dsa_params_qbits(i, d.size()), ok ? w.q.bits() : 0, "der=%s", hex(d).c_str());
    bool good = ok && one(w.g, w);
    eqi("dsa-params-verify", dsa_params_verify(i, d.size()), good, "der=%s", hex(d).c_str());
    ev(good ? "params_accept" : "params_refused");
  }
  convert("dsa-params-export", dsa_params_export, d, ok, ok ? dumb(v) : Bytes(), DSA_MAX_PARAMS_SIZE);
  ok = group_sane(k.p, k.q, k.g);
  convert("dsa-params-import", dsa_params_import, dumb({k.p, k.q, k.g}), ok, k.params(), DSA_MAX_PARAMS_SIZE);
  // public keys
  d = mutate_der(c, k.pub(), t);
  parsed = undo(d, 4, false, v);
  if (parsed) { w.y = v[0]; w.p = v[1]; w.q = v[2]; w.g = v[3]; }
  ok = parsed && pub_sane(w);
  {
    In i(d);
    eqi("dsa-pubkey-bits", dsa_pubkey_bits(i, d.size()), ok ? w.p.bits() : 0, "der=%s", hex(d).c_str());
    eqi("dsa-pubkey-qbits", dsa_pubkey_qbits(i, d.size()), ok ? w.q.bits() : 0, "der=%s", hex(d).c_str());
    bool good = ok && one(w.g, w) && one(w.y, w);
    eqi("dsa-pubkey-verify", dsa_pubkey_verify(i, d.size()), good, "der=%s", hex(d).c_str());
    ev(good ? "pub_accept" : "pub_refused");
  }
  convert("dsa-pubkey-export", dsa_pubkey_export, d, ok, ok ? dumb({w.p, w.q, w.g, w.y}) : Bytes(), DSA_MAX_PUB_SIZE);
  bool g_ok = parsed && group_sane(w.p, w.q, w.g);
  convert("dsa-params-create-pub", dsa_params_create, d, g_ok, g_ok ? w.params() : Bytes(), DSA_MAX_PARAMS_SIZE);
  ok = pub_sane(k);
  convert("dsa-pubkey-import", dsa_pubkey_import, dumb({k.p, k.q, k.g, k.y}), ok, k.pub(), DSA_MAX_PUB_SIZE);
  // private keys
  d = mutate_der(c, k.priv(), t);
  parsed = undo(d, 5, true, v);
  if (parsed) { w.p = v[0]; w.q = v[1]; w.g = v[2]; w.y = v[3]; w.x = v[4]; }
  ok = parsed && priv_sane(w);
  {
    In i(d);
    eqi("dsa-privkey-bits", dsa_privkey_bits(i, d.size()), ok ? w.p.bits() : 0, "der=%s", hex(d).c_str());
    eqi("dsa-privkey-qbits", dsa_privkey_qbits(i, d.size()), ok ? w.q.bits() : 0, "der=%s", hex(d).c_str());
    bool good = ok && one(w.g, w) && one(w.y, w) && big::powm(w.g, w.x, w.p) == w.y;
    eqi("dsa-privkey-verify", dsa_privkey_verify(i, d.size()), good, "der=%s", hex(d).c_str());
    ev(good ? "priv_accept" : "priv_refused");
  }
  convert("dsa-privkey-export", dsa_privkey_export, d, ok, ok ? dumb({w.p, w.q, w.g, w.y, w.x}) : Bytes(), DSA_MAX_PRIV_SIZE);
  convert("dsa-pubkey-create", dsa_pubkey_create, d, ok, ok ? w.pub() : Bytes(), DSA_MAX_PUB_SIZE);
  if (parsed) { g_ok = group_sane(w.p, w.q, w.g); convert("dsa-params-create-priv", dsa_params_create, d, g_ok, g_ok ? w.params() : Bytes(), DSA_MAX_PARAMS_SIZE); }
  eval(hb(d));
  Bytes raw = dumb({k.p, k.q, k.g, k.y, k.x});
  ok = k.y.zero() ? group_sane(k.p, k.q, k.g) && !k.x.zero() && k.x < k.q : priv_sane(k);
  Dsa f = k;
  if (k.y.zero() && ok) f.y = big::powm(k.g, k.x, k.p);
  convert("dsa-privkey-import", dsa_privkey_import, raw, ok, ok ? f.priv() : Bytes(), DSA_MAX_PRIV_SIZE);
  // the public value is recovered when it is missing
  ok = group_sane(k.p, k.q, k.g) && !k.x.zero() && k.x < k.q;
  if (ok) { f = k; f.y = big::powm(k.g, k.x, k.p); ev("dsa_recovered"); }
  convert("dsa-privkey-recover", dsa_privkey_import, dumb({k.p, k.q, k.g, Z(0), k.x}), ok, ok ? f.priv() : Bytes(), DSA_MAX_PRIV_SIZE);
  // truncated plain forms
  Bytes cut = raw;
  cut.resize(c.rng.below(cut.size()));
  convert("dsa-privkey-import-cut", dsa_privkey_import, cut, false, {}, DSA_MAX_PRIV_SIZE);
  eval(hb(raw));
}
VH_TEST(dsa_create, 400, 8) {
  const Dsa &g = dsa_group(c);
  Bytes pa = g.params(), en = c.rng.special(32), en2 = en;
  en2[c.rng.below(32)] ^= 1 << c.rng.below(8);
  In p(pa), e(en), e2(en2);
  Buf a(DSA_MAX_PRIV_SIZE), b(DSA_MAX_PRIV_SIZE);
  size_t n = 0, m = 0;
  int r = dsa_privkey_create(a, &n, p, pa.size(), e);
  eqi("dsa-create-result", r, 1, "params %s", hex(pa).c_str());
  if (!r) return;
  Zs v;
  Bytes d = a.get(std::min<size_t>(n, DSA_MAX_PRIV_SIZE));
  if (!undo(d, 5, true, v) || v[0] != g.p || v[1] != g.q || v[2] != g.g || v[4].zero() || v[4] >= g.q || v[3] != big::powm(g.g, v[4], g.p)) viol("dsa-create", "%s", hex(d).c_str());
  else if (v[4].bits() + 60 < g.q.bits()) viol("dsa-create-short", "the private value has only %zu bits", v[4].bits());
  if (!dsa_privkey_create(b, &m, p, pa.size(), e) || b.get(m) != d) viol("dsa-create-repeat", "the same entropy gave two keys");
  if (!dsa_privkey_create(b, &m, p, pa.size(), e2) || b.get(m) == d) viol("dsa-create-distinct", "two entropy values gave one key");
  ev("dsa_created");
  eval(hb(d));
}
static void dsa_generate(Case &c, unsigned bits, bool whole) {
  Bytes en = c.rng.special(32);
  In e(en);
  Buf o(DSA_MAX_PRIV_SIZE);
  size_t n = 0;
  bool ok = bits == 1024 || bits == 2048 || bits == 3072;
  int r = whole ? dsa_privkey_generate(o, &n, bits, e) : dsa_params_generate(o, &n, bits, e);
  eqi("dsa-generate-result", r, ok, "bits %u", bits);
  eval(hb(en, bits * 2 + whole));
  if (!r || !ok) { ev("dsa_generate_refused"); return; }
  Bytes d = o.get(std::min<size_t>(n, DSA_MAX_PRIV_SIZE));
  Zs v;
  if (!undo(d, whole ? 5 : 3, whole, v)) { viol("dsa-generate-der", "%s", hex(d).c_str()); return; }
  Dsa k;
  k.p = v[0]; k.q = v[1]; k.g = v[2];
  if (k.p.bits() != bits || k.q.bits() != (bits < 2048 ? 160u : 256u) || !big::prime(k.p, 20) || !big::prime(k.q, 20) || !((k.p - Z(1)) % k.q).zero() || k.g < Z(2) || k.g >= k.p - Z(1) || !one(k.g, k))
    viol("dsa-generate", "bits %u: %s", bits, hex(d).c_str());
  if (whole && (v[4].zero() || v[4] >= k.q || v[3] != big::powm(k.g, v[4], k.p))) viol("dsa-generate-key", "bits %u: %s", bits, hex(d).c_str());
  ev("dsa_generated");
}
VH_TEST(dsa_generate, 24, 12) { dsa_generate(c, 1024, c.rng.chance(1, 2)); }
#ifndef VH_SAN
VH_TEST(dsa_generate_big, 3, 1) { dsa_generate(c, c.scale > 1 && c.rng.chance(1, 3) ? 3072 : 2048, c.rng.chance(1, 2)); }
#endif
VH_TEST(dsa_generate_refuse, 200, 4) {
  static const unsigned bad[] = {0, 160, 512, 768, 1023, 1025, 1536, 2047, 2049, 3071, 3073, 4096, 10000, 10001, 0xffffffffu, 0x80000000u};
  dsa_generate(c, bad[c.rng.below(16)], c.rng.chance(1, 2));
}
