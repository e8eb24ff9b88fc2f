// C20: RSA signatures, encryption and veiling against RFC 8017 over GMP integers
#include "pk_util.hpp"
using namespace pk;
using ref::cat;

static const Bytes &oid(hash_id_t h) {
  static const std::map<int, Bytes> m = {
    {HASH_MD2, {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 2, 2}}, {HASH_MD4, {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 2, 4}}, {HASH_MD5, {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 2, 5}},
    {HASH_SHA1, {0x2b, 14, 3, 2, 26}}, {HASH_RIPEMD160, {0x2b, 36, 3, 2, 1}}, {HASH_WHIRLPOOL, {0x28, 0xcf, 6, 3, 0, 55}}, {HASH_GOST94, {0x2a, 0x85, 3, 2, 2, 0x14}},
    {HASH_SHA256, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1}}, {HASH_SHA384, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 2}}, {HASH_SHA512, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 3}},
    {HASH_SHA224, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 4}}, {HASH_SHA3_224, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 7}}, {HASH_SHA3_256, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 8}},
    {HASH_SHA3_384, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 9}}, {HASH_SHA3_512, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 10}},
    {HASH_SHAKE128, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 11}}, {HASH_SHAKE256, {0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 12}},
    {HASH_BLAKE2B_160, {0x2b, 6, 1, 4, 1, 0x8d, 0x3a, 12, 2, 1, 5}}, {HASH_BLAKE2B_256, {0x2b, 6, 1, 4, 1, 0x8d, 0x3a, 12, 2, 1, 8}},
    {HASH_BLAKE2B_384, {0x2b, 6, 1, 4, 1, 0x8d, 0x3a, 12, 2, 1, 12}}, {HASH_BLAKE2B_512, {0x2b, 6, 1, 4, 1, 0x8d, 0x3a, 12, 2, 1, 16}},
    {HASH_BLAKE2S_128, {0x2b, 6, 1, 4, 1, 0x8d, 0x3a, 12, 2, 2, 4}}, {HASH_BLAKE2S_160, {0x2b, 6, 1, 4, 1, 0x8d, 0x3a, 12, 2, 2, 5}},
    {HASH_BLAKE2S_224, {0x2b, 6, 1, 4, 1, 0x8d, 0x3a, 12, 2, 2, 7}}, {HASH_BLAKE2S_256, {0x2b, 6, 1, 4, 1, 0x8d, 0x3a, 12, 2, 2, 8}}};
  static const Bytes none;
  auto i = m.find(h);
  return i == m.end() ? none : i->second;
}
static Bytes digest_info(hash_id_t h, const Bytes &d) {
  const Bytes &o = oid(h);
  if (o.empty()) return d;
  Bytes alg = cat({{0x06}, der_len(o.size()), o, {0x05, 0x00}});
  Bytes b = cat({{0x30}, der_len(alg.size()), alg, {0x04}, der_len(d.size()), d});
  return der_seq(b);
}
static hash_id_t anyhash(Case &c) { return c.rng.chance(1, 3) ? HASH_SHA256 : ref::hashes[c.rng.below(ref::hashes.size())].id; }
static Bytes em15(const Bytes &t, size_t k) { if (k < t.size() + 11) return {}; return cat({{0, 1}, Bytes(k - t.size() - 3, 0xff), {0}, t}); }
static Bytes rawpriv(const Rsa &k, const Bytes &em) {
  Z m = big::from_be(em);
  if (k.n.bits() < 4000) return big::to_be(big::powm(m, k.d, k.n), k.k());
  Z a = big::powm(m % k.p, k.dp, k.p), b = big::powm(m % k.q, k.dq, k.q);
  return big::to_be(b + (a + k.p - b % k.p) * k.qi % k.p * k.q, k.k());
}
static Bytes rawpub(const Rsa &k, const Bytes &s) { return big::to_be(big::powm(big::from_be(s), k.e, k.n), k.k()); }
static std::string kinfo(const Rsa &k) { return fmt("n=%s e=%s (%zu bits, q %zu bits)", k.n.hex().c_str(), k.e.hex().c_str(), k.n.bits(), k.q.bits()); }
static Bytes flipped(Rng &r, Bytes b) { if (!b.empty()) b[r.below(b.size())] ^= 1 << r.below(8); return b; }
static Bytes entropy(Case &c) { return c.rng.special(32); }

// --- key sizes up to the limit: public operations against RFC 8017, one private operation ---------------------------------
static void large(Case &c, const Rsa &k, bool priv);
VH_TEST(large, 12, 3) {
  static const unsigned ab[][2] = {{4423, 4253}, {9689, 4423}, {11213, 4423}, {9941, 4253}, {11213, 9689}, {9689, 9941}};
  static std::map<int, Rsa> cache;
  int i = c.idx % 6;
  if (!cache.count(i)) cache[i] = mersenne_rsa(ab[i][0], ab[i][1]);
  large(c, cache[i], i == 0 && c.idx < 6);
}

// --- PKCS #1 v1.5 signatures -------------------------------------------------------------------
static void judge15(Case &c, const Rsa &k, hash_id_t h, const Bytes &msg, const Bytes &sig, const char *what) {
  Bytes want = em15(digest_info(h, msg), k.k());
  size_t hs = h == HASH_NONE ? msg.size() : ref::info(h).size;
  bool ok = !want.empty() && msg.size() == hs && sig.size() == k.k() && big::from_be(sig) < k.n && rawpub(k, sig) == want;
  Bytes pub = k.pub();
  In m(msg), s(sig), p(pub);
  eqi(fmt("verify15:%s", what).c_str(), rsa_verify(h, m, msg.size(), s, sig.size(), p, pub.size()), ok, "hash %d msg=%s sig=%s %s", h, hex(msg).c_str(), hex(sig).c_str(), kinfo(k).c_str());
  ev(ok ? "verify_accept" : "verify_reject");
  eval(hb(sig, hb(msg, hb(pub, h))));
}
VH_TEST(sign15, 2400, 8) {
  const Rsa &k = rsa_key(c);
  hash_id_t h = c.rng.chance(1, 12) ? HASH_NONE : anyhash(c);
  Bytes msg = c.rng.special(h == HASH_NONE ? c.rng.below(k.k() - 5) : ref::info(h).size), want = em15(digest_info(h, msg), k.k());
  if (h != HASH_NONE && c.rng.chance(1, 12)) { msg = c.rng.bytes(msg.size() + c.rng.below(3) - 1); if (msg.size() != ref::info(h).size) want.clear(); else want = em15(digest_info(h, msg), k.k()); }
  Bytes priv = k.priv(), en = entropy(c);
  In m(msg), p(priv), e(en);
  Buf out(k.k());
  size_t n = 0;
  int r = rsa_sign(out, &n, h, m, msg.size(), p, priv.size(), e);
  eqi("sign15-result", r, !want.empty(), "hash %d msg=%s %s", h, hex(msg).c_str(), kinfo(k).c_str());
  if (r && !want.empty()) {
    eqi("sign15-length", n, k.k(), "%s", kinfo(k).c_str());
    eq("sign15", out.get(), rawpriv(k, want), "hash %d msg=%s %s", h, hex(msg).c_str(), kinfo(k).c_str());
    ev("signed");
    judge15(c, k, h, msg, out.get(), "own");
  } else ev("sign_refused");
  sample(fmt("v1.5 hash %d, %zu-bit key, e=%s", h, k.n.bits(), k.e.hex().c_str()));
  eval(hb(msg, hb(priv, h)));
}
// encodings that almost conform, signed with the private exponent
VH_TEST(forge15, 3000, 8) {
  const Rsa &k = rsa_key(c);
  hash_id_t h = anyhash(c);
  Bytes msg = c.rng.bytes(ref::info(h).size), t = digest_info(h, msg), em = em15(t, k.k());
  if (em.empty()) { ev("too_small"); return; }
  size_t K = k.k();
  switch (c.rng.below(14)) {
    case 0: em[1] = 2; break;
    case 1: em[2 + c.rng.below(K - t.size() - 3)] = 0xfe; break;
    case 2: { // short padding, digest followed by garbage
      size_t ps = c.rng.range(8, K - t.size() - 3);
      em = cat({{0, 1}, Bytes(ps, 0xff), {0}, t});
      Bytes g = c.rng.bytes(K - em.size());
      em = cat({em, g});
      break;
    }
    case 3: em[K - t.size() - 1] = 1 + c.rng.below(255); break;
    case 4: em[c.rng.below(K)] ^= 1 << c.rng.below(8); break;
    case 5: { Bytes alg = cat({{0x06}, der_len(oid(h).size()), oid(h)}); em = em15(der_seq(cat({{0x30}, der_len(alg.size()), alg, {0x04}, der_len(msg.size()), msg})), K); break; }  // without NULL
    case 6: em = em15(msg, K); break;                                      // bare digest
    case 7: { hash_id_t o = anyhash(c); em = em15(digest_info(o, msg), K); break; }   // other algorithm's identifier
    case 8: em = em15(cat({t, {0}}), K); break;
    case 9: { Bytes z(K - t.size(), 0); em = cat({z, t}); break; }           // zero padding
    case 10: em[0] = c.rng.below(2); em[1] = 1; break;
    case 11: { size_t i = 2 + c.rng.below(K - t.size() - 3); em[i] = 0; break; }   // early separator
    case 12: msg = flipped(c.rng, msg); break;
    default: break;
  }
  if (em.empty() || em.size() != K || big::from_be(em) >= k.n) { ev("not_encodable"); return; }
  judge15(c, k, h, msg, rawpriv(k, em), "crafted");
  ev("crafted15");
}
VH_TEST(tamper15, 2400, 8) {
  const Rsa &k = rsa_key(c);
  hash_id_t h = c.rng.chance(1, 4) ? anyhash(c) : HASH_SHA1;
  Bytes msg = c.rng.bytes(ref::info(h).size), em = em15(digest_info(h, msg), k.k());
  if (em.empty()) { ev("too_small"); return; }
  Bytes sig = rawpriv(k, em);
  switch (c.rng.below(9)) {
    case 0: sig = flipped(c.rng, sig); break;
    case 1: { Z v = big::from_be(sig) + k.n; if (v.bits() <= 8 * k.k()) { sig = big::to_be(v, k.k()); ev("unreduced_signature"); } break; }
    case 2: sig.insert(sig.begin(), 0); break;
    case 3: sig.push_back(0); break;
    case 4: sig.pop_back(); break;
    case 5: if (sig[0] == 0) { sig.erase(sig.begin()); ev("stripped_zero"); } break;
    case 6: sig = big::to_be(k.n - big::from_be(sig), k.k()); break;
    case 7: sig = big::to_be(big::rnd_edge(c.rng, k.n), k.k()); break;
    default: break;
  }
  judge15(c, k, h, msg, sig, "tampered");
}
// HASH_NONE and digests of other lengths
VH_TEST(none15, 600, 6) {
  const Rsa &k = rsa_key(c);
  Bytes msg = c.rng.special(c.rng.below(k.k() - 9)), em = em15(msg, k.k());
  if (em.empty()) em = Bytes(k.k(), 0);
  judge15(c, k, HASH_NONE, msg, rawpriv(k, em), "none");
  hash_id_t h = anyhash(c);
  Bytes m2 = c.rng.bytes(ref::info(h).size + 1 - 2 * c.rng.below(2)), e2 = em15(digest_info(h, m2), k.k());
  if (!e2.empty()) judge15(c, k, h, m2, rawpriv(k, e2), "length");
}

// --- PSS ---------------------------------------------------------------------------------------
static Bytes mgf1(hash_id_t h, const Bytes &seed, size_t n) {
  Bytes o;
  for (uint32_t i = 0; o.size() < n; i++) { Bytes d = ref::hash(h, cat({seed, {(uint8_t)(i >> 24), (uint8_t)(i >> 16), (uint8_t)(i >> 8), (uint8_t)i}})); o.insert(o.end(), d.begin(), d.end()); }
  o.resize(n);
  return o;
}
static Bytes x0r(Bytes a, const Bytes &b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; return a; }
// slen: -1 means any (recovered from the block). em has ceil(embits / 8) bytes
static bool pss_ok(hash_id_t h, const Bytes &msg, const Bytes &em, size_t embits, long slen, size_t *found = nullptr) {
  size_t hl = ref::info(h).size, el = em.size();
  if (msg.size() != hl || el < hl + 2 + (slen > 0 ? slen : 0) || em[el - 1] != 0xbc) return false;
  Bytes mdb(em.begin(), em.begin() + el - hl - 1), H(em.begin() + el - hl - 1, em.end() - 1);
  unsigned top = 8 * el - embits;
  if (top && mdb[0] >> (8 - top)) return false;
  Bytes db = x0r(mdb, mgf1(h, H, mdb.size()));
  db[0] &= 0xff >> top;
  size_t i = 0;
  while (i < db.size() && db[i] == 0) i++;
  if (i == db.size() || db[i] != 1) return false;
  Bytes salt(db.begin() + i + 1, db.end());
  if (slen >= 0 && salt.size() != (size_t)slen) return false;
  if (found) *found = salt.size();
  return ref::hash(h, cat({Bytes(8, 0), msg, salt})) == H;
}
static Bytes pss_make(hash_id_t h, const Bytes &msg, size_t embits, const Bytes &salt, Bytes db_override = {}) {
  size_t hl = ref::info(h).size, el = (embits + 7) / 8;
  if (el < hl + salt.size() + 2) return {};
  Bytes H = ref::hash(h, cat({Bytes(8, 0), msg, salt}));
  Bytes db = db_override.empty() ? cat({Bytes(el - hl - salt.size() - 2, 0), {1}, salt}) : db_override;
  Bytes m = x0r(db, mgf1(h, H, db.size()));
  m[0] &= 0xff >> (8 * el - embits);
  return cat({m, H, {0xbc}});
}
static long expect_slen(size_t salt_len, size_t hl) { return salt_len == 0 ? -1 : salt_len == (size_t)RSA_SALT_LENGTH_HASH ? (long)hl : (long)std::min<size_t>(salt_len, 1 << 30); }
static void judge_pss(Case &c, const Rsa &k, hash_id_t h, const Bytes &msg, const Bytes &sig, size_t salt_len, const char *what) {
  size_t bits = k.n.bits(), el = (bits + 6) / 8;
  bool ok = false;
  if (sig.size() == k.k() && big::from_be(sig) < k.n) {
    Bytes em = rawpub(k, sig);
    ok = true;
    if (em.size() > el) { ok = em[0] == 0; em.erase(em.begin()); }
    ok = ok && pss_ok(h, msg, em, bits - 1, expect_slen(salt_len, ref::info(h).size));
  }
  Bytes pub = k.pub();
  In m(msg), s(sig), p(pub);
  eqi(fmt("verify-pss:%s", what).c_str(), rsa_verify_pss(h, m, msg.size(), s, sig.size(), p, pub.size(), salt_len), ok, "hash %d salt_len=%zd msg=%s sig=%s %s", h, (ssize_t)salt_len,
      hex(msg).c_str(), hex(sig).c_str(), kinfo(k).c_str());
  ev(ok ? "pss_accept" : "pss_reject");
  eval(hb(sig, hb(msg, hb(pub, h + salt_len))));
}
static size_t any_saltlen(Case &c, const Rsa &k, size_t hl) {
  size_t el = (k.n.bits() + 6) / 8, mx = el > hl + 2 ? el - hl - 2 : 0;
  switch (c.rng.below(6)) {
    case 0: return 0;
    case 1: return (size_t)RSA_SALT_LENGTH_HASH;
    case 2: return mx;
    case 3: return mx + c.rng.below(3);
    case 4: return c.rng.below(mx + 1);
    default: return c.rng.chance(1, 8) ? (size_t)-2 - c.rng.below(70) : 1 + c.rng.below(40);
  }
}
VH_TEST(pss, 2400, 8) {
  const Rsa &k = rsa_key(c);
  hash_id_t h = anyhash(c);
  size_t hl = ref::info(h).size, el = (k.n.bits() + 6) / 8, sl = any_saltlen(c, k, hl);
  Bytes msg = c.rng.special(c.rng.chance(1, 20) ? hl + 1 : hl), priv = k.priv(), en = entropy(c);
  In m(msg), p(priv), e(en);
  Buf out(k.k());
  size_t n = 0;
  size_t want_salt = sl == 0 ? (el >= hl + 2 ? el - hl - 2 : 0) : sl == (size_t)RSA_SALT_LENGTH_HASH ? hl : sl;
  bool ok = msg.size() == hl && want_salt <= k.k() && el >= hl + want_salt + 2;
  int r = rsa_sign_pss(out, &n, h, m, msg.size(), p, priv.size(), sl, e);
  eqi("sign-pss-result", r, ok, "hash %d salt %zd %s", h, (ssize_t)sl, kinfo(k).c_str());
  if (r && ok) {
    eqi("sign-pss-length", n, k.k(), "%s", kinfo(k).c_str());
    Bytes sig = out.get(), em = rawpub(k, sig);
    size_t found = 0;
    if (em.size() > el) em.erase(em.begin());
    if (!(big::from_be(sig) < k.n) || !pss_ok(h, msg, em, k.n.bits() - 1, -1, &found) || found != want_salt)
      viol("sign-pss", "hash %d salt %zd found %zu em=%s %s", h, (ssize_t)sl, found, hex(em).c_str(), kinfo(k).c_str());
    judge_pss(c, k, h, msg, sig, sl, "own");
    judge_pss(c, k, h, msg, sig, any_saltlen(c, k, hl), "other-salt-length");
    Bytes en2 = flipped(c.rng, en);
    In e2(en2);
    Buf o2(k.k());
    if (rsa_sign_pss(o2, &n, h, m, msg.size(), p, priv.size(), sl, e2) && want_salt >= 8 && o2.get() == sig) viol("pss-salt-reuse", "same signature for two entropy values, salt %zu %s", want_salt, kinfo(k).c_str());
    ev("pss_signed");
  } else ev("pss_refused");
}
VH_TEST(forge_pss, 3000, 8) {
  const Rsa &k = rsa_key(c);
  hash_id_t h = c.rng.chance(1, 2) ? HASH_SHA1 : anyhash(c);
  size_t hl = ref::info(h).size, bits = k.n.bits(), el = (bits + 6) / 8;
  if (el < hl + 2) { ev("too_small"); return; }
  Bytes msg = c.rng.bytes(hl), salt = c.rng.bytes(c.rng.chance(1, 3) ? std::min(hl, el - hl - 2) : c.rng.below(el - hl - 1));
  size_t pad = el - hl - salt.size() - 2;
  Bytes db = cat({Bytes(pad, 0), {1}, salt}), em;
  int how = c.rng.below(12);
  switch (how) {
    case 0: if (pad) db[c.rng.below(pad)] = c.rng.chance(1, 2) ? 1 : 1 << c.rng.below(8); break;
    case 1: db[pad] = c.rng.below(256); break;
    case 2: db[pad] = 0; break;
    case 3: for (auto &b : db) b = 0; break;
    case 4: if (!salt.empty()) db[pad + 1 + c.rng.below(salt.size())] ^= 0x10; break;
    default: break;
  }
  em = pss_make(h, msg, bits - 1, salt, db);
  if (how == 5) em[el - 1] = c.rng.chance(1, 2) ? 0xcc : c.rng.below(256);
  if (how == 6) em[0] |= 0x80 >> c.rng.below(8);
  if (how == 7) em[c.rng.below(el)] ^= 1 << c.rng.below(8);
  if (how == 8) msg = flipped(c.rng, msg);
  Z v = big::from_be(em);
  if (how == 9 && (bits - 1) % 8 == 0) v = v + big::pow2(8 * el);   // the extra leading byte
  if (v >= k.n) { ev("not_encodable"); return; }
  size_t sl = c.rng.chance(1, 2) ? 0 : c.rng.chance(2, 3) && salt.size() ? salt.size() : any_saltlen(c, k, hl);
  Bytes sig = big::to_be(big::powm(v, k.d, k.n), k.k());
  if (how == 10) { Z s = big::from_be(sig) + k.n; if (s.bits() <= 8 * k.k()) sig = big::to_be(s, k.k()); }
  if (how == 11 && sig[0] == 0) sig.erase(sig.begin());
  judge_pss(c, k, h, msg, sig, sl, "crafted");
  if ((bits - 1) % 8 == 0) ev("pss_byte_boundary");
}

// --- PKCS #1 v1.5 encryption -------------------------------------------------------------------
static Bytes em_enc(Rng &r, const Bytes &m, size_t k) {
  Bytes ps = r.bytes(k - m.size() - 3);
  for (auto &b : ps) if (!b) b = 1 + r.below(255);
  return cat({{0, 2}, ps, {0}, m});
}
static bool unpad15(const Bytes &em, Bytes &m) {
  if (em[0] != 0 || em[1] != 2) return false;
  size_t i = 2;
  while (i < em.size() && em[i]) i++;
  if (i == em.size() || i < 10) return false;
  m.assign(em.begin() + i + 1, em.end());
  return true;
}
static bool zeros(const Bytes &b) { for (auto x : b) if (x) return false; return true; }
VH_TEST(encrypt15, 1600, 8) {
  const Rsa &k = rsa_key(c);
  Bytes msg = c.rng.special(c.rng.chance(1, 3) ? k.k() - 13 + c.rng.below(5) : c.rng.below(k.k())), pub = k.pub(), en = entropy(c);
  In m(msg), p(pub), e(en);
  Buf out(k.k());
  size_t n = 0;
  bool ok = msg.size() + 11 <= k.k();
  int r = rsa_encrypt(out, &n, m, msg.size(), p, pub.size(), e);
  eqi("encrypt15-result", r, ok, "len %zu %s", msg.size(), kinfo(k).c_str());
  if (r && ok) {
    eqi("encrypt15-length", n, k.k(), "%s", kinfo(k).c_str());
    Bytes em = rawpriv(k, out.get()), got;
    if (!(big::from_be(out.get()) < k.n) || !unpad15(em, got) || got != msg) viol("encrypt15", "msg=%s em=%s %s", hex(msg).c_str(), hex(em).c_str(), kinfo(k).c_str());
    Bytes en2 = flipped(c.rng, en);
    In e2(en2);
    Buf o2(k.k());
    rsa_encrypt(o2, &n, m, msg.size(), p, pub.size(), e2);
    if (o2.get() == out.get()) viol("encrypt15-deterministic", "two entropy values give the same ciphertext %s", kinfo(k).c_str());
    Bytes priv = k.priv(), ct = out.get();
    In pk(priv), ci(ct);
    Buf d(k.k());
    if (!rsa_decrypt(d, &n, ci, ct.size(), pk, priv.size(), e) || d.get(n) != msg) viol("roundtrip15", "msg=%s %s", hex(msg).c_str(), kinfo(k).c_str());
    ev("encrypted");
  } else ev("encrypt_refused");
  eval(hb(msg, hb(pub, hb(en))));
}
VH_TEST(decrypt15, 3000, 8) {
  const Rsa &k = rsa_key(c);
  size_t K = k.k();
  Bytes msg = c.rng.special(c.rng.chance(1, 4) ? K - 11 : c.rng.below(K - 10)), em = em_enc(c.rng, msg, K);
  switch (c.rng.below(12)) {
    case 0: em[0] = 1; break;
    case 1: em[1] = c.rng.below(256); break;
    case 2: em[2 + c.rng.below(8)] = 0; break;                          // padding shorter than eight
    case 3: for (size_t i = 2; i < K; i++) if (!em[i]) em[i] = 7; break;  // no separator
    case 4: em[10] = 0; break;                                          // exactly eight
    case 5: em[9] = 0; break;                                           // seven
    case 6: em = c.rng.special(K); break;
    case 7: for (size_t i = 2; i < K; i++) if (!em[i]) em[i] = 9; em[K - 1] = 0; break;   // empty message
    default: break;
  }
  Z v = big::from_be(em);
  if (v >= k.n) { v = v % k.n; em = big::to_be(v, K); }
  Bytes ct = rawpub(k, em);
  bool fits = true;
  switch (c.rng.below(12)) {
    case 0: { Z x = big::from_be(ct) + k.n; if (x.bits() <= 8 * K) { ct = big::to_be(x, K); fits = false; ev("unreduced_ciphertext"); } break; }
    case 1: ct.insert(ct.begin(), 0); fits = false; break;
    case 2: ct.pop_back(); fits = false; break;
    default: break;
  }
  Bytes want;
  bool ok = fits && unpad15(em, want);
  Bytes priv = k.priv(), en = entropy(c);
  In ci(ct), p(priv), e(en);
  Buf out(K);
  size_t n = 0;
  int r = rsa_decrypt(out, &n, ci, ct.size(), p, priv.size(), e);
  eqi("decrypt15-result", r, ok, "em=%s ct=%s %s", hex(em).c_str(), hex(ct).c_str(), kinfo(k).c_str());
  if (r && ok) eq("decrypt15", out.get(std::min(n, K)), want, "em=%s %s", hex(em).c_str(), kinfo(k).c_str());
  if (!r && !zeros(out.get()) && out.get() != Bytes(K, 0xa5)) viol("decrypt15-leak", "a refused decryption left data: %s em=%s", hex(out.get()).c_str(), hex(em).c_str());
  ev(ok ? "decrypt_accept" : "decrypt_reject");
  eval(hb(ct, hb(priv)));
  // implicit rejection: the caller cannot tell a bad padding from a good one
  size_t want_len = ok && c.rng.chance(2, 3) ? want.size() : c.rng.chance(1, 3) ? 48 : c.rng.below(K);
  Buf ko(want_len);
  int kr = rsa_decrypt_key(ko, want_len, ci, ct.size(), p, priv.size(), e);
  bool kok = fits && K >= want_len + 11;
  eqi("decrypt-key-result", kr, kok, "out %zu em=%s %s", want_len, hex(em).c_str(), kinfo(k).c_str());
  if (kr && kok) {
    if (ok && want.size() == want_len) { eq("decrypt-key", ko.get(), want, "em=%s", hex(em).c_str()); ev("key_accept"); }
    else {
      Bytes tail(em.end() - want_len, em.end());
      if (want_len >= 8 && (ko.get() == tail || zeros(ko.get()))) viol("decrypt-key-fallback", "bad padding gave %s em=%s", hex(ko.get()).c_str(), hex(em).c_str());
      Bytes en2 = flipped(c.rng, en);
      In e2(en2);
      Buf k2(want_len);
      rsa_decrypt_key(k2, want_len, ci, ct.size(), p, priv.size(), e2);
      if (want_len >= 8 && k2.get() == ko.get()) viol("decrypt-key-predictable", "the replacement key does not depend on the entropy");
      ev("key_fallback");
    }
  } else ev("key_refused");
}

// --- OAEP --------------------------------------------------------------------------------------
static bool oaep_open(hash_id_t h, const Bytes &em, const Bytes &label, Bytes &msg) {
  size_t hl = ref::info(h).size;
  if (em.size() < 2 * hl + 2) return false;
  Bytes ms(em.begin() + 1, em.begin() + 1 + hl), mdb(em.begin() + 1 + hl, em.end());
  Bytes seed = x0r(ms, mgf1(h, mdb, hl)), db = x0r(mdb, mgf1(h, seed, mdb.size()));
  if (em[0] || Bytes(db.begin(), db.begin() + hl) != ref::hash(h, label)) return false;
  size_t i = hl;
  while (i < db.size() && db[i] == 0) i++;
  if (i == db.size() || db[i] != 1) return false;
  msg.assign(db.begin() + i + 1, db.end());
  return true;
}
static Bytes oaep_make(Rng &r, hash_id_t h, const Bytes &db, size_t k) {
  size_t hl = ref::info(h).size;
  Bytes seed = r.bytes(hl), mdb = x0r(db, mgf1(h, seed, db.size())), ms = x0r(seed, mgf1(h, mdb, hl));
  (void)k;
  return cat({{0}, ms, mdb});
}
VH_TEST(oaep, 1600, 8) {
  const Rsa &k = rsa_key(c);
  hash_id_t h = c.rng.chance(1, 2) ? HASH_SHA1 : anyhash(c);
  size_t hl = ref::info(h).size, K = k.k(), cap = K >= 2 * hl + 2 ? K - 2 * hl - 2 : 0;
  Bytes msg = c.rng.special(c.rng.chance(1, 3) ? cap + c.rng.below(3) : c.rng.below(cap + 1)), label = c.rng.special(c.rng.chance(1, 2) ? 0 : c.rng.below(100)), pub = k.pub(), en = entropy(c);
  In m(msg), p(pub), e(en), l(label);
  Buf out(K);
  size_t n = 0;
  bool ok = K >= 2 * hl + 2 && msg.size() <= cap;
  int r = rsa_encrypt_oaep(out, &n, h, m, msg.size(), p, pub.size(), l, label.size(), e);
  eqi("oaep-encrypt-result", r, ok, "hash %d len %zu %s", h, msg.size(), kinfo(k).c_str());
  if (r && ok) {
    Bytes got, ct = out.get(), em = rawpriv(k, ct);
    eqi("oaep-length", n, K, "%s", kinfo(k).c_str());
    if (!(big::from_be(ct) < k.n) || !oaep_open(h, em, label, got) || got != msg) viol("oaep-encrypt", "hash %d msg=%s label=%s em=%s", h, hex(msg).c_str(), hex(label).c_str(), hex(em).c_str());
    Bytes en2 = flipped(c.rng, en);
    In e2(en2);
    Buf o2(K);
    rsa_encrypt_oaep(o2, &n, h, m, msg.size(), p, pub.size(), l, label.size(), e2);
    if (o2.get() == ct) viol("oaep-deterministic", "two entropy values give the same ciphertext");
    Bytes priv = k.priv();
    In pk(priv), ci(ct);
    Buf d(K);
    if (!rsa_decrypt_oaep(d, &n, h, ci, ct.size(), pk, priv.size(), l, label.size(), e) || d.get(n) != msg) viol("oaep-roundtrip", "hash %d msg=%s %s", h, hex(msg).c_str(), kinfo(k).c_str());
    ev("oaep_encrypted");
  } else ev("oaep_encrypt_refused");
  eval(hb(msg, hb(label, hb(pub, h))));
}
VH_TEST(forge_oaep, 3000, 8) {
  const Rsa &k = rsa_key(c);
  hash_id_t h = c.rng.chance(1, 2) ? HASH_SHA1 : anyhash(c), hd = h;
  size_t hl = ref::info(h).size, K = k.k();
  Bytes label = c.rng.special(c.rng.below(30)), priv = k.priv(), en = entropy(c), em, ct;
  bool fits = K >= 2 * hl + 2;
  if (fits) {
    size_t cap = K - 2 * hl - 2;
    Bytes msg = c.rng.special(c.rng.chance(1, 5) ? cap : c.rng.below(cap + 1));
    size_t pad = cap - msg.size();
    Bytes db = cat({ref::hash(h, label), Bytes(pad, 0), {1}, msg});
    int how = c.rng.below(14);
    switch (how) {
      case 0: db = flipped(c.rng, db); break;
      case 1: if (pad) db[hl + c.rng.below(pad)] = 2 + c.rng.below(254); break;
      case 2: if (pad) db[hl + c.rng.below(pad)] = 1; break;          // an earlier separator: a longer message
      case 3: db[hl + pad] = 0; break;
      case 4: for (size_t i = hl; i < db.size(); i++) db[i] = 0; break;
      case 5: db[c.rng.below(hl)] ^= 1; break;
      case 6: label = flipped(c.rng, label); break;
      case 7: label.push_back(0); break;
      case 8: for (size_t i = hl; i < db.size(); i++) db[i] = 0; db.back() = 1; break;   // empty message
      default: break;
    }
    em = oaep_make(c.rng, h, db, K);
    if (how == 9) em[0] = c.rng.chance(1, 2) ? 1 : c.rng.below(256);
    if (how == 10) hd = anyhash(c);
    Z v = big::from_be(em);
    if (v >= k.n) { em[0] = 1; v = big::from_be(em); }
    if (v >= k.n) { ev("not_encodable"); return; }
    ct = rawpub(k, em);
    if (how == 11) { Z x = big::from_be(ct) + k.n; if (x.bits() <= 8 * K) { ct = big::to_be(x, K); fits = false; } }
    if (how == 12) { ct.insert(ct.begin(), 0); fits = false; }
  } else { ct = big::to_be(big::rnd_below(c.rng, k.n), K); em = rawpriv(k, ct); }
  Bytes want;
  bool ok = fits && oaep_open(hd, em, label, want);
  In ci(ct), p(priv), e(en), l(label);
  Buf out(K);
  size_t n = 0;
  int r = rsa_decrypt_oaep(out, &n, hd, ci, ct.size(), p, priv.size(), l, label.size(), e);
  eqi("oaep-decrypt-result", r, ok, "hash %d label=%s em=%s ct=%s %s", hd, hex(label).c_str(), hex(em).c_str(), hex(ct).c_str(), kinfo(k).c_str());
  if (r && ok) eq("oaep-decrypt", out.get(std::min(n, K)), want, "em=%s", hex(em).c_str());
  if (!r && !zeros(out.get()) && out.get() != Bytes(K, 0xa5)) viol("oaep-leak", "a refused decryption left data: %s em=%s", hex(out.get()).c_str(), hex(em).c_str());
  ev(ok ? "oaep_accept" : "oaep_reject");
  eval(hb(ct, hb(label, hb(priv, hd))));
}

// --- veiling -----------------------------------------------------------------------------------
VH_TEST(veil, 2400, 8) {
  const Rsa &k = rsa_key(c);
  size_t K = k.k(), nb = k.n.bits();
  Z ct = big::rnd_edge(c.rng, k.n);
  Bytes msg = big::to_be(ct, K), pub = k.pub(), en = entropy(c);
  bool ok = true;
  size_t bits = nb + (c.rng.chance(1, 3) ? c.rng.below(3) : c.rng.below(200));
  switch (c.rng.below(12)) {
    case 0: bits = nb - 1 - c.rng.below(20); ok = false; break;
    case 1: { Z x = ct + k.n; if (x.bits() <= 8 * K) { msg = big::to_be(x, K); ok = false; } break; }
    case 2: msg.insert(msg.begin(), 0); ok = false; break;
    case 3: bits = c.rng.chance(1, 2) ? 16392 : 16393; ok = bits <= 16392; break;
    case 4: bits = (nb + 7) / 8 * 8; break;
    default: break;
  }
  size_t vl = (bits + 7) / 8;
  In m(msg), p(pub), e(en);
  Buf out(std::max(vl, K));
  size_t n = 0;
  int r = rsa_veil(out, &n, m, msg.size(), bits, p, pub.size(), e);
  eqi("veil-result", r, ok, "bits=%zu msg=%s %s", bits, hex(msg).c_str(), kinfo(k).c_str());
  if (!r || !ok) { ev("veil_refused"); eval(hb(msg, bits)); return; }
  eqi("veil-length", n, vl, "bits=%zu", bits);
  Bytes v = out.get(vl);
  Z vz = big::from_be(v);
  if (vz.bits() > bits || vz % k.n != ct) viol("veil", "bits=%zu c=%s v=%s %s", bits, ct.hex().c_str(), hex(v).c_str(), kinfo(k).c_str());
  if (bits >= nb + 70) {
    Bytes en2 = flipped(c.rng, en);
    In e2(en2);
    Buf o2(vl);
    rsa_veil(o2, &n, m, msg.size(), bits, p, pub.size(), e2);
    if (o2.get() == v) viol("veil-deterministic", "two entropy values give the same veil");
    // the top bits vary: the veil covers the whole range
    ev("veil_wide");
  }
  In vi(v);
  Buf u(K);
  size_t ub = c.rng.chance(1, 2) ? bits : 0;
  r = rsa_unveil(u, &n, vi, v.size(), ub, p, pub.size());
  eqi("unveil-result", r, 1, "bits=%zu v=%s %s", ub, hex(v).c_str(), kinfo(k).c_str());
  if (r) eq("unveil", u.get(), msg, "v=%s %s", hex(v).c_str(), kinfo(k).c_str());
  // too long for the declared size
  if (vz.bits() > 1) {
    size_t low = vz.bits() - 1;
    r = rsa_unveil(u, &n, vi, v.size(), low, p, pub.size());
    eqi("unveil-bits", r, 0, "bits=%zu v=%s", low, hex(v).c_str());
  }
  if (v.size() == K) { Bytes s(v.begin() + 1, v.end()); In si(s); eqi("unveil-short", rsa_unveil(u, &n, si, s.size(), 0, p, pub.size()), 0, "%s", kinfo(k).c_str()); }
  ev("veiled");
  eval(hb(msg, hb(en, bits)));
}
// the veil is uniform over its range: with a few extra bits every multiple of n shows up
VH_TEST(veil_spread, 40, 4) {
  Rsa k = rsa_key(c);
  size_t K = k.k(), nb = k.n.bits(), bits = nb + 3;
  Z ct = big::rnd_below(c.rng, k.n);
  Bytes msg = big::to_be(ct, K), pub = k.pub();
  unsigned long max = ((big::pow2(bits) - ct + k.n - Z(1)) / k.n).ui();   // number of candidates
  std::vector<unsigned> seen(max);
  for (int i = 0; i < 400; i++) {
    Bytes en = c.rng.bytes(32);
    In m(msg), p(pub), e(en);
    Buf out((bits + 7) / 8);
    size_t n;
    if (!rsa_veil(out, &n, m, K, bits, p, pub.size(), e)) { viol("veil-result", "refused"); return; }
    unsigned long r = ((big::from_be(out.get()) - ct) / k.n).ui();
    if (r >= max) { viol("veil-range", "multiple %lu of %lu", r, max); return; }
    seen[r]++;
    eval(hb(out.get(), hb(en)));
  }
  for (unsigned long i = 0; i < max; i++) if (!seen[i]) viol("veil-spread", "multiple %lu of %lu never chosen in 400 veils", i, max);
  ev("veil_spread");
}

// consistent keys with composite factors: an operation is refused or right, never wrong
VH_TEST(composite, 400, 6) {
  Rsa k;
  k.e = exps()[c.rng.below(5)];
  Z a = prime_for(c.rng, 130 + c.rng.below(4), k.e), b = prime_for(c.rng, 130, k.e);
  k.p = a * b;
  k.q = prime_for(c.rng, 256, k.e);
  if (k.p < k.q) std::swap(k.p, k.q);
  Z d = big::inv(k.e, k.lam());
  if (d.zero() || (k.p * k.q).bits() < 512) return;
  k.derive(d);
  Bytes priv = k.priv(), en = entropy(c), msg = c.rng.bytes(20), em = em15(digest_info(HASH_SHA1, msg), k.k());
  In p(priv), e(en), m(msg);
  Buf out(k.k());
  size_t n = 0;
  if (rsa_sign(out, &n, HASH_SHA1, m, 20, p, priv.size(), e)) {
    if (rawpub(k, out.get()) != em) viol("composite-sign", "a wrong signature was released: %s", kinfo(k).c_str());
    ev("composite_signed");
  } else ev("composite_refused");
  eval(hb(priv));
}

// keys outside the limits or with a part altered are refused by every operation, even where the arithmetic would work out
VH_TEST(badkey, 1600, 8) {
  Rsa k = rsa_key(c);
  hash_id_t h = HASH_SHA1;
  Bytes msg = c.rng.bytes(20), en = entropy(c);
  Zs v = k.all();
  int how = c.rng.below(8), f = 2 + c.rng.below(6);
  switch (how) {
    case 0: k.e = k.d = k.dp = k.dq = Z(1); break;                       // every string is its own signature
    case 1: { k.e = exps()[c.rng.below(5)]; k = make_rsa(c.rng, 500 + c.rng.below(12), k.e); break; }        // consistent, too small
    case 2: { do k.e = rnd_exact(c.rng, 34 + c.rng.below(30)) | Z(1); while (!big::invertible(k.e, k.lam())); k.derive(big::inv(k.e, k.lam())); break; }   // exponent too large
    case 3: { // an even modulus
      Z p = prime_for(c.rng, 520, k.e); k.p = p; k.q = Z(2); k.n = p * Z(2); k.d = big::inv(k.e, p - Z(1)); k.dp = k.d % (p - Z(1)); k.dq = Z(1); k.qi = big::inv(Z(2), p); break; }
    case 4: { Z *w[] = {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qi}; *w[f] = *w[f] + Z(c.rng.chance(1, 2) ? 1l : 2l); break; }
    case 5: { Z *w[] = {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qi}; *w[f] = *w[f] + big::pow2(c.rng.below(w[f]->bits())); break; }
    case 6: { Z *w[] = {&k.n, &k.e, &k.d, &k.p, &k.q, &k.dp, &k.dq, &k.qi}; *w[f] = Z((long)c.rng.below(3)); break; }
    default: if (c.rng.chance(1, 2)) k.n = k.n + Z(1); else k.e = k.e + Z(1);
  }
  Bytes priv = k.priv(), pub = k.pub();
  bool okp = rsa_pub_ok(k.n, k.e), ok = rsa_ok(k);
  if (how == 7 && c.rng.chance(1, 2)) { pub.push_back(0); priv.push_back(0); ok = okp = false; }
  size_t kk = k.k(), n = 0;
  In ip(pub), ik(priv), ie(en), im(msg);
  Buf out(std::max<size_t>(kk, 64) + 8);
  auto no = [&](const char *what, int r) { if (r) viol(fmt("badkey-%s", what).c_str(), "change %d field %d: accepted n=%s e=%s", how, f, k.n.hex().c_str(), k.e.hex().c_str()); ev("badkey_refused"); };
  if (!okp) {
    Bytes em = em15(digest_info(h, msg), kk), sig = how >= 4 ? c.rng.bytes(kk) : rawpriv(k, em), pem, ct;
    if (sig.size() != kk) return;
    In s(sig);
    no("verify", rsa_verify(h, im, 20, s, kk, ip, pub.size()));
    no("verify-raw", rsa_verify(HASH_NONE, im, 20, s, kk, ip, pub.size()));
    { Bytes t = c.rng.bytes(kk); t[0] = 0; if (how == 0) { t = Bytes(kk, 0); } In ti(t); no("verify-pss", rsa_verify_pss(h, im, 20, ti, kk, ip, pub.size(), RSA_SALT_LENGTH_AUTO)); }
    no("encrypt", rsa_encrypt(out, &n, im, 5, ip, pub.size(), ie));
    no("encrypt-oaep", rsa_encrypt_oaep(out, &n, h, im, 5, ip, pub.size(), nullptr, 0, ie));
    Bytes t = c.rng.bytes(kk); t[0] = 0;
    In ti(t);
    Buf vo(kk + 8);
    no("veil", rsa_veil(vo, &n, ti, kk, kk * 8 + 8, ip, pub.size(), ie));
    no("unveil", rsa_unveil(vo, &n, ti, kk, k.n.bits(), ip, pub.size()));
  }
  if (!ok) {
    no("sign", rsa_sign(out, &n, h, im, 20, ik, priv.size(), ie));
    no("sign-pss", rsa_sign_pss(out, &n, h, im, 20, ik, priv.size(), RSA_SALT_LENGTH_AUTO, ie));
    Rsa good = k;
    Bytes ct = c.rng.bytes(kk);
    if (!k.n.zero()) ct = big::to_be(big::powm(big::from_be(cat({{0, 2}, Bytes(kk > 20 ? kk - 8 : 12, 0x77), {0}, {1, 2, 3, 4, 5}})), k.e, k.n), kk);
    In ci(ct);
    no("decrypt", rsa_decrypt(out, &n, ci, kk, ik, priv.size(), ie));
    no("decrypt-oaep", rsa_decrypt_oaep(out, &n, h, ci, kk, ik, priv.size(), nullptr, 0, ie));
    no("decrypt-key", rsa_decrypt_key(out, 5, ci, kk, ik, priv.size(), ie));
  }
  eval(hb(pub, hb(priv)));
}

static void large(Case &c, const Rsa &k, bool priv_op) {
  hash_id_t h = HASH_SHA256;
  bool legal = k.n.bits() <= 16384;
  Bytes msg = c.rng.bytes(32), pub = k.pub(), en = entropy(c), sig = rawpriv(k, em15(digest_info(h, msg), k.k())), salt = c.rng.bytes(c.rng.below(100));
  if (c.rng.chance(1, 4)) sig = flipped(c.rng, sig);
  In p(pub);
  size_t nb = k.n.bits();
  eqi("large-bits", rsa_pubkey_bits(p, pub.size()), legal ? nb : 0, "%zu bits", nb);
  eqi("large-pubkey", rsa_pubkey_verify(p, pub.size()), legal, "%zu bits", nb);
  if (legal) judge15(c, k, h, msg, sig, "large");
  else { In m(msg), s(sig); eqi("large-verify", rsa_verify(h, m, 32, s, sig.size(), p, pub.size()), 0, "%zu bits", nb); }
  // PSS with the salt found in the block
  Bytes em = pss_make(h, msg, nb - 1, salt);
  Bytes ps = rawpriv(k, em);
  if (c.rng.chance(1, 4)) ps = flipped(c.rng, ps);
  Bytes back = big::to_be(big::powm(big::from_be(ps), k.e, k.n), k.k());
  if (back.size() > em.size()) back = back[0] == 0 ? Bytes(back.begin() + 1, back.end()) : Bytes();
  bool ok = legal && big::from_be(ps) < k.n && !back.empty() && pss_ok(h, msg, back, nb - 1, (long)salt.size());
  { In m(msg), s(ps); eqi("large-pss", rsa_verify_pss(h, m, 32, s, ps.size(), p, pub.size(), (int)salt.size()), ok, "%zu bits", nb); }
  // encryption of the longest message, undone by the model
  Bytes pt = c.rng.bytes(c.rng.chance(1, 2) ? k.k() - 11 : c.rng.below(200));
  {
    In m(pt), e(en);
    Buf out(k.k());
    size_t n = 0;
    int r = rsa_encrypt(out, &n, m, pt.size(), p, pub.size(), e);
    eqi("large-encrypt", r, legal, "%zu bits", nb);
    if (r && legal) {
      Bytes x = rawpriv(k, out.get());
      bool good = n == k.k() && x[0] == 0 && x[1] == 2 && x[k.k() - pt.size() - 1] == 0 && Bytes(x.end() - (long)pt.size(), x.end()) == pt;
      for (size_t i = 2; i + pt.size() + 1 < k.k(); i++) if (!x[i]) good = false;
      if (!good) viol("large-encrypt-block", "%zu bits: %s", nb, hex(x).c_str());
    }
  }
  if (priv_op) {
    Bytes priv = k.priv();
    In pr(priv), m(msg), e(en);
    Buf out(k.k());
    size_t n = 0;
    eqi("large-sign-result", rsa_sign(out, &n, h, m, 32, pr, priv.size(), e), 1, "%zu bits", nb);
    eq("large-sign", out.get(), rawpriv(k, em15(digest_info(h, msg), k.k())), "%zu bits", nb);
    ev("large_private");
  }
  ev(legal ? "large_legal" : "large_refused");
  eval(hb(sig, hb(msg, 99)));
}
