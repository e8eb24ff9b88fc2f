// C05: authenticated encryption
#include "ref_cipher.hpp"
#include "ref_stream.hpp"
#include "ref_hash.hpp"
#include <openssl/evp.h>
#include <sys/mman.h>
extern "C" {
#include <torsion/aead.h>
#include <torsion/ies.h>
}
using namespace vh;

static const std::vector<ref::CInfo> &b16() {
  static std::vector<ref::CInfo> v;
  if (v.empty()) for (auto &c : ref::ciphers) if (c.block == 16) v.push_back(c);
  return v;
}
struct P { ref::CInfo ci; mode_id_t md; Bytes key, iv, aad; size_t mlen, taglen; };

// full decrypt/encrypt pass through the stream API; returns final's result
static int run(Case &c, const P &p, bool enc, const Bytes &data, const Bytes &tag, Bytes &out, Bytes &tagout) {
  In k(p.key), iv(p.iv), ad(p.aad), in(data), tg(tag);
  cipher_stream_t x;
  memset(&x, 0x61, sizeof x);
  out.clear();
  tagout.clear();
  if (!cipher_stream_init(&x, p.ci.id, p.md, enc, k, p.key.size(), iv, p.iv.size())) return -1;
  if (p.md == CIPHER_MODE_CCM) {
    if (!cipher_stream_set_ccm(&x, p.mlen, p.taglen, ad, p.aad.size())) return -2;
  } else {
    size_t o = 0;
    for (size_t n : c.rng.split(p.aad.size(), 16)) { if (!cipher_stream_set_aad(&x, ad.p() + o, n)) return -3; o += n; }
  }
  if (!enc && c.rng.chance(1, 2)) { if (!cipher_stream_set_tag(&x, tg, tag.size())) return -4; }
  bool tagset = !enc;
  size_t o = 0;
  for (size_t n : c.rng.split(data.size(), 16)) {
    size_t bound = cipher_stream_update_size(&x, n), got = 0;
    Buf b(bound);
    cipher_stream_update(&x, b, &got, in.p() + o, n);
    if (got > bound) { viol("update-size", "wrote %zu > %zu", got, bound); return -9; }
    ref::app(out, b.get(got));
    o += n;
    ev("update_calls");
  }
  if (tagset) { if (!cipher_stream_set_tag(&x, tg, tag.size())) return -4; }
  size_t fl = 9;
  Buf fb(cipher_stream_final_size(&x));
  int r = cipher_stream_final(&x, fb, &fl);
  if (r && fl != 0) viol("final-output", "AEAD final wrote %zu", fl);
  if (enc && r) {
    Buf t(16);
    size_t tl = 99;
    eqi("get-tag", cipher_stream_get_tag(&x, t, &tl), 1, "mode=%d", p.md);
    tagout = t.get(std::min<size_t>(tl, 16));
  } else {
    uint8_t t[16];
    size_t tl = 99;
    if (!enc && cipher_stream_get_tag(&x, t, &tl)) viol("get-tag-decrypt", "tag exported while decrypting");
  }
  return r;
}

static P gen(Case &c) {
  P p;
  p.md = (mode_id_t)(CIPHER_MODE_GCM + c.idx % 3);
  if (p.md == CIPHER_MODE_EAX) p.ci = ref::ciphers[c.rng.below(ref::ciphers.size())];
  else p.ci = c.rng.chance(1, 2) ? b16()[c.rng.below(3)] : b16()[c.rng.below(b16().size())];
  p.key = c.rng.bytes(ref::var_key(p.ci.id) ? c.rng.range(1, 72) : p.ci.key);
  switch (p.md) {
    case CIPHER_MODE_GCM: p.iv = c.rng.special(c.rng.chance(1, 2) ? 12 : c.rng.range(1, 70)); p.taglen = std::vector<size_t>{4, 8, 12, 13, 14, 15, 16}[c.rng.below(7)]; break;
    case CIPHER_MODE_CCM: p.iv = c.rng.special(c.rng.range(7, c.rng.chance(1, 6) ? 16 : 13)); p.taglen = 4 + 2 * c.rng.below(7); break;
    default: p.iv = c.rng.special(c.rng.range(1, 40)); p.taglen = c.rng.range(1, p.ci.block); break;
  }
  p.aad = c.rng.chance(1, 4) ? Bytes() : c.rng.special(c.rng.len(c.rng.chance(1, 30) ? 70000 : 90, 16));
  // the CCM length field changes form at 0xff00; 0x10000 is the next natural boundary
  if (c.rng.chance(1, 40)) p.aad = c.rng.special((c.rng.chance(1, 2) ? 0xff00 : 0x10000) - 2 + c.rng.below(5) + (c.rng.chance(1, 4) ? c.rng.below(250) : 0));
  return p;
}

static ref::Aead model(const P &p, const Bytes &pt) {
  ref::Block k(p.ci.id, p.key);
  ref::Aead r = p.md == CIPHER_MODE_GCM ? ref::gcm(k, p.iv, p.aad, pt) : p.md == CIPHER_MODE_CCM ? ref::ccm(k, p.iv, pt.size(), p.taglen, p.aad, pt) : ref::eax(k, p.iv, p.aad, pt);
  return r;
}
static const char *mn(mode_id_t m) { return m == CIPHER_MODE_GCM ? "GCM" : m == CIPHER_MODE_CCM ? "CCM" : "EAX"; }

static void flip(Rng &r, Bytes &b) {
  if (b.empty()) { b.push_back((uint8_t)r.below(256)); return; }
  switch (r.below(4)) {
    case 0: b[r.below(b.size())] ^= 1 << r.below(8); break;
    case 1: b[b.size() - 1] ^= 1 << r.below(8); break;
    case 2: b[0] ^= 0x80 >> r.below(8); break;
    default: { size_t i = r.below(b.size()); b[i] ^= 1 + r.below(255); break; }
  }
}

VH_TEST(modes, 12000, 15) {
  P p = gen(c);
  Bytes pt = c.rng.special(c.rng.big(c.rng.chance(1, 20) ? 600 : 100, p.ci.block));
  p.mlen = pt.size();
  ref::Aead w = model(p, pt);
  Bytes ct, tag, back, x;
  int r = run(c, p, true, pt, {}, ct, tag);
  std::string id = fmt("%s-%s", p.ci.name, mn(p.md));
  std::string ctx = fmt("key=%s iv=%s aadlen=%zu aad=%s taglen=%zu pt=%s", hex(p.key).c_str(), hex(p.iv).c_str(), p.aad.size(), hex(p.aad).substr(0, 256).c_str(), p.taglen, hex(pt).c_str());
  eqi(("seal:" + id).c_str(), r, 1, "%s", ctx.c_str());
  if (r != 1) return;
  eq(("seal-ct:" + id).c_str(), ct, w.ct, "%s", ctx.c_str());
  eq(("seal-tag:" + id).c_str(), tag, w.tag, "%s", ctx.c_str());
  // OpenSSL as a second opinion for AES-GCM and AES-CCM
  if (p.ci.id <= CIPHER_AES256 && p.md != CIPHER_MODE_EAX && p.iv.size() <= 13 && (p.md == CIPHER_MODE_GCM || p.iv.size() >= 7)) {
    EVP_CIPHER_CTX *e = EVP_CIPHER_CTX_new();
    const EVP_CIPHER *ec = p.md == CIPHER_MODE_GCM ? (p.key.size() == 16 ? EVP_aes_128_gcm() : p.key.size() == 24 ? EVP_aes_192_gcm() : EVP_aes_256_gcm())
                                                   : (p.key.size() == 16 ? EVP_aes_128_ccm() : p.key.size() == 24 ? EVP_aes_192_ccm() : EVP_aes_256_ccm());
    int n = 0;
    Bytes oct(pt.size() + 16), otag(w.tag.size());
    bool ok = EVP_EncryptInit_ex(e, ec, nullptr, nullptr, nullptr) && EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_AEAD_SET_IVLEN, p.iv.size(), nullptr);
    if (p.md == CIPHER_MODE_CCM) ok = ok && EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_AEAD_SET_TAG, p.taglen, nullptr);
    ok = ok && EVP_EncryptInit_ex(e, nullptr, nullptr, p.key.data(), p.iv.data());
    if (p.md == CIPHER_MODE_CCM) ok = ok && EVP_EncryptUpdate(e, nullptr, &n, nullptr, pt.size());
    if (!p.aad.empty()) ok = ok && EVP_EncryptUpdate(e, nullptr, &n, p.aad.data(), p.aad.size());
    uint8_t dummy = 0;
    ok = ok && EVP_EncryptUpdate(e, oct.data(), &n, pt.empty() ? &dummy : pt.data(), pt.size());
    int n2 = 0;
    ok = ok && EVP_EncryptFinal_ex(e, oct.data() + n, &n2) && EVP_CIPHER_CTX_ctrl(e, EVP_CTRL_AEAD_GET_TAG, w.tag.size(), otag.data());
    EVP_CIPHER_CTX_free(e);
    if (ok) { eq(("openssl:" + id).c_str(), ref::cat({ct, tag}), ref::cat({ref::sub(oct, 0, pt.size()), otag}), "%s", ctx.c_str()); ev("openssl_agrees"); }
  }
  Bytes t = tag;
  t.resize(p.taglen);
  r = run(c, p, false, ct, t, back, x);
  eqi(("open:" + id).c_str(), r, 1, "%s", ctx.c_str());
  eq(("open-pt:" + id).c_str(), back, pt, "%s", ctx.c_str());
  ev("sealed_and_opened");
  // tampering: every kind must be refused
  for (int kind = 0; kind < 8; kind++) {
    P q = p;
    Bytes ct2 = ct, t2 = t;
    switch (kind) {
      case 0: flip(c.rng, ct2); q.mlen = ct2.size(); break;
      case 1: flip(c.rng, t2); break;
      case 2: flip(c.rng, q.aad); break;
      case 3: flip(c.rng, q.iv); if (p.md == CIPHER_MODE_CCM && p.iv.size() > 13) continue; break;
      case 4: q.key[c.rng.below(q.key.size())] ^= 2 << c.rng.below(7); if (p.ci.id == CIPHER_ARC2 || p.ci.id == CIPHER_ARC2_GUTMANN) continue; break;
      case 5: if (ct2.empty()) continue; ct2.pop_back(); q.mlen = ct2.size(); break;
      case 6: ct2.push_back(0); q.mlen = ct2.size(); break;
      case 7: q.aad.push_back(0); break;
    }
    ref::Aead m2 = model(q, {});  // expected tag under modified parameters
    (void)m2;
    // what the scheme itself would accept for (q, ct2): short tags may collide by chance
    ref::Block kb(q.ci.id, q.key);
    Bytes ptx;
    Bytes wt;
    if (q.md == CIPHER_MODE_GCM) { ref::Aead a = ref::gcm(kb, q.iv, q.aad, ct2); Bytes pp = a.ct; wt = ref::gcm(kb, q.iv, q.aad, pp).tag; }
    else if (q.md == CIPHER_MODE_EAX) { ref::Aead a = ref::eax(kb, q.iv, q.aad, ct2); wt = ref::eax(kb, q.iv, q.aad, a.ct).tag; }
    else { ref::Aead a = ref::ccm(kb, q.iv, q.mlen, q.taglen, q.aad, ct2); wt = ref::ccm(kb, q.iv, q.mlen, q.taglen, q.aad, a.ct).tag; }
    wt.resize(t2.size());
    bool want = wt == t2;
    r = run(c, q, false, ct2, t2, back, x);
    if (want != (r == 1)) viol(("tamper:" + id).c_str(), "kind=%d accepted=%d expected=%d %s ct=%s tag=%s", kind, r, want, ctx.c_str(), hex(ct2).c_str(), hex(t2).c_str());
    if (want) ev("short_tag_collisions");
    ev("tampered");
    eval(fnv(ct2.data(), ct2.size(), fnv(t2.data(), t2.size(), kind * 1000 + c.idx)));
  }
  // tag bits one by one
  {
    Bytes t2 = t;
    size_t b = c.rng.below(8 * t2.size());
    t2[b / 8] ^= 1 << (b % 8);
    r = run(c, p, false, ct, t2, back, x);
    if (r == 1) viol(("tag-bit:" + id).c_str(), "bit %zu of the tag ignored, %s", b, ctx.c_str());
    ev("tampered");
  }
  eval(fnv(pt.data(), pt.size(), fnv(p.key.data(), p.key.size(), p.md * 100 + p.ci.id)));
  sample(fmt("%s ivlen=%zu aad=%zu pt=%zu tag=%zu", id.c_str(), p.iv.size(), p.aad.size(), pt.size(), p.taglen));
}

// illegal tag lengths, missing tag, IV bounds, wrong block size
VH_TEST(params, 6000, 10) {
  P p = gen(c);
  cipher_stream_t x;
  In k(p.key), iv(p.iv);
  size_t tl = c.rng.below(20);
  Bytes tag = c.rng.bytes(tl);
  In tg(tag);
  if (!cipher_stream_init(&x, p.ci.id, p.md, 0, k, p.key.size(), iv, p.iv.size())) { viol("init", "refused"); return; }
  bool ok;
  if (p.md == CIPHER_MODE_CCM) {
    eqi("ccm-tag-before-setup", cipher_stream_set_tag(&x, tg, tl), 0, "no ccm setup");
    size_t m = c.rng.below(20);
    bool mo = m >= 4 && m <= 16 && m % 2 == 0;
    eqi("ccm-setup", cipher_stream_set_ccm(&x, 10, m, tg, 0), mo, "taglen=%zu", m);
    ok = mo && tl == m;
  } else {
    eqi("set-ccm-wrong-mode", cipher_stream_set_ccm(&x, 10, 16, tg, 0), 0, "mode=%d", p.md);
    ok = p.md == CIPHER_MODE_GCM ? tl == 4 || tl == 8 || (tl >= 12 && tl <= 16) : tl >= 1 && tl <= p.ci.block;
  }
  eqi("set-tag", cipher_stream_set_tag(&x, tg, tl), ok, "mode=%s len=%zu", mn(p.md), tl);
  // without any tag, opening is refused
  if (cipher_stream_init(&x, p.ci.id, p.md, 0, k, p.key.size(), iv, p.iv.size())) {
    if (p.md == CIPHER_MODE_CCM) cipher_stream_set_ccm(&x, 0, 16, tg, 0);
    size_t n;
    uint8_t o[32];
    eqi("no-tag", cipher_stream_final(&x, o, &n), 0, "mode=%s", mn(p.md));
    if (p.md == CIPHER_MODE_CCM) {
      cipher_stream_init(&x, p.ci.id, p.md, (int)c.rng.below(2), k, p.key.size(), iv, p.iv.size());
      eqi("ccm-no-setup", cipher_stream_final(&x, o, &n), 0, "final without set_ccm");
    }
  }
  // tag may not be set when encrypting; GCM/CCM need 128-bit blocks; EAX/CCM IV bounds
  cipher_stream_init(&x, p.ci.id, p.md, 1, k, p.key.size(), iv, p.iv.size());
  eqi("set-tag-encrypt", cipher_stream_set_tag(&x, tg, tl), 0, "encrypting");
  const ref::CInfo &o8 = ref::ciphers[13];
  Bytes k8 = c.rng.bytes(o8.key);
  In ik8(k8);
  if (p.md != CIPHER_MODE_EAX) eqi("block8", cipher_stream_init(&x, o8.id, p.md, 1, ik8, k8.size(), iv, p.iv.size()), 0, "mode=%s on 64-bit block", mn(p.md));
  size_t il = c.rng.below(20);
  Bytes iv2 = c.rng.bytes(il);
  In ii(iv2);
  bool iok = p.md == CIPHER_MODE_GCM ? true : p.md == CIPHER_MODE_CCM ? il >= 7 : il >= 1;
  if (p.md != CIPHER_MODE_GCM || il) eqi("iv-len", cipher_stream_init(&x, p.ci.id, p.md, 1, k, p.key.size(), ii, il), iok, "mode=%s ivlen=%zu", mn(p.md), il);
  uint8_t so[64];
  size_t sl;
  eqi("static-aead", cipher_static_encrypt(so, &sl, p.ci.id, p.md, k, p.key.size(), iv, p.iv.size(), tg, tl), 0, "static API accepts AEAD mode");
  eval(fnv(tag.data(), tl, fnv(p.key.data(), p.key.size(), il)));
  ev("parameter_checks");
}

// GCM counter wrap: IV chosen so that the 32-bit counter overflows during the message
VH_TEST(gcm_wrap, 1500, 15) {
  ref::CInfo ci = b16()[c.rng.below(3)];
  P p{ci, CIPHER_MODE_GCM, c.rng.bytes(ci.key), {}, c.rng.bytes(c.rng.below(20)), 0, 16};
  // 16-byte IV with chosen J0: J0 = GHASH(iv || len block); solve iv = (J0 * H^-1 xor L) * H^-1
  ref::Block k(ci.id, p.key);
  Bytes h = k.enc(Bytes(16, 0));
  // inverse by exponent 2^128-2
  Bytes e = h, inv(16, 0);
  inv[0] = 0x80;
  for (int i = 1; i < 128; i++) { e = ref::gf_mul(e, e); inv = ref::gf_mul(inv, e); }
  Bytes j = c.rng.bytes(16);
  j[12] = j[13] = j[14] = 0xff;
  j[15] = 0xff - c.rng.below(6);
  Bytes L(8, 0);
  ref::app(L, ref::be64(128));
  p.iv = ref::gf_mul(ref::xr(ref::gf_mul(j, inv), L), inv);
  Bytes pt = c.rng.special(16 * 8 + c.rng.below(40));
  p.mlen = pt.size();
  ref::Aead w = model(p, pt);
  Bytes ct, tag;
  int r = run(c, p, true, pt, {}, ct, tag);
  eqi("gcm-wrap", r, 1, "seal");
  eq("gcm-wrap-ct", ct, w.ct, "%s iv=%s", ci.name, hex(p.iv).c_str());
  eq("gcm-wrap-tag", tag, w.tag, "%s iv=%s", ci.name, hex(p.iv).c_str());
  eval(fnv(p.iv.data(), 16, c.idx));
  ev("gcm_counter_wrap");
}

static ref::Aead chapo(const Bytes &key, const Bytes &iv, const Bytes &aad, const Bytes &pt) {
  Bytes ks = ref::keystream(false, key, iv, 0, 64 + pt.size());
  ref::Aead r;
  r.ct = ref::xors(pt, Bytes(ks.begin() + 64, ks.end()));
  r.tag = ref::poly1305(Bytes(ks.begin(), ks.begin() + 32), ref::cat({ref::pad16(aad), ref::pad16(r.ct), ref::le64(aad.size()), ref::le64(r.ct.size())}));
  return r;
}

VH_TEST(chachapoly, 12000, 12) {
  Bytes key = c.rng.special(32), iv = c.rng.special(std::vector<size_t>{8, 12, 16, 24, 28, 32}[c.rng.below(6)]);
  Bytes aad = c.rng.chance(1, 4) ? Bytes() : c.rng.special(c.rng.big(80, 16)), pt = c.rng.special(c.rng.big(300, 64));
  ref::Aead w = chapo(key, iv, aad, pt);
  In k(key), ii(iv), ad(aad), in(pt);
  chachapoly_t x;
  for (int pass = 0; pass < 3; pass++) {   // encrypt, decrypt, authenticate only
    memset(&x, 0x99, sizeof x);
    chachapoly_init(&x, k, ii, iv.size());
    size_t o = 0;
    for (size_t n : c.rng.split(aad.size(), 16)) { chachapoly_aad(&x, ad.p() + o, n); o += n; }
    Buf out(pass == 0 ? pt : w.ct), src(pass == 0 ? pt : w.ct), tag(16);
    bool inplace = c.rng.chance(1, 2);
    o = 0;
    for (size_t n : c.rng.split(pt.size(), 64)) {
      if (pass == 0) chachapoly_encrypt(&x, out.p() + o, inplace ? out.p() + o : src.p() + o, n);
      else if (pass == 1) chachapoly_decrypt(&x, out.p() + o, inplace ? out.p() + o : src.p() + o, n);
      else chachapoly_auth(&x, src.p() + o, n);
      o += n;
    }
    chachapoly_final(&x, tag);
    if (pass == 0) eq("chachapoly-ct", out.get(), w.ct, "key=%s iv=%s len=%zu", hex(key).c_str(), hex(iv).c_str(), pt.size());
    if (pass == 1) eq("chachapoly-pt", out.get(), pt, "key=%s iv=%s len=%zu", hex(key).c_str(), hex(iv).c_str(), pt.size());
    eq("chachapoly-tag", tag.get(), w.tag, "pass=%d key=%s iv=%s aad=%s len=%zu", pass, hex(key).c_str(), hex(iv).c_str(), hex(aad).c_str(), pt.size());
    ev("chachapoly");
  }
  eval(fnv(pt.data(), pt.size(), fnv(key.data(), 32, fnv(aad.data(), aad.size()))));
}

// length counters past 2^32: associated data and messages of several hundred megabytes or more, against OpenSSL. Optimised 64-bit build only.
VH_TEST(huge, 5, 1) {
#ifndef VH_SAN
  if (strcmp(config, "fast64")) return;
  static const struct { const char *cipher; bool gcm; uint64_t aad, ct; } t[] = {
    {"GCM", true, (1ull << 29) + 19, 33}, {"GCM", true, 7, (1ull << 29) + 35}, {"ChaCha20-Poly1305", false, (1ull << 32) + 21, 70},
    {"ChaCha20-Poly1305", false, 5, (1ull << 32) + 67}, {"CCM", true, (1ull << 32) + 1, 40}};
  auto &h = t[c.idx % 5];
  bool ccm = !strcmp(h.cipher, "CCM");
  if (ccm && c.scale == 1) return;
  const size_t CH = 1 << 20;
  Bytes key = c.rng.bytes(h.gcm ? 16 : 32), iv = c.rng.bytes(12), ct(CH), ct2(CH + 32), tag(16), tag2(16);
  uint64_t aad = h.aad - (ccm ? c.rng.below(3) : 0);
  uint8_t *z = (uint8_t *)mmap(nullptr, h.aad + CH, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (z == MAP_FAILED) { ev("mmap_failed"); return; }
  EVP_CIPHER_CTX *o = EVP_CIPHER_CTX_new();
  EVP_EncryptInit_ex(o, h.gcm ? EVP_aes_128_gcm() : EVP_chacha20_poly1305(), nullptr, key.data(), iv.data());
  int l = 0;
  cipher_stream_t x;
  chachapoly_t y;
  if (!ccm) for (uint64_t n = 0; n < h.aad;) { int k = (int)std::min<uint64_t>(CH, h.aad - n); EVP_EncryptUpdate(o, nullptr, &l, z, k); n += k; }
  if (h.gcm) {
    if (!cipher_stream_init(&x, CIPHER_AES128, ccm ? CIPHER_MODE_CCM : CIPHER_MODE_GCM, 1, key.data(), 16, iv.data(), 12)) { viol("huge-init", "refused"); return; }
    int r = ccm ? cipher_stream_set_ccm(&x, h.ct, 16, z, aad) : cipher_stream_set_aad(&x, z, aad);
    eqi("huge-aad", r, 1, "%llu bytes of associated data", (unsigned long long)aad);
  } else {
    chachapoly_init(&y, key.data(), iv.data(), 12);
    chachapoly_aad(&y, z, 3);
    chachapoly_aad(&y, z, h.aad - 3);
  }
  bool same = true;
  if (!ccm) for (uint64_t n = 0; n < h.ct;) {
    int k = (int)std::min<uint64_t>(CH, h.ct - n);
    EVP_EncryptUpdate(o, ct.data(), &l, z, k);
    size_t got = k;
    if (h.gcm) cipher_stream_update(&x, ct2.data(), &got, z, k); else chachapoly_encrypt(&y, ct2.data(), z, k);
    same &= got == (size_t)k && !memcmp(ct.data(), ct2.data(), k);
    n += k;
  }
  if (ccm) {
    // CBC-MAC over B0, the length field, the zeros and the message, then the masks of the counter blocks
    EVP_EncryptInit_ex(o, EVP_aes_128_cbc(), nullptr, key.data(), Bytes(16, 0).data());
    EVP_CIPHER_CTX_set_padding(o, 0);
    Bytes b = {64 + 8 * 7 + 2};
    ref::app(b, iv);
    b.insert(b.end(), {0, 0, (uint8_t)h.ct});
    b.insert(b.end(), {0xff, (uint8_t)(aad >> 32 ? 0xff : 0xfe)});
    for (int i = aad >> 32 ? 7 : 3; i >= 0; i--) b.push_back((uint8_t)(aad >> (8 * i)));
    uint64_t left = (b.size() + aad + 15) / 16 * 16;
    b.resize(32, 0);
    EVP_EncryptUpdate(o, ct.data(), &l, b.data(), 32);
    left -= 32;
    while (left) { int k = (int)std::min<uint64_t>(CH, left); EVP_EncryptUpdate(o, ct.data(), &l, z, k); left -= k; }
    EVP_EncryptUpdate(o, ct.data(), &l, z, (h.ct + 15) / 16 * 16);
    Bytes mac(ct.begin() + (h.ct + 15) / 16 * 16 - 16, ct.begin() + (h.ct + 15) / 16 * 16);
    ref::Block k(CIPHER_AES128, key);
    Bytes a = {2}, want;
    ref::app(a, iv);
    a.resize(16, 0);
    tag = ref::xr(mac, k.enc(a));
    for (size_t i = 0; i < (h.ct + 15) / 16; i++) { a[15] = i + 1; ref::app(want, k.enc(a)); }
    size_t got = 0;
    cipher_stream_update(&x, ct2.data(), &got, z, h.ct);
    same = got == h.ct && !memcmp(want.data(), ct2.data(), h.ct);
  } else {
    EVP_EncryptFinal_ex(o, ct.data(), &l);
    EVP_CIPHER_CTX_ctrl(o, EVP_CTRL_AEAD_GET_TAG, 16, tag.data());
  }
  if (h.gcm) { size_t fl = 0; uint8_t fb[32]; cipher_stream_final(&x, fb, &fl); fl = 16; cipher_stream_get_tag(&x, tag2.data(), &fl); } else chachapoly_final(&y, tag2.data());
  std::string k = fmt("huge-%s", h.cipher);
  eqi((k + "-ct").c_str(), same, 1, "aad %llu, message %llu zero bytes", (unsigned long long)aad, (unsigned long long)h.ct);
  eq((k + "-tag").c_str(), tag2, tag, "aad %llu, message %llu zero bytes, key=%s iv=%s", (unsigned long long)aad, (unsigned long long)h.ct, hex(key).c_str(), hex(iv).c_str());
  EVP_CIPHER_CTX_free(o);
  munmap(z, h.aad + CH);
  eval(fnv(key.data(), key.size(), c.idx));
  ev("huge_lengths");
#endif
}

VH_TEST(secretbox, 16000, 12) {
  Bytes key = c.rng.special(32), nonce = c.rng.special(24), pt = c.rng.special(c.rng.big(250, 64));
  Bytes ks = ref::keystream(true, key, nonce, 0, 32 + pt.size());
  Bytes ct = ref::xors(pt, Bytes(ks.begin() + 32, ks.end()));
  Bytes want = ref::cat({ref::poly1305(Bytes(ks.begin(), ks.begin() + 32), ct), ct});
  In k(key), n(nonce), in(pt);
  Buf sealed(pt.size() + 16);
  secretbox_seal(sealed, in, pt.size(), k, n);
  eq("secretbox-seal", sealed.get(), want, "key=%s nonce=%s len=%zu", hex(key).c_str(), hex(nonce).c_str(), pt.size());
  {
    In s(want);
    Buf m(pt.size());
    eqi("secretbox-open", secretbox_open(m, s, want.size(), k, n), 1, "key=%s nonce=%s", hex(key).c_str(), hex(nonce).c_str());
    eq("secretbox-msg", m.get(), pt, "len=%zu", pt.size());
  }
  for (int i = 0; i < 4; i++) {
    Bytes s2 = want, k2 = key, n2 = nonce;
    switch (i) {
      case 0: flip(c.rng, s2); break;
      case 1: s2.resize(c.rng.chance(1, 2) && s2.size() > 16 ? s2.size() - 1 : c.rng.below(16)); break;
      case 2: flip(c.rng, k2); break;
      case 3: flip(c.rng, n2); break;
    }
    In s(s2), kk(k2), nn(n2);
    Buf m(s2.size() >= 16 ? s2.size() - 16 : 0);
    if (secretbox_open(m, s, s2.size(), kk, nn)) viol("secretbox-forgery", "kind=%d key=%s nonce=%s sealed=%s", i, hex(k2).c_str(), hex(n2).c_str(), hex(s2).c_str());
    ev("tampered");
  }
  Buf d(32);
  secretbox_derive(d, k);
  eq("secretbox-derive", d.get(), ref::hderive(true, key, Bytes(16, 0)), "key=%s", hex(key).c_str());
  eval(fnv(pt.data(), pt.size(), fnv(key.data(), 32, 3)));
  ev("secretbox");
}

// the GCM, CCM and EAX functions called directly, in pieces, in place or not
VH_TEST(direct, 5000, 12) {
  P p = gen(c);
  Bytes pt = c.rng.special(c.rng.big(120, p.ci.block));
  p.mlen = pt.size();
  ref::Aead w = model(p, pt);
  std::string id = fmt("%s-%s", p.ci.name, mn(p.md));
  In ik(p.key), iv(p.iv), ad(p.aad);
  cipher_t x;
  if (!cipher_init(&x, p.ci.id, ik, p.key.size())) { viol("direct-init", "%s", id.c_str()); return; }
  for (int dec = 0; dec < 2; dec++) {
    const Bytes &from = dec ? w.ct : pt;
    bool inplace = c.rng.chance(1, 2);
    In in(from);
    Buf out(from);
    gcm_t g; ccm_t m; eax_t e;
    memset(&g, 0x52, sizeof g); memset(&m, 0x52, sizeof m); memset(&e, 0x52, sizeof e);
    int ok = 1;
    size_t o = 0;
    if (p.md == CIPHER_MODE_GCM) ok = gcm_init(&g, &x, iv, p.iv.size());
    else if (p.md == CIPHER_MODE_CCM) ok = ccm_init(&m, &x, iv, p.iv.size()) && ccm_setup(&m, &x, pt.size(), p.taglen, ad, p.aad.size());
    else ok = eax_init(&e, &x, iv, p.iv.size());
    eqi(("direct-setup:" + id).c_str(), ok, 1, "ivlen=%zu taglen=%zu", p.iv.size(), p.taglen);
    if (!ok) return;
    if (p.md != CIPHER_MODE_CCM)
      for (size_t n : c.rng.split(p.aad.size(), 16)) { p.md == CIPHER_MODE_GCM ? gcm_aad(&g, ad.p() + o, n) : eax_aad(&e, &x, ad.p() + o, n); o += n; }
    o = 0;
    for (size_t n : c.rng.split(from.size(), 16)) {
      uint8_t *d = out.p() + o;
      const uint8_t *sr = inplace ? d : in.p() + o;
      if (p.md == CIPHER_MODE_GCM) (dec ? gcm_decrypt : gcm_encrypt)(&g, &x, d, sr, n);
      else if (p.md == CIPHER_MODE_CCM) (dec ? ccm_decrypt : ccm_encrypt)(&m, &x, d, sr, n);
      else (dec ? eax_decrypt : eax_encrypt)(&e, &x, d, sr, n);
      o += n;
    }
    Buf t(p.ci.block);
    if (p.md == CIPHER_MODE_GCM) gcm_digest(&g, t);
    else if (p.md == CIPHER_MODE_CCM) ccm_digest(&m, &x, t);
    else eax_digest(&e, &x, t);
    std::string ctx = fmt("%s inplace=%d key=%s iv=%s aadlen=%zu taglen=%zu pt=%s", dec ? "decrypt" : "encrypt", inplace, hex(p.key).c_str(), hex(p.iv).c_str(), p.aad.size(), p.taglen, hex(pt).c_str());
    eq(("direct:" + id).c_str(), out.get(), dec ? pt : w.ct, "%s", ctx.c_str());
    eq(("direct-tag:" + id).c_str(), t.get(std::min(w.tag.size(), p.ci.block)), w.tag, "%s", ctx.c_str());
    ev(inplace ? "direct_in_place" : "direct_out_of_place");
  }
  eval(fnv(pt.data(), pt.size(), fnv(p.key.data(), p.key.size(), 3000 + p.md * 100 + p.ci.id)));
}
