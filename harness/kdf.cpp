// C07: key derivation
#include "ref_hash.hpp"
#include "ref_big.hpp"
#include <openssl/kdf.h>
extern "C" {
#include <torsion/kdf.h>
char *crypt(const char *, const char *);
}
using namespace vh;
using big::Z;

// Blowfish state from the digits of pi
struct Bf {
  uint32_t P[18], S[4][256];
  static const Bf &init() {
    static Bf *b = nullptr;
    if (b) return *b;
    b = new Bf;
    int bits = 32 * (18 + 1024) + 64;
    auto atan_inv = [&](unsigned long n) {  // arctan(1/n) * 2^bits
      Z t = big::pow2(bits) / Z((long)n), s = t, n2 = Z((long)(n * n));
      for (long k = 3, sg = -1; t != Z(0); k += 2, sg = -sg) { t = t / n2; Z q = t / Z(k); s = sg > 0 ? s + q : s - q; }
      return s;
    };
    Z pi = Z(16) * atan_inv(5) - Z(4) * atan_inv(239);
    Z frac = (pi - Z(3) * big::pow2(bits)) >> 64;
    Bytes d = to_be(frac, 4 * (18 + 1024));
    auto w = [&](int i) { return (uint32_t)d[4 * i] << 24 | d[4 * i + 1] << 16 | d[4 * i + 2] << 8 | d[4 * i + 3]; };
    for (int i = 0; i < 18; i++) b->P[i] = w(i);
    for (int i = 0; i < 1024; i++) b->S[i / 256][i % 256] = w(18 + i);
    return *b;
  }
  void enc(uint32_t &l, uint32_t &r) const {
    for (int i = 0; i < 16; i++) {
      l ^= P[i];
      r ^= ((S[0][l >> 24] + S[1][l >> 16 & 255]) ^ S[2][l >> 8 & 255]) + S[3][l & 255];
      std::swap(l, r);
    }
    std::swap(l, r);
    r ^= P[16];
    l ^= P[17];
  }
  static uint32_t word(const Bytes &d, size_t &o) {
    uint32_t w = 0;
    if (d.empty()) return 0;
    for (int i = 0; i < 4; i++) { w = w << 8 | d[o]; o = (o + 1) % d.size(); }
    return w;
  }
  void expand(const Bytes &salt, const Bytes &key) {
    size_t o = 0, q = 0;
    for (auto &p : P) p ^= word(key, o);
    uint32_t l = 0, r = 0;
    auto step = [&](uint32_t *d) { l ^= word(salt, q); r ^= word(salt, q); enc(l, r); d[0] = l; d[1] = r; };
    for (int i = 0; i < 18; i += 2) step(P + i);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 256; j += 2) step(S[i] + j);
  }
};

static std::vector<uint32_t> eks(const Bytes &salt, const Bytes &key, unsigned cost, bool saltfirst, const char *magic, size_t words) {
  Bf b = Bf::init();
  b.expand(salt, key);
  for (uint64_t i = 0; i < (1ull << cost); i++) {
    if (saltfirst) { b.expand({}, salt); b.expand({}, key); }
    else { b.expand({}, key); b.expand({}, salt); }
  }
  Bytes m(magic, magic + 4 * words);
  size_t o = 0;
  std::vector<uint32_t> d;
  for (size_t i = 0; i < words; i++) d.push_back(Bf::word(m, o));
  for (int i = 0; i < 64; i++) for (size_t j = 0; j < words; j += 2) b.enc(d[j], d[j + 1]);
  return d;
}

static const char b64[] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
static std::string b64e(const Bytes &b) {
  std::string s;
  unsigned acc = 0, n = 0;
  for (uint8_t x : b) { acc = acc << 8 | x; n += 8; while (n >= 6) { s += b64[acc >> (n - 6) & 63]; n -= 6; } }
  if (n) s += b64[acc << (6 - n) & 63];
  return s;
}

static std::string bcrypt_ref(const Bytes &pass, const Bytes &salt, unsigned cost, char minor) {
  Bytes key = pass;
  key.push_back(0);
  if (minor == 'b') { if (key.size() > 73) key.resize(73); }
  else key.resize(key.size() & 0xff);   // the historic 2a length wrap
  auto d = eks(salt, key, cost, false, "OrpheanBeholderScryDoubt", 6);
  Bytes h;
  for (uint32_t w : d) for (int i = 3; i >= 0; i--) h.push_back(w >> (8 * i));
  h.resize(23);
  return fmt("$2%c$%02u$", minor, cost) + b64e(salt) + b64e(h);
}

VH_TEST(bcrypt, 260, 8) {
  Bytes pass = c.rng.special(c.rng.chance(1, 4) ? c.rng.range(68, 76) : c.rng.chance(1, 5) ? c.rng.range(250, 300) : c.rng.below(40));
  Bytes salt = c.rng.special(16);
  char minor = c.rng.chance(1, 2) ? 'a' : 'b';
  if (minor == 'b') for (auto &x : pass) if (!x && c.rng.chance(1, 2)) x = 1;
  if (minor == 'a' && pass.size() > 254 && c.rng.chance(1, 2)) pass.resize(c.rng.chance(1, 2) ? 255 : 254);
  unsigned cost = c.rng.chance(1, 6) ? 5 : 4;
  std::string w = bcrypt_ref(pass, salt, cost, minor);
  In p(pass), s(salt);
  Buf out(61);
  eqi("bcrypt-generate", bcrypt_generate((char *)out.p(), p, pass.size(), s, cost, minor), 1, "cost=%u minor=%c", cost, minor);
  std::string got((char *)out.p(), strnlen((char *)out.p(), 61));
  if (got != w) viol("bcrypt-record", "pass=%s salt=%s cost=%u: got %s want %s", hex(pass).c_str(), hex(salt).c_str(), cost, got.c_str(), w.c_str());
  Buf rec(Bytes(w.begin(), w.end() + 1));
  eqi("bcrypt-verify", bcrypt_verify(p, pass.size(), (char *)rec.p()), 1, "own record refused: %s", w.c_str());
  // libxcrypt as second opinion where its rules coincide
  bool nul = std::find(pass.begin(), pass.end(), 0) != pass.end();
  if (minor == 'b' && !nul) {
    std::string pw(pass.begin(), pass.end());
    char *x = crypt(pw.c_str(), w.substr(0, 29).c_str());
    if (x && x[0] == '$' && got != x) viol("bcrypt-crypt", "pass=%s: got %s, crypt() says %s", hex(pass).c_str(), got.c_str(), x);
    ev("crypt_agrees");
  }
  // a different password or a modified record must not verify
  for (int i = 0; i < 2; i++) {
    Bytes p2 = pass;
    std::string r2 = w;
    if (i == 0) { size_t lim = std::min<size_t>(pass.size(), 72); if (!lim) p2.push_back('x'); else p2[c.rng.below(lim)] ^= 1 << c.rng.below(8); if (minor == 'a' && (pass.size() + 1 > 255)) continue; }
    else { size_t k = 29 + c.rng.below(30); char old = r2[k]; do r2[k] = b64[c.rng.below(64)]; while (r2[k] == old); }
    std::string want = bcrypt_ref(p2, salt, cost, minor);
    bool same = want == r2;
    In ip(p2);
    Buf rb(Bytes(r2.begin(), r2.end() + 1));
    eqi("bcrypt-forgery", bcrypt_verify(ip, p2.size(), (char *)rb.p()), same, "kind=%d pass=%s record=%s", i, hex(p2).c_str(), r2.c_str());
    ev("bcrypt_refusals", !same);
  }
  eval(fnv(pass.data(), pass.size(), fnv(salt.data(), 16, minor)));
  ev("bcrypt");
  sample(fmt("bcrypt %c cost=%u passlen=%zu", minor, cost, pass.size()));
}

VH_TEST(bcrypt_text, 160, 6) {
  // NUL-terminated interface: printable check, 255 truncation
  size_t n = c.rng.chance(1, 4) ? c.rng.range(250, 260) : c.rng.below(60);
  Bytes pass(n);
  for (auto &x : pass) x = 32 + c.rng.below(95);
  bool bad = false;
  if (n && c.rng.chance(1, 2)) { size_t i = c.rng.below(n); pass[i] = 1 + c.rng.below(255); }
  for (size_t i = 0; i < std::min<size_t>(n, 255); i++) { int ch = pass[i]; if ((ch < 7 || ch > 13) && (ch < 32 || ch > 126)) bad = true; }
  Bytes z = pass;
  z.push_back(0);
  Buf p(z), out(61);
  Bytes salt = c.rng.bytes(16);
  In s(salt);
  char minor = c.rng.chance(1, 2) ? 'a' : 'b';
  int r = bcrypt_hash((char *)out.p(), (char *)p.p(), s, 4, minor);
  eqi("bcrypt-hash", r, !bad, "pass=%s", hex(pass).c_str());
  Bytes eff = pass;
  if (eff.size() > 255) eff.resize(255);
  std::string w = bcrypt_ref(eff, salt, 4, minor);
  if (r) {
    std::string got((char *)out.p(), strnlen((char *)out.p(), 61));
    if (got != w) viol("bcrypt-hash-record", "pass=%s got %s want %s", hex(pass).c_str(), got.c_str(), w.c_str());
  }
  Buf rec(Bytes(w.begin(), w.end() + 1));
  eqi("bcrypt-check", bcrypt_check((char *)p.p(), (char *)rec.p()), !bad, "pass=%s", hex(pass).c_str());
  eval(fnv(pass.data(), n, 99));
  ev("bcrypt_text");
}

VH_TEST(bcrypt_records, 30000, 10) {
  // malformed records are refused without running the hash: cost out of range, bad chars, truncation, trailing garbage
  Bytes salt = c.rng.bytes(16), h = c.rng.bytes(23);
  std::string w = fmt("$2%c$%02u$", c.rng.chance(1, 2) ? 'a' : 'b', 4u) + b64e(salt) + b64e(h);
  switch (c.rng.below(6)) {
    case 0: w.resize(c.rng.below(60)); break;
    case 1: w += (char)(1 + c.rng.below(255)); break;
    case 2: w[c.rng.range(7, 59)] = "\x01!-+_=,\x7f\x80\xff$ "[c.rng.below(12)]; break;
    case 3: { const char *b[] = {"00", "01", "02", "03", "32", "99", "4$", "a4", "0a", " 4", "/4"}; w.replace(4, 2, b[c.rng.below(11)]); break; }
    case 4: w[2] = "yxcA$\x00@"[c.rng.below(7)]; break;
    case 5: w[std::vector<int>{0, 1, 3, 6}[c.rng.below(4)]] ^= 1 + c.rng.below(127); break;
  }
  Buf rec(Bytes(w.c_str(), w.c_str() + strlen(w.c_str()) + 1));
  Bytes pass = c.rng.bytes(5);
  In p(pass);
  if (bcrypt_verify(p, 5, (char *)rec.p())) viol("bcrypt-malformed", "record accepted: %s", w.c_str());
  Buf out(61);
  unsigned cost = c.rng.chance(1, 2) ? c.rng.below(4) : 32 + c.rng.below(1000);
  In s(salt);
  eqi("bcrypt-cost", bcrypt_generate((char *)out.p(), p, 5, s, cost, 'b'), 0, "cost=%u", cost);
  eqi("bcrypt-minor", bcrypt_generate((char *)out.p(), p, 5, s, 4, "yx\x00 A"[c.rng.below(5)]), 0, "minor");
  eval(fnv(w.data(), w.size()));
  ev("bcrypt_malformed");
}

VH_TEST(bcrypt_pbkdf, 60, 12) {
  Bytes pass = c.rng.special(c.rng.below(80)), salt = c.rng.special(c.rng.below(70));
  unsigned rounds = c.rng.below(4);
  size_t size = c.rng.chance(1, 6) ? c.rng.range(1000, 1040) : c.rng.below(100);
  if (size > 300) rounds = 1;
  if (c.idx % 30 == 7) { salt = c.rng.bytes(((size_t)1 << 20) + c.idx / 30 % 2); size = c.rng.range(1, 40); rounds = 1; }   // at and above the longest salt
  In p(pass), s(salt);
  Buf out(size);
  bool ok = rounds && pass.size() && salt.size() && salt.size() <= (size_t)1 << 20 && size && size <= 1024;
  eqi("bcrypt-pbkdf-result", bcrypt_pbkdf(out, p, pass.size(), s, salt.size(), rounds, size), ok, "rounds=%u pass=%zu salt=%zu size=%zu", rounds, pass.size(), salt.size(), size);
  if (ok) {
    Bytes key(size), hp = ref::hash(HASH_SHA512, pass);
    size_t stride = (size + 31) / 32;
    for (size_t b = 0; b < stride; b++) {
      Bytes ctr = {0, 0, (uint8_t)((b + 1) >> 8), (uint8_t)(b + 1)};
      Bytes hs = ref::hash(HASH_SHA512, ref::cat({salt, ctr})), acc(32, 0);
      for (unsigned r = 0; r < rounds; r++) {
        auto d = eks(hs, hp, 6, true, "OxychromaticBlowfishSwatDynamite", 8);
        Bytes t;
        for (uint32_t w : d) for (int i = 0; i < 4; i++) t.push_back(w >> (8 * i));
        for (int i = 0; i < 32; i++) acc[i] ^= t[i];
        hs = ref::hash(HASH_SHA512, t);
      }
      for (size_t i = 0; i * stride + b < size && i < 32; i++) key[i * stride + b] = acc[i];
    }
    eq("bcrypt-pbkdf", out.get(), key, "pass=%s salt=%s (%zu) rounds=%u", hex(pass).c_str(), hex(Bytes(salt.begin(), salt.begin() + std::min<size_t>(salt.size(), 80))).c_str(), salt.size(), rounds);
  }
  eval(fnv(pass.data(), pass.size(), fnv(salt.data(), salt.size(), size)));
  ev("bcrypt_pbkdf");
}

static hash_id_t pick(Case &c) { return ref::hashes[c.rng.below(ref::hashes.size())].id; }

VH_TEST(eb2k, 24000, 10) {
  hash_id_t h = pick(c);
  Bytes pass = c.rng.special(c.rng.len(100, 64)), salt = c.rng.bytes(c.rng.chance(1, 4) ? c.rng.below(20) : c.rng.chance(1, 2) ? 8 : 0);
  size_t kl = c.rng.below(100), il = c.rng.below(60);
  In p(pass), s(salt);
  Buf k(kl), iv(il);
  bool ok = salt.empty() || salt.size() >= 8;
  eqi("eb2k-result", eb2k_derive(k, iv, h, p, pass.size(), s, salt.size(), kl, il), ok, "salt=%zu", salt.size());
  if (ok) {
    Bytes w, prev, sl = salt;
    if (sl.size() > 8) sl.resize(8);
    while (w.size() < kl + il) { prev = ref::hash(h, ref::cat({prev, pass, sl})); w = ref::cat({w, prev}); }
    w.resize(kl + il);
    eq("eb2k", ref::cat({k.get(), iv.get()}), w, "%s pass=%s key=%zu iv=%zu", ref::info(h).name, hex(pass).c_str(), kl, il);
  }
  eval(fnv(pass.data(), pass.size(), h * 1000 + kl * 60 + il));
  ev("eb2k");
}

VH_TEST(hkdf, 16000, 10) {
  hash_id_t h = pick(c);
  size_t hs = ref::info(h).size;
  Bytes ikm = c.rng.special(c.rng.big(150, 64)), salt = c.rng.special(c.rng.big(200, ref::info(h).block)), info = c.rng.bytes(c.rng.big(80, 64));
  In i(ikm), s(salt), in(info);
  Buf prk(hs);
  eqi("hkdf-extract-result", hkdf_extract(prk, h, i, ikm.size(), s, salt.size()), 1, "%s", ref::info(h).name);
  Bytes wp = ref::hmac(h, salt, ikm);
  eq("hkdf-extract", prk.get(), wp, "%s ikm=%s salt=%s", ref::info(h).name, hex(ikm).c_str(), hex(salt).c_str());
  size_t len = c.rng.chance(1, 30) ? 255 * hs - 2 + c.rng.below(5) : c.rng.len(5 * hs, hs);
  Buf out(len);
  In ip(wp);
  bool ok = len <= 255 * hs;
  eqi("hkdf-expand-result", hkdf_expand(out, h, ip, in, info.size(), len), ok, "len=%zu size=%zu", len, hs);
  if (ok) {
    Bytes w, t;
    for (int k = 1; w.size() < len; k++) { t = ref::hmac(h, wp, ref::cat({t, info, Bytes(1, (uint8_t)k)})); w = ref::cat({w, t}); }
    w.resize(len);
    eq("hkdf-expand", out.get(), w, "%s len=%zu", ref::info(h).name, len);
  }
  eval(fnv(ikm.data(), ikm.size(), fnv(salt.data(), salt.size(), h + len * 64)));
  ev("hkdf");
}

VH_TEST(pbkdf2, 12000, 10) {
  hash_id_t h = pick(c);
  size_t hs = ref::info(h).size;
  Bytes pass = c.rng.special(c.rng.big(200, ref::info(h).block)), salt = c.rng.special(c.rng.below(60));
  uint32_t iter = c.rng.chance(1, 20) ? c.rng.range(50, 200) : c.rng.below(6);
  size_t len = c.rng.chance(1, 50) ? hs * 256 + c.rng.below(3 * hs) : c.rng.len(4 * hs, hs);
  if (len > 300) iter = c.rng.below(3);
  bool deep = c.rng.chance(1, 250);   // many iterations: judged by OpenSSL alone
  if (deep) { h = HASH_SHA256; hs = 32; static const uint32_t it[] = {254, 510, 1022, 4094, 16382, 65534}; iter = it[c.rng.below(6)] + c.rng.below(5); len = c.rng.range(1, 70); }
  In p(pass), s(salt);
  Buf out(len);
  eqi("pbkdf2-result", pbkdf2_derive(out, h, p, pass.size(), s, salt.size(), iter, len), 1, "%s", ref::info(h).name);
  Bytes w;
  for (uint32_t b = 1; !deep && w.size() < len; b++) {
    Bytes u = ref::hmac(h, pass, ref::cat({salt, {(uint8_t)(b >> 24), (uint8_t)(b >> 16), (uint8_t)(b >> 8), (uint8_t)b}})), t = u;
    for (uint32_t j = 1; j < iter; j++) { u = ref::hmac(h, pass, u); for (size_t k = 0; k < hs; k++) t[k] ^= u[k]; }
    w.insert(w.end(), t.begin(), t.end());
  }
  w.resize(len);
  if (deep) ev("pbkdf2_deep");
  else eq("pbkdf2", out.get(), w, "%s iter=%u len=%zu pass=%s salt=%s", ref::info(h).name, iter, len, hex(pass).c_str(), hex(salt).c_str());
  if (h == HASH_SHA256 && iter && len) {
    Bytes o(len);
    if (PKCS5_PBKDF2_HMAC((const char *)pass.data(), pass.size(), salt.data(), salt.size(), iter, EVP_sha256(), len, o.data())) eq("pbkdf2-openssl", out.get(), o, "iter=%u", iter);
  }
  eval(fnv(pass.data(), pass.size(), fnv(salt.data(), salt.size(), h + len * 64 + iter)));
  ev("pbkdf2");
}

// the block index has four bytes
VH_TEST(pbkdf2_index, 2, 1) {
#ifndef VH_SAN
  static const hash_id_t ids[] = {HASH_MD5, HASH_SHA1, HASH_SHA256};
  hash_id_t h = ids[c.rng.below(3)];
  size_t hs = ref::info(h).size, len = hs * (65536 + c.rng.below(40)) + c.rng.below(hs);
  Bytes pass = c.rng.bytes(8), salt = c.rng.bytes(8), out(len);
  eqi("pbkdf2-result", pbkdf2_derive(out.data(), h, pass.data(), 8, salt.data(), 8, 1, len), 1, "%s", ref::info(h).name);
  for (uint32_t b : {1u, 255u, 256u, 257u, 32768u, 65535u, 65536u, 65537u}) {
    Bytes u = ref::hmac(h, pass, ref::cat({salt, {(uint8_t)(b >> 24), (uint8_t)(b >> 16), (uint8_t)(b >> 8), (uint8_t)b}}));
    size_t o = (size_t)(b - 1) * hs, n = o >= len ? 0 : std::min(hs, len - o);
    eq("pbkdf2-index", Bytes(out.begin() + o, out.begin() + o + n), Bytes(u.begin(), u.begin() + n), "%s block %u", ref::info(h).name, b);
  }
  eval(fnv(pass.data(), 8, len));
  ev("pbkdf2_index");
#else
  (void)c;
#endif
}

VH_TEST(pgpdf, 24000, 10) {
  hash_id_t h = pick(c);
  size_t hs = ref::info(h).size;
  Bytes pass = c.rng.special(c.rng.chance(1, 10) ? 0 : c.rng.len(100, 64)), salt = c.rng.special(c.rng.chance(1, 5) ? 0 : c.rng.chance(1, 2) ? 8 : c.rng.below(30));
  size_t len = c.rng.len(4 * hs, hs), kind = c.rng.below(3);
  size_t total = pass.size() + salt.size();
  size_t count = c.rng.chance(1, 3) ? c.rng.below(total + 2) : total * c.rng.below(6) + c.rng.below(total + 1);
  if (c.rng.chance(1, 40)) count = 65536 + c.rng.below(100);
  if (c.rng.chance(1, 2000)) { count = 65011712 - (c.rng.chance(1, 2) ? 48234496 : 0); len = c.rng.below(hs + 1); }
  In p(pass), s(salt);
  Buf out(len);
  int r;
  if (kind == 0) r = pgpdf_derive_simple(out, h, p, pass.size(), len);
  else if (kind == 1) r = pgpdf_derive_salted(out, h, p, pass.size(), s, salt.size(), len);
  else r = pgpdf_derive_iterated(out, h, p, pass.size(), s, salt.size(), count, len);
  eqi("pgpdf-result", r, 1, "kind=%zu", kind);
  Bytes in = kind == 0 ? pass : ref::cat({salt, pass});
  if (kind == 2 && !in.empty()) { Bytes one = in, all; size_t n = std::max(count, one.size()); all.reserve(n); for (size_t i = 0; i < n; i++) all.push_back(one[i % one.size()]); in = all; }
  Bytes w;
  for (size_t z = 0; w.size() < len; z++) w = ref::cat({w, ref::hash(h, ref::cat({Bytes(z, 0), in}))});
  w.resize(len);
  eq("pgpdf", out.get(), w, "%s kind=%zu count=%zu len=%zu pass=%s salt=%s", ref::info(h).name, kind, count, len, hex(pass).c_str(), hex(salt).c_str());
  eval(fnv(pass.data(), pass.size(), fnv(salt.data(), salt.size(), h + len * 64 + count * 77)));
  ev("pgpdf");
}

VH_TEST(scrypt, 2400, 8) {
  Bytes pass = c.rng.special(c.rng.len(80, 64)), salt = c.rng.special(c.rng.below(60));
  uint64_t N = 1ull << c.rng.below(c.rng.chance(1, 10) ? 10 : 7);
  uint32_t r = c.rng.range(1, 9), p = c.rng.range(1, 4);
  if (c.rng.chance(1, 10)) { r = 1; p = c.rng.range(1, 20); }
  size_t len = c.rng.below(130);
  if (c.rng.chance(1, 100)) { N = 1ull << c.rng.range(10, 14); r = c.rng.chance(1, 2) ? 8 : c.rng.range(1, 33); p = 1; }
  if (c.rng.chance(1, 60)) len = 8160 + c.rng.below(100);
  bool ok = true;
  if (c.rng.chance(1, 6)) {  // illegal parameters
    switch (c.rng.below(5)) {
      case 0: N = 0; ok = false; break;
      case 1: N = N * 2 + 1; ok = N == 1; break;
      case 2: r = 0; ok = false; break;
      case 3: p = 0; ok = false; break;
      case 4: r = 1 << 15; p = 1 << 15; ok = false; break;
    }
    if (N == 1) ok = false, N = 3;
  }
  In pw(pass), s(salt);
  Buf out(len);
  eqi("scrypt-result", scrypt_derive(out, pw, pass.size(), s, salt.size(), N, r, p, len), ok, "N=%llu r=%u p=%u len=%zu", (unsigned long long)N, r, p, len);
  if (ok && N > 1 && len) {
    Bytes w(len);
    if (EVP_PBE_scrypt((const char *)pass.data(), pass.size(), salt.data(), salt.size(), N, r, p, 1 << 28, w.data(), len)) {
      eq("scrypt", out.get(), w, "N=%llu r=%u p=%u pass=%s salt=%s", (unsigned long long)N, r, p, hex(pass).c_str(), hex(salt).c_str());
      ev("scrypt");
    }
  }
  eval(fnv(pass.data(), pass.size(), fnv(salt.data(), salt.size(), N + r * 4096 + p * 77)));
}

VH_TEST(bad_hash, 200, 1) {
  hash_id_t h = (hash_id_t)(c.rng.chance(1, 8) ? 0 : ref::hashes.size() + 1 + c.rng.below(1000));
  uint8_t o[64], i[8] = {0};
  eqi("bad-hash", eb2k_derive(o, o, h, i, 8, i, 8, 16, 0) | hkdf_extract(o, h, i, 8, i, 8) | hkdf_expand(o, h, i, i, 8, 16) | pbkdf2_derive(o, h, i, 8, i, 8, 1, 16) |
      pgpdf_derive_simple(o, h, i, 8, 16) | pgpdf_derive_salted(o, h, i, 8, i, 8, 16) | pgpdf_derive_iterated(o, h, i, 8, i, 8, 8, 16), 0, "hash id %d accepted", (int)h);
  eval(fnv(&h, sizeof h, 5), false);
}
