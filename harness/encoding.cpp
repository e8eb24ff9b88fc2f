// C09: text encodings
#include "vh.hpp"
#include "ref_big.hpp"
extern "C" {
#include <torsion/encoding.h>
}
using namespace vh;
using big::Z;
typedef std::string S;

// --- reference codecs -------------------------------------------------------
static S radix(const Bytes &b, unsigned bits, const char *cs, unsigned group, bool pad) {
  S s;
  unsigned acc = 0, n = 0;
  for (uint8_t x : b) { acc = (acc & 0xffff) << 8 | x; n += 8; while (n >= bits) { s += cs[acc >> (n - bits) & ((1 << bits) - 1)]; n -= bits; } }
  if (n) s += cs[acc << (bits - n) & ((1 << bits) - 1)];
  if (pad) while (s.size() % group) s += '=';
  return s;
}
// canonical decoding: accept exactly the strings the encoder produces (modulo case when icase)
static bool unradix(const S &in, unsigned bits, const char *cs, unsigned group, bool pad, bool icase, Bytes &out) {
  S s = in;
  if (icase) for (auto &ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32;
  size_t n = s.size();
  while (pad && n && s[n - 1] == '=') n--;
  out.clear();
  unsigned acc = 0, k = 0;
  for (size_t i = 0; i < n; i++) {
    const char *p = s[i] ? strchr(cs, s[i]) : nullptr;
    if (!p) return false;
    acc = (acc & 0xffff) << bits | (unsigned)(p - cs);
    k += bits;
    if (k >= 8) { k -= 8; out.push_back(acc >> k); }
  }
  return radix(out, bits, cs, group, pad) == s;
}
static const char *C16 = "0123456789abcdef", *C32 = "abcdefghijklmnopqrstuvwxyz234567", *C32H = "0123456789abcdefghijklmnopqrstuv",
  *C64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", *C64U = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_",
  *C58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz", *CB = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

static Bytes raw(const S &s) { return Bytes(s.begin(), s.end()); }
static S str(const Buf &b, size_t n) { return S((const char *)b.p(), n); }

// mutate a string; keeps it NUL-free when nonul
static S mutate(Rng &r, S s, const char *cs, bool nonul) {
  int k = r.below(4);
  for (int i = 0; i < k; i++) {
    size_t cn = strlen(cs);
    char any = r.chance(3, 4) ? cs[r.below(cn)] : r.chance(1, 2) ? "=1:0OIl+/-_ bio"[r.below(15)] : (char)r.below(256);
    if (nonul && !any) any = 'x';
    switch (r.below(8)) {
      case 0: if (!s.empty()) s[r.below(s.size())] = any; break;
      case 1: s.insert(s.begin() + r.below(s.size() + 1), any); break;
      case 2: if (!s.empty()) s.erase(s.begin() + r.below(s.size())); break;
      case 3: if (s.size() > 1) { size_t j = r.below(s.size() - 1); std::swap(s[j], s[j + 1]); } break;
      case 4: if (!s.empty()) { size_t j = r.below(s.size()); if (isalpha((unsigned char)s[j])) s[j] ^= 32; } break;
      case 5: if (!s.empty()) s.pop_back(); break;
      case 6: s += r.chance(1, 2) ? '=' : any; break;
      case 7: if (!s.empty()) { size_t j = s.size() - 1; while (j && s[j] == '=') j--; s[j] = any; } break;
    }
  }
  return s;
}

struct Codec {
  const char *name;
  size_t (*esize)(size_t, int);
  void (*enc)(char *, size_t *, const uint8_t *, size_t, int);
  size_t (*dsize)(const char *, size_t);
  int (*dec)(uint8_t *, size_t *, const char *, size_t, int);
  int (*test)(const char *, size_t, int);
  unsigned bits; const char *cs; unsigned group; bool icase, le;
};
static const Codec codecs[] = {
  {"base16", [](size_t n, int) { return base16_encode_size(n); }, [](char *d, size_t *l, const uint8_t *s, size_t n, int) { base16_encode(d, l, s, n); }, [](const char *, size_t n) { return base16_decode_size(n); },
   [](uint8_t *d, size_t *l, const char *s, size_t n, int) { return base16_decode(d, l, s, n); }, [](const char *s, size_t n, int) { return base16_test(s, n); }, 4, C16, 2, true, false},
  {"base16le", [](size_t n, int) { return base16le_encode_size(n); }, [](char *d, size_t *l, const uint8_t *s, size_t n, int) { base16le_encode(d, l, s, n); }, [](const char *, size_t n) { return base16le_decode_size(n); },
   [](uint8_t *d, size_t *l, const char *s, size_t n, int) { return base16le_decode(d, l, s, n); }, [](const char *s, size_t n, int) { return base16le_test(s, n); }, 4, C16, 2, true, true},
  {"base32", base32_encode_size, base32_encode, base32_decode_size, base32_decode, base32_test, 5, C32, 8, true, false},
  {"base32hex", base32hex_encode_size, base32hex_encode, base32hex_decode_size, base32hex_decode, base32hex_test, 5, C32H, 8, true, false},
  {"base64", [](size_t n, int) { return base64_encode_size(n); }, [](char *d, size_t *l, const uint8_t *s, size_t n, int) { base64_encode(d, l, s, n); }, base64_decode_size,
   [](uint8_t *d, size_t *l, const char *s, size_t n, int) { return base64_decode(d, l, s, n); }, [](const char *s, size_t n, int) { return base64_test(s, n); }, 6, C64, 4, false, false},
  {"base64url", [](size_t n, int) { return base64url_encode_size(n); }, [](char *d, size_t *l, const uint8_t *s, size_t n, int) { base64url_encode(d, l, s, n); }, base64url_decode_size,
   [](uint8_t *d, size_t *l, const char *s, size_t n, int) { return base64url_decode(d, l, s, n); }, [](const char *s, size_t n, int) { return base64url_test(s, n); }, 6, C64U, 4, false, false}};

VH_TEST(radix, 240000, 12) {
  const Codec &k = codecs[c.idx % 6];
  bool pad = k.bits == 5 ? c.rng.below(2) : k.group == 4 && k.cs == C64;
  Bytes m = c.rng.special(c.rng.big(c.rng.chance(1, 20) ? 300 : 24, 5, 400));
  Bytes mm = m;
  if (k.le) std::reverse(mm.begin(), mm.end());
  S w = radix(mm, k.bits, k.cs, k.group, pad);
  In in(m);
  eqi(fmt("%s-encode-size", k.name).c_str(), k.esize(m.size(), pad), w.size(), "len=%zu pad=%d", m.size(), pad);
  Buf out(w.size() + 1);
  size_t n = 9999;
  k.enc((char *)out.p(), &n, in, m.size(), pad);
  eqi(fmt("%s-encode-len", k.name).c_str(), n, w.size(), "len=%zu", m.size());
  if (str(out, w.size() + 1) != S(w.c_str(), w.size() + 1)) viol(fmt("%s-encode", k.name).c_str(), "in=%s got %s want %s", hex(m).c_str(), hex(out.get()).c_str(), w.c_str());
  // decoding: the encoding itself, then a mutated string
  for (int i = 0; i < 3; i++) {
    S s = i ? mutate(c.rng, w, k.cs, false) : w;
    if (i == 1 && k.icase && c.rng.chance(1, 2)) for (auto &ch : s) if (ch >= 'a' && ch <= 'z' && c.rng.chance(1, 2)) ch -= 32;
    Bytes want;
    bool ok = unradix(s, k.bits, k.cs, k.group, pad, k.icase, want);
    if (k.le) std::reverse(want.begin(), want.end());
    In is(raw(s));
    size_t ds = k.dsize((const char *)is.p(), s.size());
    if (ok) eqi(fmt("%s-decode-size", k.name).c_str(), ds, want.size(), "str=%s", s.c_str());
    Buf d(ds);
    size_t dn = 9999;
    int r = k.dec(d, &dn, (const char *)is.p(), s.size(), pad);
    eqi(fmt("%s-decode", k.name).c_str(), r, ok, "str=%s pad=%d", hex(raw(s)).c_str(), pad);
    eqi(fmt("%s-test", k.name).c_str(), k.test((const char *)is.p(), s.size(), pad), ok, "str=%s pad=%d", hex(raw(s)).c_str(), pad);
    if (r && ok) { if (dn != want.size() || d.get(std::min(dn, ds)) != want) viol(fmt("%s-decode-data", k.name).c_str(), "str=%s len=%zu", s.c_str(), dn); }
    ev(ok ? "decode_accept" : "decode_reject");
    eval(fnv(s.data(), s.size(), c.idx % 6 * 2 + pad));
  }
  sample(fmt("%s %s", k.name, w.c_str()));
}

// every 1- and 2-character tail after a valid prefix (all 65536 pairs spread over cases)
VH_TEST(radix_tails, 6 * 256, 4) {
  const Codec &k = codecs[c.idx % 6];
  unsigned a = c.idx / 6 % 256;
  Bytes m = c.rng.bytes(c.rng.below(6));
  for (int pad = 0; pad < 2; pad++) {
    if (k.bits != 5 && pad != (k.cs == C64)) continue;
    S base = radix(m, k.bits, k.cs, k.group, false);
    for (unsigned b = 0; b < 256; b++) {
      S s = base + (char)a + (char)b;
      if (c.rng.chance(1, 2)) while (s.size() % k.group) s += '=';
      Bytes want;
      bool ok = unradix(s, k.bits, k.cs, k.group, pad, k.icase, want);
      In is(raw(s));
      Buf d(k.dsize((const char *)is.p(), s.size()));
      size_t dn = 0;
      int r = k.dec(d, &dn, (const char *)is.p(), s.size(), pad);
      eqi(fmt("%s-tail", k.name).c_str(), r, ok, "str=%s pad=%d", hex(raw(s)).c_str(), pad);
      eqi(fmt("%s-tail-test", k.name).c_str(), k.test((const char *)is.p(), s.size(), pad), ok, "str=%s pad=%d", hex(raw(s)).c_str(), pad);
      ev(ok ? "decode_accept" : "decode_reject");
      eval(fnv(s.data(), s.size(), c.idx % 6 * 2 + pad + 50));
    }
  }
}

static S enc58(const Bytes &b) {
  size_t z = 0;
  while (z < b.size() && !b[z]) z++;
  Z v = big::from_be(b);
  S s;
  while (v != Z(0)) { Z r = v % Z(58); Bytes d = to_be(r, 1); s += C58[d[0]]; v = v / Z(58); }
  std::reverse(s.begin(), s.end());
  return S(z, '1') + s;
}
static bool dec58(const S &s, Bytes &out) {
  size_t z = 0;
  while (z < s.size() && s[z] == '1') z++;
  Z v(0);
  for (char ch : s) { const char *p = ch ? strchr(C58, ch) : nullptr; if (!p) return false; v = v * Z(58) + Z((long)(p - C58)); }
  out = Bytes(z, 0);
  Bytes m = v == Z(0) ? Bytes() : big::to_be_min(v);
  out.insert(out.end(), m.begin(), m.end());
  return true;
}

VH_TEST(base58, 40000, 10) {
  Bytes m = c.rng.special(c.rng.chance(1, 20) ? c.rng.below(200) : c.rng.below(45));
  if (c.rng.chance(1, 3)) for (size_t i = 0, k = c.rng.below(m.size() + 1); i < k; i++) m[i] = 0;
  S w = enc58(m);
  In in(m);
  Buf out(std::max<size_t>(1, BASE58_ENCODE_SIZE(m.size()) + 1));
  size_t n = 999;
  eqi("base58-encode-result", base58_encode((char *)out.p(), &n, in, m.size()), 1, "len=%zu", m.size());
  if (n != w.size() || str(out, n + 1) != S(w.c_str(), w.size() + 1)) viol("base58-encode", "in=%s want %s len %zu", hex(m).c_str(), w.c_str(), n);
  for (int i = 0; i < 2; i++) {
    S s = i ? mutate(c.rng, w, C58, false) : w;
    Bytes want;
    bool ok = dec58(s, want);
    In is(raw(s));
    Buf d(BASE58_DECODE_SIZE(s.size()));
    size_t dn = 999;
    int r = base58_decode(d, &dn, (const char *)is.p(), s.size());
    eqi("base58-decode", r, ok, "str=%s", hex(raw(s)).c_str());
    eqi("base58-test", base58_test((const char *)is.p(), s.size()), ok, "str=%s", hex(raw(s)).c_str());
    if (r && ok && (dn != want.size() || d.get(std::min(dn, d.size())) != want)) viol("base58-decode-data", "str=%s got %s want %s", s.c_str(), hex(d.get(std::min(dn, d.size()))).c_str(), hex(want).c_str());
    ev(ok ? "decode_accept" : "decode_reject");
    eval(fnv(s.data(), s.size(), 58));
  }
  ev("base58");
}

// long strings: the work buffer is sized from a rational approximation of log 58 / log 256
VH_TEST(base58_long, 16, 2) {
  size_t n = c.rng.range(200, c.idx % 4 == 0 ? 9000 : 2500);
  Bytes m = c.rng.special(n);
  S w = c.idx % 2 ? S(n, 'z') : enc58(m);
  if (c.idx % 2) { for (size_t i = 0, k = c.rng.below(4); i < k; i++) w[c.rng.below(n)] = C58[c.rng.below(58)]; dec58(w, m); }
  In in(m), is(raw(w));
  Buf out(BASE58_ENCODE_SIZE(m.size()) + 1), d(BASE58_DECODE_SIZE(w.size()));
  size_t en = 0, dn = 0;
  eqi("base58-encode-result", base58_encode((char *)out.p(), &en, in, m.size()), 1, "len=%zu", m.size());
  if (en != w.size() || str(out, en) != w) viol("base58-long-encode", "len=%zu", m.size());
  eqi("base58-decode", base58_decode(d, &dn, (const char *)is.p(), w.size()), 1, "len=%zu", w.size());
  if (dn != m.size() || d.get(std::min(dn, d.size())) != m) viol("base58-long-decode", "string of %zu characters starting %s", w.size(), w.substr(0, 40).c_str());
  ev("base58_long");
  eval(fnv(w.data(), w.size(), 59));
}

// --- bech32 (BIP 173 / BIP 350) --------------------------------------------
typedef std::vector<uint8_t> V5;
static uint32_t bpoly(const V5 &v) {
  static const uint32_t gen[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
  uint32_t chk = 1;
  for (uint8_t x : v) { uint32_t top = chk >> 25; chk = (chk & 0x1ffffff) << 5 ^ x; for (int i = 0; i < 5; i++) if (top >> i & 1) chk ^= gen[i]; }
  return chk;
}
static V5 hrpx(const S &h) { V5 v; for (char ch : h) v.push_back((uint8_t)ch >> 5); v.push_back(0); for (char ch : h) v.push_back(ch & 31); return v; }
static S b32m(const S &hrp, const V5 &d, uint32_t k) {
  V5 v = hrpx(hrp);
  v.insert(v.end(), d.begin(), d.end());
  v.insert(v.end(), 6, 0);
  uint32_t p = bpoly(v) ^ k;
  S s = hrp + "1";
  for (uint8_t x : d) s += CB[x];
  for (int i = 0; i < 6; i++) s += CB[p >> 5 * (5 - i) & 31];
  return s;
}
static bool b32d(const S &in, uint32_t k, S &hrp, V5 &d) {
  bool lo = false, up = false;
  for (char ch : in) { unsigned u = (uint8_t)ch; if (u < 33 || u > 126) return false; lo |= u >= 'a' && u <= 'z'; up |= u >= 'A' && u <= 'Z'; }
  if (lo && up) return false;
  S s = in;
  for (auto &ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32;
  size_t pos = s.rfind('1');
  if (pos == S::npos || pos < 1 || pos + 7 > s.size() || s.size() > 90) return false;
  hrp = s.substr(0, pos);
  d.clear();
  for (size_t i = pos + 1; i < s.size(); i++) { const char *p = strchr(CB, s[i]); if (!p) return false; d.push_back(p - CB); }
  V5 v = hrpx(hrp);
  v.insert(v.end(), d.begin(), d.end());
  if (bpoly(v) != k) return false;
  d.resize(d.size() - 6);
  return true;
}
static bool conv(const Bytes &in, int from, int to, bool pad, Bytes &out) {
  out.clear();
  std::vector<bool> bits;
  for (uint8_t x : in) for (int i = from - 1; i >= 0; i--) bits.push_back(x >> i & 1);
  size_t full = bits.size() / to, rem = bits.size() % to;
  for (size_t i = 0; i < full; i++) { uint8_t x = 0; for (int j = 0; j < to; j++) x = x << 1 | bits[i * to + j]; out.push_back(x); }
  if (pad) { if (rem) { uint8_t x = 0; for (int j = 0; j < to; j++) x = x << 1 | (j < (int)rem ? (int)bits[full * to + j] : 0); out.push_back(x); } }
  else { if ((int)rem >= from) return false; for (size_t j = 0; j < rem; j++) if (bits[full * to + j]) return false; }
  return true;
}
static S rand_hrp(Rng &r) {
  static const char *common[] = {"bc", "tb", "bcrt", "a", "bitcoincash", "an83characterlonghumanreadablepartthatcontainsthenumber1andtheexcludedcharactersbio", "1", "11", "split"};
  if (r.chance(1, 2)) return common[r.below(9)];
  S s;
  for (size_t i = 0, n = r.chance(1, 8) ? r.range(70, 86) : r.range(0, 12); i < n; i++) s += (char)(r.chance(1, 20) ? 1 + r.below(255) : r.chance(1, 10) ? 33 + r.below(94) : 'a' + r.below(26));
  return s;
}
static uint32_t rand_const(Rng &r) { return r.chance(1, 2) ? 1 : r.chance(2, 3) ? 0x2bc830a3 : r.next() & 0x3fffffff; }

VH_TEST(bech32_raw, 60000, 10) {
  S hrp = rand_hrp(c.rng);
  V5 d = c.rng.bytes(c.rng.chance(1, 6) ? c.rng.below(100) : c.rng.below(50));
  for (auto &x : d) x &= 31;
  bool bad5 = !d.empty() && c.rng.chance(1, 20);
  if (bad5) d[c.rng.below(d.size())] |= 32 << c.rng.below(3);
  uint32_t k = rand_const(c.rng);
  bool ok = hrp.size() >= 1 && hrp.size() <= 83 && hrp.size() + 7 + d.size() <= 90 && !bad5;
  for (char ch : hrp) { unsigned u = (uint8_t)ch; if (u < 33 || u > 126 || (u >= 'A' && u <= 'Z')) ok = false; }
  Bytes hz = raw(hrp);
  hz.push_back(0);
  In ih(hz), id(d);
  Buf out(BECH32_MAX_SERIALIZE_SIZE + 1);
  int r = bech32_serialize((char *)out.p(), (const char *)ih.p(), id, d.size(), k);
  eqi("bech32-serialize-result", r, ok, "hrp=%s len=%zu", hex(raw(hrp)).c_str(), d.size());
  if (r && ok) { S w = b32m(hrp, d, k); if (S((char *)out.p()) != w) viol("bech32-serialize", "hrp=%s data=%s got %s want %s", hrp.c_str(), hex(d).c_str(), (char *)out.p(), w.c_str()); }
  S base = ok ? b32m(hrp, d, k) : "bc1qqqqqqqqqq";
  for (int i = 0; i < 3; i++) {
    S s = base;
    if (i == 1 && c.rng.chance(1, 2)) for (auto &ch : s) if (ch >= 'a' && ch <= 'z') ch -= 32;
    if (i) s = mutate(c.rng, s, CB, true);
    if (i == 2 && c.rng.chance(1, 3)) { size_t n = c.rng.range(1, 4); for (size_t j = 0; j < n; j++) { size_t p = s.rfind('1'); if (p + 1 < s.size()) s[c.rng.range(p + 1, s.size() - 1)] = CB[c.rng.below(32)]; } }
    S wh;
    V5 wd;
    bool want = b32d(s, k, wh, wd);
    Bytes z = raw(s);
    z.push_back(0);
    In is(z);
    Buf h(BECH32_MAX_HRP_SIZE + 1), od(BECH32_MAX_DESERIALIZE_SIZE);
    size_t dl = 999;
    int r = bech32_deserialize((char *)h.p(), od, &dl, (const char *)is.p(), k);
    eqi("bech32-deserialize", r, want, "str=%s", s.c_str());
    eqi("bech32-is", bech32_is((const char *)is.p(), k), want, "str=%s", s.c_str());
    if (r && want && (S((char *)h.p()) != wh || dl != wd.size() || od.get(std::min(dl, od.size())) != wd)) viol("bech32-deserialize-data", "str=%s", s.c_str());
    ev(want ? "decode_accept" : "decode_reject");
    eval(fnv(s.data(), s.size(), k));
  }
  ev("bech32");
}

VH_TEST(bech32_addr, 60000, 10) {
  S hrp = rand_hrp(c.rng);
  uint32_t k = rand_const(c.rng);
  unsigned ver = c.rng.chance(1, 12) ? c.rng.below(300) : c.rng.below(32);
  Bytes h = c.rng.special(c.rng.chance(1, 3) ? c.rng.below(45) : c.rng.chance(1, 2) ? 20 : 32);
  bool ok = ver <= 31 && h.size() >= 2 && h.size() <= 40 && hrp.size() >= 1 && hrp.size() <= 83;
  for (char ch : hrp) { unsigned u = (uint8_t)ch; if (u < 33 || u > 126 || (u >= 'A' && u <= 'Z')) ok = false; }
  Bytes d;
  conv(h, 8, 5, true, d);
  if (hrp.size() + 1 + 1 + d.size() + 6 > 90) ok = false;
  Bytes hz = raw(hrp);
  hz.push_back(0);
  In ih(hz), hh(h);
  Buf out(BECH32_MAX_ENCODE_SIZE + 1);
  int r = bech32_encode((char *)out.p(), (const char *)ih.p(), ver, hh, h.size(), k);
  eqi("bech32-encode-result", r, ok, "hrp=%s ver=%u len=%zu", hex(raw(hrp)).c_str(), ver, h.size());
  d.insert(d.begin(), ver & 31);
  if (r && ok) { S w = b32m(hrp, d, k); if (S((char *)out.p()) != w) viol("bech32-encode", "got %s want %s", (char *)out.p(), w.c_str()); }
  // decode: valid, with non-zero padding or an extra group (checksum recomputed), mutated
  for (int i = 0; i < 3; i++) {
    V5 dd = d;
    if (i == 1) switch (c.rng.below(4)) {
      case 0: dd.back() ^= 1 << c.rng.below(5); break;
      case 1: dd.push_back(c.rng.chance(1, 2) ? 0 : c.rng.below(32)); break;
      case 2: dd.resize(c.rng.below(dd.size() + 1)); break;
      case 3: dd.push_back(0); dd.push_back(0); break;
    }
    S hp = ok ? hrp : S("bc");
    S s = b32m(hp, dd, k);
    if (i == 2) s = mutate(c.rng, s, CB, true);
    S wh;
    V5 wd;
    Bytes want;
    bool w = b32d(s, k, wh, wd) && !wd.empty() && wd.size() <= 65 && conv(Bytes(wd.begin() + 1, wd.end()), 5, 8, false, want) && want.size() >= 2 && want.size() <= 40;
    Bytes z = raw(s);
    z.push_back(0);
    In is(z);
    Buf oh(BECH32_MAX_HRP_SIZE + 1), od(BECH32_MAX_DECODE_SIZE);
    size_t dl = 999;
    unsigned ov = 999;
    int r = bech32_decode((char *)oh.p(), &ov, od, &dl, (const char *)is.p(), k);
    eqi("bech32-decode", r, w, "addr=%s", s.c_str());
    eqi("bech32-test", bech32_test((const char *)is.p(), k), w, "addr=%s", s.c_str());
    if (r && w && (S((char *)oh.p()) != wh || ov != wd[0] || dl != want.size() || od.get(std::min(dl, od.size())) != want)) viol("bech32-decode-data", "addr=%s", s.c_str());
    ev(w ? "decode_accept" : "decode_reject");
    eval(fnv(s.data(), s.size(), k + 1));
  }
  ev("bech32");
}

VH_TEST(convert_bits, 30000, 10) {
  int from = c.rng.range(1, 8), to = c.rng.range(1, 8);
  bool pad = c.rng.below(2);
  Bytes in = c.rng.special(c.rng.below(60));
  for (auto &x : in) x &= (1 << from) - 1;
  if (!pad && !in.empty() && c.rng.chance(1, 2)) { Bytes t; conv(in, from, to, true, t); Bytes u; conv(t, to, from, false, u); }
  Bytes w;
  bool ok = conv(in, from, to, pad, w);
  In ii(in);
  for (int cash = 0; cash < 2; cash++) {
    Buf out(BECH32_CONVERT_SIZE(in.size(), from, to, 1));
    size_t n = 999;
    int r = (cash ? cash32_convert_bits : bech32_convert_bits)(out, &n, to, ii, in.size(), from, pad);
    eqi(cash ? "cash32-convert" : "bech32-convert", r, ok, "%d->%d pad=%d in=%s", from, to, pad, hex(in).c_str());
    if (r && ok && (n != w.size() || out.get(std::min(n, out.size())) != w)) viol(cash ? "cash32-convert-data" : "bech32-convert-data", "%d->%d pad=%d in=%s", from, to, pad, hex(in).c_str());
  }
  eval(fnv(in.data(), in.size(), from * 100 + to * 2 + pad));
  ev("convert_bits");
}

// --- cashaddr ---------------------------------------------------------------
static uint64_t cpoly(const V5 &v) {
  uint64_t ch = 1;
  for (uint8_t d : v) {
    uint8_t c0 = ch >> 35;
    ch = (ch & 0x07ffffffffull) << 5 ^ d;
    if (c0 & 1) ch ^= 0x98f2bc8e61ull;
    if (c0 & 2) ch ^= 0x79b76d99e2ull;
    if (c0 & 4) ch ^= 0xf33e5fb3c4ull;
    if (c0 & 8) ch ^= 0xae2eabe2a8ull;
    if (c0 & 16) ch ^= 0x1e4f43e470ull;
  }
  return ch;   // caller xors 1
}
static V5 cpre(const S &p) { V5 v; for (char ch : p) v.push_back(ch & 31); v.push_back(0); return v; }
static S cenc(const S &p, const V5 &d) {
  V5 v = cpre(p);
  v.insert(v.end(), d.begin(), d.end());
  v.insert(v.end(), 8, 0);
  uint64_t k = cpoly(v) ^ 1;
  S s = p + ":";
  for (uint8_t x : d) s += CB[x];
  for (int i = 0; i < 8; i++) s += CB[k >> 5 * (7 - i) & 31];
  return s;
}
static bool alpha(const S &p) { if (p.empty() || p.size() > 83) return false; for (char ch : p) if (ch < 'a' || ch > 'z') return false; return true; }
// Bitcoin ABC's Decode with its character rules
static bool cdec(const S &in, const S &fallback, S &p, V5 &d) {
  bool lo = false, up = false, num = false;
  size_t plen = 0;
  if (in.size() > 196) return false;
  for (size_t i = 0; i < in.size(); i++) {
    char ch = in[i];
    if (ch >= 'a' && ch <= 'z') { lo = true; continue; }
    if (ch >= 'A' && ch <= 'Z') { up = true; continue; }
    if (ch >= '0' && ch <= '9') { num = true; continue; }
    if (ch == ':') { if (num || i == 0 || plen) return false; plen = i; continue; }
    return false;
  }
  if (lo && up) return false;
  S s = in;
  for (auto &ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32;
  if (plen) p = s.substr(0, plen); else p = fallback;
  if (!alpha(p)) return false;
  S body = plen ? s.substr(plen + 1) : s;
  if (body.size() < 8 || body.size() > 112) return false;
  d.clear();
  for (char ch : body) { const char *q = strchr(CB, ch); if (!q || !ch) return false; d.push_back(q - CB); }
  V5 v = cpre(p);
  v.insert(v.end(), d.begin(), d.end());
  if (cpoly(v) != 1) return false;
  d.resize(d.size() - 8);
  return true;
}
static S rand_prefix(Rng &r) {
  static const char *common[] = {"bitcoincash", "bchtest", "bchreg", "a"};
  if (r.chance(2, 3)) return common[r.below(4)];
  S s;
  for (size_t i = 0, n = r.chance(1, 8) ? r.range(80, 86) : r.below(14); i < n; i++) s += (char)(r.chance(1, 30) ? 1 + r.below(255) : 'a' + r.below(26));
  return s;
}
static Bytes zs(const S &s) { Bytes b = raw(s); b.push_back(0); return b; }

VH_TEST(cash32_raw, 50000, 10) {
  S p = rand_prefix(c.rng);
  V5 d = c.rng.bytes(c.rng.chance(1, 6) ? c.rng.below(110) : c.rng.below(60));
  for (auto &x : d) x &= 31;
  bool bad = !d.empty() && c.rng.chance(1, 20);
  if (bad) d[c.rng.below(d.size())] |= 32 << c.rng.below(3);
  bool ok = alpha(p) && d.size() <= 104 && !bad;
  In ip(zs(p)), id(d);
  Buf out(CASH32_MAX_SERIALIZE_SIZE + 1);
  int r = cash32_serialize((char *)out.p(), (const char *)ip.p(), id, d.size());
  eqi("cash32-serialize-result", r, ok, "prefix=%s len=%zu", hex(raw(p)).c_str(), d.size());
  S base = ok ? cenc(p, d) : cenc("bitcoincash", {});
  if (r && ok && S((char *)out.p()) != base) viol("cash32-serialize", "got %s want %s", (char *)out.p(), base.c_str());
  for (int i = 0; i < 3; i++) {
    S s = base, fb = c.rng.chance(2, 3) ? p : rand_prefix(c.rng);
    if (i && c.rng.chance(1, 3)) s = s.substr(s.find(':') + 1);
    if (i == 1 && c.rng.chance(1, 2)) for (auto &ch : s) if (ch >= 'a' && ch <= 'z') ch -= 32;
    if (i) s = mutate(c.rng, s, CB, true);
    S wp;
    V5 wd;
    bool w = cdec(s, fb, wp, wd);
    In is(zs(s)), ifb(zs(fb));
    Buf op(CASH32_MAX_PREFIX_SIZE + 1), od(CASH32_MAX_DESERIALIZE_SIZE);
    size_t dl = 999;
    int r = cash32_deserialize((char *)op.p(), od, &dl, (const char *)is.p(), (const char *)ifb.p());
    eqi("cash32-deserialize", r, w, "str=%s fallback=%s", s.c_str(), hex(raw(fb)).c_str());
    eqi("cash32-is", cash32_is((const char *)is.p(), (const char *)ifb.p()), w, "str=%s", s.c_str());
    if (r && w && (S((char *)op.p()) != wp || dl != wd.size() || od.get(std::min(dl, od.size())) != wd)) viol("cash32-deserialize-data", "str=%s", s.c_str());
    ev(w ? "decode_accept" : "decode_reject");
    eval(fnv(s.data(), s.size(), 61));
  }
  ev("cash32");
}

VH_TEST(cash32_addr, 60000, 10) {
  S p = rand_prefix(c.rng);
  static const size_t sizes[] = {20, 24, 28, 32, 40, 48, 56, 64};
  unsigned type = c.rng.chance(1, 10) ? c.rng.below(40) : c.rng.below(16);
  Bytes h = c.rng.special(c.rng.chance(1, 8) ? c.rng.below(70) : sizes[c.rng.below(8)]);
  int code = -1;
  for (int i = 0; i < 8; i++) if (sizes[i] == h.size()) code = i;
  bool ok = type <= 15 && code >= 0 && alpha(p);
  In ip(zs(p)), ih(h);
  Buf out(CASH32_MAX_ENCODE_SIZE + 1);
  int r = cash32_encode((char *)out.p(), (const char *)ip.p(), type, ih, h.size());
  eqi("cash32-encode-result", r, ok, "prefix=%s type=%u len=%zu", hex(raw(p)).c_str(), type, h.size());
  Bytes d, pl = h;
  if (h.size() > 64) pl.resize(64);
  pl.insert(pl.begin(), (uint8_t)(type << 3 | (code < 0 ? 0 : code)));
  conv(pl, 8, 5, true, d);
  if (r && ok) { S w = cenc(p, d); if (S((char *)out.p()) != w) viol("cash32-encode", "got %s want %s", (char *)out.p(), w.c_str()); }
  for (int i = 0; i < 3; i++) {
    Bytes pl2 = pl;
    V5 dd;
    S pp = alpha(p) ? p : S("bitcoincash");
    if (i == 1) switch (c.rng.below(3)) {
      case 0: pl2[0] = c.rng.below(256); break;
      case 1: pl2.resize(c.rng.below(pl2.size() + 1)); break;
      case 2: break;
    }
    conv(pl2, 8, 5, true, dd);
    if (i == 1 && c.rng.chance(1, 2) && !dd.empty()) { if (c.rng.chance(1, 2)) dd.back() ^= 1 << c.rng.below(5); else dd.push_back(c.rng.below(2)); }
    S s = cenc(pp, dd), exp = c.rng.chance(5, 6) ? pp : rand_prefix(c.rng);
    if (c.rng.chance(1, 3)) s = s.substr(s.find(':') + 1);
    if (i == 2) s = mutate(c.rng, s, CB, true);
    S wp;
    V5 wd;
    Bytes want;
    bool w = cdec(s, exp, wp, wd) && wp == exp && !wd.empty() && wd.size() <= 104 && conv(wd, 5, 8, false, want) && !want.empty() && want.size() <= 65;
    if (w) w = (want[0] & 0x80) == 0 && want.size() - 1 == sizes[want[0] & 7];
    In is(zs(s)), ie(zs(exp));
    Buf oh(CASH32_MAX_DECODE_SIZE);
    unsigned ot = 99;
    size_t ol = 999;
    int r = cash32_decode(&ot, oh, &ol, (const char *)is.p(), (const char *)ie.p());
    eqi("cash32-decode", r, w, "addr=%s expect=%s", s.c_str(), exp.c_str());
    eqi("cash32-test", cash32_test((const char *)is.p(), (const char *)ie.p()), w, "addr=%s", s.c_str());
    if (r && w && (ot != want[0] >> 3 || ol != want.size() - 1 || oh.get(std::min(ol, oh.size())) != Bytes(want.begin() + 1, want.end()))) viol("cash32-decode-data", "addr=%s", s.c_str());
    ev(w ? "decode_accept" : "decode_reject");
    eval(fnv(s.data(), s.size(), 62));
  }
  ev("cash32");
}
