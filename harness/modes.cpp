// C04: cipher modes as streams
#include "ref_cipher.hpp"
using namespace vh;

static const char *mode_name[] = {"RAW", "ECB", "CBC", "CTS", "XTS", "CTR", "CFB", "OFB"};

struct Setup { ref::CInfo ci; mode_id_t md; Bytes key, key1, key2, iv; };

static Setup setup(Rng &r, uint64_t idx) {
  Setup s{ref::ciphers[idx % 24], (mode_id_t)((idx / 24) % 8), {}, {}, {}, {}};
  size_t n = s.ci.key;
  if (ref::var_key(s.ci.id)) n = r.range(1, s.ci.id == CIPHER_BLOWFISH ? 72 : 128);
  s.key1 = r.bytes(n);
  s.key = s.key1;
  if (s.md == CIPHER_MODE_XTS) { do s.key2 = r.bytes(n); while (s.key2 == s.key1); ref::app(s.key, s.key2); }
  if (s.md >= CIPHER_MODE_CBC) s.iv = r.special(s.ci.block);
  if (s.md == CIPHER_MODE_CTR && r.chance(1, 2)) { size_t k = r.range(1, s.ci.block); for (size_t i = 0; i < k; i++) s.iv[s.ci.block - 1 - i] = 0xff; s.iv.back() -= r.below(4); }
  return s;
}

// returns final's result; output collected; size bounds monitored
static bool tor_stream(Case &c, const Setup &s, bool enc, const Bytes &m, bool padding, bool set_pad, Bytes &out) {
  In k(s.key), iv(s.iv), in(m);
  cipher_stream_t *x = (cipher_stream_t *)malloc(sizeof *x);
  memset(x, 0xbe, sizeof *x);
  out.clear();
  if (!cipher_stream_init(x, s.ci.id, s.md, enc, k, s.key.size(), iv, s.iv.size())) {
    viol(fmt("init:%s", mode_name[s.md]).c_str(), "legal parameters refused: %s", s.ci.name);
    free(x);
    return false;
  }
  bool may = s.md == CIPHER_MODE_ECB || s.md == CIPHER_MODE_CBC || s.md == CIPHER_MODE_CTS || s.md == CIPHER_MODE_XTS;
  if (set_pad) eqi("set-padding", cipher_stream_set_padding(x, padding), may, "%s", mode_name[s.md]);
  size_t o = 0;
  for (size_t n : c.rng.split(m.size(), s.ci.block)) {
    size_t bound = cipher_stream_update_size(x, n), got = 12345;
    Buf ob(bound);
    cipher_stream_update(x, ob, &got, in.p() + o, n);
    o += n;
    if (got > bound) { viol(fmt("update-size:%s", mode_name[s.md]).c_str(), "wrote %zu > announced %zu", got, bound); free(x); return false; }
    ref::app(out, ob.get(got));
    ev("update_calls");
  }
  size_t bound = cipher_stream_final_size(x), got = 12345;
  Buf ob(bound);
  int r = cipher_stream_final(x, ob, &got);
  if (got > bound) viol(fmt("final-size:%s", mode_name[s.md]).c_str(), "wrote %zu > announced %zu", got, bound);
  else ref::app(out, ob.get(got));
  free(x);
  return r;
}

VH_TEST(stream, 24 * 8 * 260, 20) {
  Setup s = setup(c.rng, c.idx);
  bool enc = c.rng.chance(1, 2);
  bool set_pad = c.rng.chance(1, 3), padding = set_pad ? c.rng.chance(1, 2) : true;
  Bytes m = c.rng.special(c.rng.big(c.rng.chance(1, 12) ? 700 : 120, s.ci.block));
  ref::Block k(s.ci.id, s.key1);
  ref::Block *k2 = s.md == CIPHER_MODE_XTS ? new ref::Block(s.ci.id, s.key2) : nullptr;
  const char *mn = mode_name[s.md];
  Bytes pt = m;
  if (!enc) {  // decrypt something meaningful most of the time
    ref::Out e = ref::mode(s.md, true, k, k2, s.iv, m, padding);
    if (e.ok && c.rng.chance(3, 4)) m = e.data;
    if (!m.empty() && c.rng.chance(1, 4)) m[m.size() - 1 - c.rng.below(std::min<size_t>(m.size(), 2 * s.ci.block))] ^= 1 << c.rng.below(8);
    if (!m.empty() && c.rng.chance(1, 10)) m.pop_back();
  }
  ref::Out w = ref::mode(s.md, enc, k, k2, s.iv, m, padding);
  Bytes got;
  bool r = tor_stream(c, s, enc, m, padding, set_pad, got);
  std::string id = fmt("%s:%s-%s", enc ? "encrypt" : "decrypt", s.ci.name, mn);
  eqi((id + ":result").c_str(), r, w.ok, "len=%zu padding=%d key=%s iv=%s data=%s", m.size(), padding, hex(s.key).c_str(), hex(s.iv).c_str(), hex(m).c_str());
  if (r && w.ok) eq(id.c_str(), got, w.data, "len=%zu padding=%d key=%s iv=%s data=%s", m.size(), padding, hex(s.key).c_str(), hex(s.iv).c_str(), hex(m).c_str());
  eval(fnv(m.data(), m.size(), fnv(s.key.data(), s.key.size(), s.md * 100 + s.ci.id)));
  ev(w.ok ? "accepted" : "rejected");
  ev(mn);
  sample(fmt("%s-%s %s len=%zu padding=%d -> %s", s.ci.name, mn, enc ? "encrypt" : "decrypt", m.size(), padding, w.ok ? "ok" : "refused"));
  // full inverse through the library
  if (r && enc) {
    Bytes back;
    bool r2 = tor_stream(c, s, false, got, padding, set_pad, back);
    if (!r2) viol(("roundtrip:" + id).c_str(), "own ciphertext refused len=%zu", m.size());
    else eq(("roundtrip:" + id).c_str(), back, m, "len=%zu key=%s iv=%s", m.size(), hex(s.key).c_str(), hex(s.iv).c_str());
    ev("roundtrips");
  }
  // ciphertext stealing on block-aligned data against SP 800-38A addendum CS1/CS2/CS3
  if (s.md == CIPHER_MODE_CTS && enc && padding && r && m.size() % s.ci.block == 0 && m.size() >= 2 * s.ci.block) {
    Bytes cs1 = ref::cbc(k, s.iv, m, true), cs3 = cs1;
    size_t b = s.ci.block, n = cs1.size();
    std::swap_ranges(cs3.begin() + n - 2 * b, cs3.begin() + n - b, cs3.begin() + n - b);
    if (got != cs1 && got != cs3) viol("cts-aligned-nonstandard", "%s len=%zu matches neither CS1/CS2 nor CS3", s.ci.name, n);
    ev("cts_aligned");
  }
  delete k2;
}

VH_TEST(oneshot, 24 * 8 * 30, 12) {
  Setup s = setup(c.rng, c.idx);
  bool enc = c.rng.chance(1, 2);
  Bytes m = c.rng.special(c.rng.len(150, s.ci.block));
  ref::Block k(s.ci.id, s.key1);
  ref::Block k2(s.ci.id, s.md == CIPHER_MODE_XTS ? s.key2 : s.key1);
  if (!enc && c.rng.chance(2, 3)) { ref::Out e = ref::mode(s.md, true, k, &k2, s.iv, m, true); if (e.ok) m = e.data; }
  ref::Out w = ref::mode(s.md, enc, k, &k2, s.iv, m, true);
  In ik(s.key), iv(s.iv), in(m);
  Buf out(m.size() + (enc ? s.ci.block : 0));
  size_t n = 777;
  int r = (enc ? cipher_static_encrypt : cipher_static_decrypt)(out, &n, s.ci.id, s.md, ik, s.key.size(), iv, s.iv.size(), in, m.size());
  std::string id = fmt("static-%s:%s-%s", enc ? "encrypt" : "decrypt", s.ci.name, mode_name[s.md]);
  eqi((id + ":result").c_str(), r, w.ok, "len=%zu data=%s", m.size(), hex(m).c_str());
  if (r && w.ok) { if (n <= out.size()) eq(id.c_str(), out.get(n), w.data, "len=%zu", m.size()); else viol("static-size", "%zu > %zu", n, out.size()); }
  if (!r) eqi("static-fail-len", n, 0, "%s", id.c_str());
  eval(fnv(m.data(), m.size(), fnv(s.key.data(), s.key.size(), 9000 + s.md * 100 + s.ci.id)));
  ev("one_shot");
}

// direct mode functions, in place and out of place, whole blocks / arbitrary pieces
VH_TEST(direct, 24 * 8 * 40, 15) {
  Setup s = setup(c.rng, c.idx);
  if (s.md == CIPHER_MODE_RAW || s.md == CIPHER_MODE_CTS) { eval(0, false); return; }
  bool enc = c.rng.chance(1, 2), inplace = c.rng.chance(1, 2), streamy = s.md >= CIPHER_MODE_CTR;
  size_t bs = s.ci.block;
  Bytes m = c.rng.special(streamy ? c.rng.big(130, bs) : bs * c.rng.below(9));
  ref::Block k(s.ci.id, s.key1);
  ref::Block k2(s.ci.id, s.md == CIPHER_MODE_XTS ? s.key2 : s.key1);
  ref::Out w = ref::mode(s.md, enc, k, &k2, s.iv, m, false);
  cipher_t x;
  In ik(s.key1), iv(s.iv), in(m);
  cipher_init(&x, s.ci.id, ik, s.key1.size());
  cbc_t cb; ctr_t st;
  memset(&cb, 0x44, sizeof cb); memset(&st, 0x44, sizeof st);
  if (s.md == CIPHER_MODE_CBC) cbc_init(&cb, &x, iv);
  if (s.md == CIPHER_MODE_XTS) { xts_init(&cb, &x, iv); In i2(s.key2); eqi("xts-setup", xts_setup(&cb, &x, i2, s.key2.size()), 1, "%s", s.ci.name); }
  if (s.md == CIPHER_MODE_CTR) ctr_init(&st, &x, iv);
  if (s.md == CIPHER_MODE_CFB) cfb_init(&st, &x, iv);
  if (s.md == CIPHER_MODE_OFB) ofb_init(&st, &x, iv);
  Buf out(m);
  std::vector<size_t> sp;
  if (streamy) sp = c.rng.split(m.size(), bs);
  else { size_t left = m.size() / bs; while (left) { size_t q = c.rng.range(0, left); sp.push_back(q * bs); left -= q; } }
  size_t o = 0;
  for (size_t n : sp) {
    uint8_t *d = out.p() + o;
    const uint8_t *sr = inplace ? d : in.p() + o;
    switch (s.md) {
      case CIPHER_MODE_ECB: (enc ? ecb_encrypt : ecb_decrypt)(&x, d, sr, n); break;
      case CIPHER_MODE_CBC: (enc ? cbc_encrypt : cbc_decrypt)(&cb, &x, d, sr, n); break;
      case CIPHER_MODE_XTS: (enc ? xts_encrypt : xts_decrypt)(&cb, &x, d, sr, n); break;
      case CIPHER_MODE_CTR: ctr_crypt(&st, &x, d, sr, n); break;
      case CIPHER_MODE_CFB: (enc ? cfb_encrypt : cfb_decrypt)(&st, &x, d, sr, n); break;
      default: ofb_crypt(&st, &x, d, sr, n); break;
    }
    o += n;
  }
  eq(fmt("direct:%s", mode_name[s.md]).c_str(), out.get(), w.data, "%s enc=%d inplace=%d len=%zu key=%s iv=%s", s.ci.name, enc, inplace, m.size(), hex(s.key).c_str(), hex(s.iv).c_str());
  eval(fnv(m.data(), m.size(), fnv(s.key.data(), s.key.size(), 5000 + s.md * 100 + s.ci.id)));
  ev(inplace ? "in_place" : "out_of_place");
}

// ciphertext stealing for ECB: the message keeps its length, the last two blocks are exchanged as in SP 800-38A's addendum
VH_TEST(ecb_steal, 24 * 60, 8) {
  const ref::CInfo &ci = ref::ciphers[c.idx % 24];
  size_t bs = ci.block, tail = c.rng.range(1, bs - 1);
  Bytes key = c.rng.bytes(ref::var_key(ci.id) ? c.rng.range(1, ci.id == CIPHER_BLOWFISH ? 72 : 128) : ci.key);
  Bytes m = c.rng.special(bs * c.rng.range(1, 4) + tail);
  ref::Block k(ci.id, key);
  In ik(key);
  cipher_t x;
  if (!cipher_init(&x, ci.id, ik, key.size())) { viol("init", "refused: %s", ci.name); return; }
  size_t full = m.size() - tail;
  Bytes want = m;
  for (size_t i = 0; i < full; i += bs) k.run(true, &want[i], &m[i]);
  Bytes last(want.begin() + full - bs, want.begin() + full), mix = last;
  std::copy(m.begin() + full, m.end(), mix.begin());
  k.run(true, &want[full - bs], mix.data());
  std::copy(last.begin(), last.begin() + tail, want.begin() + full);
  Buf b(m);
  ecb_encrypt(&x, b, b, full);
  ecb_steal(&x, b.p() + full - bs, b.p() + full, tail);
  eq("ecb-steal", b.get(), want, "%s len=%zu", ci.name, m.size());
  ecb_decrypt(&x, b, b, full);
  ecb_unsteal(&x, b.p() + full - bs, b.p() + full, tail);
  eq("ecb-unsteal", b.get(), m, "%s len=%zu", ci.name, m.size());
  eval(fnv(m.data(), m.size(), fnv(key.data(), key.size(), 9000 + ci.id)));
  ev("ecb_stolen");
}

// stealing with the CBC and XTS functions called directly, on a message of at least one whole block and a part of one
VH_TEST(steal, 24 * 60, 8) {
  Setup s = setup(c.rng, c.idx % 24 * 8 + (c.idx / 24 % 2 ? 0 : 1));
  s.md = CIPHER_MODE_CBC;
  if (s.ci.block == 16 && c.rng.chance(1, 2)) s.md = CIPHER_MODE_XTS;
  size_t bs = s.ci.block, tail = c.rng.range(1, bs - 1);
  s.key1 = c.rng.bytes(ref::var_key(s.ci.id) ? c.rng.range(1, s.ci.id == CIPHER_BLOWFISH ? 72 : 128) : s.ci.key);
  s.key2 = c.rng.bytes(s.key1.size());
  s.iv = c.rng.special(bs);
  Bytes m = c.rng.special(bs * c.rng.range(1, 4) + tail);
  ref::Block k(s.ci.id, s.key1), k2(s.ci.id, s.md == CIPHER_MODE_XTS ? s.key2 : s.key1);
  ref::Out w = ref::mode(s.md == CIPHER_MODE_CBC ? CIPHER_MODE_CTS : CIPHER_MODE_XTS, true, k, &k2, s.iv, m, true);
  if (!w.ok) { viol("model", "no ciphertext"); return; }
  In ik(s.key1), i2(s.key2), iv(s.iv);
  cipher_t x;
  if (!cipher_init(&x, s.ci.id, ik, s.key1.size())) { viol("init", "refused: %s", s.ci.name); return; }
  size_t full = m.size() - tail;
  Buf b(m);
  cbc_t cb;
  for (int dec = 0; dec < 2; dec++) {
    memset(&cb, 0x44, sizeof cb);
    if (s.md == CIPHER_MODE_CBC) {
      cbc_init(&cb, &x, iv);
      (dec ? cbc_decrypt : cbc_encrypt)(&cb, &x, b, b, full);
      (dec ? cbc_unsteal : cbc_steal)(&cb, &x, b.p() + full - bs, b.p() + full, tail);
    } else {
      xts_init(&cb, &x, iv);
      eqi("xts-setup", xts_setup(&cb, &x, i2, s.key2.size()), 1, "%s", s.ci.name);
      (dec ? xts_decrypt : xts_encrypt)(&cb, &x, b, b, full);
      (dec ? xts_unsteal : xts_steal)(&cb, &x, b.p() + full - bs, b.p() + full, tail);
    }
    eq(fmt("%s:%s", dec ? "unsteal" : "steal", mode_name[s.md]).c_str(), b.get(), dec ? m : w.data, "%s len=%zu", s.ci.name, m.size());
  }
  eval(fnv(m.data(), m.size(), fnv(s.key1.data(), s.key1.size(), 9500 + s.md * 100 + s.ci.id)));
  ev("stolen_direct");
}

// cipher_stream_crypt: aligned data only, refused otherwise
VH_TEST(stream_crypt, 24 * 8 * 10, 8) {
  Setup s = setup(c.rng, c.idx);
  bool enc = c.rng.chance(1, 2);
  size_t bs = s.ci.block;
  Bytes m = c.rng.bytes(c.rng.chance(1, 3) ? c.rng.below(60) : bs * c.rng.below(5));
  ref::Block k(s.ci.id, s.key1);
  ref::Block k2(s.ci.id, s.md == CIPHER_MODE_XTS ? s.key2 : s.key1);
  In ik(s.key), iv(s.iv), in(m);
  cipher_stream_t x;
  if (!cipher_stream_init(&x, s.ci.id, s.md, enc, ik, s.key.size(), iv, s.iv.size())) { viol("init", "refused"); return; }
  bool blocky = s.md <= CIPHER_MODE_XTS;
  bool may = s.md == CIPHER_MODE_ECB || s.md == CIPHER_MODE_CBC || s.md == CIPHER_MODE_CTS || s.md == CIPHER_MODE_XTS;
  if (may) cipher_stream_set_padding(&x, 0);
  Buf out(m.size());
  int r = cipher_stream_crypt(&x, out, in, m.size());
  eqi("stream-crypt", r, !blocky || m.size() % bs == 0, "%s-%s len=%zu", s.ci.name, mode_name[s.md], m.size());
  if (r) eq("stream-crypt-data", out.get(), ref::mode(s.md, enc, k, &k2, s.iv, m, false).data, "%s-%s len=%zu", s.ci.name, mode_name[s.md], m.size());
  eval(fnv(m.data(), m.size(), fnv(s.key.data(), s.key.size(), 7000 + s.md * 100 + s.ci.id)));
  ev("stream_crypt");
}

VH_TEST(params, 24 * 8 * 10, 8) {
  // wrong IV length, wrong key length, equal XTS halves, unknown mode
  Setup s = setup(c.rng, c.idx);
  cipher_stream_t x;
  size_t ivn = c.rng.below(40), kn = c.rng.below(80);
  Bytes key = c.rng.bytes(kn), iv = c.rng.bytes(ivn);
  In ik(s.key), iiv(s.iv), bk(key), biv(iv);
  eqi("bad-iv", cipher_stream_init(&x, s.ci.id, s.md, 1, ik, s.key.size(), biv, ivn), ivn == s.iv.size(), "%s-%s ivlen=%zu", s.ci.name, mode_name[s.md], ivn);
  bool kok = s.md == CIPHER_MODE_XTS ? kn && kn % 2 == 0 && ref::key_ok(s.ci, kn / 2) && !std::equal(key.begin(), key.begin() + kn / 2, key.begin() + kn / 2) : ref::key_ok(s.ci, kn);
  eqi("bad-key", cipher_stream_init(&x, s.ci.id, s.md, c.rng.below(2), bk, kn, iiv, s.iv.size()), kok, "%s-%s keylen=%zu", s.ci.name, mode_name[s.md], kn);
  if (s.md == CIPHER_MODE_XTS) {
    Bytes dup = s.key1;
    ref::app(dup, s.key1);
    In d(dup);
    eqi("xts-equal-halves", cipher_stream_init(&x, s.ci.id, s.md, 1, d, dup.size(), iiv, s.iv.size()), 0, "%s", s.ci.name);
  }
  eqi("bad-mode", cipher_stream_init(&x, s.ci.id, (mode_id_t)(11 + c.rng.below(100)), 1, ik, s.key.size(), iiv, s.iv.size()), 0, "unknown mode");
  eval(fnv(key.data(), kn, ivn * 1000 + s.md * 24 + s.ci.id));
  ev("parameter_checks");
}
