// C03: block ciphers
#include "ref_cipher.hpp"
using namespace vh;

static Bytes gen_key(Rng &r, const ref::CInfo &ci) {
  size_t n = ci.key;
  if (ci.id == CIPHER_ARC2 || ci.id == CIPHER_ARC2_GUTMANN) n = r.range(1, 128);
  else if (ci.id == CIPHER_BLOWFISH) n = r.range(1, 72);
  Bytes k = r.special(n);
  if (ci.id == CIPHER_IDEA && r.chance(1, 2)) for (size_t i = 0; i + 1 < n; i += 2) switch (r.below(4)) { case 0: k[i] = k[i + 1] = 0; break; case 1: k[i] = 0; k[i + 1] = 1; break; }
  return k;
}

VH_TEST(block, 120000, 20) {
  const ref::CInfo &ci = ref::ciphers[c.idx % ref::ciphers.size()];
  Bytes key = gen_key(c.rng, ci);
  In k(key);
  cipher_t *x = (cipher_t *)malloc(sizeof *x);
  memset(x, 0xdd, sizeof *x);
  if (!cipher_init(x, ci.id, k, key.size())) { viol(fmt("init:%s", ci.name).c_str(), "legal key refused len=%zu", key.size()); free(x); return; }
  ref::Block rb(ci.id, key);
  for (int i = 0; i < 4; i++) {
    Bytes pt = c.rng.special(ci.block);
    if (ci.id == CIPHER_IDEA && c.rng.chance(1, 3)) { size_t j = 2 * c.rng.below(4); pt[j] = pt[j + 1] = 0; }
    Bytes want = rb.enc(pt);
    In in(pt);
    Buf out(ci.block);
    cipher_encrypt(x, out, in);
    eq(fmt("encrypt:%s", ci.name).c_str(), out.get(), want, "key=%s pt=%s", hex(key).c_str(), hex(pt).c_str());
    Bytes ct = out.get();
    In ic(ct);
    Buf back(ci.block);
    cipher_decrypt(x, back, ic);
    eq(fmt("inverse:%s", ci.name).c_str(), back.get(), pt, "key=%s ct=%s", hex(key).c_str(), hex(ct).c_str());
    Bytes rc = c.rng.special(ci.block);
    Buf io(rc);
    cipher_decrypt(x, io, io);
    eq(fmt("decrypt-inplace:%s", ci.name).c_str(), io.get(), rb.dec(rc), "key=%s ct=%s", hex(key).c_str(), hex(rc).c_str());
    cipher_encrypt(x, io, io);
    eq(fmt("encrypt-inplace:%s", ci.name).c_str(), io.get(), rc, "key=%s", hex(key).c_str());
    eval(fnv(pt.data(), pt.size(), fnv(key.data(), key.size(), ci.id)));
    ev("blocks", 4);
  }
  ev("keys");
  sample(fmt("%s key=%s", ci.name, hex(key).c_str()));
  free(x);
}

// iterate encryption so that every table entry is exercised with many indices
VH_TEST(chain, 2400, 15) {
  const ref::CInfo &ci = ref::ciphers[c.idx % ref::ciphers.size()];
  Bytes key = gen_key(c.rng, ci);
  In k(key);
  cipher_t x;
  if (!cipher_init(&x, ci.id, k, key.size())) { viol(fmt("init:%s", ci.name).c_str(), "legal key refused"); return; }
  ref::Block rb(ci.id, key);
  Buf io(c.rng.bytes(ci.block));
  Bytes w = io.get(), start = w;
  int n = 300;
  for (int i = 0; i < n; i++) { cipher_encrypt(&x, io, io); rb.run(true, w.data(), w.data()); }
  eq(fmt("chain:%s", ci.name).c_str(), io.get(), w, "after %d encryptions key=%s", n, hex(key).c_str());
  for (int i = 0; i < n; i++) cipher_decrypt(&x, io, io);
  eq(fmt("chain-inverse:%s", ci.name).c_str(), io.get(), start, "key=%s", hex(key).c_str());
  eval(fnv(key.data(), key.size(), ci.id * 31));
  ev("blocks", 2 * n);
}

VH_TEST(keylen, 24 * 12, 1) {
  const ref::CInfo &ci = ref::ciphers[c.idx % ref::ciphers.size()];
  eqi("key-size", cipher_key_size(ci.id), ci.key, "%s", ci.name);
  eqi("block-size", cipher_block_size(ci.id), ci.block, "%s", ci.name);
  size_t from = (c.idx / 24) * 12;
  for (size_t n = from; n < from + 12; n++) {
    Bytes key = c.rng.bytes(n);
    In k(key);
    cipher_t x;
    eqi(fmt("keylen:%s", ci.name).c_str(), cipher_init(&x, ci.id, k, n), ref::key_ok(ci, n), "len=%zu", n);
    eval(fnv(&n, 8, ci.id * 77));
    ev("key_lengths");
  }
  cipher_t x;
  Bytes key = c.rng.bytes(16);
  In k(key);
  eqi("bad-id", cipher_init(&x, (cipher_id_t)(24 + c.rng.below(1000)), k, 16), 0, "unknown id");
}

// the per-algorithm entry points
#define SPEC(NAME, T, INIT, ENC, DEC, BS, ID) \
  case __COUNTER__ - base: { T *x = (T *)malloc(sizeof(T)); memset(x, 0x11, sizeof(T)); INIT; ENC(x, out, in); Buf o2(BS); DEC(x, o2, out); \
    eq("specific:" NAME, out.get(BS), ref::Block(ID, key).enc(pt8(BS)), "key=%s", hex(key).c_str()); eq("specific-inverse:" NAME, o2.get(), pt8(BS), "key=%s", hex(key).c_str()); free(x); break; }
VH_TEST(specific, 24000, 15) {
  Bytes key, pt = c.rng.special(16);
  auto pt8 = [&](size_t n) { return Bytes(pt.begin(), pt.begin() + n); };
  In in(pt);
  Buf out(16);
  auto K = [&](size_t n) { key = c.rng.special(n); return key.data(); };
  enum { base = __COUNTER__ + 1 };
  switch (c.idx % 20) {
    SPEC("aes128", aes_t, aes_init(x, 128, K(16)), aes_encrypt, aes_decrypt, 16, CIPHER_AES128)
    SPEC("aes192", aes_t, aes_init(x, 192, K(24)), aes_encrypt, aes_decrypt, 16, CIPHER_AES192)
    SPEC("aes256", aes_t, aes_init(x, 256, K(32)), aes_encrypt, aes_decrypt, 16, CIPHER_AES256)
    SPEC("aes256s", aes_t, (aes_init_encrypt(x, 256, K(32)), aes_init_decrypt(x)), aes_encrypt, aes_decrypt, 16, CIPHER_AES256)
    SPEC("arc2", arc2_t, (K(c.rng.range(1, 128)), arc2_init(x, key.data(), key.size(), key.size() * 8)), arc2_encrypt, arc2_decrypt, 8, CIPHER_ARC2)
    SPEC("arc2g", arc2_t, (K(c.rng.range(1, 128)), arc2_init(x, key.data(), key.size(), 0)), arc2_encrypt, arc2_decrypt, 8, CIPHER_ARC2_GUTMANN)
    SPEC("blowfish", blowfish_t, (K(c.rng.range(1, 72)), blowfish_init(x, key.data(), key.size(), nullptr, 0)), blowfish_encrypt, blowfish_decrypt, 8, CIPHER_BLOWFISH)
    SPEC("camellia128", camellia_t, camellia_init(x, 128, K(16)), camellia_encrypt, camellia_decrypt, 16, CIPHER_CAMELLIA128)
    SPEC("camellia192", camellia_t, camellia_init(x, 192, K(24)), camellia_encrypt, camellia_decrypt, 16, CIPHER_CAMELLIA192)
    SPEC("camellia256", camellia_t, camellia_init(x, 256, K(32)), camellia_encrypt, camellia_decrypt, 16, CIPHER_CAMELLIA256)
    SPEC("cast5", cast5_t, cast5_init(x, K(16)), cast5_encrypt, cast5_decrypt, 8, CIPHER_CAST5)
    SPEC("des", des_t, des_init(x, K(8)), des_encrypt, des_decrypt, 8, CIPHER_DES)
    SPEC("des_ede", des_ede_t, des_ede_init(x, K(16)), des_ede_encrypt, des_ede_decrypt, 8, CIPHER_DES_EDE)
    SPEC("des_ede3", des_ede3_t, des_ede3_init(x, K(24)), des_ede3_encrypt, des_ede3_decrypt, 8, CIPHER_DES_EDE3)
    SPEC("idea", idea_t, idea_init(x, K(16)), idea_encrypt, idea_decrypt, 8, CIPHER_IDEA)
    SPEC("ideas", idea_t, (idea_init_encrypt(x, K(16)), idea_init_decrypt(x)), idea_encrypt, idea_decrypt, 8, CIPHER_IDEA)
    SPEC("serpent128", serpent_t, serpent_init(x, 128, K(16)), serpent_encrypt, serpent_decrypt, 16, CIPHER_SERPENT128)
    SPEC("serpent192", serpent_t, serpent_init(x, 192, K(24)), serpent_encrypt, serpent_decrypt, 16, CIPHER_SERPENT192)
    SPEC("twofish192", twofish_t, twofish_init(x, 192, K(24)), twofish_encrypt, twofish_decrypt, 16, CIPHER_TWOFISH192)
    SPEC("twofish256", twofish_t, twofish_init(x, 256, K(32)), twofish_encrypt, twofish_decrypt, 16, CIPHER_TWOFISH256)
  }
  eval(fnv(key.data(), key.size(), c.idx % 20 + 1000));
  ev("specific_entry");
}

// ARC2 with every effective key size
VH_TEST(arc2_ekb, 4000, 10) {
  Bytes key = c.rng.special(c.rng.range(1, 128)), pt = c.rng.special(8);
  unsigned ekb = c.rng.range(1, 1024);
  In k(key), in(pt);
  arc2_t x;
  arc2_init(&x, k, key.size(), ekb);
  Buf out(8), back(8);
  arc2_encrypt(&x, out, in);
  arc2_decrypt(&x, back, out);
  alignas(16) uint8_t ctx[1024];
  nettle_arctwo_set_key_ekb(ctx, key.size(), key.data(), ekb);
  Bytes w(8);
  nettle_arctwo_encrypt(ctx, 8, w.data(), pt.data());
  eq("arc2-ekb", out.get(), w, "key=%s ekb=%u pt=%s", hex(key).c_str(), ekb, hex(pt).c_str());
  eq("arc2-ekb-inverse", back.get(), pt, "key=%s ekb=%u", hex(key).c_str(), ekb);
  eval(fnv(key.data(), key.size(), ekb));
  ev("arc2_effective_bits");
}

VH_TEST(pkcs7, 20000, 10) {
  size_t bs = c.rng.chance(1, 2) ? 16 : c.rng.chance(1, 2) ? 8 : c.rng.range(1, 255);
  size_t n = c.rng.below(bs + (c.rng.chance(1, 8) ? 1 : 0));
  Bytes m = c.rng.special(n);
  In in(m);
  Buf out(bs), back(bs);
  pkcs7_pad(out, in, n, bs);
  Bytes w = m;
  w.resize(bs, bs - n);
  eq("pkcs7-pad", out.get(), w, "len=%zu size=%zu", n, bs);
  Bytes t = w;
  if (c.rng.chance(2, 3)) for (int i = 0; i <= (int)c.rng.below(3); i++) t[c.rng.below(bs)] = c.rng.chance(1, 2) ? c.rng.below(20) : c.rng.below(256);
  size_t p = t[bs - 1];
  bool ok = p >= 1 && p <= bs;
  if (ok) for (size_t i = 0; i < p; i++) ok &= t[bs - 1 - i] == p;
  size_t len = 999;
  In it(t);
  int r = pkcs7_unpad(back, &len, it, bs);
  eqi("pkcs7-unpad", r, ok, "block=%s", hex(t).c_str());
  eqi("pkcs7-unpad-len", len, ok ? bs - p : 0, "block=%s", hex(t).c_str());
  eval(fnv(t.data(), t.size(), n));
  ev(ok ? "pad_accept" : "pad_reject");
}
