// C08: deterministic random bit generators as state machines against SP 800-90A models
#include "ref_hash.hpp"
#include "ref_cipher.hpp"
extern "C" {
#include <torsion/drbg.h>
}
using namespace vh;

struct HmacM {
  hash_id_t h;
  Bytes K, V;
  void update(const Bytes &d) {
    K = ref::hmac(h, K, ref::cat({V, {0}, d}));
    V = ref::hmac(h, K, V);
    if (d.empty()) return;
    K = ref::hmac(h, K, ref::cat({V, {1}, d}));
    V = ref::hmac(h, K, V);
  }
  void init(hash_id_t id, const Bytes &seed) { h = id; K.assign(ref::info(id).size, 0); V.assign(ref::info(id).size, 1); update(seed); }
  Bytes gen(size_t n, const Bytes &add) {
    if (!add.empty()) update(add);
    Bytes o;
    while (o.size() < n) { V = ref::hmac(h, K, V); o.insert(o.end(), V.begin(), V.end()); }
    o.resize(n);
    update(add);
    return o;
  }
};

struct HashM {
  hash_id_t h;
  size_t len;
  Bytes V, C;
  uint64_t ctr;
  Bytes df(const Bytes &in) {
    Bytes o;
    uint32_t bits = len * 8;
    for (int i = 1; o.size() < len; i++) o = ref::cat({o, ref::hash(h, ref::cat({{(uint8_t)i, (uint8_t)(bits >> 24), (uint8_t)(bits >> 16), (uint8_t)(bits >> 8), (uint8_t)bits}, in}))});
    o.resize(len);
    return o;
  }
  static void addto(Bytes &a, const Bytes &b) {
    unsigned cy = 0;
    for (size_t i = 0; i < a.size(); i++) { cy += a[a.size() - 1 - i] + (i < b.size() ? b[b.size() - 1 - i] : 0); a[a.size() - 1 - i] = (uint8_t)cy; cy >>= 8; }
  }
  void seed(const Bytes &m) { V = df(m); C = df(ref::cat({{0}, V})); ctr = 1; }
  void init(hash_id_t id, const Bytes &s) { h = id; len = ref::info(id).size <= 32 ? 55 : 111; seed(s); }
  void reseed(const Bytes &s) { seed(ref::cat({{1}, V, s})); }
  Bytes gen(size_t n, const Bytes &add) {
    if (!add.empty()) addto(V, ref::hash(h, ref::cat({{2}, V, add})));
    Bytes o, d = V;
    while (o.size() < n) { Bytes y = ref::hash(h, d); o.insert(o.end(), y.begin(), y.end()); addto(d, {1}); }
    o.resize(n);
    Bytes H = ref::hash(h, ref::cat({{3}, V}));
    addto(V, H);
    addto(V, C);
    Bytes L(8);
    for (int i = 0; i < 8; i++) L[7 - i] = ctr >> (8 * i);
    addto(V, L);
    ctr++;
    return o;
  }
};

struct CtrM {
  size_t ks;
  bool use_df;
  Bytes K, V;
  Bytes aes(const Bytes &k, const Bytes &b) { return ref::Block(k.size() == 16 ? CIPHER_AES128 : k.size() == 24 ? CIPHER_AES192 : CIPHER_AES256, k).enc(b); }
  size_t el() { return ks + 16; }
  Bytes df(const Bytes &in) {
    uint32_t L = in.size(), N = el();
    Bytes S = {(uint8_t)(L >> 24), (uint8_t)(L >> 16), (uint8_t)(L >> 8), (uint8_t)L, 0, 0, 0, (uint8_t)N};
    S = ref::cat({S, in, {0x80}});
    while (S.size() % 16) S.push_back(0);
    Bytes k, t;
    for (size_t i = 0; i < ks; i++) k.push_back(i);
    ref::Block b(ks == 16 ? CIPHER_AES128 : ks == 24 ? CIPHER_AES192 : CIPHER_AES256, k);
    for (uint8_t i = 0; t.size() < el(); i++) {
      Bytes iv(16, 0), ch(16, 0);
      iv[3] = i;
      Bytes all = ref::cat({iv, S});
      for (size_t o = 0; o < all.size(); o += 16) ch = b.enc(ref::xr(ch, ref::sub(all, o, 16)));
      t = ref::cat({t, ch});
    }
    Bytes k2 = ref::sub(t, 0, ks), X = ref::sub(t, ks, 16), out;
    while (out.size() < el()) { X = aes(k2, X); out = ref::cat({out, X}); }
    out.resize(el());
    return out;
  }
  void update(const Bytes &d) {
    Bytes t;
    while (t.size() < el()) { ref::incr(V); t = ref::cat({t, aes(K, V)}); }
    t.resize(el());
    for (size_t i = 0; i < d.size() && i < t.size(); i++) t[i] ^= d[i];
    K = ref::sub(t, 0, ks);
    V = ref::sub(t, ks, 16);
  }
  static Bytes clamp(Bytes b, size_t n) { if (b.size() > n) b.resize(n); return b; }
  Bytes seedmat(const Bytes &n, const Bytes &p) {
    if (use_df) return df(ref::cat({clamp(n, 512), clamp(p, 512)}));
    Bytes e(el(), 0);
    for (size_t i = 0; i < el(); i++) { if (i < n.size()) e[i] ^= n[i]; if (i < p.size()) e[i] ^= p[i]; }
    return e;
  }
  void init(size_t bits, bool d, const Bytes &n, const Bytes &p) { ks = bits / 8; use_df = d; K.assign(ks, 0); V.assign(16, 0); update(seedmat(n, p)); }
  void reseed(const Bytes &n, const Bytes &p) { update(seedmat(n, p)); }
  Bytes gen(size_t n, Bytes add) {
    if (!add.empty()) { if (use_df) add = df(clamp(add, 512)); update(add); }
    Bytes o;
    ref::Block b(ks == 16 ? CIPHER_AES128 : ks == 24 ? CIPHER_AES192 : CIPHER_AES256, K);
    while (o.size() < n) { ref::incr(V); Bytes y = b.enc(V); o.insert(o.end(), y.begin(), y.end()); }
    o.resize(n);
    update(add);
    return o;
  }
};

static Bytes input(Case &c, size_t big) { return c.rng.chance(1, 3) ? Bytes() : c.rng.special(c.rng.chance(1, 10) ? c.rng.below(big) : c.rng.len(120, 16)); }
static size_t outlen(Case &c, size_t unit) { return c.rng.chance(1, 400) ? c.rng.big(2000, unit, 1) : c.rng.chance(1, 30) ? c.rng.below(2000) : c.rng.len(4 * unit, unit); }

template <class D, class M, class FI, class FR, class FG, class FN>
static void history(Case &c, const char *name, M &m, FI init, FR reseed, FG gen, FN rng, size_t unit) {
  D *d = (D *)malloc(sizeof(D));
  memset(d, 0x3c, sizeof(D));
  std::string h = init(d, m);
  for (int i = 0, n = c.rng.range(1, 7); i < n; i++) {
    switch (c.rng.below(4)) {
      case 0: h += reseed(d, m); ev("reseeds"); break;
      case 1: {
        size_t len = outlen(c, unit);
        Buf o(len);
        rng(o, len, d);
        h += fmt(" rng(%zu)", len);
        eq(fmt("%s-output", name).c_str(), o.get(), m.gen(len, {}), "history:%s", h.c_str());
        ev("outputs");
        break;
      }
      default: {
        size_t len = outlen(c, unit);
        Bytes add = input(c, 700);
        In a(add);
        Buf o(len);
        gen(d, o, len, a, add.size());
        h += fmt(" gen(%zu,%s)", len, hex(add).c_str());
        eq(fmt("%s-output", name).c_str(), o.get(), m.gen(len, add), "history:%s", h.c_str());
        ev("outputs");
        if (!add.empty()) ev("additional_input");
      }
    }
  }
  // final state agrees
  Buf o(unit + 5);
  gen(d, o, unit + 5, nullptr, 0);
  eq(fmt("%s-final", name).c_str(), o.get(), m.gen(unit + 5, {}), "history:%s", h.c_str());
  eval(fnv(h.data(), h.size(), fnv(name, strlen(name))));
  ev(name);
  sample(fmt("%s %s", name, h.substr(0, 150).c_str()));
  free(d);
}

VH_TEST(hmac, 12000, 12) {
  hash_id_t id = ref::hashes[c.idx % ref::hashes.size()].id;
  HmacM m;
  history<hmac_drbg_t>(c, "hmac_drbg", m,
    [&](hmac_drbg_t *d, HmacM &m) { Bytes s = input(c, 600); In i(s); hmac_drbg_init(d, id, i, s.size()); m.init(id, s); return fmt("%s init(%s)", ref::info(id).name, hex(s).c_str()); },
    [&](hmac_drbg_t *d, HmacM &m) { Bytes s = input(c, 600); In i(s); hmac_drbg_reseed(d, i, s.size()); m.update(s); return " reseed(" + hex(s) + ")"; },
    [](hmac_drbg_t *d, uint8_t *o, size_t n, const uint8_t *a, size_t an) { hmac_drbg_generate(d, o, n, a, an); },
    [](uint8_t *o, size_t n, hmac_drbg_t *d) { hmac_drbg_rng(o, n, d); }, ref::info(id).size);
}
VH_TEST(hash, 20000, 12) {
  hash_id_t id = ref::hashes[c.idx % ref::hashes.size()].id;
  HashM m;
  history<hash_drbg_t>(c, "hash_drbg", m,
    [&](hash_drbg_t *d, HashM &m) { Bytes s = input(c, 600); In i(s); hash_drbg_init(d, id, i, s.size()); m.init(id, s); return fmt("%s init(%s)", ref::info(id).name, hex(s).c_str()); },
    [&](hash_drbg_t *d, HashM &m) { Bytes s = input(c, 600); In i(s); hash_drbg_reseed(d, i, s.size()); m.reseed(s); return " reseed(" + hex(s) + ")"; },
    [](hash_drbg_t *d, uint8_t *o, size_t n, const uint8_t *a, size_t an) { hash_drbg_generate(d, o, n, a, an); },
    [](uint8_t *o, size_t n, hash_drbg_t *d) { hash_drbg_rng(o, n, d); }, ref::info(id).size);
}
VH_TEST(ctr, 24000, 12) {
  size_t bits = 128 + 64 * (c.idx % 3);
  bool df = (c.idx / 3) % 2;
  CtrM m;
  history<ctr_drbg_t>(c, df ? "ctr_drbg_df" : "ctr_drbg", m,
    [&](ctr_drbg_t *d, CtrM &m) { Bytes s = input(c, 700), p = input(c, 700); In i(s), j(p); ctr_drbg_init(d, bits, df, i, s.size(), j, p.size()); m.init(bits, df, s, p); return fmt("AES%zu init(%s,%s)", bits, hex(s).c_str(), hex(p).c_str()); },
    [&](ctr_drbg_t *d, CtrM &m) { Bytes s = input(c, 700), p = input(c, 700); In i(s), j(p); ctr_drbg_reseed(d, i, s.size(), j, p.size()); m.reseed(s, p); return " reseed(" + hex(s) + "," + hex(p) + ")"; },
    [](ctr_drbg_t *d, uint8_t *o, size_t n, const uint8_t *a, size_t an) { ctr_drbg_generate(d, o, n, a, an); },
    [](uint8_t *o, size_t n, ctr_drbg_t *d) { ctr_drbg_rng(o, n, d); }, 16);
}
// carries through the whole of V (hash) and the counter block (CTR): set the public state to the edge and check the successor
VH_TEST(carry, 3000, 10) {
  if (c.idx % 2) {
    hash_id_t id = ref::hashes[c.rng.below(ref::hashes.size())].id;
    Bytes s = c.rng.bytes(32);
    hash_drbg_t d;
    HashM m;
    hash_drbg_init(&d, id, s.data(), s.size());
    m.init(id, s);
    // only meaningful while the public fields still hold V, C and the counter in these forms
    if (Bytes(d.V, d.V + m.len) != m.V || Bytes(d.C, d.C + m.len) != m.C || d.rounds != 1) { ev("carry_layout_differs"); return; }
    size_t k = c.rng.below(m.len);
    for (size_t i = k; i < m.len; i++) d.V[i] = m.V[i] = 0xff;
    if (c.rng.chance(1, 2)) d.rounds = m.ctr = c.rng.chance(1, 2) ? 0xffffffffull + c.rng.below(3) : 1ull << (8 * c.rng.range(1, 6));
    for (int r = 0; r < 3; r++) {
      size_t n = outlen(c, ref::info(id).size);
      Buf o(n);
      Bytes add = input(c, 60);
      In a(add);
      hash_drbg_generate(&d, o, n, a, add.size());
      eq("hash-drbg-carry", o.get(), m.gen(n, add), "%s V tail of ff from byte %zu", ref::info(id).name, k);
    }
    eval(fnv(s.data(), 32, k));
  } else {
    Bytes s = c.rng.bytes(48);
    size_t bits = 128 + 64 * c.rng.below(3);
    ctr_drbg_t d;
    CtrM m;
    ctr_drbg_init(&d, bits, 0, s.data(), s.size(), nullptr, 0);
    m.init(bits, false, s, {});
    if (Bytes(d.state, d.state + 16) != m.V) { ev("carry_layout_differs"); return; }
    size_t k = c.rng.below(16);
    for (size_t i = k; i < 16; i++) d.state[i] = m.V[i] = 0xff;
    d.state[15] = m.V[15] = 0xff - c.rng.below(3);
    for (int r = 0; r < 2; r++) {
      size_t n = c.rng.below(100);
      Buf o(n);
      ctr_drbg_generate(&d, o, n, nullptr, 0);
      eq("ctr-drbg-carry", o.get(), m.gen(n, {}), "AES%zu counter ff from byte %zu", bits, k);
    }
    eval(fnv(s.data(), 48, k));
  }
  ev("carry");
}

// more requests than fit a 16-bit counter
VH_TEST(many, 4, 1) {
  hash_id_t id = ref::hashes[c.rng.below(ref::hashes.size())].id;
  if (c.idx == 0) id = HASH_SHA256;
  else if (c.scale <= 1) return;
  Bytes s = c.rng.bytes(32);
  hash_drbg_t d;
  HashM m;
  hash_drbg_init(&d, id, s.data(), s.size());
  m.init(id, s);
  for (unsigned i = 0; i < 65600; i++) {
    uint8_t o[3];
    hash_drbg_generate(&d, o, 3, nullptr, 0);
    Bytes w = m.gen(3, {});
    if (i > 65500 || i % 257 == 0) eq("hash_drbg-many", Bytes(o, o + 3), w, "%s request %u", ref::info(id).name, i);
  }
  ev("many_requests");
  eval(fnv(s.data(), 32, id));
}
