// C24: secret bytes are marked undefined under valgrind memcheck; any branch or address that depends on them is reported.
// Runs on optimised builds. The process must run under valgrind.
#include "vh.hpp"
#include <valgrind/memcheck.h>
#include <torsion/aead.h>
#include <torsion/cipher.h>
#include <torsion/drbg.h>
#include <torsion/ecc.h>
#include <torsion/hash.h>
#include <torsion/ies.h>
#include <torsion/kdf.h>
#include <torsion/mac.h>
#include <torsion/mpi.h>
#include <torsion/stream.h>
#include <torsion/util.h>
using namespace vh;

static void taint(void *p, size_t n) { VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
static void clear(const void *p, size_t n) { VALGRIND_MAKE_MEM_DEFINED(p, n); }
static void redefine(void *p, size_t n) { VALGRIND_MAKE_MEM_DEFINED(p, n); }

static uint64_t what_key;
// one observed operation: f runs with the secrets tainted; the result and the outputs become public afterwards
template <class F> static int observe(const char *op, const char *on, std::initializer_list<Buf *> secrets, std::initializer_list<Buf *> outs, F f) {
  for (Buf *s : secrets) taint(s->p(), s->size());
  size_t before = VALGRIND_COUNT_ERRORS;
  volatile int r = f();
  size_t after = VALGRIND_COUNT_ERRORS;
  clear((const void *)&r, sizeof(r));
  for (Buf *s : secrets) clear(s->p(), s->size());
  for (Buf *o : outs) clear(o->p(), o->size());
  if (after != before) viol(fmt("leak:%s:%s", op, on).c_str(), "%s on %s: %zu branches or addresses depended on secret bytes", op, on, after - before);
  uint64_t k = what_key;
  for (Buf *s : secrets) k = fnv(s->p(), s->size(), k);
  eval(fnv(op, strlen(op), fnv(on, strlen(on), k)));
  ev("observed");
  if (r) ev("accepted"); else ev("refused");
  return r;
}
#define OBS(op, on, secrets, outs, expr) observe(op, on, std::initializer_list<Buf *> secrets, std::initializer_list<Buf *> outs, [&]() -> int { return (expr); })
#define OBV(op, on, secrets, outs, expr) observe(op, on, std::initializer_list<Buf *> secrets, std::initializer_list<Buf *> outs, [&]() -> int { expr; return 1; })

// the monitor must see a leak when there is one
VH_TEST(control, 1, 1) {
  if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "must run under valgrind\n"); exit(96); }
  Buf s(c.rng.bytes(4));
  static volatile int sink;
  static volatile int table[256];
  size_t a = VALGRIND_COUNT_ERRORS;
  taint(s.p(), 4);
  if (s[0] & 1) __asm__ __volatile__("nop" ::: "memory");
  size_t b = VALGRIND_COUNT_ERRORS;
  sink = table[s[1]];
  size_t d = VALGRIND_COUNT_ERRORS;
  clear(s.p(), 4);
  clear((const void *)&sink, sizeof sink);
  if (b == a || d == b) { fprintf(stderr, "valgrind does not report the planted leaks\n"); exit(96); }
  ev("control_branch"); ev("control_address");
  eval(1);
}

static const char *wname[] = {"P192", "P224", "P256", "P384", "P521", "SECP256K1"};
static wei_curve_t *W(Case &c, int i) {
  static wei_curve_t *v[12];
  int blind = c.rng.below(2);
  if (!v[2 * i + blind]) { v[2 * i + blind] = wei_curve_create((wei_curve_id_t)i); if (blind) wei_curve_randomize(v[2 * i + 1], c.rng.bytes(32).data()); }
  return v[2 * i + blind];
}
static Bytes scalar_edge(Case &c, size_t n, bool le) {
  Bytes b = c.rng.bytes(n);
  switch (c.rng.below(8)) {
    case 0: b.assign(n, 0); b[le ? 0 : n - 1] = 1 + c.rng.below(3); break;       // tiny
    case 1: for (size_t i = 0; i < n / 2; i++) b[le ? n - 1 - i : i] = 0; break;  // short
    case 2: b = c.rng.special(n); break;
    default: break;
  }
  return b;
}

VH_TEST(weierstrass, 24, 1) {
  int i = c.idx % 6;
  const char *n = wname[i];
  const wei_curve_t *w = W(c, i);
  what_key = 1;
  size_t sc = wei_curve_scalar_size(w), fs = wei_curve_field_size(w), ps = fs + 1;
  Buf en(c.rng.bytes(32)), raw(scalar_edge(c, sc, false)), k(sc), k2(sc), out(sc), msg(c.rng.bytes(sc)), aux(c.rng.bytes(32)), exp(sc);
  ecdsa_privkey_generate(w, k, en);      // rejection sampling: branches on whether a candidate was refused
  en.p()[0] ^= 1;
  ecdsa_privkey_generate(w, k2, en);
  OBS("privkey_verify", n, ({&k}), ({}), ecdsa_privkey_verify(w, k));
  OBS("privkey_verify", n, ({&raw}), ({}), ecdsa_privkey_verify(w, raw));
  OBS("privkey_export", n, ({&k}), ({&exp}), ecdsa_privkey_export(w, exp, k));
  OBS("privkey_import", n, ({&exp}), ({&out}), ecdsa_privkey_import(w, out, exp, sc));
  OBS("privkey_negate", n, ({&k}), ({&out}), ecdsa_privkey_negate(w, out, k));
  OBS("privkey_invert", n, ({&k}), ({&out}), ecdsa_privkey_invert(w, out, k));
  OBS("privkey_tweak_add", n, ({&k, &raw}), ({&out}), ecdsa_privkey_tweak_add(w, out, k, raw));
  OBS("privkey_tweak_mul", n, ({&k, &raw}), ({&out}), ecdsa_privkey_tweak_mul(w, out, k, raw));
  bool small = ecdsa_privkey_verify(w, raw) && c.rng.chance(1, 2);
  Buf key(small ? raw.get() : k.get()), pub(2 * fs + 1), pub2(ps), sec(ps), sig(ecdsa_sig_size(w));
  size_t pl = 0, l2 = 0, sl = 0;
  int comp = c.rng.below(2);
  OBS("pubkey_create", n, ({&key}), ({&pub}), ecdsa_pubkey_create(w, pub, &pl, key, comp));
  clear(&pl, sizeof pl);
  ecdsa_pubkey_create(w, pub2, &l2, k2, 1);
  OBS("derive", n, ({&key}), ({&sec}), ecdsa_derive(w, sec, &sl, pub2, l2, key, 1));
  clear(&sl, sizeof sl);
  unsigned prm = 0;
  bool s = OBS("sign", n, ({&key, &msg}), ({&sig}), ecdsa_sign_internal(w, sig, c.rng.below(2) ? &prm : nullptr, msg, msg.size(), key, redefine));
  clear(&prm, sizeof prm);
  if (s && ecdsa_verify(w, msg, msg.size(), sig, pub, pl)) ev("signatures_valid"); else viol("sign-invalid", "%s", n);
  if (bipschnorr_support(w)) {
    Buf bs(bipschnorr_sig_size(w));
    OBS("bipschnorr_sign", n, ({&key, &msg}), ({&bs}), bipschnorr_sign(w, bs, msg, msg.size(), key));
    if (bipschnorr_verify(w, msg, msg.size(), bs, pub, pl)) ev("signatures_valid"); else viol("bipschnorr-invalid", "%s", n);
  }
  Buf xp(fs), xs(fs), d(sc), x(fs), y(fs), xsig(bip340_sig_size(w));
  OBS("bip340_pubkey_create", n, ({&key}), ({&xp}), bip340_pubkey_create(w, xp, key));
  OBS("bip340_privkey_export", n, ({&key}), ({&d, &x, &y}), bip340_privkey_export(w, d, x, y, key));
  OBS("bip340_privkey_tweak_add", n, ({&key, &raw}), ({&out}), bip340_privkey_tweak_add(w, out, key, raw));
  OBS("bip340_privkey_tweak_mul", n, ({&key, &raw}), ({&out}), bip340_privkey_tweak_mul(w, out, key, raw));
  OBS("bip340_privkey_invert", n, ({&key}), ({&out}), bip340_privkey_invert(w, out, key));
  OBS("bip340_derive", n, ({&key}), ({&xs}), bip340_derive(w, xs, xp, key));
  OBS("bip340_sign", n, ({&key, &msg, &aux}), ({&xsig}), bip340_sign(w, xsig, msg, msg.size(), key, aux));
  if (bip340_verify(w, msg, msg.size(), xsig, xp)) ev("signatures_valid"); else viol("bip340-invalid", "%s", n);
  Buf u(c.rng.bytes(fs)), h(c.rng.bytes(2 * fs));
  OBV("pubkey_from_uniform", n, ({&u}), ({&pub2}), ecdsa_pubkey_from_uniform(w, pub2, &l2, u, 1));
  clear(&l2, sizeof l2);
  OBS("pubkey_from_hash", n, ({&h}), ({&pub2}), ecdsa_pubkey_from_hash(w, pub2, &l2, h, 1));
  clear(&l2, sizeof l2);
}

static const char *ename[] = {"ED25519", "ED448", "ED1174"};
static edwards_curve_t *E(Case &c, int i) {
  static edwards_curve_t *v[6];
  int blind = c.rng.below(2);
  if (!v[2 * i + blind]) { v[2 * i + blind] = edwards_curve_create((edwards_curve_id_t)i); if (blind) edwards_curve_randomize(v[2 * i + 1], c.rng.bytes(32).data()); }
  return v[2 * i + blind];
}
VH_TEST(edwards, 18, 1) {
  int i = c.idx % 3;
  const char *n = ename[i];
  const edwards_curve_t *e = E(c, i);
  what_key = 2;
  size_t sc = edwards_curve_scalar_size(e), ks = eddsa_privkey_size(e), ps = eddsa_pubkey_size(e), fs = edwards_curve_field_size(e);
  Buf en(c.rng.bytes(32)), k(c.rng.special(ks)), s(sc), pf(ps), t(scalar_edge(c, sc, true)), o(sc), ko(ks), pub(ps), pub2(ps), sec(ps), m(c.rng.bytes(40)), sig(eddsa_sig_size(e));
  OBV("privkey_generate", n, ({&en}), ({&ko}), eddsa_privkey_generate(e, ko, en));
  OBV("scalar_generate", n, ({&en}), ({&s}), eddsa_scalar_generate(e, s, en));
  OBV("privkey_expand", n, ({&k}), ({&s, &pf}), eddsa_privkey_expand(e, s, pf, k));
  OBV("privkey_convert", n, ({&k}), ({&s}), eddsa_privkey_convert(e, s, k));
  OBS("privkey_export", n, ({&k}), ({&ko}), eddsa_privkey_export(e, ko, k));
  OBS("privkey_import", n, ({&k}), ({&ko}), eddsa_privkey_import(e, ko, k, ks));
  OBS("privkey_verify", n, ({&k}), ({}), eddsa_privkey_verify(e, k));
  OBS("scalar_verify", n, ({&s}), ({}), eddsa_scalar_verify(e, s));
  OBS("scalar_is_zero", n, ({&t}), ({}), eddsa_scalar_is_zero(e, t));
  OBV("scalar_clamp", n, ({&t}), ({&o}), eddsa_scalar_clamp(e, o, t));
  OBV("scalar_reduce", n, ({&t}), ({&o}), eddsa_scalar_reduce(e, o, t));
  OBV("scalar_negate", n, ({&s}), ({&o}), eddsa_scalar_negate(e, o, s));
  OBV("scalar_invert", n, ({&s}), ({&o}), eddsa_scalar_invert(e, o, s));
  OBV("scalar_tweak_add", n, ({&s, &t}), ({&o}), eddsa_scalar_tweak_add(e, o, s, t));
  OBV("scalar_tweak_mul", n, ({&s, &t}), ({&o}), eddsa_scalar_tweak_mul(e, o, s, t));
  OBV("pubkey_from_scalar", n, ({&t}), ({&pub2}), eddsa_pubkey_from_scalar(e, pub2, t));
  OBV("pubkey_create", n, ({&k}), ({&pub}), eddsa_pubkey_create(e, pub, k));
  int ph = (int)c.rng.below(3) - 1;
  OBV("sign", n, ({&k, &m}), ({&sig}), eddsa_sign(e, sig, m, m.size(), k, ph, nullptr, 0));
  if (eddsa_verify(e, m, m.size(), sig, pub, ph, nullptr, 0)) ev("signatures_valid"); else viol("sign-invalid", "%s", n);
  OBV("sign_with_scalar", n, ({&s, &pf, &m}), ({&sig}), eddsa_sign_with_scalar(e, sig, m, m.size(), s, pf, ph, nullptr, 0));
  OBV("sign_tweak_add", n, ({&k, &t, &m}), ({&sig}), eddsa_sign_tweak_add(e, sig, m, m.size(), k, t, ph, nullptr, 0));
  OBV("sign_tweak_mul", n, ({&k, &t, &m}), ({&sig}), eddsa_sign_tweak_mul(e, sig, m, m.size(), k, t, ph, nullptr, 0));
  OBS("derive", n, ({&k}), ({&sec}), eddsa_derive(e, sec, pub, k));
  OBS("derive_with_scalar", n, ({&t}), ({&sec}), eddsa_derive_with_scalar(e, sec, pub, t));
  OBS("pubkey_verify", n, ({&pub}), ({}), eddsa_pubkey_verify(e, pub));
  Buf u(c.rng.bytes(fs)), h(c.rng.bytes(2 * fs));
  OBV("pubkey_from_uniform", n, ({&u}), ({&pub2}), eddsa_pubkey_from_uniform(e, pub2, u));
  OBV("pubkey_from_hash", n, ({&h}), ({&pub2}), eddsa_pubkey_from_hash(e, pub2, h, (int)c.rng.below(2)));
}
VH_TEST(montgomery, 12, 1) {
  int i = c.idx % 2;
  const char *n = i ? "X448" : "X25519";
  static mont_curve_t *v[2];
  if (!v[i]) v[i] = mont_curve_create((mont_curve_id_t)i);
  const mont_curve_t *e = v[i];
  what_key = 3;
  size_t sc = mont_curve_scalar_size(e), fs = mont_curve_field_size(e);
  Buf en(c.rng.bytes(32)), k(scalar_edge(c, sc, true)), k2(sc), o(sc), pub(fs), pub2(fs), sec(fs);
  OBV("privkey_generate", n, ({&en}), ({&k2}), ecdh_privkey_generate(e, k2, en));
  OBS("privkey_verify", n, ({&k}), ({}), ecdh_privkey_verify(e, k));
  OBS("privkey_export", n, ({&k}), ({&o}), ecdh_privkey_export(e, o, k));
  OBS("privkey_import", n, ({&k}), ({&o}), ecdh_privkey_import(e, o, k, sc));
  OBV("pubkey_create", n, ({&k}), ({&pub}), ecdh_pubkey_create(e, pub, k));
  ecdh_pubkey_create(e, pub2, k2);
  OBS("derive", n, ({&k, &pub2}), ({&sec}), ecdh_derive(e, sec, pub2, k));
  Buf other(fs);
  ecdh_derive(e, other, pub, k2);
  if (other.get() == sec.get()) ev("agreements"); else viol("derive-disagrees", "%s", n);
  OBS("pubkey_verify", n, ({&pub}), ({}), ecdh_pubkey_verify(e, pub));
  Buf u(c.rng.bytes(fs)), h(c.rng.bytes(2 * fs));
  OBV("pubkey_from_uniform", n, ({&u}), ({&pub2}), ecdh_pubkey_from_uniform(e, pub2, u));
  OBS("pubkey_from_hash", n, ({&h}), ({&pub2}), ecdh_pubkey_from_hash(e, pub2, h, (int)c.rng.below(2)));
}
VH_TEST(ristretto, 12, 1) {
  int i = c.idx % 2;
  const char *n = ename[i];
  const edwards_curve_t *e = E(c, i);
  what_key = 4;
  size_t sc = ristretto_privkey_size(e), fs = ristretto_pubkey_size(e);
  Buf en(c.rng.bytes(32)), k(sc), t(scalar_edge(c, sc, true)), o(sc), pub(fs), sec(fs), un(c.rng.bytes(sc == 32 ? 64 : 112));
  ristretto_privkey_generate(e, k, en);
  OBV("privkey_from_uniform", n, ({&un}), ({&o}), ristretto_privkey_from_uniform(e, o, un));
  OBS("privkey_verify", n, ({&t}), ({}), ristretto_privkey_verify(e, t));
  OBS("privkey_is_zero", n, ({&t}), ({}), ristretto_privkey_is_zero(e, t));
  OBS("privkey_export", n, ({&k}), ({&o}), ristretto_privkey_export(e, o, k));
  OBS("privkey_import", n, ({&k}), ({&o}), ristretto_privkey_import(e, o, k, sc));
  OBS("privkey_tweak_add", n, ({&k, &t}), ({&o}), ristretto_privkey_tweak_add(e, o, k, t));
  OBS("privkey_tweak_mul", n, ({&k, &t}), ({&o}), ristretto_privkey_tweak_mul(e, o, k, t));
  OBS("privkey_negate", n, ({&k}), ({&o}), ristretto_privkey_negate(e, o, k));
  OBS("privkey_invert", n, ({&k}), ({&o}), ristretto_privkey_invert(e, o, k));
  OBS("pubkey_create", n, ({&k}), ({&pub}), ristretto_pubkey_create(e, pub, k));
  OBS("pubkey_verify", n, ({&pub}), ({}), ristretto_pubkey_verify(e, pub));
  OBS("derive", n, ({&k, &pub}), ({&sec}), ristretto_derive(e, sec, pub, k));
  Buf u(c.rng.bytes(fs)), h(c.rng.bytes(2 * fs));
  OBV("pubkey_from_uniform", n, ({&u}), ({&pub}), ristretto_pubkey_from_uniform(e, pub, u));
  OBV("pubkey_from_hash", n, ({&h}), ({&pub}), ristretto_pubkey_from_hash(e, pub, h));
}
VH_TEST(util, 40, 1) {
  what_key = 5;
  size_t n = c.rng.below(70);
  Buf a(c.rng.special(n)), b(c.rng.chance(1, 2) ? a.get() : c.rng.special(n));
  if (n && c.rng.chance(1, 3)) { memcpy(b.p(), a.p(), n); b[c.rng.below(n)] ^= 1 << c.rng.below(8); }
  OBS("memequal", "-", ({&a, &b}), ({}), torsion_memequal(a, b, n));
  OBS("memcmp", "-", ({&a, &b}), ({}), torsion_memcmp(a, b, n));
  Buf o(n);
  OBV("memxor3", "-", ({&a, &b}), ({&o}), torsion_memxor3(o, a, b, n));
  OBV("memxor", "-", ({&a, &o}), ({&o}), torsion_memxor(o, a, n));
  OBV("memzero", "-", ({&a}), ({&a}), torsion_memzero(a, n));
}
VH_TEST(hashes, 99, 1) {
  what_key = 6;
  hash_id_t id = (hash_id_t)(1 + c.idx % HASH_WHIRLPOOL);
  if (id == HASH_MD2 || id == HASH_GOST94 || id == HASH_WHIRLPOOL) return;      // defined by table lookups
  std::string n = fmt("hash%d", (int)id);
  Buf m(c.rng.special(c.rng.len(300, hash_block_size(id)))), k(c.rng.special(c.rng.len(200, hash_block_size(id)))), o(hash_output_size(id));
  OBV("hash", n.c_str(), ({&m}), ({&o}), { hash_t h; hash_init(&h, id); hash_update(&h, m, m.size()); hash_final(&h, o, o.size()); clear(&h, sizeof h); });
  OBV("hmac", n.c_str(), ({&m, &k}), ({&o}), { hmac_t h; hmac_init(&h, id, k, k.size()); hmac_update(&h, m, m.size()); hmac_final(&h, o); clear(&h, sizeof h); });
  Buf out(60), salt(c.rng.bytes(16));
  OBS("hkdf_extract", n.c_str(), ({&m, &k}), ({&o}), hkdf_extract(o, id, m, m.size(), k, k.size()));
  OBS("pbkdf2", n.c_str(), ({&k}), ({&out}), pbkdf2_derive(out, id, k, k.size(), salt, 16, 2, 60));
}
VH_TEST(symmetric, 60, 1) {
  what_key = 7;
  Buf k(c.rng.special(32)), m(c.rng.special(c.rng.len(300, 64))), t(16), o(m.size()), nonce(c.rng.bytes(24)), ad(c.rng.bytes(20)), k16(c.rng.bytes(16));
  OBV("poly1305", "-", ({&k, &m}), ({&t}), { poly1305_t p; poly1305_init(&p, k); poly1305_update(&p, m, m.size()); poly1305_final(&p, t); clear(&p, sizeof p); });
  OBV("siphash", "-", ({&k16, &m}), ({}), { volatile uint64_t r = siphash_sum(m, m.size(), k16); clear((const void *)&r, 8); });
  OBV("siphash_mod", "-", ({&k16, &m}), ({}), { volatile uint64_t r = siphash_mod(m, m.size(), k16, 1000003); clear((const void *)&r, 8); });
  OBV("chacha20", "-", ({&k, &m}), ({&o}), { chacha20_t x; chacha20_init(&x, k, 32, nonce, 8, 0); chacha20_crypt(&x, o, m, m.size()); clear(&x, sizeof x); });
  OBV("xchacha20", "-", ({&k, &m}), ({&o}), { chacha20_t x; chacha20_init(&x, k, 32, nonce, 24, 0); chacha20_crypt(&x, o, m, m.size()); clear(&x, sizeof x); });
  OBV("salsa20", "-", ({&k, &m}), ({&o}), { salsa20_t x; salsa20_init(&x, k, 32, nonce, 24, 0); salsa20_crypt(&x, o, m, m.size()); clear(&x, sizeof x); });
  OBV("chachapoly", "-", ({&k, &m}), ({&o, &t}), { chachapoly_t x; chachapoly_init(&x, k, nonce, 12); chachapoly_aad(&x, ad, 20); chachapoly_encrypt(&x, o, m, m.size()); chachapoly_final(&x, t); clear(&x, sizeof x); });
  Buf sb(m.size() + 16), so(m.size());
  OBV("secretbox_seal", "-", ({&k, &m}), ({&sb}), secretbox_seal(sb, m, m.size(), k, nonce));
  // opening: only the verdict of the tag comparison may be branched on, so the last step is the caller's
  Buf tag(sb.get(16));
  if (c.rng.chance(1, 2)) tag[c.rng.below(16)] ^= 1;
  OBS("tag_compare", "-", ({&k, &tag}), ({&so}), ([&]() -> int { Buf got(16); chachapoly_t x; chachapoly_init(&x, k, nonce, 12); chachapoly_decrypt(&x, so, m, m.size()); chachapoly_final(&x, got); int r = torsion_memequal(got, tag, 16); clear(&x, sizeof x); clear(got.p(), 16); return r; })());
}
VH_TEST(generators, 12, 1) {
  what_key = 8;
  static const hash_id_t hs[] = {HASH_SHA256, HASH_SHA512, HASH_SHA1, HASH_SHA384, HASH_BLAKE2B_256, HASH_SHA3_256};
  hash_id_t id = hs[c.idx % 6];
  std::string n = fmt("hash%d", (int)id);
  Buf s(c.rng.bytes(64)), a(c.rng.bytes(20)), o(100);
  OBV("hmac_drbg", n.c_str(), ({&s, &a}), ({&o}), { hmac_drbg_t d; hmac_drbg_init(&d, id, s, 64); hmac_drbg_generate(&d, o, 100, a, 20); hmac_drbg_reseed(&d, a, 20); hmac_drbg_generate(&d, o, 100, nullptr, 0); clear(&d, sizeof d); });
  OBV("hash_drbg", n.c_str(), ({&s, &a}), ({&o}), { hash_drbg_t d; hash_drbg_init(&d, id, s, 64); hash_drbg_generate(&d, o, 100, a, 20); hash_drbg_reseed(&d, a, 20); hash_drbg_generate(&d, o, 100, nullptr, 0); clear(&d, sizeof d); });
}
// the integer routines meant for secrets
VH_TEST(integers, 40, 1) {
  what_key = 9;
  size_t n = 1 + c.rng.below(12), B = sizeof(mp_limb_t);
  Buf x(c.rng.special(n * B)), y(c.rng.special(n * B)), z(n * B), m(c.rng.bytes(n * B)), e(c.rng.special(2 * B));
  m[0] |= 1; m[n * B - 1] |= 0x80;
#define L(b) ((mp_limb_t *)(b).p())
  OBV("sec_add", "-", ({&x, &y}), ({&z}), { volatile mp_limb_t r = mpn_sec_add(L(z), L(x), n, L(y), n); clear((const void *)&r, B); });
  OBV("sec_sub", "-", ({&x, &y}), ({&z}), { volatile mp_limb_t r = mpn_sec_sub(L(z), L(x), n, L(y), n); clear((const void *)&r, B); });
  OBV("sec_cmp", "-", ({&x, &y}), ({}), { volatile int r = mpn_sec_cmp(L(x), L(y), n); clear((const void *)&r, 4); });
  OBV("sec_lt", "-", ({&x, &y}), ({}), { volatile int r = mpn_sec_lt_p(L(x), L(y), n); clear((const void *)&r, 4); });
  OBV("sec_equal", "-", ({&x, &y}), ({}), { volatile int r = mpn_sec_equal_p(L(x), L(y), n); clear((const void *)&r, 4); });
  OBV("sec_zero", "-", ({&x}), ({}), { volatile int r = mpn_sec_zero_p(L(x), n); clear((const void *)&r, 4); });
  Buf cnd(c.rng.bytes(B));
  memset(cnd.p(), 0, B); cnd[0] = c.rng.below(2);
  OBV("cnd_select", "-", ({&x, &y, &cnd}), ({&z}), mpn_cnd_select(L(z), L(x), L(y), n, *L(cnd)));
  OBV("cnd_add", "-", ({&x, &y, &cnd}), ({&z}), { volatile mp_limb_t r = mpn_cnd_add_n(L(z), L(x), L(y), n, *L(cnd)); clear((const void *)&r, B); });
  OBV("cnd_sub", "-", ({&x, &y, &cnd}), ({&z}), { volatile mp_limb_t r = mpn_cnd_sub_n(L(z), L(x), L(y), n, *L(cnd)); clear((const void *)&r, B); });
  OBV("cnd_neg", "-", ({&x, &cnd}), ({&z}), { volatile mp_limb_t r = mpn_cnd_neg(L(z), L(x), n, *L(cnd)); clear((const void *)&r, B); });
  OBV("cnd_swap", "-", ({&x, &y, &cnd}), ({&x, &y}), mpn_cnd_swap(L(x), L(y), n, *L(cnd)));
  // modular multiplication and exponentiation, public modulus
  Buf a(n * B), b(n * B), rr(n * B), sc(MPN_MONT_ITCH(n) * B), mm(MPN_MONTMUL_ITCH(n) * B), ps(MPN_SEC_POWM_ITCH(n) * B);
  mpn_mod(L(a), L(x), n, L(m), n); mpn_mod(L(b), L(y), n, L(m), n);
  mp_limb_t k;
  mpn_mont(&k, L(rr), L(m), n, L(sc));
  OBV("sec_montmul", "-", ({&a, &b}), ({&z, &mm}), mpn_sec_montmul(L(z), L(a), L(b), L(m), n, k, L(mm)));
  OBV("sec_powm", "-", ({&a, &e}), ({&z, &ps}), mpn_sec_powm(L(z), L(a), n, L(e), 2, L(m), n, L(ps)));
}
