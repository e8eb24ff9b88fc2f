// Elliptic-curve half of the workload
#include "api.hpp"
#include <torsion/ecc.h>
using namespace api;

// contexts shared by all cases (and all threads); api::renew() replaces them between cases
namespace {
struct Ctx {
  wei_curve_t *w[6];
  edwards_curve_t *e[3];
  mont_curve_t *m[2];
  void make() {
    for (int k = 0; k < 6; k++) w[k] = wei_curve_create((wei_curve_id_t)k);
    for (int k = 0; k < 3; k++) e[k] = edwards_curve_create((edwards_curve_id_t)k);
    for (int k = 0; k < 2; k++) m[k] = mont_curve_create((mont_curve_id_t)k);
  }
  void drop() {
    for (auto *x : w) wei_curve_destroy(x);
    for (auto *x : e) edwards_curve_destroy(x);
    for (auto *x : m) mont_curve_destroy(x);
  }
};
Ctx &ctx() { static Ctx c = [] { Ctx x; x.make(); return x; }(); return c; }
}
void api::renew() { ctx().drop(); ctx().make(); }
static const wei_curve_t *W(int i) { return ctx().w[i]; }
static const edwards_curve_t *E(int i) { return ctx().e[i]; }
static const mont_curve_t *M(int i) { return ctx().m[i]; }

// one call: run it, record the result, and on success the outputs
template <class F> static bool call(T &t, const char *tag, std::initializer_list<O *> outs, F f) {
  bool r = t.res(tag, f() != 0);
  if (r) for (O *o : outs) o->to(t, tag);
  return r;
}
#define C1(o, fn, ...) call(t, #fn, {&o}, [&] { return fn(__VA_ARGS__); })
#define C2(o, p, fn, ...) call(t, #fn, {&o, &p}, [&] { return fn(__VA_ARGS__); })
#define C0(fn, ...) t.res(#fn, fn(__VA_ARGS__) != 0)
#define V1(o, fn, ...) call(t, #fn, {&o}, [&] { fn(__VA_ARGS__); return 1; })
// outputs whose length comes back separately
#define CL(o, fn, ...) ([&] { size_t n_ = 0; int r_ = fn(__VA_ARGS__); n_ = outn; if (t.res(#fn, r_ != 0)) o.to(t, #fn, n_); }())

static int check_even(const unsigned char *pub, size_t len, void *arg) { (void)arg; return (pub[1] & 3) == (int)(len & 1); }
static int check_any(const unsigned char *pub, void *arg) { return (pub[*(size_t *)arg / 2] & 3) == 1; }

// a key valid for this curve most of the time; edge values otherwise
static Bytes wpriv(T &t, const wei_curve_t *w) {
  I en(t.r.special(32));
  Buf o(ecdsa_privkey_size(w));
  ecdsa_privkey_generate(w, o, en);
  return mostly(t.r, o.get());
}
static Bytes wpub(T &t, const wei_curve_t *w, int compact = -1, bool strict = false) {
  I en(t.r.special(32));
  Buf k(ecdsa_privkey_size(w));
  ecdsa_privkey_generate(w, k, en);
  if (compact < 0) compact = t.r.below(2);
  Buf o(ecdsa_pubkey_size(w, compact));
  size_t n = 0;
  ecdsa_pubkey_create(w, o, &n, k, compact);
  Bytes b = o.get();
  if (t.r.chance(1, 10) && !compact) b[0] = 6 | (b.back() & 1);
  return strict ? b : mostly(t.r, b, true);
}
static Bytes xpub(T &t, const wei_curve_t *w) {
  I en(t.r.special(32));
  Buf k(bip340_privkey_size(w)), o(bip340_pubkey_size(w));
  bip340_privkey_generate(w, k, en);
  bip340_pubkey_create(w, o, k);
  return mostly(t.r, o.get());
}

API_TEST(wei_keys, 700, 6, true) {
  const wei_curve_t *w = W(t.r.below(6));
  size_t sc = wei_curve_scalar_size(w), fs = wei_curve_field_size(w);
  t.num("sizes", ecdsa_sig_size(w) * 1000000 + wei_curve_scalar_bits(w) * 1000 + wei_curve_field_bits(w));
  I p(wpriv(t, w)), tw(wpriv(t, w)), en(t.r.special(32)), raw(t.r.special(t.r.below(sc * 2)));
  O o(sc);
  V1(o, ecdsa_privkey_generate, w, o, en);
  C0(ecdsa_privkey_verify, w, p);
  { O x(sc); C1(x, ecdsa_privkey_export, w, x, p); }
  { O x(sc); C1(x, ecdsa_privkey_import, w, x, raw, raw.size()); }
  { O x(sc); C1(x, ecdsa_privkey_tweak_add, w, x, p, tw); }
  { O x(sc); C1(x, ecdsa_privkey_tweak_mul, w, x, p, tw); }
  { O x(sc); C1(x, ecdsa_privkey_negate, w, x, p); }
  { O x(sc); C1(x, ecdsa_privkey_invert, w, x, p); }
  int compact = t.r.below(2);
  size_t ps = ecdsa_pubkey_size(w, compact), outn = 0;
  { O x(ps); CL(x, ecdsa_pubkey_create, w, x, &outn, p, compact); }
  I q(wpub(t, w)), q2(wpub(t, w));
  { O x(ps); CL(x, ecdsa_pubkey_convert, w, x, &outn, q, q.size(), compact); }
  C0(ecdsa_pubkey_verify, w, q, q.size());
  { O x(fs), y(fs); C2(x, y, ecdsa_pubkey_export, w, x, y, q, q.size()); }
  { I a(t.r.chance(1, 2) && q.size() > fs ? Bytes(q.p() + 1, q.p() + 1 + fs) : t.r.special(t.r.below(fs + 4))), b(t.r.chance(1, 2) && q.size() == 1 + 2 * fs ? Bytes(q.p() + 1 + fs, q.p() + 1 + 2 * fs) : t.r.special(t.r.chance(1, 2) ? 0 : t.r.below(fs + 4)));
    O x(ps); CL(x, ecdsa_pubkey_import, w, x, &outn, a, a.size(), b, b.size(), (int)t.r.below(3) - 1, compact); }
  { O x(ps); CL(x, ecdsa_pubkey_tweak_add, w, x, &outn, q, q.size(), tw, compact); }
  { O x(ps); CL(x, ecdsa_pubkey_tweak_mul, w, x, &outn, q, q.size(), tw, compact); }
  { O x(ps); CL(x, ecdsa_pubkey_add, w, x, &outn, q, q.size(), q2, q2.size(), compact); }
  { O x(ps); CL(x, ecdsa_pubkey_negate, w, x, &outn, q, q.size(), compact); }
  { O x(ps); CL(x, ecdsa_derive, w, x, &outn, q, q.size(), p, compact); }
  { const unsigned char *ps3[3] = {q, q2, q}; size_t ls[3] = {q.size(), q2.size(), q.size()}; O x(ps); CL(x, ecdsa_pubkey_combine, w, x, &outn, ps3, ls, t.r.below(4), compact); }
  if (t.r.chance(1, 4)) { O x(sc); V1(x, ecdsa_privkey_grind, w, x, en, compact, check_even, nullptr); O y(sc); C1(y, ecdsa_pubkey_grind, w, y, q, q.size(), check_even, nullptr); }
}
API_TEST(wei_sign, 500, 6, true) {
  const wei_curve_t *w = W(t.r.below(6));
  size_t sc = wei_curve_scalar_size(w), fs = wei_curve_field_size(w), ss = ecdsa_sig_size(w);
  I p(wpriv(t, w)), m(t.r.special(t.r.len(90, 32))), q(wpub(t, w));
  O s(ss);
  unsigned prm = 0;
  Bytes sig = t.r.special(ss);
  Bytes pub(q.p(), q.p() + q.size());
  if (C1(s, ecdsa_sign, w, s, &prm, m, m.size(), p)) {
    t.num("param", prm);
    sig = s.get();
    Buf pb(ecdsa_pubkey_size(w, 1));
    size_t n;
    ecdsa_pubkey_create(w, pb, &n, p, 1);
    if (t.r.chance(4, 5)) pub = pb.get();
  }
  I S(mostly(t.r, sig)), Q(pub);
  C0(ecdsa_verify, w, m, m.size(), S, Q, Q.size());
  { int compact = t.r.below(2); size_t outn = 0; O x(ecdsa_pubkey_size(w, compact)); CL(x, ecdsa_recover, w, x, &outn, m, m.size(), S, t.r.chance(1, 6) ? (unsigned)t.r.next() : prm ^ (t.r.chance(1, 3) ? t.r.below(4) : 0), compact); }
  { O x(ss); C1(x, ecdsa_sig_normalize, w, x, S); }
  C0(ecdsa_is_low_s, w, S);
  O d(ECDSA_MAX_DER_SIZE);
  size_t dn = d.size();
  if (t.res("sig_export", ecdsa_sig_export(w, d, &dn, S))) {
    d.to(t, "der", dn);
    I D(mostly(t.r, d.get(std::min(dn, d.size())), true));
    { O x(ss); C1(x, ecdsa_sig_import, w, x, D, D.size()); }
    { O x(ss); C1(x, ecdsa_sig_import_lax, w, x, D, D.size()); }
  }
  if (C0(bipschnorr_support, w)) {
    size_t bs = bipschnorr_sig_size(w);
    O b(bs);
    std::vector<Bytes> sg, pb;
    if (C1(b, bipschnorr_sign, w, b, m, m.size(), p)) {
      I B(mostly(t.r, b.get()));
      C0(bipschnorr_verify, w, m, m.size(), B, Q, Q.size());
      const unsigned char *ms[4] = {m, m, m, m}, *ss[4] = {B, B, B, B}, *ps[4] = {Q, Q, Q, Q};
      size_t ml[4] = {m.size(), m.size(), m.size(), m.size()}, pl[4] = {Q.size(), Q.size(), Q.size(), Q.size()};
      wei_scratch_t *scr = wei_scratch_create(w, 2 + t.r.below(8));
      C0(bipschnorr_verify_batch, w, ms, ml, ss, ps, pl, t.r.below(5), scr);
      wei_scratch_destroy(w, scr);
    }
  }
  (void)sc; (void)fs;
}
API_TEST(wei_xonly, 500, 6, true) {
  const wei_curve_t *w = W(t.r.below(6));
  size_t sc = wei_curve_scalar_size(w), fs = wei_curve_field_size(w);
  I p(wpriv(t, w)), tw(wpriv(t, w)), en(t.r.special(32)), raw(t.r.special(t.r.below(sc * 2))), q(xpub(t, w)), q2(xpub(t, w)), m(t.r.special(t.r.len(90, 32)));
  { O x(sc); V1(x, bip340_privkey_generate, w, x, en); }
  C0(bip340_privkey_verify, w, p);
  { O d(sc), x(fs), y(fs); call(t, "bip340_privkey_export", {&d, &x, &y}, [&] { return bip340_privkey_export(w, d, x, y, p); }); }
  { O x(sc); C1(x, bip340_privkey_import, w, x, raw, raw.size()); }
  { O x(sc); C1(x, bip340_privkey_tweak_add, w, x, p, tw); }
  { O x(sc); C1(x, bip340_privkey_tweak_mul, w, x, p, tw); }
  { O x(sc); C1(x, bip340_privkey_invert, w, x, p); }
  Bytes pub(q.p(), q.p() + fs);
  { O x(fs); if (C1(x, bip340_pubkey_create, w, x, p) && t.r.chance(4, 5)) pub = x.get(); }
  C0(bip340_pubkey_verify, w, q);
  { O x(fs), y(fs); C2(x, y, bip340_pubkey_export, w, x, y, q); }
  { I a(t.r.chance(1, 2) ? Bytes(q.p(), q.p() + fs) : t.r.special(t.r.below(fs + 4))), b(t.r.special(t.r.chance(1, 2) ? 0 : t.r.below(fs + 4))); O x(fs); C1(x, bip340_pubkey_import, w, x, a, a.size(), b, b.size()); }
  { int neg = -1; O x(fs); if (C1(x, bip340_pubkey_tweak_add, w, x, &neg, q, tw)) { t.num("neg", neg); I X(mostly(t.r, x.get())); C0(bip340_pubkey_tweak_add_check, w, q, tw, X, neg ^ t.r.chance(1, 4)); } }
  { int neg = -1; O x(fs); if (C1(x, bip340_pubkey_tweak_mul, w, x, &neg, q, tw)) { t.num("neg", neg); I X(mostly(t.r, x.get())); C0(bip340_pubkey_tweak_mul_check, w, q, tw, X, neg ^ t.r.chance(1, 4)); } }
  { O x(fs); C1(x, bip340_pubkey_add, w, x, q, q2); }
  { const unsigned char *ps[3] = {q, q2, q}; O x(fs); C1(x, bip340_pubkey_combine, w, x, ps, t.r.below(4)); }
  { O x(fs); C1(x, bip340_derive, w, x, q, p); }
  size_t bs = bip340_sig_size(w);
  I aux(t.r.special(32)), Q(pub);
  O s(bs);
  if (C1(s, bip340_sign, w, s, m, m.size(), p, t.r.chance(1, 3) ? nullptr : aux.p())) {
    I S(mostly(t.r, s.get()));
    C0(bip340_verify, w, m, m.size(), S, Q);
    const unsigned char *ms[4] = {m, m, m, m}, *ss[4] = {S, S, S, S}, *ps[4] = {Q, Q, Q, Q};
    size_t ml[4] = {m.size(), m.size(), m.size(), m.size()};
    wei_scratch_t *scr = wei_scratch_create(w, 2 + t.r.below(8));
    C0(bip340_verify_batch, w, ms, ml, ss, ps, t.r.below(5), scr);
    wei_scratch_destroy(w, scr);
  }
  if (t.r.chance(1, 4)) { O x(sc); V1(x, bip340_privkey_grind, w, x, en, check_any, &fs); O y(sc); C1(y, bip340_pubkey_grind, w, y, q, check_any, &fs); }
}
API_TEST(wei_maps, 500, 6, true) {
  const wei_curve_t *w = W(t.r.below(6));
  size_t fs = wei_curve_field_size(w), outn = 0;
  int compact = t.r.below(2);
  size_t ps = ecdsa_pubkey_size(w, compact);
  I u(t.r.special(fs)), h(t.r.special(2 * fs)), q(wpub(t, w)), x1(xpub(t, w)), en(t.r.special(32));
  { O x(ps); ecdsa_pubkey_from_uniform(w, x, &outn, u, compact); x.to(t, "from_uniform", outn); }
  { O x(ps); CL(x, ecdsa_pubkey_from_hash, w, x, &outn, h, compact); }
  { O x(fs); C1(x, ecdsa_pubkey_to_uniform, w, x, q, q.size(), (unsigned)t.r.below(16)); }
  { O x(2 * fs); C1(x, ecdsa_pubkey_to_hash, w, x, q, q.size(), (unsigned)t.r.below(2), en); }
  { O x(fs); V1(x, bip340_pubkey_from_uniform, w, x, u); }
  { O x(fs); C1(x, bip340_pubkey_from_hash, w, x, h); }
  { O x(fs); C1(x, bip340_pubkey_to_uniform, w, x, x1, (unsigned)t.r.below(16)); }
  { O x(2 * fs); C1(x, bip340_pubkey_to_hash, w, x, x1, (unsigned)t.r.below(2), en); }
}
static Bytes epub(T &t, const edwards_curve_t *e) {
  I pr(t.r.special(eddsa_privkey_size(e)));
  Buf o(eddsa_pubkey_size(e));
  eddsa_pubkey_create(e, o, pr);
  return mostly(t.r, o.get());
}
API_TEST(ed_keys, 600, 6, true) {
  const edwards_curve_t *e = E(t.r.below(3));
  size_t sc = edwards_curve_scalar_size(e), fs = edwards_curve_field_size(e), ks = eddsa_privkey_size(e), ps = eddsa_pubkey_size(e);
  I en(t.r.special(32)), k(t.r.special(ks)), s(t.r.special(sc)), s2(t.r.special(sc)), q(epub(t, e)), q2(epub(t, e)), raw(t.r.special(t.r.below(ks + 3)));
  { O x(ks); V1(x, eddsa_privkey_generate, e, x, en); }
  { O x(sc); V1(x, eddsa_scalar_generate, e, x, en); }
  { O x(sc), y(ps); call(t, "expand", {&x, &y}, [&] { eddsa_privkey_expand(e, x, y, k); return 1; }); }
  { O x(sc); V1(x, eddsa_privkey_convert, e, x, k); }
  C0(eddsa_privkey_verify, e, k);
  { O x(ks); C1(x, eddsa_privkey_export, e, x, k); }
  { O x(ks); C1(x, eddsa_privkey_import, e, x, raw, raw.size()); }
  C0(eddsa_scalar_verify, e, s);
  C0(eddsa_scalar_is_zero, e, s);
  { O x(sc); V1(x, eddsa_scalar_clamp, e, x, s); }
  { O x(sc); V1(x, eddsa_scalar_tweak_add, e, x, s, s2); }
  { O x(sc); V1(x, eddsa_scalar_tweak_mul, e, x, s, s2); }
  { O x(sc); V1(x, eddsa_scalar_reduce, e, x, s); }
  { O x(sc); V1(x, eddsa_scalar_negate, e, x, s); }
  { O x(sc); V1(x, eddsa_scalar_invert, e, x, s); }
  { O x(ps); V1(x, eddsa_pubkey_from_scalar, e, x, s); }
  { O x(ps); V1(x, eddsa_pubkey_create, e, x, k); }
  { O x(fs); C1(x, eddsa_pubkey_convert, e, x, q); }
  C0(eddsa_pubkey_verify, e, q);
  { O x(fs), y(fs); C2(x, y, eddsa_pubkey_export, e, x, y, q); }
  { I a(t.r.chance(1, 2) ? Bytes() : t.r.special(t.r.below(fs + 4))), b(t.r.chance(1, 2) ? Bytes(q.p(), q.p() + fs) : t.r.special(t.r.below(fs + 4))); O x(ps); C1(x, eddsa_pubkey_import, e, x, a, a.size(), b, b.size(), (int)t.r.below(3) - 1); }
  C0(eddsa_pubkey_is_infinity, e, q);
  C0(eddsa_pubkey_is_small, e, q);
  C0(eddsa_pubkey_has_torsion, e, q);
  { O x(ps); C1(x, eddsa_pubkey_tweak_add, e, x, q, s); }
  { O x(ps); C1(x, eddsa_pubkey_tweak_mul, e, x, q, s); }
  { O x(ps); C1(x, eddsa_pubkey_add, e, x, q, q2); }
  { const unsigned char *v[3] = {q, q2, q}; O x(ps); C1(x, eddsa_pubkey_combine, e, x, v, t.r.below(4)); }
  { O x(ps); C1(x, eddsa_pubkey_negate, e, x, q); }
  { O x(ps); C1(x, eddsa_derive_with_scalar, e, x, q, s); }
  { O x(ps); C1(x, eddsa_derive, e, x, q, k); }
  I u(t.r.special(fs)), h(t.r.special(2 * fs));
  { O x(ps); V1(x, eddsa_pubkey_from_uniform, e, x, u); }
  { O x(fs); C1(x, eddsa_pubkey_to_uniform, e, x, q, (unsigned)t.r.below(256)); }
  { O x(ps); V1(x, eddsa_pubkey_from_hash, e, x, h, (int)t.r.below(2)); }
  { O x(2 * fs); C1(x, eddsa_pubkey_to_hash, e, x, q, (unsigned)t.r.below(8), en); }
  if (t.r.chance(1, 4)) { O x(ks), y(sc); V1(x, eddsa_privkey_grind, e, x, en, check_any, &ps); V1(y, eddsa_scalar_grind, e, y, en, check_any, &fs); }
}
API_TEST(ed_signing, 400, 6, true) {
  const edwards_curve_t *e = E(t.r.below(3));
  size_t sc = edwards_curve_scalar_size(e), ks = eddsa_privkey_size(e), ps = eddsa_pubkey_size(e), ss = eddsa_sig_size(e);
  I k(t.r.special(ks)), m(t.r.special(t.r.len(150, 64))), s(t.r.special(sc)), pf(t.r.special(ps)), tw(t.r.special(sc)), cx(t.r.special(t.r.chance(1, 2) ? 0 : t.r.below(256)));
  int ph = (int)t.r.below(3) - 1;
  { O x(ss); V1(x, eddsa_sign_with_scalar, e, x, m, m.size(), s, pf, ph, cx, cx.size()); }
  { O x(ss); V1(x, eddsa_sign_tweak_add, e, x, m, m.size(), k, tw, ph, cx, cx.size()); }
  { O x(ss); V1(x, eddsa_sign_tweak_mul, e, x, m, m.size(), k, tw, ph, cx, cx.size()); }
  O x(ss);
  V1(x, eddsa_sign, e, x, m, m.size(), k, ph, cx, cx.size());
  Buf pb(ps);
  eddsa_pubkey_create(e, pb, k);
  I S(mostly(t.r, x.get())), Q(mostly(t.r, pb.get()));
  C0(eddsa_verify, e, m, m.size(), S, Q, ph, cx, cx.size());
  C0(eddsa_verify_single, e, m, m.size(), S, Q, ph, cx, cx.size());
  const unsigned char *ms[4] = {m, m, m, m}, *sg[4] = {S, S, S, S}, *pp[4] = {Q, Q, Q, Q};
  size_t ml[4] = {m.size(), m.size(), m.size(), m.size()};
  edwards_scratch_t *scr = edwards_scratch_create(e, 2 + t.r.below(8));
  C0(eddsa_verify_batch, e, ms, ml, sg, pp, t.r.below(5), ph, cx, cx.size(), scr);
  edwards_scratch_destroy(e, scr);
}
API_TEST(ecdh, 600, 6, true) {
  const mont_curve_t *e = M(t.r.below(2));
  size_t sc = mont_curve_scalar_size(e), fs = mont_curve_field_size(e), es = fs == 56 ? 57 : 32;
  I en(t.r.special(32)), k(t.r.special(sc)), raw(t.r.special(t.r.below(sc + 4))), u(t.r.special(fs)), h(t.r.special(2 * fs));
  Buf pb(fs);
  ecdh_pubkey_create(e, pb, k);
  I q(mostly(t.r, pb.get())), k2(t.r.special(sc));
  { O x(sc); V1(x, ecdh_privkey_generate, e, x, en); }
  C0(ecdh_privkey_verify, e, k);
  { O x(sc); C1(x, ecdh_privkey_export, e, x, k); }
  { O x(sc); C1(x, ecdh_privkey_import, e, x, raw, raw.size()); }
  { O x(fs); V1(x, ecdh_pubkey_create, e, x, k2); }
  { O x(es); C1(x, ecdh_pubkey_convert, e, x, q, (int)t.r.below(2)); }
  { O x(fs); V1(x, ecdh_pubkey_from_uniform, e, x, u); }
  { O x(fs); C1(x, ecdh_pubkey_to_uniform, e, x, q, (unsigned)t.r.below(16)); }
  { O x(fs); C1(x, ecdh_pubkey_from_hash, e, x, h, (int)t.r.below(2)); }
  { O x(2 * fs); C1(x, ecdh_pubkey_to_hash, e, x, q, (unsigned)t.r.below(8), en); }
  C0(ecdh_pubkey_verify, e, q);
  { O x(fs), y(fs); C2(x, y, ecdh_pubkey_export, e, x, y, q, (int)t.r.below(3) - 1); }
  { I a(t.r.chance(1, 2) ? Bytes(q.p(), q.p() + fs) : t.r.special(t.r.below(fs + 4))), b(t.r.special(t.r.chance(1, 2) ? 0 : t.r.below(fs + 4))); O x(fs); C1(x, ecdh_pubkey_import, e, x, a, a.size(), b, b.size()); }
  C0(ecdh_pubkey_is_small, e, q);
  C0(ecdh_pubkey_has_torsion, e, q);
  { O x(fs); C1(x, ecdh_derive, e, x, q, k2); }
  if (t.r.chance(1, 4)) { O x(sc); V1(x, ecdh_privkey_grind, e, x, en, check_any, &fs); }
}
API_TEST(ristretto, 500, 6, true) {
  const edwards_curve_t *e = E(t.r.below(2));
  size_t sc = ristretto_privkey_size(e), fs = ristretto_pubkey_size(e), us = sc == 32 ? 64 : 112;
  I en(t.r.special(32)), un(t.r.special(us)), raw(t.r.special(t.r.below(sc + 4))), u(t.r.special(fs)), h(t.r.special(2 * fs));
  Buf g(sc), g2(sc), pb(fs);
  ristretto_privkey_generate(e, g, en);
  ristretto_privkey_from_uniform(e, g2, un);
  ristretto_pubkey_create(e, pb, g2);
  I k(mostly(t.r, g.get())), tw(mostly(t.r, g2.get())), q(mostly(t.r, pb.get())), q2(t.r.special(fs));
  { O x(sc); V1(x, ristretto_privkey_generate, e, x, en); }
  { O x(sc); V1(x, ristretto_privkey_from_uniform, e, x, un); }
  C0(ristretto_privkey_verify, e, k);
  C0(ristretto_privkey_is_zero, e, k);
  { O x(sc); C1(x, ristretto_privkey_export, e, x, k); }
  { O x(sc); C1(x, ristretto_privkey_import, e, x, raw, raw.size()); }
  { O x(sc); C1(x, ristretto_privkey_tweak_add, e, x, k, tw); }
  { O x(sc); C1(x, ristretto_privkey_tweak_mul, e, x, k, tw); }
  { O x(sc); C1(x, ristretto_privkey_negate, e, x, k); }
  { O x(sc); C1(x, ristretto_privkey_invert, e, x, k); }
  { O x(fs); C1(x, ristretto_pubkey_create, e, x, k); }
  { O x(fs); V1(x, ristretto_pubkey_from_uniform, e, x, u); }
  { O x(fs); C1(x, ristretto_pubkey_to_uniform, e, x, q, (unsigned)t.r.below(64)); }
  { O x(fs); V1(x, ristretto_pubkey_from_hash, e, x, h); }
  { O x(2 * fs); C1(x, ristretto_pubkey_to_hash, e, x, q, en); }
  C0(ristretto_pubkey_verify, e, q);
  C0(ristretto_pubkey_is_infinity, e, q);
  { O x(fs); C1(x, ristretto_pubkey_tweak_add, e, x, q, tw); }
  { O x(fs); C1(x, ristretto_pubkey_tweak_mul, e, x, q, tw); }
  { O x(fs); C1(x, ristretto_pubkey_add, e, x, q, q2); }
  { const unsigned char *v[3] = {q, q, q2}; O x(fs); C1(x, ristretto_pubkey_combine, e, x, v, t.r.below(4)); }
  { O x(fs); C1(x, ristretto_pubkey_negate, e, x, q); }
  { O x(fs); C1(x, ristretto_derive, e, x, q, k); }
  if (t.r.chance(1, 4)) { O x(sc); V1(x, ristretto_privkey_grind, e, x, en, check_any, &fs); O y(sc); C1(y, ristretto_pubkey_grind, e, y, q, check_any, &fs); }
}
// fresh contexts: creation, blinding, use, destruction
API_TEST(contexts, 60, 6, true) {
  int i = t.r.below(11);
  I en(t.r.special(32)), m(t.r.special(32));
  if (i < 6) {
    wei_curve_t *w = wei_curve_create((wei_curve_id_t)i);
    if (!t.res("create", w != nullptr)) return;
    wei_curve_randomize(w, en);
    I p(wpriv(t, w));
    O s(ecdsa_sig_size(w));
    unsigned prm;
    C1(s, ecdsa_sign, w, s, &prm, m, 32, p);
    wei_curve_destroy(w);
  } else if (i < 9) {
    edwards_curve_t *e = edwards_curve_create((edwards_curve_id_t)(i - 6));
    if (!t.res("create", e != nullptr)) return;
    edwards_curve_randomize(e, en);
    I k(t.r.special(eddsa_privkey_size(e)));
    O s(eddsa_sig_size(e));
    V1(s, eddsa_sign, e, s, m, 32, k, -1, nullptr, 0);
    edwards_curve_destroy(e);
  } else {
    mont_curve_t *e = mont_curve_create((mont_curve_id_t)(i - 9));
    if (!t.res("create", e != nullptr)) return;
    I k(t.r.special(mont_curve_scalar_size(e)));
    O x(mont_curve_field_size(e));
    V1(x, ecdh_pubkey_create, e, x, k);
    mont_curve_destroy(e);
  }
}
