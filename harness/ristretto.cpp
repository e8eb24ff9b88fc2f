// C18: Ristretto groups on the Edwards model
#include "ref_rist.hpp"
using namespace edu;

static std::string K(const char *s, const E &w) { return std::string(s) + ":" + w.name; }
static Z wild(Rng &r, const E &w) { return r.chance(2, 3) ? ec::scalar(r, w.n) : wide_(r, w); }
// an element: multiples of the base, or the decoding of a chosen s
static P element(Rng &r, const E &w) {
  if (r.chance(1, 3)) for (;;) {
    P q;
    Z s = big::rnd_edge(r, w.p);
    if (s.odd()) s = w.p - s;
    if (rist::dec(w, q, big::to_le(s, w.fs))) return q;
  }
  return w.mulg(r.chance(1, 4) ? Z((unsigned long)r.below(12)) : ec::scalar(r, w.n));
}
static Bytes mut(Rng &r, const E &w) {
  Bytes b = rist::enc(w, element(r, w));
  Z s = big::from_le(b), top = pow2(8 * w.fs);
  switch (r.below(10)) {
    case 0: b[r.below(w.fs)] ^= 1 << r.below(8); break;
    case 1: b = r.special(w.fs); break;
    case 2: b = big::to_le((w.p - s) % w.p, w.fs); break;                          // negative
    case 3: if (s + w.p < top) b = big::to_le(s + w.p, w.fs); break;                // not reduced
    case 4: b = big::to_le((w.p + Z((unsigned long)r.below(24))) % top, w.fs); break;
    case 5: b = big::to_le(w.p - Z((unsigned long)r.range(1, 24)), w.fs); break;
    case 6: b = big::to_le(Z((unsigned long)r.below(24)), w.fs); break;
    case 7: { Z t = big::rnd_edge(r, w.p); b = big::to_le(t.odd() ? w.p - t : t, w.fs); break; }
    case 8: b[w.fs - 1] |= 0x80; break;
    default: break;
  }
  return b;
}

VH_TEST(scalars, 5000, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  Z a = wild(c.rng, w), t = wild(c.rng, w);
  if (c.rng.chance(1, 6)) t = (w.n - a % w.n) % w.n;
  else if (c.rng.chance(1, 4)) t = ec::cofactor(c.rng, a, w.n);
  bool av = a < w.n, tv = t < w.n;
  In A(w.sc(a)), T(w.sc(t));
  std::string info = "a=" + a.hex() + " t=" + t.hex();
  auto op = [&](const char *n, bool ok, const Z &want, std::function<int(uint8_t *)> f) {
    Buf o(w.ss);
    int r = f(o);
    if (eqi((K(n, w) + ":ret").c_str(), r != 0, ok, "%s", info.c_str()) && ok) eq(K(n, w).c_str(), o.get(), w.sc(want), "%s", info.c_str());
    ev(ok ? "scalar_result" : "scalar_refused");
  };
  eqi(K("verify", w).c_str(), ristretto_privkey_verify(e, A) != 0, av, "%s", info.c_str());
  eqi(K("is_zero", w).c_str(), ristretto_privkey_is_zero(e, A) != 0, a.zero(), "%s", info.c_str());
  op("export", av, a, [&](uint8_t *o) { return ristretto_privkey_export(e, o, A); });
  op("tweak_add", av && tv, (a + t) % w.n, [&](uint8_t *o) { return ristretto_privkey_tweak_add(e, o, A, T); });
  op("tweak_mul", av && tv && !(a * t % w.n).zero(), a * t % w.n, [&](uint8_t *o) { return ristretto_privkey_tweak_mul(e, o, A, T); });
  op("negate", av, (w.n - a) % w.n, [&](uint8_t *o) { return ristretto_privkey_negate(e, o, A); });
  op("invert", av, big::inv(a, w.n), [&](uint8_t *o) { return ristretto_privkey_invert(e, o, A); });
  Bytes raw = w.sc(a);
  if (c.rng.chance(1, 2)) raw.insert(raw.end(), c.rng.below(4), c.rng.chance(1, 6));
  else if (c.rng.chance(1, 4)) raw.resize(c.rng.below(w.ss));
  Z rv = big::from_le(raw);
  In R(raw);
  op("import", rv < w.n, rv, [&](uint8_t *o) { return ristretto_privkey_import(e, o, R, raw.size()); });
  Bytes u = c.rng.special(2 * w.ss);
  if (c.rng.chance(1, 3)) { u = big::to_le(w.n * big::from_le(c.rng.bytes(w.ss)) + Z((long)c.rng.below(3)), 2 * w.ss); }
  In U(u);
  op("from_uniform", true, big::from_le(u) % w.n, [&](uint8_t *o) { ristretto_privkey_from_uniform(e, o, U); return 1; });
  Buf p(w.fs);
  int r = ristretto_pubkey_create(e, p, A);
  if (eqi(K("create_ret", w).c_str(), r != 0, av, "%s", info.c_str()) && av) eq(K("create", w).c_str(), p.get(), rist::enc(w, w.mulg(a)), "%s", info.c_str());
  eval(hb(w.sc(a), hb(w.sc(t), w.id)));
  sample(w.name + " " + info);
}

VH_TEST(decode, 10000, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  Bytes b = mut(c.rng, w);
  P q;
  bool ok = rist::dec(w, q, b);
  In B(b);
  std::string info = "enc=" + hex(b);
  eqi(K("verify", w).c_str(), ristretto_pubkey_verify(e, B) != 0, ok, "%s", info.c_str());
  eqi(K("is_infinity", w).c_str(), ristretto_pubkey_is_infinity(e, B) != 0, b == Bytes(w.fs, 0), "%s", info.c_str());
  Buf o(w.fs), o2(w.fs);
  int r = ristretto_pubkey_negate(e, o, B);
  if (eqi(K("negate_ret", w).c_str(), r != 0, ok, "%s", info.c_str()) && ok) {
    eq(K("negate", w).c_str(), o.get(), rist::enc(w, w.neg(q)), "%s", info.c_str());
    // re-encoding gives the same bytes: one encoding per element
    ristretto_pubkey_negate(e, o2, o);
    eq(K("canonical", w).c_str(), o2.get(), b, "%s", info.c_str());
  }
  eval(hb(b, w.id));
  ev(ok ? "decode_accept" : "decode_reject");
  sample(w.name + " " + info + (ok ? " accepted" : " refused"));
}

VH_TEST(points, 5000, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  P p = element(c.rng, w), q = element(c.rng, w);
  if (c.rng.chance(1, 6)) q = p;
  if (c.rng.chance(1, 8)) q = w.neg(p);
  Bytes b1 = rist::enc(w, p), b2 = rist::enc(w, q);
  bool o1 = true, o2 = true;
  if (c.rng.chance(1, 8)) (c.rng.chance(1, 2) ? b1 : b2) = mut(c.rng, w);
  o1 = rist::dec(w, p, b1);
  o2 = rist::dec(w, q, b2);
  In B1(b1), B2(b2);
  std::string info = "p=" + hex(b1) + " q=" + hex(b2);
  auto op = [&](const char *n, bool ok, const P &want, std::function<int(uint8_t *)> f) {
    Buf o(w.fs);
    int r = f(o);
    if (eqi((K(n, w) + ":ret").c_str(), r != 0, ok, "%s", info.c_str()) && ok) eq(K(n, w).c_str(), o.get(), rist::enc(w, want), "%s", info.c_str());
    ev(ok ? "results" : "refused");
  };
  op("add", o1 && o2, o1 && o2 ? w.add(p, q) : p, [&](uint8_t *o) { return ristretto_pubkey_add(e, o, B1, B2); });
  size_t n = c.rng.below(6);
  std::vector<const unsigned char *> ps;
  P s = w.id0();
  bool ok = true;
  for (size_t i = 0; i < n; i++) { bool f = c.rng.chance(1, 2); ps.push_back(f ? B1 : B2); ok &= f ? o1 : o2; if (ok) s = w.add(s, f ? p : q); }
  ps.push_back(nullptr);
  op("combine", ok, s, [&](uint8_t *o) { return ristretto_pubkey_combine(e, o, ps.data(), n); });
  Z t = wild(c.rng, w);
  if (c.rng.chance(1, 8)) t = Z(0);
  bool tv = t < w.n;
  In T(w.sc(t));
  info += " t=" + t.hex();
  P ta = o1 && tv ? w.add(p, w.mulg(t)) : p, tm = o1 && tv ? w.times(t, p) : p;
  op("tweak_add", o1 && tv, ta, [&](uint8_t *o) { return ristretto_pubkey_tweak_add(e, o, B1, T); });
  op("tweak_mul", o1 && tv && !rist::zero(w, tm), tm, [&](uint8_t *o) { return ristretto_pubkey_tweak_mul(e, o, B1, T); });
  op("derive", o1 && tv, tm, [&](uint8_t *o) { return ristretto_derive(e, o, B1, T); });
  eval(hb(b1, hb(b2, hb(w.sc(t), w.id))));
  sample(w.name + " " + info);
}

VH_TEST(grind, 800, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  struct G { unsigned stop, n; Bytes last; size_t fs; } st{(unsigned)c.rng.range(1, 20), 0, Bytes(), w.fs};
  auto cb = [](const unsigned char *p, void *a) { G *q = (G *)a; q->n++; q->last.assign(p, p + q->fs); return (int)(q->n == q->stop); };
  P p = element(c.rng, w);
  if (c.rng.chance(1, 4)) p = w.neg(w.mulg(Z((unsigned long)c.rng.below(6))));
  Bytes b = rist::enc(w, p);
  if (c.rng.chance(1, 6)) b = mut(c.rng, w);
  bool ok = rist::dec(w, p, b);
  In B(b);
  Buf t(w.ss);
  int r = ristretto_pubkey_grind(e, t, B, cb, &st);
  if (eqi(K("ret", w).c_str(), r != 0, ok, "pub=%s", hex(b).c_str()) && ok) {
    Z tw = big::from_le(t.get());
    if (tw >= w.n) viol(K("range", w).c_str(), "pub=%s tweak=%s", hex(b).c_str(), hex(t.get()).c_str());
    eq(K("tweak", w).c_str(), rist::enc(w, w.add(p, w.mulg(tw))), st.last, "pub=%s tweak=%s after %u candidates", hex(b).c_str(), hex(t.get()).c_str(), st.n);
    eqi(K("calls", w).c_str(), st.n, st.stop, "pub=%s", hex(b).c_str());
  }
  st.n = 0;
  Bytes en = c.rng.bytes(32), en2 = en;
  en2[c.rng.below(32)] ^= 1;
  In EN(en), EN2(en2);
  Buf g(w.ss), g1(w.ss), g2(w.ss), g3(w.ss);
  ristretto_privkey_grind(e, g, EN, cb, &st);
  Z k = big::from_le(g.get());
  if (k >= w.n) viol(K("privkey_range", w).c_str(), "entropy=%s", hex(en).c_str());
  eq(K("privkey", w).c_str(), rist::enc(w, w.mulg(k)), st.last, "entropy=%s", hex(en).c_str());
  ristretto_privkey_generate(e, g1, EN); ristretto_privkey_generate(e, g2, EN); ristretto_privkey_generate(e, g3, EN2);
  eq(K("generate_deterministic", w).c_str(), g2.get(), g1.get(), "entropy=%s", hex(en).c_str());
  Z v = big::from_le(g1.get());
  if (v >= w.n || v.zero()) viol(K("generate_range", w).c_str(), "entropy=%s key=%s", hex(en).c_str(), hex(g1.get()).c_str());
  if (g1.get() == g3.get()) viol(K("generate_distinct", w).c_str(), "entropy=%s", hex(en).c_str());
  eqi(K("sizes", w).c_str(), ristretto_privkey_size(e) * 1000 + ristretto_pubkey_size(e), w.ss * 1000 + w.fs, "sizes");
  eval(hb(b, hb(en, w.id)));
  ev("grinds");
}
