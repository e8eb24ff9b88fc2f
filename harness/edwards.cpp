// C16: Edwards keys, scalars and points on the twisted Edwards model
#include "edw_util.hpp"
using namespace edu;

static std::string K(const char *s, const E &w) { return std::string(s) + ":" + w.name; }

VH_TEST(scalars, 6000, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  Z a = wide_(c.rng, w), t = wide_(c.rng, w), top = pow2(8 * w.ss);
  if (c.rng.chance(1, 5)) t = (w.n - a % w.n) + (c.rng.chance(1, 2) ? w.n : Z(0));   // sums to zero
  if (c.rng.chance(1, 4)) t = ec::cofactor(c.rng, a, w.n);
  t = t % top;
  In A(w.sc(a)), T(w.sc(t));
  std::string info = "a=" + a.hex() + " t=" + t.hex();
  auto op = [&](const char *n, const Bytes &want, std::function<void(uint8_t *)> f) {
    Buf o(w.ss);
    f(o);
    eq(K(n, w).c_str(), o.get(), want, "%s", info.c_str());
    ev("scalar_ops");
  };
  op("tweak_add", w.sc((a + t) % w.n), [&](uint8_t *o) { eddsa_scalar_tweak_add(e, o, A, T); });
  op("tweak_mul", w.sc(a * t % w.n), [&](uint8_t *o) { eddsa_scalar_tweak_mul(e, o, A, T); });
  op("reduce", w.sc(a % w.n), [&](uint8_t *o) { eddsa_scalar_reduce(e, o, A); });
  op("negate", w.sc((w.n - a % w.n) % w.n), [&](uint8_t *o) { eddsa_scalar_negate(e, o, A); });
  op("invert", w.sc(big::inv(a % w.n, w.n)), [&](uint8_t *o) { eddsa_scalar_invert(e, o, A); });
  op("clamp", clamp(w, w.sc(a)), [&](uint8_t *o) { eddsa_scalar_clamp(e, o, A); });
  // in place
  { Buf o(w.sc(a)); eddsa_scalar_tweak_add(e, o, o, T); eq(K("tweak_add_inplace", w).c_str(), o.get(), w.sc((a + t) % w.n), "%s", info.c_str()); }
  { Buf o(w.sc(a)); eddsa_scalar_tweak_mul(e, o, o, o); eq(K("square_inplace", w).c_str(), o.get(), w.sc(a * a % w.n), "%s", info.c_str()); }
  eqi(K("is_zero", w).c_str(), eddsa_scalar_is_zero(e, A) != 0, (a % w.n).zero(), "%s", info.c_str());
  eqi(K("scalar_verify", w).c_str(), eddsa_scalar_verify(e, A) != 0, 1, "%s", info.c_str());
  Buf p(w.es);
  eddsa_pubkey_from_scalar(e, p, A);
  eq(K("pubkey_from_scalar", w).c_str(), p.get(), w.enc(w.mulg(a)), "%s", info.c_str());
  if (a >= w.n) ev("unreduced_scalar");
  eval(hb(w.sc(a), hb(w.sc(t), w.id)));
  ev("base_mul");
  sample(w.name + " " + info);
}

VH_TEST(keys, 2500, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  Bytes priv = c.rng.special(w.es), scalar, prefix;
  expand(w, priv, scalar, prefix);
  In PR(priv);
  Buf s(w.ss), px(w.es), s2(w.ss), pub(w.es), ex(w.es);
  eddsa_privkey_expand(e, s, px, PR);
  eq(K("expand", w).c_str(), ref::cat({s.get(), px.get()}), ref::cat({scalar, prefix}), "priv=%s", hex(priv).c_str());
  eddsa_privkey_convert(e, s2, PR);
  eq(K("convert", w).c_str(), s2.get(), scalar, "priv=%s", hex(priv).c_str());
  eddsa_pubkey_create(e, pub, PR);
  eq(K("pubkey_create", w).c_str(), pub.get(), w.enc(w.mulg(big::from_le(scalar))), "priv=%s", hex(priv).c_str());
  eqi(K("privkey_verify", w).c_str(), eddsa_privkey_verify(e, PR) != 0, 1, "priv=%s", hex(priv).c_str());
  eqi(K("privkey_export_ret", w).c_str(), eddsa_privkey_export(e, ex, PR) != 0, 1, "priv=%s", hex(priv).c_str());
  eq(K("privkey_export", w).c_str(), ex.get(), priv, "priv=%s", hex(priv).c_str());
  Bytes raw = priv;
  if (c.rng.chance(1, 2)) raw.resize(c.rng.chance(1, 2) ? w.es - 1 + c.rng.below(3) : c.rng.below(2 * w.es));
  In RI(raw);
  Buf im(w.es);
  int r = eddsa_privkey_import(e, im, RI, raw.size());
  if (eqi(K("privkey_import_ret", w).c_str(), r != 0, raw.size() == w.es, "raw=%s", hex(raw).c_str()) && r) eq(K("privkey_import", w).c_str(), im.get(), raw, "raw=%s", hex(raw).c_str());
  eqi(K("sizes", w).c_str(), eddsa_privkey_size(e) * 1000000 + eddsa_pubkey_size(e) * 1000 + eddsa_sig_size(e), w.es * 1000000 + w.es * 1000 + 2 * w.es, "sizes");
  eqi(K("curve_sizes", w).c_str(), edwards_curve_scalar_size(e) * 1000 + edwards_curve_field_size(e), w.ss * 1000 + w.fs, "sizes");
  eqi(K("curve_bits", w).c_str(), edwards_curve_scalar_bits(e) * 1000 + edwards_curve_field_bits(e), w.n.bits() * 1000 + w.p.bits(), "bits");
  // generation is determined by the entropy; scalars come out clamped; different entropy gives different keys
  Bytes en = c.rng.bytes(32), en2 = en;
  en2[c.rng.below(32)] ^= 1 << c.rng.below(8);
  In EN(en), EN2(en2);
  Buf g1(w.es), g2(w.es), g3(w.es), sg(w.ss);
  eddsa_privkey_generate(e, g1, EN); eddsa_privkey_generate(e, g2, EN); eddsa_privkey_generate(e, g3, EN2);
  eq(K("generate_deterministic", w).c_str(), g2.get(), g1.get(), "entropy=%s", hex(en).c_str());
  if (g1.get() == g3.get()) viol(K("generate_distinct", w).c_str(), "entropy=%s and %s give one key", hex(en).c_str(), hex(en2).c_str());
  eddsa_scalar_generate(e, sg, EN);
  eq(K("scalar_generate_clamped", w).c_str(), sg.get(), clamp(w, sg.get()), "entropy=%s", hex(en).c_str());
  // grinding returns the first candidate the callback accepts
  struct G { unsigned stop, n; Bytes last; size_t es; } st{(unsigned)c.rng.range(1, 4), 0, Bytes(), w.es};
  auto cb = [](const unsigned char *p, void *arg) { G *q = (G *)arg; q->n++; q->last.assign(p, p + q->es); return (int)(q->n == q->stop); };
  Buf gp(w.es), gs(w.ss);
  eddsa_privkey_grind(e, gp, EN, cb, &st);
  Bytes gsc, gpx;
  expand(w, gp.get(), gsc, gpx);
  eq(K("privkey_grind", w).c_str(), st.last, w.enc(w.mulg(big::from_le(gsc))), "entropy=%s", hex(en).c_str());
  eqi(K("privkey_grind_calls", w).c_str(), st.n, st.stop, "entropy=%s", hex(en).c_str());
  Bytes first = st.last;
  st.n = 0;
  eddsa_scalar_grind(e, gs, EN, cb, &st);
  eq(K("scalar_grind", w).c_str(), st.last, w.enc(w.mulg(big::from_le(gs.get()))), "entropy=%s", hex(en).c_str());
  ev("keys");
  ev("grinds", 2);
  eval(hb(priv, w.id));
}

VH_TEST(decode, 12000, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  Bytes b = mutenc(c.rng, w);
  P q;
  bool ok = w.dec(q, b);
  In B(b);
  std::string info = "pub=" + hex(b);
  eqi(K("verify", w).c_str(), eddsa_pubkey_verify(e, B) != 0, ok, "%s", info.c_str());
  Bytes inf(w.es, 0);
  inf[0] = 1;
  eqi(K("is_infinity", w).c_str(), eddsa_pubkey_is_infinity(e, B) != 0, b == inf, "%s", info.c_str());
  eqi(K("is_small", w).c_str(), eddsa_pubkey_is_small(e, B) != 0, ok && w.small(q) && !w.is_id(q), "%s", info.c_str());
  if (c.rng.chance(1, 4)) eqi(K("has_torsion", w).c_str(), eddsa_pubkey_has_torsion(e, B) != 0, ok && !w.torsion_free(q), "%s", info.c_str());
  Buf x(w.fs), y(w.fs), o(w.es);
  int r = eddsa_pubkey_export(e, x, y, B);
  if (eqi(K("export_ret", w).c_str(), r != 0, ok, "%s", info.c_str()) && ok) eq(K("export", w).c_str(), ref::cat({x.get(), y.get()}), ref::cat({big::to_le(q.x, w.fs), big::to_le(q.y, w.fs)}), "%s", info.c_str());
  r = eddsa_pubkey_negate(e, o, B);
  if (eqi(K("negate_ret", w).c_str(), r != 0, ok, "%s", info.c_str()) && ok) eq(K("negate", w).c_str(), o.get(), w.enc(w.neg(q)), "%s", info.c_str());
  Buf u(w.fs);
  r = eddsa_pubkey_convert(e, u, B);
  bool cok = ok && !w.is_id(q);
  if (eqi(K("convert_ret", w).c_str(), r != 0, cok, "%s", info.c_str()) && cok) {
    Z want;
    if (w.h == 4 && w.p.bits() == 448) want = q.x.zero() ? Z(0) : q.y * q.y % w.p * big::inv(q.x * q.x % w.p, w.p) % w.p;   // 4-isogeny of RFC 7748
    else {
      want = (Z(1) + q.y) * big::inv((Z(1) - q.y) % w.p, w.p) % w.p;
      if (w.p.bits() == 251) want = (w.p - want) % w.p;   // Montgomery form of E(d, a)
    }
    eq(K("convert", w).c_str(), u.get(), big::to_le(want, w.fs), "%s", info.c_str());
    ev("converted");
  }
  eval(hb(b, w.id), true);
  ev(ok ? "decode_accept" : "decode_reject");
  if (ok && w.small(q)) ev("small_order");
  sample(w.name + " " + info + (ok ? " accepted" : " refused"));
}

VH_TEST(import, 6000, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  P q = point(c.rng, w);
  Bytes x = big::to_le(q.x, w.fs), y = big::to_le(q.y, w.fs);
  switch (c.rng.below(6)) {
    case 0: x.clear(); break;
    case 1: y.clear(); break;
    case 2: (c.rng.chance(1, 2) ? x : y)[c.rng.below(w.fs)] ^= 1 << c.rng.below(8); break;
    case 3: x = c.rng.special(w.fs); y.clear(); break;
    case 4: y = big::to_le(big::rnd_edge(c.rng, pow2(8 * w.fs)), w.fs); x.clear(); break;
    default: break;
  }
  if (!x.empty() && c.rng.chance(1, 8)) x = big::to_le(big::from_le(x) + w.p, w.fs + 1);
  if (!y.empty() && c.rng.chance(1, 8)) y = big::to_le(big::from_le(y) + w.p, w.fs + 1);
  if (c.rng.chance(1, 4)) x.insert(x.end(), c.rng.below(4), c.rng.chance(1, 6));
  if (c.rng.chance(1, 4)) y.insert(y.end(), c.rng.below(4), c.rng.chance(1, 6));
  if (c.rng.chance(1, 6)) while (!x.empty() && x.back() == 0) x.pop_back();
  if (c.rng.chance(1, 6)) while (!y.empty() && y.back() == 0) y.pop_back();
  int sign = (int)c.rng.below(3) - 1;
  Z X = big::from_le(x), Y = big::from_le(y);
  bool ok = (!x.empty() || !y.empty()) && X < w.p && Y < w.p, any = false;
  P p;
  if (ok) {
    if (!x.empty() && !y.empty()) { p = P(X, Y); ok = w.on(p); }
    else if (!x.empty()) {
      Z l = (w.a * X * X - Z(1)) % w.p, rr = (w.d * X * X - Z(1)) % w.p, yy;
      ok = !rr.zero() && big::sqrtm(yy, l * big::inv(rr, w.p) % w.p, w.p);
      if (ok) {
        if (sign == -1) any = true;
        else { if (yy.zero() && sign) ok = false; if ((int)yy.odd() != sign) yy = (w.p - yy) % w.p; }
        p = P(X, yy);
      }
    } else {
      if (sign == -1) { any = true; ok = w.lift(p, Y, 0) || w.lift(p, Y, 1); } else ok = w.lift(p, Y, sign);
    }
  }
  In XI(x), YI(y);
  Buf o(w.es);
  int r = eddsa_pubkey_import(e, o, XI, x.size(), YI, y.size(), sign);
  std::string info = "x=" + hex(x) + " y=" + hex(y) + fmt(" sign=%d", sign);
  if (eqi(K("import_ret", w).c_str(), r != 0, ok, "%s", info.c_str()) && ok) {
    Bytes w1 = w.enc(p), w2 = any ? (x.empty() ? w.enc(P((w.p - p.x) % w.p, p.y)) : w.enc(P(p.x, (w.p - p.y) % w.p))) : w1;
    if (o.get() != w1) eq(K("import", w).c_str(), o.get(), w2, "%s", info.c_str());
  }
  eval(hb(x, hb(y, w.id * 3 + sign)));
  ev(ok ? "import_accept" : "import_reject");
}

VH_TEST(points, 5000, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  bool bad = c.rng.chance(1, 8);
  P p = point(c.rng, w), q = point(c.rng, w);
  switch (c.rng.below(8)) { case 0: q = p; break; case 1: q = w.neg(p); break; case 2: q = w.add(p, tors(c.rng, w)); break; case 3: q = w.add(w.neg(p), tors(c.rng, w)); break; default: break; }
  Bytes b1 = w.enc(p), b2 = w.enc(q);
  bool o1 = true, o2 = true;
  if (bad) { (c.rng.chance(1, 2) ? b1 : b2) = mutenc(c.rng, w); o1 = w.dec(p, b1); o2 = w.dec(q, b2); }
  In B1(b1), B2(b2);
  std::string info = "p=" + hex(b1) + " q=" + hex(b2);
  auto op = [&](const char *n, bool ok, const P &want, std::function<int(uint8_t *)> f) {
    Buf o(w.es);
    int r = f(o);
    if (eqi((K(n, w) + ":ret").c_str(), r != 0, ok, "%s", info.c_str()) && ok) eq(K(n, w).c_str(), o.get(), w.enc(want), "%s", info.c_str());
    ev(ok ? "results" : "refused");
  };
  op("add", o1 && o2, o1 && o2 ? w.add(p, q) : p, [&](uint8_t *o) { return eddsa_pubkey_add(e, o, B1, B2); });
  { Buf o(b1); int r = eddsa_pubkey_add(e, o, o, B2); if (r && o1 && o2) eq(K("add_inplace", w).c_str(), o.get(), w.enc(w.add(p, q)), "%s", info.c_str()); }
  size_t n = c.rng.below(6);
  std::vector<const unsigned char *> ps;
  P s = w.id0();
  bool ok = true;
  for (size_t i = 0; i < n; i++) { bool first = c.rng.chance(1, 2); ps.push_back(first ? B1 : B2); ok &= first ? o1 : o2; if (ok) s = w.add(s, first ? p : q); }
  ps.push_back(nullptr);
  op("combine", ok, s, [&](uint8_t *o) { return eddsa_pubkey_combine(e, o, ps.data(), n); });
  Z t = wide_(c.rng, w);
  Bytes tb = w.sc(t);
  In T(tb);
  info += " t=" + t.hex();
  op("tweak_add", o1, o1 ? w.add(p, w.mulg(t)) : p, [&](uint8_t *o) { return eddsa_pubkey_tweak_add(e, o, B1, T); });
  op("tweak_mul", o1, o1 ? w.times(t, p) : p, [&](uint8_t *o) { return eddsa_pubkey_tweak_mul(e, o, B1, T); });
  // Diffie-Hellman with a clamped scalar
  Bytes cl = clamp(w, tb);
  P dh = o1 ? w.times(big::from_le(cl), p) : p;
  bool dok = o1 && !w.is_id(dh);
  op("derive_with_scalar", dok, dh, [&](uint8_t *o) { return eddsa_derive_with_scalar(e, o, B1, T); });
  if (c.rng.chance(1, 3)) {
    Bytes priv = c.rng.bytes(w.es), sc, px;
    expand(w, priv, sc, px);
    In PR(priv);
    P d2 = o1 ? w.times(big::from_le(sc), p) : p;
    op("derive", o1 && !w.is_id(d2), d2, [&](uint8_t *o) { return eddsa_derive(e, o, B1, PR); });
  }
  if (t >= w.n) ev("unreduced_multiplier");
  if (o1 && !dok) ev("derive_identity");
  eval(hb(b1, hb(b2, hb(tb, w.id))));
  sample(w.name + " " + info);
}
