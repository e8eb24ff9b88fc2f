// C12: Weierstrass keys and points against the affine group law
#include "ec_util.hpp"
using namespace ecu;

VH_TEST(sizes, 12, 2) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  eqi("scalar_size", wei_curve_scalar_size(e), w.ss, "%s", w.name.c_str());
  eqi("scalar_bits", wei_curve_scalar_bits(e), w.nb, "%s", w.name.c_str());
  eqi("field_size", wei_curve_field_size(e), w.fs, "%s", w.name.c_str());
  eqi("field_bits", wei_curve_field_bits(e), w.p.bits(), "%s", w.name.c_str());
  eqi("privkey_size", ecdsa_privkey_size(e), w.ss, "%s", w.name.c_str());
  eqi("pubkey_size", ecdsa_pubkey_size(e, 1), 1 + w.fs, "%s", w.name.c_str());
  eqi("pubkey_size", ecdsa_pubkey_size(e, 0), 1 + 2 * w.fs, "%s", w.name.c_str());
  eqi("sig_size", ecdsa_sig_size(e), 2 * w.ss, "%s", w.name.c_str());
  eqi("schnorr_sig_size", bipschnorr_sig_size(e), w.fs + w.ss, "%s", w.name.c_str());
  eqi("bip340", bip340_privkey_size(e) == w.ss && bip340_pubkey_size(e) == w.fs && bip340_sig_size(e) == w.fs + w.ss, 1, "%s", w.name.c_str());
  eval(w.id);
}

VH_TEST(priv, 24000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  Z a = wild(c.rng, w), t = wild(c.rng, w);
  if (c.rng.chance(1, 8)) t = (w.n - a) % w.n;
  else if (c.rng.chance(1, 4)) { t = ec::cofactor(c.rng, a, w.n); ev("product_near_multiple"); }
  bool av = !a.zero() && a < w.n, tv = t < w.n;
  Bytes ab = w.sc(a), tb = w.sc(t);
  std::string info = fmt("%s a=%s t=%s", w.name.c_str(), a.hex().c_str(), t.hex().c_str());
  In A(ab), T(tb);
  auto op = [&](const char *name, bool ok, const Z &want, std::function<int(uint8_t *)> f) {
    Buf o(w.ss);
    int r = f(o);
    std::string k = std::string(name) + ":" + w.name;
    if (eqi((k + ":ret").c_str(), r != 0, ok, "%s", info.c_str()) && ok) eq(k.c_str(), o.get(), w.sc(want), "%s", info.c_str());
    ev(ok ? "priv_ok" : "priv_refused");
  };
  eqi(("verify:" + w.name).c_str(), ecdsa_privkey_verify(e, A) != 0, av, "%s", info.c_str());
  op("export", av, a, [&](uint8_t *o) { return ecdsa_privkey_export(e, o, A); });
  op("negate", av, (w.n - a) % w.n, [&](uint8_t *o) { return ecdsa_privkey_negate(e, o, A); });
  op("invert", av, big::inv(a, w.n), [&](uint8_t *o) { return ecdsa_privkey_invert(e, o, A); });
  Z s = (a + t) % w.n, m = a * t % w.n;
  op("tweak_add", av && tv && !s.zero(), s, [&](uint8_t *o) { return ecdsa_privkey_tweak_add(e, o, A, T); });
  op("tweak_mul", av && tv && !m.zero(), m, [&](uint8_t *o) { return ecdsa_privkey_tweak_mul(e, o, A, T); });
  // in place
  op("tweak_add_alias", av && tv && !s.zero(), s, [&](uint8_t *o) { memcpy(o, ab.data(), w.ss); return ecdsa_privkey_tweak_add(e, o, o, T); });
  op("tweak_mul_alias", av && tv && !m.zero(), m, [&](uint8_t *o) { memcpy(o, tb.data(), w.ss); return ecdsa_privkey_tweak_mul(e, o, A, o); });
  // import: leading zeros dropped or added, anything longer refused
  Bytes raw = ab;
  switch (c.rng.below(5)) {
    case 0: raw.insert(raw.begin(), c.rng.below(20), 0); break;
    case 1: while (!raw.empty() && raw[0] == 0) raw.erase(raw.begin()); break;
    case 2: raw = c.rng.special(c.rng.below(w.ss + 8)); break;
    case 3: raw.insert(raw.begin(), c.rng.range(1, 5), c.rng.below(3)); break;
    default: break;
  }
  Z v = big::from_be(raw);
  In R(raw);
  info += fmt(" raw=%s", hex(raw).c_str());
  op("import", !v.zero() && v < w.n, v, [&](uint8_t *o) { return ecdsa_privkey_import(e, o, R, raw.size()); });
  eval(hb(ab, hb(tb, w.id)));
  sample(info);
}

VH_TEST(create, 7000, 8) {
  const W &w = curve(c.idx);
  bool bl;
  wei_curve_t *e = ctx(c, w, &bl);
  Z a = wild(c.rng, w);
  bool av = !a.zero() && a < w.n;
  int comp = c.rng.below(2);
  In A(w.sc(a));
  Out o = pub(w, comp, [&](uint8_t *p, size_t *l) { return ecdsa_pubkey_create(e, p, l, A, comp); });
  judge(bl ? "create_blinded" : "create", w, o, av, av ? w.mulg(a) : P(), comp, "a=" + a.hex());
  eval(hb(w.sc(a), w.id));
  sample(fmt("%s a=%s", w.name.c_str(), a.hex().c_str()));
}

// a fresh context, blinded right before use, with blinding that cancels or equals the key now and then
VH_TEST(blind, 300, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = wei_curve_create(w.id);
  for (int round = 0; round < 4; round++) {
    Bytes en = c.rng.special(32);
    In E(en);
    wei_curve_randomize(e, E);
    // the key generated from the same entropy is the blinding factor itself
    Buf k(w.ss);
    ecdsa_privkey_generate(e, k, E);
    Z b = big::from_be(k.get());
    for (const Z &a : {b, (w.n - b) % w.n, (b + b) % w.n, (b + Z(1)) % w.n, (b * big::inv(Z(2), w.n)) % w.n, ec::scalar(c.rng, w.n)}) {
      if (a.zero()) continue;
      In A(w.sc(a));
      Out o = pub(w, 1, [&](uint8_t *p, size_t *l) { return ecdsa_pubkey_create(e, p, l, A, 1); });
      judge("create", w, o, true, w.mulg(a), 1, "a=" + a.hex() + " entropy=" + hex(en));
      P q = point(c.rng, w).p;
      In Q(w.enc(q, false));
      o = pub(w, 1, [&](uint8_t *p, size_t *l) { return ecdsa_pubkey_tweak_mul(e, p, l, Q, Q.size(), A, 1); });
      judge("tweak_mul", w, o, true, w.times(a, q), 1, "a=" + a.hex());
      ev("blind_related");
    }
    eval(hb(en, w.id));
  }
  wei_curve_destroy(e);
}

VH_TEST(generate, 3000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  Bytes en = c.rng.special(32);
  In E(en);
  Buf a(w.ss), b(w.ss), d(w.ss);
  ecdsa_privkey_generate(e, a, E);
  ecdsa_privkey_generate(e, b, E);
  Bytes e2 = en;
  e2[c.rng.below(32)] ^= 1 << c.rng.below(8);
  In E2(e2);
  ecdsa_privkey_generate(e, d, E2);
  Z k = big::from_be(a.get());
  eqi(("range:" + w.name).c_str(), !k.zero() && k < w.n, 1, "entropy=%s key=%s", hex(en).c_str(), k.hex().c_str());
  eq(("deterministic:" + w.name).c_str(), b.get(), a.get(), "entropy=%s", hex(en).c_str());
  eqi(("distinct:" + w.name).c_str(), a.get() == d.get(), 0, "entropy=%s and %s give one key", hex(en).c_str(), hex(e2).c_str());
  eqi(("wide:" + w.name).c_str(), k.bits() + 60 >= w.nb, 1, "key %s is far shorter than the order", k.hex().c_str());
  Buf f(w.ss);
  bip340_privkey_generate(e, f, E);
  Z kf = big::from_be(f.get());
  eqi(("bip340_range:" + w.name).c_str(), !kf.zero() && kf < w.n, 1, "entropy=%s", hex(en).c_str());
  eval(hb(en, w.id));
  ev("generated");
}

VH_TEST(decode, 24000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  Bytes b = mutenc(c.rng, w);
  P q;
  bool ok = w.dec(q, b);
  In B(b);
  std::string info = "pub=" + hex(b);
  eqi(("verify:" + w.name).c_str(), ecdsa_pubkey_verify(e, B, b.size()) != 0, ok, "%s", info.c_str());
  int comp = c.rng.below(2);
  judge("convert", w, pub(w, comp, [&](uint8_t *p, size_t *l) { return ecdsa_pubkey_convert(e, p, l, B, b.size(), comp); }), ok, q, comp, info);
  judge("negate", w, pub(w, comp, [&](uint8_t *p, size_t *l) { return ecdsa_pubkey_negate(e, p, l, B, b.size(), comp); }), ok, ok ? w.neg(q) : q, comp, info);
  Buf x(w.fs), y(w.fs);
  int r = ecdsa_pubkey_export(e, x, y, B, b.size());
  if (eqi(("export:" + w.name + ":ret").c_str(), r != 0, ok, "%s", info.c_str()) && ok) {
    eq(("export_x:" + w.name).c_str(), x.get(), big::to_be(q.x, w.fs), "%s", info.c_str());
    eq(("export_y:" + w.name).c_str(), y.get(), big::to_be(q.y, w.fs), "%s", info.c_str());
  }
  // every consumer of a public key applies the same rule
  In one(w.sc(Z(1)));
  switch (c.rng.below(5)) {
    case 0: judge("tweak_mul_in", w, pub(w, comp, [&](uint8_t *p, size_t *l) { return ecdsa_pubkey_tweak_mul(e, p, l, B, b.size(), one, comp); }), ok, q, comp, info); break;
    case 1: judge("tweak_add_in", w, pub(w, comp, [&](uint8_t *p, size_t *l) { return ecdsa_pubkey_tweak_add(e, p, l, B, b.size(), one, comp); }), ok, ok ? w.add(q, w.g) : q, comp, info); break;
    case 2: judge("derive_in", w, pub(w, comp, [&](uint8_t *p, size_t *l) { return ecdsa_derive(e, p, l, B, b.size(), one, comp); }), ok, q, comp, info); break;
    case 3: {
      In g(w.enc(w.g, c.rng.chance(1, 2)));
      bool first = c.rng.chance(1, 2);
      judge("add_in", w, pub(w, comp, [&](uint8_t *p, size_t *l) { return first ? ecdsa_pubkey_add(e, p, l, B, b.size(), g, g.size(), comp) : ecdsa_pubkey_add(e, p, l, g, g.size(), B, b.size(), comp); }), ok, ok ? w.add(q, w.g) : q, comp, info);
      break;
    }
    default: {
      In g(w.enc(w.g, true));
      const unsigned char *ps[3] = {g.p(), B.p(), g.p()};
      size_t ls[3] = {g.size(), b.size(), g.size()};
      size_t n = 3, off = c.rng.below(2);
      judge("combine_in", w, pub(w, comp, [&](uint8_t *p, size_t *l) { return ecdsa_pubkey_combine(e, p, l, ps + off, ls + off, n - off, comp); }), ok, ok ? w.add(w.add(q, w.g), off ? P() : w.g) : q, comp, info);
    }
  }
  eval(hb(b, w.id));
  ev(ok ? "decode_accept" : "decode_reject");
  sample(w.name + " " + info + (ok ? " accepted" : " refused"));
}

VH_TEST(importxy, 12000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  P q = steered(c.rng, w);
  Bytes x = big::to_be(q.x, w.fs), y = big::to_be(q.y, w.fs);
  auto mess = [&](Bytes &b, const Z &v) {
    switch (c.rng.below(9)) {
      case 0: b.clear(); break;
      case 1: b.insert(b.begin(), c.rng.range(1, 9), 0); break;
      case 2: while (!b.empty() && b[0] == 0) b.erase(b.begin()); break;
      case 3: b.insert(b.begin(), 1, 1); break;
      case 4: { Z t = v + w.p; b = big::to_be(t, (t.bits() + 7) / 8); break; }
      case 5: b[c.rng.below(b.size())] ^= 1 << c.rng.below(8); break;
      default: break;
    }
  };
  mess(x, q.x); mess(y, q.y);
  int sign = (int)c.rng.below(3) - 1, comp = c.rng.below(2);
  Z X = big::from_be(x), Y = big::from_be(y);
  bool ok = !x.empty() && X < w.p && Y < w.p;
  P want;
  bool either = false;
  if (ok) {
    if (!y.empty()) { want = P(X, Y); ok = w.on(want); }
    else { ok = w.lift(want, X, sign); either = sign < 0; }
  }
  In xi(x), yi(y);
  Out o = pub(w, comp, [&](uint8_t *p, size_t *l) { return ecdsa_pubkey_import(e, p, l, xi, x.size(), yi, y.size(), sign, comp); });
  std::string info = fmt("x=%s y=%s sign=%d", hex(x).c_str(), hex(y).c_str(), sign);
  if (either && ok && o.ret) {
    P got;
    bool d = w.dec(got, o.b) && got.x == X;
    eqi(("import:" + w.name).c_str(), d, 1, "%s gave %s", info.c_str(), hex(o.b).c_str());
  } else judge("import", w, o, ok, want, comp, info);
  eval(hb(x, hb(y, w.id + 16 * (sign + 1))));
  ev("importxy");
  sample(w.name + " " + info);
}

// add, tweak, combine, derive on ordinary and steered points
VH_TEST(points, 7000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  K p = point(c.rng, w), q = point(c.rng, w);
  const char *kind = "general";
  switch (c.rng.below(6)) {
    case 0: q = p; kind = "double"; break;
    case 1: q.p = w.neg(p.p); kind = "cancel"; break;
    default: break;
  }
  // same y, different x (curves with a third root of unity, or by solving for x)
  if (w.a.zero() && c.rng.chance(1, 4)) {
    Z g = powm(Z(2), (w.p - Z(1)) / Z(3), w.p);
    if (g != Z(1)) { q.p = P(p.p.x * g % w.p, p.p.y); if (c.rng.chance(1, 2)) q.p = w.neg(q.p); kind = "endo"; }
  }
  int comp = c.rng.below(2);
  In A(anyenc(c.rng, w, p.p)), B(anyenc(c.rng, w, q.p));
  std::string info = fmt("p=%s q=%s", hex(w.enc(p.p, true)).c_str(), hex(w.enc(q.p, true)).c_str());
  judge("add", w, pub(w, comp, [&](uint8_t *o, size_t *l) { return ecdsa_pubkey_add(e, o, l, A, A.size(), B, B.size(), comp); }), true, w.add(p.p, q.p), comp, info);
  ev(kind);
  // tweak by -k: cancellation of the public key; by k: doubling
  Z t = wild(c.rng, w);
  if (p.known && c.rng.chance(1, 4)) t = c.rng.chance(1, 2) ? p.k : (w.n - p.k) % w.n;
  bool tv = t < w.n;
  In T(w.sc(t));
  info += " t=" + t.hex();
  judge("tweak_add", w, pub(w, comp, [&](uint8_t *o, size_t *l) { return ecdsa_pubkey_tweak_add(e, o, l, A, A.size(), T, comp); }), tv, tv ? w.add(p.p, w.mulg(t)) : P(), comp, info);
  judge("tweak_mul", w, pub(w, comp, [&](uint8_t *o, size_t *l) { return ecdsa_pubkey_tweak_mul(e, o, l, A, A.size(), T, comp); }), tv, tv ? w.times(t, p.p) : P(), comp, info);
  Z k = wild(c.rng, w);
  bool kv = k < w.n && !k.zero();
  In S(w.sc(k));
  judge("derive", w, pub(w, comp, [&](uint8_t *o, size_t *l) { return ecdsa_derive(e, o, l, B, B.size(), S, comp); }), kv, kv ? w.times(k, q.p) : P(), comp, info + " k=" + k.hex());
  eval(hb(A.size() ? w.enc(p.p, true) : Bytes(), hb(w.sc(t), w.id)));
  sample(w.name + " " + info);
}

// results steered onto chosen coordinates
VH_TEST(target, 4000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  P T = steered(c.rng, w);
  int comp = c.rng.below(2);
  Z t = ec::scalar(c.rng, w.n);
  if (t.zero()) t = Z(3);
  In S(w.sc(t));
  std::string info = fmt("target=%s t=%s", hex(w.enc(T, true)).c_str(), t.hex().c_str());
  P d = w.add(T, w.neg(w.mulg(t)));
  if (!d.inf) {
    In A(anyenc(c.rng, w, d));
    judge("tweak_add", w, pub(w, comp, [&](uint8_t *o, size_t *l) { return ecdsa_pubkey_tweak_add(e, o, l, A, A.size(), S, comp); }), true, T, comp, info);
    P r = w.mulg(t);
    In B(anyenc(c.rng, w, r));
    judge("add", w, pub(w, comp, [&](uint8_t *o, size_t *l) { return ecdsa_pubkey_add(e, o, l, A, A.size(), B, B.size(), comp); }), true, T, comp, info);
  }
  P m = w.times(big::inv(t, w.n), T);
  In M(anyenc(c.rng, w, m));
  judge("tweak_mul", w, pub(w, comp, [&](uint8_t *o, size_t *l) { return ecdsa_pubkey_tweak_mul(e, o, l, M, M.size(), S, comp); }), true, T, comp, info);
  judge("derive", w, pub(w, comp, [&](uint8_t *o, size_t *l) { return ecdsa_derive(e, o, l, M, M.size(), S, comp); }), true, T, comp, info);
  eval(hb(w.enc(T, true), hb(w.sc(t), w.id)));
  ev("targets");
  sample(w.name + " " + info);
}

VH_TEST(combine, 5000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  size_t n = c.rng.below(9);
  std::vector<P> v;
  P acc;
  for (size_t i = 0; i < n; i++) {
    P q;
    switch (v.empty() ? 9 : c.rng.below(10)) {
      case 0: q = w.neg(acc); if (!q.inf) { ev("sum_passes_infinity"); break; } /* fallthrough */
      case 1: q = acc; if (!q.inf) { ev("sum_doubles"); break; } /* fallthrough */
      case 2: q = v[c.rng.below(v.size())]; break;
      case 3: q = w.neg(v[c.rng.below(v.size())]); break;
      default: q = point(c.rng, w).p;
    }
    v.push_back(q);
    acc = w.add(acc, q);
  }
  std::vector<std::unique_ptr<In>> in;
  std::vector<const unsigned char *> ps;
  std::vector<size_t> ls;
  std::string info;
  for (auto &q : v) {
    Bytes b = anyenc(c.rng, w, q);
    in.emplace_back(new In(b));
    ps.push_back(in.back()->p());
    ls.push_back(b.size());
    info += hex(w.enc(q, true)) + " ";
  }
  int comp = c.rng.below(2);
  ps.push_back(nullptr); ls.push_back(0);
  judge("combine", w, pub(w, comp, [&](uint8_t *o, size_t *l) { return ecdsa_pubkey_combine(e, o, l, ps.data(), ls.data(), n, comp); }), true, acc, comp, info);
  eval(fnv(info.data(), info.size(), w.id));
  ev("combines");
  sample(w.name + fmt(" combine of %zu", n));
}

struct Grind { std::vector<Bytes> seen; size_t stop; size_t len; bool badlen = false; };
static int grind_cb(const unsigned char *p, size_t n, void *arg) {
  Grind *g = (Grind *)arg;
  if (n != g->len) { g->badlen = true; return 1; }
  g->seen.emplace_back(p, p + n);
  return g->seen.size() >= g->stop;
}

VH_TEST(grind, 3000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  int comp = c.rng.below(2);
  // start close below infinity in some cases so the walk passes through it
  Z k = c.rng.chance(1, 2) ? w.n - Z((unsigned long)c.rng.range(1, 12)) : ec::scalar(c.rng, w.n);
  if (k.zero()) k = Z(1);
  Bytes pb = w.enc(w.mulg(k), comp);
  if (!comp && c.rng.chance(1, 3)) pb[0] = 6 | (w.mulg(k).y.odd());
  In A(pb);
  Grind g;
  g.stop = c.rng.range(1, 14);
  g.len = comp ? 1 + w.fs : 1 + 2 * w.fs;
  Buf tw(w.ss);
  int r = ecdsa_pubkey_grind(e, tw, A, A.size(), grind_cb, &g);
  std::string info = fmt("k=%s stop=%zu", k.hex().c_str(), g.stop);
  eqi(("ret:" + w.name).c_str(), r && !g.badlen, 1, "%s", info.c_str());
  Z t = big::from_be(tw.get());
  P want = w.mulg((k + t) % w.n);
  if (!g.seen.empty()) eq(("tweak:" + w.name).c_str(), w.enc(want, comp), g.seen.back(), "tweak does not lead to the accepted key; %s tweak=%s", info.c_str(), t.hex().c_str());
  // the candidates are the successive sums, infinity skipped
  std::vector<Bytes> exp;
  Z j = k;
  while (exp.size() < g.stop) { j = (j + Z(1)) % w.n; if (!j.zero()) exp.push_back(w.enc(w.mulg(j), comp)); else ev("grind_through_infinity"); }
  eqi(("sequence:" + w.name).c_str(), exp == g.seen, 1, "candidates differ; %s", info.c_str());
  // private key grinding
  Grind h;
  h.stop = c.rng.range(1, 5);
  h.len = g.len;
  Bytes en = c.rng.bytes(32);
  In E(en);
  Buf pk(w.ss);
  ecdsa_privkey_grind(e, pk, E, comp, grind_cb, &h);
  Z d = big::from_be(pk.get());
  eqi(("privkey_range:" + w.name).c_str(), !d.zero() && d < w.n, 1, "entropy=%s", hex(en).c_str());
  if (!h.seen.empty()) eq(("privkey:" + w.name).c_str(), w.enc(w.mulg(d), comp), h.seen.back(), "ground key does not match the accepted public key; entropy=%s", hex(en).c_str());
  eval(hb(w.sc(k), w.id + g.stop));
  ev("grinds");
}

// both sides of an ECDH exchange agree, through every encoding, and tweaks commute with key creation
VH_TEST(agree, 1500, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w), *f = ctx(c, w);
  Z a = ec::scalar(c.rng, w.n), b = ec::scalar(c.rng, w.n);
  if (a.zero()) a = Z(1);
  if (b.zero()) b = Z(2);
  In A(w.sc(a)), B(w.sc(b));
  Out pa = pub(w, 1, [&](uint8_t *o, size_t *l) { return ecdsa_pubkey_create(e, o, l, A, 1); });
  Out pb = pub(w, 0, [&](uint8_t *o, size_t *l) { return ecdsa_pubkey_create(f, o, l, B, 0); });
  if (!pa.ret || !pb.ret) { viol("create", "create failed"); return; }
  In PA(pa.b), PB(pb.b);
  Out s1 = pub(w, 1, [&](uint8_t *o, size_t *l) { return ecdsa_derive(f, o, l, PB, PB.size(), A, 1); });
  Out s2 = pub(w, 1, [&](uint8_t *o, size_t *l) { return ecdsa_derive(e, o, l, PA, PA.size(), B, 1); });
  eq(("ecdh:" + w.name).c_str(), s1.b, s2.b, "a=%s b=%s", a.hex().c_str(), b.hex().c_str());
  Z s = (a + b) % w.n;
  Out q = pub(w, 1, [&](uint8_t *o, size_t *l) { return ecdsa_pubkey_tweak_add(e, o, l, PA, PA.size(), B, 1); });
  judge("tweak_commutes", w, q, true, w.mulg(s), 1, "a=" + a.hex() + " b=" + b.hex());
  eval(hb(w.sc(a), hb(w.sc(b), w.id)));
  ev("agreements");
}
