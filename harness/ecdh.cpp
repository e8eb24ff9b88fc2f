// C17: X25519 and X448 against the RFC 7748 ladder over GMP integers
#include "edw_util.hpp"
using ec::M;
using edu::hb;

static const M &curve(uint64_t i) { return ec::mont()[i % 2]; }
static const E &edwards(const M &m) { return ec::edw()[m.bits == 255 ? 0 : 1]; }
static mont_curve_t *ctx(const M &m) {
  static mont_curve_t *v[2];
  int i = m.bits == 255 ? 0 : 1;
  if (!v[i]) v[i] = mont_curve_create(m.id);
  return v[i];
}
static std::string K(const char *s, const M &w) { return std::string(s) + ":" + w.name; }
static Bytes clamp(const M &m, Bytes s) {
  s[0] &= 0xff & -(int)m.h;
  if (m.bits == 255) { s[31] &= 0x7f; s[31] |= 0x40; } else s[55] |= 0x80;
  return s;
}
static Z value(const M &m, const Bytes &b) { return big::from_le(b) % pow2(m.bits) % m.p; }
static Z y2(const M &m, const Z &u) { return (u * u * u + m.A * u * u + u) % m.p; }
static bool oncurve(const M &m, const Z &u) { return big::jacobi(y2(m, u), m.p) >= 0; }
// u-coordinate of [k](u, .) and whether it is the point at infinity; point on the curve or its twist
static Z times(const M &m, const Z &k, const Z &u, bool &inf) {
  if (u.zero()) { inf = !k.odd(); return Z(0); }
  Z r = m.ladder(k, u, m.bits + 8);
  // infinity is the only other way to obtain 0 besides the 2-torsion point; tell them apart by doubling k+1
  inf = false;
  if (r.zero()) {
    Z s = m.ladder(k + Z(1), u, m.bits + 8);
    inf = s == u;            // O + P = P; T2 + P = 1/u
    if (inf && u * u % m.p == Z(1)) {   // u = 1/u: order 4 points, decide by parity
      inf = !((k / Z(2)).odd()) && !k.odd();
    }
  }
  return r;
}
static Bytes edge_u(Case &c, const M &m) {
  Z top = pow2(8 * m.fs);
  switch (c.rng.below(8)) {
    case 0: return c.rng.special(m.fs);
    case 1: return big::to_le((m.p + Z((unsigned long)c.rng.below(20))) % top, m.fs);                    // not reduced
    case 2: return big::to_le(Z((unsigned long)c.rng.below(6)), m.fs);
    case 3: return big::to_le(m.p - Z((unsigned long)c.rng.range(1, 6)), m.fs);
    case 4: {   // small order, on the curve or the twist
      static const char *s25519[] = {"0", "1", "325606250916557431795983626356110631294008115727848805560023387167927233504", "39382357235489614581723060781553021112529911719440698176882885853963445705823"};
      Z u = m.bits == 255 ? Z(s25519[c.rng.below(4)]) : Z((unsigned long)c.rng.below(2));
      if (c.rng.chance(1, 4)) u = m.p - Z(1);
      if (c.rng.chance(1, 3) && u + m.p < pow2(m.bits)) u = u + m.p;
      Bytes b = big::to_le(u % top, m.fs);
      if (m.bits == 255 && c.rng.chance(1, 3)) b[31] |= 0x80;
      ev("small_order_input");
      return b;
    }
    case 5: { Bytes b = big::to_le(big::rnd_edge(c.rng, m.p), m.fs); if (m.bits == 255 && c.rng.chance(1, 2)) b[31] |= 0x80; return b; }
    case 6: return c.rng.bytes(m.fs);
    default: return big::to_le(m.ladder(big::from_le(c.rng.bytes(m.fs)), m.u, 8 * m.fs), m.fs);
  }
}

VH_TEST(derive, 8000, 8) {
  const M &m = curve(c.idx);
  mont_curve_t *e = ctx(m);
  Bytes priv = c.rng.special(m.ss), pub = edge_u(c, m);
  Z k = big::from_le(clamp(m, priv)), u = value(m, pub);
  Z want = m.ladder(k, u, m.bits);
  In PR(priv), PU(pub);
  Buf o(m.fs), q(m.fs);
  int r = ecdh_derive(e, o, PU, PR);
  std::string info = "priv=" + hex(priv) + " pub=" + hex(pub);
  eqi(K("derive_ret", m).c_str(), r != 0, !want.zero(), "%s", info.c_str());
  eq(K("derive", m).c_str(), o.get(), big::to_le(want, m.fs), "%s", info.c_str());
  ecdh_pubkey_create(e, q, PR);
  eq(K("pubkey_create", m).c_str(), q.get(), big::to_le(m.ladder(k, m.u, m.bits), m.fs), "%s", info.c_str());
  eval(hb(priv, hb(pub, m.bits)));
  ev(want.zero() ? "derive_zero" : "derive");
  if (!oncurve(m, u)) ev("twist_input");
  if (big::from_le(pub) >= m.p) ev("unreduced_input");
  sample(m.name + " " + info);
}

VH_TEST(agree, 1500, 8) {
  const M &m = curve(c.idx);
  mont_curve_t *e = ctx(m);
  In A(c.rng.special(m.ss)), B(c.rng.special(m.ss));
  Buf pa(m.fs), pb(m.fs), s1(m.fs), s2(m.fs);
  ecdh_pubkey_create(e, pa, A);
  ecdh_pubkey_create(e, pb, B);
  int r1 = ecdh_derive(e, s1, pb, A), r2 = ecdh_derive(e, s2, pa, B);
  eqi(K("agree_ret", m).c_str(), r1 && r2, 1, "a=%s b=%s", hex(A.p(), m.ss).c_str(), hex(B.p(), m.ss).c_str());
  eq(K("agree", m).c_str(), s1.get(), s2.get(), "a=%s b=%s", hex(A.p(), m.ss).c_str(), hex(B.p(), m.ss).c_str());
  eval(hb(s1.get(), m.bits));
  ev("agreements");
}

VH_TEST(points, 6000, 8) {
  const M &m = curve(c.idx);
  mont_curve_t *e = ctx(m);
  const E &w = edwards(m);
  Bytes pub = edge_u(c, m);
  if (c.rng.chance(1, 4)) {   // curve point with torsion, through the Edwards form (birational for 25519, isogeny for 448)
    P q = w.add(w.mulg(ec::scalar(c.rng, w.n)), edu::tors(c.rng, w));
    if (!q.x.zero()) {
      Z u = m.bits == 255 ? (Z(1) + q.y) * big::inv((Z(1) - q.y) % m.p, m.p) % m.p : q.y * q.y % m.p * big::inv(q.x * q.x % m.p, m.p) % m.p;
      pub = big::to_le(u, m.fs);
    }
  }
  Z u = value(m, pub);
  bool ok = oncurve(m, u), inf;
  In PU(pub);
  std::string info = "pub=" + hex(pub);
  eqi(K("verify", m).c_str(), ecdh_pubkey_verify(e, PU) != 0, ok, "%s", info.c_str());
  bool small = false, torsion = false;
  if (ok) {
    times(m, Z((unsigned long)m.h), u, inf);
    small = inf;
    if (u.zero()) torsion = true;
    else { Z t = m.ladder(m.n, u, m.bits); torsion = !t.zero(); if (!torsion) { times(m, m.n, u, inf); torsion = !inf; } }
  }
  eqi(K("is_small", m).c_str(), ecdh_pubkey_is_small(e, PU) != 0, ok && small, "%s", info.c_str());
  eqi(K("has_torsion", m).c_str(), ecdh_pubkey_has_torsion(e, PU) != 0, ok && torsion, "%s", info.c_str());
  int sign = (int)c.rng.below(3) - 1;
  {
    Buf x(m.fs), y(m.fs);
    int r = ecdh_pubkey_export(e, x, y, PU, sign);
    bool xok = ok && !(u.zero() && sign == 1);
    if (eqi(K("export_ret", m).c_str(), r != 0, xok, "%s sign=%d", info.c_str(), sign) && xok) {
      eq(K("export_x", m).c_str(), x.get(), big::to_le(u, m.fs), "%s", info.c_str());
      Z Y = big::from_le(y.get());
      if (Y >= m.p || Y * Y % m.p != y2(m, u)) viol(K("export_y", m).c_str(), "%s sign=%d y=%s", info.c_str(), sign, hex(y.get()).c_str());
      else if (sign != -1 && (int)Y.odd() != sign) viol(K("export_sign", m).c_str(), "%s sign=%d y=%s", info.c_str(), sign, hex(y.get()).c_str());
    }
  }
  {
    Buf o(w.es);
    int r = ecdh_pubkey_convert(e, o, PU, sign);
    if (eqi(K("convert_ret", m).c_str(), r != 0, ok, "%s", info.c_str()) && ok) {
      if (m.bits == 255) {
        Z y = (u - Z(1)) * big::inv((u + Z(1)) % m.p, m.p) % m.p;
        Bytes b = big::to_le(y, w.es), g = o.get();
        int gs = g[w.es - 1] >> 7;
        g[w.es - 1] &= 0x7f;
        eq(K("convert", m).c_str(), g, b, "%s", info.c_str());
        bool x0 = y == m.p - Z(1) || y == Z(1);
        if (sign != -1) eqi(K("convert_sign", m).c_str(), gs, x0 ? 0 : sign, "%s", info.c_str());
        P q;
        if (!w.dec(q, o.get())) viol(K("convert_point", m).c_str(), "%s gives %s, not a point", info.c_str(), hex(o.get()).c_str());
      } else {
        // the prime-order component of the input, taken back through the isogeny
        bool i2;
        Z k = Z(4) * big::inv(Z(4), m.n), v = u.zero() ? Z(0) : m.ladder(k, u, 512);
        P q;
        if (!w.dec(q, o.get())) viol(K("convert_point", m).c_str(), "%s gives %s, not a point", info.c_str(), hex(o.get()).c_str());
        else {
          if (!w.torsion_free(q)) viol(K("convert_torsion", m).c_str(), "%s gives %s", info.c_str(), hex(o.get()).c_str());
          Z b = q.x.zero() ? Z(0) : q.y * q.y % m.p * big::inv(q.x * q.x % m.p, m.p) % m.p;
          eq(K("convert", m).c_str(), big::to_le(b, m.fs), big::to_le(v, m.fs), "%s", info.c_str());
          if (sign != -1 && !q.x.zero()) eqi(K("convert_sign", m).c_str(), q.x.odd(), sign, "%s", info.c_str());
        }
        (void)i2;
      }
      ev("converted");
    }
  }
  {   // import from coordinates
    Bytes x = pub, y;
    if (c.rng.chance(1, 2)) { Z r; if (ok) big::sqrtm(r, y2(m, u), m.p); else r = big::rnd_below(c.rng, m.p); if (c.rng.chance(1, 6)) r = (r + Z(1)) % m.p; y = big::to_le(r, m.fs); }
    if (c.rng.chance(1, 3)) x = big::to_le(u, m.fs);
    if (c.rng.chance(1, 4)) x.insert(x.end(), c.rng.below(3), c.rng.chance(1, 6));
    if (c.rng.chance(1, 10)) x.clear();
    if (c.rng.chance(1, 10)) while (!x.empty() && !x.back()) x.pop_back();
    Z X = big::from_le(x), Y = big::from_le(y);
    bool iok = !x.empty() && X < m.p && Y < m.p && (y.empty() ? oncurve(m, X) : Y * Y % m.p == y2(m, X));
    In XI(x), YI(y);
    Buf o(m.fs);
    int r = ecdh_pubkey_import(e, o, XI, x.size(), YI, y.size());
    if (eqi(K("import_ret", m).c_str(), r != 0, iok, "x=%s y=%s", hex(x).c_str(), hex(y).c_str()) && iok) eq(K("import", m).c_str(), o.get(), big::to_le(X, m.fs), "x=%s y=%s", hex(x).c_str(), hex(y).c_str());
    ev(iok ? "import_accept" : "import_reject");
  }
  eval(hb(pub, m.bits * 3 + sign));
  ev(ok ? "verify_accept" : "verify_reject");
  if (torsion) ev("with_torsion");
  if (small) ev("small_order");
}

// both directions between the two forms of one key
VH_TEST(crossform, 1500, 8) {
  const M &m = curve(c.idx);
  mont_curve_t *e = ctx(m);
  const E &w = edwards(m);
  edwards_curve_t *d = edu::ctx(c, w);
  Bytes s = clamp(m, c.rng.special(m.ss));
  In S(s);
  Buf mp(m.fs), ep(w.es), back(m.fs), fwd(w.es);
  ecdh_pubkey_create(e, mp, S);
  eddsa_pubkey_from_scalar(d, ep, S);
  std::string info = "scalar=" + hex(s);
  if ((big::from_le(s) % m.n).zero()) return;
  eqi(K("ed_to_mont_ret", m).c_str(), eddsa_pubkey_convert(d, back, ep) != 0, 1, "%s", info.c_str());
  eq(K("ed_to_mont", m).c_str(), back.get(), mp.get(), "%s", info.c_str());
  int sign = ep[w.es - 1] >> 7;
  eqi(K("mont_to_ed_ret", m).c_str(), ecdh_pubkey_convert(e, fwd, mp, sign) != 0, 1, "%s", info.c_str());
  eq(K("mont_to_ed", m).c_str(), fwd.get(), ep.get(), "%s", info.c_str());
  eval(hb(s, m.bits));
  ev("crossform");
}

VH_TEST(keys, 1500, 8) {
  const M &m = curve(c.idx);
  mont_curve_t *e = ctx(m);
  Bytes raw = c.rng.special(m.ss);
  if (c.rng.chance(1, 2)) raw.resize(c.rng.below(2 * m.ss));
  Bytes t = raw;
  while (t.size() > m.ss && !t.back()) t.pop_back();
  bool ok = t.size() <= m.ss;
  In RI(raw);
  Buf o(m.ss);
  int r = ecdh_privkey_import(e, o, RI, raw.size());
  if (ok) t.resize(m.ss);
  if (eqi(K("privkey_import_ret", m).c_str(), r != 0, ok, "raw=%s", hex(raw).c_str()) && ok) eq(K("privkey_import", m).c_str(), o.get(), t, "raw=%s", hex(raw).c_str());
  In PR(c.rng.special(m.ss));
  Buf ex(m.ss);
  eqi(K("privkey_export_ret", m).c_str(), ecdh_privkey_export(e, ex, PR) != 0, 1, "export");
  eq(K("privkey_export", m).c_str(), ex.get(), Bytes(PR.p(), PR.p() + m.ss), "export");
  eqi(K("privkey_verify", m).c_str(), ecdh_privkey_verify(e, PR) != 0, 1, "verify");
  eqi(K("sizes", m).c_str(), ecdh_privkey_size(e) * 1000 + ecdh_pubkey_size(e), m.ss * 1000 + m.fs, "sizes");
  eqi(K("curve_sizes", m).c_str(), mont_curve_scalar_size(e) * 1000 + mont_curve_field_size(e), m.ss * 1000 + m.fs, "sizes");
  eqi(K("curve_bits", m).c_str(), mont_curve_scalar_bits(e) * 1000 + mont_curve_field_bits(e), m.n.bits() * 1000 + m.p.bits(), "bits");
  Bytes en = c.rng.bytes(32), en2 = en;
  en2[c.rng.below(32)] ^= 1 << c.rng.below(8);
  In EN(en), EN2(en2);
  Buf g1(m.ss), g2(m.ss), g3(m.ss), gp(m.ss);
  ecdh_privkey_generate(e, g1, EN); ecdh_privkey_generate(e, g2, EN); ecdh_privkey_generate(e, g3, EN2);
  eq(K("generate_deterministic", m).c_str(), g2.get(), g1.get(), "entropy=%s", hex(en).c_str());
  eq(K("generate_clamped", m).c_str(), g1.get(), clamp(m, g1.get()), "entropy=%s", hex(en).c_str());
  if (g1.get() == g3.get()) viol(K("generate_distinct", m).c_str(), "entropy=%s and %s", hex(en).c_str(), hex(en2).c_str());
  struct G { unsigned stop, n; Bytes last; size_t fs; } st{(unsigned)c.rng.range(1, 4), 0, Bytes(), m.fs};
  ecdh_privkey_grind(e, gp, EN, [](const unsigned char *p, void *a) { G *q = (G *)a; q->n++; q->last.assign(p, p + q->fs); return (int)(q->n == q->stop); }, &st);
  eq(K("grind", m).c_str(), st.last, big::to_le(m.ladder(big::from_le(clamp(m, gp.get())), m.u, m.bits), m.fs), "entropy=%s", hex(en).c_str());
  eqi(K("grind_calls", m).c_str(), st.n, st.stop, "entropy=%s", hex(en).c_str());
  eval(hb(raw, hb(en, m.bits)));
  ev("keys");
}
