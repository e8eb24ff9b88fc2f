// C19: maps from field elements to curve points and back, against the published maps over GMP integers
#include "ref_rist.hpp"
#include <set>
using ec::W;
using ec::M;
using edu::hb;

static Bytes hints_or(const Bytes &b, unsigned hint, unsigned bits, bool be) {
  Bytes o = b;
  unsigned mask = bits % 8 ? (1u << (bits % 8)) - 1 : 0xff;
  o[be ? 0 : o.size() - 1] |= (hint >> 8) & ~mask & 0xff;
  return o;
}
static Z take(const Bytes &b, const Z &p, bool be) { return (be ? big::from_be(b) : big::from_le(b)) % pow2(p.bits()) % p; }
static Bytes put(const Z &u, size_t n, bool be) { return be ? big::to_be(u, n) : big::to_le(u, n); }
static bool square(const Z &a, const Z &p) { return big::jacobi(a % p, p) >= 0; }
static Z root(const Z &a, const Z &p, bool odd) {
  Z y;
  if (!big::sqrtm(y, a, p)) { fprintf(stderr, "map model: not a square\n"); exit(96); }
  return y.odd() != odd && !y.zero() ? p - y : y;
}

// ---------------------------------------------------------------- forward maps and the squares of their preimages
struct Map {
  Z p;
  bool be;
  size_t fs;
  virtual ~Map() {}
  virtual P fwd(const Z &u) const = 0;
  virtual std::vector<Z> usq(const P &q) const = 0;        // candidates for u^2
  virtual bool parity(const P &q) const = 0;                   // parity u must have
  virtual bool exceptional(const Z &u) const = 0;
  void quad(std::vector<Z> &o, const Z &b, const Z &c) const {   // roots of X^2 + bX + c
    Z s, h = big::inv(Z(2), p);
    if (!big::sqrtm(s, b * b - Z(4) * c, p)) return;
    o.push_back((s - b) * h % p);
    o.push_back((-s - b) * h % p);
  }
  std::set<Bytes> pre(const P &q, std::set<Bytes> *exc) const {
    std::set<Bytes> o;
    for (auto &s : usq(q)) {
      Z u;
      if (!big::sqrtm(u, s, p)) continue;
      if (u.odd() != parity(q) && !u.zero()) u = p - u;
      if (!(fwd(u) == q)) continue;
      (exceptional(u) ? *exc : o).insert(put(u, fs, be));
    }
    return o;
  }
  std::vector<Z> specials, xs;   // exceptional u, and abscissas where the inverse formulas degenerate
};

struct Sswu : Map {
  const W &w;
  Z z;
  Sswu(const W &w_, long z_) : w(w_) {
    p = w.p; be = true; fs = w.fs; z = Z(z_) % p;
    xs = {(p - w.b) * big::inv(w.a, p) % p, w.b * big::inv(z * w.a % p, p) % p, Z(0)};
    Z s;
    if (big::sqrtm(s, (p - Z(1)) * big::inv(z, p), p)) { specials.push_back(s); specials.push_back(p - s); }
  }
  P fwd(const Z &u) const override {
    Z zu = z * u % p * u % p, den = (zu * zu + zu) % p;
    Z x1 = den.zero() ? w.b * big::inv(z * w.a % p, p) % p : (p - w.b) * big::inv(w.a, p) % p * ((Z(1) + big::inv(den, p)) % p) % p;
    Z x = square(w.rhs(x1), p) ? x1 : zu * x1 % p;
    return P(x, root(w.rhs(x), p, u.odd()));
  }
  std::vector<Z> usq(const P &q) const override {
    std::vector<Z> t, o;
    Z k = (p - w.a) * q.x % p * big::inv(w.b, p) % p, zi = big::inv(z, p);
    Z e = (k - Z(1)) % p;
    if (!e.zero()) quad(t, Z(1), p - big::inv(e, p));
    quad(t, (Z(1) - k) % p, (Z(1) - k) % p);
    for (auto &x : t) o.push_back(x * zi % p);
    o.push_back(Z(0));
    o.push_back((p - zi) % p);
    return o;
  }
  bool parity(const P &q) const override { return q.y.odd(); }
  bool exceptional(const Z &u) const override { Z zu = z * u % p * u % p; return zu.zero() || zu == p - Z(1); }
};

struct Svdw : Map {
  const W &w;
  Z z, c, g;
  Svdw(const W &w_, long z_, const char *c_) : w(w_) {
    p = w.p; be = true; fs = w.fs; z = Z(z_); c = Z(c_); g = w.rhs(z);
    Z h = big::inv(Z(2), p);
    xs = {(c - z) * h % p, (p - (c + z) * h) % p, z, (z + z) % p, (p - z) % p};
    if (c * c % p != (p - Z(3)) * z % p * z % p) { fprintf(stderr, "svdw constant\n"); exit(96); }
    Z s;
    if (big::sqrtm(s, p - g, p)) { specials.push_back(s); specials.push_back(p - s); }
  }
  P fwd(const Z &u) const override {
    Z u2 = u * u % p, t1 = (u2 + g) % p, t2 = big::inv(u2 * t1 % p, p), h = big::inv(Z(2), p);
    Z t3 = u2 * u2 % p * t2 % p * c % p;
    Z x1 = ((c - z) * h - t3) % p, x2 = (t3 - (c + z) * h) % p, x3 = (z - t1 * t1 % p * t1 % p * t2 % p * big::inv(Z(3) * z * z % p, p)) % p;
    Z x = square(w.rhs(x1), p) ? x1 : square(w.rhs(x2), p) ? x2 : x3;
    return P(x, root(w.rhs(x), p, u.odd()));
  }
  std::vector<Z> usq(const P &q) const override {
    std::vector<Z> o;
    Z h = big::inv(Z(2), p);
    for (int i = 0; i < 2; i++) {
      Z k = (i ? q.x + (c + z) * h : (c - z) * h - q.x) % p, den = (c - k) % p;
      if (!den.zero()) o.push_back(k * g % p * big::inv(den, p) % p);
    }
    Z k = Z(3) * z * z * (z - q.x) % p;
    quad(o, (Z(2) * g - k) % p, g * g % p);
    o.push_back(Z(0));
    o.push_back(p - g);
    return o;
  }
  bool parity(const P &q) const override { return q.y.odd(); }
  bool exceptional(const Z &u) const override { Z u2 = u * u % p; return u2.zero() || u2 == p - g; }
};

// Elligator 2 on y^2 = x^3 + A x^2 + B x
struct Ell2 : Map {
  Z z, A, B;
  Z rhs(const Z &x) const { return (x * x * x + A * x * x + B * x) % p; }
  void init(const Z &p_, size_t fs_, long z_, const Z &A_, const Z &B_) {
    p = p_; be = false; fs = fs_; z = Z(z_) % p; A = A_ % p; B = B_ % p;
    xs = {Z(0), p - A, (p - A) * big::inv(Z(2), p) % p};
    Z s;
    if (big::sqrtm(s, (p - Z(1)) * big::inv(z, p), p)) { specials.push_back(s); specials.push_back(p - s); }
  }
  P ell(const Z &u) const {
    Z den = (Z(1) + z * u * u) % p;
    Z x1 = (p - A) * (den.zero() ? Z(1) : big::inv(den, p)) % p;
    Z x = square(rhs(x1), p) ? x1 : (p - x1 - A) % p;
    return P(x, root(rhs(x), p, u.odd()));
  }
  void inv(std::vector<Z> &o, const Z &x) const {
    Z n = (p - x - A) % p, d = x * z % p;
    if (!d.zero()) o.push_back(n * big::inv(d, p) % p);
    n = (p - x) % p; d = (x + A) * z % p;
    if (!d.zero()) o.push_back(n * big::inv(d, p) % p);
    o.push_back(Z(0));
    o.push_back(p - big::inv(z, p));
  }
  bool exceptional(const Z &u) const override { return u.zero() || (Z(1) + z * u * u) % p == Z(0); }
};
struct MontMap : Ell2 {
  const M &m;
  MontMap(const M &m_, long z_) : m(m_) { init(m.p, m.fs, z_, m.A, Z(1)); }
  P fwd(const Z &u) const override { return ell(u); }
  std::vector<Z> usq(const P &q) const override { std::vector<Z> o; if (!q.inf) inv(o, q.x); return o; }
  bool parity(const P &q) const override { return q.y.odd(); }
  // group law on the Montgomery curve
  P neg(const P &q) const { return q.inf ? q : P(q.x, (p - q.y) % p); }
  P add(const P &q, const P &r) const {
    if (q.inf) return r;
    if (r.inf) return q;
    Z l;
    if (q.x == r.x) {
      if (q.y != r.y || q.y.zero()) return P();
      l = (Z(3) * q.x * q.x + Z(2) * A * q.x + Z(1)) * big::inv(Z(2) * q.y % p, p) % p;
    } else l = (r.y - q.y) * big::inv((r.x - q.x) % p, p) % p;
    Z x = (l * l - A - q.x - r.x) % p;
    return P(x, (l * (q.x - x) - q.y) % p);
  }
  P times(unsigned k, const P &q) const { P o; for (unsigned i = 0; i < k; i++) o = add(o, q); return o; }
};
struct EdwMap : Ell2 {
  const E &w;
  Z c, Bm, Bi;
  bool invert;
  EdwMap(const E &w_, long z_, bool invert_, const char *c_) : w(w_), c(c_), invert(invert_) {
    const Z &q = w.p;
    Z A0, d = invert ? (w.d - w.a) % q : (w.a - w.d) % q;
    A0 = Z(2) * (w.a + w.d) * big::inv(d, q) % q;
    Bm = (invert ? A0 - Z(2) : A0 + Z(2)) * big::inv(w.a * c % q * c % q, q) % q;
    Bi = big::inv(Bm, q);
    init(q, w.fs, z_, A0 * Bi % q, Bi * Bi % q);
  }
  P fwd(const Z &u) const override { return edw(ell(u)); }
  P edw(const P &m) const {
    if (m.x.zero()) return P(Z(0), p - Z(1));
    Z U = m.x * Bm % p, V = m.y * Bm % p;
    Z x = c * U % p * big::inv(V, p) % p;
    Z y = invert ? (U + Z(1)) * big::inv((U - Z(1)) % p, p) % p : (U - Z(1)) * big::inv((U + Z(1)) % p, p) % p;
    return P(x, y);
  }
  P mont(const P &q) const {   // q is not the identity
    if (q.x.zero()) return P(Z(0), Z(0));
    Z U = invert ? (q.y + Z(1)) * big::inv((q.y - Z(1)) % p, p) % p : (Z(1) + q.y) * big::inv((Z(1) - q.y) % p, p) % p;
    Z V = c * U % p * big::inv(q.x, p) % p;
    return P(U * Bi % p, V * Bi % p);
  }
  std::vector<Z> usq(const P &q) const override { std::vector<Z> o; if (!w.is_id(q)) inv(o, mont(q).x); return o; }
  bool parity(const P &q) const override { return w.is_id(q) ? false : mont(q).y.odd(); }
};

static const std::vector<Map *> &wmaps() {
  static std::vector<Map *> v;
  if (v.empty()) {
    static const long z[] = {-5, 31, -10, -12, -4};
    for (int i = 0; i < 5; i++) v.push_back(new Sswu(ec::wei()[i], z[i]));
    v.push_back(new Svdw(ec::wei()[5], 1, "0x0a2d2ba93507f1df233770c2a797962cc61f6d15da14ecd47d8d27ae1cd5f852"));
  }
  return v;
}
static const std::vector<MontMap *> &mmaps() {
  static std::vector<MontMap *> v = {new MontMap(ec::mont()[0], 2), new MontMap(ec::mont()[1], -1)};
  return v;
}
static const std::vector<EdwMap *> &emaps() {
  static std::vector<EdwMap *> v = {
    new EdwMap(ec::edw()[0], 2, false, "0x0f26edf460a006bbd27b08dc03fc4f7ec5a1d3d14b7d1a82cc6e04aaff457e06"),
    new EdwMap(ec::edw()[1], -1, true, "0x4136d02f925d530d4b1d9e178310f2cbdd18a3e7c3a767a848e6db198c3d06311e725a0db991d0c6c3d1120f0efa59f54bf38e82b0e1e028"),
    new EdwMap(ec::edw()[2], -1, true, "0x005a7a03fb02f7195e441cd2e3f708f96f8ffbe8359548ba8276ace6bbe7dfd2")};
  return v;
}
// uniform bytes: exceptional values, unreduced values, stray high bits
static Bytes uniform(Rng &r, const Map &m) {
  Z top = pow2(8 * m.fs), u;
  switch (r.below(8)) {
    case 0: u = Z((unsigned long)r.below(4)); break;
    case 1: u = m.p - Z((unsigned long)r.below(4)); break;
    case 2: u = m.p + Z((unsigned long)r.below(20)); break;
    case 3: u = m.specials.empty() ? Z(1) : m.specials[r.below(m.specials.size())]; ev("special_u"); break;
    case 4: u = big::rnd_edge(r, m.p); break;
    case 5: u = big::from_le(r.special(m.fs)); break;
    case 6: u = big::rnd_repr(r, m.p); break;
    default: u = big::rnd_below(r, m.p);
  }
  Bytes b = put(u % top, m.fs, m.be);
  if (m.p.bits() % 8 && r.chance(1, 3)) { b[m.be ? 0 : m.fs - 1] ^= r.next() & ~((1u << (m.p.bits() % 8)) - 1); ev("stray_bits"); }
  return b;
}
static unsigned anyhint(Rng &r) { return (unsigned)(r.chance(1, 3) ? r.next() & 0xff : r.next()); }

// ---------------------------------------------------------------- Weierstrass
static wei_curve_t *wctx(int i) { static wei_curve_t *v[6]; if (!v[i]) v[i] = wei_curve_create(ec::wei()[i].id); return v[i]; }

VH_TEST(wei_forward, 3000, 8) {
  int i = c.idx % 6;
  const W &w = ec::wei()[i];
  const Map &m = *wmaps()[i];
  Bytes b = uniform(c.rng, m), b2 = uniform(c.rng, m);
  Z u = take(b, m.p, true);
  P q = m.fwd(u);
  In I(b);
  bool compact = c.rng.chance(1, 2);
  Buf o(compact ? 1 + w.fs : 1 + 2 * w.fs), x(w.fs);
  size_t n = 0;
  ecdsa_pubkey_from_uniform(wctx(i), o, &n, I, compact);
  eqi(("len:" + w.name).c_str(), n, o.size(), "%s", hex(b).c_str());
  eq(("from_uniform:" + w.name).c_str(), o.get(), w.enc(q, compact), "u=%s", hex(b).c_str());
  bip340_pubkey_from_uniform(wctx(i), x, I);
  eq(("xonly_from_uniform:" + w.name).c_str(), x.get(), big::to_be(q.x, w.fs), "u=%s", hex(b).c_str());
  ev("forward");
  if (m.exceptional(u)) ev("exceptional_u");
  // sum of two, including equal and opposite points
  if (c.rng.chance(1, 6)) { b2 = b; ev("same_halves"); }
  else if (c.rng.chance(1, 5)) { b2 = put((m.p - u) % m.p, m.fs, true); ev("opposite_halves"); }
  Z u2 = take(b2, m.p, true);
  P s = w.add(q, m.fwd(u2));
  In H(ref::cat({b, b2}));
  Buf ho(compact ? 1 + w.fs : 1 + 2 * w.fs);
  int r = ecdsa_pubkey_from_hash(wctx(i), ho, &n, H, compact);
  eqi(("from_hash_ret:" + w.name).c_str(), r != 0, !s.inf, "%s", hex(ref::cat({b, b2})).c_str());
  if (!s.inf && r) eq(("from_hash:" + w.name).c_str(), ho.get(), w.enc(s, compact), "%s", hex(ref::cat({b, b2})).c_str());
  r = bip340_pubkey_from_hash(wctx(i), x, H);
  eqi(("xonly_from_hash_ret:" + w.name).c_str(), r != 0, !s.inf, "%s", hex(ref::cat({b, b2})).c_str());
  if (!s.inf && r) eq(("xonly_from_hash:" + w.name).c_str(), x.get(), big::to_be(s.x, w.fs), "%s", hex(ref::cat({b, b2})).c_str());
  eval(hb(b, hb(b2, i)));
  ev("hashed");
  sample(w.name + " u=" + hex(b));
}

VH_TEST(wei_inverse, 1500, 8) {
  int i = c.idx % 6;
  const W &w = ec::wei()[i];
  const Map &m = *wmaps()[i];
  Z u0;
  P q;
  bool planted = c.rng.chance(1, 2);
  if (planted) { u0 = take(uniform(c.rng, m), m.p, true); q = m.fwd(u0); }
  else if (c.rng.chance(1, 4) && w.lift(q, m.xs[c.rng.below(m.xs.size())], c.rng.below(2))) ev("degenerate_point");
  else if (c.rng.chance(1, 2)) { do {} while (!w.lift(q, big::rnd_edge(c.rng, w.p), c.rng.below(2))); }
  else q = w.mulg(ec::scalar(c.rng, w.n));
  if (q.inf) q = w.g;
  bool xonly = c.rng.chance(1, 3);
  if (xonly && q.y.odd()) q = w.neg(q);
  std::set<Bytes> exc, want = m.pre(q, &exc), got;
  In pub(xonly ? big::to_be(q.x, w.fs) : w.enc(q, c.rng.chance(1, 2)));
  std::string info = w.name + " point=" + hex(w.enc(q, true));
  for (unsigned k = 0; k < 16; k++) {
    unsigned hint = (anyhint(c.rng) & ~15u) | k;
    Buf o(w.fs);
    int r = xonly ? bip340_pubkey_to_uniform(wctx(i), o, pub, hint) : ecdsa_pubkey_to_uniform(wctx(i), o, pub, pub.size(), hint);
    if (!r) { ev("inverse_none"); continue; }
    ev("inverse");
    Bytes v = put(take(o.get(), m.p, true), m.fs, true);
    eq(("bits:" + w.name).c_str(), o.get(), hints_or(v, hint, m.p.bits(), true), "%s hint=%x", info.c_str(), hint);
    P back = m.fwd(big::from_be(v));
    if (back != q) viol(("to_uniform:" + w.name).c_str(), "%s hint=%x u=%s maps elsewhere", info.c_str(), hint, hex(v).c_str());
    got.insert(v);
  }
  for (auto &v : want) if (!got.count(v)) viol(("missing_preimage:" + w.name).c_str(), "%s no hint yields u=%s", info.c_str(), hex(v).c_str());
  eval(hb(w.enc(q, true), i));
}

VH_TEST(wei_hash, 1200, 8) {
  int i = c.idx % 6;
  const W &w = ec::wei()[i];
  const Map &m = *wmaps()[i];
  P q;
  if (c.rng.chance(1, 3)) { do {} while (!w.lift(q, big::rnd_edge(c.rng, w.p), c.rng.below(2))); }
  else q = w.mulg(ec::scalar(c.rng, w.n));
  if (q.inf) q = w.g;
  bool xonly = c.rng.chance(1, 3);
  if (xonly && q.y.odd()) q = w.neg(q);
  Bytes ent = c.rng.special(32);
  In pub(xonly ? big::to_be(q.x, w.fs) : w.enc(q, c.rng.chance(1, 2))), en(ent), en2(c.rng.bytes(32));
  unsigned sub = c.rng.below(20);
  Buf a(2 * w.fs), b(2 * w.fs), d(2 * w.fs);
  auto call = [&](uint8_t *o, const In &e) {
    return xonly ? bip340_pubkey_to_hash(wctx(i), o, pub, sub, e) : ecdsa_pubkey_to_hash(wctx(i), o, pub, pub.size(), sub, e);
  };
  std::string info = w.name + " point=" + hex(w.enc(q, true)) + " entropy=" + hex(ent);
  int r = call(a, en);
  eqi(("to_hash_ret:" + w.name).c_str(), r != 0, 1, "%s", info.c_str());
  call(b, en);
  eq(("to_hash_repeat:" + w.name).c_str(), b.get(), a.get(), "%s", info.c_str());
  call(d, en2);
  if (d.get() == a.get()) viol(("to_hash_ignores_entropy:" + w.name).c_str(), "%s", info.c_str());
  for (Buf *o : {&a, &d}) {
    Bytes v = o->get();
    P s = w.add(m.fwd(take(Bytes(v.begin(), v.begin() + w.fs), m.p, true)), m.fwd(take(Bytes(v.begin() + w.fs, v.end()), m.p, true)));
    if (s != q) viol(("to_hash:" + w.name).c_str(), "%s bytes=%s", info.c_str(), hex(v).c_str());
    ev("hash_inverse");
  }
  eval(hb(ent, hb(w.enc(q, true), i)));
}

// keys that do not decode are refused, whatever the hint
VH_TEST(refuse, 1200, 6) {
  int i = c.idx % 6;
  const W &w = ec::wei()[i];
  Bytes b = w.enc(w.mulg(ec::scalar(c.rng, w.n - Z(1)) + Z(1)), c.rng.chance(1, 2));
  switch (c.rng.below(4)) {
    case 0: b[1 + c.rng.below(b.size() - 1)] ^= 1 << c.rng.below(8); break;
    case 1: b[0] = c.rng.next(); break;
    case 2: b.resize(c.rng.below(b.size())); break;
    default: { Z x = w.p + Z((unsigned long)c.rng.below(10)); if (x >= pow2(8 * w.fs)) x = Z(5); Bytes t = big::to_be(x, w.fs); std::copy(t.begin(), t.end(), b.begin() + 1); }
  }
  P q;
  if (w.dec(q, b)) { ev("refuse_skip"); return; }
  In pub(b), en(c.rng.bytes(32));
  Buf o(w.fs), h(2 * w.fs);
  if (ecdsa_pubkey_to_uniform(wctx(i), o, pub, pub.size(), anyhint(c.rng))) viol(("accepts:" + w.name).c_str(), "key=%s", hex(b).c_str());
  if (b.empty() || b[0] > 7 || b.size() % w.fs != 1 % w.fs) {
    if (ecdsa_pubkey_to_hash(wctx(i), h, pub, pub.size(), 0, en)) viol(("hash_accepts:" + w.name).c_str(), "key=%s", hex(b).c_str());
  }
  eval(hb(b, i));
  ev("refused");
}

// ---------------------------------------------------------------- Edwards
static edwards_curve_t *ectx(int i) { static edwards_curve_t *v[3]; if (!v[i]) v[i] = edwards_curve_create(ec::edw()[i].id); return v[i]; }

VH_TEST(edw_forward, 3000, 8) {
  int i = c.idx % 3;
  const E &w = ec::edw()[i];
  const EdwMap &m = *emaps()[i];
  Bytes b = uniform(c.rng, m), b2 = uniform(c.rng, m);
  Z u = take(b, m.p, false);
  P q = m.fwd(u);
  if (!w.on(q)) { fprintf(stderr, "edwards map model off the curve\n"); exit(96); }
  In I(b);
  Buf o(w.es), h(w.es);
  eddsa_pubkey_from_uniform(ectx(i), o, I);
  eq(("from_uniform:" + w.name).c_str(), o.get(), w.enc(q), "u=%s", hex(b).c_str());
  ev("forward");
  if (m.exceptional(u)) ev("exceptional_u");
  if (c.rng.chance(1, 6)) { b2 = b; ev("same_halves"); }
  else if (c.rng.chance(1, 5)) { b2 = put((m.p - u) % m.p, m.fs, false); ev("opposite_halves"); }
  P s = w.add(q, m.fwd(take(b2, m.p, false)));
  int pake = c.rng.below(2);
  if (pake) s = w.times(Z((unsigned long)w.h), s);
  In H(ref::cat({b, b2}));
  eddsa_pubkey_from_hash(ectx(i), h, H, pake);
  eq((std::string(pake ? "from_hash_pake:" : "from_hash:") + w.name).c_str(), h.get(), w.enc(s), "%s", hex(ref::cat({b, b2})).c_str());
  eval(hb(b, hb(b2, i + 10 + 100 * pake)));
  ev("hashed");
  sample(w.name + " u=" + hex(b));
}

// torsion point used for a subgroup number: learned once from the library, then required to stay the same, be distinct and be a torsion point
static void subgroup(const char *name, unsigned s, unsigned h, const Bytes &t, bool is_torsion, bool is_id, const std::string &info) {
  static std::map<std::pair<std::string, unsigned>, Bytes> seen;
  s %= h;
  std::string K = name;
  if (!is_torsion) { viol(("to_uniform:" + K).c_str(), "%s differs from the key by a point outside the small subgroup", info.c_str()); return; }
  if (s == 0 && !is_id) { viol(("subgroup_zero:" + K).c_str(), "%s", info.c_str()); return; }
  auto k = std::make_pair(K, s);
  if (seen.count(k)) { eq(("subgroup_changes:" + K).c_str(), t, seen[k], "%s subgroup %u", info.c_str(), s); return; }
  for (auto &e : seen) if (e.first.first == K && e.second == t) viol(("subgroup_repeats:" + K).c_str(), "%s subgroups %u and %u", info.c_str(), s, e.first.second);
  seen[k] = t;
}

VH_TEST(edw_inverse, 1200, 8) {
  int i = c.idx % 3;
  const E &w = ec::edw()[i];
  const EdwMap &m = *emaps()[i];
  P q = c.rng.chance(1, 2) ? m.fwd(take(uniform(c.rng, m), m.p, false)) : edu::point(c.rng, w);
  if (c.rng.chance(1, 8)) {
    const Z &x = m.xs[c.rng.below(m.xs.size())];
    if (square(m.rhs(x), m.p)) { q = w.add(m.edw(P(x, root(m.rhs(x), m.p, c.rng.below(2)))), edu::tors(c.rng, w)); ev("degenerate_point"); }
  }
  In pub(w.enc(q));
  std::string info = w.name + " point=" + hex(w.enc(q));
  // preimages of every coset member
  std::set<Bytes> want, got;
  for (auto &t : w.tor) {
    std::set<Bytes> exc;
    P r = w.add(q, t);
    for (auto &v : m.pre(r, &exc)) want.insert(v);
  }
  for (unsigned s = 0; s < w.h; s++)
    for (unsigned k = 0; k < 2; k++) {
      unsigned hint = (anyhint(c.rng) & ~0xffu) | (s + w.h * c.rng.below(16 / w.h)) << 4 | k | (c.rng.below(8) << 1);
      Buf o(w.fs);
      if (!eddsa_pubkey_to_uniform(ectx(i), o, pub, hint)) { ev("inverse_none"); continue; }
      ev("inverse");
      Bytes v = put(take(o.get(), m.p, false), m.fs, false);
      std::string inf2 = info + fmt(" hint=%x u=", hint) + hex(v);
      eq(("bits:" + w.name).c_str(), o.get(), hints_or(v, hint, m.p.bits(), false), "%s", inf2.c_str());
      P back = m.fwd(big::from_le(v)), t = w.add(back, w.neg(q));
      subgroup(w.name.c_str(), s, w.h, w.enc(t), w.small(t), w.is_id(t), inf2);
      got.insert(v);
    }
  for (auto &v : want) if (!got.count(v)) viol(("missing_preimage:" + w.name).c_str(), "%s no hint yields u=%s", info.c_str(), hex(v).c_str());
  eval(hb(w.enc(q), i));
}

VH_TEST(edw_hash, 1200, 8) {
  int i = c.idx % 3;
  const E &w = ec::edw()[i];
  const EdwMap &m = *emaps()[i];
  P q = edu::point(c.rng, w);
  Bytes ent = c.rng.special(32);
  In pub(w.enc(q)), en(ent), en2(c.rng.bytes(32));
  unsigned sub = c.rng.below(16);
  Buf a(2 * w.fs), b(2 * w.fs), d(2 * w.fs);
  std::string info = w.name + " point=" + hex(w.enc(q)) + " entropy=" + hex(ent) + fmt(" subgroup=%u", sub);
  eqi(("to_hash_ret:" + w.name).c_str(), eddsa_pubkey_to_hash(ectx(i), a, pub, sub, en) != 0, 1, "%s", info.c_str());
  eddsa_pubkey_to_hash(ectx(i), b, pub, sub, en);
  eq(("to_hash_repeat:" + w.name).c_str(), b.get(), a.get(), "%s", info.c_str());
  eddsa_pubkey_to_hash(ectx(i), d, pub, sub, en2);
  if (d.get() == a.get()) viol(("to_hash_ignores_entropy:" + w.name).c_str(), "%s", info.c_str());
  for (Buf *o : {&a, &d}) {
    Bytes v = o->get();
    P s = w.add(m.fwd(take(Bytes(v.begin(), v.begin() + w.fs), m.p, false)), m.fwd(take(Bytes(v.begin() + w.fs, v.end()), m.p, false)));
    P t = w.add(s, w.neg(q));
    subgroup(w.name.c_str(), sub, w.h, w.enc(t), w.small(t), w.is_id(t), info);
    ev("hash_inverse");
  }
  eval(hb(ent, hb(w.enc(q), i + 20)));
  Bytes bad = edu::mutenc(c.rng, w);
  P dq;
  if (!w.dec(dq, bad)) {
    In B(bad);
    Buf o(w.fs);
    if (eddsa_pubkey_to_uniform(ectx(i), o, B, anyhint(c.rng))) viol(("accepts:" + w.name).c_str(), "key=%s", hex(bad).c_str());
    ev("refused");
  }
}

// ---------------------------------------------------------------- Montgomery
static mont_curve_t *mctx(int i) { static mont_curve_t *v[2]; if (!v[i]) v[i] = mont_curve_create(ec::mont()[i].id); return v[i]; }

VH_TEST(mont_forward, 3000, 8) {
  int i = c.idx % 2;
  const MontMap &m = *mmaps()[i];
  Bytes b = uniform(c.rng, m), b2 = uniform(c.rng, m);
  Z u = take(b, m.p, false);
  P q = m.fwd(u);
  In I(b);
  Buf o(m.fs), h(m.fs);
  ecdh_pubkey_from_uniform(mctx(i), o, I);
  eq(("from_uniform:" + m.m.name).c_str(), o.get(), big::to_le(q.x, m.fs), "u=%s", hex(b).c_str());
  ev("forward");
  if (m.exceptional(u)) ev("exceptional_u");
  if (c.rng.chance(1, 6)) { b2 = b; ev("same_halves"); }
  else if (c.rng.chance(1, 5)) { b2 = put((m.p - u) % m.p, m.fs, false); ev("opposite_halves"); }
  P s = m.add(q, m.fwd(take(b2, m.p, false)));
  int pake = c.rng.below(2);
  if (pake) s = m.times(m.m.h, s);
  In H(ref::cat({b, b2}));
  int r = ecdh_pubkey_from_hash(mctx(i), h, H, pake);
  std::string K = std::string(pake ? "from_hash_pake:" : "from_hash:") + m.m.name;
  eqi((K + ":ret").c_str(), r != 0, !s.inf, "%s", hex(ref::cat({b, b2})).c_str());
  if (r && !s.inf) eq(K.c_str(), h.get(), big::to_le(s.x, m.fs), "%s", hex(ref::cat({b, b2})).c_str());
  eval(hb(b, hb(b2, i + 30 + 100 * pake)));
  ev("hashed");
}

static Bytes menc(const MontMap &m, const P &q) { return q.inf ? Bytes(1, 0xff) : ref::cat({big::to_le(q.x, m.fs), big::to_le(q.y, m.fs)}); }

VH_TEST(mont_inverse, 1200, 8) {
  int i = c.idx % 2;
  const MontMap &m = *mmaps()[i];
  P q;
  if (c.rng.chance(1, 2)) q = m.fwd(take(uniform(c.rng, m), m.p, false));
  else for (;;) {
    Z x = c.rng.chance(1, 8) ? m.xs[c.rng.below(m.xs.size())] : c.rng.chance(1, 8) ? Z((unsigned long)c.rng.below(3)) : big::rnd_edge(c.rng, m.p);
    if (!square(m.rhs(x), m.p)) continue;
    q = P(x, root(m.rhs(x), m.p, c.rng.below(2)));
    break;
  }
  In pub(big::to_le(q.x, m.fs));
  std::string info = m.m.name + " u-coordinate=" + hex(big::to_le(q.x, m.fs));
  std::map<unsigned, std::vector<Bytes>> got;
  for (unsigned s = 0; s < m.m.h; s++)
    for (unsigned k = 0; k < 2; k++) {
      unsigned hint = (anyhint(c.rng) & ~0xffu) | (s + m.m.h * c.rng.below(16 / m.m.h)) << 4 | k | (c.rng.below(8) << 1);
      Buf o(m.fs);
      if (!ecdh_pubkey_to_uniform(mctx(i), o, pub, hint)) { ev("inverse_none"); continue; }
      ev("inverse");
      Bytes v = put(take(o.get(), m.p, false), m.fs, false);
      eq(("bits:" + m.m.name).c_str(), o.get(), hints_or(v, hint, m.p.bits(), false), "%s hint=%x", info.c_str(), hint);
      got[s].push_back(v);
    }
  // with subgroup 0 the output names the sign the library gave the point
  if (!got[0].empty()) {
    P b0 = m.fwd(big::from_le(got[0][0]));
    if (b0.x != q.x) viol(("to_uniform:" + m.m.name).c_str(), "%s u=%s maps elsewhere", info.c_str(), hex(got[0][0]).c_str());
    else q = b0;
    for (auto &e : got)
      for (auto &v : e.second) {
        P t = m.add(m.fwd(big::from_le(v)), m.neg(q));
        subgroup(m.m.name.c_str(), e.first, m.m.h, menc(m, t), m.times(m.m.h, t).inf, t.inf, info + " u=" + hex(v));
      }
    ev("mont_sign_known");
  } else {
    for (auto &e : got)
      for (auto &v : e.second) {
        P b = m.fwd(big::from_le(v));
        if (!m.times(m.m.h, m.add(b, q)).inf && !m.times(m.m.h, m.add(b, m.neg(q))).inf)
          viol(("to_uniform:" + m.m.name).c_str(), "%s u=%s maps outside the coset", info.c_str(), hex(v).c_str());
      }
  }
  // subgroup 0: both preimages of the point, up to its sign
  std::set<Bytes> exc, want = m.pre(q, &exc), have(got[0].begin(), got[0].end());
  if (want.size() && have.empty()) want = m.pre(m.neg(q), &exc);
  for (auto &v : want) if (!have.count(v)) {
    Bytes n = put((m.p - big::from_le(v)) % m.p, m.fs, false);
    if (!have.count(n)) viol(("missing_preimage:" + m.m.name).c_str(), "%s no hint yields u=%s", info.c_str(), hex(v).c_str());
  }
  eval(hb(big::to_le(q.x, m.fs), i + 40));
  // not on the curve
  Z x = big::rnd_edge(c.rng, m.p);
  if (!square(m.rhs(x), m.p)) {
    In B(big::to_le(x, m.fs));
    Buf o(m.fs);
    if (ecdh_pubkey_to_uniform(mctx(i), o, B, anyhint(c.rng))) viol(("accepts:" + m.m.name).c_str(), "key=%s", x.hex().c_str());
    ev("refused");
  }
}

VH_TEST(mont_hash, 1200, 8) {
  int i = c.idx % 2;
  const MontMap &m = *mmaps()[i];
  P q;
  for (;;) {
    Z x = big::rnd_edge(c.rng, m.p);
    if (!square(m.rhs(x), m.p)) continue;
    q = P(x, root(m.rhs(x), m.p, false));
    break;
  }
  Bytes ent = c.rng.special(32);
  In pub(big::to_le(q.x, m.fs)), en(ent), en2(c.rng.bytes(32));
  unsigned sub = c.rng.below(16);
  Buf a(2 * m.fs), b(2 * m.fs), d(2 * m.fs);
  std::string info = m.m.name + " u-coordinate=" + hex(big::to_le(q.x, m.fs)) + " entropy=" + hex(ent) + fmt(" subgroup=%u", sub);
  eqi(("to_hash_ret:" + m.m.name).c_str(), ecdh_pubkey_to_hash(mctx(i), a, pub, sub, en) != 0, 1, "%s", info.c_str());
  ecdh_pubkey_to_hash(mctx(i), b, pub, sub, en);
  eq(("to_hash_repeat:" + m.m.name).c_str(), b.get(), a.get(), "%s", info.c_str());
  ecdh_pubkey_to_hash(mctx(i), d, pub, sub, en2);
  if (d.get() == a.get()) viol(("to_hash_ignores_entropy:" + m.m.name).c_str(), "%s", info.c_str());
  for (Buf *o : {&a, &d}) {
    Bytes v = o->get();
    P s = m.add(m.fwd(take(Bytes(v.begin(), v.begin() + m.fs), m.p, false)), m.fwd(take(Bytes(v.begin() + m.fs, v.end()), m.p, false)));
    bool ok;
    if (sub % m.m.h == 0) ok = !s.inf && s.x == q.x;
    else ok = m.times(m.m.h, m.add(s, q)).inf || m.times(m.m.h, m.add(s, m.neg(q))).inf;
    if (!ok) viol(("to_hash:" + m.m.name).c_str(), "%s bytes=%s", info.c_str(), hex(v).c_str());
    ev("hash_inverse");
  }
  eval(hb(ent, hb(big::to_le(q.x, m.fs), i + 50)));
}

// ---------------------------------------------------------------- Ristretto
struct RistMap {
  const E &w;
  Z qnr, adm1s;
  RistMap(const E &w_, bool odd) : w(w_) {
    const Z &p = w.p;
    if (w.h == 8) { big::sqrtm(qnr, p - Z(1), p); if (qnr.odd()) qnr = p - qnr; }
    else qnr = p - Z(1);
    adm1s = root((w.a * w.d - Z(1)) % p, p, odd);
  }
  P fwd(const Z &r0) const {
    const Z &p = w.p, &a = w.a, &d = w.d;
    Z r = qnr * r0 % p * r0 % p;
    Z D = (d * r - a) % p * ((a * r - d) % p) % p, ns = a * (r + Z(1)) % p * ((d + a) % p) % p * ((d - a) % p) % p;
    Z q = ns * big::inv(D, p) % p, s, c = p - Z(1);
    if (r.zero() || ns.zero() || D.zero()) return w.id0();
    if (square(q, p)) s = root(q, p, false);
    else { s = root(q * r % p, p, true); c = r; }
    if (s.zero()) return w.id0();
    Z nt = (c * (r - Z(1)) % p * ((d + a) % p) % p * ((d + a) % p) - D) % p;
    Z as2 = a * s % p * s % p;
    Z x = Z(2) * s % p * D % p * big::inv(nt * adm1s % p, p) % p;
    Z y = (Z(1) + as2) * big::inv((Z(1) - as2) % p, p) % p;
    return P(x, y);
  }
};
static const std::vector<RistMap *> &rmaps() {
  static std::vector<RistMap *> v = {new RistMap(ec::edw()[0], true), new RistMap(ec::edw()[1], false), new RistMap(ec::edw()[2], true)};
  return v;
}

VH_TEST(rist_forward, 3000, 8) {
  int i = c.idx % 3;
  const E &w = ec::edw()[i];
  const RistMap &m = *rmaps()[i];
  const EdwMap &em = *emaps()[i];
  Bytes b = uniform(c.rng, em), b2 = uniform(c.rng, em);
  if (c.rng.chance(1, 8)) {   // r = -1, and the zeros of the denominator, where they exist
    const Z &p = w.p;
    Z r = c.rng.chance(1, 3) ? p - Z(1) : c.rng.chance(1, 2) ? w.a * big::inv(w.d, p) % p : w.d * big::inv(w.a, p) % p, s;
    if (big::sqrtm(s, r * big::inv(m.qnr, p), p)) { b = big::to_le(s, w.fs); ev("special_u"); }
  }
  Z u = take(b, w.p, false);
  P q = m.fwd(u);
  if (!w.on(q)) { fprintf(stderr, "ristretto map model off the curve\n"); exit(96); }
  In I(b);
  Buf o(w.fs), h(w.fs);
  ristretto_pubkey_from_uniform(ectx(i), o, I);
  eq(("from_uniform:ristretto-" + w.name).c_str(), o.get(), rist::enc(w, q), "u=%s", hex(b).c_str());
  ev("forward");
  if (c.rng.chance(1, 6)) { b2 = b; ev("same_halves"); }
  P s = w.add(q, m.fwd(take(b2, w.p, false)));
  In H(ref::cat({b, b2}));
  ristretto_pubkey_from_hash(ectx(i), h, H);
  eq(("from_hash:ristretto-" + w.name).c_str(), h.get(), rist::enc(w, s), "%s", hex(ref::cat({b, b2})).c_str());
  eval(hb(b, hb(b2, i + 60)));
  ev("hashed");
}

VH_TEST(rist_inverse, 1200, 8) {
  int i = c.idx % 3;
  const E &w = ec::edw()[i];
  const RistMap &m = *rmaps()[i];
  const EdwMap &em = *emaps()[i];
  Z u0;
  bool planted = c.rng.chance(1, 2);
  P q;
  if (planted) { u0 = take(uniform(c.rng, em), w.p, false); q = m.fwd(u0); }
  else q = w.mulg(ec::scalar(c.rng, w.n));
  Bytes e = rist::enc(w, q);
  In pub(e);
  std::string info = "ristretto-" + w.name + " element=" + hex(e);
  std::set<Bytes> got;
  unsigned found = 0;
  for (unsigned k = 0; k < 16; k++)
    for (unsigned s = 0; s < 2; s++) {
      unsigned hint = (anyhint(c.rng) & ~0xffu) | (s | c.rng.below(8) << 1) << 4 | k;
      Buf o(w.fs);
      if (!ristretto_pubkey_to_uniform(ectx(i), o, pub, hint)) { ev("inverse_none"); continue; }
      ev("inverse"); found++;
      Bytes v = put(take(o.get(), w.p, false), w.fs, false);
      Z u = big::from_le(v);
      eq(("bits:ristretto-" + w.name).c_str(), o.get(), hints_or(v, hint, w.p.bits(), false), "%s hint=%x", info.c_str(), hint);
      if (!u.zero() && u.odd() != (s == 1)) viol(("sign:ristretto-" + w.name).c_str(), "%s hint=%x u=%s", info.c_str(), hint, hex(v).c_str());
      if (rist::enc(w, m.fwd(u)) != e) viol(("to_uniform:ristretto-" + w.name).c_str(), "%s hint=%x u=%s maps elsewhere", info.c_str(), hint, hex(v).c_str());
      got.insert(v);
    }
  if (planted && !rist::zero(w, q)) {
    Bytes v = big::to_le(u0, w.fs);
    if (!got.count(v)) viol(("missing_preimage:ristretto-" + w.name).c_str(), "%s no hint yields u=%s", info.c_str(), hex(v).c_str());
  }
  eval(hb(e, i + 70));
}

VH_TEST(rist_hash, 1200, 8) {
  int i = c.idx % 3;
  const E &w = ec::edw()[i];
  const RistMap &m = *rmaps()[i];
  P q = w.mulg(ec::scalar(c.rng, w.n));
  Bytes ent = c.rng.special(32), e = rist::enc(w, q);
  In pub(e), en(ent), en2(c.rng.bytes(32));
  Buf a(2 * w.fs), b(2 * w.fs), d(2 * w.fs);
  std::string info = "ristretto-" + w.name + " element=" + hex(e) + " entropy=" + hex(ent);
  eqi(("to_hash_ret:ristretto-" + w.name).c_str(), ristretto_pubkey_to_hash(ectx(i), a, pub, en) != 0, 1, "%s", info.c_str());
  ristretto_pubkey_to_hash(ectx(i), b, pub, en);
  eq(("to_hash_repeat:ristretto-" + w.name).c_str(), b.get(), a.get(), "%s", info.c_str());
  ristretto_pubkey_to_hash(ectx(i), d, pub, en2);
  if (d.get() == a.get()) viol(("to_hash_ignores_entropy:ristretto-" + w.name).c_str(), "%s", info.c_str());
  for (Buf *o : {&a, &d}) {
    Bytes v = o->get();
    P s = w.add(m.fwd(take(Bytes(v.begin(), v.begin() + w.fs), w.p, false)), m.fwd(take(Bytes(v.begin() + w.fs, v.end()), w.p, false)));
    if (rist::enc(w, s) != e) viol(("to_hash:ristretto-" + w.name).c_str(), "%s bytes=%s", info.c_str(), hex(v).c_str());
    ev("hash_inverse");
  }
  eval(hb(ent, hb(e, i + 80)));
}
