// C15: EdDSA signing and the three verification forms on the twisted Edwards model
#include "coeff.hpp"
#include "edw_util.hpp"
using namespace edu;

static Bytes dom(const E &w, int ph, const Bytes &ctx) {
  if (!w.ctx_always && ph == -1 && ctx.empty()) return Bytes();
  return ref::cat({Bytes(w.prefix.begin(), w.prefix.end()), {(uint8_t)(ph > 0), (uint8_t)std::min<size_t>(ctx.size(), 255)}, Bytes(ctx.begin(), ctx.begin() + std::min<size_t>(ctx.size(), 255))});
}
static Z hs(const E &w, const Bytes &m) { return big::from_le(hash(w, m, 2 * w.es)) % w.n; }

struct Item { Bytes m, sig, pub; };
struct Dom { int ph; Bytes ctx; };

static Z challenge(const E &w, const Bytes &R, const Bytes &A, const Bytes &m, const Dom &d) { return hs(w, ref::cat({dom(w, d.ph, d.ctx), R, A, m})); }
static Bytes sig(const E &w, const Bytes &R, const Z &s) { return ref::cat({R, big::to_le(s, w.es)}); }
static Bytes model_sign(const E &w, const Bytes &m, const Z &a, const Bytes &prefix, const Dom &d) {
  Z k = hs(w, ref::cat({dom(w, d.ph, d.ctx), prefix, m}));
  Bytes R = w.enc(w.mulg(k)), A = w.enc(w.mulg(a));
  Z e = challenge(w, R, A, m, d);
  return sig(w, R, (k + e * a) % w.n);
}
// bit 0: cofactorless, bit 1: cofactored
static int want(const E &w, const Item &i, const Dom &d) {
  P R, A;
  Bytes Rb(i.sig.begin(), i.sig.begin() + w.es), sb(i.sig.begin() + w.es, i.sig.end());
  if (!w.dec(R, Rb) || !w.dec(A, i.pub)) return 0;
  Z s = big::from_le(sb);
  if (s >= w.n) return 0;
  Z e = challenge(w, Rb, i.pub, i.m, d);
  P D = w.add(w.add(w.mulg(s), w.neg(w.times(e, A))), w.neg(R));
  return (w.is_id(D) ? 1 : 0) | (w.small(D) ? 2 : 0);
}
static Dom rdom(Case &c) {
  Dom d;
  static const int ph[] = {-1, -1, -1, 0, 1, 1, 2};
  d.ph = ph[c.rng.below(7)];
  if (c.rng.chance(1, 3)) d.ctx = c.rng.bytes(c.rng.chance(1, 4) ? c.rng.range(254, 258) : c.rng.len(255, 64));   // longer contexts count up to byte 255
  return d;
}
static Bytes msg(Case &c) { return c.rng.bytes(c.rng.chance(1, 2) ? c.rng.below(80) : c.rng.big(400, 128)); }
static Z secret(Case &c, const E &w) { return c.rng.chance(1, 4) ? Z((unsigned long)c.rng.below(10)) : ec::scalar(c.rng, w.n); }
static Item valid(Case &c, const E &w, const Dom &d) {
  Item i;
  i.m = msg(c);
  Z a = secret(c, w);
  i.pub = w.enc(w.mulg(a));
  if (c.rng.chance(1, 3)) {   // chosen nonce
    Z k = secret(c, w);
    if (c.rng.chance(1, 3)) k = c.rng.chance(1, 2) ? a : w.n - a;
    Bytes R = w.enc(w.mulg(k));
    i.sig = sig(w, R, (k + challenge(w, R, i.pub, i.m, d) * a) % w.n);
  } else i.sig = model_sign(w, i.m, a, c.rng.bytes(w.es), d);
  return i;
}
// signature equation holding up to torsion, and sometimes exactly
static Item torsion(Case &c, const E &w, const Dom &d) {
  Item i;
  Z a = secret(c, w), k = secret(c, w);
  if (c.rng.chance(1, 5)) a = Z(0);
  if (c.rng.chance(1, 5)) k = Z(0);
  P T = tors(c.rng, w), U = tors(c.rng, w);
  i.pub = w.enc(w.add(w.mulg(a), T));
  Bytes R = w.enc(w.add(w.mulg(k), U));
  bool exact = c.rng.chance(1, 2);
  for (int t = 0; t < 40; t++) {
    i.m = c.rng.bytes(c.rng.below(40));
    Z e = challenge(w, R, i.pub, i.m, d);
    i.sig = sig(w, R, (k + e * a) % w.n);
    P D = w.add(w.times(e % w.n, T), U);
    if (w.is_id(D) == exact) break;
  }
  ev("torsion_items");
  return i;
}
static void spoil(Case &c, const E &w, const Dom &d, Item &i) {
  Bytes sb(i.sig.begin() + w.es, i.sig.end()), Rb(i.sig.begin(), i.sig.begin() + w.es);
  Z s = big::from_le(sb);
  switch (c.rng.below(12)) {
    case 0: i.sig[c.rng.below(i.sig.size())] ^= 1 << c.rng.below(8); break;
    case 1: i.pub[c.rng.below(i.pub.size())] ^= 1 << c.rng.below(8); break;
    case 2: if (i.m.empty()) i.m.push_back(0); else i.m[c.rng.below(i.m.size())] ^= 1 << c.rng.below(8); break;
    case 3: { Z t = s + w.n * Z((unsigned long)c.rng.range(1, 6)); if (t < pow2(8 * w.es)) { i.sig = sig(w, Rb, t); ev("unreduced_s"); } break; }
    case 4: i.sig = sig(w, Rb, (s + Z((long)c.rng.below(3) - 1)) % w.n); break;
    case 5: i.sig = sig(w, Rb, (w.n - s) % w.n); break;
    case 6: { P R; if (w.dec(R, Rb)) i.sig = sig(w, w.enc(w.neg(R)), s); break; }
    case 7: { P A; if (w.dec(A, i.pub)) i.pub = w.enc(w.neg(A)); break; }
    case 8: i.sig = sig(w, mutenc(c.rng, w), s); break;
    case 9: i.pub = mutenc(c.rng, w); break;
    case 10: i.sig[2 * w.es - 1] ^= 1 << c.rng.below(8); break;
    default: {   // an alternative encoding of the same R or A, signature equation computed over those bytes
      bool forR = c.rng.chance(1, 2);
      Z a = Z((unsigned long)c.rng.below(5)), k = Z((unsigned long)c.rng.below(5));
      P small = c.rng.chance(1, 2) ? w.id0() : w.tor[c.rng.below(w.tor.size())];
      if (forR) k = Z(0); else a = Z(0);
      P Q = small;
      Bytes alt = w.enc(Q);
      Z y2 = Q.y + w.p;
      if (y2 < pow2(8 * w.es - 1) && c.rng.chance(1, 2)) { alt = big::to_le(y2, w.es); if (Q.x.odd()) alt[w.es - 1] |= 0x80; } else if (Q.x.zero()) alt[w.es - 1] ^= 0x80;
      Bytes R = forR ? alt : w.enc(w.mulg(k));
      i.pub = forR ? w.enc(w.mulg(a)) : alt;
      i.sig = sig(w, R, (k + challenge(w, R, i.pub, i.m, d) * a) % w.n);
      ev("alternative_encoding");
    }
  }
}
static std::string show(const Item &i, const Dom &d) { return "pub=" + hex(i.pub) + " sig=" + hex(i.sig) + " msg=" + hex(i.m) + fmt(" ph=%d ctx=%s", d.ph, hex(d.ctx).c_str()); }

VH_TEST(sign, 4000, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  Dom d = rdom(c);
  Bytes m = msg(c), priv = c.rng.special(w.es), scalar, prefix;
  expand(w, priv, scalar, prefix);
  int form = c.rng.below(4);
  Z t = wide_(c.rng, w), a = big::from_le(scalar) % w.n;
  if (form == 3) { scalar = w.sc(wide_(c.rng, w)); prefix = c.rng.special(w.es); a = big::from_le(scalar) % w.n; }
  if (form == 1 && c.rng.chance(1, 10)) t = w.n - a;
  Bytes tb = w.sc(t);
  if (form == 1 || form == 2) {
    a = (form == 1 ? a + t : a * t) % w.n;
    prefix = hash(w, ref::cat({prefix, tb}), w.es);
  }
  Buf o(2 * w.es);
  In M(m), C(d.ctx), T(tb), S(scalar), PX(prefix), PR(priv);
  switch (form) {
    case 0: eddsa_sign(e, o, M, m.size(), PR, d.ph, C, d.ctx.size()); break;
    case 1: eddsa_sign_tweak_add(e, o, M, m.size(), PR, T, d.ph, C, d.ctx.size()); break;
    case 2: eddsa_sign_tweak_mul(e, o, M, m.size(), PR, T, d.ph, C, d.ctx.size()); break;
    default: eddsa_sign_with_scalar(e, o, M, m.size(), S, PX, d.ph, C, d.ctx.size());
  }
  static const char *nm[] = {"sign", "sign_tweak_add", "sign_tweak_mul", "sign_with_scalar"};
  Item i{m, o.get(), w.enc(w.mulg(a))};
  eq(fmt("%s:%s", nm[form], w.name.c_str()).c_str(), i.sig, model_sign(w, m, a, prefix, d), "priv=%s scalar=%s tweak=%s %s", hex(priv).c_str(), hex(scalar).c_str(), hex(tb).c_str(), show(i, d).c_str());
  In G(i.sig), A(i.pub);
  eqi(fmt("accepts_own:%s:%s", nm[form], w.name.c_str()).c_str(), eddsa_verify(e, M, m.size(), G, A, d.ph, C, d.ctx.size()) != 0, 1, "%s", show(i, d).c_str());
  if (!form) {
    Buf pub(w.es);
    eddsa_pubkey_create(e, pub, PR);
    eq(fmt("pubkey:%s", w.name.c_str()).c_str(), pub.get(), i.pub, "priv=%s", hex(priv).c_str());
  }
  eval(hb(i.sig, w.id));
  ev("signed");
  ev(nm[form]);
  if (!d.ctx.empty()) ev("with_context");
  sample(w.name + " " + nm[form] + " " + show(i, d));
}

VH_TEST(verify, 9000, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  Dom d = rdom(c);
  Item i = c.rng.chance(1, 3) ? torsion(c, w, d) : valid(c, w, d);
  Dom dv = d;
  if (c.rng.chance(1, 2)) spoil(c, w, d, i);
  else if (c.rng.chance(1, 6)) dv = rdom(c);   // other domain
  int x = want(w, i, dv);
  In M(i.m), C(dv.ctx), S(i.sig), A(i.pub);
  int r1 = eddsa_verify(e, M, i.m.size(), S, A, dv.ph, C, dv.ctx.size()), r2 = eddsa_verify_single(e, M, i.m.size(), S, A, dv.ph, C, dv.ctx.size());
  eqi(fmt("verify:%s", w.name.c_str()).c_str(), r1 != 0, x & 1, "%s", show(i, dv).c_str());
  eqi(fmt("verify_single:%s", w.name.c_str()).c_str(), r2 != 0, (x & 2) != 0, "%s", show(i, dv).c_str());
  eval(hb(i.sig, hb(i.pub, hb(i.m, w.id))));
  ev(x & 1 ? "verify_accept" : "verify_reject");
  if (x == 2) ev("cofactored_only");
  sample(w.name + fmt(" expected %d ", x) + show(i, dv));
}

VH_TEST(batch, 1600, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  Dom d = rdom(c);
  bool many = c.rng.chance(1, 60);
  size_t n = many ? c.rng.range(40, 150) : c.rng.chance(1, 8) ? c.rng.below(3) : c.rng.below(c.scale > 1 ? 40 : 12), size = c.rng.chance(1, 3) ? c.rng.range(2, 5) : c.rng.range(2, 2 * n + 6);
  std::vector<Item> v;
  for (size_t i = 0; i < n; i++) v.push_back(i && (many ? i > 12 && c.rng.chance(5, 6) : c.rng.chance(1, 8)) ? v[c.rng.below(i)] : c.rng.chance(1, 5) ? torsion(c, w, d) : valid(c, w, d));
  const char *kind = "all_valid";
  if (n && c.rng.chance(2, 3)) {
    auto gets = [&](size_t i) { return big::from_le(v[i].sig.data() + w.es, w.es); };
    auto sets = [&](size_t i, const Z &s) { Bytes b = big::to_le(s, w.es); std::copy(b.begin(), b.end(), v[i].sig.begin() + w.es); };
    switch (c.rng.below(n > 1 ? 5 : 2)) {
      case 0: case 1: spoil(c, w, d, v[c.rng.below(n)]); kind = "one_spoiled"; break;
      case 2: {
        size_t i = c.rng.below(n), j = c.rng.chance(1, 2) ? (i + 1) % n : c.rng.below(n);
        if (i == j) j = (i + 1) % n;
        Z q = ec::scalar(c.rng, w.n);
        Z si = (gets(i) + q) % w.n, sj = (gets(j) + w.n - q) % w.n;
        sets(i, si); sets(j, sj);
        kind = "cancelling_s";
        break;
      }
      case 3: { size_t i = c.rng.below(n), j = c.rng.below(n); Z a = gets(i), b = gets(j); sets(i, b); sets(j, a); kind = "swapped_s"; break; }
      default: { size_t i = c.rng.below(n), j = c.rng.below(n); if (c.rng.chance(1, 2)) std::swap(v[i].pub, v[j].pub); else std::swap(v[i].m, v[j].m); kind = "swapped_input"; }
    }
  }
  bool all = true;
  for (auto &i : v) all &= (want(w, i, d) & 2) != 0;
  std::vector<std::unique_ptr<In>> keep;
  std::vector<const unsigned char *> ms, ss, ps;
  std::vector<size_t> ml;
  auto in = [&](const Bytes &b) { keep.emplace_back(new In(b)); return keep.back()->p(); };
  uint64_t h = w.id + 8 * size;
  std::string info;
  for (auto &i : v) { ms.push_back(in(i.m)); ml.push_back(i.m.size()); ss.push_back(in(i.sig)); ps.push_back(in(i.pub)); h = hb(i.sig, h); info += "\n" + show(i, d); }
  ms.push_back(nullptr); ss.push_back(nullptr); ps.push_back(nullptr); ml.push_back(0);
  In C(d.ctx);
  edwards_scratch_t *sc = edwards_scratch_create(e, size);
  for (int q = c.rng.chance(1, 4) ? 2 : 1; q > 0; q--) {
    int r = eddsa_verify_batch(e, ms.data(), ml.data(), ss.data(), ps.data(), n, d.ph, C, d.ctx.size(), sc);
    eqi(fmt("%s:%s", kind, w.name.c_str()).c_str(), r != 0, all, "batch of %zu, scratch %zu%s", n, size, info.c_str());
  }
  edwards_scratch_destroy(e, sc);
  eval(h);
  ev(all ? "batch_accept" : "batch_reject");
  ev(kind);
  sample(fmt("%s batch of %zu, scratch %zu, %s -> %s", w.name.c_str(), n, size, kind, all ? "valid" : "invalid"));
}

// the adversary who knows the coefficients of one run changes two s values so that the errors would cancel under them
VH_TEST(batch_adversary, 300, 8) {
  const E &w = curve(c.idx);
  edwards_curve_t *e = ctx(c, w);
  Dom d = rdom(c);
  size_t n = c.rng.range(2, 5), size = 2 * n + c.rng.below(3);
  std::vector<Item> v;
  for (size_t i = 0; i < n; i++) v.push_back(valid(c, w, d));
  for (auto &i : v) if (!(want(w, i, d) & 2)) return;
  In C(d.ctx);
  edwards_scratch_t *sc = edwards_scratch_create(e, size);
  auto run = [&]() {
    std::vector<std::unique_ptr<In>> keep;
    std::vector<const unsigned char *> ms, ss, ps;
    std::vector<size_t> ml;
    auto in = [&](const Bytes &b) { keep.emplace_back(new In(b)); return keep.back()->p(); };
    for (auto &i : v) { ms.push_back(in(i.m)); ml.push_back(i.m.size()); ss.push_back(in(i.sig)); ps.push_back(in(i.pub)); }
    return eddsa_verify_batch(e, ms.data(), ml.data(), ss.data(), ps.data(), n, d.ph, C, d.ctx.size(), sc) != 0;
  };
  coeff::seen().clear();
  coeff::on() = true;
  bool first = run();
  coeff::on() = false;
  eqi(fmt("adversary_valid:%s", w.name.c_str()).c_str(), first, 1, "batch of %zu", n);
  std::vector<Z> k = coeff::scalars(w.n, true);
  k.insert(k.begin(), Z(1));
  if (k.size() >= n) {
    size_t i = c.rng.below(n), j = (i + c.rng.range(1, n - 1)) % n;
    Z q = big::rnd_below(c.rng, w.n - Z(1)) + Z(1);
    auto put = [&](size_t x, const Z &s) { Bytes b = big::to_le(s, w.es); std::copy(b.begin(), b.end(), v[x].sig.begin() + w.es); };
    auto get = [&](size_t x) { return big::from_le(v[x].sig.data() + w.es, w.es); };
    Z si = (get(i) + q) % w.n, sj = (get(j) + (w.n - q) * k[i] * big::inv(k[j], w.n)) % w.n;
    put(i, si);
    put(j, sj);
    std::string info;
    for (auto &x : v) info += "\n" + show(x, d);
    eqi(fmt("adversary:%s", w.name.c_str()).c_str(), run(), 0, "batch of %zu, s of %zu and %zu changed to cancel under the coefficients of the valid batch%s", n, i, j, info.c_str());
    ev("known_coefficients");
  }
  edwards_scratch_destroy(e, sc);
  eval(hb(v[0].sig, w.id));
}
