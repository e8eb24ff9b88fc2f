// C14: BIP-Schnorr (legacy) and BIP340 on the group-law model; batches against single verification
#include "coeff.hpp"
#include "ec_util.hpp"
using namespace ecu;

static Bytes H(const W &w, const Bytes &m, size_t n) {
  Bytes o = ref::hash(w.xof, m, n);
  o.resize(n);
  return o;
}
static Z toscalar(const W &w, Bytes b) {
  unsigned ex = w.ss * 8 - w.nb;
  b[0] &= 0xff >> ex;
  return big::from_be(b) % w.n;
}
static bool square(const W &w, const Z &y) { return big::jacobi(y, w.p) >= 0; }
static const W &scurve(uint64_t i) {   // curves with p = 3 mod 4
  static const int id[] = {0, 2, 3, 4, 5, 5};
  return ec::wei()[id[i % 6]];
}
static Bytes tagged(const W &w, const char *tag, const Bytes &m, size_t n) {
  Bytes t(tag, tag + strlen(tag)), h;
  if (w.xof == HASH_SHA256) h = ref::hash(HASH_SHA256, t, 32);
  else h = ref::hash(HASH_SHAKE256, t, w.xof == HASH_SHA384 ? 64 : 68);
  return H(w, ref::cat({h, h, m}), n);
}
static bool lift_square(const W &w, P &o, const Z &x) {
  if (!w.lift(o, x, -1)) return false;
  if (!square(w, o.y)) o = w.neg(o);
  return true;
}

struct Scheme {
  bool bip340;
  Z challenge(const W &w, const Bytes &r, const P &A, const Bytes &m) const {
    if (bip340) return toscalar(w, tagged(w, "BIP0340/challenge", ref::cat({r, big::to_be(A.x, w.fs), m}), w.ss));
    return toscalar(w, H(w, ref::cat({r, w.enc(A, true), m}), w.ss));
  }
  bool goody(const W &w, const P &q) const { return bip340 ? !q.y.odd() : square(w, q.y); }
  bool verify(const W &w, const Bytes &m, const Z &r, const Z &s, const P &A) const {
    if (r >= w.p || s >= w.n) return false;
    Z e = challenge(w, big::to_be(r, w.fs), A, m);
    P R = w.add(w.mulg(s), w.neg(w.times(e, A)));
    return !R.inf && goody(w, R) && R.x == r;
  }
  bool sign(const W &w, Z &r, Z &s, const Z &a0, const Bytes &m, const Bytes *aux) const {
    Z a = a0, k;
    P A = w.mulg(a);
    if (bip340) {
      if (A.y.odd()) { a = w.n - a; A = w.neg(A); }
      Bytes t = w.sc(a);
      if (aux) { Bytes h = tagged(w, "BIP0340/aux", *aux, w.ss); for (size_t i = 0; i < w.ss; i++) t[i] ^= h[i]; }
      k = toscalar(w, tagged(w, "BIP0340/nonce", ref::cat({t, big::to_be(A.x, w.fs), m}), w.ss));
    } else k = toscalar(w, H(w, ref::cat({w.sc(a), m}), w.ss));
    if (k.zero()) return false;
    P R = w.mulg(k);
    if (!goody(w, R)) k = w.n - k;
    r = R.x;
    s = (k + challenge(w, big::to_be(r, w.fs), A, m) * a) % w.n;
    return true;
  }
};
static const Scheme LEG = {false}, B340 = {true};

struct Item { Bytes m; Z r, s; P A; bool keyok = true; Bytes pub; };
static Bytes sigb(const W &w, const Item &i) { return ref::cat({big::to_be(i.r, w.fs), w.sc(i.s)}); }
static bool tor_verify(wei_curve_t *e, const W &w, const Scheme &S, const Item &i) {
  In M(i.m), sg(sigb(w, i)), p(i.pub);
  return S.bip340 ? bip340_verify(e, M, i.m.size(), sg, p) : bipschnorr_verify(e, M, i.m.size(), sg, p, i.pub.size());
}
static Bytes pubb(Case &c, const W &w, const Scheme &S, const P &A) { return S.bip340 ? big::to_be(A.x, w.fs) : anyenc(c.rng, w, A); }

static Item valid(Case &c, const W &w, const Scheme &S) {
  Item i;
  Z a = ec::scalar(c.rng, w.n);
  if (a.zero()) a = Z(1);
  i.m = c.rng.special(c.rng.chance(1, 2) ? 32 : c.rng.below(100));
  i.A = w.mulg(a);
  // choosing the nonce freely is just as valid as the deterministic one, and cheaper
  Z k = ec::scalar(c.rng, w.n);
  if (k.zero()) k = Z(1);
  P R = w.mulg(k);
  if (!S.goody(w, R)) k = w.n - k;
  i.r = R.x;
  if (S.bip340 && i.A.y.odd()) { a = w.n - a; i.A = w.neg(i.A); }
  i.s = (k + S.challenge(w, big::to_be(i.r, w.fs), i.A, i.m) * a) % w.n;
  i.pub = pubb(c, w, S, i.A);
  return i;
}
// change something; the model decides whether it still verifies
static void spoil(Case &c, const W &w, const Scheme &S, Item &i) {
  Z fm = pow2(8 * w.fs), sm = pow2(8 * w.ss);
  switch (c.rng.below(15)) {
    case 0: i.s = (w.n - i.s) % w.n; break;
    case 1: i.r = i.r ^ pow2(c.rng.below(w.p.bits())); break;
    case 2: i.s = i.s ^ pow2(c.rng.below(w.nb)); break;
    case 3: if (i.m.empty()) i.m.push_back(0); else i.m[c.rng.below(i.m.size())] ^= 1 << c.rng.below(8); break;
    case 4: i.s = i.s + w.n; break;
    case 5: i.r = i.r + w.p; break;
    case 6: i.r = Z(0); break;
    case 7: i.s = Z(0); break;
    case 8: i.A = w.add(i.A, w.g); break;
    case 9: i.A = w.neg(i.A); break;
    case 10: {   // R = O: s = e a
      Z a = ec::scalar(c.rng, w.n);
      if (a.zero()) a = Z(1);
      i.A = w.mulg(a);
      if (S.bip340 && i.A.y.odd()) { a = w.n - a; i.A = w.neg(i.A); }
      switch (c.rng.below(4)) { case 0: i.r = Z(0); break; case 1: i.r = Z((unsigned long)c.rng.below(5)); break; case 2: i.r = steered(c.rng, w).x; break; default: break; }
      if (i.r >= w.p) i.r = Z(0);
      i.s = S.challenge(w, big::to_be(i.r, w.fs), i.A, i.m) * a % w.n;
      ev("r_is_infinity");
      break;
    }
    case 11: {   // right x, wrong root of y
      Z a = ec::scalar(c.rng, w.n), k = ec::scalar(c.rng, w.n);
      if (a.zero()) a = Z(1);
      if (k.zero()) k = Z(1);
      i.A = w.mulg(a);
      if (S.bip340 && i.A.y.odd()) { a = w.n - a; i.A = w.neg(i.A); }
      P R = w.mulg(k);
      if (S.goody(w, R)) k = w.n - k;
      i.r = R.x;
      i.s = (k + S.challenge(w, big::to_be(i.r, w.fs), i.A, i.m) * a) % w.n;
      ev("wrong_root");
      break;
    }
    case 12: {   // BIP340 key used with the odd-y secret
      Z a = ec::scalar(c.rng, w.n), k = ec::scalar(c.rng, w.n);
      if (a.zero()) a = Z(1);
      if (k.zero()) k = Z(1);
      P A = w.mulg(a), R = w.mulg(k);
      if (S.bip340 && !A.y.odd()) { a = w.n - a; A = w.neg(A); }
      if (!S.goody(w, R)) k = w.n - k;
      i.A = S.bip340 ? w.neg(A) : A;
      i.r = R.x;
      i.s = (k + S.challenge(w, big::to_be(i.r, w.fs), i.A, i.m) * a) % w.n;
      break;
    }
    case 13: i.r = (i.r + w.n) % w.p; break;
    default: {
      i.pub.clear();
      if (S.bip340) { i.pub = c.rng.chance(1, 2) ? c.rng.special(w.fs) : big::to_be(w.p + Z((unsigned long)c.rng.below(9)), w.fs); P q; i.keyok = w.lift(q, big::from_be(i.pub), 0); if (i.keyok) i.A = q; }
      else { i.pub = mutenc(c.rng, w); P q; i.keyok = w.dec(q, i.pub); if (i.keyok) i.A = q; }
      if (i.s >= sm) i.s = Z(1);
      if (i.r >= fm) i.r = Z(1);
      return;
    }
  }
  if (i.s >= sm) i.s = w.n - Z(1);
  if (i.r >= fm) i.r = w.p - Z(1);
  if (i.A.inf) i.A = w.g;
  if (S.bip340 && i.A.y.odd()) i.A = w.neg(i.A);
  i.pub = pubb(c, w, S, i.A);
}
static bool want(const W &w, const Scheme &S, const Item &i) { return i.keyok && S.verify(w, i.m, i.r, i.s, i.A); }
static std::string show(const W &w, const Item &i) { return fmt("msg=%s sig=%s pub=%s", hex(i.m).c_str(), hex(sigb(w, i)).c_str(), hex(i.pub).c_str()); }

VH_TEST(support, 6, 1) {
  const W &w = curve(c.idx);
  eqi("support", bipschnorr_support(ctx(c, w)) != 0, w.p.bit(0) && w.p.bit(1), "%s", w.name.c_str());
  eval(w.id);
}

static void do_sign(Case &c, const Scheme &S, const W &w) {
  wei_curve_t *e = ctx(c, w);
  Z a = wild(c.rng, w);
  bool ok = !a.zero() && a < w.n;
  Bytes m = c.rng.special(c.rng.chance(1, 2) ? 32 : c.rng.big(200, 64)), aux = c.rng.special(32);
  bool use = c.rng.chance(2, 3);
  In A(w.sc(a)), M(m), X(aux);
  Buf o(w.fs + w.ss);
  int r = S.bip340 ? bip340_sign(e, o, M, m.size(), A, use ? X.p() : nullptr) : bipschnorr_sign(e, o, M, m.size(), A);
  std::string info = fmt("msg=%s priv=%s aux=%s", hex(m).c_str(), a.hex().c_str(), use ? hex(aux).c_str() : "none");
  std::string k = std::string(S.bip340 ? "bip340" : "legacy") + ":" + w.name;
  eval(hb(m, hb(w.sc(a), hb(aux, w.id))));
  if (!eqi((k + ":ret").c_str(), r != 0, ok, "%s", info.c_str()) || !ok) { ev("sign_refused"); return; }
  Item i;
  S.sign(w, i.r, i.s, a, m, use ? &aux : nullptr);
  eq(k.c_str(), o.get(), sigb(w, i), "%s", info.c_str());
  Item v;
  v.m = m; v.r = big::from_be(o.p(), w.fs); v.s = big::from_be(o.p() + w.fs, w.ss); v.A = w.mulg(a); v.pub = pubb(c, w, S, v.A);
  eqi((k + ":verifies").c_str(), tor_verify(e, w, S, v), 1, "%s", info.c_str());
  ev(S.bip340 ? "bip340_signed" : "legacy_signed");
  sample(k + " " + info);
}
VH_TEST(sign_legacy, 2500, 8) { do_sign(c, LEG, scurve(c.idx)); }
VH_TEST(sign_bip340, 3500, 8) { do_sign(c, B340, curve(c.idx)); }

static void do_verify(Case &c, const Scheme &S, const W &w) {
  wei_curve_t *e = ctx(c, w);
  Item i = valid(c, w, S);
  if (c.rng.chance(5, 6)) spoil(c, w, S, i);
  bool x = want(w, S, i);
  eqi(fmt("%s:%s", S.bip340 ? "bip340" : "legacy", w.name.c_str()).c_str(), tor_verify(e, w, S, i), x, "%s", show(w, i).c_str());
  ev(x ? "verify_accept" : "verify_reject");
  eval(hb(sigb(w, i), hb(i.m, hb(i.pub, w.id))));
  sample(w.name + " " + show(w, i) + (x ? " valid" : " invalid"));
}
VH_TEST(verify_legacy, 6000, 8) { do_verify(c, LEG, scurve(c.idx)); }
VH_TEST(verify_bip340, 8000, 8) { do_verify(c, B340, curve(c.idx)); }

// R with chosen x: fabricate the key that makes it valid (legacy scheme hashes A, so fix A and choose s by discrete log of R)
VH_TEST(double_mul, 4000, 8) {
  const Scheme &S = c.rng.chance(1, 2) ? LEG : B340;
  const W &w = S.bip340 ? curve(c.idx) : scurve(c.idx);
  wei_curve_t *e = ctx(c, w);
  // small keys and nonces: table entries of A and G coincide, cancellations inside the ladder
  Item i;
  Z a = c.rng.chance(1, 2) ? Z((unsigned long)c.rng.range(1, 9)) : ec::scalar(c.rng, w.n), k = c.rng.chance(1, 2) ? Z((unsigned long)c.rng.range(1, 9)) : ec::scalar(c.rng, w.n);
  if (a.zero()) a = Z(1);
  if (k.zero()) k = Z(1);
  if (c.rng.chance(1, 2)) a = w.n - a;
  i.A = w.mulg(a);
  if (S.bip340 && i.A.y.odd()) { a = w.n - a; i.A = w.neg(i.A); }
  P R = w.mulg(k);
  if (!S.goody(w, R)) k = w.n - k;
  i.r = R.x;
  i.m = c.rng.bytes(32);
  i.s = (k + S.challenge(w, big::to_be(i.r, w.fs), i.A, i.m) * a) % w.n;
  i.pub = pubb(c, w, S, i.A);
  eqi(fmt("%s:%s", S.bip340 ? "bip340" : "legacy", w.name.c_str()).c_str(), tor_verify(e, w, S, i), 1, "%s", show(w, i).c_str());
  ev("small_multiples");
  eval(hb(sigb(w, i), w.id));
}

VH_TEST(batch, 2000, 8) {
  const Scheme &S = c.rng.chance(1, 2) ? LEG : B340;
  const W &w = S.bip340 ? curve(c.idx) : scurve(c.idx);
  wei_curve_t *e = ctx(c, w);
  bool many = c.rng.chance(1, 60);
  size_t n = many ? c.rng.range(40, 150) : c.rng.chance(1, 8) ? c.rng.below(3) : c.rng.below(c.scale > 1 ? 40 : 14), size = c.rng.chance(1, 3) ? c.rng.range(2, 5) : c.rng.range(2, 2 * n + 6);
  std::vector<Item> v;
  for (size_t i = 0; i < n; i++) v.push_back(i && (many ? i > 12 && c.rng.chance(5, 6) : c.rng.chance(1, 8)) ? v[c.rng.below(i)] : valid(c, w, S));
  const char *kind = "all_valid";
  if (n && c.rng.chance(2, 3)) {
    switch (c.rng.below(n > 1 ? 5 : 2)) {
      case 0: case 1: spoil(c, w, S, v[c.rng.below(n)]); kind = "one_spoiled"; break;
      case 2: {   // errors that cancel when coefficients are equal
        size_t i = c.rng.below(n), j = c.rng.below(n);
        if (c.rng.chance(1, 2)) j = (i + 1) % n;
        if (i == j) j = (i + 1) % n;
        Z d = ec::scalar(c.rng, w.n);
        v[i].s = (v[i].s + d) % w.n;
        v[j].s = (v[j].s + w.n - d) % w.n;
        kind = "cancelling_s";
        break;
      }
      case 3: {   // swapped s
        size_t i = c.rng.below(n), j = c.rng.below(n);
        std::swap(v[i].s, v[j].s);
        kind = "swapped_s";
        break;
      }
      default: {   // swapped keys or messages
        size_t i = c.rng.below(n), j = c.rng.below(n);
        if (c.rng.chance(1, 2)) { std::swap(v[i].A, v[j].A); std::swap(v[i].pub, v[j].pub); std::swap(v[i].keyok, v[j].keyok); } else std::swap(v[i].m, v[j].m);
        kind = "swapped_input";
      }
    }
  }
  bool all = true;
  for (auto &i : v) all &= want(w, S, i);
  std::vector<std::unique_ptr<In>> keep;
  std::vector<const unsigned char *> ms, ss, ps;
  std::vector<size_t> ml, pl;
  auto in = [&](const Bytes &b) { keep.emplace_back(new In(b)); return keep.back()->p(); };
  uint64_t h = w.id + 8 * size;
  for (auto &i : v) { Bytes sg = sigb(w, i); ms.push_back(in(i.m)); ml.push_back(i.m.size()); ss.push_back(in(sg)); ps.push_back(in(i.pub)); pl.push_back(i.pub.size()); h = hb(sg, h); }
  ms.push_back(nullptr); ss.push_back(nullptr); ps.push_back(nullptr); ml.push_back(0); pl.push_back(0);
  wei_scratch_t *sc = wei_scratch_create(e, size);
  int reps = c.rng.chance(1, 4) ? 2 : 1;   // scratch reuse
  for (int q = 0; q < reps; q++) {
    int r = S.bip340 ? bip340_verify_batch(e, ms.data(), ml.data(), ss.data(), ps.data(), n, sc) : bipschnorr_verify_batch(e, ms.data(), ml.data(), ss.data(), ps.data(), pl.data(), n, sc);
    std::string info;
    for (auto &i : v) info += "\n" + show(w, i);
    eqi(fmt("%s:%s:%s", S.bip340 ? "bip340" : "legacy", kind, w.name.c_str()).c_str(), r != 0, all, "batch of %zu, scratch %zu%s", n, size, info.c_str());
  }
  wei_scratch_destroy(e, sc);
  eval(h);
  ev(all ? "batch_accept" : "batch_reject");
  ev(kind);
  sample(fmt("%s %s batch of %zu, scratch %zu, %s -> %s", S.bip340 ? "bip340" : "legacy", w.name.c_str(), n, size, kind, all ? "valid" : "invalid"));
}

// the adversary who knows the coefficients of one run changes two s values so that the errors would cancel under them
VH_TEST(batch_adversary, 400, 8) {
  const Scheme &S = c.rng.chance(1, 2) ? LEG : B340;
  const W &w = S.bip340 ? curve(c.idx) : scurve(c.idx);
  wei_curve_t *e = ctx(c, w);
  size_t n = c.rng.range(2, 5), size = 2 * n + c.rng.below(3);
  std::vector<Item> v;
  for (size_t i = 0; i < n; i++) v.push_back(valid(c, w, S));
  for (auto &i : v) if (!want(w, S, i)) return;
  wei_scratch_t *sc = wei_scratch_create(e, size);
  auto run = [&]() {
    std::vector<std::unique_ptr<In>> keep;
    std::vector<const unsigned char *> ms, ss, ps;
    std::vector<size_t> ml, pl;
    auto in = [&](const Bytes &b) { keep.emplace_back(new In(b)); return keep.back()->p(); };
    for (auto &i : v) { ms.push_back(in(i.m)); ml.push_back(i.m.size()); ss.push_back(in(sigb(w, i))); ps.push_back(in(i.pub)); pl.push_back(i.pub.size()); }
    return (S.bip340 ? bip340_verify_batch(e, ms.data(), ml.data(), ss.data(), ps.data(), n, sc) : bipschnorr_verify_batch(e, ms.data(), ml.data(), ss.data(), ps.data(), pl.data(), n, sc)) != 0;
  };
  coeff::seen().clear();
  coeff::on() = true;
  bool first = run();
  coeff::on() = false;
  eqi(fmt("%s:adversary_valid:%s", S.bip340 ? "bip340" : "legacy", w.name.c_str()).c_str(), first, 1, "batch of %zu", n);
  std::vector<Z> k = coeff::scalars(w.n, true);
  k.insert(k.begin(), Z(1));
  if (k.size() >= n) {
    size_t i = c.rng.below(n), j = (i + c.rng.range(1, n - 1)) % n;
    Z d = big::rnd_below(c.rng, w.n - Z(1)) + Z(1);
    v[i].s = (v[i].s + d) % w.n;
    v[j].s = (v[j].s + (w.n - d) * k[i] * big::inv(k[j], w.n)) % w.n;
    std::string info;
    for (auto &x : v) info += "\n" + show(w, x);
    eqi(fmt("%s:adversary:%s", S.bip340 ? "bip340" : "legacy", w.name.c_str()).c_str(), run(), 0, "batch of %zu, s of %zu and %zu changed to cancel under the coefficients of the valid batch%s", n, i, j, info.c_str());
    ev("known_coefficients");
  }
  wei_scratch_destroy(e, sc);
  eval(hb(sigb(w, v[0]), w.id));
}

// x-only key operations
VH_TEST(keys, 5000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  Z a = wild(c.rng, w), t = wild(c.rng, w);
  bool av = !a.zero() && a < w.n;
  P A = av ? w.mulg(a) : P();
  Z ae = a;
  if (av && A.y.odd()) ae = w.n - a;
  if (av && c.rng.chance(1, 5)) t = c.rng.chance(1, 2) ? ae : w.n - ae;   // double, or cancel
  else if (av && c.rng.chance(1, 5)) t = ec::cofactor(c.rng, a, w.n);
  bool tv = t < w.n;
  In AI(w.sc(a)), T(w.sc(t));
  std::string info = fmt("a=%s t=%s", a.hex().c_str(), t.hex().c_str());
  auto K = [&](const char *s) { return std::string(s) + ":" + w.name; };
  eqi(K("privkey_verify").c_str(), bip340_privkey_verify(e, AI) != 0, av, "%s", info.c_str());
  {
    Buf o(w.fs);
    int r = bip340_pubkey_create(e, o, AI);
    if (eqi(K("create_ret").c_str(), r != 0, av, "%s", info.c_str()) && av) eq(K("create").c_str(), o.get(), big::to_be(A.x, w.fs), "%s", info.c_str());
  }
  {
    Buf d(w.ss), x(w.fs), y(w.fs);
    int r = bip340_privkey_export(e, d, x, y, AI);
    if (eqi(K("privkey_export_ret").c_str(), r != 0, av, "%s", info.c_str()) && av) {
      P B = A.y.odd() ? w.neg(A) : A;
      eq(K("privkey_export").c_str(), ref::cat({d.get(), x.get(), y.get()}), ref::cat({w.sc(ae), big::to_be(B.x, w.fs), big::to_be(B.y, w.fs)}), "%s", info.c_str());
    }
  }
  auto op = [&](const char *n, bool ok, const Z &wt, std::function<int(uint8_t *)> f) {
    Buf o(w.ss);
    int r = f(o);
    if (eqi((K(n) + ":ret").c_str(), r != 0, ok, "%s", info.c_str()) && ok) eq(K(n).c_str(), o.get(), w.sc(wt), "%s", info.c_str());
  };
  Z sum = (ae + t) % w.n, mul = a * t % w.n;
  op("privkey_tweak_add", av && tv && !sum.zero(), sum, [&](uint8_t *o) { return bip340_privkey_tweak_add(e, o, AI, T); });
  op("privkey_tweak_mul", av && tv && !mul.zero(), mul, [&](uint8_t *o) { return bip340_privkey_tweak_mul(e, o, AI, T); });
  op("privkey_invert", av, big::inv(a, w.n), [&](uint8_t *o) { return bip340_privkey_invert(e, o, AI); });
  Bytes raw = w.sc(a);
  if (c.rng.chance(1, 2)) raw.insert(raw.begin(), c.rng.below(4), c.rng.chance(1, 6));
  Z rv = big::from_be(raw);
  In RI(raw);
  op("privkey_import", !rv.zero() && rv < w.n, rv, [&](uint8_t *o) { return bip340_privkey_import(e, o, RI, raw.size()); });
  eval(hb(w.sc(a), hb(w.sc(t), w.id)));
  ev("xonly_keys");
  sample(w.name + " " + info);
}

VH_TEST(xonly, 5000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  auto K = [&](const char *s) { return std::string(s) + ":" + w.name; };
  // an x coordinate, often one that is not on the curve or not reduced
  auto some = [&](Bytes &b, P &q) {
    switch (c.rng.below(6)) {
      case 0: b = c.rng.special(w.fs); break;
      case 1: { Z x = w.p + Z((unsigned long)c.rng.below(40)); b = big::to_be(x < pow2(8 * w.fs) ? x : w.p - Z(1), w.fs); break; }
      case 2: b = big::to_be(big::rnd_edge(c.rng, w.p), w.fs); break;
      default: b = big::to_be(point(c.rng, w).p.x, w.fs);
    }
    return w.lift(q, big::from_be(b), 0);
  };
  Bytes b1, b2;
  P p, q;
  bool o1 = some(b1, p), o2 = some(b2, q);
  if (c.rng.chance(1, 6)) { b2 = b1; q = p; o2 = o1; }
  In B1(b1), B2(b2);
  std::string info = "x1=" + hex(b1) + " x2=" + hex(b2);
  eqi(K("verify").c_str(), bip340_pubkey_verify(e, B1) != 0, o1, "%s", info.c_str());
  {
    Buf x(w.fs), y(w.fs);
    int r = bip340_pubkey_export(e, x, y, B1);
    if (eqi(K("export_ret").c_str(), r != 0, o1, "%s", info.c_str()) && o1) eq(K("export").c_str(), ref::cat({x.get(), y.get()}), ref::cat({b1, big::to_be(p.y, w.fs)}), "%s", info.c_str());
  }
  auto op = [&](const char *n, bool ok, const P &wt, std::function<int(uint8_t *)> f) {
    Buf o(w.fs);
    int r = f(o);
    ok = ok && !wt.inf;
    if (eqi((K(n) + ":ret").c_str(), r != 0, ok, "%s", info.c_str()) && ok) eq(K(n).c_str(), o.get(), big::to_be(wt.x, w.fs), "%s", info.c_str());
    ev(ok ? "xonly_result" : "xonly_refused");
    return ok && r;
  };
  op("add", o1 && o2, o1 && o2 ? w.add(p, q) : P(), [&](uint8_t *o) { return bip340_pubkey_add(e, o, B1, B2); });
  const unsigned char *ps[4] = {B1, B2, B1, B2};
  size_t n = c.rng.below(5);
  P s;
  bool ok = true;
  for (size_t i = 0; i < n; i++) { ok &= i & 1 ? o2 : o1; if (ok) s = w.add(s, i & 1 ? q : p); }
  op("combine", ok, s, [&](uint8_t *o) { return bip340_pubkey_combine(e, o, ps, n); });
  Z t = wild(c.rng, w);
  bool tv = t < w.n;
  In T(w.sc(t));
  info += " t=" + t.hex();
  P ta = o1 && tv ? w.add(p, w.mulg(t)) : P(), tm = o1 && tv ? w.times(t, p) : P();
  int neg = -1;
  if (op("tweak_add", o1 && tv, ta, [&](uint8_t *o) { return bip340_pubkey_tweak_add(e, o, &neg, B1, T); })) eqi(K("tweak_add_negated").c_str(), neg, ta.y.odd(), "%s", info.c_str());
  if (op("tweak_mul", o1 && tv, tm, [&](uint8_t *o) { return bip340_pubkey_tweak_mul(e, o, &neg, B1, T); })) eqi(K("tweak_mul_negated").c_str(), neg, tm.y.odd(), "%s", info.c_str());
  op("tweak_add_null", o1 && tv, ta, [&](uint8_t *o) { return bip340_pubkey_tweak_add(e, o, nullptr, B1, T); });
  for (int mulv = 0; mulv < 2; mulv++) {
    const P &x = mulv ? tm : ta;
    bool good = o1 && tv && !x.inf;
    Bytes ex = good ? big::to_be(x.x, w.fs) : Bytes(w.fs, 0);
    int ng = good ? x.y.odd() : 0, exp = good;
    switch (c.rng.below(4)) { case 0: ng = !ng; exp = 0; break; case 1: ex[c.rng.below(w.fs)] ^= 1 << c.rng.below(8); exp = 0; break; default: break; }
    if (ng && c.rng.chance(1, 2)) { static const int t[] = {5, 2, -1, 256}; ng = t[c.rng.below(4)]; }
    In X(ex);
    int r = mulv ? bip340_pubkey_tweak_mul_check(e, B1, T, X, ng) : bip340_pubkey_tweak_add_check(e, B1, T, X, ng);
    eqi(K(mulv ? "tweak_mul_check" : "tweak_add_check").c_str(), r != 0, exp, "%s expect=%s negated=%d", info.c_str(), hex(ex).c_str(), ng);
  }
  Z k = wild(c.rng, w);
  bool kv = k < w.n && !k.zero();
  In S(w.sc(k));
  op("derive", o1 && kv, o1 && kv ? w.times(k, p) : P(), [&](uint8_t *o) { return bip340_derive(e, o, B1, S); });
  // import from coordinates
  Bytes x = b1, y = o1 ? big::to_be(c.rng.chance(1, 2) ? p.y : w.p - p.y, w.fs) : c.rng.bytes(w.fs);
  if (c.rng.chance(1, 5)) x.insert(x.begin(), c.rng.range(1, 3), 0);
  if (c.rng.chance(1, 8)) x.clear();
  if (c.rng.chance(1, 3)) y.clear();
  if (!y.empty() && c.rng.chance(1, 5)) y[c.rng.below(y.size())] ^= 1;
  Z X = big::from_be(x), Y = big::from_be(y);
  P im;
  bool iv = !x.empty() && X < w.p && Y < w.p && (y.empty() ? w.lift(im, X, 0) : w.on(P(X, Y)));
  if (iv) im = P(X, Z(0));
  In XI(x), YI(y);
  info += " ix=" + hex(x) + " iy=" + hex(y);
  op("import", iv, im, [&](uint8_t *o) { return bip340_pubkey_import(e, o, XI, x.size(), YI, y.size()); });
  eval(hb(b1, hb(b2, hb(w.sc(t), w.id))));
  sample(w.name + " " + info);
}

struct Grind { std::vector<Bytes> seen; size_t stop, len; };
static int cb(const unsigned char *p, void *arg) { Grind *g = (Grind *)arg; g->seen.emplace_back(p, p + g->len); return g->seen.size() >= g->stop; }
VH_TEST(grind, 1500, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  Z k = c.rng.chance(1, 2) ? w.n - Z((unsigned long)c.rng.range(1, 12)) : ec::scalar(c.rng, w.n);
  if (k.zero()) k = Z(1);
  P A = w.mulg(k);
  if (A.y.odd()) { k = w.n - k; A = w.neg(A); }
  In B(big::to_be(A.x, w.fs));
  Grind g{{}, (size_t)c.rng.range(1, 14), w.fs};
  Buf t(w.ss);
  int r = bip340_pubkey_grind(e, t, B, cb, &g);
  std::vector<Bytes> ex;
  Z j = k;
  while (ex.size() < g.stop) { j = (j + Z(1)) % w.n; if (!j.zero()) ex.push_back(big::to_be(w.mulg(j).x, w.fs)); }
  eqi(("sequence:" + w.name).c_str(), r && ex == g.seen, 1, "k=%s", k.hex().c_str());
  eq(("tweak:" + w.name).c_str(), big::to_be(w.mulg((k + big::from_be(t.get())) % w.n).x, w.fs), ex.back(), "k=%s", k.hex().c_str());
  Grind h{{}, (size_t)c.rng.range(1, 4), w.fs};
  In E(c.rng.bytes(32));
  Buf pk(w.ss);
  bip340_privkey_grind(e, pk, E, cb, &h);
  if (!h.seen.empty()) eq(("privkey:" + w.name).c_str(), big::to_be(w.mulg(big::from_be(pk.get())).x, w.fs), h.seen.back(), "ground key does not match");
  eval(hb(w.sc(k), w.id + 64 * g.stop));
  ev("grinds");
}
