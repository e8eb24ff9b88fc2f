// C13: ECDSA against RFC 6979 / SEC 1 on the group-law model
#include "ec_util.hpp"
using namespace ecu;

struct Sig { Z r, s; unsigned param; };

static Sig model_sign(const W &w, const Z &a, const Bytes &msg, int skip = 0) {
  Z m = w.bits2int(msg) % w.n;
  ec::Drbg d(w.hash, ref::cat({w.sc(a), w.sc(m)}));
  for (;;) {
    Z k = w.bits2int(d.gen(w.ss));
    if (k.zero() || k >= w.n) { ev("nonce_retry"); continue; }
    P R = w.mulg(k);
    Z r = R.x % w.n;
    if (r.zero()) continue;
    if (skip-- > 0) { ev("nonce_retry"); continue; }
    Z s = (r * a + m) * big::inv(k, w.n) % w.n;
    unsigned sign = R.y.odd(), high = R.x >= w.n;
    if (s + s > w.n) { s = w.n - s; sign ^= 1; }
    return {r, s, (high << 1) | sign};
  }
}
static bool model_verify(const W &w, const Bytes &msg, const Z &r, const Z &s, const P &A) {
  if (r.zero() || s.zero() || r >= w.n || s >= w.n || s + s > w.n) return false;
  Z m = w.bits2int(msg) % w.n, si = big::inv(s, w.n);
  P R = w.add(w.mulg(m * si % w.n), w.times(r * si % w.n, A));
  return !R.inf && R.x % w.n == r;
}
static P model_recover(const W &w, const Bytes &msg, const Z &r, const Z &s, unsigned param) {
  if (r.zero() || s.zero() || r >= w.n || s >= w.n || s + s > w.n) return P();
  Z x = r;
  if (param >> 1) x = x + w.n;
  P R;
  if (x >= w.p || !w.lift(R, x, param & 1)) return P();
  Z m = w.bits2int(msg) % w.n, ri = big::inv(r, w.n);
  return w.add(w.times(s * ri % w.n, R), w.mulg((w.n - m) * ri % w.n));
}
static Bytes sigb(const W &w, const Z &r, const Z &s) { return ref::cat({w.sc(r), w.sc(s)}); }
// a digest whose integer is m
static Bytes digest(const W &w, const Z &m, Rng &r) {
  unsigned sh = w.ss * 8 - w.nb;
  Z v = m << sh;
  if (sh) v = v + Z((unsigned long)r.below(1u << sh));
  Bytes b = w.sc(v);
  if (r.chance(1, 3)) { Bytes t = r.bytes(r.below(40)); b.insert(b.end(), t.begin(), t.end()); }   // bytes beyond the order size are ignored
  return b;
}
static Bytes anymsg(Rng &r, const W &w) {
  static const size_t l[] = {20, 28, 32, 48, 64, 65, 66, 24};
  size_t n = r.chance(2, 3) ? l[r.below(8)] : r.below(80);
  if (r.chance(1, 6)) { Z m = r.chance(1, 2) ? w.n + Z((long)r.below(9) - 4) : pow2(w.nb) - Z((unsigned long)r.range(1, 9)); if (m < pow2(w.nb)) return digest(w, m, r); }
  return r.special(n);
}
static bool tor_verify(wei_curve_t *e, const Bytes &m, const Bytes &sig, const Bytes &p) {
  In M(m), S(sig), A(p);
  return ecdsa_verify(e, M, m.size(), S, A, p.size()) != 0;
}

static void judge_verify(Case &c, const W &w, wei_curve_t *e, const Bytes &m, const Z &r, const Z &s, const P &A, const char *key) {
  Bytes sb = sigb(w, r, s), p = anyenc(c.rng, w, A);
  bool want = model_verify(w, m, r, s, A), got = tor_verify(e, m, sb, p);
  std::string info = fmt("msg=%s sig=%s pub=%s", hex(m).c_str(), hex(sb).c_str(), hex(p).c_str());
  eqi(fmt("%s:%s", key, w.name.c_str()).c_str(), got, want, "%s", info.c_str());
  ev(want ? "verify_accept" : "verify_reject");
  eval(hb(sb, hb(m, hb(p, w.id))));
  sample(w.name + " " + key + " " + info + (want ? " valid" : " invalid"));
}
static void judge_recover(Case &c, const W &w, wei_curve_t *e, const Bytes &m, const Z &r, const Z &s, unsigned param, const char *key) {
  Bytes sb = sigb(w, r, s);
  In M(m), S(sb);
  int comp = c.rng.below(2);
  P want = model_recover(w, m, r, s, param);
  Out o = pub(w, comp, [&](uint8_t *p, size_t *l) { return ecdsa_recover(e, p, l, M, m.size(), S, param, comp); });
  judge(key, w, o, true, want, comp, fmt("msg=%s sig=%s param=%u", hex(m).c_str(), hex(sb).c_str(), param));
  ev(want.inf ? "recover_refused" : "recovered");
  if (param > 1 && !want.inf) ev("recovered_high_x");
}

VH_TEST(sign, 5000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  Z a = wild(c.rng, w);
  Bytes m = anymsg(c.rng, w);
  In A(w.sc(a)), M(m);
  Buf sb(2 * w.ss);
  unsigned param = 77;
  bool np = c.rng.chance(1, 4);
  int r = ecdsa_sign(e, sb, np ? nullptr : &param, M, m.size(), A);
  bool ok = !a.zero() && a < w.n;
  std::string info = fmt("msg=%s priv=%s", hex(m).c_str(), a.hex().c_str());
  if (!eqi(("ret:" + w.name).c_str(), r != 0, ok, "%s", info.c_str()) || !ok) { ev("sign_refused"); eval(hb(m, hb(w.sc(a), w.id))); return; }
  Sig want = model_sign(w, a, m);
  eq(("sig:" + w.name).c_str(), sb.get(), sigb(w, want.r, want.s), "%s", info.c_str());
  if (!np) eqi(("param:" + w.name).c_str(), param, want.param, "%s", info.c_str());
  P p = w.mulg(a);
  eqi(("verifies:" + w.name).c_str(), tor_verify(e, m, sb.get(), anyenc(c.rng, w, p)), 1, "%s", info.c_str());
  Buf cs(2 * w.ss);
  memcpy(cs.p(), sb.p(), 2 * w.ss);
  if (!np) {
    int comp = c.rng.below(2);
    Out o = pub(w, comp, [&](uint8_t *q, size_t *l) { return ecdsa_recover(e, q, l, M, m.size(), sb, param, comp); });
    judge("recovers", w, o, true, p, comp, info);
  }
  eval(hb(m, hb(w.sc(a), w.id)));
  ev("signed");
  sample(w.name + " " + info);
}

// candidates refused through the documented callback: the next RFC 6979 nonce must be used
static int refuse_left;
static void refuse(void *p, size_t n) {
  if (n == sizeof(int) && refuse_left-- > 0) memset(p, 0, n);
}
VH_TEST(retry, 1500, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  Z a = ec::scalar(c.rng, w.n);
  if (a.zero()) a = Z(1);
  Bytes m = anymsg(c.rng, w);
  In A(w.sc(a)), M(m);
  Buf sb(2 * w.ss);
  unsigned param = 77;
  int k = c.rng.below(4);
  refuse_left = k;
  int r = ecdsa_sign_internal(e, sb, &param, M, m.size(), A, refuse);
  Sig want = model_sign(w, a, m, k);
  std::string info = fmt("msg=%s priv=%s refused=%d", hex(m).c_str(), a.hex().c_str(), k);
  eqi(("ret:" + w.name).c_str(), r != 0, 1, "%s", info.c_str());
  eq(("sig:" + w.name).c_str(), sb.get(), sigb(w, want.r, want.s), "%s", info.c_str());
  eqi(("param:" + w.name).c_str(), param, want.param, "%s", info.c_str());
  eval(hb(m, hb(w.sc(a), w.id + 100 * k)));
  sample(w.name + " " + info);
}

// signatures, keys and digests each changed a little
VH_TEST(mutate, 7000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  Z a = ec::scalar(c.rng, w.n);
  if (a.zero()) a = Z(1);
  Bytes m = anymsg(c.rng, w);
  Sig s = model_sign(w, a, m);
  P A = w.mulg(a);
  Z r0 = s.r, s0 = s.s;
  Z top = pow2(8 * w.ss);
  switch (c.rng.below(16)) {
    case 0: if (!m.empty()) m[c.rng.below(m.size())] ^= 1 << c.rng.below(8); break;
    case 1: s0 = w.n - s0; break;
    case 2: r0 = w.n - r0; break;
    case 3: r0 = (r0 ^ pow2(c.rng.below(w.nb))); break;
    case 4: s0 = (s0 ^ pow2(c.rng.below(w.nb))); break;
    case 5: r0 = Z(0); break;
    case 6: s0 = Z(0); break;
    case 7: r0 = r0 + w.n; break;
    case 8: s0 = s0 + w.n; break;
    case 9: A = w.neg(A); break;
    case 10: A = w.add(A, w.g); break;
    case 11: std::swap(r0, s0); break;
    case 12: r0 = c.rng.chance(1, 2) ? Z(0) : w.n; s0 = c.rng.chance(1, 2) ? Z(0) : w.n; break;
    case 13: m.resize(c.rng.below(m.size() + 3)); break;
    case 14: m.insert(m.begin(), 0); break;
    default: break;
  }
  if (r0 >= top) r0 = s.r;
  if (s0 >= top) s0 = s.s;
  if (A.inf) A = w.g;
  judge_verify(c, w, e, m, r0, s0, A, "verify");
  judge_recover(c, w, e, m, r0, s0, c.rng.below(4), "recover");
}

// a broken public key never verifies
VH_TEST(badkey, 3000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  Bytes p = mutenc(c.rng, w);
  P A;
  bool dec = w.dec(A, p);
  Bytes m = anymsg(c.rng, w);
  Z r = ec::scalar(c.rng, w.n), s = ec::scalar(c.rng, w.n);
  bool want = dec && model_verify(w, m, r, s, A);
  eqi(("verify:" + w.name).c_str(), tor_verify(e, m, sigb(w, r, s), p), want, "pub=%s", hex(p).c_str());
  eval(hb(p, w.id));
  ev("bad_key");
}

// choose R first: x at 0.., just below and above n, close to p; then the key that makes (r, s) valid for m
VH_TEST(fabricate, 7000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  P R;
  Z x;
  int kind;
  do {
    kind = c.rng.below(6);
    switch (kind) {
      case 0: x = w.n + Z((unsigned long)c.rng.below(200)); break;
      case 1: x = w.p - Z((unsigned long)c.rng.range(1, 200)); break;
      case 2: x = w.n - Z((unsigned long)c.rng.range(1, 200)); break;
      case 3: x = Z((unsigned long)c.rng.range(1, 200)); break;
      case 4: x = w.n + big::rnd_below(c.rng, w.p - w.n); break;
      default: x = big::rnd_edge(c.rng, w.p);
    }
  } while (!w.lift(R, x, c.rng.below(2)));
  Z r = x % w.n;
  if (r.zero()) r = Z(1);
  Z s = ec::scalar(c.rng, w.n);
  if (s.zero()) s = Z(1);
  if (s + s > w.n) s = w.n - s;
  Z m = c.rng.chance(1, 8) ? Z(0) : ec::scalar(c.rng, w.n);
  // near misses: claim another r for the same R
  Z claim = r;
  switch (c.rng.below(8)) {
    case 0: claim = (x + w.p - w.n) % w.p; break;           // x = claim + n - p: only valid if reduced twice
    case 1: claim = (x + w.n) % w.p % w.n; break;
    case 2: claim = (r + w.p) % w.n; break;
    default: break;
  }
  if (claim.zero() || claim >= w.n) claim = r;
  Z ri = big::inv(claim, w.n);
  P A = w.add(w.times(s * ri % w.n, R), w.mulg((w.n - m) * ri % w.n));
  if (A.inf) return;
  Bytes d = digest(w, m, c.rng);
  judge_verify(c, w, e, d, claim, s, A, "verify");
  for (unsigned q = 0; q < 4; q++) judge_recover(c, w, e, d, claim, s, q, "recover");
  ev(kind == 0 || kind == 4 ? "fabricated_x_above_n" : "fabricated");
}

// choose u1, u2 and A: drives the double multiplication through chosen digits, A equal or close to +-G, R = O
VH_TEST(double_mul, 6000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  P A;
  Z ak;
  bool known = true;
  switch (c.rng.below(4)) {
    case 0: ak = Z((long)c.rng.range(1, 20)) ; break;
    case 1: ak = w.n - Z((long)c.rng.range(1, 20)); break;
    case 2: { ak = ec::scalar(c.rng, w.n); break; }
    default: known = false; A = steered(c.rng, w);
  }
  if (w.a.zero() && c.rng.chance(1, 4)) {   // A = lambda * k * G: the endomorphism halves coincide
    Z l = powm(Z(2), (w.n - Z(1)) / Z(3), w.n);
    if (l == Z(1)) l = powm(Z(3), (w.n - Z(1)) / Z(3), w.n);
    ak = (known ? ak : Z(1)) * l % w.n; known = true;
    ev("endo_key");
  }
  if (known) { if (ak.zero()) ak = Z(1); A = w.mulg(ak); }
  Z u1 = ec::scalar(c.rng, w.n), u2 = ec::scalar(c.rng, w.n);
  if (u2.zero()) u2 = Z(1);
  if (known && c.rng.chance(1, 4)) { u1 = (w.n - u2 * ak % w.n) % w.n; if (c.rng.chance(1, 2)) u1 = (u1 + u2 * ak * Z(2)) % w.n; }   // R = O, or both halves equal
  P R = w.add(w.mulg(u1), w.times(u2, A));
  Z r = R.inf ? ec::scalar(c.rng, w.n) : R.x % w.n;
  if (r.zero()) r = Z(1);
  Z s = r * big::inv(u2, w.n) % w.n, m = u1 * s % w.n;
  if (s + s > w.n) { s = w.n - s; m = (w.n - m) % w.n; r = r; u1 = (w.n - u1) % w.n; }
  // with s negated u2 becomes -u2, so negate A as well to keep R
  Z u2c = r * big::inv(s, w.n) % w.n;
  if (u2c != u2) { m = (u1 * s) % w.n; R = w.add(w.mulg(u1), w.times(u2c, A)); }
  if (R.inf) ev("sum_is_infinity");
  Bytes d = digest(w, m, c.rng);
  judge_verify(c, w, e, d, r, s, A, "verify");
}

static Bytes der_int(const Z &v) {
  Bytes b = big::to_be_min(v);
  if (b.empty() || (b[0] & 0x80)) b.insert(b.begin(), 0);
  Bytes o = {2, (uint8_t)b.size()};   // integers are below 128 bytes
  return ref::cat({o, b});
}
static Bytes der(const Z &r, const Z &s) {
  Bytes b = ref::cat({der_int(r), der_int(s)});
  Bytes h = {0x30};
  if (b.size() >= 128) h.push_back(0x81);
  h.push_back(b.size());
  return ref::cat({h, b});
}
// -1: length too large to judge
static int lax_size(size_t &sz, const Bytes &d, size_t &i) {
  if (i >= d.size()) return 0;
  uint8_t ch = d[i++];
  if (ch < 0x80) { sz = ch; return 1; }
  sz = 0;
  bool bigl = false;
  for (int k = ch & 0x7f; k > 0; k--) {
    if (i >= d.size()) return 0;
    if (sz >> 24) bigl = true;
    sz = (sz << 8) | d[i++];
    if (bigl) return -1;
  }
  return 1;
}
static int lax_int(Z &v, const Bytes &d, size_t &i, const W &w) {
  size_t sz;
  if (i >= d.size() || d[i++] != 2) return 0;
  int r = lax_size(sz, d, i);
  if (r != 1) return r;
  if (sz > d.size() - i) return 0;
  v = big::from_be(d.data() + i, sz);
  i += sz;
  return (v.bits() + 7) / 8 <= w.ss;
}
static int lax(Z &r, Z &s, const Bytes &d, const W &w) {
  size_t i = 0, sz;
  if (d.empty() || d[i++] != 0x30) return 0;
  int q = lax_size(sz, d, i);
  if (q != 1) return q;
  if ((q = lax_int(r, d, i, w)) != 1) return q;
  if ((q = lax_int(s, d, i, w)) != 1) return q;
  return r < w.n && s < w.n;
}

VH_TEST(der, 40000, 8) {
  const W &w = curve(c.idx);
  wei_curve_t *e = ctx(c, w);
  Z r = wild(c.rng, w), s = wild(c.rng, w);
  if (c.rng.chance(1, 3)) r = big::rnd_bits(c.rng, c.rng.range(1, w.nb)) % w.n;
  if (c.rng.chance(1, 3)) s = big::rnd_bits(c.rng, c.rng.range(1, w.nb)) % w.n;
  Bytes sb = sigb(w, r, s);
  In S(sb);
  bool ok = r < w.n && s < w.n;
  std::string info = "sig=" + hex(sb);
  {
    Buf o(ECDSA_MAX_DER_SIZE);
    size_t l = ECDSA_MAX_DER_SIZE;
    int ret = ecdsa_sig_export(e, o, &l, S);
    if (eqi(("export_ret:" + w.name).c_str(), ret != 0, ok, "%s", info.c_str()) && ok) eq(("export:" + w.name).c_str(), o.get(std::min<size_t>(l, ECDSA_MAX_DER_SIZE)), der(r, s), "%s", info.c_str());
  }
  {
    Buf o(2 * w.ss);
    int ret = ecdsa_sig_normalize(e, o, S);
    if (eqi(("normalize_ret:" + w.name).c_str(), ret != 0, ok, "%s", info.c_str()) && ok) eq(("normalize:" + w.name).c_str(), o.get(), sigb(w, r, s + s > w.n ? w.n - s : s), "%s", info.c_str());
    eqi(("low_s:" + w.name).c_str(), ecdsa_is_low_s(e, S) != 0, ok && s + s <= w.n, "%s", info.c_str());
  }
  // parse a (possibly broken) DER string
  Z top = pow2(8 * w.ss);
  Bytes d = der(r, s);
  auto num = [&](const Z &v) {
    Bytes b = big::to_be_min(v);
    if (c.rng.chance(2, 3) && (b.empty() || (b[0] & 0x80))) b.insert(b.begin(), 0);
    if (c.rng.chance(1, 5)) b.insert(b.begin(), c.rng.range(1, 4), c.rng.chance(1, 8) ? 0xff : 0);
    Bytes l;
    size_t n = b.size();
    if (c.rng.chance(1, 10)) n += (int)c.rng.below(5) - 2;
    switch (c.rng.below(8)) {
      case 0: l = {0x81, (uint8_t)n}; break;
      case 1: l = {0x82, 0, (uint8_t)n}; break;
      case 2: { l = {(uint8_t)(0x80 | c.rng.below(6))}; size_t k = l[0] & 0x7f; l.resize(1 + k, 0); if (k) l[k] = n; break; }
      default: l = {(uint8_t)n};
    }
    return ref::cat({{(uint8_t)(c.rng.chance(1, 30) ? 3 : 2)}, l, b});
  };
  switch (c.rng.below(8)) {
    case 0: d[c.rng.below(d.size())] ^= 1 << c.rng.below(8); break;
    case 1: d.resize(c.rng.below(d.size() + 6)); break;
    case 2: d.insert(d.begin() + c.rng.below(d.size()), (uint8_t)(c.rng.chance(1, 2) ? 0 : c.rng.next())); break;
    case 3: d.erase(d.begin() + c.rng.below(d.size())); break;
    case 4: d = c.rng.special(c.rng.below(2 * w.ss + 12)); if (!d.empty()) d[0] = 0x30; break;
    case 5: case 6: {
      Bytes b = ref::cat({num(r), num(s)});
      if (c.rng.chance(1, 4)) b.push_back(c.rng.next());
      size_t n = b.size();
      if (c.rng.chance(1, 8)) n += (int)c.rng.below(7) - 3;
      Bytes h = {0x30};
      if (n >= 128 || c.rng.chance(1, 10)) h.push_back(0x81);
      if (c.rng.chance(1, 16)) { h.back() = 0x82; h.push_back(0); }
      h.push_back(n);
      d = ref::cat({h, b});
      break;
    }
    default: break;
  }
  (void)top;
  Z lr, ls;
  int lx = lax(lr, ls, d, w);
  bool st = lx == 1 && der(lr, ls) == d;
  In D(d);
  {
    Buf o(2 * w.ss);
    int ret = ecdsa_sig_import(e, o, D, d.size());
    if (lx >= 0 && eqi(("import_ret:" + w.name).c_str(), ret != 0, st, "der=%s", hex(d).c_str()) && st) eq(("import:" + w.name).c_str(), o.get(), sigb(w, lr, ls), "der=%s", hex(d).c_str());
    ev(st ? "der_accept" : "der_reject");
  }
  {
    Buf o(2 * w.ss);
    int ret = ecdsa_sig_import_lax(e, o, D, d.size());
    if (lx >= 0) {
      if (eqi(("lax_ret:" + w.name).c_str(), ret != 0, lx, "der=%s", hex(d).c_str()) && lx) eq(("lax:" + w.name).c_str(), o.get(), sigb(w, lr, ls), "der=%s", hex(d).c_str());
      ev(lx ? "lax_accept" : "lax_reject");
    }
  }
  eval(hb(d, hb(sb, w.id)));
  sample(w.name + " der=" + hex(d) + (st ? " accepted" : " refused"));
}
