// C21: DSA signatures, verification, key agreement and signature encodings
#include "pk_util.hpp"
#include "ref_ec.hpp"
using namespace pk;
using ref::cat;

static Z reduce(const Bytes &msg, const Z &q, bool *below = nullptr) {
  size_t bits = q.bits(), by = (bits + 7) / 8;
  Bytes m(msg.begin(), msg.begin() + std::min(by, msg.size()));
  Z v = big::from_be(m);
  if (below) *below = v < q;
  return v % q;
}
static Bytes any_msg(Case &c, const Dsa &k) {
  size_t qs = (k.q.bits() + 7) / 8;
  switch (c.rng.below(8)) {
    case 0: return c.rng.bytes(c.rng.below(qs + 40));
    case 1: return big::to_be(k.q, qs);
    case 2: return big::to_be(k.q + Z((long)c.rng.below(3)) - Z(1), qs);
    case 3: return Bytes(qs, 0xff);
    case 4: return Bytes(c.rng.below(qs + 1), 0);
    case 5: return c.rng.special(64);
    default: return c.rng.special(qs);
  }
}
static std::string info(const Dsa &k) { return fmt("p=%s q=%s g=%s y=%s x=%s", k.p.hex().c_str(), k.q.hex().c_str(), k.g.hex().c_str(), k.y.hex().c_str(), k.x.hex().c_str()); }
static bool sane_pub(const Dsa &k) {
  size_t q = k.q.bits();
  return k.p.bits() >= 512 && k.p.bits() <= 10000 && (q == 160 || q == 224 || q == 256) && k.p.odd() && k.q.odd() && k.g >= Z(2) && k.g < k.p - Z(1) && k.y >= Z(2) && k.y < k.p - Z(1);
}
static bool ref_verify(const Dsa &k, const Bytes &msg, const Bytes &sig) {
  size_t qs = (k.q.bits() + 7) / 8;
  if (!sane_pub(k) || sig.size() != 2 * qs) return false;
  Z r = big::from_be(Bytes(sig.begin(), sig.begin() + qs)), s = big::from_be(Bytes(sig.begin() + qs, sig.end()));
  if (r.zero() || s.zero() || r >= k.q || s >= k.q || !big::invertible(s, k.q)) return false;
  Z si = big::inv(s, k.q), u1 = reduce(msg, k.q) * si % k.q, u2 = r * si % k.q;
  return big::powm(k.g, u1, k.p) * big::powm(k.y, u2, k.p) % k.p % k.q == r;
}
static Bytes ref_sign(const Dsa &k, const Bytes &msg, int *tries = nullptr) {
  size_t qs = (k.q.bits() + 7) / 8;
  Z m = reduce(msg, k.q);
  ec::Drbg d(HASH_SHA256, cat({big::to_be(k.x, qs), big::to_be(m, qs)}));
  for (;;) {
    Bytes kb = d.gen(qs);
    if (tries) ++*tries;
    Z kk = big::from_be(kb);
    if (kk.zero() || kk >= k.q) continue;
    Z r = big::powm(k.g, kk, k.p) % k.q;
    if (r.zero()) continue;
    Z s = (r * k.x + m) % k.q * big::inv(kk, k.q) % k.q;
    if (s.zero()) continue;
    return cat({big::to_be(r, qs), big::to_be(s, qs)});
  }
}
static void judge(Case &c, const Dsa &k, const Bytes &msg, const Bytes &sig, const char *what) {
  Bytes pub = k.pub();
  In m(msg), s(sig), p(pub);
  bool ok = ref_verify(k, msg, sig);
  eqi(fmt("verify:%s", what).c_str(), dsa_verify(m, msg.size(), s, sig.size(), p, pub.size()), ok, "msg=%s sig=%s %s", hex(msg).c_str(), hex(sig).c_str(), info(k).c_str());
  ev(ok ? "accept" : "reject");
  eval(hb(msg, hb(sig, hb(pub))));
  (void)c;
}
VH_TEST(sign, 2400, 8) {
  Dsa k = dsa_key(c);
  size_t qs = (k.q.bits() + 7) / 8, n = 0;
  Bytes msg = any_msg(c, k), priv = k.priv(), en = c.rng.special(32);
  In m(msg), p(priv), e(en);
  Buf out(2 * qs);
  int r = dsa_sign(out, &n, m, msg.size(), p, priv.size(), e), tries = 0;
  eqi("sign-result", r, 1, "msg=%s %s", hex(msg).c_str(), info(k).c_str());
  if (r) {
    eqi("sign-length", n, 2 * qs, "%s", info(k).c_str());
    eq("sign", out.get(), ref_sign(k, msg, &tries), "msg=%s %s", hex(msg).c_str(), info(k).c_str());
    if (tries > 1) ev("nonce_retry");
    judge(c, k, msg, out.get(), "own");
    ev("signed");
  }
  sample(fmt("DSA %zu/%zu, %zu-byte message", k.p.bits(), k.q.bits(), msg.size()));
}
VH_TEST(verify, 3600, 8) {
  Dsa k = dsa_key(c);
  size_t qs = (k.q.bits() + 7) / 8;
  Bytes msg = any_msg(c, k), sig = ref_sign(k, msg);
  Z r = big::from_be(Bytes(sig.begin(), sig.begin() + qs)), s = big::from_be(Bytes(sig.begin() + qs, sig.end()));
  switch (c.rng.below(16)) {
    case 0: sig[c.rng.below(sig.size())] ^= 1 << c.rng.below(8); break;
    case 1: if (!msg.empty()) msg[c.rng.below(msg.size())] ^= 1 << c.rng.below(8); break;
    case 2: { Z t = r + k.q; if (t.bits() <= 8 * qs) { sig = cat({big::to_be(t, qs), big::to_be(s, qs)}); ev("unreduced_r"); } break; }
    case 3: { Z t = s + k.q; if (t.bits() <= 8 * qs) { sig = cat({big::to_be(r, qs), big::to_be(t, qs)}); ev("unreduced_s"); } break; }
    case 4: sig = cat({big::to_be(r, qs), big::to_be(k.q - s, qs)}); break;
    case 5: { Z a = big::rnd_edge(c.rng, k.q), b = big::rnd_edge(c.rng, k.q); sig = cat({big::to_be(a, qs), big::to_be(b, qs)}); break; }
    case 6: for (size_t i = 0; i < qs; i++) sig[i] = 0; break;
    case 7: for (size_t i = 0; i < qs; i++) sig[qs + i] = 0; break;
    case 8: sig.push_back(0); if (c.rng.chance(1, 2)) sig.push_back(0); break;
    case 9: sig.pop_back(); break;
    case 10: sig = cat({{0}, big::to_be(r, qs), {0}, big::to_be(s, qs)}); break;
    case 11: if (msg.size() > qs) msg.resize(qs); else if (msg.size() == qs) msg.push_back(1); break;   // only the leading bytes count
    case 12: { k.x = (k.x + Z(1)) % k.q; if (k.x.zero()) k.x = Z(1); k.y = big::powm(k.g, k.x, k.p); break; }
    case 13: { // y outside the subgroup or out of range
      int w = c.rng.below(5);
      k.y = w == 0 ? Z(1) : w == 1 ? k.p - Z(1) : w == 2 ? k.y + k.p : w == 3 ? Z(0) : k.p - k.y;
      break;
    }
    default: break;
  }
  judge(c, k, msg, sig, "case");
}
// signatures built from chosen nonces: r and s with leading zeros, m = 0, and wrapped values of r
VH_TEST(chosen, 2400, 8) {
  Dsa k = dsa_key(c);
  size_t qs = (k.q.bits() + 7) / 8;
  Bytes msg = any_msg(c, k);
  Z m = reduce(msg, k.q), kk, r, s;
  do { kk = big::rnd_edge(c.rng, k.q); } while (kk.zero() || kk >= k.q);
  r = big::powm(k.g, kk, k.p) % k.q;
  if (c.rng.chance(1, 4)) {
    // choose s with a short encoding and solve for the message
    s = Z((long)(1 + c.rng.below(255)));
    if (c.rng.chance(1, 3)) s = k.q - Z((long)(1 + c.rng.below(3)));
    m = (s * kk - r * k.x) % k.q;
    if (m < Z(0)) m = m + k.q;
    msg = big::to_be(m, qs);
    ev("short_s");
  } else s = (r * k.x + m) % k.q * big::inv(kk, k.q) % k.q;
  judge(c, k, msg, cat({big::to_be(r, qs), big::to_be(s, qs)}), "chosen");
}
VH_TEST(derive, 1600, 8) {
  Dsa a = dsa_key(c), b = a;
  do b.x = big::rnd_edge(c.rng, b.q); while (b.x.zero() || b.x >= b.q);
  b.y = big::powm(b.g, b.x, b.p);
  bool ok = true;
  switch (c.rng.below(12)) {
    case 0: b.y = b.p - b.y; ok = false; ev("outside_subgroup"); break;
    case 1: { int w = c.rng.below(4); b.y = w == 0 ? Z(1) : w == 1 ? b.p - Z(1) : w == 2 ? Z(0) : b.y + b.p; ok = false; break; }
    case 2: { Z h = big::rnd_below(c.rng, b.p); b.y = h; ok = h >= Z(2) && h < b.p - Z(1) && big::powm(h, b.q, b.p) == Z(1); break; }
    case 3: { int w; Dsa o = dsa_group(c, &w); ok = o.p == a.p; o.x = b.x % o.q; if (o.x.zero()) o.x = Z(1); o.y = big::powm(o.g, o.x, o.p); b = o; break; }
    case 4: b.g = big::powm(b.g, Z(2), b.p); ok = false; break;
    case 5: a.x = a.q; ok = false; break;
    case 6: a.x = Z(0); ok = false; break;
    default: break;
  }
  if (ok && (a.y < Z(2) || a.y >= a.p - Z(1))) ok = false;
  Bytes pub = b.pub(), priv = a.priv();
  In pi(pub), ki(priv);
  size_t ps = (a.p.bits() + 7) / 8, n = 0;
  Buf out(ps);
  int r = dsa_derive(out, &n, pi, pub.size(), ki, priv.size());
  eqi("derive-result", r, ok, "own %s peer %s", info(a).c_str(), info(b).c_str());
  if (r && ok) {
    eqi("derive-length", n, ps, "%s", info(a).c_str());
    eq("derive", out.get(), big::to_be(big::powm(b.y, a.x, a.p), ps), "own %s peer y=%s", info(a).c_str(), b.y.hex().c_str());
    ev("derived");
  } else ev("derive_refused");
  eval(hb(pub, hb(priv)));
}
VH_TEST(sigder, 6000, 8) {
  static const size_t qss[] = {20, 28, 32};
  size_t qs = qss[c.rng.below(3)];
  Bytes sig = c.rng.special(2 * qs);
  if (c.rng.chance(1, 3)) memset(sig.data() + (c.rng.chance(1, 2) ? qs : 0), 0, c.rng.below(qs + 1));
  if (c.rng.chance(1, 8)) sig = c.rng.special(c.rng.below(80));
  size_t q = c.rng.chance(1, 2) ? qs : c.rng.chance(1, 2) ? 0 : c.rng.below(40), n = 0, h = q ? q : sig.size() / 2;
  bool ok = sig.size() <= 64 && q <= 32 && sig.size() == 2 * h;
  In s(sig);
  Buf out(80);
  int r = dsa_sig_export(out, &n, s, sig.size(), q);
  eqi("sig-export-result", r, ok, "qsize %zu sig=%s", q, hex(sig).c_str());
  if (r && ok) {
    Bytes want = der({big::from_be(Bytes(sig.begin(), sig.begin() + h)), big::from_be(Bytes(sig.begin() + h, sig.end()))}, false);
    eq("sig-export", out.get(std::min<size_t>(n, 80)), want, "qsize %zu sig=%s", q, hex(sig).c_str());
    ev("sig_exported");
    // and back, with the canonical and with damaged encodings
    Bytes d = want;
    switch (c.rng.below(10)) {
      case 0: d[c.rng.below(d.size())] ^= 1 << c.rng.below(8); break;
      case 1: d.push_back(0); break;
      case 2: d.pop_back(); break;
      case 3: d.insert(d.begin() + 2 + 2, 0); d[1]++; d[3]++; break;            // non-minimal integer
      case 4: d = cat({{0x30, 0x81, d[1]}, Bytes(d.begin() + 2, d.end())}); break;   // non-minimal length
      case 5: { Z a = big::rnd_edge(c.rng, big::pow2(8 * (h ? h : 1))), b = big::rnd_edge(c.rng, big::pow2(8 * h + 1)); d = der({a, b}, false); break; }
      case 6: d[4] |= 0x80; break;
      case 7: d = c.rng.bytes(d.size()); break;
      default: break;
    }
    Zs v;
    bool good = undo(d, 2, false, v);
    size_t oq = c.rng.chance(3, 4) ? h : c.rng.below(40);
    bool fits = good && v[0].bits() <= 8 * 32 && v[1].bits() <= 8 * 32 && v[0].bits() <= 8 * oq && v[1].bits() <= 8 * oq;
    In di(d);
    Buf o(2 * oq);
    r = dsa_sig_import(o, &n, di, d.size(), oq);
    eqi("sig-import-result", r, fits, "qsize %zu der=%s", oq, hex(d).c_str());
    if (r && fits) { eqi("sig-import-length", n, 2 * oq, "%s", hex(d).c_str()); eq("sig-import", o.get(), cat({big::to_be(v[0], oq), big::to_be(v[1], oq)}), "qsize %zu der=%s", oq, hex(d).c_str()); ev("sig_imported"); }
    else ev("sig_import_refused");
    eval(hb(d, oq));
  } else ev("sig_export_refused");
  eval(hb(sig, q));
}
// keys that pass the range checks but describe no group: signing must come back
VH_TEST(degenerate, 200, 4) {
  Dsa k = dsa_key(c);
  int shape = c.rng.below(4);
  if (shape == 0) { Z t = rnd_exact(c.rng, 520 - k.q.bits()); if (!t.odd()) t = t + Z(1); k.p = k.q * t; k.g = k.q * Z((long)(2 + c.rng.below(1000))); k.y = big::powm(k.g, k.x, k.p); if (k.y < Z(2)) k.y = Z(2); ev("r_always_zero"); }
  else if (shape == 1) { k.q = prime_for(c.rng, 80, Z(1)) * prime_for(c.rng, 80, Z(1)); if (k.q.bits() != 160) return; k.x = k.x % k.q; if (k.x.zero()) k.x = Z(1); }
  else if (shape == 2) { k.p = k.p - Z(2); k.g = k.g % (k.p - Z(3)) + Z(2); k.y = k.y % (k.p - Z(3)) + Z(2); }
  else { k.g = big::rnd_below(c.rng, k.p - Z(4)) + Z(2); k.y = big::rnd_below(c.rng, k.p - Z(4)) + Z(2); }
  Bytes msg = c.rng.bytes(32), priv = k.priv(), en = c.rng.bytes(32);
  In m(msg), p(priv), e(en);
  size_t qs = (k.q.bits() + 7) / 8, n = 0;
  Buf out(2 * qs);
  dsa_sign(out, &n, m, 32, p, priv.size(), e);
  Bytes sig = c.rng.bytes(2 * qs);
  judge(c, k, msg, sig, "degenerate");
  ev("degenerate_returned");
}
