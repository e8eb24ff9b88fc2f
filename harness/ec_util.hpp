// Shared by the elliptic-curve harnesses: contexts, steered points, call wrappers.
#ifndef EC_UTIL_HPP
#define EC_UTIL_HPP
#include "ref_ec.hpp"
using namespace vh;
using ec::P;
using ec::W;

namespace ecu {

inline const W &curve(uint64_t idx) { return ec::wei()[idx % ec::wei().size()]; }

// plain context, or one whose blinding is renewed again and again
inline wei_curve_t *ctx(Case &c, const W &w, bool *blinded = nullptr) {
  static std::map<int, std::pair<wei_curve_t *, wei_curve_t *>> m;
  auto &e = m[w.id];
  if (!e.first) { e.first = wei_curve_create(w.id); e.second = wei_curve_create(w.id); }
  bool b = c.rng.chance(1, 2);
  if (blinded) *blinded = b;
  if (!b) return e.first;
  ev("blinded_context");
  if (c.rng.chance(1, 3)) { In en(c.rng.bytes(32)); wei_curve_randomize(e.second, en); ev("randomize"); }
  return e.second;
}

// a point with a small, large or patterned x coordinate (unknown discrete logarithm)
inline P steered(Rng &r, const W &w) {
  for (;;) {
    Z x = big::rnd_edge(r, w.p);
    P q;
    if (w.lift(q, x, r.below(2))) return q;
  }
}
struct K { Z k; bool known; P p; };   // point, with its discrete logarithm when known
inline K point(Rng &r, const W &w) {
  if (r.chance(1, 3)) return {Z(0), false, steered(r, w)};
  Z k = ec::scalar(r, w.n);
  if (k.zero()) k = Z(1);
  return {k, true, w.mulg(k)};
}
// some valid encoding
inline Bytes anyenc(Rng &r, const W &w, const P &q) {
  switch (r.below(4)) {
    case 0: case 1: return w.enc(q, true);
    case 2: return w.enc(q, false);
    default: { Bytes b = w.enc(q, false); b[0] = 6 | q.y.odd(); return b; }
  }
}
// scalar bytes, sometimes out of range
inline Z wild(Rng &r, const W &w) {
  Z top = pow2(8 * w.ss);
  switch (r.below(10)) {
    case 0: return w.n;
    case 1: { Z k = w.n + Z((unsigned long)r.below(30)); return k < top ? k : w.n; }
    case 2: return top - Z((unsigned long)r.range(1, 30));
    case 3: { Z k = w.n + ec::scalar(r, w.n); return k < top ? k : top - Z(1); }
    default: return ec::scalar(r, w.n);
  }
}
// a broken or unusual encoding near a valid one
inline Bytes mutenc(Rng &r, const W &w) {
  P q = r.chance(1, 2) ? steered(r, w) : w.mulg(ec::scalar(r, w.n));
  if (q.inf) q = w.g;
  Bytes b = w.enc(q, r.chance(1, 2));
  switch (r.below(14)) {
    case 0: b[0] = r.below(9); break;
    case 1: b[0] = r.next(); break;
    case 2: b[r.below(b.size())] ^= 1 << r.below(8); break;
    case 3: b.resize(r.below(b.size() + 4)); break;
    case 4: { Z x = w.p + Z((unsigned long)r.below(20)); Bytes t = big::to_be(x, w.fs); if (x < pow2(8 * w.fs)) std::copy(t.begin(), t.end(), b.begin() + 1); break; }
    case 5: if (b.size() > 1 + w.fs) { Z y = q.y + w.p; if (y < pow2(8 * w.fs)) { Bytes t = big::to_be(y, w.fs); std::copy(t.begin(), t.end(), b.begin() + 1 + w.fs); } } else b[1] ^= 0x80; break;
    case 6: { Bytes t = r.special(w.fs); std::copy(t.begin(), t.end(), b.begin() + 1); break; }
    case 7: { b = r.special(b.size()); b[0] = 2 + r.below(6); break; }
    case 8: {   // x and x + p both fit when x is tiny
      for (unsigned long x = 0; x < 40; x++) { P t; Z xx = w.p + Z(x); if (w.lift(t, Z(x), 0) && xx < pow2(8 * w.fs)) { b = w.enc(t, true); Bytes e = big::to_be(xx, w.fs); std::copy(e.begin(), e.end(), b.begin() + 1); break; } }
      break;
    }
    case 9: if (b.size() > 1 + w.fs) b[0] = 6 | (r.chance(1, 2) ? q.y.odd() : !q.y.odd()); break;
    case 10: if (b.size() > 1 + w.fs) b = w.enc(P(q.x, (w.p - q.y + Z((long)r.below(3) - 1)) % w.p), false); break;
    case 11: { b = Bytes(r.below(2) ? 1 : b.size(), 0); break; }
    case 12: {   // a point of another curve with the same a (invalid-curve attack): b arbitrary
      Bytes t = r.bytes(w.fs); t[0] &= 0x01; std::copy(t.begin(), t.end(), b.begin() + 1);
      if (b.size() > 1 + w.fs) { Bytes u = r.bytes(w.fs); u[0] &= 0x01; std::copy(u.begin(), u.end(), b.begin() + 1 + w.fs); }
      break;
    }
    default: break;
  }
  return b;
}
struct Out { int ret; Bytes b; };
// call f(out, &len) with a buffer of exactly the documented size
template <class F> Out pub(const W &w, int compact, F f) {
  Buf o(compact ? 1 + w.fs : 1 + 2 * w.fs);
  size_t len = 12345;
  Out r;
  r.ret = f(o.p(), &len);
  if (r.ret) {
    if (len != o.size()) { viol("outlen", "%s length %zu instead of %zu", w.name.c_str(), len, o.size()); len = 0; }
    r.b = o.get(len);
  }
  return r;
}
// judge against the expected point (inf or !ok: must fail)
inline void judge(const char *key, const W &w, const Out &o, bool ok, const P &want, int compact, const std::string &info) {
  std::string k = std::string(key) + ":" + w.name;
  bool good = ok && !want.inf;
  if (!eqi((k + ":ret").c_str(), o.ret != 0, good, "%s", info.c_str())) return;
  if (good) eq(k.c_str(), o.b, w.enc(want, compact), "%s", info.c_str());
  ev(good ? "results" : "refused");
}
inline uint64_t hb(const Bytes &b, uint64_t h = 7) { return fnv(b.data(), b.size(), h); }
}  // namespace ecu
#endif
