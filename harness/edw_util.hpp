// Shared by the Edwards-family harnesses: contexts, points with and without torsion, clamping.
#ifndef EDW_UTIL_HPP
#define EDW_UTIL_HPP
#include "ref_ec.hpp"
using namespace vh;
using ec::P;
using ec::E;

namespace edu {

inline const E &curve(uint64_t idx) { return ec::edw()[idx % ec::edw().size()]; }

inline edwards_curve_t *ctx(Case &c, const E &w) {
  static std::map<int, std::pair<edwards_curve_t *, edwards_curve_t *>> m;
  auto &e = m[w.id];
  if (!e.first) { e.first = edwards_curve_create(w.id); e.second = edwards_curve_create(w.id); }
  if (c.rng.chance(1, 2)) return e.first;
  ev("blinded_context");
  if (c.rng.chance(1, 3)) { In en(c.rng.bytes(32)); edwards_curve_randomize(e.second, en); ev("randomize"); }
  return e.second;
}
inline uint64_t hb(const Bytes &b, uint64_t h = 7) { return fnv(b.data(), b.size(), h); }

// full-width scalar bytes, reduced or not
inline Z wide(Rng &r, const E &w) {
  Z top = pow2(8 * w.ss);
  switch (r.below(8)) {
    case 0: return w.n * Z((unsigned long)r.below((top / w.n).ui() + 1)) + Z((unsigned long)r.below(3)) % w.n;
    case 1: return top - Z((unsigned long)r.range(1, 30));
    case 2: return big::from_le(r.special(w.ss));
    case 3: { Z k = w.n * Z((unsigned long)r.below(16)) + ec::scalar(r, w.n); return k % top; }
    case 4: return big::from_le(r.bytes(w.ss));
    default: return ec::scalar(r, w.n);
  }
}
inline Z wide_(Rng &r, const E &w) { return wide(r, w) % pow2(8 * w.ss); }

inline P steered(Rng &r, const E &w) {   // any point of the full group with a chosen y
  for (;;) {
    P q;
    if (w.lift(q, big::rnd_edge(r, w.p), r.below(2))) return q;
  }
}
inline P tors(Rng &r, const E &w) { return w.tor[r.below(w.tor.size())]; }
inline P point(Rng &r, const E &w) {
  switch (r.below(8)) {
    case 0: return tors(r, w);
    case 1: return w.add(w.mulg(ec::scalar(r, w.n)), tors(r, w));
    case 2: return steered(r, w);
    case 3: return w.mulg(Z((unsigned long)r.below(20)));
    default: return w.mulg(ec::scalar(r, w.n));
  }
}
// encodings, mostly broken or unusual
inline Bytes mutenc(Rng &r, const E &w) {
  P q = point(r, w);
  Bytes b = w.enc(q);
  Z top = pow2(8 * w.es - 1);
  auto put = [&](const Z &y, int sign) { Bytes o = big::to_le(y % top, w.es); o[w.es - 1] = (o[w.es - 1] & 0x7f) | (sign << 7); return o; };
  switch (r.below(10)) {
    case 0: b[r.below(b.size())] ^= 1 << r.below(8); break;
    case 1: b = r.special(w.es); break;
    case 2: b = put(w.p + Z((unsigned long)r.below(24)), r.below(2)); break;            // unreduced y
    case 3: b = put(Z((unsigned long)r.below(24)), r.below(2)); break;
    case 4: b = put(w.p - Z((unsigned long)r.range(1, 24)), r.below(2)); break;
    case 5: b = put(q.y + w.p, q.x.odd()); break;
    case 6: b = put(r.below(2) ? Z(1) : w.p - Z(1), 1); break;                              // x = 0 with the sign bit
    case 7: b[w.es - 1] ^= 1 << r.below(8); break;
    case 8: b = big::to_le(big::rnd_edge(r, w.p), w.es); if (r.chance(1, 2)) b[w.es - 1] |= 0x80; break;
    default: break;
  }
  return b;
}
inline Bytes clamp(const E &w, const Bytes &s) {
  Bytes o(s.begin(), s.begin() + w.ss);
  unsigned bits = w.p.bits();            // the top bit of the field size is set, higher ones cleared
  unsigned top = bits % 8 ? bits % 8 : 8;
  o[0] &= 0xff & -(int)w.h;
  o[w.ss - 1] &= (1 << top) - 1;
  o[w.ss - 1] |= 1 << (top - 1);
  return o;
}
inline Bytes hash(const E &w, const Bytes &m, size_t n) { Bytes o = ref::hash(w.hash, m, w.hash == HASH_SHAKE256 ? n : 64); o.resize(n); return o; }
inline void expand(const E &w, const Bytes &priv, Bytes &scalar, Bytes &prefix) {
  Bytes h = hash(w, priv, 2 * w.es);
  scalar = clamp(w, h);
  prefix.assign(h.begin() + w.es, h.end());
}
}  // namespace edu
#endif
