// Ristretto/Decaf encoding on affine Edwards points (RFC 9496 affine formulas, h = 4 and h = 8)
#ifndef REF_RIST_HPP
#define REF_RIST_HPP
#include "edw_util.hpp"
namespace rist {
inline Z absn(const Z &x, const Z &p) { return x.odd() ? p - x : x; }
inline Bytes enc(const E &w, const P &q0) {
  P q = q0;
  const Z &p = w.p;
  if (q.x.zero() || (w.h == 8 && q.y.zero())) return Bytes(w.fs, 0);
  if (w.h == 8 && (q.x * q.y % p).odd()) {
    Z i;
    big::sqrtm(i, p - Z(1), p);
    q = w.add(q, P(i, Z(0)));
  }
  if (q.x.odd() || q.y == p - Z(1)) q = P((p - q.x) % p, (p - q.y) % p);
  Z s;
  if (!big::sqrtm(s, (p - w.a) * ((Z(1) - q.y) % p) % p * big::inv((Z(1) + q.y) % p, p) % p, p)) { fprintf(stderr, "ristretto model: odd point\n"); exit(96); }
  return big::to_le(absn(s, p), w.fs);
}
inline bool dec(const E &w, P &o, const Bytes &b) {
  const Z &p = w.p;
  Z s = big::from_le(b);
  if (b.size() != w.fs || s >= p || s.odd()) return false;
  Z as2 = w.a * s % p * s % p, u1 = (Z(1) + as2) % p, u2 = (Z(1) - as2) % p;
  if (u2.zero()) return false;
  Z v = (w.a * w.d % p * u1 % p * u1 - u2 * u2) % p, x;
  if (big::jacobi(v, p) != 1) return false;
  big::sqrtm(x, Z(4) * s * s % p * big::inv(v, p) % p, p);
  o = P(absn(x, p), u1 * big::inv(u2, p) % p);
  if (w.h == 8 && ((o.x * o.y % p).odd() || o.y.zero())) return false;
  return true;
}
inline bool zero(const E &w, const P &q) { return q.x.zero() || (w.h == 8 && q.y.zero()); }
}  // namespace rist
#endif
