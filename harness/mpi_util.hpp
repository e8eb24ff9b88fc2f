// Conversions between the library's integers and the GMP-backed model, operand generators.
#ifndef MPI_UTIL_HPP
#define MPI_UTIL_HPP
#include "vh.hpp"
#include "ref_big.hpp"
extern "C" {
#include <torsion/mpi.h>
#include <torsion/util.h>
}
using namespace vh;
using big::Z;
using big::pow2;

typedef unsigned long ul;

struct L {
  mpz_t v;
  L() { mpz_init(v); }
  explicit L(const Z &z) { mpz_init(v); put(z); }
  L(const L &) = delete;
  ~L() { mpz_clear(v); }
  operator mpz_ptr() { return v; }
  void put(const Z &z) {
    Bytes b = big::to_le(big::abs(z), (z.bits() + 7) / 8);
    size_t n = (b.size() + MP_LIMB_BYTES - 1) / MP_LIMB_BYTES;
    mp_limb_t *p = mpz_limbs_write(v, n ? n : 1);
    memset(p, 0, (n ? n : 1) * sizeof(mp_limb_t));
    memcpy(p, b.data(), b.size());
    v->size = z.sgn() < 0 ? -(mp_size_t)n : (mp_size_t)n;
  }
  Z get(const char *key = "not-normalised") {
    mp_size_t n = v->size < 0 ? -v->size : v->size;
    if (n > v->alloc || (n > 0 && v->limbs[n - 1] == 0)) { viol(key, "size %ld alloc %ld top limb zero", (long)v->size, (long)v->alloc); while (n > 0 && v->limbs[n - 1] == 0) n--; }
    Z z = big::from_le((const uint8_t *)v->limbs, n * sizeof(mp_limb_t));
    return v->size < 0 ? -z : z;
  }
};

// raw limb vector of exactly n limbs
struct V {
  Buf b;
  size_t n;
  V(size_t n_) : b(n_ * sizeof(mp_limb_t)), n(n_) {}
  V(const Z &z, size_t n_) : b(big::to_le(z, n_ * sizeof(mp_limb_t))), n(n_) {}
  operator mp_limb_t *() { return (mp_limb_t *)b.p(); }
  Z get() { return big::from_le(b.p(), n * sizeof(mp_limb_t)); }
  Z get(size_t k) { return big::from_le(b.p(), k * sizeof(mp_limb_t)); }
};
inline Z limb(mp_limb_t x) { return Z((ul)x); }
inline Z slimb(mp_long_t x) { return Z((long)x); }

inline Bytes limbs(Rng &r, size_t n) {
  Bytes b(n * MP_LIMB_BYTES);
  for (size_t i = 0; i < n; i++) {
    uint64_t x;
    switch (r.below(7)) {
      case 0: x = 0; break;
      case 1: x = ~0ull; break;
      case 2: x = r.chance(1, 2) ? 1 : ~1ull; break;
      case 3: x = (uint64_t)MP_LIMB_HI - r.below(2); break;
      case 4: x = r.next() & r.next() & r.next(); break;
      default: x = r.next();
    }
    memcpy(b.data() + i * MP_LIMB_BYTES, &x, MP_LIMB_BYTES);
  }
  return b;
}
inline size_t nlimbs(Rng &r, size_t max) {
  if (max >= 30 && r.chance(1, 800)) return r.range(max, 8 * max);
  switch (r.below(10)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2;
    case 3: case 4: return r.range(1, 5);
    case 5: return r.range(1, max);
    default: return r.range(1, std::min<size_t>(max, 17));
  }
}
inline Z nat(Rng &r, size_t max = 40) {
  size_t n = nlimbs(r, max);
  switch (r.below(6)) {
    case 0: return big::from_le(r.special(n * MP_LIMB_BYTES));
    case 1: return n ? pow2(r.below(n * MP_LIMB_BITS)) - Z((long)r.below(2)) : Z(0);
    case 2: return n ? pow2(r.below(n * MP_LIMB_BITS)) + Z((ul)r.below(3)) : Z(0);
    case 3: { Bytes b = r.bytes(n * MP_LIMB_BYTES); return big::from_le(b) >> r.below(MP_LIMB_BITS); }
    default: return big::from_le(limbs(r, n));
  }
}
inline Z integer(Rng &r, size_t max = 40) { Z z = nat(r, max); return r.chance(1, 3) ? -z : z; }
inline mp_limb_t one_limb(Rng &r) { Bytes b = limbs(r, 1); mp_limb_t x; memcpy(&x, b.data(), sizeof x); return r.chance(1, 5) ? r.below(100) : r.chance(1, 5) ? x >> r.below(MP_LIMB_BITS) : x; }
inline mp_long_t one_long(Rng &r) { return r.chance(1, 10) ? (r.chance(1, 2) ? MP_LONG_MIN : MP_LONG_MAX) : (mp_long_t)one_limb(r); }
inline uint64_t key(const Z &a, uint64_t h) { Bytes b = big::to_le(a, (a.bits() + 7) / 8); return fnv(b.data(), b.size(), h ^ (a.sgn() < 0)); }
// n, d whose quotient digits sit at the estimation boundaries
inline void hard_div(Rng &r, Z &n, Z &d, size_t max) {
  size_t dn = r.range(1, std::max<size_t>(1, max / 2)), qn = r.range(1, std::max<size_t>(1, max / 2));
  Bytes db = limbs(r, dn);
  if (r.chance(1, 2)) db[db.size() - 1] |= 0x80;
  d = big::from_le(db);
  if (r.chance(1, 6)) d = pow2(dn * MP_LIMB_BITS) - Z((ul)r.below(3)) - Z(1);
  if (r.chance(1, 6)) d = pow2(dn * MP_LIMB_BITS - 1) + Z((ul)r.below(3));
  if (d.zero()) d = Z(1);
  Z q = r.chance(1, 2) ? big::from_le(limbs(r, qn)) : pow2(qn * MP_LIMB_BITS) - Z((ul)r.below(3)) - Z(1);
  n = q * d;
  switch (r.below(4)) {
    case 0: break;
    case 1: n = n + d - Z(1); break;
    case 2: if (!n.zero()) n = n - Z(1); break;
    default: n = n + big::rnd_below(r, d);
  }
}
static inline void det_rng(void *out, size_t n, void *arg) { ((Rng *)arg)->fill(out, n); }
#endif
