// Thin C++ value type over GMP (runtime library without headers: prototypes declared here).
#ifndef REF_BIG_HPP
#define REF_BIG_HPP
#include "vh.hpp"

struct gmpz { int alloc; int size; unsigned long *d; };
extern "C" {
#define G(x) __gmpz_##x
void G(init)(gmpz *); void G(clear)(gmpz *); void G(set)(gmpz *, const gmpz *); void G(set_ui)(gmpz *, unsigned long); void G(set_si)(gmpz *, long);
int G(set_str)(gmpz *, const char *, int); char *G(get_str)(char *, int, const gmpz *);
void G(add)(gmpz *, const gmpz *, const gmpz *); void G(sub)(gmpz *, const gmpz *, const gmpz *); void G(mul)(gmpz *, const gmpz *, const gmpz *);
void G(mul_2exp)(gmpz *, const gmpz *, unsigned long); void G(neg)(gmpz *, const gmpz *); void G(abs)(gmpz *, const gmpz *);
void G(tdiv_q)(gmpz *, const gmpz *, const gmpz *); void G(tdiv_r)(gmpz *, const gmpz *, const gmpz *);
void G(fdiv_q)(gmpz *, const gmpz *, const gmpz *); void G(fdiv_r)(gmpz *, const gmpz *, const gmpz *);
void G(cdiv_q)(gmpz *, const gmpz *, const gmpz *); void G(cdiv_r)(gmpz *, const gmpz *, const gmpz *);
void G(mod)(gmpz *, const gmpz *, const gmpz *);
void G(tdiv_q_2exp)(gmpz *, const gmpz *, unsigned long); void G(fdiv_q_2exp)(gmpz *, const gmpz *, unsigned long);
void G(tdiv_r_2exp)(gmpz *, const gmpz *, unsigned long); void G(fdiv_r_2exp)(gmpz *, const gmpz *, unsigned long);
void G(divexact)(gmpz *, const gmpz *, const gmpz *); int G(divisible_p)(const gmpz *, const gmpz *);
void G(pow_ui)(gmpz *, const gmpz *, unsigned long); void G(powm)(gmpz *, const gmpz *, const gmpz *, const gmpz *);
void G(sqrt)(gmpz *, const gmpz *); void G(sqrtrem)(gmpz *, gmpz *, const gmpz *); int G(root)(gmpz *, const gmpz *, unsigned long);
int G(perfect_square_p)(const gmpz *); int G(perfect_power_p)(const gmpz *);
int G(cmp)(const gmpz *, const gmpz *); int G(cmpabs)(const gmpz *, const gmpz *); int G(cmp_si)(const gmpz *, long);
int G(probab_prime_p)(const gmpz *, int); void G(nextprime)(gmpz *, const gmpz *);
void G(gcd)(gmpz *, const gmpz *, const gmpz *); void G(lcm)(gmpz *, const gmpz *, const gmpz *); void G(gcdext)(gmpz *, gmpz *, gmpz *, const gmpz *, const gmpz *);
int G(invert)(gmpz *, const gmpz *, const gmpz *); int G(jacobi)(const gmpz *, const gmpz *);
unsigned long G(remove)(gmpz *, const gmpz *, const gmpz *);
void G(and)(gmpz *, const gmpz *, const gmpz *); void G(ior)(gmpz *, const gmpz *, const gmpz *); void G(xor)(gmpz *, const gmpz *, const gmpz *); void G(com)(gmpz *, const gmpz *);
unsigned long G(popcount)(const gmpz *); unsigned long G(hamdist)(const gmpz *, const gmpz *); unsigned long G(scan0)(const gmpz *, unsigned long); unsigned long G(scan1)(const gmpz *, unsigned long);
void G(setbit)(gmpz *, unsigned long); void G(clrbit)(gmpz *, unsigned long); void G(combit)(gmpz *, unsigned long); int G(tstbit)(const gmpz *, unsigned long);
void *G(export)(void *, size_t *, int, size_t, int, size_t, const gmpz *); void G(import)(gmpz *, size_t, int, size_t, int, size_t, const void *);
size_t G(sizeinbase)(const gmpz *, int); unsigned long G(get_ui)(const gmpz *); long G(get_si)(const gmpz *);
void G(swap)(gmpz *, gmpz *);
#undef G
}

namespace big {

class Z {
 public:
  gmpz v;
  Z() { __gmpz_init(&v); }
  Z(long x) { __gmpz_init(&v); __gmpz_set_si(&v, x); }
  Z(int x) : Z((long)x) {}
  Z(unsigned long x) { __gmpz_init(&v); __gmpz_set_ui(&v, x); }
  Z(unsigned x) : Z((unsigned long)x) {}
  Z(const Z &o) { __gmpz_init(&v); __gmpz_set(&v, &o.v); }
  Z(Z &&o) { v = o.v; __gmpz_init(&o.v); }
  explicit Z(const char *s) { __gmpz_init(&v); if (__gmpz_set_str(&v, s, 0)) { fprintf(stderr, "bad literal %s\n", s); abort(); } }
  ~Z() { __gmpz_clear(&v); }
  Z &operator=(const Z &o) { __gmpz_set(&v, &o.v); return *this; }
  Z &operator=(Z &&o) { __gmpz_swap(&v, &o.v); return *this; }
  bool zero() const { return v.size == 0; }
  int sgn() const { return (v.size > 0) - (v.size < 0); }
  bool odd() const { return v.size && (v.d[0] & 1); }
  size_t bits() const { return v.size ? __gmpz_sizeinbase(&v, 2) : 0; }
  bool bit(size_t i) const { return __gmpz_tstbit(&v, i); }
  unsigned long ui() const { return __gmpz_get_ui(&v); }
  std::string hex() const { char *s = __gmpz_get_str(nullptr, 16, &v); std::string r(s); free(s); return r; }
  std::string str(int base) const { char *s = __gmpz_get_str(nullptr, base, &v); std::string r(s); free(s); return r; }
};

#define OP(op, f) inline Z operator op(const Z &a, const Z &b) { Z r; f(&r.v, &a.v, &b.v); return r; }
OP(+, __gmpz_add) OP(-, __gmpz_sub) OP(*, __gmpz_mul)
OP(/, __gmpz_fdiv_q)   // floor
OP(&, __gmpz_and) OP(|, __gmpz_ior) OP(^, __gmpz_xor)
#undef OP
inline Z operator%(const Z &a, const Z &b) { Z r; __gmpz_mod(&r.v, &a.v, &b.v); return r; }   // 0 <= r < |b|
inline Z operator-(const Z &a) { Z r; __gmpz_neg(&r.v, &a.v); return r; }
inline Z operator<<(const Z &a, unsigned long n) { Z r; __gmpz_mul_2exp(&r.v, &a.v, n); return r; }
inline Z operator>>(const Z &a, unsigned long n) { Z r; __gmpz_fdiv_q_2exp(&r.v, &a.v, n); return r; }
inline int cmp(const Z &a, const Z &b) { return __gmpz_cmp(&a.v, &b.v); }
#define CMP(op) inline bool operator op(const Z &a, const Z &b) { return cmp(a, b) op 0; }
CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
#undef CMP
inline Z powm(const Z &b, const Z &e, const Z &m) { Z r; __gmpz_powm(&r.v, &b.v, &e.v, &m.v); return r; }
inline Z pow(const Z &b, unsigned long e) { Z r; __gmpz_pow_ui(&r.v, &b.v, e); return r; }
inline Z pow2(unsigned long e) { return Z(1) << e; }
// inverse or 0
inline Z inv(const Z &a, const Z &m) { Z r; if (!__gmpz_invert(&r.v, &a.v, &m.v)) return Z(0); return r; }
inline bool invertible(const Z &a, const Z &m) { Z r; return __gmpz_invert(&r.v, &a.v, &m.v); }
inline int jacobi(const Z &a, const Z &n) { return __gmpz_jacobi(&a.v, &n.v); }
inline Z gcd(const Z &a, const Z &b) { Z r; __gmpz_gcd(&r.v, &a.v, &b.v); return r; }
inline Z lcm(const Z &a, const Z &b) { Z r; __gmpz_lcm(&r.v, &a.v, &b.v); return r; }
inline Z abs(const Z &a) { Z r; __gmpz_abs(&r.v, &a.v); return r; }
inline bool prime(const Z &a, int reps = 30) { return __gmpz_probab_prime_p(&a.v, reps) != 0; }
inline Z nextprime(const Z &a) { Z r; __gmpz_nextprime(&r.v, &a.v); return r; }
inline Z from_be(const uint8_t *p, size_t n) { Z r; if (n) __gmpz_import(&r.v, n, 1, 1, 1, 0, p); return r; }
inline Z from_le(const uint8_t *p, size_t n) { Z r; if (n) __gmpz_import(&r.v, n, -1, 1, 1, 0, p); return r; }
inline Z from_be(const Bytes &b) { return from_be(b.data(), b.size()); }
inline Z from_le(const Bytes &b) { return from_le(b.data(), b.size()); }
inline Bytes to_le(const Z &a, size_t n) {
  Bytes o(std::max(n, (a.bits() + 7) / 8) + 8, 0);
  size_t c = 0;
  __gmpz_export(o.data(), &c, -1, 1, 1, 0, &a.v);
  o.resize(n);
  return o;
}
inline Bytes to_be(const Z &a, size_t n) { Bytes o = to_le(a, n); std::reverse(o.begin(), o.end()); return o; }
// minimal big endian, empty for zero
inline Bytes to_be_min(const Z &a) { return to_be(a, (a.bits() + 7) / 8); }

// random integers biased to interesting shapes
inline Z rnd_bits(vh::Rng &r, size_t bits) {
  if (!bits) return Z(0);
  Bytes b = r.special((bits + 7) / 8);
  return from_le(b) % pow2(bits);
}
inline Z rnd_below(vh::Rng &r, const Z &n) { return from_le(r.bytes((n.bits() + 7) / 8 + 8)) % n; }
// value whose words are all zeros, all ones or nearly so in some representation an implementation may keep it in: radix 2^w for the usual word
// sizes, plain or multiplied by a Montgomery constant
inline Z rnd_repr(vh::Rng &r, const Z &n) {
  static const unsigned width[] = {64, 64, 32, 32, 16, 8, 56, 52, 51, 58, 44, 43, 42, 28, 26, 25, 22, 24, 21};
  size_t nb = n.bits(), at = 0;
  unsigned w = width[r.below(sizeof(width) / sizeof(*width))], style = r.below(4);
  Z z;
  while (at < nb) {
    Z top = pow2(w), v;
    switch (style == 0 ? 0 : style == 1 ? 1 : r.below(8)) {
      case 0: v = top - Z(1); break;
      case 1: v = r.chance(1, 2) ? top - Z(1) : Z(0); break;
      case 2: v = Z(0); break;
      case 3: v = Z(1); break;
      case 4: v = top - Z(2); break;
      case 5: v = pow2(w - 1) - Z((unsigned long)r.below(2)); break;
      default: v = from_le(r.bytes((w + 7) / 8)) % top;
    }
    z = z + (v << at);
    at += w;
  }
  z = z % pow2(nb);
  if (r.chance(1, 4)) z = z + n - (z >> (nb / 2));       // the high half of the modulus above a pattern
  z = z % n;
  if (n.odd() && r.chance(1, 2)) {
    unsigned m = r.chance(1, 2) ? 64 : 32;
    Z R = pow2((nb + m - 1) / m * m) % n;
    z = z * (r.chance(7, 8) ? inv(R, n) : R) % n;
  }
  return z;
}
// value in [0, n) clustered around 0, n, powers of two and limb patterns
inline Z rnd_edge(vh::Rng &r, const Z &n) {
  if (r.chance(1, 3) && n.bits() > 100) return rnd_repr(r, n);
  switch (r.below(8)) {
    case 0: return Z((unsigned long)r.below(20)) % n;
    case 1: return (n - Z((unsigned long)r.below(20)) - Z(1)) % n;
    case 2: return (pow2(r.below(n.bits())) + Z((long)r.below(5) - 2)) % n;
    case 3: return rnd_bits(r, n.bits()) % n;
    case 4: return (n / Z(2) + Z((long)r.below(9) - 4)) % n;
    case 5: return from_le(r.bytes(r.range(1, (n.bits() + 7) / 8))) % n;
    default: return rnd_below(r, n);
  }
}
// modular square root for prime p (Tonelli-Shanks); false if none
inline bool sqrtm(Z &out, Z a, const Z &p) {
  a = a % p;
  if (a.zero()) { out = Z(0); return true; }
  if (jacobi(a, p) != 1) return false;
  if (p.bit(0) && p.bit(1)) { out = powm(a, (p + Z(1)) / Z(4), p); return true; }
  Z q = p - Z(1);
  unsigned s = 0;
  while (!q.odd()) { q = q >> 1; s++; }
  Z z(2);
  while (jacobi(z, p) != -1) z = z + Z(1);
  Z m = powm(z, q, p), t = powm(a, q, p), x = powm(a, (q + Z(1)) / Z(2), p);
  unsigned e = s;
  while (t != Z(1)) {
    unsigned i = 0;
    Z u = t;
    while (u != Z(1)) { u = u * u % p; i++; }
    Z b = m;
    for (unsigned j = 0; j + i + 1 < e; j++) b = b * b % p;
    e = i;
    m = b * b % p;
    t = t * m % p;
    x = x * b % p;
  }
  out = x;
  return true;
}

}  // namespace big
#endif
