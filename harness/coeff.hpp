// Records what the library's generators deliver to other parts of the library (link with --wrap), so that a test can
// play the adversary who knows the random coefficients of a batch. Nothing is claimed when nothing is recorded.
#pragma once
#include <torsion/drbg.h>
#include "ref_big.hpp"

namespace coeff {
inline bool &on() { static bool v; return v; }
inline std::vector<std::vector<uint8_t>> &seen() { static std::vector<std::vector<uint8_t>> v; return v; }
inline void note(const void *p, size_t n) { if (on()) seen().emplace_back((const uint8_t *)p, (const uint8_t *)p + n); }
// scalars in [1, n-1] among the recorded outputs, cut to the size of n
inline std::vector<big::Z> scalars(const big::Z &n, bool le) {
  std::vector<big::Z> v;
  size_t bits = n.bits();
  for (auto &b : seen()) {
    big::Z z = le ? big::from_le(b.data(), b.size()) : big::from_be(b);
    z = z % (big::Z(1) << bits);
    if (!z.zero() && z < n) v.push_back(z);
  }
  return v;
}
}

extern "C" {
void __real_torsion__hmac_drbg_rng(void *, size_t, void *) __attribute__((weak));
void __real_torsion__hmac_drbg_generate(hmac_drbg_t *, void *, size_t, const unsigned char *, size_t) __attribute__((weak));
void __wrap_torsion__hmac_drbg_rng(void *out, size_t n, void *arg) { __real_torsion__hmac_drbg_rng(out, n, arg); coeff::note(out, n); }
void __wrap_torsion__hmac_drbg_generate(hmac_drbg_t *d, void *out, size_t n, const unsigned char *add, size_t an) { __real_torsion__hmac_drbg_generate(d, out, n, add, an); coeff::note(out, n); }
}
