// C11: number-theoretic functions and primality against GMP, definitions and constructed composites
#include "mpi_util.hpp"
#include <memory>
extern "C" {
void __gmpz_fac_ui(gmpz *, unsigned long); void __gmpz_2fac_ui(gmpz *, unsigned long); void __gmpz_mfac_uiui(gmpz *, unsigned long, unsigned long);
void __gmpz_primorial_ui(gmpz *, unsigned long); void __gmpz_bin_ui(gmpz *, const gmpz *, unsigned long);
void __gmpz_fib2_ui(gmpz *, gmpz *, unsigned long); void __gmpz_lucnum2_ui(gmpz *, gmpz *, unsigned long);
int __gmpz_kronecker_ui(const gmpz *, unsigned long); int __gmpz_kronecker_si(const gmpz *, long); int __gmpz_ui_kronecker(unsigned long, const gmpz *); int __gmpz_si_kronecker(long, const gmpz *);
}
static int kronecker(const Z &a, const Z &b) { return __gmpz_jacobi(&a.v, &b.v); }
static size_t lc(const Z &x) { return (x.bits() + MP_LIMB_BITS - 1) / MP_LIMB_BITS; }

static void chk(const char *name, L &got, const Z &want, const std::string &c) {
  Z g = got.get(fmt("%s-not-normalised", name).c_str());
  if (g != want) viol(name, "%s got %s want %s", c.c_str(), g.hex().c_str(), want.hex().c_str());
}
static std::string cx(const Z &x, const Z &y) { return "x=" + x.hex() + " y=" + y.hex(); }
static std::string cx(const Z &x, const Z &y, const Z &m) { return cx(x, y) + " m=" + m.hex(); }

// a pair with a planted common factor, quotients of every shape
static void pair(Rng &r, Z &x, Z &y, size_t max) {
  switch (r.below(6)) {
    case 0: x = integer(r, max); y = integer(r, max); break;
    case 1: { Z g = nat(r, max / 2); x = g * integer(r, max / 2); y = g * integer(r, max / 2); break; }
    case 2: {   // consecutive convergents: every quotient chosen
      Z a(1), b(0);
      int n = r.range(1, 60);
      for (int i = 0; i < n && a.bits() < max * MP_LIMB_BITS; i++) {
        Z q = r.chance(1, 10) ? nat(r, 3) + Z(1) : Z((ul)r.range(1, r.chance(1, 4) ? 1000 : 3));
        Z t = q * a + b; b = a; a = t;
      }
      Z g = r.chance(1, 2) ? Z(1) : nat(r, 3) + Z(1);
      x = a * g; y = b * g;
      if (r.chance(1, 2)) std::swap(x, y);
      break;
    }
    case 3: x = integer(r, max); y = x + Z((long)r.below(9) - 4); break;
    case 4: x = pow2(r.below(max * MP_LIMB_BITS)) + Z((long)r.below(3) - 1); y = pow2(r.below(max * MP_LIMB_BITS)) + Z((long)r.below(3) - 1); break;
    default: x = Z((long)r.below(50) - 25); y = Z((long)r.below(50) - 25);
  }
}

VH_TEST(gcd, 40000, 8) {
  Z x, y;
  pair(c.rng, x, y, c.rng.chance(1, 20) ? 60 : 20);
  Z g = big::gcd(x, y);
  int al = c.rng.below(4);
  { L lx(x), ly(y), lz(Z(5)); mpz_gcd(al == 1 ? lx.v : al == 2 ? ly.v : lz.v, lx, al == 3 ? ly.v : ly.v); chk("gcd", al == 1 ? lx : al == 2 ? ly : lz, g, cx(x, y)); }
  { L lx(x), ly(y), lz(Z(5)); mpz_lcm(al == 1 ? lx.v : al == 2 ? ly.v : lz.v, lx, ly); chk("lcm", al == 1 ? lx : al == 2 ? ly : lz, big::lcm(x, y), cx(x, y)); }
  {
    L lx(x), ly(y), lg(Z(5)), ls(Z(6)), lt(Z(7));
    int nul = c.rng.below(8), al2 = c.rng.below(5);
    mpz_ptr pg = nul & 1 ? nullptr : lg.v, ps = nul & 2 ? nullptr : ls.v, pt = nul & 4 ? nullptr : lt.v;
    if (al2 == 1 && pg) pg = lx; else if (al2 == 2 && ps) ps = lx; else if (al2 == 3 && pt) pt = ly; else if (al2 == 4 && pg && ps) { pg = ly; ps = lx; }
    mpz_gcdext(pg, ps, pt, lx, ly);
    auto val = [&](mpz_ptr p) -> Z { return p == lx.v ? lx.get() : p == ly.v ? ly.get() : p == lg.v ? lg.get() : p == ls.v ? ls.get() : lt.get(); };
    if (pg && val(pg) != g) viol("gcdext-g", "%s got %s want %s", cx(x, y).c_str(), val(pg).hex().c_str(), g.hex().c_str());
    if (ps && pt && val(ps) * x + val(pt) * y != g) viol("gcdext-bezout", "%s s=%s t=%s", cx(x, y).c_str(), val(ps).hex().c_str(), val(pt).hex().c_str());
    if (ps && !pt && !y.zero() && (val(ps) * x - g) % y != Z(0)) viol("gcdext-s", "%s s=%s", cx(x, y).c_str(), val(ps).hex().c_str());
    if (!ps && pt && !x.zero() && (val(pt) * y - g) % x != Z(0)) viol("gcdext-t", "%s t=%s", cx(x, y).c_str(), val(pt).hex().c_str());
    ev("gcdext");
  }
  {
    mp_limb_t w = c.rng.chance(1, 20) ? 0 : one_limb(c.rng);
    if (!w) {
      L lx(x), lz(Z(5));
      bool nul = c.rng.chance(1, 3);
      mp_limb_t got = mpz_gcd_ui(nul ? nullptr : lz.v, lx, 0);
      Z ax = big::abs(x);
      if (limb(got) != (lc(ax) == 1 ? ax : Z(0))) viol("gcd_ui-zero", "x=%s", x.hex().c_str());
      if (!nul) chk("gcd_ui-zero", lz, ax, x.hex());
    }
    if (w) {
      L lx(x), lz(Z(5));
      Z g1 = big::gcd(x, limb(w));
      mp_limb_t got = mpz_gcd_ui(c.rng.chance(1, 3) ? nullptr : lz.v, lx, w);
      if (limb(got) != g1) viol("gcd_ui", "x=%s w=%s", x.hex().c_str(), limb(w).hex().c_str());
      L l2(x); mpz_lcm_ui(l2, l2, w); chk("lcm_ui", l2, big::lcm(x, limb(w)), cx(x, limb(w)));
      Z ax = big::abs(x);
      size_t n = lc(ax);
      if (n) { V vx(ax, n), t(MPN_GCD_1_ITCH(n)); if (limb(mpn_gcd_1(vx, n, w, t)) != g1) viol("mpn_gcd_1", "x=%s w=%s", ax.hex().c_str(), limb(w).hex().c_str()); }
    }
  }
  Z ax = big::abs(x), ay = big::abs(y);
  if (ax < ay) std::swap(ax, ay);
  if (!ay.zero()) {
    size_t xn = lc(ax), yn = lc(ay);
    V vx(ax, xn), vy(ay, yn), z(yn), t(MPN_GCD_ITCH(xn, yn));
    mp_size_t zn = mpn_gcd(z, vx, xn, vy, yn, t);
    if (z.get(zn) != g) viol("mpn_gcd", "%s got %s", cx(ax, ay).c_str(), z.get(zn).hex().c_str());
    V gp(yn), sp(yn + 1);
    mp_size_t sn = 0;
    mp_size_t gn = mpn_gcdext(gp, sp, &sn, vx, xn, vy, yn);
    Z s = sp.get(sn < 0 ? -sn : sn); if (sn < 0) s = -s;
    if (gp.get(gn) != g || (s * ax - g) % ay != Z(0)) viol("mpn_gcdext", "%s g=%s s=%s", cx(ax, ay).c_str(), gp.get(gn).hex().c_str(), s.hex().c_str());
    ev("mpn_gcd");
  }
  ev("gcd"); eval(key(x, key(y, 1)));
  if (c.idx < 3) sample(fmt("gcd of %zu and %zu bits has %zu bits", x.bits(), y.bits(), g.bits()));
}

static Z odd_mod(Rng &r, size_t max) { Z m = nat(r, max); if (!m.odd()) m = m + Z(1); return m <= Z(1) ? Z(3) : m; }

VH_TEST(invert, 30000, 8) {
  Z x, y;
  pair(c.rng, x, y, 20);
  if (c.rng.chance(1, 2)) { y = odd_mod(c.rng, 20); if (c.rng.chance(1, 2)) x = big::rnd_edge(c.rng, y); }
  if (big::abs(y) > Z(1)) {
    bool ok = big::invertible(x, y);
    Z want = ok ? big::inv(x, y) % y : Z(0);
    int al = c.rng.below(3);
    L lx(x), ly(y), lz(Z(9));
    int r = mpz_invert(al == 1 ? lx.v : al == 2 ? ly.v : lz.v, lx, ly);
    eqi("invert-ret", r, ok, "%s", cx(x, y).c_str());
    chk("invert", al == 1 ? lx : al == 2 ? ly : lz, want, cx(x, y));
    ev(ok ? "invertible" : "not_invertible");
    Z m = big::abs(y), a = x % m;
    if (m.odd() && !a.zero()) {
      size_t n = lc(m), an = lc(a);
      { V vx(a, an), vm(m, n), z(n), t(MPN_INVERT_ITCH(n)); int rr = mpn_invert(z, vx, an, vm, n, t); eqi("mpn_invert-ret", rr, ok, "%s", cx(a, m).c_str()); if (ok && z.get() != big::inv(a, m)) viol("mpn_invert", "%s got %s", cx(a, m).c_str(), z.get().hex().c_str()); }
      { V vx(a, n), vm(m, n), z(n), t(MPN_INVERT_ITCH(n)); int rr = mpn_invert_n(z, vx, vm, n, t); eqi("mpn_invert_n-ret", rr, ok, "%s", cx(a, m).c_str()); if (ok && z.get() != big::inv(a, m)) viol("mpn_invert_n", "%s got %s", cx(a, m).c_str(), z.get().hex().c_str()); }
      ev("mpn_invert");
    }
  }
  if (c.idx % 20 == 0) {
    Z p = big::nextprime(big::from_le(c.rng.bytes(c.rng.range(1, 48))) + Z(3));
    Z a = big::rnd_edge(c.rng, p);
    size_t n = lc(p), an = lc(a);
    { V vx(a, an ? an : 1), vm(p, n), z(n), t(MPN_SEC_INVERT_ITCH(n)); int rr = mpn_sec_invert(z, vx, an, vm, n, t); eqi("mpn_sec_invert-ret", rr, !a.zero(), "%s", cx(a, p).c_str()); if (z.get() != big::inv(a, p)) viol("mpn_sec_invert", "%s got %s", cx(a, p).c_str(), z.get().hex().c_str()); }
    { V vx(a, n), vm(p, n), z(n), t(MPN_SEC_INVERT_ITCH(n)); int rr = mpn_sec_invert_n(z, vx, vm, n, t); eqi("mpn_sec_invert_n-ret", rr, !a.zero(), "%s", cx(a, p).c_str()); if (z.get() != big::inv(a, p)) viol("mpn_sec_invert_n", "%s got %s", cx(a, p).c_str(), z.get().hex().c_str()); }
    ev("sec_invert");
  }
  if (c.idx % 16 == 1) {     // moduli 0, 1 and -1 have no inverses
    L lx(x), lm(Z((long)c.rng.below(3) - 1)), lz(Z(9));
    eqi("invert-degenerate", mpz_invert(lz, lx, lm), 0, "x=%s", x.hex().c_str());
    chk("invert-degenerate", lz, Z(0), x.hex());
    V one(Z(1), 1), zero(Z((ul)c.rng.below(2)), 1), z(1), t(MPN_INVERT_ITCH(1));
    eqi("mpn_invert-mod-1", mpn_invert(z, zero, 0, one, 1, t), 0, "%s", "");
    eqi("mpn_invert_n-mod-1", mpn_invert_n(z, zero, one, 1, t), 0, "%s", "");
    L la(x), lp(c.rng.chance(1, 2) ? -odd_mod(c.rng, 4) : c.rng.chance(1, 2) ? odd_mod(c.rng, 4) + Z(1) : Z((ul)c.rng.below(2))), lr(Z(7));
    eqi("sqrtm-degenerate", mpz_sqrtm(lr, la, lp), 0, "x=%s", x.hex().c_str());
    chk("sqrtm-degenerate", lr, Z(0), x.hex());
    ev("degenerate_modulus");
  }
  ev("invert"); eval(key(x, key(y, 2)));
}

VH_TEST(symbols, 40000, 8) {
  Z x, y;
  pair(c.rng, x, y, 16);
  L lx(x), ly(y);
  eqi("kronecker", mpz_kronecker(lx, ly), kronecker(x, y), "%s", cx(x, y).c_str());
  mp_limb_t w = one_limb(c.rng);
  mp_long_t s = one_long(c.rng);
  eqi("kronecker_ui", mpz_kronecker_ui(lx, w), kronecker(x, limb(w)), "%s", cx(x, limb(w)).c_str());
  eqi("kronecker_si", mpz_kronecker_si(lx, s), kronecker(x, slimb(s)), "%s", cx(x, slimb(s)).c_str());
  eqi("ui_kronecker", mpz_ui_kronecker(w, ly), kronecker(limb(w), y), "%s", cx(limb(w), y).c_str());
  eqi("si_kronecker", mpz_si_kronecker(s, ly), kronecker(slimb(s), y), "%s", cx(slimb(s), y).c_str());
  if (y.odd()) {
    if (y.sgn() > 0) {
      eqi("jacobi", mpz_jacobi(lx, ly), kronecker(x, y), "%s", cx(x, y).c_str());
      Z a = x % y;
      size_t n = lc(y), an = lc(a);
      { V va(a, an ? an : 1), vy(y, n), t(MPN_JACOBI_ITCH(n)); eqi("mpn_jacobi", mpn_jacobi(va, an, vy, n, t), kronecker(a, y), "%s", cx(a, y).c_str()); }
      { V va(a, n), vy(y, n), t(MPN_JACOBI_ITCH(n)); eqi("mpn_jacobi_n", mpn_jacobi_n(va, vy, n, t), kronecker(a, y), "%s", cx(a, y).c_str()); }
      ev("jacobi");
    } else if (x.sgn() >= 0) eqi("jacobi-negative", mpz_jacobi(lx, ly), kronecker(x, y), "%s", cx(x, y).c_str());
  }
  if (c.idx % 10 == 0) {
    Z p = big::nextprime(big::from_le(c.rng.bytes(c.rng.range(1, 40))) + Z(2));
    Z a = c.rng.chance(1, 8) ? p * Z((long)c.rng.below(5) - 2) : integer(c.rng, 6);
    L la(a), lp(p);
    eqi("legendre", mpz_legendre(la, lp), kronecker(a, p), "%s", cx(a, p).c_str());
    ev("legendre");
  }
  ev("symbols"); eval(key(x, key(y, 3)));
}

static Z rand_exp(Rng &r, size_t bits) {
  switch (r.below(7)) {
    case 0: return Z((ul)r.below(20));
    case 1: return pow2(r.below(bits)) - Z((ul)r.below(2));
    case 2: return big::rnd_bits(r, r.range(1, bits));
    case 3: {   // long runs of zeros between windows
      Z e(1);
      while (e.bits() < bits) e = (e << r.range(1, 70)) + Z((ul)r.below(32));
      return e;
    }
    default: return big::from_le(r.bytes(r.range(1, bits / 8)));
  }
}

VH_TEST(powm, 12000, 10) {
  size_t max = c.rng.chance(1, 10) ? 12 : 5;
  Z m = nat(c.rng, max);
  if (c.rng.chance(2, 3) && !m.odd()) m = m + Z(1);
  if (m.zero()) m = Z(7);
  if (c.rng.chance(1, 6)) m = pow2(c.rng.range(1, max * MP_LIMB_BITS)) - Z((ul)c.rng.below(3)) ;
  if (m <= Z(0)) m = Z(1);
  bool negm = c.rng.chance(1, 12);
  Z x = c.rng.chance(1, 2) ? big::rnd_edge(c.rng, m) : integer(c.rng, max + 2);
  if (c.rng.chance(1, 16)) x = m * Z((long)c.rng.below(5) - 2);
  Z y = rand_exp(c.rng, max * MP_LIMB_BITS);
  bool negy = c.rng.chance(1, 8) && m > Z(1) && big::invertible(x, m);
  Z b = negy ? big::inv(x, m) : x;
  Z want = big::powm(b % m, y, m);
  {
    int al = c.rng.below(4);
    L lx(x), ly(negy ? -y : y), lm(negm ? -m : m), lz(Z(3));
    mpz_powm(al == 1 ? lx.v : al == 2 ? ly.v : al == 3 ? lm.v : lz.v, lx, ly, lm);
    chk("powm", al == 1 ? lx : al == 2 ? ly : al == 3 ? lm : lz, want, cx(x, negy ? -y : y, negm ? -m : m));
  }
  {
    mp_limb_t w = one_limb(c.rng);
    L lx(x), lm(m), lz(Z(3));
    mpz_powm_ui(lz, lx, w, lm);
    chk("powm_ui", lz, big::powm(x % m, limb(w), m), cx(x, limb(w), m));
  }
  if (m.odd()) {
    L lx(x), ly(y), lm(m), lz(Z(3));
    mpz_powm_sec(lz, lx, ly, lm);
    chk("powm_sec", lz, big::powm(x % m, y, m), cx(x, y, m));
    Z a = x % m;
    size_t n = lc(m), an = lc(a), yn = lc(y), pad = c.rng.below(2);
    if (n && m > Z(1)) {
      { size_t xn = pad ? n : an; V va(a, xn ? xn : 1), vy(y, yn + 1), vm(m, n), z(n), t(MPN_SEC_POWM_ITCH(n));
        mpn_sec_powm(z, va, xn, vy, yn + pad, vm, n, t);
        if (z.get() != big::powm(a, y, m)) viol("mpn_sec_powm", "%s got %s", cx(a, y, m).c_str(), z.get().hex().c_str()); }
      ev("sec_powm");
    }
  }
  {
    Z a = x % m;
    size_t n = lc(m), an = lc(a), yn = lc(y);
    V va(a, an ? an : 1), vy(y, yn ? yn : 1), vm(m, n), z(n), t(MPN_POWM_ITCH(yn, n));
    mpn_powm(z, va, an, vy, yn, vm, n, t);
    if (z.get() != big::powm(a, y, m)) viol("mpn_powm", "%s got %s", cx(a, y, m).c_str(), z.get().hex().c_str());
  }
  ev("powm"); if (!m.odd()) ev("powm_even"); if (negy) ev("powm_negative");
  eval(key(x, key(y, key(m, 4))));
  if (c.idx < 3) sample(fmt("powm base %zu exponent %zu modulus %zu bits", x.bits(), y.bits(), m.bits()));
}

// primes of every residue class, large 2-adic parts included
static Z some_prime(Rng &r, size_t maxbytes) {
  switch (r.below(6)) {
    case 0: return big::nextprime(Z((ul)r.below(2000)));
    case 1: {
      size_t s = r.range(1, 60);
      Z k = big::from_le(r.bytes(r.range(1, maxbytes))) | Z(1);
      Z p = (k << s) + Z(1);
      while (!big::prime(p, 25)) p = p + pow2(s + 1);
      return p;
    }
    case 2: { static const char *k[] = {"0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", "0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0xffffffffffffffffffffffffffffffff000000000000000000000001", "0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "0x1fffffffffffffffffffffffffffffff", "0x1fffffffffffffff"}; Z z(k[r.below(6)]); return big::prime(z) ? z : Z(65537); }
    default: return big::nextprime(big::from_le(r.bytes(r.range(1, maxbytes))) + Z(2));
  }
}

// integer squares and powers
VH_TEST(perfect, 12000, 10) {
  Z b = c.rng.chance(1, 2) ? Z((ul)c.rng.below(12)) : nat(c.rng, 3), x;
  unsigned long k = b.bits() < 5 ? c.rng.below(200) : c.rng.below(600 / b.bits() + 1);
  __gmpz_pow_ui(&x.v, &b.v, k);
  if (c.rng.chance(1, 4)) x = x + Z((long)c.rng.below(3) - 1);
  else if (c.rng.chance(1, 8)) x = x * Z((ul)c.rng.range(2, 40));
  if (c.rng.chance(1, 4)) x = -x;
  Z t = x;
  L lx(x);
  eqi("perfect_power_p", !!mpz_perfect_power_p(lx), !!__gmpz_perfect_power_p(&t.v), "x=%s", x.hex().c_str());
  eqi("perfect_square_p", !!mpz_perfect_square_p(lx), x.sgn() >= 0 && __gmpz_perfect_square_p(&t.v), "x=%s", x.hex().c_str());
  ev("integer_powers");
  eval(key(x, 17));
}

VH_TEST(sqrtm, 6000, 8) {
  Z p = some_prime(c.rng, 40);
  while (p <= Z(2)) p = big::nextprime(p);
  Z a;
  switch (c.rng.below(4)) {
    case 0: a = big::rnd_edge(c.rng, p); break;
    case 1: a = integer(c.rng, 8); break;
    case 2: a = big::powm(big::rnd_edge(c.rng, p), pow2(c.rng.below(62)), p); break;
    default: { Z t = big::rnd_edge(c.rng, p); a = t * t % p; if (c.rng.chance(1, 4)) a = a - p; }
  }
  int want = kronecker(a % p, p) >= 0;
  int al = c.rng.below(3);
  L la(a), lp(p), lz(Z(3));
  int r = mpz_sqrtm(al == 1 ? la.v : al == 2 ? lp.v : lz.v, la, lp);
  Z z = (al == 1 ? la : al == 2 ? lp : lz).get();
  eqi("sqrtm-ret", r, want, "%s", cx(a, p).c_str());
  if (want && ((z * z - a) % p != Z(0) || z.sgn() < 0 || z >= p)) viol("sqrtm", "%s got %s", cx(a, p).c_str(), z.hex().c_str());
  if (!want && !z.zero()) viol("sqrtm-failed-value", "%s got %s", cx(a, p).c_str(), z.hex().c_str());
  ev(want ? "sqrtm_root" : "sqrtm_none");
  if (c.idx % 4 == 0) {
    Z q = some_prime(c.rng, 24);
    while (q <= Z(2) || q == p) q = big::nextprime(q);
    Z n = p * q, b = c.rng.chance(1, 2) ? big::rnd_below(c.rng, n) : big::powm(big::rnd_below(c.rng, n), Z(2), n);
    L lb(b), l1(p), l2(q), lr(Z(3));
    int rr = mpz_sqrtpq(lr, lb, l1, l2), ww = kronecker(b % p, p) >= 0 && kronecker(b % q, q) >= 0;
    eqi("sqrtpq-ret", rr, ww, "%s q=%s", cx(b, p).c_str(), q.hex().c_str());
    Z g = lr.get();
    if (ww && (g * g - b) % n != Z(0)) viol("sqrtpq", "%s q=%s got %s", cx(b, p).c_str(), q.hex().c_str(), g.hex().c_str());
    ev("sqrtpq");
  }
  eval(key(a, key(p, 5)));
}

VH_TEST(sequences, 12000, 6) {
  Rng &r = c.rng;
  L z(Z(3)), z1(Z(4));
  Z w, w1;
  switch (c.idx % 8) {
    case 0: {
      Z y = r.chance(1, 3) ? pow2(r.below(70)) : r.chance(1, 2) ? Z((long)r.below(40) - 20) : integer(r, 3);
      if (r.chance(1, 4)) y = -y;
      if (y.zero()) y = Z(3);
      Z x = big::pow(y, r.below(y.bits() > 20 ? 6 : 30)) * integer(r, 4);
      if (r.chance(1, 10)) x = Z(0);
      ul k = 0; w = x;
      if (!x.zero() && big::abs(y) != Z(1)) while ((w % y).zero()) { Z q; __gmpz_divexact(&q.v, &w.v, &y.v); w = q; k++; }
      L lx(x), ly(y);
      int al = r.below(4);
      ul g = mpz_remove(al == 3 ? nullptr : al == 1 ? lx.v : al == 2 ? ly.v : z.v, lx, ly);
      eqi("remove-count", g, k, "%s", cx(x, y).c_str());
      if (al != 3) chk("remove", al == 1 ? lx : al == 2 ? ly : z, w, cx(x, y));
      break;
    }
    case 1: { ul n = r.below(r.chance(1, 5) ? 600 : 70); mpz_fac_ui(z, n); __gmpz_fac_ui(&w.v, n); chk("fac_ui", z, w, fmt("n=%lu", n)); mpz_2fac_ui(z, n); __gmpz_2fac_ui(&w.v, n); chk("2fac_ui", z, w, fmt("n=%lu", n)); break; }
    case 2: { ul n = r.below(300), m = r.range(1, 20); mpz_mfac_uiui(z, n, m); __gmpz_mfac_uiui(&w.v, n, m); chk("mfac_uiui", z, w, fmt("n=%lu m=%lu", n, m)); break; }
    case 3: { ul n = r.below(r.chance(1, 10) ? 5000 : 400); mpz_primorial_ui(z, n); __gmpz_primorial_ui(&w.v, n); chk("primorial_ui", z, w, fmt("n=%lu", n)); break; }
    case 4: { Z n = integer(r, 3); ul k = r.below(r.chance(1, 5) ? 200 : 12); if (r.chance(1, 2)) n = Z((long)r.below(300) - 150); L ln(n); mpz_bin_ui(z, ln, k); __gmpz_bin_ui(&w.v, &n.v, k); chk("bin_ui", z, w, fmt("n=%s k=%lu", n.hex().c_str(), k)); break; }
    case 5: { mp_limb_t n = r.chance(1, 2) ? one_limb(r) : r.below(300); ul k = r.chance(1, 4) ? (n > 30 ? n - r.below(30) : r.below(40)) : r.below(n < 300 ? 320 : 30); Z zn = limb(n);
      mpz_bin_uiui(z, n, k); Z kk = Z(k) > zn ? Z(0) : zn - Z(k) < Z(k) ? zn - Z(k) : Z(k); if (Z(k) > zn) w = Z(0); else __gmpz_bin_ui(&w.v, &zn.v, kk.ui()); chk("bin_uiui", z, w, fmt("n=%s k=%lu", zn.hex().c_str(), k));
      mp_long_t s = r.chance(1, 2) ? one_long(r) : (mp_long_t)r.below(200) - 100; ul k2 = r.below(25); Z zs = slimb(s); mpz_bin_siui(z, s, k2); __gmpz_bin_ui(&w.v, &zs.v, k2); chk("bin_siui", z, w, fmt("n=%s k=%lu", zs.hex().c_str(), k2)); break; }
    case 6: { ul n = r.below(r.chance(1, 5) ? 4000 : 100); __gmpz_fib2_ui(&w.v, &w1.v, n); mpz_fib2_ui(z, z1, n); chk("fib2_ui", z, w, fmt("n=%lu", n)); chk("fib2_ui-second", z1, w1, fmt("n=%lu", n)); mpz_fib_ui(z, n); chk("fib_ui", z, w, fmt("n=%lu", n)); break; }
    case 7: { ul n = r.below(r.chance(1, 5) ? 4000 : 100); __gmpz_lucnum2_ui(&w.v, &w1.v, n); mpz_lucnum2_ui(z, z1, n); chk("lucnum2_ui", z, w, fmt("n=%lu", n)); chk("lucnum2_ui-second", z1, w1, fmt("n=%lu", n)); mpz_lucnum_ui(z, n); chk("lucnum_ui", z, w, fmt("n=%lu", n)); break; }
  }
  ev("sequences"); eval(mix64(c.idx * 77 + c.rng.next()));
}

// composites that fool weaker tests: Carmichael numbers, strong pseudoprimes to many bases, Lucas pseudoprimes, squares
static const char *hard[] = {"561", "1105", "1729", "2047", "3277", "4033", "8321", "1373653", "25326001", "3215031751", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051",
  "318665857834031151167461", "3317044064679887385961981", "5459", "5777", "10877", "16109", "18971", "22499", "24569", "25199", "40309", "58519", "75077", "97439", "989", "3239", "5777", "10469",
  "6601", "8911", "41041", "825265", "321197185", "5394826801", "232250619601", "9746347772161", "1436697831295441", "60977817398996785", "7156857700403137441", "1791562810662585767521", "87674969936234821377601",
  "1009", "65537"};
static Z dec(const char *s) { Z z; if (__gmpz_set_str(&z.v, s, 10)) abort(); return z; }

VH_TEST(primality, 6000, 8) {
  Rng &r = c.rng;
  Z n;
  int kind = c.idx % 9;
  switch (kind) {
    case 0: n = Z((long)(c.idx / 9 % 3000)) - Z(5); break;
    case 1: n = dec(hard[r.below(sizeof(hard) / sizeof(hard[0]))]); break;
    case 2: n = some_prime(r, 40); break;
    case 3: { Z p = some_prime(r, 16); n = p * p; break; }
    case 4: { Z p = some_prime(r, 16), k = Z((ul)r.range(2, 6)); Z q = k * (p - Z(1)) + Z(1); int t = 0; while (!big::prime(q, 20) && t++ < 200) { p = big::nextprime(p); q = k * (p - Z(1)) + Z(1); } n = p * q; break; }
    case 5: { // Chernick: (6k+1)(12k+1)(18k+1)
      Z k = big::from_le(r.bytes(r.range(1, 8)));
      for (int t = 0; t < 400; t++, k = k + Z(1)) if (big::prime(Z(6) * k + Z(1), 2) && big::prime(Z(12) * k + Z(1), 2) && big::prime(Z(18) * k + Z(1), 2)) break;
      n = (Z(6) * k + Z(1)) * (Z(12) * k + Z(1)) * (Z(18) * k + Z(1)); break; }
    case 6: n = some_prime(r, 20) * some_prime(r, 20); break;
    case 7: n = nat(r, 6) | Z(1); break;
    default: n = pow2(r.range(2, 130)) + Z((long)r.below(20) - 10);
  }
  bool want = n > Z(1) && big::prime(n, 40);
  L ln(n);
  Rng src(r.next());
  int rounds = r.below(3) == 0 ? 0 : r.range(1, 20);
  eqi("probab_prime_p", !!mpz_probab_prime_p(ln, rounds, det_rng, &src), want, "n=%s rounds=%d", n.str(10).c_str(), rounds);
  if (n.sgn() > 0) {
    int mr = mpz_mr_prime_p(ln, 40, r.below(2), det_rng, &src);
    eqi("mr_prime_p", !!mr, want, "n=%s", n.str(10).c_str());
  }
  if (want && n > Z(2)) eqi("lucas_prime_p-rejects-prime", !!mpz_lucas_prime_p(ln, 50), 1, "n=%s", n.str(10).c_str());
  chk("primality-operand-changed", ln, n, "");
  ev(want ? "prime" : "composite"); ev(fmt("kind%d", kind).c_str());
  eval(key(n, 6));
  if (c.idx < 9) sample(fmt("primality of %s...: %d", n.str(10).substr(0, 30).c_str(), want));
}

// The extra strong Lucas test, from its definition: P = 3, 4, ... with (P^2 - 4 | n) = -1, n + 1 = s 2^r;
// accept when U_s = 0 and V_s = +-2, or V_(s 2^t) = 0 for some t < r - 1.
static bool lucas_ref(const Z &n, ul limit) {
  if (n < Z(2)) return false;
  if (!n.odd()) return n == Z(2);
  if (n <= Z(7)) return true;
  ul p = 3;
  for (;; p++) {
    if (p > limit && limit) return false;
    int j = kronecker(Z(p * p - 4) % n, n);
    if (j < 0) break;
    if (j == 0) return n == Z(p + 2);
    if (p == 60) return false;               // only squares get here
  }
  Z s = n + Z(1);
  ul r = 0;
  while (!s.odd()) { s = s >> 1; r++; }
  // the matrix ((P, -1), (1, 0))^s holds U_(s+1), U_s
  Z m[4] = {Z(p), n - Z(1), Z(1), Z(0)}, a[4] = {Z(1), Z(0), Z(0), Z(1)};
  auto mul = [&](Z *x, const Z *y) { Z t[4] = {(x[0] * y[0] + x[1] * y[2]) % n, (x[0] * y[1] + x[1] * y[3]) % n, (x[2] * y[0] + x[3] * y[2]) % n, (x[2] * y[1] + x[3] * y[3]) % n}; for (int i = 0; i < 4; i++) x[i] = t[i]; };
  for (ul i = s.bits(); i-- > 0;) { Z t[4] = {a[0], a[1], a[2], a[3]}; mul(a, t); if (s.bit(i)) mul(a, m); }
  Z u = a[2], v = (a[0] + a[0] - Z(p) * u) % n;          // V_s = 2 U_(s+1) - P U_s
  if (u.zero() && (v == Z(2) || v == n - Z(2))) return true;
  for (ul t = 0; t + 1 < r; t++) { if (v.zero()) return true; v = (v * v - Z(2)) % n; }
  return false;
}
static bool strong2_ref(const Z &n) {
  if (n < Z(2)) return false;
  if (!n.odd()) return n == Z(2);
  if (n <= Z(7)) return true;
  Z q = n - Z(1), y;
  ul k = 0;
  while (!q.odd()) { q = q >> 1; k++; }
  y = big::powm(Z(2), q, n);
  if (y == Z(1)) return true;
  for (ul j = 0; j < k; j++) { if (y == n - Z(1)) return true; y = y * y % n; }
  return false;
}
VH_TEST(probable, 12000, 8) {
  Rng &r = c.rng;
  Z n;
  // composites that pass one of the two halves of the combined test
  static const long pseudo[] = {989, 3239, 5777, 10877, 27971, 29681, 30739, 31631, 39059, 72389, 73919, 75077, 100127, 113573, 125249, 137549, 137801, 153931, 155819, 161027,
                                2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751};
  switch (c.idx % 5) {
    case 0: n = Z((long)(c.idx / 5 % 12000)); break;
    case 1: n = Z(pseudo[r.below(sizeof(pseudo) / sizeof(*pseudo))]); break;
    case 2: n = Z((long)r.below(400000)) | Z(1); break;
    case 3: n = r.chance(1, 2) ? some_prime(r, 12) : nat(r, 4) | Z(1); break;
    default: { Z p = some_prime(r, 6); n = r.chance(1, 2) ? p * p : p * big::nextprime(p); }
  }
  ul limit = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 50 : r.below(12);
  L ln(n);
  eqi("lucas", !!mpz_lucas_prime_p(ln, limit), lucas_ref(n, limit), "n=%s limit=%lu", n.str(10).c_str(), limit);
  Rng src(r.next());
  eqi("mr-base-2", !!mpz_mr_prime_p(ln, 1, 1, det_rng, &src), strong2_ref(n), "n=%s", n.str(10).c_str());
  bool prime = n > Z(1) && big::prime(n, 30);
  eqi("baillie-psw", !!mpz_probab_prime_p(ln, 0, det_rng, &src), prime, "n=%s", n.str(10).c_str());
  if (!prime && n > Z(2) && n.odd()) { if (lucas_ref(n, 0)) ev("lucas_pseudoprime"); if (strong2_ref(n)) ev("strong_pseudoprime"); }
  ev("probable");
  eval(key(n, limit + 8));
}

VH_TEST(findprime, 800, 8) {
  Rng &r = c.rng;
  Rng src(r.next());
  switch (c.idx % 3) {
    case 0: {
      Z x = r.chance(1, 2) ? Z((ul)r.below(3000)) : nat(r, 3);
      L lx(x), lz(Z(1));
      bool al = r.below(2);
      mpz_nextprime(al ? lx.v : lz.v, lx, det_rng, &src);
      chk("nextprime", al ? lx : lz, big::nextprime(x), "x=" + x.hex());
      ev("nextprime"); eval(key(x, 7)); break;
    }
    case 1: {
      Z x = (r.chance(1, 2) ? Z((ul)r.below(3000)) : nat(r, 3)) + Z(3);
      ul m = r.below(200);
      Z p = big::prime(x, 30) ? x : big::nextprime(x);
      L lx(x), lz(Z(1));
      int ok = mpz_findprime(lz, lx, m, det_rng, &src);
      eqi("findprime-ret", ok, p <= x + Z(m), "x=%s m=%lu", x.hex().c_str(), m);
      if (ok) chk("findprime", lz, p, fmt("x=%s m=%lu", x.hex().c_str(), m));
      ev("findprime"); eval(key(x, m)); break;
    }
    default: {
      size_t bits = r.range(2, 200);
      L lz(Z(1));
      mpz_randprime(lz, bits, det_rng, &src);
      Z g = lz.get();
      if (g.bits() != bits || !big::prime(g, 40)) viol("randprime", "bits=%zu got %s", bits, g.hex().c_str());
      ev("randprime"); eval(key(g, 8));
    }
  }
}
