// Big-integer part of the workload
#include "api.hpp"
#include <torsion/mpi.h>
using namespace api;

struct Num {
  mpz_t v;
  Num() { mpz_init(v); }
  explicit Num(const Bytes &b, bool neg = false) { mpz_init(v); mpz_import(v, b.data(), b.size(), 1); if (neg) mpz_neg(v, v); }
  Num(const Num &) = delete;
  ~Num() { mpz_clear(v); }
  operator mpz_ptr() { return v; }
  void to(T &t, const char *tag) { size_t n = mpz_bytelen(v); O o(n); mpz_export(o, v, n, 1); t.num("sign", mpz_sgn(v) + 1); o.to(t, tag); t.calls++; t.ok++; }
};
static Bytes numb(Rng &r, size_t max) { return r.special(r.chance(1, 12) ? r.below(max * 6) : r.below(max)); }
static void src(void *out, size_t n, void *arg) { ((Rng *)arg)->fill(out, n); }

API_TEST(mpz, 8000, 8, true) {
  Rng &r = t.r;
  Num x(numb(r, 80), r.chance(1, 3)), y(numb(r, 80), r.chance(1, 3)), d(numb(r, 50), r.chance(1, 3)), z, w;
  if (mpz_sgn(d) == 0) mpz_set_ui(d, 7);
  unsigned long u = r.chance(1, 2) ? (uint32_t)r.next() : r.below(10);
  long s = (int32_t)r.next();
  if (!u) u = 1;
  if (!s) s = -1;
  unsigned sh = r.below(300);
#define B(f) f(z, x, y), z.to(t, #f)
  switch (r.below(8)) {
    case 0: B(mpz_add); B(mpz_sub); B(mpz_mul); B(mpz_and); B(mpz_ior); B(mpz_xor); B(mpz_gcd); B(mpz_lcm); mpz_set(z, d); B(mpz_addmul); B(mpz_submul); break;
    case 1: mpz_quorem(z, w, x, d); z.to(t, "q"); w.to(t, "r"); mpz_divmod(z, w, x, d); z.to(t, "q"); w.to(t, "r"); mpz_divround(z, x, d); z.to(t, "divround"); mpz_mul(w, x, d); mpz_divexact(z, w, d); z.to(t, "divexact"); mpz_gcdext(z, w, y, x, d); z.to(t, "g"); w.to(t, "s"); y.to(t, "t"); t.num("div", mpz_divisible_p(x, d) != 0); t.num("cong", mpz_congruent_p(x, y, d) != 0); break;
    case 2: mpz_add_ui(z, x, u); z.to(t, "add_ui"); mpz_sub_ui(z, x, u); z.to(t, "sub_ui"); mpz_mul_ui(z, x, u); z.to(t, "mul_ui"); mpz_ui_sub(z, u, x); z.to(t, "ui_sub"); mpz_add_si(z, x, s); z.to(t, "add_si"); mpz_mul_si(z, x, s); z.to(t, "mul_si"); mpz_si_sub(z, s, x); z.to(t, "si_sub");
      t.num("quo_ui", mpz_quo_ui(z, x, u)); z.to(t, "q"); t.num("div_ui", mpz_div_ui(z, x, u)); z.to(t, "q"); t.num("rem_ui", mpz_rem_ui(x, u)); t.num("mod_ui", mpz_mod_ui(x, u)); t.num("quo_si", mpz_quo_si(z, x, s)); z.to(t, "q"); t.num("mod_si", mpz_mod_si(x, s)); mpz_divround_ui(z, x, u); z.to(t, "dr");
      t.num("and_ui", mpz_and_ui(x, u)); mpz_ior_ui(z, x, u); z.to(t, "ior"); mpz_xor_ui(z, x, u); z.to(t, "xor"); mpz_and_si(z, x, s); z.to(t, "and_si"); mpz_ior_si(z, x, s); z.to(t, "ior_si"); mpz_xor_si(z, x, s); z.to(t, "xor_si"); break;
    case 3: mpz_mul_2exp(z, x, sh); z.to(t, "mul2"); mpz_quo_2exp(z, x, sh); z.to(t, "quo2"); mpz_rem_2exp(z, x, sh); z.to(t, "rem2"); mpz_div_2exp(z, x, sh); z.to(t, "div2"); mpz_mod_2exp(z, x, sh); z.to(t, "mod2"); mpz_set(z, x); mpz_setbit(z, sh); z.to(t, "setbit"); mpz_clrbit(z, r.below(300)); z.to(t, "clrbit"); mpz_combit(z, r.below(300)); z.to(t, "combit"); mpz_com(z, x); z.to(t, "com"); t.num("tst", mpz_tstbit(x, sh)); if (mpz_sgn(x) >= 0) { t.num("pop", mpz_popcount(x)); t.num("scan1", mpz_sgn(x) ? mpz_scan1(x, 0) : 0); } t.num("ctz", mpz_sgn(x) ? mpz_ctz(x) : 0); t.num("bits", mpz_bitlen(x)); break;
    case 4: { mpz_abs(y, x); mpz_sqrtrem(z, w, y); z.to(t, "sqrt"); w.to(t, "sqrtrem"); t.num("square", mpz_perfect_square_p(y) != 0); unsigned k = 1 + r.below(6); mpz_rootrem(z, w, y, k); z.to(t, "root"); w.to(t, "rootrem"); t.num("power", mpz_perfect_power_p(y) != 0); mpz_pow_ui(z, d, r.below(6)); z.to(t, "pow"); mpz_mulshift(z, x, d, 1 + r.below(200)); z.to(t, "mulshift"); t.num("remove", mpz_cmpabs_ui(d, 1) > 0 && mpz_sgn(x) ? mpz_remove(z, x, d) : 0); break; }
    case 5: { mpz_abs(d, d); if (mpz_even_p(d)) mpz_add_ui(d, d, 1); if (mpz_cmp_ui(d, 1) == 0) mpz_set_ui(d, 9); mpz_mod(x, x, d); mpz_abs(y, y); mpz_powm(z, x, y, d); z.to(t, "powm"); mpz_powm_sec(z, x, y, d); z.to(t, "powm_sec"); mpz_powm_ui(z, x, u, d); z.to(t, "powm_ui"); if (t.res("invert", mpz_invert(z, x, d))) z.to(t, "inv"); t.num("jacobi", mpz_jacobi(x, d) + 1); t.num("kron", mpz_kronecker(y, d) + 1); t.num("kron_ui", mpz_kronecker_ui(y, u) + 1); break; }
    case 6: { int base = 2 + r.below(61); if (base > 36 && r.chance(1, 2)) base = 10; char *st = mpz_get_str(x, base); t.bytes("str", st, strlen(st)); Bytes b(st, st + strlen(st)); free(st); if (r.chance(1, 2)) b = mutate(r, b, true); for (auto &c : b) if (!c) c = '!'; b.push_back(0); I S(b); if (t.res("set_str", mpz_set_str(z, S.s(), base))) z.to(t, "parsed"); t.num("size", mpz_sizeinbase(x, base)); t.num("cmp", mpz_cmp(x, y) + 1); t.num("cmpabs", mpz_cmpabs(x, y) + 1); t.num("cmp_ui", mpz_cmp_ui(x, u) + 1); t.num("cmp_si", mpz_cmp_si(x, s) + 1); size_t n = r.below(40); if (n * 8 >= mpz_bitlen(x)) { O o(n); mpz_export(o, x, n, r.chance(1, 2) ? 1 : -1); o.to(t, "export"); } break; }
    default: { mpz_fac_ui(z, r.below(80)); z.to(t, "fac"); mpz_2fac_ui(z, r.below(80)); z.to(t, "2fac"); mpz_mfac_uiui(z, r.below(80), 1 + r.below(6)); z.to(t, "mfac"); mpz_primorial_ui(z, r.below(200)); z.to(t, "primorial"); mpz_bin_uiui(z, r.below(200), r.below(60)); z.to(t, "bin"); mpz_bin_ui(z, x, r.below(12)); z.to(t, "bin_ui"); mpz_fib2_ui(z, w, r.below(600)); z.to(t, "f"); w.to(t, "f1"); mpz_lucnum2_ui(z, w, r.below(600)); z.to(t, "l"); w.to(t, "l1"); break; }
  }
}
API_TEST(primes, 250, 8, true) {
  Rng &r = t.r;
  Rng g(r.next());
  Num x(numb(r, 40)), z;
  if (r.chance(1, 2)) mpz_setbit(x, 0);
  t.res("prime", mpz_probab_prime_p(x, 10, src, &g));
  if (mpz_bitlen(x) < 200) { mpz_nextprime(z, x, src, &g); z.to(t, "next"); }
  unsigned bits = 2 + r.below(120);
  mpz_randprime(z, bits, src, &g);
  // which prime comes out depends on the limb size
  t.num("bits", mpz_bitlen(z));
  Num p;
  mpz_set_str(p, "57896044618658097711785492504343953926634992332820282019728792003956564819949", 10);
  Num s(numb(r, 32)), q;
  mpz_mod(s, s, p);
  if (t.res("sqrtm", mpz_sqrtm(q, s, p))) { mpz_sqr(q, q); mpz_mod(q, q, p); q.to(t, "square"); }
}
// limb vectors of 64-bit words, whatever the limb size is
API_TEST(mpn, 6000, 8, true) {
  Rng &r = t.r;
  const int per = 8 / sizeof(mp_limb_t);
  size_t words = 1 + r.below(r.chance(1, 10) ? 40 : 9), n = words * per;
  struct V {
    std::vector<uint8_t> keep;
    Buf b;
    size_t n;
    V(size_t n_) : b(n_ * sizeof(mp_limb_t), 0xb1), n(n_) {
#ifdef API_MSAN
      __msan_poison(b.p(), b.size());
#endif
    }
    V(const Bytes &x) : b(x.size()), n(x.size() / sizeof(mp_limb_t)) { mpn_import((mp_limb_t *)b.p(), n, x.data(), x.size(), -1); }
    operator mp_limb_t *() { return (mp_limb_t *)b.p(); }
    void to(T &t, const char *tag) { O o(b.size()); mpn_export(o, b.size(), (mp_limb_t *)b.p(), n, -1); o.to(t, tag); t.calls++; t.ok++; }
  };
  V x(r.special(words * 8)), y(r.special(words * 8)), z(n);
  uint32_t u = (uint32_t)r.next() | 1;
  switch (r.below(5)) {
    case 0:
      t.num("c", mpn_add_n(z, x, y, n)); z.to(t, "add"); t.num("c", mpn_sub_n(z, x, y, n)); z.to(t, "sub"); t.num("c", mpn_add_1(z, x, n, u)); z.to(t, "add_1"); t.num("c", mpn_sub_1(z, x, n, u)); z.to(t, "sub_1"); t.num("c", mpn_neg(z, x, n)); z.to(t, "neg"); mpn_com(z, x, n); z.to(t, "com");
      t.num("c", mpn_sec_add(z, x, n, y, n)); z.to(t, "sec_add"); t.num("c", mpn_sec_sub(z, x, n, y, n)); z.to(t, "sec_sub"); t.num("cmp", mpn_cmp(x, y, n) + 1); t.num("sec_cmp", mpn_sec_cmp(x, y, n) + 1); t.num("lt", mpn_sec_lt_p(x, y, n)); t.num("gte", mpn_sec_gte_p(x, y, n)); t.num("eq", mpn_sec_equal_p(x, y, n)); t.num("z", mpn_sec_zero_p(x, n)); break;
    case 1: {
      V p(2 * n), s(MPN_SQR_ITCH(n)), m(2 * n);
      mpn_mul_n(p, x, y, n); p.to(t, "mul"); mpn_sqr(p, x, n, s); p.to(t, "sqr"); mpn_mul(m, x, n, y, n); m.to(t, "mul2");
      t.num("c", mpn_mul_1(z, x, n, u)); z.to(t, "mul_1"); t.num("c", mpn_addmul_1(z, y, n, u)); z.to(t, "addmul"); t.num("c", mpn_submul_1(z, x, n, u)); z.to(t, "submul");
      V w(MPN_MULSHIFT_ITCH(n)); t.num("c", mpn_mulshift(z, x, y, n, words * 64 + r.below(words * 64), w)); z.to(t, "mulshift"); break;
    }
    case 2: {
      t.num("rem", mpn_divmod_1(z, x, n, u)); z.to(t, "div_1"); t.num("mod_1", mpn_mod_1(x, n, u));
      mp_size_t dn = n; mp_limb_t *yp = y; while (dn && !yp[dn - 1]) dn--;
      if (dn) { V q(n - dn + 1), rr(dn); mpn_divmod(q, rr, x, n, y, dn); V qq(n + per), r2(n); memset(qq.b.p(), 0, qq.b.size()); memset(r2.b.p(), 0, r2.b.size()); mpn_copyi(qq, q, n - dn + 1); mpn_copyi(r2, rr, dn); qq.n = n; V fix(n); mpn_copyi(fix, qq, n); fix.to(t, "q"); r2.to(t, "r"); }
      V sq((n + 1) / 2), sr(n); if ((size_t)mpn_bitlen(x, n) > words * 64 - 32) { mp_size_t rn = mpn_sqrtrem(sq, sr, x, n); V s2(n), r3(n); memset(s2.b.p(), 0, s2.b.size()); memset(r3.b.p(), 0, r3.b.size()); mpn_copyi(s2, sq, (n + 1) / 2); mpn_copyi(r3, sr, rn); s2.to(t, "sqrt"); r3.to(t, "sqrtrem"); }
      break;
    }
    case 3: {
      mpn_and_n(z, x, y, n); z.to(t, "and"); mpn_ior_n(z, x, y, n); z.to(t, "ior"); mpn_xor_n(z, x, y, n); z.to(t, "xor"); mpn_nand_n(z, x, y, n); z.to(t, "nand"); mpn_andn_n(z, x, y, n); z.to(t, "andn");
      unsigned sh = 1 + r.below(31);
      V lo(n); mpn_rshift(lo, x, n, sh); lo.to(t, "rshift"); mpn_lshift(lo, x, n, sh); lo.to(t, "lshift");
      t.num("pop", mpn_popcount(x, n)); t.num("ham", mpn_hamdist(x, y, n)); t.num("bits", mpn_bitlen(x, n)); t.num("bytes", mpn_bytelen(x, n)); t.num("bit", mpn_getbit(x, n, r.below(words * 64))); t.num("bitsw", mpn_getbits(x, n, r.below(words * 64), 1 + r.below(5)));
      mp_limb_t cnd = r.below(2); mpn_cnd_select(z, x, y, n, cnd); z.to(t, "select"); mpn_cnd_swap(x, y, n, cnd); x.to(t, "swap"); t.num("c", mpn_cnd_add_n(z, x, y, n, cnd)); z.to(t, "cadd"); t.num("c", mpn_cnd_sub_n(z, x, y, n, cnd)); z.to(t, "csub"); mpn_cnd_neg(z, x, n, cnd); z.to(t, "cneg"); break;
    }
    default: {
      // modular work with an odd modulus with the top limb set
      mp_limb_t *yp = y; yp[0] |= 1; yp[n - 1] |= (mp_limb_t)1 << (sizeof(mp_limb_t) * 8 - 1);
      mp_limb_t k; V rr(n), ms(MPN_MONT_ITCH(n)), mm(MPN_MONTMUL_ITCH(n));
      V a(n), b(n); mpn_mod(a, x, n, y, n); V x2(r.special(words * 8)); mpn_mod(b, x2, n, y, n);
      mpn_mont(&k, rr, y, n, ms);
      rr.to(t, "mont");
      mpn_montmul(z, a, b, y, n, k, mm); z.to(t, "montmul"); V z2(n); mpn_sec_montmul(z2, a, b, y, n, k, mm); z2.to(t, "sec_montmul");
      V iv(MPN_INVERT_ITCH(n)), inv(n); if (t.res("invert", mpn_invert_n(inv, a, y, n, iv))) inv.to(t, "inv");
      V js(MPN_JACOBI_ITCH(n)); t.num("jacobi", mpn_jacobi_n(a, y, n, js) + 1);
      if (words < 6) { V e(r.special(8)), ps(MPN_POWM_ITCH(per, n)), po(n); mpn_powm(po, a, n, e, per, y, n, ps); po.to(t, "powm"); V ss(MPN_SEC_POWM_ITCH(n)), so(n); mpn_sec_powm(so, a, n, e, per, y, n, ss); so.to(t, "sec_powm"); }
      break;
    }
  }
}
