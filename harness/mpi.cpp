// C10: big-integer arithmetic against GMP
#include "mpi_util.hpp"
#include <memory>

static void chk(const char *name, const char *what, L &got, const Z &want, const std::string &ctx) {
  Z g = got.get(fmt("%s-not-normalised", name).c_str());
  if (g != want) viol(fmt("%s%s", name, what).c_str(), "%s got %s want %s", ctx.c_str(), g.hex().c_str(), want.hex().c_str());
}
static std::string ctx(const Z &x, const Z &y, int al) { return fmt("alias=%d x=%s y=%s", al, x.hex().c_str(), y.hex().c_str()); }
static Z tdq(const Z &a, const Z &b) { Z r; __gmpz_tdiv_q(&r.v, &a.v, &b.v); return r; }
static Z tdr(const Z &a, const Z &b) { Z r; __gmpz_tdiv_r(&r.v, &a.v, &b.v); return r; }
// euclidean: 0 <= r < |d|
static Z edr(const Z &a, const Z &b) { return a % b; }
static Z edq(const Z &a, const Z &b) { Z t = a - edr(a, b); Z r; __gmpz_divexact(&r.v, &t.v, &b.v); return r; }
// round half away from zero
static Z rnd(const Z &a, const Z &b) {
  Z q = tdq(big::abs(a), big::abs(b)), r = tdr(big::abs(a), big::abs(b));
  if (r + r >= big::abs(b)) q = q + Z(1);
  return (a.sgn() < 0) != (b.sgn() < 0) ? -q : q;
}
static Z shq(const Z &a, ul n) { Z r; __gmpz_tdiv_q_2exp(&r.v, &a.v, n); return r; }
static Z shr(const Z &a, ul n) { Z r; __gmpz_tdiv_r_2exp(&r.v, &a.v, n); return r; }

struct B { const char *name; void (*f)(mpz_ptr, mpz_srcptr, mpz_srcptr); Z (*m)(const Z &, const Z &); bool div; };
static const B bin[] = {
  {"add", mpz_add, [](const Z &a, const Z &b) { return a + b; }, false},
  {"sub", mpz_sub, [](const Z &a, const Z &b) { return a - b; }, false},
  {"mul", mpz_mul, [](const Z &a, const Z &b) { return a * b; }, false},
  {"and", mpz_and, [](const Z &a, const Z &b) { return a & b; }, false},
  {"ior", mpz_ior, [](const Z &a, const Z &b) { return a | b; }, false},
  {"xor", mpz_xor, [](const Z &a, const Z &b) { return a ^ b; }, false},
  {"quo", mpz_quo, tdq, true}, {"rem", mpz_rem, tdr, true},
  {"div", mpz_div, edq, true}, {"mod", mpz_mod, edr, true},
  {"divround", mpz_divround, rnd, true},
  {"set", [](mpz_ptr z, mpz_srcptr x, mpz_srcptr) { mpz_set(z, x); }, [](const Z &a, const Z &) { return a; }, false},
  {"neg", [](mpz_ptr z, mpz_srcptr x, mpz_srcptr) { mpz_neg(z, x); }, [](const Z &a, const Z &) { return -a; }, false},
  {"abs", [](mpz_ptr z, mpz_srcptr x, mpz_srcptr) { mpz_abs(z, x); }, [](const Z &a, const Z &) { return big::abs(a); }, false},
  {"com", [](mpz_ptr z, mpz_srcptr x, mpz_srcptr) { mpz_com(z, x); }, [](const Z &a, const Z &) { return -a - Z(1); }, false},
  {"sqr", [](mpz_ptr z, mpz_srcptr x, mpz_srcptr) { mpz_sqr(z, x); }, [](const Z &a, const Z &) { return a * a; }, false}};
static const size_t NBIN = sizeof(bin) / sizeof(bin[0]);

static Z other(Rng &r, const Z &x, size_t max) {
  switch (r.below(8)) {
    case 0: return x;
    case 1: return -x;
    case 2: return x + Z((long)r.below(5) - 2);
    case 3: return -x + Z((long)r.below(5) - 2);
    case 4: return x.bits() ? (x >> r.below(x.bits())) : Z(1);
    default: return integer(r, max);
  }
}

VH_TEST(binary, 16 * 8000, 8) {
  const B &op = bin[c.idx % NBIN];
  size_t max = c.rng.chance(1, 30) ? 280 : 40;
  Z x, y;
  if (op.div && c.rng.chance(2, 3)) { hard_div(c.rng, x, y, max); if (c.rng.chance(1, 3)) x = -x; if (c.rng.chance(1, 3)) y = -y; }
  else { x = integer(c.rng, max); y = other(c.rng, x, max); }
  if (op.div && y.zero()) y = Z(1);
  int al = c.rng.below(5);
  if (al >= 3) y = x;
  if (op.div && y.zero()) { x = y = Z(7); }
  L lx(x), ly(y), lz(integer(c.rng, 5));
  switch (al) {
    case 0: op.f(lz, lx, ly); chk(op.name, "", lz, op.m(x, y), ctx(x, y, al)); chk(op.name, "-operand-changed", lx, x, ""); chk(op.name, "-operand-changed", ly, y, ""); break;
    case 1: op.f(lx, lx, ly); chk(op.name, "", lx, op.m(x, y), ctx(x, y, al)); chk(op.name, "-operand-changed", ly, y, ""); break;
    case 2: op.f(ly, lx, ly); chk(op.name, "", ly, op.m(x, y), ctx(x, y, al)); chk(op.name, "-operand-changed", lx, x, ""); break;
    case 3: op.f(lz, lx, lx); chk(op.name, "", lz, op.m(x, y), ctx(x, y, al)); chk(op.name, "-operand-changed", lx, x, ""); break;
    case 4: op.f(lx, lx, lx); chk(op.name, "", lx, op.m(x, y), ctx(x, y, al)); break;
  }
  ev("binary"); ev(fmt("alias%d", al).c_str());
  eval(key(x, key(y, c.idx % NBIN)));
  if (c.idx < 16) sample(fmt("%s alias %d on %zu/%zu bits", op.name, al, x.bits(), y.bits()));
}

// two results, every legal aliasing of q and r with n and d
VH_TEST(quorem, 40000, 8) {
  bool euc = c.rng.below(2);
  Z n, d;
  hard_div(c.rng, n, d, c.rng.chance(1, 20) ? 280 : 30);
  if (c.rng.chance(1, 3)) n = integer(c.rng);
  if (c.rng.chance(1, 2)) n = -n;
  if (c.rng.chance(1, 2)) d = -d;
  L ln(n), ld(d), q0(integer(c.rng, 3)), r0(integer(c.rng, 3));
  int a = c.rng.below(3), b = c.rng.below(3);
  if (a && a == b) b = 0;
  L &q = a == 1 ? ln : a == 2 ? ld : q0, &r = b == 1 ? ln : b == 2 ? ld : r0;
  (euc ? mpz_divmod : mpz_quorem)(q, r, ln, ld);
  const char *nm = euc ? "divmod" : "quorem";
  std::string cx = fmt("alias=%d,%d n=%s d=%s", a, b, n.hex().c_str(), d.hex().c_str());
  chk(nm, "-q", q, euc ? edq(n, d) : tdq(n, d), cx);
  chk(nm, "-r", r, euc ? edr(n, d) : tdr(n, d), cx);
  if (a != 1 && b != 1) chk(nm, "-operand-changed", ln, n, cx);
  if (a != 2 && b != 2) chk(nm, "-operand-changed", ld, d, cx);
  ev("quorem");
  eval(key(n, key(d, euc + 2)));
}

VH_TEST(exact, 20000, 8) {
  Z n, d, dummy;
  hard_div(c.rng, dummy, d, 24);
  Z q = integer(c.rng, 24);
  if (c.rng.chance(1, 2)) d = -d;
  n = q * d;
  L ln(n), ld(d), lq(Z(5));
  int al = c.rng.below(3);
  L &t = al == 1 ? ln : al == 2 ? ld : lq;
  mpz_divexact(t, ln, ld);
  chk("divexact", "", t, q, ctx(n, d, al));
  mp_limb_t u = one_limb(c.rng);
  if (!u) u = 3;
  mp_long_t s = one_long(c.rng);
  if (!s) s = -3;
  L a(q * limb(u)), b(q * slimb(s));
  L o, &ta = c.rng.chance(1, 2) ? a : o, &tb = c.rng.chance(1, 2) ? b : o;
  mpz_divexact_ui(ta, a, u);
  chk("divexact_ui", "", ta, q, ctx(q, limb(u), 0));
  mpz_divexact_si(tb, b, s);
  chk("divexact_si", "", tb, q, ctx(q, slimb(s), 0));
  // divisibility predicates
  Z x = c.rng.chance(1, 2) ? n : n + Z((long)c.rng.below(3) - 1), e = c.rng.chance(1, 8) ? Z(0) : d;
  L lx(x), le(e);
  eqi("divisible_p", mpz_divisible_p(lx, le), e.zero() ? x.zero() : tdr(x, e).zero(), "%s", ctx(x, e, 0).c_str());
  mp_limb_t w = c.rng.chance(1, 8) ? 0 : c.rng.chance(1, 2) ? u : one_limb(c.rng);
  Z xx = q * limb(u);
  L lxx(xx);
  eqi("divisible_ui_p", mpz_divisible_ui_p(lxx, w), w ? tdr(xx, limb(w)).zero() : xx.zero(), "%s", ctx(xx, limb(w), 0).c_str());
  ul bits = c.rng.below(300);
  Z sx = c.rng.chance(1, 2) ? q << c.rng.below(300) : q;
  L lsx(sx);
  eqi("divisible_2exp_p", mpz_divisible_2exp_p(lsx, bits), shr(sx, bits).zero(), "%s bits=%lu", sx.hex().c_str(), bits);
  Z y = x + (c.rng.chance(1, 2) ? e * integer(c.rng, 3) : Z((long)c.rng.below(3)));
  L ly(y);
  eqi("congruent_p", mpz_congruent_p(lx, ly, le), e.zero() ? x == y : tdr(x - y, e).zero(), "%s", ctx(x, y, 0).c_str());
  eqi("congruent_ui_p", mpz_congruent_ui_p(lx, ly, w), w ? tdr(x - y, limb(w)).zero() : x == y, "%s", ctx(x, y, 0).c_str());
  eqi("congruent_2exp_p", mpz_congruent_2exp_p(lx, ly, bits), shr(x - y, bits).zero(), "%s", ctx(x, y, 0).c_str());
  ev("exact");
  eval(key(n, key(d, 77)));
}

// operations with one machine-word operand
VH_TEST(word, 60000, 8) {
  Z x = integer(c.rng, c.rng.chance(1, 3) ? 2 : 30);
  mp_limb_t u = one_limb(c.rng);
  mp_long_t s = one_long(c.rng);
  if (c.rng.chance(1, 4)) { x = limb(u) + Z((long)c.rng.below(3) - 1); if (c.rng.chance(1, 2)) x = -x; }
  if (c.rng.chance(1, 8)) x = slimb(s);
  Z U = limb(u), S = slimb(s);
  L lx(x);
  bool al = c.rng.below(2);
#define OPW(name, call, want) do { L o(Z(3)), in(x); L &z = al ? in : o; call; chk(name, "", z, want, fmt("x=%s u=%llx s=%lld alias=%d", x.hex().c_str(), (unsigned long long)u, (long long)s, al)); if (!al) chk(name, "-operand-changed", in, x, ""); } while (0)
  switch (c.rng.below(8)) {
    case 0:
      OPW("add_ui", mpz_add_ui(z, in, u), x + U); OPW("sub_ui", mpz_sub_ui(z, in, u), x - U); OPW("ui_sub", mpz_ui_sub(z, u, in), U - x);
      OPW("add_si", mpz_add_si(z, in, s), x + S); OPW("sub_si", mpz_sub_si(z, in, s), x - S); OPW("si_sub", mpz_si_sub(z, s, in), S - x);
      break;
    case 1: OPW("mul_ui", mpz_mul_ui(z, in, u), x * U); OPW("mul_si", mpz_mul_si(z, in, s), x * S); break;
    case 2: {
      Z a = integer(c.rng, 30);
      bool same = c.rng.chance(1, 4);
      if (same) a = x;
#define ACC(name, call, want) do { L z(a), in0(x); L &in = same ? z : in0; call; chk(name, "", z, want, fmt("z=%s x=%s u=%llx s=%lld", a.hex().c_str(), x.hex().c_str(), (unsigned long long)u, (long long)s)); } while (0)
      ACC("addmul_ui", mpz_addmul_ui(z, in, u), a + x * U); ACC("submul_ui", mpz_submul_ui(z, in, u), a - x * U);
      ACC("addmul_si", mpz_addmul_si(z, in, s), a + x * S); ACC("submul_si", mpz_submul_si(z, in, s), a - x * S);
      Z y = integer(c.rng, 20);
      L ly(y);
      ACC("addmul", mpz_addmul(z, in, ly), a + x * y); ACC("submul", mpz_submul(z, in, ly), a - x * y);
      break;
    }
    case 3: if (u) {
      mp_limb_t r = 0;
      OPW("quo_ui", r = mpz_quo_ui(z, in, u), tdq(x, U)); if (limb(r) != big::abs(tdr(x, U))) viol("quo_ui-r", "x=%s u=%llx", x.hex().c_str(), (unsigned long long)u);
      if (limb(mpz_rem_ui(lx, u)) != big::abs(tdr(x, U))) viol("rem_ui", "x=%s u=%llx", x.hex().c_str(), (unsigned long long)u);
      OPW("div_ui", r = mpz_div_ui(z, in, u), edq(x, U)); if (limb(r) != edr(x, U)) viol("div_ui-r", "x=%s u=%llx", x.hex().c_str(), (unsigned long long)u);
      if (limb(mpz_mod_ui(lx, u)) != edr(x, U)) viol("mod_ui", "x=%s u=%llx", x.hex().c_str(), (unsigned long long)u);
      OPW("divround_ui", mpz_divround_ui(z, in, u), rnd(x, U));
      break;
    } // fallthrough
    case 4: if (s) {
      mp_long_t r = 0;
      OPW("quo_si", r = mpz_quo_si(z, in, s), tdq(x, S)); if (slimb(r) != tdr(x, S)) viol("quo_si-r", "x=%s s=%lld", x.hex().c_str(), (long long)s);
      if (slimb(mpz_rem_si(lx, s)) != tdr(x, S)) viol("rem_si", "x=%s s=%lld", x.hex().c_str(), (long long)s);
      OPW("div_si", r = mpz_div_si(z, in, s), edq(x, S)); if (slimb(r) != edr(x, S)) viol("div_si-r", "x=%s s=%lld", x.hex().c_str(), (long long)s);
      if (slimb(mpz_mod_si(lx, s)) != edr(x, S)) viol("mod_si", "x=%s s=%lld", x.hex().c_str(), (long long)s);
      OPW("divround_si", mpz_divround_si(z, in, s), rnd(x, S));
      break;
    } // fallthrough
    case 5:
      OPW("ior_ui", mpz_ior_ui(z, in, u), x | U); OPW("xor_ui", mpz_xor_ui(z, in, u), x ^ U);
      OPW("and_si", mpz_and_si(z, in, s), x & S); OPW("ior_si", mpz_ior_si(z, in, s), x | S); OPW("xor_si", mpz_xor_si(z, in, s), x ^ S);
      if (limb(mpz_and_ui(lx, u)) != (x & U)) viol("and_ui", "x=%s u=%llx", x.hex().c_str(), (unsigned long long)u);
      break;
    case 6: {
      Z y = other(c.rng, x, 30);
      L ly(y);
      auto sg = [](int v) { return (v > 0) - (v < 0); };
      eqi("cmp", sg(mpz_cmp(lx, ly)), sg(big::cmp(x, y)), "%s", ctx(x, y, 0).c_str());
      eqi("cmpabs", sg(mpz_cmpabs(lx, ly)), sg(big::cmp(big::abs(x), big::abs(y))), "%s", ctx(x, y, 0).c_str());
      eqi("cmp_ui", sg(mpz_cmp_ui(lx, u)), sg(big::cmp(x, U)), "%s", ctx(x, U, 0).c_str());
      eqi("cmp_si", sg(mpz_cmp_si(lx, s)), sg(big::cmp(x, S)), "%s", ctx(x, S, 0).c_str());
      eqi("cmpabs_ui", sg(mpz_cmpabs_ui(lx, u)), sg(big::cmp(big::abs(x), U)), "%s", ctx(x, U, 0).c_str());
      eqi("cmpabs_si", sg(mpz_cmpabs_si(lx, s)), sg(big::cmp(big::abs(x), big::abs(S))), "%s", ctx(x, S, 0).c_str());
      eqi("sgn", mpz_sgn(lx), x.sgn(), "%s", x.hex().c_str());
      eqi("odd_p", !!mpz_odd_p(lx), x.odd(), "%s", x.hex().c_str());
      eqi("even_p", !!mpz_even_p(lx), !x.odd(), "%s", x.hex().c_str());
      eqi("fits_ui_p", !!mpz_fits_ui_p(lx), big::abs(x) < pow2(MP_LIMB_BITS), "%s", x.hex().c_str());
      eqi("fits_si_p", !!mpz_fits_si_p(lx), x < pow2(MP_LIMB_BITS - 1) && x >= -pow2(MP_LIMB_BITS - 1), "%s", x.hex().c_str());
      eqi("bitlen", mpz_bitlen(lx), x.bits(), "%s", x.hex().c_str());
      eqi("bytelen", mpz_bytelen(lx), (x.bits() + 7) / 8, "%s", x.hex().c_str());
      if (!x.zero()) { Z ax = big::abs(x); eqi("ctz", mpz_ctz(lx), (long)__gmpz_scan1(&ax.v, 0), "%s", x.hex().c_str()); }
      if (mpz_get_ui(lx) != (mp_limb_t)big::abs(x).ui()) viol("get_ui", "%s", x.hex().c_str());
      if (x < pow2(MP_LIMB_BITS - 1) && x >= -pow2(MP_LIMB_BITS - 1) && slimb(mpz_get_si(lx)) != x) viol("get_si", "%s", x.hex().c_str());
      L w;
      mpz_set_ui(w, u); chk("set_ui", "", w, U, "");
      mpz_set_si(w, s); chk("set_si", "", w, S, "");
      mpz_swap(w, ly); chk("swap", "", w, y, ""); chk("swap", "", ly, S, "");
      for (size_t i = 0; i < mpz_size(lx) + 1; i++) if (limb(mpz_getlimbn(lx, i)) != ((big::abs(x) >> i * MP_LIMB_BITS) % pow2(MP_LIMB_BITS))) viol("getlimbn", "%s", x.hex().c_str());
      break;
    }
    case 7: {
      mp_limb_t e = c.rng.below(c.rng.chance(1, 4) ? 40 : 9);
      Z b = x.bits() > 2000 ? x >> (x.bits() - 300) : x;
      L lb(b), o;
      L &t = al ? lb : o;
      mpz_pow_ui(t, lb, e);
      chk("pow_ui", "", t, big::pow(b, e), fmt("x=%s e=%d", b.hex().c_str(), (int)e));
      mpz_ui_pow_ui(o, u, e);
      chk("ui_pow_ui", "", o, big::pow(U, e), "");
      break;
    }
  }
  ev("word");
  eval(key(x, key(U, (uint64_t)s)));
}

VH_TEST(shifts, 40000, 8) {
  Z x = integer(c.rng, c.rng.chance(1, 20) ? 200 : 20);
  ul n = c.rng.chance(1, 3) ? c.rng.below(20) * MP_LIMB_BITS + c.rng.below(3) - (c.rng.below(2) ? 0 : 0) : c.rng.below(x.bits() + 200);
  bool al = c.rng.below(2);
#define SH(name, fn, want) do { L o(Z(3)), in(x); L &z = al ? in : o; fn(z, in, n); chk(name, "", z, want, fmt("x=%s n=%lu alias=%d", x.hex().c_str(), n, al)); if (!al) chk(name, "-operand-changed", in, x, ""); } while (0)
  SH("mul_2exp", mpz_mul_2exp, x << n);
  SH("quo_2exp", mpz_quo_2exp, shq(x, n));
  SH("rem_2exp", mpz_rem_2exp, shr(x, n));
  SH("div_2exp", mpz_div_2exp, x >> n);
  SH("mod_2exp", mpz_mod_2exp, x % pow2(n));
  Z y = other(c.rng, x, 20);
  {
    L lx(x), ly(y), z;
    int a = c.rng.below(3);
    L &t = a == 1 ? lx : a == 2 ? ly : z;
    Z p = big::abs(x * y), w = n ? (p >> n) + Z((long)p.bit(n - 1)) : p;
    if ((x.sgn() < 0) != (y.sgn() < 0)) w = -w;
    mpz_mulshift(t, lx, ly, n);
    chk("mulshift", "", t, w, ctx(x, y, a));
  }
  L lx(x), ly(y);
  eqi("tstbit", mpz_tstbit(lx, n), x.bit(n), "x=%s n=%lu", x.hex().c_str(), n);
#define BIT(name, fn, gf) do { L z(x); Z w = x; gf(&w.v, n); fn(z, n); chk(name, "", z, w, fmt("x=%s n=%lu", x.hex().c_str(), n)); } while (0)
  BIT("setbit", mpz_setbit, __gmpz_setbit); BIT("clrbit", mpz_clrbit, __gmpz_clrbit); BIT("combit", mpz_combit, __gmpz_combit);
  auto cnt = [](ul v) { return v == ~0ul ? (long)MP_BITS_MAX : (long)v; };
  eqi("scan0", mpz_scan0(lx, n), cnt(__gmpz_scan0(&x.v, n)), "x=%s n=%lu", x.hex().c_str(), n);
  eqi("scan1", mpz_scan1(lx, n), cnt(__gmpz_scan1(&x.v, n)), "x=%s n=%lu", x.hex().c_str(), n);
  eqi("popcount", mpz_popcount(lx), cnt(__gmpz_popcount(&x.v)), "x=%s", x.hex().c_str());
  eqi("hamdist", mpz_hamdist(lx, ly), cnt(__gmpz_hamdist(&x.v, &y.v)), "%s", ctx(x, y, 0).c_str());
  ev("shifts");
  eval(key(x, n));
}

VH_TEST(roots, 6000, 8) {
  Z s = nat(c.rng, c.rng.chance(1, 10) ? 40 : 8);
  ul k = c.rng.chance(1, 2) ? 2 : c.rng.range(1, 12);
  if (k > 3 && s.bits() > 200) s = s >> (s.bits() - 200);
  Z x = big::pow(s, k);
  switch (c.rng.below(5)) { case 0: x = x - Z(1); break; case 1: x = x + Z(1); break; case 2: x = nat(c.rng, 20); break; case 3: if (c.rng.chance(1, 3)) k += c.rng.below(300); break; }
  if (x.sgn() < 0) x = Z(0);
  bool neg = (k & 1) && c.rng.chance(1, 3);
  if (neg) x = -x;
  Z ax = big::abs(x), w;
  int exact = __gmpz_root(&w.v, &ax.v, k);
  if (neg) w = -w;
  Z rem = x - big::pow(w, k);
  {
    L lx(x), z, r;
    int a = c.rng.below(3);
    L &tz = a == 1 ? lx : z, &tr = a == 2 ? lx : r;
    mpz_rootrem(tz, tr, lx, k);
    chk("rootrem", "", tz, w, fmt("x=%s k=%lu", x.hex().c_str(), k));
    chk("rootrem", "-r", tr, rem, fmt("x=%s k=%lu", x.hex().c_str(), k));
    L l2(x), z2;
    eqi("root-exact", !!mpz_root(z2, l2, k), !!exact, "x=%s k=%lu", x.hex().c_str(), k);
    chk("root", "", z2, w, "");
  }
  Z sq;
  __gmpz_sqrt(&sq.v, &ax.v);
  {
    L lx(ax), z, r;
    int a = c.rng.below(3);
    L &tz = a == 1 ? lx : z, &tr = a == 2 ? lx : r;
    mpz_sqrtrem(tz, tr, lx);
    chk("sqrtrem", "", tz, sq, fmt("x=%s", ax.hex().c_str()));
    chk("sqrtrem", "-r", tr, ax - sq * sq, fmt("x=%s", ax.hex().c_str()));
    L l2(ax), z2;
    mpz_sqrt(z2, l2);
    chk("sqrt", "", z2, sq, fmt("x=%s", ax.hex().c_str()));
  }
  L lx(x);
  eqi("perfect_square_p", !!mpz_perfect_square_p(lx), x.sgn() >= 0 && sq * sq == x, "x=%s", x.hex().c_str());
  if (x.bits() < 600) eqi("perfect_power_p", !!mpz_perfect_power_p(lx), !!__gmpz_perfect_power_p(&x.v), "x=%s", x.hex().c_str());
  if (!ax.zero()) {
    size_t n = (ax.bits() + MP_LIMB_BITS - 1) / MP_LIMB_BITS, sn = (n + 1) / 2;
    V vx(ax, n), vz(sn), vr(n);
    mpn_sqrtrem(vz, vr, vx, n);
    if (vz.get() != sq || vr.get() != ax - sq * sq) viol("mpn_sqrtrem", "x=%s", ax.hex().c_str());
    eqi("mpn_perfect_square_p", !!mpn_perfect_square_p(vx, n), sq * sq == ax, "x=%s", ax.hex().c_str());
  }
  ev("roots");
  eval(key(x, k));
}

static std::string text(const Z &x, int base) { return x.str(base); }

VH_TEST(convert, 20000, 8) {
  Z x = integer(c.rng, c.rng.chance(1, 8) ? 60 : 12);
  int base = c.rng.chance(1, 2) ? (int)c.rng.range(2, 62) : (int)(c.rng.chance(1, 2) ? 10 : 16);
  std::string w = text(x, base), wa = text(big::abs(x), base);
  L lx(x);
  eqi("sizeinbase", mpz_sizeinbase(lx, base), wa.size(), "x=%s base=%d", x.hex().c_str(), base);
  char *s = mpz_get_str(lx, base);
  if (w != s) viol("get_str", "x=%s base=%d got %s", x.hex().c_str(), base, s);
  free(s);
  // parse, with white space and case games where the base allows
  std::string in = w;
  if (base <= 36 && c.rng.chance(1, 2)) for (auto &ch : in) if (ch >= 'a' && ch <= 'z' && c.rng.chance(1, 2)) ch -= 32;
  if (c.rng.chance(1, 4)) in.insert(0, " \t");
  if (x.sgn() >= 0 && c.rng.chance(1, 4)) in.insert(0, "+");
  if (c.rng.chance(1, 4)) in.insert(in.size() - c.rng.below(2), " ");
  L z(Z(9));
  eqi("set_str", mpz_set_str(z, in.c_str(), base), 1, "base=%d '%s'", base, in.c_str());
  chk("set_str", "-value", z, x, fmt("base=%d '%s'", base, in.c_str()));
  if (base == 10 || base == 16 || base == 8 || base == 2) {
    const char *pre = base == 10 ? "" : base == 16 ? (c.rng.below(2) ? "0x" : "0X") : base == 8 ? (c.rng.below(3) ? c.rng.below(2) ? "0o" : "0O" : "0") : (c.rng.below(2) ? "0b" : "0B");
    std::string in0 = std::string(x.sgn() < 0 ? "-" : "") + pre + wa;
    eqi("set_str-base0", mpz_set_str(z, in0.c_str(), 0), 1, "'%s'", in0.c_str());
    chk("set_str-base0", "-value", z, x, fmt("'%s'", in0.c_str()));
  }
  // malformed digit
  std::string bad = w;
  char digit = "!@#.-/:[`{~\x80\xff"[c.rng.below(13)];
  if (c.rng.chance(1, 3) && base < 36) digit = "0123456789abcdefghijklmnopqrstuvwxyz"[base];
  size_t pos = c.rng.range(1, bad.size());
  bad.insert(pos, 1, digit);
  eqi("set_str-malformed", mpz_set_str(z, bad.c_str(), base), 0, "base=%d '%s'", base, bad.c_str());
  // raw conversion
  Z ax = big::abs(x);
  for (int e = -1; e <= 1; e++) {
    size_t min = (ax.bits() + 7) / 8, n = min + c.rng.below(20);
    Buf out(n);
    mpz_export(out, lx, n, e);
    Bytes want = e == 1 ? big::to_be(ax, n) : big::to_le(ax, n);
    if (out.get() != want) viol("export", "x=%s n=%zu endian=%d", x.hex().c_str(), n, e);
    In raw(want);
    L z(Z(5));
    mpz_import(z, raw, n, e);
    chk("import", "", z, ax, fmt("n=%zu endian=%d", n, e));
    // truncating limb forms
    size_t zn = c.rng.below(8), xn = c.rng.below(8);
    V v(zn), u(ax % pow2(xn * MP_LIMB_BITS), xn);
    mpn_import(v, zn, raw, n, e);
    if (v.get() != ax % pow2(zn * MP_LIMB_BITS)) viol("mpn_import", "n=%zu zn=%zu endian=%d x=%s", n, zn, e, ax.hex().c_str());
    Buf o2(c.rng.below(70));
    mpn_export(o2, o2.size(), u, xn, e);
    Z m = ax % pow2(xn * MP_LIMB_BITS);
    if (o2.get() != (e == 1 ? big::to_be(m, o2.size()) : big::to_le(m, o2.size()))) viol("mpn_export", "n=%zu xn=%zu endian=%d", o2.size(), xn, e);
  }
  // compact form (Bitcoin): sign, 8-bit exponent, 23-bit mantissa
  {
    uint32_t k = c.rng.next();
    if (c.rng.chance(1, 2)) k = (k & 0x00ffffff) | (uint32_t)c.rng.below(70) << 24;
    Z man((ul)(k & 0x7fffff));
    ul ex = k >> 24;
    Z want = ex <= 3 ? man >> 8 * (3 - ex) : man << 8 * (ex - 3);
    if (k & 0x800000) want = -want;
    L z;
    mpz_set_compact(z, k);
    chk("set_compact", "", z, want, fmt("%08x", k));
    Z t = c.rng.chance(1, 2) ? want : integer(c.rng, 4);
    ul len = (t.bits() + 7) / 8;
    if (len < 250) {
      ul m = len <= 3 ? big::abs(t).ui() << 8 * (3 - len) : (big::abs(t) >> 8 * (len - 3)).ui();
      if (m & 0x800000) { m >>= 8; len++; }
      ul w = t.zero() ? 0 : len << 24 | m | (t.sgn() < 0 ? 0x800000 : 0);
      L lt(t);
      eqi("get_compact", (long long)mpz_get_compact(lt), (long long)w, "x=%s", t.hex().c_str());
    }
  }
  // random numbers stay in range and depend on every source bit
  {
    ul bits = c.rng.below(300);
    Rng r1 = c.rng;
    L z;
    mpz_urandomb(z, bits, det_rng, &r1);
    Z g = z.get();
    if (g.sgn() < 0 || g.bits() > bits) viol("urandomb-range", "bits=%lu got %s", bits, g.hex().c_str());
    mpz_urandomm(z, lx, det_rng, &r1);
    g = z.get();
    if (!x.zero() && (big::abs(g) >= ax || (g.sgn() && g.sgn() != x.sgn()))) viol("urandomm-range", "x=%s got %s", x.hex().c_str(), g.hex().c_str());
  }
  ev("convert");
  eval(key(x, base));
}

static std::string printed;
static int collect(const char *t) { printed += t; return 0; }
// construction, destruction, limb access and printing
VH_TEST(lifecycle, 12000, 8) {
  Z x = integer(c.rng, 12), y = integer(c.rng, 12), ax = big::abs(x);
  mp_limb_t w = one_limb(c.rng);
  mp_long_t sw = one_long(c.rng);
  int base = c.rng.range(2, 62);
  L lx(x), ly(y);
  auto val = [&](mpz_ptr p, const char *k, const Z &want) {
    mp_size_t n = p->size < 0 ? -p->size : p->size;
    if (n > 0 && p->limbs[n - 1] == 0) viol(fmt("%s-not-normalised", k).c_str(), "x=%s", x.hex().c_str());
    Z g = big::from_le((const uint8_t *)mpz_limbs_read(p), n * sizeof(mp_limb_t));
    if (p->size < 0) g = -g;
    if (g != want) viol(k, "x=%s got %s want %s", x.hex().c_str(), g.hex().c_str(), want.hex().c_str());
  };
  mpz_t a, b, d, e, f, g;
  mpz_init_set(a, lx); val(a, "init_set", x);
  mpz_init_set_ui(b, w); val(b, "init_set_ui", limb(w));
  mpz_init_set_si(d, sw); val(d, "init_set_si", slimb(sw));
  { L t; uint32_t k = c.rng.chance(1, 8) ? 0 : (uint32_t)c.rng.next() & 0x20ffffff; mpz_init_set_compact(e, k); mpz_set_compact(t, k); val(e, "init_set_compact", t.get()); if (!k) val(e, "init_set_compact-0", Z(0)); }
  eqi("init_set_str", mpz_init_set_str(f, text(x, base).c_str(), base), 1, "base=%d", base); val(f, "init_set_str", x);
  mpz_init2(g, c.rng.below(700)); val(g, "init2", Z(0));
  // the originals must be independent of the copies
  mpz_add(g, a, ly); val(g, "init2-add", x + y);
  mpz_neg(a, a); mpz_add_ui(a, a, 1); chk("init_set", "-shares", lx, x, "");
  mpz_swap(a, g); val(a, "swap", x + y); val(g, "swap", Z(1) - x);
  if (c.rng.chance(1, 2)) mpz_clears(a, b, d, e, f, g, (mpz_ptr)nullptr);
  else mpz_cleanses(a, b, d, e, f, g, (mpz_ptr)nullptr);
  mpz_inits(a, b, d, (mpz_ptr)nullptr); val(a, "inits", Z(0)); val(b, "inits", Z(0)); val(d, "inits", Z(0));
  mpz_mul(a, lx, ly); mpz_sub(b, lx, ly); mpz_set(d, ly);
  val(a, "inits-mul", x * y); val(b, "inits-sub", x - y); val(d, "inits-set", y);
  mpz_clears(a, b, d, (mpz_ptr)nullptr);
  // read-only views, with and without zero limbs on top
  size_t n = (ax.bits() + MP_LIMB_BITS - 1) / MP_LIMB_BITS, pad = c.rng.below(3);
  V v(ax, n + pad);
  mpz_t ro;
  mpz_srcptr rp = mpz_roinit_n(ro, v, x.sgn() < 0 ? -(mp_size_t)(n + pad) : (mp_size_t)(n + pad));
  if (rp != ro) viol("roinit_n-result", "not its argument");
  val(ro, "roinit_n", x);
  { L t; mpz_add(t, ro, ly); chk("roinit_n", "-add", t, x + y, ""); mpz_t r2; mpz_roset(r2, lx); mpz_sub(t, r2, ly); chk("roset", "-sub", t, x - y, ""); }
  if (v.get() != ax) viol("roinit_n-modified", "x=%s", x.hex().c_str());
  // growing keeps the value, finishing strips it
  { L t(x); size_t m = n + c.rng.below(9); mp_limb_t *p = mpz_limbs_modify(t, m ? m : 1); for (size_t i = n; i < m; i++) p[i] = 0;
    if (m > n && c.rng.chance(1, 2)) p[m - 1] = w, n = m, ax = ax + (limb(w) << (m - 1) * MP_LIMB_BITS);
    mpz_limbs_finish(t, x.sgn() < 0 ? -(mp_size_t)m : (mp_size_t)m); chk("limbs_modify", "", t, x.sgn() < 0 ? -ax : ax, fmt("m=%zu", m)); }
  { L t(x); mpz_realloc2(t, c.rng.below(900)); Z got = t.get(); if (got != x && !got.zero()) viol("realloc2", "x=%s got %s", x.hex().c_str(), got.hex().c_str()); mpz_add(t, lx, ly); chk("realloc2", "-add", t, x + y, ""); }
  // digit strings of limb vectors
  ax = big::abs(x); n = (ax.bits() + MP_LIMB_BITS - 1) / MP_LIMB_BITS;
  {
    V u(ax, n + pad);
    std::string t = text(ax, base);
    eqi("mpn_sizeinbase", mpn_sizeinbase(u, n + pad, base), t.size(), "x=%s base=%d", x.hex().c_str(), base);
    Buf o(t.size() + 1);
    eqi("mpn_get_str-length", mpn_get_str((char *)o.p(), u, n + pad, base), t.size(), "x=%s base=%d", x.hex().c_str(), base);
    if (memcmp(o.p(), t.c_str(), t.size() + 1)) viol("mpn_get_str", "x=%s base=%d", x.hex().c_str(), base);
    size_t zn = c.rng.below(n + 3);
    V z(Z(0), zn);
    memset(z.b.p(), 0x5a, zn * sizeof(mp_limb_t));
    int fits = zn >= n, bad = c.rng.chance(1, 6);
    std::string in = c.rng.chance(1, 3) ? "000" + t : t;
    int ubase = base;
    if (bad) { switch (c.rng.below(3)) { case 0: in.insert(c.rng.below(in.size() + 1), 1, '*'); break; case 1: ubase = c.rng.below(2); break; default: ubase = 63 + c.rng.below(3); } }
    eqi("mpn_set_str", mpn_set_str(z, zn, in.c_str(), ubase), fits && !bad, "'%s' base=%d zn=%zu", in.c_str(), ubase, zn);
    if (z.get() != (fits && !bad ? ax : Z(0))) viol("mpn_set_str-value", "'%s' base=%d zn=%zu", in.c_str(), ubase, zn);
    L z2(Z(77));
    if (bad) { eqi("set_str-bad", mpz_set_str(z2, in.c_str(), ubase == 0 ? 63 : ubase), 0, "'%s' base=%d", in.c_str(), ubase); chk("set_str-bad", "-value", z2, Z(0), in); }
    printed.clear(); mpn_print(u, n + pad, base, collect);
    if (printed != t) viol("mpn_print", "x=%s base=%d printed %s", x.hex().c_str(), base, printed.c_str());
    printed.clear(); mpz_print(lx, base, collect);
    if (printed != text(x, base)) viol("mpz_print", "x=%s base=%d printed %s", x.hex().c_str(), base, printed.c_str());
  }
  // plain limb moves, with overlap in the direction each one allows
  {
    size_t k = c.rng.below(9), off = c.rng.below(4);
    Z m = big::from_le(limbs(c.rng, k));
    V u(m << off * MP_LIMB_BITS, k + off), q(m, k + off);
    mpn_copyi(u, (mp_limb_t *)u + off, k);
    if (u.get(k) != m) viol("mpn_copyi-overlap", "k=%zu off=%zu", k, off);
    mpn_copyd((mp_limb_t *)q + off, q, k);
    if ((q.get() >> off * MP_LIMB_BITS) != m) viol("mpn_copyd-overlap", "k=%zu off=%zu", k, off);
    V o(m, k + 1);
    mpn_set_1(o, k + 1, w); if (o.get() != limb(w)) viol("mpn_set_1", "k=%zu", k);
    V zz(m, k); mpn_zero(zz, k); if (!zz.get().zero()) viol("mpn_zero", "k=%zu", k);
    V zc(m, k); mpn_cleanse(zc, k); if (!zc.get().zero()) viol("mpn_cleanse", "k=%zu", k);
  }
  ev("lifecycle");
  eval(key(x, key(y, base)));
}

// raw limb functions
VH_TEST(mpn, 60000, 8) {
  Rng &r = c.rng;
  size_t n = r.chance(1, 10) ? r.range(1, 60) : r.range(1, 13), m = r.range(1, n);
  Z B = pow2(n * MP_LIMB_BITS), x = big::from_le(limbs(r, n)), y = big::from_le(limbs(r, n));
  if (r.chance(1, 6)) y = x;
  if (r.chance(1, 8)) y = (x + Z(1)) % B;
  if (r.chance(1, 8)) y = (B - x) % B;
  Z ys = y % pow2(m * MP_LIMB_BITS);
  mp_limb_t u = one_limb(r);
  Z U = limb(u);
  V vx(x, n), vy(y, n), vys(ys, m);
  bool al = r.below(2);
#define WITH(name, call, want, carry) do { V o(n), in(x, n); mp_limb_t *z = al ? (mp_limb_t *)in : (mp_limb_t *)o; mp_limb_t cy = (call); Z got = al ? in.get() : o.get(); Z wv = (want), wc = (carry); \
    if (got != wv || limb(cy) != wc) viol(name, "n=%zu m=%zu alias=%d x=%s y=%s u=%llx: got %s carry %llx want %s carry %s", n, m, al, x.hex().c_str(), y.hex().c_str(), (unsigned long long)u, got.hex().c_str(), (unsigned long long)cy, wv.hex().c_str(), wc.hex().c_str()); } while (0)
#define FL(a) ((a) % B)
  switch (c.idx % 6) {
    case 0:
      WITH("mpn_add_n", mpn_add_n(z, in, vy, n), FL(x + y), (x + y) / B);
      WITH("mpn_sub_n", mpn_sub_n(z, in, vy, n), FL(x - y), Z((long)(x < y)));
      WITH("mpn_add", mpn_add(z, in, n, vys, m), FL(x + ys), (x + ys) / B);
      WITH("mpn_sub", mpn_sub(z, in, n, vys, m), FL(x - ys), Z((long)(x < ys)));
      WITH("mpn_add_1", mpn_add_1(z, in, n, u), FL(x + U), (x + U) / B);
      WITH("mpn_sub_1", mpn_sub_1(z, in, n, u), FL(x - U), Z((long)(x < U)));
      WITH("mpn_sec_add", mpn_sec_add(z, in, n, vys, m), FL(x + ys), (x + ys) / B);
      WITH("mpn_sec_sub", mpn_sec_sub(z, in, n, vys, m), FL(x - ys), Z((long)(x < ys)));
      WITH("mpn_sec_add_1", mpn_sec_add_1(z, in, n, u), FL(x + U), (x + U) / B);
      WITH("mpn_sec_sub_1", mpn_sec_sub_1(z, in, n, u), FL(x - U), Z((long)(x < U)));
      WITH("mpn_neg", mpn_neg(z, in, n), FL(-x), Z((long)!x.zero()));
      WITH("mpn_com", (mpn_com(z, in, n), 0), B - Z(1) - x, Z(0));
      break;
    case 1: {
      WITH("mpn_mul_1", mpn_mul_1(z, in, n, u), FL(x * U), (x * U) / B);
      { V z(y, n); mp_limb_t cy = mpn_addmul_1(z, vx, n, u); if (z.get() + limb(cy) * B != y + x * U) viol("mpn_addmul_1", "n=%zu x=%s y=%s u=%llx", n, x.hex().c_str(), y.hex().c_str(), (unsigned long long)u); }
      { V z(y, n); mp_limb_t cy = mpn_submul_1(z, vx, n, u); if (z.get() - limb(cy) * B != y - x * U) viol("mpn_submul_1", "n=%zu x=%s y=%s u=%llx", n, x.hex().c_str(), y.hex().c_str(), (unsigned long long)u); }
      { V z(2 * n); mpn_mul_n(z, vx, vy, n); if (z.get() != x * y) viol("mpn_mul_n", "n=%zu x=%s y=%s", n, x.hex().c_str(), y.hex().c_str()); }
      { V z(n + m); mpn_mul(z, vx, n, vys, m); if (z.get() != x * ys) viol("mpn_mul", "n=%zu m=%zu x=%s y=%s", n, m, x.hex().c_str(), ys.hex().c_str()); }
      { V z(2 * n), t(MPN_SQR_ITCH(n)); mpn_sqr(z, vx, n, t); if (z.get() != x * x) viol("mpn_sqr", "n=%zu x=%s", n, x.hex().c_str()); }
      { size_t bits = r.range(n * MP_LIMB_BITS, 2 * n * MP_LIMB_BITS - 1); V z(n), t(MPN_MULSHIFT_ITCH(n)); mp_limb_t cy = mpn_mulshift(z, vx, vy, n, bits, t);
        Z p = x * y, w = (p >> bits) + Z((long)p.bit(bits - 1)); if (z.get() + limb(cy) * B != w) viol("mpn_mulshift", "n=%zu bits=%zu x=%s y=%s", n, bits, x.hex().c_str(), y.hex().c_str()); }
      break;
    }
    case 2: {
      Z nn, dd;
      hard_div(r, nn, dd, 2 * n);
      size_t dn = (dd.bits() + MP_LIMB_BITS - 1) / MP_LIMB_BITS, nl = std::max<size_t>((nn.bits() + MP_LIMB_BITS - 1) / MP_LIMB_BITS, dn) + r.below(2);
      V vn(nn, nl), vd(dd, dn), q(nl - dn + 1), rr(dn);
      mpn_divmod(q, rr, vn, nl, vd, dn);
      if (q.get() != nn / dd || rr.get() != nn % dd) viol("mpn_divmod", "n=%s d=%s got q=%s r=%s", nn.hex().c_str(), dd.hex().c_str(), q.get().hex().c_str(), rr.get().hex().c_str());
      V q2(nl - dn + 1), r2(dn);
      mpn_div(q2, vn, nl, vd, dn);
      mpn_mod(r2, vn, nl, vd, dn);
      if (q2.get() != nn / dd) viol("mpn_div", "n=%s d=%s", nn.hex().c_str(), dd.hex().c_str());
      if (r2.get() != nn % dd) viol("mpn_mod", "n=%s d=%s", nn.hex().c_str(), dd.hex().c_str());
      if (vn.get() != nn || vd.get() != dd) viol("mpn_divmod-operand-changed", "n=%s", nn.hex().c_str());
      V ip(nn, nl);
      mpn_div(ip, ip, nl, vd, dn);
      if (ip.get(nl - dn + 1) != nn / dd) viol("mpn_div-inplace", "n=%s d=%s", nn.hex().c_str(), dd.hex().c_str());
      if (u) {
        WITH("mpn_divmod_1", mpn_divmod_1(z, in, n, u), x / U, x % U);
        if (limb(mpn_mod_1(vx, n, u)) != x % U) viol("mpn_mod_1", "x=%s u=%llx", x.hex().c_str(), (unsigned long long)u);
        WITH("mpn_div_1", (mpn_div_1(z, in, n, u), 0), x / U, Z(0));
        Z e = (x / U) * U;
        V ve(e, n), vz(n);
        mpn_divexact_1(vz, ve, n, u);
        if (vz.get() != x / U) viol("mpn_divexact_1", "x=%s u=%llx", e.hex().c_str(), (unsigned long long)u);
      }
      Z ex = (nn / dd) * dd;
      V vex(ex, nl), qe(nl - dn + 1);
      mpn_divexact(qe, vex, nl, vd, dn);
      if (qe.get() != nn / dd) viol("mpn_divexact", "n=%s d=%s", ex.hex().c_str(), dd.hex().c_str());
      break;
    }
    case 3: {
      Z ones = B - Z(1);
      WITH("mpn_and_n", (mpn_and_n(z, in, vy, n), 0), x & y, Z(0)); WITH("mpn_ior_n", (mpn_ior_n(z, in, vy, n), 0), x | y, Z(0)); WITH("mpn_xor_n", (mpn_xor_n(z, in, vy, n), 0), x ^ y, Z(0));
      WITH("mpn_andn_n", (mpn_andn_n(z, in, vy, n), 0), x & (ones - y), Z(0)); WITH("mpn_iorn_n", (mpn_iorn_n(z, in, vy, n), 0), x | (ones - y), Z(0));
      WITH("mpn_nand_n", (mpn_nand_n(z, in, vy, n), 0), ones - (x & y), Z(0)); WITH("mpn_nior_n", (mpn_nior_n(z, in, vy, n), 0), ones - (x | y), Z(0)); WITH("mpn_xnor_n", (mpn_xnor_n(z, in, vy, n), 0), ones - (x ^ y), Z(0));
      ul sh = r.range(1, MP_LIMB_BITS - 1);
      WITH("mpn_lshift", mpn_lshift(z, in, n, sh), FL(x << sh), (x << sh) / B);
      WITH("mpn_rshift", mpn_rshift(z, in, n, sh), x >> sh, x % pow2(sh));
      ul k = r.below(n * MP_LIMB_BITS + 70);
      WITH("mpn_mask", (mpn_mask(z, in, n, k), 0), x % pow2(k), Z(0));
      eqi("mpn_getbit", mpn_getbit(vx, n, k), x.bit(k), "x=%s k=%lu", x.hex().c_str(), k);
      ul wd = r.range(1, MP_LIMB_BITS - 1);
      if (limb(mpn_getbits(vx, n, k, wd)) != (x >> k) % pow2(wd)) viol("mpn_getbits", "x=%s k=%lu w=%lu", x.hex().c_str(), k, wd);
      ul p = r.below(n * MP_LIMB_BITS);
      eqi("mpn_tstbit", mpn_tstbit(vx, p), x.bit(p), "x=%s p=%lu", x.hex().c_str(), p);
      { V z(x, n); mpn_setbit(z, p); if (z.get() != (x | pow2(p))) viol("mpn_setbit", "x=%s p=%lu", x.hex().c_str(), p); }
      { V z(x, n); mpn_clrbit(z, p); if (z.get() != (x | pow2(p)) - pow2(p)) viol("mpn_clrbit", "x=%s p=%lu", x.hex().c_str(), p); }
      { V z(x, n); mpn_combit(z, p); if (z.get() != (x ^ pow2(p))) viol("mpn_combit", "x=%s p=%lu", x.hex().c_str(), p); }
      eqi("mpn_popcount", mpn_popcount(vx, n), (long)__gmpz_popcount(&x.v), "x=%s", x.hex().c_str());
      eqi("mpn_hamdist", mpn_hamdist(vx, vy, n), (long)__gmpz_hamdist(&x.v, &y.v), "x=%s y=%s", x.hex().c_str(), y.hex().c_str());
      eqi("mpn_bitlen", mpn_bitlen(vx, n), x.bits(), "x=%s", x.hex().c_str());
      eqi("mpn_bytelen", mpn_bytelen(vx, n), (x.bits() + 7) / 8, "x=%s", x.hex().c_str());
      eqi("mpn_ctz", mpn_ctz(vx, n), x.zero() ? (long)n * MP_LIMB_BITS : (long)__gmpz_scan1(&x.v, 0), "x=%s", x.hex().c_str());
      ul s0 = __gmpz_scan0(&x.v, p), s1 = __gmpz_scan1(&x.v, p);
      eqi("mpn_scan0", mpn_scan0(vx, n, p), (long)s0, "x=%s p=%lu", x.hex().c_str(), p);
      eqi("mpn_scan1", mpn_scan1(vx, n, p), s1 == ~0ul ? (long)MP_BITS_MAX : (long)s1, "x=%s p=%lu", x.hex().c_str(), p);
      break;
    }
    case 4: {
      mp_limb_t cnd = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : u;
      bool b = cnd != 0;
      WITH("mpn_cnd_zero", (mpn_cnd_zero(z, in, n, cnd), 0), b ? Z(0) : x, Z(0));
      WITH("mpn_cnd_select", (mpn_cnd_select(z, in, vy, n, cnd), 0), b ? y : x, Z(0));
      WITH("mpn_cnd_add_n", mpn_cnd_add_n(z, in, vy, n, cnd), b ? FL(x + y) : x, b ? (x + y) / B : Z(0));
      WITH("mpn_cnd_sub_n", mpn_cnd_sub_n(z, in, vy, n, cnd), b ? FL(x - y) : x, Z((long)(b && x < y)));
      WITH("mpn_cnd_neg", mpn_cnd_neg(z, in, n, cnd), b ? FL(-x) : x, Z((long)(b && !x.zero())));
      { V a(x, n), d(y, n); mpn_cnd_swap(a, d, n, cnd); if (a.get() != (b ? y : x) || d.get() != (b ? x : y)) viol("mpn_cnd_swap", "x=%s", x.hex().c_str()); }
      { size_t ents = r.range(1, 9), w = r.below(ents); Bytes t = r.bytes(ents * n * MP_LIMB_BYTES); Buf tb(t); V z(x, n); mpn_sec_tabselect(z, (mp_limb_t *)tb.p(), n, ents, w);
        if (z.b.get() != Bytes(t.begin() + w * n * MP_LIMB_BYTES, t.begin() + (w + 1) * n * MP_LIMB_BYTES)) viol("mpn_sec_tabselect", "ents=%zu which=%zu", ents, w); }
      if (r.chance(1, 4)) { y = x; }
      V a(x, n), d(y, n);
      int cm = big::cmp(x, y), sg = (cm > 0) - (cm < 0);
      eqi("mpn_cmp", [](int v) { return (v > 0) - (v < 0); }(mpn_cmp(a, d, n)), sg, "x=%s y=%s", x.hex().c_str(), y.hex().c_str());
      eqi("mpn_sec_cmp", mpn_sec_cmp(a, d, n), sg, "x=%s y=%s", x.hex().c_str(), y.hex().c_str());
      eqi("mpn_sec_lt_p", mpn_sec_lt_p(a, d, n), sg < 0, "x=%s y=%s", x.hex().c_str(), y.hex().c_str());
      eqi("mpn_sec_lte_p", mpn_sec_lte_p(a, d, n), sg <= 0, "x=%s y=%s", x.hex().c_str(), y.hex().c_str());
      eqi("mpn_sec_gt_p", mpn_sec_gt_p(a, d, n), sg > 0, "x=%s y=%s", x.hex().c_str(), y.hex().c_str());
      eqi("mpn_sec_gte_p", mpn_sec_gte_p(a, d, n), sg >= 0, "x=%s y=%s", x.hex().c_str(), y.hex().c_str());
      eqi("mpn_sec_equal_p", mpn_sec_equal_p(a, d, n), sg == 0, "x=%s y=%s", x.hex().c_str(), y.hex().c_str());
      Z zz = r.chance(1, 2) ? Z(0) : r.chance(1, 2) ? pow2(r.below(n * MP_LIMB_BITS)) : x;
      V vz(zz, n);
      eqi("mpn_sec_zero_p", mpn_sec_zero_p(vz, n), zz.zero(), "x=%s", zz.hex().c_str());
      eqi("mpn_zero_p", mpn_zero_p(vz, n), zz.zero(), "x=%s", zz.hex().c_str());
      break;
    }
    case 5: {
      // reductions: weak, Barrett, Montgomery
      Z mod = y;
      if (!mod.bit(n * MP_LIMB_BITS - 1) && r.chance(1, 2)) mod = mod + pow2(n * MP_LIMB_BITS - 1);
      if (mod.bits() <= (n - 1) * MP_LIMB_BITS) mod = mod + pow2((n - 1) * MP_LIMB_BITS);
      V vm(mod, n);
      Z t = x % (r.chance(1, 2) ? mod : (mod * Z(2)));
      if (r.chance(1, 4)) t = mod + Z((long)r.below(3) - 1);
      if (t >= mod * Z(2)) t = mod * Z(2) - Z(1);
      if (t.sgn() < 0) t = Z(0);
      {
        V vt(t % B, n), z(n), s(MPN_REDUCE_WEAK_ITCH(n));
        int ret = mpn_reduce_weak(z, vt, vm, n, (mp_limb_t)(t / B).ui(), s);
        if (z.get() != t % mod || ret != (t >= mod)) viol("mpn_reduce_weak", "x=%s m=%s", t.hex().c_str(), mod.hex().c_str());
      }
      size_t shift = 2 * n + r.below(3);
      bool pow_b = mod == pow2((n - 1) * MP_LIMB_BITS) ;
      if (!pow_b) {
        V bar(shift - n + 1), sb(MPN_BARRETT_ITCH(shift));
        mpn_barrett(bar, vm, n, shift, sb);
        Z w = r.chance(1, 3) ? mod * big::from_le(limbs(r, n)) - Z(1) : big::from_le(limbs(r, shift));
        if (w.sgn() < 0) w = Z(0);
        w = w % pow2(shift * MP_LIMB_BITS);
        V vw(w, shift), z(n), sr(MPN_REDUCE_ITCH(n, shift));
        mpn_reduce(z, vw, bar, vm, n, shift, sr);
        if (z.get() != w % mod) viol("mpn_reduce", "n=%zu shift=%zu x=%s m=%s got %s", n, shift, w.hex().c_str(), mod.hex().c_str(), z.get().hex().c_str());
      }
      if (!mod.odd()) mod = mod + Z(1);
      if (mod < B) {
        V vo(mod, n), rr(n), sc(MPN_MONT_ITCH(n));
        mp_limb_t k;
        mpn_mont(&k, rr, vo, n, sc);
        if (rr.get() != pow2(2 * n * MP_LIMB_BITS) % mod) viol("mpn_mont", "m=%s", mod.hex().c_str());
        Z a = r.chance(1, 4) ? mod - Z(1) : x % mod, b = r.chance(1, 4) ? mod - Z(1) : big::from_le(limbs(r, n)) % mod, Ri = big::inv(B % mod, mod);
        if (mod == Z(1)) Ri = Z(0);
        V va(a, n), vb(b, n), z(n), z2(n), s2(MPN_MONTMUL_ITCH(n)), s3(MPN_MONTMUL_ITCH(n));
        mpn_sec_montmul(z, va, vb, vo, n, k, s2);
        if (z.get() != a * b * Ri % mod) viol("mpn_sec_montmul", "m=%s a=%s b=%s", mod.hex().c_str(), a.hex().c_str(), b.hex().c_str());
        mpn_montmul(z2, va, vb, vo, n, k, s3);
        if (z2.get() % mod != a * b * Ri % mod) viol("mpn_montmul", "m=%s a=%s b=%s", mod.hex().c_str(), a.hex().c_str(), b.hex().c_str());
      }
      break;
    }
  }
  if (vx.get() != x || vys.get() != ys) viol("mpn-operand-changed", "n=%zu", n);
  ev("mpn");
  eval(key(x, key(y, c.idx % 6)));
}

// histories on a small set of variables with shared storage: results depend on values only
VH_TEST(history, 3000, 6) {
  Z m[5];
  std::unique_ptr<L> l[5];
  for (int i = 0; i < 5; i++) { m[i] = integer(c.rng, 6); l[i].reset(new L(m[i])); }
  for (int step = 0; step < 60; step++) {
    int z = c.rng.below(5), x = c.rng.below(5), y = c.rng.below(5);
    const B &op = bin[c.rng.below(NBIN)];
    ul n = c.rng.below(150);
    int kind = c.rng.below(10);
    if (kind < 6) {
      if (op.div && m[y].zero()) continue;
      Z w = op.m(m[x], m[y]);
      op.f(*l[z], *l[x], *l[y]);
      m[z] = w;
    } else if (kind == 6) { Z w = m[x] >> n; mpz_div_2exp(*l[z], *l[x], n); m[z] = w; }
    else if (kind == 7) { Z w = m[x] << n; mpz_mul_2exp(*l[z], *l[x], n); m[z] = w; }
    else if (kind == 8) { mpz_swap(*l[z], *l[x]); std::swap(m[z], m[x]); }
    else if (kind == 9) { ul bits = c.rng.below(400); mpz_realloc2(*l[z], bits); Z g = l[z]->get(); if (g != m[z] && !g.zero()) viol("realloc2", "value changed"); m[z] = g; }
    if (m[z].bits() > 3000) { Z w = m[z] % (pow2(200) - Z(1)); L d(pow2(200) - Z(1)); mpz_mod(*l[z], *l[z], d); m[z] = w; }
    for (int i = 0; i < 5; i++) if (l[i]->get() != m[i]) { viol("history", "variable %d wrong after step %d (%s)", i, step, op.name); return; }
    ev("history_steps");
  }
  eval(key(m[0], key(m[1], 5)));
}
