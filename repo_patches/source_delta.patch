From 54abde0400bc11b931dbf6a49554194d03c90843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:23 +0000
Subject: [PATCH 01/16] fix: squeeze the keccak sponge again when more than one
 block of output is asked for

keccak_final() and the SHAKE functions accept up to 200 bytes of output
but copied them straight out of the state. Past the rate this returned
the capacity part of the state instead of further XOF output.
---
 src/hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index cbe0695..9e5fbac 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -1106,6 +1106,16 @@ keccak_final(keccak_t *ctx, unsigned char *out, unsigned int pad, size_t len) {
 
   keccak_transform(ctx, ctx->block);
 
+  while (len > ctx->bs) {
+    for (i = 0; i < (ctx->bs >> 3); i++)
+      write64le(out + i * 8, ctx->state[i]);
+
+    keccak_compress(ctx);
+
+    out += ctx->bs;
+    len -= ctx->bs;
+  }
+
   count = len >> 3;
 
   for (i = 0; i < count; i++)
-- 
2.43.0


From cfdebe3e6f7cbdaffd682487230b74e187a975d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 02/16] fix: size the CCM length field from the nonce

A nonce shorter than 13 bytes leaves more room for the length field.
The field was sized from the message alone and the nonce padded with
zeros, so nonces of 7 to 12 bytes did not follow RFC 3610.
---
 src/cipher.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cipher.c b/src/cipher.c
index 659f392..625e8df 100644
--- a/src/cipher.c
+++ b/src/cipher.c
@@ -6874,9 +6874,8 @@ ccm_setup(ccm_t *mode, const cipher_t *cipher,
   size_t Adata = (aad_len > 0);
   size_t lm = msg_len;
   size_t L = ccm_log256(lm);
-  size_t N = 15 - L;
   size_t M = tag_len;
-  size_t i;
+  size_t N, i;
 
   /* Sanity checks (should already be initialized). */
   if (cipher->size != 16)
@@ -6885,6 +6884,12 @@ ccm_setup(ccm_t *mode, const cipher_t *cipher,
   if (iv_len < 7 || iv_len > 13)
     return 0;
 
+  /* The length field takes what the nonce leaves. */
+  if (L < 15 - iv_len)
+    L = 15 - iv_len;
+
+  N = 15 - L;
+
   if (N < 7 || N > 13)
     return 0;
 
-- 
2.43.0


From 2b41c8845f29d4a7ad5c7a57f51739e18ff7b3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:40 +0000
Subject: [PATCH 03/16] fix: widen AES table bytes before shifting them into
 the top byte

The byte is promoted to int, so shifting it left by 24 overflows for
values above 127.
---
 src/cipher.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cipher.c b/src/cipher.c
index 625e8df..82c4e86 100644
--- a/src/cipher.c
+++ b/src/cipher.c
@@ -990,25 +990,25 @@ aes_decrypt(const aes_t *ctx, unsigned char *dst, const unsigned char *src) {
        ^ K[3];
   }
 
-  s0 = (TD4[(t0 >> 24) & 0xff] << 24)
+  s0 = ((uint32_t)TD4[(t0 >> 24) & 0xff] << 24)
      ^ (TD4[(t3 >> 16) & 0xff] << 16)
      ^ (TD4[(t2 >>  8) & 0xff] <<  8)
      ^ (TD4[(t1 >>  0) & 0xff] <<  0)
      ^ K[0];
 
-  s1 = (TD4[(t1 >> 24) & 0xff] << 24)
+  s1 = ((uint32_t)TD4[(t1 >> 24) & 0xff] << 24)
      ^ (TD4[(t0 >> 16) & 0xff] << 16)
      ^ (TD4[(t3 >>  8) & 0xff] <<  8)
      ^ (TD4[(t2 >>  0) & 0xff] <<  0)
      ^ K[1];
 
-  s2 = (TD4[(t2 >> 24) & 0xff] << 24)
+  s2 = ((uint32_t)TD4[(t2 >> 24) & 0xff] << 24)
      ^ (TD4[(t1 >> 16) & 0xff] << 16)
      ^ (TD4[(t0 >>  8) & 0xff] <<  8)
      ^ (TD4[(t3 >>  0) & 0xff] <<  0)
      ^ K[2];
 
-  s3 = (TD4[(t3 >> 24) & 0xff] << 24)
+  s3 = ((uint32_t)TD4[(t3 >> 24) & 0xff] << 24)
      ^ (TD4[(t2 >> 16) & 0xff] << 16)
      ^ (TD4[(t1 >>  8) & 0xff] <<  8)
      ^ (TD4[(t0 >>  0) & 0xff] <<  0)
-- 
2.43.0


From 7ee0bf884a998b358b572c2853723b55cdc2d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:20 +0000
Subject: [PATCH 04/16] fix: stop when there is nothing to iterate in the PGP
 key derivation

With an empty password and an empty salt the input never advances and
the loop did not end.
---
 src/kdf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdf.c b/src/kdf.c
index d9ac09b..cd60baf 100644
--- a/src/kdf.c
+++ b/src/kdf.c
@@ -894,7 +894,7 @@ pgpdf_derive_iterated(unsigned char *out,
   if (total < salt_len)
     return 0;
 
-  if (count < total)
+  if (count < total || total == 0)
     count = total;
 
   i = 0;
@@ -907,7 +907,7 @@ pgpdf_derive_iterated(unsigned char *out,
 
     left = count;
 
-    while (left >= total) {
+    while (left > 0 && left >= total) {
       hash_update(&hash, salt, salt_len);
       hash_update(&hash, pass, pass_len);
 
-- 
2.43.0


From c5211e12b81a353c9596f7ad71d5e7a07faaaaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:54 +0000
Subject: [PATCH 05/16] fix: carry and borrow when setting or clearing bits of
 negative integers

mpz_setbit and mpz_clrbit act on the two's complement form of a negative
integer. When every bit below the requested one was zero they changed the
magnitude without the carry or borrow, giving a wrong result.
---
 src/mpi.c | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 4c1a0d1..48705b1 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7212,54 +7212,56 @@ mpz_tstbit(mpz_srcptr x, mp_bits_t pos) {
 }
 
 static void
-mpz_setbit_abs(mpz_ptr z, mp_bits_t pos) {
+mpz_addbit_abs(mpz_ptr z, mp_bits_t pos) {
   mp_size_t s = pos / MP_LIMB_BITS;
   mp_bits_t r = pos % MP_LIMB_BITS;
   mp_size_t zn = MP_ABS(z->size);
-  mp_limb_t *zp = z->limbs;
+  mp_limb_t *zp = mpz_grow(z, MP_MAX(zn, s + 1) + 1);
 
-  if (zn < s + 1) {
-    zp = mpz_grow(z, s + 1);
+  while (zn < s + 1)
+    zp[zn++] = 0;
 
-    while (zn < s + 1)
-      zp[zn++] = 0;
+  zp[zn] = mpn_add_1(zp + s, zp + s, zn - s, MP_LIMB_C(1) << r);
 
-    z->size = z->size < 0 ? -zn : zn;
-  }
+  zn += (zp[zn] != 0);
 
-  zp[s] |= MP_LIMB_C(1) << r;
+  z->size = z->size < 0 ? -zn : zn;
 }
 
 static void
-mpz_clrbit_abs(mpz_ptr z, mp_bits_t pos) {
+mpz_subbit_abs(mpz_ptr z, mp_bits_t pos) {
   mp_size_t s = pos / MP_LIMB_BITS;
   mp_bits_t r = pos % MP_LIMB_BITS;
   mp_size_t zn = MP_ABS(z->size);
   mp_limb_t *zp = z->limbs;
 
-  if (s < zn) {
-    zp[s] &= ~(MP_LIMB_C(1) << r);
+  mpn_sub_1(zp + s, zp + s, zn - s, MP_LIMB_C(1) << r);
 
-    zn = mpn_strip(zp, zn);
+  zn = mpn_strip(zp, zn);
 
-    z->size = z->size < 0 ? -zn : zn;
-  }
+  z->size = z->size < 0 ? -zn : zn;
 }
 
 void
 mpz_setbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
-    mpz_clrbit_abs(z, pos);
+  if (mpz_tstbit(z, pos))
+    return;
+
+  if (z->size < 0)
+    mpz_subbit_abs(z, pos);
   else
-    mpz_setbit_abs(z, pos);
+    mpz_addbit_abs(z, pos);
 }
 
 void
 mpz_clrbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
-    mpz_setbit_abs(z, pos);
+  if (!mpz_tstbit(z, pos))
+    return;
+
+  if (z->size < 0)
+    mpz_addbit_abs(z, pos);
   else
-    mpz_clrbit_abs(z, pos);
+    mpz_subbit_abs(z, pos);
 }
 
 void
-- 
2.43.0


From bdf3a9d753649a26c3e808792a21fe0e94528ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:22 +0000
Subject: [PATCH 06/16] fix: return F[-1] and L[-1] as the second output at
 index zero

mpz_fib2_ui(0) and mpz_lucnum2_ui(0) stored zero for the preceding number.
The Fibonacci and Lucas recurrences give 1 and -1.
---
 src/mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 48705b1..1ddb8a7 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -8396,7 +8396,7 @@ mpz_fib2_ui(mpz_ptr fn, mpz_ptr fn1, mp_limb_t n) {
 
   if (n == 0) {
     if (fn1 != NULL)
-      fn1->size = 0;
+      mpz_set_ui(fn1, 1);
 
     fn->size = 0;
 
@@ -8455,7 +8455,7 @@ mpz_lucnum2_ui(mpz_ptr ln, mpz_ptr ln1, mp_limb_t n) {
 
   if (n == 0) {
     if (ln1 != NULL)
-      ln1->size = 0;
+      mpz_set_si(ln1, -1);
 
     mpz_set_ui(ln, 2);
 
-- 
2.43.0


From fafdbfa9415d1d06c62d528f8e7e4e36fc7deb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:55 +0000
Subject: [PATCH 07/16] fix: gcdext cofactor sign when an output aliases an
 operand

With one operand zero, mpz_gcdext read the sign of the other operand after
an output sharing its storage had been written.
---
 src/mpi.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 1ddb8a7..672d4ce 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7486,8 +7486,11 @@ mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr x, mpz_srcptr y) {
    */
   mpz_t u, v, A, B, C, D, up, vp;
   mp_bits_t uz, vz, shift;
+  int sign;
 
   if (x->size == 0) {
+    sign = mpz_sgn(y);
+
     if (g != NULL)
       mpz_abs(g, y);
 
@@ -7495,17 +7498,19 @@ mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr x, mpz_srcptr y) {
       s->size = 0;
 
     if (t != NULL)
-      mpz_set_si(t, mpz_sgn(y));
+      mpz_set_si(t, sign);
 
     return;
   }
 
   if (y->size == 0) {
+    sign = mpz_sgn(x);
+
     if (g != NULL)
       mpz_abs(g, x);
 
     if (s != NULL)
-      mpz_set_si(s, mpz_sgn(x));
+      mpz_set_si(s, sign);
 
     if (t != NULL)
       t->size = 0;
-- 
2.43.0


From 3bcde03586413cb6b2145046fa7158f1cae182ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:06 +0000
Subject: [PATCH 08/16] fix: use every bit of an unreduced scalar when
 multiplying on Ed1174

edwards_mul derived its window count from the field width. On Ed1174 that
covers 252 bits, so eddsa_pubkey_tweak_mul silently ignored the top four
bits of a 32 byte scalar. Derive the count from the scalar size instead.
---
 src/ecc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ecc.c b/src/ecc.c
index 9a869c6..443c6a9 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7406,9 +7406,8 @@ edwards_mul(const edwards_t *ec, xge_t *r, const xge_t *p, const sc_t k) {
    * [ECPM] "Windowed method".
    * [GECC] Page 95, Section 3.3.
    */
-  const prime_field_t *fe = &ec->fe;
   const scalar_field_t *sc = &ec->sc;
-  mp_bits_t steps = WND_STEPS(fe->bits);
+  mp_bits_t steps = WND_STEPS(sc->size * 8);
   xge_t wnd[WND_SIZE]; /* 4608 bytes */
   mp_bits_t i, j, b;
   xge_t t;
-- 
2.43.0


From 64c80ebfa743f78d7935151872987a3d575cd43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:00 +0000
Subject: [PATCH 09/16] fix: initialise the tweak in ristretto_pubkey_grind

The accumulated tweak was never set to zero, so the function added stack
garbage to it. The returned tweak, and keys from ristretto_privkey_grind,
did not match the public key that the callback had accepted.
---
 src/ecc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 443c6a9..b9fd731 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -14618,6 +14618,8 @@ ristretto_pubkey_grind(const edwards_t *ec,
   if (!rge_import(ec, &A, pub))
     return 0;
 
+  sc_zero(sc, t);
+
   do {
     xge_mixed_add(ec, &A, &A, &ec->g);
 
-- 
2.43.0


From 57accc444e5d30397a86c06053c937156c3787a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:53 +0000
Subject: [PATCH 10/16] fix: align the Ed448 Ristretto constants with the
 56-byte field

The constants used by the Ed448 Ristretto map were stored with eight
leading zero bytes, but they are read as 56-byte values. Every constant
was shifted right by 64 bits, so the map produced values which are not on
the curve and its inverse did not undo it.
---
 src/ecc.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/ecc.c b/src/ecc.c
index b9fd731..c2ace98 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -9626,7 +9626,6 @@ static const ristretto_def_t ristretto_ed25519 = {
 
 static const ristretto_def_t ristretto_ed448 = {
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
@@ -9636,7 +9635,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xdd, 0x26, 0x9d, 0x04, 0x14, 0xdb, 0x08, 0x97,
     0xc4, 0x09, 0x72, 0x8d, 0xd0, 0x5d, 0x95, 0x5f,
     0x5e, 0x0e, 0x58, 0x47, 0x5a, 0x47, 0x2a, 0xb4,
@@ -9646,7 +9644,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x69, 0xbd, 0x10, 0xf0, 0xba, 0xa8, 0xd8, 0xc9
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0x12, 0xfe, 0xc0, 0xc0, 0xb2, 0x5b, 0x7a, 0x49,
     0x44, 0x3b, 0x87, 0x48, 0x73, 0x4a, 0xdc, 0xac,
     0x46, 0x28, 0xc5, 0xf6, 0x56, 0xa4, 0x9f, 0x7b,
@@ -9656,7 +9653,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x79, 0xd2, 0xe2, 0x18, 0x36, 0x74, 0x9f, 0x46
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xdf, 0x64, 0x97, 0xe8, 0x36, 0xd1, 0x56, 0x79,
     0x5a, 0x71, 0x30, 0xf4, 0x3e, 0x77, 0x86, 0x9a,
     0x11, 0x73, 0xae, 0x0c, 0x1e, 0x2c, 0x4c, 0x2b,
@@ -9666,7 +9662,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x5a, 0x06, 0x38, 0xbe, 0xa7, 0x8f, 0x0f, 0xeb
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0x18, 0xa4, 0xc3, 0x28, 0x4c, 0xb8, 0xad, 0x25,
     0xad, 0xee, 0xea, 0x76, 0x1f, 0x20, 0xf6, 0x83,
     0xbf, 0x3a, 0x1e, 0x14, 0xa5, 0xcf, 0x79, 0x00,
-- 
2.43.0


From b04c95cf29125288aed85a55382200089661b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:53 +0000
Subject: [PATCH 11/16] fix: map zero to the identity in the Ristretto
 elligator

The map prefers the second root when r = 0, and its inverse relies on
this to return zero for the identity. On Ed1174 the first root exists at
r = 0 and was used instead, so the inverse did not undo the map.
---
 src/ecc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index c2ace98..94e9a46 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7967,6 +7967,9 @@ ristretto_elligator(const edwards_t *ec, rge_t *p0, const fe_t r0) {
   /* S = sqrt(NS / D) */
   sqr = fe_rsqrt(fe, s, ns, d);
 
+  /* Prefer the second root if R = 0. */
+  sqr &= fe_is_zero(fe, r) ^ 1;
+
   /* S' = S * R0 */
   fe_mul(fe, sp, s, r0);
 
-- 
2.43.0


From 061ac73f86579b2fac6199d8f856fe44e809e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:28 +0000
Subject: [PATCH 12/16] fix: do not report zero as the preimage of a point it
 does not map to

The inverse maps could succeed with u = 0 for a point which u = 0 does not
map to: x = -b / a on P192 and P384, one point of odd y on secp256k1, and
the points x = 0 and x = -A of Ed1174.
---
 src/ecc.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 94e9a46..1fab258 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -4944,6 +4944,8 @@ wei_sswui(const wei_t *ec, fe_t u, const wge_t *p, unsigned int hint) {
 
   fe_set_odd(fe, u, u, fe_is_odd(fe, p->y));
 
+  /* Zero maps to x = B / (z * A). */
+  ret &= fe_is_zero(fe, u) ^ 1;
   ret &= p->inf ^ 1;
 
   return ret;
@@ -5166,6 +5168,8 @@ wei_svdwi(const wei_t *ec, fe_t u, const wge_t *p, unsigned int hint) {
 
   fe_set_odd(fe, u, u, fe_is_odd(fe, p->y));
 
+  /* Zero has no sign. */
+  ret &= (fe_is_zero(fe, u) & fe_is_odd(fe, p->y)) ^ 1;
   ret &= p->inf ^ 1;
 
   return ret;
@@ -7755,6 +7759,12 @@ edwards_invert2(const edwards_t *ec, fe_t u,
 
   fe_set_odd(fe, u, u, fe_is_odd(fe, y0));
 
+  /* Zero has no sign, and maps to x = 0 only if g(-A) is not square. */
+  fe_neg(fe, n, ec->A0);
+  edwards_solve_y0(ec, d, n);
+  ret &= (fe_is_zero(fe, u) & fe_is_odd(fe, y0)) ^ 1;
+  ret &= (fe_is_zero(fe, x0) & fe_is_square(fe, d)) ^ 1;
+
   ret &= m.inf ^ 1;
 
   return ret;
-- 
2.43.0


From 2330e4801bb6210c9f97f25abf5d410beb443529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:53 +0000
Subject: [PATCH 13/16] fix: recover RSA primes from (n, e, d) when both are 3
 mod 4

The search for a square root of unity stopped one squaring early. When
e * d - 1 has a single factor of two no squaring was done at all, so
importing a valid key without its primes always failed.
---
 src/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa.c b/src/rsa.c
index 0d1ff8d..4ed1f53 100644
--- a/src/rsa.c
+++ b/src/rsa.c
@@ -865,7 +865,7 @@ rsa_priv_set_ned(rsa_priv_t *out,
     if (mpz_cmp_ui(b, 1) == 0 || mpz_cmp(b, nm1) == 0)
       continue;
 
-    for (j = 1; j < s; j++) {
+    for (j = 1; j <= s; j++) {
       /* c = b^2 mod n */
       mpz_sqr(c, b);
       mpz_mod(c, c, n);
-- 
2.43.0


From 3c3589772eb163d52e0332b706f051c64f528126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:53 +0000
Subject: [PATCH 14/16] fix: stop DSA signing with a malformed key from looping
 forever

A key that passes the range checks can still make r or s zero for every
nonce. Signing now gives up after 128 attempts, which a valid key never
reaches.
---
 src/dsa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dsa.c b/src/dsa.c
index 6630504..a88c0cc 100644
--- a/src/dsa.c
+++ b/src/dsa.c
@@ -1332,7 +1332,7 @@ dsa_sign(unsigned char *out, size_t *out_len,
   dsa_priv_t priv;
   size_t qsize;
   dsa_sig_t S;
-  int ret = 0;
+  int i, ret = 0;
 
   mpz_init(m);
   mpz_init(b);
@@ -1360,7 +1360,8 @@ dsa_sign(unsigned char *out, size_t *out_len,
   drbg_init(&drbg, HASH_SHA256, bytes, qsize * 2);
   drbg_init(&rng, HASH_SHA256, entropy, ENTROPY_SIZE);
 
-  for (;;) {
+  /* Only a bogus key can use up all attempts. */
+  for (i = 0; i < 128; i++) {
     mpz_urandomm(b, priv.q, drbg_rng, &rng);
 
     if (mpz_sgn(b) == 0)
-- 
2.43.0


From e7749eb45af2ae8eca35ea9fa9ca2d5c31f3090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:01 +0000
Subject: [PATCH 15/16] fix: keep the value barrier when inline assembly is
 disabled

Without inline assembly the barrier returned its argument unchanged.
The compiler could then see through masks made from secret bits and turn
constant-time selects into branches or secret-dependent addresses.
Pass the value through a volatile variable instead.
---
 src/internal.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal.h b/src/internal.h
index 259841b..c9108ec 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -501,7 +501,8 @@ prefix ## _barrier(type x) {          \
 #define TORSION_BARRIER(type, prefix) \
 static TORSION_INLINE type            \
 prefix ## _barrier(type x) {          \
-  return x;                           \
+  volatile type y = x;                \
+  return y;                           \
 }
 #endif
 
-- 
2.43.0


From 40e351d982285ead58f8e3986cddc7bedb3692ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:01 +0000
Subject: [PATCH 16/16] fix: wipe the old limbs when a growing integer moves

mpz_grow used realloc, which releases the old block with its content.
A DSA nonce was left readable in freed memory that way, although the
integer itself is cleansed at the end.
---
 src/mpi.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index 672d4ce..f1ce69a 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -5263,7 +5263,14 @@ mpz_grow(mpz_ptr z, mp_size_t n) {
   ASSERT(z->alloc > 0);
 
   if (n > z->alloc) {
-    z->limbs = mp_realloc_limbs(z->limbs, n);
+    /* Avoid realloc: it would release our limbs as they are. */
+    mp_limb_t *zp = mp_alloc_limbs(n);
+
+    mpn_copyi(zp, z->limbs, z->alloc);
+    mpn_cleanse(z->limbs, z->alloc);
+    mp_free_limbs(z->limbs);
+
+    z->limbs = zp;
     z->alloc = n;
   }
 
-- 
2.43.0

