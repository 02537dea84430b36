From f93e2613a14786603c8aaab03bcaa4df6c812616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 01/31] fix: p256 Add returns a, not infinity, when b is the
 point at infinity

---
 crypto/p256/p256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index 288d2b2..d3eeb65 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -77,8 +77,8 @@ func (p *P256) Add(a, b *P256) *P256 {
         p.Y = b.Y
         return p
     } else if b.IsZero() {
-        p.X = b.X
-        p.Y = b.Y
+        p.X = a.X
+        p.Y = a.Y
         return p
 
     }
-- 
2.43.0


From 9fcc06ea0bbd6bbd4ebaafd6e4e1ce8090464db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 02/31] fix: p256 Neg negates its argument, not its receiver

---
 crypto/p256/p256.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index d3eeb65..bef3ded 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -64,7 +64,7 @@ func (p *P256) Neg(a *P256) *P256 {
     }
     one := new(big.Int).SetInt64(1)
     mone := new(big.Int).Sub(CURVE.N, one)
-    p.ScalarMult(p, mone)
+    p.ScalarMult(a, mone)
     return p
 }
 
-- 
2.43.0


From 9096e1b9dcb421d29bc9aaca8d6712ae6100cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 03/31] fix: verifying an inner product proof no longer
 modifies it

---
 bulletproofs/bip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index badb065..fd675fa 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -227,7 +227,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
     gprime := proof.Params.Gg
     hprime := proof.Params.Hh
-    Pprime := proof.Params.P
+    // work on a copy: verifying must not change the proof
+    Pprime := new(p256.P256).Multiply(proof.Params.P, new(p256.P256).SetInfinity())
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
-- 
2.43.0


From bad56706e10ee7a56942905b33cc967795a14262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 04/31] fix: HashBP derives its second challenge from the
 second buffer

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7a4fd37..0f9ee2d 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -71,7 +71,7 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer2.WriteString(S.X.String())
     buffer2.WriteString(S.Y.String())
     buffer2.WriteString(result1.String())
-    digest2.Write(buffer.Bytes())
+    digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
     tmp2 := output2[0:]
     result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From 39af54677e1fc7aec1bc967b17cc1598d68eaa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 05/31] fix: IsPowerOfTwo rejects math.MinInt64

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 0f9ee2d..7cba23e 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -130,5 +130,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-    return (x != 0) && ((x & (x - 1)) == 0)
+    return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From a3616211dba53a47750dbb3ccee38cff5822fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 06/31] fix: Keygen reports an error only when key generation
 failed

---
 crypto/bbsignatures/bb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index 578ffea..b0b2346 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -52,7 +52,7 @@ func Keygen() (Keypair, error) {
         return kp, e
     }
     kp.Pubk, res = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(kp.Privk).Marshal())
-    if res {
+    if !res {
         return kp, errors.New("Could not compute scalar multiplication.")
     }
     return kp, e
-- 
2.43.0


From 4018c0b4066991fb9456f8cbf9542a0bfd136cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:56 +0000
Subject: [PATCH 07/31] fix: Sign returns an error instead of panicking when m
 + privk = 0

---
 crypto/bbsignatures/bb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index b0b2346..1d5437b 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -67,6 +67,9 @@ func Sign(m *big.Int, privk *big.Int) (*bn256.G2, error) {
         signature *bn256.G2
     )
     inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)
+    if inv == nil {
+        return nil, errors.New("Message can not be signed with this private key.")
+    }
     signature, res = new(bn256.G2).Unmarshal(new(bn256.G2).ScalarBaseMult(inv).Marshal())
     if res {
         return signature, nil
-- 
2.43.0


From 07805c6f53af714f7a8a872d4f0121b4859e7fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:28 +0000
Subject: [PATCH 08/31] fix: point doubling in G1 and G2 is correct when the
 receiver is the argument

---
 crypto/bn256/curve.go | 9 +++++----
 crypto/bn256/twist.go | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 6ad76e4..0a0c271 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -213,6 +213,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     f := pool.Get().Mul(e, e)
     f.Mod(f, P)
 
+    // c may be a: z is computed before y is overwritten
+    t.Mul(a.y, a.z)
+    t.Mod(t, P)
+    c.z.Add(t, t)
+
     t.Add(d, d)
     c.x.Sub(f, t)
 
@@ -224,10 +229,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     t2.Mod(t2, P)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z)
-    t.Mod(t, P)
-    c.z.Add(t, t)
-
     pool.Put(A)
     pool.Put(B)
     pool.Put(C_)
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d59b228..b475682 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -191,6 +191,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     e := newGFp2(pool).Add(t, A)
     f := newGFp2(pool).Square(e, pool)
 
+    // c may be a: z is computed before y is overwritten
+    t.Mul(a.y, a.z, pool)
+    c.z.Add(t, t)
+
     t.Add(d, d)
     c.x.Sub(f, t)
 
@@ -201,9 +205,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     t2.Mul(e, c.y, pool)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z, pool)
-    c.z.Add(t, t)
-
     A.Put(pool)
     B.Put(pool)
     C_.Put(pool)
-- 
2.43.0


From c72018ddda804b91d6d837414a0ae1e839abeff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:28 +0000
Subject: [PATCH 09/31] fix: negating a G2 point in place no longer zeroes its
 y coordinate

---
 crypto/bn256/twist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index b475682..4fe86f1 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -258,8 +258,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
     c.x.Set(a.x)
-    c.y.SetZero()
-    c.y.Sub(c.y, a.y)
+    c.y.Negative(a.y)
     c.z.Set(a.z)
     c.t.SetZero()
 }
-- 
2.43.0


From cc9ccc2615745db289df6ce4489140f03b694fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:28 +0000
Subject: [PATCH 10/31] fix: twistPoint.MakeAffine restores t = z^2 for points
 that are already affine

---
 crypto/bn256/twist.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 4fe86f1..d44ce7b 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -237,6 +237,8 @@ func (c *twistPoint) Mul(a *twistPoint, scalar *big.Int, pool *bnPool) *twistPoi
 
 func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
     if c.z.IsOne() {
+        // t is not maintained by every operation (e.g. Negative)
+        c.t.SetOne()
         return c
     }
 
-- 
2.43.0


From 1c7d9222fbc73fc8d268bfcce9dd4979a7f35e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:29 +0000
Subject: [PATCH 11/31] fix: twistPoint.MakeAffine keeps the point at infinity

---
 crypto/bn256/twist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d44ce7b..43f2551 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -242,6 +242,13 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
         return c
     }
 
+    if c.IsInfinity() {
+        c.x.SetZero()
+        c.y.SetZero()
+        c.t.SetZero()
+        return c
+    }
+
     zInv := newGFp2(pool).Invert(c.z, pool)
     t := newGFp2(pool).Mul(c.y, zInv, pool)
     zInv2 := newGFp2(pool).Square(zInv, pool)
-- 
2.43.0


From fa21cc734fe4a64649c405ce9a8439d740b4e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:29 +0000
Subject: [PATCH 12/31] fix: the string form of a G2 point does not depend on
 its representation

---
 crypto/bn256/twist.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 43f2551..f96a8ec 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -65,6 +65,7 @@ func newTwistPoint(pool *bnPool) *twistPoint {
 }
 
 func (c *twistPoint) String() string {
+    c.MakeAffine(new(bnPool))
     return "(" + c.x.String() + ", " + c.y.String() + ", " + c.z.String() + ")"
 }
 
-- 
2.43.0


From ac5c66be58e84763cd47f46db01144a3b8e02e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:29 +0000
Subject: [PATCH 13/31] fix: gfP12 Conjugate returns, and MulScalar uses, the
 documented operand

---
 crypto/bn256/gfp12.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/bn256/gfp12.go b/crypto/bn256/gfp12.go
index 1974234..dc54e05 100644
--- a/crypto/bn256/gfp12.go
+++ b/crypto/bn256/gfp12.go
@@ -80,7 +80,7 @@ func (e *gfP12) IsOne() bool {
 func (e *gfP12) Conjugate(a *gfP12) *gfP12 {
     e.x.Negative(a.x)
     e.y.Set(a.y)
-    return a
+    return e
 }
 
 func (e *gfP12) Negative(a *gfP12) *gfP12 {
@@ -138,8 +138,8 @@ func (e *gfP12) Mul(a, b *gfP12, pool *bnPool) *gfP12 {
 }
 
 func (e *gfP12) MulScalar(a *gfP12, b *gfP6, pool *bnPool) *gfP12 {
-    e.x.Mul(e.x, b, pool)
-    e.y.Mul(e.y, b, pool)
+    e.x.Mul(a.x, b, pool)
+    e.y.Mul(a.y, b, pool)
     return e
 }
 
-- 
2.43.0


From 925ecc45bf970b37fa917e2bd9aa56716e36737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:30 +0000
Subject: [PATCH 14/31] fix: GT exponentiation handles negative exponents and
 leaves its operand alone

---
 crypto/bn256/bn256.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 22275ed..a5fe5a0 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -356,18 +356,17 @@ func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
     if e.p == nil {
         e.p = newGFp12(nil)
     }
-    e.p.Exp(a.p, k, new(bnPool))
+    if k.Sign() >= 0 {
+        e.p.Exp(a.p, k, new(bnPool))
+    } else {
+        e.p.Exp(a.p, new(big.Int).Abs(k), new(bnPool))
+        e.p.Invert(e.p, new(bnPool))
+    }
     return e
 }
 
 func (e *GT) Exp(a *GT, k *big.Int) *GT {
-    var returnValue *GT
-    if k.Cmp(big.NewInt(0)) >= 0 {
-        returnValue = a.ScalarMult(a, k)
-    } else {
-        returnValue = a.Invert(a.ScalarMult(a, new(big.Int).Abs(k)))
-    }
-    return returnValue
+    return e.ScalarMult(a, k)
 }
 
 func (e *GT) Invert(a *GT) *GT {
-- 
2.43.0


From 41a7945bb59bed3c1023dd861af17f4d0f385a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:30 +0000
Subject: [PATCH 15/31] fix: G1 and G2 Unmarshal reject coordinates that are
 not reduced modulo P

---
 crypto/bn256/bn256.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index a5fe5a0..b4c9541 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -184,7 +184,7 @@ func (e *G1) Unmarshal(m []byte) (*G1, bool) {
         e.p.z.SetInt64(1)
         e.p.t.SetInt64(1)
 
-        if !e.p.IsOnCurve() {
+        if e.p.x.Cmp(P) >= 0 || e.p.y.Cmp(P) >= 0 || !e.p.IsOnCurve() {
             return nil, false
         }
     }
@@ -333,7 +333,8 @@ func (e *G2) Unmarshal(m []byte) (*G2, bool) {
         e.p.z.SetOne()
         e.p.t.SetOne()
 
-        if !e.p.IsOnCurve() {
+        if e.p.x.x.Cmp(P) >= 0 || e.p.x.y.Cmp(P) >= 0 ||
+            e.p.y.x.Cmp(P) >= 0 || e.p.y.y.Cmp(P) >= 0 || !e.p.IsOnCurve() {
             return nil, false
         }
     }
-- 
2.43.0


From c651478f8d601bce548ddb656989788c283538b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:30 +0000
Subject: [PATCH 16/31] fix: ToByteArray returns the minimal encoding of
 -2^(8k-1)

---
 util/byteconversion/conversion.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/byteconversion/conversion.go b/util/byteconversion/conversion.go
index eaa5c59..6413fb3 100644
--- a/util/byteconversion/conversion.go
+++ b/util/byteconversion/conversion.go
@@ -103,7 +103,12 @@ func ToByteArray(in *big.Int) []byte {
 
         convertedInt := new(big.Int).SetBytes(convertedBytes)
         convertedInt.Add(convertedInt, big.NewInt(1))
-        return convertedInt.Bytes()
+        convertedBytes = convertedInt.Bytes()
+        if len(convertedBytes) > 1 && convertedBytes[0] == 255 && (convertedBytes[1]&128) != 0 {
+            // the leading byte only repeats the sign bit (-2^(8k-1))
+            return convertedBytes[1:]
+        }
+        return convertedBytes
     }
 }
 
-- 
2.43.0


From dd95e1437422b00867dbb2f19b1b56043d47dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:30 +0000
Subject: [PATCH 17/31] fix: a lone minus sign is not a valid integer

---
 util/byteconversion/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/byteconversion/parse.go b/util/byteconversion/parse.go
index 0645c12..4daaadf 100644
--- a/util/byteconversion/parse.go
+++ b/util/byteconversion/parse.go
@@ -63,6 +63,9 @@ func ConvertToBigInt(in []byte) (*big.Int, error) {
     }
 
     s := string(in)
+    if s == "-" {
+        return nil, errInvalidBigInteger
+    }
     i := new(big.Int)
     i.SetString(s, 10)
     return i, nil
-- 
2.43.0


From 57cd3ff90dd70ec4f55f916360030788183e2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:12 +0000
Subject: [PATCH 18/31] fix: ccs08 Setup sizes the digits by the width of the
 interval

---
 ccs08/ccs08.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 602d579..247c02a 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -378,7 +378,7 @@ func (zkrp *ccs08) Setup(a, b int64) error {
         u = 57
         if u != 0 {
             l = 0
-            for i := b; i > 0; i = i / u {
+            for i := b - a; i > 0; i = i / u {
                 l = l + 1
             }
             params_out, e := SetupUL(u, l)
-- 
2.43.0


From 2417100a2980558894a1f6853f48e148fc347e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:12 +0000
Subject: [PATCH 19/31] fix: VerifySet and VerifyUL recompute the challenge,
 which now binds C and V

---
 ccs08/ccs08.go | 18 ++++++++++++++++--
 util/util.go   |  6 ++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 247c02a..cce7963 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -179,7 +179,7 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(new(big.Int).SetInt64(x), r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
+    proof_out.c, _ = Hash([]*bn256.GT{proof_out.a}, proof_out.D, proof_out.C, proof_out.V)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
@@ -243,7 +243,7 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(x, r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = Hash(proof_out.a, proof_out.D)
+    proof_out.c, _ = Hash(proof_out.a, append([]*bn256.G2{proof_out.D, proof_out.C}, proof_out.V...)...)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
@@ -266,6 +266,13 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // The challenge must be the one the commitments hash to.
+    c, _ := Hash([]*bn256.GT{proof_out.a}, proof_out.D, proof_out.C, proof_out.V)
+    c = bn.Mod(c, bn256.Order)
+    if proof_out.c.Cmp(c) != 0 {
+        return false, nil
+    }
+
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
@@ -302,6 +309,13 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // The challenge must be the one the commitments hash to.
+    c, _ := Hash(proof_out.a, append([]*bn256.G2{proof_out.D, proof_out.C}, proof_out.V...)...)
+    c = bn.Mod(c, bn256.Order)
+    if proof_out.c.Cmp(c) != 0 {
+        return false, nil
+    }
+
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
diff --git a/util/util.go b/util/util.go
index 3f7a682..1e2fea3 100644
--- a/util/util.go
+++ b/util/util.go
@@ -89,12 +89,14 @@ func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
 /*
 Hash is responsible for the computing a Zp element given elements from GT and G2.
 */
-func Hash(a []*bn256.GT, D *bn256.G2) (*big.Int, error) {
+func Hash(a []*bn256.GT, D ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     for i := range a {
         digest.Write([]byte(a[i].String()))
     }
-    digest.Write([]byte(D.String()))
+    for i := range D {
+        digest.Write([]byte(D[i].String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
-- 
2.43.0


From 3482349aa4e3e330307f6a07abb2cd1778c1f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:12 +0000
Subject: [PATCH 20/31] fix: ccs08 proofs no longer carry the secret nonces s,
 t and m

---
 ccs08/ccs08.go | 66 +++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index cce7963..75eda2f 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -76,22 +76,22 @@ type paramsUL struct {
 proofSet contains the necessary elements for the ZK Set Membership proof.
 */
 type proofSet struct {
-    V              *bn256.G2
-    D, C           *bn256.G2
-    a              *bn256.GT
-    s, t, zsig, zv *big.Int
-    c, m, zr       *big.Int
+    V        *bn256.G2
+    D, C     *bn256.G2
+    a        *bn256.GT
+    zsig, zv *big.Int
+    c, zr    *big.Int
 }
 
 /*
 proofUL contains the necessary elements for the ZK proof.
 */
 type proofUL struct {
-    V              []*bn256.G2
-    D, C           *bn256.G2
-    a              []*bn256.GT
-    s, t, zsig, zv []*big.Int
-    c, m, zr       *big.Int
+    V        []*bn256.G2
+    D, C     *bn256.G2
+    a        []*bn256.GT
+    zsig, zv []*big.Int
+    c, zr    *big.Int
 }
 
 /*
@@ -152,7 +152,7 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     // Initialize variables
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    m, _ := rand.Int(rand.Reader, bn256.Order)
 
     v, _ = rand.Int(rand.Reader, bn256.Order)
     A, ok := p.signatures[x]
@@ -162,17 +162,17 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     }
 
     // D = g^s.H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
-    proof_out.s, _ = rand.Int(rand.Reader, bn256.Order)
-    aux := new(bn256.G2).ScalarBaseMult(proof_out.s)
+    D := new(bn256.G2).ScalarMult(p.H, m)
+    s, _ := rand.Int(rand.Reader, bn256.Order)
+    aux := new(bn256.G2).ScalarBaseMult(s)
     D.Add(D, aux)
 
     proof_out.V = new(bn256.G2).ScalarMult(A, v)
-    proof_out.t, _ = rand.Int(rand.Reader, bn256.Order)
+    t, _ := rand.Int(rand.Reader, bn256.Order)
     proof_out.a = bn256.Pair(G1, proof_out.V)
-    proof_out.a.ScalarMult(proof_out.a, proof_out.s)
+    proof_out.a.ScalarMult(proof_out.a, s)
     proof_out.a.Invert(proof_out.a)
-    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, proof_out.t))
+    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, t))
     proof_out.D.Add(proof_out.D, D)
 
     // Consider passing C as input,
@@ -182,11 +182,11 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     proof_out.c, _ = Hash([]*bn256.GT{proof_out.a}, proof_out.D, proof_out.C, proof_out.V)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
-    proof_out.zsig = bn.Sub(proof_out.s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
+    proof_out.zsig = bn.Sub(s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
     proof_out.zsig = bn.Mod(proof_out.zsig, bn256.Order)
-    proof_out.zv = bn.Sub(proof_out.t, bn.Multiply(v, proof_out.c))
+    proof_out.zv = bn.Sub(t, bn.Multiply(v, proof_out.c))
     proof_out.zv = bn.Mod(proof_out.zv, bn256.Order)
     return proof_out, nil
 }
@@ -197,7 +197,7 @@ ProveUL method is used to produce the ZKRP proof that secret x belongs to the in
 func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     var (
         i         int64
-        v         []*big.Int
+        v, s, t   []*big.Int
         proof_out proofUL
     )
     decx, _ := Decompose(x, p.u, p.l)
@@ -206,30 +206,30 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     v = make([]*big.Int, p.l)
     proof_out.V = make([]*bn256.G2, p.l)
     proof_out.a = make([]*bn256.GT, p.l)
-    proof_out.s = make([]*big.Int, p.l)
-    proof_out.t = make([]*big.Int, p.l)
+    s = make([]*big.Int, p.l)
+    t = make([]*big.Int, p.l)
     proof_out.zsig = make([]*big.Int, p.l)
     proof_out.zv = make([]*big.Int, p.l)
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    m, _ := rand.Int(rand.Reader, bn256.Order)
 
     // D = H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
+    D := new(bn256.G2).ScalarMult(p.H, m)
     for i = 0; i < p.l; i++ {
         v[i], _ = rand.Int(rand.Reader, bn256.Order)
         A, ok := p.signatures[strconv.FormatInt(decx[i], 10)]
         if ok {
             proof_out.V[i] = new(bn256.G2).ScalarMult(A, v[i])
-            proof_out.s[i], _ = rand.Int(rand.Reader, bn256.Order)
-            proof_out.t[i], _ = rand.Int(rand.Reader, bn256.Order)
+            s[i], _ = rand.Int(rand.Reader, bn256.Order)
+            t[i], _ = rand.Int(rand.Reader, bn256.Order)
             proof_out.a[i] = bn256.Pair(G1, proof_out.V[i])
-            proof_out.a[i].ScalarMult(proof_out.a[i], proof_out.s[i])
+            proof_out.a[i].ScalarMult(proof_out.a[i], s[i])
             proof_out.a[i].Invert(proof_out.a[i])
-            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, proof_out.t[i]))
+            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, t[i]))
 
             ui := new(big.Int).Exp(new(big.Int).SetInt64(p.u), new(big.Int).SetInt64(i), nil)
-            muisi := new(big.Int).Mul(proof_out.s[i], ui)
+            muisi := new(big.Int).Mul(s[i], ui)
             muisi = bn.Mod(muisi, bn256.Order)
             aux := new(bn256.G2).ScalarBaseMult(muisi)
             D.Add(D, aux)
@@ -246,12 +246,12 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     proof_out.c, _ = Hash(proof_out.a, append([]*bn256.G2{proof_out.D, proof_out.C}, proof_out.V...)...)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
     for i = 0; i < p.l; i++ {
-        proof_out.zsig[i] = bn.Sub(proof_out.s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
+        proof_out.zsig[i] = bn.Sub(s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
         proof_out.zsig[i] = bn.Mod(proof_out.zsig[i], bn256.Order)
-        proof_out.zv[i] = bn.Sub(proof_out.t[i], bn.Multiply(v[i], proof_out.c))
+        proof_out.zv[i] = bn.Sub(t[i], bn.Multiply(v[i], proof_out.c))
         proof_out.zv[i] = bn.Mod(proof_out.zv[i], bn256.Order)
     }
     return proof_out, nil
-- 
2.43.0


From 0dda5511460caa212087ba108ae5f818cba17836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:12 +0000
Subject: [PATCH 21/31] fix: ccs08 Verify checks that both proofs are about the
 same secret

---
 ccs08/ccs08.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 75eda2f..2278aa4 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -437,5 +437,13 @@ Verify is responsible for validating the proof.
 func (zkrp *ccs08) Verify() (bool, error) {
     first, _ := VerifyUL(&zkrp.proof_out.p1, zkrp.p.p)
     second, _ := VerifyUL(&zkrp.proof_out.p2, zkrp.p.p)
-    return first && second, nil
+
+    // Both proofs must be about the same x: (x - b + ul) - (x - a) = a - b + ul
+    shift := new(big.Int).Exp(new(big.Int).SetInt64(zkrp.p.p.u), new(big.Int).SetInt64(zkrp.p.p.l), nil)
+    shift.Add(shift, new(big.Int).SetInt64(zkrp.p.a))
+    shift.Sub(shift, new(big.Int).SetInt64(zkrp.p.b))
+    C := new(bn256.G2).ScalarBaseMult(shift)
+    C.Add(C, zkrp.proof_out.p2.C)
+    linked := bytes.Equal(C.Marshal(), zkrp.proof_out.p1.C.Marshal())
+    return first && second && linked, nil
 }
-- 
2.43.0


From 1845751f34f0ebe4a5f88298a48008f29ead24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 22/31] fix: BulletProof.Verify uses the complete point
 addition, so a negated Commit is rejected

---
 bulletproofs/bp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index abe984a..398b5cc 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -287,7 +287,7 @@ func (proof *BulletProof) Verify() (bool, error) {
     // S^x
     Sx := new(p256.P256).ScalarMult(proof.S, x)
     // A.S^x
-    ASx := new(p256.P256).Add(proof.A, Sx)
+    ASx := new(p256.P256).Multiply(proof.A, Sx)
 
     // g^-z
     mz := bn.Sub(ORDER, z)
@@ -307,12 +307,12 @@ func (proof *BulletProof) Verify() (bool, error) {
     zynz22n, _ := VectorAdd(zyn, z22n)
 
     lP := new(p256.P256)
-    lP.Add(ASx, gpmz)
+    lP.Multiply(ASx, gpmz)
 
     // h'^(z.y^n + z^2.2^n)
     hprimeexp, _ := VectorExp(hprime, zynz22n)
 
-    lP.Add(lP, hprimeexp)
+    lP.Multiply(lP, hprimeexp)
 
     // Compute P - rhs  #################### Condition (67) ######################
 
@@ -322,7 +322,7 @@ func (proof *BulletProof) Verify() (bool, error) {
 
     // Subtract lhs and rhs and compare with poitn at infinity
     lP = lP.Neg(lP)
-    rP.Add(rP, lP)
+    rP.Multiply(rP, lP)
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-- 
2.43.0


From bd198e5049a1c7015bfd036471ed7037e1dacd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 23/31] fix: CommitG1 is correct when both summands are the
 same point

---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 1e2fea3..41f2874 100644
--- a/util/util.go
+++ b/util/util.go
@@ -70,7 +70,7 @@ message x, and randomness r, it outputs g^x.h^r.
 func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
     var C = new(p256.P256).ScalarBaseMult(x)
     Hr := new(p256.P256).ScalarMult(h, r)
-    C.Add(C, Hr)
+    C.Multiply(C, Hr)
     return C, nil
 }
 
-- 
2.43.0


From 5a294f4ba4d3449fc0d80b8a0806cdbd882af768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:51 +0000
Subject: [PATCH 24/31] fix: bulletproof challenges bind the commitment V and
 the earlier messages (CVE-2022-29566)

---
 bulletproofs/bp.go   |  8 ++++----
 bulletproofs/util.go | 20 ++++++++++++--------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 398b5cc..aa3e65d 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -126,7 +126,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     S := commitVectorBig(sL, sR, rho, params.H, params.Gg, params.Hh, params.N) // (47)
 
     // Fiat-Shamir heuristic to compute challenges y and z, corresponds to    (49)
-    y, z, _ := HashBP(A, S)
+    y, z, _ := hashPoints(V, A, S)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Second phase: page 20
@@ -179,7 +179,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     T2, _ := CommitG1(t2, tau2, params.H) // (53)
 
     // Fiat-Shamir heuristic to compute 'random' challenge x
-    x, _, _ := HashBP(T1, T2)
+    x, _, _ := hashPoints(V, A, S, T1, T2)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Third phase                                                              //
@@ -244,8 +244,8 @@ Verify returns true if and only if the proof is valid.
 func (proof *BulletProof) Verify() (bool, error) {
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
-    x, _, _ := HashBP(proof.T1, proof.T2)
-    y, z, _ := HashBP(proof.A, proof.S)
+    x, _, _ := hashPoints(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+    y, z, _ := hashPoints(proof.V, proof.A, proof.S)
 
     // Switch generators                                                   // (64)
     hprime := updateGenerators(params.Hh, y, params.N)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7cba23e..3e56430 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -52,13 +52,20 @@ func powerOf(x *big.Int, n int64) []*big.Int {
 Hash is responsible for the computing a Zp element given elements from GT and G1.
 */
 func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
+    return hashPoints(A, S)
+}
+
+/*
+hashPoints computes two Zp elements from the given points.
+*/
+func hashPoints(points ...*p256.P256) (*big.Int, *big.Int, error) {
 
     digest1 := sha256.New()
     var buffer bytes.Buffer
-    buffer.WriteString(A.X.String())
-    buffer.WriteString(A.Y.String())
-    buffer.WriteString(S.X.String())
-    buffer.WriteString(S.Y.String())
+    for _, point := range points {
+        buffer.WriteString(point.X.String())
+        buffer.WriteString(point.Y.String())
+    }
     digest1.Write(buffer.Bytes())
     output1 := digest1.Sum(nil)
     tmp1 := output1[0:]
@@ -66,10 +73,7 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
 
     digest2 := sha256.New()
     var buffer2 bytes.Buffer
-    buffer2.WriteString(A.X.String())
-    buffer2.WriteString(A.Y.String())
-    buffer2.WriteString(S.X.String())
-    buffer2.WriteString(S.Y.String())
+    buffer2.Write(buffer.Bytes())
     buffer2.WriteString(result1.String())
     digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
-- 
2.43.0


From becdc39072a3f09af0d076f487995eb2f35e6f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:51 +0000
Subject: [PATCH 25/31] fix: BulletProof.Verify ties the inner product proof to
 the statement it verifies

---
 bulletproofs/bip.go |  3 +++
 bulletproofs/bp.go  | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index fd675fa..bbf34e2 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -220,6 +220,9 @@ Verify is responsible for the verification of the Inner Product Proof.
 func (proof InnerProductProof) Verify() (bool, error) {
 
     logn := len(proof.Ls)
+    if len(proof.Rs) != logn || logn > 62 || int64(1)<<uint(logn) != proof.N {
+        return false, errors.New("wrong number of rounds")
+    }
     var (
         x, xinv, x2, x2inv                   *big.Int
         ngprime, nhprime, ngprime2, nhprime2 []*p256.P256
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index aa3e65d..874e87c 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -326,7 +326,20 @@ func (proof *BulletProof) Verify() (bool, error) {
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-    ok, _ := proof.InnerProductProof.Verify()
+    // It must be about the statement checked above: generators g and h', the
+    // point Commit and the inner product tprime.
+    ipp := proof.InnerProductProof
+    ippParams, setupErr := setupInnerProduct(params.H, params.Gg, hprime, proof.Tprime, params.N)
+    if setupErr != nil {
+        return false, setupErr
+    }
+    xip, _ := hashIP(params.Gg, hprime, proof.Commit, proof.Tprime, params.N)
+    ipp.N = params.N
+    ipp.U = new(p256.P256).ScalarMult(ippParams.Uu, xip)
+    ipp.Params = ippParams
+    ipp.Params.P = new(p256.P256).ScalarMult(ipp.U, proof.Tprime)
+    ipp.Params.P.Multiply(ipp.Params.P, proof.Commit)
+    ok, _ := ipp.Verify()
 
     result := c65 && c67 && ok
 
-- 
2.43.0


From a52e8bfaee34a6b47d1bcc607da9e2e9d35ad5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:51 +0000
Subject: [PATCH 26/31] fix: generic range proofs tie both bulletproofs to one
 secret and interval

---
 bulletproofs/bp.go   |  9 ++++++++-
 bulletproofs/bprp.go | 26 +++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 874e87c..c2683fa 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -102,6 +102,14 @@ eprint version of Bulletproofs papers:
 https://eprint.iacr.org/2017/1066.pdf
 */
 func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error) {
+    gamma, _ := rand.Int(rand.Reader, ORDER)
+    return prove(secret, gamma, params)
+}
+
+/*
+prove computes the ZK rangeproof for the commitment g^secret.h^gamma.
+*/
+func prove(secret, gamma *big.Int, params BulletProofSetupParams) (BulletProof, error) {
     var (
         proof BulletProof
     )
@@ -110,7 +118,6 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     // ////////////////////////////////////////////////////////////////////////////
 
     // commitment to v and gamma
-    gamma, _ := rand.Int(rand.Reader, ORDER)
     V, _ := CommitG1(secret, gamma, params.H)
 
     // aL, aR and commitment: (A, alpha)
diff --git a/bulletproofs/bprp.go b/bulletproofs/bprp.go
index 7b196a5..cd85236 100644
--- a/bulletproofs/bprp.go
+++ b/bulletproofs/bprp.go
@@ -18,7 +18,10 @@
 package bulletproofs
 
 import (
+    "crypto/rand"
     "math/big"
+
+    "github.com/ing-bank/zkrp/crypto/p256"
 )
 
 /*
@@ -36,6 +39,9 @@ type bprp struct {
 ProofBPRP stores the generic ZKRP.
 */
 type ProofBPRP struct {
+    // A and B are the ends of the interval [A, B) the proof is about.
+    A  int64
+    B  int64
     P1 BulletProof
     P2 BulletProof
 }
@@ -68,6 +74,12 @@ https://infoscience.epfl.ch/record/128718/files/CCS08.pdf
 */
 func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
     var proof ProofBPRP
+    proof.A = params.A
+    proof.B = params.B
+
+    // Both commitments use the same gamma, so that the verifier can check that
+    // they are about the same secret.
+    gamma, _ := rand.Int(rand.Reader, ORDER)
 
     // x - b + 2^N
     p2 := new(big.Int).SetInt64(MAX_RANGE_END)
@@ -75,14 +87,14 @@ func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
     xb.Add(xb, p2)
 
     var err1 error
-    proof.P1, err1 = Prove(xb, params.BP1)
+    proof.P1, err1 = prove(xb, gamma, params.BP1)
     if err1 != nil {
         return proof, err1
     }
 
     xa := new(big.Int).Sub(secret, new(big.Int).SetInt64(params.A))
     var err2 error
-    proof.P2, err2 = Prove(xa, params.BP2)
+    proof.P2, err2 = prove(xa, gamma, params.BP2)
     if err2 != nil {
         return proof, err2
     }
@@ -103,5 +115,13 @@ func (proof ProofBPRP) Verify() (bool, error) {
         return false, err2
     }
 
-    return ok1 && ok2, nil
+    // (x - B + 2^N) - (x - A) = A - B + 2^N
+    shift := new(big.Int).SetInt64(MAX_RANGE_END)
+    shift.Add(shift, new(big.Int).SetInt64(proof.A))
+    shift.Sub(shift, new(big.Int).SetInt64(proof.B))
+    diff := new(p256.P256).ScalarBaseMult(shift)
+    diff.Multiply(diff, proof.P2.V)
+    diff.Neg(diff)
+    diff.Multiply(diff, proof.P1.V)
+    return diff.IsZero(), nil
 }
-- 
2.43.0


From 9d22a3f7a21a065515a04042bd07091e9ec87d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:22 +0000
Subject: [PATCH 27/31] fix: ccs08 setup reports an element that can not be
 signed

---
 ccs08/ccs08.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 2278aa4..5abea62 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -106,7 +106,10 @@ func SetupSet(s []int64) (paramsSet, error) {
 
     p.signatures = make(map[int64]*bn256.G2)
     for i = 0; i < len(s); i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        sig_i, err := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        if err != nil {
+            return p, err
+        }
         p.signatures[s[i]] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
@@ -129,7 +132,10 @@ func SetupUL(u, l int64) (paramsUL, error) {
 
     p.signatures = make(map[string]*bn256.G2)
     for i = 0; i < u; i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        sig_i, err := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        if err != nil {
+            return p, err
+        }
         p.signatures[strconv.FormatInt(i, 10)] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
-- 
2.43.0


From 7792164883bac124e9a5c74dbb48570ba8c1b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:12 +0000
Subject: [PATCH 28/31] fix: the string form of a G1 point does not depend on
 its representation

---
 crypto/bn256/curve.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 0a0c271..2781c81 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -49,7 +49,9 @@ func newCurvePoint(pool *bnPool) *curvePoint {
 
 func (c *curvePoint) String() string {
     c.MakeAffine(new(bnPool))
-    return "(" + c.x.String() + ", " + c.y.String() + ")"
+    x := new(big.Int).Mod(c.x, P)
+    y := new(big.Int).Mod(c.y, P)
+    return "(" + x.String() + ", " + y.String() + ")"
 }
 
 func (c *curvePoint) Put(pool *bnPool) {
-- 
2.43.0


From be7a00967ec924b4a6fa72c80a3c9ea3af21902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 29/31] fix: inner product challenges bind the statement and
 the earlier rounds

---
 bulletproofs/bip.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index bbf34e2..502e08c 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -177,7 +177,8 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
         R.Multiply(R, new(p256.P256).ScalarMult(u, cR))
 
         // Fiat-Shamir:                                                       // (26)
-        x, _, _ = HashBP(L, R)
+        // The challenge depends on u and the current statement, so on every earlier message.
+        x, _, _ = hashPoints(u, P, L, R)
         xinv = bn.ModInverse(x, ORDER)
 
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -235,7 +236,7 @@ func (proof InnerProductProof) Verify() (bool, error) {
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
-        x, _, _ = HashBP(proof.Ls[i], proof.Rs[i]) // (26)
+        x, _, _ = hashPoints(proof.U, Pprime, proof.Ls[i], proof.Rs[i]) // (26)
         xinv = bn.ModInverse(x, ORDER)
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
         ngprime = vectorScalarExp(gprime[:nprime], xinv)
-- 
2.43.0


From 16123424b350123762372683b5f73cb56874c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:49 +0000
Subject: [PATCH 30/31] fix: reject ccs08 proofs whose blinded signature is at
 infinity

They satisfied the verification equations for any committed value.
---
 ccs08/ccs08.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 5abea62..7bb7025 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -272,6 +272,10 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // A blinded signature at infinity would satisfy the equations for any value.
+    if proof_out.V.IsZero() {
+        return false, nil
+    }
     // The challenge must be the one the commitments hash to.
     c, _ := Hash([]*bn256.GT{proof_out.a}, proof_out.D, proof_out.C, proof_out.V)
     c = bn.Mod(c, bn256.Order)
@@ -315,6 +319,12 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // A blinded signature at infinity would satisfy the equations for any value.
+    for i = 0; i < p.l; i++ {
+        if proof_out.V[i].IsZero() {
+            return false, nil
+        }
+    }
     // The challenge must be the one the commitments hash to.
     c, _ := Hash(proof_out.a, append([]*bn256.G2{proof_out.D, proof_out.C}, proof_out.V...)...)
     c = bn.Mod(c, bn256.Order)
-- 
2.43.0


From 57b4e0b64b4440bfa3e941a88e38993e529171bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:00 +0000
Subject: [PATCH 31/31] fix: ccs08 Setup counts the digits of intervals of
 width 2^63 and more

---
 ccs08/ccs08.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 7bb7025..19dbe73 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -408,7 +408,7 @@ func (zkrp *ccs08) Setup(a, b int64) error {
         u = 57
         if u != 0 {
             l = 0
-            for i := b - a; i > 0; i = i / u {
+            for i := uint64(b - a); i > 0; i = i / uint64(u) {
                 l = l + 1
             }
             params_out, e := SetupUL(u, l)
-- 
2.43.0

