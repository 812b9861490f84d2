From 1cbed706000f554380dbb76c0cd41261d73fc683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 01/23] fix: carry and borrow out of Add64/Sub64 when y is all
 ones and a carry comes in

---
 src/arithmetic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index acbe906..c5a1f75 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -440,7 +440,7 @@ tuple<uint64_t, uint64_t> Add64(
 )
 {
     uint64_t sum = (x + y) + carry;
-    uint64_t carryOut = (sum < x);
+    uint64_t carryOut = ((x & y) | ((x | y) & ~sum)) >> 63;
     return {sum, carryOut};
 }
 
@@ -456,7 +456,7 @@ tuple<uint64_t, uint64_t> Sub64(
 )
 {
     uint64_t diff = x - y - borrow;
-    uint64_t borrowOut = (diff > x);
+    uint64_t borrowOut = ((~x & y) | (~(x ^ y) & diff)) >> 63;
     return {diff, borrowOut};
 }
 
-- 
2.43.0


From 033ace894aa501018571fa1392cdd2ab663b4eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 02/23] fix: scalar::add puts the final carry into the word
 above the operands

---
 include/bls12-381/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index f53a259..fabfe83 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -114,11 +114,11 @@ std::array<uint64_t, NC> add(const std::array<uint64_t, NA>& a, const std::array
     }
     if(carry > 0)
     {
-        if(NC <= N+1)
+        if(NC <= N)
         {
             throw std::invalid_argument("std::array c not large enough to store result!");
         }
-        c[N+1] = static_cast<uint64_t>(carry);
+        c[N] = static_cast<uint64_t>(carry);
     }
     return c;
 };
-- 
2.43.0


From 7a9fed3aa519037e2970448ef78b7edb1a971506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 03/23] fix: scalar::multiply wrote past its buffers when the
 result array is narrower than the product

---
 include/bls12-381/scalar.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index fabfe83..1c0ef96 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -127,13 +127,15 @@ std::array<uint64_t, NC> add(const std::array<uint64_t, NA>& a, const std::array
 template<size_t NC, size_t NA, size_t NB>
 std::array<uint64_t, NC> multiply(const std::array<uint64_t, NA>& a, const std::array<uint64_t, NB>& b)
 {
-    std::array<uint64_t, NC> c;
-    memset(c.data(), 0, NC * sizeof(uint64_t));
-    std::array<uint64_t, NC> buffer;
+    // wide enough for any product, so that no partial product is written past the end
+    constexpr size_t N = NC > NA + NB ? NC : NA + NB;
+    std::array<uint64_t, N> product;
+    memset(product.data(), 0, N * sizeof(uint64_t));
+    std::array<uint64_t, N> buffer;
     uint64_t carry = 0;
     for(uint64_t i = 0; i < NB; i++)
     {
-        memset(buffer.data(), 0, NC * sizeof(uint64_t));
+        memset(buffer.data(), 0, N * sizeof(uint64_t));
         for(uint64_t j = 0; j < NA; j++)
         {
             uint64_t hi, lo;
@@ -141,7 +143,19 @@ std::array<uint64_t, NC> multiply(const std::array<uint64_t, NA>& a, const std::
             std::tie(buffer[i+j], carry) = Add64(buffer[i+j], lo, 0);
             std::tie(buffer[i+j+1], carry) = Add64(buffer[i+j+1], hi, carry);
         }
-        c = add<NC, NC, NC>(c, buffer);
+        product = add<N, N, N>(product, buffer);
+    }
+    std::array<uint64_t, NC> c;
+    for(uint64_t i = 0; i < N; i++)
+    {
+        if(i < NC)
+        {
+            c[i] = product[i];
+        }
+        else if(product[i] != 0)
+        {
+            throw std::invalid_argument("std::array c not large enough to store result!");
+        }
     }
     return c;
 };
-- 
2.43.0


From 48c7042a0a888ee42a5d875ae70b070346d51779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 04/23] fix: bn_divn_low with a divisor that normalisation
 makes longer than the dividend

---
 src/scalar.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 908ffa2..1cb72a8 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -262,6 +262,13 @@ void bn_divn_low(uint64_t *c, uint64_t *d, uint64_t *a, int sa, uint64_t *b, int
         norm = 0;
     }
 
+    if(sa < sb)
+    {
+        // The divisor became longer than the dividend: the quotient is zero and the dividend is the remainder.
+        bn_rshb_low(d, a, sb, norm);
+        return;
+    }
+
     n = sa - 1;
     t = sb - 1;
 
-- 
2.43.0


From 88e6a8f14229a13691b13d07144f2662293c7582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 05/23] fix: fp6::frobeniusMap wrote the third power into the
 wrong coefficients

---
 src/fp.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index c57d117..a803956 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1128,9 +1128,10 @@ fp6 fp6::frobeniusMap(const uint64_t& power) const
         }
         case 3:
         {
-            _negate(&c.c0.c0, &c1.c1);
-            c.c1.c1 = c1.c0;
-            c.c2 = c2.negate();
+            fp t = c.c1.c0;
+            _negate(&c.c1.c0, &c.c1.c1);
+            c.c1.c1 = t;
+            c.c2 = c.c2.negate();
             break;
         }
         default:
-- 
2.43.0


From 73967df43f8b62a39937d35f93d2c1bd904b1d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 06/23] fix: fp12 Frobenius map read past its coefficient table
 for powers of 12 and above

---
 src/fp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index a803956..21cb619 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1490,7 +1490,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
     fp12 c;
     c.c0 = c0.frobeniusMap(power);
     c.c1 = c1.frobeniusMap(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1503,7 +1503,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
         }
         default:
         {
-            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power%12]);
             break;
         }
     }
@@ -1514,7 +1514,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
 {
     c0.frobeniusMapAssign(power);
     c1.frobeniusMapAssign(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1527,7 +1527,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
         }
         default:
         {
-            c1 = c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c1 = c1.mulByBaseField(frobeniusCoeffs12[power%12]);
             break;
         }
     }
-- 
2.43.0


From b2b44c0a9be96a90360dbd687582ad4ee410c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 07/23] fix: compressed encoding of the point at infinity
 lacked the infinity flag

---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index b15760a..4377176 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -180,7 +180,7 @@ void g1::toCompressedBytesBE(const span<uint8_t, 48> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g1 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero() || (p.x.isZero() && p.y.isZero()))
     {
         memset(out.data(), 0, 48);
         out[0] |= 0xC0;
@@ -898,7 +898,7 @@ void g2::toCompressedBytesBE(const span<uint8_t, 96> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g2 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero() || (p.x.isZero() && p.y.isZero()))
     {
         memset(out.data(), 0, 96);
         out[0] |= 0xC0;
-- 
2.43.0


From 2d768ea76a4089e61c8684b91c9a509b4c124ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 08/23] fix: reject non-canonical compressed points (x not
 below p, stray bits with the infinity flag)

---
 src/g.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index 4377176..2b01a2c 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -1,4 +1,5 @@
 #include <bls12-381/bls12-381.hpp>
+#include <algorithm>
 
 using namespace std;
 
@@ -105,6 +106,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // all other bits have to be zero
+        if(in[0] != 0xC0 || any_of(in.begin() + 1, in.end(), [](uint8_t b) { return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
@@ -113,11 +119,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     scalar::fromBytesBE(in, p.x.d);
     // erase 3 msbs from given input and perform validity check
     p.x.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x = p.x.toMont();
     if(!p.x.isValid())
     {
         return {};
     }
+    p.x = p.x.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
@@ -818,6 +824,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // all other bits have to be zero
+        if(in[0] != 0xC0 || any_of(in.begin() + 1, in.end(), [](uint8_t b) { return b != 0; }))
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
@@ -831,11 +842,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     p.x.c0 = *c0;
     // erase 3 msbs from given input and perform validity check
     p.x.c1.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x.c1 = p.x.c1.toMont();
     if(!p.x.c1.isValid())
     {
         return {};
     }
+    p.x.c1 = p.x.c1.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
-- 
2.43.0


From fb733f405d8561dfc9718e60babb9534c4aa5070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 09/23] fix: hexToBytes read beyond strings shorter than two
 characters

---
 src/scalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 1cb72a8..1068699 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -8,7 +8,7 @@ namespace bls12_381
 vector<uint8_t> hexToBytes(std::string_view s)
 {
     uint64_t start_idx = 0;
-    if(s[0] == '0' && s[1] == 'x')
+    if(s.length() >= 2 && s[0] == '0' && s[1] == 'x')
     {
         start_idx = 2;
     }
-- 
2.43.0


From be701561e0bfc5bc4a8f9b05b45b81704a83ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 10/23] fix: hkdf256_expand leaked its buffers when no output
 was requested

---
 src/signatures.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 7dbc161..4cceee9 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -98,16 +98,16 @@ int hkdf256_expand(
     size_t N = (L + 32 - 1) / 32; // Round up
     size_t bytesWritten = 0;
 
-    array<uint8_t, 32> T;
-    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
-    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
-
     if(N < 1 || N > 255)
     {
         //throw invalid_argument("assert(N >= 1 && N <= 255)");
         return -3;
     }
 
+    array<uint8_t, 32> T;
+    uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
+    uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
+
     for(size_t i = 1; i <= N; i++)
     {
         if(i == 1)
-- 
2.43.0


From 180ae9f3c8104d1cf434342dec78497940b08a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 11/23] fix: key derivation continued with undefined key
 material when memory ran out

---
 src/signatures.cpp | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 4cceee9..7095026 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -108,20 +108,35 @@ int hkdf256_expand(
     uint8_t* hmacInput1 = reinterpret_cast<uint8_t*>(malloc(infoLen + 1));
     uint8_t* hmacInput = reinterpret_cast<uint8_t*>(malloc(32 + infoLen + 1));
 
+    if(hmacInput1 == NULL || hmacInput == NULL)
+    {
+        //throw bad_alloc();
+        free(hmacInput1);
+        free(hmacInput);
+        return -6;
+    }
+
     for(size_t i = 1; i <= N; i++)
     {
+        int r;
         if(i == 1)
         {
             memcpy(hmacInput1, info, infoLen);
             hmacInput1[infoLen] = i;
-            hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
+            r = hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
         }
         else
         {
             memcpy(hmacInput, T.data(), 32);
             memcpy(hmacInput + 32, info, infoLen);
             hmacInput[32 + infoLen] = i;
-            hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
+            r = hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
+        }
+        if(r != 0)
+        {
+            free(hmacInput1);
+            free(hmacInput);
+            return r;
         }
         size_t to_write = L - bytesWritten;
         if(to_write > 32)
@@ -186,6 +201,10 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     uint8_t saltLen = 20;
 
     uint8_t *ikmHkdf = reinterpret_cast<uint8_t*>(malloc(seed.size() + 1));
+    if(ikmHkdf == NULL)
+    {
+        throw bad_alloc();
+    }
     memcpy(ikmHkdf, &seed[0], seed.size());
     ikmHkdf[seed.size()] = 0;
 
@@ -201,7 +220,7 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
     array<uint64_t, 4> sk;
     while(true)
     {
-        hkdf256_extract_expand(
+        int r = hkdf256_extract_expand(
             okmHkdf.data(),
             L,
             ikmHkdf,
@@ -211,6 +230,12 @@ array<uint64_t, 4> secret_key(std::span<const uint8_t> seed)
             keyInfoHkdf,
             infoLen + 2
         );
+        if(r != 0)
+        {
+            // no key without key material: the only way to fail here is lack of memory
+            free(ikmHkdf);
+            throw bad_alloc();
+        }
 
         // Make sure private key is less than the curve order
         array<uint64_t, 6> skBn = scalar::fromBytesBE<6>(span<uint8_t, 48>(okmHkdf.begin(), okmHkdf.end()));
@@ -246,7 +271,11 @@ void ikm_to_lamport_sk(
 {
     // Expands the ikm to 255*HASH_LEN bytes for the lamport sk
     const uint8_t info[1] = {};
-    hkdf256_extract_expand(outputLamportSk, 32 * 255, ikm, ikmLen, salt, saltLen, info, 0);
+    if(0 != hkdf256_extract_expand(outputLamportSk, 32 * 255, ikm, ikmLen, salt, saltLen, info, 0))
+    {
+        // the only way to fail here is lack of memory
+        throw bad_alloc();
+    }
 }
 
 void parent_sk_to_lamport_pk(
-- 
2.43.0


From f8aa4deba6e67dafa6ec664664c45173e3a6fef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 12/23] fix: xmd_sh256 mishandled messages of 2 GiB and more
 and negative tag lengths

---
 include/bls12-381/signatures.hpp | 2 +-
 src/signatures.cpp               | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bls12-381/signatures.hpp b/include/bls12-381/signatures.hpp
index 098b539..f05b82b 100644
--- a/include/bls12-381/signatures.hpp
+++ b/include/bls12-381/signatures.hpp
@@ -20,7 +20,7 @@ int xmd_sh256(
     uint8_t *buf,
     int buf_len,
     const uint8_t *in,
-    int in_len,
+    size_t in_len,
     const uint8_t *dst,
     int dst_len
 );
diff --git a/src/signatures.cpp b/src/signatures.cpp
index 7095026..aecbc57 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -474,7 +474,7 @@ int xmd_sh256(
     uint8_t *buf,
     int buf_len,
     const uint8_t *in,
-    int in_len,
+    size_t in_len,
     const uint8_t *dst,
     int dst_len
 )
@@ -482,7 +482,7 @@ int xmd_sh256(
     const unsigned int SHA256HashSize = 32;
     const unsigned int SHA256_Message_Block_Size = 64;
     const unsigned ell = (buf_len + SHA256HashSize - 1) / SHA256HashSize;
-    if (buf_len < 0 || ell > 255 || dst_len > 255)
+    if (buf_len < 0 || ell > 255 || dst_len < 0 || dst_len > 255)
     {
         return -1;
     }
-- 
2.43.0


From 10c08b59c81520314afc4841b8a6c7f3b1c0750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 13/23] fix: fromMessage hashed uninitialised memory for tags
 longer than 255 bytes

---
 src/signatures.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index aecbc57..34c7f23 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -529,7 +529,20 @@ g2 fromMessage(
 )
 {
     uint8_t buf[4 * 64];
-    xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length());
+    if(dst.length() > 255)
+    {
+        // RFC 9380, section 5.3.3: a tag longer than 255 bytes is replaced by its hash
+        uint8_t hashedDst[32];
+        sha256 sha;
+        sha.update("H2C-OVERSIZE-DST-");
+        sha.update(dst);
+        sha.digest(hashedDst);
+        xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), hashedDst, 32);
+    }
+    else
+    {
+        xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length());
+    }
 
     array<uint64_t, 8> k = {};
     fp2 t = fp2::zero();
-- 
2.43.0


From 7f1dfa0f00b9dbfc6a66a2815e9cf07c704cb286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 14/23] fix: g1::mapToCurve returned a point off the curve for
 inputs mapping into the kernel of the isogeny

---
 src/g.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index 2b01a2c..9d70865 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -545,6 +545,11 @@ g1 g1::mapToCurve(const fp& e)
     fp x, y, z = fp::one();
     tie(x, y) = swuMapG1(e);
     isogenyMapG1(x, y);
+    if(x.isZero() && y.isZero())
+    {
+        // a denominator of the isogeny vanishes (the inverse of zero is zero): the image is the point at infinity
+        return zero();
+    }
     g1 p({x, y, z});
     p = p.clearCofactor();
     return p;
-- 
2.43.0


From a5bd930e30b27c3383bf4fa7797ec58ee7e8e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 15/23] fix: miller_loop ran out of bounds for an empty list of
 pairs

---
 src/pairing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pairing.cpp b/src/pairing.cpp
index 1f98083..e744a04 100644
--- a/src/pairing.cpp
+++ b/src/pairing.cpp
@@ -114,7 +114,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         {
             f = f.square();
         }
-        for(uint64_t j = 0; j <= pairs.size()-1; j++)
+        for(uint64_t j = 0; j < pairs.size(); j++)
         {
             t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
             t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
@@ -123,7 +123,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         if(((g2::cofactorEFF[0] >> i) & 1) == 1)
         {
             k++;
-            for(uint64_t j = 0; j <= pairs.size()-1; j++)
+            for(uint64_t j = 0; j < pairs.size(); j++)
             {
                 t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
                 t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
-- 
2.43.0


From 82f9531849f222482af35a3d99a2a17ff6c312ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 16/23] fix: HMAC/HKDF passed null pointers to memcpy for empty
 arguments

---
 src/signatures.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 34c7f23..9baf7a5 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -41,7 +41,10 @@ int hkdf256_hmac(
     }
     if(key_len <= block_size)
     {
-        memcpy(_key, key, key_len);
+        if(key_len > 0)
+        {
+            memcpy(_key, key, key_len);
+        }
         memset(_key + key_len, 0, block_size - key_len);
         key = _key;
     }
@@ -50,7 +53,10 @@ int hkdf256_hmac(
         opad[i] = 0x5C ^ key[i];
         ipad[i] = 0x36 ^ key[i];
     }
-    memcpy(ipad + block_size, in, in_len);
+    if(in_len > 0)
+    {
+        memcpy(ipad + block_size, in, in_len);
+    }
     sha256 sha_opad;
     sha_opad.update(ipad, block_size + in_len);
     sha_opad.digest(opad + block_size);
@@ -121,14 +127,20 @@ int hkdf256_expand(
         int r;
         if(i == 1)
         {
-            memcpy(hmacInput1, info, infoLen);
+            if(infoLen > 0)
+            {
+                memcpy(hmacInput1, info, infoLen);
+            }
             hmacInput1[infoLen] = i;
             r = hkdf256_hmac(T.data(), hmacInput1, infoLen + 1, prk, 32);
         }
         else
         {
             memcpy(hmacInput, T.data(), 32);
-            memcpy(hmacInput + 32, info, infoLen);
+            if(infoLen > 0)
+            {
+                memcpy(hmacInput + 32, info, infoLen);
+            }
             hmacInput[32 + infoLen] = i;
             r = hkdf256_hmac(T.data(), hmacInput, 32 + infoLen + 1, prk, 32);
         }
-- 
2.43.0


From 13475e8ee0e1205232d3b5f1ba374e0840f9df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 17/23] fix: portable squaring lost a carry between limbs in
 the doubling multiply-add primitives

---
 src/arithmetic.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index c5a1f75..7f188d1 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -537,7 +537,7 @@ tuple<uint64_t, uint64_t> madd2(
     return {hi, lo};
 }
 
-// madd2s superhi, hi, lo = 2*a*b + c + d + e
+// madd2s superhi, hi, lo = 2*a*b + c + e + d*2^64
 tuple<uint64_t, uint64_t, uint64_t> madd2s(
     const uint64_t& a,
     const uint64_t& b,
@@ -546,17 +546,20 @@ tuple<uint64_t, uint64_t, uint64_t> madd2s(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, d, 0);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -567,14 +570,16 @@ tuple<uint64_t, uint64_t, uint64_t> madd1s(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, d, 0);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -585,16 +590,18 @@ tuple<uint64_t, uint64_t, uint64_t> madd2sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -604,13 +611,14 @@ tuple<uint64_t, uint64_t, uint64_t> madd1sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
-- 
2.43.0


From 55958c9fcf58fd0489772755facd831d30eb725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 18/23] fix: fp6::mulBy01Assign overwrote c2 before its last
 use as an operand

---
 src/fp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index 21cb619..6f7ab40 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1025,11 +1025,11 @@ void fp6::mulBy01Assign(const fp2& e0, const fp2& e1)
     t[5] = c0.add(c2);
     t[3] = e0.multiply(t[5]);
     t[3].subtractAssign(t[0]);
-    c2 = t[3].add(t[1]);
     t[4] = e0.add(e1);
     t[5] = c0.add(c1);
     t[4].multiplyAssign(t[5]);
     t[4].subtractAssign(t[0]);
+    c2 = t[3].add(t[1]);
     c1 = t[4].subtract(t[1]);
     c0 = t[2].add(t[0]);
 }
-- 
2.43.0


From 3284ca61bf94140532b2e250696c47dc9d9a8b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 19/23] fix: declare addition_step and pre_compute with the
 signatures they are defined with

pairing.hpp declared both with a non-const g2& while pairing.cpp defines them
with const g2&, so every call failed to link.
---
 include/bls12-381/pairing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/pairing.hpp b/include/bls12-381/pairing.hpp
index ab841c6..bd18da8 100644
--- a/include/bls12-381/pairing.hpp
+++ b/include/bls12-381/pairing.hpp
@@ -17,8 +17,8 @@ class g2;
 namespace pairing
 {
     void doubling_step(std::array<fp2, 3>& coeff, g2& r);
-    void addition_step(std::array<fp2, 3>& coeff, g2& r, g2& tp);
-    void pre_compute(std::array<std::array<fp2, 3>, 68>& ellCoeffs, g2& twistPoint);
+    void addition_step(std::array<fp2, 3>& coeff, g2& r, const g2& tp);
+    void pre_compute(std::array<std::array<fp2, 3>, 68>& ellCoeffs, const g2& twistPoint);
     fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()> yield);
     void final_exponentiation(fp12& f);
     fp12 calculate(std::span<const std::tuple<g1, g2>> pairs, std::function<void()> yield = std::function<void()>());
-- 
2.43.0


From cdeba115825aa3b06078ba8d2a943f4a79fc03dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 20/23] fix: make the library's constants constant-initialised
 so that static initialisers elsewhere can use it

Constants such as fp::MODULUS and g1::BASE were filled in by dynamic initialisers; a namespace-scope
object of another file that signs or derives a key before them computed with zeros and never returned.
---
 include/bls12-381/fp.hpp | 24 ++++++++++----------
 include/bls12-381/g.hpp  | 12 +++++-----
 src/fp.cpp               | 48 ----------------------------------------
 src/g.cpp                | 24 --------------------
 4 files changed, 18 insertions(+), 90 deletions(-)

diff --git a/include/bls12-381/fp.hpp b/include/bls12-381/fp.hpp
index 7feb0d0..6b9f801 100644
--- a/include/bls12-381/fp.hpp
+++ b/include/bls12-381/fp.hpp
@@ -30,9 +30,9 @@ class fp
 public:
     std::array<uint64_t, 6> d;
 
-    fp();
-    explicit fp(const std::array<uint64_t, 6>& d);
-    fp(const fp& e);
+    constexpr fp() : d{0, 0, 0, 0, 0, 0} {}
+    constexpr explicit fp(const std::array<uint64_t, 6>& d) : d{d[0], d[1], d[2], d[3], d[4], d[5]} {}
+    constexpr fp(const fp& e) : d{e.d[0], e.d[1], e.d[2], e.d[3], e.d[4], e.d[5]} {}
     static std::optional<fp> fromBytesBE(const std::span<const uint8_t, 48> in,
                                          const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp> fromBytesLE(const std::span<const uint8_t, 48> in,
@@ -118,9 +118,9 @@ public:
     fp c0;
     fp c1;
 
-    fp2();
-    explicit fp2(const std::array<fp, 2>& e2);
-    fp2(const fp2& e);
+    constexpr fp2() : c0(fp()), c1(fp()) {}
+    constexpr explicit fp2(const std::array<fp, 2>& e2) : c0(e2[0]), c1(e2[1]) {}
+    constexpr fp2(const fp2& e) : c0(e.c0), c1(e.c1) {}
     static std::optional<fp2> fromBytesBE(const std::span<const uint8_t, 96> in,
                                           const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp2> fromBytesLE(const std::span<const uint8_t, 96> in,
@@ -179,9 +179,9 @@ public:
     fp2 c1;
     fp2 c2;
 
-    fp6();
-    explicit fp6(const std::array<fp2, 3>& e3);
-    fp6(const fp6& e);
+    constexpr fp6() : c0(fp2()), c1(fp2()), c2(fp2()) {}
+    constexpr explicit fp6(const std::array<fp2, 3>& e3) : c0(e3[0]), c1(e3[1]), c2(e3[2]) {}
+    constexpr fp6(const fp6& e) : c0(e.c0), c1(e.c1), c2(e.c2) {}
     static std::optional<fp6> fromBytesBE(const std::span<const uint8_t, 288> in,
                                           const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp6> fromBytesLE(const std::span<const uint8_t, 288> in,
@@ -229,9 +229,9 @@ public:
     fp6 c0;
     fp6 c1;
 
-    fp12();
-    explicit fp12(const std::array<fp6, 2>& e2);
-    fp12(const fp12& e);
+    constexpr fp12() : c0(fp6()), c1(fp6()) {}
+    constexpr explicit fp12(const std::array<fp6, 2>& e2) : c0(e2[0]), c1(e2[1]) {}
+    constexpr fp12(const fp12& e) : c0(e.c0), c1(e.c1) {}
     static std::optional<fp12> fromBytesBE(const std::span<const uint8_t, 576> in,
                                            const conv_opt opt = { .check_valid = true, .to_mont = true });
     static std::optional<fp12> fromBytesLE(const std::span<const uint8_t, 576> in,
diff --git a/include/bls12-381/g.hpp b/include/bls12-381/g.hpp
index ab53a7a..62d978f 100644
--- a/include/bls12-381/g.hpp
+++ b/include/bls12-381/g.hpp
@@ -20,9 +20,9 @@ public:
     fp y;
     fp z;
 
-    g1();
-    explicit g1(const std::array<fp, 3>& e3);
-    g1(const g1& e);
+    constexpr g1() : x(fp()), y(fp()), z(fp()) {}
+    constexpr explicit g1(const std::array<fp, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2]) {}
+    constexpr g1(const g1& e) : x(e.x), y(e.y), z(e.z) {}
     static std::optional<g1> fromJacobianBytesBE(const std::span<const uint8_t, 144> in,
                                                  conv_opt opt = { .check_valid = false, .to_mont = true });
     static std::optional<g1> fromJacobianBytesLE(const std::span<const uint8_t, 144> in,
@@ -86,9 +86,9 @@ public:
     fp2 y;
     fp2 z;
 
-    g2();
-    explicit g2(const std::array<fp2, 3>& e3);
-    g2(const g2& e);
+    constexpr g2() : x(fp2()), y(fp2()), z(fp2()) {}
+    constexpr explicit g2(const std::array<fp2, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2]) {}
+    constexpr g2(const g2& e) : x(e.x), y(e.y), z(e.z) {}
     static std::optional<g2> fromJacobianBytesBE(const std::span<const uint8_t, 288> in,
                                                  conv_opt opt = { .check_valid = false, .to_mont = true });
     static std::optional<g2> fromJacobianBytesLE(const std::span<const uint8_t, 288> in,
diff --git a/src/fp.cpp b/src/fp.cpp
index 6f7ab40..2835fa3 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -5,18 +5,6 @@ using namespace std;
 namespace bls12_381
 {
 
-fp::fp() : d{0, 0, 0, 0, 0, 0}
-{
-}
-
-fp::fp(const array<uint64_t, 6>& d) : d{d[0], d[1], d[2], d[3], d[4], d[5]}
-{
-}
-
-fp::fp(const fp& e) : d{e.d[0], e.d[1], e.d[2], e.d[3], e.d[4], e.d[5]}
-{
-}
-
 optional<fp> fp::fromBytesBE(const span<const uint8_t, 48> in, const conv_opt opt)
 {
     // We decided to always validate the input here. But we reserve the flag.
@@ -453,18 +441,6 @@ const array<uint64_t, 6> fp::pMinus3Over4 = {
     0x0680'447a'8e5f'f9a6
 };
 
-fp2::fp2() : c0(fp()), c1(fp())
-{
-}
-
-fp2::fp2(const array<fp, 2>& e2) : c0(e2[0]), c1(e2[1])
-{
-}
-
-fp2::fp2(const fp2& e) : c0(e.c0), c1(e.c1)
-{
-}
-
 optional<fp2> fp2::fromBytesBE(const span<const uint8_t, 96> in, const conv_opt opt)
 {
     optional<fp> c1 = fp::fromBytesBE(span<const uint8_t, 48>(&in[ 0], 48), opt);
@@ -813,18 +789,6 @@ const fp2 fp2::psiY = fp2({
     }),
 });
 
-fp6::fp6() : c0(fp2()), c1(fp2()), c2(fp2())
-{
-}
-
-fp6::fp6(const array<fp2, 3>& e3) : c0(e3[0]), c1(e3[1]), c2(e3[2])
-{
-}
-
-fp6::fp6(const fp6& e) : c0(e.c0), c1(e.c1), c2(e.c2)
-{
-}
-
 optional<fp6> fp6::fromBytesBE(const span<const uint8_t, 288> in, const conv_opt opt)
 {
     optional<fp2> c2 = fp2::fromBytesBE(span<const uint8_t, 96>(&in[  0], 96), opt);
@@ -1227,18 +1191,6 @@ const array<fp2, 6> fp6::frobeniusCoeffs62 = array<fp2, 6>({
     }),
 });
 
-fp12::fp12() : c0(fp6()), c1(fp6())
-{
-}
-
-fp12::fp12(const array<fp6, 2>& e2) : c0(e2[0]), c1(e2[1])
-{
-}
-
-fp12::fp12(const fp12& e) : c0(e.c0), c1(e.c1)
-{
-}
-
 optional<fp12> fp12::fromBytesBE(const span<const uint8_t, 576> in, const conv_opt opt)
 {
     optional<fp6> c1 = fp6::fromBytesBE(span<const uint8_t, 288>(&in[  0], 288), opt);
diff --git a/src/g.cpp b/src/g.cpp
index 9d70865..7ed0192 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -6,18 +6,6 @@ using namespace std;
 namespace bls12_381
 {
 
-g1::g1() : x(fp()), y(fp()), z(fp())
-{
-}
-
-g1::g1(const array<fp, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2])
-{
-}
-
-g1::g1(const g1& e) : x(e.x), y(e.y), z(e.z)
-{
-}
-
 optional<g1> g1::fromJacobianBytesBE(const span<const uint8_t, 144> in, conv_opt opt)
 {
     // We decided to always validate the input here. Check flag will only affect on-curve checks.
@@ -729,18 +717,6 @@ const g1 g1::BASE = g1({
 
 const array<uint64_t, 1> g1::cofactorEFF = {0xd201000000010001};
 
-g2::g2() : x(fp2()), y(fp2()), z(fp2())
-{
-}
-
-g2::g2(const array<fp2, 3>& e3) : x(e3[0]), y(e3[1]), z(e3[2])
-{
-}
-
-g2::g2(const g2& e) : x(e.x), y(e.y), z(e.z)
-{
-}
-
 optional<g2> g2::fromJacobianBytesBE(const span<const uint8_t, 288> in, conv_opt opt)
 {
     // We decided to always validate the input here. Check flag will only affect on-curve checks.
-- 
2.43.0


From f6e87d3aaa932cf1328c6913b2bcc22c735a0e92 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 21/23] fix: define the ciphersuite tags in the header so that
 they exist before any static object that uses them

---
 include/bls12-381/signatures.hpp | 5 +++--
 src/signatures.cpp               | 4 ----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/bls12-381/signatures.hpp b/include/bls12-381/signatures.hpp
index f05b82b..8e511d5 100644
--- a/include/bls12-381/signatures.hpp
+++ b/include/bls12-381/signatures.hpp
@@ -12,8 +12,9 @@ namespace bls12_381 {
 class g1;
 class g2;
 
-extern const std::string CIPHERSUITE_ID;
-extern const std::string POP_CIPHERSUITE_ID;
+// Domain Separation Tags
+inline const std::string CIPHERSUITE_ID = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_";
+inline const std::string POP_CIPHERSUITE_ID = "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
 
 // Used to generate a domain separated extended sha256 hash used in 'map to curve'
 int xmd_sh256(
diff --git a/src/signatures.cpp b/src/signatures.cpp
index 9baf7a5..097965e 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -7,10 +7,6 @@ using namespace std;
 namespace bls12_381
 {
 
-// Domain Separation Tags
-const string CIPHERSUITE_ID = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_";
-const string POP_CIPHERSUITE_ID = "BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
-
 int hkdf256_hmac(
     uint8_t *mac,
     const uint8_t *in,
-- 
2.43.0


From 43f8c29a39d49073b98a0f4b9ee9e37044fb909d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 22/23] fix: g2::frobeniusMap did not return in reasonable time
 for large powers

---
 src/g.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/g.cpp b/src/g.cpp
index 7ed0192..72a94f7 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -1210,7 +1210,8 @@ g2 g2::frobeniusMap(int64_t power) const
         fp({0x7bcfa7a25aa30fda, 0xdc17dec12a927e7c, 0x2f088dd86b4ebef1, 0xd1ca2087da74d4a7, 0x2da2596696cebc1d, 0x0e2b7eedbbfd87d2}),
     });
     g2 r = *this;
-    for(; power > 0; power--)
+    // The map has order 12.
+    for(power %= 12; power > 0; power--)
     {
         r.x.frobeniusMapAssign(1);
         r.y.frobeniusMapAssign(1);
-- 
2.43.0


From 285c9a83ab43a3c4b4473f506b5e7bc7972a5492 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 23/23] fix: bn_divn_low with a divisor whose leading digits
 are zero divided by zero or did not return

---
 src/scalar.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 1068699..8c11362 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -238,6 +238,13 @@ void bn_divn_low(uint64_t *c, uint64_t *d, uint64_t *a, int sa, uint64_t *b, int
     int norm, i, n, t, sd;
     uint64_t carry, t1[3], t2[3];
 
+    // Leading zero digits of y do not take part in the division.
+    const int digits = sb;
+    while(sb > 1 && b[sb - 1] == 0)
+    {
+        sb--;
+    }
+
     // Normalize x and y so that the leading digit of y is bigger than 2^(RLC_DIG-1).
     // std::countl_zero will return 64 if uint64_t(0) is passed in. 
     // The %64 operation will handle this case.
@@ -342,7 +349,7 @@ void bn_divn_low(uint64_t *c, uint64_t *d, uint64_t *a, int sa, uint64_t *b, int
         }
     }
     // Remainder should be not be longer than the divisor.
-    bn_rshb_low(d, a, sb, norm);
+    bn_rshb_low(d, a, max(sb, digits), norm);
 }
 
 } // namespace bls12_381
-- 
2.43.0

